#!/usr/bin/env python3
"""catch.py REPOCOPY VERIFCOPY OUT [ID...]: applies each of /verif/seeded/ID to REPOCOPY and runs the check of its property
(or of PROPS, if set) from VERIFCOPY, both shown as /repo and /verif in a mount namespace of their own. Appends to OUT."""
import json, os, subprocess, sys, time
repo, ver, out = sys.argv[1:4]
ids = sys.argv[4:] or sorted(os.listdir('/verif/seeded'))
tier = os.environ.get('TIER', 'quick')
for i in ids:
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    subprocess.run(['git', '-C', repo, 'apply', d + '/patch.diff'], check=True)
    for prop in os.environ.get('PROPS', meta['property']).split():
        t = time.time()
        cmd = 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_SEED=%s VERIF_TIER=%s exec timeout 900 bash /verif/check.sh %s %s' % (repo, ver, os.environ.get('SEED', '1'), tier, prop, tier)
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
        res = 'caught' if p.returncode == 1 and v else 'missed' if p.returncode == 0 else 'rc=%d' % p.returncode
        with open(out, 'a') as f: f.write('%s %s %s %.0fs %s\n' % (i, prop, res, time.time() - t, (v or p.stdout.splitlines()[-1:] or [''])[0][:160]))
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
