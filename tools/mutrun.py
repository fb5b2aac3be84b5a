#!/usr/bin/env python3
"""mutrun.py LIST REPOCOPY VERIFCOPY OUT: tries each mutant of LIST (see mutate.py) on REPOCOPY with the checks of VERIFCOPY, both shown
as /repo and /verif in a mount namespace of their own. Several may share LIST and OUT
(each takes what nobody has claimed; OUT.stop ends them). Appends {id, res, by, secs} to OUT, res one of: nobuild, caught, survived, unclear."""
import json, os, subprocess, sys, time
lst, repo, ver, out = sys.argv[1:5]
ALL = ['C03', 'C10', 'C01', 'C02', 'C04', 'C05', 'C06', 'C08', 'C16', 'C15', 'C17', 'C09', 'C12', 'C11', 'C13', 'C14', 'C07', 'C20', 'C19', 'C18']
FIRST = {
 'src/validation.rs': ['C03', 'C02', 'C01', 'C08', 'C21', 'C04', 'C06', 'C05', 'C07'],
 'src/ser.rs': ['C10', 'C16', 'C15', 'C09', 'C12', 'C17'], 'src/rr.rs': ['C10', 'C13', 'C11', 'C12', 'C03', 'C09', 'C02', 'C08', 'C07'],
 'src/query.rs': ['C15', 'C16', 'C17', 'C14', 'C19', 'C18'], 'src/http.rs': ['C18'], 'src/base32.rs': ['C02', 'C03', 'C09', 'C11'],
 'src/crypto/hash.rs': ['C03', 'C01', 'C07'], 'src/crypto/mod.rs': ['C03', 'C01', 'C05'], 'wasmpack/src/lib.rs': ['C19', 'C13'],
}
# checks which cannot notice a change of the file: code they do not use
NEVER = {'src/http.rs': [c for c in ALL if c != 'C18'], 'wasmpack/src/lib.rs': [c for c in ALL if c not in ('C19', 'C13')]}
for l in open(lst):
    m = json.loads(l)
    try: os.makedirs(out + '.claim/' + m['id'])
    except FileExistsError: continue
    if os.path.exists(out + '.stop'): break
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
    p = os.path.join(repo, m['file'])
    lines = open(p).read().split('\n')
    assert lines[m['line'] - 1] == m['old'], m
    lines[m['line'] - 1] = m['new']
    open(p, 'w').write('\n'.join(lines))
    t = time.time()
    res, by = 'survived', ''
    first = FIRST[m['file']]
    order = first + ([] if os.environ.get('ONLY_FIRST') else [c for c in ALL if c not in first and c not in NEVER.get(m['file'], [])])
    for c in order:
        cmd = 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && export VH_INCREMENTAL=1 VERIF_SEED=1 VERIF_TIER=quick; exec timeout 400 bash /verif/check.sh %s quick' % (repo, ver, c)
        q = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if q.returncode == 1 and 'VIOLATION property=%s ' % c in q.stdout: res, by = 'caught', c; break
        if q.returncode == 2 and 'does not build' in q.stdout: res = 'nobuild'; break
        if q.returncode != 0: res, by = 'unclear', by + ' %s:%d' % (c, q.returncode)
    with open(out, 'a') as f: f.write(json.dumps({'id': m['id'], 'res': res, 'by': by.strip(), 'secs': round(time.time() - t)}) + '\n')
subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)
