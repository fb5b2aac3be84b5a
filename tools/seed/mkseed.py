#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the bug descriptions here and confirms each in a scratch copy of /repo.
mkseed.py SCRATCH [ID...]: SCRATCH is a git copy of /repo with its build products."""
import os, sys, subprocess, shutil, json, re
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs5 import BUGS
from special import SPECIAL
repo = sys.argv[1]
only = sys.argv[2:]
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
def sh(cmd, cwd=None, timeout=600):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, 'timeout'
env = '. /opt/vp/env.sh; '
seen_clean = {}
for b in BUGS:
    if only and b['id'] not in only: continue
    if not b['rs'] and not b['sh']: print(b['id'], 'NO DEMO'); continue
    sh('git checkout -q -- .', repo)
    bad = None
    for f, old, new in b['edits']:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1: bad = '%d matches in %s of %r' % (s.count(old), f, old[:80]); break
        open(p, 'w').write(s.replace(old, new))
    if bad: print(b['id'], 'EDIT', bad); continue
    diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    orig = set()
    for f in set(e[0] for e in b['edits']):
        orig |= set(subprocess.check_output(['git', '-C', '/repo', 'show', base + ':' + f], text=True).splitlines())
    mine = [l for l in removed if l not in orig]
    if not removed: print(b['id'], 'ADDS ONLY'); continue
    d = '/verif/seeded/' + b['id']
    stage = '/tmp/w/stage/' + b['id']
    shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
    open(stage + '/patch.diff', 'w').write(diff)
    for x, y in b.get('write', {}).items(): open(stage + '/' + x, 'w').write(y)
    if b['sh']:
        open(stage + '/demo.sh', 'w').write(b['sh'].lstrip())
        for x in b.get('files', []): shutil.copy(os.path.join(here, x), stage)
    else:
        shutil.copy(here + '/demo.sh', stage); shutil.copy(here + '/demolib.rs', stage); shutil.copy(here + '/Cargo.lock.demo', stage)
    if b['rs']:
        body = SPECIAL.get(b['rs'], b['rs'])
        open(stage + '/demo.rs', 'w').write('#![allow(unused_imports, dead_code)]\nmod demolib;\nuse demolib::*;\nuse dnssec_prover::rr::*;\nuse dnssec_prover::validation::VerifiedRRStream;\n\nfn main() {' + body + '}\n')
    os.chmod(stage + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(stage + '/meta.json', 'w'), indent=1)
    rc, out = sh(env + 'cargo test --offline --no-fail-fast --features std,tokio,validation -- --test-threads 8 --skip query::tests:: --skip test::test_lookup', repo)
    passed = len(re.findall(r'^test .* \.\.\. ok$', out, re.M)); failed = len(re.findall(r'^test .* \.\.\. FAILED$', out, re.M))
    if rc or failed or passed != 26:
        print(b['id'], 'TESTS rc=%d ok=%d failed=%d' % (rc, passed, failed), ' '.join(re.findall(r'^error.*', out, re.M)[:3]), re.findall(r'^test (.*) \.\.\. FAILED$', out, re.M)[:3]); continue
    rc1, out1 = sh('bash %s/demo.sh' % stage, repo, 300)
    sh('git checkout -q -- .', repo)
    rc0, out0 = sh('bash %s/demo.sh' % stage, repo, 300)
    if rc0 != 0 or rc1 == 0 or rc1 == 3:
        print(b['id'], 'DEMO clean=%d patched=%d' % (rc0, rc1), (out0 if rc0 else out1)[-800:]); continue
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(stage, d)
    print(b['id'], 'ok', ('(%d removed lines are of fixes)' % len(mine)) if mine else '', [l[:150] for l in out1.splitlines() if 'panicked at' in l or 'AssertionError' in l or 'wrong in' in l][:1], flush=True)
