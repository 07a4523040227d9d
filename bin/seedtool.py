#!/usr/bin/env python3
"""Planted bugs.
  seedtool.py verify [ID...]   build + stable tests + demo, in a scratch copy of /repo, clean and patched
  seedtool.py run [ID...]      apply to /repo, run the property's check, undo; prints caught / MISSED
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'
STABLE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='',
             CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors='replace')
    return p.returncode, p.stdout

def verify(i):
    d = S + '/' + i
    t = '/tmp/seedverify'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree('/repo', t, symlinks=True)
    ok = True
    try:
        c0, o0 = sh('bash %s/demo.sh' % d, t, 300)
        if c0 != 0: print(i, 'demo fails on the clean tree', o0[-600:]); ok = False
        c, o = sh('git apply %s/patch.diff' % d, t)
        if c: print(i, 'patch does not apply', o); return False
        c, o = sh('cargo build --offline && cargo test --offline 2>&1', t)
        import re
        res = re.findall(r'test result: (\w+)\. (\d+) passed; (\d+) failed', o)
        if c or not res or any(r[0] != 'ok' for r in res): print(i, 'build/tests fail', o[-1500:]); ok = False
        c1, o1 = sh('bash %s/demo.sh' % d, t, 300)
        if c1 == 0: print(i, 'demo passes with the patch', o1[-500:]); ok = False
        print(i, 'verified' if ok else 'INVALID', sum(int(r[1]) for r in res), 'tests;', 'demo says:', o1.strip().splitlines()[-1:] )
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return ok

def run(i):
    d = S + '/' + i
    m = json.load(open(d + '/meta.json'))
    c, o = sh('git -C /repo status --porcelain --untracked-files=no', '/repo')
    assert o.strip() == '', 'repo dirty: ' + o
    c, o = sh('git apply %s/patch.diff' % d, '/repo')
    assert c == 0, o
    try:
        c, o = sh('python3 bin/check.py ' + m['property'], V, 900)
    finally:
        sh('git checkout -- .', '/repo')
    hit = c == 1 and ('VIOLATION property=%s ' % m['property']) in o
    print('%-28s %s %s  %s' % (i, m['property'], 'caught' if hit else 'MISSED rc=%d' % c, ' | '.join(l for l in o.splitlines() if l.startswith('rejected'))[:150]))
    if not hit: print(o[-800:])
    sys.stdout.flush()
    return hit

if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.listdir(S))
    f = {'verify': verify, 'run': run}[sys.argv[1]]
    bad = [i for i in ids if not f(i)]
    print('%d of %d ok' % (len(ids) - len(bad), len(ids)), bad)
