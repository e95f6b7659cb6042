#!/usr/bin/env python3
"""confirm.py [ID...]: build the seeded changes described in seeds.py in a scratch copy of /repo and keep those confirmed.

A change is kept (written to /verif/seeded/ID) when it compiles, the tests pass with it, and its demonstration passes
without and fails with it."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
from seeds import SEEDS
W = '/tmp/seedwork'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', RUSTC_WRAPPER='', CARGO_TARGET_DIR=W + '/target',
           PATH='/root/.cargo/bin:' + os.environ['PATH'])
def sh(cmd, cwd=W, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def reset():
    sh('git checkout -q -- .')
    # cargo looks at times
    sh('find src websocket-base/src -name "*.rs" -exec touch {} +')
if not os.path.isdir(W):
    subprocess.check_call(['cp', '-a', '/repo', W])
else:
    sh('git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD')
reset()
ids = sys.argv[1:] or list(SEEDS)
baseline = set(json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) if False else None
for i in ids:
    s = SEEDS[i]
    reset()
    d = '/tmp/seed-' + i
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.rs', 'w').write(s['demo'])
    shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    r = sh(d + '/demo.sh')
    if r.returncode != 0:
        print(i, 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-3000:]); continue
    ok = True
    for f, old, new in s['edits']:
        p = W + '/' + f
        t = open(p).read()
        if t.count(old) != 1:
            print(i, 'EDIT does not match once in', f, t.count(old), repr(old[:80])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    diff = sh('git diff').stdout
    t = sh('cargo test --workspace --features nightly --no-fail-fast --offline -- --test-threads 8')
    if t.returncode != 0:
        print(i, 'TESTS FAIL', t.stdout[-2500:]); continue
    npass = sum(int(l.split(' passed')[0].split()[-1]) for l in t.stdout.splitlines() if l.startswith('test result'))
    r = sh(d + '/demo.sh')
    if r.returncode in (0, 3):
        print(i, 'DEMO with the change:', r.returncode, r.stdout[-1500:]); continue
    out = os.path.dirname(os.path.dirname(HERE)) + '/seeded/' + i
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(diff)
    for f in ('demo.rs', 'demo.sh'):
        shutil.copy(d + '/' + f, out + '/' + f)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    print(i, s['property'], 'kept:', npass, 'tests pass; demo exits', r.returncode, r.stdout.strip().splitlines()[-1:] )
reset()
