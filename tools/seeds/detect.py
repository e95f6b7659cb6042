#!/usr/bin/env python3
"""detect.py [-a] [ID...]: run the check of each planted bug's property (-a: every check) against a scratch copy of /repo
with the bug applied, in scratch copies of /verif and /repo; prints and records what was caught in /tmp/det/results.json."""
import json, os, shutil, subprocess, sys, time, concurrent.futures as cf
V = os.environ.get('SEEDS', '/verif')
W = '/tmp/det'
NW = int(os.environ.get('NW', '3'))
tier = os.environ.get('TIER', 'quick')
args = sys.argv[1:]
allc = '-a' in args
args = [a for a in args if a != '-a']
ids = args or sorted(os.listdir(V + '/seeded'))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare(n):
    d = f'{W}/w{n}'
    os.makedirs(d, exist_ok=True)
    sh(f'rsync -a --delete --exclude target /repo/ {d}/repo/ 2>/dev/null || (rm -rf {d}/repo && cp -a /repo {d}/repo)')
    sh(f'mkdir -p {d}/verif; rm -rf {d}/verif/harness; cp -a /verif/harness /verif/check.sh /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json {d}/verif/')
    sh(f"sed -i 's#\"/repo#\"{d}/repo#; s#\"../../repo#\"{d}/repo#' {d}/verif/harness/Cargo.toml; cd {d}/repo && git checkout -q -- . ")
    return d
def one(d, i):
    meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
    checks = [f'C{k:02}' for k in [*range(1, 24), *range(25, 31)]] if allc else [meta['property']]
    out = {}
    sh('git checkout -q -- .', cwd=d + '/repo')
    a = sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=d + '/repo')
    if a.returncode: return i, {'apply': a.stdout}
    first = True
    for c in checks:
        t0 = time.time()
        cmd = f'./check.sh {c} {tier}' if first else f'WSMON_VERIF={d}/verif target/debug/wsmon {c} {tier}'
        first = False
        p = sh(cmd, cwd=d + '/verif')
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION property=' + c)]
        out[c] = [p.returncode, len(v), round(time.time() - t0), '' if p.returncode == 1 and v else p.stdout[-600:]]
        sh('rm -rf replays', cwd=d + '/verif')
    sh('git checkout -q -- .', cwd=d + '/repo')
    return i, out
def main():
    import queue, threading
    q = queue.Queue(); [q.put(i) for i in ids]
    res = {}
    lock = threading.Lock()
    def work(n):
        d = prepare(n)
        while True:
            try: i = q.get_nowait()
            except queue.Empty: return
            try: i, o = one(d, i)
            except Exception as e: o = {'error': str(e)}
            with lock:
                res[i] = o
                hit = [c for c, r in o.items() if isinstance(r, list) and r[0] == 1 and r[1]]
                miss = {c: r for c, r in o.items() if c not in hit}
                print(i, 'CAUGHT by', ','.join(hit) or '-', '' if allc and hit else ('' if not miss else 'MISS ' + json.dumps(miss)), [r[2] for r in o.values() if isinstance(r, list)], flush=True)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(NW)]
    [t.start() for t in ts]; [t.join() for t in ts]
    json.dump(res, open(W + '/results.json', 'w'), indent=1)
os.makedirs(W, exist_ok=True)
main()
