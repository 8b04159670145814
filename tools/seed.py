"""Planting bugs: plant(...) makes the change in a scratch copy of /repo, checks that it compiles, passes the tests and that the demonstration tells it apart, and keeps it under seeded/.
   try_checks(id, [properties]) applies it to /repo, runs the quick checks and undoes it."""
import os, subprocess, json, shutil, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/seedscratch'
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the behaviour is right
set -e
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
rustc --edition 2021 --cap-lints allow --crate-name skillratings --crate-type rlib -O -o "$T/libskillratings.rlib" src/lib.rs
rustc --edition 2021 --cap-lints allow -O --extern skillratings="$T/libskillratings.rlib" -o "$T/demo" "$D/demo.rs"
"$T/demo"
'''
CLOSE = 'fn close(a: f64, b: f64) { assert!((a - b).abs() <= 1e-6 * a.abs().max(b.abs()).max(1.0), "{a} is not {b}"); }\n'


def sh(c, cwd=None, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def plant(sid, prop, edits, needs, breaks, demo):
    os.makedirs(SC, exist_ok=True)
    wt = SC + '/repo'
    shutil.rmtree(wt, ignore_errors=True)
    sh(f'git -C /repo worktree prune; git clone -q /repo {wt}')
    for f, old, new in edits:
        p = f'{wt}/{f}'; s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'{ROOT}/seeded/{sid}'; os.makedirs(d, exist_ok=True)
    diff = sh('git diff', wt).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.rs', 'w').write(demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    env = f'CARGO_TARGET_DIR={SC}/target CARGO_NET_OFFLINE=true '
    t = sh(env + 'cargo test --workspace --all-features --offline 2>&1', wt)
    ok = t.returncode == 0
    a = sh(f'bash {d}/demo.sh', '/repo'); b = sh(f'bash {d}/demo.sh', wt)
    good = ok and a.returncode == 0 and b.returncode != 0 and 'error' not in b.stderr.split('panicked')[0]
    print(sid, 'tests', ok, 'demo clean', a.returncode, 'demo bug', b.returncode, 'GOOD' if good else 'BAD')
    if not good:
        print('\n'.join(l for l in t.stdout.splitlines() if 'FAILED' in l or 'error' in l or 'panicked' in l)[:1500], a.stderr[-1500:], b.stderr[-800:])
        shutil.rmtree(d)
    shutil.rmtree(wt, ignore_errors=True)
    return good


def try_checks(sid, props):
    p = f'{ROOT}/seeded/{sid}/patch.diff'
    assert sh('git -C /repo status --porcelain').stdout == ''
    r = sh(f'git -C /repo apply {p}'); assert r.returncode == 0, r.stderr
    res = {}
    try:
        for q in props:
            t = time.time()
            x = sh(f'VERIF_TIER=quick VERIF_SEED=1 python3-vt engine/drive.py {q}', ROOT)
            res[q] = (x.returncode, 'VIOLATION property=' + q in x.stdout, round(time.time() - t, 1))
            print(sid, q, *res[q], ' | '.join(l for l in x.stdout.splitlines() if 'UNDEC' in l or ' failed ' in l)[:300], flush=True)
    finally:
        sh('git -C /repo checkout -- .')
    return res


if __name__ == '__main__':
    for a in sys.argv[1:]:
        sid, _, ps = a.partition(':')
        ps = ps.split(',') if ps else [json.load(open(f'{ROOT}/seeded/{sid}/meta.json'))['property']]
        try_checks(sid, ps)
