#!/usr/bin/env python3-vt
"""Driver: decides one property.  usage: drive.py <property-id> [--job substring]"""
import sys, os, glob, json, math, time, struct, subprocess, shutil, multiprocessing as mp, traceback, tempfile, signal
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import numpy as np
import dag, rt, smt, norm, symex
from prove import Prover
from ir import Unsupported
from dag import Node

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUILD = os.path.join(ROOT, '.build')
REPO = '/repo'


# ------------------------------------------------------------------------------------------------ build
def cargo(args, target, rustflags, opt=None):
    env = dict(os.environ)
    env.update({'CARGO_TARGET_DIR': target, 'RUSTFLAGS': rustflags, 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never'})
    env.pop('RUSTC_WRAPPER', None)
    if 'share-generics' in rustflags: env['RUSTC_BOOTSTRAP'] = '1'
    return subprocess.Popen(['cargo', 'build', '--offline', '--manifest-path', os.path.join(ROOT, 'harness', 'Cargo.toml')] + args,
                            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


IRFLAGS = '--emit=llvm-ir,link -Cno-vectorize-loops -Cno-vectorize-slp -Zshare-generics=no'


def build(feats, level='2'):
    """LLVM IR of harness + crate, and the native replayers (debug and release), all from /repo's working tree"""
    sym = os.path.join(BUILD, 'sym' + level); 
    shutil.rmtree(os.path.join(sym, 'sym', 'deps'), ignore_errors=True)
    shutil.rmtree(os.path.join(sym, 'sym', '.fingerprint'), ignore_errors=True)
    fl = ','.join(feats)
    ps = [('ir', cargo(['--profile', 'sym', '--lib', '--no-default-features', '--features', fl], sym, IRFLAGS + f' -Copt-level={level}'))]
    if level == '2':
        ps += [('dev', cargo(['--bin', 'replay', '--no-default-features', '--features', fl + ',native'], os.path.join(BUILD, 'nat'), '')),
               ('release', cargo(['--release', '--bin', 'replay', '--no-default-features', '--features', fl + ',native'], os.path.join(BUILD, 'nat2'), ''))]
    for nm, p in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            print(out)
            raise SystemExit(f'build failed ({nm})')
    ll = []
    for k in ('harness', 'skillratings'):
        g = glob.glob(os.path.join(sym, 'sym', 'deps', f'{k}-*.ll'))
        if len(g) != 1: raise SystemExit(f'no IR for {k}')
        ll.append(g[0])
    return ll, [os.path.join(BUILD, 'nat', 'debug', 'replay'), os.path.join(BUILD, 'nat2', 'release', 'replay')]


# ------------------------------------------------------------------------------------------------ native runs
def hexf(v):
    return struct.pack('>d', v).hex()


def native(binp, harness, params, vecs, timeout=120):
    """-> list of (status, [(kind,id,ok,a,b)])"""
    inp = ''.join(f"{harness};{','.join(map(str, params))};{','.join(f'{k}={hexf(float(v))}' for k, v in vec.items())}\n" for vec in vecs)
    try:
        p = subprocess.run([binp], input=inp, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [('timeout', [])] * len(vecs)
    res = []
    for line in p.stdout.splitlines():
        st, _, rest = line.partition(';')
        lg = []
        for t in rest.split():
            k, i, ok, a, b = t.split(':')
            lg.append((k, int(i), ok == '1', float(a.replace('inf', 'inf')), float(b)))
        res.append((st, lg))
    while len(res) < len(vecs): res.append(('crash', []))
    return res


def failing(run):
    """failed checks of one native run: set of ids, or {'panic'}"""
    st, lg = run
    f = {i for (k, i, ok, a, b) in lg if not ok}
    if st.startswith('panic') or st in ('crash', 'timeout'): f.add(st.split()[0])
    if st == 'skip': return set()
    return f


# ------------------------------------------------------------------------------------------------ one job
G = {}


class Points(symex.Samples):
    """explicit sample points"""

    def __init__(self, vals, n):
        self.n = n; self.vals = vals; self.memo = {}; self.rng = np.random.default_rng(SEED)


def evalpts(nodes, pts):
    out = []
    for x in nodes:
        if type(x) is Node: out.append(pts.ev(x))
        else: out.append(np.full(pts.n, float(x)))
    return out


def violated(chk, pts, cx):
    """sample points on which the terms of a check evaluate to a violation"""
    with np.errstate(all='ignore'):
        if chk.kind == 'true':
            c = chk.a
            if type(c) is not Node: return np.full(pts.n, not c)
            return ~pts.ev(c)
        if chk.kind == 'fin':
            a, = evalpts([chk.a], pts)
            return ~np.isfinite(a)
        a, b = evalpts([chk.a, chk.b], pts)
        tol = 2e-9 * np.maximum(np.maximum(np.abs(a), np.abs(b)), 1)
        if chk.kind == 'eq': return ~(np.abs(a - b) <= tol)
        return ~(a <= b + tol)


def pcmask(cx, pts, n=None):
    m = np.ones(pts.n, bool)
    for c in cx.pc[:n]: m = m & pts.ev(c)
    return m


def candidates(cx, chk, models, rng, want=24):
    """input vectors likely to violate the check on this path"""
    S = cx.samples
    names = list(S.vals)
    cands = []

    def vec(pts, i): return {k: float(pts.vals[k][i]) for k in names}
    base = []
    al = np.where(pcmask(cx, S))[0]
    for i in al: base.append(vec(S, i))
    for m in models:
        b = dict(base[0]) if base else {k: float(S.vals[k][0]) for k in names}
        b.update(m); base.insert(0, b); cands.append(b)
    if chk is not None and al.size:
        v = violated(chk, S, cx)
        for i in np.where(v & pcmask(cx, S))[0][:want // 2]: cands.append(vec(S, i))
    elif chk is None:
        cands += base[:want]
    if base and chk is not None:
        # perturbations of inhabitants, moving a random subset of the inputs
        n = 4000
        rngs = {}
        for nd in cx.inputs.values():
            if type(nd) is Node and nd.op in ('var', 'ivar'): rngs[nd.args[0]] = (nd.lo, nd.hi, nd.op == 'ivar')
        idx = rng.integers(0, len(base), n)
        keep = rng.random((n, len(names))) < rng.random((n, 1))
        vals = {}
        for j, k in enumerate(names):
            b = np.array([base[i].get(k, 0.0) for i in idx])
            if k in rngs:
                lo, hi, isint = rngs[k]
                if isint: r = rng.integers(lo, min(hi, lo + 10**6) + 1, n).astype(float)
                else:
                    sc = (hi - lo) * 10.0 ** rng.uniform(-6, 0, n)
                    r = np.clip(b + rng.normal(0, 1, n) * sc, lo, hi)
                    ed = rng.random(n)
                    r = np.where(ed < .06, lo, np.where(ed < .12, hi, r))
                    if lo <= 0 <= hi: r = np.where(ed > .96, 0.0, r)
                    # copies of other inputs: coincidences
                    o = names[int(rng.integers(0, len(names)))]
                    if o in rngs and not rngs[o][2]:
                        ob = np.array([base[i].get(o, 0.0) for i in idx])
                        r = np.where((rng.random(n) < .08) & (ob >= lo) & (ob <= hi), ob, r)
                vals[k] = np.where(keep[:, j], b, r)
            else: vals[k] = b
        pts = Points(vals, n)
        ok = pcmask(cx, pts)
        bad = violated(chk, pts, cx) & ok
        for i in np.where(bad)[0][:want]: cands.append(vec(pts, i))
        if not bad.any():
            for i in np.where(ok)[0][:4]: cands.append(vec(pts, i))
    return cands[:want * 2]


def dist(c, pts, neg=False):
    """how far every point is from satisfying the condition (0: satisfied)"""
    if type(c) is not Node: return np.zeros(pts.n) if bool(c) != neg else np.ones(pts.n)
    op = c.op
    if op == 'not': return dist(c.args[0], pts, not neg)
    if op in ('and', 'or'):
        a, b = (dist(x, pts, neg) for x in c.args)
        return a + b if (op == 'and') != neg else np.minimum(a, b)
    with np.errstate(all='ignore'):
        ok = pts.ev(c) != neg
        if op in ('lt', 'le', 'eq', 'ilt', 'ile', 'ieq') and not (op in ('eq', 'ieq') and neg):
            a, b = evalpts(c.args, pts)
            d = np.abs(a - b)
            d = np.where(np.isfinite(d), d, 1e300)
            return np.where(ok, 0.0, 1e-6 + np.log1p(d * 1e6) / 1e3)
        return np.where(ok, 0.0, 1.0)


def search(cx, chk, models, rng, limit, want=12):
    """inhabitants of the path that violate the check, by differential evolution on the distance to its conditions: for paths on which no sample lies"""
    t0 = time.time()
    rngs = {nd.args[0]: (nd.lo, nd.hi, nd.op == 'ivar') for nd in cx.inputs.values() if type(nd) is Node and nd.op in ('var', 'ivar')}
    names = list(rngs)
    if not names: return []
    lo = np.array([float(rngs[k][0]) for k in names]); hi = np.array([float(rngs[k][1]) for k in names]); isint = np.array([rngs[k][2] for k in names])
    n, D = 240, len(names)
    X = lo + rng.random((n, D)) * (hi - lo)
    S = cx.samples
    m = min(S.n, n // 2)
    for j, k in enumerate(names):
        if k in S.vals: X[:m, j] = S.vals[k][:m]
    ints = [c for c in cx.pc if c.op in ('ilt', 'ile', 'ieq')]
    fixed = np.zeros(D, bool)
    if ints:
        try: r, md = smt.check_sat(ints, 2000)
        except Exception: r, md = 'unknown', None
        if r == 'sat' and md:
            for j, k in enumerate(names):
                if k in md and isint[j]: X[:, j] = float(md[k]); fixed[j] = True
    for md in models:
        if fixed.any(): break
        for j, k in enumerate(names):
            if k in md: X[-1, j] = min(max(float(md[k]), lo[j]), hi[j])
    conds = [c for c in cx.pc if c not in ints] if fixed.any() else list(cx.pc)

    def fit(X):
        pts = Points({k: np.where(isint[j], np.round(X[:, j]), X[:, j]) for j, k in enumerate(names)}, len(X))
        d = np.zeros(len(X))
        lead = np.zeros(len(X)); run = np.ones(len(X), bool)
        for i, c in enumerate(conds):
            e = dist(c, pts)
            d = d + e * max(0.85 ** i, .05)     # earlier conditions first
            run = run & (e == 0); lead += run
        g = np.zeros(len(X))
        bad = d == 0
        if chk is not None:
            with np.errstate(all='ignore'):
                if chk.kind == 'true': g = dist(chk.a, pts, True)
                elif chk.kind in ('eq', 'le'):
                    a, b = evalpts([chk.a, chk.b], pts)
                    g = -np.abs(a - b) if chk.kind == 'eq' else b - a
                    g = np.where(np.isfinite(g), g, -1e9)
                bad = bad & violated(chk, pts, cx)
                g = g / (1 + np.abs(g))
        return d * 1e4 + g, bad, pts, lead
    F, bad, pts, L = fit(X)
    while not bad.any() and time.time() - t0 < limit:
        r = rng.integers(0, n, (n, 3))
        best = X[np.argsort(F)[rng.integers(0, 12, n)]]
        w = rng.uniform(.2, .9, (n, 1))
        Y = np.where(rng.random((n, 1)) < .5, X + w * (best - X), X[r[:, 0]]) + w * (X[r[:, 1]] - X[r[:, 2]])
        Y = Y + (rng.random((n, D)) < .15) * rng.normal(0, 1, (n, D)) * (hi - lo) * 10.0 ** rng.uniform(-6, -1, (n, 1))
        Y = np.where(rng.random((n, D)) < rng.choice([.15, .5, .95], (n, 1)), Y, X)
        Y = np.where(fixed, X, np.clip(Y, lo, hi))
        H, b2, p2, l2 = fit(Y)
        if b2.any(): bad, pts = b2, p2; break
        imp = H < F
        X[imp] = Y[imp]; F[imp] = H[imp]; L[imp] = l2[imp]
    vals = pts.vals
    out = []
    near = list(np.argsort(F)[:want]) + list(np.argsort(-L)[:want]) + list(rng.integers(0, n, want))     # no witness: the points nearest to the path, and any others with its integers
    if not bad.any(): vals = {k: np.where(isint[j], np.round(X[:, j]), X[:, j]) for j, k in enumerate(names)}
    for i in np.where(bad)[0][:want] if bad.any() else near:
        v = {k: float(S.vals[k][0]) for k in S.vals}
        v.update({k: float(vals[k][i]) for k in names})
        out.append(v)
    return out


def is_known(name, params, failed):
    return next((k for k in G['known'] if k['harness'] == name and set(map(str, failed)) <= set(k['checks']) and (k.get('params') is None or k['params'] == list(params))), None)


def noresult(job, e, trace=''):
    return {'job': job, 'error': e, 'trace': trace, 'obl': {}, 'stats': {}, 'viol': [], 'undecided': [('error', e)],
            'res': {'paths': 0, 'instr': 0, 'cut': 0, 'aborted': 0, 'incomplete': True, 'infeasible': 0, 'pending': 0}, 'valid': [0, 0], 'fns': {}, 'witness': None, 't': 0}


def worker(job):
    try:
        return run_job(job)
    except BaseException as e:
        return noresult(job, f'{type(e).__name__}: {e}', traceback.format_exc()[-1500:])


def run_pool(jobs, nproc):
    """every job in a worker process; jobs without a result some time after the deadline are given up (never waited for)"""
    results = []
    pool = mp.Pool(min(nproc, len(jobs)))
    pend = {i: pool.apply_async(worker, (j,)) for i, j in enumerate(jobs)}
    seen_stop = None
    while pend:
        for i in [i for i, r in pend.items() if r.ready()]:
            try: results.append(pend.pop(i).get())
            except Exception as e: results.append(noresult(jobs[i], f'{type(e).__name__}: {e}'))
        if G['stop'].is_set() and seen_stop is None: seen_stop = time.time()
        if time.time() > G['deadline'] + 60 or (seen_stop and time.time() > seen_stop + 60 and any(r['viol'] for r in results)): break
        time.sleep(0.02)
    for i in pend: results.append(noresult(jobs[i], 'given up'))
    pool.terminate()
    return results


def run_job(job):
    t0 = time.time()
    eng = G["eng"]; dag.reset()
    name, params, opts = job
    opts = dict(opts)
    dag.CANCEL[0] = bool(opts.get("cancel"))
    opts.setdefault('seed', SEED)
    stats = {}
    smt.STATS.update({'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0})
    NS = symex.Samples(20, SEED + 7)
    pr = Prover(NS, opts, stats)
    opts['_pr'] = pr
    out = {'job': job, 'viol': [], 'undecided': [], 'valid': [0, 0], 'witness': None}
    obl = {'total': 0, 'proved': 0, 'eq': 0, 'le': 0, 'true': 0, 'fin': 0, 'undef': 0, 'panic': 0}
    dev, rel = G['bins']
    rng = np.random.default_rng(SEED + 11)
    und_cache = {}
    failed_ids = set()
    hunt = [opts.get('hunt_total', 60)]     # seconds left for searches of inhabitants
    budget = min(opts.get('job_s', 600), max(0.5, G['deadline'] - t0))
    if G['stop'].is_set() or G['deadline'] - t0 < 0.5:
        out['undecided'].append(('not run: ' + ('violation already found' if G['stop'].is_set() else 'time is up'), 0))
        out.update({'obl': obl, 'stats': stats, 'res': {'paths': 0, 'instr': 0, 'cut': 0, 'aborted': 0, 'incomplete': True, 'infeasible': 0, 'pending': 0}, 't': 0.0, 'fns': {}})
        return out

    def replay(vecs):
        """-> first vector failing natively in both builds, with its failed checks"""
        if not vecs: return None
        a = native(dev, name, params, vecs); b = native(rel, name, params, vecs)
        for v, x, y in zip(vecs, a, b):
            f = failing(x)
            if f and (failing(y) or 'panic' in f): return v, f, x, y
        return None

    def stable(cx, v, f):
        """does the same failure show at most of the points close by?"""
        lim = {nd.args[0]: (float(nd.lo), float(nd.hi)) for nd in cx.inputs.values() if type(nd) is Node and nd.op == 'var'}
        def move(k, x, d): return min(max(x * (1 + d * rng.choice([-1.0, 1.0])), lim[k][0]), lim[k][1]) if k in lim else x
        near = [{k: move(k, x, d) for k, x in v.items()} for d in (1e-11, 1e-10, 1e-9, 1e-9, 1e-8, 1e-8)]
        runs = [failing(x) for x in native(rel, name, params, near)]
        return sum(1 for x in runs if x & f) >= 4

    def report(cx, what, chk, models):
        if chk is not None and chk.cid in failed_ids: return
        c = candidates(cx, chk, models, rng)
        r = replay(c)
        if not r and hunt[0] > 0:
            th = time.time()
            try:
                c2 = search(cx, chk, models, rng, min(hunt[0], opts.get('hunt', 8), budget - (th - t0)))
                c = c + c2
                r = replay(c2)
                # searched points crowd at the borders of paths, where rounding alone may take the code and the oracle along different paths: the failure has to persist around the point
                if r and not stable(cx, r[0], r[1]): r = None
            except Exception as e:
                if not isinstance(e, (ArithmeticError, ValueError, KeyError, TypeError, AttributeError)): raise
            hunt[0] -= time.time() - th
        if r:
            v, f, x, y = r
            for i in f: failed_ids.add(i)
            if not is_known(name, params, f): G['stop'].set()
            out['viol'].append({'harness': name, 'params': list(params), 'inputs': v, 'failed': sorted(map(str, f)), 'what': what, 'status': x[0],
                                'values': [(k, i, a, b) for (k, i, ok, a, b) in x[1] if not ok][:6]})
        else:
            out['undecided'].append((what, len(c)))

    def on_path(cx):
        if time.time() - t0 > budget: return
        if G['stop'].is_set(): raise StopJob()
        if cx.status == 'unsupported':
            out['undecided'].append((f'unsupported: {cx.msg}', 0))
            report(cx, 'unsupported: ' + cx.msg, None, [])
            return
        if cx.status == 'cut': return
        nv = len(out['viol'])
        for (kind, a, b, npc) in (cx.undefs if opts.get('undef', True) else ()):
            if kind in opts.get('skip_undef', ()): continue
            key = (kind, a, b if type(b) is Node else None, tuple(c.id for c in cx.pc[:npc]))
            if key in und_cache: continue
            obl['total'] += 1; obl['undef'] += 1
            z = dag.ZERO()
            if kind == 'div': g = ('c', dag.bnot(dag.eq(dag.R(b), z)))
            elif kind == 'sqrt': g = ('le', z, a)
            elif kind == 'log': g = ('lt', z, a)
            elif kind == 'exp': g = ('le', a, dag.k(dag.Fraction(709)))
            elif kind == 'pow': g = ('lt', z, a)
            else: g = ('c', False)
            ok = pr.prove(cx, g, npc)
            und_cache[key] = ok
            if ok: obl['proved'] += 1
            else: report(cx, f'{kind} may be undefined', None, pr.models)
        if cx.status == 'abort':
            obl['total'] += 1; obl['panic'] += 1
            r, m = pr.z3_raw(cx.pc, 3000) if cx.pc else ('sat', {})
            if r == 'unsat': obl['proved'] += 1
            else: report(cx, cx.msg, None, [m] if m else [])
        for chk in cx.checks:
            obl['total'] += 1; obl[chk.kind] += 1
            if chk.kind == 'eq':
                ok = prove_eq(cx, chk)
            elif chk.kind == 'le':
                ok = numeric_ok(chk) and pr.prove(cx, ('le', chk.a, chk.b), chk.npc)
            elif chk.kind == 'fin':
                ok = type(chk.a) is Node or math.isfinite(chk.a)
            else:
                c = chk.a
                if type(c) is int: c = bool(c)
                ok = pr.prove(cx, ('c', c), chk.npc)
            if ok: obl['proved'] += 1
            else:
                if time.time() - t0 > budget: return
                report(cx, f'check {chk.cid} ({chk.kind})', chk, pr.models)
        if len(out['viol']) > nv and len(out['viol']) >= opts.get('max_viol', 3): raise StopJob()
        # encoding validation: the same harness, natively, on an inhabitant of this path
        if out['valid'][0] < opts.get('validate', 24): validate(cx)

    def numeric_ok(chk):
        for x in (chk.a, chk.b):
            if type(x) is float and not math.isfinite(x): return False
        return True

    def prove_eq(cx, chk):
        a, b = chk.a, chk.b
        if not numeric_ok(chk):
            return type(a) is float and type(b) is float and a == b
        return pr.prove(cx, ('eq', a, b), chk.npc)

    def validate(cx):
        S = cx.samples
        al = np.where(cx.alive)[0]
        if not al.size: return
        i = int(al[int(rng.integers(0, al.size))])
        v = {k: float(S.vals[k][i]) for k in S.vals}
        r = native(rel, name, params, [v])[0]
        if r[0] != 'ok': 
            if r[0] == 'skip' or cx.status != 'ok': return
        out['valid'][0] += 1
        if out['witness'] is None and cx.checks:
            out['witness'] = {'harness': name, 'params': list(params), 'inputs': v, 'checks': [(k, j, a, b) for (k, j, ok, a, b) in r[1][:4]]}
        bad = False
        lg = r[1]
        if len(lg) != len(cx.checks): bad = True
        else:
            for chk, (k, j, ok, a, b) in zip(cx.checks, lg):
                if chk.kind in ('eq', 'le'):
                    for t, w in ((chk.a, a), (chk.b, b)):
                        x = float(S.ev(t)[i]) if type(t) is Node else float(t)
                        if not (abs(x - w) <= 1e-5 * max(1, abs(x), abs(w)) or x == w): bad = True
        if bad:
            out['valid'][1] += 1
            # a disagreement between terms and code: let the concrete run speak
            rr = replay([v])
            if rr:
                _, f, x, y = rr
                out['viol'].append({'harness': name, 'params': list(params), 'inputs': v, 'failed': sorted(map(str, f)), 'what': 'native run', 'status': x[0],
                                    'values': [(k, i, a, b) for (k, i, ok, a, b) in x[1] if not ok][:6]})

    class StopJob(Exception): pass
    try:
        res = symex.explore(eng, name, params, opts, stats, on_path, budget)
    except StopJob:
        res = {'paths': 0, 'instr': 0, 'cut': 0, 'aborted': 0, 'incomplete': True, 'infeasible': 0, 'pending': 0}
    if res['incomplete'] and not out['viol']: out['undecided'].append((f"exploration incomplete ({res['pending']} pending)", 0))
    stats['queries'] = stats.get('queries', 0) + smt.STATS['queries']
    stats['q_unsat'] = stats.get('q_unsat', 0) + smt.STATS['unsat']
    stats['solver_s'] = stats.get('solver_s', 0) + smt.STATS['time']
    fns = {n: c for n, c in eng.compiled.items()}
    out.update({'obl': obl, 'stats': stats, 'res': res, 't': time.time() - t0, 'fns': fns})
    if len(dag._tab) > 3_000_000:
        dag.reset()
    return out


# ------------------------------------------------------------------------------------------------ property
def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--job') + 1] if '--job' in sys.argv else None
    verbose = '-v' in sys.argv
    import props
    spec = props.PROPS[prop]
    t0 = time.time()
    ll, bins = build(spec['features'])
    tb = time.time() - t0
    jobs = spec['jobs'](TIER)
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    if only: jobs = [j for j in jobs if only in f'{j[0]}{list(j[1])}']
    G['bins'] = bins
    G['known'] = known
    G['stop'] = mp.Event()
    G['deadline'] = t0 + (spec.get('limit_s', 420) if TIER == 'quick' else spec.get('limit_thorough_s', 800))
    G['eng'] = symex.Engine(ll)
    results = []
    # longest first, by hint
    jobs.sort(key=lambda j: -j[2].get('cost', 1))
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    if nproc == 1:
        results = [worker(j) for j in jobs]
    else:
        results = run_pool(jobs, nproc)
    # second attempt on other IR for jobs the engine could not execute
    retry = [r['job'] for r in results if (r.get('error') or any(str(u[0]).startswith('unsupported') for u in r['undecided'])) and not r['viol']]
    if retry and not only and not G['stop'].is_set():
        try:
            ll1, _ = build(spec['features'], '1')
            G['eng'] = symex.Engine(ll1)
            second = {json.dumps(r['job']): r for r in run_pool(retry, nproc)}
            results = [second[json.dumps(r['job'])] if json.dumps(r['job']) in second and (second[json.dumps(r['job'])]['viol'] or len(second[json.dumps(r['job'])]['undecided']) < len(r['undecided'])) else r for r in results]
        except SystemExit:
            pass
    viol = []; kn = {}
    for r in results:
        for v in r['viol']:
            k = is_known(v['harness'], v['params'], v['failed'])
            if k: kn[k['id']] = k
            else: viol.append(v)
    und = [(r['job'][0], r['job'][1], u) for r in results for u in r['undecided']]
    tot = lambda key: sum(r['stats'].get(key, 0) for r in results)
    obl = {}
    for r in results:
        for k, v in r['obl'].items(): obl[k] = obl.get(k, 0) + v
    fns = {}
    for r in results: fns.update(r['fns'])
    real = sorted({symex.short(n) for n in fns if 'skillratings' in n})
    samples = [r['witness'] for r in results if r['witness']][:4]
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rp = []
    if viol:
        d = os.path.join(ROOT, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        for i, v in enumerate(viol[:5]):
            p = os.path.join(d, f'{prop}-{i}.json')
            v['spec'] = props.describe(v['harness'])
            v['rerun'] = f'python3-vt engine/replay.py {os.path.relpath(p, ROOT)}'
            json.dump(v, open(p, 'w'), indent=1); rp.append(os.path.relpath(p, ROOT))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(viol),
          'assumptions': props.ASSUME + spec.get('assume', []),
          'coverage': {
              'states': sum(r['res']['paths'] for r in results), 'transitions': sum(r['res']['instr'] for r in results),
              'traces_validated_against_impl': sum(r['valid'][0] - r['valid'][1] for r in results), 'trace_mismatches': sum(r['valid'][1] for r in results),
              'samples': samples,
              'meaning': 'states = feasible symbolic paths (each stands for all inputs of its path condition); transitions = IR instructions executed symbolically',
              'bounds': spec['bounds'], 'harnesses': [{'harness': r['job'][0], 'params': list(r['job'][1]), 'paths': r['res']['paths'], 'cut_at_bound': r['res']['cut'], 'obligations': r['obl'].get('total', 0), 'discharged': r['obl'].get('proved', 0), 's': round(r['t'], 2)} for r in results],
              'obligations': obl.get('total', 0), 'discharged': obl.get('proved', 0), 'obligation_kinds': {k: v for k, v in obl.items() if k not in ('total', 'proved')},
              'functions_encoded': real, 'ir_functions': len(fns), 'solver_queries': tot('queries') + tot('feas_queries'), 'solver_unsat': tot('q_unsat'), 'solver_s': round(tot('solver_s') + 0.0, 2),
              'build_s': round(tb, 2), 'undecided': [list(map(str, u)) for u in und[:20]], 'replayed_violations': rp}}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1)
    if verbose:
        for r in sorted(results, key=lambda r: -r['t']):
            print(f"{r['t']:7.2f}s {r['job'][0]}{list(r['job'][1])} {r['res']} obl {r['obl'].get('proved')}/{r['obl'].get('total')} valid {r['valid']} q {r['stats'].get('queries', 0)}+{r['stats'].get('feas_queries', 0)} solver {r['stats'].get('solver_s', 0):.1f}", r.get('error', ''), r['undecided'][:3])
            if r.get('error'): print(r['trace'][-1400:])
    c = ev['coverage']
    print(f"{prop}: {c['discharged']}/{c['obligations']} obligations discharged on {c['states']} paths of {len(results)} harness instances, {c['solver_queries']} solver queries ({c['solver_s']} s), "
          f"{c['traces_validated_against_impl']} paths validated natively, {len(und)} undecided, {wall:.1f}s")
    for u in und[:10]: print('UNDECIDED', *u)
    if viol:
        for v in viol[:5]: print(' ', v['harness'], v['params'], v['what'], 'failed', v['failed'], v['status'], v['values'][:2])
        print(f'VIOLATION property={prop} replay={rp[0]}')
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
