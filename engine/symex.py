"""Engine: executes harness functions symbolically over the LLVM IR of the real code."""
import math, re, sys, time
import numpy as np
import dag, rt
from dag import Node, FBits
from ir import *
from codegen import CG
from rt import PathAbort, PathInfeasible, BoundCut
import smt

sys.setrecursionlimit(20000)

PANICKY = ('panic', 'handle_error', 'handle_alloc_error', 'expect_failed', 'unwrap_failed', 'slice_index_fail', 'capacity_overflow', 'alloc_err',
           'assert_failed', 'slice_start_index', 'slice_end_index', 'slice_index_order', 'begin_panic', 'abort', 'len_mismatch_fail', 'copy_from_slice')


class FnRef:
    __slots__ = ('name', 'py', 'addr')

    def __init__(self, name, py):
        self.name = name; self.py = py; self.addr = None


class Engine:
    def __init__(self, paths):
        self.mods = [Module(p, str(i)) for i, p in enumerate(paths)]
        self.owner = {}
        for m in self.mods:
            for n in m.defs:
                self.owner.setdefault(n.strip('"'), (m, n))
        self.refs = {}
        self.rtns = {k: getattr(rt, k) for k in dir(rt) if not k.startswith('__')}
        self.gaddr = {}
        self.base_mem = {}
        self.next_g = 0x100000
        self.fn_at = {}
        self.cur_cx = None
        self.compiled = {}

    # -- symbols
    def zero(self, t):
        k = t[0]
        if k == 'd' or k == 'f': return 0.0
        if k == 'i': return False if t[1] == 1 else 0
        if k == 'p': return 0
        if k == 'vec' or k == 'arr': return tuple(self.zero(t[2]) for _ in range(t[1]))
        if k == 'st': return tuple(self.zero(x) for x in t[1])
        raise Unsupported('zero')

    def sym_addr(self, mod, name):
        nm = name.strip('"')
        raw = mod.globals_raw.get(name)
        if raw is not None and not re.match(r'(\S+ )*?external ', raw.split('global')[0].split('constant')[0] + ' '):
            return self.global_addr(mod, name)
        if nm in self.owner or nm in mod.decls or name in mod.decls:
            return self.fn_addr(mod, nm)
        for m in self.mods:
            r = m.globals_raw.get(name)
            if r is not None and ' external ' not in ' ' + r:
                return self.global_addr(m, name)
        return self.global_addr(mod, name)

    def fn_addr(self, mod, nm):
        ref = self.fnref(mod, nm)
        if ref.addr is None:
            ref.addr = 0x7000_0000_0000 + 16 * len(self.fn_at)
            self.fn_at[ref.addr] = ref
        return ref.addr

    def by_addr(self, cx, a):
        if type(a) is not int: a = cx.concretise(a)
        r = self.fn_at.get(a)
        if r is None: raise Unsupported(f'indirect call to {a:#x}')
        return lambda cx, *args: r.py(cx, *args)

    def global_addr(self, mod, name):
        key = (mod.prefix, name)
        a = self.gaddr.get(key)
        if a is not None: return a
        raw = mod.globals_raw[name]
        if raw.startswith('external ') or ' external ' in raw[:60]:
            a = self.next_g; self.next_g = a + 256
            self.gaddr[key] = a
            return a
        m = re.search(r'\b(global|constant)\b (.*)', raw)
        p = P(toks(strip_meta(m.group(2))), mod)
        t = p.type()
        n = max(sizeof(t), 1)
        a = self.next_g
        self.next_g = (a + n + 31) & ~15
        self.gaddr[key] = a
        if p.peek() and p.peek() not in (',',) and ' external ' not in ' ' + raw[:raw.find(m.group(1))]:
            cg = CG(self, _dummy(mod))
            v = cg.constval(p, t)
            tgt = _MemView(self.base_mem)
            rt.stt(tgt, a, v, t)
            if self.cur_cx is not None:
                rt.stt(self.cur_cx, a, v, t)
        return a

    def fnref(self, mod, name):
        r = self.refs.get(name)
        if r is not None: return r
        for m in self.mods:
            g = m.globals_raw.get(name)
            if g is not None and ' alias ' in ' ' + g:
                r = self.refs[name] = self.fnref(m, g.rsplit('@', 1)[1].strip().strip('"'))
                return r
        r = FnRef(name, None)
        self.refs[name] = r
        if name in self.owner:
            def lazy(cx, *args):
                m, n = self.owner[name]
                f = parse_function(m, n)
                py = CG(self, f).compile()
                self.compiled[name] = f.ninstr
                r.py = py
                return py(cx, *args)
            r.py = lazy
        else:
            r.py = self.extern(name)
        return r

    def extern(self, name):
        if name.startswith('sv_'):
            return getattr(Cx, name)
        m = {'hypot': rt.fhypot, 'expm1': rt.fexpm1, 'log1p': rt.flog1p, 'exp': rt.fexp, 'log': rt.flog, 'pow': rt.fpow, 'tanh': rt.ftanh,
             'sqrt': rt.fsqrt, 'fmax': rt.fmax, 'fmin': rt.fmin, 'log10': rt.flog10, 'exp2': rt.fexp2, 'exp10': rt.fexp10, 'log2': rt.flog2, 'fabs': rt.fabs_, 'cbrt': rt.lift1(lambda x: math.cbrt(x), lambda a: dag.exp(dag.mul(dag.k(rt.Fraction(1, 3)), dag.log(a))))}
        if name in m: return m[name]
        if name in ('memcmp', 'bcmp'): return memcmp
        s = short(name)
        if '___rust_alloc_zeroed' in name: return lambda cx, n, al: cx.alloc(n, al)
        if '___rust_alloc' in name: return lambda cx, n, al: cx.alloc(n, al)
        if '___rust_realloc' in name: return lambda cx, p, old, al, new: cx.realloc(p, old, al, new)
        if '___rust_dealloc' in name: return lambda cx, *a: None
        if '___rust_no_alloc_shim' in name: return lambda cx, *a: None
        if 'hashmap_random_keys' in name: return lambda cx: (0x0706050403020100, 0x0f0e0d0c0b0a0908)
        if 'sqrt_approx' in name:
            def sa(cx, n):
                sh = (1 + (n | 1).bit_length() - 1) // 2
                return ((1 << sh) + (n >> sh)) // 2
            return sa
        if any(x in name for x in PANICKY):
            def pan(cx, *a):
                raise PathAbort('panic: ' + s)
            return pan

        def uns(cx, *a):
            raise Unsupported('extern ' + name)
        return uns


def memcmp(cx, a, b, n):
    if type(n) is not int: n = cx.concretise(n)
    x = rt.ldbytes(cx, a, n); y = rt.ldbytes(cx, b, n)
    return 0 if x == y else (1 if x > y else (1 << 32) - 1)


class _MemView:
    def __init__(self, m): self.mem = m


class _dummy:
    def __init__(self, mod): self.mod = mod


def short(name):
    ids = re.findall(r'(?<=\d)[a-zA-Z_][a-zA-Z0-9_]*', name)
    parts = []
    i = 0
    for m in re.finditer(r'(\d+)_?', name):
        pass
    # v0 mangling: length-prefixed identifiers
    out = []; i = 0
    while i < len(name):
        m = re.compile(r'(\d+)').match(name, i)
        if m and m.group(1)[0] != '0':
            n = int(m.group(1)); j = m.end()
            if j < len(name) and name[j] == '_': j += 1
            idn = name[j:j + n]
            if len(idn) == n and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', idn):
                out.append(idn); i = j + n; continue
        i += 1
    return '::'.join(out[-3:]) or name


# ---------------------------------------------------------------- samples
class Samples:
    """Concrete sample assignments; used to see which side of a branch is inhabited without a solver call,
    to fingerprint terms before algebraic comparison, and to seed counterexample search. Never a verdict."""

    def __init__(self, n, seed):
        self.n = n
        self.rng = np.random.default_rng(seed)
        self.vals = {}      # var name -> array
        self.memo = {}      # node id -> array

    def var(self, name, lo, hi, isint):
        a = self.vals.get(name)
        if a is not None: return a
        rng = self.rng; n = self.n
        if isint:
            if hi - lo > 64:
                a = np.where(rng.random(n) < 0.5, rng.integers(lo, min(hi, lo + 12) + 1, n), rng.integers(lo, hi + 1, n)).astype(float)
            else:
                a = rng.integers(lo, hi + 1, n).astype(float)
        else:
            a = rng.uniform(lo, hi, n)
            w = hi - lo
            # a third of the samples concentrated on a smaller scale
            m = rng.random(n) < 0.35
            c = rng.uniform(lo, hi)
            mid = 0.0 if lo < 0 < hi else lo
            b = mid + (rng.random(n) ** 3) * (hi - mid)
            a = np.where(m, b, a)
        self.vals[name] = a
        return a

    def ev(self, n):
        memo = self.memo
        r = memo.get(n.id)
        if r is not None: return r
        with np.errstate(all='ignore'):
            for m in dag.topo([n]):
                if m.id in memo: continue
                memo[m.id] = self._ev(m)
        return memo[n.id]

    def _ev(self, m):
        o = m.op; g = self.memo
        if o == 'k': return np.full(self.n, float(m.args[0]))
        if o == 'ik': return np.full(self.n, float(m.args[0]))
        if o == 'var': return self.var(m.args[0], m.lo, m.hi, False)
        if o == 'ivar': return self.var(m.args[0], m.lo, m.hi, True)
        a = [g[x.id] for x in m.args if type(x) is Node]
        if o in ('add', 'iadd'): return a[0] + a[1]
        if o in ('mul', 'imul'): return a[0] * a[1]
        if o == 'div': return a[0] / a[1]
        if o == 'sqrt': return np.sqrt(a[0])
        if o == 'exp': return np.exp(a[0])
        if o == 'log': return np.log(a[0])
        if o == 'floor': return np.floor(a[0])
        if o in ('lt', 'ilt'): return a[0] < a[1]
        if o in ('le', 'ile'): return a[0] <= a[1]
        if o in ('eq', 'ieq'): return a[0] == a[1]
        if o == 'and': return a[0] & a[1]
        if o == 'or': return a[0] | a[1]
        if o == 'not': return ~a[0]
        if o == 'ite': return np.where(a[0], a[1], a[2])
        if o == 'itor': return a[0]
        if o == 'rtoi': return np.trunc(a[0])
        if o == 'idiv': return np.floor(a[0] / a[1])
        if o == 'imod': return np.mod(a[0], a[1])
        raise Unsupported('eval ' + o)

    def add_point(self, model):
        """replace a sample slot by a model; vars not in the model keep their values"""
        i = getattr(self, '_slot', self.n - 1)
        for k, v in model.items():
            if k in self.vals: self.vals[k][i] = v
        self._slot = i - 1 if i > self.n // 2 else self.n - 1
        self.memo.clear()
        return i


class Check:
    __slots__ = ('cid', 'kind', 'a', 'b', 'npc')

    def __init__(self, cid, kind, a, b, npc):
        self.cid = cid; self.kind = kind; self.a = a; self.b = b; self.npc = npc


class Cx:
    """one path"""

    def __init__(self, eng, params, prefix, samples, opts, stats):
        self.eng = eng; self.params = params
        self.prefix = prefix
        self.samples = samples
        self.opts = opts
        self.stats = stats
        self.mem = dict(eng.base_mem)
        self.brk = 0x10_0000_0000
        self.n = 0
        self.pc = []           # Node (true)
        self.facts = {}
        self.dec = []          # decisions taken
        self.idec = 0          # of these on integers
        self.alts = []         # alternative prefixes
        self.checks = []
        self.cuts = []
        self.undefs = []
        self.outs = []
        self.inputs = {}       # id -> (node)
        self.alive = np.ones(samples.n, bool)
        self.solver = None
        self.unknown_branches = 0
        self.pr = opts.get('_pr')
        self.ks = {}           # conditions known up to algebraic equality
        self.kpend = []
        eng.cur_cx = self

    # -- memory
    def alloc(self, n, al):
        if type(n) is not int: n = self.concretise(n)
        if n > 1 << 24: raise PathAbort('allocation too large')
        a = self.brk
        self.brk = (a + n + 31) & ~15
        return a

    def realloc(self, p, old, al, new):
        if type(new) is not int: new = self.concretise(new)
        a = self.alloc(new, al)
        rt.memcpy(self, a, p, min(old, new))
        return a

    # -- path condition
    def lookup(self, c):
        v = self.facts.get(c)
        if v is not None: return v
        if self.pr is not None and c.op in ('lt', 'le', 'eq') and self.opts.get('keys', True):
            if self.cuts:
                # compared up to values marked as arbitrary
                mp = self.pr.cutmap(self)
                c = dag.subst(c, mp, {})
                if type(c) is not Node: return c
            k = self.pr.key(c)
            if k:
                for d, w in self.kpend:
                    if self.cuts: d = dag.subst(d, mp, {})
                    kk = self.pr.key(d) if type(d) is Node else 0
                    if kk: self.ks[abs(kk)] = w if kk > 0 else not w
                self.kpend.clear()
                v = self.ks.get(abs(k))
                if v is not None: return v if k > 0 else not v
        return None

    def learn(self, c):
        self.pc.append(c)
        self._fact(c, True)
        ev = self.samples.ev(c)
        self.alive = self.alive & ev

    def _fact(self, c, v):
        if type(c) is bool: return
        self.facts[c] = v
        if c.op in ('lt', 'le', 'eq'): self.kpend.append((c, v))
        n = dag.bnot(c)
        if type(n) is Node: self.facts[n] = not v
        if v:
            o = c.op
            if o == 'and':
                self._fact(c.args[0], True); self._fact(c.args[1], True)
            elif o == 'lt':
                for d in (dag.le(c.args[0], c.args[1]),): self._f1(d, True)
                self._f1(dag.eq(c.args[0], c.args[1]), False)
            elif o == 'ilt':
                self._f1(dag.ile(c.args[0], c.args[1]), True)
                self._f1(dag.ieq(c.args[0], c.args[1]), False)
            elif o == 'eq':
                self._f1(dag.le(c.args[0], c.args[1]), True); self._f1(dag.le(c.args[1], c.args[0]), True)
            elif o == 'ieq':
                self._f1(dag.ile(c.args[0], c.args[1]), True); self._f1(dag.ile(c.args[1], c.args[0]), True)
        else:
            if c.op == 'or':
                self._fact(c.args[0], False); self._fact(c.args[1], False)

    def _f1(self, d, v):
        if type(d) is Node:
            self.facts[d] = v
            if d.op in ('lt', 'le', 'eq'): self.kpend.append((d, v))
            n = dag.bnot(d)
            if type(n) is Node: self.facts[n] = not v

    def feasible(self, c):
        """may c hold on this path? (True / False / None unknown)"""
        ev = self.samples.ev(c)
        if bool((self.alive & ev).any()): return True
        if self.opts.get('feas_ms', 1500) == 0:
            if c.op not in ('ilt', 'ile', 'ieq'): return None
            return False if smt.check_sat([p for p in self.pc if p.op in ('ilt', 'ile', 'ieq')] + [c], 500)[0] == 'unsat' else None
        self.stats['feas_queries'] = self.stats.get('feas_queries', 0) + 1
        t0 = time.time()
        r, model = smt.check_sat(self.pc + [c], self.opts.get('feas_ms', 1500))
        self.stats['feas_s'] = self.stats.get('feas_s', 0) + time.time() - t0
        if r == 'unsat': return False
        if r == 'sat' and model:
            self.samples.add_point(model)
            self.alive = np.ones(self.samples.n, bool)
            for p in self.pc: self.alive = self.alive & self.samples.ev(p)
            return True
        return None

    def decide(self, c):
        if type(c) is bool: return c
        if type(c) is int: return bool(c)
        v = self.lookup(c)
        if v is not None: return v
        if c.op == 'and':
            a = self.decide(c.args[0])
            return self.decide(c.args[1]) if a else False
        if c.op == 'or':
            a = self.decide(c.args[0])
            return True if a else self.decide(c.args[1])
        if c.op == 'not':
            return not self.decide(c.args[0])
        if c.op == 'eq' and self.opts.get('noeq') and any(x.op == 'k' for x in c.args):   # a symbolic quantity is assumed not to hit a constant exactly
            self.learn(dag.bnot(c))
            return False
        i = len(self.dec)
        if c.op in ('ilt', 'ile', 'ieq'): self.idec += 1      # decisions on integers do not count as depth
        if i < len(self.prefix):
            d = self.prefix[i]
            if d in (2, 3):     # forced by infeasibility
                self.dec.append(d)
                d = d == 3
                self._fact(c if d else dag.bnot(c), True)
                return d
            self.dec.append(d)
            d = bool(d)
            self.learn(c if d else dag.bnot(c))
            return d
        if i - self.idec > self.opts.get('max_dec', 400): raise BoundCut('decision depth')
        nc = dag.bnot(c)
        t = self.feasible(c)
        if t is False:
            self.dec.append(2)
            self._fact(nc, True)
            return False
        f = self.feasible(nc)
        if f is False:
            self.dec.append(3)
            self._fact(c, True)
            return True
        if t is None or f is None: self.unknown_branches += 1
        self.alts.append(self.dec + [0])
        self.dec.append(1)
        self.learn(c)
        return True

    def assume(self, c):
        if type(c) is bool:
            if not c: raise PathInfeasible()
            return
        v = self.lookup(c)
        if v is False: raise PathInfeasible()
        if v is True: return
        self.learn(c)
        if len(self.dec) >= len(self.prefix) and not self.alive.any() and self.opts.get('feas_ms', 1500):
            r, model = smt.check_sat(self.pc, self.opts.get('feas_ms', 1500))
            if r == 'unsat': raise PathInfeasible()
            if r == 'sat' and model:
                self.samples.add_point(model)
                self.alive = np.ones(self.samples.n, bool)
                for p in self.pc: self.alive = self.alive & self.samples.ev(p)

    def concretise(self, a):
        """fork over the feasible values of an integer term"""
        if type(a) is int: return a
        if type(a) is not Node or a.ty != 'I': raise Unsupported('concretise')
        if a.hi - a.lo > 4096:
            # address of the form base + scale*idx with a wide index: fork on the index
            if a.op == 'iadd' and a.args[0].op == 'ik':
                return a.args[0].args[0] + self.concretise(a.args[1])
            if a.op == 'imul' and a.args[0].op == 'ik':
                return a.args[0].args[0] * self.concretise(a.args[1])
            raise BoundCut('wide concretisation')
        if a.op == 'iadd' and a.args[0].op == 'ik':
            return a.args[0].args[0] + self.concretise(a.args[1])
        if a.op == 'imul' and a.args[0].op == 'ik':
            return a.args[0].args[0] * self.concretise(a.args[1])
        if a.op == 'ite':
            return self.concretise(dag_i(a.args[1] if self.decide(a.args[0]) else a.args[2]))
        for v in range(a.lo, a.hi):
            if self.decide(dag.ieq(a, dag.ik(v))): return v
        return a.hi

    def addr_values(self, a):
        """[(cond, addr)] for a table lookup, last entry first as default; None if not of that shape"""
        if a.op == 'ite' and dag.const_ite(a):
            vals = []

            def walk(n, c):
                if n.op == 'ite':
                    walk(n.args[2], dag.band(c, dag.bnot(n.args[0])))
                    walk(n.args[1], dag.band(c, n.args[0]))
                else: vals.append((c, n.args[0]))
            walk(a, True)
            return vals
        off = 0; n = a
        if n.op == 'iadd' and n.args[0].op == 'ik':
            off = n.args[0].args[0]; n = n.args[1]
        sc = 1
        if n.op == 'imul' and n.args[0].op == 'ik':
            sc = n.args[0].args[0]; n = n.args[1]
        if n.hi - n.lo > 40: return None
        return [(dag.ieq(n, dag.ik(v)), off + sc * v) for v in range(n.hi, n.lo - 1, -1)]

    def undef(self, kind, what, a, b):
        self.undefs.append((kind, a, b, len(self.pc)))

    # -- harness intrinsics
    def sv_f64(self, i, lo, hi):
        n = f'x{i}'
        v = dag.var(n, lo, hi)
        assert lo == hi or (v.lo, v.hi) == (lo, hi), f'input {i} reused with another range'
        self.inputs[i] = v
        if lo == hi: return lo
        self.samples.var(n, lo, hi, False)
        return v

    def sv_int(self, i, lo, hi):
        n = f'n{i}'
        v = dag.ivar(n, lo, hi)
        assert lo == hi or (v.lo, v.hi) == (lo, hi), f'input {i} reused with another range'
        self.inputs[i] = v
        if lo == hi: return lo
        self.samples.var(n, lo, hi, True)
        return v

    def sv_param(self, i):
        return self.params[i] if i < len(self.params) else 0

    def sv_assume(self, c):
        self.assume(c)

    def sv_fork(self, a):
        """make an integer concrete by forking"""
        return self.concretise(a)

    def sv_check(self, i, c):
        self.checks.append(Check(i, 'true', c, None, len(self.pc)))

    def sv_close(self, i, a, b):
        self.checks.append(Check(i, 'eq', a, b, len(self.pc)))

    def sv_le(self, i, a, b):
        self.checks.append(Check(i, 'le', a, b, len(self.pc)))

    def sv_fin(self, i, a):
        self.checks.append(Check(i, 'fin', a, None, len(self.pc)))

    def sv_cut(self, a):
        """a value which the property may treat as arbitrary (tried first)"""
        if type(a) is Node and a.op not in ('var', 'k', 'ivar', 'ik'): self.recut(a)
        return a

    def recut(self, a):
        self.cuts.append(a)
        self.ks = {}; self.kpend = [(c, v) for c, v in self.facts.items() if c.op in ('lt', 'le', 'eq')]

    def sv_out(self, i, a):
        self.outs.append((i, a))


def dag_i(x):
    return x


class PathResult:
    pass


def explore(eng, fname, params, opts, stats, on_path, time_limit=None):
    """run harness over all feasible paths"""
    t_end = time.time() + time_limit if time_limit else None
    samples = Samples(opts.get('nsamples', 192), opts.get('seed', 1))
    work = [[]]
    npaths = 0
    res = {'paths': 0, 'infeasible': 0, 'cut': 0, 'aborted': 0, 'instr': 0, 'incomplete': False}
    while work:
        if npaths >= opts.get('max_paths', 5000) or (t_end and time.time() > t_end):
            res['incomplete'] = True
            break
        pre = work.pop()
        cx = Cx(eng, params, pre, samples, opts, stats)
        status = 'ok'; msg = ''
        try:
            dag.FACTS = cx.facts if opts.get('noeq') else None
            eng.fnref(eng.mods[0], fname).py(cx)
        except PathInfeasible:
            status = 'infeasible'
        except PathAbort as e:
            status = 'abort'; msg = str(e)
        except BoundCut as e:
            status = 'cut'; msg = str(e)
        except (Unsupported, dag.NonFinite) as e:
            status = 'unsupported'; msg = str(e)
        dag.FACTS = None
        work.extend(cx.alts)
        npaths += 1
        res['instr'] += cx.n
        cx.status = status; cx.msg = msg
        if status == 'infeasible':
            res['infeasible'] += 1
            continue
        res['paths'] += 1
        if status == 'cut': res['cut'] += 1
        if status == 'abort': res['aborted'] += 1
        on_path(cx)
    res['pending'] = len(work)
    return res
