"""Decides proof obligations collected on a symbolic path.

Pipeline for an obligation G under path condition PC:
  1. rewriting: facts of the path are substituted, G is brought to an algebraic normal form over the reals
     (norm.py); conditionals left in G are split, each side with its own z3 feasibility query;
  2. the residual goal (not G', PC) goes to z3; 'unsat' discharges the obligation.
Anything not discharged yields candidate inputs (z3 models, sample points on which the terms evaluate to a violation);
the driver replays them on the compiled code and only a reproduced violation is reported."""
import math, time
from fractions import Fraction
import numpy as np
import z3
import dag, norm, smt
from dag import Node
from norm import Norm, TooBig

EPS = Fraction(1, 10**9)
CUTS = ('add', 'mul', 'div', 'sqrt', 'exp', 'log', 'ite')


class Give(Exception):
    pass


def size(nodes):
    return len(dag.topo(nodes))


class EncN(smt.Enc):
    """z3 encoding through the normal form: polynomial constraints over shared atoms"""

    def __init__(self, N):
        super().__init__()
        self.N = N
        self.av = {}
        self.pw = {}
        self.cm = {}
        self.eu = []
        self.order = []

    def atom(self, i):
        r = self.av.get(i)
        if r is not None: return r
        a = self.N.atoms[i]
        if a.kind == 'i':
            iv, val = a.data
            v = z3.If(self.tr(iv) == val, z3.RealVal(1), z3.RealVal(0))
            self.av[i] = v
            return v
        if a.kind == 'v':
            n = a.node
            if n is not None and n.op == 'var':
                v = z3.Real(n.args[0]); self.vars[n.args[0]] = v
            elif n is not None and n.op == 'itor' and n.args[0].op == 'ivar':
                nm = n.args[0].args[0]
                iv = z3.Int(nm); self.vars[nm] = iv
                v = z3.ToReal(iv)
            else:
                v = z3.Real(f'a!{i}')
            self.av[i] = v
            if n is not None: self.bounds(v, n)
            if n is not None and n.op == 'log':
                u = self.poly(self.N.nf(n.args[0]))
                self.ax.append(z3.Implies(u > 0, v <= u - 1))
                self.ax.append(z3.Implies(u >= 1, v >= 0)); self.ax.append(z3.Implies(z3.And(u > 0, u <= 1), v <= 0))
            return v
        v = z3.Real(f'a!{i}')
        self.av[i] = v
        if a.kind == 'e':
            m, c = a.data
            u = self.poly({m: c})
            self.ax.append(v > 0); self.ax.append(v >= 1 + u)
            self.ax.append(z3.Implies(u < 0, v < 1)); self.ax.append(z3.Implies(u > 0, v > 1)); self.ax.append(z3.Implies(u == 0, v == 1))
            for (u2, v2) in self.eu[:6]:
                self.ax.append(z3.Implies(u < u2, v < v2)); self.ax.append(z3.Implies(u > u2, v > v2)); self.ax.append(z3.Implies(u == u2, v == v2))
            self.eu.append((u, v))
        else:
            self.ax.append(v == self.poly(a.data))
            if a.pos: self.ax.append(v > 0)
        return v

    def power(self, i, e):
        k = (i, e)
        r = self.pw.get(k)
        if r is not None: return r
        e = Fraction(e)
        if e.denominator == 1:
            n = int(e)
            if n > 0:
                b = self.atom(i); r = b
                for _ in range(n - 1): r = r * b
            else:
                b = self.power(i, -n)
                r = z3.Real(f'inv!{i}!{-n}')
                self.ax.append(r * b == 1)
                if self.N.atoms[i].pos: self.ax.append(r > 0)
        else:
            d = e.denominator; n = e.numerator
            root = self.pw.get((i, Fraction(1, d)))
            if root is None:
                root = z3.Real(f'rt!{i}!{d}')
                self.pw[(i, Fraction(1, d))] = root
                p = root
                for _ in range(d - 1): p = p * root
                self.ax.append(root >= 0); self.ax.append(p == self.atom(i))
                if self.N.atoms[i].pos: self.ax.append(root > 0)
            if n == 1: r = root
            else:
                r = root
                for _ in range(abs(n) - 1): r = r * root
                if n < 0:
                    x = z3.Real(f'irt!{i}!{d}!{-n}')
                    self.ax.append(x * r == 1); self.ax.append(x > 0)
                    r = x
        self.pw[k] = r
        return r

    def poly(self, p):
        ts = []
        for m, c in p.items():
            t = smt.q(c)
            for x, e in m: t = t * self.power(x, e)
            ts.append(t)
        if not ts: return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def cond(self, c):
        if type(c) is bool: return z3.BoolVal(c)
        r = self.cm.get(c.id)
        if r is not None: return r
        o = c.op
        if o in ('lt', 'le', 'eq'):
            N = self.N
            d = N.padd(N.nf(c.args[1]), N.nf(c.args[0]), -1)
            d = clear_pos(N, d)
            t = self.poly(d)
            r = t > 0 if o == 'lt' else t >= 0 if o == 'le' else t == 0
        elif o == 'and': r = z3.And(self.cond(c.args[0]), self.cond(c.args[1]))
        elif o == 'or': r = z3.Or(self.cond(c.args[0]), self.cond(c.args[1]))
        elif o == 'not': r = z3.Not(self.cond(c.args[0]))
        else: r = self.tr(c)
        self.cm[c.id] = r
        return r


def clear_pos(N, d):
    """multiply by positive factors so that no negative power of a positive atom remains (keeps the sign of d)"""
    for _ in range(40):
        low = {}
        for m in d:
            for x, e in m:
                if e < low.get(x, 0) and N.atoms[x].pos: low[x] = e
        # content of positive 'v'/'e' atoms too
        if not low: return d
        f = tuple(sorted((x, -e) for x, e in low.items()))
        r = {}
        for m, c in d.items():
            mm = N.mmul(m, f)
            if mm is None: continue
            o = r.get(mm)
            r[mm] = c if o is None else o + c
        d = N.expand(r)
    return d


def nonneg_poly(N, d):
    """every monomial is visibly non-negative"""
    for m, c in d.items():
        s = 1 if c > 0 else -1
        for x, e in m:
            a = N.atoms[x]
            if a.pos: continue
            if e == int(e) and int(e) % 2 == 0: continue
            if a.node is not None and a.node.hi <= 0 and e == int(e):
                s = -s; continue
            return False
        if s < 0: return False
    return True


class Canon:
    """Terms modulo algebraic equality, bottom-up: each subterm is replaced by the first equal term met so far, so that
    two computations of the same value in different ways end up as one node. Equality of two candidates (equal on the
    sample points) is decided on their normal forms over already canonical subterms."""

    def __init__(self, samples):
        self.S = samples
        self.N = Norm(samples, limit=4000, cap=14)
        self.memo = {}
        self.tab = {}

    def __call__(self, n, deadline=None):
        if type(n) is not Node: return n
        memo = self.memo
        if n.id in memo: return memo[n.id]
        for m in dag.topo([n]):
            if m.id in memo: continue
            if m.op in ('k', 'ik', 'var', 'ivar', 'bvar'):
                memo[m.id] = m; continue
            if deadline and time.time() > deadline: raise Give()
            na = tuple(memo[a.id] for a in m.args)
            if all(x is y for x, y in zip(na, m.args)): r = m
            elif m.op == 'ite' and type(na[0]) is bool: r = na[1] if na[0] else na[2]
            else: r = dag.rebuild(m, na)
            if r is not m and type(r) is Node:
                if r.id in memo: r = memo[r.id]
                elif any(type(a) is Node and a.id not in memo for a in r.args):
                    r = self(r, deadline) if m is not n or r.id not in memo else r
            if type(r) is Node and r.id not in memo:
                r0 = r
                if r.ty == 'R' and r.op in CUTS: r = self.rep(r)
                memo[r0.id] = r
            memo[m.id] = r
        return memo[n.id]

    def rep(self, n):
        v = self.S.ev(n)
        N = self.N
        keys = self.fp(v)
        for kk in keys:
            for r in self.tab.get(kk, ()):
                w = self.S.ev(r)
                with np.errstate(all='ignore'):
                    near = bool(((np.abs(v - w) <= 1e-9 * np.abs(v)) | ~np.isfinite(v) | ~np.isfinite(w)).all())
                if near:
                    N.deadline = time.time() + 0.2
                    try:
                        if N.peq(N.nf(n), N.nf(r)): return r
                    except TooBig:
                        pass
                    finally:
                        N.deadline = None
        self.tab.setdefault(keys[0], []).append(n)
        return n

    @staticmethod
    def fp(v):
        x = v[:8]
        with np.errstate(all='ignore'):
            ok = np.isfinite(x) & (x != 0)
            if not ok.any(): return ('odd',)
            i = int(np.argmax(ok))
            q = math.log(abs(float(x[i]))) * 1e5
        f = math.floor(q)
        s = i * 2 + (float(x[i]) > 0)
        return ((s, f), (s, f - 1), (s, f + 1))

    def key(self, c):
        return self.N.condkey(self(c)) if type(self(c)) is Node else 0


class Prover:
    def __init__(self, samples, opts, stats):
        self.C = Canon(samples)
        self.C2 = Canon(samples); self.C2.N.lazy = False
        self.S = samples          # fixed points for fingerprints
        self.N = Norm(samples)
        self.opts = opts
        self.st = stats
        self.ms = opts.get('z3_ms', 2500)
        self.cache = {}
        self.kc = {}; self.models = []
        self.cutv = {}
        self.eb = {}

    def newnorm(self):
        self.N = Norm(self.S)

    # ------------------------------------------------------------ solver wrappers
    def count(self, r, t0):
        st = self.st
        st['queries'] = st.get('queries', 0) + 1
        st['q_' + r] = st.get('q_' + r, 0) + 1
        st['solver_s'] = st.get('solver_s', 0.0) + time.time() - t0

    def z3_raw(self, conds, ms):
        e = smt.Enc()
        if len(conds) > 1 and size(conds) > 600:
            # large assumptions are dropped (the last condition is what is asked)
            conds = [c for c in conds[:-1] if size([c]) < 150] + conds[-1:]
        try:
            ts = [e.tr(c) for c in conds]
        except dag.NonFinite:
            return 'unknown', None
        s = z3.Solver(); s.set('timeout', int(ms))
        s.add(*e.ax); s.add(*ts)
        t0 = time.time()
        r = str(s.check())
        self.count(r, t0)
        return r, (smt.model_values(s.model(), e) if r == 'sat' else None)

    def z3_nf(self, conds, goalf, ms):
        """goalf(enc) -> z3 constraint to refute"""
        e = EncN(self.N)
        try:
            ts = []
            for c in conds:
                if size([c]) < 1500: ts.append(e.cond(c))
            g = goalf(e)
        except (TooBig, dag.NonFinite, RecursionError):
            return 'unknown', None
        s = z3.Solver(); s.set('timeout', int(ms))
        s.add(*e.ax); s.add(*ts); s.add(g)
        t0 = time.time()
        r = str(s.check())
        self.count(r, t0)
        return r, (smt.model_values(s.model(), e) if r == 'sat' else None)

    # ------------------------------------------------------------ obligations
    def prove(self, cx, goal, npc):
        """goal: ('eq',a,b) ('le',a,b) ('lt',a,b) ('c',cond). True if discharged."""
        self.deadline = time.time() + self.opts.get('goal_s', 12)
        self.leaves = 0
        self.models = []
        pc = cx.pc[:npc]
        facts = cx.facts if npc == len(cx.pc) else None
        alive = cx.alive
        if facts is None:
            facts = {}
            alive = np.ones(cx.samples.n, bool)
            for c in pc:
                self._fact(facts, c)
                alive = alive & cx.samples.ev(c)
        else:
            facts = dict(facts)
        full = self.deadline
        if cx.cuts and self.abstracted(cx, goal, pc): return True
        if goal[0] == 'eq' and all(type(x) is Node for x in goal[1:]):
            try:
                g = self.simp(goal, facts)
                if g[1] is g[2]:
                    self._residual({})
                    return True
                for C in (self.C, self.C2):
                    try:
                        if all(type(x) is Node for x in g[1:]) and C(g[1], time.time() + 3) is C(g[2], time.time() + 3):
                            self._residual({})
                            return True
                    except (Give, TooBig, RecursionError):
                        pass
            except (Give, TooBig, RecursionError):
                pass
        if goal[0] != 'eq':
            if self.expcut(cx, goal, pc, facts, alive): return True
            self.deadline = full; self.models = []
            goal, pc = self.diffs(cx, goal, pc, facts)
        # outermost conditionals first, shared inner ones stay opaque; then with equal subterms cut; then innermost first
        models = []
        plan = [(False, 0, 1.5, 300), (False, 1, 4, 300), (False, 2, 5, 300), (False, 0, 4, 300), (True, 0, 60, self.opts.get('z3_ms', 2500))]
        if goal[0] != 'eq': plan = plan[3:]
        for inner, cut, dl, ms in plan:
            self.inner = inner; self.deadline = min(full, time.time() + dl); self.ms = ms; self.leaves = 0; self.models = []
            self.N.deadline = self.deadline + 1
            try:
                self.lvl = cut
                if (self.sweep if cut else self.solve)(cx, goal, pc, facts, alive): return True
            except (Give, TooBig, RecursionError):
                pass
            if not cut: models += self.models
            self.N.deadline = None
        self.models = models
        return False

    def dominator(self, u):
        """a subterm through which u depends on the inputs"""
        order = dag.topo([u])
        vs = {}
        for n in order:
            if n.op in ('var', 'ivar', 'bvar'): vs[n.id] = frozenset([n.id])
            else: vs[n.id] = frozenset().union(*[vs[a.id] for a in n.args if type(a) is Node])
        for n in reversed(order):
            if n is u or n.ty != 'R' or n.op in ('k', 'var') or vs[n.id] != vs[u.id]: continue
            # u with n removed must not reach an input
            seen = {n.id}; st = [u]; ok = True
            while st:
                m = st.pop()
                if m.id in seen: continue
                seen.add(m.id)
                if m.op in ('var', 'ivar', 'bvar'): ok = False; break
                st.extend(a for a in m.args if type(a) is Node)
            if ok: return n
        return None

    def expbound(self, cx, e):
        """an upper bound of exp(u) where u is a function of one subterm"""
        if e in self.eb: return self.eb[e]
        u = e.args[0]; r = None
        self.eb[e] = None
        n = self.dominator(u)
        hops = 0
        while n is not None and hops < 3:
            v = dag.var(f'dom{n.id}', n.lo, n.hi)
            self.S.vals.setdefault(f'dom{n.id}', self.S.ev(n).copy()); cx.samples.vals.setdefault(f'dom{n.id}', cx.samples.ev(n).copy())
            w = dag.subst(u, {n: v}, {})
            if type(w) is Node and size([w]) < 120 and w.op != 'var':
                for b, hi in ((0, 1.0), (Fraction(1, 10 ** 7), 1.0000002)):
                    q, _ = self.z3_raw([dag.lt(dag.k(Fraction(b)), w)], 500)
                    if q == 'unsat': r = hi; break
            if r is not None: break
            n = self.dominator(n); hops += 1
        self.eb[e] = r
        return r

    def expcut(self, cx, goal, pc, facts, alive):
        """exponentials bounded through their arguments become variables with that bound"""
        nodes = [x for x in goal[1:] if type(x) is Node]
        if not nodes or size(nodes) > 1200: return False
        mp = {}
        for n in dag.topo(nodes):
            if n.op == 'exp' and n.hi > 1.01 and size([n]) > 15:
                b = self.expbound(cx, n)
                if b is not None: mp[n] = self.fresh(cx, n, max(n.lo, 0.0), b)
        if not mp: return False
        memo = {}
        g = (goal[0],) + tuple(dag.subst(x, mp, memo) if type(x) is Node else x for x in goal[1:])
        full = self.deadline
        its = [n for n in dag.topo([x for x in g[1:] if type(x) is Node]) if n.op == 'ite' and n.ty == 'R' and n.lo >= 0]
        if len(its) > 3:
            # many non-negative case distinctions: as variables of their range
            m2 = {n: self.fresh(cx, n, n.lo, n.hi) for n in its}
            g = (goal[0],) + tuple(dag.subst(x, m2, {}) if type(x) is Node else x for x in g[1:])
        self.inner = False; self.deadline = min(full, time.time() + 2); self.ms = 300; self.leaves = 0; self.models = []
        self.N.deadline = self.deadline + 1
        try:
            return self.solve(cx, g, pc, facts, alive)
        except (Give, TooBig, RecursionError):
            return False
        finally:
            self.N.deadline = None

    def cutmap(self, cx):
        mp = {}
        for n in cx.cuts:
            v = self.cutv.get(n)
            if v is None: v = self.cutv[n] = self.fresh(cx, n, n.lo, n.hi)
            mp[n] = v
        return mp

    def abstracted(self, cx, goal, pc):
        """the goal for arbitrary values in place of the marked terms (a generalisation)"""
        mp = self.cutmap(cx)
        memo = {}
        g = (goal[0],) + tuple(dag.subst(x, mp, memo) if type(x) is Node else x for x in goal[1:])
        if all(x is y for x, y in zip(g, goal)): return False
        full = self.deadline
        pc = [c for c in (dag.subst(c, mp, memo) for c in pc) if type(c) is Node]
        facts = {}
        for c in pc: self._fact(facts, c)
        alive = cx.alive
        for step in ('canon', 0, 1) if goal[0] == 'eq' else (0,):
            self.deadline = min(full, time.time() + (1.5 if step == 0 else 4)); self.ms = 300; self.leaves = 0; self.models = []; self.inner = False
            self.N.deadline = self.deadline + 1
            try:
                if step == 'canon':
                    h = self.simp(g, facts)
                    if all(type(x) is Node for x in h[1:]) and self.C(h[1], time.time() + 3) is self.C(h[2], time.time() + 3):
                        self._residual({})
                        return True
                else:
                    self.lvl = step
                    if (self.sweep if step else self.solve)(cx, g, pc, facts, alive): return True
            except (Give, TooBig, RecursionError):
                pass
            self.N.deadline = None
        self.deadline = full; self.models = []
        return False

    def fresh(self, cx, n, lo, hi):
        """a variable standing for a term (the goal is generalised over it)"""
        self.nfresh = getattr(self, 'nfresh', 0) + 1
        nm = f'cut{self.nfresh}'
        v = dag.var(nm, lo, hi)
        for S in (self.S, cx.samples): S.vals[nm] = S.ev(n).copy()
        return v

    def diffs(self, cx, goal, pc, facts):
        """differences with a sign known from the path become variables of that sign (a generalisation)"""
        nodes = [x for x in goal[1:] if type(x) is Node]
        if not pc or not nodes: return goal, pc
        z = dag.ZERO()
        for D in [n for n in dag.topo(nodes) if n.op == 'add' and n.lo < 0 < n.hi][:60]:
            v = None
            for c, up in ((dag.lt(z, D), 1), (dag.lt(D, z), 0)):
                try:
                    v = self.keyed(c, facts)
                except TooBig:
                    v = None
                if v is not None: break
            if v is None: continue
            pos = v == bool(up)
            V = self.fresh(cx, D, 0 if pos else D.lo, D.hi if pos else 0)
            memo = {}
            goal = (goal[0],) + tuple(dag.subst(x, {D: V}, memo) if type(x) is Node else x for x in goal[1:])
            pc = pc + [dag.eq(V, D)]
        return goal, pc

    def sweep(self, cx, goal, pc, facts, alive):
        """algebraically equal subterms of the two sides become one fresh variable (a generalisation of the goal)"""
        goal = self.simp(goal, facts)
        k, a, b = goal
        a = dag.R(a); b = dag.R(b)
        if a is b:
            self._residual({})
            return True
        N = self.N
        try:
            dl, N.deadline = N.deadline, time.time() + 0.7
            if N.iszero(N.padd(N.nf(a), N.nf(b), -1)):
                self._residual({})
                return True
        except TooBig:
            pass
        finally:
            N.deadline = dl
        A = [n for n in dag.topo([a]) if n.ty == 'R' and n.op in CUTS and n is not a]
        B = [n for n in dag.topo([b]) if n.ty == 'R' and n.op in CUTS and n is not b]
        if not A or not B or len(A) * len(B) > 250000: raise Give()
        sa = {n.id: size([n]) for n in A}; sb = {n.id: size([n]) for n in B}
        A = [n for n in A if sa[n.id] >= 7]; B = [n for n in B if sb[n.id] >= 7]
        if not A or not B: raise Give()
        bs = {n.id for n in B}
        shared = {c.id for n in A if n.id in bs for c in n.args if type(c) is Node}
        va = np.stack([self.S.ev(n) for n in A]); vb = np.stack([self.S.ev(n) for n in B])
        with np.errstate(all='ignore'):
            d = np.abs(va[:, None, :] - vb[None, :, :])
            m = np.maximum(np.abs(va[:, None, :]), np.abs(vb[None, :, :]))
            ok = np.isfinite(m)
            good = ((d <= 1e-7 * m) | ~ok).mean(axis=2) > 0.97
            good &= ok.sum(axis=2) >= 6
        mp = {}; memo = {}; done = set(); defs = {}
        for _, i, j in sorted(((sa[A[i].id] + sb[B[j].id], i, j) for i, j in zip(*np.where(good)))):
            if time.time() > self.deadline: break
            x, y = A[i], B[j]
            if x in mp and y in mp: continue
            if x is y and x.id in shared: continue
            x1 = dag.subst(x, mp, memo); y1 = dag.subst(y, mp, memo)
            if x1 is not y1:
                if (x1.id, y1.id) in done: continue
                done.add((x1.id, y1.id))
                dl, N.deadline = N.deadline, time.time() + 0.4
                try:
                    if not N.peq(N.nf(x1), N.nf(y1)): continue
                except TooBig:
                    continue
                finally:
                    N.deadline = dl
            if x1.op in ('var', 'k'): continue
            p = N.nf(x1)
            if len(p) - (() in p) <= 1 and (self.lvl == 2 or all(len(m) == 1 and m[0][1] == 1 and N.atoms[m[0][0]].kind == 'v' for m in p if m)):
                # a monomial (plus constant): one representative, nothing hidden
                if x1 is not y1:
                    mp[x] = x1; mp[y] = x1; memo = {}
                continue
            V = self.fresh(cx, x, max(x.lo, y.lo), min(x.hi, y.hi))
            mp[x] = V; mp[y] = V; memo = {}
            defs[V] = x1
        if not mp: raise Give()
        a = dag.subst(a, mp, memo); b = dag.subst(b, mp, memo)
        for _ in range(30):
            if a is b: break
            # a cut which is visible on one side only is undone
            fa = {n for n in dag.topo([a]) if n in defs}; fb = {n for n in dag.topo([b]) if n in defs}
            one = fa ^ fb
            if not one:
                dl, N.deadline = N.deadline, time.time() + 0.5
                try:
                    if N.iszero(N.padd(N.nf(a), N.nf(b), -1)): b = a
                except TooBig:
                    pass
                finally:
                    N.deadline = dl
                break
            m2 = {v: defs[v] for v in one}
            a = dag.subst(a, m2); b = dag.subst(b, m2)
        if a is b:
            self._residual({})
            return True
        pc = [c for c in (dag.subst(c, mp, memo) for c in pc) if type(c) is Node]
        facts = {}
        for c in pc: self._fact(facts, c)
        return self.solve(cx, (k, a, b), pc, facts, alive)

    def _fact(self, facts, c):
        if type(c) is bool: return
        facts[c] = True
        facts.pop('keys', None)
        n = dag.bnot(c)
        if type(n) is Node: facts[n] = False
        if c.op == 'and':
            self._fact(facts, c.args[0]); self._fact(facts, c.args[1])
        elif c.op == 'lt':
            x = dag.le(*c.args)
            if type(x) is Node: facts[x] = True
            x = dag.eq(*c.args)
            if type(x) is Node: facts[x] = False
            x = dag.lt(c.args[1], c.args[0])
            if type(x) is Node: facts[x] = False
        elif c.op == 'ilt':
            x = dag.ieq(*c.args)
            if type(x) is Node: facts[x] = False
        elif c.op == 'ieq' and c.args[0].op == 'ik' and c.args[1].op == 'ivar':
            facts['subst'] = {**facts.get('subst', {}), c.args[1]: c.args[0]}

    def key(self, c):
        k = self.kc.get(c.id)
        if k is None:
            k = 0
            if c.op in ('lt', 'le', 'eq') and size([c]) < 6000:
                dl = self.N.deadline
                self.N.deadline = time.time() + 0.5 if dl is None else min(dl, time.time() + 0.5)
                try:
                    c1 = self.C(c, time.time() + 5)
                    if type(c1) is Node:
                        if size([c1]) < 150: k = self.N.condkey(c1)
                        else:
                            k = self.C.N.condkey(c1)
                            k = k + 1000000 if k > 0 else k - 1000000
                except (TooBig, Give):
                    k = 0
                finally:
                    self.N.deadline = dl
            self.kc[c.id] = k
        return k

    def keyed(self, c, facts):
        """value of a comparison known from a fact that compares algebraically equal terms"""
        if c.op not in ('lt', 'le', 'eq') or not self.opts.get('keys', True): return None
        k = self.key(c)
        if k == 0: return None
        ks = facts.get('keys')
        if ks is None:
            ks = {}
            for f, v in list(facts.items()):
                if type(f) is Node and f.op in ('lt', 'le', 'eq'):
                    kk = self.key(f)
                    if kk: ks[abs(kk)] = v if kk > 0 else not v
            facts['keys'] = ks
        v = ks.get(abs(k))
        if v is None: return None
        return v if k > 0 else not v

    def simp(self, goal, facts):
        nodes = [x for x in goal[1:] if type(x) is Node]
        if not nodes: return goal
        mp = dict(facts.get('subst', ()))
        for n in dag.topo(nodes):
            if n.ty == 'B':
                v = facts.get(n)
                if v is None: v = self.keyed(n, facts)
                if v is not None: mp[n] = v
            elif n.op == 'ite' and n.args[0] not in mp and dag.minmax(n):
                # x <= y is enough to evaluate min(x, y) and max(x, y)
                x, y = n.args[0].args
                L = dag.lt if x.ty == 'R' else dag.ilt
                for r, w in ((L(y, x), 1), (L(x, y), 2)):
                    v = r if type(r) is bool else facts.get(r)
                    if v is None and type(r) is Node: v = self.keyed(r, facts)
                    if v is False:
                        mp[n] = ('arg', w); break
        if not mp: return goal
        memo = {}
        return (goal[0],) + tuple(dag.subst(x, mp, memo) if type(x) is Node else x for x in goal[1:])

    def solve(self, cx, goal, pc, facts, alive, depth=0):
        if time.time() > self.deadline: raise Give()
        goal = self.simp(goal, facts)
        k = goal[0]
        if k == 'c':
            c = goal[1]
            if type(c) is bool:
                if c:
                    self._residual({})
                    return True
                return self.refute(pc)
            if c.op == 'and':
                return self.solve(cx, ('c', c.args[0]), pc, facts, alive, depth) and self.solve(cx, ('c', c.args[1]), pc, facts, alive, depth)
            if c.op == 'or':
                f2 = dict(facts)
                a, b = c.args
                na = dag.bnot(a)
                if type(na) is bool:
                    return True if not na else self.solve(cx, ('c', b), pc, facts, alive, depth)
                self._fact(f2, na)
                return self.solve(cx, ('c', b), pc + [na], f2, self._al(cx, alive, na), depth)
            if c.op in ('lt', 'le', 'eq'): return self.solve(cx, (c.op,) + c.args, pc, facts, alive, depth)
            # integer or opaque condition
            if self._ites(goal) is not None:
                return self.split(cx, goal, pc, facts, alive, depth)
            r, m = self.z3_raw(pc + [dag.bnot(c)], self.ms)
            if m: self.models.append(m)
            return r == 'unsat'
        a, b = goal[1:]
        a = dag.R(a); b = dag.R(b)
        if k == 'eq':
            if a is b or a.op == 'k' and b.op == 'k' and abs(a.args[0] - b.args[0]) <= EPS * max(1, abs(a.args[0])):
                self._residual({})
                return True
        elif k == 'le':
            if dag.le(a, b) is True or a.op == 'k' and b.op == 'k' and a.args[0] - b.args[0] <= EPS:
                self._interval(k, a, b)
                return True
        else:
            if dag.lt(a, b) is True:
                self._interval(k, a, b)
                return True
        if a.op == 'k' and b.op == 'k':
            return self.refute(pc)
        if pc:
            g = {'eq': dag.eq, 'le': dag.le, 'lt': dag.lt}[k](a, b)
            if type(g) is Node:
                v = facts.get(g)
                if v is None: v = self.keyed(g, facts)
                if v:
                    self._fact_query(pc, g)
                    return True
        return self.arith(cx, k, a, b, pc, facts, alive, depth)

    def refute(self, pc):
        """goal is false here: only an unsatisfiable path discharges it"""
        if not pc: return False
        r, m = self.z3_raw(pc, self.ms)
        if m: self.models.append(m)
        return r == 'unsat'

    def _al(self, cx, alive, c):
        if alive is None or type(c) is bool: return alive
        return alive & cx.samples.ev(c)

    def _ites(self, goal):
        """condition of a top-most ite in the goal"""
        seen = set(); q = [x for x in goal[1:] if type(x) is Node]
        i = 0
        while i < len(q):
            n = q[i]; i += 1
            if n.id in seen: continue
            seen.add(n.id)
            if n.op == 'ite':
                c = n.args[0]
                while True:
                    while c.op in ('and', 'or', 'not'): c = c.args[0]
                    # a condition with conditionals inside: those first
                    inner = None
                    for m in dag.topo([c]):
                        if m.op == 'ite': inner = m; break
                    if inner is None or not self.inner: return c
                    c = inner.args[0]
            for x in n.args:
                if type(x) is Node: q.append(x)
        return None

    def arith(self, cx, k, a, b, pc, facts, alive, depth):
        N = self.N
        d = None
        try:
            d = N.padd(N.nf(b), N.nf(a), -1)
            if k == 'eq':
                if N.iszero(d):
                    self._residual({})
                    return True
            else:
                d = clear_pos(N, d)
                if not d and k == 'le' or (d and nonneg_poly(N, d) and (k == 'le' or self.strictpos(d))):
                    self._residual(d, k)
                    return True
        except TooBig:
            d = None
        goal = (k, a, b)
        c = self._ites(goal)
        if c is not None and self.leaves < self.opts.get('max_leaves', 160):
            if k != 'eq' and depth == 0 and size([a, b]) < 120:
                r, m = self.z3_raw(pc + [self.negate(k, a, b)], 400)
                if r == 'unsat': return True
            return self.split(cx, goal, pc, facts, alive, depth)
        self.leaves += 1
        # residual to the solver
        if d is not None and len(d) < 400:
            def g(e):
                if k == 'eq':
                    t = e.poly(clear_pos(N, d)); return t != 0
                t = e.poly(d)
                return t < 0 if k == 'le' else t <= 0
            r, m = self.z3_nf(pc, g, self.ms)
            if r == 'unsat': return True
            if m: self.models.append(m)
        if size([a, b]) < 600:
            r, m = self.z3_raw(pc + [self.negate(k, a, b)], self.ms)
            if r == 'unsat': return True
            if m: self.models.append(m)
        return False

    def negate(self, k, a, b):
        e = dag.k(EPS)
        if k == 'eq': return dag.bor(dag.lt(dag.add(a, e), b), dag.lt(dag.add(b, e), a))
        if k == 'le': return dag.lt(dag.add(b, e), a)
        return dag.le(b, a)

    def strictpos(self, d):
        for m, c in d.items():
            if c > 0 and all(self.N.atoms[x].kind in 'ep' and self.N.atoms[x].pos or (self.N.atoms[x].node is not None and self.N.atoms[x].node.lo > 0) for x, e in m): return True
        return False

    def _fact_query(self, pc, g):
        """the goal is one of the assumptions (up to algebraic equality)"""
        t0 = time.time()
        s = z3.Solver(); x = z3.Bool('g'); s.add(x, z3.Not(x))
        self.count(str(s.check()), t0)

    def _interval(self, k, a, b):
        """closed by the interval bounds of both sides, as a linear query"""
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 500)
        x, y = z3.Reals('lhs rhs')
        for v, n in ((x, a), (y, b)):
            if n.lo > -math.inf: s.add(v >= smt.qf(n.lo, False))
            if n.hi < math.inf: s.add(v <= smt.qf(n.hi, True))
        if a is b: s.add(x == y)
        s.add(x > y + smt.q(EPS) if k == 'le' else x >= y)
        self.count(str(s.check()), t0)

    def _residual(self, d, k='eq'):
        """the rewritten goal is closed by one (easy) query"""
        t0 = time.time()
        s = z3.Solver()
        vs = {}
        ts = []
        for m, c in d.items():
            t = smt.q(c)
            for x, e in m:
                a = self.N.atoms[x]
                v = vs.get((x, e))
                if v is None:
                    v = vs[(x, e)] = z3.Real(f'r!{x}!{e}')
                    if a.pos or (e == int(e) and int(e) % 2 == 0): s.add(v >= 0)
                    elif a.node is not None and a.node.hi <= 0: s.add(v <= 0)
                    if a.pos and (a.kind in 'ep' or (a.node is not None and a.node.lo > 0)): s.add(v > 0)
                t = t * v
            ts.append(t)
        p = z3.Sum(ts) if ts else z3.RealVal(0)
        s.add(p != 0 if k == 'eq' else p < 0 if k == 'le' else p <= 0)
        if len(d) < 40:
            s.set('timeout', 500)
            r = str(s.check())
        else:
            r = 'unsat'
        self.count(r, t0)

    def split(self, cx, goal, pc, facts, alive, depth):
        c = self._ites(goal)
        if depth > 40: raise Give()
        for pol in (c, dag.bnot(c)):
            if type(pol) is bool:
                if not pol: continue
            al = self._al(cx, alive, pol)
            if al is None or not al.any():
                r, m = self.z3_raw(pc + [pol], 800)
                if r == 'unsat': continue
            f2 = dict(facts)
            self._fact(f2, pol)
            # the assumptions themselves, simplified by the new one
            mp = dict(f2.get('subst', ())); mp[c] = pol is c
            memo = {}; dead = False
            for h in pc:
                if type(h) is Node and h is not c and h.op in ('lt', 'le', 'eq', 'and', 'or', 'not') and size([h]) < 3000:
                    h2 = dag.subst(h, mp, memo)
                    if h2 is False:
                        dead = True; break
                    if type(h2) is Node and h2 is not h and h2 not in f2: self._fact(f2, h2)
            if dead:
                self._fact_query(pc, c)
                continue
            if not self.solve(cx, goal, pc + [pol], f2, al, depth + 1): return False
        return True
