"""Algebraic normal form: Laurent/Puiseux polynomials over atoms.

Atoms: opaque terms ('v'), exponentials of monomials ('e'), and bases of negative / fractional powers ('p').
Coefficients are rationals; coefficients which cancel to below 1e-13 of their operands are dropped, so identities
are decided up to that relative perturbation of the literal constants in the code (double rounding of literals)."""
from fractions import Fraction
import math, time
import numpy as np
import mpmath
import dag
from dag import Node

TOL = Fraction(1, 10**13)
ONE = Fraction(1)
mpmath.mp.dps = 60


class TooBig(Exception):
    pass


def rnd(c):
    d = c.denominator
    if d.bit_length() > 200 or c.numerator.bit_length() > 400:
        if c == 0: return c
        e = 170 - (c.numerator.bit_length() - d.bit_length())
        if e >= 0:
            return Fraction(round(c * (1 << e)), 1 << e)
        return Fraction(round(c / (1 << -e)) * (1 << -e))
    return c


def tofrac(x):
    """mpf -> Fraction"""
    s, m, e, b = mpmath.mpf(x)._mpf_
    m = int(m)
    if s: m = -m
    return Fraction(m) * (Fraction(2) ** e)


class Atom:
    __slots__ = ('kind', 'data', 'pos', 'val', 'node', 'i', 'note')


class Norm:
    def __init__(self, samples, limit=30000, cap=None):
        self.lazy = cap is not None   # products stay factored; sums are only multiplied out to compare
        self.cap = cap       # longer sums become opaque atoms (canonicalised terms only)
        self.S = samples
        self.atoms = []
        self.memo = {}
        self.vtab = {}
        self.etab = {}       # mono -> [atom]
        self.ptab = {}       # frozenset(monos) -> [atom]
        self.exps = []       # (fingerprint array, poly u, result)
        self.logs = []
        self.ites = []
        self.limit = limit
        self.condkeys = []
        self.ind = {}        # atom index of an indicator [ivar == v] -> ivar name
        self.indtab = {}
        self.deadline = None

    # ---- atoms
    def new(self, kind, data, pos, val, node=None):
        a = Atom(); a.kind = kind; a.data = data; a.pos = pos; a.val = val; a.node = node
        a.i = len(self.atoms); self.atoms.append(a)
        return a

    def opaque(self, n):
        a = self.vtab.get(n.id)
        if a is None:
            a = self.new('v', n, n.lo >= 0, self.S.ev(n), n)
            self.vtab[n.id] = a
        return {((a.i, 1),): ONE}

    # ---- polynomial arithmetic
    def padd(self, p, q, s=1):
        if len(p) < len(q) and s == 1: p, q = q, p
        r = dict(p)
        for m, c in q.items():
            if s != 1: c = c * s
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                t = o + c
                if t == 0 or abs(t) <= TOL * max(abs(o), abs(c)):
                    del r[m]
                else:
                    r[m] = rnd(t)
        return r

    def mmul(self, a, b):
        """multiply monomials; returns (mono, list of (atom,int power) to expand)"""
        if not a: return b
        if not b: return a
        i = j = 0; out = []
        la = len(a); lb = len(b)
        ind = self.ind
        while i < la and j < lb:
            x, ex = a[i]; y, ey = b[j]
            if x == y:
                e = ex + ey if x not in ind else 1
                if e != 0: out.append((x, e))
                i += 1; j += 1
            elif x < y:
                out.append(a[i]); i += 1
            else:
                out.append(b[j]); j += 1
        out.extend(a[i:]); out.extend(b[j:])
        if ind:
            seen = None
            for x, e in out:
                w = ind.get(x)
                if w is not None:
                    if seen is None: seen = {w}
                    elif w in seen: return None
                    else: seen.add(w)
        return tuple(out)

    def pmul(self, p, q):
        if not p or not q: return {}
        if len(p) * len(q) > self.limit * 4: raise TooBig()
        if self.deadline and len(p) * len(q) > 40 and time.time() > self.deadline: raise TooBig()
        r = {}
        expand = False
        ats = self.atoms
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                if m is None: continue
                c = c1 * c2
                o = r.get(m)
                if o is None:
                    r[m] = rnd(c)
                    if not expand:
                        for (x, e) in m:
                            if e >= 1 and ats[x].kind == 'p': expand = True
                else:
                    t = o + c
                    if t == 0 or abs(t) <= TOL * max(abs(o), abs(c)): del r[m]
                    else: r[m] = rnd(t)
        if len(r) > self.limit: raise TooBig()
        if expand and not self.lazy: r = self.expand(r)
        return r

    def expand(self, p):
        """positive integer parts of 'p' atoms are multiplied out"""
        out = {}
        work = []
        ats = self.atoms
        for m, c in p.items():
            hit = None
            for (x, e) in m:
                if e >= 1 and ats[x].kind == 'p':
                    hit = (x, e); break
            if hit is None: work.append((None, {m: c}))
            else: work.append((hit, (m, c)))
        plain = {}
        groups = {}
        for h, d in work:
            if h is None:
                plain.update(d)
            else:
                m, c = d
                x, e = h
                n = math.floor(e)
                rest = tuple((y, f) if y != x else (y, f - n) for y, f in m if not (y == x and f == n))
                g = groups.setdefault((x, n), {})
                o = g.get(rest)
                g[rest] = c if o is None else o + c
        out = plain
        for (x, n), g in groups.items():
            g = {m: c for m, c in g.items() if c != 0}
            P = ats[x].data
            Q = g
            for _ in range(n): Q = self.pmul(Q, P)
            out = self.padd(out, Q)
        if len(out) > self.limit: raise TooBig()
        return out

    def scal(self, p, c):
        if c == 0: return {}
        return {m: rnd(v * c) for m, v in p.items()}

    def val(self, p):
        """numeric value over the samples"""
        r = np.zeros(self.S.n)
        with np.errstate(all='ignore'):
            for m, c in p.items():
                t = np.full(self.S.n, float(c))
                for x, e in m:
                    t = t * np.power(self.atoms[x].val, float(e)) if e != 1 else t * self.atoms[x].val
                r = r + t
        return r

    @staticmethod
    def close(a, b, rel=1e-6):
        with np.errstate(all='ignore'):
            ok = np.isfinite(a) & np.isfinite(b)
            if ok.sum() < 6: return None
            d = np.abs(a - b)[ok]; s = np.maximum(np.abs(a), np.abs(b))[ok]
            return bool((d <= rel * s + 1e-300).mean() > 0.98)

    def positive(self, m):
        for x, e in m:
            if not self.atoms[x].pos and not (e % 2 == 0): return False
        return True

    def ppow(self, p, e, nn=False):
        """p^e; nn: p is known to be non-negative"""
        if not p:
            if e > 0: return {}
            raise ZeroDivisionError
        if isinstance(e, int) or e.denominator == 1:
            e = int(e)
            if e > 0:
                r = p
                for _ in range(e - 1): r = self.pmul(r, p)
                return r
        frac = not (isinstance(e, int))
        ats = self.atoms
        if self.ind:
            r = self.pointwise(p, lambda c: self.ppow({(): c}, e) if c != 0 else self._zpow(e))
            if r is not None: return r
        if len(p) == 1:
            (m, c), = p.items()
            ok = True
            if frac:
                if c < 0: ok = False
                bad = [x for x, k in m if not ats[x].pos]
                if nn and c > 0 and len(bad) == 1 and dict(m)[bad[0]] % 2:
                    ats[bad[0]].pos = True      # the product is non-negative and every other factor is
                elif bad: ok = False
            if ok:
                cc = c ** e if not frac else self.cpow(c, e)
                mm = tuple((x, self.red(k * e)) for x, k in m)
                r = {mm: cc}
                return self.expand(r) if not self.lazy and any(k >= 1 and ats[x].kind == 'p' for x, k in mm) else r
        # factor positive content
        lm = max(p)         # deterministic leading monomial
        mins = None
        for m in p:
            d = {x: k for x, k in m if ats[x].pos and x not in self.ind}
            if mins is None: mins = d
            else:
                for x in list(mins):
                    mins[x] = min(mins[x], d.get(x, 0))
                for x in d:
                    if x not in mins: mins[x] = min(0, d[x])
        cont = tuple(sorted((x, k) for x, k in mins.items() if k != 0))
        if cont:
            inv = tuple((x, -k) for x, k in cont)
            p2 = {self.mmul(m, inv): c for m, c in p.items()}
            if not self.lazy and any(k >= 1 and ats[x].kind == 'p' for m in p2 for x, k in m): p2 = self.expand(p2)
            if len(p2) == 1:
                r = self.ppow(p2, e, nn)
                mm = tuple((x, self.red(k * e)) for x, k in cont)
                return self.pmul(r, {mm: ONE})
        else:
            p2 = p
        fac = self.factor(p2, frac)
        if fac:
            p2, fs = fac
            r = self.ppow(p2, e, nn)
            r = self.pmul(r, {tuple((x, self.red(k * e)) for x, k in sorted(fs.items())): ONE})
            return self.pmul(r, {tuple((x, self.red(k * e)) for x, k in cont): ONE}) if cont else r
        lm = max(p2)
        lc = p2[lm]
        sgn = 1
        if lc < 0:
            if frac or nn: sgn = 1
            else: sgn = -1
        c = abs(lc)
        p3 = {m: rnd(v / c * sgn) for m, v in p2.items()}
        a = self.patom(p3, nn)
        cc = (c ** e if not frac else self.cpow(c, e)) * (sgn if (not frac and e % 2) else 1)
        mm = {((a.i, e),): cc}
        if cont:
            r = self.pmul(mm, {tuple((x, self.red(k * e)) for x, k in cont): ONE})
        else:
            r = mm
        return r

    def factor(self, p, frac):
        """divide out bases which are already known"""
        if len(p) < 4 or len(p) > 300 or frozenset(p) in self.ptab: return None
        fs = {}
        for a in self.atoms:
            if a.kind != 'p' or not a.pos and frac: continue
            while 2 <= len(a.data) < len(p):
                q = self.pdiv(p, a.data)
                if q is None: break
                p = q
                fs[a.i] = fs.get(a.i, 0) + 1
        return (p, fs) if fs else None

    def pdiv(self, p, d):
        """exact quotient p/d, or None"""
        pv = {x for m in p for x, _ in m}
        dv = {x for m in d for x, _ in m}
        if not dv <= pv or any(x in self.ind for x in dv): return None
        vs = sorted(dv)
        pos = {x: i for i, x in enumerate(vs)}
        # p is a polynomial in the other variables as well: those go last in the order
        rest = sorted(pv - dv)
        for i, x in enumerate(rest): pos[x] = len(vs) + i
        n = len(pos)

        def vec(m):
            v = [0] * n
            for x, e in m: v[pos[x]] = e
            return tuple(v)
        P = {vec(m): c for m, c in p.items()}
        D = [(vec(m), c) for m, c in d.items()]
        D.sort(key=lambda t: t[0], reverse=True)
        lt, lc = D[0]
        # extreme terms must divide at both ends of the order
        tt, tc = D[-1]
        mx = max(P); mn = min(P)
        if any(a < b for a, b in zip(mx, lt)) or any(a < b for a, b in zip(mn, tt)): return None
        Q = {}
        import heapq
        scale = {}
        heap = [tuple(-e for e in m) for m in P]
        heapq.heapify(heap)
        steps = 0
        while heap:
            m = tuple(-e for e in heapq.heappop(heap))
            c = P.pop(m, None)
            if c is None or c == 0 or abs(c) <= TOL * scale.get(m, 0): continue
            steps += 1
            if steps * len(D) > 4000: return None
            qm = tuple(a - b for a, b in zip(m, lt))
            if any(e < 0 for e in qm): return None
            qc = c / lc
            Q[qm] = rnd(qc)
            for dm, dc in D[1:]:
                t = tuple(a + b for a, b in zip(qm, dm))
                v = qc * dc
                o = P.get(t)
                if o is None:
                    P[t] = rnd(-v)
                    heapq.heappush(heap, tuple(-e for e in t))
                    scale[t] = max(scale.get(t, 0), abs(v))
                else:
                    P[t] = rnd(o - v)
                    scale[t] = max(scale.get(t, 0), abs(v), abs(o))
        inv = vs + rest
        return {tuple(sorted((inv[i], self.red(e)) for i, e in enumerate(m) if e != 0)): c for m, c in Q.items()}

    @staticmethod
    def _zpow(e):
        if e > 0: return {}
        raise TooBig()

    def indicator(self, iv, v):
        a = self.indtab.get((iv.id, v))
        if a is None:
            a = self.new('i', (iv, v), True, (self.S.ev(iv) == v).astype(float))
            self.indtab[(iv.id, v)] = a
            self.ind[a.i] = iv.id
        return a

    def pointwise(self, p, f):
        """f applied to a polynomial of indicators of one variable only"""
        w = None
        for m in p:
            if len(m) > 1: return None
            for x, e in m:
                k = self.ind.get(x)
                if k is None or (w is not None and w != k): return None
                w = k
        if w is None: return None
        base = p.get((), Fraction(0))
        r0 = f(base)
        r = r0
        for m, c in p.items():
            if m == (): continue
            r = self.padd(r, self.pmul(self.padd(f(base + c), r0, -1), {m: ONE}))
        return r

    def ind_ite(self, c, pa, pb):
        """conditional on one small integer, as a combination of its indicators"""
        iv = None
        st = [c]; seen = set()
        while st:
            m = st.pop()
            if m.id in seen: continue
            seen.add(m.id)
            if m.op == 'ivar':
                if iv is not None: return None
                iv = m
            elif m.op not in ('ieq', 'ilt', 'ile', 'and', 'or', 'not', 'ik', 'iadd'): return None
            st.extend(a for a in m.args if type(a) is Node)
        if iv is None or iv.hi - iv.lo > 3: return None
        d = self.padd(pa, pb, -1)
        vals = list(range(iv.lo, iv.hi + 1))
        tv = [dag.subst(c, {iv: dag.ik(v)}) for v in vals]
        base, dd = (pb, d) if not tv[-1] else (pa, self.scal(d, Fraction(-1)))
        r = base
        for v, t in zip(vals[:-1], tv[:-1]):
            if t != tv[-1]: r = self.padd(r, self.pmul(dd, {((self.indicator(iv, v).i, 1),): ONE}))
        return r

    def const_table(self, n):
        """polynomial of indicators for an ite tree with constant leaves over few small integers"""
        ivs = {}
        seen = set(); st = [n]; cnt = 0
        while st:
            m = st.pop()
            if m.id in seen: continue
            seen.add(m.id); cnt += 1
            if cnt > 120: return None
            if m.op == 'ivar':
                ivs[m.id] = m
            elif m.op in ('var', 'bvar') or m.op in ('lt', 'le', 'eq', 'floor', 'exp', 'log', 'sqrt', 'div', 'rtoi'): return None
            for a in m.args:
                if type(a) is Node: st.append(a)
        if not ivs: return None
        tot = 1
        for m in ivs.values():
            if m.hi - m.lo > 7: return None
            tot *= m.hi - m.lo + 1
        if tot > 24: return None
        vs = [ivs[i] for i in sorted(ivs)]

        def rec(i, node):
            if node.op == 'k': return {(): node.args[0]} if node.args[0] != 0 else {}
            if i == len(vs): raise TooBig()
            v = vs[i]
            vals = list(range(v.lo, v.hi + 1))
            ps = [rec(i + 1, dag.subst(node, {v: dag.ik(x)})) for x in vals]
            r = ps[-1]
            for x, p in zip(vals[:-1], ps[:-1]):
                d = self.padd(p, ps[-1], -1)
                if d: r = self.padd(r, self.pmul(d, {((self.indicator(v, x).i, 1),): ONE}))
            return r
        try:
            return rec(0, n)
        except TooBig:
            return None

    @staticmethod
    def red(k):
        if isinstance(k, Fraction) and k.denominator == 1: return int(k)
        return k

    def cpow(self, c, e):
        if e == Fraction(1, 2) or e == Fraction(-1, 2):
            n = math.isqrt(c.numerator); d = math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Fraction(n, d) if e > 0 else Fraction(d, n)
        return rnd(tofrac(mpmath.power(mpmath.mpf(c.numerator) / c.denominator, mpmath.mpf(e.numerator) / e.denominator)))

    def patom(self, p, nn=False):
        key = frozenset(p)
        for a in self.ptab.get(key, ()):
            if all(abs(a.data.get(m, 0) - c) <= TOL * max(abs(c), abs(a.data.get(m, 0))) for m, c in p.items()):
                if nn: a.pos = True
                return a
        v = self.val(p)
        # numerically equal base with another shape?
        for l in self.ptab.values():
            for a in l:
                if self.close(a.val, v):
                    if self.iszero(self.padd(a.data, p, -1)):
                        self.ptab.setdefault(key, []).append(a)
                        if nn: a.pos = True
                        return a
        with np.errstate(all='ignore'):
            pos = all(c > 0 and self.positive(m) for m, c in p.items())
        a = self.new('p', p, pos or nn, v)
        self.ptab.setdefault(key, []).append(a)
        return a

    # ---- terms
    def nf(self, n):
        memo = self.memo
        r = memo.get(n.id)
        if r is not None: return r
        st = [n]
        while st:
            m = st[-1]
            if m.id in memo:
                st.pop(); continue
            if m.ty == 'R' and m.op in ('add', 'mul', 'div', 'sqrt', 'exp', 'log', 'ite', 'floor'):
                ch = m.args[1:] if m.op == 'ite' else m.args
                need = [a for a in ch if a.id not in memo]
                if need:
                    st.extend(need); continue
            if self.cap:
                try:
                    r = self._nf(m)
                except TooBig:
                    r = self.opaque(m)
                if len(r) > self.cap: r = self.opaque(m)
                memo[m.id] = r
            else:
                memo[m.id] = self._nf(m)
            st.pop()
        return memo[n.id]

    def _nf(self, m):
        o = m.op; g = self.memo
        if o == 'k': return {(): m.args[0]} if m.args[0] != 0 else {}
        if o == 'add': return self.padd(g[m.args[0].id], g[m.args[1].id])
        if o == 'mul': return self.pmul(g[m.args[0].id], g[m.args[1].id])
        if o == 'div':
            return self.pmul(g[m.args[0].id], self.ppow(g[m.args[1].id], -1, m.args[1].lo >= 0))
        if o == 'sqrt':
            return self.ppow(g[m.args[0].id], Fraction(1, 2), True)
        if o == 'exp': return self.pexp(g[m.args[0].id], self.S.ev(m.args[0]))
        if o == 'log': return self.plog(m, g[m.args[0].id])
        if o == 'ite': return self.pite(m)
        if o == 'itor':
            x = m.args[0]
            if x.op == 'iadd': return self.padd(self.nf(dag.itor(x.args[0])), self.nf(dag.itor(x.args[1])))
            if x.op == 'imul' and x.args[0].op == 'ik': return self.scal(self.nf(dag.itor(x.args[1])), Fraction(x.args[0].args[0]))
        return self.opaque(m)

    def pexp(self, u, uv):
        if not u: return {(): ONE}
        if self.ind:
            r = self.pointwise(u, lambda c: {(): rnd(tofrac(mpmath.exp(mpmath.mpf(c.numerator) / c.denominator)))})
            if r is not None: return r
        for (fv, pu, r) in self.exps:
            if self.close(fv, uv) and self.iszero(self.padd(pu, u, -1)): return r
            if self.close(-fv, uv) and self.iszero(self.padd(pu, u)):
                r2 = self.ppow(r, -1)
                self.exps.append((uv, u, r2))
                return r2
        coef = ONE; mono = []
        for m, c in u.items():
            if m == ():
                coef *= tofrac(mpmath.exp(mpmath.mpf(c.numerator) / c.denominator))
                continue
            l = self.etab.setdefault(m, [])
            for a, c0 in l:
                ra = c / c0
                rr = ra.limit_denominator(96)
                if rr != 0 and abs(rr - ra) <= TOL * abs(ra) * 10:
                    mono.append((a.i, self.red(rr)))
                    break
            else:
                with np.errstate(all='ignore'):
                    v = np.exp(self.val({m: c}))
                a = self.new('e', (m, c), True, v)
                l.append((a, c))
                mono.append((a.i, 1))
        mono.sort()
        r = {tuple(mono): rnd(coef)}
        self.exps.append((uv, u, r))
        return r

    def plog(self, n, p):
        # log of a monomial of positive atoms splits
        if len(p) == 1:
            (m, c), = p.items()
            if c > 0 and all(self.atoms[x].pos for x, e in m):
                r = {}
                if c != 1: r = {(): rnd(tofrac(mpmath.log(mpmath.mpf(c.numerator) / c.denominator)))}
                for x, e in m:
                    a = self.atoms[x]
                    if a.kind == 'e':
                        mm, cc = a.data
                        r = self.padd(r, {mm: cc * e})
                    else:
                        r = self.padd(r, {k: v * e for k, v in self.logatom(a).items()})
                return r
        v = self.S.ev(n)
        for (fv, pu, r) in self.logs:
            if self.close(fv, v) and self.iszero(self.padd(pu, p, -1)): return r
        a = self.new('v', n, n.lo >= 0, v, n)
        r = {((a.i, 1),): ONE}
        self.logs.append((v, p, r))
        return r

    def logatom(self, a):
        r = self.vtab.get(('log', a.i))
        if r is None:
            with np.errstate(all='ignore'):
                r = self.new('v', ('log', a.i), False, np.log(a.val))
            self.vtab[('log', a.i)] = r
        return {((r.i, 1),): ONE}

    def pite(self, n):
        c, a, b = n.args
        pa = self.memo[a.id]; pb = self.memo[b.id]
        if self.peq(pa, pb): return pa
        if dag.const_ite(n):
            r = self.const_table(n)
            if r is not None: return r
        elif len(pa) + len(pb) <= 24:
            r = self.ind_ite(c, pa, pb)
            if r is not None: return r
        v = self.S.ev(n)
        mm = dag.minmax(n)
        if mm:
            for (ck2, pa2, pb2, r, v2, mm2) in self.ites:
                if mm2 != mm or self.close(v, v2) is False: continue
                if self.peq(pa, pa2) and self.peq(pb, pb2) or self.peq(pa, pb2) and self.peq(pb, pa2): return r
        ck = self.condkey(c)
        for (ck2, pa2, pb2, r, v2, _) in self.ites:
            if self.close(v, v2) is False: continue
            if ck2 == ck and self.peq(pa, pa2) and self.peq(pb, pb2): return r
            if ck2 == -ck and self.peq(pa, pb2) and self.peq(pb, pa2): return r
        at = self.new('v', n, n.lo >= 0, v, n)
        r = {((at.i, 1),): ONE}
        self.ites.append((ck, pa, pb, r, v, mm))
        return r

    def condkey(self, c):
        """signed index identifying a condition up to algebraic equality of the compared terms (negation = negative;
        strict/non-strict versions of the same comparison differ only on the boundary and are kept apart)"""
        neg = False
        while c.op == 'not':
            neg = not neg; c = c.args[0]
        if c.op in ('lt', 'le', 'eq'):
            d = self.padd(self.nf(c.args[1]), self.nf(c.args[0]), -1)
            kind = c.op
            if kind == 'le':      # a<=b  ==  not (b<a)
                d = {m: -v for m, v in d.items()}; neg = not neg; kind = 'lt'
        else:
            d = None; kind = 'node'
        v = self.val(d) if d is not None else None
        for i, (k2, x, v2) in enumerate(self.condkeys):
            if k2 != kind: continue
            if kind == 'node':
                if x is c: break
            else:
                s = self.proportional(x, d)
                if s: break
                if d and x and self.close(v, v2) and self.iszero(self.padd(x, d, -1)): break
        else:
            i = len(self.condkeys)
            self.condkeys.append((kind, c if kind == 'node' else d, v))
        return -(i + 1) if neg else i + 1

    def proportional(self, p, q):
        if p.keys() == q.keys() and p:
            m = next(iter(p))
            s = q[m] / p[m]
            if s > 0 and all(abs(q[x] - s * p[x]) <= TOL * 10 * abs(q[x]) for x in p): return s
        return None

    def peq(self, p, q):
        if p.keys() == q.keys():
            return all(abs(p[m] - q[m]) <= TOL * max(abs(p[m]), abs(q[m])) for m in p)
        return self.iszero(self.padd(p, q, -1))

    # ---- zero test
    def iszero(self, d):
        if not d: return True
        v = self.val(d)
        # magnitude of the largest monomial at each sample, to judge cancellation
        with np.errstate(all='ignore'):
            mag = np.zeros(self.S.n)
            for m, c in d.items():
                t = np.full(self.S.n, abs(float(c)))
                for x, e in m: t = t * np.power(np.abs(self.atoms[x].val), float(e))
                mag = np.maximum(mag, t)
            ok = np.isfinite(v) & np.isfinite(mag) & (mag > 0)
            if ok.sum() >= 6:
                if (np.abs(v[ok]) > 1e-7 * mag[ok]).mean() > 0.3: return False
        lz, self.lazy = self.lazy, False
        try:
            if lz:
                # common factors first, then multiply out
                mins = None
                for m in d:
                    e = {x: k for x, k in m if self.atoms[x].kind == 'p'}
                    if mins is None: mins = e
                    else:
                        for x in list(mins): mins[x] = min(mins[x], e.get(x, 0))
                        for x, k in e.items():
                            if x not in mins and k < 0: mins[x] = k
                inv = tuple(sorted((x, -k) for x, k in mins.items() if k != 0))
                if inv: d = {self.mmul(m, inv): c for m, c in d.items()}
                d = self.expand(d)
            return not self.clear(d)
        except TooBig:
            return False
        finally:
            self.lazy = lz

    def clear(self, d):
        """multiply out the negative powers of 'p' atoms (and negative content)"""
        for _ in range(60):
            if not d: return d
            neg = {}
            for m in d:
                for x, e in m:
                    if e < 0 and self.atoms[x].kind == 'p':
                        if e < neg.get(x, 0): neg[x] = e
            if not neg: return d
            # one atom at a time, highest index (most deeply nested) first
            x = max(neg)
            f = ((x, -neg[x]),)
            r = {}
            for m, c in d.items():
                mm = self.mmul(m, f)
                if mm is None: continue
                o = r.get(mm)
                r[mm] = c if o is None else o + c
            d = self.expand(r)
        raise TooBig()
