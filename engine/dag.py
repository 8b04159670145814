"""Hash-consed expression DAG: reals (R), unbounded ints (I), booleans (B)."""
from fractions import Fraction
import math

INF = math.inf
_tab = {}
_cnt = [0]


class Node:
    __slots__ = ('op', 'args', 'ty', 'id', 'lo', 'hi', 'aux')

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise RuntimeError('symbolic node used as bool')


class FBits:
    """64-bit pattern of a symbolic double."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


def reset():
    _tab.clear(); _cnt[0] = 0; _near.clear(); _pos.clear()


def mk(op, args, ty, lo=-INF, hi=INF):
    key = (op, args)
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op; n.args = args; n.ty = ty; n.id = _cnt[0]; _cnt[0] += 1
        n.lo = lo; n.hi = hi; n.aux = None
        _tab[key] = n
    return n


def show(n, d=6):
    if not isinstance(n, Node): return str(n)
    if n.op == 'k': return str(float(n.args[0])) if n.args[0].denominator != 1 else str(n.args[0])
    if n.op == 'ik': return str(n.args[0])
    if n.op in ('var', 'ivar', 'bvar'): return n.args[0]
    if d <= 0: return '..'
    return f'{n.op}({", ".join(show(a, d - 1) for a in n.args)})'


# ------------------------------------------------------------------ constants
_snap = {}
_near = {}
_pos = {}


def snap(f):
    """simplest rational that rounds to the double f (within half an ulp)"""
    r = _snap.get(f)
    if r is not None: return r
    x = Fraction(f)
    if x.denominator <= 1 << 20 or f == 0:
        r = x
    else:
        up = Fraction(math.nextafter(f, INF)); dn = Fraction(math.nextafter(f, -INF))
        r = simplest((x + dn) / 2, (x + up) / 2)
    _snap[f] = r
    return r


def simplest(a, b):
    if a > b: a, b = b, a
    if a < 0 < b: return Fraction(0)
    if b <= 0: return -simplest(-b, -a)
    # 0 <= a < b
    fl = a.numerator // a.denominator
    if fl == a: return Fraction(fl)
    if fl + 1 <= b: return Fraction(fl + 1)
    r = simplest(1 / (b - fl), 1 / (a - fl))
    return fl + 1 / r


def k(fr):
    n = mk('k', (fr,), 'R')
    if n.lo == -INF:
        try: f = float(fr)
        except OverflowError:
            n.lo, n.hi = (1e308, INF) if fr > 0 else (-INF, -1e308)
            return n
        n.lo = f if Fraction(f) <= fr else math.nextafter(f, -INF)
        n.hi = f if Fraction(f) >= fr else math.nextafter(f, INF)
    return n


def kf(f):
    if f != f or f in (INF, -INF):
        raise NonFinite(f)
    if CANCEL[0] and f:
        # constants that differ by rounding only are one constant
        b = round(math.log2(abs(f)) * 2 ** 40)
        x = snap(f)
        if x.denominator > 1 << 16:
            for d in (0, -1, 1):
                y = _near.get((f > 0, b + d))
                if y is not None and abs(x - y) <= abs(x) / 10 ** 14: return k(y)
            _near[f > 0, b] = x
        return k(x)
    return k(snap(f))


class NonFinite(Exception):
    pass


ZERO = lambda: k(Fraction(0))


def R(x):
    if type(x) is Node: return x
    if type(x) is float: return kf(x)
    if isinstance(x, (int, Fraction)): return k(Fraction(x))
    raise TypeError(type(x))


def isk(n): return n.op == 'k'


def var(name, lo, hi):
    return mk('var', (name,), 'R', lo, hi)


def ivar(name, lo, hi):
    if lo == hi: return ik(lo)
    return mk('ivar', (name,), 'I', lo, hi)


def ik(v):
    n = mk('ik', (v,), 'I', v, v)
    return n


def I(x):
    if type(x) is Node: return x
    return ik(int(x))


# ------------------------------------------------------------------ intervals
def _dn(x): return x if x in (INF, -INF) else math.nextafter(x, -INF)
def _up(x): return x if x in (INF, -INF) else math.nextafter(x, INF)


def _sum(a, b, up):
    """a + b rounded outwards; exact sums stay exact"""
    t = a + b
    if t != t: return INF if up else -INF
    if t in (INF, -INF): return t
    bb = t - a
    err = (a - (t - bb)) + (b - bb)
    if up: return math.nextafter(t, INF) if err > 0 else t
    return math.nextafter(t, -INF) if err < 0 else t


def iv_add(a, b):
    return _sum(a[0], b[0], False), _sum(a[1], b[1], True)


def _m(x, y):
    if x == 0 or y == 0: return 0.0
    return x * y


def _pw2(x):
    return x in (INF, -INF) or x == 0 or abs(math.frexp(x)[0]) == 0.5


def iv_mul(a, b):
    c = [(_m(x, y), _pw2(x) or _pw2(y)) for x in a for y in b]
    lo = min(v if e else _dn(v) for v, e in c)
    hi = max(v if e else _up(v) for v, e in c)
    # sign information survives rounding
    if a[0] >= 0 and b[0] >= 0 or a[1] <= 0 and b[1] <= 0: lo = max(lo, 0.0)
    if a[0] >= 0 and b[1] <= 0 or a[1] <= 0 and b[0] >= 0: hi = min(hi, 0.0)
    return lo, hi


def _inv1(x, up):
    if x in (INF, -INF): return 0.0
    v = 1 / x
    if _pw2(x): return v
    return _up(v) if up else _dn(v)


def iv_inv(a):
    if a[0] > 0:
        return max(0.0, _inv1(a[1], False)), _inv1(a[0], True)
    if a[1] < 0:
        return _inv1(a[1], False), min(0.0, _inv1(a[0], True))
    if a[0] == 0: return (max(0.0, _inv1(a[1], False)) if a[1] > 0 else 0.0), INF
    if a[1] == 0: return -INF, min(0.0, _inv1(a[0], True))
    return -INF, INF


def _exp(x):
    if x == -INF: return 0.0
    try:
        return math.exp(x)
    except OverflowError:
        return INF


def iv(n): return (n.lo, n.hi)


# ------------------------------------------------------------------ reals
def const_ite(n, depth=6):
    """ite tree whose leaves are constants"""
    if n.op in ('k', 'ik'): return True
    if depth and n.op == 'ite':
        return const_ite(n.args[1], depth - 1) and const_ite(n.args[2], depth - 1)
    return False


def map_ite(n, f):
    if n.op == 'ite':
        return ite(n.args[0], map_ite(n.args[1], f), map_ite(n.args[2], f))
    return f(n)


CANCEL = [False]  # cancel common terms of sums and common factors of quotients while building (per job)


def _terms(n, lim=48):
    """sum as {term: coefficient}, None if it is too long"""
    out = {}
    st = [n]
    while st:
        x = st.pop()
        c = Fraction(1)
        if x.op == 'add':
            st.extend(x.args); continue
        if x.op == 'mul' and isk(x.args[0]): c = x.args[0].args[0]; x = x.args[1]
        if x.op == 'add':
            sub = _terms(x, lim)
            if sub is None: return None
            for y, d in sub.items(): out[y] = out.get(y, 0) + c * d
            continue
        if isk(x): c = c * x.args[0]; x = None
        out[x] = out.get(x, 0) + c
        if len(out) > lim: return None
    return out


def _cancel_add(a, b):
    """canonical sum: like terms collected, terms in order of age"""
    out = _terms(a); tb = _terms(b)
    if out is None or tb is None: return None
    for x, c in tb.items(): out[x] = out.get(x, 0) + c
    r = k(out.pop(None, Fraction(0)))
    for x in sorted((x for x, c in out.items() if c), key=lambda x: x.id):
        r = _add(r, mul(k(out[x]), x))
    return r


def _factors(n, lim=24):
    """product as (coefficient, {base: exponent}), None if it is too long"""
    out = {}; c = Fraction(1)
    st = [(n, Fraction(1))]
    while st:
        x, e = st.pop()
        if x.op == 'mul':
            st.append((x.args[0], e)); st.append((x.args[1], e)); continue
        if x.op == 'div':
            st.append((x.args[0], e)); st.append((x.args[1], -e)); continue
        if x.op == 'sqrt' and x.args[0].lo >= 0 and e.denominator == 1:
            y = x.args[0]
            if y.op not in ('mul', 'div'): st.append((y, e / 2)); continue
        if isk(x):
            if e.denominator != 1 or x.args[0] == 0: return None
            c = c * x.args[0] ** int(e); continue
        if x.op == 'add' and e.denominator == 1:
            # of a sum and its negation, the one whose oldest term is positive
            y = _pos.get(x)
            if y is None:
                ts = _terms(x)
                if ts is not None and ts[min((t for t in ts if t is not None), key=lambda t: t.id)] < 0: y = neg(x)
                else: y = x
                _pos[x] = y
            if y is not x:
                if e % 2: c = -c
                x = y
        out[x] = out.get(x, 0) + e
        if len(out) > lim: return None
    return c, out


def _product(c, f):
    num = k(c); den = None
    for x in sorted(f, key=lambda x: x.id):
        e = f[x]
        if not e: continue
        m = abs(e); t = None
        for _ in range(int(m)): t = x if t is None else _mul0(t, x)
        if m.denominator == 2: t = sqrt(x) if t is None else _mul0(t, sqrt(x))
        if e > 0: num = _mul0(num, t)
        else: den = t if den is None else _mul0(den, t)
    return num if den is None else _div0(num, den)


def _mul0(a, b):
    if isk(a) or isk(b): return _mul(a, b)
    c = Fraction(1)
    if a.op == 'mul' and isk(a.args[0]): c = a.args[0].args[0]; a = a.args[1]
    lo, hi = _sqr(a) if a is b else iv_mul(iv(a), iv(b))
    r = mk('mul', (a, b), 'R', lo, hi)
    return r if c == 1 else _mul(k(c), r)


def _div0(a, b):
    if isk(b): return _mul(k(1 / b.args[0]), a)
    c = Fraction(1)
    if a.op == 'mul' and isk(a.args[0]): c = a.args[0].args[0]; a = a.args[1]
    if isk(a): c = c * a.args[0]; a = k(Fraction(1))
    lo, hi = iv_mul(iv(a), iv_inv(iv(b)))
    r = mk('div', (a, b), 'R', lo, hi)
    return r if c == 1 else _mul(k(c), r)


def _sqr(a):
    m = max(abs(a.lo), abs(a.hi))
    lo = 0.0 if a.lo <= 0 <= a.hi else _dn(min(abs(a.lo), abs(a.hi)) ** 2)
    try: return lo, _up(m * m)
    except OverflowError: return lo, INF


def _cancel_mul(a, b, sg):
    """canonical product a * b (sg = 1) or quotient a / b (sg = -1): common factors gone, x * (1 + y/x) = x + y"""
    if isk(a) and sg > 0 or isk(b): return None
    fa = _factors(a); fb = _factors(b)
    if fa is None or fb is None: return None
    out = dict(fa[1])
    for x, e in fb[1].items(): out[x] = out.get(x, 0) + sg * e
    out = {x: e for x, e in out.items() if e}
    if any(e.denominator > 2 or abs(e) > 8 for e in out.values()): return None
    again = True
    while again:
        again = False
        for y in sorted(out, key=lambda x: x.id):
            if y.op != 'add': continue
            for x in sorted(out, key=lambda x: x.id):
                e = out[x]; d = out[y]
                if x is y or e * d <= 0 or abs(e) < 1 or abs(d) < 1: continue
                ts = _terms(y)
                if ts is None: break
                hit = False
                for t in ts:
                    if t is None or t.op not in ('div', 'mul'): continue
                    ft = _factors(t)
                    if ft is not None and ft[1].get(x, 0) <= -1: hit = True
                if not hit: continue
                z = ZERO()
                for t, c in ts.items(): z = add(z, mul(k(c), x if t is None else mul(t, x)))
                g = 1 if e > 0 else -1
                for w, dd in ((x, -g), (y, -g), (z, g)):
                    out[w] = out.get(w, 0) + dd
                    if not out[w]: del out[w]
                again = True
                break
            if again: break
    return _product(fa[0] * fb[0] ** sg, out)


def _cancel_sqrt(a):
    if a.op not in ('mul', 'div'): return None
    f = _factors(a)
    if f is None or f[0] < 0 or any(x.lo < 0 or e.denominator != 1 for x, e in f[1].items()): return None
    if not any(e < 0 or e >= 2 for e in f[1].values()): return None
    r = _product(Fraction(1), {x: e / 2 for x, e in f[1].items()})
    return mul(sqrt(k(f[0])), r)


def add(a, b):
    if CANCEL[0] and not isk(a) and not isk(b):
        r = _cancel_add(a, b)
        if r is not None: return r
    return _add(a, b)


def _add(a, b):
    if isk(a):
        if isk(b): return k(a.args[0] + b.args[0])
        if a.args[0] == 0: return b
    elif isk(b):
        if b.args[0] == 0: return a
    if isk(a) and b.op == 'ite' and const_ite(b): return map_ite(b, lambda x: add(a, x))
    if isk(b) and a.op == 'ite' and const_ite(a): return map_ite(a, lambda x: add(x, b))
    # x + (-1*x)
    if a.op == 'mul' and isk(a.args[0]) and a.args[0].args[0] == -1 and a.args[1] is b: return ZERO()
    if b.op == 'mul' and isk(b.args[0]) and b.args[0].args[0] == -1 and b.args[1] is a: return ZERO()
    if a.id > b.id: a, b = b, a
    lo, hi = iv_add(iv(a), iv(b))
    return mk('add', (a, b), 'R', lo, hi)


def neg(a): return mul(k(Fraction(-1)), a)
def sub(a, b):
    if a is b: return ZERO()
    return add(a, neg(b))


def _older(a):
    """the negated sum, if it was made before the sum"""
    if a.op != 'add': return None
    n = neg(a)
    return n if n.id < a.id else None


def mul(a, b):
    if CANCEL[0]:
        r = _cancel_mul(a, b, 1)
        if r is not None: return r
    return _mul(a, b)


def _mul(a, b):
    if isk(b) and not isk(a): a, b = b, a
    if isk(a):
        c = a.args[0]
        if isk(b): return k(c * b.args[0])
        if c == 0: return a
        if c == 1: return b
        if b.op == 'mul' and isk(b.args[0]): return mul(k(c * b.args[0].args[0]), b.args[1])
        if b.op == 'ite' and const_ite(b): return map_ite(b, lambda x: mul(a, x))
        if c == -1 and b.op == 'add':
            return add(neg(b.args[0]), neg(b.args[1]))
    else:
        # pull constants out
        if a.op == 'mul' and isk(a.args[0]): return mul(a.args[0], mul(a.args[1], b))
        if b.op == 'mul' and isk(b.args[0]): return mul(b.args[0], mul(a, b.args[1]))
        # (-x) * y, where x is known: -(x * y)
        na = _older(a); nb = _older(b)
        if na is not None: return mul(na, nb) if nb is not None else neg(mul(na, b))
        if nb is not None: return neg(mul(a, nb))
        if a.id > b.id: a, b = b, a
    if a is b:
        m = max(abs(a.lo), abs(a.hi))
        lo = 0.0 if a.lo <= 0 <= a.hi else _dn(min(abs(a.lo), abs(a.hi)) ** 2)
        try:
            hi = _up(m * m)
        except OverflowError:
            hi = INF
    else:
        lo, hi = iv_mul(iv(a), iv(b))
    return mk('mul', (a, b), 'R', lo, hi)


def div(a, b):
    if CANCEL[0]:
        r = _cancel_mul(a, b, -1)
        if r is not None: return r
    return _div(a, b)


def _div(a, b):
    if isk(b):
        if b.args[0] == 0: raise NonFinite('div0')
        return mul(k(1 / b.args[0]), a)
    if isk(a) and a.args[0] == 0: return a
    if a is b: return k(Fraction(1))
    if a.op == 'mul' and isk(a.args[0]): return mul(a.args[0], div(a.args[1], b))
    if b.op == 'mul' and isk(b.args[0]): return mul(k(1 / b.args[0].args[0]), div(a, b.args[1]))
    na = _older(a); nb = _older(b)
    if na is not None: return div(na, nb) if nb is not None else neg(div(na, b))
    if nb is not None: return neg(div(a, nb))
    lo, hi = iv_mul(iv(a), iv_inv(iv(b)))
    return mk('div', (a, b), 'R', lo, hi)


def sqrt(a):
    if isk(a):
        c = a.args[0]
        if c >= 0:
            p = math.isqrt(c.numerator); q = math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator: return k(Fraction(p, q))
            return kf(math.sqrt(c))
    if CANCEL[0]:
        r = _cancel_sqrt(a)
        if r is not None: return r
    lo = _dn(math.sqrt(a.lo)) if 0 < a.lo < INF else (0.0)
    hi = _up(math.sqrt(a.hi)) if 0 <= a.hi < INF else INF
    return mk('sqrt', (a,), 'R', max(lo, 0.0), hi)


def exp(a):
    if isk(a):
        if a.args[0] == 0: return k(Fraction(1))
        return kf(math.exp(a.args[0]))
    e0 = _exp(a.lo); e1 = _exp(a.hi)
    return mk('exp', (a,), 'R', max(0.0, _dn(_dn(e0))), _up(_up(e1)))


def log(a):
    if isk(a) and a.args[0] > 0:
        if a.args[0] == 1: return ZERO()
        return kf(math.log(a.args[0]))
    lo = _dn(_dn(math.log(a.lo))) if 0 < a.lo < INF else -INF
    hi = _up(_up(math.log(a.hi))) if 0 < a.hi < INF else INF
    return mk('log', (a,), 'R', lo, hi)


def ln_const(b):
    return math.log(b)


def powr(a, b):
    """a^b over the reals (a>0 or integer b)"""
    if isk(b):
        c = b.args[0]
        if c.denominator == 1 and abs(c) <= 12: return ipow(a, int(c))
        if c.denominator == 2 and abs(c) <= 12:
            n = c.numerator
            s = sqrt(a)
            return ipow(s, n)
    if isk(a) and a.args[0] > 0:
        c = a.args[0]
        if isk(b): return kf(float(c) ** float(b.args[0]))
        return exp(mul(kf(math.log(c)), b))
    if a.op == 'exp': return exp(mul(a.args[0], b))
    return exp(mul(b, log(a)))


def ipow(a, n):
    if n == 0: return k(Fraction(1))
    if n < 0: return div(k(Fraction(1)), ipow(a, -n))
    r = a
    for _ in range(n - 1): r = mul(r, a)
    return r


def rmin(a, b):
    if CANCEL[0] and a.hi <= b.lo: return a
    if CANCEL[0] and b.hi <= a.lo: return b
    r = ite(lt(b, a), b, a)
    if CANCEL[0] and r.op == 'ite': r.hi = min(r.hi, a.hi, b.hi)
    return r


def rmax(a, b):
    if CANCEL[0] and a.hi <= b.lo: return b
    if CANCEL[0] and b.hi <= a.lo: return a
    r = ite(lt(a, b), b, a)
    if CANCEL[0] and r.op == 'ite': r.lo = max(r.lo, a.lo, b.lo)
    return r


FACTS = None      # facts of the path being executed, in jobs with noeq


def rabs(a):
    if a.lo >= 0: return a
    if a.hi <= 0: return neg(a)
    n = neg(a)
    if n.id < a.id: a, n = n, a
    if FACTS is not None:       # sign settled on the current path
        v = FACTS.get(lt(a, ZERO()))
        if v is None:
            v = FACTS.get(lt(n, ZERO()))
            if v is not None: v = not v
        if v is not None: return n if v else a
    r = ite(lt(a, ZERO()), n, a)
    if CANCEL[0] and r.op == 'ite': r.lo = max(r.lo, 0.0)
    return r


def floor(a):
    if isk(a): return k(Fraction(math.floor(a.args[0])))
    return mk('floor', (a,), 'R', math.floor(a.lo) if abs(a.lo) < INF else -INF, math.floor(a.hi) if abs(a.hi) < INF else INF)


# ------------------------------------------------------------------ booleans
def _icmp(a, b, strict):
    """comparison of an integer (as a real) with a constant, on the integers"""
    if a.op == 'itor' and isk(b):
        q = b.args[0]
        return ilt(a.args[0], ik(math.ceil(q))) if strict else ile(a.args[0], ik(math.floor(q)))
    if b.op == 'itor' and isk(a):
        q = a.args[0]
        return ilt(ik(math.floor(q)), b.args[0]) if strict else ile(ik(math.ceil(q)), b.args[0])
    if a.op == 'itor' and b.op == 'itor':
        return ilt(a.args[0], b.args[0]) if strict else ile(a.args[0], b.args[0])
    return None


def lt(a, b):
    if a is b: return False
    if a.hi < b.lo: return True
    if a.lo >= b.hi: return False
    if a.op == 'itor' or b.op == 'itor':
        r = _icmp(a, b, True)
        if r is not None: return r
    if a.op == 'ite' and isk(b) and const_ite(a): return bmap(a, lambda x: lt(x, b))
    if b.op == 'ite' and isk(a) and const_ite(b): return bmap(b, lambda x: lt(a, x))
    return mk('lt', (a, b), 'B')


def le(a, b):
    if a is b: return True
    if a.hi <= b.lo: return True
    if a.lo > b.hi: return False
    if a.op == 'itor' or b.op == 'itor':
        r = _icmp(a, b, False)
        if r is not None: return r
    if a.op == 'ite' and isk(b) and const_ite(a): return bmap(a, lambda x: le(x, b))
    if b.op == 'ite' and isk(a) and const_ite(b): return bmap(b, lambda x: le(a, x))
    return mk('le', (a, b), 'B')


def eq(a, b):
    if a is b: return True
    if a.hi < b.lo or a.lo > b.hi: return False
    if isk(a) and isk(b): return a.args[0] == b.args[0]
    if b.op == 'itor': a, b = b, a
    if a.op == 'itor' and (isk(b) or b.op == 'itor'):
        if isk(b): return ieq(a.args[0], ik(int(b.args[0]))) if b.args[0].denominator == 1 else False
        return ieq(a.args[0], b.args[0])
    if a.op == 'ite' and isk(b) and const_ite(a): return bmap(a, lambda x: eq(x, b))
    if b.op == 'ite' and isk(a) and const_ite(b): return bmap(b, lambda x: eq(a, x))
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')


def bmap(n, f):
    if n.op == 'ite':
        c = n.args[0]
        t = bmap(n.args[1], f); e = bmap(n.args[2], f)
        return bor(band(c, t), band(bnot(c), e))
    return f(n)


def bnot(c):
    if type(c) is bool: return not c
    o = c.op
    if o == 'not': return c.args[0]
    if o == 'lt': return le(c.args[1], c.args[0])
    if o == 'le': return lt(c.args[1], c.args[0])
    if o == 'ilt': return ile(c.args[1], c.args[0])
    if o == 'ile': return ilt(c.args[1], c.args[0])
    if o == 'and': return bor(bnot(c.args[0]), bnot(c.args[1]))
    if o == 'or': return band(bnot(c.args[0]), bnot(c.args[1]))
    return mk('not', (c,), 'B')


def band(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    if a is b: return a
    if bnot(a) is b: return False
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), 'B')


def bor(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    if a is b: return a
    if bnot(a) is b: return True
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), 'B')


def ite(c, a, b):
    if type(c) is bool: return a if c else b
    if a is b: return a
    if type(a) is not Node or type(b) is not Node:
        # booleans
        A = a if type(a) in (bool, Node) else bool(a)
        return bor(band(c, A), band(bnot(c), b))
    if a.ty == 'B':
        return bor(band(c, a), band(bnot(c), b))
    if c.op == 'not': return ite(c.args[0], b, a)
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if a is b: return a
    # minimum and maximum
    if c.op in ('lt', 'le', 'ilt', 'ile'):
        x, y = c.args
        if c.op[0] == 'i':
            if a.ty == 'R': x, y = itor(x), itor(y)
        if a.ty == x.ty and ((x is a and y is b) or (x is b and y is a)):
            mn = x is a
            lo, hi = (min(a.lo, b.lo), min(a.hi, b.hi)) if mn else (max(a.lo, b.lo), max(a.hi, b.hi))
            return mk('ite', (c, a, b), a.ty, lo, hi)
    if c.op in ('lt', 'le') and a.ty == 'R' and (isk(c.args[0]) or isk(c.args[1])):
        # what the condition says about the branches
        x, y = c.args
        K, X, below, above = (y, x, a, b) if isk(y) else (x, y, b, a)
        kv = float(K.args[0]); nx = neg(X)
        l1, h1, l2, h2 = below.lo, below.hi, above.lo, above.hi
        if below is X: h1 = min(h1, math.nextafter(kv, INF))
        elif below is nx: l1 = max(l1, math.nextafter(-kv, -INF) if kv else 0.0)
        if above is X: l2 = max(l2, math.nextafter(kv, -INF) if kv else 0.0)
        elif above is nx: h2 = min(h2, math.nextafter(-kv, INF))
        return mk('ite', (c, a, b), a.ty, min(l1, l2), max(h1, h2))
    return mk('ite', (c, a, b), a.ty, min(a.lo, b.lo), max(a.hi, b.hi))


def minmax(n):
    """'min' / 'max' if the conditional is one"""
    c, a, b = n.args
    if c.op not in ('lt', 'ilt', 'le', 'ile'): return None
    x, y = c.args
    if c.op[0] == 'i' and a.ty == 'R': x, y = itor(x), itor(y)
    if x is a and y is b: return 'min'
    if x is b and y is a: return 'max'
    return None


# ------------------------------------------------------------------ ints (mathematical, interval tracked)
def isik(a): return a.op == 'ik'


def iadd(a, b):
    if isik(a) and isik(b): return ik(a.args[0] + b.args[0])
    if isik(a) and a.args[0] == 0: return b
    if isik(b) and b.args[0] == 0: return a
    if isik(b): a, b = b, a
    if isik(a):
        if b.op == 'iadd' and isik(b.args[0]): return iadd(ik(a.args[0] + b.args[0].args[0]), b.args[1])
        if const_ite(b): return map_ite(b, lambda x: iadd(a, x))
    elif a.id > b.id: a, b = b, a
    return mk('iadd', (a, b), 'I', a.lo + b.lo, a.hi + b.hi)


def imul(a, b):
    if isik(a) and isik(b): return ik(a.args[0] * b.args[0])
    if isik(b): a, b = b, a
    if isik(a):
        if a.args[0] == 0: return a
        if a.args[0] == 1: return b
        if b.op == 'imul' and isik(b.args[0]): return imul(ik(a.args[0] * b.args[0].args[0]), b.args[1])
        if const_ite(b): return map_ite(b, lambda x: imul(a, x))
    elif a.id > b.id: a, b = b, a
    c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return mk('imul', (a, b), 'I', min(c), max(c))


def idiv(a, kk):
    """floor division by positive constant, a >= 0"""
    if isik(a): return ik(a.args[0] // kk)
    return mk('idiv', (a, ik(kk)), 'I', a.lo // kk, a.hi // kk)


def imod(a, kk):
    if isik(a): return ik(a.args[0] % kk)
    if a.lo >= 0 and a.hi < kk: return a
    return mk('imod', (a, ik(kk)), 'I', 0, kk - 1)


def ilt(a, b):
    if a is b: return False
    if a.hi < b.lo: return True
    if a.lo >= b.hi: return False
    if isik(b) and const_ite(a): return bmap(a, lambda x: ilt(x, b))
    if isik(a) and const_ite(b): return bmap(b, lambda x: ilt(a, x))
    return mk('ilt', (a, b), 'B')


def ile(a, b):
    if a is b: return True
    if a.hi <= b.lo: return True
    if a.lo > b.hi: return False
    if isik(b) and const_ite(a): return bmap(a, lambda x: ile(x, b))
    if isik(a) and const_ite(b): return bmap(b, lambda x: ile(a, x))
    if isik(b): return ilt(a, ik(b.args[0] + 1))
    if isik(a): return ilt(ik(a.args[0] - 1), b)
    return mk('ile', (a, b), 'B')


def ieq(a, b):
    if a is b: return True
    if a.hi < b.lo or a.lo > b.hi: return False
    if isik(b) and const_ite(a): return bmap(a, lambda x: ieq(x, b))
    if isik(a) and const_ite(b): return bmap(b, lambda x: ieq(a, x))
    if isik(a) and isik(b): return a.args[0] == b.args[0]
    if isik(b): a, b = b, a
    if isik(a) and b.op == 'iadd' and isik(b.args[0]):
        return ieq(ik(a.args[0] - b.args[0].args[0]), b.args[1])
    if not isik(a) and a.id > b.id: a, b = b, a
    return mk('ieq', (a, b), 'B')


def itor(a):
    if isik(a): return k(Fraction(a.args[0]))
    if a.op == 'ite': return ite(a.args[0], itor(a.args[1]), itor(a.args[2]))
    return mk('itor', (a,), 'R', float(a.lo), float(a.hi))


def rtoi(a):
    """truncate toward zero"""
    if isk(a): return ik(int(a.args[0]))
    if a.op == 'itor': return a.args[0]
    if a.op == 'ite' and const_ite(a): return map_ite(a, rtoi)
    lo = int(a.lo) if abs(a.lo) < 1e18 else -(1 << 63)
    hi = int(a.hi) if abs(a.hi) < 1e18 else (1 << 63) - 1
    return mk('rtoi', (a,), 'I', lo, hi)


# ------------------------------------------------------------------ traversal / evaluation
def subst(n, mapping, memo=None):
    """rebuild n replacing nodes (by identity)"""
    if memo is None: memo = {}
    return _subst(n, mapping, memo)


def topo(roots):
    seen = set(); out = []
    st = [(r, False) for r in roots if type(r) is Node]
    while st:
        n, done = st.pop()
        if done:
            out.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if type(a) is Node and a.id not in seen: st.append((a, False))
    return out


REB = {}


def rebuild(n, args):
    o = n.op
    f = REB.get(o)
    return f(*args)


def _subst(n, mapping, memo):
    for m in topo([n]):
        if m.id in memo: continue
        if m in mapping:
            v = mapping[m]
            memo[m.id] = memo[m.args[v[1]].id] if type(v) is tuple else v
            continue
        if m.op in ('k', 'ik', 'var', 'ivar', 'bvar'):
            memo[m.id] = m; continue
        na = tuple(memo[a.id] for a in m.args)
        if all(x is y for x, y in zip(na, m.args)):
            memo[m.id] = m
        elif m.op == 'ite' and type(na[0]) is bool:
            memo[m.id] = na[1] if na[0] else na[2]
        else:
            memo[m.id] = rebuild(m, na)
    return memo[n.id]


def _init_reb():
    REB.update({'add': add, 'mul': mul, 'div': div, 'sqrt': sqrt, 'exp': exp, 'log': log, 'ite': ite, 'lt': lt, 'le': le, 'eq': eq,
                'and': band, 'or': bor, 'not': bnot, 'iadd': iadd, 'imul': imul, 'ilt': ilt, 'ile': ile, 'ieq': ieq, 'itor': itor, 'rtoi': rtoi,
                'floor': floor, 'idiv': lambda a, b: idiv(a, b.args[0]), 'imod': lambda a, b: imod(a, b.args[0])})


_init_reb()
