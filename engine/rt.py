"""Run-time semantics of LLVM operations over concrete-or-symbolic values."""
import math, struct
from fractions import Fraction
import dag
from dag import Node, FBits, NonFinite
from ir import Unsupported, sizeof, field_off

M64 = (1 << 64) - 1
INF = math.inf


class PathAbort(Exception):
    """panic / trap / unreachable"""


class PathInfeasible(Exception):
    pass


class BoundCut(Exception):
    pass


# ------------------------------------------------------------------ floats
def fadd(a, b):
    if type(a) is float and type(b) is float: return a + b
    return wrapnf(dag.add, a, b)


def fsub(a, b):
    if type(a) is float and type(b) is float: return a - b
    return wrapnf(dag.sub, a, b)


def fmul(a, b):
    if type(a) is float and type(b) is float: return a * b
    return wrapnf(dag.mul, a, b)


def wrapnf(f, *a):
    """symbolic op; operands that are non-finite constants are propagated IEEE-style when sound"""
    for x in a:
        if type(x) is float and (x != x): return x
    for x in a:
        if type(x) is float and x in (INF, -INF):
            o = [y for y in a if y is not x]
            if f is dag.add: return x
            if f is dag.sub: return x if x is a[0] else -x
            raise Unsupported('symbolic op with infinity')
    r = f(*[dag.R(x) for x in a])
    return unk(r)


def unk(r):
    if type(r) is Node and r.op == 'k':
        return float(r.args[0])
    return r


def fdiv(cx, a, b):
    if type(a) is float and type(b) is float:
        if b == 0:
            if a == 0 or a != a: return math.nan
            s = math.copysign(1, a) * math.copysign(1, b)
            return s * INF
        return a / b
    if type(b) is float:
        if b == 0:
            cx.undef('div', 'symbolic/0', a, b)
            raise PathAbort('nonfinite: division by literal zero')
        if b in (INF, -INF): return 0.0
    if type(a) is float and a in (INF, -INF): raise Unsupported('inf/symbolic')
    if type(b) is Node and b.lo <= 0 <= b.hi:
        cx.undef('div', 'denominator', a, b)
    if type(a) is float and a != a: return a
    return unk(dag.div(dag.R(a), dag.R(b)))


def fneg(a):
    if type(a) is float: return -a
    return unk(dag.neg(a))


def lift1(pf, df, guard=None):
    def g(cx, a):
        if type(a) is float:
            try:
                return pf(a)
            except (ValueError, OverflowError):
                return special(pf, a)
        if guard: guard(cx, a)
        return unk(df(a))
    return g


def special(pf, a):
    if a != a: return a
    if pf is math.sqrt: return math.nan
    if pf is math.exp: return INF
    if pf is math.log: return -INF if a == 0 else math.nan
    if pf is math.log10: return -INF if a == 0 else math.nan
    raise Unsupported('special')


def g_sqrt(cx, a):
    if a.lo < 0: cx.undef('sqrt', 'argument', a, None)


def g_log(cx, a):
    if a.lo <= 0: cx.undef('log', 'argument', a, None)


def g_exp(cx, a):
    if a.hi > 709.0: cx.undef('exp', 'argument', a, None)


fsqrt = lift1(math.sqrt, dag.sqrt, g_sqrt)
fexp = lift1(math.exp, dag.exp, g_exp)
flog = lift1(math.log, dag.log, g_log)
flog10 = lift1(math.log10, lambda a: dag.mul(dag.kf(1 / math.log(10)), dag.log(a)), g_log)
flog2 = lift1(math.log2, lambda a: dag.mul(dag.kf(1 / math.log(2)), dag.log(a)), g_log)
fexp2 = lift1(lambda x: 2.0 ** x, lambda a: dag.exp(dag.mul(dag.kf(math.log(2)), a)))
fexp10 = lift1(lambda x: 10.0 ** x, lambda a: dag.exp(dag.mul(dag.kf(math.log(10)), a)))
fabs_ = lift1(abs, dag.rabs)
fexpm1 = lift1(math.expm1, lambda a: dag.sub(dag.exp(a), dag.R(1)), g_exp)
flog1p = lift1(math.log1p, lambda a: dag.log(dag.add(dag.R(1), a)))
ffloor = lift1(lambda x: float(math.floor(x)), dag.floor)
fceil = lift1(lambda x: float(math.ceil(x)), lambda a: dag.neg(dag.floor(dag.neg(a))))


def rnd(x):
    if abs(x) >= 2.0**52: return x
    return math.copysign(math.floor(abs(x) + 0.5) if abs(x) != 0.49999999999999994 else 0.0, x)


def sym_round(a):
    # round half away from zero
    h = dag.k(Fraction(1, 2))
    pos = dag.floor(dag.add(a, h))
    if a.lo >= 0: return pos
    ng = dag.neg(dag.floor(dag.add(dag.neg(a), h)))
    return dag.ite(dag.lt(a, dag.ZERO()), ng, pos)


fround = lift1(lambda x: float(rnd(x)), sym_round)


def sym_trunc(a):
    if a.lo >= 0: return dag.floor(a)
    return dag.ite(dag.lt(a, dag.ZERO()), dag.neg(dag.floor(dag.neg(a))), dag.floor(a))


ftrunc = lift1(lambda x: float(math.trunc(x)), sym_trunc)


def frint(cx, a):
    if type(a) is float: return float(round(a))
    raise Unsupported('rint')


def ftanh(cx, a):
    if type(a) is float: return math.tanh(a)
    e = dag.exp(dag.mul(dag.R(2), a))
    return dag.div(dag.sub(e, dag.R(1)), dag.add(e, dag.R(1)))


def fsin(cx, a):
    if type(a) is float: return math.sin(a)
    raise Unsupported('sin')


def fcos(cx, a):
    if type(a) is float: return math.cos(a)
    raise Unsupported('cos')


def fhypot(cx, a, b):
    if type(a) is float and type(b) is float: return math.hypot(a, b)
    a = dag.R(a); b = dag.R(b)
    return unk(dag.sqrt(dag.add(dag.mul(a, a), dag.mul(b, b))))


def fpow(cx, a, b):
    if type(a) is float and type(b) is float:
        try:
            return math.pow(a, b)
        except OverflowError:
            return INF
        except ValueError:
            return INF if a == 0 else math.nan
    if type(a) is Node and type(b) is float:
        if b != int(b) or abs(b) > 12:
            if a.lo < 0 or (a.lo <= 0 and b < 0): cx.undef('pow', 'base', a, b)
        elif b < 0 and a.lo <= 0 <= a.hi: cx.undef('pow', 'base', a, b)
    if type(a) is float and a <= 0: raise Unsupported('pow base')
    if type(a) is float and type(b) is Node and abs(math.log(a)) * max(abs(b.lo), abs(b.hi)) > 709: cx.undef('exp', 'argument', b, None)
    return unk(dag.powr(dag.R(a), dag.R(b)))


def fpowi(cx, a, n):
    if type(n) is not int: raise Unsupported('powi sym')
    if n >= 1 << 31: n -= 1 << 32
    if type(a) is float:
        try:
            return a ** n
        except (OverflowError, ZeroDivisionError):
            return INF
    if n < 0 and a.lo <= 0 <= a.hi: cx.undef('pow', 'base', a, n)
    return unk(dag.ipow(a, n))


def ffma(cx, a, b, c):
    if type(a) is float and type(b) is float and type(c) is float:
        try:
            return math.fma(a, b, c)
        except AttributeError:
            if all(abs(x) < INF for x in (a, b, c)):
                return float(Fraction(a) * Fraction(b) + Fraction(c))
            return a * b + c
    return fadd(fmul(a, b), c)


def fmax(cx, a, b):
    if type(a) is float and type(b) is float:
        if a != a: return b
        if b != b: return a
        return max(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is float:
            if x != x or x == -INF: return y
            if x == INF: return x
    return unk(dag.rmax(dag.R(a), dag.R(b)))


def fmin(cx, a, b):
    if type(a) is float and type(b) is float:
        if a != a: return b
        if b != b: return a
        return min(a, b)
    for x, y in ((a, b), (b, a)):
        if type(x) is float:
            if x != x or x == INF: return y
            if x == -INF: return x
    return unk(dag.rmin(dag.R(a), dag.R(b)))


def fcopysign(cx, a, b):
    if type(a) is float and type(b) is float: return math.copysign(a, b)
    m = fabs_(cx, a)
    if type(b) is float:
        return m if math.copysign(1, b) > 0 else fneg(m)
    return unk(dag.ite(dag.lt(b, dag.ZERO()), dag.neg(dag.R(m)), dag.R(m)))


def fcmp(pr, a, b):
    if type(a) is float and type(b) is float:
        un = a != a or b != b
        if pr == 'uno': return un
        if pr == 'ord': return not un
        if un: return pr[0] == 'u'
        q = pr[1:]
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
    # symbolic operands are finite reals
    for x in (a, b):
        if type(x) is float and x != x: return pr[0] == 'u'
    if pr == 'uno': return False
    if pr == 'ord': return True
    q = pr[1:]
    if type(a) is float and a in (INF, -INF):
        return {'eq': False, 'ne': True, 'lt': a < 0, 'le': a < 0, 'gt': a > 0, 'ge': a > 0}[q]
    if type(b) is float and b in (INF, -INF):
        return {'eq': False, 'ne': True, 'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0}[q]
    a = dag.R(a); b = dag.R(b)
    if q == 'eq': return dag.eq(a, b)
    if q == 'ne': return dag.bnot(dag.eq(a, b))
    if q == 'lt': return dag.lt(a, b)
    if q == 'le': return dag.le(a, b)
    if q == 'gt': return dag.lt(b, a)
    return dag.le(b, a)


# ------------------------------------------------------------------ ints
def udivc(a, b):
    if b == 0: raise PathAbort('udiv by zero')
    return a // b


def uremc(a, b):
    if b == 0: raise PathAbort('urem by zero')
    return a % b


def sgn(a, n):
    return a - (1 << n) if a >> (n - 1) else a


def iu(r, n):
    """canonicalise a mathematical result into [0,2^n)"""
    if type(r) is not Node: return r & ((1 << n) - 1)
    if r.op == 'ik': return r.args[0] & ((1 << n) - 1)
    if r.lo >= 0 and r.hi < 1 << n: return r
    return unik(dag.imod(r, 1 << n))


def unik(r):
    if type(r) is Node and r.op == 'ik': return r.args[0]
    return r


def ibin(op, a, b, n):
    M = (1 << n) - 1
    if type(a) is FBits or type(b) is FBits:
        return fbits_bin(op, a, b, n)
    if type(a) is bool: a = int(a)
    if type(b) is bool: b = int(b)
    if type(a) is int and type(b) is int:
        if op == 'add': return (a + b) & M
        if op == 'sub': return (a - b) & M
        if op == 'mul': return (a * b) & M
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & M
        if op == 'lshr': return a >> b
        if op == 'ashr': return (sgn(a, n) >> b) & M
        if op == 'udiv': return udivc(a, b)
        if op == 'urem': return uremc(a, b)
        if op in ('sdiv', 'srem'):
            x = sgn(a, n); y = sgn(b, n)
            if y == 0: raise PathAbort('div0')
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == 'sdiv' else x - q * y) & M
        raise Unsupported(op)
    A = dag.I(a); B = dag.I(b)
    if op == 'add':
        if type(b) is int and b >> (n - 1): B = dag.ik(b - (1 << n)) if A.lo + (b - (1 << n)) >= 0 else B
        if type(a) is int and a >> (n - 1): A = dag.ik(a - (1 << n)) if B.lo + (a - (1 << n)) >= 0 else A
        return iu(dag.iadd(A, B), n)
    if op == 'sub': return iu(dag.iadd(A, dag.imul(dag.ik(-1), B)), n)
    if op == 'mul': return iu(dag.imul(A, B), n)
    if op == 'shl' and type(b) is int: return iu(dag.imul(A, dag.ik(1 << b)), n)
    if op == 'lshr' and type(b) is int: return unik(dag.idiv(A, 1 << b))
    if op == 'udiv' and type(b) is int and b: return unik(dag.idiv(A, b))
    if op == 'urem' and type(b) is int and b: return unik(dag.imod(A, b))
    if op == 'and' and type(b) is int:
        if b & (b + 1) == 0: return unik(dag.imod(A, b + 1))
        if A.hi <= b and ((b + 1) & b) == 0: return a
    if op == 'and' and type(a) is int: return ibin(op, b, a, n)
    if A.op == 'ite' or B.op == 'ite':
        # push into constant ite trees
        if type(b) is int and dag.const_ite(A):
            return unik(dag.map_ite(A, lambda x: dag.I(ibin(op, x.args[0], b, n))))
        if type(a) is int and dag.const_ite(B):
            return unik(dag.map_ite(B, lambda x: dag.I(ibin(op, a, x.args[0], n))))
        if dag.const_ite(A) and dag.const_ite(B):
            return unik(dag.map_ite(A, lambda x: dag.I(ibin(op, x.args[0], b, n))))
    if op == 'xor' and type(b) is int and b == M: return iu(dag.iadd(dag.ik(M), dag.imul(dag.ik(-1), A)), n)
    if op == 'xor' and b == 1 and A.lo >= 0 and A.hi <= 1: return unik(dag.iadd(dag.ik(1), dag.imul(dag.ik(-1), A)))
    if op == 'or' and type(b) is int and b == 0: return a
    if op in ('and', 'or', 'xor') and A.lo >= 0 and B.lo >= 0 and A.hi <= 1 and B.hi <= 1:
        x = dag.ieq(A, dag.ik(1)); y = dag.ieq(B, dag.ik(1))
        return unik(dag.ite(b1op(op, x, y), dag.ik(1), dag.ik(0)))
    raise Unsupported(f'symbolic int {op} {A} {B}')


def fbits_bin(op, a, b, n):
    if type(a) is not FBits: a, b = b, a
    if op == 'and' and b == (1 << 63) - 1: return FBits(dag.rabs(a.n))
    if op == 'xor' and b == 1 << 63: return FBits(dag.neg(a.n))
    if op == 'lshr' and b == 63: return dag.ite(dag.lt(a.n, dag.ZERO()), dag.ik(1), dag.ik(0))
    if op == 'and' and b == 1 << 63: return dag.ite(dag.lt(a.n, dag.ZERO()), dag.ik(1 << 63), dag.ik(0))
    raise Unsupported('bit op on float')


def b1op(op, a, b):
    if type(a) is int: a = bool(a)
    if type(b) is int: b = bool(b)
    if op in ('and', 'mul'): return dag.band(a, b)
    if op == 'or': return dag.bor(a, b)
    if op in ('xor', 'add', 'sub'):
        if type(a) is bool: return dag.bnot(b) if a else b
        if type(b) is bool: return dag.bnot(a) if b else a
        return dag.bor(dag.band(a, dag.bnot(b)), dag.band(dag.bnot(a), b))
    raise Unsupported('i1 ' + op)


def b1cmp(pr, a, b):
    if pr == 'eq': return dag.bnot(b1op('xor', a, b))
    if pr == 'ne': return b1op('xor', a, b)
    if pr in ('ult', 'sgt'): return dag.band(dag.bnot(a), b)
    if pr in ('ugt', 'slt'): return dag.band(a, dag.bnot(b))
    if pr in ('ule', 'sge'): return dag.bor(dag.bnot(a), b)
    return dag.bor(a, dag.bnot(b))


def icmp(pr, a, b, n):
    if type(a) is FBits or type(b) is FBits:
        # sign-bit tests (is_sign_negative); -0.0 counts as non-negative here
        if type(a) is FBits and type(b) is int:
            if (pr, b) == ('slt', 0): return dag.lt(a.n, dag.ZERO())
            if (pr, b) == ('sgt', M64): return dag.bnot(dag.lt(a.n, dag.ZERO()))
            if (pr, b) == ('sge', 0): return dag.bnot(dag.lt(a.n, dag.ZERO()))
            if (pr, b) == ('sle', M64): return dag.lt(a.n, dag.ZERO())
        raise Unsupported('icmp float bits')
    if type(a) is int and type(b) is int:
        if pr[0] == 's':
            a = sgn(a, n); b = sgn(b, n)
        q = pr[-2:]
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
    if pr[0] == 's':
        A = tosigned(a, n); B = tosigned(b, n)
    else:
        A = dag.I(a); B = dag.I(b)
    q = pr[-2:]
    if q == 'eq': return dag.ieq(A, B)
    if q == 'ne': return dag.bnot(dag.ieq(A, B))
    if q == 'lt': return dag.ilt(A, B)
    if q == 'le': return dag.ile(A, B)
    if q == 'gt': return dag.ilt(B, A)
    return dag.ile(B, A)


def tosigned(a, n):
    if type(a) is int: return dag.ik(sgn(a, n))
    h = 1 << (n - 1)
    if a.hi < h: return a
    if a.lo >= h: return dag.iadd(a, dag.ik(-(1 << n)))
    return dag.ite(dag.ilt(a, dag.ik(h)), a, dag.iadd(a, dag.ik(-(1 << n))))


def select(cx, c, a, b, k):
    if a is b: return a
    if type(a) in (int, float, bool) and type(b) is type(a) and a == b: return a
    if type(c) is Node and cx.opts.get('noeq'):
        if (c.args[0] if c.op == 'not' else c).op == 'eq': return a if cx.decide(c) else b
        v = cx.facts.get(c)
        if v is not None: return a if v else b
    if k == 'd':
        for x in (a, b):
            if type(x) is float and (x != x or x in (INF, -INF)):
                return a if cx.decide(c) else b
        return unk(dag.ite(c, dag.R(a), dag.R(b)))
    if k == 'i' and type(a) is not FBits and type(b) is not FBits:
        if type(a) is bool or type(b) is bool or (type(a) is Node and a.ty == 'B'):
            return dag.ite(c, a, b)
        return unik(dag.ite(c, dag.I(a), dag.I(b)))
    return a if cx.decide(c) else b


def ovf(op, a, b, n):
    s = op[0] == 's'
    o = op[1:]
    if type(a) is int and type(b) is int:
        x, y = (sgn(a, n), sgn(b, n)) if s else (a, b)
        r = x + y if o == 'add' else x - y if o == 'sub' else x * y
        ok = -(1 << (n - 1)) <= r < 1 << (n - 1) if s else 0 <= r < 1 << n
        return (r & ((1 << n) - 1), not ok)
    A = tosigned(a, n) if s else dag.I(a)
    B = tosigned(b, n) if s else dag.I(b)
    r = dag.iadd(A, B) if o == 'add' else dag.iadd(A, dag.imul(dag.ik(-1), B)) if o == 'sub' else dag.imul(A, B)
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
    bad = dag.bor(dag.ilt(r, dag.ik(lo)), dag.ilt(dag.ik(hi), r))
    return (iu(r, n), bad)


def iminmax(cx, op, a, b, n):
    if type(a) is int and type(b) is int:
        key = (lambda x: sgn(x, n)) if op[0] == 's' else (lambda x: x)
        return min(a, b, key=key) if op[1:] == 'min' else max(a, b, key=key)
    c = icmp(('s' if op[0] == 's' else 'u') + 'lt', a, b, n)
    if op[1:] == 'max': c = dag.bnot(c)
    return unik(dag.ite(c, dag.I(a), dag.I(b)))


def isat(op, a, b, n):
    if type(a) is int and type(b) is int:
        return max(0, a - b) if op == 'usub' else min(a + b, (1 << n) - 1)
    A = dag.I(a); B = dag.I(b)
    if op == 'usub':
        return unik(dag.ite(dag.ilt(A, B), dag.ik(0), dag.iadd(A, dag.imul(dag.ik(-1), B))))
    r = dag.iadd(A, B); m = dag.ik((1 << n) - 1)
    return unik(dag.ite(dag.ilt(m, r), m, r))


def cmp3(cx, op, a, b, n, rn):
    M = (1 << rn) - 1
    if type(a) is int and type(b) is int:
        if op[0] == 's': a = sgn(a, n); b = sgn(b, n)
        return (a > b) - (a < b) & M
    A, B = (tosigned(a, n), tosigned(b, n)) if op[0] == 's' else (dag.I(a), dag.I(b))
    if cx.decide(dag.ilt(A, B)): return M
    if cx.decide(dag.ieq(A, B)): return 0
    return 1


def bitint(op, a, n):
    for x in a:
        if type(x) not in (int, bool): raise Unsupported('symbolic ' + op)
    v = a[0]
    if op == 'ctlz': return n - v.bit_length()
    if op == 'cttz': return (v & -v).bit_length() - 1 if v else n
    if op == 'ctpop': return bin(v).count('1')
    if op in ('fshl', 'fshr'):
        s = a[2] % n; M = (1 << n) - 1
        cat = (a[0] << n) | a[1]
        return (cat << s >> n) & M if op == 'fshl' else (cat >> s) & M
    if op == 'bswap': return int.from_bytes(v.to_bytes(n // 8, 'little'), 'big')
    if op == 'abs': return abs(sgn(v, n)) & ((1 << n) - 1)
    raise Unsupported(op)


def fptoi_sat(cx, a, s, n):
    lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)
    if type(a) is float:
        if a != a: return 0
        if a <= lo: return lo & ((1 << n) - 1)
        if a >= hi: return hi
        return int(a) & ((1 << n) - 1)
    if not s and a.lo < 0:
        a = dag.rmax(a, dag.ZERO())
    r = dag.rtoi(a)
    if not s: return unik(r)
    if r.lo >= 0: return unik(r)
    return iu(r, n)


def cast(op, a, t1, t2):
    if op in ('zext',):
        if t1[0] == 'vec': return tuple(cast(op, x, t1[2], t2[2]) for x in a)
        if t1[1] == 1:
            if type(a) is Node: return dag.ite(a, dag.ik(1), dag.ik(0))
            return int(a)
        return a
    if op == 'sext':
        if t1[0] == 'vec': return tuple(cast(op, x, t1[2], t2[2]) for x in a)
        if t1[1] == 1:
            m = (1 << t2[1]) - 1
            if type(a) is Node: return dag.ite(a, dag.ik(m), dag.ik(0))
            return m if a else 0
        if type(a) is int: return sgn(a, t1[1]) & ((1 << t2[1]) - 1)
        return iu(tosigned(a, t1[1]), t2[1])
    if op == 'trunc':
        if t1[0] == 'vec': return tuple(cast(op, x, t1[2], t2[2]) for x in a)
        n = t2[1]
        if n == 1:
            if type(a) is int: return bool(a & 1)
            if a.lo >= 0 and a.hi <= 1: return dag.ieq(a, dag.ik(1))
            return dag.ieq(dag.imod(a, 2), dag.ik(1))
        if type(a) is int: return a & ((1 << n) - 1)
        return iu(a, n)
    if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'): return a
    if op in ('uitofp', 'sitofp'):
        if op == 'uitofp' and t1[1] == 1: return (1.0 if a else 0.0) if type(a) is bool else dag.ite(a, dag.R(1), dag.R(0))
        if type(a) is int: return float(sgn(a, t1[1]) if op == 'sitofp' else a)
        if op == 'sitofp': a = tosigned(a, t1[1])
        return unk(dag.itor(a))
    if op in ('fptosi', 'fptoui'):
        return fptoi_sat(None, a, op == 'fptosi', t2[1])
    if op == 'bitcast':
        return bitcast(a, t1, t2)
    raise Unsupported(f'cast {op} {t1} {t2}')


def tobytes(a, t):
    if t[0] == 'vec':
        if t[2] == ('i', 1):
            v = 0
            for i, x in enumerate(a):
                if x: v |= 1 << i
            return v.to_bytes((t[1] + 7) // 8, 'little')
        return b''.join(tobytes(x, t[2]) for x in a)
    if t[0] == 'd': return struct.pack('<d', a)
    if t[0] == 'f': return struct.pack('<f', a)
    return int(a).to_bytes(sizeof(t), 'little')


def frombytes(b, t):
    if t[0] == 'vec':
        if t[2] == ('i', 1):
            v = int.from_bytes(b, 'little')
            return tuple(bool(v >> i & 1) for i in range(t[1]))
        s = sizeof(t[2])
        return tuple(frombytes(b[i * s:i * s + s], t[2]) for i in range(t[1]))
    if t[0] == 'd': return struct.unpack('<d', b[:8])[0]
    if t[0] == 'f': return struct.unpack('<f', b[:4])[0]
    v = int.from_bytes(b[:sizeof(t)], 'little')
    if t == ('i', 1): return bool(v & 1)
    return v


def bitcast(a, t1, t2):
    if t1 == t2: return a
    if t1 == ('d',) and t2 == ('i', 64):
        return FBits(a) if type(a) is Node else struct.unpack('<Q', struct.pack('<d', a))[0]
    if t1 == ('i', 64) and t2 == ('d',):
        return asf(a)
    return frombytes(tobytes(a, t1), t2)


def insval(a, v, idx):
    l = list(a)
    if len(idx) == 1: l[idx[0]] = v
    else: l[idx[0]] = insval(a[idx[0]], v, idx[1:])
    return tuple(l)


def shuf(a, b, m):
    c = tuple(a) + tuple(b)
    return tuple(c[i] for i in m)


def vecbin(op, a, b, t):
    if t[2] == ('i', 1): return tuple(b1op(op, x, y) for x, y in zip(a, b))
    return tuple(ibin(op, x, y, t[2][1]) for x, y in zip(a, b))


def veccmp(pr, a, b, t):
    n = 64 if t[2][0] == 'p' else t[2][1]
    return tuple(icmp(pr, x, y, n) for x, y in zip(a, b))


# ------------------------------------------------------------------ memory
# cx.mem: dict 8-aligned address -> word value (int|float|Node|FBits) or Frag
class Frag:
    __slots__ = ('d',)       # offset -> (size, value)

    def __init__(self, d):
        self.d = d


class Piece:
    """byte k of the n-byte symbolic value v"""
    __slots__ = ('v', 'k', 'n')

    def __init__(self, v, k, n): self.v = v; self.k = k; self.n = n


def asf(v):
    if type(v) is float: return v
    if type(v) is int: return struct.unpack('<d', struct.pack('<Q', v))[0]
    if type(v) is FBits: return v.n
    if type(v) is Node and v.ty == 'R': return v
    raise Unsupported('int node as double')


def asi(v):
    if type(v) is int: return v
    if type(v) is float: return struct.unpack('<Q', struct.pack('<d', v))[0]
    if type(v) is Node:
        return FBits(v) if v.ty == 'R' else v
    return v


def word_join(fr):
    """Frag -> concrete int if possible"""
    r = 0
    for o, (s, v) in fr.d.items():
        if type(v) is not int: raise Unsupported('joining symbolic sub-words')
        r |= v << (8 * o)
    return r


def concaddr(cx, a):
    if type(a) is int: return a
    return cx.concretise(a)


def ld8(cx, a):
    if type(a) is not int:
        return symload(cx, a, ('i', 64))
    if a & 7: return ldt_u(cx, a, ('i', 64))
    v = cx.mem.get(a, 0)
    if type(v) is int: return v
    if type(v) is Frag: return ldt_u(cx, a, ('i', 64))
    return asi(v)


def ldf(cx, a):
    if type(a) is not int:
        return symload(cx, a, ('d',))
    if a & 7: return ldt_u(cx, a, ('d',))
    v = cx.mem.get(a, 0)
    t = type(v)
    if t is float or t is Node and v.ty == 'R': return v
    if t is Frag: return ldt_u(cx, a, ('d',))
    return asf(v)


def symload(cx, a, t):
    vals = cx.addr_values(a)
    if vals is None:
        a = cx.concretise(a)
        return ldt(cx, a, t)
    r = None
    for cond, ad in vals:
        v = ldt(cx, ad, t)
        if t[0] == 'd':
            if type(v) is float and (v != v or v in (INF, -INF)):
                return ldt(cx, cx.concretise(a), t)
            v = dag.R(v)
        elif t[0] == 'i' and t[1] > 1 and type(v) in (int, Node):
            v = dag.I(v)
        else:
            return ldt(cx, cx.concretise(a), t)
        r = v if r is None else dag.ite(cond, v, r)
    return unk(r) if t[0] == 'd' else unik(r)


def ldt(cx, a, t):
    if type(a) is not int: return symload(cx, a, t)
    k = t[0]
    if k == 'd': return ldf(cx, a)
    if k == 'p' or t == ('i', 64): return ld8(cx, a)
    return ldt_u(cx, a, t)


def ldt_u(cx, a, t):
    k = t[0]
    if k == 'st':
        return tuple(ldt(cx, a + field_off(t, i), x) for i, x in enumerate(t[1]))
    if k == 'arr':
        s = sizeof(t[2])
        return tuple(ldt(cx, a + i * s, t[2]) for i in range(t[1]))
    n = sizeof(t)
    if k == 'vec' and sizeof(t[2]) == 8:
        return tuple(ldt(cx, a + 8 * i, t[2]) for i in range(t[1]))
    w = a & ~7
    o = a & 7
    v = cx.mem.get(w, 0)
    if o + n <= 8 and k == 'i':
        if type(v) is Frag:
            e = v.d.get(o)
            if e is not None and e[0] == n and type(e[1]) is not Piece:
                r = e[1]
                if t[1] == 1: return bool(r & 1) if type(r) is int else dag.ieq(r, dag.ik(1))
                if type(r) is int: return r & ((1 << t[1]) - 1)
                return r
        elif type(v) is Node and v.ty == 'I' and o == 0:
            return iu(v, t[1])
    b = ldpieces(cx, a, n)
    if any(type(x) is Piece for x in b): return frompieces(b, t)
    return frombytes(bytes(b), t)


def run(b, i, m=None):
    """the symbolic value whose bytes start at b[i], if all of them are there"""
    p = b[i]
    if type(p) is not Piece or p.k or (m is not None and p.n != m) or i + p.n > len(b): return None
    for j in range(p.n):
        q = b[i + j]
        if type(q) is not Piece or q.v is not p.v or q.k != j or q.n != p.n: return None
    return p


def frompieces(b, t):
    k = t[0]
    if k == 'vec' and t[2] != ('i', 1):
        s = sizeof(t[2])
        return tuple(frompieces(b[i * s:i * s + s], t[2]) for i in range(t[1]))
    if not any(type(x) is Piece for x in b): return frombytes(bytes(b), t)
    n = sizeof(t)
    p = run(b, 0, n)
    if p is not None and k in 'dpi':
        v = asf(p.v) if k == 'd' else asi(p.v)
        if t == ('i', 1) and type(v) is Node: return dag.ieq(v, dag.ik(1))
        return v
    if k == 'i' and t[1] == 8 * n:
        r = dag.ik(0); i = 0
        while i < n:
            if type(b[i]) is int: x = dag.ik(b[i]); m = 1
            else:
                p = run(b, i)
                if p is None or type(p.v) is not Node or p.v.ty != 'I': raise Unsupported('bytes of symbolic value')
                x = p.v; m = p.n
            r = dag.iadd(r, dag.imul(dag.ik(1 << (8 * i)), x)); i += m
        return unik(r)
    raise Unsupported('bytes of symbolic value')


def wordpieces(v):
    if type(v) is Frag:
        r = [0] * 8
        for o, (z, x) in v.d.items():
            if type(x) is Piece: r[o] = x
            elif type(x) is int:
                for i in range(z): r[o + i] = x >> (8 * i) & 255
            else:
                for i in range(z): r[o + i] = Piece(x, i, z)
        return r
    if type(v) is not int:
        v = asi(v)
        if type(v) is not int: return [Piece(v, i, 8) for i in range(8)]
    return list(v.to_bytes(8, 'little'))


def ldpieces(cx, a, n):
    out = []
    i = 0
    while i < n:
        w = (a + i) & ~7; o = (a + i) & 7
        c = min(8 - o, n - i)
        out += wordpieces(cx.mem.get(w, 0))[o:o + c]
        i += c
    return out


def ldbytes(cx, a, n):
    b = ldpieces(cx, a, n)
    if any(type(x) is Piece for x in b): raise Unsupported('bytes of symbolic word')
    return bytes(b)


def stpieces(cx, a, b):
    i = 0; n = len(b)
    while i < n:
        x = b[i]
        if type(x) is Piece:
            p = run(b, i)
            if p is not None and ((a + i) & 7) + p.n <= 8:
                stsub(cx, a + i, p.n, p.v); i += p.n; continue
        elif not (a + i) & 7 and i + 8 <= n and all(type(y) is int for y in b[i:i + 8]):
            cx.mem[a + i] = int.from_bytes(bytes(b[i:i + 8]), 'little'); i += 8; continue
        stsub(cx, a + i, 1, x)
        i += 1


def st8(cx, a, v):
    if type(a) is not int: a = cx.concretise(a)
    if a & 7:
        stpieces(cx, a, wordpieces(v))
        return
    cx.mem[a] = v


def stt(cx, a, v, t):
    if type(a) is not int: a = cx.concretise(a)
    k = t[0]
    if k in 'dp' or t == ('i', 64):
        st8(cx, a, v); return
    if k == 'st':
        for i, x in enumerate(t[1]): stt(cx, a + field_off(t, i), v[i], x)
        return
    if k == 'arr' or (k == 'vec' and t[2] != ('i', 1)):
        s = sizeof(t[2])
        if k == 'vec' and s < 8:
            stbytes(cx, a, tobytes(v, t)); return
        for i in range(t[1]): stt(cx, a + i * s, v[i], t[2])
        return
    n = sizeof(t)
    if type(v) is bool: v = int(v)
    if type(v) is Node and v.ty == 'B': v = dag.ite(v, dag.ik(1), dag.ik(0))
    if n <= 8:
        stsub(cx, a, n, v)
    else:
        if type(v) is not int: raise Unsupported('wide symbolic store')
        stbytes(cx, a, v.to_bytes(n, 'little'))


def stsub(cx, a, n, v):
    w = a & ~7; o = a & 7
    if o + n > 8:
        if type(v) is not int: stpieces(cx, a, [Piece(v, i, n) for i in range(n)]); return
        stbytes(cx, a, v.to_bytes(n, 'little')); return
    if n == 8:
        cx.mem[w] = v; return
    old = cx.mem.get(w)
    if old is None:
        d = {}
    elif type(old) is Frag:
        d = dict(old.d)
    elif type(old) is int:
        if type(v) is int:
            m = ((1 << (8 * n)) - 1) << (8 * o)
            cx.mem[w] = (old & ~m) | (v << (8 * o))
            return
        d = {i: (1, old >> (8 * i) & 255) for i in range(8)}
    elif type(old) is float:
        iv = asi(old)
        d = {i: (1, iv >> (8 * i) & 255) for i in range(8)}
    else:
        d = {i: (1, x) for i, x in enumerate(wordpieces(old))}
    for oo in list(d):
        s = d[oo][0]
        if oo < o + n and o < oo + s:
            so, sv = oo, d.pop(oo)
            if so >= o and so + s <= o + n: continue
            if type(sv[1]) is int:
                for i in range(s):
                    if not (o <= so + i < o + n): d[so + i] = (1, sv[1] >> (8 * i) & 255)
            else:
                for i in range(s):
                    if not (o <= so + i < o + n): d[so + i] = (1, Piece(sv[1], i, s))
    d[o] = (n, v)
    if type(v) is int and len(d) == 8 and all(type(x[1]) is int for x in d.values()):
        cx.mem[w] = word_join(Frag(d))
    else:
        cx.mem[w] = Frag(d)


def stbytes(cx, a, b):
    i = 0; n = len(b)
    while i < n:
        w = (a + i) & ~7; o = (a + i) & 7
        c = min(8 - o, n - i)
        if c == 8:
            cx.mem[w] = int.from_bytes(b[i:i + 8], 'little')
        else:
            for j in range(c): stsub(cx, a + i + j, 1, b[i + j])
        i += c


def memcpy(cx, d, s, n):
    d = concaddr(cx, d); s = concaddr(cx, s)
    if type(n) is not int: n = cx.concretise(n)
    if n == 0: return
    mem = cx.mem
    if (d & 7) == 0 and (s & 7) == 0:
        full = n & ~7
        tmp = [mem.get(s + i) for i in range(0, full, 8)]
        tail = None
        if n & 7: tail = mem.get(s + full)
        for i, v in enumerate(tmp):
            if v is None: mem.pop(d + 8 * i, None)
            else: mem[d + 8 * i] = v
        if n & 7 and tail is not None: stpieces(cx, d + full, wordpieces(tail)[:n & 7])
        return
    stpieces(cx, d, ldpieces(cx, s, n))


def memset(cx, d, v, n):
    d = concaddr(cx, d)
    if type(n) is not int: n = cx.concretise(n)
    if type(v) is not int: raise Unsupported('memset sym')
    stbytes(cx, d, bytes([v]) * n)


def gep(cx, base, off, terms):
    r = dag.iadd(dag.I(base), dag.ik(off))
    for iv, sz in terms:
        if type(iv) is int:
            iv = sgn(iv, 64)
        r = dag.iadd(r, dag.imul(dag.ik(sz), dag.I(iv)))
    return unik(r)
