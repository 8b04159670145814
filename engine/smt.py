"""Translation of DAG terms to z3 (QF_NRA + uninterpreted transcendental atoms with sound axioms)."""
import z3, math, time
from fractions import Fraction
import dag
from dag import Node

STATS = {'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'time': 0.0}
INF = math.inf


def q(fr):
    return z3.RealVal(f'{fr.numerator}/{fr.denominator}') if fr.denominator != 1 else z3.RealVal(fr.numerator)


def qf(f, up):
    """rational just outside a float bound"""
    x = Fraction(f)
    if x.denominator > 1 << 40:
        s = 1 << 40
        n = x * s
        r = Fraction(math.ceil(n) if up else math.floor(n), s)
        if r == 0 and f != 0:
            return q(x)
        return q(r)
    return q(x)


class Enc:
    def __init__(self):
        self.memo = {}
        self.ax = []
        self.vars = {}
        self.exps = []
        self.logs = []
        self.done_pairs = set()

    def bounds(self, v, n):
        if n.lo > -INF: self.ax.append(v >= qf(n.lo, False))
        if n.hi < INF: self.ax.append(v <= qf(n.hi, True))

    def tr(self, n):
        if type(n) is bool: return z3.BoolVal(n)
        memo = self.memo
        r = memo.get(n.id)
        if r is not None: return r
        for m in dag.topo([n]):
            if m.id not in memo: memo[m.id] = self._tr(m)
        return memo[n.id]

    def _tr(self, m):
        o = m.op; g = self.memo
        if o == 'k': return q(m.args[0])
        if o == 'ik': return z3.IntVal(m.args[0])
        if o == 'var':
            v = z3.Real(m.args[0]); self.vars[m.args[0]] = v
            self.bounds(v, m)
            return v
        if o == 'ivar':
            v = z3.Int(m.args[0]); self.vars[m.args[0]] = v
            self.ax.append(v >= m.lo); self.ax.append(v <= m.hi)
            return v
        a = [g[x.id] for x in m.args]
        if o in ('add', 'iadd'): return a[0] + a[1]
        if o in ('mul', 'imul'): return a[0] * a[1]
        if o == 'div':
            v = z3.Real(f'q!{m.id}')
            self.ax.append(v * a[1] == a[0]); self.ax.append(a[1] != 0)
            self.bounds(v, m)
            return v
        if o == 'sqrt':
            v = z3.Real(f'sq!{m.id}')
            self.ax.append(v >= 0); self.ax.append(v * v == a[0])
            self.bounds(v, m)
            return v
        if o == 'exp':
            v = z3.Real(f'ex!{m.id}')
            self.ax.append(v > 0)
            u = a[0]
            self.ax.append(v >= 1 + u)
            self.ax.append(z3.Implies(u <= 0, v <= 1)); self.ax.append(z3.Implies(u >= 0, v >= 1))
            self.ax.append(z3.Implies(u < 0, v < 1)); self.ax.append(z3.Implies(u > 0, v > 1))
            self.bounds(v, m)
            for (u2, v2) in self.exps:
                self.ax.append(z3.Implies(u < u2, v < v2)); self.ax.append(z3.Implies(u > u2, v > v2)); self.ax.append(z3.Implies(u == u2, v == v2))
            if len(self.exps) < 8: self.exps.append((u, v))
            return v
        if o == 'log':
            v = z3.Real(f'ln!{m.id}')
            u = a[0]
            self.ax.append(z3.Implies(u > 0, v <= u - 1))
            self.ax.append(z3.Implies(u >= 1, v >= 0)); self.ax.append(z3.Implies(z3.And(u > 0, u <= 1), v <= 0))
            self.bounds(v, m)
            for (u2, v2) in self.logs:
                self.ax.append(z3.Implies(z3.And(u > 0, u < u2), v < v2)); self.ax.append(z3.Implies(z3.And(u2 > 0, u > u2), v > v2)); self.ax.append(z3.Implies(u == u2, v == v2))
            if len(self.logs) < 8: self.logs.append((u, v))
            return v
        if o == 'floor':
            return z3.ToReal(z3.ToInt(a[0]))
        if o in ('lt', 'ilt'): return a[0] < a[1]
        if o in ('le', 'ile'): return a[0] <= a[1]
        if o in ('eq', 'ieq'): return a[0] == a[1]
        if o == 'and': return z3.And(a[0], a[1])
        if o == 'or': return z3.Or(a[0], a[1])
        if o == 'not': return z3.Not(a[0])
        if o == 'ite': return z3.If(a[0], a[1], a[2])
        if o == 'itor': return z3.ToReal(a[0])
        if o == 'rtoi': return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if o == 'idiv': return a[0] / a[1]
        if o == 'imod': return a[0] % a[1]
        raise dag.NonFinite('smt ' + o)


def model_values(m, enc):
    out = {}
    for k, v in enc.vars.items():
        x = m.eval(v, model_completion=True)
        try:
            if z3.is_int_value(x): out[k] = float(x.as_long())
            elif z3.is_rational_value(x): out[k] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                y = x.approx(20)
                out[k] = float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
        except Exception:
            pass
    return out


def check_sat(conds, ms, extra=None, enc=None):
    e = enc or Enc()
    s = z3.Solver()
    s.set('timeout', int(ms))
    ts = [e.tr(c) for c in conds]
    s.add(*e.ax)
    s.add(*ts)
    if extra: s.add(*extra(e))
    t0 = time.time()
    r = str(s.check())
    STATS['queries'] += 1; STATS[r] += 1; STATS['time'] += time.time() - t0
    if r == 'sat':
        return r, model_values(s.model(), e)
    return r, None
