"""Translate one parsed LLVM function to a Python function.

Values: iN -> int (unsigned, canonical) | Node(I) | FBits ; i1 -> bool | Node(B);
double -> float | Node(R); ptr -> int | Node(I); vectors/aggregates -> tuple."""
import re
from ir import *

CMP = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>=',
       'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}


class CG:
    def __init__(self, eng, fn):
        self.eng = eng; self.fn = fn; self.mod = fn.mod
        self.names = {}
        self.lines = []
        self.env = {}
        self.nins = 0

    def reg(self, n):
        r = self.names.get(n)
        if r is None:
            r = f'r{len(self.names)}'
            self.names[n] = r
        return r

    # ---- operands: returns (expr, is_const_known_concrete)
    def operand(self, p, ty):
        x = p.peek()
        if x[0] == '%':
            p.next()
            return self.reg(x)
        return self.const(p, ty)

    def const(self, p, ty):
        v = self.constval(p, ty)
        return self.lit(v)

    def lit(self, v):
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return f'float("{v}")'
            return repr(v)
        if isinstance(v, tuple):
            return '(' + ''.join(self.lit(x) + ',' for x in v) + ')'
        return repr(v)

    def constval(self, p, ty):
        x = p.next()
        k = ty[0]
        if x in ('poison', 'undef', 'zeroinitializer', 'null', 'none'):
            return self.eng.zero(ty)
        if x == 'splat':
            p.expect('('); et = p.type(); v = self.constval(p, et); p.expect(')')
            return tuple([v] * ty[1])
        if x == 'true': return True
        if x == 'false': return False
        if k == 'i' and re.fullmatch(r'-?\d+', x):
            if ty[1] == 1: return bool(int(x))
            return int(x) & ((1 << ty[1]) - 1)
        if k in 'df' and k != 'st':
            if k in ('d', 'f'):
                return fconst(x)
        if x[0] == '@':
            return self.eng.sym_addr(self.mod, x[1:])
        if x.startswith('c"'):
            return tuple(cstr(x))
        if x == '<' or x == '[' or x == '{':
            if x == '<' and p.peek() == '{':
                p.next()
                vs = self.constlist(p, '}'); p.expect('>')
                return vs
            return self.constlist(p, {'<': '>', '[': ']', '{': '}'}[x])
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                p.next()
                if p.peek() == '(' and p.t[p.i - 1] == 'inrange': p.parens()
            p.expect('(')
            bt = p.type(); p.expect(',')
            p.type(); base = self.constval(p, ('p',))
            off = 0; cur = bt; first = True
            while p.eat(','):
                it = p.type(); iv = self.constval(p, it)
                n = it[1]
                if iv >= 1 << (n - 1): iv -= 1 << n
                if first:
                    off += iv * sizeof(bt); first = False
                elif cur[0] == 'st':
                    off += field_off(cur, iv); cur = cur[1][iv]
                else:
                    off += iv * sizeof(cur[2]); cur = cur[2]
            p.expect(')')
            return base + off
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            p.expect('('); t1 = p.type(); v = self.constval(p, t1)
            p.expect('to'); p.type(); p.expect(')')
            return v
        if x in ('sub', 'add'):
            while p.peek() in ('nuw', 'nsw'): p.next()
            p.expect('(')
            t1 = p.type(); a = self.constval(p, t1); p.expect(',')
            t2 = p.type(); b = self.constval(p, t2); p.expect(')')
            return ((a - b) if x == 'sub' else (a + b)) & ((1 << 64) - 1)
        raise Unsupported(f'const {x} {ty}')

    def constlist(self, p, end):
        vs = []
        if p.eat(end): return ()
        while True:
            t = p.type(); vs.append(self.constval(p, t))
            if p.eat(end): return tuple(vs)
            p.expect(',')

    # ---------------------------------------------------------------
    def compile(self):
        fn = self.fn
        params = [self.reg(n) for _, n in fn.params]
        bidx = {}
        for i, (lab, _) in enumerate(fn.blocks):
            bidx[lab] = i
        if fn.blocks[0][0] == '%entry#':
            # implicit numbered entry label = number of params (unnamed)
            bidx['%' + str(len(fn.params))] = 0
        self.bidx = bidx
        # phis
        phis = []
        for lab, ins in fn.blocks:
            ph = []
            for s in ins:
                m = re.match(r'(%\S+) = phi (.*)', s)
                if not m: break
                p = P(toks(m.group(2)), self.mod)
                while p.peek() in ATTR0: p.next()
                ty = p.type()
                inc = {}
                while True:
                    p.expect('[')
                    v = self.operand(p, ty); p.expect(',')
                    l = p.next(); p.expect(']')
                    inc[bidx[l]] = v
                    if not p.eat(','): break
                ph.append((self.reg(m.group(1)), inc))
            phis.append(ph)
        self.phis = phis
        code = []
        for i, (lab, ins) in enumerate(fn.blocks):
            self.cur = i
            out = []
            body = ins[len(phis[i]):]
            out.append(f'cx.n += {len(ins)}')
            for s in body:
                try:
                    self.instr(s, out)
                except Unsupported as e:
                    out.append(f'raise Unsupported({str(e)!r})')
            self.nins += len(ins)
            code.append(out)
        L = []
        L.append(f'def F(cx, {", ".join(params)}):' if params else 'def F(cx):')
        L.append('  blk = 0')
        L.append('  while True:')

        def tree(lo, hi, ind):
            pad = ' ' * ind
            if hi - lo == 1:
                for x in code[lo]:
                    for y in x.split('\n'):
                        L.append(pad + y)
                return
            mid = (lo + hi) // 2
            L.append(f'{pad}if blk < {mid}:')
            tree(lo, mid, ind + 1)
            L.append(f'{pad}else:')
            tree(mid, hi, ind + 1)
        tree(0, len(code), 4)
        src = '\n'.join(L)
        ns = dict(self.eng.rtns)
        ns.update(self.env)
        try:
            exec(compile(src, f'<{fn.name}>', 'exec'), ns)
        except SyntaxError:
            print(src); raise
        fn.ninstr = self.nins
        return ns['F']

    def goto(self, lab, out, pad=''):
        j = self.bidx[lab]
        ph = self.phis[j]
        if ph:
            lhs = []; rhs = []
            for r, inc in ph:
                v = inc[self.cur]
                if v != r:
                    lhs.append(r); rhs.append(v)
            if lhs:
                out.append(pad + ', '.join(lhs) + ' = ' + ', '.join(rhs))
        out.append(f'{pad}blk = {j}')
        out.append(f'{pad}continue')

    def isnum(self, e):
        return re.fullmatch(r'-?\d+|True|False', e) is not None

    def conc(self, *es):
        c = [f'type({e}) is int' for e in es if not self.isnum(e)]
        return ' and '.join(c) if c else 'True'

    def concf(self, *es):
        c = [f'type({e}) is float' for e in es if not re.fullmatch(r'-?[\d.]+(e[+-]?\d+)?|float\(.*\)', e)]
        return ' and '.join(c) if c else 'True'

    def instr(self, s, out):
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', s)
        if m:
            dst = self.reg(m.group(1)); s = m.group(2)
        else:
            dst = None
        p = P(toks(s), self.mod)
        op = p.next()
        h = getattr(self, 'i_' + op, None)
        if h is None:
            raise Unsupported('instr ' + s[:100])
        h(p, dst, out, op)

    # ---- terminators
    def i_ret(self, p, d, out, op):
        ty = p.type()
        if ty[0] == 'v':
            out.append('return None')
        else:
            out.append('return ' + self.operand(p, ty))

    def i_br(self, p, d, out, op):
        if p.eat('label'):
            self.goto(p.next(), out); return
        p.expect('i1')
        c = self.operand(p, ('i', 1)); p.expect(',')
        p.expect('label'); a = p.next(); p.expect(',')
        p.expect('label'); b = p.next()
        if c in ('True', 'False'):
            self.goto(a if c == 'True' else b, out); return
        out.append(f'if ({c} if type({c}) is bool else cx.decide({c})):')
        self.goto(a, out, ' ')
        self.goto(b, out)

    def i_switch(self, p, d, out, op):
        ty = p.type(); v = self.operand(p, ty); p.expect(',')
        p.expect('label'); dl = p.next(); p.expect('[')
        cases = []
        while not p.eat(']'):
            t = p.type(); cv = self.constval(p, t); p.expect(','); p.expect('label'); l = p.next()
            cases.append((cv, l))
        for cv, l in cases:
            out.append(f'if ({v} == {cv} if type({v}) is int else cx.decide(icmp("eq",{v},{cv},{ty[1]}))):')
            self.goto(l, out, ' ')
        self.goto(dl, out)

    def i_unreachable(self, p, d, out, op):
        out.append('raise PathAbort("unreachable")')

    # ---- integer binary
    def binop(self, p, d, out, op):
        flags = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): flags.append(p.next())
        ty = p.type(); a = self.operand(p, ty); p.expect(','); b = self.operand(p, ty)
        if ty[0] == 'vec':
            out.append(f'{d} = vecbin({op!r}, {a}, {b}, {ty!r})'); return
        n = ty[1]
        if n == 1:
            out.append(f'{d} = b1op({op!r}, {a}, {b})'); return
        M = (1 << n) - 1
        c = self.conc(a, b)
        f = {'add': f'({a}+{b})&{M}', 'sub': f'({a}-{b})&{M}', 'mul': f'({a}*{b})&{M}', 'and': f'{a}&{b}', 'or': f'{a}|{b}',
             'xor': f'{a}^{b}', 'shl': f'({a}<<{b})&{M}', 'lshr': f'{a}>>{b}', 'udiv': f'udivc({a},{b})', 'urem': f'uremc({a},{b})'}.get(op)
        if f is None:
            out.append(f'{d} = ibin({op!r}, {a}, {b}, {n})')
        elif c == 'True':
            out.append(f'{d} = {f}')
        else:
            out.append(f'{d} = {f} if {c} else ibin({op!r}, {a}, {b}, {n})')
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = i_ashr = i_udiv = i_sdiv = i_urem = i_srem = binop

    # ---- float
    def fbin(self, p, d, out, op):
        while p.peek() in ATTR0: p.next()
        ty = p.type(); a = self.operand(p, ty); p.expect(','); b = self.operand(p, ty)
        if ty != ('d',):
            raise Unsupported(f'{op} {ty}')
        if op == 'fdiv':
            out.append(f'{d} = fdiv(cx,{a},{b})'); return
        c = self.concf(a, b)
        o = {'fadd': '+', 'fsub': '-', 'fmul': '*'}[op]
        if c == 'True':
            out.append(f'{d} = {a}{o}({b})')
        else:
            out.append(f'{d} = {a}{o}({b}) if {c} else {op}({a},{b})')
    i_fadd = i_fsub = i_fmul = i_fdiv = fbin

    def i_fneg(self, p, d, out, op):
        while p.peek() in ATTR0: p.next()
        ty = p.type(); a = self.operand(p, ty)
        out.append(f'{d} = fneg({a})')

    def i_fcmp(self, p, d, out, op):
        while p.peek() in ATTR0: p.next()
        pr = p.next(); ty = p.type(); a = self.operand(p, ty); p.expect(','); b = self.operand(p, ty)
        out.append(f'{d} = fcmp({pr!r}, {a}, {b})')

    def i_icmp(self, p, d, out, op):
        while p.peek() == 'samesign': p.next()
        pr = p.next(); ty = p.type(); a = self.operand(p, ty); p.expect(','); b = self.operand(p, ty)
        if ty[0] == 'vec':
            out.append(f'{d} = veccmp({pr!r}, {a}, {b}, {ty!r})'); return
        n = 64 if ty[0] == 'p' else ty[1]
        if n == 1:
            out.append(f'{d} = b1cmp({pr!r}, {a}, {b})'); return
        c = self.conc(a, b)
        if pr[0] == 's':
            x = f'icmp({pr!r},{a},{b},{n})'
            out.append(f'{d} = {x}')
        else:
            e = f'{a}{CMP[pr]}{b}'
            out.append(f'{d} = {e} if {c} else icmp({pr!r},{a},{b},{n})')

    def i_select(self, p, d, out, op):
        while p.peek() in ATTR0: p.next()
        ct = p.type(); c = self.operand(p, ct); p.expect(',')
        t1 = p.type(); a = self.operand(p, t1); p.expect(','); p.type(); b = self.operand(p, t1)
        if ct[0] == 'vec':
            raise Unsupported('vector select')
        out.append(f'{d} = ({a} if {c} else {b}) if type({c}) is bool else select(cx,{c},{a},{b},{t1[0]!r})')

    # ---- casts
    def cast(self, p, d, out, op):
        while p.peek() in ('nuw', 'nsw', 'nneg', 'samesign'): p.next()
        t1 = p.type(); a = self.operand(p, t1); p.expect('to'); t2 = p.type()
        out.append(f'{d} = cast({op!r},{a},{t1!r},{t2!r})')
    i_zext = i_sext = i_trunc = i_bitcast = i_ptrtoint = i_inttoptr = i_uitofp = i_sitofp = i_fptosi = i_fptoui = i_fpext = i_fptrunc = cast
    i_ptrtoaddr = cast

    def i_freeze(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t)
        out.append(f'{d} = {a}')

    # ---- memory
    def i_alloca(self, p, d, out, op):
        t = p.type()
        n = sizeof(t)
        out.append(f'{d} = cx.alloc({n}, 16)')

    def i_load(self, p, d, out, op):
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); p.expect(','); p.type(); a = self.operand(p, ('p',))
        out.append(f'{d} = {self.loadx(a, t)}')

    def loadx(self, a, t):
        k = t[0]
        if k == 'd': return f'ldf(cx,{a})'
        if k == 'p' or t == ('i', 64): return f'ld8(cx,{a})'
        return f'ldt(cx,{a},{t!r})'

    def i_store(self, p, d, out, op):
        while p.peek() in ('volatile', 'atomic'): p.next()
        t = p.type(); v = self.operand(p, t); p.expect(','); p.type(); a = self.operand(p, ('p',))
        if t[0] in 'dp' or t == ('i', 64):
            out.append(f'st8(cx,{a},{v})')
        else:
            out.append(f'stt(cx,{a},{v},{t!r})')

    def i_getelementptr(self, p, d, out, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); p.type(); base = self.operand(p, ('p',))
        off = 0; terms = []
        cur = bt; first = True
        while p.eat(','):
            it = p.type()
            if p.peek()[0] == '%':
                iv = self.operand(p, it); cst = None
            else:
                cst = self.constval(p, it); n = it[1]
                if cst >= 1 << (n - 1): cst -= 1 << n
            if first:
                sz = sizeof(bt); first = False
            elif cur[0] == 'st':
                off += field_off(cur, cst); cur = cur[1][cst]
                continue
            else:
                sz = sizeof(cur[2]); cur = cur[2]
            if cst is not None:
                off += cst * sz
            else:
                terms.append((iv, sz, it[1]))
        M = (1 << 64) - 1
        if not terms:
            out.append(f'{d} = ({base}+{off})&{M} if type({base}) is int else gep(cx,{base},{off},())')
        else:
            c = self.conc(base, *[t[0] for t in terms])
            if all(t[2] == 64 for t in terms):
                e = '+'.join([base] + [f'{iv}*{sz}' if sz != 1 else iv for iv, sz, _ in terms] + ([str(off)] if off else []))
                e = e.replace('+-', '-')
                tt = '(' + ''.join(f'({iv},{sz}),' for iv, sz, _ in terms) + ')'
                out.append(f'{d} = ({e})&{M} if {c} else gep(cx,{base},{off},{tt})')
            else:
                raise Unsupported('gep idx width')

    def i_extractvalue(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t)
        e = a
        while p.eat(','): e += f'[{p.next()}]'
        out.append(f'{d} = {e}')

    def i_insertvalue(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t); p.expect(',')
        vt = p.type(); v = self.operand(p, vt)
        idx = []
        while p.eat(','): idx.append(int(p.next()))
        out.append(f'{d} = insval({a}, {v}, {tuple(idx)!r})')

    def i_extractelement(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t); p.expect(','); it = p.type(); i = self.operand(p, it)
        out.append(f'{d} = {a}[{i}]')

    def i_insertelement(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t); p.expect(','); vt = p.type(); v = self.operand(p, vt); p.expect(',')
        it = p.type(); i = self.operand(p, it)
        out.append(f'{d} = insval({a}, {v}, ({i},))')

    def i_shufflevector(self, p, d, out, op):
        t = p.type(); a = self.operand(p, t); p.expect(','); t2 = p.type(); b = self.operand(p, t2); p.expect(',')
        mt = p.type(); m = self.constval(p, mt)
        out.append(f'{d} = shuf({a},{b},{m!r})')

    # ---- calls
    def i_tail(self, p, d, out, op):
        p.expect('call')
        self.i_call(p, d, out, op)
    i_musttail = i_notail = i_tail

    def i_call(self, p, d, out, op):
        p.skip_attrs()
        rt = p.type()
        p.skip_attrs()
        if p.peek() == '(':   # function type, varargs
            p.parens()
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.next()
        p.expect('(')
        args = []; atys = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t == ('md',):
                    while p.peek() not in (',', ')'):
                        if p.peek() == '(':
                            p.parens()
                        else:
                            p.next()
                    args.append('None')
                else:
                    p.skip_attrs()
                    args.append(self.operand(p, t)); atys.append(t)
                if p.eat(')'): break
                p.expect(',')
        if callee[0] == '%':
            e = f'cx.eng.by_addr(cx,{self.reg(callee)})(cx{"".join(", " + a for a in args)})'
            out.append(f'{d} = {e}' if d else e)
            return
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            self.intrinsic(name, args, atys, rt, d, out)
            return
        ref = self.eng.fnref(self.mod, name)
        k = f'g{len(self.env)}'
        self.env[k] = ref
        e = f'{k}.py(cx{"".join(", " + a for a in args)})'
        out.append(f'{d} = {e}' if d else e)

    def intrinsic(self, name, a, atys, rt, d, out):
        b = name[5:]
        if b.startswith(('lifetime', 'experimental.noalias', 'dbg', 'invariant', 'prefetch', 'va_')):
            if d: out.append(f'{d} = 0')
            return
        if b.startswith('assume'):
            return
        if b == 'trap':
            out.append('raise PathAbort("trap")'); return
        if b.startswith('memcpy') or b.startswith('memmove'):
            out.append(f'memcpy(cx,{a[0]},{a[1]},{a[2]})'); return
        if b.startswith('memset'):
            out.append(f'memset(cx,{a[0]},{a[1]},{a[2]})'); return
        if b.startswith('threadlocal.address'):
            out.append(f'{d} = {a[0]}'); return
        if b.startswith('expect'):
            out.append(f'{d} = {a[0]}'); return
        if b.startswith('is.constant'):
            out.append(f'{d} = False'); return
        base = b.split('.f64')[0]
        fl = {'sqrt': 'fsqrt', 'exp': 'fexp', 'exp2': 'fexp2', 'exp10': 'fexp10', 'log': 'flog', 'log2': 'flog2', 'log10': 'flog10', 'pow': 'fpow', 'fabs': 'fabs_', 'fma': 'ffma', 'fmuladd': 'ffma',
              'maximumnum': 'fmax', 'minimumnum': 'fmin', 'maxnum': 'fmax', 'minnum': 'fmin', 'maximum': 'fmax', 'minimum': 'fmin', 'round': 'fround',
              'floor': 'ffloor', 'ceil': 'fceil', 'trunc': 'ftrunc', 'rint': 'frint', 'roundeven': 'frint', 'nearbyint': 'frint',
              'powi': 'fpowi', 'copysign': 'fcopysign', 'sin': 'fsin', 'cos': 'fcos', 'tanh': 'ftanh'}
        if base in fl and '.f64' in b:
            out.append(f'{d} = {fl[base]}(cx,{",".join(a)})'); return
        if b.startswith('fptosi.sat') or b.startswith('fptoui.sat'):
            out.append(f'{d} = fptoi_sat(cx,{a[0]},{b[2:6] == "tosi"!r},{rt[1]})'); return
        if 'with.overflow' in b:
            op = b.split('.')[0]
            out.append(f'{d} = ovf({op!r},{a[0]},{a[1]},{atys[0][1]})'); return
        if b.split('.')[0] in ('umin', 'umax', 'smin', 'smax'):
            out.append(f'{d} = iminmax(cx,{b.split(".")[0]!r},{a[0]},{a[1]},{rt[1]})'); return
        if b.startswith(('usub.sat', 'uadd.sat')):
            out.append(f'{d} = isat({b[:4]!r},{a[0]},{a[1]},{rt[1]})'); return
        if b.startswith(('ucmp', 'scmp')):
            out.append(f'{d} = cmp3(cx,{b[:4]!r},{a[0]},{a[1]},{atys[0][1]},{rt[1]})'); return
        if b.split('.')[0] in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr', 'abs'):
            out.append(f'{d} = bitint({b.split(".")[0]!r},({",".join(a)},),{rt[1]})'); return
        raise Unsupported('intrinsic ' + name)
