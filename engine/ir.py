"""LLVM IR (textual) front end: splits modules lazily, parses functions and
translates each of them to a Python function over concrete-or-symbolic values.

Nothing here knows about skillratings: it executes whatever rustc emitted."""
import re, struct

TOK = re.compile(r'''
    c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*"      |
    [@%]"(?:[^"\\]|\\.)*"                      |
    [@%][-a-zA-Z$._0-9]+                       |
    "(?:[^"\\]|\\.)*"                          |
    ![a-zA-Z0-9_.]*                            |
    \#\d+                                      |
    -?\d+\.\d+(?:e[+-]?\d+)?                   |
    0x[KLMHR]?[0-9A-Fa-f]+                     |
    f0x[0-9A-Fa-f]+                            |
    -?\d+                                      |
    [a-zA-Z_][a-zA-Z0-9_.]*                    |
    \.\.\.                                     |
    [<>\[\]{}(),=*:|]
''', re.X)


class Unsupported(Exception):
    pass


def toks(s):
    return TOK.findall(s)


# ---------------------------------------------------------------- types
# ('i',n) ('d',) ('f',) ('p',) ('v',) ('arr',n,T) ('st',(T..),packed) ('vec',n,T)
class P:
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, t, mod):
        self.t = t; self.i = 0; self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if x != y:
            raise Unsupported(f'parse: expected {x} got {y} in {" ".join(self.t)[:300]}')

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x == 'double': return ('d',)
        if x == 'float': return ('f',)
        if x == 'ptr': return ('p',)
        if x == 'void': return ('v',)
        if x == 'metadata': return ('md',)
        if x == 'label': return ('lb',)
        if x == '[':
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect(']')
            return ('arr', n, t)
        if x == '{':
            ts = []
            if not self.eat('}'):
                while True:
                    ts.append(self.type())
                    if self.eat('}'): break
                    self.expect(',')
            return ('st', tuple(ts), False)
        if x == '<':
            if self.peek() == '{':
                t = self.type(); self.expect('>')
                return ('st', t[1], True)
            n = int(self.next()); self.expect('x'); t = self.type(); self.expect('>')
            return ('vec', n, t)
        if x[0] == '%':
            return self.mod.named_type(x)
        raise Unsupported(f'type {x} in {" ".join(self.t)[:300]}')

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None: return
            if x in ATTR0:
                self.next()
                if self.peek() == '(':
                    self.parens()
            elif x == 'align':
                self.next()
                if self.eat('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif x in ATTRP:
                self.next()
                if self.peek() == '(': self.parens()
            elif x[0] == '#' or (x[0] == '"'):
                self.next()
                if self.eat('='): self.next()
            else:
                return

    def parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1


ATTR0 = set('noundef nonnull noalias nofree nocapture readonly readnone writeonly writable zeroext signext inreg '
            'immarg returned dead_on_unwind allocptr allocalign swiftself nest noext dead_on_return '
            'nounwind willreturn mustprogress cold noreturn nocallback nosync speculatable alwaysinline '
            'unnamed_addr local_unnamed_addr dso_local fastcc ccc coldcc preserve_mostcc preserve_allcc '
            'nnan ninf nsz arcp contract afn reassoc fast hidden internal private external weak linkonce_odr available_externally noinline'.split())
ATTRP = set('captures dereferenceable dereferenceable_or_null sret byval range initializes memory nofpclass elementtype allocsize '
            'byref inalloca preallocated vscale_range'.split())


def sizeof(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k in 'dp': return 8
    if k == 'f': return 4
    if k == 'arr': return t[1] * sizeof(t[2])
    if k == 'vec': return t[1] * sizeof(t[2])
    if k == 'st':
        o = 0
        for x in t[1]:
            if not t[2]:
                a = alignof(x); o = (o + a - 1) // a * a
            o += sizeof(x)
        if not t[2]:
            a = alignof(t); o = (o + a - 1) // a * a
        return o
    raise Unsupported(f'sizeof {t}')


def alignof(t):
    k = t[0]
    if k == 'i': return sizeof(t)
    if k in 'dp': return 8
    if k == 'f': return 4
    if k == 'arr': return alignof(t[2])
    if k == 'vec': return sizeof(t)
    if k == 'st':
        return 1 if t[2] or not t[1] else max(alignof(x) for x in t[1])
    raise Unsupported(f'align {t}')


def field_off(t, i):
    o = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = alignof(x); o = (o + a - 1) // a * a
        if j == i: return o
        o += sizeof(x)
    raise Unsupported('field')


def fconst(s):
    if s.startswith('f0x'):
        s = s[1:]
    if s.lstrip('+-') in ('inf', 'Inf'): return float(s)
    if 'nan' in s: return float('nan')
    if s.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0]
    return float(s)


def cstr(s):
    # s includes c"..."
    b = bytearray(); i = 2; e = len(s) - 1
    while i < e:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                b.append(92); i += 2
            else:
                b.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            b.append(ord(c)); i += 1
    return bytes(b)


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'mod', 'header', 'body', 'py', 'ninstr', 'src')


class Module:
    def __init__(self, path, prefix):
        self.path = path
        self.prefix = prefix
        self.types_raw = {}
        self.types = {}
        self.globals_raw = {}
        self.defs = {}
        self.decls = set()
        self._load()

    def _load(self):
        cur = None
        with open(self.path) as f:
            for line in f:
                if cur is not None:
                    if line.startswith('}'):
                        cur = None
                    else:
                        cur.append(line)
                    continue
                c = line[0]
                if c == 'd':
                    if line.startswith('define'):
                        nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line).group(1)
                        cur = []
                        self.defs[nm] = (line, cur)
                    elif line.startswith('declare'):
                        nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line).group(1)
                        self.decls.add(nm)
                elif c == '%':
                    nm, rest = line.split(' = type ', 1)
                    self.types_raw[nm] = rest
                elif c == '@':
                    nm, rest = line.split(' = ', 1)
                    self.globals_raw[nm[1:]] = rest

    def named_type(self, nm):
        if nm not in self.types:
            self.types[nm] = P(toks(self.types_raw[nm]), self).type()
        return self.types[nm]


def strip_meta(s):
    i = s.find(', !')
    if i >= 0:
        s = s[:i]
    return s


def parse_function(mod, name):
    header, body = mod.defs[name]
    f = Func()
    f.name = name; f.mod = mod; f.py = None
    t = P(toks(header), mod)
    t.expect('define')
    t.skip_attrs()
    f.ret = t.type()
    t.skip_attrs()
    t.next()  # @name
    t.expect('(')
    f.params = []
    if not t.eat(')'):
        while True:
            ty = t.type()
            t.skip_attrs()
            f.params.append((ty, t.next()))
            if t.eat(')'): break
            t.expect(',')
    # blocks
    blocks = []
    cur = None
    pend = None
    for raw in body:
        line = raw.rstrip('\n')
        if not line.strip() or line.lstrip().startswith(';'):
            continue
        if line[0] != ' ':
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            if not m: raise Unsupported('label ' + line)
            cur = ('%' + m.group(1), [])
            blocks.append(cur)
            continue
        if cur is None:
            cur = ('%entry#', [])
            blocks.append(cur)
        s = line.strip()
        if pend is not None:
            pend += ' ' + s
            if s.startswith(']'):
                cur[1].append(strip_meta(pend)); pend = None
            continue
        if s.startswith('switch') and s.endswith('['):
            pend = s
            continue
        cur[1].append(strip_meta(s))
    f.blocks = blocks
    return f
