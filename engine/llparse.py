"""Parser for the textual LLVM IR rustc emits. Function bodies are parsed on first use.

Values: int (unsigned), Undef, Reg(str subclass), tuple (aggregate). Global/function references
become `Sym(name)` at parse time and are turned into concrete addresses by the Program (irsym).
"""
import re

TOK = re.compile(r'''
  (?P<cstr>c"(?:[^"\\]|\\.)*") |
  (?P<reg>%(?:"[^"]*"|[-\w.$]+)) |
  (?P<glob>@(?:"[^"]*"|[-\w.$]+)) |
  (?P<str>"(?:[^"\\]|\\.)*") |
  (?P<meta>!(?:[\w.]+|(?=[({"]))) |
  (?P<attr>\#\d+) |
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+) |
  (?P<flt>-?\d+\.\d+(?:e[+-]?\d+)?) |
  (?P<num>-?\d+) |
  (?P<dots>\.\.\.) |
  (?P<word>[A-Za-z_][\w.]*) |
  (?P<punct>[\[\](){}<>,=*:|])
''', re.X)


class Reg(str):
    __slots__ = ()


class Sym(str):
    __slots__ = ()


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Unsupported(Exception):
    pass


# ---- types -------------------------------------------------------------------------------------
# ('i',n) ('ptr',) ('f',bits) ('arr',n,t) ('st',(ts),packed) ('void',)
PTR = ('ptr',)
VOID = ('void',)


def sizeof(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        b = (n + 7) // 8
        return b if n <= 64 else (b + 15) // 16 * 16
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return t[1] * sizeof(t[2])
    if k == 'st':
        o = 0
        for e in t[1]:
            if not t[2]:
                a = alignof(e)
                o = (o + a - 1) // a * a
            o += sizeof(e)
        if not t[2]:
            a = alignof(t)
            o = (o + a - 1) // a * a
        return o
    raise Unsupported('sizeof %r' % (t,))


def storesize(t):
    return (t[1] + 7) // 8 if t[0] == 'i' else sizeof(t)


def alignof(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
    if k == 'ptr':
        return 8
    if k == 'f':
        return t[1] // 8
    if k == 'arr':
        return alignof(t[2])
    if k == 'st':
        return 1 if t[2] else max([alignof(e) for e in t[1]] or [1])
    raise Unsupported('alignof %r' % (t,))


def field_off(t, i):
    if t[0] == 'arr':
        return i * sizeof(t[2]), t[2]
    o = 0
    for j, e in enumerate(t[1]):
        if not t[2]:
            a = alignof(e)
            o = (o + a - 1) // a * a
        if j == i:
            return o, e
        o += sizeof(e)
    raise Unsupported('field')


def bits(t):
    k = t[0]
    if k in ('i', 'f'):
        return t[1]
    if k == 'ptr':
        return 64
    raise Unsupported('bits of %r' % (t,))


VALWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'ptrtoint', 'inttoptr',
            'bitcast', 'add', 'sub', 'trunc', 'splat', 'asm'}
TYPEWORDS = {'ptr', 'void', 'double', 'float', 'half', 'fp128', 'x86_fp80', 'metadata', 'label', 'token', 'opaque'}
INT = re.compile(r'^i\d+$')


NAMED = {}     # named types, set while a module's text is being parsed


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, s):
        self.t = [m.group(0) for m in TOK.finditer(s)]
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('parse: expected %r at %r in %r' % (x, self.peek(), ' '.join(self.t)[:300]))

    def skip_paren(self):
        self.need('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def is_type(self):
        x = self.peek()
        return bool(INT.match(x)) or x in TYPEWORDS or x in ('{', '[', '<') or x in NAMED

    def type(self):
        x = self.next()
        if INT.match(x):
            t = ('i', int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_paren()
        elif x == 'void':
            t = VOID
        elif x == 'double':
            t = ('f', 64)
        elif x == 'float':
            t = ('f', 32)
        elif x == 'half':
            t = ('f', 16)
        elif x == 'fp128':
            t = ('f', 128)
        elif x == 'label':
            t = ('label',)
        elif x == 'metadata':
            t = ('metadata',)
        elif x == '{':
            t = self._struct('}', False)
        elif x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = ('arr', n, e)
        elif x == '<':
            if self.eat('{'):
                t = self._struct('}', True)
                self.need('>')
            else:
                raise Unsupported('vector type')
        elif x in NAMED:
            t = NAMED[x]
            if isinstance(t, str):
                q = P(t)
                t = NAMED[x] = q.type()
        else:
            raise Unsupported('type %r in %r' % (x, ' '.join(self.t)[:200]))
        return t

    def _struct(self, end, packed):
        ts = []
        if not self.eat(end):
            while True:
                ts.append(self.type())
                if self.eat(end):
                    break
                self.need(',')
        return ('st', tuple(ts), packed)

    def attrs(self):
        """skip parameter attributes; return dict of the interesting ones"""
        out = {}
        while True:
            x = self.peek()
            if x and x[0].isalpha() and x not in VALWORDS and not x.startswith('c"') or x.startswith('"') or x.startswith('#'):
                self.next()
                if x == 'align' and self.peek().isdigit():
                    out['align'] = int(self.next())
                elif x in ('sret', 'byval'):
                    if self.eat('('):
                        out[x] = self.type()
                        self.need(')')
                elif self.peek() == '(':
                    self.skip_paren()
                else:
                    out[x] = True
            else:
                return out

    def value(self, t):
        x = self.next()
        c = x[0]
        if c == '%':
            return Reg(x)
        if c == '@':
            return Sym(x)
        if c == '-' or c.isdigit():
            if t[0] == 'f':
                return fconst(x, t[1])
            return int(x, 0) & ((1 << bits(t)) - 1)
        if x == 'true':
            return 1
        if x == 'false' or x == 'null' or x == 'none':
            return 0
        if x in ('undef', 'poison'):
            return UNDEF if t[0] not in ('st', 'arr') else undef_of(t)
        if x == 'zeroinitializer':
            return zero_of(t)
        if x.startswith('c"'):
            return tuple(cbytes(x))
        if x in ('[', '{', '<'):
            if x == '<':
                self.need('{')
                end = '}'
            else:
                end = ']' if x == '[' else '}'
            vs = []
            if not self.eat(end):
                while True:
                    et = self.type()
                    self.attrs()
                    vs.append(self.value(et))
                    if self.eat(end):
                        break
                    self.need(',')
            if x == '<':
                self.need('>')
            return tuple(vs)
        if x == 'getelementptr':
            self.attrs_gep()
            self.need('(')
            bt = self.type()
            self.need(',')
            pt = self.type()
            base = self.value(pt)
            off = 0
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append(self.value(it))
            self.need(')')
            cur = bt
            for n, v in enumerate(idx):
                if v >= 1 << 63:
                    v -= 1 << 64
                if n == 0:
                    off += v * sizeof(bt)
                else:
                    o, cur = field_off(cur, v)
                    off += o
            return ('gepc', base, off)
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            self.need('(')
            ft = self.type()
            v = self.value(ft)
            self.need('to')
            self.type()
            self.need(')')
            return v
        raise Unsupported('value %r in %r' % (x, ' '.join(self.t)[:200]))

    def attrs_gep(self):
        while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            self.next()
            if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                self.skip_paren()

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def fconst(x, n):
    import struct
    if x.startswith('0x'):
        if x[2] in 'KLMHR':
            return int(x[3:], 16)
        v = int(x, 16)
        if n == 64:
            return v
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
        return int.from_bytes(struct.pack('<f', d), 'little')
    return int.from_bytes(struct.pack('<d' if n == 64 else '<f', float(x)), 'little')


def cbytes(x):
    s = x[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def zero_of(t):
    if t[0] == 'arr':
        return (zero_of(t[2]),) * t[1]
    if t[0] == 'st':
        return tuple(zero_of(e) for e in t[1])
    return 0


def undef_of(t):
    if t[0] == 'arr':
        return (undef_of(t[2]),) * t[1]
    if t[0] == 'st':
        return tuple(undef_of(e) for e in t[1])
    return UNDEF


class Func:
    __slots__ = ('name', 'mod', 'params', 'lines', 'blocks', 'entry', 'ret', 'nounwind', 'sret')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.blocks = None


class Module:
    def __init__(self, path):
        self.path = path
        self.defs = {}      # name -> (line index of define)
        self.globals = {}   # name -> line
        self.decls = {}     # name -> line
        self.attrs = {}
        self.local = set()
        self.types = {}
        with open(path, errors='surrogateescape') as f:
            self.lines = f.read().split('\n')
        nm = re.compile(r'@("[^"]*"|[-\w.$]+)')
        for i, l in enumerate(self.lines):
            if not l:
                continue
            c = l[0]
            if c == 'd':
                if l.startswith('define'):
                    n = nm.search(l).group(0)
                    self.defs[n] = i
                    if ' internal ' in l[:40] or ' private ' in l[:40]:
                        self.local.add(n)
                elif l.startswith('declare'):
                    n = nm.search(l).group(0)
                    self.decls[n] = l
            elif c == '@':
                n = l[:l.index(' ')]
                self.globals[n] = l
                if ' private ' in l[:len(n) + 20] or ' internal ' in l[:len(n) + 20]:
                    self.local.add(n)
            elif c == '%' and ' = type ' in l:
                k, v = l.split(' = type ', 1)
                self.types[k] = v
            elif c == 'a' and l.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)

    def noreturn(self, name):
        l = self.decls.get(name)
        if not l:
            return False
        m = re.findall(r'#\d+', l)
        return any('noreturn' in self.attrs.get(a, '') for a in m)

    def func(self, name):
        global NAMED
        NAMED = self.types
        i = self.defs[name]
        f = Func(name, self)
        p = P(self.lines[i])
        # define [linkage] [attrs] ret @name(params) ...
        p.need('define')
        while not p.is_type():
            x = p.next()
            if p.peek() == '(':
                p.skip_paren()
            elif x == 'align':
                p.next()
        f.ret = p.type()
        while not p.peek().startswith('@'):
            p.next()
        p.next()
        p.need('(')
        f.params = []
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    t = p.type()
                    p.attrs()
                    f.params.append((Reg(p.next()), t))
                if p.eat(')'):
                    break
                p.need(',')
        f.blocks = {}
        cur = None
        i += 1
        lines = self.lines
        while True:
            l = lines[i]
            if l == '}':
                break
            if not l or l[0] == ';':
                i += 1
                continue
            if l[0] != ' ':
                lab = '%' + l[:l.index(':')]
                cur = []
                f.blocks[lab] = cur
                if len(f.blocks) == 1:
                    f.entry = lab
            else:
                s = l.strip()
                op = s
                if ' = ' in s and s[0] == '%':
                    op = s.split(' = ', 1)[1]
                if op.startswith('switch'):
                    while not lines[i].strip().startswith(']'):
                        i += 1
                        s += ' ' + lines[i].strip()
                elif op.startswith('invoke'):
                    i += 1
                    s += ' ' + lines[i].strip()
                elif op.startswith('landingpad'):
                    while lines[i + 1].strip().startswith(('cleanup', 'catch', 'filter')):
                        i += 1
                        s += ' ' + lines[i].strip()
                cur.append(parse_ins(s))
            i += 1
        return f


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc', 'freeze'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'samesign', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'reassoc', 'afn', 'arcp'}


def parse_ins(s):
    """-> (op, dest|None, ...)"""
    try:
        return _ins(s)
    except (Unsupported, IndexError, ValueError, KeyError) as e:
        return ('unsupported', None, '%s: %s' % (e, s[:200]))


def _ins(s):
    p = P(s)
    d = None
    if p.peek().startswith('%') and p.peek(1) == '=':
        d = Reg(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'notail', 'musttail'):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.need(',')
        return ('bin', d, op, t, a, p.value(t), frozenset(fl))
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.need(',')
        pt = p.type()
        a = p.value(pt)
        al = 1
        while p.t[p.i:] and p.peek():
            if p.next() == 'align':
                al = int(p.next())
                break
        return ('load', d, t, a, al)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        v = p.value(t)
        p.need(',')
        pt = p.type()
        a = p.value(pt)
        al = 1
        while p.peek():
            if p.next() == 'align':
                al = int(p.next())
                break
        return ('store', None, t, v, a, al)
    if op == 'getelementptr':
        p.attrs_gep()
        bt = p.type()
        p.need(',')
        pt = p.type()
        a = p.value(pt)
        steps = []
        const = 0
        cur = bt
        n = 0
        while p.eat(','):
            if p.peek().startswith('!'):
                break
            it = p.type()
            v = p.value(it)
            if n == 0:
                sz = sizeof(bt)
            else:
                if isinstance(v, int):
                    o, cur = field_off(cur, v)
                    const += o
                    n += 1
                    continue
                cur = cur[2]
                sz = sizeof(cur)
            if isinstance(v, int):
                w = bits(it)
                if v >> (w - 1):
                    v -= 1 << w
                const += v * sz
            else:
                steps.append((v, bits(it), sz))
            n += 1
        return ('gep', d, a, const, tuple(steps))
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        al = alignof(t)
        n = 1
        while p.eat(','):
            if p.eat('align'):
                al = int(p.next())
            elif p.is_type():
                it = p.type()
                n = p.value(it)
        return ('alloca', d, sizeof(t) * n, al)
    if op == 'br':
        if p.eat('label'):
            return ('jmp', None, p.next())
        p.need('i1')
        c = p.value(('i', 1))
        p.need(',')
        p.need('label')
        a = p.next()
        p.need(',')
        p.need('label')
        return ('br', None, c, a, p.next())
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        df = p.next()
        p.need('[')
        cs = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.need(',')
            p.need('label')
            cs.append((cv, p.next()))
        return ('switch', None, t, v, df, tuple(cs), dict(cs))
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS:
            p.next()
        while not p.is_type():
            x = p.next()
            if x == 'align':
                p.next()
            elif p.peek() == '(':
                p.skip_paren()
        rt = p.type()
        if p.peek() == '(':     # function type (varargs)
            p.skip_paren()
        if p.peek() == 'asm':
            return ('asm', d, rt)
        callee = p.value(PTR)
        p.need('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                if t[0] == 'metadata':
                    raise Unsupported('metadata arg')
                p.attrs()
                args.append((t, p.value(t)))
                if p.eat(')'):
                    break
                p.need(',')
        if op == 'call':
            return ('call', d, rt, callee, tuple(args), None, None)
        nrm = unw = None
        while p.peek():
            if p.next() == 'label':
                if nrm is None:
                    nrm = p.next()
                else:
                    unw = p.next()
                    break
        return ('call', d, rt, callee, tuple(args), nrm, unw)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, None)
        return ('ret', None, p.value(t))
    if op == 'icmp':
        p.eat('samesign')
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        return ('icmp', d, c, t, a, p.value(t))
    if op == 'fcmp':
        while p.peek() in FLAGS:
            p.next()
        c = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        return ('fcmp', d, c, t, a, p.value(t))
    if op in CAST:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        v = p.value(t)
        if op == 'freeze':
            return ('cast', d, op, t, v, t, frozenset())
        p.need('to')
        return ('cast', d, op, t, v, p.type(), frozenset(fl))
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        p.type()
        c = p.value(('i', 1))
        p.need(',')
        t, a = p.tv()
        p.need(',')
        _, b = p.tv()
        return ('select', d, c, t, a, b)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = {}
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            inc[p.next()] = v
            p.need(']')
            if not p.eat(','):
                break
            if p.peek().startswith('!'):
                break
        return ('phi', d, t, inc)
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.eat(','):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        return ('extract', d, v, tuple(idx))
    if op == 'insertvalue':
        t = p.type()
        a = p.value(t)
        p.need(',')
        et = p.type()
        v = p.value(et)
        idx = []
        while p.eat(','):
            if not p.peek().isdigit():
                break
            idx.append(int(p.next()))
        return ('insert', d, a, v, tuple(idx))
    if op == 'landingpad':
        t = p.type()
        return ('lpad', d, 'filter' if 'filter' in p.t else 'catch' if 'catch' in p.t else 'cleanup')
    if op == 'resume':
        return ('resume', None)
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'fneg':
        t = p.type()
        return ('bin', d, 'fneg', t, p.value(t), 0, frozenset())
    if op in ('fence',):
        return ('nop', None)
    if op == 'atomicrmw':
        p.eat('volatile')
        how = p.next()
        pt = p.type()
        a = p.value(pt)
        p.need(',')
        t = p.type()
        return ('rmw', d, how, a, t, p.value(t))
    if op == 'cmpxchg':
        while p.peek() in ('weak', 'volatile'):
            p.next()
        pt = p.type()
        a = p.value(pt)
        p.need(',')
        t = p.type()
        e = p.value(t)
        p.need(',')
        p.type()
        return ('cmpxchg', d, a, t, e, p.value(t))
    raise Unsupported('instruction ' + op)
