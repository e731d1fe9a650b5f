"""Parse the textual LLVM IR produced by clang/opt into a small instruction list.

The result is used directly by the SMT back end and serialised (to_bytecode) for the
Taylor-model prover.  Anything that is not understood raises Unsupported: the caller turns
that into an *error* of the check, never into a verdict.
"""
import re, struct


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
  c"(?:[^"])*" | "(?:[^"])*" |
  [%@!]"[^"]*" | [%@][-\w.$]+ | ![-\w.]+ | \#\d+ |
  0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ |
  [A-Za-z_][\w.]* | \.\.\. | [()\[\]{}<>,=*!:|]
''', re.X)

ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'returned', 'readonly',
         'writeonly', 'immarg', 'inreg', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'tail',
         'musttail', 'notail', 'fastcc', 'ccc', 'nsz', 'fast', 'nnan', 'ninf', 'arcp', 'contract', 'afn',
         'reassoc', 'inbounds', 'volatile', 'writable', 'readnone', 'inrange', 'nneg', 'disjoint', 'dead_on_unwind',
         'linkonce_odr', 'internal', 'weak', 'weak_odr', 'linkonce', 'private', 'external', 'hidden',
         'available_externally', 'common', 'samesign', 'nuw', 'nsw', 'exact'}
FASTMATH = {'nsz', 'fast', 'nnan', 'ninf', 'arcp', 'contract', 'afn', 'reassoc'}


class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        return f'{self.k}{self.a if self.a is not None else ""}'


class Mod:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}

    # ---- data layout (x86-64) ----
    def resolve(self, t):
        while t.k == 'named':
            if t.a not in self.types or self.types[t.a] is None:
                raise Unsupported('opaque type ' + t.a)
            t = self.types[t.a]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a) or 8
        if t.k in ('float',):
            return 4
        if t.k in ('double', 'ptr'):
            return 8
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'arr':
            return self.align(t.b)
        if t.k == 'struct':
            return 1 if t.b else max([self.align(x) for x in t.a] or [1])
        if t.k == 'vec':
            return self.size(t)
        raise Unsupported('align of ' + t.k)

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'i':
            return max(1, (t.a + 7) // 8)
        if t.k == 'float':
            return 4
        if t.k in ('double', 'ptr'):
            return 8
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'arr':
            return t.a * self.size(t.b)
        if t.k == 'vec':
            return t.a * self.size(t.b)
        if t.k == 'struct':
            off = 0
            for x in t.a:
                if not t.b:
                    al = self.align(x)
                    off = (off + al - 1) // al * al
                off += self.size(x)
            if not t.b:
                al = self.align(t)
                off = (off + al - 1) // al * al
            return off
        raise Unsupported('size of ' + t.k)

    def field(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, x in enumerate(t.a):
            if not t.b:
                al = self.align(x)
                off = (off + al - 1) // al * al
            if j == i:
                return off, x
            off += self.size(x)
        raise Unsupported('field index')


class P:
    """token cursor"""

    def __init__(self, mod, s):
        self.m = mod
        self.s = s
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise Unsupported('unexpected end: ' + self.s)
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported(f'expected {x!r} in: {self.s} at {self.t[self.i:self.i + 4]}')

    def skip_attrs(self):
        seen = set()
        while True:
            x = self.peek()
            if x in ATTRS:
                seen.add(x)
                self.i += 1
            elif x in ('align', 'addrspace') and self.peek(1) and re.match(r'^\d+$', self.peek(1)):
                self.i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'range', 'memory',
                       'captures', 'initializes', 'nofpclass', 'elementtype', 'allocsize', 'comdat') and self.peek(1) == '(':
                if x == 'byval':
                    seen.add('byval')
                self.i += 1
                d = 0
                while True:
                    y = self.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            elif x is not None and x.startswith('#'):
                self.i += 1
            else:
                return seen

    def type(self):
        x = self.next()
        t = None
        if re.match(r'^i\d+$', x):
            t = Ty('i', int(x[1:]))
        elif x in ('float', 'double', 'ptr', 'void', 'x86_fp80', 'label', 'metadata', 'token'):
            t = Ty(x)
            if x == 'ptr' and self.peek() == 'addrspace':
                raise Unsupported('address space')
        elif x.startswith('%'):
            t = Ty('named', x[1:])
        elif x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('arr', n, e)
        elif x == '<' and self.peek() != '{':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need('>')
            t = Ty('vec', n, e)
        elif x == '{' or x == '<':
            packed = x == '<'
            if packed:
                self.need('{')
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.need(',')
            if packed:
                self.need('>')
            t = Ty('struct', fs, packed)
        else:
            raise Unsupported('type ' + x + ' in ' + self.s)
        if self.peek() == '(' and t.k != 'void':
            pass
        return t

    def value(self, t):
        """operand of type t"""
        self.skip_attrs()
        rt = t if t.k in ('label', 'metadata') else self.m.resolve(t)
        x = self.next()
        if x.startswith('%'):
            return ('reg', x[1:])
        if x.startswith('@'):
            return ('ptr', x[1:].strip('"'), 0)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'null':
            return ('null',)
        if x == 'zeroinitializer':
            return self.zero(rt)
        if x in ('true', 'false'):
            return ('int', 1, 1 if x == 'true' else 0)
        if rt.k == 'i':
            if re.match(r'^-?\d+$', x):
                return ('int', rt.a, int(x) & ((1 << rt.a) - 1))
        if rt.k in ('float', 'double'):
            if x.startswith('0x'):
                if x[2] in 'KLMHR':
                    raise Unsupported('fp const ' + x)
                bits = int(x, 16)
                d = struct.unpack('<d', struct.pack('<Q', bits))[0]
            else:
                d = float(x)
                bits = struct.unpack('<Q', struct.pack('<d', d))[0]
            if rt.k == 'double':
                return ('fp', 64, bits)
            if d != d:
                s = bits >> 63
                return ('fp', 32, (s << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff))
            return ('fp', 32, struct.unpack('<I', struct.pack('<f', d))[0])
        if x == 'getelementptr':
            self.skip_attrs()
            self.need('(')
            et = self.type()
            self.need(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(','):
                self.skip_attrs()
                it = self.type()
                idx.append((it, self.value(it)))
            self.need(')')
            off, dyn, _ = gep_offset(self.m, et, idx)
            if dyn or base[0] != 'ptr':
                raise Unsupported('constant gep')
            return ('ptr', base[1], base[2] + off)
        if x in ('[', '{') or x.startswith('c"') or x == '<':
            if x.startswith('c"'):
                by = cstr(x[2:-1])
                return ('agg', [('int', 8, b) for b in by])
            out = []
            if x == '<' and self.peek() == '{':
                self.next()
                close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[x]
            if not self.eat(close):
                while True:
                    et = self.type()
                    out.append(self.value(et))
                    if self.eat(close):
                        break
                    self.need(',')
            if x == '<' and close == '}':
                self.need('>')
            return ('agg', out)
        raise Unsupported('value ' + x + ' in ' + self.s)

    def zero(self, t):
        t = self.m.resolve(t)
        if t.k == 'i':
            return ('int', t.a, 0)
        if t.k == 'double':
            return ('fp', 64, 0)
        if t.k == 'float':
            return ('fp', 32, 0)
        if t.k == 'ptr':
            return ('null',)
        if t.k in ('arr', 'vec'):
            return ('agg', [self.zero(t.b)] * t.a)
        if t.k == 'struct':
            return ('agg', [self.zero(x) for x in t.a])
        raise Unsupported('zero of ' + t.k)


def cstr(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def gep_offset(m, et, idx):
    """returns (constant byte offset, [(operand,scale,width)], final type)"""
    off = 0
    dyn = []
    t = et
    for n, (it, v) in enumerate(idx):
        if n == 0:
            sz = m.size(t)
        else:
            rt = m.resolve(t)
            if rt.k == 'struct':
                if v[0] != 'int':
                    raise Unsupported('struct gep')
                o, t = m.field(rt, v[2])
                off += o
                continue
            if rt.k in ('arr', 'vec'):
                t = rt.b
                sz = m.size(t)
            else:
                raise Unsupported('gep into ' + rt.k)
        if v[0] == 'int':
            x = v[2]
            if x >> (v[1] - 1):
                x -= 1 << v[1]
            off += x * sz
        else:
            dyn.append((v, sz, m.resolve(it).a))
    return off, dyn, t


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (regname, Ty)
        self.ret = None
        self.blocks = {}   # label -> [instr]
        self.order = []


FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
IBIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'zext', 'sext', 'trunc', 'bitcast',
         'ptrtoint', 'inttoptr'}


def strip_md(line):
    # drop comments outside quotes and trailing metadata
    out = []
    q = False
    for ch in line:
        if ch == '"':
            q = not q
        if ch == ';' and not q:
            break
        out.append(ch)
    line = ''.join(out).rstrip()
    line = re.sub(r'(,\s*![\w.]+\s+![\w.]+(\([^)]*\))?)+\s*$', '', line)
    return line


def parse_instr(m, line):
    p = P(m, line)
    dst = None
    if p.peek() and p.peek().startswith('%') and p.peek(1) == '=':
        dst = p.next()[1:]
        p.next()
    pre = p.skip_attrs()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in FBIN:
        fl = p.skip_attrs()
        if fl & FASTMATH:
            raise Unsupported('fast-math flags on ' + line)
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return {'op': op, 'dst': dst, 'ty': t, 'args': [a, b]}
    if op in IBIN:
        fl = p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return {'op': op, 'dst': dst, 'ty': t, 'args': [a, b], 'nsw': 'nsw' in fl, 'nuw': 'nuw' in fl}
    if op == 'fneg' or op == 'freeze':
        fl = p.skip_attrs()
        if fl & FASTMATH:
            raise Unsupported('fast-math flags')
        t = p.type()
        return {'op': op, 'dst': dst, 'ty': t, 'args': [p.value(t)]}
    if op in ('fcmp', 'icmp'):
        fl = p.skip_attrs()
        if fl & FASTMATH:
            raise Unsupported('fast-math flags')
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        b = p.value(t)
        return {'op': op, 'dst': dst, 'pred': pred, 'ty': t, 'args': [a, b]}
    if op in CASTS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.need('to')
        t2 = p.type()
        return {'op': op, 'dst': dst, 'fty': t, 'ty': t2, 'args': [a]}
    if op == 'select':
        p.skip_attrs()
        ct = p.type()
        c = p.value(ct)
        p.need(',')
        t = p.type()
        a = p.value(t)
        p.need(',')
        t = p.type()
        b = p.value(t)
        return {'op': op, 'dst': dst, 'ty': t, 'args': [c, a, b]}
    if op == 'phi':
        p.skip_attrs()
        t = p.type()
        inc = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            l = p.next()[1:]
            p.need(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return {'op': op, 'dst': dst, 'ty': t, 'inc': inc}
    if op == 'br':
        t = p.type()
        if t.k == 'label':
            return {'op': 'br', 'to': p.next()[1:]}
        c = p.value(t)
        p.need(',')
        p.type()
        a = p.next()[1:]
        p.need(',')
        p.type()
        b = p.next()[1:]
        return {'op': 'cbr', 'args': [c], 'to': (a, b)}
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.need(',')
        p.type()
        d = p.next()[1:]
        p.need('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type()
            v = p.value(t2)
            p.need(',')
            p.type()
            cases.append((v, p.next()[1:]))
        return {'op': 'switch', 'args': [c], 'default': d, 'cases': cases}
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return {'op': 'ret', 'args': [], 'ty': t}
        return {'op': 'ret', 'args': [p.value(t)], 'ty': t}
    if op == 'unreachable':
        return {'op': 'unreachable'}
    if op == 'alloca':
        p.skip_attrs()
        t = p.type()
        n = ('int', 64, 1)
        if p.eat(','):
            if p.peek() != 'align':
                it = p.type()
                n = p.value(it)
        if n[0] != 'int':
            raise Unsupported('variable alloca')
        return {'op': 'alloca', 'dst': dst, 'size': m.size(t) * n[2], 'ety': t}
    if op == 'load':
        p.skip_attrs()
        at = p.eat('atomic')
        p.skip_attrs()
        t = p.type()
        p.need(',')
        pt = p.type()
        return {'op': 'aload' if at else 'load', 'dst': dst, 'ty': t, 'args': [p.value(pt)]}
    if op == 'store':
        p.skip_attrs()
        if p.peek() == 'atomic':
            raise Unsupported('atomic')
        t = p.type()
        v = p.value(t)
        p.need(',')
        pt = p.type()
        return {'op': 'store', 'ty': t, 'args': [v, p.value(pt)]}
    if op == 'getelementptr':
        p.skip_attrs()
        et = p.type()
        p.need(',')
        pt = p.type()
        base = p.value(pt)
        idx = []
        while p.eat(','):
            p.skip_attrs()
            it = p.type()
            idx.append((it, p.value(it)))
        off, dyn, _ = gep_offset(m, et, idx)
        return {'op': 'gep', 'dst': dst, 'ty': Ty('ptr'), 'args': [base], 'off': off, 'dyn': dyn}
    if op in ('call', 'invoke'):
        fl = p.skip_attrs()
        if (fl | pre) & FASTMATH:
            raise Unsupported('fast-math flags')
        t = p.type()
        if p.peek() == '(':      # function type (varargs)
            d = 0
            while True:
                y = p.next()
                d += (y == '(') - (y == ')')
                if d == 0:
                    break
        p.skip_attrs()
        callee = p.next()
        if callee == 'asm':
            raise Unsupported('inline asm')
        p.need('(')
        args = []
        tys = []
        if not p.eat(')'):
            while True:
                p.skip_attrs()
                at = p.type()
                if at.k == 'metadata':
                    raise Unsupported('metadata arg')
                if 'byval' in p.skip_attrs():
                    raise Unsupported('byval')
                args.append(p.value(at))
                tys.append(at)
                if p.eat(')'):
                    break
                p.need(',')
        p.skip_attrs()
        r = {'op': 'call', 'dst': dst, 'ty': t, 'args': args, 'tys': tys}
        if callee.startswith('@'):
            r['callee'] = callee[1:].strip('"')
        else:
            r['callee'] = None
            r['target'] = ('reg', callee[1:])
        if op == 'invoke':
            p.need('to')
            p.type()
            r['normal'] = p.next()[1:]
            p.need('unwind')
            p.type()
            r['unwind'] = p.next()[1:]
            r['op'] = 'invoke'
        return r
    if op in ('extractvalue', 'insertvalue'):
        t = p.type()
        a = p.value(t)
        r = {'op': op, 'dst': dst, 'ty': t, 'args': [a]}
        p.need(',')
        if op == 'insertvalue':
            t2 = p.type()
            r['args'].append(p.value(t2))
            p.need(',')
        ix = [int(p.next())]
        while p.eat(','):
            ix.append(int(p.next()))
        r['idx'] = ix
        return r
    if op in ('landingpad', 'resume', 'fence', 'cmpxchg', 'atomicrmw'):
        return {'op': op, 'dst': dst, 'args': []}
    raise Unsupported('instruction ' + line)


def parse(text, want=None):
    m = Mod()
    lines = text.split('\n')
    bodies = []
    i = 0
    gl = []
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(m, ln)
            n = p.next()[1:]
            p.need('=')
            p.need('type')
            if p.peek() == 'opaque':
                m.types[n] = None
            else:
                m.types[n] = p.type()
        elif ln.startswith('@'):
            gl.append(ln)
        elif ln.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            bodies.append((ln, lines[i + 1:j]))
            i = j
        elif ln.startswith('declare '):
            mm = re.search(r'@("[^"]+"|[-\w.$]+)\(', ln)
            if mm:
                m.decls[mm.group(1).strip('"')] = ln
        i += 1
    for ln in gl:
        mm = re.match(r'^@("[^"]+"|[-\w.$]+) = (.*)$', strip_md(ln))
        name, rest = mm.group(1).strip('"'), mm.group(2)
        try:
            p = P(m, rest)
            isconst = False
            ext = False
            while True:
                x = p.peek()
                if x in ('constant', 'global'):
                    isconst = x == 'constant'
                    p.next()
                    break
                if x == 'external':
                    ext = True
                if x == 'alias' or x is None:
                    raise Unsupported('alias')
                p.next()
            t = p.type()
            init = None
            if not ext:
                init = p.value(t)
            m.globals[name] = {'const': isconst, 'ty': t, 'init': init, 'size': m.size(t), 'text': rest[:200]}
        except Unsupported as e:
            m.globals[name] = {'unsupported': str(e), 'text': rest[:200]}
    for hdr, body in bodies:
        mm = re.search(r'@("[^"]+"|[-\w.$]+)\(', hdr)
        name = mm.group(1).strip('"')
        f = Func(name)
        f.hdr = hdr
        f.body = body
        m.funcs[name] = f
    return m


def materialise(m, f):
    """parse a function's body on demand"""
    if f.order:
        return f
    hdr = f.hdr
    p = P(m, hdr[len('define '):])
    while True:
        p.skip_attrs()
        if p.peek() in ('comdat', 'available_externally', 'noinline'):
            p.next()
            continue
        break
    f.ret = p.type()
    p.skip_attrs()
    p.next()
    p.need('(')
    n = 0
    if not p.eat(')'):
        while True:
            t = p.type()
            if t.k not in ('ptr',):
                pass
            at = p.skip_attrs()
            if 'byval' in at:
                raise Unsupported('byval parameter')
            if p.peek() and p.peek().startswith('%'):
                f.params.append((p.next()[1:], t))
            else:
                f.params.append((str(n), t))
            n += 1
            if p.eat(')'):
                break
            p.need(',')
    cur = None
    pending = None
    lines = f.body
    k = 0
    while k < len(lines):
        ln = strip_md(lines[k])
        k += 1
        if not ln.strip():
            continue
        mm = re.match(r'^("[^"]+"|[-\w.$]+):', ln)
        if mm:
            cur = mm.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = str(n)
            f.blocks[cur] = []
            f.order.append(cur)
        s = ln.strip()
        if s.startswith('switch') and not s.endswith(']'):
            while not s.endswith(']'):
                s += ' ' + strip_md(lines[k]).strip()
                k += 1
        if s.startswith('%') and ' invoke ' in s or s.startswith('invoke '):
            s += ' ' + strip_md(lines[k]).strip()
            k += 1
        if 'landingpad' in s:
            while k < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[k]):
                k += 1
        if s.startswith('call void @llvm.dbg') or '@llvm.experimental.noalias.scope' in s:
            continue
        ins = parse_instr(m, s)
        f.blocks[cur].append(ins)
    # normalise quoted labels
    return f


def tstr(m, t):
    t = m.resolve(t)
    if t.k == 'i':
        return 'i%d' % t.a
    if t.k == 'double':
        return 'f64'
    if t.k == 'float':
        return 'f32'
    if t.k == 'ptr':
        return 'ptr'
    if t.k == 'void':
        return 'void'
    if t.k in ('struct', 'arr'):
        return 'agg'
    raise Unsupported('value type ' + t.k)


def to_bytecode(m, roots):
    """Serialise the functions reachable from roots. Returns text and list of functions/externals."""
    out = []
    seen = {}
    work = list(roots)
    fnames = []
    ext = set()
    gused = set()
    gorder = []

    def useg(n):
        if n in m.funcs or n in m.decls:
            return
        if n not in gused:
            gused.add(n)
            gorder.append(n)

    def flat(t, v, off, acc):
        t = m.resolve(t)
        if v[0] == 'agg':
            if t.k in ('arr', 'vec'):
                sz = m.size(t.b)
                for i, x in enumerate(v[1]):
                    flat(t.b, x, off + i * sz, acc)
            else:
                for i, x in enumerate(v[1]):
                    o, ft = m.field(t, i)
                    flat(ft, x, off + o, acc)
        else:
            acc.append((off, v))

    while work:
        fn = work.pop()
        if fn in seen:
            continue
        seen[fn] = True
        if fn not in m.funcs:
            ext.add(fn)
            continue
        f = materialise(m, m.funcs[fn])
        fnames.append(fn)
        regs = {}

        def R(n):
            if n not in regs:
                regs[n] = len(regs)
            return regs[n]
        for n, t in f.params:
            R(n)
        bl = {b: i for i, b in enumerate(f.order)}

        def O(v):
            if v[0] == 'reg':
                return 'r%d' % R(v[1])
            if v[0] == 'int':
                if v[1] > 64:
                    raise Unsupported('wide int')
                return 'i%d:%d' % (v[1], v[2])
            if v[0] == 'fp':
                return 'f%d:%x' % (v[1], v[2])
            if v[0] == 'ptr':
                if v[1] in m.funcs or v[1] in m.decls:
                    return 'p@%s' % v[1]
                useg(v[1])
                return 'g%s+%d' % (v[1], v[2])
            if v[0] == 'undef':
                return 'u'
            if v[0] == 'null':
                return 'n'
            if v[0] == 'agg':
                return 'A%d' % len(v[1]) + ''.join(' ' + O(x) for x in v[1])
            raise Unsupported('operand ' + v[0])
        L = []
        for b in f.order:
            L.append('B %d' % bl[b])
            for ins in f.blocks[b]:
                op = ins['op']
                d = R(ins['dst']) if ins.get('dst') is not None else -1
                if op in FBIN:
                    L.append(f"{op} {d} {tstr(m, ins['ty'])} {O(ins['args'][0])} {O(ins['args'][1])}")
                elif op in IBIN:
                    L.append(f"{op} {d} {tstr(m, ins['ty'])} {int(ins['nsw'])} {O(ins['args'][0])} {O(ins['args'][1])}")
                elif op in ('fneg', 'freeze'):
                    L.append(f"{op} {d} {tstr(m, ins['ty'])} {O(ins['args'][0])}")
                elif op in ('fcmp', 'icmp'):
                    L.append(f"{op} {d} {ins['pred']} {tstr(m, ins['ty'])} {O(ins['args'][0])} {O(ins['args'][1])}")
                elif op in CASTS:
                    L.append(f"{op} {d} {tstr(m, ins['fty'])} {tstr(m, ins['ty'])} {O(ins['args'][0])}")
                elif op == 'select':
                    L.append(f"select {d} {O(ins['args'][0])} {O(ins['args'][1])} {O(ins['args'][2])}")
                elif op == 'phi':
                    L.append(f"phi {d} {len(ins['inc'])} " + ' '.join(f"{bl[l]} {O(v)}" for v, l in ins['inc']))
                elif op == 'br':
                    L.append(f"br {bl[ins['to']]}")
                elif op == 'cbr':
                    L.append(f"cbr {O(ins['args'][0])} {bl[ins['to'][0]]} {bl[ins['to'][1]]}")
                elif op == 'switch':
                    L.append(f"switch {O(ins['args'][0])} {bl[ins['default']]} {len(ins['cases'])} " +
                             ' '.join(f"{v[2]} {bl[l]}" for v, l in ins['cases']))
                elif op == 'ret':
                    L.append('ret' + ''.join(' ' + O(a) for a in ins['args']))
                elif op == 'unreachable':
                    L.append('unreachable')
                elif op == 'alloca':
                    L.append(f"alloca {d} {ins['size']}")
                elif op == 'load':
                    L.append(f"load {d} {tstr(m, ins['ty'])} {m.size(ins['ty'])} {O(ins['args'][0])}")
                elif op == 'store':
                    L.append(f"store {tstr(m, ins['ty'])} {m.size(ins['ty'])} {O(ins['args'][0])} {O(ins['args'][1])}")
                elif op == 'gep':
                    L.append(f"gep {d} {O(ins['args'][0])} {ins['off']} {len(ins['dyn'])}" +
                             ''.join(f" {O(v)} {s}" for v, s, w in ins['dyn']))
                elif op == 'call':
                    if ins['callee'] is None:
                        raise Unsupported('indirect call in ' + fn)
                    c = ins['callee']
                    work.append(c)
                    L.append(f"call {d} {tstr(m, ins['ty'])} {c} {len(ins['args'])}" +
                             ''.join(' ' + O(a) for a in ins['args']))
                elif op == 'extractvalue':
                    L.append(f"extractvalue {d} {len(ins['idx'])} " + ' '.join(map(str, ins['idx'])) + f" {O(ins['args'][0])}")
                elif op == 'insertvalue':
                    L.append(f"insertvalue {d} {len(ins['idx'])} " + ' '.join(map(str, ins['idx'])) +
                             f" {O(ins['args'][0])} {O(ins['args'][1])}")
                else:
                    raise Unsupported('op ' + op + ' in ' + fn)
        out.append(f"F {fn} {len(f.params)} {len(regs)} {len(f.order)}")
        out += L
        out.append('E')
    for g in gorder:
        G = m.globals.get(g)
        if G is None or 'unsupported' in G:
            raise Unsupported('global ' + g + (': ' + G['unsupported'] if G else ''))
        acc = []
        if G['init'] is not None:
            flat(G['ty'], G['init'], 0, acc)
        if not G['const']:
            out.append(f"G {g} {G['size']} 0")
            continue
        items = []
        for off, v in acc:
            if v[0] == 'int':
                items.append(f"{off} i{v[1]}:{v[2]}")
            elif v[0] == 'fp':
                items.append(f"{off} f{v[1]}:{v[2]:x}")
            elif v[0] in ('ptr', 'null', 'undef'):
                pass
        out.append(f"G {g} {G['size']} {len(items)} " + ' '.join(items))
    return '\n'.join(out) + '\n', fnames, sorted(ext)


if __name__ == '__main__':
    import sys
    m = parse(open(sys.argv[1]).read())
    t, fs, ext = to_bytecode(m, sys.argv[2:])
    print(t)
    print(fs, ext, file=sys.stderr)
