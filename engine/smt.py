"""Symbolic execution of the extracted IR with z3: the second back end.

Integers and floating-point values are bit vectors.  Floating-point arithmetic is either uninterpreted (sign-magnitude
symmetric, mode 'uf') or exact (z3 floating-point theory, mode 'fp'); comparisons, negation, absolute value and sign
copies are always exact.  Loops are either unrolled completely (with an unwinding obligation) or closed by an inferred
inductive invariant.  Whatever is not understood raises Unsupported, which the checks report as an error."""
import math, struct, time
import z3
from irlower import Unsupported, materialise

RNE = z3.RNE()
STATS = {'queries': 0, 'seconds': 0.0, 'unknown': 0}
TIMEOUT_MS = 60000


class Unknown(Exception):
    pass


def bv(v, w):
    return z3.BitVecVal(v, w)


def simp(e):
    return z3.simplify(e)


def isc(e):
    return z3.is_bv_value(e)


def cval(e):
    return e.as_long()


DEADLINE = None


def check(assertions, timeout=None):
    """'sat' | 'unsat'; unknown raises"""
    if DEADLINE and time.time() > DEADLINE:
        raise Unsupported('time limit of the check')
    timeout = limit = timeout or TIMEOUT_MS
    t = time.time()
    for _ in range(3):
        s = z3.Solver()
        s.set('timeout', int(limit))
        for a in assertions:
            s.add(a)
        w, c = time.time(), time.process_time()
        r = s.check()
        w, c = time.time() - w, time.process_time() - c
        if r != z3.unknown or c > 0.75 * w or w < 0.5:
            break
        limit = timeout * min(8.0, 1.3 * w / max(c, 1e-3))    # the limit is meant as processor time
    STATS['queries'] += 1
    STATS['seconds'] += time.time() - t
    if r == z3.unknown:
        STATS['unknown'] += 1
        raise Unknown(s.reason_unknown())
    return ('sat', s.model()) if r == z3.sat else ('unsat', None)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f'Ptr({self.obj},{self.off})'


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef:
    pass


UNDEF = Undef()


class Cells:
    """Object of known size, accessed at constant offsets."""

    def __init__(self, size, cells=None, const=False, name=''):
        self.size, self.cells, self.const, self.name = size, dict(cells or {}), const, name
        self.zstr = None   # text of a symbolic argument

    def copy(self):
        c = Cells(self.size, self.cells, self.const, self.name)
        c.zstr = self.zstr
        return c


class Arr:
    """Array of symbolic length.  The content is an uninterpreted function of the index, overlaid with the stores since; what is
    known about that function is a list of facts that hold for every index and are instantiated where the array is read."""

    def __init__(self, name, esz, n, writable, watch=None, readable=True):
        self.name, self.esz, self.n, self.writable, self.watch = name, esz, n, writable, watch
        self.readable = readable
        self.wrote = z3.BoolVal(False)   # was the watched index written
        self.touched = False
        self.stores = []
        self.facts = []
        self.fn = self.base = None
        if esz is not None:
            self.settype(esz)

    def settype(self, esz):
        if self.n is None or self.esz is None:
            self.n = simp(z3.LShR(self.bytes, {1: 0, 2: 1, 4: 2, 8: 3}[esz]))
        self.esz = esz
        self.fn = z3.Function('content_' + self.name, z3.BitVecSort(64), z3.BitVecSort(8 * esz))
        self.base = self.fn

    def copy(self):
        a = Arr.__new__(Arr)
        a.__dict__.update(self.__dict__)
        a.stores = list(self.stores)
        a.facts = list(self.facts)
        return a

    def reset(self, base, facts=()):
        self.base, self.stores, self.facts, self.touched = base, [], list(facts), True

    def read(self, idx):
        """content at an index, and the facts about it"""
        t = self.base(idx)
        for i, v in self.stores:
            t = z3.If(idx == i, v, t)
        return simp(t), [f(idx) for f in self.facts]

    @property
    def val(self):
        return self.read(self.watch)[0]


class State:
    def __init__(self):
        self.pc = []
        self.mem = {}
        self.log = []

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = {k: v.copy() for k, v in self.mem.items()}
        s.log = list(self.log)
        s.__dict__.update({k: v for k, v in self.__dict__.items() if k not in ('pc', 'mem', 'log')})
        return s


def fbits(x, w):
    if w == 64:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]


def ffrom(b, w):
    return struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0]


def rnd32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


class FP:
    """Floating-point semantics."""

    def __init__(self, mode='uf', comm='syntactic'):
        self.mode = mode
        self.comm = comm     # how commutativity is expressed: operand order by term identity, or by value
        self.fns = {}
        self.ints = {}       # integers that were converted
        self.made = {}       # how the results of arithmetic were made

    def ordered(self, a, b):
        """condition under which the operands are exchanged: python bool or z3 term"""
        if isc(a) or isc(b) or self.comm == 'syntactic':
            ka, kb = (isc(a), a.get_id()), (isc(b), b.get_id())
            return ka > kb
        if a.eq(b):
            return False
        return z3.UGT(a, b)

    def uf(self, name, *sorts):
        k = (name, sorts)
        if k not in self.fns:
            self.fns[k] = z3.Function(name + '_' + '_'.join(map(str, sorts)), *[z3.BitVecSort(x) for x in sorts])
        return self.fns[k]

    @staticmethod
    def parts(a):
        w = a.size()
        return simp(z3.Extract(w - 1, w - 1, a)), simp(z3.Extract(w - 2, 0, a))

    @staticmethod
    def infm(w):
        return 0x7ff0000000000000 if w == 64 else 0x7f800000

    def nan(self, a):
        s, m = self.parts(a)
        return z3.UGT(m, bv(self.infm(a.size()), a.size() - 1))

    def neg(self, a):
        s, m = self.parts(a)
        return simp(z3.Concat(~s, m))

    def abs(self, a):
        s, m = self.parts(a)
        return simp(z3.Concat(bv(0, 1), m))

    def copysign(self, a, b):
        return simp(z3.Concat(self.parts(b)[0], self.parts(a)[1]))

    def sort(self, w):
        return z3.Float64() if w == 64 else z3.Float32()

    def fp(self, a):
        return z3.fpBVToFP(a, self.sort(a.size()))

    def binop(self, op, a, b):
        r = self.binop_(op, a, b)
        self.made.setdefault(r.get_id(), (r, op, a, b))
        return r

    def binop_(self, op, a, b):
        w = a.size()
        if isc(a) and isc(b):
            x, y = ffrom(cval(a), w), ffrom(cval(b), w)
            try:
                r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else \
                    x / y if op == 'fdiv' and y != 0 else None
                if op == 'frem' and y != 0 and math.isfinite(x):
                    r = math.fmod(x, y)
            except OverflowError:
                r = None
            if r is not None and not math.isnan(r):
                if w == 32:
                    r = rnd32(r)   # double arithmetic then rounding is exact for one operation
                return bv(fbits(r, w), w)
        if self.mode == 'fp':
            x, y = self.fp(a), self.fp(b)
            r = {'fadd': lambda: z3.fpAdd(RNE, x, y), 'fsub': lambda: z3.fpSub(RNE, x, y), 'fmul': lambda: z3.fpMul(RNE, x, y),
                 'fdiv': lambda: z3.fpDiv(RNE, x, y)}.get(op)
            if r is None:
                raise Unsupported(op)
            return simp(z3.fpToIEEEBV(r()))
        if op == 'fsub':
            return self.binop_('fadd', a, self.neg(b))
        (sa, ma), (sb, mb) = self.parts(a), self.parts(b)
        one = (1023 << 52) if w == 64 else (127 << 23)
        if op in ('fmul', 'fdiv'):
            if isc(mb) and cval(mb) == one:
                return simp(z3.Concat(sa ^ sb, ma))
            if op == 'fmul':
                if isc(ma) and cval(ma) == one:
                    return simp(z3.Concat(sa ^ sb, mb))
                sw = self.ordered(ma, mb)
                if sw is True:
                    ma, mb = mb, ma
                elif sw is not False:
                    ma, mb = z3.If(sw, mb, ma), z3.If(sw, ma, mb)
            return simp(z3.Concat(sa ^ sb, self.uf(op + 'mag', w - 1, w - 1, w - 1)(ma, mb)))
        if op == 'fadd':
            for p, q in ((a, b), (b, a)):
                if isc(q) and cval(q) == 0:      # p + 0
                    return simp(z3.If(p == bv(1 << (w - 1), w), bv(0, w), p))
                if isc(q) and cval(q) == 1 << (w - 1):
                    return p
            sw = self.ordered(ma, mb)
            if sw is True:
                sa, ma, sb, mb = sb, mb, sa, ma
            elif sw is not False:
                sa, sb, ma, mb = z3.If(sw, sb, sa), z3.If(sw, sa, sb), z3.If(sw, mb, ma), z3.If(sw, ma, mb)
            r = self.uf('faddrel', w - 1, w - 1, 1, w)(ma, mb, simp(sa ^ sb))
            rs, rm = z3.Extract(w - 1, w - 1, r), z3.Extract(w - 2, 0, r)
            zero = z3.And(rm == 0, sa != sb)
            if sw is not True and sw is not False:      # p + (-p), in either order: 0, or a NaN of some sign
                zero, nan = z3.Or(zero, z3.And(ma == mb, sa != sb, z3.ULT(ma, bv(self.infm(w), w - 1)))), z3.And(ma == mb, sa != sb)
                return simp(z3.If(zero, bv(0, w), z3.If(nan, bv(self.infm(w) | (1 << (51 if w == 64 else 22)), w), z3.Concat(sa ^ rs, rm))))
            return simp(z3.If(zero, bv(0, w), z3.Concat(sa ^ rs, rm)))
        if op == 'frem':
            return self.uf('frem', w, w, w)(a, b)
        raise Unsupported(op)

    def cmp(self, pred, a, b):
        if pred == 'true':
            return z3.BoolVal(True)
        if pred == 'false':
            return z3.BoolVal(False)
        w = a.size()
        r = self.cmp_int(pred, a, b)
        if r is not None:
            return r
        (sa, ma), (sb, mb) = self.parts(a), self.parts(b)
        un = z3.Or(self.nan(a), self.nan(b))
        if pred == 'uno':
            return simp(un)
        if pred == 'ord':
            return simp(z3.Not(un))
        zz = z3.And(ma == 0, mb == 0)
        eq = z3.Or(a == b, zz)
        lt = z3.And(z3.Not(zz), z3.If(sa == 1, z3.If(sb == 1, z3.UGT(ma, mb), z3.BoolVal(True)),
                                      z3.If(sb == 1, z3.BoolVal(False), z3.ULT(ma, mb))))
        p = pred[1:]
        r = {'eq': eq, 'ne': z3.Not(eq), 'lt': lt, 'le': z3.Or(lt, eq), 'gt': z3.And(z3.Not(lt), z3.Not(eq)), 'ge': z3.Not(lt)}[p]
        return simp(z3.And(z3.Not(un), r) if pred[0] == 'o' else z3.Or(un, r))

    def cmp_int(self, pred, a, b):
        """comparison of a converted integer with a constant that all integers near it represent exactly"""
        if isc(a) and b.get_id() in self.ints:
            a, b, pred = b, a, pred[0] + {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(pred[1:], pred[1:])
        if a.get_id() not in self.ints or not isc(b) or pred in ('uno', 'ord'):
            return None
        c = ffrom(cval(b), b.size())
        if not abs(c) < (1 << 52 if b.size() == 64 else 1 << 23):
            return None
        _, i, signed = self.ints[a.get_id()]
        x = z3.SignExt(66 - i.size(), i) if signed else z3.ZeroExt(66 - i.size(), i)
        lo, hi = bv(math.floor(c), 66), bv(math.ceil(c), 66)
        p = pred[1:]
        eq = x == lo if c == math.floor(c) else z3.BoolVal(False)
        return simp({'eq': eq, 'ne': z3.Not(eq), 'lt': x < hi, 'le': x <= lo, 'gt': x > lo, 'ge': x >= hi}[p])

    def fptoi(self, a, w, signed):
        if isc(a):
            x = ffrom(cval(a), a.size())
            if math.isfinite(x):
                n = int(x)
                if (-(1 << (w - 1)) <= n < (1 << (w - 1))) if signed else (0 <= n < (1 << w)):
                    return bv(n, w)
        if self.mode == 'fp':
            f = z3.fpToSBV if signed else z3.fpToUBV
            return simp(f(z3.RTZ(), self.fp(a), z3.BitVecSort(w)))
        s, m = self.parts(a)
        u = self.uf('fptoi%d' % signed, a.size() - 1, w)(m)
        return simp(z3.If(s == 1, -u, u))

    def conv_range(self, a, w, signed):
        """condition under which the conversion to a w-bit integer is defined"""
        fw = a.size()
        s, m = self.parts(a)
        if signed:   # |trunc(x)| bounded: x < 2^(w-1) and x > -2^(w-1)-1
            hi = bv(fbits(2.0 ** (w - 1), fw) & ((1 << (fw - 1)) - 1), fw - 1)
            lo = 2.0 ** (w - 1) + 1 if (w - 1) < (52 if fw == 64 else 23) else None
            if lo is not None:
                neg = z3.ULT(m, bv(fbits(lo, fw), fw - 1))
            else:
                neg = z3.ULE(m, hi)
            return simp(z3.If(s == 1, neg, z3.ULT(m, hi)))
        hi = bv(fbits(2.0 ** w, fw), fw - 1)
        one = bv(fbits(1.0, fw), fw - 1)
        return simp(z3.If(s == 1, z3.ULT(m, one), z3.ULT(m, hi)))

    def itof(self, i, fw, signed):
        r = self.itof_(i, fw, signed)
        if not isc(r):
            self.ints.setdefault(r.get_id(), (r, i, signed))
        return r

    def itof_(self, i, fw, signed):
        if isc(i):
            n = i.as_signed_long() if signed else i.as_long()
            if fw == 64:
                return bv(fbits(float(n), 64), 64)
            x = float(n)
            if abs(n) < 1 << 53:
                return bv(fbits(rnd32(x), 32), 32)
        if self.mode == 'fp':
            f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
            return simp(z3.fpToIEEEBV(f(RNE, i, self.sort(fw))))
        w = i.size()
        U = self.uf('utof', 64, fw - 1)
        if signed:
            s = simp(z3.Extract(w - 1, w - 1, i))
            mag = z3.If(s == 1, -i, i)
            e = z3.SignExt(64 - w, mag) if w < 64 else mag
            # magnitude of the most negative value is its unsigned reading
            if w < 64:
                e = z3.ZeroExt(64 - w, mag)
            e = simp(e)
            return simp(z3.If(i == 0, bv(0, fw), z3.Concat(s, U(e))))
        e = simp(z3.ZeroExt(64 - w, i)) if w < 64 else i
        return simp(z3.If(i == 0, bv(0, fw), z3.Concat(bv(0, 1), U(e))))

    def conv(self, a, to):
        w = a.size()
        if w == to:
            return a
        if isc(a):
            x = ffrom(cval(a), w)
            if not math.isnan(x):
                return bv(fbits(rnd32(x) if to == 32 else x, to), to)
        if self.mode == 'fp':
            return simp(z3.fpToIEEEBV(z3.fpFPToFP(RNE, self.fp(a), self.sort(to))))
        s, m = self.parts(a)
        r = simp(z3.Concat(s, self.uf('fconv', w - 1, to - 1)(m)))
        self.made.setdefault(r.get_id(), (r, 'conv', a, None))
        return r

    def sqrt(self, a):
        if isc(a):
            x = ffrom(cval(a), a.size())
            if x >= 0:
                r = math.sqrt(x)
                return bv(fbits(rnd32(r) if a.size() == 32 else r, a.size()), a.size())
        if self.mode == 'fp':
            return simp(z3.fpToIEEEBV(z3.fpSqrt(RNE, self.fp(a))))
        r = self.uf('fsqrt', a.size(), a.size())(a)
        self.made.setdefault(r.get_id(), (r, 'sqrt', a, None))
        return r


class Obl:
    """one proof obligation: under pc, cond holds"""

    def __init__(self, kind, pc, cond, where):
        self.kind, self.pc, self.cond, self.where = kind, list(pc), cond, where


class LoopFail(Exception):
    def __init__(self, m):
        super().__init__(m)
        self.m = m


class Exec:
    def __init__(self, m, mode='uf', loops='unroll', unroll=80, externs=None, max_paths=4000, comm='syntactic'):
        self.m = m
        self.fp = FP(mode, comm)
        self.loops = loops            # 'unroll' | 'invariant'
        self.unroll = unroll
        self.ext = externs or {}
        self.obl = []
        self.fresh = 0
        self.used = []
        self.nobj = 0
        self.dry = 0                  # >0: exploring a loop body to learn its shape; obligations are not recorded
        self.folds = []               # specification folds: callables(kind of width) used as candidate invariants
        self.heavy = {}               # definitions that are not needed to see whether a branch can be taken
        self.kept = []
        self.contents = True          # look for invariants about the content of written arrays
        self.absmul = False           # products of two variables are uninterpreted (commutative)
        self.scaled = None            # condition under which a product is known to fit
        self.head_axioms = None       # callback(k): definitions of specification functions, instantiated at the iteration counter
        self.extra_candidates = None  # callback(exec, entry, head, k) -> [(name, fn(state)->Bool)]
        self.loop_notes = []
        self.paths = 0
        self.max_paths = max_paths
        self.loopinfo = {}
        self.uninterp_calls = {}
        self.globals_obj = {}
        self.watch_spec = None
        self.watch = z3.BitVec('j', 64)
        self.level = 0                # how many invariant templates are tried
        self.decided = 0              # branches only the path condition decided
        self.cbrlog = []              # conditional branches executed: function, block, decided by constants
        self.cmplog = []              # operands of the integer comparisons executed
        self.ghosts = []              # iteration counters of the enclosing loops

    # -- helpers
    def var(self, name, w):
        self.fresh += 1
        return z3.BitVec(f'{name}!{self.fresh}', w)

    def newobj(self, st, o):
        self.nobj += 1
        st.mem[self.nobj] = o
        return self.nobj

    def oblige(self, kind, st, cond, where):
        if self.dry:
            return
        c = simp(cond)
        self.obl.append(Obl(kind, st.pc, c, where))

    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        try:
            return check([x for x in st.pc if x.get_id() not in self.heavy] + [c], 20000)[0] == 'sat'
        except Unknown:
            return True

    def width(self, t):
        t = self.m.resolve(t)
        if t.k == 'i':
            return t.a
        if t.k == 'double':
            return 64
        if t.k == 'float':
            return 32
        raise Unsupported('width of ' + t.k)

    # -- operands
    def val(self, st, R, v, ty=None):
        k = v[0]
        if k == 'reg':
            if v[1] not in R:
                raise Unsupported('undefined register ' + v[1])
            return R[v[1]]
        if k == 'int':
            return bv(v[2], v[1])
        if k == 'fp':
            return bv(v[2], v[1])
        if k == 'null':
            return Ptr(None, bv(0, 64))
        if k == 'undef':
            return UNDEF
        if k == 'agg':
            return tuple(self.val(st, R, x) for x in v[1])
        if k == 'ptr':
            return self.gptr(st, v[1], v[2])
        raise Unsupported('operand ' + k)

    def gptr(self, st, name, off):
        if name in self.m.funcs or name in self.m.decls:
            return Fn(name)
        if name not in self.globals_obj:
            g = self.m.globals.get(name)
            if g is None or 'unsupported' in g:
                raise Unsupported('global ' + name)
            cells = {}

            def flat(t, v, o):
                t = self.m.resolve(t)
                if v is None or v[0] == 'undef':
                    return
                if t.k == 'struct':
                    for i, x in enumerate(v[1]):
                        fo, ft = self.m.field(t, i)
                        flat(ft, x, o + fo)
                elif t.k == 'arr':
                    for i, x in enumerate(v[1]):
                        flat(t.b, x, o + i * self.m.size(t.b))
                elif v[0] in ('int', 'fp'):
                    sz = self.m.size(t)
                    w = 8 * sz
                    cells[o] = (sz, bv(v[2], w))
                elif v[0] == 'ptr':
                    cells[o] = (8, ('g', v[1], v[2]))
                elif v[0] == 'null':
                    cells[o] = (8, Ptr(None, bv(0, 64)))
            flat(g['ty'], g['init'], 0)
            self.nobj += 1
            self.globals_obj[name] = (self.nobj, Cells(g['size'], cells, g['const'], name))
        oid, o = self.globals_obj[name]
        if oid not in st.mem:
            st.mem[oid] = o.copy()
        return Ptr(oid, bv(off, 64))

    # -- memory
    def load(self, st, p, ty, where):
        t = self.m.resolve(ty)
        if not isinstance(p, Ptr):
            raise Unsupported('load through ' + type(p).__name__)
        if p.obj is None or p.obj not in st.mem:
            self.oblige('memory', st, z3.BoolVal(False), where + ': load through an invalid pointer')
            raise LoopFail('invalid pointer')
        o = st.mem[p.obj]
        sz = self.m.size(t)
        if isinstance(o, Arr):
            if o.esz is None and t.k != 'ptr':
                o.settype(sz)
            if t.k == 'ptr' or sz != o.esz:
                raise Unsupported('array element access of another size')
            idx = self.index(st, o, p.off, where)
            self.oblige('memory', st, z3.ULT(idx, o.n), f'{where}: read of {o.name} inside its bounds')
            if not o.readable:
                self.oblige('frame', st, z3.BoolVal(False), f'{where}: {o.name} is read')
            r, facts = o.read(idx)
            st.pc += [f for f in map(simp, facts) if not z3.is_true(f) and not any(f.eq(x) for x in st.pc)]
            return self.cast_loaded(simp(r), t)
        if not isc(simp(p.off)):
            cs = self.offsets(st, o, simp(p.off), sz, where)
            vs = [self.loadc(st, o, c, t, sz, where) for c in cs]
            vs = [self.var('undef', 8 * sz) if v is UNDEF else v for v in vs]
            if not all(z3.is_expr(v) for v in vs):
                raise Unsupported('symbolic offset into ' + (o.name or 'object'))
            r = vs[-1]
            for c, v in list(zip(cs, vs))[-2::-1]:
                r = z3.If(p.off == c, v, r)
            return simp(r)
        off = self.coff(st, o, p.off, sz, where)
        if off is None:
            raise LoopFail('out-of-bounds access')
        return self.loadc(st, o, off, t, sz, where)

    def offsets(self, st, o, off, sz, where):
        """the values a symbolic offset into a small object can take"""
        if o.size > 512:
            raise Unsupported('symbolic offset into ' + (o.name or 'object'))
        self.oblige('memory', st, z3.And(z3.ULE(off, o.size - sz), z3.ULE(bv(sz, 64), o.size)), where + ': access inside the object')
        cs = [c for c in range(0, o.size - sz + 1) if (c % sz == 0 or o.cells.get(c, (0,))[0] == sz) and check(st.pc + [off == c])[0] != 'unsat']
        if not cs:
            raise LoopFail('out-of-bounds access')
        if check(st.pc + [z3.ULE(off, o.size - sz)] + [off != c for c in cs])[0] != 'unsat':
            raise Unsupported('unaligned symbolic offset')
        return cs

    def cast_loaded(self, r, t):
        if t.k == 'i' and t.a != r.size():
            return simp(z3.Extract(t.a - 1, 0, r))
        return r

    def index(self, st, o, off, where):
        if o.esz == 1:
            return simp(off)
        sh = {2: 1, 4: 2, 8: 3}.get(o.esz)
        if sh is None:
            raise Unsupported('element size')
        idx = simp(z3.LShR(off, sh))
        low = simp(z3.Extract(sh - 1, 0, off))
        if not (isc(low) and cval(low) == 0):
            self.oblige('memory', st, low == 0, f'{where}: aligned element access')
        return self.unshift(off, sh, idx)

    def unshift(self, off, sh, idx):
        """idx = off >> sh; when off is a product c*2^sh of something the upper bits must not get lost"""
        return idx

    def coff(self, st, o, off, sz, where):
        off = simp(off)
        if not isc(off):
            # symbolic offset into a small object: enumerate
            raise Unsupported('symbolic offset into ' + (o.name or 'object'))
        v = off.as_signed_long()
        if v < 0 or v + sz > o.size:
            self.oblige('memory', st, z3.BoolVal(False), where + ': access outside the object')
            return None
        return v

    def loadc(self, st, o, off, t, sz, where):
        c = o.cells.get(off)
        if t.k in ('struct', 'arr'):
            if t.k == 'struct':
                return tuple(self.loadc(st, o, off + self.m.field(t, i)[0], self.m.resolve(self.m.field(t, i)[1]),
                                        self.m.size(self.m.field(t, i)[1]), where) for i in range(len(t.a)))
            return tuple(self.loadc(st, o, off + i * self.m.size(t.b), self.m.resolve(t.b), self.m.size(t.b), where) for i in range(t.a))
        if c is not None and c[0] == sz:
            v = c[1]
            if isinstance(v, tuple) and v and v[0] == 'g':
                v = self.gptr(st, v[1], v[2])
                o.cells[off] = (sz, v)
                return v
            if t.k == 'ptr':
                if isinstance(v, (Ptr, Fn)):
                    return v
                if z3.is_expr(v) and isc(v) and cval(v) == 0:
                    return Ptr(None, bv(0, 64))
                raise Unsupported('pointer load of integer data')
            if isinstance(v, (Ptr, Fn, LD)):
                if t.k in ('x86_fp80',) and isinstance(v, LD):
                    return v
                raise Unsupported('integer load of a pointer')
            if v is UNDEF:
                return UNDEF
            return self.cast_loaded(v, t)
        # assemble bytes
        bytes_ = []
        for b in range(off, off + sz):
            for co, (cs, cv) in o.cells.items():
                if co <= b < co + cs:
                    if isinstance(cv, (Ptr, Fn, LD)) or cv is UNDEF or isinstance(cv, tuple):
                        if cv is UNDEF:
                            bytes_.append(self.var('undef', 8))
                            break
                        raise Unsupported('partial load of a pointer')
                    k = b - co
                    bytes_.append(z3.Extract(8 * k + 7, 8 * k, cv))
                    break
            else:
                bytes_.append(None)
        if all(b is None for b in bytes_):
            return UNDEF
        bytes_ = [self.var('undef', 8) if b is None else b for b in bytes_]
        if t.k == 'ptr':
            raise Unsupported('pointer assembled from bytes')
        r = simp(z3.Concat(*reversed(bytes_))) if len(bytes_) > 1 else bytes_[0]
        return self.cast_loaded(r, t)

    def store(self, st, p, v, ty, where):
        t = self.m.resolve(ty)
        if not isinstance(p, Ptr):
            raise Unsupported('store through ' + type(p).__name__)
        if p.obj is None or p.obj not in st.mem:
            self.oblige('memory', st, z3.BoolVal(False), where + ': store through an invalid pointer')
            raise LoopFail('invalid pointer')
        o = st.mem[p.obj]
        sz = self.m.size(t)
        if isinstance(o, Arr):
            if o.esz is None and z3.is_expr(v):
                o.settype(sz)
            if sz == o.esz and v is UNDEF:
                v = self.var('undef', 8 * sz)
            if sz != o.esz or not z3.is_expr(v):
                raise Unsupported('array element store of another size')
            idx = self.index(st, o, p.off, where)
            if not o.writable:
                self.oblige('frame', st, z3.BoolVal(False), f'{where}: store into {o.name}, which must not be written')
                return
            self.oblige('memory', st, z3.ULT(idx, o.n), f'{where}: store into {o.name} inside its bounds')
            if v.size() != 8 * sz:
                v = simp(z3.ZeroExt(8 * sz - v.size(), v))
            o.stores = [(a, b) for a, b in o.stores if not a.eq(idx)] + [(idx, v)]
            if o.watch is not None:
                o.wrote = simp(z3.Or(o.wrote, idx == o.watch))
            o.touched = True
            st.log.append((p.obj, idx))
            return
        if o.const:
            self.oblige('memory', st, z3.BoolVal(False), where + ': store into a constant')
            return
        if not isc(simp(p.off)):
            if v is UNDEF:
                v = self.var('undef', 8 * sz)
            for c in self.offsets(st, o, simp(p.off), sz, where):
                w = self.loadc(st, o, c, t, sz, where)
                w = self.var('undef', 8 * sz) if w is UNDEF else w
                if not z3.is_expr(v) or not z3.is_expr(w):
                    raise Unsupported('symbolic offset into ' + (o.name or 'object'))
                self.storec(o, c, simp(z3.If(p.off == c, v, w)), t, sz)
            return
        off = self.coff(st, o, p.off, sz, where)
        if off is None:
            raise LoopFail('out-of-bounds access')
        self.storec(o, off, v, t, sz)

    def storec(self, o, off, v, t, sz):
        if t.k in ('struct', 'arr'):
            if v is UNDEF:
                return
            for i, x in enumerate(v):
                if t.k == 'struct':
                    fo, ft = self.m.field(t, i)
                else:
                    fo, ft = i * self.m.size(t.b), t.b
                self.storec(o, off + fo, x, self.m.resolve(ft), self.m.size(ft))
            return
        if z3.is_expr(v) and v.size() != 8 * sz:
            v = simp(z3.ZeroExt(8 * sz - v.size(), v))
        for co in list(o.cells):
            cs, cv = o.cells[co]
            if co < off + sz and off < co + cs and not (co == off and cs == sz):
                # split the overlapped cell into bytes
                del o.cells[co]
                if z3.is_expr(cv):
                    for k in range(cs):
                        if not (off <= co + k < off + sz):
                            o.cells[co + k] = (1, simp(z3.Extract(8 * k + 7, 8 * k, cv)))
        o.cells[off] = (sz, v)

    # -- execution
    def run(self, fname, args, st=None):
        """all paths of a function: list of (state, value)"""
        st = st or State()
        return self.call(fname, args, st, 0)

    def call(self, fname, args, st, depth):
        if depth > 60:
            raise Unsupported('recursion')
        f = self.m.funcs.get(fname)
        if fname in self.ext:
            return self.ext[fname](self, st, args)
        if f is None:
            for pre in self.ext:
                if pre.endswith('*') and fname.startswith(pre[:-1]):
                    return self.ext[pre](self, st, args)
            return self.builtin(fname, args, st)
        materialise(self.m, f)
        if fname not in self.used:
            self.used.append(fname)
        R = {}
        for (n, t), a in zip(f.params, args):
            R[n] = a
        return self.blocks(f, f.order[0], None, R, st, depth, {}, ())

    def loopsof(self, f):
        if f.name in self.loopinfo:
            return self.loopinfo[f.name]
        succ = {}
        for b in f.order:
            i = f.blocks[b][-1]
            succ[b] = ([i['to']] if i['op'] == 'br' else list(i['to']) if i['op'] == 'cbr' else
                       [i['default']] + [l for _, l in i['cases']] if i['op'] == 'switch' else
                       [i['normal'], i['unwind']] if i['op'] == 'invoke' else [])
        # dominators
        order = f.order
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        dom = {b: set(order) for b in order}
        dom[order[0]] = {order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in pred[b]]
                n = ({b} | set.intersection(*ps)) if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w += pred[x]
        self.loopinfo[f.name] = loops
        return loops

    def phis(self, f, b, prev, R, st):
        new = {}
        for i in f.blocks[b]:
            if i['op'] != 'phi':
                break
            for v, l in i['inc']:
                if l == prev:
                    new[i['dst']] = self.val(st, R, v)
                    break
            else:
                raise Unsupported('phi')
        R.update(new)

    def blocks(self, f, b, prev, R, st, depth, counts, stop):
        """Execute from block b (coming from prev). stop: set of (header) labels at which a path ends: used for loop bodies.
        Returns list of (state, retval) plus, for stopped paths, (state, ('back', header, R, prev))."""
        out = []
        work = [(b, prev, R, st, counts)]
        loops = self.loopsof(f)
        while work:
            b, prev, R, st, counts = work.pop()
            if (b in stop and prev is not None) or ('~exit', b) in stop:
                out.append((st, ('back', b, R, prev)))
                continue
            if b in loops and self.loops == 'invariant' and prev not in loops[b]:
                res = self.invariant_loop(f, b, prev, dict(R), st, depth, counts, stop)
                if res is not None:
                    out += res
                    continue
            if b in loops:
                counts = dict(counts)
                key = b
                if prev not in loops[b]:
                    counts[key] = 0
                counts[key] = counts.get(key, 0) + 1
                if counts[key] > self.unroll:
                    self.oblige('unwinding', st, z3.BoolVal(False), f'loop in {f.name} ends within {self.unroll} iterations')
                    continue
            R = dict(R)
            if prev is not None:
                self.phis(f, b, prev, R, st)
            self.block_body(f, b, R, st, depth, counts, work, out)
        return out

    def block_body(self, f, b, R, st, depth, counts, work, out, start=0):
        ins = f.blocks[b]
        for n in range(start, len(ins)):
            i = ins[n]
            op = i['op']
            if op == 'phi':
                continue
            where = f'{f.name}/{b}'
            if op == 'br':
                work.append((i['to'], b, R, st, counts))
                return
            if op == 'cbr':
                c = self.boolval(self.val(st, R, i['args'][0]))
                if self.dry:
                    self.cbrlog.append((f.name, b, z3.is_true(c) or z3.is_false(c)))
                split = 0
                for cond, to in ((c, i['to'][0]), (z3.Not(c), i['to'][1])):
                    cond = simp(cond)
                    if z3.is_false(cond):
                        continue
                    if z3.is_true(cond):
                        work.append((to, b, R, st, counts))
                        continue
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        s2.pc.append(cond)
                        work.append((to, b, dict(R), s2, counts))
                        split += 1
                self.paths += split > 1
                self.decided += split == 1
                if self.paths > self.max_paths:
                    raise Unsupported('too many paths')
                return
            if op == 'switch':
                c = self.val(st, R, i['args'][0])
                nots = []
                for v, l in i['cases']:
                    cond = simp(c == bv(v[2], v[1]))
                    nots.append(z3.Not(cond))
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        if not z3.is_true(cond):
                            s2.pc.append(cond)
                        work.append((l, b, dict(R), s2, counts))
                cond = simp(z3.And(*nots)) if nots else z3.BoolVal(True)
                if self.feasible(st, cond):
                    s2 = st.copy()
                    if not z3.is_true(cond):
                        s2.pc.append(cond)
                    work.append((i['default'], b, dict(R), s2, counts))
                return
            if op == 'ret':
                out.append((st, self.val(st, R, i['args'][0]) if i['args'] else None))
                return
            if op == 'unreachable':
                if self.feasible(st, z3.BoolVal(True)):
                    self.oblige('unreachable', st, z3.BoolVal(False), where)
                return
            if op in ('call', 'invoke'):
                args = [self.val(st, R, a) for a in i['args']]
                callee = i['callee']
                if callee is None:
                    t = self.val(st, R, i['target'])
                    if not isinstance(t, Fn):
                        raise Unsupported('indirect call')
                    callee = t.name
                self.ret_ty = i['ty']
                if callee not in self.m.funcs and callee not in self.ext:
                    r = self.simple_builtin(callee, args, st, i)
                    if r is not None:
                        if i['dst'] is not None:
                            R[i['dst']] = r[0]
                        if op == 'invoke':
                            work.append((i['normal'], b, R, st, counts))
                            return
                        continue
                res = self.call(callee, args, st, depth + 1)
                if op == 'invoke':
                    for s2, rv in res:
                        R2 = dict(R)
                        if i['dst'] is not None:
                            R2[i['dst']] = rv
                        work.append((i['normal'], b, R2, s2, counts))
                    return
                if len(res) == 1:
                    st, rv = res[0]
                    if i['dst'] is not None:
                        R[i['dst']] = rv
                    continue
                for s2, rv in res:
                    R2 = dict(R)
                    if i['dst'] is not None:
                        R2[i['dst']] = rv
                    self.block_body(f, b, R2, s2, depth, counts, work, out, n + 1)
                return
            if op == 'select':
                c = self.boolval(self.val(st, R, i['args'][0]))
                x, y = self.val(st, R, i['args'][1]), self.val(st, R, i['args'][2])
                if z3.is_expr(x) and z3.is_expr(y):
                    R[i['dst']] = simp(z3.If(c, x, y))
                    continue
                if z3.is_true(c) or z3.is_false(c):
                    R[i['dst']] = x if z3.is_true(c) else y
                    continue
                for cond, v in ((c, x), (simp(z3.Not(c)), y)):
                    if self.feasible(st, cond):
                        s2 = st.copy()
                        s2.pc.append(cond)
                        R2 = dict(R)
                        R2[i['dst']] = v
                        self.block_body(f, b, R2, s2, depth, counts, work, out, n + 1)
                return
            r = self.instr(i, R, st, where)
            if i.get('dst') is not None:
                R[i['dst']] = r
        raise Unsupported('block without terminator')

    @staticmethod
    def quotient(a, d):
        """a/d when a is visibly a non-negative multiple of d that did not wrap, else None"""
        a = simp(a)
        if d > 0 and a.decl().kind() == z3.Z3_OP_BMUL and a.num_args() == 2 and isc(a.arg(0)) and cval(a.arg(0)) % d == 0:
            t, c = a.arg(1), cval(a.arg(0))
            if t.decl().kind() == z3.Z3_OP_CONCAT and isc(t.arg(0)) and cval(t.arg(0)) == 0 and \
                    c.bit_length() + t.size() - t.arg(0).size() < t.size():
                return simp(bv(c // d, t.size()) * t)
        return None

    def times(self, a, b):
        if not self.absmul or isc(simp(a)) or isc(simp(b)):
            return a * b
        a, b = simp(a), simp(b)
        if a.get_id() > b.get_id():
            a, b = b, a
        self.kept += [a, b]
        return self.fp.uf('product', a.size(), a.size(), a.size())(a, b)

    def boolval(self, v):
        if v is UNDEF:
            raise Unsupported('branch on undefined value')
        if z3.is_bool(v):
            return v
        return simp(v == bv(1, 1))

    def b2v(self, c):
        c = simp(c)
        if z3.is_true(c):
            return bv(1, 1)
        if z3.is_false(c):
            return bv(0, 1)
        return z3.If(c, bv(1, 1), bv(0, 1))

    def instr(self, i, R, st, where):
        op = i['op']
        A = [self.val(st, R, a) for a in i.get('args', [])]
        fp = self.fp
        if op == 'alloca':
            return Ptr(self.newobj(st, Cells(i['size'], name='local')), bv(0, 64))
        if op == 'load':
            return self.load(st, A[0], i['ty'], where)
        if op == 'store':
            self.store(st, A[1], A[0], i['ty'], where)
            return None
        if op == 'gep':
            p = A[0]
            if not isinstance(p, Ptr):
                raise Unsupported('gep of ' + type(p).__name__)
            off = p.off + bv(i['off'] & (2 ** 64 - 1), 64)
            for v, s, w in i['dyn']:
                x = self.val(st, R, v)
                if w < 64:
                    x = z3.SignExt(64 - w, x)
                off = off + x * bv(s, 64)
            return Ptr(p.obj, simp(off))
        if any(a is UNDEF for a in A):
            if op in ('insertvalue',):
                pass
            elif op == 'freeze':
                return self.var('freeze', self.width(i['ty']))
            else:
                return UNDEF
        if op == 'insertvalue':
            t = self.m.resolve(i['ty'])
            n = len(t.a) if t.k == 'struct' else t.a
            base = list(A[0]) if A[0] is not UNDEF else [UNDEF] * n
            if len(i['idx']) != 1:
                raise Unsupported('nested insertvalue')
            base[i['idx'][0]] = A[1]
            return tuple(base)
        if op == 'extractvalue':
            v = A[0]
            for k in i['idx']:
                v = v[k]
            return v
        if any(isinstance(a, LD) for a in A):
            return self.ldop(i, A, st, where)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            if self.m.resolve(i['ty']).k == 'x86_fp80':
                return self.ldop(i, A, st, where)
            return fp.binop(op, A[0], A[1])
        if op == 'fneg':
            return fp.neg(A[0])
        if op == 'freeze':
            return A[0]
        if op == 'fcmp':
            return self.b2v(fp.cmp(i['pred'], A[0], A[1]))
        if op == 'icmp':
            a, b = A
            pr = i['pred']
            if (isinstance(a, Fn) or isinstance(b, Fn)) and pr in ('eq', 'ne'):
                same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                return self.b2v(z3.BoolVal(same if pr == 'eq' else not same))
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                    raise Unsupported('pointer comparison')
                if a.obj != b.obj:
                    if a.obj is not None and b.obj is not None and pr not in ('eq', 'ne'):
                        raise Unsupported('comparison of pointers into different objects')
                    return self.b2v(z3.BoolVal(pr == 'ne'))
                a, b = a.off, b.off
            if not (isc(a) and isc(b)):
                self.cmplog.append((a, b))
            c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pr]()
            return self.b2v(c)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = A
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    return simp(a.off - b.off)
                raise Unsupported('pointer arithmetic')
            w = a.size()
            if op in ('add', 'sub', 'mul') and i.get('nsw') and not (isc(a) and isc(b)):
                o, u = {'add': (z3.BVAddNoOverflow, z3.BVAddNoUnderflow), 'sub': (None, None),
                        'mul': (z3.BVMulNoOverflow, z3.BVMulNoUnderflow)}[op]
                if op == 'sub':
                    ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                elif op == 'add':
                    ok = z3.And(o(a, b, True), u(a, b))
                else:
                    ok = z3.And(o(a, b, True), u(a, b))
                if fits(op, a, b, st.pc):
                    ok = z3.BoolVal(True)
                elif op == 'mul' and self.scaled is not None:
                    ok = self.scaled(a, b) if self.scaled(a, b) is not None else ok
                self.oblige('overflow', st, ok, where + ': signed ' + op)
            if op in ('shl', 'lshr', 'ashr') and not isc(b):
                self.oblige('shift', st, z3.ULT(b, bv(w, w)), where + ': shift amount')
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige('division', st, b != 0, where + ': integer division by zero')
            if op in ('udiv', 'sdiv') and isc(b) and not isc(a):
                q = self.quotient(a, cval(b))
                if q is not None:
                    return q
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: self.times(a, b), 'udiv': lambda: z3.UDiv(a, b),
                 'sdiv': lambda: a / b, 'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b,
                 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'and': lambda: a & b, 'or': lambda: a | b,
                 'xor': lambda: a ^ b}[op]()
            return simp(r)
        if op in ('zext', 'sext', 'trunc'):
            a = A[0]
            w = self.width(i['ty'])
            if op == 'trunc':
                return simp(z3.Extract(w - 1, 0, a))
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - a.size(), a))
        if op in ('fptosi', 'fptoui'):
            w = self.width(i['ty'])
            if not isc(A[0]):
                self.oblige('conversion', st, fp.conv_range(A[0], w, op == 'fptosi'), where + ': float to integer conversion')
            return fp.fptoi(A[0], w, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            t = self.m.resolve(i['ty'])
            if t.k == 'x86_fp80':
                return self.ldop(i, A, st, where)
            return fp.itof(A[0], 64 if t.k == 'double' else 32, op == 'sitofp')
        if op in ('fptrunc', 'fpext'):
            t = self.m.resolve(i['ty'])
            if t.k == 'x86_fp80':
                return LD(A[0], A[0])
            return fp.conv(A[0], 64 if t.k == 'double' else 32)
        if op == 'bitcast':
            return A[0]
        if op == 'ptrtoint':
            return A[0]        # only differences are allowed
        raise Unsupported('instruction ' + op)

    def ldop(self, i, A, st, where):
        """long double: only a value known to lie between two representable bounds is modelled"""
        if i['op'] == 'fptrunc':
            v = A[0]
            w = 64 if self.m.resolve(i['ty']).k == 'double' else 32
            lo, hi = v.lo, v.hi
            if lo.size() != w:
                raise Unsupported('long double conversion')
            if v.key is None:
                if lo is hi or z3.eq(lo, hi):
                    return lo
                r = self.var('draw', w)
            else:
                r = self.fp.uf('draw', 64, 64, w, w, w)(*v.key, lo, hi)
            # rounding to nearest is monotone and exact on representable bounds
            st.pc.append(z3.And(self.fp.cmp('ole', lo, r), self.fp.cmp('ole', r, hi)))
            return r
        raise Unsupported('long double ' + i['op'])

    def simple_builtin(self, n, a, st, i):
        fp = self.fp
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing', 'llvm.experimental')):
            return (None,)
        if n.startswith('llvm.fabs.') or n in ('fabs', 'fabsf'):
            return (fp.abs(a[0]),)
        if n.startswith('llvm.copysign.') or n in ('copysign', 'copysignf'):
            return (fp.copysign(a[0], a[1]),)
        if n.startswith('llvm.sqrt.') or n in ('sqrt', 'sqrtf'):
            return (fp.sqrt(a[0]),)
        if fp.mode == 'fp' and a and z3.is_bv(a[0]):
            b = n.split('.')[1] if n.startswith('llvm.') else n[:-1] if n.endswith('f') and n != 'f' else n
            rm = {'floor': z3.RTN, 'ceil': z3.RTP, 'trunc': z3.RTZ, 'rint': z3.RNE, 'nearbyint': z3.RNE, 'roundeven': z3.RNE, 'round': z3.RNA}.get(b)
            if rm is not None and a[0].size() in (32, 64):
                return (simp(z3.If(fp.nan(a[0]), a[0], z3.fpToIEEEBV(z3.fpRoundToIntegral(rm(), fp.fp(a[0]))))),)
        if n.startswith('llvm.is.fpclass'):
            return None
        if n.startswith('llvm.ctlz.') or n.startswith('llvm.cttz.'):
            x = a[0]
            w = x.size()
            r = bv(w, w)
            rng = range(w) if n.startswith('llvm.ctlz.') else range(w - 1, -1, -1)
            for k in rng:
                r = z3.If(z3.Extract(k, k, x) == 1, bv(w - 1 - k if n.startswith('llvm.ctlz.') else k, w), r)
            return (simp(r),)
        if n.startswith('llvm.ctpop.'):
            x = a[0]
            w = x.size()
            r = bv(0, w)
            for k in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
            return (simp(r),)
        if n.startswith('llvm.abs.'):
            return (simp(z3.If(a[0] < 0, -a[0], a[0])),)
        if n.startswith(('llvm.umin.', 'llvm.umax.', 'llvm.smin.', 'llvm.smax.')):
            x, y = a[0], a[1]
            c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[n.split('.')[1]]
            return (simp(z3.If(c, x, y)),)
        if n.startswith('llvm.memcpy') or n in ('memcpy', 'memmove') or n.startswith('llvm.memmove'):
            self.memcpy(st, a)
            return (a[0],)
        if n.startswith('llvm.memset') or n == 'memset':
            o = st.mem[a[0].obj]
            if not isc(a[2]) or isinstance(o, Arr) or not isc(a[1]):
                raise Unsupported('memset')
            off = cval(simp(a[0].off))
            for k in range(cval(a[2])):
                self.storec(o, off + k, bv(cval(a[1]) & 255, 8), __import__('irlower').Ty('i', 8), 1)
            return (a[0],)
        if n.startswith('llvm.expect.'):
            return (a[0],)
        if n.startswith('llvm.trap'):
            self.oblige('trap', st, z3.BoolVal(False), 'trap')
            return (None,)
        if n.startswith('llvm.umul.with.overflow'):
            r = simp(a[0] * a[1])
            c = simp(z3.Not(z3.BVMulNoOverflow(a[0], a[1], False)))
            if not z3.is_false(c) and self.holds(st.pc, z3.Not(c)):
                c = z3.BoolVal(False)
            return ((r, self.b2v(c)),)
        if n in ('_Znwm', '_Znam', 'malloc') and not isc(a[0]):
            return (Ptr(self.newarr(st, None, None, a[0]), bv(0, 64)),)
        if n in ('_Znwm', '_Znam', 'malloc'):
            return (Ptr(self.newobj(st, Cells(cval(a[0]) if isc(a[0]) else 0, name='heap')), bv(0, 64)),)
        if n in ('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm'):
            return (None,)
        return None

    def newarr(self, st, esz, n, nbytes=None, name='array'):
        """fresh writable array"""
        a = Arr(f'{name}{self.nobj + 1}', None, None, True, watch=self.watch)
        a.bytes = nbytes if nbytes is not None else simp(n * bv(esz, 64))
        if esz is not None:
            a.settype(esz)
            a.n = n
        return self.newobj(st, a)

    def arrcpy(self, st, d, s, nbytes, where='copy'):
        """copy between two arrays: the content becomes a fresh function described by facts"""
        od, os_ = st.mem[d.obj], st.mem[s.obj]
        if not (isinstance(od, Arr) and isinstance(os_, Arr)):
            raise Unsupported('copy between an array and another object')
        if od.esz is None and os_.esz is not None:
            od.settype(os_.esz)
        if od.esz != os_.esz or od.esz is None:
            raise Unsupported('copy between arrays of different element size')
        di, si = self.index(st, od, d.off, where), self.index(st, os_, s.off, where)
        n = self.index(st, od, nbytes, where)
        for o, i in ((od, di), (os_, si)):
            self.oblige('memory', st, z3.And(z3.ULE(n, o.n), z3.ULE(i, o.n - n)), f'{where}: inside the bounds of {o.name}')
        if not od.writable:
            self.oblige('frame', st, n == 0, f'{where}: store into {od.name}, which must not be written')
            return
        old, src = od.copy(), os_.copy()
        g = self.freshfn(8 * od.esz)

        def fact(idx):
            inside = z3.ULT(idx - di, n)
            (sv, sf), (ov, of) = src.read(simp(idx - di + si)), old.read(idx)
            return z3.And(z3.Implies(inside, z3.And(g(idx) == sv, *sf)), z3.Implies(z3.Not(inside), z3.And(g(idx) == ov, *of)))
        od.reset(g, [fact])
        if od.watch is not None:
            od.wrote = simp(z3.Or(od.wrote, z3.ULT(od.watch - di, n)))
            st.pc.append(fact(od.watch))

    def freshfn(self, w):
        self.fresh += 1
        return z3.Function(f'content!{self.fresh}', z3.BitVecSort(64), z3.BitVecSort(w))

    def memcpy(self, st, a):
        d, s, n = a[0], a[1], a[2]
        if not isc(n):
            if isinstance(d, Ptr) and isinstance(s, Ptr) and d.obj in st.mem and s.obj in st.mem:
                return self.arrcpy(st, d, s, n)
            raise Unsupported('memcpy of symbolic length')
        n = cval(n)
        if n == 0:
            return
        od, os_ = st.mem[d.obj], st.mem[s.obj]
        if isinstance(od, Arr) and isinstance(os_, Arr):
            return self.arrcpy(st, d, s, bv(n, 64))
        if isinstance(od, Arr) or isinstance(os_, Arr):
            raise Unsupported('memcpy of an array')
        do, so = cval(simp(d.off)), cval(simp(s.off))
        if do + n > od.size or so + n > os_.size:
            self.oblige('memory', st, z3.BoolVal(False), 'memcpy bounds')
            return
        for co in list(od.cells):
            if do <= co < do + n:
                del od.cells[co]
        for co, (cs, cv) in list(os_.cells.items()):
            if so <= co and co + cs <= so + n:
                od.cells[do + co - so] = (cs, cv)

    def builtin(self, n, args, st):
        """external function without a model: an uninterpreted function of its scalar arguments"""
        if all(z3.is_expr(a) for a in args) and args:
            t = self.m.resolve(self.ret_ty)
            if t.k in ('double', 'float', 'i'):
                w = self.width(self.ret_ty)
                self.uninterp_calls[n] = self.uninterp_calls.get(n, 0) + 1
                return [(st, self.fp.uf('ext_' + n, *[a.size() for a in args], w)(*args))]
        raise Unsupported('external function ' + n)

    # -- loops closed by an inferred invariant
    def invariant_loop(self, f, head, prev, R, st, depth, counts, stop):
        loops = self.loopsof(f)
        body = loops[head]
        exits = set()
        for b in body:
            i = f.blocks[b][-1]
            tos = [i['to']] if i['op'] == 'br' else list(i['to']) if i['op'] == 'cbr' else \
                [i['default']] + [l for _, l in i['cases']] if i['op'] == 'switch' else [i.get('normal')] if i['op'] == 'invoke' else []
            exits |= {t for t in tos if t not in body}
        phidst = [i['dst'] for i in f.blocks[head] if i['op'] == 'phi']
        R0 = dict(R)
        self.phis(f, head, prev, R0, st)
        inner_stop = {head} | {('~exit', e) for e in exits}

        def body_paths(Rh, sh):
            """run one iteration from the header; returns (back paths, exit paths, returns)"""
            work, out = [], []
            self.block_body(f, head, dict(Rh), sh, depth, dict(counts), work, out)
            res = list(out)
            while work:
                b, pv, R2, s2, c2 = work.pop()
                res += self.blocks(f, b, pv, R2, s2, depth, c2, inner_stop)
            back, ex, rets = [], [], []
            for s2, v in res:
                if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == 'back':
                    (back if v[1] == head else ex).append((s2, v))
                else:
                    rets.append((s2, v))
            return back, ex, rets

        # a loop whose conditions are decided by constants is simply executed
        if self.concrete_loop(f, head, body, R0, st, body_paths):
            return None
        first = self.first
        self.dry += 1
        try:
            # 1. which variables change
            mod = {('r', d): None for d in phidst}
            arrs = set()
            for _ in range(8):
                Rh, sh, start = self.havoc(R0, st, mod, arrs)
                back, ex, rets = body_paths(Rh, sh)
                grown = False
                for s2, v in back:
                    for oid, o in s2.mem.items():
                        if oid not in start.mem:
                            continue
                        o0 = start.mem[oid]
                        if isinstance(o, Arr):
                            if oid not in arrs and (o.base is not o0.base or len(o.stores) != len(o0.stores) or
                                                    any(not x.eq(y) for a, b in zip(o.stores, o0.stores) for x, y in zip(a, b))):
                                if st.mem[oid].esz is None:
                                    st.mem[oid].settype(o.esz)
                                arrs.add(oid)
                                grown = True
                        else:
                            for co, (cs, cv) in o.cells.items():
                                old = o0.cells.get(co)
                                if old is None or old[0] != cs or not same(old[1], cv):
                                    if ('m', oid, co, cs) not in mod:
                                        mod[('m', oid, co, cs)] = None
                                        grown = True
                if not grown:
                    break
            else:
                raise Unsupported('loop state does not stabilise')
            # 2. affine variables
            self.fresh += 1
            k = z3.BitVec(f'k!{self.fresh}', 64)
            nxt = {}
            for key in mod:
                cur = self.get(key, Rh, start)
                steps = set()
                okv = True
                for s2, v in back:
                    Rn = self.next_regs(f, head, v, s2)
                    n = self.get(key, Rn, s2)
                    st_ = self.step(cur, n)
                    if st_ is None:
                        okv = False
                        break
                    steps.add(st_)
                if okv and len(steps) == 1:
                    nxt[key] = steps.pop()
        finally:
            self.dry -= 1
        if not back:
            return None     # body never repeats: plain execution is exact
        # header state in terms of k
        walk = []            # pointers that move by amounts that are not constant, inside one object
        Rk, sk = dict(R0), st.copy()
        for key in mod:
            v0 = self.get(key, R0, st)
            if key in nxt:
                s_ = nxt[key]
                if isinstance(v0, Ptr):
                    v = Ptr(v0.obj, simp(v0.off + k * bv(s_, 64)))
                else:
                    w = v0.size()
                    kk = k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
                    v = simp(v0 + kk * bv(s_, w))
            elif v0 is UNDEF:
                self.drop(key, Rk, sk)
                continue
            else:
                if isinstance(v0, Ptr) and v0.obj is not None:
                    walk.append((key, v0.obj))
                    v = Ptr(v0.obj, self.var('hp', 64))
                elif not z3.is_expr(v0):
                    raise LoopFail(f'loop-carried value {key} of {f.name} is not handled')
                else:
                    v = self.var('h', v0.size())
            self.put(key, v, Rk, sk)
        for oid in arrs:
            o = sk.mem[oid]
            o.reset(self.freshfn(8 * o.esz))
            o.wrote = z3.Bool(f'wrote!{self.fresh}')
        # 3. candidate invariants
        cands = self.candidates(f, head, R0, st, Rk, sk, k, mod, nxt, arrs, body_paths, first)
        base = sk.copy()
        axioms = self.head_axioms(k) if self.head_axioms else []
        self.heavy.update({x.get_id(): x for x in axioms})

        def fresh_head():
            s_ = base.copy()
            for c in keep:
                if len(c) > 2:        # the invariant holds for every index, not only the watched one
                    s_.mem[c[2]].facts.append(c[3])
            return dict(Rk), s_
        # Houdini: drop the candidates a counterexample falsifies until the rest is inductive
        keep = self.prune(cands, [(st.pc, lambda fn: fn(dict(R0), st, bv(0, 64)))])
        while True:
            Rh, sh = fresh_head()
            inv = [c[1](Rh, sh, k) for c in keep]
            sh.pc = list(st.pc) + inv + axioms
            self.dry += 1
            try:
                back, ex, rets = body_paths(dict(Rh), sh)
            finally:
                self.dry -= 1
            paths = [(s2.pc, (lambda fn, v=v, s2=s2: fn(self.next_regs(f, head, v, s2), s2, simp(k + 1)))) for s2, v in back]
            left = self.prune(keep, paths)
            if len(left) == len(keep):
                break
            keep = left
        Rh, sh = fresh_head()
        inv = [c[1](Rh, sh, k) for c in keep]
        sh.pc = list(st.pc) + inv + axioms
        if self.dry == 0:
            self.loop_notes.append({'function': f.name, 'header': head, 'affine': len(nxt), 'carried': len(mod),
                                    'invariants': [c[0] for c in keep]})
        # the invariant is inductive: run the body once more, recording its obligations
        mark, seen_before = len(self.cmplog), self.fresh
        back, ex, rets = body_paths(dict(Rh), sh)
        for key, oid in walk:
            for s2, v in back:
                p = self.get(key, self.next_regs(f, head, v, s2), s2)
                if not isinstance(p, Ptr) or p.obj != oid:
                    raise LoopFail(f'loop-carried value {key} of {f.name} is not handled')
        if self.dry == 0:
            conj = lambda R_, s_, k_: z3.And(*[c[1](R_, s_, k_) for c in keep]) if keep else z3.BoolVal(True)
            self.obl.append(Obl('invariant-init', st.pc, conj(dict(R0), st, bv(0, 64)), f'{f.name}/{head}'))
            for s2, v in back:
                self.obl.append(Obl('invariant-step', s2.pc, conj(self.next_regs(f, head, v, s2), s2, simp(k + 1)), f'{f.name}/{head}'))
            # termination
            self.termination(f, head, Rh, sh, back, k, self.visible(self.cmplog[mark:], seen_before))
        out = list(rets)
        for s2, v in ex:
            _, b, R2, pv = v
            out += self.blocks(f, b, pv, R2, s2, depth, counts, stop)
        return out

    def visible(self, pairs, limit):
        """comparisons whose terms exist already at the loop header (nothing created inside the body)"""
        out, seen = [], set()
        for x, y in pairs:
            x, y = simp(x), simp(y)
            if (x.get_id(), y.get_id()) in seen:
                continue
            if all('!' not in str(v) or int(str(v).rsplit('!', 1)[1]) <= limit for v in z3vars(x) + z3vars(y)):
                seen.add((x.get_id(), y.get_id()))
                out.append((x, y))
        return out

    def prune(self, cands, paths):
        keep = list(cands)
        for pc, inst in paths:
            pairs = [(c, simp(inst(c[1]))) for c in keep]
            pairs = [(c, e) for c, e in pairs if not z3.is_false(e)]
            solo = False
            while True:
                todo = [e for _, e in pairs if not z3.is_true(e)]
                if not todo:
                    break
                if solo:
                    pairs = [(c, e) for c, e in pairs if self.holds(pc, e, 3000)]
                    break
                try:
                    r, mdl = check(list(pc) + [z3.Not(z3.And(*todo))], 10000)
                except Unknown:
                    solo = True
                    continue
                if r == 'unsat':
                    break
                left = [(c, e) for c, e in pairs if z3.is_true(e) or z3.is_true(mdl.eval(e, model_completion=True))]
                if len(left) == len(pairs):
                    solo = True
                pairs = left
            keep = [c for c, _ in pairs]
        return keep

    def holds(self, pc, c, timeout=20000):
        c = simp(c)
        if z3.is_true(c):
            return True
        try:
            return check(list(pc) + [z3.Not(c)], timeout)[0] == 'unsat'
        except Unknown:
            return False

    def concrete_loop(self, f, head, body, R0, st, body_paths):
        """true when the first iterations are decided by constants"""
        self.dry += 1
        mark, decided = len(self.cbrlog), self.decided
        try:
            back, ex, rets = body_paths(dict(R0), st.copy())
        finally:
            self.dry -= 1
        self.first = back
        leave = {b for b in body if f.blocks[b][-1]['op'] == 'cbr' and any(t not in body for t in f.blocks[b][-1]['to'])}
        log = [c for fn, b, c in self.cbrlog[mark:] if fn == f.name and b in leave]
        if log and all(log) and not (back and ex) and self.decided == decided and all(f.blocks[b][-1]['op'] != 'switch' for b in body):
            return True
        return len(back) + len(ex) + len(rets) == 1 and not (back and len(back[0][0].pc) > len(st.pc))

    def next_regs(self, f, head, v, s2):
        R2 = dict(v[2])
        self.phis(f, head, v[3], R2, s2)
        return R2

    def get(self, key, R, st):
        if key[0] == 'r':
            return R[key[1]]
        _, oid, co, cs = key
        c = st.mem[oid].cells.get(co)
        if c is None or c[0] != cs:
            return UNDEF
        return c[1]

    def put(self, key, v, R, st):
        if key[0] == 'r':
            R[key[1]] = v
        else:
            _, oid, co, cs = key
            st.mem[oid].cells[co] = (cs, v)

    def havoc(self, R0, st, mod, arrs):
        R, s = dict(R0), st.copy()
        for key in mod:
            v = self.get(key, R0, st)
            if isinstance(v, Ptr):
                self.put(key, Ptr(v.obj, self.var('hp', 64)), R, s)
            elif z3.is_expr(v):
                self.put(key, self.var('h', v.size()), R, s)
            elif v is UNDEF:
                self.drop(key, R, s)       # a temporary: every iteration must write it before reading it
            else:
                raise LoopFail('loop-carried value of unsupported kind')
        for oid in arrs:
            o = s.mem[oid]
            o.reset(self.freshfn(8 * o.esz))
        return R, s.copy(), s

    def drop(self, key, R, st):
        if key[0] == 'r':
            R[key[1]] = UNDEF
        else:
            st.mem[key[1]].cells.pop(key[2], None)

    def step(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return None
            a, b = a.off, b.off
        if not (z3.is_expr(a) and z3.is_expr(b)) or a.size() != b.size():
            return None
        d = simp(b - a)
        return cval(d) if isc(d) else None

    def candidates(self, f, head, R0, st, Rk, sk, k, mod, nxt, arrs, body_paths, first):
        """templates: bounds between affine variables and the terms they are compared with, progress of written arrays,
        and the specification folds"""
        out = []
        # comparisons made in the body
        mark, seen_before = len(self.cmplog), self.fresh
        self.dry += 1
        try:
            s = sk.copy()
            back, ex, rets = body_paths(dict(Rk), s)
        finally:
            self.dry -= 1
        conds = self.visible(self.cmplog[mark:], seen_before)
        sub = lambda e, R, s2, kk: z3.substitute(e, (k, kk)) if z3.is_expr(kk) else e
        havoced = [(key, self.get(key, Rk, sk)) for key in mod if key not in nxt]
        havoced = [(key, v) for key, v in havoced if z3.is_expr(v)]

        def inst(e, name):
            def fn(R, s2, kk):
                pairs = [(k, kk)]
                for key, hv in havoced:
                    pairs.append((hv, self.get(key, R, s2)))
                return z3.substitute(e, *[p for p in pairs if z3.is_expr(p[1])])
            out.append((name, fn))
        steps = sorted({abs(v if v < 1 << 63 else v - (1 << 64)) for v in nxt.values()} |
                       {abs(v - (1 << w_)) for key, v in nxt.items() for w_ in (16, 32) if v >= 1 << (w_ - 1) and v < 1 << w_} - {0})
        steps = [s_ for s_ in steps if 0 < s_ < 4096][:4]
        seenc = set()

        def bound(q, nm):
            """k*step <= q"""
            q = simp(z3.ZeroExt(64 - q.size(), q) if q.size() < 64 else q)
            if q.get_id() in seenc or isc(q):
                return
            seenc.add(q.get_id())
            keepalive.append(q)
            for s_ in steps:
                if s_ == 1:
                    inst(z3.ULE(k, q), f'k <= {nm}')
                else:
                    # without wrap-around of the product
                    inst(z3.And(z3.ULT(k, bv((1 << 64) // s_, 64)), z3.ULE(k * bv(s_, 64), q)), f'{s_}k <= {nm}')
        keepalive = []
        for x, y in conds:
            if x.size() <= 64:
                inst(z3.ULE(x, y), f'{x} <= {y}')
                inst(z3.UGE(x, y), f'{x} >= {y}')
                x0, y0 = [simp(z3.substitute(t, (k, bv(0, 64)))) for t in (x, y)]
                for q in (simp(y0 - x0), simp(x0 - y0), x0, y0):
                    if not any(h.get_id() in [z.get_id() for z in z3vars(q)] for _, h in havoced if z3.is_expr(h)):
                        bound(q, str(q))
        inst(z3.ULT(k, bv(1 << 32, 64)), 'k < 2^32')
        inst(z3.ULT(k, bv(1 << 31, 64)), 'k < 2^31')
        inst(z3.ULE(k, bv(1 << 61, 64)), 'k <= 2^61')
        # written arrays: progress of the stores
        for oid in arrs if self.contents else ():
            o = sk.mem[oid]
            idxs = []
            for s2, _ in back:
                for (oi, ix) in s2.log[len(sk.log):]:
                    if oi == oid:
                        idxs.append(ix)
            j = o.watch
            o0 = st.mem[oid].copy()
            w0 = o0.wrote
            nspec = len(self.specs_at(o, j))
            seen = set()
            regions = []
            for ix in idxs:
                e = narrow(ix)
                c = simp(z3.substitute(ix, (k, bv(0, 64))))
                d = simp(z3.substitute(e, (k, bv(1, 64))) - z3.substitute(e, (k, bv(0, 64))))
                if isc(d):
                    regions.append((c, d.as_signed_long()))
            # positions of affine variables (element units): progress of nested loops
            for key in nxt:
                a0 = self.get(key, R0, st)
                sd = nxt[key]
                if isinstance(a0, Ptr):
                    sd = sd if sd < 1 << 63 else sd - (1 << 64)
                    if a0.obj in st.mem and isinstance(st.mem[a0.obj], Arr) and sd % o.esz == 0:
                        sh_ = {1: 0, 2: 1, 4: 2, 8: 3}[o.esz]
                        c = simp(z3.LShR(a0.off, sh_))
                        sd //= o.esz
                    else:
                        continue
                else:
                    w_ = a0.size()
                    if w_ not in (32, 64):
                        continue
                    sd = sd if sd < 1 << (w_ - 1) else sd - (1 << w_)
                    c = simp(z3.ZeroExt(64 - w_, a0)) if w_ < 64 else a0
                if self.level == 0:
                    continue
                regions.append((c, sd))
                if sd < 0:
                    regions.append((simp(c - 1), sd))
            for c, sd in regions:
                if sd == 0 or (c.get_id(), sd) in seen:
                    continue
                seen.add((c.get_id(), sd))
                keepalive.append(c)
                for clip in (False, True)[:self.level + 1]:
                    def reg(kk, j=j, c=c, sd=sd, clip=clip, n=o.n):
                        r = z3.ULT(j - c, kk * bv(sd, 64)) if sd > 0 else z3.ULT(c - j, kk * bv(-sd, 64))
                        return z3.And(r, z3.ULT(j, n)) if clip else r

                    def mk1(q, reg=reg, oid=oid, o=o):
                        def f1(R, s2, kk):
                            oo = s2.mem[oid]
                            return z3.Implies(reg(kk), meets(oo.val, self.specs_at(oo, oo.watch)[q]))

                        def g1(idx):
                            return z3.Implies(reg(k, idx), meets(o.base(idx), self.specs_at(o, idx)[q]))
                        return f1, g1

                    def f2(R, s2, kk, reg=reg, oid=oid, o0=o0):
                        return z3.Implies(z3.Not(reg(kk)), s2.mem[oid].val == o0.val)

                    def g2(idx, reg=reg, o=o, o0=o0):
                        v, fs = o0.read(idx)
                        return z3.And(z3.Implies(z3.Not(reg(k, idx)), o.base(idx) == v), *fs)

                    def f3(R, s2, kk, reg=reg, oid=oid, w0=w0):
                        return s2.mem[oid].wrote == z3.Or(w0, reg(kk))

                    def f4(R, s2, kk, reg=reg, oid=oid, w0=w0):
                        return z3.Implies(reg(kk), s2.mem[oid].wrote)
                    for q in range(nspec):
                        f1, g1 = mk1(q)
                        out.append((f'written part of {o.name} has the specified values{q or ""} (start {c}, step {sd}{clip * ", clipped"})', f1, oid, g1))
                    out.append((f'unwritten part of {o.name} is unchanged (start {c}, step {sd}{clip * ", clipped"})', f2, oid, g2))
                    out.append((f'exactly the processed part of {o.name} was written (start {c}, step {sd}{clip * ", clipped"})', f3))
                    out.append((f'the processed part of {o.name} was written (start {c}, step {sd}{clip * ", clipped"})', f4))
        # variables with few values
        for key, hv in havoced:
            vals = [self.get(key, R0, st)] + [self.get(key, self.next_regs(f, head, v, s2), s2) for s2, v in first]
            vals = [simp(v) for v in vals if z3.is_expr(v)]
            if vals and all(isc(v) for v in vals):
                vals = {cval(v) for v in vals}

                def fv(R, s2, kk, key=key, vals=vals):
                    v = self.get(key, R, s2)
                    return z3.Or(*[v == c for c in sorted(vals)]) if z3.is_expr(v) else z3.BoolVal(False)
                out.append((f'{key} is one of {sorted(vals)}', fv))
        # specification folds
        for key, hv in havoced:
            for fd in self.folds:
                if fd.width == hv.size():
                    def ff(R, s2, kk, key=key, fd=fd):
                        v = self.get(key, R, s2)
                        return v == fd.at(kk)
                    out.append((f'{key} equals {fd.name} of the processed part', ff))
        if self.extra_candidates:
            out += self.extra_candidates(self, R0, st, Rk, sk, k, mod, nxt)
        return out

    def specs_at(self, o, idx):
        r = self.watch_spec(o, idx) if self.watch_spec else []
        return r if isinstance(r, (list, tuple)) else [r]

    def termination(self, f, head, Rh, sh, back, k, conds):
        """a measure that decreases (unsigned) along every back path"""
        meas = [bv((1 << 62), 64) - k]      # an invariant bound on the number of iterations is enough
        for x, y in conds:
            meas += [y - x, x - y, x, y]
        ok = None
        for m in meas:
            nm = z3.substitute(m, (k, simp(k + 1)))
            if all(self.holds(s2.pc, z3.ULT(nm, m)) for s2, _ in back):
                ok = m
                break
        for s2, _ in back:
            c = z3.ULT(z3.substitute(ok, (k, simp(k + 1))), ok) if ok is not None else z3.BoolVal(False)
            self.obl.append(Obl('termination', s2.pc, c, f'{f.name}/{head}: ' + (f'measure {simp(ok)}' if ok is not None else
                                                                                'no decreasing measure found')))


def meets(v, spec):
    """specification of an element: its value, or a predicate on it"""
    return spec(v) if callable(spec) else v == spec


class LD:
    """long double known only to lie in [lo,hi]"""
    __slots__ = ('lo', 'hi', 'key')

    def __init__(self, lo, hi, key=None):
        self.lo, self.hi, self.key = lo, hi, key


class Fold:
    """Recursively specified function of the number of processed elements."""

    def __init__(self, name, width, init, step):
        self.name, self.width = name, width
        self.fn = z3.Function('fold_' + name, z3.BitVecSort(64), z3.BitVecSort(width))
        self.init, self.step = init, step

    def at(self, k):
        return self.fn(k)

    def axioms(self, ks):
        """unfolding at zero and at the given terms"""
        r = [self.fn(bv(0, 64)) == self.init]
        for k in ks:
            r.append(self.fn(simp(k + 1)) == self.step(self.fn(k), k))
        return r


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.size() == b.size() and z3.eq(a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and z3.eq(a.off, b.off)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return a.name == b.name
    return False


def srange(e, bounds, depth=0):
    """signed range of a term as an integer interval (sound: falls back to the full range)"""
    w = e.size()
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if isc(e):
        v = e.as_signed_long()
        return v, v
    if depth > 40:
        return full
    b = bounds.get(e.get_id())
    if b is not None and b < 1 << (w - 1):
        return 0, b
    k = e.decl().kind()
    c = [e.arg(i) for i in range(e.num_args())]
    if k == z3.Z3_OP_ZERO_EXT:
        lo, hi = srange(c[0], bounds, depth + 1)
        return (lo, hi) if lo >= 0 else (0, (1 << c[0].size()) - 1)
    if k == z3.Z3_OP_SIGN_EXT:
        return srange(c[0], bounds, depth + 1)
    if k == z3.Z3_OP_CONCAT and isc(c[0]) and cval(c[0]) == 0:
        n = sum(x.size() for x in c[1:])
        if len(c) == 2:
            lo, hi = srange(c[1], bounds, depth + 1)
            if lo >= 0:
                return lo, hi
        return 0, (1 << n) - 1
    if k == z3.Z3_OP_ITE:
        (a, b_), (c_, d) = srange(c[1], bounds, depth + 1), srange(c[2], bounds, depth + 1)
        return min(a, c_), max(b_, d)
    if k == z3.Z3_OP_BNEG:
        lo, hi = srange(c[0], bounds, depth + 1)
        r = (-hi, -lo)
    elif k == z3.Z3_OP_BADD:
        rs = [srange(x, bounds, depth + 1) for x in c]
        r = (sum(x for x, _ in rs), sum(x for _, x in rs))
    elif k == z3.Z3_OP_BSUB and len(c) == 2:
        x, y = [srange(t, bounds, depth + 1) for t in c]
        r = (x[0] - y[1], x[1] - y[0])
    elif k == z3.Z3_OP_BMUL and len(c) == 2:
        x, y = [srange(t, bounds, depth + 1) for t in c]
        p = [u * v for u in x for v in y]
        r = (min(p), max(p))
    else:
        return full
    return r if full[0] <= r[0] and r[1] <= full[1] else full


def fits(op, a, b, pc):
    """the signed result of a op b does not overflow, by interval reasoning"""
    bounds = {}
    for c in pc:
        neg = z3.is_not(c)
        if neg:
            c = c.arg(0)
        if z3.is_app_of(c, z3.Z3_OP_ULT) and not neg and isc(c.arg(1)) and cval(c.arg(1)) > 0:
            x, v = c.arg(0), cval(c.arg(1)) - 1
            bounds[x.get_id()] = min(v, bounds.get(x.get_id(), v))
        if z3.is_app_of(c, z3.Z3_OP_ULEQ):
            x, y = c.arg(0), c.arg(1)
            if not neg and isc(y):
                bounds[x.get_id()] = min(cval(y), bounds.get(x.get_id(), cval(y)))
            if neg and isc(x) and cval(x) > 0:       # not (c <= y): y < c
                bounds[y.get_id()] = min(cval(x) - 1, bounds.get(y.get_id(), cval(x) - 1))
    w = a.size()
    x, y = srange(simp(a), bounds), srange(simp(b), bounds)
    r = {'add': [x[0] + y[0], x[1] + y[1]], 'sub': [x[0] - y[1], x[1] - y[0]], 'mul': [u * v for u in x for v in y]}[op]
    return -(1 << (w - 1)) <= min(r) and max(r) < 1 << (w - 1)


def narrow(e):
    """the value part of a zero-extended term"""
    while z3.is_app_of(e, z3.Z3_OP_CONCAT) and isc(e.arg(0)) and cval(e.arg(0)) == 0 and e.num_args() == 2:
        e = e.arg(1)
    if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
        return narrow(e.arg(0))
    return e


def z3vars(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


def atoms(c):
    """comparison atoms of a boolean expression"""
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        if z3.is_and(x) or z3.is_or(x) or z3.is_not(x):
            todo += x.children()
        elif z3.is_app(x) and x.num_args() == 2 and z3.is_bv(x.arg(0)):
            out.append(x)
    return out


def discharge(obls, timeout=None):
    """[(obligation, status, model)] with status 'proved' | 'refuted' | 'unknown'; syntactically identical ones are solved once"""
    res = []
    cache = {}
    for o in obls:
        c = simp(o.cond)
        if z3.is_eq(c) and z3.is_bv(c.arg(0)) and not z3.is_true(c):
            d = z3.simplify(c.arg(0) - c.arg(1), som=True)
            if isc(d) and cval(d) == 0:
                c = z3.BoolVal(True)
        if z3.is_true(c):
            res.append((o, 'proved', None))
            continue
        key = (tuple(x.get_id() for x in o.pc), c.get_id())
        if key not in cache:
            try:
                r, mdl = check(o.pc + [z3.Not(c)], timeout)
                cache[key] = ('proved' if r == 'unsat' else 'refuted', mdl)
            except Unknown:
                cache[key] = ('unknown', None)
        res.append((o, *cache[key]))
    return res
