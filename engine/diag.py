"""Contracts of the diagnostics classes: the real headers are compiled against library contracts (engine/mockstd) and
executed symbolically; containers have arbitrary length and content."""
import multiprocessing, os, re, struct, time
import z3
import common as K
import irlower, relate, smt
from smt import bv, simp

MOCK = os.path.join(K.HERE, 'mockstd')
FLAGS = ['-I' + MOCK, '-I' + os.path.join(K.INC, 'diagnostic'), '-fno-rtti', '-fno-access-control']
TRUST = relate.TRUST + ['engine/mockstd: contracts of the standard library (containers as arrays of arbitrary length, streams as token '
                        'sequences, strings as opaque values) used instead of its implementation']
SIZE = 'collections have fewer than 2^32 elements'


# texts of arbitrary content: what is before and after the first and the last equal sign
TEXT = z3.DeclareSort('Text')
HAS = z3.Function('has_equal_sign', TEXT, z3.BoolSort())
PRE, POST, PRE2, POST2 = (z3.Function(x, TEXT, TEXT) for x in ('before_first', 'after_first', 'before_last', 'after_last'))
POS, POS2 = (z3.Function(x, TEXT, z3.BitVecSort(30)) for x in ('first_position', 'last_position'))
JOIN = z3.Function('joined', TEXT, TEXT, TEXT)


class Ctx:
    """one symbolic run of a harness function"""

    def __init__(self, m, externs=None, loops='invariant', mode='uf', unroll=80):
        self.ex = smt.Exec(m, mode=mode, loops=loops, unroll=unroll, max_paths=20000)
        self.st = smt.State()
        self.st.obs = ()
        self.j = self.ex.watch
        self.strs = []
        self.pos = []
        self.lits = {}
        self.ex.ext.update(self.library())
        self.ex.ext.update(externs or {})

    def array(self, name, w, n, writable=False):
        a = smt.Arr(name, w // 8, n, writable, watch=self.j)
        return a, smt.Ptr(self.ex.newobj(self.st, a), bv(0, 64))

    def string(self, term):
        for i, t in enumerate(self.strs):
            if t.eq(term):
                return bv(i, 64)
        self.strs.append(term)
        return bv(len(self.strs) - 1, 64)

    def term(self, h):
        h = simp(h)
        if not smt.isc(h) or smt.cval(h) >= len(self.strs):
            raise irlower.Unsupported('operation on an unknown string')
        return self.strs[smt.cval(h)]

    def text(self, st, t):
        """a text as an element of the sort of arbitrary texts"""
        if t.sort() == TEXT:
            return t
        if not z3.is_string_value(t):
            raise irlower.Unsupported('text of mixed kind')
        v = t.as_string()
        if v not in self.lits:
            self.lits[v] = z3.Const(f'text {v!r}', TEXT)
        k = self.lits[v]
        known = [k != o for w, o in self.lits.items() if w != v] + [HAS(k) == ('=' in v)]
        have = {x.get_id() for x in st.pc}
        st.pc += [f for f in known if f.get_id() not in have]
        return k

    def cstring(self, st, p):
        """constant text at a pointer, or the symbolic text of an argument"""
        if not isinstance(p, smt.Ptr) or p.obj not in st.mem:
            raise irlower.Unsupported('text at an unknown pointer')
        o = st.mem[p.obj]
        if getattr(o, 'zstr', None) is not None:
            if not (smt.isc(p.off) and smt.cval(p.off) == 0):
                raise irlower.Unsupported('pointer into an argument')
            return o.zstr
        out, k = [], smt.cval(simp(p.off))
        while True:
            c = o.cells.get(k)
            if c is None or c[0] != 1 or not smt.isc(c[1]):
                raise irlower.Unsupported('text that is not constant')
            v = smt.cval(c[1])
            if v == 0:
                return z3.StringVal(''.join(out))
            out.append(chr(v))
            k += 1

    def library(self):
        ex = self.ex
        self.bound = bv(1 << 58, 64)

        def vt_array(ex, st, a):
            return [(st, smt.Ptr(ex.newarr(st, smt.cval(a[0]), self.bound, name='vector'), bv(0, 64)))]

        def vt_cells(ex, st, a):
            return [(st, smt.Ptr(ex.newobj(st, smt.Cells(smt.cval(a[0]), name='storage')), bv(0, 64)))]

        def vt_copy(ex, st, a):
            p = smt.Ptr(ex.newarr(st, smt.cval(a[2]), self.bound, name='vector'), bv(0, 64))
            ex.arrcpy(st, p, a[0], simp(a[1] * a[2]), 'copy of a vector')
            return [(st, p)]

        def vt_unknown(ex, st, a):
            return [(st, ex.var('unknown', 64))]

        def vt_assert(ex, st, a):
            ex.oblige('library', st, ex.boolval(a[0]), 'precondition of a library function')
            return [(st, None)]

        def vt_observe(ex, st, a):
            st.obs = st.obs + ((smt.cval(a[0]), tuple(a[1:])),)
            return [(st, None)]

        def vs_lit(ex, st, a):
            return [(st, self.string(self.cstring(st, a[0])))]

        def vs_newlines(ex, st, a):
            h = simp(a[0])
            if smt.isc(h) and smt.cval(h) < len(self.strs) and z3.is_string_value(self.strs[smt.cval(h)]):
                return [(st, bv(self.strs[smt.cval(h)].as_string().count('\\u{a}') + self.strs[smt.cval(h)].as_string().count('\n'), 64))]
            return [(st, bv(0, 64))]

        def vs_endsnl(ex, st, a):
            t = self.term(a[0]).as_string()
            return [(st, bv(int(t.endswith('\\u{a}') or t.endswith('\n')), 64))]

        def vs_cat(ex, st, a):
            x, y = self.term(a[0]), self.term(a[1])
            if x.sort() == TEXT or y.sort() == TEXT:
                return [(st, self.string(JOIN(self.text(st, x), self.text(st, y))))]
            return [(st, self.string(simp(z3.Concat(x, y))))]

        def vs_eq(ex, st, a):
            x, y = self.term(a[0]), self.term(a[1])
            if x.sort() == TEXT or y.sort() == TEXT:
                return [(st, ex.b2v(self.text(st, x) == self.text(st, y)))]
            return [(st, ex.b2v(x == y))]

        def vs_char(ex, st, a):
            return [(st, self.string(z3.StringVal(chr(smt.cval(simp(a[0]))))))]

        def cut(ex, st, s, c, last):
            """position of a character: the text is split there"""
            if c.as_string() != '=':
                raise irlower.Unsupported('search for another character')
            s = self.text(st, s)
            pre, post = (PRE2(s), POST2(s)) if last else (PRE(s), POST(s))
            out = []
            if ex.feasible(st, z3.Not(HAS(s))):
                s2 = st.copy()
                s2.pc.append(z3.Not(HAS(s)))
                out.append((s2, bv(2 ** 64 - 1, 64)))
            if ex.feasible(st, HAS(s)):
                at = z3.ZeroExt(34, (POS2 if last else POS)(s))
                st.pc += [HAS(s), (at == 0) == (pre == self.text(st, z3.StringVal(''))), z3.Not(HAS(post if last else pre))]
                self.pos.append((s, at, pre, post))
                out.append((st, at))
            return out

        def vs_find(ex, st, a):
            s, c = self.term(a[0]), self.term(a[1])
            if not (smt.isc(simp(a[2])) and smt.cval(simp(a[2])) == 0) or not z3.is_string_value(c) or len(c.as_string()) != 1:
                raise irlower.Unsupported('search in a string')
            return cut(ex, st, s, c, False)

        def vs_rfind(ex, st, a):
            return cut(ex, st, self.term(a[0]), self.term(a[1]), True)

        def vs_sub(ex, st, a):
            s, p, n = self.term(a[0]), simp(a[1]), simp(a[2])
            npos = bv(2 ** 64 - 1, 64)
            whole = smt.isc(n) and n.eq(npos)
            if smt.isc(p) and smt.cval(p) == 0 and whole:
                return [(st, self.string(s))]
            s = self.text(st, s)
            same = lambda x, y: not smt.isc(x) and ex.holds(st.pc, x == y, 5000)
            for t, at, pre, post in self.pos:
                if not t.eq(s):
                    continue
                if smt.isc(p) and smt.cval(p) == 0 and same(n, at):
                    return [(st, self.string(pre))]
                if whole and same(p, at + 1):
                    return [(st, self.string(post))]
            raise irlower.Unsupported('part of a string')

        return {k: v for k, v in locals().items() if k.startswith(('vt_', 'vs_'))}

    def run(self, fn, args):
        return self.ex.run(fn, args, self.st)


def module(src, name='diag', flags=()):
    return relate.module(src, name, [*FLAGS, *flags])


def settle(R, prop, name, ex, obls, reach=True, timeout=None):
    """discharge; returns None or a description of what failed"""
    q0 = smt.STATS['seconds']
    obls = list(ex.obl) + list(obls)
    res = smt.discharge(obls, timeout)
    bad = [(o, s) for o, s, _ in res if s != 'proved']
    R.ob('z3', len(res), len(res) - len(bad), smt.STATS['seconds'] - q0)
    c = {'name': name, 'obligations': len(res), 'solver_s': round(smt.STATS['seconds'] - q0, 3)}
    if ex.loop_notes:
        c['loop_invariants'] = [l['invariants'] for l in ex.loop_notes][:4]
    R.coverage.setdefault('contracts', []).append(c)
    R.functions(ex.used)
    if reach is not True and not reach:
        R.error(f'{name}: vacuous')
    if not bad:
        return None
    if all(s == 'unknown' for _, s in bad):
        return ('error', f'{name}: solver limit at {bad[0][0].kind}: {bad[0][0].where}')
    o = [o for o, s in bad if s != 'unknown'][0]
    return ('undecided', f'{o.kind}: {o.where}')


def eq(x, y):
    """x == y, false where x is an undefined value"""
    return x == y if z3.is_expr(x) else z3.BoolVal(False)


def attempt(R, prop, name, fn):
    """runs one proof; returns None, ('undecided', why) or ('error', why)"""
    try:
        return fn()
    except irlower.Unsupported as e:
        return ('error', f'{name}: unsupported construct: {e}')
    except smt.Unknown as e:
        return ('error', f'{name}: solver limit: {e}')
    except z3.Z3Exception as e:
        return ('error', f'{name}: {e}')
    except smt.LoopFail as e:
        R.ob('z3', 1, 0)
        return ('undecided', f'loop not closed: {e}')


JOBS = {}
LIMIT = 500     # seconds per proof


def _job(name):
    prop, fns = JOBS[name]
    smt.DEADLINE = time.time() + LIMIT
    first = None
    for fn in fns if isinstance(fns, (list, tuple)) else [fns]:
        R = K.Result(prop, '')
        smt.STATS['seconds'] = 0.0
        r = attempt(R, prop, name, lambda: fn(R))
        if r is None:
            break
        first = first or r
    return name, r and first, R.coverage, R.errors


def prove(R, prop, fails, jobs):
    """runs the proofs (name -> fn(R), or several to try in order) in parallel, unless the compiled code already failed, and concludes"""
    outs = {}
    JOBS.clear()
    JOBS.update({n: (prop, f) for n, f in jobs.items()})
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2, len(jobs))) as pool:
        done = {n: (r, c, e) for n, r, c, e in pool.imap_unordered(_job, list(jobs))}
    for name in jobs:
        outs[name], c, errs = done[name]
        for b, t in c['backends'].items():
            R.ob(b, t['obligations'], t['discharged'], t['solver_seconds'])
        R.coverage.setdefault('contracts', []).extend(c.get('contracts', []))
        R.functions(c['functions_under_contract'])
        R.functions(c.get('library_functions_executed', []))
        R.errors += errs
    conclude(R, fails, outs)


def native(R, src, name, flags=(), timeout=250, notes=None):
    """compiles and runs a driver against the real library; its lines `FAIL <key> <text>` are failing inputs"""
    w = K.workdir()
    cpp, exe = os.path.join(w, name + '.cpp'), os.path.join(w, name)
    open(cpp, 'w').write(src)
    K.need(['g++', '-std=c++11', '-O1', '-w', '-fno-access-control', *flags, '-I' + K.INC, '-I' + os.path.join(K.INC, 'diagnostic'), cpp, '-o', exe],
           'compiling the driver')
    r = K.sh([exe], timeout=timeout, cwd=w)
    fails = {}
    for ln in r.stdout.splitlines():
        if ln.startswith('FAIL '):
            _, k, t = ln.split(' ', 2)
            fails.setdefault(k, t)
        elif ln.startswith('NOTE ') and notes is not None:
            notes.append(ln.split()[1:])
    done = [ln for ln in r.stdout.splitlines() if ln.startswith('DONE ')]
    if r.returncode != 0 or not done:
        if r.returncode < 0 and not fails:
            fails['crash'] = f'the driver ended with signal {-r.returncode}'
        elif not fails:
            raise K.CheckError(f'driver {name} ended with {r.returncode}: {r.stderr[-500:]}')
    if done:
        R.coverage['concrete_cases'] = R.coverage.get('concrete_cases', 0) + int(done[-1].split()[1])
    return fails


def conclude(R, fails, outcomes):
    """outcomes: name -> None | (kind, why).  A failing run of the compiled code decides; an undischarged obligation without one is
    reported as such."""
    for k, t in fails.items():
        R.violate(k, t, {'input': t})
    for name, o in outcomes.items():
        if o is None:
            continue
        if fails:
            continue
        if o[0] == 'error':
            R.error(o[1])
        else:
            R.violate(name, f'obligation not discharged: {o[1]}', {'obligation': o[1]}, replayable=False)

T = {64: 'double', 32: 'float'}
SFX = {64: 'd', 32: 'f'}

# ---------------------------------------------------------------- differing bits
C25_SRC = r'''
#include "vdtdiag_helper.h"
extern "C" uint16_t h_diff_d(double a, double b) { return vdth::diffbit<double>(a, b); }
extern "C" uint16_t h_diff_f(float a, float b) { return vdth::diffbit<float>(a, b); }
'''
C25_DRV = r'''
#include <cstdio>
#include <cstring>
#include "vdtdiag_helper.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
template<class T,class I> void go(const char*k,long n){ unsigned W=8*sizeof(T); long bad=0;
  for(long i=0;i<n;++i){ I a=(I)rnd(), b; unsigned m=rnd()%8; I one=1;
    if(m==0) b=a; else if(m==1) b=a^(one<<(rnd()%W)); else if(m==2) b=(I)rnd(); else if(m==3) b=a+(one<<(rnd()%W)); else if(m==4) b=a+(one<<(rnd()%W))-1;
    else if(m==5){ a=(I)(rnd()%3); b=(I)(0-(I)(rnd()%3)); } else if(m==6) b=a-(one<<(rnd()%W))+1; else b=a+(I)(rnd()>>(rnd()%64));
    T x,y; memcpy(&x,&a,sizeof x); memcpy(&y,&b,sizeof y);
    uint64_t d=a>b?a-b:b-a; unsigned e=d?64-__builtin_clzll(d):0; unsigned r=vdth::diffbit<T>(x,y), r2=vdth::diffbit<T>(y,x);
    if((r!=e||r2!=e)&&!bad++) printf("FAIL %s bit patterns %llx and %llx: %u and %u instead of %u\n",k,(unsigned long long)a,(unsigned long long)b,r,r2,e); } }
int main(){ go<double,uint64_t>("diffbit<double>",400000); go<float,uint32_t>("diffbit<float>",400000); printf("DONE 800000\n"); }
'''


def bitlen(x, w):
    r = bv(0, w)
    for k in range(x.size()):
        r = z3.If(z3.Extract(k, k, x) == 1, bv(k + 1, w), r)
    return r


def run_C25(prop, R):
    R.trust(*TRUST)
    fails = native(R, C25_DRV, 'c25')
    if fails:
        return conclude(R, fails, {})
    m = module(C25_SRC)
    jobs = {}
    for w in (64, 32):
        name = f'diffbit<{T[w]}>'

        def go(R, w=w, name=name):
            c = Ctx(m, loops='unroll')
            a, b = z3.BitVecs('a b', w)
            res = c.run('h_diff_' + SFX[w], [a, b])
            d = z3.If(z3.UGT(a, b), a - b, b - a)
            obls = []
            for st, v in res:
                obls.append(smt.Obl('value', st.pc, v == bitlen(d, 16), f'{name} is the bit length of the difference'))
                obls.append(smt.Obl('zero', st.pc, (v == 0) == (a == b), f'{name} is zero exactly for identical patterns'))
            obls.append(smt.Obl('symmetry', [], bitlen(z3.If(z3.UGT(b, a), b - a, a - b), 16) == bitlen(d, 16), 'the specification is symmetric'))
            reach = any(smt.check(st.pc + [a != b])[0] == 'sat' for st, _ in res)
            return settle(R, prop, name, c.ex, obls, reach)
        jobs[name] = go
    prove(R, prop, fails, jobs)


# ---------------------------------------------------------------- timer
C29_SRC = r'''
#include "vdtdiag_helper.h"
extern "C" uint64_t h_once() { vdth::timer t; t.start(); t.stop(); return t.get_elapsed_time(); }
extern "C" uint64_t h_twice() { vdth::timer t; t.start(); t.stop(); t.get_elapsed_time(); t.start(); t.stop(); return t.get_elapsed_time(); }
extern "C" uint64_t h_again() { vdth::timer t; t.start(); t.stop(); t.stop(); uint64_t a=t.get_elapsed_time(); return t.get_elapsed_time(); }
extern "C" uint64_t h_restart() { vdth::timer t; t.start(); t.start(); t.stop(); return t.get_elapsed_time(); }
'''
C29_DRV = r'''
#include <cstdio>
#include <cstdlib>
#include "vdtdiag_helper.h"
static timespec seq[8]; static int at; static clockid_t ids[8];
extern "C" int clock_gettime(clockid_t id, timespec* t) noexcept { ids[at]=id; *t=seq[at++]; return 0; }
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long long ns(const timespec&t){ return t.tv_sec*1000000000LL+t.tv_nsec; }
int main(){ int bad=0; for(long i=0;i<300000;++i){ at=0; unsigned m=rnd()%4;
    for(int k=0;k<8;++k){ if(k==0){ seq[0].tv_sec=rnd()%(m==0?4000000000ull:1000); seq[0].tv_nsec=rnd()%1000000000; }
      else { seq[k]=seq[k-1]; unsigned long long d=m==1?rnd()%3000000000ull:m==2?rnd()%100:rnd()%(1ull<<(rnd()%55)); seq[k].tv_nsec+=d%1000000000; seq[k].tv_sec+=d/1000000000; if(seq[k].tv_nsec>=1000000000){ seq[k].tv_nsec-=1000000000; seq[k].tv_sec++; } } }
    vdth::timer t; t.start(); t.stop(); if(at!=2) { printf("SKIP\n"); break; } long long e=ns(seq[1])-ns(seq[0]); long long r=(long long)t.get_elapsed_time();
    if((r!=e||ids[0]!=ids[1])&&!bad++) printf("FAIL timer readings %ld.%09ld (clock %d) and %ld.%09ld (clock %d): %lld ns instead of %lld\n",(long)seq[0].tv_sec,seq[0].tv_nsec,(int)ids[0],(long)seq[1].tv_sec,seq[1].tv_nsec,(int)ids[1],r,e);
    t.start(); t.stop(); e=ns(seq[3])-ns(seq[2]); r=(long long)t.get_elapsed_time();
    if(r!=e&&!bad++) printf("FAIL timer second use, readings %ld.%09ld and %ld.%09ld: %lld ns instead of %lld\n",(long)seq[2].tv_sec,seq[2].tv_nsec,(long)seq[3].tv_sec,seq[3].tv_nsec,r,e); }
  printf("DONE 300000\n"); }
'''


def run_C29(prop, R):
    R.trust(*TRUST)
    R.assume('clock readings are non-negative, below 2^33 seconds, with 0 <= nanoseconds < 10^9, and do not decrease')
    fails = native(R, C29_DRV, 'c29')
    if fails:
        return conclude(R, fails, {})
    m = module(C29_SRC)
    jobs = {}
    for h, (i, k) in {'once': (0, 1), 'twice': (2, 3), 'again': (0, 2), 'restart': (1, 2)}.items():
        name = 'timer ' + h

        def go(R, h=h, i=i, k=k, name=name):
            def clock(ex, st, a):
                n = len(st.obs)
                s, ns = z3.ZeroExt(31, ex.var('sec', 33)), ex.var('nsec', 64)
                st.pc += [z3.ULT(ns, bv(10 ** 9, 64))]
                tot = s * bv(10 ** 9, 64) + ns
                if n and len(st.obs[-1]) == 4:
                    _, _, s0, n0 = st.obs[-1]
                    st.pc.append(z3.Or(z3.ULT(s0, s), z3.And(s0 == s, z3.ULE(n0, ns))))
                st.obs = st.obs + ((a[0], tot, s, ns),)
                o = st.mem[a[1].obj]
                off = smt.cval(simp(a[1].off))
                i64 = irlower.Ty('i', 64)
                ex.storec(o, off, s, i64, 8)
                ex.storec(o, off + 8, ns, i64, 8)
                return [(st, bv(0, 32))]

            def chrono(ex, st, a):
                t = ex.var('now', 64)
                st.pc.append(z3.ULT(t, bv(1 << 62, 64)))
                if st.obs:
                    st.pc.append(z3.ULE(st.obs[-1][1], t))
                st.obs = st.obs + ((bv(0, 32), t),)
                return [(st, t)]
            c = Ctx(m, {'clock_gettime': clock, '_ZNSt6chrono3_V212steady_clock3nowEv': chrono}, loops='unroll')
            res = c.run('h_' + h, [])
            obls = []
            for st, v in res:
                if len(st.obs) <= max(i, k):
                    obls.append(smt.Obl('readings', st.pc, z3.BoolVal(False), f'{name}: the clock is read at start and at stop'))
                    continue
                obls.append(smt.Obl('value', st.pc, v == st.obs[k][1] - st.obs[i][1], f'{name}: elapsed time is the difference of the readings'))
                obls.append(smt.Obl('clock', st.pc, st.obs[k][0] == st.obs[i][0], f'{name}: the same clock is read'))
            return settle(R, prop, name, c.ex, obls, bool(res))
        jobs[name] = go
    prove(R, prop, fails, jobs)


# ---------------------------------------------------------------- hexadecimal text
HEX_PRE = r'''
#include "vdtdiag_filePersistence.h"
extern "C" std::vt_file* vt_thefile() { return 0; }
extern "C" void vt_observe(uint64_t, ...);
static void vt_clear(std::vt_file& f, uint64_t hdr, uint64_t pre, uint64_t ncol) { f.lines = 0; f.hdr = hdr; f.pre = pre; f.ncol = ncol; f.nrec = 0; f.ipre = 0; f.rec = 0; f.col = 0; f.late = 0; f.bad = 0; }
template<class T> struct vt_bits;
template<> struct vt_bits<double> { static uint64_t of(double x) { uint64_t b; __builtin_memcpy(&b, &x, 8); return b; } };
template<> struct vt_bits<float> { static uint64_t of(float x) { uint32_t b; __builtin_memcpy(&b, &x, 4); return b; } };
'''
C24_SRC = HEX_PRE + r'''
template<class T> void trip(T a, uint16_t k, T b) {
  std::vt_file f; vt_clear(f, 0, 4, 0);
  std::ostream o(&f);
  o << fpToHex<T>(a) << fpToHex<T>(b) << k << ' ' << fpToHex<T>(a);
  o.vt_flush();
  std::istream i(&f);
  fpFromHex<T> x, y, z; uint16_t kk = 0;
  i >> x >> y >> kk >> z;
  vt_observe(0, vt_bits<T>::of(x.getValue()), vt_bits<T>::of(y.getValue()), (uint64_t)kk, vt_bits<T>::of(z.getValue()), (uint64_t)i.fail(), f.ipre, f.late);
}
extern "C" void h_trip_d(double a, uint16_t k, double b) { trip<double>(a, k, b); }
extern "C" void h_trip_f(float a, uint16_t k, float b) { trip<float>(a, k, b); }
'''
C24_DRV = r'''
#include <cstdio>
#include <cstring>
#include <sstream>
#include "vdtdiag_filePersistence.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
template<class T,class I> void go(const char*k,long n){ int bad=0; unsigned W=8*sizeof(T);
  for(long i=0;i<n;++i){ I a,b; switch(rnd()%6){ case 0: a=(I)1<<(rnd()%W); break; case 1: a=(I)0-((I)1<<(rnd()%W)); break; case 2: a=0; break; case 3: a=(I)(rnd()>>(rnd()%64)); break; case 4: a=W==64?(I)0x7ff0000000000000ull:(I)0x7f800000; if(rnd()&1) a|=(I)1<<(W-1); break; default: a=(I)rnd(); }
    b=(I)rnd(); uint16_t q=(uint16_t)rnd(); T x,y; memcpy(&x,&a,sizeof x); memcpy(&y,&b,sizeof y);
    if(x!=x||y!=y) continue;
    std::stringstream s; s<<fpToHex<T>(x)<<fpToHex<T>(y)<<q<<' '<<fpToHex<T>(x);
    fpFromHex<T> u,v,z; uint16_t p=0; s>>u>>v>>p>>z; T ru=u.getValue(), rv=v.getValue(), rz=z.getValue();
    if((!s||memcmp(&ru,&x,sizeof x)||memcmp(&rv,&y,sizeof y)||memcmp(&rz,&x,sizeof x)||p!=q)&&!bad++) printf("FAIL %s bit patterns %llx, %llx and the integer %u are not read back: text is '%s'\n",k,(unsigned long long)a,(unsigned long long)b,q,s.str().c_str()); } }
int main(){ go<double,uint64_t>("hex<double>",100000); go<float,uint32_t>("hex<float>",100000); printf("DONE 200000\n"); }
'''


def run_C24(prop, R):
    R.trust(*TRUST)
    fails = native(R, C24_DRV, 'c24')
    if fails:
        return conclude(R, fails, {})
    m = module(C24_SRC)
    jobs = {}
    for w in (64, 32):
        name = f'hex<{T[w]}>'

        def go(R, w=w, name=name):
            c = Ctx(m, loops='unroll', unroll=200)
            a, b = z3.BitVecs('a b', w)
            k = z3.BitVec('k', 16)
            res = c.run('h_trip_' + SFX[w], [a, k, b])
            obls = []
            z = lambda x: z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
            for st, _ in res:
                (_, (x, y, kk, zz, bad, n, late)), = st.obs
                for nm, c_ in (('first value', eq(x, z(a))), ('second value', eq(y, z(b))), ('integer between the values', eq(kk, z(k))),
                               ('value after the integer', eq(zz, z(a))), ('extraction succeeds', eq(bad, 0)),
                               ('one token per value', z3.And(eq(n, 4), eq(late, 0)))):
                    obls.append(smt.Obl('round trip', st.pc, c_, f'{name}: {nm}'))
            return settle(R, prop, name, c.ex, obls, bool(res))
        jobs[name] = go
    prove(R, prop, fails, jobs)


# ---------------------------------------------------------------- responses
RESP_PRE = r'''
#include <string>
#include <vector>
#include <functional>
#include "vdtdiag_fcnResponse.h"
extern "C" std::vt_file* vt_thefile() { return 0; }
extern "C" void vt_observe(uint64_t, ...);
'''
RESP = r'''
extern "C" @T@ F1_@s@(@T@); extern "C" @T@ F2_@s@(@T@, @T@);
extern "C" void F1v_@s@(uint32_t, @T@*, @T@*); extern "C" void F2v_@s@(uint32_t, @T@*, @T@*, @T@*);
extern "C" void h_@C@1s_@s@(@T@* a, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}; const std::vector<@T@> v(r);
  @C1@<@T@> R(std::string("f"), v, std::function<@T@(@T@)>(F1_@s@));
  vt_observe(0, R.getInput().data(), R.getInput().size()); vt_observe(2, R.getOutput().data(), R.getOutput().size()); vt_observe(0, v.data(), v.size()); }
extern "C" void h_@C@1v_@s@(@T@* a, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}; const std::vector<@T@> v(r);
  @C1@<@T@> R(std::string("f"), v, std::function<void(uint32_t, @T@*, @T@*)>(F1v_@s@));
  vt_observe(0, R.getInput().data(), R.getInput().size()); vt_observe(2, R.getOutput().data(), R.getOutput().size()); vt_observe(0, v.data(), v.size()); }
'''
RESP2 = r'''
extern "C" void h_@C@2s_@s@(@T@* a, @T@* b, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}, q = {b, n}; const std::vector<@T@> v(r), w(q);
  @C2@<@T@> R(std::string("f"), v, w, std::function<@T@(@T@, @T@)>(F2_@s@));
  vt_observe(0, R.getInput1().data(), R.getInput1().size()); vt_observe(1, R.getInput2().data(), R.getInput2().size()); vt_observe(2, R.getOutput().data(), R.getOutput().size());
  vt_observe(0, v.data(), v.size()); vt_observe(1, w.data(), w.size()); }
extern "C" void h_@C@2v_@s@(@T@* a, @T@* b, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}, q = {b, n}; const std::vector<@T@> v(r), w(q);
  @C2@<@T@> R(std::string("f"), v, w, std::function<void(uint32_t, @T@*, @T@*, @T@*)>(F2v_@s@));
  vt_observe(0, R.getInput1().data(), R.getInput1().size()); vt_observe(1, R.getInput2().data(), R.getInput2().size()); vt_observe(2, R.getOutput().data(), R.getOutput().size());
  vt_observe(0, v.data(), v.size()); vt_observe(1, w.data(), w.size()); }
'''


def harnesses(m):
    return sorted(f for f in m.funcs if f.startswith('h_'))


def width(h):
    return 64 if h.endswith('_d') else 32


def fill(t, w, **kw):
    t = t.replace('@T@', T[w]).replace('@s@', SFX[w]).replace('@I@', 'uint64_t' if w == 64 else 'uint32_t').replace('@W@', str(w))
    for k, v in kw.items():
        t = t.replace('@' + k + '@', v)
    return t


C27_DRV = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include "vdtdiag_fcnResponse.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long cases;
template<class T> T val(){ uint64_t b=rnd(); T x; memcpy(&x,&b,sizeof x); if(x!=x) return (T)1; if(rnd()%8==0) return rnd()&1?(T)0:-(T)0; return x; }
template<class T> T f1(T x){ return x*(T)0.5+(T)1; }
template<class T> T f2(T x,T y){ return x*(T)0.5-y; }
template<class T> void f1v(uint32_t n,T*a,T*o){ for(uint32_t i=0;i<n;++i) o[i]=f1(a[i]); }
template<class T> void f2v(uint32_t n,T*a,T*b,T*o){ for(uint32_t i=0;i<n;++i) o[i]=f2(a[i],b[i]); }
template<class T> bool same(T a,T b){ return memcmp(&a,&b,sizeof a)==0||(a!=a&&b!=b); }
template<class T> void chk(const char*k,const std::vector<T>&in,const std::vector<T>&ref,const std::vector<T>&out,const std::vector<T>*a,const std::vector<T>*b,bool two,const char*t){ static int bad; cases++; size_t n=ref.size();
  if(in.size()!=n){ if(!bad++) printf("FAIL %s<%s> %zu inputs recorded for %zu\n",k,t,in.size(),n); return; }
  for(size_t i=0;i<n;++i) if(!same(in[i],ref[i])){ if(!bad++) printf("FAIL %s<%s> input %zu of %zu changed\n",k,t,i,n); return; }
  if(out.size()!=n){ if(!bad++) printf("FAIL %s<%s> %zu outputs for %zu inputs\n",k,t,out.size(),n); return; }
  for(size_t i=0;i<n;++i) if(!same(out[i],two?f2((*a)[i],(*b)[i]):f1((*a)[i]))){ if(!bad++) printf("FAIL %s<%s> output %zu of %zu is not the function of input %zu\n",k,t,i,n,i); return; } }
template<class T> void go(const char*t){ size_t ns[]={1,2,3,4,5,7,8,9,15,16,17,31,33,63,64,65,100,127,128,129,255,256,257,1000,4097,65535,65536,65537,70001}; 
  for(size_t n:ns){ std::vector<T> a(n),b(n); for(auto&x:a) x=val<T>(); for(auto&x:b) x=val<T>(); const std::vector<T> ca(a), cb(b);
    { fcnResponse1D<T> R("f",a,std::function<T(T)>(f1<T>)); chk<T>("response1D",R.getInput(),ca,R.getOutput(),&ca,0,false,t); chk<T>("argument1D",a,ca,R.getOutput(),&ca,0,false,t); }
    { fcnResponse1D<T> R("f",a,std::function<void(uint32_t,T*,T*)>(f1v<T>)); chk<T>("response1Dv",R.getInput(),ca,R.getOutput(),&ca,0,false,t); }
    { fcnResponse2D<T> R("f",a,b,std::function<T(T,T)>(f2<T>)); chk<T>("response2D",R.getInput1(),ca,R.getOutput(),&ca,&cb,true,t); chk<T>("response2D-second",R.getInput2(),cb,R.getOutput(),&ca,&cb,true,t); chk<T>("argument2D",a,ca,R.getOutput(),&ca,&cb,true,t); chk<T>("argument2D-second",b,cb,R.getOutput(),&ca,&cb,true,t); }
    { fcnResponse2D<T> R("f",a,b,std::function<void(uint32_t,T*,T*,T*)>(f2v<T>)); chk<T>("response2Dv",R.getInput1(),ca,R.getOutput(),&ca,&cb,true,t); chk<T>("response2Dv-second",R.getInput2(),cb,R.getOutput(),&ca,&cb,true,t); }
  } }
int main(){ go<double>("double"); go<float>("float"); printf("DONE %ld\n",cases); }
'''


def vector_function(ctx, w, two, spec):
    """contract of a vector function: out[i] = F(in[i]) for i < n, nothing else is written"""
    def h(ex, st, a):
        n = z3.ZeroExt(32, a[0])
        ptrs = a[1:]
        if not all(isinstance(p, smt.Ptr) and p.obj in st.mem and isinstance(st.mem[p.obj], smt.Arr) for p in ptrs):
            raise irlower.Unsupported('vector function called on something that is not an array')
        ins, out = ptrs[:-1], ptrs[-1]
        od = st.mem[out.obj]
        if od.esz is None:
            od.settype(w // 8)
        pos = [ex.index(st, st.mem[p.obj], p.off, 'vector function') for p in ptrs]
        for p, i in zip(ptrs, pos):
            o = st.mem[p.obj]
            ex.oblige('memory', st, z3.And(z3.ULE(n, o.n), z3.ULE(i, o.n - n)), f'vector function: {o.name} has the announced number of elements')
        if not od.writable:
            ex.oblige('frame', st, n == 0, f'vector function writes into {od.name}, which must not be written')
            return [(st, None)]
        if any(p.obj == out.obj for p in ins):
            raise irlower.Unsupported('vector function called with overlapping arguments')
        src = [st.mem[p.obj].copy() for p in ins]
        old = od.copy()
        g = ex.freshfn(w)

        def fact(idx):
            rel = simp(idx - pos[-1])
            rd = [s.read(simp(rel + i)) for s, i in zip(src, pos)]
            ov, of = old.read(idx)
            inside = z3.ULT(rel, n)
            return z3.And(z3.Implies(inside, z3.And(g(idx) == spec([v for v, _ in rd]), *[f for _, fs in rd for f in fs])),
                          z3.Implies(z3.Not(inside), z3.And(g(idx) == ov, *of)))
        od.reset(g, [fact])
        st.pc.append(fact(ctx.j))
        od.wrote = simp(z3.Or(od.wrote, z3.ULT(ctx.j - pos[-1], n)))
        return [(st, None)]
    return h


def observed(st, tag):
    return [a for t, a in st.obs if t == tag]


def holds_vector(c, res, want, label, n):
    """obligations: every observed vector has n elements and the wanted content at the arbitrary index j"""
    obls = []
    for st, _ in res:
        for tag, args in st.obs:
            p, size = args[0], args[1]
            what = label[tag]
            obls.append(smt.Obl('size', st.pc, eq(size, n), f'{what}: one element per input'))
            o = st.mem[p.obj]
            idx = simp(c.ex.index(st, o, simp(p.off), what) + c.j)
            v, fs = o.read(idx)
            obls.append(smt.Obl('element', st.pc + fs, z3.Implies(z3.ULT(c.j, n), eq(v, want[tag])), f'{what}: element j'))
    return obls


def run_C27(prop, R):
    R.trust(*TRUST)
    R.assume(SIZE, 'the recorded function is deterministic and, in its vector form, writes element i of its output from element i of its inputs')
    fails = native(R, C27_DRV, 'c27')
    if fails:
        return conclude(R, fails, {})
    src = RESP_PRE + ''.join(fill(RESP, w, C='cur', C1='fcnResponse1D') + fill(RESP2, w, C='cur', C2='fcnResponse2D') for w in (64, 32))
    if 'fcnResponse_old' in open(os.path.join(K.INC, 'diagnostic', 'vdtdiag_fcnResponse.h')).read():
        src += ''.join(fill(RESP, w, C='old', C1='fcnResponse_old') for w in (64, 32))
    m = module(src)
    prove(R, prop, fails, {h[2:]: lambda R, h=h: response(R, prop, m, h, width(h), '2' in h) for h in harnesses(m)})


def response(R, prop, m, h, w, two):
    s = SFX[w]
    c = Ctx(m)
    F = c.ex.fp.uf('F', *[w] * (2 if two else 1), w)
    scal = lambda ex, st, a: [(st, F(*a))]
    c.ex.ext['F2_' + s if two else 'F1_' + s] = scal
    c.ex.ext['F2v_' + s if two else 'F1v_' + s] = vector_function(c, w, two, lambda vs: F(*vs))
    n32 = z3.BitVec('n', 32)
    n = z3.ZeroExt(32, n32)
    ins = [c.array(f'input{i + 1}', w, n) for i in range(2 if two else 1)]
    val = lambda idx: [a.fn(idx) for a, _ in ins]
    c.ex.watch_spec = lambda o, idx: [F(*val(idx))] + val(idx) if o.esz == w // 8 else []
    res = c.run(h, [p for _, p in ins] + [n])
    want = {0: val(c.j)[0], 1: val(c.j)[-1], 2: F(*val(c.j))}
    obls = holds_vector(c, res, want, {0: 'inputs', 1: 'second inputs', 2: 'outputs'}, n)
    for st, _ in res:
        obls.append(smt.Obl('observed', st.pc, z3.BoolVal(len(st.obs) == (5 if two else 3)), 'all results observed'))
    reach = any(smt.check(st.pc + [z3.UGT(n32, bv(5, 32)), z3.ULT(c.j, bv(5, 64))])[0] == 'sat' for st, _ in res)
    return settle(R, prop, h[2:], c.ex, obls, reach)


# ---------------------------------------------------------------- random pools
POOL_PRE = r"""
#include <string>
#include <vector>
#include <iostream>
#include "vdtdiag_random.h"
extern "C" std::vt_file* vt_thefile() { return 0; }
extern "C" void vt_observe(uint64_t, ...);
"""
POOL = r"""
extern "C" void h_@C@_@s@(@T@ a, @T@ b, uint64_t n, int32_t s) {
  @C1@<@T@> P(a, b, n, s); @C1@<@T@> R(a, b, n, s);
  vt_observe(0, P.getNumbers().data(), P.getNumbers().size()); vt_observe(0, R.getNumbers().data(), R.getNumbers().size()); }
"""
POOL2 = r"""
extern "C" void h_@C@_@s@(@T@ a, @T@ b, @T@ c, @T@ d, uint64_t n, int32_t s) {
  @C1@<@T@> P(a, c, b, d, n, s); @C1@<@T@> R(a, c, b, d, n, s);
  vt_observe(0, P.getNumbersX().data(), P.getNumbersX().size()); vt_observe(1, P.getNumbersY().data(), P.getNumbersY().size());
  vt_observe(0, R.getNumbersX().data(), R.getNumbersX().size()); vt_observe(1, R.getNumbersY().data(), R.getNumbersY().size()); }
"""
C28_DRV = r"""
#include <cstdio>
#include <cstring>
#include <cfloat>
#include <cmath>
#include <string>
#include <vector>
#include <iostream>
#include "vdtdiag_random.h"
#include <new>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
// very large blocks are address space that costs nothing until it is touched
static const size_t HUGE_=(size_t)1<<33;
void* operator new(size_t n){ void*p; if(n<HUGE_) p=malloc(n?n:1); else { p=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED) _exit(9); } if(!p) _exit(9); return p; }
static bool huge_child; void operator delete(void*p) noexcept { if(!huge_child) free(p); } void operator delete(void*p,size_t) noexcept { operator delete(p); }
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long cases;
template<class T> T val(){ for(;;){ uint64_t b=rnd(); T x; memcpy(&x,&b,sizeof x); if(x-x==0) return x; } }
template<class T> void range(T&a,T&b){ T M=std::numeric_limits<T>::max(), m=std::numeric_limits<T>::denorm_min(); switch(rnd()%10){
    case 0: a=-M; b=M; break; case 1: a=0; b=M; break; case 2: a=-m; b=m; break; case 3: a=b=val<T>(); break; case 4: a=val<T>(); b=std::nextafter(a,M); break;
    case 5: a=-(T)5000; b=(T)5000; break; case 6: a=-M; b=-M/2; break; default: a=val<T>(); b=val<T>(); }
  if(a>b) std::swap(a,b); }
template<class T> bool in(const char*k,const char*t,const std::vector<T>&v,T a,T b,size_t n,int s){ cases++;
  if(v.size()!=n){ printf("FAIL %s<%s> %zu values for the requested %zu (interval [%a, %a], seed %d)\n",k,t,v.size(),n,(double)a,(double)b,s); return false; }
  for(size_t i=0;i<n;++i) if(!(v[i]>=a&&v[i]<=b)){ printf("FAIL %s<%s> value %zu is %a, outside [%a, %a] (size %zu, seed %d)\n",k,t,i,(double)v[i],(double)a,(double)b,n,s); return false; }
  return true; }
template<class T> bool same(const char*k,const char*t,const std::vector<T>&v,const std::vector<T>&w,T a,T b,size_t n,int s){ 
  if(v.size()!=w.size()||(v.size()&&memcmp(v.data(),w.data(),v.size()*sizeof(T)))){ printf("FAIL %s<%s> two pools with interval [%a, %a], size %zu and seed %d differ\n",k,t,(double)a,(double)b,n,s); return false; }
  return true; }
template<class T> void go(const char*t){ bool ok=true; for(int i=0;i<400&&ok;++i){ size_t n=i<20?i:rnd()%2000; if(i==399) n=70000; int s=i%3?i:(int)rnd(); T a,b,c,d; range(a,b); range(c,d);
    randomPool1D<T> P(a,b,n,s), Q(c,d,rnd()%100,s+1), R(a,b,n,s);
    ok=in("pool1D",t,P.getNumbers(),a,b,n,s)&&same("pool1D-repeated",t,P.getNumbers(),R.getNumbers(),a,b,n,s);
    randomPool2D<T> U(a,c,b,d,n,s); randomPool1D<T> Q2(c,d,rnd()%100,s+1); randomPool2D<T> V(a,c,b,d,n,s);
    ok=ok&&in("pool2D-first",t,U.getNumbersX(),a,b,n,s)&&in("pool2D-second",t,U.getNumbersY(),c,d,n,s)&&same("pool2D-repeated",t,U.getNumbersX(),V.getNumbersX(),a,b,n,s)&&same("pool2D-repeated",t,U.getNumbersY(),V.getNumbersY(),c,d,n,s);
  } }
// a pool of more than 2^32 values is made in part only, unless its size was lost
template<class F> void huge(const char*k,const char*t,F make){ const uint64_t n=((uint64_t)1<<32)+3; int fd[2]; if(pipe(fd)) return; fflush(stdout); pid_t c=fork();
  if(c==0){ huge_child=true; struct rlimit rl={1,1}; setrlimit(RLIMIT_CPU,&rl); uint64_t m=make(n); if(write(fd[1],&m,8)!=8) _exit(8); _exit(0); }
  close(fd[1]); uint64_t m=0; bool got=read(fd[0],&m,8)==8; close(fd[0]); int st; waitpid(c,&st,0); cases++;
  if(got&&m!=n) printf("FAIL %s<%s> %llu values for the requested %llu\n",k,t,(unsigned long long)m,(unsigned long long)n); }
template<class T> void large(const char*t){
  huge("pool1D",t,[](uint64_t n){ randomPool1D<T> P(0,1,n,1); return (uint64_t)P.getNumbers().size(); });
  huge("pool2D",t,[](uint64_t n){ randomPool2D<T> P(0,0,1,1,n,1); return (uint64_t)P.getNumbersX().size(); });@OLD@ }
int main(){ go<double>("double"); go<float>("float"); large<double>("double"); large<float>("float"); printf("DONE %ld\n",cases); }
"""


def run_C28(prop, R):
    R.trust(*TRUST)
    R.assume('pools have fewer than 2^48 elements', 'interval bounds are finite and in order',
             'the standard uniform distribution yields a value inside its closed interval, provided the width of the interval does not '
             'overflow its type, and that value depends only on the engine state and the bounds')
    old = 'randomPool_old' in open(os.path.join(K.INC, 'diagnostic', 'vdtdiag_random.h')).read()
    fails = native(R, C28_DRV.replace('@OLD@', '\n  huge("pool_old",t,[](uint64_t n){ randomPool_old<T> P(0,1,n,1); return (uint64_t)P.getNumbers().size(); });' if old else ''), 'c28')
    if fails:
        return conclude(R, fails, {})
    src = POOL_PRE + ''.join(fill(POOL, w, C='pool1D', C1='randomPool1D') + fill(POOL2, w, C='pool2D', C1='randomPool2D') for w in (64, 32))
    if old:
        src += ''.join(fill(POOL, w, C='pool_old', C1='randomPool_old') for w in (64, 32))
    m = module(src)
    prove(R, prop, fails, {h[2:]: lambda R, h=h: pool(R, prop, m, h, width(h), '2D' in h) for h in harnesses(m)})


def pool(R, prop, m, h, w, two):
    c = Ctx(m, mode='fp')
    fp = c.ex.fp
    draw = lambda v: fp.uf('draw', 64, 64, v, v, v)
    inside = lambda lo, hi, v: z3.And(fp.cmp('ole', lo, v), fp.cmp('ole', v, hi))

    def draw_ld(ex, st, a):
        return [(st, smt.LD(a[2].lo, a[3].hi, (a[0], a[1])))]

    def draw_fp(ex, st, a):
        v = a[2].size()
        ex.oblige('library', st, z3.Not(z3.Or(z3.fpIsInf(z3.fpSub(smt.RNE, fp.fp(a[3]), fp.fp(a[2]))), fp.nan(a[2]), fp.nan(a[3]))),
                  'the width of the interval of a uniform distribution does not overflow')
        r = draw(v)(*a)
        st.pc.append(inside(a[2], a[3], r))
        return [(st, r)]

    def draw_u(ex, st, a):
        return [(st, fp.uf('engine', 64, 64, 64)(*a))]
    c.ex.ext.update(vt_draw_ld=draw_ld, vt_draw_d=draw_fp, vt_draw_f=draw_fp, vt_draw_u=draw_u)
    ivs = [z3.BitVecs(f'lo{i} hi{i}', w) for i in range(2 if two else 1)]
    inf = bv(fp.infm(w), w - 1)
    for lo, hi in ivs:
        c.st.pc += [z3.ULT(fp.parts(x)[1], inf) for x in (lo, hi)] + [fp.cmp('ole', lo, hi)]
    n, s = z3.BitVec('n', 64), z3.BitVec('s', 32)
    c.st.pc.append(z3.ULT(n, bv(1 << 48, 64)))

    def spec(o, idx):
        if o.esz != w // 8:
            return []
        r = [lambda v, p=p: inside(*p, v) for p in ivs]
        sd = (z3.ZeroExt if 'old' in h else z3.SignExt)(32, s)
        for i, p in enumerate(ivs):
            for at in [idx] + ([n + idx, 2 * idx + i] if two else []):
                r.append(draw(w)(sd, at, *p))
        return r
    c.ex.watch_spec = spec
    res = c.run(h, [x for p in ivs for x in p] + [n, s])
    obls = []
    for st, _ in res:
        got = {}
        for tag, (p, size) in st.obs:
            obls.append(smt.Obl('size', st.pc, eq(size, n), 'the pool has the requested size'))
            o = st.mem[p.obj]
            v, fs = o.read(simp(c.ex.index(st, o, simp(p.off), 'pool') + c.j))
            here = st.pc + fs + [z3.ULT(c.j, n)]
            obls.append(smt.Obl('range', here, inside(*ivs[tag], v), 'element j lies inside the requested interval'))
            if tag in got:
                obls.append(smt.Obl('repeatable', here + got[tag][1], v == got[tag][0], 'equal arguments give equal pools'))
            got[tag] = (v, fs)
        obls.append(smt.Obl('observed', st.pc, z3.BoolVal(len(st.obs) == (4 if two else 2)), 'all results observed'))
    a, b = ivs[0]
    reach = any(smt.check(st.pc + [z3.UGT(n, bv(5, 64)), z3.ULT(c.j, bv(5, 64)), a != b])[0] == 'sat' for st, _ in res)
    return settle(R, prop, h[2:], c.ex, obls, reach)


# ---------------------------------------------------------------- comparison statistics
CMP_PRE = r"""
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include "vdtdiag_fcnComparison.h"
static std::vt_file* theFile;
extern "C" std::vt_file* vt_thefile() { return theFile; }
extern "C" void vt_observe(uint64_t, ...);
static void vt_clear(std::vt_file& f, uint64_t hdr, uint64_t pre, uint64_t ncol) { f.lines = 0; f.hdr = hdr; f.pre = pre; f.ncol = ncol; f.nrec = 0; f.ipre = 0; f.rec = 0; f.col = 0; f.late = 0; f.bad = 0; }
"""
STAT = r"""
extern "C" void h_@C@1_@s@(@T@* a, @T@* x, @T@* y, uint64_t n) { std::vector<@T@>::vt_raw ra = {a, n}, rx = {x, n}, ry = {y, n}; const std::vector<@T@> va(ra), vx(rx), vy(ry);
  std::vt_file f; vt_clear(f, 5, 4, 99); theFile = &f;
  @C1@<@T@> C(std::string("f"), va, vx, vy); C.writeFile(std::string("o"));
  vt_observe(0, f.prek[0], f.prev[0], f.prek[1], f.prev[1], f.prek[2], f.prev[2], f.prek[3], f.prev[3], f.ipre); }
"""
STAT2 = r"""
extern "C" void h_@C@2_@s@(@T@* a, @T@* b, @T@* x, @T@* y, uint64_t n) { std::vector<@T@>::vt_raw ra = {a, n}, rb = {b, n}, rx = {x, n}, ry = {y, n}; const std::vector<@T@> va(ra), vb(rb), vx(rx), vy(ry);
  std::vt_file f; vt_clear(f, 5, 4, 99); theFile = &f;
  @C1@<@T@> C(std::string("f"), va, vb, vx, vy); C.writeFile(std::string("o"));
  vt_observe(0, f.prek[0], f.prev[0], f.prek[1], f.prev[1], f.prek[2], f.prev[2], f.prek[3], f.prev[3], f.ipre); }
"""
C26_DRV = r"""
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include "vdtdiag_fcnComparison.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long cases; static int bad;
template<class T,class I> void vals(T&x,T&y,int mode){ for(;;){ I a=(I)rnd(), b; unsigned W=8*sizeof(T); switch(mode%6){ case 0: b=a; break; case 1: b=a^((I)1<<(rnd()%W)); break; case 2: b=(I)rnd(); break; case 3: b=a+(I)(rnd()%8); break; case 4: a=0; b=(I)1<<(W-1); if(rnd()&1) std::swap(a,b); break; default: b=a+(I)(rnd()>>(rnd()%64)); }
    memcpy(&x,&a,sizeof x); memcpy(&y,&b,sizeof y); if(x==x&&y==y) return; } }
template<class T,class I> unsigned diff(T x,T y){ I a,b; memcpy(&a,&x,sizeof x); memcpy(&b,&y,sizeof y); uint64_t d=a>b?a-b:b-a; return d?64-__builtin_clzll(d):0; }
template<class T,class I> void check(const char*k,const char*t,const std::vector<T>&x,const std::vector<T>&y){ cases++; size_t n=x.size();
  std::ifstream f("c26.txt"); std::string l; for(int i=0;i<5;++i) std::getline(f,l); unsigned mx=99999,mn=99999; std::string hm,hr; f>>mx>>mn>>hm>>hr; uint64_t bm=strtoull(hm.c_str(),0,16),br=strtoull(hr.c_str(),0,16); double m,r; memcpy(&m,&bm,8); memcpy(&r,&br,8);
  unsigned long long s=0,s2=0; unsigned lo=99999,hi=0; for(size_t i=0;i<n;++i){ unsigned d=diff<T,I>(x[i],y[i]); s+=d; s2+=(unsigned long long)d*d; if(d<lo) lo=d; if(d>hi) hi=d; }
  long double em=(long double)s/n, er=n>1?((long double)s2-(long double)s*s/n)/(n-1):0;
  if((mx!=hi||mn!=lo)&&!bad++) printf("FAIL %s<%s> %zu elements: minimum %u and maximum %u instead of %u and %u\n",k,t,n,mn,mx,lo,hi);
  else if(!(fabsl(m-em)<=1e-12L*(1+em))&&!bad++) printf("FAIL %s<%s> %zu elements: mean %.17g instead of %.17Lg\n",k,t,n,m,em);
  else if(n>1&&!(fabsl(r-er)<=1e-8L*(1+er))&&!bad++) printf("FAIL %s<%s> %zu elements: mean-square deviation %.17g instead of %.17Lg\n",k,t,n,r,er); }
template<class T,class I> void go(const char*t){ for(int i=0;i<300;++i){ size_t n=i<20?i+1:1+rnd()%300; if(i==298) n=65537; if(i==299) n=70003; std::vector<T> a(n),b(n),x(n),y(n); int md=rnd(); for(size_t k=0;k<n;++k){ a[k]=(T)k; b[k]=(T)(k+1); vals<T,I>(x[k],y[k],(md&1)?(md>>1)&0xff:(int)(rnd()&0xff)); }
    if(i%7==3){ std::vector<T> x2(x),y2(y); std::vector<size_t> p(n); for(size_t k=0;k<n;++k) p[k]=k; std::sort(p.begin(),p.end(),[&](size_t u,size_t v){ return diff<T,I>(x[u],y[u])>diff<T,I>(x[v],y[v]); }); for(size_t k=0;k<n;++k){ x2[k]=x[p[i%2?k:n-1-k]]; y2[k]=y[p[i%2?k:n-1-k]]; } x=x2; y=y2; }
    { fcnComparison1D<T> C("f",a,x,y); C.writeFile("c26.txt"); check<T,I>("comparison1D",t,x,y); }
    { fcnComparison2D<T> C("f",a,b,x,y); C.writeFile("c26.txt"); check<T,I>("comparison2D",t,x,y); }
#ifdef OLD
    { fcnComparison_old<T> C("f",a,x,y); C.writeFile("c26.txt"); check<T,I>("comparison_old",t,x,y); }
#endif
  } }
#include <algorithm>
int main(){ go<double,uint64_t>("double"); go<float,uint32_t>("float"); printf("DONE %ld\n",cases); }
"""


def run_C26(prop, R):
    R.trust(*TRUST)
    R.assume(SIZE + ' and at least one', 'the number of differing bits of a pair is a function of the pair between 0 and the width of the type (proved by C25)',
             'sums of integers below 2^53 are exact in double precision (IEEE 754); rounding of the final divisions and products is not bounded')
    old = re.search(r"\b(class|struct)\s+fcnComparison_old\b", open(os.path.join(K.INC, 'diagnostic', 'vdtdiag_fcnComparison.h')).read())
    fails = native(R, C26_DRV.replace('#include <cmath>', '#include <cmath>\n#include <algorithm>' + ('\n#define OLD' if old else ''), 1), 'c26')
    if fails:
        return conclude(R, fails, {})
    src = CMP_PRE + ''.join(fill(STAT, w, C='cur', C1='fcnComparison1D') + fill(STAT2, w, C='cur', C1='fcnComparison2D') for w in (64, 32))
    if old:
        src += ''.join(fill(STAT, w, C='old', C1='fcnComparison_old') for w in (64, 32))
    m = module(src)
    prove(R, prop, fails, {h[2:]: [lambda R, h=h, level=level: stats(R, prop, m, h, width(h), '2' in h, level) for level in (0, 1)] for h in harnesses(m)})


def diffbit_contract(c, m, w):
    """replaces the bit-difference routine by its contract (C25): a symmetric function of the two values, at most the width of the type"""
    F = c.ex.fp.uf('diffbits', w, w, 16)
    B = lambda a, b: F(*sorted((simp(a), simp(b)), key=lambda t: t.sexpr()))

    def h(ex, st, a):
        r = B(a[0], a[1])
        st.pc.append(z3.ULE(r, bv(w, 16)))
        return [(st, r)]
    names = list(m.funcs)
    hit = [f for f, d in zip(names, K.demangle(names)) if 'diffbit<' in d and d.split('diffbit<')[1].startswith(T[w] + '>')]
    for f in hit:
        c.ex.ext[f] = h
    return B


def realexpr(fp, pc, t, leaves, ex, depth=0):
    """the real-arithmetic expression a floating-point term was made of, over the given leaves; None when it has others"""
    import sympy
    if not z3.is_expr(t) or depth > 30:
        return None
    if smt.isc(t):
        x = smt.ffrom(smt.cval(t), t.size())
        return sympy.Rational(x) if x - x == 0 else None
    for nm, l in leaves.items():
        if t.size() == l.size() and (t.eq(l) or ex.holds(pc, t == l, 3000)):
            return sympy.Symbol(nm)
    if t.get_id() not in fp.made:
        return None
    _, op, a, b = fp.made[t.get_id()]
    if b is None:
        x = realexpr(fp, pc, a, leaves, ex, depth + 1)
        return x if x is None or op == 'conv' else sympy.sqrt(x)
    x, y = [realexpr(fp, pc, u, leaves, ex, depth + 1) for u in (a, b)]
    if x is None or y is None:
        return None
    return {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}.get(op, lambda: None)()


def stats(R, prop, m, h, w, two, level):
    c = Ctx(m, unroll=400)
    c.ex.level = level
    c.ex.fp.comm = 'value'
    fp = c.ex.fp
    B = diffbit_contract(c, m, w)
    n32 = z3.BitVec('n', 32)
    n = z3.ZeroExt(32, n32)
    c.st.pc.append(n32 != 0)
    ins = [c.array(x, w, n) for x in (['input1', 'input2'] if two else ['input']) + ['out1', 'out2']]
    x, y = ins[-2][0], ins[-1][0]
    D = lambda i: B(x.fn(i), y.fn(i))
    D64 = lambda i: z3.ZeroExt(48, D(i))
    S = smt.Fold('sum', 64, bv(0, 64), lambda s, k: s + D64(k))
    Q64 = lambda i: z3.ZeroExt(32, z3.ZeroExt(16, D(i)) * z3.ZeroExt(16, D(i)))
    S2 = smt.Fold('sum of squares', 64, bv(0, 64), lambda s, k: s + Q64(k))
    Mn = smt.Fold('minimum', 16, bv(255, 16), lambda s, k: z3.If(z3.Or(k == 0, z3.ULT(D(k), s)), D(k), s))
    Mx = smt.Fold('maximum', 16, bv(0, 16), lambda s, k: z3.If(z3.UGT(D(k), s), D(k), s))
    folds = [S, S2, Mn, Mx]
    toF = lambda v: fp.itof(v, 64, False)
    lim = bv(1 << 53, 64)

    def axioms(k):
        r = []
        for i in (k, k + 1)[:c.ex.level + 1]:
            for f in folds:
                r += f.axioms([simp(i)])
            r.append(z3.ULE(D(simp(i)), bv(w, 16)))
            r.append(z3.ULE(Q64(simp(i)), bv(w * w, 64)))      # 'square' below
            for f, d in ((S, D64(simp(i))), (S2, Q64(simp(i)))):
                a, b = f.at(simp(i)), d
                r.append(z3.Implies(z3.And(z3.ULT(a, lim), z3.ULT(b, lim), z3.ULT(a + b, lim)), fp.binop('fadd', toF(a), toF(b)) == toF(simp(a + b))))
        return r
    c.ex.head_axioms = axioms
    c.st.pc += [f.fn(bv(0, 64)) == f.init for f in folds]
    if level:
        c.st.pc += axioms(bv(0, 64))
        c.ex.heavy.update({a.get_id(): a for a in c.st.pc})

    def extra(ex, R0, st, Rk, sk, k, mod, nxt):
        out = []
        for q in (0, 1)[:c.ex.level + 1]:
            at = lambda kk, q=q: simp(kk + q)
            out += [(f'sum <= {w}k', lambda R_, s_, kk, at=at: z3.ULE(S.at(at(kk)), at(kk) * bv(w, 64))),
                    (f'sum of squares <= {w * w}k', lambda R_, s_, kk, at=at: z3.ULE(S2.at(at(kk)), at(kk) * bv(w * w, 64)))]
            for key in mod:
                v = ex.get(key, Rk, sk)
                if key in nxt and nxt[key] != 0 or not z3.is_expr(v):
                    continue
                v0 = ex.get(key, R0, st)
                for f in folds:
                    fs = []
                    if f.width == 64 and v.size() == 64:
                        fs = [f.at, lambda kk, f=f: toF(f.at(kk))]
                    elif f.width == 16 and v.size() == 16:
                        fs = [f.at, lambda kk, f=f, v0=v0: z3.If(kk == 0, v0, f.at(kk))]
                    elif v.size() == 32:
                        fs = [lambda kk, f=f: z3.Extract(31, 0, f.at(kk)) if f.width == 64 else z3.ZeroExt(16, f.at(kk))]
                    elif f.width == 16 and v.size() == 64:
                        fs = [lambda kk, f=f: z3.ZeroExt(48, f.at(kk))]
                    for i, g in enumerate(fs):
                        out.append((f'{key} is the {f.name} of the processed part', lambda R_, s_, kk, g=g, key=key, at=at: eq(ex.get(key, R_, s_), g(at(kk)))))
        return out
    c.ex.extra_candidates = extra
    c.ex.watch_spec = lambda o, idx: [D(idx)] if o.esz == 2 else []
    d = z3.BitVec('d', 16)
    square = smt.Obl('lemma', [z3.ULE(d, bv(w, 16))], z3.ULE(z3.ZeroExt(16, d) * z3.ZeroExt(16, d), bv(w * w, 32)), 'the square of a number of differing bits')
    res = c.run(h, [p for _, p in ins] + [n])
    nd = toF(n)
    mean = fp.binop('fdiv', toF(S.at(n)), nd)
    var = fp.binop('fdiv', fp.binop('fsub', toF(S2.at(n)), fp.binop('fmul', fp.binop('fmul', nd, mean), mean)), toF(simp(n - 1)))
    obls = [square]
    for st, _ in res:
        (_, (k0, mx, k1, mn, k2, vm, k3, vr, cnt)), = st.obs
        obls.append(smt.Obl('observed', st.pc, z3.And(eq(cnt, 4), *[z3.Or(eq(k, 2), eq(k, 3)) if i > 1 else eq(k, 4) for i, k in enumerate((k0, k1, k2, k3))]),
                            'four statistics are written: two integers and two hexadecimal values'))
        for nm, v, e in (('maximum', mx, z3.ZeroExt(48, Mx.at(n))), ('minimum', mn, z3.ZeroExt(48, Mn.at(n))), ('mean', vm, mean)):
            obls.append(smt.Obl('value', st.pc, eq(v, e), f'the {nm} is that of the differences'))
        goal = z3.Implies(n32 != 1, eq(vr, var))
        if not c.ex.holds(st.pc, goal):
            leaves = {'s': toF(S.at(n)), 'q': toF(S2.at(n)), 'n': nd, 'm': toF(simp(n - 1))}
            got, want = [realexpr(fp, st.pc, x, leaves, c.ex) for x in (vr, var)]
            if got is not None and want is not None:
                import sympy
                N = sympy.Symbol('n')
                if sympy.simplify((got - want).subs(sympy.Symbol('m'), N - 1)) == 0:
                    goal = z3.BoolVal(True)
                    R.assume('the mean-square deviation is evaluated by an expression equal to the defining one in real arithmetic')
        obls.append(smt.Obl('value', st.pc, goal, 'the mean-square deviation is that of the differences'))
    reach = any(smt.check(st.pc + [z3.UGT(n32, bv(5, 32))])[0] == 'sat' for st, _ in res)
    return settle(R, prop, h[2:], c.ex, obls, reach)


# ---------------------------------------------------------------- command line
CMD = r"""
#include "vdtdiag_simpleCmd.h"
extern "C" void vt_observe(uint64_t, ...);
static void cmd(int argc, char** argv, const char* s1, const char* l1, const char* s2, const char* l2) {
  CmdOptions o; o.addOption(s1, l1, "first"); o.addOption(s2, l2, "second");
  int r = o.parseCmd(argc, argv);
  vt_observe(0, (uint64_t)(r != 0));
  vt_observe(1, (uint64_t)o.isSet("-h"), o.getArgument("-h").vt_h());
  vt_observe(2, (uint64_t)o.isSet(s1), o.getArgument(s1).vt_h());
  vt_observe(3, (uint64_t)o.isSet(s2), o.getArgument(s2).vt_h());
}
extern "C" void h_cmd0(char** v, const char* a, const char* b, const char* c, const char* d) { cmd(1, v, a, b, c, d); }
extern "C" void h_cmd1(char** v, const char* a, const char* b, const char* c, const char* d) { cmd(2, v, a, b, c, d); }
extern "C" void h_cmd2(char** v, const char* a, const char* b, const char* c, const char* d) { cmd(3, v, a, b, c, d); }
"""
C32_DRV = r"""
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include "vdtdiag_simpleCmd.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
typedef std::vector<std::string> V;
static std::string text(){ static const char* p[]={"=","a","-","b=","1","=x","--","xyz","=="," ","0x1","o"}; std::string r; for(unsigned n=rnd()%4;n--;) r+=p[rnd()%12]; if(rnd()%50==0) r+=std::string(300,'q'); return r; }
int main(){ FILE* out=fdopen(dup(1),"w"); freopen("/dev/null","w",stdout); int bad=0; long cases=0;
  for(int t=0;t<60000;++t){ unsigned J=rnd()%5; V sh(1,"-h"), lg(1,"--help"); const char* N[]={"-o","-i","-oo","x","-n"}; const char* L[]={"--output","--in","--o","--out","--n"};
    for(unsigned j=0;j<J;++j){ sh.push_back(N[j]); lg.push_back(L[j]); }
    unsigned m=rnd()%6; V a(1,"prog"); for(unsigned i=0;i<m;++i){ std::string s; switch(rnd()%8){ case 0: s=text(); break; case 1: s="="+text(); break; default: { unsigned j=rnd()%(J+1); s=(rnd()&1)?sh[j]:lg[j]; if(rnd()%8==0) s+="z"; if(rnd()%8==0&&s.size()>1) s.resize(s.size()-1); if(rnd()%4) s+="="+text(); } } a.push_back(s); }
    std::vector<char*> v; for(auto&s:a) v.push_back(const_cast<char*>(s.c_str())); v.push_back(0);
    CmdOptions o; for(unsigned j=1;j<=J;++j) o.addOption(sh[j],lg[j],"help");
    int r=o.parseCmd((int)a.size(),v.data());
    bool ok=true; std::vector<int> got(J+1,-1); V val(J+1);
    for(unsigned i=1;i<a.size()&&ok;++i){ size_t e=a[i].find('='); bool has=e!=std::string::npos&&e>0; std::string f=has?a[i].substr(0,e):a[i]; int w=-1; for(unsigned j=0;j<=J;++j) if(w<0&&(f==sh[j]||f==lg[j])) w=j; if(w<0||got[w]>=0){ ok=false; break; } got[w]=i; val[w]=has?a[i].substr(e+1):""; }
    std::string line; for(unsigned i=1;i<a.size();++i) line+=" '"+a[i]+"'"; ++cases;
    if((r!=0)!=ok){ if(!bad++) fprintf(out,"FAIL parse arguments%s with %u options: result %d instead of %d\n",line.c_str(),J,r,(int)ok); continue; }
    if(!ok) continue;
    for(unsigned j=0;j<=J;++j) if(o.isSet(sh[j])!=(got[j]>=0)||o.getArgument(sh[j])!=val[j]){ if(!bad++) fprintf(out,"FAIL option arguments%s: option %s is %s'%s' instead of %s'%s'\n",line.c_str(),sh[j].c_str(),o.isSet(sh[j])?"":"not set ",o.getArgument(sh[j]).c_str(),got[j]>=0?"":"not set ",val[j].c_str()); }
  }
  fprintf(out,"DONE %ld\n",cases); fclose(out); }
"""


def run_C32(prop, R):
    R.trust(*TRUST)
    R.assume('bounded: at most two arguments and two declared options besides help; contents and names are arbitrary text',
             'declared names are distinct, not empty and contain no equal sign', 'arguments are shorter than 2^30 characters')
    R.coverage['bounded'].append('at most 2 command-line arguments, 2 declared options besides help')
    fails = native(R, C32_DRV, 'c32')
    if fails:
        return conclude(R, fails, {})
    m = module(CMD)
    prove(R, prop, fails, {f'{i} arguments': lambda R, i=i: command(R, prop, m, i) for i in (0, 1, 2)})


def command(R, prop, m, cnt):
    c = Ctx(m, unroll=400, loops='unroll')
    lit = lambda t: c.text(c.st, z3.StringVal(t))
    args = [z3.Const(f'argument{i + 1}', TEXT) for i in range(cnt)]
    names = [z3.Const(x, TEXT) for x in ('short1', 'long1', 'short2', 'long2')]
    empty = lit('')

    def text(t):
        o = smt.Cells(1 << 30, const=True, name='text')
        o.zstr = t
        return smt.Ptr(c.ex.newobj(c.st, o), bv(0, 64))
    v = smt.Cells(8 * (cnt + 2), name='argument vector')
    for i, t in enumerate([z3.StringVal('program')] + args):
        v.cells[8 * i] = (8, text(t))
    v.cells[8 * (cnt + 1)] = (8, smt.Ptr(None, bv(0, 64)))
    allnames = [lit('-h'), lit('--help')] + names
    for i, x in enumerate(names):
        c.st.pc += [x != empty, z3.Not(HAS(x))] + [x != y for y in allnames[:2 + i]]
    res = c.run(f'h_cmd{cnt}', [smt.Ptr(c.ex.newobj(c.st, v), bv(0, 64))] + [text(x) for x in names])
    # specification
    split = [z3.And(HAS(a), PRE(a) != empty) for a in args]
    flag = [z3.If(h, PRE(a), a) for h, a in zip(split, args)]
    val = [z3.If(h, POST(a), empty) for h, a in zip(split, args)]
    is_ = lambda i, j: z3.Or(flag[i] == allnames[2 * j], flag[i] == allnames[2 * j + 1])
    known = [z3.Or(*[is_(i, j) for j in range(3)]) for i in range(cnt)]
    twice = [z3.And(is_(i, j), is_(k, j)) for j in range(3) for i in range(cnt) for k in range(i)]
    ok = z3.And(*known, *[z3.Not(t) for t in twice])
    obls = []
    seen = set()
    for st, _ in res:
        o = dict(st.obs)
        got = [c.text(st, c.term(o[1 + j][1])) for j in range(3)]
        pc = st.pc
        obls.append(smt.Obl('accepts', pc, eq(o[0][0], z3.If(ok, bv(1, 64), bv(0, 64))), 'accepted exactly when every option is declared and given at most once'))
        acc = smt.isc(simp(o[0][0])) and smt.cval(simp(o[0][0])) == 1
        seen.add(acc)
        if not acc:
            continue
        for j in range(3):
            given = z3.Or(*[is_(i, j) for i in range(cnt)])
            want = empty
            for i in range(cnt):
                want = z3.If(is_(i, j), val[i], want)
            obls.append(smt.Obl('set', pc, eq(o[1 + j][0], z3.If(given, bv(1, 64), bv(0, 64))), 'an option is set exactly when it was given'))
            obls.append(smt.Obl('argument', pc, got[j] == want, 'its argument is the text after the first equal sign'))
    return settle(R, prop, f'{cnt} arguments', c.ex, obls, seen == ({True, False} if cnt else {True}))
