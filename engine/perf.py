"""Contracts of the benchmark class: which calls are timed and what is averaged."""
import z3
import common as K
import diag, irlower, smt
from smt import bv, simp

SRC = r'''
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <iomanip>
#include "vdtdiag_helper.h"
#include "vdtdiag_fcnPerformance.h"
extern "C" std::vt_file* vt_thefile() { return 0; }
extern "C" void vt_observe(uint64_t, ...);
'''
ONE = r'''
extern "C" @T@ F1_@s@(@T@); extern "C" @T@ F2_@s@(@T@, @T@);
extern "C" void F1v_@s@(uint32_t, @T@*, @T@*); extern "C" void F2v_@s@(uint32_t, @T@*, @T@*, @T@*);
extern "C" void h_1s_@s@(@T@* a, uint64_t n, uint32_t r) { std::vector<@T@>::vt_raw q = {a, n}; const std::vector<@T@> v(q);
  fcnPerformance<@T@> P(std::string("f"), v, std::function<@T@(@T@)>(F1_@s@), r); vt_observe(0, (double)P.getAvg(), (double)P.getAvgErr()); }
extern "C" void h_1v_@s@(@T@* a, uint64_t n, uint32_t r) { std::vector<@T@>::vt_raw q = {a, n}; const std::vector<@T@> v(q);
  fcnPerformance<@T@> P(std::string("f"), v, std::function<void(uint32_t, @T@*, @T@*)>(F1v_@s@), r); vt_observe(0, (double)P.getAvg(), (double)P.getAvgErr()); }
extern "C" void h_2s_@s@(@T@* a, @T@* b, uint64_t n, uint32_t r) { std::vector<@T@>::vt_raw q = {a, n}, p = {b, n}; const std::vector<@T@> v(q), w(p);
  fcnPerformance<@T@> P(std::string("f"), v, w, std::function<@T@(@T@, @T@)>(F2_@s@), r); vt_observe(0, (double)P.getAvg(), (double)P.getAvgErr()); }
extern "C" void h_2v_@s@(@T@* a, @T@* b, uint64_t n, uint32_t r) { std::vector<@T@>::vt_raw q = {a, n}, p = {b, n}; const std::vector<@T@> v(q), w(p);
  fcnPerformance<@T@> P(std::string("f"), v, w, std::function<void(uint32_t, @T@*, @T@*, @T@*)>(F2v_@s@), r); vt_observe(0, (double)P.getAvg(), (double)P.getAvgErr()); }
'''
COUNT, CALLS, ON = 0, 8, 16       # ghost cells: measurements finished, calls in this one, a measurement is running


def bench(R, prop, m, h, w, two, warm, acc):
    c = diag.Ctx(m, unroll=400)
    c.ex.fp.comm = 'value'
    ex, fp, s = c.ex, c.ex.fp, diag.SFX[w]
    ex.absmul = True
    ex.contents = False
    i64 = irlower.Ty('i', 64)
    ghost = smt.Ptr(ex.newobj(c.st, smt.Cells(24, name='measurement')), bv(0, 64))
    at = lambda o: smt.Ptr(ghost.obj, bv(o, 64))
    get = lambda st, o: ex.load(st, at(o), i64, 'measurement')
    put = lambda st, o, v: ex.store(st, at(o), v, i64, 'measurement')
    for o in (COUNT, CALLS, ON):
        put(c.st, o, bv(0, 64))
    n32, r32 = z3.BitVecs('n repetitions', 32)
    n, r = z3.ZeroExt(32, n32), z3.ZeroExt(32, r32)
    c.st.pc += [n32 != 0, r32 != 0, z3.ULT(r32, bv(1 << 31, 32))]
    W = warm(r)
    ins = [c.array(f'input{i + 1}', w, n) for i in range(2 if two else 1)]
    F = fp.uf('F', *[w] * len(ins), w)
    D = fp.uf('elapsed', 64, 64)

    def start(ex, st, a):
        put(st, CALLS, bv(0, 64))
        put(st, ON, bv(1, 64))
        return [(st, None)]

    def stop(ex, st, a):
        ex.oblige('measured', st, z3.And(get(st, ON) == 1, get(st, CALLS) == n), f'{h}: a measurement covers one call per input')
        put(st, COUNT, simp(get(st, COUNT) + 1))
        put(st, ON, bv(0, 64))
        return [(st, None)]

    def elapsed(ex, st, a):
        k = get(st, COUNT)
        ex.oblige('measured', st, z3.And(k != 0, get(st, ON) == 0), f'{h}: the elapsed time is that of a finished measurement')
        return [(st, D(simp(k - 1)))]

    def scalar(ex, st, a):
        k = get(st, CALLS)
        ex.oblige('call', st, z3.Implies(get(st, ON) == 1, z3.And(z3.ULT(k, n), *[diag.eq(x, arr.fn(k)) for x, (arr, _) in zip(a, ins)])),
                  f'{h}: call number k of a measurement is made with input k')
        put(st, CALLS, simp(k + 1))
        return [(st, F(*a))]
    vec = diag.vector_function(c, w, two, lambda vs: F(*vs))

    def vector(ex, st, a):
        k = get(st, CALLS)
        ok = z3.And(*[z3.BoolVal(isinstance(p, smt.Ptr) and p.obj == q.obj and smt.isc(simp(p.off)) and smt.cval(simp(p.off)) == 0)
                      for p, (_, q) in zip(a[1:], ins)])
        ex.oblige('call', st, z3.Implies(get(st, ON) == 1, z3.And(k == 0, z3.ZeroExt(32, a[0]) == n, ok)), f'{h}: a measurement is one call on all inputs')
        put(st, CALLS, simp(k + z3.ZeroExt(32, a[0])))
        return vec(ex, st, a)
    names = list(m.funcs)
    hit = {}
    for f, d in zip(names, K.demangle(names)):
        for key, hd in (('start', start), ('stop', stop), ('get_elapsed_time', elapsed)):
            if d == f'vdth::timer::{key}()' or d == f'vdth::timer::{key}() const':
                ex.ext[f] = hd
                hit[key] = 1
    if len(hit) != 3:
        raise irlower.Unsupported('the timer has no start, stop or get_elapsed_time')
    ex.ext[('F2_' if two else 'F1_') + s] = scalar
    ex.ext[('F2v_' if two else 'F1v_') + s] = vector
    zero = bv(0, 64)
    itof = lambda v: fp.itof(v, 64, False)
    # the sums are kept as integers or as floating-point numbers (the squares formed before or after conversion)
    if acc == 'integer':
        term, add, toF = [D, lambda k: ex.times(D(k), D(k))], lambda a, b: a + b, itof
    else:
        term = [lambda k: itof(D(k)), (lambda k: itof(ex.times(D(k), D(k)))) if acc == 'converted' else (lambda k: fp.binop('fmul', itof(D(k)), itof(D(k))))]
        add, toF = lambda a, b: fp.binop('fadd', a, b), lambda v: v
    S, Q = folds = [smt.Fold(name, 64, zero, lambda t, k, e=e: z3.If(z3.ULT(k, W), t, add(t, e(k)))) for name, e in zip(('total', 'squares'), term)]
    offs = [zero, W]

    turn = [False]      # the loop at hand makes measurements

    def axioms(k):
        return [] if not turn[0] else [a for o in offs for f in folds for a in f.axioms([simp(k + o)])]
    ex.head_axioms = axioms
    c.st.pc += [f.fn(zero) == f.init for f in folds]

    def extra(ex, R0, st, Rk, sk, k, mod, nxt):
        out = []
        turn[0] = any(key[:3] == ('m', ghost.obj, COUNT) for key in mod)
        if not turn[0]:
            return out
        for o in offs:
            g = lambda kk, o=o: simp(kk + o)
            out += [(f'{f.name} of the warm-up is zero', lambda R_, s_, kk, f=f, g=g: z3.Implies(z3.ULE(g(kk), W), f.at(g(kk)) == 0)) for f in folds]
            for key in mod:
                v = ex.get(key, Rk, sk)
                if not z3.is_expr(v) or v.size() != 64:
                    continue
                for f in folds:
                    for t in (f.at, lambda kk, f=f: itof(f.at(kk))) if acc == 'integer' else (f.at,):
                        out.append((f'{key} is the {f.name} of the measurements so far', lambda R_, s_, kk, key=key, t=t, g=g: diag.eq(ex.get(key, R_, s_), t(g(kk)))))
        return out
    ex.extra_candidates = extra
    res = c.run(h, [p for _, p in ins] + [n, r32])
    M = simp(W + r)
    N = ex.times(n, r)
    leaves = {'t': toF(S.at(M)), 'q': toF(Q.at(M)), 'N': itof(N), 'N1': itof(simp(N - 1)), 'n': itof(n), 'r': itof(r)}
    obls = []
    import sympy
    t, q, Ns = sympy.symbols('t q N')
    nn, rr = sympy.symbols('n r', positive=True)
    for st, _ in res:
        (_, (avg, err)), = observed(st)
        obls.append(smt.Obl('measured', st.pc, get(st, COUNT) == M, f'{h}: the measured repetitions come after the warm-up'))
        norm = lambda e: None if e is None else e.subs({sympy.Symbol('N1'): Ns - 1, sympy.Symbol('n'): nn, sympy.Symbol('r'): rr}).subs(Ns, nn * rr)
        a, e = norm(diag.realexpr(fp, st.pc, avg, leaves, ex)), norm(diag.realexpr(fp, st.pc, err, leaves, ex))
        NN = nn * rr
        mean = t / NN
        ok = a is not None and sympy.simplify(a - mean) == 0
        obls.append(smt.Obl('mean', st.pc, z3.BoolVal(ok), f'{h}: the mean is the total measured time divided by the number of measured calls'))
        ok = e is not None and sympy.simplify(e ** 2 - (q - NN * mean ** 2) / (NN - 1) / NN) == 0
        obls.append(smt.Obl('error', st.pc, z3.BoolVal(ok), f'{h}: the error is the standard error of the mean of the same measurements'))
    reach = any(smt.check(st.pc + [z3.UGT(n32, bv(5, 32)), z3.UGT(r32, bv(5, 32))])[0] == 'sat' for st, _ in res)
    return diag.settle(R, prop, h[2:], ex, obls, reach)


def observed(st):
    return [o for o in st.obs if o[0] == 0]


def run_C36(prop, R):
    R.trust(*diag.TRUST)
    R.assume('fewer than 2^32 inputs and 2^31 repetitions, at least one of each', 'sums of durations and of their squares are taken modulo 2^64',
             'the timer returns the time between start and stop (proved by C29)',
             'the final expressions are compared in real arithmetic; their rounding is not bounded')
    notes = []
    fails = diag.native(R, DRV, 'c36', ['-O2'], notes=notes)
    if fails:
        return diag.conclude(R, fails, {})
    m = diag.module(SRC + ''.join(diag.fill(ONE, w) for w in (64, 32)))
    jobs = {}
    for h in diag.harnesses(m):
        seen = {(int(r), int(k)) for key, r, k in notes if key == 'bench' + h[2] + 'v' * (h[3] == 'v')}
        warm = [f for f in WARM if all(f(r) == k for r, k in seen)][:1] + [lambda r: r * 0]
        jobs[h[2:]] = [lambda R, h=h, f=f, acc=acc: bench(R, prop, m, h, diag.width(h), '2' in h, lambda r: simp(f(r)), acc)
                       for acc in ('integer', 'converted', 'floating') for f in warm]
    diag.prove(R, prop, fails, jobs)
    if R.violations:        # many inputs and repetitions
        fails = diag.native(R, DRV.replace('go<double>("double"); go<float>("float");', BIG), 'c36big', ['-O2'])
        for k, t in fails.items():
            R.violate(k, t, {'input': t})


def least(a, b):
    return z3.If(z3.ULT(a, b), a, bv(b, 64)) if z3.is_expr(a) else min(a, b)


def most(a, b):
    return z3.If(z3.ULT(a, b), bv(b, 64), a) if z3.is_expr(a) else max(a, b)


def half(r, k):
    return z3.LShR(r, k) if z3.is_expr(r) else r >> k


# the length of the warm-up is not prescribed: that of the compiled code is looked up here and then proved for all repetitions
WARM = [lambda r: r, lambda r: r * 2, lambda r: r * 3, lambda r: half(r, 1), lambda r: half(r, 2)] + \
    [lambda r, c=c: r * 0 + c for c in range(0, 1001)] + [lambda r, c=c: r + c for c in range(1, 101)] + \
    [lambda r, c=c: half(r, 1) + c for c in range(1, 101)] + [lambda r, c=c: least(r, c) for c in range(1, 101)] + [lambda r, c=c: most(r, c) for c in range(1, 101)]
BIG = '''{ typedef double T; n=1; reps=40000; std::vector<T> x(1); begin(x,x); fcnPerformance<T> P("f",x,std::function<T(T)>(F1<T>),reps); chk("bench1","double",P); }
{ typedef double T; n=1; reps=40000; std::vector<T> x(1); begin(x,x); fcnPerformance<T> P("f",x,x,std::function<T(T,T)>(F2<T>),reps); chk("bench2","double",P); }
{ typedef double T; n=3; reps=3; unit=1500000000; std::vector<T> x(3); begin(x,x); fcnPerformance<T> P("f",x,std::function<T(T)>(F1<T>),reps); chk("bench1","double",P,1); }
{ typedef double T; n=3; reps=3; std::vector<T> x(3); begin(x,x); fcnPerformance<T> P("f",x,std::function<void(uint32_t,T*,T*)>(F1v<T>),reps); chk("bench1v","double",P,1); }
{ typedef double T; n=3; reps=3; std::vector<T> x(3); begin(x,x); fcnPerformance<T> P("f",x,x,std::function<T(T,T)>(F2<T>),reps); chk("bench2","double",P,1); }
{ typedef double T; n=3; reps=3; std::vector<T> x(3); begin(x,x); fcnPerformance<T> P("f",x,x,std::function<void(uint32_t,T*,T*,T*)>(F2v<T>),reps); chk("bench2v","double",P,1); }
unit=1; n=1u<<18; reps=1u<<14; typedef float T; std::vector<T> x(n); begin(x,x); fcnPerformance<T> P("f",x,std::function<void(uint32_t,T*,T*)>(F1v<T>),reps); chk("bench1v","float",P);'''
DRV = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <iomanip>
#include <time.h>
#include <limits>
#include "vdtdiag_helper.h"
#include "vdtdiag_fcnPerformance.h"
// a clock that advances only while the function runs
static unsigned long long now=1000; static long cases; static uint32_t n,reps; static unsigned long long calls,unit=1; static std::vector<unsigned long long> spent;
extern "C" int clock_gettime(clockid_t, timespec* t) noexcept { t->tv_sec=now/1000000000ull; t->tv_nsec=now%1000000000ull; return 0; }
static void tick(unsigned long long k){ unsigned long long rep=calls/n; calls+=k; if(spent.size()<=rep) spent.resize(rep+1); unsigned long long d=unit*k*(rep<reps?977+rep:10+rep%7*3+rep); spent[rep]+=d; now+=d; }
static const void* in1; static const void* in2; static int wrong;
template<class T> T F1(T x){ if(x!=((const T*)in1)[calls%n]) wrong=1; tick(1); return x; }
template<class T> T F2(T x,T y){ if(x!=((const T*)in1)[calls%n]||y!=((const T*)in2)[calls%n]) wrong=1; tick(1); return x; }
template<class T> void F1v(uint32_t k,T*a,T*o){ if(k!=n||a!=in1) wrong=1; for(uint32_t i=0;i<k;++i) o[i]=a[i]; tick(k); }
template<class T> void F2v(uint32_t k,T*a,T*b,T*o){ if(k!=n||a!=in1||b!=in2) wrong=1; for(uint32_t i=0;i<k;++i) o[i]=a[i]; tick(k); }
template<class T> void begin(const std::vector<T>&a,const std::vector<T>&b){ in1=&a[0]; in2=&b[0]; calls=0; wrong=0; spent.clear(); now+=12345678; }
template<class T> void chk(const char*k,const char*ty,const fcnPerformance<T>&P,bool mean=false){ static int bad; cases++; if(bad) return; char key[64]; snprintf(key,64,"%s<%s>",k,ty);
  if(wrong){ bad=1; printf("FAIL %s %u inputs, %u repetitions: the function is not called once with each input in turn\n",key,n,reps); return; }
  if(spent.size()<reps||calls%n){ bad=1; printf("FAIL %s %u inputs, %u repetitions: %llu calls\n",key,n,reps,calls); return; }
  printf("NOTE %s %u %zu\n",k,reps,spent.size()-reps);
  double t=0,q=0,N=(double)n*reps; for(size_t i=spent.size()-reps;i<spent.size();++i){ t+=spent[i]; q+=(double)spent[i]*spent[i]; }
  double a=P.getAvg(), e=P.getAvgErr(), m=t/N; T tol=std::numeric_limits<T>::epsilon()*4;
  if(!(std::fabs(a-m)<=tol*m)){ bad=1; printf("FAIL %s %u inputs, %u repetitions: mean %.17g instead of %.17g\n",key,n,reps,a,m); return; }
  double v=(q-N*m*m)/(N-1)/N; if(!mean&&N>1&&!(std::fabs(e*e-v)<=tol*4*q/(N-1)/N)&&!(e!=e&&std::fabs(v)<=1e-12*q)){ bad=1; printf("FAIL %s %u inputs, %u repetitions: error %.17g instead of %.17g\n",key,n,reps,e,std::sqrt(v)); } }
template<class T> void go(const char*ty){ uint32_t ns[]={1,2,3,7,64,1000}, rs[]={1,2,3,10,57};
  for(uint32_t a:ns) for(uint32_t r:rs){ n=a; reps=r; std::vector<T> x(n),y(n); for(uint32_t i=0;i<n;++i){ x[i]=(T)(1+i); y[i]=(T)(0.5*i-3); }
    { begin(x,y); fcnPerformance<T> P("f",x,std::function<T(T)>(F1<T>),r); chk("bench1",ty,P); }
    { begin(x,y); fcnPerformance<T> P("f",x,std::function<void(uint32_t,T*,T*)>(F1v<T>),r); chk("bench1v",ty,P); }
    { begin(x,y); fcnPerformance<T> P("f",x,y,std::function<T(T,T)>(F2<T>),r); chk("bench2",ty,P); }
    { begin(x,y); fcnPerformance<T> P("f",x,y,std::function<void(uint32_t,T*,T*,T*)>(F2v<T>),r); chk("bench2v",ty,P); } } }
int main(){ go<double>("double"); go<float>("float"); printf("DONE %ld\n",cases); }
'''
