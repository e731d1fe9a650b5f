"""Contracts of the generated wrapper library (scalar and array functions with C names)."""
import os
import z3
import common as K
import arrays, diag, irlower, relate, smt
from smt import bv, simp

# name -> number of inputs and outputs
NAMES = {'asin': (1, 1), 'atan': (1, 1), 'atan2': (2, 1), 'cos': (1, 1), 'exp': (1, 1), 'inv': (1, 1), 'log': (1, 1), 'sin': (1, 1), 'sincos': (1, 2),
         'isqrt': (1, 1), 'identity': (1, 1), 'sqrt': (1, 1), 'div': (2, 1), 'fma': (3, 1), 'fmac': (3, 1)}
SRC = os.path.join(K.REPO, 'src')
SFX = {64: '', 32: 'f'}


def generate():
    """runs the project's generator (written for Python 2: `file` is provided) in a scratch directory; returns that directory"""
    out = os.path.join(K.workdir(), 'wrapgen')
    os.makedirs(out, exist_ok=True)
    py = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3'
    K.need([py, '-B', '-c', "import builtins, runpy, sys; builtins.file = open; sys.argv = sys.argv[1:]; runpy.run_path(sys.argv[0], run_name='__main__')",
            os.path.join(SRC, 'numpy_wrapper_generator.py')], 'wrapper generator', cwd=out)
    return out


def library(gen):
    """the generated implementation"""
    fs = [f for f in sorted(os.listdir(gen)) if f.endswith(('.cc', '.cpp'))]
    if len(fs) != 1:
        raise K.CheckError('the generator wrote ' + str(os.listdir(gen)))
    return '#include <cmath>\n#include <limits>\n#include <cstdint>\n' + f'#include "{os.path.join(gen, fs[0])}"\n'


def flags(gen):
    # without __linux__ each routine is compiled once instead of once per processor; the text is the same
    return ['-U__linux__', '-I' + SRC, '-I' + gen]


def value(ex, n, w, a):
    """the results the contract demands"""
    fp, s = ex.fp, SFX[w]
    if n == 'sincos':      # C18: the combined routine returns what the separate ones return
        return [arrays.scalar_uf(ex, 'fast_sin' + s, a), arrays.scalar_uf(ex, 'fast_cos' + s, a)]
    if n == 'sqrt':
        return [fp.sqrt(a[0])]
    if n == 'div':
        return [fp.binop('fdiv', a[0], a[1])]
    if n == 'fma':
        return [fp.binop('fadd', fp.binop('fmul', a[0], a[1]), a[2])]
    if n == 'fmac':
        return [fp.uf('fused', w, w, w, w)(*a)]
    return [arrays.scalar_uf(ex, 'fast_' + n + s, a)]


def externs():
    E = arrays.scalar_externs()
    for w in (64, 32):
        s, t = SFX[w], 'd' if w == 64 else 'f'
        ty = irlower.Ty('double' if w == 64 else 'float')
        n = 'fast_identity' + s
        E[arrays.mangled(n, False, w)] = lambda ex, st, a, n=n: [(st, arrays.scalar_uf(ex, n, a))]

        def both(ex, st, a, w=w, ty=ty):
            for p, v in zip(a[1:], value(ex, 'sincos', w, a[:1])):
                ex.store(st, p, v, ty, 'sincos')
            return [(st, None)]
        E[f'_ZN3vdt{11 + len(s)}fast_sincos{s}E{t}R{t}S0_'] = both
        for f in (f'fma{s}', f'llvm.fma.f{w}'):
            E[f] = lambda ex, st, a, w=w: [(st, ex.fp.uf('fused', w, w, w, w)(*a))]
    return E


def scalar(R, prop, m, n, w):
    ex = smt.Exec(m, mode='uf', externs=externs(), comm='value')
    st = smt.State()
    nin, nout = NAMES[n]
    xs = [z3.BitVec('xyz'[i], w) for i in range(nin)]
    outs = [smt.Ptr(ex.newobj(st, smt.Cells(w // 8, name=f'result{i}')), bv(0, 64)) for i in range(nout if nout > 1 else 0)]
    spec = value(ex, n, w, xs)
    obls = []
    res = ex.run('vdt_' + n + SFX[w], xs + outs, st)
    for s, v in res:
        got = [ex.load(s, p, irlower.Ty('double' if w == 64 else 'float'), 'result') for p in outs] or [v]
        for g, e in zip(got, spec):
            obls.append(smt.Obl('value', s.pc, diag.eq(g, e), f'vdt_{n}{SFX[w]} returns the value of its function'))
    return diag.settle(R, prop, 'vdt_' + n + SFX[w], ex, obls, bool(res))


def array(R, prop, m, n, w, level):
    ex = smt.Exec(m, mode='uf', loops='invariant', externs=externs(), comm='value')
    ex.level = level
    st = smt.State()
    size, j = z3.BitVecs('size j', 64)
    st.pc.append(z3.ULT(size, bv(1 << 58, 64)))
    nin, nout = NAMES[n]
    ins = [smt.Arr(f'input{i + 1}', w // 8, size, False) for i in range(nin)]
    outs = [smt.Arr(f'output{i + 1}', w // 8, size, True, watch=j) for i in range(nout)]
    ids = [ex.newobj(st, a) for a in ins + outs]
    ex.watch_spec = lambda o, i: value(ex, n, w, [a.fn(i) for a in ins])[int(o.name[-1]) - 1]
    spec = value(ex, n, w, [a.fn(j) for a in ins])
    res = ex.run(f'vdt_{n}{SFX[w]}v', [smt.Ptr(i, bv(0, 64)) for i in ids] + [size], st)
    obls = []
    name = f'vdt_{n}{SFX[w]}v'
    for s, _ in res:
        for i, o in zip(ids[nin:], range(nout)):
            a = s.mem[i]
            obls += [smt.Obl('element', s.pc, z3.Implies(z3.ULT(j, size), a.val == spec[o]), f'{name}: element j is that of the function'),
                     smt.Obl('written', s.pc, a.wrote == z3.ULT(j, size), f'{name}: element j is written exactly when it exists')]
    reach = any(smt.check(s.pc + [z3.UGT(size, bv(5, 64)), z3.ULT(j, bv(5, 64))])[0] == 'sat' for s, _ in res)
    return diag.settle(R, prop, name, ex, obls, reach)


DRV = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long total=0;
template<class T> bool same(T a,T b){ return (a!=a&&b!=b)||memcmp(&a,&b,sizeof a)==0; }
template<class T> T val(){ double u=(rnd()>>11)*0x1p-53; switch(rnd()%4){ case 0: return (T)(u*2-1); case 1: return (T)(u*10-5); case 2: return (T)((u-.5)*1000); } return (T)(u*0.9+0.05); }
template<class T> void ref(int f,const T*a,T*r);
template<class T> struct B { T*p; char*at; size_t len,n; B(size_t n_):n(n_){ size_t b=n*sizeof(T); len=(b+4095)/4096*4096; at=(char*)mmap(0,len+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    mprotect(at,4096,PROT_NONE); mprotect(at+4096+len,4096,PROT_NONE); p=(T*)(at+4096+len-b); memset(at+4096,0x5a,len); }
  bool before(){ for(char*c=at+4096;c<(char*)p;++c) if(*c!=0x5a) return false; return true; }
  ~B(){ munmap(at,len+8192); } };
// 0 ok 1 wrong value 2 memory outside 3 crash 4 no return
template<class T,class F> int arr(F f,int id,int nin,int nout,long n){ pid_t c=fork(); if(c==0){ struct rlimit rl={5,5}; setrlimit(RLIMIT_CPU,&rl);
    B<T> a(n),b(n),d(n),o(n),q(n); for(long i=0;i<n;++i){ a.p[i]=val<T>(); b.p[i]=val<T>(); d.p[i]=val<T>(); }
    std::vector<T> ka(a.p,a.p+n),kb(b.p,b.p+n),kd(d.p,d.p+n); f(a.p,b.p,d.p,o.p,q.p,n);
    if(!a.before()||!b.before()||!d.before()||!o.before()||!q.before()) _exit(2);
    for(long i=0;i<n;++i){ T in[3]={ka[i],kb[i],kd[i]},r[2]; if(memcmp(&a.p[i],&in[0],sizeof(T))||memcmp(&b.p[i],&in[1],sizeof(T))||memcmp(&d.p[i],&in[2],sizeof(T))) _exit(2);
      ref<T>(id,in,r); if(!same(r[0],o.p[i])||(nout>1&&!same(r[1],q.p[i]))) _exit(1); } _exit(0); }
  int st; waitpid(c,&st,0); ++total; if(WIFEXITED(st)) return WEXITSTATUS(st); return WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL?4:3; }
static const char*KIND[]={"","an output element is not the value of the function","memory outside the outputs was written","the call crashes","the call does not return"};
template<class T,class F> void arrs(const char*k,F f,int id,int nin,int nout){ for(long n:{0l,1l,2l,3l,4l,5l,7l,8l,9l,15l,16l,17l,31l,33l,63l,65l,127l,129l,255l,257l,1000l,4096l,4099l,32769l,65537l,70001l}){ int r=arr<T>(f,id,nin,nout,n);
    if(r){ printf("FAIL %s for %ld elements: %s\n",k,n,KIND[r]); return; } } }
template<class T,class F> void scal(const char*k,F f,int id,int nout){ for(int i=0;i<3000;++i){ T in[3]={val<T>(),val<T>(),val<T>()},r[2]={0,0},g[2]={0,0}; ref<T>(id,in,r); f(in,g); ++total;
    if(!same(r[0],g[0])||(nout>1&&!same(r[1],g[1]))){ printf("FAIL %s at %a %a %a: %a instead of %a\n",k,(double)in[0],(double)in[1],(double)in[2],(double)(same(r[0],g[0])?g[1]:g[0]),(double)(same(r[0],g[0])?r[1]:r[0])); return; } } }
'''


def driver(lib):
    t = lib + DRV
    main = ''
    for w in (64, 32):
        T, s = diag.T[w], SFX[w]
        t += f'template<> void ref<{T}>(int f,const {T}*a,{T}*r){{ switch(f){{\n'
        for k, (n, (nin, nout)) in enumerate(NAMES.items()):
            args = ','.join(f'a[{i}]' for i in range(nin))
            e = {'sqrt': 'r[0]=std::sqrt(a[0])', 'div': 'r[0]=a[0]/a[1]', 'fma': 'r[0]=a[0]*a[1]+a[2]', 'fmac': 'r[0]=std::fma(a[0],a[1],a[2])',
                 'sincos': f'vdt::fast_sincos{s}(a[0],r[0],r[1])', 'identity': 'r[0]=a[0]'}.get(n, f'r[0]=vdt::fast_{n}{s}({args})')
            t += f'case {k}: {e}; break;\n'
            A = ['a', 'b', 'd'][:nin] + ['o', 'q'][:nout]
            main += f'  arrs<{T}>("vdt_{n}{s}v",[](const {T}*a,const {T}*b,const {T}*d,{T}*o,{T}*q,long n){{ vdt_{n}{s}v({",".join(A)},n); }},{k},{nin},{nout});\n'
            call = f'vdt_{n}{s}({args},&g[0],&g[1])' if nout > 1 else f'g[0]=vdt_{n}{s}({args})'
            main += f'  scal<{T}>("vdt_{n}{s}",[](const {T}*a,{T}*g){{ {call}; }},{k},{nout});\n'
        t += '} }\n'
    return t + 'int main(){\n' + main + '  printf("DONE %ld\\n",total); }\n'


def run_C37(prop, R):
    R.trust(*relate.TRUST)
    R.assume('input and output arrays do not overlap (the parameters are declared __restrict__)',
             'the fast routines are deterministic functions of their arguments that write nothing but their results (C34), and the combined sine and cosine returns what the separate ones return (C18)',
             'the versions of a routine compiled for different processors have the same text (they are made by one macro); the selection at run time is not examined',
             'arrays hold fewer than 2^58 elements')
    gen = generate()
    lib = library(gen)
    fails = diag.native(R, driver(lib), 'c37', [*flags(gen), '-std=gnu++11', '-ffp-contract=off', '-O2'])
    if fails:
        return diag.conclude(R, fails, {})
    m = relate.module(lib, 'wrap', flags(gen))
    jobs = {}
    for w in (64, 32):
        for n in NAMES:
            for f in ('vdt_' + n + SFX[w], f'vdt_{n}{SFX[w]}v'):
                if f not in m.funcs:
                    R.error(f + ' is not generated')
                    return
            jobs['vdt_' + n + SFX[w]] = lambda R, n=n, w=w: scalar(R, prop, m, n, w)
            jobs[f'vdt_{n}{SFX[w]}v'] = [lambda R, n=n, w=w, level=level: array(R, prop, m, n, w, level) for level in (0, 1)]
    diag.prove(R, prop, fails, jobs)


# ---------------------------------------------------------------- the numpy module
TYPE = {11: 32, 12: 64}        # type numbers of the two precisions
MOCK = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mockpy')
CW = ['-w', '-Wno-incompatible-function-pointer-types', '-Wno-incompatible-pointer-types', '-Wno-int-conversion']
INIT = {3: 'PyInit_vdtnpfun', 2: 'initvdtnpfun'}


def c_flags(gen, py):
    return ['-std=gnu11', '-I' + MOCK, '-I' + gen, '-I' + SRC] + (['-DVT_PY2'] if py == 2 else [])


def np_module(gen, py):
    w = K.workdir()
    a, b = os.path.join(w, f'np{py}.0.ll'), os.path.join(w, f'np{py}.ll')
    K.need([K.CLANG, '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', *CW, *c_flags(gen, py), '-x', 'c', '-S', '-emit-llvm',
            os.path.join(SRC, 'vdtNumpyWrapper.c'), '-o', a], 'extraction (clang)')
    K.need([K.OPT, '-S', '-passes=function(sroa)', a, '-o', b], 'extraction (opt)')
    try:
        return irlower.parse(open(b).read())
    except irlower.Unsupported as e:
        raise K.CheckError('extraction: ' + str(e))


def registered(m, py):
    """executes the initialisation; returns ({name: (rows of (loop, data, types), inputs, outputs)}, executor)"""
    c = diag.Ctx(m, loops='unroll', unroll=400)
    ex = c.ex
    made, names = {}, []

    def new(ex, st, a):
        return [(st, smt.Ptr(ex.newobj(st, smt.Cells(64, name='object')), bv(0, 64)))]

    def ufunc(ex, st, a):
        cn = lambda x: smt.cval(simp(x))
        nt, nin, nout = [cn(x) for x in a[3:6]]
        at = lambda p, o: smt.Ptr(p.obj, simp(p.off + o))
        rows = []
        for t in range(nt):
            f = ex.load(st, at(a[0], 8 * t), irlower.Ty('ptr'), 'loops')
            d = ex.load(st, at(a[1], 8 * t), irlower.Ty('ptr'), 'data')
            ty = tuple(cn(ex.load(st, at(a[2], t * (nin + nout) + i), irlower.Ty('i', 8), 'types')) for i in range(nin + nout))
            rows.append((f, d, ty))
        p = smt.Ptr(ex.newobj(st, smt.Cells(64, name='ufunc')), bv(0, 64))
        made[p.obj] = (rows, nin, nout)
        return [(st, p)]

    def item(ex, st, a):
        names.append((c.cstring(st, a[1]), a[2].obj))
        return [(st, bv(0, 32))]
    ex.ext.update({'PyModule_Create': new, 'Py_InitModule': new, 'PyModule_GetDict': new, 'PyUFunc_FromFuncAndData': ufunc,
                   'PyDict_SetItemString': item, 'PyModule_AddObject': item, 'PyModule_AddObjectRef': item})
    if INIT[py] not in m.funcs:
        raise irlower.Unsupported('no initialisation for Python %d' % py)
    res = ex.run(INIT[py], [], c.st)
    if len(res) != 1:
        raise irlower.Unsupported('initialisation with several outcomes')
    t = {}
    for n, o in names:
        n = n.as_string() if z3.is_expr(n) and z3.is_string_value(n) else str(n)
        t[n] = made[o]
    return t, ex, res[0][0]


def table(R, prop, m, py):
    tab, ex, _ = registered(m, py)
    obls = []
    for n, (nin, nout) in NAMES.items():
        e = tab.get('vdt_' + n)
        ok = e is not None and e[1:] == (nin, nout)
        obls.append(smt.Obl('offered', [], z3.BoolVal(ok), f'vdt_{n} is offered with {nin} input(s) and {nout} output(s)'))
        if ok:
            rows = {r[2]: r for r in e[0]}
            for ty, w in TYPE.items():
                r = rows.get((ty,) * (nin + nout))
                good = r is not None and isinstance(r[0], smt.Fn) and isinstance(r[1], smt.Fn)
                obls.append(smt.Obl('offered', [], z3.BoolVal(good), f'vdt_{n} has a loop for {diag.T[w]}'))
            obls += [smt.Obl('offered', [], z3.BoolVal(len(set(t)) == 1 and t[0] in TYPE), f'vdt_{n} mixes no types') for t in rows]
    return diag.settle(R, prop, f'module for Python {py}', ex, obls, bool(tab))


def loop(R, prop, m, py, n, w):
    """the loop of one function and precision: every call hands the elements after those done so far to the array function"""
    tab, _, st0 = registered(m, py)
    nin, nout = NAMES[n]
    k = nin + nout
    row = [r for r in tab['vdt_' + n][0] if r[2] == ({32: 11, 64: 12}[w],) * k][0]
    c = diag.Ctx(m)
    ex, st, i64 = c.ex, c.st, irlower.Ty('i', 64)
    num = z3.BitVec('n', 64)
    st.pc.append(num >= 0)
    steps = [z3.BitVec(f'step{i}', 64) for i in range(k)]
    bufs = [ex.newobj(st, smt.Cells(0, name=f'operand{i}')) for i in range(k)]
    ghost = smt.Ptr(ex.newobj(st, smt.Cells(8, name='done')), bv(0, 64))
    ex.store(st, ghost, bv(0, 64), i64, 'done')

    def cells(vs, ty, nm):
        o = ex.newobj(st, smt.Cells(8 * len(vs), name=nm))
        for i, v in enumerate(vs):
            ex.store(st, smt.Ptr(o, bv(8 * i, 64)), v, ty, nm)
        return smt.Ptr(o, bv(0, 64))
    args = cells([smt.Ptr(b, bv(0, 64)) for b in bufs], irlower.Ty('ptr'), 'args')
    dims = cells([num], i64, 'dimensions')
    stp = cells(steps, i64, 'steps')
    ex.absmul = True

    def scaled(a, b):
        # the operands lie in memory, so n times the step fits, and so does what is smaller
        for x, y in ((a, b), (b, a)):
            if any(simp(y).eq(s) for s in steps):
                return z3.And(x >= 0, x <= num)
    ex.scaled = scaled
    M = [smt.Fold(f'offset{i}', 64, bv(0, 64), lambda t, kk, s=s: t + s) for i, s in enumerate(steps)]
    for f in M:
        st.pc.append(f.fn(bv(0, 64)) == 0)

    def axioms(kk):
        r = []
        for f, s in zip(M, steps):
            r += f.axioms([simp(kk)])
            r += [ex.times(simp(kk), s) == f.at(simp(kk)), ex.times(simp(kk + 1), s) == f.at(simp(kk + 1))]
        return r
    ex.head_axioms = axioms
    want = f'vdt_{n}{SFX[w]}v'

    def handler(name):
        def h(ex, st, a):
            done = ex.load(st, ghost, i64, 'done')
            cnt = a[-1]
            ps = a[:-1]
            ok = z3.BoolVal(name == want and len(ps) == k and all(isinstance(p, smt.Ptr) and p.obj == b for p, b in zip(ps, bufs)))
            ex.oblige('call', st, ok, f'{want}: the array function of this name and precision gets the operands in order')
            if len(ps) == k and all(isinstance(p, smt.Ptr) for p in ps):
                ex.oblige('call', st, z3.And(cnt >= 0, *[z3.Implies(cnt != 0, simp(p.off) == f.at(simp(done))) for p, f in zip(ps, M)]), f'{want}: a call starts at the first element not yet done')
                ex.oblige('call', st, z3.Or(z3.ULE(cnt, bv(1, 64)), z3.And(*[s == w // 8 for s in steps])), f'{want}: several elements at once only when they are adjacent')
            ex.store(st, ghost, simp(done + cnt), i64, 'done')
            return [(st, None)]
        return h
    for q in NAMES:
        for v in (64, 32):
            ex.ext[f'vdt_{q}{SFX[v]}v'] = handler(f'vdt_{q}{SFX[v]}v')

    def extra(ex, R0, s0, Rk, sk, kk, mod, nxt):
        out = []
        for key in mod:
            v = ex.get(key, Rk, sk)
            if isinstance(v, smt.Ptr):
                g = lambda R_, s_, key=key: ex.get(key, R_, s_).off
            elif z3.is_expr(v) and v.size() == 64:
                g = lambda R_, s_, key=key: ex.get(key, R_, s_)
            else:
                continue
            for f in M:
                out.append((f'{key} is the {f.name} of the elements done', lambda R_, s_, kk, f=f, g=g: g(R_, s_) == f.at(kk)))
        return out
    ex.extra_candidates = extra
    res = ex.run(row[0].name, [args, dims, stp, row[1]], st)
    obls = [smt.Obl('complete', s.pc, ex.load(s, ghost, i64, 'done') == num, f'{want}: all elements are done') for s, _ in res]
    reach = any(smt.check(s.pc + [num > 5])[0] == 'sat' for s, _ in res)
    return diag.settle(R, prop, f'loop of {want} for Python {py}', ex, obls, reach)


NPDRV = r'''
#include <map>
#include <string>
#include "numpy/ufuncobject.h"
struct U { std::vector<PyUFuncGenericFunction> f; std::vector<void*> d; std::vector<std::vector<int>> t; int nin,nout; };
static std::map<PyObject*,U> made; static std::map<std::string,PyObject*> dict; static PyObject obj[1000]; static int nobj=0;
static bool text(const char*s){ for(int i=0;i<60;++i){ if(!s[i]) return i>0; if(s[i]<33||s[i]>126) return false; } return false; }
extern "C" { PyObject* PyModule_Create(struct PyModuleDef*){ return obj+nobj++; } PyObject* Py_InitModule(const char*,PyMethodDef*){ return obj+nobj++; } PyObject* PyModule_GetDict(PyObject*){ return obj+nobj++; }
int PyDict_SetItemString(PyObject*,const char*k,PyObject*v){ if(text(k)) dict[k]=v; return 0; } int PyModule_AddObject(PyObject*,const char*k,PyObject*v){ if(text(k)) dict[k]=v; return 0; } int PyModule_AddObjectRef(PyObject*m,const char*k,PyObject*v){ return PyModule_AddObject(m,k,v); }
PyObject* PyUFunc_FromFuncAndData(PyUFuncGenericFunction*f,void**d,char*t,int nt,int nin,int nout,int,const char*,const char*,int){ PyObject*o=obj+nobj++; U&u=made[o]; u.nin=nin; u.nout=nout;
  for(int i=0;i<nt;++i){ u.f.push_back(f[i]); u.d.push_back(d[i]); u.t.push_back(std::vector<int>(t+i*(nin+nout),t+(i+1)*(nin+nout))); } return o; } }
template<class T> int once(const U&u,int row,int id,long n,const long*sm){ pid_t c=fork(); if(c==0){ struct rlimit rl={5,5}; setrlimit(RLIMIT_CPU,&rl);
    int k=u.nin+u.nout; std::vector<std::vector<T>> b(k); char*args[8]; npy_intp steps[8],dims[1]={n}; std::vector<long> base(k);
    for(int i=0;i<k;++i){ long s=sm[i]; long len=(n+1)*(s<0?-s:s)+2; b[i].resize(len+16); for(auto&x:b[i]) x=i<u.nin?val<T>():(T)-77; base[i]=8+(s<0?(n?n-1:0)*-s:0); args[i]=(char*)&b[i][base[i]]; steps[i]=s*(long)sizeof(T); }
    auto keep=b; u.f[row](args,dims,steps,u.d[row]);
    for(long e=0;e<n;++e){ T in[3]={0,0,0},r[2]={0,0}; for(int i=0;i<u.nin;++i) in[i]=keep[i][base[i]+e*sm[i]]; ref<T>(id,in,r);
      for(int o=0;o<u.nout;++o){ long at=base[u.nin+o]+e*sm[u.nin+o]; if(!same(b[u.nin+o][at],r[o])) _exit(1); keep[u.nin+o][at]=b[u.nin+o][at]; } }
    for(int i=0;i<k;++i) if(memcmp(b[i].data(),keep[i].data(),b[i].size()*sizeof(T))) _exit(2);
    _exit(0); }
  int st; waitpid(c,&st,0); ++total; if(WIFEXITED(st)) return WEXITSTATUS(st); return WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL?4:3; }
template<class T> void loops(const char*nm,const U&u,int id,int ty){ int k=u.nin+u.nout,row=-1; for(size_t i=0;i<u.t.size();++i) if(u.t[i]==std::vector<int>(k,ty)) row=i;
  if(row<0){ printf("FAIL %s no loop for %s\n",nm,ty==12?"double":"float"); return; }
  static const long S[][4]={{1,1,1,1},{2,1,1,1},{1,2,1,1},{1,1,2,1},{1,1,1,2},{3,2,1,2},{-1,1,1,1},{-1,-1,-1,-1},{0,1,1,1},{2,2,2,2},{1,0,1,1},{1,1,0,1},{1,-2,3,1},{5,1,7,2}};
  for(auto&s:S){ bool skip=false; for(int i=u.nin;i<k;++i) skip|=s[i]==0; if(skip) continue;
    for(long n:{0l,1l,2l,3l,5l,8l,17l,100l,1000l}){ int r=once<T>(u,row,id,n,s); if(r){ printf("FAIL %s%s %ld elements with steps of %ld,%ld,%ld,%ld elements: %s\n",nm,ty==12?"":"f",n,s[0],s[1],k>2?s[2]:0,k>3?s[3]:0,KIND[r]); return; } } } }
extern "C" @INIT@;
int main(){ pid_t c=fork(); if(c==0){ @CALL@(); _exit(0); } int st; waitpid(c,&st,0); if(!WIFEXITED(st)){ printf("FAIL module the initialisation crashes\nDONE 1\n"); return 0; } @CALL@();
  for(auto&d:dict) for(auto&x:made[d.second].t) for(int t:x) if(t!=x[0]||(t!=11&&t!=12)) printf("FAIL %s a loop mixes types or has another type\n",d.first.c_str());
'''


def np_native(R, gen, lib, py):
    w = K.workdir()
    o = os.path.join(w, f'np{py}.o')
    K.need(['gcc', '-O1', '-w', *c_flags(gen, py), '-c', os.path.join(SRC, 'vdtNumpyWrapper.c'), '-o', o], 'compiling the module')
    drv = driver(lib)
    t = drv[:drv.index('int main(){')] + NPDRV.replace('@INIT@', f'{"void" if py == 2 else "PyObject*"} {INIT[py]}()').replace('@CALL@', INIT[py])
    for k, (n, (nin, nout)) in enumerate(NAMES.items()):
        t += (f'  {{ auto i=dict.find("vdt_{n}"); if(i==dict.end()) printf("FAIL vdt_{n} is not offered by the module for Python {py}\\n"); else {{ const U&u=made[i->second];'
              f' if(u.nin!={nin}||u.nout!={nout}) printf("FAIL vdt_{n} has %d inputs and %d outputs\\n",u.nin,u.nout); else {{ loops<double>("vdt_{n}",u,{k},12); loops<float>("vdt_{n}",u,{k},11); }} }} }}\n')
    t += '  printf("DONE %ld\\n",total); }\n'
    return diag.native(R, t, f'c38_{py}', [*flags(gen), '-std=gnu++11', '-ffp-contract=off', '-I' + MOCK, o] + (['-DVT_PY2'] if py == 2 else []))


def run_C38(prop, R):
    R.trust(*relate.TRUST, 'engine/mockpy (the part of the Python and numpy interfaces that the module uses)')
    R.assume('an array function processes adjacent elements as stated by C37', 'operands do not overlap except as numpy allows', 'the number of elements times the distance between them fits in 63 bits (the operands lie in memory)',
             'numpy calls a loop with the types and the data it was registered with')
    gen = generate()
    lib = library(gen)
    fails = {}
    for py in (3, 2):
        for k, v in np_native(R, gen, lib, py).items():
            fails.setdefault(k, v)
    if fails:
        return diag.conclude(R, fails, {})
    jobs = {}
    for py in (3, 2):
        m = np_module(gen, py)
        jobs[f'module{py}'] = lambda R, m=m, py=py: table(R, prop, m, py)
        for n in NAMES:
            for w in (64, 32):
                jobs[f'vdt_{n}{SFX[w]} (Python {py})'] = lambda R, m=m, py=py, n=n, w=w: loop(R, prop, m, py, n, w)
    diag.prove(R, prop, fails, jobs)
