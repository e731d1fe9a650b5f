"""Frame contracts: the library's functions keep no state, write nothing but their results and can be called by any number of
threads at once.  Every memory access and call reachable from a public function is an obligation; pointers are followed from where
they are made (own local, argument, constant, global) by a fixpoint over the extracted IR."""
import os, re
import common as K
import arrays, irlower, relate

LIBM = {f + s for f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'exp', 'exp2', 'expm1', 'log', 'log2',
                        'log10', 'log1p', 'sqrt', 'cbrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fma', 'fmod',
                        'remainder', 'copysign', 'ldexp', 'scalbn', 'logb', 'ilogb', 'hypot', 'pow', 'fmin', 'fmax', 'fdim', 'lround',
                        'llround', 'lrint', 'llrint', 'nan', 'nextafter') for s in ('', 'f', 'l')}
RESULT = {'frexp': 1, 'frexpf': 1, 'modf': 1, 'modff': 1, 'sincos': (1, 2), 'sincosf': (1, 2), 'remquo': 2, 'remquof': 2}
FRESH = {'malloc', 'calloc', '_Znwm', '_Znam', '__cxa_allocate_exception'}
FREE = {'free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'}
CONTROL = re.compile(r'^(fesetround|fesetenv|feupdateenv|feholdexcept|feenableexcept|fedisableexcept|fesetmode|llvm\.x86\.sse\.ldmxcsr.*|'
                     r'llvm\.set\.rounding|llvm\.set\.fpenv.*|srand|rand|random|srandom|drand48|setlocale|signal|atexit)$')
INTRINSIC = re.compile(r'^llvm\.(fabs|sqrt|floor|ceil|trunc|round|roundeven|rint|nearbyint|fma|fmuladd|copysign|minnum|maxnum|minimum|maximum|'
                       r'powi|pow|exp|exp2|log|log2|log10|sin|cos|ldexp|frexp|lrint|llrint|lround|llround|is\.fpclass|'
                       r'ctlz|cttz|ctpop|bswap|bitreverse|fshl|fshr|abs|smax|smin|umax|umin|canonicalize|'
                       r'[su](add|sub|mul)\.with\.overflow|[su](add|sub)\.sat|fpto[su]i\.sat|'
                       r'assume|expect|lifetime\.(start|end)|dbg\..*|annotation.*|invariant.*|trap|x86\.sse.*\.(cvt|min|max|sqrt|rcp|rsqrt).*|'
                       r'objectsize.*|is\.constant.*|experimental\.noalias.*|prefetch.*)(\..*)?$')
OWN = {'local', 'heap', 'null'}


class Frame:
    def __init__(self, m):
        self.m = m
        self.obl = []            # (function, description, ok)
        self.bad = []
        self.used = []
        self.writes = {}         # function -> parameters written through
        self.rets = {}           # function -> provenance of a returned pointer
        self.prov = {}
        self.touched = set()     # globals written by reachable functions

    def close(self, roots):
        todo, seen = list(roots), set()
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            fn = irlower.materialise(self.m, self.m.funcs[f])
            self.used.append(f)
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i['op'] in ('call', 'invoke') and i['callee'] in self.m.funcs:
                        todo.append(i['callee'])
        return self.used

    def flow(self):
        """fixpoint of the provenance of pointers in all functions"""
        for f in self.used:
            fn = self.m.funcs[f]
            self.prov[f] = {r: {f'param{k}'} for k, (r, t) in enumerate(fn.params) if t.k == 'ptr'}
            self.prov[f]['*local'] = set()
            self.writes[f], self.rets[f] = set(), set()
        change = True
        while change:
            change = False
            for f in self.used:
                change |= self.step(f)

    def of(self, f, v):
        if v[0] == 'reg':
            return self.prov[f].get(v[1], set())
        if v[0] == 'ptr':
            return {'global ' + v[1]}
        if v[0] == 'null':
            return {'null'}
        if v[0] == 'undef':
            return {'null'}
        return {'unknown'}

    def add(self, d, k, s):
        if s <= d.setdefault(k, set()):
            return False
        d[k] |= s
        return True

    def step(self, f):
        P, ch = self.prov[f], False
        fn = self.m.funcs[f]
        for b in fn.order:
            for i in fn.blocks[b]:
                op, dst = i['op'], i.get('dst')
                isp = i.get('ty') is not None and i['ty'].k == 'ptr'
                if op == 'alloca':
                    ch |= self.add(P, dst, {'local'})
                elif op in ('gep', 'freeze', 'bitcast') and (isp or op == 'gep'):
                    ch |= self.add(P, dst, self.of(f, i['args'][0]))
                elif op == 'select' and isp:
                    ch |= self.add(P, dst, self.of(f, i['args'][1]) | self.of(f, i['args'][2]))
                elif op == 'phi' and isp:
                    for v, _ in i['inc']:
                        ch |= self.add(P, dst, self.of(f, v))
                elif op == 'inttoptr':
                    ch |= self.add(P, dst, {'unknown'})
                elif op in ('extractvalue',):
                    ch |= self.add(P, dst, {'unknown'})
                elif op == 'load' and isp:
                    src = self.of(f, i['args'][0])
                    r = set()
                    for s in src:
                        if s in ('local', 'heap'):
                            r |= P['*local']
                        elif s.startswith('param'):
                            r.add(s)
                        elif s != 'null':
                            r.add('unknown')
                    ch |= self.add(P, dst, r)
                elif op == 'store':
                    v, p = i['args']
                    if i['ty'].k == 'ptr' and self.of(f, p) & {'local', 'heap'}:
                        ch |= self.add(P, '*local', self.of(f, v))
                    for s in self.of(f, p):
                        if s.startswith('param'):
                            ch |= self.mark(f, s)
                        if s.startswith('global '):
                            self.touched.add(s[7:])
                elif op in ('call', 'invoke'):
                    c = i['callee']
                    if c in self.m.funcs:
                        for k in self.writes[c]:
                            for s in self.of(f, i['args'][k]):
                                if s.startswith('param'):
                                    ch |= self.mark(f, s)
                                if s.startswith('global '):
                                    self.touched.add(s[7:])
                        if isp and dst:
                            r = set()
                            for s in self.rets[c]:
                                r |= self.of(f, i['args'][int(s[5:])]) if s.startswith('param') else {s}
                            ch |= self.add(P, dst, r)
                    elif c is not None:
                        for k in self.results(c):
                            for s in self.of(f, i['args'][k]):
                                if s.startswith('param'):
                                    ch |= self.mark(f, s)
                                if s.startswith('global '):
                                    self.touched.add(s[7:])
                        if isp and dst:
                            ch |= self.add(P, dst, {'heap'} if c in FRESH else {'unknown'})
                elif op == 'ret' and i['args'] and i['ty'].k == 'ptr':
                    ch |= self.add(self.rets, f, self.of(f, i['args'][0]) - {'local'})
        return ch

    def mark(self, f, s):
        k = int(s[5:])
        if k in self.writes[f]:
            return False
        self.writes[f].add(k)
        return True

    @staticmethod
    def results(c):
        if re.match(r'^llvm\.(memcpy|memmove|memset)\.', c) or c in ('memcpy', 'memmove', 'memset'):
            return (0,)
        r = RESULT.get(c, ())
        return r if isinstance(r, tuple) else (r,)

    def guarded(self, g):
        """a function-local static that is only written by its guarded initialisation"""
        guard = '_ZGV' + g[2:] if g.startswith('_Z') else None
        if guard not in self.m.globals:
            return False
        for f in self.used:
            fn = self.m.funcs[f]
            inside = None
            for b in fn.order:
                for i in fn.blocks[b]:
                    w = i['op'] == 'store' and ('global ' + g) in self.of(f, i['args'][1])
                    w = w or (i['op'] in ('call', 'invoke') and any(('global ' + g) in self.of(f, a) for k, a in enumerate(i['args'])
                                                                    if k in (self.writes.get(i['callee']) or self.results(i['callee'] or ''))))
                    if w:
                        if inside is None:
                            inside = self.dominated(fn)
                        if b not in inside:
                            return False
        return True

    @staticmethod
    def dominated(fn):
        """blocks that are entered only through a taken initialisation guard"""
        take = set()
        for b in fn.order:
            acq = {i['dst'] for i in fn.blocks[b] if i['op'] == 'call' and i['callee'] == '__cxa_guard_acquire'}
            if acq:
                cmp = {i['dst'] for i in fn.blocks[b] if i['op'] == 'icmp' and i['pred'] == 'ne' and i['args'][0] in [('reg', a) for a in acq]}
                t = fn.blocks[b][-1]
                if t['op'] == 'cbr' and t['args'][0] in [('reg', c) for c in cmp]:
                    take.add(t['to'][0])
        reach, todo = set(), [fn.order[0]]
        while todo:
            b = todo.pop()
            if b in reach or b in take:
                continue
            reach.add(b)
            t = fn.blocks[b][-1]
            todo += {'br': lambda: [t['to']], 'cbr': lambda: list(t['to']), 'switch': lambda: [t['default']] + [l for _, l in t['cases']],
                     'invoke': lambda: [t['normal'], t['unwind']]}.get(t['op'], lambda: [])()
        return set(fn.order) - reach

    def check(self, f, what, prov, write):
        for s in prov or {'unknown'}:
            ok, why = True, None
            if s in OWN or s.startswith('param'):
                pass
            elif s.startswith('global '):
                g = s[7:]
                gl = self.m.globals.get(g)
                if g in self.m.funcs or g in self.m.decls:
                    ok, why = not write, 'writes code'
                elif gl is None:
                    raise irlower.Unsupported(f'unknown global {g}')
                elif 'thread_local' in gl['text']:
                    raise irlower.Unsupported(f'thread-local variable {g}')
                elif gl.get('const'):
                    ok, why = not write, f'writes the constant {g}'
                elif g.startswith('_ZGV'):
                    pass
                elif self.guarded(g) and g in self.touched:
                    pass
                elif write:
                    ok, why = False, f'writes the global variable {g}'
                elif g in self.touched:
                    ok, why = False, f'reads the global variable {g}, which the library writes'
                elif re.match(r'(dso_local )?(internal|private)', gl['text']):
                    pass                      # written by nobody after its initialisation
                else:
                    ok, why = False, f'reads the variable {g}, which other code may change'
            else:
                raise irlower.Unsupported(f'{what} through a pointer of unknown origin in {f}')
            self.obl.append((f, what, ok))
            if not ok:
                self.bad.append((f, why))

    def oblige(self):
        for f in self.used:
            fn = self.m.funcs[f]
            for b in fn.order:
                for i in fn.blocks[b]:
                    op = i['op']
                    if op == 'aload':
                        if not all(s.startswith('global _ZGV') for s in self.of(f, i['args'][0])):
                            raise irlower.Unsupported('atomic load')
                        self.obl.append((f, 'initialisation guard', True))
                    elif op == 'load':
                        self.check(f, 'load', self.of(f, i['args'][0]), False)
                    elif op == 'store':
                        self.check(f, 'store', self.of(f, i['args'][1]), True)
                    elif op in ('fence', 'cmpxchg', 'atomicrmw'):
                        raise irlower.Unsupported(op)
                    elif op in ('call', 'invoke'):
                        c = i['callee']
                        if c is None:
                            raise irlower.Unsupported(f'indirect call in {f}')
                        if c in self.m.funcs:
                            for k in self.writes[c]:
                                self.check(f, f'argument {k} of {c}, which it writes', self.of(f, i['args'][k]), True)
                            self.obl.append((f, 'call ' + c, True))
                            continue
                        if CONTROL.match(c):
                            self.obl.append((f, 'call ' + c, False))
                            self.bad.append((f, f'calls {c}'))
                            continue
                        if c.startswith('__cxa_guard_'):
                            self.obl.append((f, 'call ' + c, True))
                            continue
                        for k in self.results(c):
                            self.check(f, 'result of ' + c, self.of(f, i['args'][k]), True)
                        if re.match(r'^(llvm\.)?mem(cpy|move)', c):
                            self.check(f, 'source of ' + c, self.of(f, i['args'][1]), False)
                        elif not (c in LIBM or c in RESULT or c in FRESH or c in FREE or INTRINSIC.match(c) or self.results(c)):
                            raise irlower.Unsupported(f'call of {c} in {f}')
                        self.obl.append((f, 'call ' + c, True))


SCALAR1 = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'exp', 'log', 'isqrt', 'inv', 'approx_isqrt', 'approx_inv']
PLAIN = ['isqrt', 'inv', 'identity']

DRV = r'''
#include <cmath>
#include <limits>
#include <cinttypes>
#include <cstdio>
#include <cstring>
#include <vector>
#include <thread>
#include <string>
#include <fenv.h>
#include <xmmintrin.h>
@GEN@
static const int N=257, T=4;
static unsigned ctl(){ return _mm_getcsr()&0xffc0; }
template<class V> bool same(V a,V b){ return (a!=a&&b!=b)||memcmp(&a,&b,sizeof a)==0; }
template<class V,class F> void one(const char*k,F f){
  std::vector<V> x(N),y(N),r(N); for(int i=0;i<N;++i){ static const double sc[]={1,1,30,700,85,4000,1e-9,1e30}; x[i]=(V)((0.03+0.0037*i)*sc[i%8]*(i%3==2?-1:1)); y[i]=(V)(0.9-0.003*i); }
  unsigned c0=ctl(); int r0=fegetround();
  for(int i=0;i<N;++i) r[i]=f(x[i],y[i]);
  if(ctl()!=c0||fegetround()!=r0) printf("FAIL %s the floating-point control state differs after a call\n",k);
  _mm_setcsr((_mm_getcsr()&~0xffc0u)|c0); fesetround(r0);
  for(int i=N-1;i>=0;--i){ V s=f(x[i],y[i]); if(!same(s,r[i])){ printf("FAIL %s f(%a) is %a after other calls and %a before\n",k,(double)x[i],(double)s,(double)r[i]); break; } }
  for(int i=0;i<N;++i){ V s=f(x[i],y[i]), t=f(x[i],y[i]); if(!same(s,t)||!same(s,r[i])){ printf("FAIL %s f(%a) is %a and %a in two successive calls\n",k,(double)x[i],(double)s,(double)t); break; } }
  std::vector<std::vector<V>> o(T,std::vector<V>(N)); std::vector<std::thread> t; std::vector<int> bad(T,-1);
  for(int q=0;q<T;++q) t.emplace_back([&,q]{ for(int p=0;p<3;++p) for(int i=0;i<N;++i){ int j=(i*(2*q+3)+q*61+p*7)%N; o[q][j]=f(x[j],y[j]); if(!same(o[q][j],r[j])) bad[q]=j; } });
  for(auto&a:t) a.join();
  for(int q=0;q<T;++q) if(bad[q]>=0){ int j=bad[q]; printf("FAIL %s f(%a) differs when called by several threads\n",k,(double)x[j]); break; }
  fflush(stdout); fprintf(stderr,"AFTER %s\n",k); fflush(stderr); }
template<class V,class F> void arr(const char*k,F f){
  std::vector<V> x(N),y(N),r(N); for(int i=0;i<N;++i){ x[i]=(V)(0.03+0.0037*i); y[i]=(V)(0.9-0.003*i); }
  unsigned c0=ctl(); f(N,x.data(),y.data(),r.data()); if(ctl()!=c0) printf("FAIL %s the floating-point control state differs after a call\n",k);
  std::vector<std::vector<V>> o(T,std::vector<V>(N)); std::vector<std::thread> t;
  for(int q=0;q<T;++q) t.emplace_back([&,q]{ for(int p=0;p<3;++p){ for(int m=1;m<N;m+=50) f(m,x.data(),y.data(),o[q].data()); f(N,x.data(),y.data(),o[q].data()); } });
  for(auto&a:t) a.join();
  for(int q=0;q<T;++q) for(int i=0;i<N;++i) if(!same(o[q][i],r[i])){ printf("FAIL %s element %d differs when called by several threads\n",k,i); q=T; break; }
  fflush(stdout); fprintf(stderr,"AFTER %s\n",k); fflush(stderr); }
int main(){
@CASES@
  printf("DONE @N@\n"); }
'''


def functions():
    """(key, type, expression in x, y)"""
    out = []
    for t, f in (('double', ''), ('float', 'f')):
        for n in SCALAR1:
            out.append((f'fast_{n}{f}', t, f'vdt::fast_{n}{f}(x)'))
        for n in PLAIN:
            out.append((n + f, t, f'vdt::{n}{f}(x)'))
        out.append(('fast_identity' + f, t, f'vdt::fast_identity{f}(x)'))
        out.append(('fast_atan2' + f, t, f'vdt::fast_atan2{f}(y,x)'))
        out.append(('identity2D' + f, t, f'vdt::identity2D{f}(x,y)'))
        out.append(('fast_isqrt_general' + f, t, f'vdt::fast_isqrt{f}_general(x,5)'))
        out.append(('fast_inv_general' + f, t, f'vdt::fast_inv{f}_general(x,5)'))
        out.append(('fast_sincos' + f, t, f'sc{f}(x)'))
    return out


HELP = 'static inline double sc(double x){ double s,c; vdt::fast_sincos(x,s,c); return s+3*c; }\n' \
       'static inline float scf(float x){ float s,c; vdt::fast_sincosf(x,s,c); return s+3*c; }\n'


def run(prop, R):
    R.trust('clang 18 front end and opt sroa (C++ to LLVM IR; extraction runs on the current headers)',
            'engine/irlower.py (IR reader) and engine/pure.py (pointer provenance)')
    R.assume('functions of the C library\'s mathematics part and compiler intrinsics keep no state (errno and the exception flags are per thread)',
             'pointer arguments of array functions refer to memory that no other thread writes during the call')
    gen = arrays.generate(False)
    src = '#include <cmath>\n#include <limits>\n#include <algorithm>\n#include <utility>\n#include <cstring>\n#include <cinttypes>\n' + gen + HELP
    fs = functions()
    for k, t, e in fs:
        src += f'extern "C" {t} w_{k}({t} x, {t} y) {{ return {e}; }}\n'
    m = relate.module(src, 'pure')
    cases = ''.join(f'  one<{t}>("{k}",[]({t} x,{t} y)->{t}{{ (void)y; return {e}; }});\n' for k, t, e in fs)
    n = len(fs)
    roots = ['w_' + k for k, _, _ in fs]
    for w, t, sfx in ((64, 'double', 'v'), (32, 'float', 'fv')):
        for nm in arrays.NAMES:
            b = nm in arrays.BINARY
            s = arrays.array_mangled(nm, b, w)
            if s not in m.funcs:
                R.error(f'{nm}{sfx}: not generated')
                continue
            roots.append(s)
            n += 1
            cases += (f'  arr<{t}>("{nm}{sfx}",[](uint32_t n,const {t}*x,const {t}*y,{t}*o){{ (void)y; vdt::{nm}{sfx}(n,x,{"y," if b else ""}o); }});\n')
    fails = native(R, gen, cases, n)
    for k, t in fails.items():
        R.violate(k, t, {'input': t})
    F = Frame(m)
    try:
        F.close(roots)
        F.flow()
        F.oblige()
    except irlower.Unsupported as e:
        if not fails:
            R.error(f'unsupported construct: {e}')
        return
    ok = sum(1 for _, _, o in F.obl if o)
    R.ob('frame analysis', len(F.obl), ok)
    R.functions(F.used)
    R.coverage['contracts'] = [{'name': 'frame', 'functions': len(F.used), 'public': len(roots), 'accesses_and_calls': len(F.obl)}]
    if not any(what == 'store' for _, what, _ in F.obl) or len(F.obl) < 100:
        R.error('vacuous: no accesses found')
    if not fails:
        for f, why in dict(F.bad).items():
            d = K.demangle([f])[0]
            R.violate(d, f'{d} {why}', {'function': d, 'access': why}, replayable=False)


def native(R, gen, cases, n):
    """runs every function by several threads and in several orders, under the race detector"""
    w = K.workdir()
    cpp, exe = os.path.join(w, 'pure_drv.cpp'), os.path.join(w, 'pure_drv')
    open(cpp, 'w').write(DRV.replace('@GEN@', gen + HELP).replace('@CASES@', cases).replace('@N@', str(n)))
    K.need(['g++', '-std=gnu++11', '-O1', '-g1', '-w', '-ffp-contract=off', '-fsanitize=thread', '-pthread', '-I' + K.INC, cpp, '-o', exe],
           'compiling the thread driver')
    r = K.sh([exe], timeout=250, cwd=w, env={**os.environ, 'TSAN_OPTIONS': 'halt_on_error=0 exitcode=0 report_bugs=1'})
    fails = {}
    for ln in r.stdout.splitlines():
        if ln.startswith('FAIL '):
            _, k, t = ln.split(' ', 2)
            fails.setdefault(k, t)
    seen = None
    for ln in r.stderr.splitlines():
        if ln.startswith('SUMMARY: ThreadSanitizer: data race'):
            seen = ln
        elif ln.startswith('AFTER '):
            if seen:
                fails.setdefault(ln.split()[1], 'data race between two calls: ' + seen.split('data race', 1)[1].strip()[:200])
            seen = None
    if 'DONE' not in r.stdout and not fails:
        raise K.CheckError(f'thread driver ended with {r.returncode}: {r.stderr[-600:]}')
    R.coverage['concrete_cases'] = n
    return fails
