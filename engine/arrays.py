"""Contracts of the generated array functions and of the libm-override symbols."""
import multiprocessing, os, subprocess, time
import z3
import common as K
import irlower, smt
from smt import bv, simp
import relate

LIBM = ['asin', 'atan', 'atan2', 'acos', 'cos', 'exp', 'log', 'sin', 'tan', 'tanh']
NAMES = LIBM + ['isqrt', 'inv', 'identity', 'identity2D', 'fast_asin', 'fast_acos', 'fast_atan', 'fast_atan2', 'fast_cos', 'fast_exp',
                'fast_inv', 'fast_approx_inv', 'fast_log', 'fast_sin', 'fast_isqrt', 'fast_approx_isqrt', 'fast_tan', 'fast_tanh']
BINARY = {'atan2', 'identity2D', 'fast_atan2'}


def generate(preload):
    """runs the project's generator into a scratch directory; returns the generated C++ text"""
    out = os.path.join(K.workdir(), 'gen_p' if preload else 'gen')
    os.makedirs(out, exist_ok=True)
    gen = os.path.join(K.REPO, 'src', 'signatures_generator.py')
    py = '/usr/bin/python3' if os.path.exists('/usr/bin/python3') else 'python3'
    K.need([py, '-B', gen] + (['-p'] if preload else []) + ['-o', out], 'signature generator', cwd=out)
    f = [x for x in os.listdir(out) if x.endswith('.cc')]
    if len(f) != 1:
        raise K.CheckError('the generator wrote ' + str(f))
    return open(os.path.join(out, f[0])).read()


def mangled(name, binary, w):
    t = 'd' if w == 64 else 'f'
    return f'_ZN3vdt{len(name)}{name}E' + t * (2 if binary else 1)


def array_mangled(name, binary, w):
    t = 'd' if w == 64 else 'f'
    n = name + ('v' if w == 64 else 'fv')
    return f'_ZN3vdt{len(n)}{n}EjPK{t}' + ('S1_' if binary else '') + f'P{t}'


def scalar_externs():
    """the scalar routines are abstracted: the array contract is about which of them is applied to what"""
    E = {}
    for n in NAMES:
        for w in (64, 32):
            s = n + ('' if w == 64 else 'f')
            b = n in BINARY

            def h(ex, st, args, s=s, w=w):
                return [(st, scalar_uf(ex, s, args))]
            if n in LIBM:
                E[s] = h
            else:
                E[mangled(s, b, w)] = h
    return E


def scalar_uf(ex, s, args):
    w = args[0].size()
    return ex.fp.uf('scalar_' + s, *[w] * len(args), w)(*args)


def one(m, name, w, level=0):
    """symbolic execution of one array function; returns (obligations by property, notes)"""
    b = name in BINARY
    sfx = '' if w == 64 else 'f'
    ex = smt.Exec(m, mode='uf', loops='invariant', externs=scalar_externs())
    ex.level = level
    st = smt.State()
    n = z3.BitVec('size', 32)
    n64 = z3.ZeroExt(32, n)
    j = z3.BitVec('j', 64)
    esz = w // 8
    ins = [smt.Arr(f'input{i + 1}', esz, n64, False) for i in range(2 if b else 1)]
    out = smt.Arr('output', esz, n64, True, watch=j)
    ids = [ex.newobj(st, a) for a in ins]
    oid = ex.newobj(st, out)
    ex.watch_spec = lambda o, i: scalar_uf(ex, name + sfx, [a.fn(i) for a in ins])
    spec = ex.watch_spec(out, j)
    res = ex.run(array_mangled(name, b, w), [n] + [smt.Ptr(i, bv(0, 64)) for i in ids] + [smt.Ptr(oid, bv(0, 64))], st)
    value, frame = [], []
    old = out.fn(j)
    for s, _ in res:
        o = s.mem[oid]
        v = o.val
        value.append(smt.Obl('element', s.pc, z3.Implies(z3.ULT(j, n64), v == spec), f'{name}: element j is f(input[j])'))
        frame.append(smt.Obl('written', s.pc, o.wrote == z3.ULT(j, n64), f'{name}: element j is written exactly when j<size'))
        frame.append(smt.Obl('unchanged', s.pc, z3.Implies(z3.UGE(j, n64), v == old), f'{name}: elements beyond size keep their value'))
    inv = [o for o in ex.obl if o.kind.startswith('invariant')]
    rest = [o for o in ex.obl if not o.kind.startswith('invariant')]
    if not res:
        frame.append(smt.Obl('returns', st.pc, z3.BoolVal(False), f'{name}: a path returns'))
        value.append(smt.Obl('returns', st.pc, z3.BoolVal(False), f'{name}: a path returns'))
    return {'C19': inv + value, 'C20': inv + frame + rest}, ex


DRIVER = r'''
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
template<class T> struct Buf { char*map; size_t len; T*p; char*lo; size_t n;
  Buf(size_t n_, bool tail):n(n_){ size_t b=n*sizeof(T); size_t pg=4096; size_t body=(b+pg-1)/pg*pg+pg; len=body+2*pg;
    map=(char*)mmap(0,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); mprotect(map,pg,PROT_NONE); mprotect(map+pg+body,pg,PROT_NONE);
    lo=map+pg; p=tail?(T*)(map+pg+body-b):(T*)(map+pg); memset(lo,0x5a,body); blen=body; }
  size_t blen;
  bool outside_ok(){ char*e=(char*)(p+n); for(char*c=lo;c<(char*)p;++c) if(*c!=0x5a) return false; for(char*c=e;c<lo+blen;++c) if(*c!=0x5a) return false; return true; }
  void ro(){ mprotect(lo,blen,PROT_READ); } };
template<class T> bool same(T a,T b){ return (a!=a&&b!=b)||memcmp(&a,&b,sizeof a)==0; }
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
template<class T> T val(){ double u=(rnd()>>11)*0x1p-53; return (T)(u*0.9+0.05); }
// a very long array in little memory: all chunks but the last one are the same memory
template<class T> struct Long { char*at; T*p; T*last; size_t k; static const size_t C=8u<<20;
  Long(size_t n){ size_t b=n*sizeof(T), m=(b+C-1)/C; int fd=memfd_create("c",0); if(fd<0||ftruncate(fd,2*C)) _exit(0);
    at=(char*)mmap(0,m*C+4096,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(at==MAP_FAILED) _exit(0);
    for(size_t i=0;i<m;++i) if(mmap(at+i*C,C,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,i+1<m?0:C)==MAP_FAILED) _exit(0);
    size_t gap=(m*C-b)/sizeof(T); p=(T*)at+gap; last=(T*)(at+(m-1)*C); k=C/sizeof(T); }
  void fill(int v){ memset(at,v,C); memset((char*)last,v,C); } };
template<class T> int big(uint32_t n,void(*f1)(uint32_t,const T*,T*),void(*f2)(uint32_t,const T*,const T*,T*),T(*s1)(T),T(*s2)(T,T)){
  pid_t c=fork(); if(c==0){ struct rlimit rl={100,100}; setrlimit(RLIMIT_CPU,&rl); Long<T> a(n),b(n),o(n);
    for(size_t i=0;i<a.k;++i){ ((T*)a.at)[i]=val<T>(); ((T*)b.at)[i]=val<T>(); a.last[i]=val<T>(); b.last[i]=val<T>(); }
    o.fill(0x5a); if(f1) f1(n,a.p,o.p); else f2(n,a.p,b.p,o.p);
    for(int h=0;h<2;++h) for(size_t i=0;i<a.k;++i){ T x=h?a.last[i]:((T*)a.at)[i], y=h?b.last[i]:((T*)b.at)[i], g=h?o.last[i]:((T*)o.at)[i];
      T e=f1?s1(x):s2(x,y), u; memset(&u,0x5a,sizeof u); if(!same(e,g)) _exit(memcmp(&g,&u,sizeof u)?1:5); } _exit(0); }
  int st; waitpid(c,&st,0); if(WIFEXITED(st)) return WEXITSTATUS(st); if(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL) return 0; return 3; }
// 0 ok, 1 wrong value, 2 touched outside, 3 crash, 4 hang, 5 an element keeps two different former contents
template<class T> int run(uint32_t n,bool tail,void(*f1)(uint32_t,const T*,T*),void(*f2)(uint32_t,const T*,const T*,T*),T(*s1)(T),T(*s2)(T,T)){
  pid_t c=fork(); if(c==0){ struct rlimit rl={3,3}; setrlimit(RLIMIT_CPU,&rl); Buf<T> a(n,tail),b(n,tail),o(n,tail); for(uint32_t i=0;i<n;++i){ a.p[i]=val<T>(); b.p[i]=val<T>(); }
    a.ro(); b.ro(); if(f1) f1(n,a.p,o.p); else f2(n,a.p,b.p,o.p);
    if(!o.outside_ok()) _exit(2);
    bool kept=false,wrong=false; T u; memset(&u,0x5a,sizeof u);
    for(uint32_t i=0;i<n;++i){ T e=f1?s1(a.p[i]):s2(a.p[i],b.p[i]); if(!same(e,o.p[i])) wrong=true; kept|=memcmp(&u,o.p+i,sizeof u)==0; }
    if(kept){ kept=false; memset((char*)&u,0x2b,sizeof u); for(uint32_t i=0;i<n;++i) o.p[i]=u; if(f1) f1(n,a.p,o.p); else f2(n,a.p,b.p,o.p);
      for(uint32_t i=0;i<n;++i) kept|=memcmp(&u,o.p+i,sizeof u)==0; }
    _exit(kept?5:wrong?1:0); }
  int st; waitpid(c,&st,0); if(WIFEXITED(st)) return WEXITSTATUS(st); if(WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL) return 4; return 3; }
int main(int ac,char**av){ int part=atoi(av[1]); uint32_t lg[]={2147483653u,4294967295u}; uint32_t ns[]={0,1,2,3,4,5,6,7,8,9,15,16,17,31,32,33,63,65,100,127,129,255,256,257,1000,1023,4096,4099,32767,32769,65535,65536,65537,70001,1048579};
@CASES@
  return 0; }
'''


def concrete(gen, wanted, long=False):
    """runs the generated library on many lengths between guard pages, or on very long arrays; {name: (kind, length)} for failures"""
    cases = ''
    for k, (name, w) in enumerate(wanted):
        t = 'double' if w == 64 else 'float'
        sfx = '' if w == 64 else 'f'
        b = name in BINARY
        q = '::' if name in LIBM else 'vdt::'
        arr = f'(void(*)({"uint32_t,const T*,const T*,T*" if b else "uint32_t,const T*,T*"}))'.replace('T', t)
        sc = f'({t}(*)({t + "," + t if b else t}))&{q}{name}{sfx}'
        av = arr + f'&vdt::{name}{"v" if w == 64 else "fv"}'
        args = f'0,{av},0,{sc}' if b else f'{av},0,{sc},0'
        cases += (f'  if(ac>2&&part=={k % 8}) for(uint32_t n:lg){{ int r=big<{t}>(n,{args}); if(r){{ printf("{name} {w} %u %d\\n",n,r); fflush(stdout); break; }} }}\n'
                  f'  if(ac==2&&part=={k % 8}) for(uint32_t n:ns) for(int tail=0;tail<2;++tail){{ int r=run<{t}>(n,tail,{args}); if(r){{ '
                  f'printf("{name} {w} %u %d\\n",n,r); fflush(stdout); if(r==4) goto e{k}; }} }} e{k}:;\n')
    w = K.workdir()
    src = os.path.join(w, 'arr.cpp')
    open(src, 'w').write('#include <cmath>\n#include <limits>\n#include <cinttypes>\n' + gen + DRIVER.replace('@CASES@', cases))
    exe = os.path.join(w, 'arr')
    K.need(['g++', '-std=gnu++11', '-O2', '-fno-builtin', '-ffp-contract=off', '-w', '-I' + K.INC, src, '-o', exe], 'compiling the array driver')
    bad = {}
    ps = [subprocess.Popen([exe, str(k)] + ['long'] * long, stdout=subprocess.PIPE, text=True) for k in range(8)]
    for p in ps:
        out = p.communicate()[0]
        if p.returncode != 0:
            raise K.CheckError(f'array driver ended with {p.returncode}')
        for ln in out.splitlines():
            n, w_, size, kind = ln.split()
            bad.setdefault((n, int(w_)), []).append((int(kind), int(size)))
    return bad


KIND = {1: 'an output element differs from the scalar function', 2: 'memory outside the output range was written',
        3: 'an access outside the arrays', 4: 'the call does not return', 5: 'an output element is not written'}


_ctx = None


def _task(t):
    name, w, level = t
    m, prop = _ctx
    o = {'errors': [], 'total': 0, 'ok': 0, 'seconds': 0.0, 'loops': [], 'used': [], 'failed': None}
    if array_mangled(name, name in BINARY, w) not in m.funcs:
        o['errors'].append('not generated')
        return o
    try:
        _decide(m, prop, name, w, level, o)
    except (irlower.Unsupported, smt.Unknown) as e:
        o['failed'] = ('error', str(e))
    except smt.LoopFail as e:
        o['failed'] = ('undecided', str(e))
        o['total'], o['ok'] = 1, 0
    return o


def _decide(m, prop, name, w, level, o):
    q0 = smt.STATS['seconds']
    o['failed'] = None
    o['errors'] = []
    obl, ex = one(m, name, w, level)
    obls = obl[prop]
    main = [x for x in obls if x.kind in ('element', 'written')]
    # vacuity: a non-empty array that is processed completely must be reachable
    if not any(smt.check(x.pc + [z3.UGT(z3.BitVec('size', 32), bv(5, 32)), z3.ULT(z3.BitVec('j', 64), bv(5, 64))])[0] == 'sat' for x in main):
        if not any(x.kind == 'returns' for x in obls):
            o['errors'].append('vacuous')
    res = smt.discharge(obls)
    bad = [x for x, s, _ in res if s != 'proved']
    o.update(total=len(res), ok=len(res) - len(bad), seconds=smt.STATS['seconds'] - q0, loops=[l['invariants'] for l in ex.loop_notes],
             used=list(ex.used))
    if any(s == 'unknown' for _, s, _ in res):
        o['failed'] = ('error', 'solver limit')
    elif bad:
        o['failed'] = ('undecided', f'{bad[0].kind}: {bad[0].where}')


def run_arrays(prop, R):
    R.trust(*relate.TRUST)
    R.assume('input and output arrays do not overlap (the parameters are declared __restrict__)',
             'the scalar routines are deterministic functions of their arguments that write no memory (math routines)',
             'arrays of size elements exist (size*sizeof(element) bytes each), so addresses do not wrap')
    gen = generate(False)
    m = relate.module(gen, 'arrays')
    cov = R.coverage
    cov['contracts'] = []
    failed, used = [], []
    tasks = [(name, w) for w in (64, 32) for name in NAMES]
    want = {'C19': (1, 5), 'C20': (2, 3, 4, 5)}[prop]
    global _ctx
    _ctx = (m, prop)

    def pool_run(ts):
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 2)) as pool:
            return pool.map(_task, ts, chunksize=1)
    end = time.time() + 600
    # compiled code between guard pages on many lengths: a failing call decides without a proof attempt
    have = [t for t in tasks if array_mangled(t[0], t[0] in BINARY, t[1]) in m.funcs]
    conc = concrete(gen, have)
    cov['concrete_calls'] = len(have) * 70
    hit = {t: [f for f in fs if f[0] in want] for t, fs in conc.items()}
    smt.DEADLINE = time.time() + 150
    left = [t for t in tasks if not hit.get(t)]
    outs = dict(zip(left, pool_run([(n, w, 0) for n, w in left])))
    # richer invariant templates where neither a proof nor a failing call was found
    smt.DEADLINE = end
    more = [t for t in left if outs[t]['failed'] and not conc.get(t)]
    if more:
        outs.update(zip(more, pool_run([(n, w, 1) for n, w in more])))
    smt.DEADLINE = None
    # failures that need an array of more than 2^31 elements
    more = [t for t in left if outs[t]['failed'] and not conc.get(t)]
    if more and all(outs[t]['failed'][0] == 'undecided' for t in more):
        for t, fs in concrete(gen, more[::max(1, len(more) // 8)][:8], long=True).items():
            conc.setdefault(t, []).extend(fs)
    for t in tasks:
        if t not in outs:
            outs[t] = {'errors': [], 'total': 1, 'ok': 0, 'seconds': 0.0, 'loops': [], 'used': [], 'failed': ('undecided', 'not attempted')}
    for name, w in tasks:
        o = outs[name, w]
        key = name + ('v' if w == 64 else 'fv')
        for e in o['errors']:
            R.error(f'{key}: {e}')
        R.ob('z3', o['total'], o['ok'], o['seconds'])
        if o['total']:
            c = {'name': key, 'obligations': o['total'], 'solver_s': round(o['seconds'], 3)}
            if len(cov['contracts']) < 2 or o['failed']:
                c['loop_invariants'] = o['loops']
            cov['contracts'].append(c)
        used += [u for u in o['used'] if u not in used]
        if o['failed']:
            failed.append((name, w, key, *o['failed'], None))
    R.functions(used)
    bad = conc
    for (n, w), fs in bad.items():
        if (n, w) not in [(a, b) for a, b, *_ in failed]:
            if any(k in want for k, _ in fs):
                R.error(f'{n}: proved, but the compiled code fails: {fs[:2]}')
    for name, w, key, kind, why, _ in failed:
        fs = [f for f in bad.get((name, w), []) if f[0] in want]
        if fs:
            R.violate(key, f'for length {fs[0][1]}: {KIND[fs[0][0]]}', {'function': key, 'lengths': fs[:10], 'obligation': why})
        elif kind == 'error':
            R.error(f'{key}: unsupported construct: {why}')
        else:
            other = bad.get((name, w))
            if other and prop == 'C19' and any(k in (2, 3, 4) for k, _ in other):
                k, nn = [x for x in other if x[0] in (2, 3, 4)][0]
                R.violate(key, f'for length {nn}: {KIND[k]}', {'function': key, 'lengths': other[:10], 'obligation': why})
            else:
                R.violate(key, f'obligation not discharged: {why}', {'function': key, 'obligation': why}, replayable=False)


def run_preload(prop, R):
    R.trust(*relate.TRUST)
    R.assume('the fast routines are deterministic functions of their arguments')
    gen = generate(True)
    m = relate.module(gen, 'preload')
    E = {}
    for n in LIBM:
        for w in (64, 32):
            s = 'fast_' + n + ('' if w == 64 else 'f')

            def h(ex, st, args, s=s):
                return [(st, scalar_uf(ex, s, args))]
            E[mangled(s, n == 'atan2', w)] = h
    cov = R.coverage
    cov['contracts'] = []
    used = []
    failed = []
    for n in LIBM:
        b = n == 'atan2'
        for w, sym in ((64, n), (32, n + 'f'), (32, f'_Z{len(n)}{n}' + ('ff' if b else 'f'))):
            if sym not in m.funcs:
                R.error(f'{sym}: symbol not generated')
                continue
            ex = smt.Exec(m, mode='uf', externs=dict(E))
            args = [z3.BitVec('x', w)] + ([z3.BitVec('y', w)] if b else [])
            spec = scalar_uf(ex, 'fast_' + n + ('' if w == 64 else 'f'), args)
            try:
                res = ex.run(sym, args)
            except irlower.Unsupported as e:
                R.error(f'{sym}: unsupported construct: {e}')
                continue
            q0 = smt.STATS['seconds']
            obls = [smt.Obl('forward', s.pc, v == spec if v is not None and v.size() == w else z3.BoolVal(False), sym) for s, v in res]
            out = smt.discharge(obls)
            bad = [o for o, s, _ in out if s != 'proved']
            R.ob('z3', len(out), len(out) - len(bad), smt.STATS['seconds'] - q0)
            cov['contracts'].append({'name': sym, 'obligations': len(out)})
            used += [u for u in ex.used if u not in used]
            if not out:
                R.error(f'{sym}: vacuous')
            if bad:
                failed.append((sym, n, b, w, str(bad[0].cond)[:300]))
            # an override must not call itself through the fast routine
            cyc = cycle(m, sym)
            R.ob('call graph', 1, 0 if cyc else 1)
            if cyc:
                R.violate(sym, 'calls itself: ' + ' -> '.join(cyc), {'cycle': cyc}, replayable=False)
    R.functions(used)
    if failed:
        conc = preload_concrete(gen, failed)
        for sym, n, b, w, why in failed:
            c = conc.get(sym)
            if c:
                R.violate(sym, f'returns something else than the fast routine for {c}', {'symbol': sym, 'argument': c, 'obligation': why})
            else:
                R.violate(sym, 'obligation not discharged', {'symbol': sym, 'obligation': why}, replayable=False)


def cycle(m, root):
    succ = {}

    def callees(f):
        if f not in succ:
            fn = m.funcs.get(f)
            r = []
            if fn is not None:
                irlower.materialise(m, fn)
                for b in fn.order:
                    for i in fn.blocks[b]:
                        if i['op'] in ('call', 'invoke') and i['callee']:
                            r.append(i['callee'])
            succ[f] = r
        return succ[f]
    stack = [(root, [root])]
    seen = set()
    while stack:
        f, path = stack.pop()
        for c in callees(f):
            if c == root:
                return path + [c]
            if c not in seen:
                seen.add(c)
                stack.append((c, path + [c]))
    return None


def preload_concrete(gen, failed):
    t = '#include <cmath>\n#include <limits>\n#include <cinttypes>\n#include <cstdio>\n#include <cstring>\n' + gen
    # the overrides clash with nothing here: they are reached by symbol through renamed declarations
    t += '\n'
    body = ''
    for k, (sym, n, b, w, _) in enumerate(failed):
        ty = 'double' if w == 64 else 'float'
        t += f'extern "C" {ty} sym{k}({ty + "," + ty if b else ty}) __asm__("{sym}");\n'
        v = f'vdt::fast_{n}{"" if w == 64 else "f"}'
        call = f'sym{k}(x,y)' if b else f'sym{k}(x)'
        ref = f'{v}(x,y)' if b else f'{v}(x)'
        body += (f'  for(int i=0;i<2000;++i){{ {ty} x=({ty})((i-1000)*0.00097+1e-9*i), y=({ty})((i*37%2000-1000)*0.0013); {ty} a={call}, r={ref};'
                 f' if(!((a!=a&&r!=r)||a==r)){{ printf("{sym} %.17g %.17g\\n",(double)x,(double)y); break; }} }}\n')
    t += 'int main(){\n' + body + '}\n'
    w = K.workdir()
    src, exe = os.path.join(w, 'pre.cpp'), os.path.join(w, 'pre')
    open(src, 'w').write(t)
    r = K.sh(['g++', '-std=gnu++11', '-O1', '-fno-builtin', '-ffp-contract=off', '-w', '-I' + K.INC, src, '-o', exe])
    if r.returncode:
        return {}
    r = K.sh([exe], timeout=100)
    return {ln.split()[0]: 'x=%s y=%s' % tuple(ln.split()[1:3]) for ln in r.stdout.splitlines()}
