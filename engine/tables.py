"""Contracts of the tables of functions: every entry applies the function its name says to its argument and refers to the pool of
inputs meant for that function."""
import re
import z3
import common as K
import arrays, diag, irlower, smt
from smt import bv, simp

BASE = {'exp': 'e', 'log': 'p', 'sin': 's', 'cos': 's', 'tan': 's', 'tanh': 's', 'asin': 'o', 'acos': 'o', 'atan': 's', 'isqrt': 'p',
        'inv': 's', 'identity': 's'}
POOLS = 'spoe'
POOLNAME = {'s': 'symmetric', 'p': 'positive', 'o': '[-1,1]', 'e': 'exponential', 'x': 'first', 'y': 'second'}
LONG = {'inverse': 'inv'}


def decode(name, sfx, two):
    """table name -> (kind, function), kind being reference, fast or approximate; None when it is not such a name"""
    m = re.fullmatch(r'(Fast_Apr_|Fast_|)([A-Za-z0-9]+?)' + sfx, name)
    if not m:
        return None
    f = m.group(2).lower()
    f = LONG.get(f, f)
    if f not in (('atan2', 'identity2d') if two else BASE):
        return None
    return {'': 'reference', 'Fast_': 'fast', 'Fast_Apr_': 'approximate'}[m.group(1)], f


def wanted(two):
    if two:
        return [('reference', 'identity2d'), ('reference', 'atan2'), ('fast', 'atan2')]
    return ([('reference', f) for f in BASE] + [('fast', f) for f in BASE if f != 'identity'] + [('approximate', f) for f in ('isqrt', 'inv')])


def symbol(kind, f, sfx):
    """name of the function in the library"""
    f = {'identity2d': 'identity2D'}.get(f, f)
    return {'reference': '', 'fast': 'fast_', 'approximate': 'fast_approx_'}[kind] + f + sfx


def plain(kind, f):
    return kind == 'reference' and f in ('isqrt', 'inv', 'identity', 'identity2d')


TABLES = [(w, two, vec) for w in (64, 32) for two in (0, 1) for vec in (0, 1)]


def ident(w, two, vec):
    return f'{diag.SFX[w]}{1 + two}{"v" if vec else ""}'


def suffix(w, vec):
    return ('' if w == 64 else 'f') + ('v' if vec else '')


SRC = r'''
#include <string>
#include <vector>
#include <tuple>
#include "vdtMath.h"
#include "vdtdiag_fcnTuples.h"
extern "C" std::vt_file* vt_thefile() { return 0; }
extern "C" void vt_observe(uint64_t, ...);
extern "C" void h_names() { std::vector<std::string> v; getFunctionBasicNames(&v); for (size_t i = 0; i < v.size(); ++i) vt_observe(7, v[i].vt_h()); }
'''
ONE = r'''
typedef std::vector<@TUP@<@T@>> TB_@id@;
extern "C" TB_@id@* h_build_@id@(@POOLS@) { TB_@id@* t = ::new (vt_cells(sizeof(TB_@id@))) TB_@id@; @FILL@(t, @ARGS@); return t; }
extern "C" TB_@id@* h_again_@id@(TB_@id@* t, @POOLS@) { @FILL@(t, @ARGS@); return t; }
extern "C" uint64_t h_size_@id@(TB_@id@* t) { return t->size(); }
extern "C" void h_entry_@id@(TB_@id@* t, uint64_t i) { vt_observe(0, std::get<0>((*t)[i]).vt_h(), &std::get<2>((*t)[i])@SECOND@); }
extern "C" @RET@ h_call_@id@(TB_@id@* t, uint64_t i, @PAR@) { @RETURN@std::get<1>((*t)[i])(@CALL@); }
'''
POOLSRC = r'''
extern "C" const void* h_pool_@s@(randomPool<@T@>* p) { return &p->getNumbers(); }
extern "C" const void* h_poolx_@s@(randomPool2D<@T@>* p) { return &p->getNumbersX(); }
extern "C" const void* h_pooly_@s@(randomPool2D<@T@>* p) { return &p->getNumbersY(); }
extern "C" uint64_t h_sz1_@s@() { return sizeof(randomPool<@T@>); }
extern "C" uint64_t h_sz2_@s@() { return sizeof(randomPool2D<@T@>); }
extern "C" @T@ h_isqrt_@s@(@T@ x) { return (@T@)1 / std::sqrt(x); }
extern "C" @T@ h_inv_@s@(@T@ x) { return (@T@)1 / x; }
'''


def source():
    t = SRC + ''.join(diag.fill(POOLSRC, w) for w in (64, 32))
    for w, two, vec in TABLES:
        T = diag.T[w]
        n = 1 if two else 4
        par = (['uint32_t n'] + [f'{T}* x'] + ([f'{T}* y'] if two else []) + [f'{T}* o']) if vec else [f'{T} x'] + ([f'{T} y'] if two else [])
        t += diag.fill(ONE, w, id=ident(w, two, vec), TUP=f'genfpfcn{"2D" if two else ""}{"v" if vec else ""}_tuple',
                       POOLS=', '.join(f'randomPool{"2D" if two else ""}<{T}>* p{i}' for i in range(n)), ARGS=', '.join(f'*p{i}' for i in range(n)),
                       FILL='getFunctionTuplesvect' if vec else 'getFunctionTuples', SECOND=', &std::get<3>((*t)[i])' if two else '',
                       RET='void' if vec else T, RETURN='' if vec else 'return ', PAR=', '.join(par), CALL=', '.join(p.split()[1] for p in par))
    return t


def find_text(c):
    """search in texts that are known"""
    def vs_find(ex, st, a):
        s, t = c.term(a[0]), c.term(a[1])
        f = simp(a[2])
        if not z3.is_string_value(s) or not z3.is_string_value(t) or not smt.isc(f):
            raise irlower.Unsupported('search in a string')
        return [(st, bv(s.as_string().find(t.as_string(), smt.cval(f)) & (2 ** 64 - 1), 64))]

    def vs_sub(ex, st, a):
        s, p, n = c.term(a[0]), simp(a[1]), simp(a[2])
        if not z3.is_string_value(s) or not smt.isc(p) or not smt.isc(n):
            raise irlower.Unsupported('part of a string')
        return [(st, c.string(z3.StringVal(s.as_string()[smt.cval(p):][:smt.cval(n)])))]

    def vs_len(ex, st, a):
        return [(st, bv(len(c.term(a[0]).as_string()), 64))]

    def vs_at(ex, st, a):
        s, p = c.term(a[0]).as_string(), smt.cval(simp(a[1]))
        return [(st, bv(ord(s[p]) if p < len(s) else 0, 64))]
    return {k: v for k, v in locals().items() if k.startswith('vs_')}


def context(m, w):
    """the functions of the library are opaque; a call of an array function is recorded"""
    c = diag.Ctx(m, loops='unroll', unroll=200)
    c.ex.ext.update(find_text(c))
    for n in arrays.NAMES:
        for v in (64, 32):
            s = n + ('' if v == 64 else 'f')
            if n in arrays.LIBM or n.startswith('fast_'):
                c.ex.ext[s if n in arrays.LIBM else arrays.mangled(s, n in arrays.BINARY, v)] = \
                    lambda ex, st, a, s=s: [(st, arrays.scalar_uf(ex, s, a))]

            def rec(ex, st, a, s=s):
                st.obs = st.obs + (('call', (s, tuple(a))),)
                return [(st, None)]
            c.ex.ext[arrays.array_mangled(n, n in arrays.BINARY, v)] = rec
    return c


def table(R, prop, m, w, two, vec):
    i_ = ident(w, two, vec)
    sfx = suffix(w, vec)
    label = f'table of {diag.T[w]} functions of {1 + two} argument(s)' + (', array form' if vec else '')
    c = context(m, w)
    one = lambda f, a, st: [(s, r) for s, r in c.ex.run(f, a, st)]

    def single(f, a, st):
        r = one(f, a, st)
        if len(r) != 1:
            raise irlower.Unsupported(f'{f} has {len(r)} outcomes')
        return r[0]
    st, size = single(f'h_sz{1 + two}_{diag.SFX[w]}', [], c.st)
    pools = [smt.Ptr(c.ex.newobj(st, smt.Cells(smt.cval(simp(size)), name='pool')), bv(0, 64)) for _ in range(1 if two else 4)]
    names = {}
    for k, p in zip('s' if two else POOLS, pools):
        for f, key in ([('h_poolx_', 'x'), ('h_pooly_', 'y')] if two else [('h_pool_', k)]):
            st, q = single(f + diag.SFX[w], [p], st)
            names[key] = q
    st, t = single('h_build_' + i_, pools, st)
    st, t = single('h_again_' + i_, [t] + pools, st)      # filling replaces what was there
    st, n = single('h_size_' + i_, [t], st)
    n = smt.cval(simp(n))
    obls, seen = [], {}
    x, y = z3.BitVecs('x y', w)
    same = lambda p, q: z3.BoolVal(isinstance(p, smt.Ptr) and p.obj == q.obj and smt.isc(simp(p.off)) and smt.cval(simp(p.off)) == smt.cval(simp(q.off)))
    st.obs = ()
    for i in range(n):
        s1, _ = single('h_entry_' + i_, [t, bv(i, 64)], st.copy())
        (_, got), = s1.obs
        name = c.term(got[0]).as_string()
        d = decode(name, sfx, two)
        if d is None:
            raise irlower.Unsupported(f'{label}: entry with the unknown name {name}')
        seen[d] = seen.get(d, 0) + 1
        where = f'{label}: entry {name}'
        for p, key in zip(got[1:], 'xy' if two else BASE[d[1]]):
            obls.append(smt.Obl('pool', s1.pc, same(p, names[key]), f'{where} uses the {POOLNAME[key]} pool'))
        sym = symbol(*d, '' if w == 64 else 'f')
        s2 = st.copy()
        if vec:
            k = z3.BitVec('n', 32)
            arr = [smt.Ptr(c.ex.newobj(s2, smt.Arr(a, w // 8, z3.ZeroExt(32, k), a == 'output')), bv(0, 64))
                   for a in (['input'] + (['input2'] if two else []) + ['output'])]
            for s3, _ in one('h_call_' + i_, [t, bv(i, 64), k] + arr, s2):
                calls = [a for tag, a in s3.obs if tag == 'call']
                ok = z3.BoolVal(False)
                if len(calls) == 1 and calls[0][0] == sym and len(calls[0][1]) == len(arr) + 1:
                    ok = z3.And(eq(calls[0][1][0], k), *[same(p, q) for p, q in zip(calls[0][1][1:], arr)])
                obls.append(smt.Obl('function', s3.pc, ok, f'{where} runs {sym} on the given arrays'))
            continue
        args = [x, y] if two else [x]
        if plain(*d):
            want = x if d[1].startswith('identity') else single(f'h_{d[1]}_{diag.SFX[w]}', [x], st.copy())[1]
        else:
            want = arrays.scalar_uf(c.ex, sym, args)
        for s3, v in one('h_call_' + i_, [t, bv(i, 64)] + args, s2):
            obls.append(smt.Obl('function', s3.pc, diag.eq(v, want), f'{where} computes {sym}'))
    for d in wanted(two):
        obls.append(smt.Obl('present', [], z3.BoolVal(seen.get(d, 0) == 1), f'{label}: one entry for {symbol(*d, sfx)}'))
    return diag.settle(R, prop, label, c.ex, obls, n > 0)


def eq(a, b):
    return a == b if z3.is_expr(a) else z3.BoolVal(False)


def basic(R, prop, m):
    c = context(m, 64)
    obls = []
    drawn = lambda ex, st, a: [(st, ex.var('drawn', 64))]
    c.ex.ext.update(vt_draw_ld=lambda ex, st, a: [(st, smt.LD(a[2].lo, a[3].hi))], vt_draw_d=drawn, vt_draw_u=drawn)
    want = {f for k, f in wanted(0) if k == 'reference' and f != 'identity'}
    res = c.run('h_names', [])
    for st, _ in res:
        got = [c.term(a[0]).as_string() for t, a in st.obs if t == 7]
        dec = [decode(g, '', 0) for g in got]
        obls.append(smt.Obl('names', st.pc, z3.BoolVal(len(dec) == len(want) and all(d and d[0] == 'reference' for d in dec) and {d[1] for d in dec if d} == want),
                            'basic names: each reference function but the identity, once'))
    return diag.settle(R, prop, 'basic names', c.ex, obls, bool(res))


DRV = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include "vdtMath.h"
#include "vdtdiag_fcnTuples.h"
static long cases; static std::map<std::string,int> bad;
template<class T> bool same(T a,T b){ return memcmp(&a,&b,sizeof a)==0||(a!=a&&b!=b); }
#define FAIL(k,...) do{ if(!bad[k]++){ printf("FAIL %s ",k); printf(__VA_ARGS__); printf("\n"); } }while(0)
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
// further arguments, of all magnitudes for the functions of the C library
template<class T> void more(std::vector<T>&a,bool any){ for(int i=0;i<400;++i){ T x; do{ uint64_t b=rnd(); memcpy(&x,&b,sizeof x); if(rnd()%3==0) x=(T)((double)(rnd()>>11)/9007199254740992.*200-100); }while(x-x!=0||(!any&&std::fabs(x)>1e4)); a.push_back(x); } }
template<class T> const T ref_isqrt(T x){ return (T)1/std::sqrt(x); }
template<class T> const T ref_inv(T x){ return (T)1/x; }
'''


def driver():
    t = DRV + arrays.generate(False)
    body = ''
    for w, two, vec in TABLES:
        T, s, i_ = diag.T[w], diag.SFX[w], ident(w, two, vec)
        sfx = suffix(w, vec)
        tup = f'genfpfcn{"2D" if two else ""}{"v" if vec else ""}_tuple<{T}>'
        body += f'{{ std::vector<{tup}> t;\n'
        if two:
            body += f'randomPool2D<{T}> P(-1,-1,1,1,200,7);\n'
        else:
            for k, (a, b) in zip(POOLS, ((-300, 300), (0.01, 300), (-1, 1), (-80, 80))):
                body += f'randomPool<{T}> P{k}({a},{b},200,7);\n'
        body += f'for(int r=0;r<2;++r) {"getFunctionTuplesvect" if vec else "getFunctionTuples"}(&t,{"P" if two else ",".join("P" + k for k in POOLS)});\n'
        key = 'table_' + i_
        body += 'std::map<std::string,int> seen; for(size_t i=0;i<t.size();++i){ std::string n=std::get<0>(t[i]); seen[n]++; const char* nm=n.c_str(); (void)nm;\n'
        for d in wanted(two):
            for nm in [spell(d, sfx)]:
                p = ('&std::get<2>(t[i])!=&P.getNumbersX()||&std::get<3>(t[i])!=&P.getNumbersY()' if two
                     else f'&std::get<2>(t[i])!=&P{BASE[d[1]]}.getNumbers()')
                body += f'if(n=="{nm}"){{ cases++; if({p}) FAIL("{key}","entry {nm} does not use the pool of its function");\n'
                f1 = symbol(*d, '' if w == 64 else 'f')
                if vec:
                    f = 'vdt::' + f1 + 'v'
                elif plain(*d) and d[1] in ('isqrt', 'inv'):
                    f = f'ref_{d[1]}<{T}>'
                elif d[0] == 'reference' and not plain(*d):
                    f = '::' + f1
                else:
                    f = 'vdt::' + f1
                src = 'P.getNumbersX()' if two else f'P{BASE[d[1]]}.getNumbers()'
                body += f'std::vector<{T}> a={src}; ' + (f'std::vector<{T}> b=P.getNumbersY(); ' if two else '')
                body += ''.join(f'more({v},{int(d[0] == "reference")}); ' for v in ('ab' if two else 'a'))
                ar = 'a[k],b[k]' if two else 'a[k]'
                if vec:
                    av = '&a[0],&b[0]' if two else '&a[0]'
                    body += (f'std::vector<{T}> o(600),e(600); std::get<1>(t[i])(600,{av},&o[0]); {f}(600,{av},&e[0]); '
                             f'for(int k=0;k<600;++k) if(!same(o[k],e[k])){{ FAIL("{key}","entry {nm} gives %a for %a, the function gives %a",(double)o[k],(double)a[k],(double)e[k]); break; }}\n')
                else:
                    body += (f'for(int k=0;k<600;++k){{ {T} o=std::get<1>(t[i])({ar}), e={f}({ar}); '
                             f'if(!same(o,e)){{ FAIL("{key}","entry {nm} gives %a for %a, the function gives %a",(double)o,(double)a[k],(double)e); break; }} }}\n')
                body += '}\n'
        body += '}\n'
        for d in wanted(two):
            nm = spell(d, sfx)
            body += f'if(seen["{nm}"]!=1) FAIL("{key}","%d entries named {nm}",seen["{nm}"]);\n'
        body += '}\n'
    names = sorted(spell(d, '') for d in wanted(0) if d[0] == 'reference' and d[1] != 'identity')
    body += '{ std::vector<std::string> v; getFunctionBasicNames(&v); std::map<std::string,int> c; for(auto&x:v) c[x]++; cases++;\n'
    body += f'if(v.size()!={len(names)}) FAIL("names","%zu basic names instead of {len(names)}",v.size());\n'
    for nm in names:
        body += f'if(c["{nm}"]!=1) FAIL("names","{nm} occurs %d times among the basic names",c["{nm}"]);\n'
    return t + 'int main(){\n' + body + '}\nprintf("DONE %ld\\n",cases); }\n'


def spell(d, sfx):
    n = {'inv': 'Inverse' if d[0] == 'reference' else 'Inv', 'identity2d': 'Identity2D'}.get(d[1], d[1].capitalize())
    return {'reference': '', 'fast': 'Fast_', 'approximate': 'Fast_Apr_'}[d[0]] + n + sfx


def run_C35(prop, R):
    R.trust(*diag.TRUST)
    R.assume('the fast routines, the C library\'s routines and the array functions are opaque here (what they compute is C01 to C20)',
             'the four pools given to a table are those for symmetric, positive, [-1,1] and exponential arguments, in this order')
    fails = diag.native(R, driver(), 'c35')
    if fails:
        return diag.conclude(R, fails, {})
    m = diag.module(source())
    jobs = {'table_' + ident(*t): (lambda R, t=t: table(R, prop, m, *t)) for t in TABLES}
    jobs['names'] = lambda R: basic(R, prop, m)
    diag.prove(R, prop, fails, jobs)
