"""Files of the diagnostics: what is written is read back (C33)."""
import os
import z3
import common as K
import smt, diag
from smt import bv, simp
from diag import Ctx, eq, fill, settle

PRE = r"""
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <fstream>
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
static std::vt_file* theFile;
extern "C" std::vt_file* vt_thefile() { return theFile; }
extern "C" void vt_observe(uint64_t, ...);
extern "C" void vt_note(uint64_t, const void*);
extern "C" uint64_t vt_rows();
static void vt_layout(std::vt_file& f, uint64_t pre, uint64_t ncol) { f.lines = 0; f.hdr = @H@; f.pre = pre; f.ncol = ncol; f.nrec = 0; f.ipre = 0; f.rec = 0; f.col = 0; f.late = 0; f.bad = 0;
  for (uint64_t i = 0; i < ncol; ++i) { f.colv[i] = (uint64_t*)vt_array(8); f.kinds[i] = (unsigned char*)vt_array(1); } theFile = &f; }
static void vt_close(std::vt_file& f) { vt_observe(100, f.ipre, f.col); f.nrec = f.rec; }
"""
POOL = r"""
extern "C" void h_@C@_@s@(@T@ a, @T@ b, uint64_t n, int32_t s) { std::vt_file f; vt_layout(f, 0, 1);
  @C1@<@T@> P(a, b, n, s); vt_note(0, P.getNumbers().data()); P.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.getNumbers().data(), Q.getNumbers().size()); }
"""
POOL2 = r"""
extern "C" void h_@C@_@s@(@T@ a, @T@ b, uint64_t n, int32_t s) { std::vt_file f; vt_layout(f, 0, 1);
  @C1@<@T@> P(a, a, b, b, n, s); vt_note(0, P.getNumbersX().data()); vt_note(1, P.getNumbersY().data()); P.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.getNumbersX().data(), Q.getNumbersX().size()); vt_observe(1, Q.getNumbersY().data(), Q.getNumbersY().size()); }
"""
RESP = r"""
extern "C" @T@ F1_@s@(@T@); extern "C" @T@ F2_@s@(@T@, @T@);
extern "C" void h_@C@_@s@(@T@* a, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}; const std::vector<@T@> v(r); std::vt_file f; vt_layout(f, 0, 2);
  @C1@<@T@> R(std::string("f"), v, std::function<@T@(@T@)>(F1_@s@)); R.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.getInput().data(), Q.getInput().size()); vt_observe(2, Q.getOutput().data(), Q.getOutput().size()); }
"""
RESP2 = r"""
extern "C" void h_@C@_@s@(@T@* a, @T@* b, uint64_t n) { std::vector<@T@>::vt_raw r = {a, n}, q = {b, n}; const std::vector<@T@> v(r), w(q); std::vt_file f; vt_layout(f, 0, 3);
  @C1@<@T@> R(std::string("f"), v, w, std::function<@T@(@T@, @T@)>(F2_@s@)); R.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.getInput1().data(), Q.getInput1().size()); vt_observe(1, Q.getInput2().data(), Q.getInput2().size()); vt_observe(2, Q.getOutput().data(), Q.getOutput().size()); }
"""
CMP = r"""
extern "C" void h_@C@_@s@(@T@* a, @T@* x, @T@* y, uint64_t n) { std::vector<@T@>::vt_raw ra = {a, n}, rx = {x, n}, ry = {y, n}; const std::vector<@T@> va(ra), vx(rx), vy(ry);
  std::vt_file f; vt_layout(f, 4, 5);
  @C1@<@T@> C(std::string("f"), va, vx, vy); C.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.m_input.data(), Q.m_input.size()); vt_observe(2, Q.m_out1.data(), Q.m_out1.size()); vt_observe(3, Q.m_out2.data(), Q.m_out2.size()); vt_observe(4, Q.m_diff_bitv.data(), Q.m_diff_bitv.size());
  vt_observe(10, (uint64_t)(C.m_max ^ Q.m_max), (uint64_t)(C.m_min ^ Q.m_min), C.m_mean, Q.m_mean, C.m_RMS, Q.m_RMS); }
"""
CMP2 = r"""
extern "C" void h_@C@_@s@(@T@* a, @T@* b, @T@* x, @T@* y, uint64_t n) { std::vector<@T@>::vt_raw ra = {a, n}, rb = {b, n}, rx = {x, n}, ry = {y, n}; const std::vector<@T@> va(ra), vb(rb), vx(rx), vy(ry);
  std::vt_file f; vt_layout(f, 4, 7);
  @C1@<@T@> C(std::string("f"), va, vb, vx, vy); C.writeFile(std::string("o")); vt_close(f);
  @C1@<@T@> Q(std::string("o")); vt_observe(0, Q.m_input1.data(), Q.m_input1.size()); vt_observe(1, Q.m_input2.data(), Q.m_input2.size()); vt_observe(2, Q.m_out1.data(), Q.m_out1.size()); vt_observe(3, Q.m_out2.data(), Q.m_out2.size()); vt_observe(4, Q.m_diff_bitv.data(), Q.m_diff_bitv.size());
  vt_observe(10, (uint64_t)(C.m_max ^ Q.m_max), (uint64_t)(C.m_min ^ Q.m_min), C.m_mean, Q.m_mean, C.m_RMS, Q.m_RMS); }
"""
DRV = r"""
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include "vdtdiag_random.h"
#include "vdtdiag_fcnResponse.h"
#include "vdtdiag_fcnComparison.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
static long cases; static int bad; static FILE* out;
template<class T> T val(bool any){ for(;;){ uint64_t b=rnd(); T x; memcpy(&x,&b,sizeof x); switch(rnd()%12){ case 0: x=0; break; case 1: x=-(T)0; break; case 2: if(any) x=std::numeric_limits<T>::infinity(); break; case 3: if(any) x=-std::numeric_limits<T>::infinity(); break; case 4: if(any) x=std::numeric_limits<T>::quiet_NaN(); break; case 5: x=std::numeric_limits<T>::denorm_min(); break; case 6: x=std::numeric_limits<T>::max(); break; case 7: x=(T)(int)(rnd()%200); break; default: break; }
    if(any||x-x==0) return x; } }
template<class T> bool same(const char*k,const char*what,const std::vector<T>&v,const std::vector<T>&w){ cases++;
  if(v.size()!=w.size()){ fprintf(out,"FAIL %s %s: %zu values written, %zu read back\n",k,what,v.size(),w.size()); return false; }
  for(size_t i=0;i<v.size();++i) if(memcmp(&v[i],&w[i],sizeof(T))){ fprintf(out,"FAIL %s %s: value %zu of %zu written as %a, read back as %a\n",k,what,i,v.size(),(double)v[i],(double)w[i]); return false; }
  return true; }
static std::string shown(const std::function<void()>& f){ std::ostringstream s; std::streambuf* o=std::cout.rdbuf(s.rdbuf()); std::ios::fmtflags fl=std::cout.flags(); std::streamsize p=std::cout.precision(); f(); std::cout.rdbuf(o); std::cout.flags(fl); std::cout.precision(p); return s.str(); }
static bool text(const char*k,size_t n,const std::string&a,const std::string&b){ cases++; if(a==b) return true; size_t i=0; while(i<a.size()&&i<b.size()&&a[i]==b[i]) ++i; size_t l=i?a.rfind('\n',i-1):0; l=l==std::string::npos?0:l+1; std::string x=a.substr(l,a.find('\n',i)-l), y=b.substr(l,b.find('\n',i)-l);
  fprintf(out,"FAIL %s %zu rows: '%s' became '%s' when written and read back\n",k,n,x.substr(0,150).c_str(),y.substr(0,150).c_str()); return false; }
template<class T> void go(const char*t){ bool p1=true,p2=true,r1=true,r2=true,c1=true,c2=true; std::string K=std::string("<")+t+">";
  for(int i=0;i<200;++i){ size_t n=i<12?i:rnd()%60; if(i==199) n=70003; T lo=val<T>(false),hi=val<T>(false); if(lo>hi) std::swap(lo,hi); bool any=i%2;
    if(p1){ randomPool1D<T> P(lo,hi,n,i); P.writeFile("a.txt"); randomPool1D<T> Q("a.txt"); p1=same(("pool1D"+K).c_str(),"numbers",P.getNumbers(),Q.getNumbers()); if(p1&&n){ Q.writeFile("b.txt"); randomPool1D<T> R("b.txt"); p1=same(("pool1D"+K).c_str(),"numbers copied from a file",P.getNumbers(),R.getNumbers()); } }
    if(p2){ randomPool2D<T> P(lo,-hi,hi,-lo,n,i); P.writeFile("a.txt"); randomPool2D<T> Q("a.txt"); p2=same(("pool2D"+K).c_str(),"first numbers",P.getNumbersX(),Q.getNumbersX())&&same(("pool2D"+K).c_str(),"second numbers",P.getNumbersY(),Q.getNumbersY()); if(p2&&n){ Q.writeFile("b.txt"); randomPool2D<T> R("b.txt"); p2=same(("pool2D"+K).c_str(),"numbers copied from a file",P.getNumbersX(),R.getNumbersX())&&same(("pool2D"+K).c_str(),"numbers copied from a file",P.getNumbersY(),R.getNumbersY()); } }
    std::vector<T> a(n),b(n),x(n),y(n); for(size_t k=0;k<n;++k){ a[k]=val<T>(any); b[k]=val<T>(any); x[k]=val<T>(any); y[k]=rnd()%3?val<T>(any):x[k]; }
    if(r1){ size_t q=0; fcnResponse1D<T> R("f",a,std::function<T(T)>([&](T){ return x[q++]; })); R.writeFile("a.txt"); fcnResponse1D<T> Q("a.txt"); r1=same(("response1D"+K).c_str(),"inputs",a,Q.getInput())&&same(("response1D"+K).c_str(),"outputs",x,Q.getOutput()); if(r1){ Q.writeFile("b.txt"); fcnResponse1D<T> V("b.txt"); r1=same(("response1D"+K).c_str(),"inputs copied from a file",a,V.getInput())&&same(("response1D"+K).c_str(),"outputs copied from a file",x,V.getOutput()); } }
    if(r2){ size_t q=0; fcnResponse2D<T> R("f",a,b,std::function<T(T,T)>([&](T,T){ return x[q++]; })); R.writeFile("a.txt"); fcnResponse2D<T> Q("a.txt"); r2=same(("response2D"+K).c_str(),"first inputs",a,Q.getInput1())&&same(("response2D"+K).c_str(),"second inputs",b,Q.getInput2())&&same(("response2D"+K).c_str(),"outputs",x,Q.getOutput()); if(r2){ Q.writeFile("b.txt"); fcnResponse2D<T> V("b.txt"); r2=same(("response2D"+K).c_str(),"second inputs copied from a file",b,V.getInput2())&&same(("response2D"+K).c_str(),"outputs copied from a file",x,V.getOutput()); } }
    if(n<2) continue;     // the spread of fewer than two rows is not defined
    if(c1){ fcnComparison1D<T> C("From a.txt",a,x,y); C.writeFile("a.txt"); fcnComparison1D<T> Q("a.txt"); auto f=[](fcnComparison1D<T>&c){ return shown([&]{ c.print(); c.printStats(true); }); }; std::string s=f(C); c1=text(("comparison1D"+K).c_str(),n,s,f(Q)); if(c1){ Q.writeFile("b.txt"); fcnComparison1D<T> V("b.txt"); s=shown([&]{ C.print(); }); std::string u=shown([&]{ V.print(); }); for(size_t z=0; (z=u.find("From b.txt",z))!=std::string::npos;) u.replace(z,10,"From a.txt"); c1=text(("comparison1D-copied"+K).c_str(),n,s,u); } }
    if(c2){ fcnComparison2D<T> C("From a.txt",a,b,x,y); C.writeFile("a.txt"); fcnComparison2D<T> Q("a.txt"); auto f=[](fcnComparison2D<T>&c){ return shown([&]{ c.print(); c.printStats(true); }); }; std::string s=f(C); c2=text(("comparison2D"+K).c_str(),n,s,f(Q)); if(c2){ Q.writeFile("b.txt"); fcnComparison2D<T> V("b.txt"); s=shown([&]{ C.print(); }); std::string u=shown([&]{ V.print(); }); for(size_t z=0; (z=u.find("From b.txt",z))!=std::string::npos;) u.replace(z,10,"From a.txt"); c2=text(("comparison2D-copied"+K).c_str(),n,s,u); } }
@OLD@
  } }
int main(){ out=stdout; std::ofstream nul("/dev/null"); std::cout.rdbuf(nul.rdbuf()); go<double>("double"); go<float>("float"); fprintf(out,"DONE %ld\n",cases); fflush(out); _Exit(0); }
"""
OLD = {'randomPool_old': ('vdtdiag_random.h', '    { static bool ok=true; if(ok){ randomPool_old<T> P(lo,hi,n,i); P.writeFile("a.txt"); randomPool_old<T> Q("a.txt"); ok=same(("pool_old"+K).c_str(),"numbers",P.getNumbers(),Q.getNumbers()); } }\n'),
       'fcnResponse_old': ('vdtdiag_fcnResponse.h', '    { static bool ok=true; if(ok){ size_t q=0; fcnResponse_old<T> R("f",a,std::function<T(T)>([&](T){ return x[q++]; })); R.writeFile("a.txt"); fcnResponse_old<T> Q("a.txt"); ok=same(("response_old"+K).c_str(),"inputs",a,Q.getInput())&&same(("response_old"+K).c_str(),"outputs",x,Q.getOutput()); } }\n'),
       'fcnComparison_old': ('vdtdiag_fcnComparison.h', '    { static bool ok=true; if(ok){ fcnComparison_old<T> C("From a.txt",a,x,y); C.writeFile("a.txt"); fcnComparison_old<T> Q("a.txt"); auto f=[](fcnComparison_old<T>&c){ return shown([&]{ c.print(); c.printStats(true); }); }; std::string s=f(C); ok=text(("comparison_old"+K).c_str(),n,s,f(Q)); } }\n')}
PARTS = [('pool1D', POOL, 'randomPool1D'), ('pool2D', POOL2, 'randomPool2D'), ('response1D', RESP, 'fcnResponse1D'), ('response2D', RESP2, 'fcnResponse2D'),
         ('comparison1D', CMP, 'fcnComparison1D'), ('comparison2D', CMP2, 'fcnComparison2D'),
         ('pool_old', POOL, 'randomPool_old'), ('response_old', RESP, 'fcnResponse_old'), ('comparison_old', CMP, 'fcnComparison_old')]


def run_C33(prop, R):
    R.trust(*diag.TRUST)
    R.assume(diag.SIZE, 'a file holds five header lines, the statistics (comparisons) and rows of white-space separated values; another layout is not recognised',
             'copying a file that was read is checked on concrete files only')
    have = {c: c in open(os.path.join(K.INC, 'diagnostic', f)).read() for c, (f, _) in OLD.items()}
    fails = diag.native(R, DRV.replace('@OLD@', ''.join(t for c, (_, t) in OLD.items() if have[c])), 'c33')
    if fails:
        return diag.conclude(R, fails, {})
    src = PRE.replace('@H@', '5') + ''.join(fill(t, w, C=n, C1=c) for n, t, c in PARTS if have.get(c, True) for w in (64, 32))
    src = src.replace('@H@', '5')
    m = diag.module(src, flags=['-fno-access-control'])
    diag.prove(R, prop, fails, {h[2:]: lambda R, h=h: trip(R, prop, m, h, diag.width(h)) for h in diag.harnesses(m)})


KINDS = [3, 2, 4, 5, 6]


def trip(R, prop, m, h, w):
    kind = h[2:].split('_')[0]
    two = '2D' in h
    c = Ctx(m, unroll=400)
    s = diag.SFX[w]
    n32 = z3.BitVec('n', 32)
    n = z3.ZeroExt(32, n32)
    wide = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    noted = {}

    def note(ex, st, a):
        noted[smt.cval(a[0])] = st.mem[a[1].obj].copy()
        return [(st, None)]
    c.ex.ext['vt_note'] = note
    c.st.pc.append(n32 != 0)
    if kind.startswith('pool'):
        drawn = lambda ex, st, a: [(st, ex.var('drawn', a[2].size()))]
        c.ex.ext.update(vt_draw_ld=lambda ex, st, a: [(st, smt.LD(a[2].lo, a[3].hi))], vt_draw_d=drawn, vt_draw_f=drawn, vt_draw_u=lambda ex, st, a: [(st, ex.var('drawn', 64))])
        args = [z3.BitVec('low', w), z3.BitVec('high', w), n, z3.BitVec('seed', 32)]
        want = {t: (lambda i, t=t: noted[t].read(i)[0]) for t in range(2 if two else 1)}
        half = lambda k: z3.LShR(k, bv(1, 64))

        def spec(o, idx):
            if len(noted) < len(want):
                return []
            if o.esz == 1:
                return [bv(k, 8) for k in KINDS]
            r = [want[t](idx) for t in want] if o.esz == w // 8 else []
            if o.esz == 8:
                r.append(wide(z3.If(z3.Extract(0, 0, idx) == 0, want[0](half(idx)), want[1](half(idx))) if two else want[0](idx)))
            return r

        def extra(ex, R0, st, Rk, sk, k, mod, nxt):
            out = []
            if not two or len(noted) < 2:
                return out
            for nm, cnt in (('half of k, rounded up', lambda k: half(k + 1)), ('half of k', half)):
                for key in mod:
                    v = ex.get(key, Rk, sk)
                    if z3.is_expr(v) and v.size() == 64 and key not in nxt:
                        out.append((f'{key} is {nm}', lambda R_, s_, kk, key=key, cnt=cnt: eq(ex.get(key, R_, s_), cnt(kk))))
                for oid, o in sk.mem.items():
                    if isinstance(o, smt.Arr) and o.esz == w // 8 and oid in st.mem and o.base is not st.mem[oid].base:
                        for t in want:
                            out.append((f'{o.name}: first part, up to {nm}, has the written values',
                                        lambda R_, s_, kk, oid=oid, t=t, cnt=cnt: z3.Implies(z3.ULT(c.j, cnt(kk)), s_.mem[oid].val == want[t](c.j)), oid,
                                        lambda idx, o=o, t=t, cnt=cnt: z3.Implies(z3.ULT(idx, cnt(k)), o.base(idx) == want[t](idx))))
            return out
        c.ex.extra_candidates = extra
        c.ex.watch_spec = spec
    else:
        ins = {}
        for t, x in enumerate(['input1', 'input2'][:2 if two else 1]):
            ins[t] = c.array(x, w, n)
        want = {t: (lambda i, a=a: a.fn(i)) for t, (a, _) in ins.items()}
        if kind.startswith('response'):
            F = c.ex.fp.uf('F', *[w] * (2 if two else 1), w)
            c.ex.ext[f'F{2 if two else 1}_{s}'] = lambda ex, st, a: [(st, F(*a))]
            want[2] = lambda i: F(*[a.fn(i) for a, _ in ins.values()])
        else:
            B = diag.diffbit_contract(c, m, w)
            ins[2], ins[3] = c.array('out1', w, n), c.array('out2', w, n)
            want[2], want[3] = ins[2][0].fn, ins[3][0].fn
            want[4] = lambda i: B(ins[2][0].fn(i), ins[3][0].fn(i))
            c.ex.head_axioms = lambda k: [z3.ULE(want[4](k), bv(w, 16))]
        args = [p for _, p in ins.values()] + [n]

        def spec(o, idx):
            if o.esz == 1:
                return [bv(k, 8) for k in KINDS]
            if o.esz == 8 and w == 32:
                return [wide(f(idx)) for f in want.values()]
            return [f(idx) if o.esz < 8 else wide(f(idx)) for f in want.values() if o.esz == 8 or f(idx).size() == 8 * o.esz]
        c.ex.watch_spec = spec
    res = c.run(h, args)
    obls = []
    for st, _ in res:
        obs = dict(st.obs)
        pre, col = obs.pop(100)
        obls.append(smt.Obl('layout', st.pc, z3.And(eq(col, 0), eq(pre, 4 if kind.startswith('comp') else 0)), 'complete rows are written'))
        if 10 in obs:
            a, b, m1, m2, r1, r2 = obs.pop(10)
            obls.append(smt.Obl('statistics', st.pc, z3.And(eq(a, 0), eq(b, 0), eq(m1, m2), eq(r1, r2)), 'the statistics read are those written'))
        for tag, (p, size) in obs.items():
            obls.append(smt.Obl('size', st.pc, eq(size, n), 'as many values are read as were written'))
            o = st.mem[p.obj]
            v, fs = o.read(simp(c.ex.index(st, o, simp(p.off), 'read values') + c.j))
            obls.append(smt.Obl('element', st.pc + fs, z3.Implies(z3.ULT(c.j, n), eq(v, want[tag](c.j))), 'value j is read as it was written'))
        obls.append(smt.Obl('observed', st.pc, z3.BoolVal(len(obs) == len(want)), 'all results observed'))
    reach = any(smt.check(st.pc + [z3.UGT(n32, bv(5, 32)), z3.ULT(c.j, bv(5, 64))])[0] == 'sat' for st, _ in res)
    return settle(R, prop, h[2:], c.ex, obls, reach)
