"""C39: the text that displays the bits of a value."""
import os
import z3
import irlower
import diag
import smt
import relate
import common as K
from smt import bv, simp

MOCK = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mocktext')
FLAGS = ['-I' + MOCK, '-I' + os.path.join(K.INC, 'diagnostic'), '-fno-rtti', '-fno-access-control']
# small branches become selections, so that the bits of a value do not multiply the paths
PASSES = 'sroa,simplifycfg<sink-common-insts;hoist-common-insts>'
SRC = r'''
#include "vdtdiag_helper.h"
extern "C" uint64_t h_show_d(double x, char* out) { const std::string s(vdth::getbsasstr(x)); const uint64_t n=s.size(); for(uint64_t i=0;i<n&&i<100;++i) out[i]=s[i]; return n; }
extern "C" uint64_t h_show_f(float x, char* out) { const std::string s(vdth::getbsasstr(x)); const uint64_t n=s.size(); for(uint64_t i=0;i<n&&i<100;++i) out[i]=s[i]; return n; }
'''
DRV = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include "vdtdiag_helper.h"
static uint64_t S=88172645463325252ull; static uint64_t rnd(){ S^=S<<13;S^=S>>7;S^=S<<17; return S; }
template<class T,class I> void go(const char*k,int e,int m){ const int W=8*sizeof(T);
  for(long i=0;i<100000;++i){ I b=(I)rnd(); if(i<2*W) b=(I)1<<(i%W); if(i>=2*W&&i<4*W) b=~((I)1<<(i%W)); if(i==4*W) b=0; if(i==4*W+1) b=~(I)0;
    T x; memcpy(&x,&b,sizeof x); std::string w; for(int j=W-1;j>=0;--j){ w+=(b>>j&1)?'1':'0'; if(j==W-1||j==m) w+=' '; }
    std::string s=vdth::getbsasstr(x); if(s!=w){ printf("FAIL show<%s> the value with bits %llx is displayed as '%s' instead of '%s'\n",k,(unsigned long long)b,s.c_str(),w.c_str()); return; } } }
int main(){ go<double,uint64_t>("double",11,52); go<float,uint32_t>("float",8,23); printf("DONE 200000\n"); }
'''


def run_C39(prop, R):
    R.trust(*relate.TRUST, 'engine/mocktext: contracts of strings, string streams and bit sets used instead of the library implementation')
    fails = diag.native(R, DRV, 'c39')
    if fails:
        return diag.conclude(R, fails, {})
    m = relate.module(SRC, 'text', FLAGS, PASSES)
    diag.prove(R, prop, fails, {f'display of a {diag.T[w]}': lambda R, w=w: show(R, prop, m, w) for w in (64, 32)})


def show(R, prop, m, w):
    c = diag.Ctx(m, loops='unroll', unroll=200)
    ex, st = c.ex, c.st
    ex.ext['vt_assert'] = lambda ex, st, a: (ex.oblige('library', st, ex.boolval(a[0]), 'the precondition of a library function holds'), [(st, None)])[1]
    x = z3.BitVec('x', w)
    out = smt.Ptr(ex.newobj(st, smt.Cells(100, name='text')), bv(0, 64))
    mant = 52 if w == 64 else 23
    want = []
    for j in range(w - 1, -1, -1):
        want.append(z3.If(z3.Extract(j, j, x) == 1, bv(ord('1'), 8), bv(ord('0'), 8)))
        if j in (w - 1, mant):
            want.append(bv(32, 8))
    res = ex.run('h_show_' + diag.SFX[w], [x, out], st)
    obls = []
    for s, n in res:
        obls.append(smt.Obl('length', s.pc, diag.eq(n, bv(len(want), 64)), 'the text has one character for each bit and two blanks'))
        for i, c1 in enumerate(want):
            got = ex.load(s, smt.Ptr(out.obj, bv(i, 64)), irlower.Ty('i', 8), 'text')
            obls.append(smt.Obl('character', s.pc + [n == len(want)], diag.eq(got, c1), f'character {i} of the text'))
    reach = any(smt.check(s.pc + [x == bv(5, w)])[0] == 'sat' for s, _ in res)
    return diag.settle(R, prop, f'display of a {diag.T[w]}', ex, obls, reach)
