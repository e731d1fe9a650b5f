"""Relational and bit-level contracts of the scalar routines, discharged with z3 (engine/smt.py)."""
import ctypes, os, struct, time
import z3
import common as K
import irlower, scalar, smt
from smt import bv, simp

TRUST = ['clang 18 front end and opt sroa (C++ to LLVM IR; extraction runs on the current headers)',
         'engine/irlower.py (IR reader) and engine/smt.py (symbolic executor)', 'z3']
ASSUME = ['default rounding mode, no flush-to-zero, no -ffast-math (as in the project build)']
HEADERS = ['exp', 'log', 'sin', 'cos', 'sincos', 'tan', 'asin', 'atan', 'atan2', 'tanh', 'sqrt', 'inv', 'identity']


def harness(entries, headers=None):
    """entries: name -> (return type, parameter list, body)"""
    t = '#include <cmath>\n#include <limits>\n#include <algorithm>\n#include <utility>\n#include <cstring>\n#include <cstdint>\n'
    t += ''.join(f'#include "{h}.h"\n' for h in (headers or HEADERS))
    for n, (rt, pa, body) in entries.items():
        t += f'extern "C" {rt} w_{n}({pa}) {{ {body} }}\n'
    return t


def module(src, name='rel', flags=(), passes='sroa'):
    try:
        return irlower.parse(open(K.extract_ir(src, name, flags, passes=passes)).read())
    except irlower.Unsupported as e:
        raise K.CheckError('extraction: ' + str(e))


class Relation:
    """A relation between two calls (or a call and a bit-level term), for all inputs satisfying pre."""

    def __init__(self, name, width, left, right, post, pre, concrete, mode='uf', signs=(0, 1), lemma=None):
        self.name, self.width, self.left, self.right, self.post, self.pre = name, width, left, right, post, pre
        self.concrete, self.mode, self.signs = concrete, mode, signs
        self.lemma = lemma       # (fact about the left result, Taylor-model jobs that establish it)


def le_mag(x, v):
    w = x.size()
    return z3.ULE(z3.Extract(w - 2, 0, x), bv(smt.fbits(v, w), w - 1))


def finite(x):
    w = x.size()
    return z3.ULT(z3.Extract(w - 2, 0, x), bv(smt.FP.infm(w), w - 1))


def num(x):
    w = x.size()
    return z3.ULE(z3.Extract(w - 2, 0, x), bv(smt.FP.infm(w), w - 1))


def eqnum(a, b):
    """equal as numbers (zeros of either sign equal), or both NaN"""
    f = smt.FP()
    w = a.size()
    z = z3.And(z3.Extract(w - 2, 0, a) == 0, z3.Extract(w - 2, 0, b) == 0)
    return z3.Or(a == b, z, z3.And(f.nan(a), f.nan(b)))


def eqbits(a, b):
    f = smt.FP()
    return z3.Or(a == b, z3.And(f.nan(a), f.nan(b)))


def neg(x):
    return smt.FP().neg(x)


T = {64: 'double', 32: 'float'}
IT = {64: 'uint64_t', 32: 'uint32_t'}


def sampler(rels):
    """C++ text: for every relation a routine that searches a failing input among structured and random bit patterns"""
    t = ('#include <cstring>\nnamespace smp{\n'
         'static inline uint64_t rnd(uint64_t&s){ s^=s<<13; s^=s>>7; s^=s<<17; return s; }\n'
         'template<class T,class I> static inline T mk(I b){ T r; std::memcpy(&r,&b,sizeof r); return r; }\n'
         'template<class T,class I> static inline I un(T b){ I r; std::memcpy(&r,&b,sizeof r); return r; }\n'
         'template<class T> static inline bool same(T a,T b){ return (a!=a && b!=b) || std::memcmp(&a,&b,sizeof a)==0; }\n'
         'template<class T> static inline bool eqn(T a,T b){ return (a!=a && b!=b) || a==b; }\n}\n')
    for r in rels:
        T_, I_ = T[r.width], IT[r.width]
        eb, mb = (11, 52) if r.width == 64 else (8, 23)
        t += (f'extern "C" int t_{r.name}({I_} b){{ using namespace smp; {T_} x=mk<{T_},{I_}>(b); (void)x; {r.concrete} }}\n'
              f'extern "C" int s_{r.name}(uint64_t seed, uint64_t n, uint64_t*out){{ uint64_t s=seed*2654435761u+88172645463325252ull;\n'
              f'  for(uint64_t i=0;i<n;++i){{ uint64_t r=smp::rnd(s); {I_} b=({I_})r;\n'
              f'    int k=i%4; if(k==1){{ b=(({I_})1<<{r.width - 1})*((r>>40)&1) | (({I_})({(1 << (eb - 1)) - 1}-(int)((r>>45)%40)+(int)((r>>52)%20))<<{mb}) | (b&((({I_})1<<{mb})-1)); }}\n'
              f'    if(k==2){{ b=(({I_})1<<{r.width - 1})*((r>>40)&1) | (({I_})((r>>45)%{(1 << eb)})<<{mb}) | (({I_})((r>>20)&3)<<((r>>25)%{mb - 1})); }}\n'
              f'    if(k==3 && i<4096){{ b=({I_})(i/4); if(i&64) b|=({I_})1<<{r.width - 1}; if(i&128) b+=({I_}){(1 << (eb - 1)) - 1}<<{mb}; }}\n'
              f'    if(!t_{r.name}(b)){{ *out=b; return 1; }} }} return 0; }}\n')
    return t


def hexval(b, w):
    v = smt.ffrom(b, w)
    return f'{v!r} (bits {b:0{w // 4}x})'


def decide(prop, R, entries, rels, headers=None, samples=None):
    """discharges every relation; failures are replayed on the compiled code"""
    src = harness(entries, headers)
    m = module(src)
    used = []
    so = None
    cov = R.coverage
    cov.setdefault('contracts', [])
    n = samples or (400000 if K.TIER == 'quick' else 20000000)

    def lib():
        nonlocal so
        if so is None:
            so = ctypes.CDLL(K.build_so(src + sampler(rels), 'rel'))
        return so

    def concrete(rel, hint=()):
        L = lib()
        out = ctypes.c_uint64()
        ft = ctypes.c_uint64 if rel.width == 64 else ctypes.c_uint32
        tf = getattr(L, 't_' + rel.name)
        tf.argtypes = [ft]
        for h in hint:
            if not tf(h):
                return h
        sf = getattr(L, 's_' + rel.name)
        sf.argtypes = [ctypes.c_uint64, ctypes.c_uint64, ctypes.c_void_p]
        if sf(K.SEED, n, ctypes.byref(out)):
            return out.value
        return None
    # facts about single results that the relational proofs use, established by the Taylor-model prover in this run
    lem = [j for rel in rels if rel.lemma for j in rel.lemma[1]]
    failed_lemma = {}
    if lem:
        jr, fn, _ = scalar.prove(lem)
        R.trust('engine/tmprove.cpp (Taylor-model prover) for the sign lemmas')
        for j in lem:
            r = jr[j.name]
            bad = r['fcount'] + r['ucount']
            R.ob('taylor-model', r['leaves'] + min(bad, 50), r['leaves'], r['cpu'])
            if r['unsupported'] or r['uncontained'] or not r['leaves']:
                R.error(f"{j.name}: {r['unsupported'][:1]}{r['uncontained'][:1]}")
            elif bad:
                failed_lemma[j.name] = (r['fails'] or r['unres'])[:2]
    for rel in rels:
        t0 = time.time()
        q0 = dict(smt.STATS)
        m_ = z3.BitVec('x_magnitude', rel.width - 1)
        hints = []

        def obligations(comm):
            obls, paths = [], 0
            # zero is executed concretely, everything else symbolically with the sign bit fixed
            for sign, zero in [(s_, z_) for s_ in rel.signs for z_ in ((True, False) if rel.mode == 'uf' else (False,))]:
                x = z3.BitVec('x', rel.width) if rel.mode != 'uf' else bv(sign << (rel.width - 1), rel.width) if zero else \
                    z3.Concat(bv(sign, 1), m_)
                ex = smt.Exec(m, mode=rel.mode, unroll=64, comm=comm)
                st = smt.State()
                st.pc = [simp(rel.pre(x))]
                if rel.mode == 'uf' and not zero:
                    st.pc.append(m_ != 0)
                if not ex.feasible(st, z3.BoolVal(True)):
                    continue
                ls = rel.left(ex, st.copy(), x)
                rs = rel.right(ex, st.copy(), x) if rel.right else [(None, None)]
                paths += len(ls) * len(rs)
                for s1, v1 in ls:
                    for s2, v2 in rs:
                        pc = s1.pc + ([c for c in s2.pc if not any(c.eq(d) for d in s1.pc)] if s2 is not None else [])
                        if rel.lemma and not zero:
                            pc = pc + [rel.lemma[0](v1, v2)]
                        o = smt.Obl('relation', pc, rel.post(ex, x, v1, v2, s1, s2), rel.name)
                        o.x = x
                        obls.append(o)
                # unwinding obligations count; memory and definedness obligations of the code are another property's concern
                for o in ex.obl:
                    if o.kind in ('unwinding', 'unreachable'):
                        o.x = x
                        obls.append(o)
                used.extend(u for u in ex.used if u not in used)
                for n_ in ex.uninterp_calls:
                    R.assume(f'external function {n_} is a deterministic function of its arguments')
                if rel.mode != 'uf':
                    break
            return obls, paths
        try:
            obls, paths = obligations('syntactic')
            res = smt.discharge(obls)
            if any(s != 'proved' for _, s, _ in res) and rel.mode == 'uf':
                obls, paths = obligations('value')
                res = smt.discharge(obls)
        except irlower.Unsupported as e:
            R.error(f'{rel.name}: unsupported construct: {e}')
            continue
        except smt.LoopFail as e:
            R.error(f'{rel.name}: {e}')
            continue
        if rel.lemma and any(j.name in failed_lemma for j in rel.lemma[1]):
            c = concrete(rel)
            what = [failed_lemma[j.name] for j in rel.lemma[1] if j.name in failed_lemma]
            R.ob('z3', len(obls), 0, 0)
            R.violate(rel.name, f'fails for argument {hexval(c, rel.width)}' if c is not None else f'sign lemma not established: {what}',
                      {'relation': rel.name, 'lemma': what, 'argument_bits': c}, replayable=c is not None)
            continue
        # vacuity: the precondition and at least one path must be satisfiable
        if not any(smt.check(o.pc)[0] == 'sat' for o in obls[:64]):
            R.error(f'{rel.name}: vacuous')
            continue
        bad = [(o, s, mdl) for o, s, mdl in res if s != 'proved']
        dt = smt.STATS['seconds'] - q0['seconds']
        R.ob('z3', len(res), len(res) - len(bad), dt)
        cov['contracts'].append({'name': rel.name, 'paths': paths, 'obligations': len(res), 'solver_s': round(dt, 3),
                                 'arithmetic': 'uninterpreted' if rel.mode == 'uf' else 'exact'})
        for o, s, mdl in bad:
            if mdl is not None:
                v = mdl.eval(o.x, model_completion=True).as_long()
                hints.append(v)
        if bad:
            c = concrete(rel, hints)
            if c is not None:
                R.violate(rel.name, f'fails for argument {hexval(c, rel.width)}', {'relation': rel.name, 'argument_bits': hex(c)})
            elif any(s == 'unknown' for _, s, _ in bad):
                R.error(f'{rel.name}: solver limit')
            else:
                R.violate(rel.name, 'obligation not discharged', {'relation': rel.name, 'pc': [str(z3.simplify(z3.And(*bad[0][0].pc)))[:1500]],
                                                                  'goal': str(bad[0][0].cond)[:1500]}, replayable=False)
        else:
            c = concrete(rel)
            if c is not None:
                R.error(f'{rel.name}: proved, but the compiled code fails for {hexval(c, rel.width)}')
            cov['concrete_samples'] = cov.get('concrete_samples', 0) + n
    R.functions(used)


def call(name):
    return lambda ex, st, x: ex.run('w_' + name, [x], st)


def callneg(name):
    return lambda ex, st, x: ex.run('w_' + name, [neg(x)], st)


def run_C16(prop, R):
    R.trust(*TRUST)
    R.assume(*ASSUME)
    R.assume('the sign of NaN results is not compared')
    E, rels = {}, []
    tr = lambda x: le_mag(x, 5000.0)
    one = lambda x: le_mag(x, 1.0)

    def nz(x):
        w = x.size()
        m = z3.Extract(w - 2, 0, x)
        lo, hi = (2.0 ** -1022, float.fromhex(scalar.ID)) if w == 64 else (2.0 ** -126, float.fromhex(scalar.IF))
        return z3.And(z3.UGE(m, bv(smt.fbits(lo, w), w - 1)), z3.ULE(m, bv(smt.fbits(hi, w), w - 1)))
    POSITIVE = {'asin': ([(scalar.TINY, 1)], [(scalar.FTINY, 1)]), 'atan': ([(scalar.TINY, scalar.MAX)], [(scalar.FTINY, scalar.FMAX)]),
                'inv': ([(scalar.MIN, scalar.ID)], [(scalar.FMIN, scalar.IF)]), 'ainv': ([(scalar.MIN, scalar.ID)], [(scalar.FMIN, scalar.IF)])}
    odd = [('sin', 'fast_sin', tr), ('tan', 'fast_tan', tr), ('asin', 'fast_asin', one), ('atan', 'fast_atan', num),
           ('tanh', 'fast_tanh', num), ('inv', 'fast_inv', nz), ('ainv', 'fast_approx_inv', nz), ('pinv', 'inv', nz)]
    for w in (64, 32):
        f = '' if w == 64 else 'f'
        pcx = {tr: 'if(!(std::fabs(x)<=5000)) return 1; ', one: 'if(!(std::fabs(x)<=1)) return 1; ', num: 'if(x!=x) return 1; ',
               nz: f'{T[w]} a=std::fabs(x); if(!(a>=std::numeric_limits<{T[w]}>::min()&&a<=std::numeric_limits<{T[w]}>::max()/4)) return 1; '}
        for n, fn, pre in odd:
            E[n + f] = (T[w], f'{T[w]} x', f'return vdt::{fn}{f}(x);')
            lemma = None
            if n in POSITIVE:
                d = POSITIVE[n][w == 32]
                p = 53 if w == 64 else 24
                sw = lambda v: v[1:] if isinstance(v, str) and v[0] == '-' else '-' + v if isinstance(v, str) else -v
                d = d + [(sw(b_), sw(a_)) for a_, b_ in d]
                jobs = [scalar.Job('sign_' + n + f, n + f, d, clauses=['samesign'], defmask=0)]
                if n == 'atan':
                    jobs.append(scalar.point('sign_inf_' + n + f, n + f, scalar.INF[p], 'range 1 2'))
                    jobs.append(scalar.point('sign_ninf_' + n + f, n + f, scalar.NINF[p], 'range -2 -1'))
                sg = lambda v: z3.Extract(v.size() - 1, v.size() - 1, v)
                lemma = (lambda v, v2: z3.And(sg(v) == 0, sg(v2) == 1), jobs)
            rels.append(Relation('odd_' + n + f, w, call(n + f), callneg(n + f), lambda ex, x, a, b, s1, s2: eqnum(neg(a), b), pre,
                                 pcx[pre] + f'return eqn<{T[w]}>(w_{n}{f}(-x),-w_{n}{f}(x));', signs=(0,), lemma=lemma))
        E['scs' + f] = (T[w], f'{T[w]} x', f'{T[w]} s,c; vdt::fast_sincos{f}(x,s,c); return s;')
        E['scc' + f] = (T[w], f'{T[w]} x', f'{T[w]} s,c; vdt::fast_sincos{f}(x,s,c); return c;')
        E['cos' + f] = (T[w], f'{T[w]} x', f'return vdt::fast_cos{f}(x);')
        rels.append(Relation('odd_scs' + f, w, call('scs' + f), callneg('scs' + f), lambda ex, x, a, b, s1, s2: eqnum(neg(a), b), tr,
                             pcx[tr] + f'return eqn<{T[w]}>(w_scs{f}(-x),-w_scs{f}(x));', signs=(0,)))
        for n in ('cos', 'scc'):
            rels.append(Relation('even_' + n + f, w, call(n + f), callneg(n + f), lambda ex, x, a, b, s1, s2: eqbits(a, b), tr,
                                 pcx[tr] + f'return same<{T[w]}>(w_{n}{f}(-x),w_{n}{f}(x));', signs=(0,)))
    decide(prop, R, E, rels)


def run_C18(prop, R):
    R.trust(*TRUST)
    R.assume(*ASSUME)
    R.assume('NaN results are compared as NaN (sign and payload ignored)')
    E, rels = {}, []
    anyx = lambda x: z3.BoolVal(True)

    def fin(x):
        return le_mag(x, 1e9)

    def pos(x):
        w = x.size()
        return z3.And(z3.Extract(w - 1, w - 1, x) == 0, finite(x), z3.Extract(w - 2, 0, x) != 0)

    def same(n1, n2, w, pre=anyx, guard=''):
        rels.append(Relation(f'{n1}_is_{n2}', w, call(n1), call(n2), lambda ex, x, a, b, s1, s2: eqbits(a, b), pre,
                             guard + f'return same<{T[w]}>(w_{n1}(x),w_{n2}(x));'))
    for w in (64, 32):
        f, t = ('', 'double') if w == 64 else ('f', 'float')
        e = lambda n, body: E.__setitem__(n, (t, f'{t} x', body))
        e('sin' + f, f'return vdt::fast_sin{f}(x);')
        e('cos' + f, f'return vdt::fast_cos{f}(x);')
        e('scs' + f, f'{t} s,c; vdt::fast_sincos{f}(x,s,c); return s;')
        e('scc' + f, f'{t} s,c; vdt::fast_sincos{f}(x,s,c); return c;')
        g = 'if(!(std::fabs(x)<=1e9)) return 1; '
        same('sin' + f, 'scs' + f, w, fin, g)
        same('cos' + f, 'scc' + f, w, fin, g)
        for n, it in (('fast_isqrt', (4, 2)), ('fast_approx_isqrt', (3, 1))):
            k = it[0] if w == 64 else it[1]
            e(n + f, f'return vdt::{n}{f}(x);')
            e(n + f + 'g', f'return vdt::fast_isqrt{f}_general(x,{k});')
            same(n + f, n + f + 'g', w)
            n2 = n.replace('isqrt', 'inv')
            e(n2 + f, f'return vdt::{n2}{f}(x);')
            e(n2 + f + 'g', f'return vdt::fast_inv{f}_general(x,{k});')
            e(n2 + f + 'p', f'const {t} r=vdt::{n}{f}(x); return r*r;')
            same(n2 + f, n2 + f + 'g', w)
            same(n2 + f, n2 + f + 'p', w, pos, 'if(!(x>0)||x-x!=0) return 1; ')
        for n in ('identity', 'fast_identity'):
            e(n + f, f'return vdt::{n}{f}(x);')
            rels.append(Relation(n + f + '_returns_argument', w, call(n + f), None, lambda ex, x, a, b, s1, s2: a == x, anyx,
                                 f'return same<{t}>(w_{n}{f}(x),x);'))
        E['identity2D' + f] = (t, f'{t} x, {t} y', f'return vdt::identity2D{f}(x,y);')
        rels.append(Relation('identity2D' + f + '_returns_first', w,
                             lambda ex, st, x, n='w_identity2D' + f: ex.run(n, [x, ex.var('y', x.size())], st), None,
                             lambda ex, x, a, b, s1, s2: a == x, anyx, f'return same<{t}>(w_identity2D{f}(x,({t})2.5),x);'))
    decide(prop, R, E, rels)


def run_C23(prop, R):
    R.trust(*TRUST)
    R.assume(*ASSUME)
    R.assume('little-endian layout of the type-punning union, as clang lays it out for x86-64')
    E, rels = {}, []
    anyx = lambda x: z3.BoolVal(True)
    D = 'vdt::details::'
    for w in (64, 32):
        t, it = T[w], IT[w]
        f = '' if w == 64 else 'f'
        to, fr = ('dp2uint64', 'uint642dp') if w == 64 else ('sp2uint32', 'uint322sp')
        px, sfx = ('dp', 'uint64') if w == 64 else ('sp', 'uint32')
        S = 1 << (w - 1)

        def ent(n, rt, pa, body):
            E[n + f] = (rt, pa, body)
            return n + f

        def bits(n, rt, body, post, conc, pa=None, pre=anyx):
            n = ent(n, rt, pa or f'{t} x', body)
            rels.append(Relation(n, w, call(n), None, lambda ex, x, a, b, s1, s2: post(x, a), pre, conc.replace('@', 'w_' + n), mode='fp'))
        cb = f'un<{t},{it}>(x)'
        bits('tobits', it, f'return {D}{to}(x);', lambda x, a: a == x, f'return @(x)=={cb};')
        bits('tobits2', it, f'return {D}fp2uint(x);', lambda x, a: a == x, f'return @(x)=={cb};')
        bits('frombits', t, f'return {D}{fr}(x);', lambda x, a: a == x, f'return un<{t},{it}>(@({cb}))=={cb};', pa=f'{it} x')
        bits('frombits2', t, f'return {D}int2fp(x);', lambda x, a: a == x, f'return un<{t},{it}>(@({cb}))=={cb};', pa=f'{it} x')
        bits('signmask', it, f'return {D}getSignMask(x);', lambda x, a, S=S: a == (x & bv(S, x.size())), f'return @(x)==({cb}&({it}){S}u);')
        for op, z, c in (('AND', lambda a, b: a & b, '&'), ('OR', lambda a, b: a | b, '|'), ('XOR', lambda a, b: a ^ b, '^')):
            n = ent('m' + op, t, f'{t} x, {it} i', f'return {D}{px}{op}{sfx}(x,i);')

            def left(ex, st, x, n=n):
                ex.mask = ex.var('i', x.size())
                return ex.run('w_' + n, [x, ex.mask], st)
            rels.append(Relation(n, w, left, None, lambda ex, x, a, b, s1, s2, z=z: a == z(x, ex.mask), anyx,
                                 f'{it} i=({it})({cb}*({it})0x9E3779B97F4A7C15ull); return un<{t},{it}>(w_{n}(x,i))==({it})({cb}{c}i);', mode='fp'))
        bits('roundtrip', t, f'return {D}{px}OR{sfx}(std::fabs(x),{D}getSignMask(x));', lambda x, a: a == x, f'return same<{t}>(@(x),x);')
        bits('applytwice', t, f'return {D}{px}XOR{sfx}({D}{px}XOR{sfx}(x,{D}getSignMask(x)),{D}getSignMask(x));', lambda x, a: a == x,
             f'return same<{t}>(@(x),x);')
        mb, bias, pp = (52, 1023, 1022) if w == 64 else (23, 127, 126)

        def normal(x, mb=mb, w=w):
            e = z3.Extract(w - 2, mb, x)
            return z3.And(z3.Extract(w - 1, w - 1, x) == 0, e != 0, e != (1 << (w - 1 - mb)) - 1)
        g = f'if(!(x>=std::numeric_limits<{t}>::min())||x-x!=0) return 1; '
        bits('mant', t, f'{t} fe; return {D}getMantExponent{f}(x,fe);',
             lambda x, a, mb=mb, pp=pp, w=w: a == z3.Concat(bv(0, 1), bv(pp, w - 1 - mb), z3.Extract(mb - 1, 0, x)),
             g + f'{t} r=@(x); int e; return r>=({t})0.5 && r<1 && r==std::frexp(x,&e);', pre=normal)
        bits('expo', t, f'{t} fe; {D}getMantExponent{f}(x,fe); return fe;',
             lambda x, a, mb=mb, w=w, bias=bias: a == z3.fpToIEEEBV(z3.fpSignedToFP(
                 smt.RNE, z3.ZeroExt(32 - (w - 1 - mb), z3.Extract(w - 2, mb, x)) - bias, z3.Float64() if w == 64 else z3.Float32())),
             g + f'int e; std::frexp(x,&e); return @(x)==({t})(e-1);', pre=normal)
        lim = 2.0 ** 31 if w == 64 else 2.0 ** 24
        srt = z3.Float64() if w == 64 else z3.Float32()

        def fl(x, a, srt=srt, w=w):
            # exact in 128-bit format: y-1 <= r <= y
            big = z3.FPSort(11, 64) if w == 64 else z3.FPSort(8, 32)
            X = z3.fpFPToFP(smt.RNE, z3.fpBVToFP(x, srt), big)
            A = z3.fpFPToFP(smt.RNE, z3.fpBVToFP(a, srt), big)
            fp = smt.FP()
            lowok = z3.fpLEQ(z3.fpSub(z3.RTP(), X, z3.FPVal(1.0, big)), A)
            # rounding y-1 upwards is only stronger than needed when y-1 is inexact; then r is an integer and |y|<1
            return z3.And(fp.cmp('ole', a, x), lowok)
        bits('floor', t, f'return {D}fpfloor(x);', fl,
             f'if(!(std::fabs(x)<({t}){lim!r})) return 1; {t} r=@(x); long double R=r,X=x; return R<=X && X-1<=R && r==std::floor(r);',
             pre=lambda x, lim=lim, w=w: z3.ULT(z3.Extract(w - 2, 0, x), bv(smt.fbits(lim, w), w - 1)))
    decide(prop, R, E, rels, headers=['vdtcore_common'])
