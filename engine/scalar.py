"""Contracts of the scalar functions, discharged by the Taylor-model prover (tmprove)."""
import json, os, subprocess
import common as K
import irlower

U = {53: 2.0 ** -53, 24: 2.0 ** -24}
MIN, MAX = '0x1p-1022', '0x1.fffffffffffffp1023'
FMIN, FMAX = '0x1p-126', '0x1.fffffep127'
TINY, FTINY = '0x1p-1074', '0x1p-149'
INF = {53: '7ff0000000000000', 24: '7f800000'}
NINF = {53: 'fff0000000000000', 24: 'ff800000'}
NAN = {53: '7ff8000000000000', 24: '7fc00000'}
ONE = {53: '3ff0000000000000', 24: '3f800000'}
MONE = {53: 'bff0000000000000', 24: 'bf800000'}
UB = 8 | 16 | 32 | 64 | 128            # conversion, shift, signed overflow, memory, integer division
FPE = 1 | 2 | 4                        # invalid, division by zero, overflow

# entry name -> (precision, C++ expression or statement list, number of arguments)
ENTRY = {}


def _e(name, fn, precs=(53, 24)):
    if 53 in precs:
        ENTRY[name] = (53, f'return vdt::{fn}(x);', 1)
    if 24 in precs:
        ENTRY[name + 'f'] = (24, f'return vdt::{fn}f(x);', 1)


for _n in ('exp', 'log', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'isqrt', 'inv'):
    _e(_n, 'fast_' + _n)
_e('aisqrt', 'fast_approx_isqrt')
_e('ainv', 'fast_approx_inv')
_e('pisqrt', 'isqrt')
_e('pinv', 'inv')
ENTRY['scs'] = (53, 'double s, c; vdt::fast_sincos(x, s, c); return s;', 1)
ENTRY['scc'] = (53, 'double s, c; vdt::fast_sincos(x, s, c); return c;', 1)
ENTRY['scsf'] = (24, 'float s, c; vdt::fast_sincosf(x, s, c); return s;', 1)
ENTRY['sccf'] = (24, 'float s, c; vdt::fast_sincosf(x, s, c); return c;', 1)
ENTRY['atan2'] = (53, 'return vdt::fast_atan2(y, x);', 2)
ENTRY['atan2f'] = (24, 'return vdt::fast_atan2f(y, x);', 2)

HEAD = {'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'scs': 'sincos', 'scc': 'sincos', 'tan': 'tan', 'asin': 'asin',
        'acos': 'asin', 'atan': 'atan', 'atan2': 'atan2', 'tanh': 'tanh', 'isqrt': 'sqrt', 'aisqrt': 'sqrt',
        'pisqrt': 'sqrt', 'inv': 'inv', 'ainv': 'inv', 'pinv': 'inv'}


def base(e):
    return e[:-1] if e not in HEAD else e


def wrapper(entries):
    hs = sorted({HEAD[base(e)] for e in entries})
    t = '#include <cmath>\n#include <limits>\n#include <algorithm>\n#include <utility>\n#include <cstring>\n' + ''.join(f'#include "{h}.h"\n' for h in hs)
    for e in sorted(entries):
        p, body, n = ENTRY[e]
        ty = 'double' if p == 53 else 'float'
        args = f'{ty} x' if n == 1 else f'{ty} y, {ty} x'
        t += f'extern "C" {ty} w_{e}({args}) {{ {body} }}\n'
    return t


def hx(v):
    return v if isinstance(v, str) else float(v).hex()


class Job:
    def __init__(self, name, entry, doms, acc=None, clauses=(), defmask=UB, fma=False, timelimit=600, maxboxes=6000000,
                 ratio=None, rdom=None, bits_dom=(), expect_fail=False, quick_samples=3, deg=None, meaning=''):
        self.__dict__.update(locals())
        self.prec = ENTRY[entry][0]

    def text(self):
        s = [f'job {self.name}', f'func w_{self.entry}', f'sym w_{self.entry}', f'prec {self.prec}',
             f'deg {self.deg or (9 if self.prec == 53 else 5)}']
        if self.acc:
            ref, A, B, E = self.acc
            s.append(f'acc {ref} {hx(A)} {hx(B)} {hx(E)}')
        s += list(self.clauses)
        if self.ratio:
            s.append('ratio %d %d %d %d' % self.ratio)
            s += [f'rdom {hx(a)} {hx(b)}' for a, b in self.rdom]
        s += [f'dom {hx(a)} {hx(b)}' for a, b in self.doms]
        s += [f'dombits {a} {b}' for a, b in self.bits_dom]
        s += [f'defmask {self.defmask}', f'fma {int(self.fma)}', f'timelimit {self.timelimit}', f'samples {self.quick_samples}',
              f'maxboxes {self.maxboxes}', 'endjob']
        return '\n'.join(s) + '\n'


def canary(j, factor=1 / 32):
    """The same contract with a bound far below what the code achieves: it has to be refuted by a concrete input."""
    ref, A, B, E = j.acc
    f = lambda v: (float.fromhex(v) if isinstance(v, str) else v) * factor
    return Job('canary_' + j.name, j.entry, j.doms, acc=(ref, f(A), f(B), f(E)), maxboxes=20000, timelimit=60, expect_fail=True,
               defmask=0)


# ------------------------------------------------------------------ contracts
def u(k, p):
    return k * U[p]


ID = '0x1.fffffffffffffp1021'
IF = '0x1.fffffep125'
PIO4 = 0.7853981633974483
FPIO4 = 0.78539813
# key -> (entry, reference, abs, rel(in ulps of the format or number), backward, domains, meaning)
ACC = {
    'exp': ('exp', 'exp', 0, u(4, 53), 0, [(-708, 708)]),
    'expf': ('expf', 'exp', 0, u(3, 24), 0, [(-87.3, 88.72283)]),
    'expf_sub': ('expf', 'exp', '0x1p-149', u(3, 24), 0, [(-88, -87.3)]),
    'log': ('log', 'log', 0, u(2.5, 53), 0, [(MIN, 1e307)]),
    'logf': ('logf', 'log', 0, u(2, 24), 0, [(FMIN, 1e38)]),
    'sin': ('scs', 'sin', u(2.5, 53), 0, 0, [(-5000, 5000)]),
    'cos': ('scc', 'cos', u(2.5, 53), 0, 0, [(-5000, 5000)]),
    'sinsmall': ('scs', 'sin', TINY, u(2, 53), 0, [(-PIO4, PIO4)]),
    'sinf': ('scsf', 'sin', u(2, 24), 0, 0, [(-5000, 5000)]),
    'cosf': ('sccf', 'cos', u(2, 24), 0, 0, [(-5000, 5000)]),
    'sinsmallf': ('scsf', 'sin', FTINY, u(2, 24), 0, [(-FPIO4, FPIO4)]),
    'tan': ('tan', 'tan', 0, u(6, 53), u(2, 53), [(1.1e-7, 5000), (-5000, -1.1e-7)]),
    'tansmall': ('tan', 'tan', 0, u(40, 53), 0, [(-1.1e-7, 1.1e-7)]),
    'tanf': ('tanf', 'tan', 0, u(6, 24), u(2, 24), [(-5000, 5000)]),
    'asin': ('asin', 'asin', 0, u(3, 53), 0, [(-1, 1)]),
    'asinf': ('asinf', 'asin', 0, u(6, 24), 0, [(-1, 1)]),
    'acos': ('acos', 'acos', u(7, 53), 0, 0, [(-1, 1)]),
    'acosf': ('acosf', 'acos', u(7, 24), 0, 0, [(-1, 1)]),
    'atan': ('atan', 'atan', TINY, u(3.5, 53), 0, [('-' + MAX, MAX)]),
    'atanf': ('atanf', 'atan', FTINY, u(5, 24), 0, [('-' + FMAX, FMAX)]),
    'tanh': ('tanh', 'tanh', '0x1p-1070', u(14, 53), 0, [('-' + MAX, MAX)]),
    'tanhf': ('tanhf', 'tanh', '0x1p-145', u(12, 24), 0, [('-' + FMAX, FMAX)]),
    'isqrt': ('isqrt', 'isqrt', 0, u(5, 53), 0, [(MIN, MAX)]),
    'isqrtf': ('isqrtf', 'isqrt', 0, 6.6e-6, 0, [(FMIN, FMAX)]),
    'aisqrt': ('aisqrt', 'isqrt', 0, 4.2e-11, 0, [(MIN, MAX)]),
    'aisqrtf': ('aisqrtf', 'isqrt', 0, 2.2e-3, 0, [(FMIN, FMAX)]),
    'pisqrt': ('pisqrt', 'isqrt', 0, u(2.5, 53), 0, [(MIN, MAX)]),
    'pisqrtf': ('pisqrtf', 'isqrt', 0, u(2.5, 24), 0, [(FMIN, FMAX)]),
    'inv': ('inv', 'inv', 0, u(11, 53), 0, [(MIN, ID), ('-' + ID, '-' + MIN)]),
    'invf': ('invf', 'inv', 0, 1.3e-5, 0, [(FMIN, IF), ('-' + IF, '-' + FMIN)]),
    'ainv': ('ainv', 'inv', 0, 8.4e-11, 0, [(MIN, ID), ('-' + ID, '-' + MIN)]),
    'ainvf': ('ainvf', 'inv', 0, 4.4e-3, 0, [(FMIN, IF), ('-' + IF, '-' + FMIN)]),
    'pinv': ('pinv', 'inv', 0, u(1.01, 53), 0, [(MIN, ID), ('-' + ID, '-' + MIN)]),
    'pinvf': ('pinvf', 'inv', 0, u(1.01, 24), 0, [(FMIN, IF), ('-' + IF, '-' + FMIN)]),
}
CANARY_FACTOR = {'isqrt': 1 / 8, 'pinv': 1 / 4, 'pinvf': 1 / 4}


def acc(key, **kw):
    e, ref, A, B, E, d = ACC[key]
    return Job(key, e, d, acc=(ref, A, B, E), **kw)


def point(name, entry, bits, clause):
    return Job(name, entry, [], clauses=[clause], bits_dom=[(bits, bits)], defmask=0)


def atan2_jobs(p, defs=False):
    e, k, A = ('atan2', 4, '0x1p-1072') if p == 53 else ('atan2f', 6, '0x1p-147')
    out = []
    N = 1074 if p == 53 else 160
    rd = [(0.0, 2.0 ** -N)] + [(2.0 ** -i, 2.0 ** -(i - 1)) for i in range(N, 0, -1)]
    mask = (UB | FPE) if defs else UB
    for sx in (1, -1):
        for sy in (1, -1):
            for mx in (0, 1):
                out.append(Job(f'{e}_x{sx}_y{sy}_{"y" if mx else "x"}max', e, [], clauses=[] if defs else [f'atan2 {A} {hx(u(k, p))}'],
                               ratio=(sx, sy, mx, 0), rdom=rd, defmask=mask))
            for z, nm in ((1, 'yzero'), (2, 'xzero'), (3, 'bothzero')):
                if z == 3:
                    cl = ['bits 0'] if p == 53 else ['bits 0']
                elif z == 1:
                    cl = ['atan2 0 0'] if sx > 0 else [f'atan2 0 {hx(u(k, p))} 1']
                else:
                    cl = [f'atan2 0 {hx(u(k, p))}']
                out.append(Job(f'{e}_x{sx}_y{sy}_{nm}', e, [], clauses=[] if defs else cl, ratio=(sx, sy, 1 if z == 2 else 0, z),
                               rdom=[(0.0, 0.0)], defmask=mask))
    return out


def jobs_C13():
    r = [acc('tanh'), acc('tanhf')]
    for e, p, t, m in (('tanh', 53, '0x1.4000000000001p4', MAX), ('tanhf', 24, '0x1.233334p3', FMAX)):
        r.append(Job(e + '_sat', e, [(t, m)], clauses=['bits ' + ONE[p]]))
        r.append(Job(e + '_nsat', e, [('-' + m, '-' + t)], clauses=['bits ' + MONE[p]]))
        r.append(point(e + '_inf', e, INF[p], 'bits ' + ONE[p]))
        r.append(point(e + '_ninf', e, NINF[p], 'bits ' + MONE[p]))
    return r


def jobs_C17():
    r = []
    nx = lambda s: s
    r += [Job('exp_over', 'exp', [('0x1.6200000000001p9', MAX)], clauses=['bits ' + INF[53]], defmask=0),
          Job('exp_under', 'exp', [('-' + MAX, '-0x1.6200000000001p9')], clauses=['bits 0'], defmask=0),
          Job('expf_over', 'expf', [(88.72285, FMAX)], clauses=['bits ' + INF[24]], defmask=0),
          Job('expf_under', 'expf', [('-' + FMAX, '-0x1.600002p6')], clauses=['bits 0'], defmask=0),
          Job('log_neg', 'log', [('-' + MAX, '-' + TINY)], clauses=['nan'], defmask=0),
          Job('log_over', 'log', [('0x1.c7b1f3cac7434p1019', MAX)], clauses=['bits ' + INF[53]], defmask=0),
          Job('logf_neg', 'logf', [('-' + FMAX, '-' + FTINY)], clauses=['nan'], defmask=0)]
    for e, p in (('exp', 53), ('expf', 24)):
        r += [point(e + '_inf', e, INF[p], 'bits ' + INF[p]), point(e + '_ninf', e, NINF[p], 'bits 0')]
    for e, p in (('log', 53), ('logf', 24)):
        r += [point(e + '_inf', e, INF[p], 'bits ' + INF[p]), point(e + '_ninf', e, NINF[p], 'nan')]
    for e, p in (('asin', 53), ('asinf', 24), ('acos', 53), ('acosf', 24)):
        a, m = ('0x1.0000000000001p0', MAX) if p == 53 else ('0x1.000002p0', FMAX)
        r += [Job(e + '_gt1', e, [(a, m), ('-' + m, '-' + a)], clauses=['nan'], defmask=0),
              point(e + '_inf', e, INF[p], 'nan'), point(e + '_ninf', e, NINF[p], 'nan')]
    H = {53: ('0x1.921fb54442d17p0', '0x1.921fb54442d19p0'), 24: ('0x1.921fb4p0', '0x1.921fb8p0')}
    for e, p in (('atan', 53), ('atanf', 24)):
        a, b = H[p]
        r += [point(e + '_inf', e, INF[p], f'range {a} {b}'), point(e + '_ninf', e, NINF[p], f'range -{b} -{a}')]
    for e in ('exp', 'sin', 'cos', 'scs', 'scc', 'tan', 'asin', 'acos', 'atan'):
        r += [point(e + '_nan', e, NAN[53], 'nan'), point(e + 'f_nan', e + 'f', NAN[24], 'nan')]
    return r


def jobs_C22():
    r = []
    D = {'exp': [(-708, 708)], 'expf': [(-88, 88.72283)], 'log': [(MIN, 1e307)], 'logf': [(FMIN, 1e38)],
         'scs': [(-5000, 5000)], 'scsf': [(-5000, 5000)], 'sin': [(-5000, 5000)], 'sinf': [(-5000, 5000)],
         'cos': [(-5000, 5000)], 'cosf': [(-5000, 5000)], 'tan': [(-5000, 5000)], 'tanf': [(-5000, 5000)],
         'asin': [(-1, 1)], 'asinf': [(-1, 1)], 'acos': [(-1, 1)], 'acosf': [(-1, 1)],
         'atan': [('-' + MAX, MAX)], 'atanf': [('-' + FMAX, FMAX)], 'tanh': [('-' + MAX, MAX)], 'tanhf': [('-' + FMAX, FMAX)],
         'isqrt': [(MIN, MAX)], 'isqrtf': [(FMIN, FMAX)], 'aisqrt': [(MIN, MAX)], 'aisqrtf': [(FMIN, FMAX)],
         'pisqrt': [(MIN, MAX)], 'pisqrtf': [(FMIN, FMAX)]}
    for k in ('inv', 'ainv', 'pinv'):
        D[k] = [(MIN, ID), ('-' + ID, '-' + MIN)]
        D[k + 'f'] = [(FMIN, IF), ('-' + IF, '-' + FMIN)]
    for k, d in D.items():
        r.append(Job('def_' + k, k, d, defmask=UB | FPE))
    for p in (53, 24):
        for j in atan2_jobs(p, defs=True):
            j.name = 'def_' + j.name
            r.append(j)
    return r


def jobs_C30():
    r = []
    for e, p in (('scs', 53), ('scc', 53), ('sin', 53), ('cos', 53), ('scsf', 24), ('sccf', 24), ('sinf', 24), ('cosf', 24)):
        b = '0x1.0000000000004p0' if p == 53 else '0x1.000008p0'
        r.append(Job('range_' + e, e, [(-5000, 5000)], clauses=[f'range -{b} {b}']))
    r.append(Job('range_exp', 'exp', [(-708, 708)], clauses=['range 0x1p-1030 0x1p1023']))
    r.append(Job('range_expf', 'expf', [(-88, 88.72283)], clauses=['range 0x1p-130 ' + FMAX]))
    for e, p, m in (('atan', 53, MAX), ('atanf', 24, FMAX)):
        b = '0x1.921fb54442d1cp0' if p == 53 else '0x1.921fbep0'
        r.append(Job('range_' + e, e, [('-' + m, m)], clauses=[f'range -{b} {b}']))
    for e, p in (('asin', 53), ('asinf', 24)):
        b = '0x1.921fb54442d1cp0' if p == 53 else '0x1.921fbep0'
        r.append(Job('range_' + e, e, [(-1, 1)], clauses=[f'range -{b} {b}']))
    for e, p in (('acos', 53), ('acosf', 24)):
        lo, b = ('-0x1p-51', '0x1.921fb54442d1cp1') if p == 53 else ('-0x1p-22', '0x1.921fbep1')
        r.append(Job('range_' + e, e, [(-1, 1)], clauses=[f'range {lo} {b}']))
    for e, m in (('tanh', MAX), ('tanhf', FMAX)):
        b = '0x1.0000000000004p0' if e == 'tanh' else '0x1.000008p0'
        r.append(Job('range_' + e, e, [('-' + m, m)], clauses=[f'range -{b} {b}']))
    return r


def jobs_C31():
    r = []
    for k in ('exp', 'expf', 'log', 'logf', 'sin', 'cos', 'sinsmall', 'sinf', 'cosf', 'sinsmallf', 'tan', 'tansmall', 'tanf', 'asin', 'asinf',
              'acos', 'acosf', 'atan', 'atanf', 'tanh', 'tanhf', 'isqrt', 'isqrtf', 'aisqrt', 'aisqrtf', 'pisqrt', 'pisqrtf',
              'inv', 'invf', 'ainv', 'ainvf', 'pinv', 'pinvf'):
        e, ref, A, B, E, d = ACC[k]
        f = lambda v: (8 if k in ('isqrt', 'inv') else 2) * (float.fromhex(v) if isinstance(v, str) else v)
        r.append(Job('fma_' + k, e, d, acc=(ref, f(A), f(B), f(E)), fma=True))
    for j in atan2_jobs(53) + atan2_jobs(24):
        twice = lambda c: c if c.startswith('bits') else ' '.join(hx(2 * float.fromhex(x)) if 'x' in x else x for x in c.split())
        j.name, j.fma, j.clauses = 'fma_' + j.name, True, [twice(c) for c in j.clauses]
        r.append(j)
    return r


PROPS = {
    'C01': lambda: [acc('exp')],
    'C02': lambda: [acc('expf'), acc('expf_sub')],
    'C03': lambda: [acc('log'), Job('log_one', 'log', [(1, 1)], clauses=['bits 0'])],
    'C04': lambda: [acc('logf'), Job('logf_one', 'logf', [(1, 1)], clauses=['bits 0'])],
    'C05': lambda: [acc('sin'), acc('cos'), acc('sinsmall')],
    'C06': lambda: [acc('sinf'), acc('cosf'), acc('sinsmallf')],
    'C07': lambda: [acc('tan'), acc('tansmall')],
    'C08': lambda: [acc('tanf')],
    'C09': lambda: [acc('asin'), acc('acos')],
    'C10': lambda: [acc('asinf'), acc('acosf')],
    'C11': lambda: [acc('atan'), acc('atanf')],
    'C12': lambda: atan2_jobs(53) + atan2_jobs(24),
    'C13': jobs_C13,
    'C14': lambda: [acc(k) for k in ('isqrt', 'isqrtf', 'aisqrt', 'aisqrtf', 'pisqrt', 'pisqrtf')],
    'C15': lambda: [acc(k, clauses=['samesign']) for k in ('inv', 'invf', 'ainv', 'ainvf', 'pinv', 'pinvf')],
    'C17': jobs_C17,
    'C22': jobs_C22,
    'C30': jobs_C30,
    'C31': jobs_C31,
}

TRUST = ['clang 18 front end and opt sroa (C++ to LLVM IR; extraction runs on the current headers)',
         'engine/irlower.py (IR reader) and engine/tmprove.cpp (Taylor-model prover)',
         'libquadmath for polynomial coefficients of the reference functions (error margins added)',
         'IEEE-754 binary32/binary64 arithmetic, round to nearest, as done by the compiled code']
ASSUME = ['default rounding mode, no flush-to-zero, no -ffast-math (as in the project build)',
          'the compiled code implements the extracted IR semantics (cross-checked on sampled inputs of a g++ -O3 build)']


def prove(jobs, threads=None):
    """Runs jobs; returns (job results by name, functions, engine output)."""
    ents = {j.entry for j in jobs}
    src = wrapper(ents)
    m = irlower.parse(open(K.extract_ir(src, 'scalar')).read())
    try:
        bc, fn, ext = irlower.to_bytecode(m, ['w_' + e for e in sorted(ents)])
    except irlower.Unsupported as e:
        raise K.CheckError('extraction: ' + str(e))
    so = K.build_so(src, 'scalar')
    w = K.workdir()
    open(os.path.join(w, 'bc.txt'), 'w').write(bc)
    open(os.path.join(w, 'jobs.txt'), 'w').write(''.join(j.text() for j in jobs))
    eng = K.build_engine()
    r = K.sh([eng, os.path.join(w, 'bc.txt'), os.path.join(w, 'jobs.txt'), so, str(K.SEED), str(threads or os.cpu_count() or 4)],
             timeout=3500)
    try:
        d = json.loads(r.stdout)
    except ValueError:
        raise K.CheckError(f'prover ended with {r.returncode}: {r.stdout[-500:]} {r.stderr[-500:]}')
    if 'error' in d:
        raise K.CheckError('prover: ' + d['error'])
    return {j['name']: j for j in d['jobs']}, fn, d


def run(prop, R):
    jobs = PROPS[prop]()
    can = [canary(j, CANARY_FACTOR.get(j.name, 1 / 32)) for j in jobs if j.acc and not j.fma and j.name not in ('expf_sub',)]
    res, fn, d = prove(jobs + can)
    R.functions(fn)
    R.trust(*TRUST)
    R.assume(*ASSUME)
    cov = R.coverage
    cov.update(contracts=[], boxes=0, paths=0, splits=0, clause_checks=0, concrete_samples=0, enclosure_containments=0, canaries=0)
    for j in jobs:
        r = res[j.name]
        cov['boxes'] += r['boxes']
        cov['paths'] += r['paths']
        cov['splits'] += r['splits']
        cov['clause_checks'] += r['checks']
        cov['concrete_samples'] += r['samples']
        cov['enclosure_containments'] += r['contained']
        cov['contracts'].append({'name': j.name, 'function': r['func'], 'boxes': r['boxes'], 'leaves': r['leaves'], 'points': r['points'],
                                 'proved_fraction_of_bound': r['worst'], 'at': r['worstAt'], 'largest_sampled_fraction': r['sworst'],
                                 'cpu_s': r['cpu']})
        bad = r['fcount'] + min(r['ucount'], 50)
        R.ob('taylor-model', r['leaves'] + bad, r['leaves'], r['cpu'])
        for s in r['examples'][:1]:
            if len(cov['samples']) < 12:
                cov['samples'].append(j.name + ': ' + s)
        if r['fcount']:
            R.violate(j.name, '; '.join(r['fails'][:2]), {'job': j.text()[:3000], 'failing': r['fails'], 'undecided': r['unres'][:5]})
            continue
        if r['unsupported']:
            R.error(f"{j.name}: unsupported construct: {r['unsupported'][:2]}")
            continue
        if r['uncontained']:
            R.error(f"{j.name}: compiled result outside the enclosure: {r['uncontained'][:2]}")
            continue
        if r['ucount']:
            if any('time limit' in x for x in r['unres']):
                R.error(f"{j.name}: time limit, {r['ucount']} obligations open: {r['unres'][:2]}")
            else:
                R.violate(j.name, 'obligation not discharged: ' + '; '.join(r['unres'][:2]),
                          {'job': j.text()[:3000], 'undecided': r['unres'][:20]}, replayable=False)
            continue
        if r['leaves'] == 0 or r['paths'] == 0:
            R.error(f'{j.name}: vacuous (no box proved)')
    for j in can:
        r = res[j.name]
        cov['canaries'] += 1
        if not r['fcount'] and not R.violations:
            R.error(f"{j.name}: the tightened contract was not refuted (vacuity guard)")
