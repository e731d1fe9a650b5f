"""Shared parts of the checks: engine build, extraction from /repo, verdicts, evidence and replay files."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = os.path.join(REPO, 'include')
CLANG, OPT = 'clang++-18', 'opt-18'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
CLANG_FLAGS = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-ffp-contract=off', '-fno-exceptions',
               '-fno-discard-value-names', '-w']
GXX_FLAGS = ['-std=c++11', '-O3', '-msse', '-ffp-contract=off', '-fPIC', '-shared', '-w']


class CheckError(Exception):
    """The check itself could not run; never a violation."""


def sh(cmd, timeout=600, **kw):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: ' + ' '.join(cmd)[:200])
    except OSError as e:
        raise CheckError(str(e))
    return r


def need(cmd, what, timeout=600, **kw):
    r = sh(cmd, timeout, **kw)
    if r.returncode != 0:
        raise CheckError(f"{what} failed ({r.returncode}): {' '.join(cmd)[:300]}\n{r.stdout[-1500:]}{r.stderr[-3000:]}")
    return r


_tmp = None


def workdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vdtverif.')
    return _tmp


def cleanup():
    if _tmp and os.environ.get('VERIF_KEEP') is None:
        shutil.rmtree(_tmp, ignore_errors=True)


def build_engine():
    """Builds the Taylor-model prover if the committed source changed; returns the path of the binary."""
    src = os.path.join(HERE, 'tmprove.cpp')
    flags = ['-O2', '-std=gnu++17', '-ffp-contract=off', '-w']
    h = hashlib.sha256(open(src, 'rb').read() + ' '.join(flags).encode()).hexdigest()[:16]
    bdir = os.path.join(VERIF, 'build')
    try:
        os.makedirs(bdir, exist_ok=True)
    except OSError:
        bdir = workdir()
    out = os.path.join(bdir, 'tmprove-' + h)
    with open(os.path.join(bdir, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(bdir):
                if f.startswith('tmprove-'):
                    os.remove(os.path.join(bdir, f))
            need(['g++', *flags, src, '-o', out + '.tmp', '-lquadmath', '-ldl', '-lpthread'], 'building the prover')
            os.rename(out + '.tmp', out)
    return out


def extract_ir(src_text, name, extra_flags=(), sroa=True, passes='sroa'):
    """C++ text (includes the real headers) -> path of the LLVM IR the verifier reads."""
    w = workdir()
    cpp = os.path.join(w, name + '.cpp')
    with open(cpp, 'w') as f:
        f.write(src_text)
    a, b = os.path.join(w, name + '.0.ll'), os.path.join(w, name + '.ll')
    need([CLANG, *CLANG_FLAGS, *extra_flags, '-I' + INC, '-S', '-emit-llvm', cpp, '-o', a], 'extraction (clang)')
    if sroa:
        need([OPT, '-S', f'-passes=function({passes})', a, '-o', b], 'extraction (opt)')
        return b
    return a


def build_so(src_text, name, extra_flags=()):
    w = workdir()
    cpp = os.path.join(w, name + '.so.cpp')
    with open(cpp, 'w') as f:
        f.write(src_text)
    so = os.path.join(w, name + '.so')
    need(['g++', *GXX_FLAGS, *extra_flags, '-I' + INC, cpp, '-o', so], 'compiling the code under test')
    return so


def demangle(names):
    names = list(names)
    if not names:
        return []
    r = sh(['c++filt'], input='\n'.join(names))
    return r.stdout.split('\n')[:len(names)] if r.returncode == 0 else names


def known_findings(prop):
    """Committed list of accepted findings: lines `finding: property=<id> job=<job> <text>`."""
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


class Result:
    """Collects obligations of one property and turns them into a verdict."""

    def __init__(self, prop, level):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.violations = []      # dict(key, what, replayable, detail)
        self.errors = []
        self.assumptions = []
        self.coverage = {'obligations': 0, 'discharged': 0, 'backends': {}, 'functions_under_contract': [],
                         'samples': [], 'bounded': []}
        self.trusted = []

    def ob(self, backend, total, ok, seconds=0.0):
        c = self.coverage
        c['obligations'] += total
        c['discharged'] += ok
        b = c['backends'].setdefault(backend, {'obligations': 0, 'discharged': 0, 'solver_seconds': 0.0})
        b['obligations'] += total
        b['discharged'] += ok
        b['solver_seconds'] = round(b['solver_seconds'] + seconds, 3)

    def functions(self, names):
        """functions under contract, by symbol: library code they run through is counted apart, harness functions are left out"""
        lib = [n for n in names if re.match(r'_ZN?K?(St|9__gnu_cxx|Sa|Ss|So|Si)|_Z(nw|na|dl|da)|vt_|vs_', n)]
        if lib:
            l = self.coverage.setdefault('library_functions_executed', [])
            l += [n for n in lib if n not in l]
        names = demangle([n for n in names if n not in lib and not re.match(r'h_|w_|_GLOBAL__', n)])
        f = self.coverage['functions_under_contract']
        for n in names:
            if n not in f:
                f.append(n)

    def assume(self, *a):
        for x in a:
            if x not in self.assumptions:
                self.assumptions.append(x)

    def trust(self, *a):
        for x in a:
            if x not in self.trusted:
                self.trusted.append(x)

    def violate(self, key, what, detail=None, replayable=True):
        self.violations.append({'key': key, 'what': what, 'detail': detail, 'replayable': replayable})

    def error(self, msg):
        self.errors.append(msg)

    def finish(self):
        known = known_findings(self.prop)
        new, listed = [], []
        for v in self.violations:
            k = [t for key, t in known if key == v['key']]
            (listed if k else new).append((v, k))
        c = self.coverage
        c['checker_cmd'] = f'python3-vt engine/check.py {self.prop}'
        c['trusted_base'] = self.trusted
        if 'library_functions_executed' in c:
            c['library_functions_executed'] = len(c['library_functions_executed'])
        if self.errors:
            c['errors'] = self.errors[:10]
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': c,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        ed = os.path.join(VERIF, 'evidence')
        os.makedirs(ed, exist_ok=True)
        with open(os.path.join(ed, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v, k in listed:
            print(f'KNOWN-FINDING: property={self.prop} {k[0]}')
        if new:
            new.sort(key=lambda t: not t[0]['replayable'])
            rd = os.path.join(ed, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER, 'failed': [v for v, _ in new][:20],
                           'how': f'python3-vt engine/check.py {self.prop} --replay {path}'}, f, indent=1)
            for v, _ in new[:5]:
                print(f"  {v['key']}: {v['what']}")
            tail = '' if new[0][0]['replayable'] else ' no-failing-input-found'
            print(f'VIOLATION property={self.prop} replay={path}{tail}')
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print('ERROR ' + e, file=sys.stderr)
            return 2
        if c['obligations'] == 0 or c['obligations'] != c['discharged']:
            print(f"ERROR {c['discharged']} of {c['obligations']} obligations discharged", file=sys.stderr)
            return 2
        print(f"OK property={self.prop} obligations={c['obligations']} discharged={c['discharged']} "
              f"wall={ev['wall_s']}s")
        return 0
