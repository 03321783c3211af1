"""Shared machinery: building the harness, running TLC, reporting."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = '/repo'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = 8
T0 = time.time()


class ToolError(Exception):
    pass


def say(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


_tmp = None


def tmp():
    """A scratch directory, removed at exit."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vp-')
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_n = 0


def tmpfile(suffix=''):
    global _n
    _n += 1
    return os.path.join(tmp(), 'f%d%s' % (_n, suffix))


def rng(*salt):
    return random.Random('%d/%s' % (SEED, '/'.join(map(str, salt))))


def build(*bins):
    """Builds the harness (and with it /repo's current tree) and returns its directory."""
    cmd = ['cargo', 'build', '--offline', '-q'] + [x for b in bins for x in ('--bin', b)]
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUST_LOG'):
        env.pop(k, None)
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + '\n'.join(l for l in p.stdout.splitlines() if not l.startswith('warning'))[-3000:])
    return os.path.join(HARNESS, 'target', 'debug')


def died(p):
    """Why a harness process ended in the middle of a script; None when it did not."""
    if p.returncode < 0:
        return 'killed by signal %d' % -p.returncode
    if p.returncode == 101:
        return 'panic between the calls: ' + p.stderr.decode(errors='replace')[-500:]
    return None


# ---------------------------------------------------------------- TLC

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcResult:
    pass


def tlc(module, cfg, env=None, workers=1, args=(), timeout=600, heap='3g', expect_ok=True):
    """Runs TLC on spec/<module>.tla. cfg: text of the configuration or a file in spec/."""
    if '\n' in cfg:
        path = tmpfile('.cfg')
        open(path, 'w').write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    meta = tmpfile('.meta')
    out = tmpfile('.out')
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + tmp(), '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-config', path, '-metadir', meta, '-noGenerateSpecTE', '-nowarning', *args, module + '.tla']
    with open(out, 'w') as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    r = TlcResult()
    r.rc = rc
    r.text = open(out, errors='replace').read()
    os.remove(out)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', r.text)
    r.generated, r.distinct = ([int(x.replace(',', '')) for x in m[-1]] if m else [0, 0])
    if not m:
        m = re.findall(r'([\d,]+) states checked', r.text) or re.findall(r'number of states generated: ([\d,]+)', r.text)
        if m:
            r.generated = r.distinct = int(m[-1].replace(',', ''))
    r.violated = bool(re.search(r'is violated|Temporal properties were violated|Deadlock reached', r.text))
    if expect_ok and (rc != 0):
        raise ToolError('TLC failed on %s (%s):\n%s' % (module, rc, '\n'.join(l for l in r.text.splitlines() if 'SCRIPT' not in l)[-4000:]))
    return r


def pmap(f, xs, jobs=JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, xs))


def chunks(xs, n):
    n = max(1, min(n, len(xs)))
    return [xs[i::n] for i in range(n)]


# ---------------------------------------------------------------- reporting

class Report:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []

    def tlc(self, r, what=None):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        if what:
            self.cov.setdefault('model_runs', []).append({'model': what, 'states': r.distinct, 'transitions': r.generated})

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def violation(self, title, data):
        d = os.path.join(VERIF, 'out', self.prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'replay-%d.json' % (len(self.violations) + 1))
        json.dump({'property': self.prop, 'what': title, **data}, open(path, 'w'), indent=1)
        self.violations.append((title, path))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump({'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
                   'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2),
                   'violations': len(self.violations)},
                  open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)
        for title, path in self.violations:
            print(title)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        say('%s: %s; %s' % (self.prop, 'VIOLATED' if self.violations else 'held',
                            ', '.join('%s=%s' % (k, v) for k, v in self.cov.items() if isinstance(v, int))))
        return 1 if self.violations else 0
