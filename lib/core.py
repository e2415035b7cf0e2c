"""Shared machinery: building the driver, running TLC, sharding, evidence, verdicts."""
import json, os, subprocess, sys, tempfile, shutil, time, random, multiprocessing, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, HERE)
from drv import Driver, Crash

TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)

class HarnessError(Exception):
    pass

class Run:
    """One check run: scratch directory, build, seed, tier, collected results."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='disirv.')
        os.chmod(self.dir, 0o755)
        self.exe = None
        self.violations = []      # dicts: title, replay
        self.known = []
        self.stats = {}
        self.samples = []
        self.worlds = []
        self.ops = {}
        self.assumptions = ['calls are made from one thread', 'contracts of the public headers are respected (see DESIGN.md)']
    def add(self, k, n):
        self.stats[k] = self.stats.get(k, 0) + n
    def build(self):
        b = os.environ.get('DISIRV_BUILD') or os.path.join(self.dir, 'build')
        r = subprocess.run(['bash', os.path.join(VERIF, 'harness', 'build.sh'), b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stdout.write(r.stdout.decode('utf-8', 'replace')[-4000:])
            raise HarnessError('build failed')
        self.exe = os.path.join(b, 'driver')
        self.buildtime = time.time() - self.t0
    def violation(self, suite, profile, log, expected):
        """log: [(command, answer)] up to the call that was answered wrongly."""
        d = os.path.join(VERIF, 'replays'); os.makedirs(d, exist_ok=True)
        h = hashlib.md5(json.dumps(log, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(path, 'w') as f:
            json.dump({'property': self.pid, 'suite': suite, 'profile': profile, 'expected': expected, 'log': log}, f, indent=1)
        c, o = log[-1]
        self.violations.append(path)
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        print('  after %d calls, %s' % (len(log) - 1, json.dumps(c)[:1200]))
        print('  answered  %s' % json.dumps(o)[:1500])
        print('  specified %s' % json.dumps(expected)[:1500])
        sys.stdout.flush()
    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def tlc(module, cfg, env=None, workers=1, heap='1800m', metadir=None, extra=(), timeout=800):
    """Run TLC on spec/<module>.tla; returns (exit code, output)."""
    md = tempfile.mkdtemp(prefix='tlcm.', dir=metadir)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=4',
           '-Djava.io.tmpdir=' + md,
           '-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf-8', 'replace')

def tla_unquote(s):
    """A TLA+ string literal as TLC prints it -> python str."""
    return s.replace('\\"', '"').replace('\\\\', '\\')

REJ = re.compile(r'^<<"REJECT", (\d+), "(.*)">>$')
STAT = re.compile(r'(\d+) states generated, (\d+) distinct states found')

def validate(module, lines, workdir, cfg=None, timeout=800, heap='1800m'):
    """lines: [{'c','o'}]. -> ([(index, expected answer)], states, None or {'line','text'} when the
    specification could not be evaluated at that line)."""
    fd, path = tempfile.mkstemp(prefix='trace.', suffix='.ndjson', dir=workdir)
    with os.fdopen(fd, 'w', encoding='utf-8', errors='replace') as f:
        for l in lines:
            f.write(json.dumps(l)); f.write('\n')
    rc, out = tlc(module, cfg or module + '.cfg', env={'TRACE': path}, metadir=workdir, timeout=timeout, heap=heap)
    os.unlink(path)
    rej = []
    for l in out.splitlines():
        m = REJ.match(l)
        if m: rej.append((int(m.group(1)) - 1, json.loads(tla_unquote(m.group(2)))))
    m = STAT.search(out)
    n = int(m.group(2)) if m else 0
    if 'Model checking completed. No error has been found' in out:
        return rej, n, None
    i = out.find('Error:')
    text = out[max(0, i):i + 2500] if i >= 0 else out[-2500:]
    at = re.findall(r'^/?\\? ?l = (\d+)', out, re.M)
    return rej, n, {'line': int(at[-1]) - 1 if at else None, 'text': text}

def validate_trace(module, lines, workdir, **kw):
    rej, n, err = validate(module, lines, workdir, **kw)
    if err: raise HarnessError(err['text'])
    return rej, n

def evidence(run):
    st = run.stats
    cov = {
        'states': st.get('mc_states', 0) + st.get('trace_states', 0),
        'transitions': st.get('mc_transitions', 0) + st.get('calls', 0) + st.get('replayed_calls', 0),
        'traces_validated_against_impl': st.get('traces', 0) + st.get('replayed', 0),
        'samples': run.samples[:6],
        'public_calls_judged': st.get('calls', 0) + st.get('replayed_calls', 0),
        'detail': st,
        'outcomes': dict(sorted(getattr(run, 'ops', {}).items(), key=lambda x: -x[1])[:400]),
        'known_findings': run.known,
        'worlds': run.worlds,
    }
    d = {'property': run.pid, 'tier': run.tier, 'seed': int(run.seed) if str(run.seed).isdigit() else 0, 'level': 'model_checking',
         'coverage': cov, 'wall_s': round(time.time() - run.t0, 1), 'assumptions': run.assumptions,
         'violations': len(run.violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.pid + '.json'), 'w') as f: json.dump(d, f, indent=1)

def parallel(fn, args):
    """Run fn over args in NPROC forked processes; exceptions of a worker are raised here."""
    if len(args) == 1:
        return [fn(args[0])]
    with multiprocessing.get_context('fork').Pool(min(NPROC, len(args))) as p:
        return p.map(fn, args, chunksize=1)
