"""Infrastructure of the checks: building /repo's sources, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class CheckError(Exception): pass

# ------------------------------- building -------------------------------
FLAGS = ['-O2', '-std=c++11', '-w', '-include', 'cstdint']
INC = ['GcodeProcessorLib', 'ArcWelder', 'ArcWelderInverseProcessor', 'ArcWelderConsole', 'PyArcWelder', 'TCLAP']
_built = {}
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def _headers():
    h = []
    for d in INC:
        for f in sorted(glob.glob(os.path.join(REPO, d, '**', '*.h'), recursive=True)):
            h.append(f); h.append(open(f, 'rb').read())
    return _sha(*h)

def _compile(src, flags, hdr):
    key = _sha(src, open(src, 'rb').read(), ' '.join(flags), hdr)
    obj = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + '.%d.tmp' % os.getpid()
        cmd = ['g++'] + flags + ['-I' + os.path.join(REPO, d) for d in INC] + ['-c', src, '-o', tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise CheckError('compilation failed: %s\n%s' % (src, r.stderr[-3000:]))
        os.replace(tmp, obj)
    return obj

def srcs(*dirs):
    out = []
    for d in dirs: out += sorted(glob.glob(os.path.join(REPO, d, '*.cpp')))
    return out

TARGETS = {
    'welder': lambda: srcs('GcodeProcessorLib', 'ArcWelder', 'ArcWelderConsole'),
    'straightener': lambda: srcs('GcodeProcessorLib', 'ArcWelderInverseProcessor'),
    'harness': lambda: srcs('GcodeProcessorLib', 'ArcWelder') + [os.path.join(VERIF, 'harness', 'harness.cpp')],
    'harness2': lambda: srcs('GcodeProcessorLib') +
        [f for f in srcs('ArcWelderInverseProcessor') if not f.endswith('/ArcWelderInverseProcessor.cpp')] +
        [os.path.join(VERIF, 'harness', 'harness2.cpp')],
}
def build(name, extra=()):
    key = (name, tuple(extra))
    if key in _built: return _built[key]
    flags = FLAGS + list(extra)
    hdr = _headers()
    files = TARGETS[name]()
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda f: _compile(f, flags, hdr), files))
    out = os.path.join(BUILD, 'bin', '%s-%s' % (name, _sha(*objs, *extra)))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + list(extra) + objs + ['-o', tmp, '-lpthread'], capture_output=True, text=True)
        if r.returncode: raise CheckError('link failed: %s\n%s' % (name, r.stderr[-3000:]))
        os.replace(tmp, out)
    _built[key] = out
    return out

PYTHON, PYINC = '/usr/bin/python3.12', '/usr/include/python3.12'
def build_py():
    """the directory of the Python extension"""
    if 'py' in _built: return _built['py']
    flags = FLAGS + ['-fPIC', '-I' + PYINC]
    hdr = _headers()
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda f: _compile(f, flags, hdr), srcs('GcodeProcessorLib', 'ArcWelder', 'PyArcWelder')))
    d = os.path.join(BUILD, 'bin', 'py-' + _sha(*objs))
    if not os.path.exists(d + '/PyArcWelder.so'):
        os.makedirs(d, exist_ok=True)
        tmp = d + '/PyArcWelder.%d.tmp' % os.getpid()
        r = subprocess.run(['g++', '-shared'] + objs + ['-o', tmp, '-lpthread'], capture_output=True, text=True)
        if r.returncode: raise CheckError('link failed: the Python extension\n%s' % r.stderr[-3000:])
        os.replace(tmp, d + '/PyArcWelder.so')
    _built['py'] = d
    return d

def build_so(name):
    src = os.path.join(VERIF, 'harness', name + '.c')
    out = os.path.join(BUILD, 'bin', '%s-%s.so' % (name, _sha(open(src, 'rb').read())))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', src, '-o', tmp, '-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode: raise CheckError('shim failed\n' + r.stderr)
        os.replace(tmp, out)
    return out

# ------------------------------- scratch --------------------------------
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
    return _scratch
def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch): shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None

# --------------------------------- TLC ----------------------------------
class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        self.ok = rc == 0 and 'No error has been found' in out
        inv = re.search(r'Invariant (\w+) is violated', out)
        self.invariant = inv.group(1) if inv else None
        self.deadlock = 'Deadlock reached' in out
        self.postcond = 'POSTCONDITION' in out and 'violated' in out or 'Postcondition' in out and 'violated' in out
        self.action = re.search(r'(?:Action|Temporal) propert\w+ .*violated', out) is not None
        # a value beyond the range of the printer's coordinates (some 20 km): no recorded run of a working program comes near it
        self.overflow = not self.ok and 'Overflow when computing' in out
        if self.overflow and self.invariant is None: self.invariant = 'out of the range of a printer'
        self.violated = self.invariant is not None or self.deadlock or self.action or self.postcond
    def var(self, name):
        m = re.findall(r'^/\\ %s = (.*)$' % re.escape(name), self.out, re.M)
        return m[-1].strip() if m else None
    def state(self):
        m = self.out.rfind('\nState ')
        return self.out[m:m + 6000] if m >= 0 else self.out[-3000:]

def tlc(module, cfg, cases=None, env=None, workers=8, timeout=800, deadlock=True, extra=(), heap='6g'):
    """cfg: text of the configuration, cases: object for VF_CASES"""
    d = tempfile.mkdtemp(dir=scratch())
    for f in glob.glob(os.path.join(SPEC, '*.tla')): shutil.copy(f, d)
    open(os.path.join(d, 'run.cfg'), 'w').write(cfg)
    e = dict(os.environ)
    if cases is not None:
        p = os.path.join(d, 'cases.json')
        json.dump(cases, open(p, 'w'))
        e['VF_CASES'] = p
    if env: e.update(env)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + d, '-cp', JAR, 'tlc2.TLC', '-config', 'run.cfg',
           '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE'] + list(extra)
    if not deadlock: cmd.append('-deadlock')
    cmd.append(module + '.tla')
    try:
        r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC timed out on ' + module)
    res = Tlc(r.returncode, r.stdout + r.stderr)
    shutil.rmtree(d, ignore_errors=True)
    if not res.ok and not res.violated:
        raise CheckError('TLC failed on %s (rc %d)\n%s' % (module, r.returncode, res.out[-4000:]))
    return res

def cfg_text(invariants=(), init='Init', next_='Next', spec=None, props=(), constants=None, post=None, extra=''):
    s = 'SPECIFICATION %s\n' % spec if spec else 'INIT %s\nNEXT %s\n' % (init, next_)
    for i in invariants: s += 'INVARIANT %s\n' % i
    for i in props: s += 'PROPERTY %s\n' % i
    for k, v in (constants or {}).items(): s += 'CONSTANT %s = %s\n' % (k, v)
    if post: s += 'POSTCONDITION %s\n' % post
    return s + extra

# ------------------------------- verdicts -------------------------------
def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop): out.append(l[len('known: property=%s ' % prop):])
    return out

def save_replay(prop, obj):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%d.json' % (prop, SEED))
    json.dump(obj, open(p, 'w'), indent=1, default=str)
    return os.path.relpath(p, VERIF)

def evidence(prop, level, coverage, assumptions=(), violations=0):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=prop, level=level, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, coverage=coverage,
              assumptions=list(assumptions), wall_s=round(time.time() - T0, 2), violations=violations)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)

class Violation(Exception):
    def __init__(self, prop, what, replay): self.prop, self.what, self.replay = prop, what, replay

def violation(prop, what, replay_obj):
    raise Violation(prop, what, replay_obj)
