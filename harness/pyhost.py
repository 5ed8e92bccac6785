"""Runs a session of conversions with the Python extension and prints what its caller sees, without judging it.
pyhost.py DIRECTORY_OF_THE_EXTENSION SESSION.json RECORD.json"""
import ctypes, gc, json, os, sys, types
sys.path.insert(0, sys.argv[1])
S = json.load(open(sys.argv[2]))
EV = []
class Log(object):
    def __getattr__(self, name):
        def put(*a):
            EV.append(dict(e='log', m=name, t=a[0] if a and isinstance(a[0], str) else repr(a)))
            if S.get('logfails') and name in S['logfails']: raise RuntimeError('the log is full')
        return put
class LoggingConfigurator(object):
    def __init__(self, *a): pass
    def get_logger(self, name): return Log()
for n in ('octoprint_arc_welder', 'octoprint_arc_welder.log'): sys.modules[n] = types.ModuleType(n)
sys.modules['octoprint_arc_welder'].log = sys.modules['octoprint_arc_welder.log']
sys.modules['octoprint_arc_welder.log'].LoggingConfigurator = LoggingConfigurator
LIBC = ctypes.CDLL(None)
def captured(f):
    """what f returns, and what was printed meanwhile on the descriptors 1 and 2"""
    sys.stdout.flush(); sys.stderr.flush(); LIBC.fflush(None)
    keep = os.dup(1), os.dup(2)
    p = S['out']; fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1); os.dup2(fd, 2)
    try: r = f()
    finally:
        sys.stdout.flush(); sys.stderr.flush(); LIBC.fflush(None)
        os.dup2(keep[0], 1); os.dup2(keep[1], 2); os.close(keep[0]); os.close(keep[1]); os.close(fd)
    return r, open(p, errors='replace').read()
def load():
    global PyArcWelder
    import PyArcWelder
captured(load)
record = []
def save(): json.dump(record, open(sys.argv[3] + '.tmp', 'w')); os.replace(sys.argv[3] + '.tmp', sys.argv[3])
class Whole(int): pass
def value(v):
    if isinstance(v, dict):
        k = v['$']
        if k == 'none': return None
        if k == 'bytes': return v['v'].encode()
        if k == 'list': return [v['v']]
        if k == 'object': return object()
        if k == 'str': return ''.join(list(v['v']))      # a string of its own
        if k == 'subint': return Whole(v['v'])
        raise ValueError(k)
    return v
ANSWER = dict(true=True, none=None, one=1, two=2, many=int('100000'), zero=0, false=False, minus=-1, text='no', real=1.5, empty='')
def copied(v): return v.encode('utf-8', 'surrogatepass').decode('utf-8', 'surrogatepass')
def plain(d):
    """a report as JSON"""
    if not isinstance(d, dict): return dict(type=type(d).__name__)
    r = {}
    for k, v in d.items(): r[str(k)] = [type(v).__name__, copied(v) if isinstance(v, str) else repr(v)]
    return r
def one(c):
    del EV[:]
    reports, answers = [], c['answers']
    def callback(*a):
        n = len(reports)
        d = a[0] if a else None
        reports.append(d)
        k = answers[min(n, len(answers) - 1)]
        EV.append(dict(e='report', r=plain(d), ans=k, nargs=len(a)))
        if c.get('touch') and isinstance(d, dict): d.clear()
        if k == 'raise': raise KeyError('the callback fails')
        return ANSWER[k]
    args = None
    if c['shape'] == 'dict':
        args = {k: value(v) for k, v in c['args'].items()}
        if c['args'].get('on_progress_received') == 'callback': args['on_progress_received'] = callback
        given = (args,)
    elif c['shape'] == 'nothing': given = ()
    elif c['shape'] == 'two': given = ({}, {})
    else: given = (value(c['notdict']),)
    before = {k: sys.getrefcount(v) for k, v in (args or {}).items()}
    nargs = sys.getrefcount(args) if args is not None else 0
    many = sys.getrefcount(ANSWER['many'])
    res, exc = None, None
    def call():
        try: return PyArcWelder.ConvertFile(*given), None
        except BaseException as x:
            return None, (type(x).__name__, isinstance(x, Exception), str(x))
    gc.disable()
    (res, exc), printed = captured(call)
    for n in ('last_exc', 'last_type', 'last_value', 'last_traceback'):      # an exception that was printed is kept by the interpreter
        if hasattr(sys, n): delattr(sys, n)
    leaks = []
    after = {k: sys.getrefcount(v) for k, v in (args or {}).items()}
    leaks += [k for k in before if before[k] != after[k]]
    if sys.getrefcount(ANSWER['many']) != many: leaks.append('answer')
    if args is not None and sys.getrefcount(args) != nargs: leaks.append('args')
    # an object that only one list holds has as many references as this one
    fresh = [[{}], [''.join(['x', 'y'])]]
    held = {'a': fresh[1].pop()}; base = sys.getrefcount(fresh[0][0]); basev = sys.getrefcount(held['a'])
    for i in range(len(reports)):
        if sys.getrefcount(reports[i]) != base: leaks.append('report')
        if isinstance(reports[i], dict):
            for k in ('guid', 'segment_statistics_text', 'segment_travel_statistics_text'):
                if k in reports[i] and len(reports[i][k]) > 1 and sys.getrefcount(reports[i][k]) > basev: leaks.append('report ' + k)
    if exc is not None: EV.append(dict(e='raise', type=exc[0], exception=exc[1], t=exc[2]))
    else:
        r = {str(k): [type(v).__name__, copied(v) if isinstance(v, str) else repr(v)] for k, v in res.items() if k != 'progress'} if isinstance(res, dict) else dict(type=type(res).__name__)
        EV.append(dict(e='return', r=r, p=plain(res.get('progress')) if isinstance(res, dict) else {}))
        if isinstance(res, dict):
            if sys.getrefcount(res) > sys.getrefcount(fresh): leaks.append('result')
            if isinstance(res.get('progress'), dict):
                if sys.getrefcount(res['progress']) > base: leaks.append('progress')
                for k in ('guid', 'segment_statistics_text', 'segment_travel_statistics_text'):
                    if k in res['progress'] and len(res['progress'][k]) > 1 and sys.getrefcount(res['progress'][k]) > basev: leaks.append('progress ' + k)
    record[-1].update(events=list(EV), printed=printed, leaks=leaks)
for c in S['calls']:
    for p, t in c.get('files', {}).items(): open(p, 'wb').write(t.encode('latin1'))
    for p, n in c.get('sparse', {}).items():
        with open(p, 'wb') as f: f.write(b'G28\n'); f.truncate(n)
    def look():
        r = {}
        for b, ds, fs in os.walk(S['dir']):
            for f in fs:
                q = os.path.join(b, f)
                r[os.path.relpath(q, S['dir'])] = 'large %d' % os.path.getsize(q) if os.path.getsize(q) > 10 ** 8 else __import__('hashlib').sha1(open(q, 'rb').read()).hexdigest()[:16]
        return r
    record.append(dict(events=[], died=True, before=look()))
    save()
    one(c)
    record[-1].update(died=False, after=look())
    save()
