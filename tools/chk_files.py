"""F01, F02 (and half of S06): what the real programs do to files, operation by operation, under faults, kills and interleavings,
against spec/FilesTrace.tla and spec/Interleave.tla"""
import copy, errno, json, math, os, random, re, select, shutil, signal, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import vf

NAME = {'F01': 'welder', 'S06': 'straightener'}
ARGS = {'welder': ['-p=NONE'], 'straightener': []}
SAID = re.compile(r'unable|fail|error|does not exist|invalid', re.I)

def source(kind, salt=0):
    r = random.Random('files/%d/%s/%d' % (vf.SEED, kind, salt))
    n = dict(small=12, medium=700, bare=25, big=2500, empty=0)[kind]
    L = ['; %s %d' % (kind, salt), 'G90', 'M83', 'G28', 'G1 X60 Y50 Z0.2 F3000'] if n else []
    a, x = 0, r.random()
    while len(L) < n:
        a += .2
        if r.random() < .1: L.append('G1 X%.3f Y%.3f E0.5' % (r.uniform(0, 200), r.uniform(0, 200)))
        elif r.random() < .05: L.append('G2 X%.3f Y%.3f I5 J0 E.3' % (r.uniform(0, 200), r.uniform(0, 200)))
        else: L.append('G1 X%.3f Y%.3f E0.1' % (50 + 10 * math.cos(a), 50 + 10 * math.sin(a)))
    return ('\n'.join(L) + ('' if kind == 'bare' or not n else '\n')).encode()

# ways to name the target: (source argument, target argument, further names: name -> how)
LAYOUTS = {
    'omitted': ('a.gcode', None, {}), 'same': ('a.gcode', 'a.gcode', {}), 'dot': ('a.gcode', './a.gcode', {}),
    'absolute': ('a.gcode', '@/a.gcode', {}), 'parent': ('sub/../a.gcode', 'a.gcode', {}), 'subdir': ('sub/c.gcode', 'sub/../sub/c.gcode', {}),
    'symlink': ('a.gcode', 'b.gcode', {'b.gcode': ('link', 'a.gcode')}), 'source-link': ('b.gcode', 'a.gcode', {'b.gcode': ('link', 'a.gcode')}),
    'link-itself': ('b.gcode', None, {'b.gcode': ('link', 'a.gcode')}), 'hardlink': ('a.gcode', 'b.gcode', {'b.gcode': ('hard', 'a.gcode')}),
    'dirlink': ('a.gcode', 'here/a.gcode', {}), 'slashes': ('sub//c.gcode', None, {}), 'blank': ('my file (1).g', None, {}), 'backslash': ('a\\b.gcode', 'a\\b.gcode', {}), 'plain': ('.noext', None, {}), 'deep': ('@/sub/../sub/./c.gcode', None, {}),
    'link-link': ('b.gcode', 'd.gcode', {'b.gcode': ('link', 'a.gcode'), 'd.gcode': ('link', 'b.gcode')}),
    'new': ('a.gcode', 'out.gcode', {}), 'over': ('a.gcode', 'out.gcode', {'out.gcode': ('file', b'G1 X1\nM84\n')}),
}
SEPARATE = ('new', 'over')

class Dir:
    """a scratch directory in which runs take place"""
    n = 0
    lock = threading.Lock()
    def __init__(self):
        with Dir.lock: Dir.n += 1; k = Dir.n
        self.d = os.path.realpath(os.path.join(vf.scratch(), 'd%d' % k))
        os.makedirs(self.d + '/w/sub'); os.symlink('.', self.d + '/w/here')
        self.w = self.d + '/w'
    def put(self, name, data): open(os.path.join(self.w, name), 'wb').write(data)
    def add(self, name, how):
        p = os.path.join(self.w, name)
        if how[0] == 'link': os.symlink(how[1], p)
        elif how[0] == 'hard': os.link(os.path.join(self.w, how[1]), p)
        else: self.put(name, how[1])
    def canon(self, p):
        if not p: return ''
        q = os.path.join(self.w, p)
        q = os.path.join(os.path.realpath(os.path.dirname(q)), os.path.basename(q))
        return os.path.relpath(q, self.w) if q.startswith(self.w + '/') else q
    def listing(self):
        """name -> ('link', to) or ('file', inode, content)"""
        r = {}
        for base, ds, fs in os.walk(self.w):
            for f in fs:
                p = os.path.join(base, f); n = os.path.relpath(p, self.w)
                if os.path.islink(p): r[n] = ('link', self.canon(os.path.join(os.path.dirname(n), os.readlink(p))))
                else: r[n] = ('file', os.stat(p).st_ino, open(p, 'rb').read())
        return r
    def model(self, tags):
        """the directory in the form of the specification; tags: content -> tag"""
        names, order, ts = {}, [], []
        for n, x in sorted(self.listing().items()):
            if x[0] == 'link': names[n] = dict(t='link', ino=0, to=x[1]); continue
            if x[1] not in order: order.append(x[1]); ts.append(tags[x[2]])
            names[n] = dict(t='file', ino=order.index(x[1]) + 1, to='')
        return names, ts
    def final(self, contents):
        r = {}
        for n, x in self.listing().items():
            r[n] = ['link'] if x[0] == 'link' else [t for t, b in contents.items() if b == x[2]] or ['partial']
        return r
    def remove(self): shutil.rmtree(self.d, ignore_errors=True)

def argv(prog, d, src, tgt, extra=()):
    return [vf.build(prog)] + ARGS[prog] + list(extra) + [x.replace('@', d.w) for x in (src, tgt) if x]

def env_for(d, p, **k):
    e = dict(os.environ, LD_PRELOAD=vf.build_so('fileops'), VFIO_LOG=d.d + '/log.' + p)
    e.update({a: v for a, v in k.items() if v})
    return e
def ops_of(d, p):
    r = []
    try: L = open(d.d + '/log.' + p, errors='replace').read().split('\n')
    except FileNotFoundError: L = []
    for l in L:
        f = l.split('\t')
        if len(f) != 9: continue
        r.append(dict(p=p, op=f[1], id=int(f[2]), a=d.canon(f[3]), b=d.canon(f[4]) if f[1] != 'truncate' else '', flags=f[5], rc=int(f[6]), size=int(f[4]) if f[1] == 'truncate' else int(f[8]), k=int(f[0])))
        if f[1] == 'symlink': r[-1]['a'] = d.canon(os.path.join(os.path.dirname(f[4]), f[3]))
    return r
def ending(p, rc, text):
    return dict(p=p, op='exit' if rc >= 0 else 'killed', id=0, a='', b='', flags='', rc=abs(rc), size=0, said=bool(SAID.search(text)), started=True, k=0)

PROP = None      # the property being decided
def product(prog, data, extra=()):
    """what a run of the program makes of a file, alone and in peace"""
    d = Dir()
    d.put('x.gcode', data)
    r = subprocess.run(argv(prog, d, 'x.gcode', 'y.gcode', extra), cwd=d.w, capture_output=True, timeout=60)
    if r.returncode:
        again = subprocess.run(argv(prog, d, 'x.gcode', 'y.gcode', extra), cwd=d.w, capture_output=True, timeout=60)
        if again.returncode: vf.violation(PROP, '%s alone and in peace fails on a plain file' % prog, dict(kind='plain', program=prog, source=data.decode('utf-8', 'replace'), exit=again.returncode, said=again.stdout[-500:].decode('utf-8', 'replace')))
        r = again
    out = open(d.w + '/y.gcode', 'rb').read(); d.remove()
    return out

def solo(prog, layout, kind, fault='', kill=''):
    """one run: the case for the specification"""
    src, tgt, more = LAYOUTS[layout]
    d = Dir()
    try:
        data = source(kind); res = PRODUCTS[prog, kind]
        d.put('a.gcode' if src in ('a.gcode', 'b.gcode') else d.canon(src.replace('@', d.w)), data)
        for n, how in more.items(): d.add(n, how)
        contents = {'O1': data, 'P(O1)': res}
        if layout == 'over': contents['O2'] = more['out.gcode'][1]
        names, tags = d.model({v: k for k, v in reversed(list(contents.items()))})
        r = subprocess.run(argv(prog, d, src, tgt), cwd=d.w, env=env_for(d, 'P', VFIO_FAULT=fault, VFIO_KILL=kill), capture_output=True, text=True, timeout=60, errors='replace')
        ev = ops_of(d, 'P') + [ending('P', r.returncode, r.stdout + r.stderr)]
        s, t = d.canon(src.replace('@', d.w)), d.canon((tgt or src).replace('@', d.w))
        keep = {n: ['O1'] if layout in SEPARATE else ['O1', 'P(O1)'] for n in names if not (layout == 'over' and n == 'out.gcode')}
        return dict(names=names, tags=tags, lens={k: len(v) for k, v in contents.items()}, runs={'P': dict(source=s, target=t, inplace=layout not in SEPARATE)},
                    events=ev, keep=keep, results={'P': ['P(O1)']}, before=['O1'], final=d.final(contents)), \
               dict(program=prog, layout=layout, source=kind, fault=fault, kill=kill, exit=r.returncode, log=(r.stdout + r.stderr)[-1500:])
    finally: d.remove()

PRODUCTS = {}
ERR = {'open': (errno.EACCES, errno.EMFILE), 'create': (errno.EACCES, errno.ENOSPC), 'read': (errno.EIO,), 'write': (errno.ENOSPC, errno.EIO), 'close': (errno.EIO, errno.ENOSPC),
       'rename': (errno.EACCES, errno.EIO), 'unlink': (errno.EACCES,), 'link': (errno.EPERM,), 'symlink': (errno.EPERM,), 'truncate': (errno.EIO,)}
def kind_of(e): return 'create' if e['op'] == 'open' and e['flags'] != 'r' else e['op']

def solo_jobs(prog, layouts, kinds, deep):
    jobs = []
    for kind in kinds:
        PRODUCTS[prog, kind] = product(prog, source(kind))
        for lay in layouts:
            c, _ = solo(prog, lay, kind)
            ops = [e for e in c['events'] if e['op'] not in ('exit', 'killed')]
            jobs.append((prog, lay, kind, '', ''))
            for e in ops:
                k = e['k']
                for er in ERR[kind_of(e)]:
                    jobs += [(prog, lay, kind, '%d:%d:%s' % (k, er, m), '') for m in ('once', 'sticky')]
                if e['op'] == 'write': jobs += [(prog, lay, kind, '%d:0:short' % k, ''), (prog, lay, kind, '', '%d:half' % k)]
                if e['op'] in ('write', 'read'): jobs.append((prog, lay, kind, '%d:%d:once' % (k, errno.EINTR), ''))
                jobs.append((prog, lay, kind, '', '%d' % k))
            jobs.append((prog, lay, kind, '', '%d' % (len(ops) + 1)))
    if deep:                                        # a second fault or a kill on the way out of the first
        lay, kind = layouts[0], kinds[0]
        c, _ = solo(prog, lay, kind)
        for e in [e for e in c['events'] if e['op'] not in ('exit', 'killed')]:
            f = '%d:%d:once' % (e['k'], ERR[kind_of(e)][0])
            c2, _ = solo(prog, lay, kind, f)
            for g in c2['events']:
                if g['op'] in ('exit', 'killed') or g['k'] <= e['k']: continue
                jobs.append((prog, lay, kind, '%s,%d:%d:once' % (f, g['k'], ERR[kind_of(g)][0]), ''))
                jobs.append((prog, lay, kind, f, '%d' % g['k']))
    return jobs

def judge(prop, cases, rerun, what):
    """the cases against FilesTrace; a rejected one is run again before it is reported, so that the report shows a run that can be repeated where there is one"""
    cfg = vf.cfg_text(['OK'])
    res = vf.tlc('FilesTrace', cfg, cases, deadlock=False)
    if not res.ok:
        k = int(res.var('c')) - 1
        again = [rerun(k) for _ in range(3)]
        for c2, info in again:
            r2 = vf.tlc('FilesTrace', cfg, [c2], workers=1, deadlock=False, heap='1g')
            if r2.violated:
                vf.violation(prop, '%s: %s' % (what(info), r2.var('errs')), dict(kind='files', errs=r2.var('errs'), case=c2, **info))
        # what happened depends on something random in the code (the name of a temporary file, say): the recorded
        # history is the evidence then
        vf.violation(prop, '%s: %s (not on every run)' % (what(info), res.var('errs')), dict(kind='files', errs=res.var('errs'), case=cases[k], **info))
    return res

def canaries(cases):
    """records that would come from programs with well known mistakes"""
    good = next(c for c in cases if c['runs']['P']['inplace'] and c['events'][-1]['op'] == 'exit' and c['events'][-1]['rc'] == 0 and any(e['op'] == 'rename' for e in c['events'])
                and len([e for e in c['events'] if e['op'] == 'write']) > 0)
    bad = []
    i = next(n for n, e in enumerate(good['events']) if e['op'] == 'rename')
    b = copy.deepcopy(good); e = copy.deepcopy(b['events'][i]); e.update(op='unlink', a=e['b'], b=''); b['events'].insert(i, e); bad.append(b)     # removed before the rename
    b = copy.deepcopy(good); w = [n for n, e in enumerate(b['events']) if e['op'] == 'write'][-1]
    b['events'].insert(w, b['events'].pop(i)); bad.append(b)                                                                                           # renamed before the last write
    b = copy.deepcopy(good); b['events'][-1].update(rc=1, said=True); bad.append(b)                                                                  # success called a failure
    b = copy.deepcopy(good); b['events'].pop(i); b['events'][-1].update(rc=1, said=True); b['final'] = {}; bad.append(b)                            # left behind
    fail = next((c for c in cases if c['events'][-1]['op'] == 'exit' and c['events'][-1]['rc'] > 0), None)
    if fail:
        b = copy.deepcopy(fail); b['events'][-1]['rc'] = 0; bad.append(b)
        b = copy.deepcopy(fail); b['events'][-1]['said'] = False; bad.append(b)
    cfg = vf.cfg_text(['OK'])
    for n, b in enumerate(bad):
        if not vf.tlc('FilesTrace', cfg, [b], workers=1, heap='1g', deadlock=False).violated: raise vf.CheckError('a wrong record was accepted (%d)' % n)
    return len(bad)

def run_solo(prop, prog):
    global PROP; PROP = prop
    layouts = list(LAYOUTS)
    jobs = solo_jobs(prog, layouts, ['small', 'medium'] if not vf.THOROUGH else ['small', 'medium', 'bare', 'big', 'empty'], True)
    if vf.THOROUGH:
        for lay in ('symlink', 'hardlink', 'new'): jobs += [j for j in solo_jobs(prog, [lay], ['medium'], True)]
    jobs = list(dict.fromkeys(jobs))
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda j: solo(*j), jobs))
    res = judge(prop, [c for c, _ in recs], lambda k: solo(*jobs[k]), lambda i: 'welding' * (prog == 'welder') + 'straightening' * (prog != 'welder') +
                ' (%s, %s) with fault [%s] kill [%s]' % (i['layout'], i['source'], i['fault'], i['kill']))
    nb = canaries([c for c, _ in recs])
    ends = dict(success=0, failure=0, killed=0)
    for c, _ in recs: ends['killed' if c['events'][-1]['op'] == 'killed' else 'success' if c['events'][-1]['rc'] == 0 else 'failure'] += 1
    if min(ends.values()) < 20: raise vf.CheckError('too few runs of a kind: %s' % ends)
    return res, recs, nb, ends

def check01(prop):
    res, recs, nb, ends = run_solo(prop, 'welder')
    vf.evidence(prop, 'model_checking', dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(recs), runs=ends, corrupted_records_rejected=nb,
        layouts=sorted(LAYOUTS), operations=sum(len(c['events']) for c, _ in recs), samples=[i for _, i in recs[5:400:130]]),
        ['a kill is of the process; what a loss of power does to data not yet on the disk is not modelled', 'stat does not fail', 'the operations are those of the C library'])
    return 0

# ------------------------------- two runs at once -------------------------------
# (program, source, target, ...) for runs A and B; files: name -> source kind or link
PAIRS = {
    'weld, weld: two files': (('welder', 'a.gcode', None), ('welder', 'b.gcode', None), {'a.gcode': ('small', 1), 'b.gcode': ('small', 2)}),
    'weld, straighten: two files': (('welder', 'a.gcode', None), ('straightener', 'b.gcode', 'b.gcode'), {'a.gcode': ('medium', 1), 'b.gcode': ('small', 2)}),
    'straighten, straighten: two files': (('straightener', 'a.gcode', './a.gcode'), ('straightener', 'b.gcode', None), {'a.gcode': ('small', 1), 'b.gcode': ('medium', 2)}),
    'weld, weld: one file': (('welder', 'a.gcode', None), ('welder', 'a.gcode', 'a.gcode'), {'a.gcode': ('small', 1)}),
    'weld, straighten: one file': (('welder', 'a.gcode', None), ('straightener', 'a.gcode', None), {'a.gcode': ('medium', 1)}),
    'straighten, straighten: one file': (('straightener', 'a.gcode', None), ('straightener', './a.gcode', None), {'a.gcode': ('medium', 1)}),
    'weld, weld: one file by two names': (('welder', 'a.gcode', None), ('welder', 'b.gcode', 'a.gcode'), {'a.gcode': ('small', 1), 'b.gcode': ('link', 'a.gcode')}),
    'weld, weld elsewhere: one file': (('welder', 'a.gcode', None), ('welder', 'a.gcode', 'out.gcode'), {'a.gcode': ('small', 1)}),
}
def pair_base(name):
    """initial contents, all contents there can be, and what each run may leave"""
    A, B, files = PAIRS[name]
    contents, n, where = {}, 0, {}
    for f, h in files.items():
        if h[0] == 'link': where[f] = where[h[1]]; continue
        n += 1; contents['O%d' % n] = source(*h); where[f] = 'O%d' % n
    at = lambda x: where[os.path.normpath(x[1])]
    one = at(A) == at(B)
    prog = {'A': A[0], 'B': B[0]}
    tags = {}
    for p, x in (('A', A), ('B', B)): contents['%s(%s)' % (p, at(x))] = product(prog[p], contents[at(x)])
    if one:
        o = at(A)
        for p, q in (('A', 'B'), ('B', 'A')): contents['%s(%s(%s))' % (p, q, o)] = product(prog[p], contents['%s(%s)' % (q, o)])
    return dict(contents=contents, where=where, one=one)
def pair_case(name, base, d):
    A, B, files = PAIRS[name]
    for f, h in files.items(): d.add(f, h) if h[0] == 'link' else d.put(f, source(*h))
    names, tags = d.model({v: k for k, v in base['contents'].items() if k[0] == 'O'})
    runs, keep, results = {}, {}, {}
    for p, x in (('A', A), ('B', B)):
        runs[p] = dict(source=d.canon(x[1]), target=d.canon(x[2] or x[1]), inplace=x[2] != 'out.gcode')
        o = base['where'][os.path.normpath(x[1])]
        results[p] = ['%s(%s)' % (p, o)] + ([t for t in base['contents'] if t[0] != 'O'] if base['one'] else [])
    for f in names: keep[f] = [base['where'][f]] + [t for t in base['contents'] if t.rstrip(')').endswith('(' + base['where'][f])]
    return dict(names=names, tags=tags, lens={k: len(v) for k, v in base['contents'].items()}, runs=runs, keep=keep, results=results, before=sum(keep.values(), []))

def alone(name, base, p):
    """the operations of one of the two, recorded alone"""
    d = Dir()
    try:
        pair_case(name, base, d); x = PAIRS[name][p == 'B']
        r = subprocess.run(argv(x[0], d, x[1], x[2]), cwd=d.w, env=env_for(d, p), capture_output=True, timeout=60)
        if r.returncode: vf.violation(PROP, 'a run alone fails', dict(kind='alone', pair=name, run=p, exit=r.returncode, said=r.stdout[-500:].decode('utf-8', 'replace')))
        return ops_of(d, p)
    finally: d.remove()

def together(name, base, schedule):
    """both, in the order given: [(run, operations), ...]; afterwards each to its end"""
    d = Dir()
    try:
        case = pair_case(name, base, d)
        P = {}
        for p in 'AB':
            x = PAIRS[name][p == 'B']
            rq_r, rq_w = os.pipe(); ak_r, ak_w = os.pipe()
            out = open(d.d + '/out.' + p, 'wb')
            pr = subprocess.Popen(argv(x[0], d, x[1], x[2]), cwd=d.w, env=env_for(d, p, VFIO_GATE='%d,%d' % (rq_w, ak_r)), pass_fds=(rq_w, ak_r), stdout=out, stderr=out)
            os.close(rq_w); os.close(ak_r); out.close()
            P[p] = dict(pr=pr, rq=rq_r, ak=ak_w, live=True)
        order = []
        def wait(p):                                # until p asks again or ends
            s = select.select([P[p]['rq']], [], [], 30)[0]
            if not s: raise vf.CheckError('a gated run does not answer')
            if os.read(P[p]['rq'], 1) == b'':
                P[p]['live'] = False; P[p]['pr'].wait(); order.append((p, 0))
        for p in 'AB': wait(p)
        for p, n in schedule + [('A', 10**6), ('B', 10**6)]:
            while n > 0 and P[p]['live']:
                os.write(P[p]['ak'], b'g'); order.append((p, 1)); wait(p); n -= 1
        log = {p: ops_of(d, p) for p in 'AB'}
        ev, at, texts = [], {'A': 0, 'B': 0}, {}
        for p, what in order:
            if what:
                at[p] += 1
                ev += [e for e in log[p] if e['k'] == at[p]]
            else:
                texts[p] = open(d.d + '/out.' + p, errors='replace').read()
                ev.append(ending(p, P[p]['pr'].returncode, texts[p]))
        case.update(events=ev, final=d.final(base['contents']))
        own = {p: [(P[p]['pr'].pid, e['a']) for e in log[p] if e['op'] == 'open' and e['flags'] != 'r' and e['rc'] >= 0 and e['a'] != case['runs'][p]['target']] for p in 'AB'}
        return case, dict(own=own, pair=name, schedule=schedule, exits={p: P[p]['pr'].returncode for p in P}, log={p: texts[p][-600:] for p in texts})
    finally:
        for p in list(locals().get('P', {}).values()):
            if p['pr'].poll() is None: p['pr'].kill(); p['pr'].wait()
            os.close(p['rq']); os.close(p['ak'])
        d.remove()

def schedules(na, nb, count, r):
    S = [[('A', i), ('B', nb + 9)] for i in range(na + 1)] + [[('B', i), ('A', na + 9)] for i in range(1, nb + 1)]
    two = [[(p, i), (q, j), (p, 999)] for p, q, m, n in (('A', 'B', na, nb), ('B', 'A', nb, na)) for i in range(1, m) for j in range(1, n)]
    if len(two) <= count: S += two
    else: S += r.sample(two, count)
    for _ in range(count // 2):
        s, p = [], r.choice('AB')
        for _ in range(r.randrange(3, 12)): s.append((p, r.randrange(1, 5))); p = 'AB'[p == 'A']
        S.append(s)
    return S

def check02(prop):
    global PROP; PROP = prop
    r = random.Random('F02/%d' % vf.SEED)
    jobs, models, cover = [], [], {}
    for name in PAIRS:
        base = pair_base(name)
        progs = {p: alone(name, base, p) for p in 'AB'}
        d = Dir(); m = pair_case(name, base, d); d.remove()
        whole = {p: max([e['size'] for e in progs[p] if e['op'] == 'write'] or [0]) for p in 'AB'}
        for kills in (False, True): models.append(dict(m, progs=progs, whole=whole, kills=kills))
        S = schedules(len(progs['A']), len(progs['B']), 2000 if vf.THOROUGH else 50, r)
        cover[name] = dict(operations=[len(progs['A']), len(progs['B'])], schedules=len(S))
        jobs += [(name, base, s) for s in S]
    inv = ['Kept', 'Delivered', 'Clean']
    ri = vf.tlc('Interleave', vf.cfg_text(inv), models, deadlock=False)
    if ri.violated:
        k = int(re.findall(r'/\\ c = (\d+)', ri.out)[-1]) - 1; name = list(PAIRS)[k // 2]
        # show it on the real programs: the same order of operations
        seq, last = [], {'A': 0, 'B': 0}
        for s in re.findall(r'/\\ pos = \[A \|-> (\d+), B \|-> (\d+)\]', ri.out):
            for p, v in zip('AB', s):
                if int(v) > last[p]: seq.append((p, int(v) - last[p])); last[p] = int(v)
        vf.violation(prop, '%s: %s does not hold in an interleaving of the recorded operations' % (name, ri.invariant), dict(kind='interleaving', pair=name, invariant=ri.invariant, schedule=seq, state=ri.state()[:3000]))
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda j: together(*j), jobs))
    res = judge(prop, [c for c, _ in recs], lambda k: together(*jobs[k]), lambda i: '%s, schedule %s' % (i['pair'], i['schedule']))
    # names of temporary files that two processes happened to choose alike, they may choose at the same time
    def alike(m):
        m = copy.deepcopy(m)
        t = {p: next(e['a'] for e in m['progs'][p] if e['op'] == 'open' and e['flags'] != 'r') for p in 'AB'}
        for e in m['progs']['B']:
            for f in 'ab':
                if e[f] == t['B']: e[f] = t['A']
        return m
    for k, name in enumerate(PAIRS):
        seen = {}
        for (n, _, _), (_, i) in zip(jobs, recs):
            if n == name:
                for p in 'AB':
                    for pid, f in i['own'][p]: seen.setdefault(f, {'A': set(), 'B': set()})[p].add(pid)
        for f, w in seen.items():
            if w['A'] and w['B'] and w['A'] != w['B'] and vf.tlc('Interleave', vf.cfg_text(inv), [alike(models[2 * k])], workers=1, heap='1g', deadlock=False).violated:
                vf.violation(prop, '%s: two processes chose the same temporary file %s, and so disturb each other when they run at once' % (name, f),
                             dict(kind='temporary names', pair=name, file=f, processes={p: sorted(w[p]) for p in w}))
    # the models of well known mistakes have to be rejected
    bad = [alike(models[0])]
    m = copy.deepcopy(models[6])                    # the source removed before the rename
    for p in 'AB':
        i = next(n for n, e in enumerate(m['progs'][p]) if e['op'] == 'rename')
        e = dict(m['progs'][p][i]); e.update(op='unlink', a=e['b'], b=''); m['progs'][p].insert(i, e)
    bad.append(m)
    for b in bad:
        if not vf.tlc('Interleave', vf.cfg_text(inv), [b], workers=1, heap='1g', deadlock=False).violated: raise vf.CheckError('a wrong pair of programs was accepted')
    vf.evidence(prop, 'model_checking', dict(states=ri.distinct + res.distinct, transitions=ri.generated + res.generated, traces_validated_against_impl=len(recs),
        interleavings='every interleaving of the recorded operations of each pair, and every kill, in the model (%d states); the schedules below with the real programs' % ri.distinct,
        pairs=cover, corrupted_records_rejected=len(bad), samples=[i for _, i in recs[7:300:140]]),
        ['operations of the C library are the steps; each is atomic', 'a program is taken to do the same operations in another interleaving (which the real schedules confirm)'])
    return 0
