"""S05: what the real straightener says and does about firmwares, versions and settings, against spec/SettingsTrace.tla"""
import copy, json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vf, gcode, gen_arc, straighttrace as st

TYPES = {'MARLIN_1': ['1.1.9.1'], 'MARLIN_2': ['2.0.9.1', '2.0.9.2'], 'REPETIER': ['1.0.4', '1.0.5'], 'PRUSA': ['3.10.0', '3.11.0'], 'SMOOTHIEWARE': ['2021-06-19']}
SHORT = {'firmware-type': 'f', 'firmware-version': 'v', 'g90-g91-influences-extruder': 'g'}
SHORT.update({l: k for k, l in gen_arc.OPT.values()})
COUNTS = {'min-arc-segments', 'min-circle-segments', 'n-arc-correction'}
VALUES = {gen_arc.OPT[k][1]: v for k, v in gen_arc.VALUES.items()}
VALUES['arc-segments-per-r'] = [1, 2, 5, 20]
VALUES['mm-max-arc-error'] = [0, .01, .05, .2]
VALUES['n-arc-correction'] = [0, 1, 2, 3, 5, 25, 60]
BADVER = ['', 'latest', 'LATEST', 'latest_release', '2.0.9', '2.0.9.1 ', '1.0', '9', '1.1.9.1.', '3.10', '2.0.9.3']

def num(name, v): return int(v) if name in COUNTS else int(round(v * 1e5))

# probe arcs: start to centre, start to end, direction, feedrate
PROBES = [(1, 0, 0, 0, -1, 1200), (0, 5, 0, 0, 1, 3000), (20, 0, 20, 20, -1, 6000), (-3, 0, -6, 0, 1, 9000)]
def probe_file():
    L, x, y = ['M82', 'G90', 'M83', 'G90', 'G1 X100 Y100 Z.4 F3000'], 100, 100
    for n, (i, j, dx, dy, d, f) in enumerate(PROBES):
        L += [';probe %d' % n, 'G90', 'G92 E0', 'G1 F%d' % f, 'G%d X%g Y%g I%g J%g E1.5' % (2 if d < 0 else 3, x + dx, y + dy, i, j), ';end']
        x, y = x + dx, y + dy
    return '\n'.join(L + ['M84']) + '\n'

def probes_of(out):
    L, res, x, y = out.split('\n'), [], 100, 100
    for n, (i, j, dx, dy, d, f) in enumerate(PROBES):
        a = L.index(';probe %d' % n); b = L.index(';end', a)
        mv = [gcode.tokenize(l) for l in L[a + 4:b]]
        es = [m['p'].get('E', 0) for m in mv]
        cx, cy = round((x + i) * 1e5), round((y + j) * 1e5)
        px, py, pts = round(x * 1e5), round(y * 1e5), []
        for m in mv:
            px, py = m['p'].get('X', px), m['p'].get('Y', py); pts.append([px - cx, py - cy])
        res.append(dict(i=i * 100000, j=j * 100000, x=dx * 100000, y=dy * 100000, dir=d, closed=dx == 0 and dy == 0, f=f * 1000, pts=pts[:-1],
                        e=150000, elast=es[-1] if es else 0, esum=sum(es)))
        x, y = x + dx, y + dy
    return res

def shown(lines, sep, prefix):
    """name/value pairs of a header or of the console"""
    r = dict(type='', ver='', latest=False, set={})
    for l in lines:
        if not l.startswith(prefix) or sep not in l: continue
        k, v = l[len(prefix):].split(sep, 1); k = k.strip().lower().replace('_', '-').replace(' ', '-'); v = v.strip()
        if k == 'firmware-type': r['type'] = v
        elif k == 'firmware-version':
            r['latest'] = v.endswith(' (LATEST_RELEASE)'); r['ver'] = v.replace(' (LATEST_RELEASE)', '')
        elif k in SHORT:
            n = {'True': 1, 'False': 0}.get(v)
            if n is None:
                try: n = int(v) if k in COUNTS else int(round(float(v) * 100))
                except ValueError: n = -999999
            r['set'][k] = n
    return r

def args_of(q):
    a = []
    n = q['form']
    for k, v in ([('firmware-type', q['type'])] if q['type'] else []) + ([('firmware-version', q['ver'])] if q['ver'] or q['emptyver'] else []) \
              + ([('g90-g91-influences-extruder', q['g90'])] if q['g90'] else []) + [(k, '%g' % v) for k, v in q['nums'].items()]:
        a.append(('-%s=%s' % (SHORT[k], v)) if n % 2 else '--%s=%s' % (k, v)); n = n // 2 if n > 1 else q['form']
    if q['print']: a.append('-p' if q['form'] % 2 else '--print-firmware-defaults')
    random.Random(q['form']).shuffle(a)
    return a + q['extra']

def request(**k):
    q = dict(type='', ver='', emptyver=False, g90='', nums={}, print=False, extra=[], form=1, wrong=False); q.update(k)
    return q

def requests(seed, count):
    r = random.Random('S05/%d' % seed)
    Q = []
    vers = [('', ''), ('', 'LATEST_RELEASE'), ('', '2.0.9.2')] + [(t, v) for t in TYPES for v in TYPES[t] + ['', 'LATEST_RELEASE']]
    for t, v in vers:
        Q.append(request(type=t, ver=v, print=True, form=r.randrange(1, 64)))
        Q.append(request(type=t, ver=v, form=r.randrange(1, 64)))
        for g in ('TRUE', 'FALSE', 'DEFAULT'): Q.append(request(type=t, ver=v, g90=g, form=r.randrange(1, 64)))
        for k in VALUES: Q.append(request(type=t, ver=v, nums={k: r.choice(VALUES[k])}, form=r.randrange(1, 64)))
    for t in TYPES:
        near = {v[:n] for v in TYPES[t] + ['LATEST_RELEASE'] for n in range(len(v))} | {v[n:] for v in TYPES[t] for n in range(1, len(v))} \
             | {v + x for v in TYPES[t] + ['LATEST_RELEASE'] for x in ('0', '.', ' ', 'x')} | {v.swapcase() for v in TYPES[t] + ['LATEST_RELEASE']}
        near = sorted(near - set(TYPES[t]) - {'LATEST_RELEASE'})
        for v in r.sample(BADVER, 3) + r.sample(near, min(len(near), 40 if vf.THOROUGH else 16)) + [v[:-1] for v in TYPES[t]] + [v[:v.rfind('.')] for v in TYPES[t] if '.' in v] + [w for u in TYPES if u != t for w in TYPES[u]]:
            Q.append(request(type=t, ver=v, emptyver=v == '', wrong=v == '', print=r.random() < .4, form=r.randrange(1, 64)))
    for t in ('MARLIN', 'marlin_2', 'MARLIN_3', 'Prusa', 'SMOOTHIE'): Q.append(request(type=t, print=r.random() < .5))
    for g in ('true', 'YES', '1', 'default'): Q.append(request(g90=g))
    for x in (['-m=1'], ['foo.gcode'], ['-p'], ['--g90-g91-influences-extruder=TRUE']): Q.append(request(print=True, extra=x, wrong=True))
    while len(Q) < count:
        t, v = r.choice(vers)
        m = used(t, v)
        nums = {k: r.choice(VALUES[k]) for k in m if r.random() < .6}
        if r.random() < .1: nums[r.choice(list(VALUES))] = 1
        if nums.get('min-arc-segment-mm', .1) > nums.get('max-arc-segment-mm', 1): nums['min-arc-segment-mm'] = .05
        if nums.get('min-mm-per-arc-segment', 0) > nums.get('mm-per-arc-segment', 1): nums['min-mm-per-arc-segment'] = .1
        if t in ('', 'MARLIN_2') and nums.get('arc-segments-per-r') and nums['arc-segments-per-r'] < nums.get('mm-per-arc-segment', 1):
            nums['arc-segments-per-r'] = nums.get('mm-per-arc-segment', 1) * 2
        Q.append(request(type=t, ver=v, g90=r.choice(['', '', 'TRUE', 'FALSE', 'DEFAULT']), nums=nums, form=r.randrange(1, 4096)))
    return Q
def used(t, v):                       # only for the choice of inputs
    for m, (ft, vs) in gen_arc.FW.items():
        if ft == (t or 'MARLIN_2') and (v or 'LATEST_RELEASE') in vs: return [gen_arc.OPT[k][1] for k in gen_arc.USED[m]]
    return []

def record(binary, q, n):
    d = os.path.join(vf.scratch(), 'f'); os.makedirs(d, exist_ok=True)
    s, t = os.path.join(d, 'c%d.gcode' % n), os.path.join(d, 'c%d.out' % n)
    a = args_of(q)
    if not q['print']: open(s, 'w', newline='').write(probe_file()); a = a + [s, t]
    r = subprocess.run([binary] + a, capture_output=True, text=True, errors='replace', timeout=60, cwd=d)
    out = open(t, newline='', errors='surrogateescape').read() if os.path.exists(t) else None
    for f in (s, t):
        if os.path.exists(f): os.remove(f)
    c = dict(q=dict(type=q['type'], ver=q['ver'], g90=q['g90'], set={k: num(k, v) for k, v in q['nums'].items()}), wrong=q['wrong'], print=q['print'],
             exit=r.returncode, said='ERROR' in r.stderr + r.stdout, target=out is not None, avail=[], unavail=[], head=shown([], '=', '; '), probes=[])
    if out is None and not q['print']: c['said'] = c['said'] and 'Running' not in r.stdout
    L = [x for x in r.stdout.split('\n')]
    c['shown'] = shown(L, ':', '\t')
    for x in L:
        for key, to in (('Available argument for firmware: ', 'avail'), ('The following parameters do not apply to this firmware version: ', 'unavail')):
            if x.startswith(key): c[to] = [y.strip().lstrip('-') for y in x[len(key):].split(',')]
    if out is not None:
        body, head = st.strip_header(out.split('\n'))
        if head: c['head'] = shown(head, '=', '; ')
        try: c['probes'] = probes_of('\n'.join(body))
        except ValueError: c['probes'] = []; c['exit'] = c['exit'] or 99
    return c, dict(args=a, out=(out or '')[:3000], log=r.stdout[-3000:] + r.stderr[-1500:])

def check(prop):
    binary = vf.build('straightener')
    qs = requests(vf.SEED, 6000 if vf.THOROUGH else 700)
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: record(binary, x[1], x[0]), enumerate(qs)))
    cases = [c for c, _ in recs]
    cfg = vf.cfg_text(['OK'])
    res = vf.tlc('SettingsTrace', cfg, cases, deadlock=False)
    if not res.ok:
        k = int(res.var('c')) - 1
        c2, info = record(binary, qs[k], 'again' and 999999)
        r2 = vf.tlc('SettingsTrace', cfg, [c2], workers=1, deadlock=False)
        if r2.violated:
            vf.violation(prop, 'the answer is not the one SettingsTrace allows: %s' % (r2.var('errs') or ''),
                         dict(kind='settings', request=qs[k], errs=r2.var('errs'), **info))
        if res.violated: vf.violation(prop, 'the answer is not the one SettingsTrace allows (not on every run): %s' % (res.var('errs') or ''), dict(recs[k][1], kind='settings', request=qs[k], errs=res.var('errs')))
        raise vf.CheckError('no answer about a run')
    # corrupted records have to be rejected
    good = [c for c in cases if c['exit'] == 0 and not c['print'] and c['probes']]
    shows = [c for c in cases if c['exit'] == 0 and c['print']]
    bad = []
    b = copy.deepcopy(good[0]); b['head']['set']['n-arc-correction'] += 1; bad.append(b)
    b = copy.deepcopy(good[0]); b['probes'][1]['pts'] = b['probes'][1]['pts'][:len(b['probes'][1]['pts']) // 2]; bad.append(b)
    b = copy.deepcopy(shows[0]); b['avail'] = b['avail'][1:]; bad.append(b)
    b = copy.deepcopy(shows[0]); b['shown']['latest'] = not b['shown']['latest']; bad.append(b)
    b = copy.deepcopy(next(c for c in cases if c['exit'] != 0 and not c['print'])); b.update(exit=0, target=True); bad.append(b)
    b = copy.deepcopy(next(c for c in good if c['q']['type'] == 'MARLIN_1' and not c['q']['set']))
    b['q']['set'] = {'n-arc-correction': 7}; b['head']['set']['n-arc-correction'] = b['shown']['set']['n-arc-correction'] = 7; bad.append(b)
    for b in bad:
        if not vf.tlc('SettingsTrace', cfg, [b], workers=1, heap='1g', deadlock=False).violated: raise vf.CheckError('a corrupted record was accepted')
    acc = sum(c['exit'] == 0 for c in cases)
    vf.evidence(prop, 'model_checking', dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(cases),
        requests_accepted=acc, requests_rejected=len(cases) - acc, probe_arcs=sum(len(c['probes']) for c in cases), corrupted_records_rejected=len(bad),
        matrix='every type and version (also by default and as LATEST_RELEASE) with every setting, printed and used',
        samples=[dict(args=i['args'][:-2] if not c['print'] else i['args'], exit=c['exit'], shown=c['shown']) for c, i in recs[5:200:60]]),
        ['values of at most two decimals, which is how they are shown', 'the effect of a setting is seen on four probe arcs'])
    return 0
