"""W14, W16, W17, W18: collection, header, statistics and cancellation of real welder runs"""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import vf, weldtrace as wt, gcode, gen_weld

LEVEL = 'model_checking'
def rejected(prop, spec, res, rec, again, cfg):
    """a rejected case is run and checked once more before it is reported"""
    new = again()
    if new is not None:
        r2 = vf.tlc(spec, cfg, [new], workers=1)
        if r2.violated:
            vf.violation(prop, 'the recorded run is not allowed by %s (%s)' % (spec, r2.invariant or 'stuck'),
                         dict(kind='weld', source=rec.get('text'), args=rec.get('args'), target=rec.get('out'), invariant=r2.invariant,
                              line=r2.var('i'), bad=r2.var('bad'), phase=r2.var('phase'), events=rec.get('events')))
    if res.violated:                                                                              # not on every run: the record is the evidence
        vf.violation(prop, 'the recorded run is not allowed by %s (%s; not on every run)' % (spec, res.invariant or 'stuck'),
                     dict(kind='weld', source=rec.get('text'), args=rec.get('args'), target=rec.get('out'), invariant=res.invariant, events=rec.get('events')))
    raise vf.CheckError('no answer about a run')

# ------------------------------------------------------------------ W14
W14 = [dict(name='w14', kinds=['arc']*6+['poly','curve'], noise=[0], t=[.05,.2,.01], r=[.02,.05,.1,.5], x=[3,4,5], three=.2, c=[0], pbreak=.03, pcont=.8,
            radii=[.8,2,5,12,30,100], seg=[.1,.2,.4,1,2], v=[0,0,.05,.2], cp=[0,0,.1]),
       dict(name='w14b', kinds=['arc'], noise=[0], t=[.05], r=[.05,.1], c=[0], pbreak=0, pcont=1, radii=[2,5,12,30], seg=[.2,.4,1], v=[0], xd=[3], shapes=8,
            modes=['extrude']*4+['travel','retract'], y=[0,1], psa=.3, m=[9999,100], three=0),
       dict(name='w14c', kinds=['arc','arc','poly','zigzag'], noise=[0], r=[.05,.1,.2], c=[0], radii=[2,5,12,30], seg=[.1,.2,.4], cp=[0,.5,1], xd=[3,4],
            events=['blank','blank','fan','g92e','retract','feed','hop','layer','m82','m83','comment'], pbreak=.08, three=.4, z=[1], pevent=.8)]
def corrupt14(case):
    """the first arc of at least four moves is recorded as copies, although the run is that of the unchanged welder"""
    c = json.loads(json.dumps(case))
    src = c['src']; at = 0
    for k, s in enumerate(c['steps']):
        if s['op'] == 'arc' and s['n'] >= 8 and all(c['hint'][at:at + s['n']]) and len(set(c['hint'][at:at + s['n']])) == 1:
            cut = s['n'] // 2
            out = dict(c['out'][s['o'] - 1]); c['out'].append(out)
            c['steps'][k:k + 1] = [dict(op='arc', o=s['o'], n=cut), dict(op='arc', o=len(c['out']), n=s['n'] - cut)]
            return c
        at += s['n']
    return None
def check14(prop):
    binary = vf.build('welder')
    per = (9000 if vf.THOROUGH else 1000) // len(W14)
    recs = []
    for p in W14: recs += wt.many(binary, vf.SEED, p, per)
    fails = [r for r in recs if 'case' not in r]; recs = [r for r in recs if 'case' in r]
    if fails and 'fail' in wt.produce(binary, fails[0]['text'], fails[0]['o'], 'again'):
        vf.violation(prop, 'the run failed: ' + fails[0]['fail'], dict(kind='weld', source=fails[0]['text'], args=fails[0]['args'], target=fails[0].get('out')))
    cfg = vf.cfg_text(['OK_W14'], init='CInit', next_='CNext', extra='VIEW Place\n')
    states = trans = 0
    for at in range(0, len(recs), 1500):
        part = recs[at:at + 1500]
        res = vf.tlc('CollectTrace', cfg, [r['case'] for r in part])
        states += res.distinct; trans += res.generated
        if not res.ok:
            r = part[int(res.var('c')) - 1]
            def again():
                n = wt.produce(binary, r['text'], r['o'], 'again')
                if 'case' not in n: return None
                return dict(n['case'], hint=r['case']['hint'], circ=r['case']['circ'])
            rejected(prop, 'CollectTrace', res, r, again, cfg)
    # an arc recorded as two must be rejected
    base = json.load(open(os.path.join(vf.VERIF, 'fixtures', 'collect.json')))
    if not vf.tlc('CollectTrace', cfg, [base], workers=1, heap='1g').ok: raise vf.CheckError('the specification rejects the fixture')
    if vf.tlc('CollectTrace', cfg, [corrupt14(base)], workers=1, heap='1g').invariant != 'OK_W14': raise vf.CheckError('a corrupted record was accepted')
    from chk_weld import counts
    k = counts(recs)
    vf.evidence(prop, LEVEL, dict(states=states, transitions=trans, traces_validated_against_impl=len(recs), traces_with_arcs=k['with_arc'], source_lines=k['lines'],
        arcs_checked=k['arcs'], lines_in_arcs=k['moves_in_arcs'], moves_on_known_circles=sum(1 for r in recs for h in r['case']['hint'] if h), corrupted_record_rejected=True,
        samples=[dict(args=recs[0]['args'], source=recs[0]['text'].split('\n')[:30], target=recs[0]['out'].split('\n')[12:40])]),
        ['a join is demanded only with a margin in every limit', 'programs keep to at most 5 decimals'])
    return 0

# ------------------------------------------------------------------ W16
FIRST = [';FLAVOR:UltiGCode', '; generated by PrusaSlicer 2.4.0+x64', '; generated by PrusaSlicer', ';FLAVOR:Marlin', '; generated by Slic3r', 'G28', '', ';FLAVOR:UltiGCode2',
         ' ;FLAVOR:UltiGCode', ';flavor:UltiGCode', '; Generated by PrusaSlicer', ';generated by PrusaSlicer 2', '; generated by PrusaSlicer on 2022 ; x', 'G1 X5 Y5 F600 ; generated by PrusaSlicer', ';FLAVOR:UltiGCode ', ' ; generated by PrusaSlicer 2', 'M117 x']
SECOND = ['M117 second line', 'G90', ';TIME:5', 'G1 X10 Y10 F1200 ; go', ';FLAVOR:UltiGCode', '; generated by PrusaSlicer 2']
def header_case(text, out, o):
    lines = wt.split(out); src = wt.split(text)
    heads = sum(l.startswith(wt.HEAD) for l in lines)
    body, head, at = wt.strip_header(lines)
    u = lambda v, s: int((gcode.Decimal(str(v)) * 10 ** s).to_integral_value())
    first = src[0]
    keep_at = 1 if at == 1 else 0
    ver = lines[at + 2] if at >= 0 and at + 2 < len(lines) else ''
    return dict(first=dict(text=first.rstrip('\r'), start26=first[:26], full=first), second=gcode.norm(src[keep_at]) if len(src) > keep_at else '',
                next=gcode.norm(lines[at + len(head)]) if at >= 0 and at + len(head) < len(lines) else '', heads=heads, out=lines[:24],
                version=re.match(r'^; Version: [^,]+, Branch: [^,]+, BuildDate: .+$', ver) is not None,
                o=dict(r=u(o.get('r', .05), 5), t=u(o.get('t', .05), 6 - 2 + 2) // 1, m=min(u(o.get('m', 9999), 5), 999900000), g=bool(o.get('g')), s=u(o.get('s', 0), 5), a=o.get('a', 0), z=bool(o.get('z')), y=bool(o.get('y')),
                       d=bool(o.get('d')), x=o.get('x', 3), e=o.get('e', 5), v=u(o.get('v', .05), 6)))
def check16(prop):
    binary = vf.build('welder')
    rng = random.Random(vf.SEED * 7 + 1)
    jobs = []
    n = 3000 if vf.THOROUGH else 600
    prof = dict(r=[.01, .02, .05, .1, .123, .5, 1.0, 2.5], t=[.001, .01, .05, .123, .2, .25, .999], m=[9999, 5, .5, 12.25, 1000, 9999.5, 20000], v=[0, .05, .01, .125, 1.0, 2.5, .0004],
                x=[3, 4, 5, 6], e=[3, 4, 5, 6], psa=.4, z=[0, 1], y=[0, 1], d=[0, 1], g=[0, 1], c=[0])
    for k in range(n):
        o = gen_weld.options(rng, prof)
        first = FIRST[k % len(FIRST)] if k < 8 * len(FIRST) else rng.choice(FIRST)
        body = [first] + [rng.choice(SECOND)] + ['G1 X%d Y%d E1 F600' % (rng.randint(0, 99), rng.randint(0, 99)) for _ in range(rng.choice([0, 1, 4]))]
        if first == '' : pass
        nl = '\r\n' if k % 5 == 4 else '\n'
        text = nl.join(body) + (nl if k % 3 else '')
        jobs.append((text, o))
    def go(k):
        text, o = jobs[k]
        a = gen_weld.args(o)
        out, log, rc = wt.run_welder(binary, text, a, 'h%d' % k)
        return dict(text=text, o=o, args=a, out=out or '', rc=rc, case=header_case(text, out or '', o))
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(go, range(len(jobs))))
    cfg = vf.cfg_text(['OK_W16'])
    res = vf.tlc('HeaderTrace', cfg, [r['case'] for r in recs], deadlock=False)
    if not res.ok:
        k = int(res.var('c')) - 1
        rejected(prop, 'HeaderTrace', res, recs[k], lambda: go(k)['case'], cfg)
    # canaries
    good = recs[0]['case']; bad = []
    for f in (lambda c: c['out'].__setitem__(1, c['out'][0]), lambda c: c['o'].__setitem__('x', c['o']['x'] % 6 + 1), lambda c: c.__setitem__('heads', 2), lambda c: c['first'].__setitem__('text', 'G28')):
        c = json.loads(json.dumps(good)); f(c); bad.append(c)
    for b in bad:
        if vf.tlc('HeaderTrace', cfg, [b], workers=1, deadlock=False, heap='1g').invariant != 'OK_W16': raise vf.CheckError('a corrupted record was accepted')
    vf.evidence(prop, LEVEL, dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(recs), first_lines=len(FIRST), corrupted_records_rejected=len(bad),
        samples=[dict(args=recs[0]['args'], head=recs[0]['case']['out'][:16])]), ['settings are stated with the decimals the header prints'])
    return 0

# ------------------------------------------------------------------ W17
STATS = dict(ex='ex', re='re', tr='tr', both='both')
def harness_args(o):
    return ['%s=%s' % (k, int(v) if isinstance(v, bool) else v) for k, v in o.items() if k in 'rtmxevsca' ] + ['%s=1' % k for k in 'zydg' if o.get(k)]
def big(v): return max(-2000000000, min(2000000000, v))
def report_of(j):
    r = {k: big(int(j[k])) for k in ('lines', 'gcodes', 'points', 'arcs', 'aborted', 'fw', 'len', 'pos', 'size', 'target')}
    def sc(v, m):
        v = float(v)
        return -1999999999 if v != v else big(int(round(v * m)) if abs(v) < 1e6 else (2000000000 if v > 0 else -2000000000))
    r['pct'], r['ratio'], r['cpct'] = sc(j['pct'], 1e4), sc(j['ratio'], 1e6), sc(j['cpct'], 1e4)
    r['st'] = {k: dict(cs=j[k]['cs'], ct=j[k]['ct'], ls=big(int(round(j[k]['ls'] * 1e5))), lt=big(int(round(j[k]['lt'] * 1e5))), s=j[k]['s'], t=j[k]['t']) for k in STATS}
    r['success'], r['cancelled'] = bool(j.get('success')), bool(j.get('cancelled'))
    return r
def loads(l): return json.loads(re.sub(r':(-?)(nan|inf)', r':"\1\2"', l))
def run_harness_weld(harness, text, o, name, extra=(), inplace=False):
    d = os.path.join(vf.scratch(), 'h' + name); os.makedirs(d, exist_ok=True)
    s = os.path.join(d, 'a.gcode'); t = s if inplace else os.path.join(d, 'b.gcode')
    open(s, 'w', newline='').write(text)
    r = subprocess.run([harness, 'weld', s, t] + harness_args(o) + list(extra), capture_output=True, text=True, errors='replace', timeout=120)
    src = open(s, newline='', errors='surrogateescape').read() if os.path.exists(s) else None
    out = open(t, newline='', errors='surrogateescape').read() if os.path.exists(t) else None
    others = [f for f in os.listdir(d) if f not in ('a.gcode', 'b.gcode')]
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    os.rmdir(d)
    ev = [loads(l) for l in r.stdout.split('\n') if l.startswith('{')]
    return dict(rc=r.returncode, events=ev, src=src, out=out, others=others, log=r.stderr)

ROW = re.compile(r'^\|.*?(\d+\.\d{3})mm\s+(\d+)\s+(\d+)\s*(-?\d+\.\d%|INF)\|$')
def tables(log):
    """the tables printed on the console: title -> record"""
    out = {}; cur = None
    for l in log.split('\n'):
        m = re.match(r'^\|\s*(Target File [\w/ ]+ Statistics)\s*\|$', l)
        if m: cur = out.setdefault(m.group(1), dict(rows=[], cs=-1, ct=-1, ls=-1, lt=-1, pct=-1)); continue
        if cur is None: continue
        m = ROW.match(l)
        p10 = lambda s: 999999999 if s == 'INF' else int(round(float(s[:-1]) * 10))
        if m: cur['rows'].append([int(m.group(2)), int(m.group(3)), p10(m.group(4))]); continue
        m = re.match(r'^\|\s*Total ([a-z ]+):\.*([-\d.INF]+)(mm|%)?\|$', l)
        if m:
            n, v = m.group(1), m.group(2)
            if n == 'distance': cur['ls'] = cur['lt'] = int(round(float(v) * 1e5))
            elif n == 'distance source': cur['ls'] = int(round(float(v) * 1e5))
            elif n == 'distance target': cur['lt'] = int(round(float(v) * 1e5))
            elif n == 'count source': cur['cs'] = int(v)
            elif n == 'count target': cur['ct'] = int(v)
            elif n == 'percent change': cur['pct'] = p10(v + '%') if v != 'INF' else 999999999
    return out
def one17(a):
    harness, binary, seed, prof, k, scratch, reps = a
    vf._scratch = scratch
    rng = random.Random('%s/%d/%d' % (prof['name'], seed, k))
    text, o, p = gen_weld.program(rng, prof)
    if reps:
        # a long source: the same program over and over; sometimes exactly a multiple of 1000 lines without a newline at the end
        lines = wt.split(text) * reps
        want = 1000 * (len(lines) // 1000)
        if k % 2 == 0 and want: lines = lines[:want - 1] + ['G1 X5 Y5 F1200']
        text = '\n'.join(lines) + ('\n' if k % 4 == 1 else '')
    return case17(harness, binary, text, o, 'k%s%d' % (prof['name'], k))
def case17(harness, binary, text, o, name):
    h = run_harness_weld(harness, text, o, name)
    if h['rc'] != 0 or h['out'] is None or not h['events']: return dict(fail='exit %d %s' % (h['rc'], h['log'][-300:]), text=text, o=o, out=h['out'], args=harness_args(o))
    a = gen_weld.args(o)
    d = os.path.join(vf.scratch(), 'c' + name); os.makedirs(d, exist_ok=True)
    s, t = os.path.join(d, 'a.gcode'), os.path.join(d, 'b.gcode')
    open(s, 'w', newline='').write(text)
    r = subprocess.run([binary] + a + ['-p=FULL', '-l=INFO', s, t], capture_output=True, text=True, errors='replace', timeout=120)
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    os.rmdir(d)
    tb = tables(r.stdout)
    case, cost = wt.case_of(text, h['out'], o)
    src, ol = wt.split(text), wt.split(h['out'])
    case['srcEnd'] = [0]
    for l in src: case['srcEnd'].append(case['srcEnd'][-1] + len(l) + 1)
    if case['srcEnd'][-1] > len(text): case['srcEnd'][-1] = len(text)
    body, head, at = wt.strip_header(ol)
    hb = sum(len(l) + 1 for l in head) if head else 0
    ends = []; n = 0
    for q, l in enumerate(body):
        n += len(l) + 1; ends.append(n + (hb if q + 1 > at - 0 or at == 0 or q >= at else 0))
    # bytes of the target after each step
    oe = [hb if at == 0 else 0]
    for st in case['steps']: oe.append(ends[st['o'] - 1] if st['o'] else oe[-1])
    if at == 1 and len(oe) > 1: oe[1] = ends[0] + hb if len(oe) > 1 else oe[1]; oe[1:] = [oe[1]] + [e if e > oe[1] else e for e in oe[2:]]
    case['outEnd'] = oe
    case['reports'] = [report_of(e) for e in h['events']]
    case['size'] = len(text)
    case['bl'] = [l.split(';')[0] != '' for l in src]
    m = re.findall(r'gcodes_processed: (\d+), current_file_line: (\d+), points_compressed: (\d+), arcs_created: (\d+)', r.stdout)
    case['fin'] = [int(v) for v in m[-1]] if m else []
    case['table'] = tb.get('Target File Extrusion Statistics', dict(rows=[], cs=-1, ct=-1, ls=-1, lt=-1, pct=-1))
    case['ttable'] = [tb['Target File Travel Statistics']] if 'Target File Travel Statistics' in tb else []
    return dict(case=case, text=text, o=o, args=a, out=h['out'], events=h['events'][-1:])
P17 = [dict(name='w17', radii=[.3, .8, 2, 5, 12, 30, 100], y=[0, 1, 1], modes=['extrude']*4+['travel','travel','retract'], pbreak=.04),
       dict(name='w17b', radii=[.3, .8, 2, 5, 12, 30], seg=[.001,.002,.005,.01,.02,.05,.1,.5,1,5], xd=[3,3,4], r=[.05,.1,.5], pbreak=.02, kinds=['arc']*4+['poly','collinear']),
       dict(name='w17c', radii=[.8, 2, 5, 12], events=['arcsrc','arcsrc','g92e','g92x','retract','m83','tool','travel','comment','blank'], pbreak=.1, z=[0,1], y=[0,1])]
def check17(prop):
    binary, harness = vf.build('welder'), vf.build('harness')
    per = (6000 if vf.THOROUGH else 560) // len(P17)
    recs, fails = [], []
    with ProcessPoolExecutor(8) as ex:
        jobs = [(harness, binary, vf.SEED, p, k, vf.scratch(), 0) for p in P17 for k in range(per)]
        jobs += [(harness, binary, vf.SEED, dict(P17[k % 2], name='w17l', shapes=4, radii=[2, 5, 12], events=['comment', 'fan', 'blank', 'retract'], modes=['extrude', 'travel'], kinds=['arc']), k, vf.scratch(), 40 if k % 2 else 60) for k in range(24 if vf.THOROUGH else 6)]
        for r in ex.map(one17, jobs, chunksize=4): (fails if 'fail' in r else recs).append(r)
    # lengths are 32 bit integers in the specification
    recs = [r for r in recs if all(abs(v) < 1900000000 for e in r['case']['reports'] for c in e['st'].values() for v in (c['ls'], c['lt']))]
    if fails:
        f = fails[0]
        vf.violation(prop, 'the run failed: ' + f['fail'], dict(kind='weld', source=f['text'], args=f['args']))
    cfg = vf.cfg_text(['OK_W17'], init='SInit', next_='SNext', extra='VIEW Place\n')
    states = trans = 0
    for at in range(0, len(recs), 1500):
        part = recs[at:at + 1500]
        res = vf.tlc('StatsTrace', cfg, [r['case'] for r in part])
        states += res.distinct; trans += res.generated
        if not res.ok:
            r = part[int(res.var('c')) - 1]
            rejected(prop, 'StatsTrace', res, r, lambda: case17(harness, binary, r['text'], r['o'], 'again').get('case'), cfg)
    base = next(r['case'] for r in recs if any(s['op'] == 'arc' for s in r['case']['steps']) and len(r['case']['src']) < 200)
    n = 0
    for f in (lambda r: r.__setitem__('arcs', r['arcs'] + 1), lambda r: r.__setitem__('points', r['points'] - 1), lambda r: r['st']['ex'].__setitem__('cs', r['st']['ex']['cs'] + 1),
              lambda r: r['st']['tr'].__setitem__('lt', r['st']['tr']['lt'] + 90000), lambda r: r.__setitem__('target', r['target'] + 1), lambda r: r.__setitem__('pct', 0)):
        c = json.loads(json.dumps(base)); f(c['reports'][-1]); n += 1
        if vf.tlc('StatsTrace', cfg, [c], workers=1, heap='1g').invariant != 'OK_W17': raise vf.CheckError('a corrupted record was accepted')
    vf.evidence(prop, LEVEL, dict(states=states, transitions=trans, traces_validated_against_impl=len(recs), reports_checked=sum(len(r['case']['reports']) for r in recs),
        source_lines=sum(len(r['case']['src']) for r in recs), console_tables=sum(1 + len(r['case']['ttable']) for r in recs), long_runs=sum(len(r['case']['src']) > 999 for r in recs),
        corrupted_records_rejected=n, samples=[dict(args=recs[0]['args'], result=recs[0]['case']['reports'][-1])]),
        ['lengths near an edge of the distribution may fall on either side', 'the numbers are read from the progress record of the library and the tables of the program'])
    return 0

# ------------------------------------------------------------------ W18
def one18(a):
    harness, seed, k, scratch, stop, inplace, reps = a
    vf._scratch = scratch
    rng = random.Random('w18/%d/%d' % (seed, k))
    prof = dict(name='w18', shapes=5, radii=[2, 5, 12], pbreak=.05, modes=['extrude'] * 3 + ['travel'], r=[.05, .1])
    text, o, p = gen_weld.program(rng, prof)
    lines = wt.split(text)
    lines = (lines * (reps * 1000 // max(1, len(lines)) + 1))[:reps * 1000 + rng.choice([0, 1, 7, 500])]
    text = '\n'.join(lines) + ('\n' if k % 3 else '')
    return case18(harness, text, o, stop, inplace, 'x%d' % k)
def case18(harness, text, o, stop, inplace, name):
    whole = run_harness_weld(harness, text, o, name + 'w')
    h = run_harness_weld(harness, text, o, name, ['cancel=%d' % stop], inplace)
    ev = []
    for e in h['events']:
        r = report_of(e)
        ev.append(dict(kind='report' if 'report' in e else 'result', lines=r['lines'], target=r['target'], success=r['success'], cancelled=r['cancelled']))
    lines = wt.split(text)
    out = h['out'] or ''
    n = ev[-1]['lines'] if ev else 0
    common = 0
    if not inplace:
        w = whole['out'] or ''
        common = next((q for q, (x, y) in enumerate(zip(out, w)) if x != y), min(len(out), len(w)))
    part = ''
    if not inplace and n: part = run_harness_weld(harness, '\n'.join(lines[:n]) + '\n', o, name + 'p')['out']
    strip = lambda t: t
    case = dict(n=len(lines), stop=stop, inplace=inplace, events=ev, common=common, partial=inplace or out == part, sourceSame=h['src'] == text,
                whole=out == whole['out'], others=len(h['others']))
    return dict(case=case, text=text, o=o, args=harness_args(o) + ['cancel=%d' % stop] + (['in place'] if inplace else []), out=out, events=ev)
def check18(prop):
    harness = vf.build('harness')
    jobs = []; k = 0
    for rep in range(6 if vf.THOROUGH else 1):
        for reps in ((1, 2, 3, 5) if vf.THOROUGH else (1, 3)):
            for stop in range(0, reps + 3):
                for inplace in (False, True):
                    jobs.append((harness, vf.SEED, k, vf.scratch(), stop, inplace, reps)); k += 1
    with ProcessPoolExecutor(8) as ex: recs = list(ex.map(one18, jobs))
    cfg = vf.cfg_text()
    res = vf.tlc('RunTrace', cfg, [r['case'] for r in recs])
    if not res.ok:
        r = recs[int(res.var('c')) - 1]; j = jobs[int(res.var('c')) - 1]
        rejected(prop, 'RunTrace', res, r, lambda: one18(j)['case'], cfg)
    base = next(r['case'] for r in recs if r['case']['stop'] == 2 and not r['case']['inplace'])
    n = 0
    for f in (lambda c: c.__setitem__('partial', False), lambda c: c['events'][-1].__setitem__('success', True), lambda c: c['events'][-2].__setitem__('lines', c['events'][-2]['lines'] + 1),
              lambda c: c.__setitem__('others', 1), lambda c: c.__setitem__('common', 0), lambda c: c['events'].insert(2, dict(c['events'][2]))):
        c = json.loads(json.dumps(base)); f(c); n += 1
        if vf.tlc('RunTrace', cfg, [c], workers=1, heap='1g').ok: raise vf.CheckError('a corrupted record was accepted')
    stopped = sum(not r['case']['events'][-1]['success'] for r in recs)
    vf.evidence(prop, LEVEL, dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(recs), runs_cancelled=stopped, in_place=sum(r['case']['inplace'] for r in recs),
        corrupted_records_rejected=n, samples=[dict(events=recs[2]['case']['events'])]), ['every report of each run is a point of cancellation'])
    return 0
