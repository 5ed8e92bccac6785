"""P01-P03: sessions of the Python extension, recorded by harness/pyhost.py, against spec/PyTrace.tla"""
import copy, hashlib, json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal
import vf, chk_cli, chk_run, weldtrace as wt
from chk_cli import decimal, ident

REALS = ['resolution_mm', 'path_tolerance_percent', 'max_radius_mm', 'mm_per_arc_segment', 'extrusion_rate_variance_percent']
PRECS, WHOLES = ['default_xyz_precision', 'default_e_precision'], ['min_arc_segments', 'max_gcode_length']
SWITCHES = ['allow_dynamic_precision', 'allow_3d_arcs', 'allow_travel_arcs', 'g90_g91_influences_extruder']
REQUIRED = ['guid', 'source_path', 'target_path', 'on_progress_received']
OPTIONAL = REALS + PRECS + WHOLES + SWITCHES + ['log_level']
KEY = dict(resolution_mm='r', path_tolerance_percent='t', max_radius_mm='m', mm_per_arc_segment='s', extrusion_rate_variance_percent='v', default_xyz_precision='x', default_e_precision='e',
           min_arc_segments='a', max_gcode_length='c', allow_dynamic_precision='d', allow_3d_arcs='z', allow_travel_arcs='y', g90_g91_influences_extruder='g')
DEFAULT = dict(resolution_mm='0.05', path_tolerance_percent='0.05', max_radius_mm='9999', mm_per_arc_segment='0', extrusion_rate_variance_percent='0.05', default_xyz_precision='3', default_e_precision='5', min_arc_segments='0', max_gcode_length='0')
GOOD = dict(resolution_mm=[.05, .01, .02, .0501, .1, .2, .5, 1, 0, -1, -.5, 0.0, -.000001], path_tolerance_percent=[.05, .01, .001, .2, .25, .5, 0, -.05, -1, .000999], max_radius_mm=[9999, 5, 20, 100, 1000.5, 9999.5, 12000, 1000000, 1.25],
            mm_per_arc_segment=[0, .1, .5, 1, 2, .0625, -1, -.5], extrusion_rate_variance_percent=[.05, 0, .01, .2, 1, 10, .125, -.01, -1],
            default_xyz_precision=[3, 4, 5, 6, 2, 7, 0, -1, 255, 256, 259, 4.0, 4.7, 6.5, 2.9, 3.999, 6.0, -3, 100, True], default_e_precision=[3, 4, 5, 6, 2, 7, 0, -1, 12, 256, 260, 5.0, 4.2, 6.000001, 5.999, 1000, False],
            min_arc_segments=[0, 1, 8, 12, 24, 48, 72, -1, -24, True, 128, 200, 256, 280, 300, 32768, 65536 + 12], max_gcode_length=[0, 31, 32, 36, 40, 45, 50, 60, 1000, -1, -31, 1, 20, 128, 255, 256 + 20, 256 + 36, 256 + 40, 256 + 44, 256 + 48, 32768 + 40, 65536 + 40, 2147483647])
SWITCH = [True, False, True, False, 1, 0, 2, -1, 7]
LEVELS = [0, 5, 10, 20, 30, 40, 50]
def wrong(r, n):
    none, text, lst, obj = {'$': 'none'}, {'$': 'str', 'v': r.choice(['5', '0.05', 'abc', ''])}, {'$': 'list', 'v': 1}, {'$': 'object'}
    if n in ('guid', 'source_path', 'target_path'): return r.choice([none, 5, 1.5, {'$': 'bytes', 'v': 'a.gcode'}, lst, obj, True])
    if n in REALS + PRECS: return r.choice([none, text, lst, obj, {'$': 'bytes', 'v': '1'}])
    return r.choice([none, text, lst, obj, 1.0, .5, 3.7])
def kind(n, v):
    """the argument as the specification has it"""
    z = dict(neg=False, i=0, u=0)
    if v == 'callback': return dict(k='call', num=z)
    if isinstance(v, bool): return dict(k='whole', num=decimal(int(v)))
    if isinstance(v, int): return dict(k='whole', num=decimal(v))
    if isinstance(v, float): return dict(k='real', num=decimal(repr(v) if 'e' not in repr(v) else '%.9f' % v))
    if isinstance(v, dict) and v['$'] == 'str' or isinstance(v, str): return dict(k='text', num=z)
    if isinstance(v, dict) and v['$'] == 'subint': return dict(k='whole', num=decimal(v['v']))
    return dict(k='wrong', num=z)
def force(n, v):
    """the setting that should be in force, for the library run beside it (the specification checks it)"""
    if n in SWITCHES: return v is not None and v > 0
    if v is None: return DEFAULT[n]
    if n in PRECS: return str(min(6, max(3, int(v))))
    if n == 'resolution_mm' and v <= 0 or v < 0: return DEFAULT[n]
    if n == 'max_radius_mm': v = min(v, 9999)
    return format(Decimal(repr(v)), 'f') if not isinstance(v, bool) else str(int(v))

def programs(n):
    P = chk_cli.programs(n)
    r = random.Random('P/%d' % vf.SEED)
    # lines that are no text, long lines, lines that end in odd ways
    for k in range(4):
        L = P[k].split('\n')
        for _ in range(6): L.insert(r.randrange(len(L)), r.choice(['M117 M\xfcller', '; \xe9\xff\x80', 'M117 \xc3\xbc', '; %s', ';%n%d', '; ' + 'x' * 300, 'M117 {}', '\xff', 'G4 P1 ; \xe2\x82\xac']))
        P.append('\n'.join(L) + ('' if k % 2 else '\n'))
    P.append('G28\nG1 X1\nM84'); P.append(';FLAVOR:UltiGCode\n' + P[0]); P.append('; c')
    LONG = []
    for k in range(4):
        L = [l for l in P[k + 1].split('\n') if l]
        LONG.append('\n'.join((L * (k * 1300 // len(L) + 1200 // len(L) + 1))[:[1000, 2000, 2999, 4100][k]]) + ('\n' if k % 2 == 0 else ''))
    return P, LONG

FILES = ['a.gcode', 'b.gcode', 'my f\xfcr\u20ac.gcode']
def calls_of(r, prop, nprog, nlong, shim):
    """one call of a session"""
    focus = dict(P01='settings', P02='progress', P03='errors')[prop]
    c = dict(shape='dict', prog=r.randrange(nprog), long=False, answers=['true'], wrongs=[])
    if shim and r.random() < .8: c['prog'] = r.randrange(nlong); c['long'] = True
    a = {}
    for n in OPTIONAL:
        if n == 'log_level': continue
        if r.random() < (.25 if focus == 'settings' else .1): a[n] = r.choice(GOOD[n] if n in GOOD else SWITCH)
        elif r.random() < .85: a[n] = False if n in SWITCHES else (float if n in REALS else int)(DEFAULT[n])
    if r.random() < .3 and 'mm_per_arc_segment' in a and 'min_arc_segments' in a: a['mm_per_arc_segment'] = r.choice([.5, 1, 2.0]); a['min_arc_segments'] = r.choice([8, 24, 72])
    if r.random() < .8: a['log_level'] = r.choice([20, 20, 30, 40, 50] if c['long'] else LEVELS if focus == 'errors' else [20, 20, 20, 30, 10, 50, 5])
    elif c['long']: pass
    if r.random() < .08 and not c['long']: a['log_level'] = r.choice([1, 7, 15, 25, 100, -1, True])
    a['guid'] = r.choice([{'$': 'str', 'v': 'job-%d' % r.randrange(10 ** 6)}, {'$': 'str', 'v': 'gr\xfc\xdf \u20ac'}, {'$': 'str', 'v': ''}, {'$': 'str', 'v': 'a b\n'}])
    a['on_progress_received'] = 'callback'
    c['source'] = r.choice(['a.gcode', 'a.gcode', FILES[2]]); c['target'] = r.choice(['out.gcode', 'out.gcode', 'sub/out \xe4.gcode', 'b.gcode']) if r.random() < .85 else c['source']
    c['files'] = 'ok'
    if focus == 'progress':
        if r.random() < .6: c['answers'] = [r.choice(['true', 'none', 'one', 'two', 'many', 'raise', 'true', 'zero', 'false', 'minus']) for _ in range(r.choice([1, 1, 2, 3, 4, 6]))]
        elif r.random() < .3: c['answers'] = ['true'] * r.randrange(5) + [r.choice(['zero', 'false', 'minus'])] + ['true', 'false', 'raise']
        c['touch'] = r.random() < .15
    elif r.random() < .2: c['answers'] = [r.choice(['none', 'one', 'raise', 'true', 'zero', 'false'])] * 2 + ['true']
    if r.random() < (.1 if focus == 'progress' else .04): c['files'] = r.choice(['nosource', 'notarget']); c['target' if c['files'] == 'notarget' else 'source'] = r.choice(['nodir/x.gcode', 'none.gcode'] if c['files'] == 'nosource' else ['nodir/x.gcode', 'sub'])
    if focus == 'errors' and r.random() < .45 or r.random() < .05:
        k = r.randrange(10)
        if k < 3: c['drop'] = r.sample(REQUIRED, r.choice([1, 1, 1, 2, 4]))
        elif k < 9:
            for n in r.sample(OPTIONAL + ['guid', 'source_path', 'target_path'], r.choice([1, 1, 1, 2, 3])): c['wrongs'].append(n); a[n] = wrong(r, n)
        else: c['shape'] = r.choice(['nothing', 'two', 'notdict']); c['notdict'] = r.choice([5, {'$': 'none'}, {'$': 'str', 'v': 'abc'}, {'$': 'list', 'v': 1}, {'$': 'object'}])
        if r.random() < .1: c['answers'] = ['true']
    c['args'] = a
    return c
def sessions(prop, count, nprog, nlong):
    r = random.Random('%s/%d' % (prop, vf.SEED)); S = []
    if prop == 'P01':      # every argument alone, with every value, on several programs
        one = []
        for n in OPTIONAL:
            if n == 'log_level': continue
            for v in GOOD.get(n, SWITCH) + [None]:
                for _ in range(3):
                    c = calls_of(r, prop, nprog, nlong, False); c.update(answers=['true'], files='ok', shape='dict', wrongs=[], source='a.gcode', target='out.gcode'); c.pop('drop', None)
                    c['args'] = dict({m: False if m in SWITCHES else (float if m in REALS else int)(DEFAULT[m]) for m in OPTIONAL[:-1]}, guid={'$': 'str', 'v': 'one'}, on_progress_received='callback', log_level=20)
                    if v is None: del c['args'][n]
                    else: c['args'][n] = v
                    if n == 'mm_per_arc_segment': c['args']['min_arc_segments'] = r.choice([8, 24])
                    if n == 'min_arc_segments': c['args']['mm_per_arc_segment'] = .5
                    one.append(c)
        r.shuffle(one)
        while one: S.append(dict(shim=False, calls=[one.pop() for _ in range(min(5, len(one)))]))
    if prop == 'P02':
        for size in (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 7, 2 ** 32 + 5, 5 * 10 ** 9):
            c = calls_of(r, prop, nprog, nlong, False)
            while c['wrongs']: c = calls_of(r, prop, nprog, nlong, False)
            c.update(files='ok', shape='dict', source='large.gcode', target='out.gcode', answers=['false'], sparse=size, wrongs=[]); c.pop('drop', None); c['args'].update(guid={'$': 'str', 'v': 'big'}); c['args'].pop('log_level', None)
            S.append(dict(shim=False, calls=[c]))
    while len(S) < count:
        shim = prop == 'P02' and r.random() < .35
        S.append(dict(shim=shim, calls=[calls_of(r, prop, nprog, nlong, shim) for _ in range(r.choice([1, 2, 3, 4, 6]))]))
    return S

# ------------------------------------------------------------------ recording
KEYS = dict(percent_complete='float', seconds_elapsed='float', seconds_remaining='float', gcodes_processed='int', lines_processed='int', points_compressed='int', arcs_created='int', arcs_aborted_by_flowrate='int',
            num_firmware_compensations='int', num_gcode_length_exceptions='int', source_file_position='int', source_file_size='int', target_file_size='int', compression_ratio='float', compression_percent='float',
            source_file_total_length='float', target_file_total_length='float', source_file_total_count='int', target_file_total_count='int', total_count_reduction_percent='float', source_file_total_travel_length='float',
            target_file_total_travel_length='float', source_file_total_travel_count='int', target_file_total_travel_count='int', total_travel_count_reduction_percent='float', segment_statistics_text='str', segment_travel_statistics_text='str', guid='str')
def fl(v, d):
    v = float(v)
    return 'nan' if v != v else ('%.*f' % (d, v)) if abs(v) < 1e15 else '%.6e' % v
def near(v, m):
    v = float(v)
    return 2000000000 if v != v or abs(v * m) > 2e9 else int(round(v * m))
def ident_py(p):
    g = lambda k: p[k][1]
    return '|'.join([g(k) for k in ('lines_processed', 'gcodes_processed', 'points_compressed', 'arcs_created', 'arcs_aborted_by_flowrate', 'num_firmware_compensations', 'num_gcode_length_exceptions', 'source_file_position',
        'source_file_size', 'target_file_size')] + [fl(g('percent_complete'), 3), fl(g('compression_ratio'), 4), fl(g('compression_percent'), 3), g('source_file_total_count'), g('target_file_total_count'), fl(g('source_file_total_length'), 3),
        fl(g('target_file_total_length'), 3), g('source_file_total_travel_count'), g('target_file_total_travel_count'), fl(g('source_file_total_travel_length'), 3), fl(g('target_file_total_travel_length'), 3),
        fl(g('total_count_reduction_percent'), 2), fl(g('total_travel_count_reduction_percent'), 2)])
def change(s, t): return 0.0 if s == 0 else 100.0 * (t - s) / s
def ident_lib(e):
    x, t = e['ex'], e['tr']
    return '|'.join([str(e[k]) for k in ('lines', 'gcodes', 'points', 'arcs', 'aborted', 'fw', 'len', 'pos', 'size', 'target')] + [fl(e['pct'], 3), fl(e['ratio'], 4), fl(e['cpct'], 3), str(x['cs']), str(x['ct']), fl(x['ls'], 3), fl(x['lt'], 3),
        str(t['cs']), str(t['ct']), fl(t['ls'], 3), fl(t['lt'], 3), fl(change(x['cs'], x['ct']), 2), fl(change(t['cs'], t['ct']), 2)])
def table_lib(s): return '%s/%s/%d/%d' % (s['s'], s['t'], s['cs'], s['ct'])
def table_py(text):
    """the counts a table of the results shows"""
    t = chk_run.tables('| Target File X Statistics |\n' + re.sub(r'&#\d+;?', '|', text).replace('|' * 2, '|'))
    t = t.get('Target File X Statistics', dict(rows=[], cs=-1, ct=-1))
    return '%s/%s/%d/%d' % ([x[0] for x in t['rows']], [x[1] for x in t['rows']], t['cs'], t['ct'])

LIBRUNS = {}
def lib_run(top, text, sparse, num, on, stop, shim):
    key = (ident(text) if not sparse else sparse, json.dumps([num, on]), stop, shim)
    if key in LIBRUNS: return LIBRUNS[key]
    s, t = top + '/s.gcode', top + '/t.gcode'
    with open(s, 'wb') as f:
        if sparse: f.write(b'G28\n'); f.truncate(sparse)
        else: f.write(text)
    args = ['%s=%s' % (KEY[n], v) for n, v in num.items()] + ['%s=%d' % (KEY[n], n in on) for n in SWITCHES] + ['period=%s' % ('-1' if shim else '100000')] + (['cancel=%d' % stop] if stop else [])
    h = subprocess.run([vf.build('harness'), 'weld', s, t] + args, capture_output=True, text=True, errors='replace', timeout=120)
    ev = [chk_run.loads(l) for l in h.stdout.split('\n') if l.startswith('{')]
    if h.returncode or not ev or not os.path.exists(t): r = dict(reports=[], result='failed', tables='', body='failed', cancelled=False)
    else: r = dict(reports=[ident_lib(e) for e in ev[:-1]], result=ident_lib(ev[-1]), tables=table_lib(ev[-1]['both']) + ' ' + table_lib(ev[-1]['tr']), body=ident(open(t, 'rb').read()), cancelled=bool(ev[-1]['cancelled']))
    for p in (s, t):
        if os.path.exists(p): os.remove(p)
    LIBRUNS[key] = r
    return r
def stop_of(c, nreports):
    """the first report answered with a request to stop, if it is not the last"""
    for n in range(nreports - 1):
        if c['answers'][min(n, len(c['answers']) - 1)] in ('zero', 'false', 'minus'): return n + 1
    return 0
def utf(p): return p.encode().decode('latin1')

def record(s, n, P, LONG):
    top = os.path.join(vf.scratch(), 'py%d' % n); d = top + '/w'; os.makedirs(d + '/sub')
    try:
        job = dict(dir=d, out=top + '/printed', calls=[])
        for c in s['calls']:
            j = {k: c[k] for k in ('shape', 'answers', 'touch', 'notdict') if k in c}
            text = (LONG if c['long'] else P)[c['prog'] % len(LONG if c['long'] else P)].encode('latin1')
            c['text'] = text
            j['files'] = {} if c.get('sparse') else {os.path.join(d, f): text.decode('latin1') for f in FILES}
            if c.get('sparse'): j['sparse'] = {os.path.join(d, 'large.gcode'): c['sparse']}
            a = dict(c['args'])
            a.setdefault('source_path', {'$': 'str', 'v': os.path.join(d, c['source'])}); a.setdefault('target_path', {'$': 'str', 'v': os.path.join(d, c['target'])})
            for x in c.get('drop', []): a.pop(x, None)
            j['args'] = a; c['full'] = a
            job['calls'].append(j)
        json.dump(job, open(top + '/job', 'w'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1')
        if s['shim']: env['LD_PRELOAD'] = vf.build_so('clock')
        h = subprocess.run([vf.PYTHON, os.path.join(vf.VERIF, 'harness', 'pyhost.py'), vf.build_py(), top + '/job', top + '/rec'], capture_output=True, text=True, errors='replace', timeout=300, env=env, cwd=top)
        rec = json.load(open(top + '/rec')) if os.path.exists(top + '/rec') else []
        if not rec and h.returncode != 0 and 'rror' in h.stderr: raise vf.CheckError('the session did not start: ' + h.stderr[-600:])
        out = []
        for c, x in zip(s['calls'], rec):
            out.append(abstract(s, c, x, top))
            if x['died']: break
        return out, dict(session=[dict(shape=c['shape'], args=c['full'], answers=c['answers']) for c in s['calls']], clock_shim=s['shim'], exit=h.returncode, stderr=h.stderr[-500:], events=[e for x in rec for e in x['events'] if e['e'] != 'log'][-6:])
    finally: shutil.rmtree(top, ignore_errors=True)

def abstract(s, c, x, top):
    text = c['text']; lines = text.decode('utf-8', 'replace').split('\n')
    if lines[-1] == '': lines.pop()
    if c.get('sparse'): lines = ['G28']
    a = c['full']; n = 0
    args = {m: kind(m, a[m]) if m in a else dict(k='absent', num=dict(neg=False, i=0, u=0)) for m in REQUIRED + OPTIONAL}
    use = {m: a.get(m) for m in OPTIONAL}
    num, on = {}, []
    ok = c['shape'] == 'dict' and not c['wrongs'] and not c.get('drop') and c['files'] == 'ok'
    if ok:
        num = {m: force(m, use[m]) for m in DEFAULT}; on = [m for m in SWITCHES if force(m, use[m])]
        full = lib_run(top, text, c.get('sparse'), num, on, 1 if c.get('sparse') else 0, s['shim'])
        k = 1 if c.get('sparse') else stop_of(c, len(full['reports']))
        lib = lib_run(top, text, c.get('sparse'), num, on, k, s['shim'])
    else: lib = dict(reports=[], result='', tables='', body='', cancelled=False)
    ev = []; guid = a.get('guid', {}).get('v') if isinstance(a.get('guid'), dict) else None
    begun = False; written = 0; after = True; first = lines and (lines[0].rstrip('\r') == ';FLAVOR:UltiGCode' or lines[0].startswith('; generated by PrusaSlicer'))
    if first: lines = lines[1:]          # a first line that is left where it is is not parsed
    gc = [l.split(';')[0].strip() for l in lines]; gset = set(g for g in gc if len(g) > 2)
    for e in x['events']:
        after = after and not (ev and ev[-1]['e'] in ('return', 'raise'))
        if e['e'] == 'log':
            t = e['t']; k, name = 'other', ''
            m = re.search(r"nable to retrieve (?:the )?(required parameter )?'(\w+)[' ]", t)
            if t.startswith('Parsing GCode Conversion Args'): k = 'parsing'
            elif 'Beginning Arc Conversion' in t: k = 'begin'; begun = True
            elif 'Arc Conversion Complete' in t: k = 'complete'
            elif not begun and m and not m.group(1) and e['m'] != 'error': k, name = 'missing', m.group(2)
            elif not begun and re.search(r'default (XYZ|E) precision received was (less|greater)', t):
                q = re.search(r'default (XYZ|E) precision received was (less|greater)', t); k = 'low' if q.group(2) == 'less' else 'high'; name = 'default_%s_precision' % q.group(1).lower()
            elif begun and written < len(lines) and e['m'] not in ('error',) and t == 'Parsing: ' + lines[written]: k = 'line'; written += 1
            elif begun and t.startswith('Parsing: '): k = 'line'
            elif begun and e['m'] == 'debug' and re.search(r'[Gg]code: ?', t) and any(t.rstrip().endswith(g) or g in t for g in gset): k = 'detail'
            elif e['m'] == 'error': k = 'error'
            ev.append(dict(e='log', m=e['m'], kind=k, name=name))
        elif e['e'] == 'report':
            r = e['r']; good = e['nargs'] == 1 and {k: v[0] for k, v in r.items()} == KEYS
            z = dict(e='report', ans=e['ans'], keys=good, guid=False, notext=False, lines=0, pct=0, elapsed=0, remaining=0, pos=0, size=0, start=False, ident='')
            if good:
                small = int(r['source_file_size'][1]) < 2 ** 29
                z.update(guid=r['guid'][1] == guid, notext=r['segment_statistics_text'][1] == '' and r['segment_travel_statistics_text'][1] == '', lines=int(r['lines_processed'][1]) - (1 if first and int(r['lines_processed'][1]) else 0), pct=near(r['percent_complete'][1], 10000),
                         elapsed=near(r['seconds_elapsed'][1], 1000), remaining=near(r['seconds_remaining'][1], 1000), pos=int(r['source_file_position'][1]) if small else 0, size=int(r['source_file_size'][1]) if small else 0,
                         start=r['source_file_position'][1] == '0' and r['target_file_size'][1] == '0', ident=ident_py(r))
            ev.append(z)
        elif e['e'] == 'raise': ev.append(dict(e='raise', exception=e['exception'], names=re.findall(r"'(\w+)'", e['t'])))
        else:
            r, p = e['r'], e['p']
            good = {k: v[0] for k, v in r.items()} == dict(success='int', is_cancelled='int', message='str') and {k: v[0] for k, v in p.items()} == KEYS
            z = dict(e='return', keys=good, success=False, cancelled=False, message=False, pguid=False, ident='', tables='', lines=0, elapsed=0)
            if good: z.update(success=r['success'][1] == '1', cancelled=r['is_cancelled'][1] == '1', message=r['message'][1] != '', pguid=p['guid'][1] == guid, ident=ident_py(p), lines=int(p['lines_processed'][1]) - (1 if first and int(p['lines_processed'][1]) else 0),
                              elapsed=near(p['seconds_elapsed'][1], 1000), tables=table_py(p['segment_statistics_text'][1]) + ' ' + table_py(p['segment_travel_statistics_text'][1]))
            ev.append(z)
    if x['died']: ev.append(dict(e='died'))
    b, f = x['before'], x.get('after', {})
    changed = sorted(k for k in set(b) | set(f) if b.get(k) != f.get(k)) if not x['died'] else []
    return dict(shape=c['shape'], args=args, files=c['files'], events=ev, after=after, n=len(lines), moves=len(gset) > 20, inplace=c['source'] == c['target'], target=c['target'], changed=changed,
                made=c['target'] in f, body=f.get(c['target'], ''), printed=x.get('printed', '') != '', leaks=sorted(set(x.get('leaks', []))),
                lib=dict(num={m: decimal(v) for m, v in num.items()}, on=on, **lib))

def check(prop):
    vf.build_py(); vf.build('harness'); vf.build_so('clock')
    P, LONG = programs(30)
    S = sessions(prop, dict(P01=900, P02=800, P03=900)[prop] * (6 if vf.THOROUGH else 1) // 2, len(P), len(LONG))
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: record(x[1], x[0], P, LONG), enumerate(S)))
    if any(not c for c, _ in recs): raise vf.CheckError('a session left no record')
    inv = 'OK_' + prop
    cfg = vf.cfg_text([inv], props=['Ends'])
    states = trans = 0
    for at in range(0, len(recs), 1000):
        part = recs[at:at + 1000]
        res = vf.tlc('PyTrace', cfg, [c for c, _ in part])
        states += res.distinct; trans += res.generated
        if not res.ok:
            k = at + int(res.var('c')) - 1
            again = record(S[k], 10 ** 6 + k, P, LONG)
            if vf.tlc('PyTrace', cfg, [again[0]], workers=1).ok: again = recs[k]                    # not on every run: the record is the evidence
            if 'HARNESS' in (res.var('errs') or ''): raise vf.CheckError('the settings given to the library are not those the specification puts in force: %r' % again[1])
            q = int(res.var('q')) - 1
            vf.violation(prop, 'a session of the Python extension does not follow PyTrace.tla (call %d): %s' % (q + 1, res.var('errs') or res.state()[:400]),
                         dict(kind='python', call=again[1]['session'][q], source=S[k]['calls'][q]['text'].decode('latin1')[:20000], **again[1]))
    # corrupted records
    bad = []
    def alter(f, pick):
        for c, _ in recs:
            for x in c:
                if pick(x) and len(x['events']) < 400:
                    y = copy.deepcopy(x); f(y); bad.append([y]); return
        raise vf.CheckError('no record to corrupt')
    ran = lambda x: x['lib']['reports'] and x['events'][-1]['e'] == 'return'
    if prop == 'P01':
        alter(lambda x: x.__setitem__('body', 'x'), ran); alter(lambda x: x['changed'].append('b2.gcode'), ran); alter(lambda x: x['events'].append(dict(e='died')) or x['events'].pop(-2), ran)
        alter(lambda x: x['lib']['num']['max_radius_mm'].__setitem__('i', 77), ran); alter(lambda x: x['lib']['on'].append('allow_3d_arcs') if 'allow_3d_arcs' not in x['lib']['on'] else x['lib']['on'].remove('allow_3d_arcs'), ran)
    elif prop == 'P02':
        rep = lambda x: [e for e in x['events'] if e['e'] == 'report']
        alter(lambda x: rep(x)[0].__setitem__('guid', False), ran); alter(lambda x: rep(x)[-1].__setitem__('ident', 'x'), ran); alter(lambda x: x['events'].remove(rep(x)[-1]), ran); alter(lambda x: x['events'][-1].__setitem__('success', not x['events'][-1]['success']), ran)
        alter(lambda x: x['events'][-1].__setitem__('ident', 'x'), ran); alter(lambda x: x['leaks'].append('guid'), ran); alter(lambda x: x['events'][-1].__setitem__('tables', ''), ran); alter(lambda x: rep(x)[1].__setitem__('remaining', rep(x)[1]['remaining'] + 5000), lambda x: ran(x) and len(rep(x)) > 2)
        alter(lambda x: rep(x)[-1].__setitem__('pct', 990000), ran)
    else:
        logs = lambda x, k: [e for e in x['events'] if e['e'] == 'log' and e['kind'] == k]
        alter(lambda x: x['events'].remove(logs(x, 'begin')[0]) or x['events'].remove(logs(x, 'complete')[0]), ran); alter(lambda x: x['events'].remove(logs(x, 'complete')[0]), ran); alter(lambda x: logs(x, 'missing')[0].__setitem__('m', 'info'), lambda x: ran(x) and logs(x, 'missing'))
        alter(lambda x: x['events'].remove(logs(x, 'missing')[0]), lambda x: ran(x) and logs(x, 'missing')); alter(lambda x: x['events'].remove(logs(x, 'line')[0]), lambda x: ran(x) and logs(x, 'line')); alter(lambda x: x.__setitem__('printed', True), lambda x: ran(x) and not any(e['e'] == 'report' and e['ans'] == 'raise' for e in x['events']))
        alter(lambda x: x['events'].__setitem__(-1, dict(e='raise', exception=True, names=[])), ran); alter(lambda x: x['events'].__setitem__(-1, dict(e='died')), lambda x: x['events'][-1]['e'] == 'raise'); alter(lambda x: [x['events'].remove(e) for e in logs(x, 'error')], lambda x: x['events'][-1]['e'] == 'raise')
        alter(lambda x: x['args']['log_level'].update(k='whole', num=dict(neg=False, i=20, u=0)), lambda x: ran(x) and logs(x, 'line'))
    for n, b in enumerate(bad):
        if vf.tlc('PyTrace', vf.cfg_text([inv]), [b], workers=1, heap='1g').invariant != inv: raise vf.CheckError('a corrupted record was accepted (%d)' % n)
    cases = [x for c, _ in recs for x in c]
    kinds = {}
    for x in cases:
        for e in x['events']:
            k = e['e'] + (' ' + e['kind'] if e['e'] == 'log' else ''); kinds[k] = kinds.get(k, 0) + 1
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=len(recs), calls=len(cases), events=kinds, cancelled=sum(x['lib']['cancelled'] for x in cases), in_place=sum(x['inplace'] for x in cases),
        rejected=sum(x['events'][-1]['e'] == 'raise' for x in cases), corrupted_records_rejected=len(bad), samples=[i for _, i in recs[20:300:90]]),
        ['Python 3.12 on Linux; one thread', 'the library run beside the extension shows what the settings in force do', 'numbers of at most six decimals and 31 bits; NaN is not given'])
    return 0
