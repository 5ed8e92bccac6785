"""C01 and the other half of S06: command lines of the real programs against spec/OptionsTrace.tla and spec/StraightOptionsTrace.tla"""
import copy, hashlib, json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal
import vf, gcode, gen_weld, weldtrace as wt, chk_files

LONG = dict(r='resolution-mm', t='path-tolerance-percent', m='max-radius-mm', s='mm-per-arc-segment', v='extrusion-rate-variance-percent', x='default-xyz-precision', e='default-e-precision',
            a='min-arc-segments', c='max-gcode-length', g='g90-influences-extruder', z='allow-3d-arcs', y='allow-travel-arcs', d='allow-dynamic-precision', p='progress-type', l='log-level')
REALS, WHOLES, SWITCHES = 'rtmsv', 'xeac', 'gzyd'
CHOICES = dict(p=['NONE', 'SIMPLE', 'FULL'], l=['NOSET', 'VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'])
DEFAULT = dict(r='0.05', t='0.05', m='9999', s='0', v='0.05', x='3', e='5', a='0', c='0')
GOOD = dict(r=['.01', '.02', '.05', '.0501', '.1', '.2', '.5', '1', '.000001', '3.25'], t=['.05', '.01', '.001', '.000999', '.2', '.25', '.250001', '.5', '.999999', '.0501'],
            m=['5', '20', '100', '1000', '9999', '9999.5', '12000', '1000000', '1000000.5', '2000000', '1.25'], v=['0', '.01', '.05', '.2', '1', '.051', '10', '.000001', '.125'],
            x=['3', '4', '5', '6'], e=['3', '4', '5', '6'], c=['0', '31', '32', '36', '40', '45', '50', '60', '1000', '255', '276', '292', '296', '300', '304', '32808', '65576'], s=['0', '.1', '.5', '1', '2', '.0625'], a=['0', '1', '8', '12', '24', '48', '72', '200', '256', '280', '65548'])
BAD = dict(r=['0', '-0.05', '-1', '0.0'], t=['0', '-0.05', '1', '1.000001', '1.5', '5', '-1'], m=['0', '-1', '-0.5', '0.0'], v=['-0.01', '-1', '-.000001'],
           x=['2', '7', '0', '1', '-3', '8', '10', '33', '259', '260', '65539'], e=['2', '7', '0', '1', '-4', '8', '12', '55', '259', '261', '65541'], c=['-1', '1', '30', '29', '-31', '10'], s=['-0.5', '-1'], a=['-1', '-24'])
TEXTS = ['abc', '1,5', '0x10', '1.5mm', 'nan', 'inf', '1e', '.', '1 2', '5%', '=5', '--', 'TRUE', '0.05.', '1-2', "'1'"]

def word(w, **k):
    d = dict(w=w, opt='', opts=[], kind='none', num=dict(neg=False, i=0, u=0), t='', arg=''); d.update(k)
    return d
def decimal(v):
    v = Decimal(v); a = abs(v); i = min(int(a), 2 ** 30)
    return dict(neg=v < 0, i=i, u=int((a - int(a)) * 10 ** 6))
def spell(r, v, whole):
    """another way of writing the number"""
    if r.random() < .5: return v
    d = Decimal(v)
    if whole: return r.choice([v, '+' + v if d >= 0 else v, '0' + v if d >= 0 else v])
    s = format(abs(d), 'f'); sg = '-' if v[0] == '-' else ''
    ways = [sg + s, sg + s + ('0' if '.' in s else '.0'), sg + s.lstrip('0') if s.lstrip('0')[:1] == '.' and len(s.lstrip('0')) > 1 else sg + s, sg + '%se-2' % (abs(d) * 100).normalize().__format__('f'), sg + '0' + s, sg + '%sE-03' % (abs(d) * 1000).__format__('f')]
    if not sg: ways.append('+' + s)
    return r.choice(ways)
def opt(r, o, v, kind=None):
    """a word giving v to the option o"""
    whole = o in WHOLES
    t = v
    if kind is None and o not in CHOICES:
        if o in WHOLES: t = spell(r, v, True)
        else: t = spell(r, v, False)
    if kind is None: kind = 'whole' if re.fullmatch(r'[+-]?\d+', t) else 'dec'
    if o in CHOICES: kind = 'text'
    a = ('-%s=%s' % (o, t)) if r.random() < .5 else '--%s=%s' % (LONG[o], t)
    return word('opt', opt=o, kind=kind, num=decimal(v) if kind in ('whole', 'dec') else dict(neg=False, i=0, u=0), t=t, arg=a)
def huge(r, o, v): return word('opt', opt=o, kind='huge', num=decimal(v), t=v, arg='-%s=%s' % (o, v))
def switch(r, os):
    return word('switch', opts=list(os), arg='-' + ''.join(os) if len(os) > 1 or r.random() < .5 else '--' + LONG[os[0]])
def path(p): return word('path', t=p, arg=p)
def other(r):
    o = r.choice('rtmsvxeac'); z = r.choice('gzyd')
    a = r.choice(['-q', '-q=5', '--resolution=0.1', '--bogus', '-%s%s' % (o, DEFAULT[o]), '-%s=1' % z, '--%s=TRUE' % LONG[z], '--%s' % LONG[o][:-1], '-%s' % LONG[z], '--%s=1' % o, '-%sq' % z,
                  '-%s%s=1' % (z, o), '-%s:1' % o, '/%s=1' % o if False else '-R=0.1', '-P=NONE', '---%s' % LONG[z], '--%s=1' % LONG[o].replace('-', '_')])
    return word('other', t=a, arg=a)
def bare(r):
    o = r.choice('rtmsvxeacpl')
    return word('opt', opt=o, kind='none', arg=r.choice(['-%s' % o, '--%s' % LONG[o], '-%s=' % o, '--%s=' % LONG[o]]))

FILES = ['a.gcode', 'b.gcode', 'my file.gcode']
NOWHERE = ['nodir/x.gcode', 'sub', 'a.gcode/x']
def settings(r):
    """some settings a user could give, as option -> text, and switches"""
    s = {o: r.choice(GOOD[o]) for o in 'rtmvxec' if r.random() < .3}
    if r.random() < .3:
        s['s'] = r.choice(GOOD['s']); s['a'] = r.choice([v for v in GOOD['a'] if (v == '0') == (s['s'] == '0')])
        for o in 'sa':
            if s[o] == '0' and r.random() < .5: del s[o]
    ch = {o: r.choice(CHOICES[o]) for o in 'pl' if r.random() < .4}
    return s, [z for z in SWITCHES if r.random() < .25], ch
def words_of(r, s, on, ch, paths, mess=()):
    W = [opt(r, o, v) for o, v in s.items()] + [opt(r, o, v) for o, v in ch.items()]
    on = list(on); r.shuffle(on)
    while on:
        n = r.choice([1, 1, 2, 3]); W.append(switch(r, on[:n])); on = on[n:]
    W += list(mess); r.shuffle(W)
    if r.random() < .06 and not mess:
        W = W + [word('end', arg='--')] + [path(p) for p in paths]
    else:
        at = sorted(r.randrange(len(W) + 1) for _ in paths)
        for p, k in reversed(list(zip(paths, at))): W.insert(k, path(p))
    return W
def lib_of(s, on): return dict(num=dict(DEFAULT, **s), on=list(on))

def requests(seed, count):
    r = random.Random('C01/%d' % seed)
    Q = []
    def paths(): return r.choice([['a.gcode', 'out.gcode']] * 5 + [['a.gcode']] * 2 + [['a.gcode', 'b.gcode'], ['my file.gcode', 'sub/out file.gcode'], ['a.gcode', 'a.gcode'], ['a.gcode', 'no extension']])
    def put(W, s=None, on=(), k=None): Q.append(dict(words=W, lib=lib_of(s or {}, on), prog=r.randrange(10 ** 6) if k is None else k))
    # every option alone, with every value, on several programs
    for o in GOOD:
        for v in GOOD[o]:
            s = {o: v}
            if o == 's' and v != '0': s['a'] = r.choice(['8', '24', '72'])
            if o == 'a' and v != '0': s['s'] = r.choice(['.5', '1', '2'])
            for k in range(8): put(words_of(r, s, [], {}, paths()), s, [], k * 9 + r.randrange(9))
    for z in SWITCHES:
        for k in range(0, 72, 2): put(words_of(r, {}, [z], {}, paths()), {}, [z], k + r.randrange(2))
    for o in CHOICES:
        for v in CHOICES[o]:
            for k in range(4): put(words_of(r, {}, [], {o: v}, paths()), {}, [])
    for k in range(72): put(words_of(r, {}, [], {}, ['a.gcode', 'out.gcode'][:1 + k % 2]), k=k)
    for d in (None,): put([word('end', arg='--'), path('a.gcode'), path('-odd.gcode')])
    # what is rejected, alone and among good settings
    def wrong(mess, extra=None, ps=None, drop=()):
        s, on, ch = settings(r) if r.random() < .6 else ({}, [], {})
        for o in drop: s.pop(o, None); ch.pop(o, None); on = [z for z in on if z != o]
        if ch.get('l') and r.random() < .7: ch.pop('l')
        put(words_of(r, s, on, ch, paths() if ps is None else ps, mess), s, on)
    for _ in range(3 if vf.THOROUGH else 1):
        for o in BAD:
            for v in BAD[o]: wrong([opt(r, o, v)], drop=[o])
        for o in REALS + WHOLES:
            for t in r.sample(TEXTS, 6): wrong([opt(r, o, t, 'text')], drop=[o])
        for o in WHOLES:
            for t in ('3.0', '3.5', '4e0', '.5', '31.', '1e2'): wrong([opt(r, o, t, 'dec') | dict(num=decimal(t.rstrip('.')))], drop=[o])
            wrong([huge(r, o, '99999999999')], drop=[o]); wrong([huge(r, o, '4294967300')], drop=[o])
        for o in CHOICES:
            for t in ('none', 'Simple', 'INFOS', 'BOGUS', '0', 'NONE ', 'WARN', 'SIMPLE,FULL'): wrong([opt(r, o, t, 'text')], drop=[o])
        for o in GOOD: wrong([opt(r, o, r.choice(GOOD[o])), opt(r, o, r.choice(GOOD[o]))], drop=[o])
        for o in CHOICES: wrong([opt(r, o, r.choice(CHOICES[o])), opt(r, o, r.choice(CHOICES[o]))], drop=[o])
        for z in SWITCHES: wrong([switch(r, [z]), switch(r, [z])], drop=[z]); wrong([switch(r, [z, z])], drop=[z])
        for _ in range(40): wrong([other(r)])
        for _ in range(12): wrong([bare(r)], drop='rtmsvxeacpl')
        for v in ('.5', '1'): wrong([opt(r, 's', v)], drop='sa'); wrong([opt(r, 's', v), opt(r, 'a', '0')], drop='sa')
        for v in ('8', '24'): wrong([opt(r, 'a', v)], drop='sa'); wrong([opt(r, 'a', v), opt(r, 's', '0')], drop='sa')
        for ps in ([], ['none.gcode'], ['none.gcode', 'out.gcode'], ['a.gcode', 'out.gcode', 'b.gcode'], ['a.gcode', 'out.gcode', 'none.gcode', 'b.gcode'], ['nodir/a.gcode'], ['A.gcode', 'a.gcode'],
                   ['a.gcode ', 'out.gcode'], ['out.gcode', 'a.gcode'], ['a'], ['sub/a.gcode', 'out.gcode']): wrong([], ps=ps); wrong([], ps=ps)
        for t in NOWHERE: wrong([], ps=['a.gcode', t]); wrong([], ps=['b.gcode', t])
        for h in ('-h', '--help', '--version'):
            for _ in range(3): wrong([word('help', arg=h)]); wrong([word('help', arg=h)], ps=[])
    while len(Q) < count:
        s, on, ch = settings(r)
        put(words_of(r, s, on, ch, paths()), s, on)
    return Q

PROFILES = [dict(name='c1', shapes=4, kinds=['arc'] * 3 + ['poly', 'curve', 'zigzag'], three=.4, xd=[3, 4, 5]), dict(name='c2', shapes=5, modes=['extrude', 'travel', 'retract'], pevent=.8), dict(name='c3', shapes=4, seg=[.1, .2, .5], cp=[0, .5])]
def programs(n):
    P = []
    for k in range(n):
        text, o, _ = gen_weld.program(random.Random('C01/prog/%d/%d' % (vf.SEED, k)), PROFILES[k % 3])
        if len(text) > 40: P.append(text)
    import math
    r = random.Random('C01/more/%d' % vf.SEED)
    for k in range(max(4, n // 5)):                 # programs made for single options
        L, a, rad, z = ['G90', 'M83', 'G28', 'G92 E0'] + ['G90'] * (k % 2) + ['G1 X60 Y50 Z0.2 F3000'], 0, r.choice([1, 2, 3]), .2
        for j in range(40):
            a += r.choice([.1, .2, .25]) if j % 10 else .7
            z += .01 if j % 20 < 8 else 0
            L.append('G1 X%.3f Y%.3f%s E%.5f' % (50 + rad * math.cos(a), 50 + rad * math.sin(a), ' Z%.4f' % z if k % 3 == 1 else '', .1 + .01 * (j % 5 == 4) * (k % 4)))
        P.append('\n'.join(L) + '\n')
    r.shuffle(P)
    return P

LEVELS = re.compile(r'^\d{4}-\d\d-\d\d [\d:.]+ - [\w.]+ - (VERBOSE|DEBUG|INFO|WARNING|ERROR|CRITICAL) - ', re.M)
NAMES = ['VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']
def snapshot(d):
    r = {}
    for base, ds, fs in os.walk(d):
        for x in ds: r[os.path.relpath(os.path.join(base, x), d)] = None
        for x in fs: r[os.path.relpath(os.path.join(base, x), d)] = open(os.path.join(base, x), 'rb').read()
    return r
def ident(b): return hashlib.sha1(b).hexdigest()[:16]
def listing(out):
    L, on = [], False
    for l in out.split('\n'):
        if 'Arc Welder Arguments' in l: on = True; continue
        if on:
            if not l.startswith('\t'): break
            k, v = l[1:].split(':', 1)
            if k.strip() in ('Hide Progress Updates', 'Progress Notification Period'): continue
            L.append('%s=%s' % (k.strip(), v[1:]))
    return L
WARN = dict(radius=r'max radius of .* greater than 1000000', **{'high tolerance': r'tolerance percent of .* greater than 0\.25', 'low tolerance': r'tolerance percent of .* less than 0\.001', 'variance': r'extrusion rate variance percent is 0'})
def warnings(out):
    r = []
    for l in out.split('\n'):
        if l.startswith('warning:'): r.append(next((k for k, x in WARN.items() if re.search(x, l)), l[:60]))
    return r

def record(q, n, P):
    top = os.path.join(vf.scratch(), 'c%d' % n); d = top + '/w'
    os.makedirs(d + '/sub')
    try:
        text = P[q['prog'] % len(P)].encode()
        for f in FILES: open(os.path.join(d, f), 'wb').write(text)
        before = snapshot(d)
        a = [x['arg'] for x in q['words']]
        r = subprocess.run([vf.build('welder')] + a, cwd=d, capture_output=True, text=True, errors='replace', timeout=60)
        after = snapshot(d)
        paths = [x['t'] for x in q['words'] if x['w'] == 'path']
        target = (paths + paths)[1] if len(paths) == 1 else paths[1] if paths else ''
        made = after.get(target)
        out = r.stdout + r.stderr
        body = ident(made) if made is not None else ''
        lib = LIB.get((q['prog'] % len(P), json.dumps(q['lib'], sort_keys=True)))
        if lib is None:
            open(top + '/s.gcode', 'wb').write(text)
            args = ['%s=%s' % x for x in q['lib']['num'].items()] + ['%s=%d' % (z, z in q['lib']['on']) for z in SWITCHES] + ['period=1000']
            h = subprocess.run([vf.build('harness'), 'weld', top + '/s.gcode', top + '/t.gcode'] + args, capture_output=True, timeout=60)
            lib = ident(open(top + '/t.gcode', 'rb').read()) if os.path.exists(top + '/t.gcode') and h.returncode == 0 else 'failed'
            if lib != 'failed': BODY[lib] = ident('\n'.join(wt.strip_header(open(top + '/t.gcode', errors='surrogateescape').read().split('\n'))[0]).encode(errors='surrogateescape'))
            LIB[q['prog'] % len(P), json.dumps(q['lib'], sort_keys=True)] = lib
        found = LEVELS.findall(out)
        c = dict(words=[{k: v for k, v in x.items() if k != 'arg'} for x in q['words']], files=FILES, nowhere=NOWHERE, exit=abs(r.returncode), said='ERROR' in out, printed=len(r.stdout) > 20,
                 changed=sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)), made=made is not None, body=body,
                 lib=dict(num={k: decimal(v) for k, v in q['lib']['num'].items()}, on=q['lib']['on'], body=lib), shown=listing(out), warned=warnings(out), levels=[found.count(x) for x in NAMES],
                 progress=dict(simple=len(re.findall(r'^Progress:  *\d+\.\d% complete - ', out, re.M)), full=len(re.findall(r'^Progress:  *percent_complete:[\d.]+, seconds_elapsed:', out, re.M))),
                 success='Arc Welder process completed successfully' in out)
        return c, dict(args=a, exit=r.returncode, log=out[:1500], changed=c['changed'])
    finally: shutil.rmtree(top, ignore_errors=True)
LIB, BODY = {}, {}

def canaries(spec, cfg, bad):
    for n, b in enumerate(bad):
        if not vf.tlc(spec, cfg, [b], workers=1, heap='1g', deadlock=False).violated: raise vf.CheckError('a wrong record was accepted (%d)' % n)
    return len(bad)

def run(prop, spec, cfg, recs, again):
    res = vf.tlc(spec, cfg, [c for c, _ in recs], deadlock=False)
    if not res.ok:
        k = int(res.var('c')) - 1
        c2, info = again(k)
        r2 = vf.tlc(spec, cfg, [c2], workers=1, deadlock=False)
        if r2.violated and 'HARNESS' not in r2.out:
            vf.violation(prop, '%s: %s' % (' '.join(info['args']), r2.var('errs')), dict(kind='cli', errs=r2.var('errs'), **info))
        if res.violated and 'HARNESS' not in res.out and 'HARNESS' not in r2.out:                     # not on every run: the record is the evidence
            vf.violation(prop, '%s: %s (not on every run)' % (' '.join(info['args']), res.var('errs')), dict(recs[k][1], kind='cli', errs=res.var('errs'), case=recs[k][0]))
        raise vf.CheckError('settings differ: %s %s' % (res.var('errs'), info['args']))
    return res

def check_c01(prop):
    vf.build('welder'); vf.build('harness')
    P = programs(60)
    qs = requests(vf.SEED, 20000 if vf.THOROUGH else 2000)
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: record(x[1], x[0], P), enumerate(qs)))
    cfg = vf.cfg_text(['OK'], props=['Final'])
    res = run(prop, 'OptionsTrace', cfg, recs, lambda k: record(qs[k], 10 ** 6 + k, P))
    # the options have to matter for the programs chosen
    base = {}
    for (c, _), q in zip(recs, qs):
        if q['lib']['num'] == DEFAULT and not q['lib']['on']: base[q['prog'] % len(P)] = BODY.get(c['lib']['body'])
    matters = {}
    for (c, _), q in zip(recs, qs):
        diff = [o for o in DEFAULT if Decimal(q['lib']['num'][o]) != Decimal(DEFAULT[o])] + q['lib']['on']
        if set(diff) <= {'s', 'a'} and diff: diff = ['s']
        if len(diff) == 1 and base.get(q['prog'] % len(P)) not in (None, BODY.get(c['lib']['body'])): matters[diff[0]] = matters.get(diff[0], 0) + 1
    cases = [c for c, _ in recs]
    ok = [c for c in cases if c['exit'] == 0 and c['made'] and c['shown']]
    rej = [c for c in cases if c['exit'] != 0 and not c['changed']]
    bad = []
    def alter(c, **k): b = copy.deepcopy(c); b.update(k); bad.append(b)
    alter(ok[0], body='x'); alter(ok[1], exit=1); alter(ok[2], changed=['out.gcode', 'b.gcode']); alter(ok[3], shown=[l.replace('Allow 3D Arcs=False', 'Allow 3D Arcs=True').replace('=0.05mm', '=0.06mm') for l in ok[3]['shown']][1:])
    alter(ok[4], levels=[1, 0, 3, 0, 0, 0]) if not any(w['opt'] == 'l' for w in ok[4]['words']) else None
    alter(ok[5], warned=['radius', 'radius']); alter(ok[6], progress=dict(simple=2, full=2))
    alter(rej[0], exit=0); alter(rej[1], changed=['out.gcode']); alter(rej[2], said=False)
    x = next(c for c in rej if not any(w['w'] == 'opt' and w['kind'] == 'none' for w in c['words'])); alter(x, exit=0, made=True)
    nb = canaries('OptionsTrace', vf.cfg_text(['OK']), bad)
    good = sum(c['exit'] == 0 for c in cases)
    vf.evidence(prop, 'model_checking', dict(states=res.distinct, transitions=res.generated, traces_validated_against_impl=len(recs), command_lines_accepted=good, command_lines_rejected=len(recs) - good,
        words=sum(len(c['words']) for c in cases), results_that_an_option_alone_changed=matters, corrupted_records_rejected=nb, samples=[i for _, i in recs[3:1200:300]]),
        ['the library run beside the program shows what the settings in force do', 'values of at most six decimals', 'words whose meaning depends on a later rejected word are not combined with help'])
    return 0

# ------------------------------- the straightener -------------------------------
import chk_settings, gen_arc, straighttrace as st
SLONG = dict(f='firmware-type', v='firmware-version', g='g90-g91-influences-extruder', l='log-level', **{k: l for k, l in gen_arc.OPT.values()})
SWHOLE = 'rac'
SVALUES = {k: [format(Decimal(str(v)), 'f') for v in gen_arc.VALUES[n]] for n, (k, _) in gen_arc.OPT.items()}
SVALUES['s'] = ['0', '5', '12.5', '50', '100']; SVALUES['c'] += ['-1', '3', '7']; SVALUES['r'] += ['-1']; SVALUES['n'] += ['-0.5']; SVALUES['m'] = ['.2', '.35', '.5', '1', '1.25', '2', '5']
SDEF = dict(mm='1', perr='0', minper='0', minseg='24', persec='0', minmm='.1', maxmm='1', mincirc='72', err='.01')
def sopt(r, o, v, kind=None):
    if o in 'fvgl': return word('opt', opt=o, kind='text', t=v, arg='-%s=%s' % (o, v) if r.random() < .5 else '--%s=%s' % (SLONG[o], v))
    t = v if kind else spell(r, v, o in SWHOLE)
    kind = kind or ('whole' if re.fullmatch(r'[+-]?\d+', t) else 'dec')
    return word('opt', opt=o, kind=kind, num=decimal(v) if kind in ('whole', 'dec') else dict(neg=False, i=0, u=0), t=t, arg='-%s=%s' % (o, t) if r.random() < .5 else '--%s=%s' % (SLONG[o], t))
def sswitch(r, n=1): return word('switch', opts=['p'] * n, arg='-' + 'p' * n if n > 1 or r.random() < .5 else '--print-firmware-defaults')
def sother(r):
    o = r.choice('mdinbracse')
    a = r.choice(['-q', '-q=5', '--resolution=0.1', '--bogus', '-%s1' % o, '-p=1', '--print-firmware-defaults=TRUE', '--%s' % SLONG[o][:-1], '-%s' % SLONG[o], '--%s=1' % o, '-z', '-M=1', '--%s=1' % SLONG[o].replace('-', '_'),
                  '---%s=1' % SLONG[o], '-%s:1' % o, '--firmware=PRUSA', '-F=PRUSA', '-fPRUSA', '--type=PRUSA'])
    return word('other', t=a, arg=a)
def sbare(r):
    o = r.choice('fvglmdinbracse')
    return word('opt', opt=o, kind='none', arg=r.choice(['-%s' % o, '--%s' % SLONG[o], '-%s=' % o, '--%s=' % SLONG[o]]))
def slib(t, v, g, s):
    """the settings that should be in force, for the library (the specification checks them)"""
    t = t or 'MARLIN_2'
    fw = next(m for m, (ft, vs) in gen_arc.FW.items() if ft == t and (v if v not in ('', 'LATEST_RELEASE') else 'LATEST_RELEASE') in vs)
    e = {}
    for n in gen_arc.USED[fw]:
        k, name = gen_arc.OPT[n]
        e[name] = s.get(k, ('5' if fw == 'SM' else '25') if n == 'ncorr' else '0' if fw == 'SM' and n == 'mm' else SDEF[n] if n in SDEF else '0')
    e['g90-g91-influences-extruder'] = '1' if (gen_arc.G90E[fw] if g in ('', 'DEFAULT') else g == 'TRUE') else '0'
    return dict(type=t, ver=gen_arc.FW[fw][1][0], set=e)
def snum(name, v): return int(v) if name in chk_settings.COUNTS or name[:3] == 'g90' else int(Decimal(v) * 100000)

def srequests(seed, count):
    r = random.Random('S06/%d' % seed)
    Q = []
    versions = [('', '')] + [(t, v) for t, vs in chk_settings.TYPES.items() for v in vs + ['', 'LATEST_RELEASE']]
    used = {tv: [gen_arc.OPT[n][0] for m, (ft, vs) in gen_arc.FW.items() if ft == (tv[0] or 'MARLIN_2') and (tv[1] or 'LATEST_RELEASE') in vs for n in gen_arc.USED[m]] for tv in versions}
    def paths(): return r.choice([['a.gcode', 'out.gcode']] * 5 + [['a.gcode']] * 2 + [['a.gcode', 'b.gcode'], ['my file.gcode', 'sub/out file.gcode'], ['a.gcode', 'a.gcode'], ['a.gcode', 'no extension']])
    def order(W, ps):
        r.shuffle(W)
        at = sorted(r.randrange(len(W) + 1) for _ in ps)
        for p, k in reversed(list(zip(ps, at))): W.insert(k, path(p))
        return W
    def words(tv, g, s, l, mess=()):
        return ([sopt(r, 'f', tv[0])] if tv[0] else []) + ([sopt(r, 'v', tv[1])] if tv[1] else []) + ([sopt(r, 'g', g)] if g else []) + [sopt(r, o, x) for o, x in s.items()] + ([sopt(r, 'l', l)] if l else []) + list(mess)
    def put(W, tv=('', ''), g='', s=None, k=None): Q.append(dict(words=W, lib=slib(tv[0], tv[1], g, s or {}), prog=r.randrange(10 ** 6) if k is None else k))
    def some(tv=None):
        tv = tv or r.choice(versions)
        s = {o: r.choice(SVALUES[o]) for o in used[tv] if r.random() < .4}
        if Decimal(s.get('b', '.1')) > Decimal(s.get('d', '1')): s['b'] = '.05'
        return tv, r.choice(['', '', 'TRUE', 'FALSE', 'DEFAULT']), s, r.choice(['', '', 'INFO', 'NOSET', 'VERBOSE', 'DEBUG', 'WARNING', 'ERROR', 'CRITICAL'])
    for tv in versions:
        for k in range(6): put(order(words(tv, '', {}, ''), paths()), tv, '', {}, k)
        for g in ('TRUE', 'FALSE', 'DEFAULT'): put(order(words(tv, g, {}, ''), paths()), tv, g, {})
        for o in SVALUES:
            for v in SVALUES[o] if o in used[tv] else SVALUES[o][:2]:
                for k in range(3 if o in used[tv] else 1): put(order(words(tv, '', {o: v}, ''), paths()), tv, '', {o: v} if o in used[tv] else {}, r.randrange(6))
        for ps in ([], []): put(order(words(tv, '', {}, '', [sswitch(r)]), ps), tv)
    for l in ('NOSET', 'VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        for k in range(4): put(order(words(('', ''), '', {}, l), paths()))
    def wrong(mess, ps=None, drop='', tv=None, quiet=True):
        tv, g, s, l = some(tv) if r.random() < .6 or tv else (('', ''), '', {}, '')
        s = {o: v for o, v in s.items() if o not in drop}
        put(order(words(('' if 'f' in drop else tv[0], '' if 'f' in drop or 'v' in drop else tv[1]), '' if 'g' in drop else g, s, '' if 'l' in drop or quiet else l, mess), paths() if ps is None else ps))
    for _ in range(4 if vf.THOROUGH else 1):
        for o in 'mdinbse':
            for t in r.sample(TEXTS, 6): wrong([sopt(r, o, t, 'text')], drop=o)
            wrong([sopt(r, o, '1'), sopt(r, o, '2')], drop=o)
        for o in SWHOLE:
            for t in r.sample(TEXTS, 4): wrong([sopt(r, o, t, 'text')], drop=o)
            for t in ('3.0', '3.5', '4e0', '.5', '1e2'): wrong([word('opt', opt=o, kind='dec', num=decimal(t), t=t, arg='-%s=%s' % (o, t))], drop=o)
            for t in ('99999999999', '4294967300'): wrong([word('opt', opt=o, kind='huge', num=decimal(t), t=t, arg='-%s=%s' % (o, t))], drop=o)
            wrong([sopt(r, o, '1'), sopt(r, o, '2')], drop=o)
        for o, vs in (('f', ['MARLIN', 'marlin_2', 'MARLIN_3', 'Prusa', 'SMOOTHIE', '0', 'PRUSA ', 'REPETIER_1']), ('g', ['true', 'YES', '1', 'default', 'TRUE ', 'FALS']), ('l', ['info', 'WARN', '3', 'BOGUS', 'INFO ']),
                      ('v', ['latest', 'LATEST', '2.0.9', '9', '1.1.9', 'v2.0.9.1', '3.12.0'])):
            for v in vs:
                wrong([sopt(r, o, v)], drop=o)
                if o in 'fv': wrong([sopt(r, o, v), sswitch(r)], drop='fv', ps=[])
            for v in vs[:2]: wrong([sopt(r, o, v), sopt(r, o, dict(f='PRUSA', g='TRUE', l='INFO', v='LATEST_RELEASE')[o])], drop=o)
            v = dict(f='PRUSA', g='TRUE', l='INFO', v='LATEST_RELEASE')[o]
            wrong([sopt(r, o, v), sopt(r, o, v)], drop=o)
        for tv in versions:                                    # what the version does not have; versions of other types
            for o in SVALUES:
                if o not in used[tv]: wrong([sopt(r, o, r.choice(SVALUES[o]))], tv=tv)
            if tv[1] not in ('', 'LATEST_RELEASE'):
                for t in chk_settings.TYPES:
                    if t != tv[0]: put(order([sopt(r, 'f', t), sopt(r, 'v', tv[1])], paths()))
                if tv[0] != 'MARLIN_2': put(order([sopt(r, 'v', tv[1])], paths()))
        for _ in range(60): wrong([sother(r)])
        for _ in range(16): wrong([sbare(r)], drop='fvglmdinbracse')
        for _ in range(10): wrong([sswitch(r)]); wrong([sswitch(r)], ps=[]); wrong([sswitch(r), sswitch(r)], ps=[]); wrong([sswitch(r, 2)], ps=[]); wrong([sswitch(r), sother(r)], ps=[])
        for ps in ([], ['none.gcode'], ['none.gcode', 'out.gcode'], ['a.gcode', 'out.gcode', 'b.gcode'], ['a.gcode', 'out.gcode', 'none.gcode', 'b.gcode'], ['nodir/a.gcode'], ['A.gcode', 'a.gcode'],
                   ['a.gcode ', 'out.gcode'], ['out.gcode', 'a.gcode'], ['a'], ['sub/a.gcode', 'out.gcode']):
            for _ in range(2): wrong([], ps=ps)
        for t in NOWHERE:
            for _ in range(3): wrong([], ps=['a.gcode', t], quiet=False); wrong([], ps=['b.gcode', t])
        for h in ('-h', '--help', '--version'):
            for _ in range(4): wrong([word('help', arg=h)]); wrong([word('help', arg=h)], ps=[])
            wrong([word('help', arg=h), sopt(r, 'f', 'BOGUS')], drop='f'); wrong([word('help', arg=h), sopt(r, 'm', 'abc', 'text')], drop='m')
    while len(Q) < count:
        tv, g, s, l = some()
        put(order(words(tv, g, s, l), paths()), tv, g, s)
    return Q

def sprograms(n):
    P = []
    for k in range(n):
        r = random.Random('S06/prog/%d/%d' % (vf.SEED, k))
        text = gen_arc.program(r, dict(n=6))[0]
        head = '\n'.join(['M82', 'G90', 'G92 E0', 'G1 X30 Y30 Z.4 E0 F%d' % (1200 + 600 * k), 'M83', 'G90', 'G3 X30 Y40 I2 J5 E2', 'G2 X60 Y60 I30 J0 E4 F6000', 'G1 X70 E1', 'G3 X70 Y60 I-8 J0 E2.5', 'G2 X71 Y61 I1 J0 E.2 F600', 'M82', 'G92 E0'])
        P.append(head + '\n' + text)
    return P

SBODY = {}
def srecord(q, n, P):
    top = os.path.join(vf.scratch(), 'd%d' % n); d = top + '/w'
    os.makedirs(d + '/sub')
    try:
        text = P[q['prog'] % len(P)].encode()
        for f in FILES: open(os.path.join(d, f), 'wb').write(text)
        before = snapshot(d)
        a = [x['arg'] for x in q['words']]
        r = subprocess.run([vf.build('straightener')] + a, cwd=d, capture_output=True, text=True, errors='replace', timeout=60)
        after = snapshot(d)
        paths = [x['t'] for x in q['words'] if x['w'] == 'path']
        target = (paths + paths)[1] if len(paths) == 1 else paths[1] if paths else ''
        made = after.get(target)
        body = lambda b: ident('\n'.join(st.strip_header(b.decode(errors='surrogateescape').split('\n'))[0]).encode(errors='surrogateescape'))
        out = r.stdout + r.stderr
        key = (q['prog'] % len(P), json.dumps(q['lib'], sort_keys=True))
        if key not in SBODY:
            open(top + '/s.gcode', 'wb').write(text)
            h = subprocess.run([vf.build('harness2'), top + '/s.gcode', top + '/t.gcode', 'f=' + q['lib']['type'], 'v=' + q['lib']['ver']] + ['%s=%s' % x for x in q['lib']['set'].items()], capture_output=True, timeout=60)
            SBODY[key] = body(open(top + '/t.gcode', 'rb').read()) if os.path.exists(top + '/t.gcode') and h.returncode == 0 else 'failed'
        found = LEVELS.findall(out)
        shown = []
        for l in out.split('\n'):
            k = re.match(r'\t(Source File Path|Target File Path \(overwrite\)|Target File File|Log Level) *: (.*)', l)
            if k: shown.append('%s:%s' % k.groups())
        c = dict(words=[{k: v for k, v in x.items() if k != 'arg'} for x in q['words']], files=FILES, nowhere=NOWHERE, exit=abs(r.returncode), said='ERROR' in r.stderr or 'failed' in out, printed=len(r.stdout) > 20,
                 running='Running' in out, changed=sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)), made=made is not None, body=body(made) if made is not None else '',
                 lib=dict(type=q['lib']['type'], ver=q['lib']['ver'], set={k: snum(k, v) for k, v in q['lib']['set'].items()}, body=SBODY[key]), shown=shown, levels=[found.count(x) for x in NAMES],
                 success='Process completed successfully' in out)
        return c, dict(args=a, exit=r.returncode, log=out[:1500], changed=c['changed'])
    finally: shutil.rmtree(top, ignore_errors=True)

def check_s06(prop):
    for b in ('straightener', 'harness2'): vf.build(b)
    P = sprograms(6)
    qs = srequests(vf.SEED, 12000 if vf.THOROUGH else 1500)
    with ThreadPoolExecutor(8) as ex: recs = list(ex.map(lambda x: srecord(x[1], x[0], P), enumerate(qs)))
    cfg = vf.cfg_text(['OK', 'Twice'], props=['Final'])
    res = run(prop, 'StraightOptionsTrace', cfg, recs, lambda k: srecord(qs[k], 10 ** 6 + k, P))
    base, matters = {}, {}
    for (c, _), q in zip(recs, qs):
        if q['lib'] == slib(q['lib']['type'], q['lib']['ver'], '', {}): base[q['prog'] % len(P), q['lib']['ver']] = c['lib']['body']
    for (c, _), q in zip(recs, qs):
        d = slib(q['lib']['type'], q['lib']['ver'], '', {})['set']
        diff = [k for k in d if Decimal(d[k]) != Decimal(q['lib']['set'][k])]
        b = base.get((q['prog'] % len(P), q['lib']['ver']))
        if len(diff) == 1 and b not in (None, c['lib']['body']): matters[diff[0]] = matters.get(diff[0], 0) + 1
    cases = [c for c, _ in recs]
    ok = [c for c in cases if c['exit'] == 0 and c['made'] and c['shown']]
    rej = [c for c in cases if c['exit'] != 0 and not c['changed'] and not any(w['w'] == 'path' and w['t'] in NOWHERE for w in c['words'])]
    bad = []
    def alter(c, **k): b = copy.deepcopy(c); b.update(k); bad.append(b)
    alter(ok[0], body='x'); alter(ok[1], exit=1); alter(ok[2], changed=['out.gcode', 'b.gcode']); alter(ok[3], shown=ok[3]['shown'][1:]); alter(ok[4], levels=[0, 0, 3, 0, 1, 0])
    alter(rej[0], exit=0); alter(rej[1], changed=['out.gcode']); alter(rej[2], said=False); alter(rej[3], running=True)
    nb = canaries('StraightOptionsTrace', vf.cfg_text(['OK']), bad)
    good = sum(c['exit'] == 0 for c in cases)
    fres, frecs, fnb, ends = chk_files.run_solo(prop, 'straightener')
    vf.evidence(prop, 'model_checking', dict(states=res.distinct + fres.distinct, transitions=res.generated + fres.generated, traces_validated_against_impl=len(recs) + len(frecs),
        command_lines_accepted=good, command_lines_rejected=len(recs) - good, words=sum(len(c['words']) for c in cases), results_that_a_setting_alone_changed=matters,
        runs_in_place_with_faults_and_kills=ends, operations=sum(len(c['events']) for c, _ in frecs), corrupted_records_rejected=nb + fnb, samples=[i for _, i in recs[3:1200:300]] + [i for _, i in frecs[5:200:90]]),
        ['the library run beside the program shows what the settings in force do', 'values of at most five decimals', 'stat does not fail; a loss of power is not modelled'])
    return 0
