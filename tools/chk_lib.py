"""G01-G07, L01, D01: the library's public interfaces, driven by harness/harness.cpp, against their specifications"""
import itertools, json, os, random, subprocess
import vf
from concurrent.futures import ThreadPoolExecutor

def run_harness(prop, mode, text, binary=None, what=''):
    """lines printed by the harness; a crash is a violation if it repeats"""
    binary = binary or vf.build('harness')
    d = vf.scratch(); p = os.path.join(d, '%s-%d.in' % (mode, id(text) % 1000003))
    open(p, 'w').write(text)
    rs = []
    for _ in range(2):
        try: r = subprocess.run([binary, mode, p], capture_output=True, text=True, errors='replace', timeout=300)
        except subprocess.TimeoutExpired: r = None
        if r is not None and r.returncode == 0: break
        rs.append(r)
    os.remove(p)
    if len(rs) == 2:
        rep = save_text(text)
        vf.violation(prop, 'the library failed (%s) on the recorded operations' % ('no answer' if rs[1] is None else 'exit %d' % rs[1].returncode),
                     dict(kind='harness', mode=mode, input=rep, stderr='' if rs[1] is None else rs[1].stderr[-500:]))
    return [json.loads(l) for l in r.stdout.split('\n') if l]
def save_text(t): return t if len(t) < 20000 else t[:20000]

def parallel(prop, mode, texts):
    b = vf.build('harness')
    with ThreadPoolExecutor(8) as ex: return list(ex.map(lambda t: run_harness(prop, mode, t, b), texts))

def blocks(cases, n=64):
    k = max(1, (len(cases) + n - 1) // n)
    return [cases[i:i + k] for i in range(0, len(cases), k)]

# ------------------------------------------------------------------ G01
SEEDL = ['G1 X10 Y-2.50 E.5 F1200', 'G0 X1', 'g1x1y2', 'G 1 X 1 0 Y + 3 . 5', 'M117 Hello World', 'M117', 'm117 x1', 'T0', 'T 12', 't c', 'T?', 'Tx', 'TX 5', 'T', 'T-1',
  'G28', 'G28 X', 'G28 X Y', 'G28 x0 y0', 'G29.1', 'G29. 1 X2', 'G.5 X1', 'G1.', 'G92 E0', 'G92', 'M82', 'M104 S200 T1', 'M106 S255.0', 'N10 G1 X5', '*5', '(x)', '@octolapse take-snapshot x1',
  '@pause now', '@', '@OCTOLAPSE', '@octolapse  a b', 'G1 X1 hello', 'G1 X-', 'G1 X- Y2', 'G1 X.', 'G1 X1.0.0 Y2', 'G1 X1e5', 'G1 X--1', 'G1 E-0', 'G1 E-0.000', 'G10 P1 X2.5', 'M218 T1 X2 Y-3',
  'M563 P0 D0', 'G80', 'G4 P100', 'M400', 'G1000 X1', 'M 1 0 6 S1', 'G01 X5', 'G00', 'G1 .5', 'G 1', 'G', 'M', 'GG1', 'G1G2', 'X10', '1', 'HELLO', 'G1 X10Y20Z0.3E1.23456F3000', 'G1 X12345678.12345678',
  'G1 X0000.1', 'G1 X123456789012', 'G1 X0.12345678901', 'M240', 'M 83', 'T\t1', 'T\tc', 'G1\tX1\tY2', 'M117 M\xfcller', 'm117\t\xe9x', 'g1 x1 \xb5', '\xb5', '\x01', 'T1 X5', 'T1;c', 'T 1 2', 'M105 x y z']
ENDS = ['', '', '', ';', '; c', ';c;d', ' ; a b ', ';\tx', ';UPPER lower', '\t', '  ', '\r', ';x\r', ' ']
STARTS = ['', '', '', ' ', '   ']
def mutate(r, s):
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        k = r.randrange(7); i = r.randrange(len(s) + 1)
        if k == 0: s = s[:i] + ' ' + s[i:]
        elif k == 1 and s: i %= len(s); s = s[:i] + s[i + 1:]
        elif k == 2 and s: i %= len(s); s = s[:i] + sw(s[i]) + s[i + 1:]
        elif k == 3: s = s[:i] + r.choice('GMTXYZEFIJPS0123456789.-+ ;@?*cx\t\x01\xe9\xff') + s[i:]
        elif k == 4: s = s.replace(' ', '')
        elif k == 5: s = s.replace(' ', '  ')
        else: s = lo(s) if r.random() < .5 else up(s)
    return s
def asc(f): return lambda s: f(s.encode('latin1')).decode('latin1')
lo, up, sw = asc(bytes.lower), asc(bytes.upper), asc(bytes.swapcase)
def g01_lines(n):
    r = random.Random('G01/%d' % vf.SEED)
    out = []
    for cmd in ['G0', 'G1', 'G2', 'G3', 'G10', 'G11', 'G20', 'G21', 'G28', 'G29', 'G80', 'G90', 'G91', 'G92', 'M82', 'M83', 'M104', 'M105', 'M106', 'M109', 'M114', 'M116', 'M140', 'M141',
                'M190', 'M191', 'M207', 'M208', 'M218', 'M240', 'M400', 'M563', 'G4', 'M84', 'M117', 'M118', 'M900', 'G29.2', 'G10.0']:
        out += [cmd, cmd + ' X1.25 Y-3 s7', cmd.lower() + 'p1 t0 ;x', ' ' + cmd + ' e5;']
    for n_ in range(10): out += ['G%d.%d X1' % (k, n_) for k in (1, 29)] + ['G29. %d%d' % (n_, 9 - n_), 'G%d%d X1' % (n_, 9 - n_), 'T%d' % n_, 'T%d%d ' % (9 - n_, n_), 'G1 X%d%d.%d%d E-%d' % (n_, 9 - n_, n_, 9 - n_, n_), 'M10%d S%d' % (n_, n_)]
    for n_ in range(0, 1000): out += ['%s%d X1 S2' % (r.choice('GMgm'), n_)]
    for s in SEEDL:
        for e in ('', ';', '; Note', ' '): out.append(s + e)
    while len(out) < n:
        k = r.random()
        if k < .35:
            s = r.choice(['G', 'g', 'M', 'G']) + r.choice(['', '', ' ']) + r.choice(['0', '1', '1', '2', '3', '28', '92', '10', '104', '106', '218', '29.1', '01'])
            for _ in range(r.choice([0, 1, 2, 3, 5])):
                v = r.choice(['%d' % r.randint(0, 300), '%.2f' % r.uniform(-300, 300), '%.5f' % r.uniform(-3, 3), '.%03d' % r.randint(0, 999), '-.5', '+1', '0', '', '%.3f' % r.uniform(0, 99999), '%.9f' % r.uniform(0, 9), '5.'])
                s += r.choice([' ', ' ', '', '  ']) + r.choice('XYZEFIJPSRTxyzef') + v
        elif k < .85: s = mutate(r, r.choice(SEEDL))
        else: s = ''.join(r.choice('GMT1023. ;-+@XEc?') for _ in range(r.randint(0, 9)))
        s = r.choice(STARTS) + s + r.choice(ENDS)
        if len(s) <= 60 and not any(len(w) > 15 for w in __import__('re').findall(r'[0-9. ]+', s.split(';')[0])): out.append(s)
    return out
def g01_exhaustive(n):
    """every line of up to n characters over an alphabet of the characters that matter"""
    alpha = 'G1 .xT;-@0'
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k): yield ''.join(t)
def chk_g01(prop):
    lines = g01_lines(40000 if vf.THOROUGH else 6000)
    ex = list(g01_exhaustive(5 if vf.THOROUGH else 4))
    jobs = [(l, pf) for l in lines for pf in (True, False)] + [(l, len(l) % 2 == 0) for l in ex]
    text = ''.join('%s %s\n' % ('p' if pf else 'u', l.encode('latin1').hex()) for l, pf in jobs)
    res = run_harness(prop, 'parse', text)
    if len(res) != len(jobs): raise vf.CheckError('harness printed %d of %d results' % (len(res), len(jobs)))
    cases = [dict(l=list(l.encode('latin1')), pf=pf, r=r) for (l, pf), r in zip(jobs, res)]
    states = trans = 0
    cfg = vf.cfg_text(['OK_G01', 'LAWS'])
    for at in range(0, len(cases), 40000):
        part = blocks(cases[at:at + 40000])
        t = vf.tlc('ParserTrace', cfg, part, deadlock=False)
        states += t.distinct; trans += t.generated
        if not t.ok:
            c = part[int(t.var('c')) - 1][int(t.var('i')) - 1]
            if t.invariant == 'LAWS': raise vf.CheckError('the specification breaks its own laws on %r' % bytes(c['l']))
            vf.violation(prop, 'the line %r is not parsed as Parser.tla says' % bytes(c['l']).decode('latin1'),
                         dict(kind='parse', line=bytes(c['l']).decode('latin1'), preserve=c['pf'], result=c['r']))
    bad = json.loads(json.dumps(cases[0])); bad['r']['c'] = bad['r']['c'] + [48]
    t = vf.tlc('ParserTrace', vf.cfg_text(['OK_G01']), [[bad]], workers=1, deadlock=False, heap='1g')
    if t.invariant != 'OK_G01': raise vf.CheckError('a corrupted result was accepted')
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=len(cases), exhaustive_lines=len(ex), generated_lines=len(lines),
        samples=[dict(line=l, preserve=pf, result=r) for (l, pf), r in list(zip(jobs, res))[:400:40]]),
        ['numbers have at most 15 digits', 'exhaustive over a 10 character alphabet up to the stated length'])

# ------------------------------------------------------------ G02 to G05
GROUPS = {
 'G02': ('x y z xn yn zn gx gy gz xo yo zo xf yf zf xh yh zh f fn rel reln def zr trav chxy ch'.split(), ()),
 'G03': ('erel ereln tool ne'.split(), 'e eo er ge fx fy fz'.split()),
 'G04': ((), 'xl xt rl dl xs xg pr rs rg rd prt ds dg dd'.split()),
 'G05': ('leh lehn lay h primed lc zhop hi hich hicc inb'.split(), ()),
}
U = 100000
def num(v, q=100000):
    """decimal text of an integer number of 1/q"""
    s = '-' if v < 0 else ''; v = abs(v); w = len(str(q)) - 1
    t = '%d.%0*d' % (v // q, w, v % q)
    return s + t.rstrip('0').rstrip('.')
def r_units(c): return 'inches' if c['force'] else 'require-explicit'
def new_line(c, buffer=60):
    m = dict(ne=c['ne'], rl=','.join(num(v) for v in c['rl']), zl=','.join(num(v) for v in c['zl']), fx=','.join(num(v) for v in c['fx']), fy=','.join(num(v) for v in c['fy']),
             home=','.join(num(v) for v in c['home']), homenone=','.join('%d' % b for b in c['homeNone']), bounds=','.join(num(v) for v in c['bx'] + c['by'] + c['bz']),
             prime=num(c['prime']), minlayer=num(c['minlayer']), hinc=num(c['hinc']), g90e=int(c['g90e']), zb=int(c['zb']), tool=c['tool'],
             units='millimeters' if c['met'] else r_units(c),
             xyzmode='require-explicit' if c['ru'] else ('relative' if c['rel'] else 'absolute') if c['force'] == 0 else ('force-relative' if c['rel'] else 'force-absolute'),
             emode='require-explicit' if c['eu'] else ('relative' if c['erel'] else 'absolute') if c['force'] == 0 else ('force-relative' if c['erel'] else 'force-absolute'),
             bound=int(c['bound']), circ=int(c['circ']), buffer=buffer)
    return 'new ' + ' '.join('%s=%s' % kv for kv in m.items())
BASE = dict(ne=1, rl=[80000], zl=[40000], fx=[0], fy=[0], home=[0, 0, 0], homeNone=[False] * 3, bx=[0, 0], by=[0, 0], bz=[0, 0], prime=0, minlayer=0, hinc=0,
            g90e=False, zb=True, tool=0, rel=False, erel=False, bound=False, circ=False, force=0, ru=False, eu=False, met=True)
def cfgs(r, n, prop):
    out = []
    for k in range(n):
        c = dict(BASE); ne = r.choice([1, 1, 2, 3, 4]) if prop in ('G03', 'G04') else r.choice([1, 1, 2]); c['ne'] = ne
        c['rl'] = [r.choice([80000, 100000, 50000, 0]) for _ in range(ne)]; c['zl'] = [r.choice([40000, 20000, 0, 10000]) for _ in range(ne)]
        c['fx'] = [r.choice([0, 0, 25 * U, -150000]) for _ in range(ne)]; c['fy'] = [r.choice([0, 0, 5 * U]) for _ in range(ne)]
        c['home'] = [r.choice([0, 0, 10 * U, -4 * U, 12345]) for _ in range(3)]; c['homeNone'] = [r.random() < .3 for _ in range(3)]
        c['zb'] = r.random() < .6; c['tool'] = r.randrange(ne); c['g90e'] = r.random() < .5; c['rel'] = r.random() < .2; c['erel'] = r.random() < .4; c['force'] = r.randrange(2)
        if prop in ('G02', 'G03', 'G04'):
            if r.random() < .15: c['ru'], c['rel'] = True, False
            if r.random() < (.1 if prop == 'G04' else .2): c['eu'], c['erel'] = True, False
            if r.random() < .1: c['met'] = False
        if prop == 'G05':
            c['prime'] = r.choice([0, 0, 50000, 75000]); c['minlayer'] = r.choice([0, 5000, 10000, 30000]); c['hinc'] = r.choice([0, 50000, 25000, 100000])
            c['bound'] = r.random() < .5; c['circ'] = r.random() < .5; c['erel'] = r.random() < .7; c['homeNone'] = [False] * 3; c['home'] = [0, 0, 0]
            c['bx'] = r.choice([[0, 100 * U], [10 * U, 50 * U], [-20 * U, 20 * U]]); c['by'] = r.choice([[0, 100 * U], [-20 * U, 20 * U]]); c['bz'] = [0, r.choice([100 * U, 2 * U])]
        out.append(c)
    return out
ALPHA = {
 'G02': ['G1 X1 Y2 Z3 F600', 'G1 X2.5', 'G1 Z.5 F1200.5', 'G0 Y-1 E1', 'G90', 'G91', 'G92 X5 Y5', 'G92', 'G28', 'G28 X', 'G92 X1 O', 'T1', 'T0', 'G10 P1 X1 Y1.5 Z.25', 'G2 X3 Y3 I1 J1', 'M105'],
 'G03': ['G1 X1 E1', 'G1 E-1', 'G1 X2 E.5', 'G92 E0', 'G92 E3', 'G92', 'M82', 'M83', 'G91', 'G90', 'T0', 'T1', 'T7', 'M218 T1 X1 Y2', 'G1 X3', ';x'],
 'G04': ['G1 X1 E1', 'G1 X2 E.5', 'G1 E-.8', 'G1 E-.3', 'G1 E.3', 'G1 E.8', 'G1 E.00001', 'G1 X5', 'G1 X6', 'G92 E0', 'T0', 'T1', 'G1 E2 X9', 'M106'],
 'G05': ['G1 Z.2', 'G1 Z.4', 'G1 Z.6', 'G1 Z.8', 'G1 X1 E1', 'G1 X2 E1', 'G1 X3', 'G1 E-.8', 'G1 E.8', 'G1 X99 E1', 'G1 Z.25 E.1', 'G92 Z0', 'M105'],
}
def obs(o, prop):
    a, b = GROUPS[prop]
    d = {k: o[k] for k in a}
    if b: d['ex'] = [{k: e[k] for k in b} for e in o['ex']]
    return d
def rec(line):
    import gcode
    t = gcode.tokenize(line)
    return dict(c=t['c'], p=dict(t['p'], _=0), n=t['n'], cs=t['cs'], empty=t['empty'])
def tree(prop, cfg, prefix, alpha, depth):
    """the tree of all programs over alpha up to depth after the prefix: harness input and nodes"""
    nodes, text, root = [], [new_line(cfg)], []
    path0 = []
    for k, l in enumerate(prefix):
        nodes.append(dict(l=l, kids=[])); text.append('line %d %s' % (len(nodes), l.encode().hex())); (root if not path0 else nodes[path0[-1] - 1]['kids']).append(len(nodes)); path0.append(len(nodes))
    want = [0] + path0[:]
    def grow(path, d):
        if d == 0: return
        for a in alpha:
            nodes.append(dict(l=a, kids=[])); me = len(nodes)
            (nodes[path[-1] - 1]['kids'] if path else root).append(me)
            text.append(new_line(cfg))
            for q in path: text.append('qline %d %s' % (q, nodes[q - 1]['l'].encode().hex()))
            text.append('line %d %s' % (me, a.encode().hex()))
            want.append(-1); want.append(me)
            grow(path + [me], d - 1)
    grow(path0, depth)
    return '\n'.join(text) + '\n', nodes, root, want
V = [0, 1, 10, 100, 12345, 50000, 100000, 250000, -100000, 1000000, 1234567, 20000000, -333, 99999, 10000]
def g_program(r, prop, cfg):
    out = []; z = 0; abs_e = 0
    n = r.choice([20, 40, 80])
    if r.random() < .7: out.append('G28')
    for _ in range(n):
        k = r.random()
        def pick(ls, f, p=.5): return ''.join(' ' + l + f(l) for l in ls if r.random() < p)
        v = lambda l: num(r.choice(V) if r.random() < .5 else r.randint(-3000000, 30000000))
        if prop == 'G02':
            if k < .4: s = r.choice(['G0', 'G1', 'G1', 'G2', 'G3']) + pick('XYZ', v) + pick('E', lambda l: num(r.randint(-100000, 300000)), .3) + pick('F', lambda l: num(r.randint(0, 9000000), 1000), .2)
            elif k < .52: s = 'G92' + pick('XYZ', v, .4)
            elif k < .6: s = r.choice(['G28', 'G28 X', 'G28 Y0', 'G28 Z', 'G28 X Y', 'G28 X0 Z0', 'G28 W', 'G28 Y Z', 'G28 Z Y', 'G28 z x', 'G28 X Y Z', 'G28 Y0 Z', 'G28 y w x', 'G28 Y'])
            elif k < .75: s = r.choice(['G90', 'G91'])
            elif k < .82: s = r.choice(['G10 P', 'M218 T']) + r.choice(['0', '1', '2', '9', '-1', '1.4', '1.5']) + pick('XYZ', v)
            elif k < .9: s = 'T%d' % r.choice([0, 1, 2, 5])
            else: s = r.choice(['M105', '', '; x', 'G92 O', 'G92 X1 O', 'G10', 'G10 X5', 'M82', 'G21', 'M218 X3', 'G28 ;c', 'HELLO', 'T?', 'G1', 'G10 P1 X', 'G10 P X1', 'G10 P1 Yabc X2', 'M218 T1 Z', 'M218 T X3', 'M218 T1 X Y4', 'G20', 'M83', 'G10 P0 Z Y1'])
        elif prop == 'G03':
            ev = lambda l: num(r.choice([0, 1, 10000, 80000, -80000, 100000, 1234567, -33333]) if r.random() < .6 else r.randint(-500000, 5000000))
            if k < .45: s = r.choice(['G0', 'G1', 'G1', 'G2', 'G3']) + pick('X', v) + pick('E', ev, .8)
            elif k < .57: s = r.choice(['G92 E0', 'G92', 'G92 E' + ev(0), 'G92 X0'])
            elif k < .7: s = r.choice(['M82', 'M83', 'G90', 'G91'])
            elif k < .85: s = 'T%d' % r.choice([0, 1, 2, 3, 4, 5, 77, 123456789])
            elif k < .95: s = r.choice(['G10 P', 'M218 T']) + r.choice(['0', '1', '2', '3', '9', '-1', '2.5', '1.49']) + pick('XYZ', v)
            else: s = r.choice(['M105', '', '; x', 'T', 'TX', 'T?', 'G28', 'T1 ; c', 'T 2', 'M218 X1', 'G10 P X1', 'G10 P1 X', 'M218 T1 Z', 'M218 T X3', 'G10 P1 Y Z2', 'M218 T0 Yx Z1', 'M82'])
        else:
            if k < .30: e = r.choice([10000, 50000, 100000, r.randint(1, 300000)])
            elif k < .42: e = -r.choice([80000, 100000, 50000, 30000, 1, r.randint(1, 200000)])
            elif k < .54: e = r.choice([80000, 100000, 50000, 30000, 1, r.randint(1, 200000)])
            else: e = None
            if e is not None and not cfg['erel']: abs_e += e; e = abs_e if r.random() < .95 else e
            es = '' if e is None else ' E' + num(e)
            if k < .42 or e is not None: s = 'G1' + (' X%d Y%d' % (r.randint(-30, 110), r.randint(-30, 110)) if k < .3 or k > .5 else '') + es
            elif k < .8:
                if r.random() < .6: z = max(0, z + r.choice([20000, 20000, 20000, 5000, 10000, 40000, -40000, -20000, 1, 9999]))
                s = 'G1 Z' + num(z)
                if r.random() < .3: s += ' X%d' % r.randint(-30, 110)
            elif k < .9: s = 'G%d X%d Y%d' % (r.choice([0, 1]), r.randint(-30, 110), r.randint(-30, 110))
            else:
                s = r.choice(['T0', 'T1', 'T2', 'G92 E0', 'M106 S1', '', '; c', 'M83', 'M82', 'G92 Z0', 'G91', 'G90', 'G28'] if r.random() < .5 else ['T0', 'T1', 'G92 E0'])
                if s == 'G92 E0': abs_e = 0
        out.append(s)
    return out
def chk_tracker(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED))
    jobs = []
    # every program over the alphabet up to a length, for several configurations
    ex_cfgs = [dict(BASE, ne=2, rl=[80000, 30000], zl=[40000, 20000], fx=[0, 25 * U], fy=[0, 0]),
               dict(BASE, ne=2, rl=[30000, 80000], zl=[20000, 40000], fx=[100, 0], fy=[0, 7 * U], zb=False, g90e=True, erel=prop != 'G02', home=[U, 2 * U, 50000], homeNone=[prop == 'G02', False, False],
                    prime=50000, minlayer=15000, hinc=40000, bound=True, bx=[0, 50 * U], by=[0, 50 * U], bz=[0, 10 * U])]
    if prop in ('G02', 'G03'): ex_cfgs.append(dict(BASE, ne=2, rl=[80000, 30000], zl=[40000, 20000], fx=[0, 25 * U], fy=[0, 0], ru=True, eu=True, g90e=prop == 'G02'))
    depth = 4 if vf.THOROUGH else 3
    for c in ex_cfgs:
        for prefix in (['G28'], [] if prop == 'G02' else ['G28', 'M83', 'G1 X0 Y0 Z0']): jobs.append((c, tree(prop, c, prefix, ALPHA[prop], depth)))
    n_ex = sum(len(t[1]) for _, t in jobs)
    nprog = 3000 if vf.THOROUGH else 500
    for c in cfgs(r, nprog, prop): jobs.append((c, tree(prop, c, g_program(r, prop, c), [], 0)))
    outs = parallel(prop, 'track', [t[0] for _, t in jobs])
    cases = []
    for (c, (text, nodes, root, want)), out in zip(jobs, outs):
        if len(out) != len(want): raise vf.CheckError('harness printed %d of %d results' % (len(out), len(want)))
        o0 = None
        for w, o in zip(want, out):
            if w == 0: o0 = obs(o['o'], prop)
            elif w > 0: nodes[w - 1]['o'] = obs(o['o'], prop)
        for nd in nodes: nd['cmd'] = rec(nd['l'])
        cases.append(dict(cfg=c, nodes=nodes, kids=root, o=o0))
    states = trans = at = 0
    cfg = vf.cfg_text(['OK_' + prop, 'LAWS'], props=['LAW_STEP'])
    while at < len(cases):
        part, k = [], 0
        while at < len(cases) and (k == 0 or k + len(cases[at]['nodes']) < 60000): part.append(cases[at]); k += len(cases[at]['nodes']); at += 1
        t = vf.tlc('TrackerTrace', cfg, part, deadlock=False)
        states += t.distinct; trans += t.generated
        if not t.ok:
            if t.invariant == 'LAWS' or t.action: raise vf.CheckError('the specification breaks its own laws %s\n' % t.invariant + t.out[-9000:])
            c = part[int(t.var('c')) - 1]; n = int(t.var('n')); path = []
            def find(kids, p):
                for q in kids:
                    if q == n: return p + [q]
                    f = find(c['nodes'][q - 1]['kids'], p + [q])
                    if f: return f
            import sys; sys.setrecursionlimit(10000)
            path = [c['nodes'][q - 1]['l'] for q in (find(c['kids'], []) or [])] if n else []
            vf.violation(prop, 'the tracked state after %r is not the printer\'s' % (path[-1] if path else 'start'),
                         dict(kind='track', cfg=c['cfg'], program=path, tracked=c['nodes'][n - 1]['o'] if n else c['o'], specification=t.state()))
    bad = json.loads(json.dumps(cases[-1])); f = bad['nodes'][-1]['o']
    if prop in ('G02', 'G05'): k = GROUPS[prop][0][0]; f[k] = f[k] + 1
    else: k = GROUPS[prop][1][0]; f['ex'][0][k] += 1
    if vf.tlc('TrackerTrace', vf.cfg_text(['OK_' + prop]), [bad], workers=1, deadlock=False, heap='1g').invariant != 'OK_' + prop: raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=sum(len(c['nodes']) for c in cases), exhaustive_programs=n_ex, generated_programs=nprog,
        samples=[dict(cfg=c['cfg'], program=[x['l'] for x in c['nodes']][:30]) for c in cases[-5:]]),
        ['coordinates are multiples of 10^-5 mm below 300 m', 'every program over the alphabet up to length %d after its prefix; longer programs are sampled' % depth])

# ------------------------------------------------------------------ G06
G06_LINES = ['G1 X1 Y2 E.5', 'G1 E-.8', 'G92 E0', 'G28', 'G91', 'T1', 'G1 Z.2 F600', 'G10 P1 X3', 'M106 S5 ; c', 'G1 X5 E1 ; perimeter', '; note', '', 'G1 X7.25', 'M83']
def g06_sequences():
    """every sequence of updates, undos and growths up to a length, for small capacities"""
    L = 7 if vf.THOROUGH else 5
    for M in (2, 3, 4):
        def go(seq, cnt, mx):
            if len(seq) == L: yield (M, list(seq)); return
            for a in (0, 1): yield from go(seq + [('line', a)], min(mx, cnt + 1), mx)
            if cnt > 0: yield from go(seq + [('undo', 1)], cnt - 1, mx)
            if cnt > 1: yield from go(seq + [('undon', 2)], cnt - 2, mx)
            if mx == M: yield from go(seq + [('grow', M + 2)], cnt, M + 2)
        yield from go([], 0, M)
def chk_g06(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED))
    runs = [(dict(BASE, ne=2, rl=[80000] * 2, zl=[20000] * 2, fx=[0, 100000], fy=[0, 0]), M, q, [G06_LINES[0], G06_LINES[6]]) for M, q in g06_sequences()]
    n_ex = len(runs)
    for c in cfgs(r, 3000 if vf.THOROUGH else 500, 'G04'):
        M = r.choice([2, 3, 5, 10, 50]); mx, cnt, q = M, 0, []
        for _ in range(r.choice([15, 40])):
            k = r.random()
            if k < .6 or cnt == 0: q.append(('line', r.randrange(len(G06_LINES)))); cnt = min(mx, cnt + 1)
            elif k < .85: q.append(('undo', 1)); cnt -= 1
            elif k < .95: n = r.randint(1, cnt); q.append(('undon', n)); cnt -= n
            else: n = r.choice([mx - 1, mx, mx + 1, mx + 5]); q.append(('grow', n)); mx = max(n, mx)
        runs.append((c, M, q, G06_LINES))
    groups = [runs[k::16] for k in range(16)]
    texts = []
    for g in groups:
        t = []
        for c, M, q, lines in g:
            t.append(new_line(c, M))
            for k, (op, a) in enumerate(q): t.append('line %d %s' % (a, lines[a].encode().hex()) if op == 'line' else 'undo' if op == 'undo' else '%s %d' % (op, a))
        texts.append('\n'.join(t) + '\n')
    cases = []
    for g, out in zip(groups, parallel(prop, 'track', texts)):
        at = 0
        for c, M, q, lines in g:
            o = out[at:at + 1 + len(q)]; at += 1 + len(q)
            cases.append(dict(max=M, id0=o[0]['id'], ops=[dict(op=op, k=a, line='%s' % a, **{f: x[f] for f in ('id', 'pid', 'cid', 'cpid', 'n', 'max')}) for (op, a), x in zip(q, o[1:])],
                              lines=[lines[a] if op == 'line' else '' for op, a in q]))
    cfg = vf.cfg_text(['OK_G06', 'LAWS'])
    t = vf.tlc('HistoryTrace', cfg, cases, deadlock=False)
    if not t.ok:
        c = cases[int(t.var('c')) - 1]; i = int(t.var('i'))
        if t.invariant != 'OK_G06': raise vf.CheckError('the specification breaks its own laws\n' + t.state())
        vf.violation(prop, 'after %s the tracked state is not the one from before' % c['ops'][i - 1]['op'], dict(kind='history', max=c['max'], ops=[(o['op'], o['k'], l) for o, l in zip(c['ops'][:i], c['lines'])]))
    total = sum(len(c['ops']) for c in cases)
    if t.distinct != total + len(cases): raise vf.CheckError('%d of %d steps were taken' % (t.distinct, total + len(cases)))
    bad = json.loads(json.dumps(next(c for c in cases if any(o['op'] == 'undo' for o in c['ops'])))); next(o for o in bad['ops'] if o['op'] == 'undo')['id'] = 'x'
    if vf.tlc('HistoryTrace', vf.cfg_text(['OK_G06']), [bad], workers=1, deadlock=False, heap='1g').invariant != 'OK_G06': raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=total, exhaustive_sequences=n_ex, generated_sequences=len(runs) - n_ex,
        samples=[dict(max=c['max'], ops=[(o['op'], o['k']) for o in c['ops']], lines=c['lines']) for c in cases[-5:]]),
        ['capacity at least two', 'sections announced by comments are not part of the history and do not occur'])

# ------------------------------------------------------------------ G07
G07_WORDS = ['TYPE:WALL-OUTER', 'TYPE:WALL-INNER', 'TYPE:FILL', 'TYPE:SKIN', 'TYPE:SKIRT', 'LAYER:3', 'outer perimeter', 'feature outer perimeter', 'inner perimeter', 'feature inner perimeter',
  'infill', 'feature infill', 'solid layer', 'feature solid layer', 'skirt', 'feature skirt', 'ooze shield', 'feature ooze shield', 'prime pillar', 'feature prime pillar', 'gap fill', 'feature gap fill',
  'CP TOOLCHANGE WIPE', 'CP TOOLCHANGE END', 'perimeter', 'move to first perimeter point', 'move to first infill point', 'infill(bridge)', 'move to first infill(bridge) point', 'move to first skirt point',
  'hello', '', 'type:FILL', ' TYPE:FILL', 'feature', 'feature x', 'TYPE:SUPPORT', 'Perimeter', 'LAYER_COUNT:3', 'CP TOOLCHANGE', 'feature infill ', 'move to first']
G07_SMALL = ['TYPE:WALL-OUTER', 'TYPE:FILL', 'LAYER:1', 'feature infill', 'skirt', 'infill', 'CP TOOLCHANGE WIPE', 'CP TOOLCHANGE END', 'perimeter', 'other']
def chk_g07(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED)); seqs = []
    steps = [(w, s) for w in G07_WORDS for s in (True, False)]
    small = [(w, s) for w in G07_SMALL for s in (True, False)]
    for a in steps:
        for b in steps: seqs.append([a, b])
    for t in itertools.product(small, repeat=4 if vf.THOROUGH else 3): seqs.append(list(t))
    n_ex = len(seqs)
    for _ in range(4000 if vf.THOROUGH else 400): seqs.append([r.choice(steps) if r.random() < .5 else r.choice(small) for _ in range(r.choice([8, 20]))])
    groups = [seqs[k::16] for k in range(16)]; texts = []
    for g in groups:
        t = []
        for s in g:
            t.append(new_line(BASE, 5))
            for w, sec in s: t.append('section %s' % w.encode().hex() if sec else 'line 1 %s' % (r.choice(['G1 X1', 'G1 X2 E1', 'M105', '']) + ';' + w).encode().hex())
        texts.append('\n'.join(t) + '\n')
    cases = []
    for g, out in zip(groups, parallel(prop, 'track', texts)):
        at = 0
        for s in g:
            o = out[at + 1:at + 1 + len(s)]; at += 1 + len(s)
            cases.append([dict(text=w, sec=sec, layer=w.startswith('LAYER:'), type=x['type'], tag=x['o']['tag']) for (w, sec), x in zip(s, o)])
    states = trans = 0
    for at in range(0, len(cases), 40000):
        part = cases[at:at + 40000]
        t = vf.tlc('FeaturesTrace', vf.cfg_text(['OK_G07'], props=['LAWS']), part, deadlock=False); states += t.distinct; trans += t.generated
        if t.ok: continue
        if t.invariant != 'OK_G07': raise vf.CheckError('the specification breaks its own laws\n' + t.state())
        c = part[int(t.var('c')) - 1][:int(t.var('i'))]
        vf.violation(prop, 'after the comment %r the feature type is %d (slicer %d)' % (c[-1]['text'], c[-1]['tag'], c[-1]['type']), dict(kind='features', comments=c, specification=t.state()))
    bad = json.loads(json.dumps(cases[0])); bad[-1]['type'] += 1
    if vf.tlc('FeaturesTrace', vf.cfg_text(['OK_G07']), [bad], workers=1, deadlock=False, heap='1g').invariant != 'OK_G07': raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=len(cases), exhaustive_sequences=n_ex, generated_sequences=len(cases) - n_ex,
        samples=[[(o['text'], o['sec'], o['tag']) for o in c] for c in cases[-5:]]), ['";MESH:NONMESH" does not occur'])

# ------------------------------------------------------------------ L01
STAMP = __import__('re').compile(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}( - .*)\n', __import__('re').S)
def chk_l01(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED)); runs = []
    # every setting of two loggers against every message
    ops = []
    for a in range(7):
        for b in range(7):
            ops += [('one', 0, a, ''), ('one', 1, b, '')]
            for l in range(7): ops += [('log', 0, l, 'm'), ('log', 1, l, 'n')]
            ops += [('logx', 0, 0, 'x'), ('logx', 1, 0, 'y')]
    for v in list(range(-2, 61)): ops += [('allv', 0, v, ''), ('log', 0, 3, 'v'), ('onev', 1, 50 - v, ''), ('log', 1, 0, ''), ('log', 1, 6, 'c'), ('logx', 1, 0, 'e')]
    for a in range(7): ops += [('all', 0, a, '')] + [('log', k, l, 'a') for k in (0, 1) for l in range(7)]
    runs.append((2, ops))
    texts = ['hello', '', 'a - b - c', 'x' * 500, 'two  spaces ', '"quoted" \\ 100%s', '\ttab', '%d', 'INFO', 'line1\nline2']
    for _ in range(800 if vf.THOROUGH else 80):
        n = r.choice([1, 2, 3, 5]); ops = []
        for _ in range(60):
            k = r.random()
            if k < .1: ops.append(('all', 0, r.randrange(7), ''))
            elif k < .25: ops.append(('one', r.randrange(n), r.randrange(7), ''))
            elif k < .3: ops.append(('allv', 0, r.choice([0, 5, 10, 20, 30, 40, 50, 7, 60, -1]), ''))
            elif k < .4: ops.append(('onev', r.randrange(n), r.choice([0, 5, 10, 20, 30, 40, 50, 7, 60, -1]), ''))
            elif k < .9: ops.append(('log', r.randrange(n), r.randrange(7), r.choice(texts)))
            else: ops.append(('logx', r.randrange(n), 0, r.choice(texts)))
        runs.append((n, ops))
    out_text = []
    for n, ops in runs:
        t = ['new %d' % n]
        for op, k, l, m in ops:
            h = m.encode().hex()
            t.append({'all': 'all %d' % l, 'allv': 'allv %d' % l, 'one': 'one %d %d' % (k, l), 'onev': 'onev %d %d' % (k, l), 'log': 'log %d %d %s' % (k, l, h), 'logx': 'logx %d %s' % (k, h)}[op])
        out_text.append('\n'.join(t) + '\n')
    cases = []
    for (n, ops), out in zip(runs, parallel(prop, 'log', out_text)):
        c = dict(names=['log.%c' % (97 + k) for k in range(n)], ops=[])
        for (op, k, l, m), o in zip(ops, out[1:]):
            sane = True; res = {}
            for s in ('out', 'err'):
                res[s] = ''
                if o[s]:
                    g = STAMP.fullmatch(o[s]); sane = sane and g is not None
                    res[s] = g.group(1) if g else o[s]
            c['ops'].append(dict(op=op, k=k, l=l, text=m, sane=sane, on=o['on'], levels=o['names'], none=o['none'], vals=o['vals'], **res))
        cases.append(c)
    t = vf.tlc('LoggerTrace', vf.cfg_text(['OK_L01']), cases, deadlock=False)
    if not t.ok:
        c = cases[int(t.var('c')) - 1]; o = c['ops'][int(t.var('i')) - 1]
        vf.violation(prop, 'the logger answers %s differently' % o['op'], dict(kind='logger', ops=c['ops'][:int(t.var('i'))], specification=t.state()))
    bad = json.loads(json.dumps(cases[0])); bad['ops'] = bad['ops'][:3]; bad['ops'][2]['out'] += 'x'
    if vf.tlc('LoggerTrace', vf.cfg_text(['OK_L01']), [bad], workers=1, deadlock=False, heap='1g').invariant != 'OK_L01': raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=sum(len(c['ops']) for c in cases),
        samples=[[(o['op'], o['k'], o['l'], o['out']) for o in c['ops'][:6]] for c in cases[:5]]), ['every pair of levels of two loggers is covered exhaustively'])

# ------------------------------------------------------------------ D01
def chk_d01(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED)); runs = []
    L = 7 if vf.THOROUGH else 6
    for kind, cap in [('fixed', 2), ('ring', 2), ('fixed', 3), ('ring', 3), ('array', 2)]:
        first = [('resize', 2)] if kind == 'array' else []
        for t in itertools.product(['pushf', 'pushb', 'popf', 'popb'], repeat=L): runs.append((kind, cap, first + [(o, 10 + k) for k, o in enumerate(t)]))
        if kind == 'array': continue
        for t in itertools.product(['pushf', 'pushb', 'popf', 'clear', 'resize', 'copy'], repeat=L - 1):
            if not ('resize' in t or 'copy' in t or 'clear' in t): continue
            cnt, mx, omx, ops = 0, cap, cap, []
            for k, o in enumerate(t):
                if o in ('pushf', 'pushb'): cnt = min(mx, cnt + 1); ops.append((o, 10 + k))
                elif o == 'popf': cnt = max(0, cnt - 1); ops.append((o, 0))
                elif o == 'clear': cnt = 0; ops.append((o, 0))
                elif o == 'resize': mx = max(1, cnt) if k % 2 else mx + 1; ops.append((o, mx))
                else: mx, omx = max(mx, omx), mx; ops.append((o, 0))
            if r.random() < (1 if vf.THOROUGH else .2): runs.append((kind, cap, ops))
    n_ex = len(runs)
    for _ in range(1500 if vf.THOROUGH else 150):
        kind = r.choice(['array', 'array', 'fixed', 'ring']); cap = 50 if kind == 'array' else r.choice([1, 2, 5, 50]); cnt, mx, omx, ops = 0, cap, cap, []
        grow = r.random()
        for k in range(r.choice([30, 120, 260])):
            o = r.choice(['pushf', 'pushb']) if r.random() < .35 + .3 * grow else r.choice(['popf', 'popb', 'popf', 'popb', 'popf', 'popb', 'clear', 'resize', 'copy'] if r.random() < .5 else ['popf', 'popb'])
            if o in ('pushf', 'pushb'):
                if cnt == mx and kind == 'array': mx *= 2
                cnt = min(mx, cnt + 1); ops.append((o, 100 + k))
            elif o in ('popf', 'popb'): cnt = max(0, cnt - 1); ops.append((o, 0))
            elif o == 'clear':
                if r.random() < .8: continue
                cnt = 0; ops.append((o, 0))
            elif o == 'resize': mx = max(1, r.choice([cnt, cnt + 1, cnt + 3, mx, mx + 1, 2 * mx])); ops.append((o, mx))
            else: mx, omx = max(mx, omx), mx; ops.append((o, 0))
            if mx > 300: break
        runs.append((kind, cap, ops))
    groups = [runs[k::16] for k in range(16)]
    texts = [''.join('new %s\n' % {'array': 'array', 'fixed': 'arraycap %d' % cap, 'ring': 'ring %d' % cap}[kind] + ''.join('%s %d\n' % o for o in ops) for kind, cap, ops in g) for g in groups]
    cases = []
    for g, out in zip(groups, parallel(prop, 'deque', texts)):
        at = 0
        for kind, cap, ops in g:
            o = out[at:at + len(ops)]; at += len(ops)
            cases.append(dict(kind=kind, max=50 if kind == 'array' else cap, ops=[dict(op=a, v=v, **x) for (a, v), x in zip(ops, o)]))
    states = trans = 0
    for at in range(0, len(cases), 30000):
        part = cases[at:at + 30000]
        t = vf.tlc('DequeTrace', vf.cfg_text(['OK_D01', 'LAWS']), part, deadlock=False); states += t.distinct; trans += t.generated
        if not t.ok:
            if t.invariant != 'OK_D01': raise vf.CheckError('the specification breaks its own laws\n' + t.state())
            c = part[int(t.var('c')) - 1]; i = int(t.var('i'))
            vf.violation(prop, 'a container answers %s differently from a sequence' % c['ops'][i - 1]['op'], dict(kind='deque', container=c['kind'], capacity=c['max'], ops=c['ops'][:i], specification=t.state()))
        if t.distinct != sum(1 + len(c['ops']) for c in part): raise vf.CheckError('some operations were not taken')
    bad = json.loads(json.dumps(cases[0])); bad['ops'][0]['n'] += 1
    if vf.tlc('DequeTrace', vf.cfg_text(['OK_D01']), [bad], workers=1, deadlock=False, heap='1g').invariant != 'OK_D01': raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=len(cases), exhaustive_sequences=n_ex, generated_sequences=len(cases) - n_ex,
        samples=[dict(kind=c['kind'], max=c['max'], ops=[(o['op'], o['v']) for o in c['ops'][:20]]) for c in cases[-5:]]), ['resizing below the number of items is outside the property'])


# ------------------------------------------------------------------ N01
def num_text(neg, d, e): return ('-' if neg else '') + '0.' + ''.join(map(str, d)) + 'e%d' % e
def chk_n01(prop):
    r = random.Random('%s/%d' % (prop, vf.SEED)); Q = []
    # every mantissa of two digits around the point, with every number of decimals in use
    for e in range(-9, 13):
        for m in range(1, 100):
            for p in ((0, 3, 5) if not vf.THOROUGH else range(8)):
                Q.append((r.random() < .3, [m // 10, m % 10] if m > 9 else [m], e, p))
    for p in range(8): Q.append((False, [0], 0, p)); Q.append((True, [0], 0, p))
    for _ in range(100000 if vf.THOROUGH else 8000):
        n = r.choice([1, 2, 3, 5, 8, 12, 15]); k = r.random()
        d = [r.choice([0, 1, 4, 5, 9, 9, 5, r.randrange(10)]) for _ in range(n)]
        if k < .2: d = [9] * n
        if k > .9: d = d[:n // 2] + [9] * (n - n // 2)
        e = r.randrange(-20, 17) if r.random() < .85 else r.randrange(-300, 300)
        if d[0] == 0 or e > 7 and d[0] in (1, 9): d[0] = r.randrange(2, 9)
        Q.append((r.random() < .4, d, e, r.choice([0, 1, 2, 3, 4, 5, 5, 6, 7])))
    texts = ['\n'.join('%s %d' % (num_text(a, d, e), p) for a, d, e, p in Q[k::8]) + '\n' for k in range(8)]
    outs = parallel(prop, 'num', texts)
    code = {str(k): k for k in range(10)}; code['.'] = 10; code['-'] = 11
    cases = []
    for k in range(8):
        part = Q[k::8]
        if len(outs[k]) != len(part): vf.violation(prop, 'a number was not written', dict(kind='num', input=texts[k], answers=len(outs[k])))
        ops = [dict(neg=a, d=d, e=e, p=p, out=[code.get(x, 99) for x in o]) for (a, d, e, p), o in zip(part, outs[k])]
        cases += [ops[j:j + 500] for j in range(0, len(ops), 500)]
    t = vf.tlc('Numbers', vf.cfg_text(['OK_N01']), cases, deadlock=False)
    if not t.ok:
        o = cases[int(t.var('c')) - 1][int(t.var('i')) - 1]
        vf.violation(prop, 'a number is written differently', dict(kind='num', number=num_text(o['neg'], o['d'], o['e']), decimals=o['p'],
                     written=''.join('0123456789.-?'[min(x, 12)] for x in o['out'])))
    for q in ({'out': [1, 10, 2, 6]}, {'out': [1, 10, 2, 5]}, {'out': [1, 10, 3]}):
        b = dict(neg=False, d=[1, 2, 6, 5], e=1, p=2); b.update(q)
        if vf.tlc('Numbers', vf.cfg_text(['OK_N01']), [[b]], workers=1, deadlock=False, heap='1g').ok != (q['out'] == [1, 10, 2, 6]): raise vf.CheckError('a corrupted observation was accepted')
    vf.evidence(prop, 'model_checking', dict(states=t.distinct, transitions=t.generated, traces_validated_against_impl=len(Q),
        exhaustive='every mantissa of one and two digits from 10^-10 to 10^12', samples=[(num_text(a, d, e), p) for a, d, e, p in Q[:4000:700]]),
        ['numbers of up to 15 digits, which a double holds exactly enough', 'strtod reads the numbers given to the harness'])
    return 0
