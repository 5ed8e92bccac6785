"""R01: welding and then straightening, the real programs one after the other, against spec/RoundTrip.tla"""
import copy, random
from concurrent.futures import ProcessPoolExecutor
import vf, gcode, gen_weld, gen_arc, weldtrace as wt, straighttrace as st

EVENTS = ['blank', 'comment', 'fan', 'temp', 'text', 'other', 'g92e', 'g92x', 'g92y', 'g92z', 'm82', 'm83', 'retract', 'deretract', 'feed', 'hop', 'layer', 'travel', 'g91', 'g90', 'm82only', 'cr', 'semi']
PROFILES = [dict(name='r1', shapes=5, events=EVENTS, kinds=['arc'] * 5 + ['curve', 'zigzag', 'poly', 'collinear'], radii=[.4, .8, 2, 5, 12, 30, 80], seg=[.05, .1, .2, .4, 1]),
            dict(name='r2', shapes=3, events=['feed', 'g92e', 'fan'], kinds=['arc', 'curve', 'zigzag'], radii=[1, 2, 5, 12, 30], seg=[.1, .2, .4], noise=[0, .45, .9], modes=['extrude', 'travel', 'retract'], fine=True)]

def settings(r, o, fine):
    fw = r.choice([f for f in gen_arc.FW if not (o.get('z') and f == 'R4')])
    s = dict(fw=fw, ver=r.choice(gen_arc.FW[fw][1]), set={}, g='TRUE' if o.get('g') else 'FALSE', form=r.choice([0, 1]))
    if gen_arc.G90E[fw] == bool(o.get('g')) and r.random() < .6: s['g'] = r.choice([None, 'DEFAULT'])
    if fine: s['set']['ncorr'] = r.choice([0, 1, 1, 2])
    for k in gen_arc.USED[fw]:
        if k in ('mm', 'maxmm') and r.random() < .6: s['set'][k] = r.choice([.2, .35, .5, 1, 2])
        elif k in ('minseg', 'mincirc', 'err') and r.random() < .4: s['set'][k] = r.choice(gen_arc.VALUES[k])
        elif k == 'ncorr' and not fine and r.random() < .4: s['set'][k] = r.choice([0, 1, 2, 5, 60])
    return s

def compose(text, welded, final, o, s, plain):
    ids = {}
    def rec(l, raw=False):
        r = gcode.tokenize(l); r['t'] = ids.setdefault(l if raw else gcode.norm(l), len(ids) + 1); return r
    sl = wt.split(text)
    ml = wt.strip_header(wt.split(welded))[0]
    body, head = st.strip_header(wt.split(final))
    fl = wt.strip_header(body)[0]
    src, mid, fin = [rec(l) for l in sl], [rec(l) for l in ml], [rec(l) for l in fl]
    one, _ = gcode.align(src, mid)
    two, _ = st.align(mid, fin)
    # what becomes of each line of the welded file
    after, k = {}, 0
    extra = {}
    for x in two:
        if x['op'] == 'ins': extra[k] = extra.get(k, 0) + 1; continue
        after[k] = x; k += 1
    steps, k = [], 0
    def ins(k):
        for _ in range(extra.get(k, 0)): steps.append(dict(op='ins', n=0, m=1))
    for x in one:
        if x['op'] == 'drop': steps.append(dict(op='drop', n=1, m=0)); continue
        ins(k); y = after[k]; line = mid[k]; k += 1
        if x['op'] == 'copy' and y['op'] == 'copy': steps.append(dict(op='copy', n=1, m=1))
        elif x['op'] == 'arc' and y['op'] == 'arc': steps.append(dict(op='run', n=x['n'], m=y['n'], arc={q: line[q] for q in ('c', 'p', 'd')}))
        else:
            steps += [dict(op='drop', n=1, m=0)] * (x.get('n', 1) if x['op'] != 'ins' else 0) + [dict(op='ins', n=0, m=1)] * (1 if y['op'] == 'copy' else y.get('n', 0))
    ins(k)
    raw = {}
    num = lambda L: [raw.setdefault(l, len(raw) + 1) for l in L]
    for r in src + fin:
        for q in ('d', 'len', 'dx', 'de', 'empty'): r.pop(q, None)
    for x in steps:
        if 'arc' in x: x['arc']['d'] = dict(I=x['arc']['d'].get('I', 3))
    w = wt.opts(o)
    return dict(cfg=wt.cfg(o.get('g'), 1), fw=s['fw'], o=st.opts(s), w=dict(half=w['half'], px=w['px'], pe=w['pe']), src=src, out=fin, steps=steps,
                raw=num(sl), plain=num(st.strip_header(wt.split(plain))[0]))

def make(text, o, s, n):
    W, B = vf.build('welder'), vf.build('straightener')
    wa = gen_weld.args(o); sa = gen_arc.args(s)
    info = dict(kind='round', source=text, weld=wa, straighten=sa)
    welded, log, rc = wt.run_welder(W, text, wa, n)
    if welded is None or rc: return None, dict(info, fail=log[-300:])
    final, log, rc = st.run(B, welded, sa, n)
    plain, log2, rc2 = st.run(B, text, sa, n + 'p')
    if final is None or rc or plain is None or rc2: return None, dict(info, fail=(log + log2)[-300:])
    return compose(text, welded, final, o, s, plain), dict(info, welded=welded, final=final)
def one(a):
    vf._scratch, prof, seed, k = a
    r = random.Random('R01/%s/%d/%d' % (prof['name'], seed, k))
    text, o, _ = gen_weld.program(r, prof)
    if prof.get('fine'): o['m'] = r.choice([20, 100, 500])
    elif o.get('m', 9999) > 1000: o['m'] = r.choice([100, 500, 1000])
    s = settings(r, o, prof.get('fine'))
    return (text, o, s) + make(text, o, s, 'r%d' % k)

def check(prop):
    for b in ('welder', 'straightener'): vf.build(b)
    n = 4000 if vf.THOROUGH else 360
    with ProcessPoolExecutor(8) as ex: recs = list(ex.map(one, [(vf.scratch(), p, vf.SEED, k) for p in PROFILES for k in range(n)], chunksize=8))
    cfg = vf.cfg_text(['OK'], extra='VIEW Place\n')
    states = trans = 0
    good = [r for r in recs if r[3]]
    if len(good) < len(recs):
        t, o, s, c, info = next(r for r in recs if not r[3])
        if make(t, o, s, 'again')[0] is None: vf.violation(prop, 'a run failed: ' + info['fail'], info)
    for at in range(0, len(good), 700):
        part = good[at:at + 700]
        res = vf.tlc('RoundTrip', cfg, [r[3] for r in part])
        states += res.distinct; trans += res.generated
        if not res.ok:
            t, o, s, c, info = part[int(res.var('c')) - 1]
            c2, info2 = make(t, o, s, 'again')
            r2 = vf.tlc('RoundTrip', cfg, [c2], workers=1)
            if r2.violated: vf.violation(prop, 'what was welded and straightened is not the print there was: %s' % r2.var('errs'), dict(info2, errs=r2.var('errs'), line=r2.var('i'), out=r2.var('j')))
            if res.violated: vf.violation(prop, 'what was welded and straightened is not the print there was (not on every run): %s' % res.var('errs'), dict(info, errs=res.var('errs'), case=c))
            raise vf.CheckError('no answer about a run')
    bad = []
    base = [r[3] for r in good if sum(x['op'] == 'run' and x['m'] > 6 for x in r[3]['steps']) and not any(l['c'] in ('G91', 'G92') for l in r[3]['src'])]
    def spot(c):
        j = 0
        for x in c['steps']:
            if x['op'] == 'run' and x['m'] > 6: return j, x['m']
            j += x['m']
    def alter(c, how):
        b = copy.deepcopy(c); how(b, *spot(b)); bad.append(b)
    def shift(b, k, l, v): b['out'][k]['p'][l] = b['out'][k]['p'].get(l, 0) + v
    fine = [c for c in base if c['o']['ncorr'] <= 1 and c['o']['ncorr'] >= 0]
    alter(fine[0], lambda b, j, m: (shift(b, j + m // 2, 'X', 2 * b['w']['half'] + 30000), shift(b, j + m // 2, 'Y', 2 * b['w']['half'] + 30000)))
    alter(base[1], lambda b, j, m: shift(b, j + m - 1, 'X', 400))
    e = next(c for c in base[2:] if 'E' in c['out'][spot(c)[0] + spot(c)[1] - 1]['p'])
    alter(e, lambda b, j, m: shift(b, j + m - 1, 'E', 3000))
    alter(base[3], lambda b, j, m: b.update(plain=b['plain'][:-1]))
    alter(base[4], lambda b, j, m: b['out'][j].update(c='G0'))
    for q, b in enumerate(bad):
        if not vf.tlc('RoundTrip', cfg, [b], workers=1, heap='1g').violated: raise vf.CheckError('a wrong record was accepted (%d)' % q)
    runs = [x for r in good for x in r[3]['steps'] if x['op'] == 'run']
    per = {}
    for r in good: per[r[3]['fw']] = per.get(r[3]['fw'], 0) + sum(x['op'] == 'run' for x in r[3]['steps'])
    vf.evidence(prop, 'model_checking', dict(states=states, transitions=trans, traces_validated_against_impl=len(good), runs_of_lines_welded=len(runs), lines_welded=sum(x['n'] for x in runs),
        moves_made_of_them=sum(x['m'] for x in runs), lines_that_survived=sum(x['op'] == 'copy' for r in good for x in r[3]['steps']), arcs_per_firmware=per, corrupted_records_rejected=len(bad),
        samples=[{k: v if not isinstance(v, str) else v[:600] for k, v in r[4].items()} for r in good[5:12:6]]),
        ['sources without arcs of their own, for one extruder', 'where a firmware approximates, its drift is allowed for'])
    return 0
