"""W01-W13, W15: recorded runs of the real welder are checked against spec/WelderTrace.tla"""
import json, os, re, random, copy
import vf, weldtrace as wt, gcode

GEN = dict(name='gen')
CURVES = ['arc'] * 5 + ['curve', 'zigzag', 'collinear']
PROFILES = {
 'W01': [dict(name='w01', pbreak=.12, pevent=.9), dict(name='w01b', pbreak=.05, cp=[.5], shapes=3, n=1), GEN],
 'W02': [dict(name='w02', pbreak=.08, pevent=1.0, events=['g92e','g92x','g92y','g92z','m82','m83','m82only','tool','tooloff','g91','g90','home','arcsrc','travel','retract','hop']), dict(name='w02b', z=[1], xd=[3], zd=[4,5], three=.5, noise=[0], x=[3,4,5], kinds=['scurve', 'scurve', 'arc'], events=['g92z', 'g92e', 'hop', 'm82'], pevent=.2, pcont=.2),
         dict(name='w02c', z=[1], three=.7, noise=[0], v=[0], kinds=['arc', 'arc', 'scurve'], events=['tooloff', 'tooloff', 'tool', 'g92z', 'g92x', 'g92e', 'home', 'hop'], pevent=.7), GEN],
 'W03': [dict(name='w03', e=[3,4,5,6], ed=[3,5,5], modes=['extrude']*4+['retract']*2+['travel'], y=[1], events=['g92e','m82','m83','m82only','retract','deretract','blank','tool','g90','g91'], pbreak=.04, kinds=CURVES), GEN],
 'W04': [dict(name='w04', fchange=[.05,.2,.4], pbreak=.05, events=['feed','retract','hop','blank','fan','travel','arcsrc'], pcont=.8), GEN],
 'W05': [dict(name='w05', noise=[0,.2,.45,.5,.55,.7,1,2,4], t=[.05,.2,.5], v=[0], kinds=CURVES, pbreak=.005, r=[.02,.05,.1,.2,.5,1.0], seg=[.1,.4,1,2,5,10], trim=0), dict(name='w05b', noise=[0,.5,1], kinds=['zigzag','collinear','curve','arc'], t=[.5,.9], v=[0], r=[.1,.5,1.0]), GEN],
 'W06': [dict(name='w06', t=[.001,.005,.01,.02,.05], noise=[.5,1,2], v=[0], r=[.2,.5,1.0], kinds=['arc','arc','curve','zigzag','zigzag'], pbreak=.01), dict(name='w06b', kinds=['zigzag','arc'], r=[.5,1.0,2.0], t=[.9,.5], v=[0], radii=[.3,.8,2]), dict(name='w06d', kinds=['ring', 'ring', 'arc'], x=[3, 3, 4], m=[9999], v=[0], noise=[0], pevent=.2, pcont=.7, radii=[1, 5, 12], r=[.05, .2]), dict(name='w06c', shapes=14, kinds=['arc'], r=[.01, .01, .02], x=[3, 3, 4], m=[9999], v=[0], xd=[5], trim=0, noise=[0], pevent=.1, pcont=.9, fchange=[0], radii=[.0006, .001, .002, .005, .01, .02, .03, .05], seg=[.0004, .0007, .001, .002, .004], t=[.05, .2]), GEN],
 'W07': [dict(name='w07', modes=['extrude','travel','retract','mixed'], pcont=.9, y=[0,1], v=[0], events=['retract','deretract','blank','m83','g92e'], pbreak=.15), dict(name='w07b', modes=['changing'], pcont=.9, y=[0,1,1], v=[0], events=['blank'], pbreak=.02, fchange=[0], kinds=['arc']*5+['curve']), GEN],
 'W08': [dict(name='w08', pbreak=.25, cp=[.5,1,0], pcont=.8, v=[0]), dict(name='w08b', pbreak=.1, events=['m82','m83','m82only','g92x','g92y','g92z','tool','tooloff','g90','g91','comment','blank','home','fan','g92e'], v=[0], g=[0,1]), GEN],
 'W09': [dict(name='w09', z=[0,1,1], three=.7, xd=[3,3,4,2], v=[0], noise=[0,.2], kinds=['arc']*4+['curve'], x=[3,3,4,5]), dict(name='w09b', z=[1], three=.9, r=[.05,.1,.5,1.0], xd=[3,4], zd=[3,4,5], noise=[0], x=[3,4,5], kinds=['arc']), dict(name='w09c', z=[1], xd=[3], zd=[4,5], three=.5, noise=[0], x=[3,4,5], kinds=['scurve', 'scurve', 'arc'], pevent=.2, pcont=.2), GEN],
 'W10': [dict(name='w10', ratevar=[.005,.01,.02,.04,.06,.1,.3,.9,1.5], ratestep=.9, v=[0,.005,.01,.02,.05,.1,.3,1.0], kinds=CURVES, modes=['extrude']*6+['retract'], ed=[5], e=[5], z=[0,1], seg=[.4,1,2,5]), GEN],
 'W11': [dict(name='w11', pc=1.0, x=[3,4,5,6], e=[3,4,5,6], d=[0,1], xd=[1,2,3,4,5], ed=[2,3,4,5], c=[31,33,36,38,40,42,44,46,50,55,60,70]), dict(name='w11b', pc=0, d=[1], x=[3,4], e=[3,4], pbreak=.03), dict(name='w11c', pc=.3, d=[1], z=[0,1], three=.4, x=[3,4,5], xd=[1,2,3,4], zd=[2,4,5], trim=.1, events=['hop','layer','blank','feed'], pbreak=.05), GEN],
 'W12': [dict(name='w12', m=[1,2,5,10,20,50,100,1000,9999], radii=[.8,2,5,9,11,18,22,45,55,90,110,900,1100,5000], seg=[.4,1,2,5,20], noise=[0,0,.2], v=[0], pbreak=.01, kinds=['arc']*4+['collinear','curve']), GEN],
 'W13': [dict(name='w13', psa=1.0, radii=[.1,.3,.8,2,5,12,30], noise=[0,0,.2], v=[0], pbreak=.01, kinds=['arc']*5+['curve']), dict(name='w13b', psa=.5)],
 'W15': [dict(name='w15', cp=[.2,.5,1], pbreak=.06, events=['blank','blank','comment','fan','retract','semi','arcsrc'], v=[0]), GEN],
}
LEVEL = 'model_checking'

def corrupt(prop, case):
    """a case with one recorded field changed, which the specification must reject for prop; None if this one does not allow it"""
    c = copy.deepcopy(case)
    arcs = [k for k, s in enumerate(c['steps']) if s['op'] == 'arc']
    if not arcs: return None
    k = arcs[len(arcs) // 2]; st = c['steps'][k]; it = c['out'][st['o'] - 1]
    before = sum(s['n'] for s in c['steps'][:k])
    moves = [i for i in range(before, before + st['n']) if c['src'][i]['c'] in ('G0', 'G1')]
    mv = c['src'][moves[1]]
    if prop == 'W01':
        k = [q for q, s in enumerate(c['steps']) if s['op'] == 'copy'][-1]
        c['out'][c['steps'][k]['o'] - 1]['t'] = 999999
    elif prop == 'W02': it['p']['X'] += 300
    elif prop == 'W03':
        if 'E' not in it['p']: return None
        it['p']['E'] += 300
    elif prop == 'W04': it['p']['F'] = 123457
    elif prop == 'W05':
        if st['n'] < 5 or abs(it['p']['I']) + abs(it['p']['J']) < 100000: return None
        it['p']['I'] = 0; it['p']['J'] = 0
    elif prop == 'W06': it['c'] = 'G2' if it['c'] == 'G3' else 'G3'
    elif prop == 'W07':
        if 'E' not in mv['p']: return None
        del mv['p']['E']; mv['n'].remove('E'); c['o']['travel'] = False
    elif prop == 'W08': mv['c'] = 'G4'
    elif prop == 'W09': c['o']['d3'] = False; mv['p']['Z'] = 99900000; mv['n'].append('Z')
    elif prop == 'W10':
        if 'E' not in mv['p'] or len(moves) < 3: return None
        c['o']['var'] = 10000; mv['p']['E'] += 5000
    elif prop == 'W11': it['d']['I'] += 1
    elif prop == 'W12': c['o']['maxr'] = 1000
    elif prop == 'W13': c['o']['minseg'] = 1000; c['o']['mmseg'] = 10000000
    elif prop == 'W15': it['cms'] = it['cms'] + ['no such comment']
    return c

def canary(prop):
    """the binding itself is tried out on a recorded run kept with the checks: the run is accepted,
    and with one field changed it is rejected for this property"""
    base = json.load(open(os.path.join(vf.VERIF, 'fixtures', 'weld.json')))
    cfg = vf.cfg_text(['OK_' + prop], extra='VIEW Place\n')
    bad = next(x for x in (corrupt(prop, b) for b in base) if x is not None)
    if not vf.tlc('WelderTrace', cfg, base, workers=2, heap='1g').ok: raise vf.CheckError('the specification rejects the fixture')
    r = vf.tlc('WelderTrace', cfg, [bad], workers=1, heap='1g')
    if r.invariant != 'OK_' + prop: raise vf.CheckError('a corrupted record was accepted (%s)' % r.invariant)

def counts(recs):
    k = dict(lines=0, arcs=0, moves_in_arcs=0, copied=0, with_arc=0)
    for r in recs:
        c = r['case']; na = 0
        k['lines'] += len(c['src'])
        for s in c['steps']:
            if s['op'] == 'arc': na += 1; k['moves_in_arcs'] += s['n']
            elif s['op'] == 'copy': k['copied'] += 1
        k['arcs'] += na; k['with_arc'] += na > 0
    return k

def check(prop):
    binary = vf.build('welder')
    profs = PROFILES[prop]
    per = (8000 if vf.THOROUGH else 2600) // len(profs)
    recs, fails = [], []
    for p in profs:
        for r in wt.many(binary, vf.SEED, p, per):
            (fails if 'fail' in r else recs).append(r)
    cfg = vf.cfg_text(['OK_' + prop], extra='VIEW Place\n')
    if fails:
        f = fails[0]
        again = wt.produce(binary, f['text'], f['o'], 'again')
        if 'fail' in again: vf.violation(prop, 'the run failed: ' + f['fail'], dict(kind='weld', source=f['text'], args=f['args'], target=f['out']))
    states = trans = 0
    chunk = 1500
    for at in range(0, len(recs), chunk):
        part = recs[at:at + chunk]
        res = vf.tlc('WelderTrace', cfg, [r['case'] for r in part])
        states += res.distinct; trans += res.generated
        if not res.ok:
            r = part[int(res.var('c')) - 1]
            again = wt.produce(binary, r['text'], r['o'], 'again')
            if 'case' in again and again['out'] == r['out']:
                r2 = vf.tlc('WelderTrace', cfg, [again['case']], workers=1)
                if r2.violated:
                    vf.violation(prop, 'the recorded run is not allowed by WelderTrace (%s)' % (r2.invariant or 'stuck'),
                                 dict(kind='weld', source=r['text'], args=r['args'], target=r['out'], invariant=r2.invariant, step=r2.var('j'), line=r2.var('i')))
            if res.violated:                                                                      # not on every run: the record is the evidence
                vf.violation(prop, 'the recorded run is not allowed by WelderTrace (%s; not on every run)' % (res.invariant or 'stuck'),
                             dict(kind='weld', source=r['text'], args=r['args'], target=r['out'], case=r['case'], invariant=res.invariant))
            raise vf.CheckError('no answer about a run')
    canary(prop)
    k = counts(recs)
    sample = next((r for r in recs if any(s['op'] == 'arc' for s in r['case']['steps'])), recs[0])
    vf.evidence(prop, LEVEL, dict(states=states, transitions=trans, traces_validated_against_impl=len(recs),
        traces_with_arcs=k['with_arc'], source_lines=k['lines'], lines_copied=k['copied'], arcs_checked=k['arcs'], lines_in_arcs=k['moves_in_arcs'],
        runs_that_failed=len(fails), corrupted_record_rejected=True,
        samples=[dict(args=sample['args'], source=sample['text'].split('\n')[:30], target=sample['out'].split('\n')[12:40])]),
        ['the programs keep to at most 5 decimals, 3 for F', 'a line is recorded by tools/gcode.py, the alignment is an untrusted witness'])
    return 0
