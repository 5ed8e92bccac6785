"""S01-S04: recorded runs of the real straightener are checked against spec/StraightTrace.tla"""
import copy, json, os, random
import vf, straighttrace as st, gen_arc

ALL = dict(name='all')
PROFILES = {
 'S01': [dict(name='s01', n=9, pset=.2, maxlen=12, radii=[.4, 1, 2, 5, 12], prel=.35), dict(name='s01b', n=5, maxlen=25,
          events=['g91', 'g90', 'm83', 'm82', 'g92e', 'g92x', 'g92y', 'g92z', 'm82only', 'tool', 'tooloff', 'home', 'travel', 'retract', 'hop', 'feed', 'blank', 'cr', 'semi']), ALL],
 'S02': [dict(name='s02', n=3, pset=.3, pclosed=.3, maxlen=90, radii=[.4, 1, 2, 5, 12, 30, 80, 300], events=['g92x', 'g92y', 'g91', 'g90', 'feed']),
         dict(name='s02b', n=4, pset=.9, mm=[1, 2, 5], minseg=[0, 1, 2, 7], ncorr=[0, 1, 2, 5, 25, 60], pz=.1, events=['feed', 'g91', 'g90']), ALL],
 'S03': [dict(name='s03', n=6, pset=.8, maxlen=70, radii=[.4, 1, 2, 5, 12, 30, 80, 300], pz=.15, events=['feed', 'feed', 'g92e', 'fan']),
         dict(name='s03b', n=8, pset=.3, maxlen=25, events=['feed', 'g91', 'g90', 'travel']), ALL],
 'S04': [dict(name='s04', n=5, pz=.5, pset=.3, maxlen=30, events=['m82', 'm83', 'm82only', 'g92e', 'g92z', 'g90', 'g91', 'retract', 'feed', 'hop']), ALL],
}
LEVEL = 'model_checking'

def corrupt(prop, case):
    c = copy.deepcopy(case)
    si = j = 0
    for s in c['steps']:
        if s['op'] == 'arc':
            if s['n'] >= 12 and not any(r['c'] in ('G91', 'M83', 'G92') for r in c['src'][:si]):
                mid = c['out'][j + s['n'] // 2]; last = c['out'][j + s['n'] - 1]
                if prop == 'S01': last['p']['X'] = last['p'].get('X', 0) + 400; return c
                if prop == 'S02': mid['p']['X'] = mid['p'].get('X', 0) + 2500; return c
                if prop == 'S03': c['o']['mm'] *= 2; c['o']['maxmm'] *= 2; c['o']['minseg'] = c['o']['mincirc'] = 0; return c
                if prop == 'S04' and 'E' in mid['p']: mid['p']['E'] += 1500; return c
            j += s['n']; si += 1
        else: j += 1; si += 1
    return None

def canary(prop):
    base = json.load(open(os.path.join(vf.VERIF, 'fixtures', 'straight.json')))
    cfg = vf.cfg_text(['OK_' + prop], extra='VIEW Place\n')
    bad = next(x for x in (corrupt(prop, b) for b in base) if x is not None)
    if not vf.tlc('StraightTrace', cfg, base, workers=2, heap='1g').ok: raise vf.CheckError('the specification rejects the fixture')
    r = vf.tlc('StraightTrace', cfg, [bad], workers=1, heap='1g')
    if r.invariant != 'OK_' + prop: raise vf.CheckError('a corrupted record was accepted (%s)' % r.invariant)

def check(prop):
    binary = vf.build('straightener')
    profs = PROFILES[prop]
    per = (6000 if vf.THOROUGH else 500 if prop == 'S02' else 600) // len(profs)
    recs, fails = [], []
    for p in profs:
        for r in st.many(binary, vf.SEED, p, per): (fails if 'fail' in r else recs).append(r)
    cfg = vf.cfg_text(['OK_' + prop], extra='VIEW Place\n')
    if fails:
        f = fails[0]
        again = st.produce(binary, f['text'], f['o'], 'again')
        if 'fail' in again: vf.violation(prop, 'the run failed: ' + f['fail'], dict(kind='straighten', source=f['text'], args=f['args'], target=f['out']))
    states = trans = 0
    for at in range(0, len(recs), 600):
        part = recs[at:at + 600]
        res = vf.tlc('StraightTrace', cfg, [r['case'] for r in part], env=dict(VF_PROP=prop))
        states += res.distinct; trans += res.generated
        if not res.ok:
            r = part[int(res.var('c')) - 1]
            again = st.produce(binary, r['text'], r['o'], 'again')
            if 'case' in again and again['out'] == r['out']:
                r2 = vf.tlc('StraightTrace', cfg, [again['case']], workers=1, env=dict(VF_PROP=prop))
                if r2.violated:
                    vf.violation(prop, 'the recorded run is not allowed by StraightTrace (%s)' % (r2.invariant or 'stuck'),
                                 dict(kind='straighten', source=r['text'], args=r['args'], target=r['out'], invariant=r2.invariant, line=r2.var('i'), out=r2.var('j')))
            if res.violated:                                                                      # not on every run: the record is the evidence
                vf.violation(prop, 'the recorded run is not allowed by StraightTrace (%s; not on every run)' % (res.invariant or 'stuck'),
                             dict(kind='straighten', source=r['text'], args=r['args'], target=r['out'], case=r['case'], invariant=res.invariant))
            raise vf.CheckError('no answer about a run')
    canary(prop)
    arcs = moves = copied = 0; per_fw = {}
    for r in recs:
        for s in r['case']['steps']:
            if s['op'] == 'arc': arcs += 1; moves += s['n']; per_fw[r['case']['fw']] = per_fw.get(r['case']['fw'], 0) + 1
            elif s['op'] == 'copy': copied += 1
    sample = max(recs[:40], key=lambda r: sum(s['op'] == 'arc' for s in r['case']['steps']))
    vf.evidence(prop, LEVEL, dict(states=states, transitions=trans, traces_validated_against_impl=len(recs), arcs_checked=arcs, moves_checked=moves,
        lines_copied=copied, arcs_per_firmware=per_fw, runs_that_failed=len(fails), corrupted_record_rejected=True,
        samples=[dict(args=sample['args'], source=sample['text'].split('\n')[:15], target=sample['out'].split('\n')[10:30])]),
        ['arcs in centre form with at most 5 decimals', 'a line is recorded by tools/gcode.py, the alignment is an untrusted witness'])
    return 0
