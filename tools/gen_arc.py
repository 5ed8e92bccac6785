"""Generator of programs with arcs and of firmware settings for the straightener."""
import math
import gen_weld

FW = {'M1': ('MARLIN_1', ['1.1.9.1', 'LATEST_RELEASE']), 'M2a': ('MARLIN_2', ['2.0.9.1', 'LATEST_RELEASE']), 'M2b': ('MARLIN_2', ['2.0.9.2']),
      'R4': ('REPETIER', ['1.0.4', 'LATEST_RELEASE']), 'R5': ('REPETIER', ['1.0.5']), 'P10': ('PRUSA', ['3.10.0', 'LATEST_RELEASE']),
      'P11': ('PRUSA', ['3.11.0']), 'SM': ('SMOOTHIEWARE', ['2021-06-19', 'LATEST_RELEASE'])}
USED = {'M1': ['mm', 'ncorr'], 'M2a': ['mm', 'perr', 'minseg', 'persec', 'ncorr'], 'M2b': ['minmm', 'maxmm', 'mincirc', 'persec', 'ncorr'],
        'R4': ['mm', 'ncorr'], 'R5': ['mm', 'ncorr'], 'P10': ['mm', 'ncorr'], 'P11': ['mm', 'minseg', 'minper', 'ncorr'], 'SM': ['mm', 'err', 'ncorr']}
DEFAULT = {'M1': dict(mm=1, ncorr=25), 'M2a': dict(mm=1, minseg=24, ncorr=25), 'M2b': dict(minmm=.1, maxmm=1, mincirc=72, ncorr=25),
           'R4': dict(mm=1, ncorr=25), 'R5': dict(mm=1, ncorr=25), 'P10': dict(mm=1, ncorr=25), 'P11': dict(mm=1, minseg=24, ncorr=25),
           'SM': dict(mm=0, err=.01, ncorr=5)}
G90E = {'M1': False, 'M2a': True, 'M2b': True, 'R4': False, 'R5': False, 'P10': False, 'P11': False, 'SM': True}
OPT = {'mm': ('m', 'mm-per-arc-segment'), 'maxmm': ('d', 'max-arc-segment-mm'), 'perr': ('i', 'arc-segments-per-r'), 'minper': ('n', 'min-mm-per-arc-segment'),
       'minmm': ('b', 'min-arc-segment-mm'), 'minseg': ('r', 'min-arc-segments'), 'mincirc': ('a', 'min-circle-segments'), 'ncorr': ('c', 'n-arc-correction'),
       'persec': ('s', 'arc-segments-per-sec'), 'err': ('e', 'mm-max-arc-error')}
VALUES = {'mm': [.2, .35, .5, 1, 1.7, 2, 5], 'perr': [1, 2, 5, 20], 'minseg': [0, 1, 2, 7, 24, 60, 180, 275], 'persec': [5, 12.5, 50, 100, 200], 'ncorr': [0, 1, 2, 5, 25, 60, 265],
          'minmm': [.05, .1, .3, .5], 'maxmm': [.5, 1, 1.5, 4], 'mincirc': [0, 1, 8, 30, 72, 200, 290], 'minper': [0, .1, .2, .5], 'err': [0, .001, .01, .05, .2]}

def settings(r, prof):
    fw = r.choice(prof.get('fw', list(FW)))
    s = dict(fw=fw, ver=r.choice(FW[fw][1]), set={}, g=r.choice([None, None, 'TRUE', 'FALSE', 'DEFAULT']))
    p = prof.get('pset', .5)
    for k in USED[fw]:
        if r.random() < p: s['set'][k] = r.choice(prof.get(k, VALUES[k]))
    v = dict(DEFAULT[fw]); v.update(s['set'])
    if fw == 'M2b' and v['minmm'] > v['maxmm']: s['set']['minmm'] = .05
    if fw == 'P11' and v.get('minper', 0) > v['mm']: s['set']['minper'] = .1
    if fw == 'M2a' and v.get('perr', 0) and v['perr'] < v['mm']: s['set']['perr'] = v['mm'] * 2
    if fw == 'SM' and v['err'] == 0 and v['mm'] == 0: pass
    return s

def effective(s):
    v = dict(mm=0, perr=0, minseg=0, persec=0, ncorr=0, minmm=0, maxmm=0, mincirc=0, minper=0, err=0)
    v.update(DEFAULT[s['fw']]); v.update(s['set'])
    if v['ncorr'] < 0: v['ncorr'] = 0
    return v
def g90e(s): return G90E[s['fw']] if s['g'] in (None, 'DEFAULT') else s['g'] == 'TRUE'

def args(s, r=None):
    t, _ = FW[s['fw']]
    short = lambda k, l, i: ('-%s=%s' if i % 2 else '--%s=%s') % ((k, l)[0 if i % 2 else 1], '%s')
    a = []
    n = s.get('form', 1)
    def put(k, l, v): a.append(('-' + k if n else '--' + l) + '=' + v)
    put('f', 'firmware-type', t)
    if s['ver'] != 'LATEST_RELEASE' or n: put('v', 'firmware-version', s['ver'])
    if s['g'] is not None: put('g', 'g90-g91-influences-extruder', s['g'])
    for k, v in s['set'].items(): put(OPT[k][0], OPT[k][1], '%g' % v)
    return a

class Arcs(gen_weld.Prog):
    def event(self, kind=None):
        n = len(self.lines)
        super().event(kind)
        if any(l.startswith(('G10', 'M218')) for l in self.lines[n:]): self.move(self.x + 3, self.y + 2)
        if any(l.lstrip().upper().startswith('G28') for l in self.lines[n:]):      # the axes are unknown until they have been moved
            self.rel = False; self.put('G90')
            self.erel = self.erel and not self.g90e
            self.move(round(self.r.uniform(5, 90), 2), 40, .4, f=3000, full=True)
    def garc(self):
        r, prof = self.r, self.prof
        fw = self.fw
        R = r.choice(prof.get('radii', [.4, 1, 2, 5, 12, 30, 80])) * r.uniform(.7, 1.4)
        d = r.choice([-1, 1])
        closed = r.random() < prof.get('pclosed', .12)
        sweep = 2 * math.pi if closed else min(6.1, max(r.choice([.3, 1, 2, 3.14159265, 4, 5.5, 6, 6.3]) * r.uniform(.6, 1.2), .05 / R))
        if R * sweep > prof.get('maxlen', 60): sweep = prof.get('maxlen', 60) / R; closed = False
        a = r.uniform(0, 2 * math.pi)
        if r.random() < .2: a = r.choice([0, math.pi / 2, math.pi, -math.pi / 2])
        dg = self.xd
        if closed and r.random() < .5:
            R = max(.5, round(R * 2) / 2); a = r.choice([0, math.pi / 2, math.pi, -math.pi / 2])
            if r.random() < .8 and not self.rel:
                nx, ny = round(self.x * 4) / 4, round(self.y * 4) / 4
                if (nx, ny) != (self.x, self.y):
                    self.x, self.y = nx, ny; self.put('G1 X%.2f Y%.2f' % (nx, ny))
        I, J = round(-R * math.cos(a), dg), round(-R * math.sin(a), dg)
        if abs(I) + abs(J) < .05: return
        R = math.hypot(I, J); a = math.atan2(-J, -I)
        if not closed and (R * min(sweep, 2 * math.pi - sweep) < .03): return
        cx, cy = self.x + I, self.y + J
        b = a + d * sweep
        parts = []
        if closed:
            if not self.rel and r.random() < .6: parts += ['X' + self.num(self.x, 5), 'Y' + self.num(self.y, 5)]
        else:
            nx, ny = round(cx + R * math.cos(b), dg), round(cy + R * math.sin(b), dg)
            if math.hypot(nx - self.x, ny - self.y) < .02: return
            if self.rel:
                dx, dy = round(nx - self.x, dg), round(ny - self.y, dg)
                if dx: parts.append('X' + self.num(dx, dg))
                if dy: parts.append('Y' + self.num(dy, dg))
                self.x, self.y = round(self.x + dx, 5), round(self.y + dy, 5)
            else:
                if nx != self.x or r.random() < .7: parts.append('X' + self.num(nx, dg))
                if ny != self.y or r.random() < .7: parts.append('Y' + self.num(ny, dg))
                self.x, self.y = nx, ny
        if r.random() < prof.get('pz', .2) and fw != 'R4' and not (closed and fw in ('M1', 'P10', 'P11')):
            dz = r.choice([.02, .2, .5, 1, 3]) * r.choice([1, 1, -1])
            nz = round(self.z + dz, dg)
            parts.append('Z' + self.num(round(nz - self.z, dg) if self.rel else nz, dg))
            self.z = nz if not self.rel else round(self.z + round(nz - self.z, dg), 5)
        if I or r.random() < .5: parts.append('I' + self.num(I, dg))
        if J or r.random() < .5: parts.append('J' + self.num(J, dg))
        m = r.random()
        if m < .75:
            de = round(R * sweep * r.choice([.02, .033, .1]) * (1 if m < .68 else -.3), self.ed)
            if self.erel: parts.append('E' + self.num(de, self.ed))
            else: self.e = round(self.e + de, self.ed); parts.append('E' + self.num(self.e, self.ed))
        if r.random() < .4:
            f = self.feed(); self.f = f; parts.insert(r.choice([0, len(parts)]), 'F' + self.num(f, self.fd))
        s = ('G2 ' if d < 0 else 'G3 ') + ' '.join(parts)
        if self.style and r.random() < .5: s = r.choice([s.lower(), s.replace(' ', ''), s.replace(' ', '  '), ' ' + s])
        self.put(s + r.choice(['', '', '', '', ' ; arc', ';x']) + ('\r' if r.random() < .02 else ''))
        self.narc += 1

EVENTS = ['blank', 'comment', 'fan', 'temp', 'unknown', 'text', 'other', 'g92e', 'g92x', 'g92y', 'g92z', 'm82', 'm83', 'retract', 'deretract', 'feed', 'hop', 'layer',
          'tool', 'tooloff', 'travel', 'g91', 'g90', 'cr', 'semi', 'm82only', 'g92e', 'retract']
def program(rng, prof):
    s = settings(rng, prof)
    s['form'] = rng.choice([0, 1])
    pr = dict(prof); pr['half'] = .02; pr.setdefault('events', EVENTS)
    pr.setdefault('xd', [3, 3, 3, 2, 4, 5])
    p = Arcs(rng, pr); p.fw, p.narc = s['fw'], 0
    p.g90e = g90e(s)
    if rng.random() < .8: p.put('G90')
    if rng.random() < .3: p.put('G28')
    if rng.random() < .5: p.put('M83'); p.erel = True
    if rng.random() < .5: p.put('G92 E0')
    x = rng.choice([1, 1, 1, 3]) 
    p.move(rng.uniform(-20, 120) * x, rng.uniform(0, 120) * x, .2, f=rng.choice([3000, 7200]), full=True)
    if rng.random() < .15 and not p.erel: p.e = rng.choice([250.0, 1000.0, 4000.0]); p.put('G1 E%g' % p.e)
    for _ in range(rng.randint(2, prof.get('n', 6))):
        p.garc()
        k = rng.random()
        if k < .35: continue
        if k < .65: p.event()
        elif k < .85: p.move(p.x + rng.uniform(-20, 20), p.y + rng.uniform(-20, 20), de=rng.choice([None, .5]), f=rng.choice([None, 7200, 1500]))
        else: p.poly()
    if rng.random() < .4: p.put('M84')
    return '\n'.join(p.lines) + rng.choice(['\n', '\n', '']), s, p
