"""Generator of source programs and options for the welder.  Every choice comes from the given Random."""
import math

COMMENTS = ['', '', '', '', '', '', 'perimeter', 'infill', 'move to first perimeter point', 'infill(bridge)', 'skirt',
            'wall', 'a b', 'inner loop', 'x']

class Prog:
    def __init__(self, rng, prof):
        self.r, self.prof = rng, prof
        self.lines = []
        self.x = self.y = self.z = 0.0      # logical position
        self.e = 0.0                        # logical E (absolute mode)
        self.rel = self.erel = False
        self.g90e = False
        self.f = None
        self.seen = set()
        self.xd = rng.choice(prof.get('xd', [3, 3, 3, 2, 4, 5]))
        self.ed = rng.choice(prof.get('ed', [5, 5, 4, 3]))
        self.zd = rng.choice(prof['zd']) if 'zd' in prof else self.xd
        self.fd = rng.choice([0, 0, 0, 1, 3])
        self.cp = rng.choice(prof.get('cp', [0, 0, .05, .5, 1]))
        self.curcomment = ''
        self.style = rng.random() < .1
        self.ncomment = 0
        self.hints, self.circles, self.hint = {}, [], 0    # which circle a line's move lies on

    def put(self, s): self.lines.append(s)
    def num(self, v, d):
        s = '%.*f' % (d, v)
        if float(s) == 0: s = '%.*f' % (d, 0.0)
        if self.r.random() < self.prof.get('trim', .3) and '.' in s: s = s.rstrip('0').rstrip('.')
        return s
    def comment(self):
        if self.r.random() >= self.cp: return ''
        if self.r.random() < .3: self.curcomment = self.r.choice(COMMENTS)
        if self.r.random() < .15:
            self.ncomment += 1
            return ' ;c%d' % self.ncomment if self.r.random() < .5 else '; note %d' % self.ncomment
        return (self.r.choice([' ; ', '; ', ' ;', ';']) + self.curcomment) if self.curcomment else ''

    def feed(self):
        v = self.r.choice([600, 900, 1200, 1500, 1800, 3000, 4800, 7200]) + self.r.choice([0, 0, 0, self.r.random()])
        return round(v, self.fd)

    def move(self, x=None, y=None, z=None, de=None, f=None, cmd=None, full=False):
        """to logical x, y, z with de of filament; returns the rounded end"""
        r = self.r
        parts = []
        def coord(l, new, cur):
            dec = self.zd if l == 'Z' else self.xd
            n = round(new, dec)
            if self.rel:
                d = round(n - cur, dec)
                if d != 0 or full: parts.append(l + self.num(d, dec))
                return round(cur + d, 5)
            if n != cur or full or r.random() < .5: parts.append(l + self.num(n, dec))
            else: return cur
            return n
        if x is not None:
            xx, yy = round(x, self.xd), round(y, self.xd)
            for _ in range(20):
                if (xx, yy) not in self.seen: break
                xx = round(xx + 10 ** -self.xd, self.xd)
            self.seen.add((xx, yy))
            self.x, self.y = coord('X', xx, self.x), coord('Y', yy, self.y)
        if z is not None: self.z = coord('Z', z, self.z)
        if de is not None:
            if self.erel:
                d = round(de, self.ed); parts.append('E' + self.num(d, self.ed)); 
            else:
                n = round(self.e + de, self.ed)
                parts.append('E' + self.num(n, self.ed)); self.e = n
        if f is not None and (f != self.f or r.random() < .05):
            self.f = f
            k = 0 if r.random() < .5 else len(parts)
            parts.insert(k, 'F' + self.num(f, self.fd))
        if not parts: return
        c = cmd or ('G1' if de is not None or r.random() < .5 else 'G0')
        s = c + ' ' + ' '.join(parts)
        if self.style:
            k = r.random()
            if k < .1: s = s.lower()
            elif k < .2: s = s.replace(' ', '')
            elif k < .3: s = s.replace(' ', '  ')
            elif k < .4: s = ' ' + s
        if self.hint: self.hints[len(self.lines)] = self.hint
        self.put(s + self.comment())

    # ---------------------------------------------------------------- events
    def event(self, kind=None):
        r = self.r
        kind = kind or r.choice(self.prof.get('events', EVENTS))
        if kind == 'blank': self.put(r.choice(['', '', '  ']))
        elif kind == 'comment': self.put(r.choice([';LAYER:%d', '; text %d', ';TYPE:WALL-%d', ';c%d']) % len(self.lines))
        elif kind == 'fan': self.put('M106 S%d' % len(self.lines))
        elif kind == 'temp': self.put('M104 S%d' % (180 + len(self.lines) % 60))
        elif kind == 'unknown': self.put(r.choice(['HELLO %d', '*%d', 'N%d G1 X5', '<%d>']) % len(self.lines))
        elif kind == 'text': self.put(r.choice(['M117 Layer %d', 'M117 G1 X%d', 'M118 E%d']) % len(self.lines))
        elif kind == 'other': self.put(r.choice(['G4 P%d', 'M204 S%d', 'M900 K0.%d', 'M73 P%d', 'G29 P%d']) % len(self.lines))
        elif kind == 'g92e':
            v = r.choice([0, 0, 0, 5.5]); self.put('G92 E%g' % v); self.e = float(v)
        elif kind == 'g92x':
            v = r.choice([0, 10, -3.5, 50]); self.put('G92 X%g' % v); self.x = float(v)
        elif kind == 'g92y':
            v = r.choice([0, 10, -3.5, 50]); self.put('G92 Y%g' % v); self.y = float(v)
        elif kind == 'g92z':
            v = round(self.z + r.choice([0, .2, 1]), 3); self.put('G92 Z%g' % v); self.z = v
        elif kind == 'm82': self.put('M82'); self.erel = False; self.put('G92 E0'); self.e = 0.0
        elif kind == 'm83': self.put('M83'); self.erel = True
        elif kind == 'm82only':
            self.put('M82'); self.erel = False
            if self.e is None: self.e = 0.0
        elif kind == 'g91': 
            self.put('G91'); self.rel = True
            if self.g90e: self.erel = True
        elif kind == 'g90':
            self.put('G90'); self.rel = False
            if self.g90e: self.erel = False
            self.put('G92 E0'); self.e = 0.0
        elif kind == 'retract': self.move(de=-r.choice([.5, 1, 2, .8]), f=r.choice([1800, 2400]))
        elif kind == 'deretract': self.move(de=r.choice([.5, 1, 2]), f=r.choice([1800, 2400]))
        elif kind == 'feed': self.f = self.feed(); self.put('G1 F' + self.num(self.f, self.fd))
        elif kind == 'hop': self.move(z=self.z + r.choice([.2, .4, -.2]), f=r.choice([7200, 9000]))
        elif kind == 'layer': self.move(z=self.z + .2, f=r.choice([7200, 9000]))
        elif kind == 'tool':
            t = r.choice([0, 0, 1, 2, 7, 9]); self.put('T%d' % t)
            if r.random() < .7 : self.put('G92 E0')
            self.e = 0.0
        elif kind == 'tooloff':
            t = r.choice([0, 0, 1, 2])
            self.put(r.choice(['G10 P%d', 'M218 T%d']) % t + r.choice([' X%g Y%g', ' X%g Y%g Z%g', ' X%g Y%g Z%g', ' Z%g']).replace(' X%g Y%g', ' X%g Y%g' % (r.choice([0, 1.5, -2]), r.choice([0, .5, 3])))
                     .replace(' Z%g', ' Z%g' % r.choice([0, .7, -1.2, .05])))
            if r.random() < .5:
                self.put('T%d' % t); self.put('G92 E0'); self.e = 0.0
        elif kind == 'home':
            self.put(r.choice(['G28', 'G28 X', 'G28 X Y', 'G28 Z', 'G28 X0 Y0']))
        elif kind == 'arcsrc':
            a = r.uniform(0, 6.28); R = r.uniform(1, 20); b = a + r.uniform(.5, 3)
            cx, cy = self.x - R * math.cos(a), self.y - R * math.sin(a)
            if self.rel: return
            self.x, self.y = round(cx + R * math.cos(b), 3), round(cy + R * math.sin(b), 3)
            e = ''
            if r.random() < .7:
                if self.erel: e = ' E%.5f' % (R * .05)
                else: self.e = round(self.e + R * .05, 5); e = ' E%.5f' % self.e
            self.put('%s X%.3f Y%.3f I%.3f J%.3f%s' % (r.choice(['G2', 'G3']), self.x, self.y, -R * math.cos(a), -R * math.sin(a), e))
        elif kind == 'travel': self.move(self.x + r.uniform(-20, 20), self.y + r.uniform(-20, 20), f=r.choice([7200, 9000]))
        elif kind == 'cr': self.put('M106 S%d\r' % len(self.lines))
        elif kind == 'semi': self.put('M106 S%d;' % len(self.lines))

    # ---------------------------------------------------------------- shapes
    def path(self, pts, mode='extrude', zs=None, f=None, breaks=None, circle=0):
        """moves along pts; breaks = probability of an event between two moves"""
        r, prof = self.r, self.prof
        rate = r.choice([.02, .033, .05, .1]) 
        var = r.choice(prof.get('ratevar', [0, 0, .01, .03, .08, .5]))
        ev = prof.get('pbreak', .02) if breaks is None else breaks
        f = f or self.feed()
        fchange = r.choice(prof.get('fchange', [0, 0, 0, .1]))
        first = True
        changing = mode == 'changing'
        if changing: mode = r.choice(['extrude', 'retract', 'travel'])
        for k, (x, y) in enumerate(pts):
            if not first and r.random() < ev: self.event()
            if not first and r.random() < fchange: f = self.feed()
            dist = math.hypot(x - self.x, y - self.y)
            if zs is not None: dist = math.hypot(dist, zs[k] - self.z)
            step = r.random() < prof.get('ratestep', .5)
            rr = rate * (1 + (var if not step else r.choice([-var, var, 0])) * (r.uniform(-1, 1) if not step else 1))
            if step and var: rate = rr
            de = dist * rr
            self.hint = circle
            if changing and r.random() < .2: mode = r.choice(['extrude', 'retract', 'travel'])
            if mode == 'extrude': self.move(x, y, zs[k] if zs else None, de=max(de, 10 ** -self.ed), f=f)
            elif mode == 'retract': self.move(x, y, zs[k] if zs else None, de=-max(de / 3, 10 ** -self.ed), f=f)
            else: self.move(x, y, zs[k] if zs else None, f=f)
            self.hint = 0
            if mode == 'mixed' : mode = 'extrude'
            first = False

    def arc(self, mode='extrude', three=None, n=None):
        r, prof = self.r, self.prof
        R = r.choice(prof.get('radii', [.3, .8, 2, 5, 12, 30, 100, 400])) * r.uniform(.7, 1.4)
        d = r.choice([-1, 1])
        seg = r.choice(prof.get('seg', [.02, .05, .1, .2, .4, 1, 2, 5]))
        n = n or r.choice([2, 3, 4, 6, 10, 16, 30])
        stepa = min(seg / R, 2.0, r.choice([.9, 2.2, 6.0]))
        total = stepa * n
        cap = r.choice([1.5, 3.0, 5.8, 6.2, 7.5])
        if total > cap: n = max(2, int(cap / stepa)); total = stepa * n
        a = r.uniform(0, 2 * math.pi)
        if r.random() < .25: a = r.choice([0, math.pi / 2, math.pi, -math.pi / 2])
        cx, cy = self.x - R * math.cos(a), self.y - R * math.sin(a)
        noise = r.choice(prof.get('noise', [0, 0, 0, .2, .45, .55, 1, 3])) * prof['half']
        uneven = r.choice([0, 0, .5])
        pts, zs = [], []
        zrise = 0
        if three is None: three = prof.get('three', .1)
        if r.random() < three: zrise = r.choice([.001, .004, .01, .2, .5, 1, 5]) * r.choice([1, 1, -1])
        znoise = r.choice([0, 0, 0, .0004, .002, .02]) if zrise else 0
        z0 = self.z
        late = zrise and r.random() < .15
        for k in range(1, n + 1):
            t = (k + (r.uniform(-uneven, uneven) if k < n else 0)) / n
            ang = a + d * total * t
            rad = R + r.choice([-1, 1, r.uniform(-1, 1)]) * noise
            pts.append((cx + rad * math.cos(ang), cy + rad * math.sin(ang)))
            zz = z0 + zrise * (t if not late else (0 if k < n / 2 else t)) + r.uniform(-znoise, znoise)
            zs.append(round(zz, self.zd))
        self.circles.append((cx, cy, R))
        self.path(pts, mode, zs if zrise else None, circle=len(self.circles))

    def scurve(self, mode='extrude'):
        """arcs one after the other, rising slowly all the way"""
        r = self.r
        a = r.uniform(0, 6.28); s = r.choice([.3, 1, 2]); t = r.choice([.05, .1, .2]); dz = r.choice([.00002, .00008, .0002, .0009]) * r.choice([1, 1, -1])
        m = r.choice([3, 4, 6]); n = m * r.choice([4, 8, 14]); x, y, pts, zs = self.x, self.y, [], []
        for k in range(n):
            a += t * (1 if k // m % 2 else -1); x += s * math.cos(a); y += s * math.sin(a); pts.append((x, y)); zs.append(round(self.z + dz * (k + 1), self.zd))
        self.path(pts, mode, zs)

    def ring(self, mode='extrude'):
        """round a circle and back to just before, at or just behind where it began"""
        r = self.r
        R = r.choice([.5, 1, 3, 10]); n = r.choice([6, 9, 20, 40]); d = r.choice([-1, 1]); a = r.choice([r.uniform(0, 6.28), 0, 1.5707963, .7853982])
        gap = r.choice([-1, 1, 1]) * r.choice([0, .00002, .0002, .0005, .0009, .0015, .004, .05])
        cx, cy = self.x - R * math.cos(a), self.y - R * math.sin(a)
        turn = 2 * math.pi - gap / R
        pts = [(cx + R * math.cos(a + d * turn * k / n), cy + R * math.sin(a + d * turn * k / n)) for k in range(1, n + 1)]
        if r.random() < .5: self.seen.discard((round(pts[-1][0], self.xd), round(pts[-1][1], self.xd)))
        self.path(pts, mode, breaks=r.choice([0, .02]))

    def poly(self, mode='extrude'):
        r = self.r
        n = r.choice([1, 2, 3, 6])
        x, y = self.x, self.y
        pts = []
        for _ in range(n):
            x += r.uniform(-15, 15); y += r.uniform(-15, 15); pts.append((x, y))
        self.path(pts, mode)

    def curve(self, mode='extrude'):
        """varying curvature"""
        r = self.r
        n = r.choice([6, 12, 25]); a = r.uniform(0, 6.28); k = r.uniform(-.5, .5); s = r.choice([.05, .2, .8, 2])
        x, y, pts = self.x, self.y, []
        for _ in range(n):
            a += k * s; k += r.uniform(-.2, .2) * r.choice([0, 1, 4])
            x += s * math.cos(a); y += s * math.sin(a); pts.append((x, y))
        self.path(pts, mode)

    def collinear(self, mode='extrude'):
        r = self.r
        n = r.choice([2, 3, 8]); a = r.choice([0, math.pi / 2, r.uniform(0, 6.28)]); s = r.choice([.1, 1, 4])
        bend = r.choice([0, 0, .0003, .002, .02])
        self.path([(self.x + s * k * math.cos(a) - bend * k * k * math.sin(a), self.y + s * k * math.sin(a) + bend * k * k * math.cos(a))
                   for k in range(1, n + 1)], mode)

    def zigzag(self, mode='extrude'):
        """back and forth over the same circle: the direction of travel flips"""
        r = self.r
        R = r.choice([2, 5, 12]); a = r.uniform(0, 6.28); cx, cy = self.x - R * math.cos(a), self.y - R * math.sin(a)
        pts, t = [], a
        for _ in range(r.choice([4, 8, 12])):
            t += r.choice([-.2, .2, .25, .3, 1.9]); pts.append((cx + R * math.cos(t), cy + R * math.sin(t)))
        self.path(pts, mode)

EVENTS = ['blank', 'comment', 'fan', 'temp', 'unknown', 'text', 'other', 'g92e', 'g92x', 'g92y', 'g92z', 'm82', 'm83',
          'retract', 'deretract', 'feed', 'hop', 'layer', 'tool', 'tooloff', 'arcsrc', 'travel', 'g91', 'g90', 'home',
          'cr', 'semi', 'm82only', 'blank', 'blank', 'g92e', 'retract']

def options(r, prof):
    o = {}
    def pick(k, vals, p=1.0):
        v = prof.get(k, vals)
        if r.random() < p: o[k] = r.choice(v)
    pick('r', [.01, .02, .05, .05, .1, .2, .5])
    pick('t', [.001, .01, .05, .05, .2], .5)
    pick('m', [9999, 5, 20, 100, 1000], .4)
    pick('z', [0, 1]); pick('y', [0, 1]); pick('d', [0, 0, 1]); pick('g', [0, 0, 1])
    pick('x', [3, 4, 5], .5); pick('e', [3, 4, 5], .5)
    pick('v', [0, 0, .01, .05, .2, 1.0], .8)
    pick('c', [0, 31, 36, 40, 45, 50, 60], prof.get('pc', .15))
    if r.random() < prof.get('psa', .15):
        o['s'] = r.choice([.1, .5, 1.0, 2.0]); o['a'] = r.choice([8, 12, 24, 48, 72])
    return o

def args(o):
    a = []
    for k in 'rtmxevsca':
        if k in o: a.append('-%s=%s' % (k, o[k]))
    for k in 'zydg':
        if o.get(k): a.append('-' + k)
    return a

def program(rng, prof):
    o = options(rng, prof)
    prof = dict(prof); prof['half'] = o.get('r', .05) / 2
    if o.get('d') and 'xd' not in prof: prof['xd'] = [2, 3, 4, 5]
    p = Prog(rng, prof)
    p.g90e = bool(o.get('g'))
    start = rng.random()
    if rng.random() < .1: p.put(rng.choice([';FLAVOR:UltiGCode', '; generated by PrusaSlicer 2.4', ';FLAVOR:Marlin']))
    if rng.random() < .8: p.put('G90')
    if start < .5: p.put('G28')
    if rng.random() < .4: p.put('M83'); p.erel = True
    if rng.random() < .5: p.put('G92 E0')
    if start < .9:
        p.move(rng.uniform(20, 120), rng.uniform(20, 120), .2, f=7200, full=True)
    elif start < .95:
        p.put('G1 X50'); p.x = 50.0
        p.y = 0.0
    n = prof.get('shapes', 6)
    modes = prof.get('modes', ['extrude'] * 8 + ['travel', 'travel', 'retract', 'retract'])
    for _ in range(rng.randint(max(1, n // 2), n)):
        m = rng.choice(modes)
        k = rng.choice(prof.get('kinds', ['arc'] * 6 + ['poly', 'curve', 'collinear', 'zigzag']))
        getattr(p, k)(m)
        if rng.random() < prof.get('pevent', .5): p.event()
        if rng.random() < prof.get('pcont', .3): pass
        elif rng.random() < .5: p.move(p.x + rng.uniform(-20, 20), p.y + rng.uniform(-20, 20), f=rng.choice([7200, 9000]))
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])): p.put(rng.choice(['', '', 'M84', '; end', ' ']))
    text = '\n'.join(p.lines) + rng.choice(['\n', '\n', '', '\n\n'])
    return text, o, p
