""" C36 regional ionosphere corrections of MADOCA-PPP """
import itertools
import math
import numpy as np
from cssrlib.cssr_mdc import cssr_mdc
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, sat2id, timediff
from mc import cssrenc as E
from mc.bits import BW, tobytes
from mc.core import expect

WEEK = 2300
NAREA = {1: 8, 2: 16, 3: 5, 4: 1, 5: 8}
RE = 6378.137
SYS = 'GRECJ'
SCL = (.05, .02, .02, .02, .005, .005)
LEN = (14, 12, 12, 10, 8, 8)
NC = (1, 3, 4, 6)
TOW = 3*86400+7*3600+600


def rect(lat, lon, dlat, dlon):
    """ units of 0.1 deg """
    return (0, lat, lon, dlat, dlon)


def circ(lat, lon, rng):
    """ 0.01 deg and 10 km """
    return (1, lat, lon, rng)


def centre(s):
    k = .1 if s[0] == 0 else .01
    return s[1]*k, s[2]*k


def mt1(tow, reg, areas, iod=0, alert=0, mi=0, udi=0):
    """ areas: {area: shape} """
    w = BW()
    w.u(12, 1).u(4, 0).u(20, tow).u(4, udi).u(1, mi).u(4, iod)
    w.u(8, reg).u(1, alert).u(16, 5+45*len(areas)).u(5, len(areas))
    for a, s in areas.items():
        w.u(5, a).u(1, s[0])
        if s[0] == 0:
            w.s(11, s[1]).u(12, s[2]).u(8, s[3]).u(8, s[4])
        else:
            w.s(15, s[1]).u(16, s[2]).u(8, s[3])
    return w


def mt2(tow, reg, area, typ, sats, iod=0, mi=0, udi=0):
    """ sats: [(system, number, quality, six coefficients)] in order """
    w = BW()
    w.u(12, 2).u(4, 0).u(12, int(tow) % 3600).u(4, udi).u(1, mi).u(4, iod)
    w.u(8, reg).u(5, area).u(2, typ)
    for s in SYS:
        w.u(5, sum(x[0] == s for x in sats))
    for s in SYS:
        for x in sats:
            if x[0] == s:
                w.u(6, x[1]).u(6, x[2])
                for k in range(NC[typ]):
                    w.s(LEN[k], x[3][k])
    return w


def name(s, n):
    return f'{s}{n:02d}'


def new(tow=TOW):
    cs = cssr_mdc()
    cs.set_time(gpst2time(WEEK, tow))
    return cs


def send(cs, *ws):
    cs.decode_cssr(tobytes(''.join(w.str() for w in ws))+bytes(64), 0)


def inside(shapes, lat, lon):
    """ area of a user position (None: outside), judged off the border """
    for a, s in shapes.items():
        la, lo = centre(s)
        dlo = (lon-lo+180) % 360-180
        if s[0] == 0:
            if abs(lat-la) <= s[3]*.1 and abs(dlo) <= s[4]*.1:
                return a
        else:
            n = math.radians(lat-la)*RE
            e = math.radians(dlo)*RE*math.cos(math.radians(la))
            if math.hypot(n, e) <= s[3]*10:
                return a
    return None


def user(cs, lat, lon):
    """ corrections at a position: what a user of the library does """
    pos = np.array([math.radians(lat), math.radians(lon), 30.0])
    inet = cs.find_grid_index(pos)
    if inet < 0:
        return None
    d = cs.get_dpos(pos)
    cs.inet = inet
    v = cs.get_stec(*d)
    return inet, d, dict(zip([sat2id(s) for s in cs.lc[inet].sat_n], v)), v


def value(shape, typ, sats, lat, lon):
    la, lo = centre(shape)
    x, y = lat-la, (lon-lo+180) % 360-180
    p = (1, x, y, x*y, x*x, y*y)
    return {name(s, n): sum(c[k]*SCL[k]*p[k] for k in range(NC[typ]))
            for s, n, _, c in sats}


def judge(cs, shapes, corr, lat, lon, what):
    """ shapes {reg: {area: shape}}; corr {(reg, area): (typ, sats)} """
    want = None
    for r in shapes:
        a = inside(shapes[r], lat, lon)
        if a is not None:
            want = (r, a)
    got = user(cs, lat, lon)
    if want is None:
        expect(got is None, lambda: f'{what}: {lat},{lon} outside of every '
               f'area, found {got[0]}')
        return 0
    expect(got is not None, lambda: f'{what}: {lat},{lon} within area {want}'
           ' not found')
    s = shapes[want[0]][want[1]]
    la, lo = centre(s)
    d = (lat-la, (lon-lo+180) % 360-180)
    expect(max(abs(got[1][0]-d[0]), abs(got[1][1]-d[1])) < 1e-9,
           lambda: f'{what}: offset {got[1]} from the reference, not {d}')
    w = value(s, *corr[want], lat, lon) if want in corr else {}
    expect(set(w) == set(got[2]), lambda: f'{what}: satellites {got[2]} '
           f'in {want}, not {list(w)}')
    expect(len(got[3]) == len(w), f'{what}: number of values')
    if want in corr:
        q = cs.lc[got[0]].stec_quality
        for y in corr[want][1]:
            k = next((k for k in q if sat2id(k) == name(*y[:2])), None)
            expect(k is not None and q[k] == y[2], lambda:
                   f'{what}: quality {q} with {y}')
    for k in w:
        expect(abs(w[k]-got[2][k]) < 1e-6, lambda: f'{what}: {k} in {want} '
               f'{got[2][k]} TECU, not {w[k]}')
    return len(w)+1


def probes(s):
    """ positions around the border and within the area """
    la, lo = centre(s)
    r = [(0., 0.)]
    if s[0] == 0:
        h, w = s[3]*.1, s[4]*.1
        e = .03
        r += [(y, x) for y in (-h-e, -h+e, 0, h-e, h+e)
              for x in (-w-e, -w+e, 0, w-e, w+e)]
        if h <= e or w <= e:
            r = [(y, x) for y in (-h-e, h+e) for x in (-w-e, 0, w+e)]
    else:
        d = math.degrees(s[3]*10/RE)
        c = math.cos(math.radians(la))
        if s[3] == 0:
            return [(la+.1, lo), (la, lo+1)]
        if d < 3:
            dirs = range(0, 360, 45)
        elif la == 0:
            dirs = range(0, 360, 90)
        else:
            dirs = (0, 180)
        m = .08 if d < 3 else .02
        r += [(f*d*math.cos(math.radians(b)),
               f*d*math.sin(math.radians(b))/c)
              for f in (.5, 1-m, 1+m) for b in dirs]
    out = []
    for y, x in r:
        lat, lon = la+y, (lo+x+180) % 360-180
        if abs(lat) <= 89.9:
            out.append((lat, lon))
    return out


RECT = [(a, b, c, d) for a in (-300, 0, 355, 600) for b in
        (0, 1, 1395, 1799, 1800, 1801, 2755, 3599) for c, d in
        ((1, 1), (25, 30), (255, 1), (1, 255), (255, 255), (0, 10))]
CIRC = [(a, b, c) for a in (-6000, -1, 0, 3512, 6000) for b in
        (0, 13975, 17999, 18000, 18001, 35999) for c in (0, 1, 8, 30, 100,
                                                         255)]


def shape(s):
    cs = new()
    n = 0
    send(cs, mt1(TOW, 1, {3: s}))
    sats = [('G', 5, 1, (100, 30, -20, 7, 5, -3))]
    send(cs, mt2(TOW, 1, 3, 3, sats))
    for p in probes(s):
        n += judge(cs, {1: {3: s}}, {(1, 3): (3, sats)}, *p, f'area {s}')
    return n


def layout(reg, n):
    """ disjoint areas in a region, alternately of both shapes """
    return {a: rect(-800+40*a, 300*reg+15*a, 9, 5) if a % 2 else
            circ(-8000+400*a, 3000*reg+150*a, 8) for a in range(1, n+1)}


def every(regs, part):
    """ all areas of the given regions at once """
    cs = new()
    shapes, corr = {}, {}
    k = 0
    for r in regs:
        shapes[r] = layout(r, NAREA[r])
        ids = list(shapes[r])
        step = part or len(ids)
        for j in range(0, len(ids), step):
            send(cs, mt1(TOW, r, {a: shapes[r][a] for a in ids[j:j+step]}))
    for r in regs:
        for a in shapes[r]:
            k += 1
            sats = [('G', 1+k % 32, k % 64, (k*37-700, k, -k, 3*k-50, k-20,
                                             9-k))]
            corr[r, a] = (k % 4, sats)
            send(cs, mt2(TOW, r, a, k % 4, sats, iod=k % 16))
    n = 0
    nets = set()
    for r in regs:
        for a in shapes[r]:
            la, lo = centre(shapes[r][a])
            n += judge(cs, shapes, corr, la+.2, lo-.3, f'{r}/{a}')
            nets.add(user(cs, la, lo)[0])
    expect(len(nets) == sum(NAREA[r] for r in regs), 'areas share a network')
    judge(cs, shapes, corr, 85., -170., 'outside')
    return n


def coef(typ, sats, pts):
    s = rect(355, 1395, 50, 50)
    cs = new()
    send(cs, mt1(TOW, 2, {4: s}))
    send(cs, mt2(TOW, 2, 4, typ, sats))
    n = 0
    for p in pts:
        n += judge(cs, {2: {4: s}}, {(2, 4): (typ, sats)}, *p, 'coefficients')
    return n


def timing(t0, t1, start):
    """ message 2 at t1 after a start at t0 """
    cs = new(t0 if start == 'clock' else 0)
    if start == 'mt1':
        cs.set_time(gpst2time(WEEK, t0//86400*86400))
        send(cs, mt1(t0, 1, {1: rect(355, 1395, 50, 50)}))
        expect(abs(timediff(cs.time, gpst2time(WEEK, t0))) < 1e-6,
               'time of the coverage message')
    send(cs, mt2(t1, 1, 1, 0, [('G', 1, 0, (5, 0, 0, 0, 0, 0))]))
    expect(abs(timediff(cs.time, gpst2time(WEEK, t1))) < 1e-6,
           lambda: 'correction of %d received after %d dated %f s off' %
           (t1, t0, timediff(cs.time, gpst2time(WEEK, t1))))
    inet = 1
    t = cs.lc[inet].t0[0][sCType.STEC]
    expect(abs(timediff(t, gpst2time(WEEK, t1))) < 1e-6, lambda:
           'reference time of the correction %f s off' %
           timediff(t, gpst2time(WEEK, t1)))
    return 1


MASK = E.Mask(0, [(0, [7, 12], [0], None), (2, [11], [1], None)])
GEO = {('A', 0): {1: rect(355, 1395, 30, 20), 2: circ(2600, 12800, 15)},
       ('A', 1): {1: rect(340, 1380, 30, 20), 2: circ(2600, 12800, 30)},
       ('B', 0): {1: rect(-355, 1500, 50, 50)},
       ('B', 1): {1: circ(-4000, 17900, 60)}}
REG = {'A': 1, 'B': 3}
USERS = [(35.4, 139.3), (33.2, 137.0), (26.5, 128.4), (26.0, 129.9),
         (-37., 148.), (-39.5, -178.), (0., 0.)]
EV = [('A', 0), ('A', 1), ('B', 0), ('B', 1), ('a', 1), ('a', 2), ('b', 1),
      ('none', 1), ('mask',), ('orb',), ('two',), ('u', 0), ('u', 4)]


class World:
    def __init__(self):
        self.cs = new()
        self.n = 0
        self.shapes, self.corr = {}, {}

    def msg(self, e):
        n, t = self.n, TOW+30*self.n
        if e[0] in 'AB':
            g = dict(GEO[e])
            self.shapes.setdefault(REG[e[0]], {}).update(g)
            return mt1(t, REG[e[0]], g, iod=n % 16)
        if e[0] in 'ab':
            r = REG[e[0].upper()]
            sats = [(s, p, n, tuple((n*31+7*k+p) % 200-100 for k in range(6)))
                    for s, p in [('G', 3), ('R', 4), ('E', 5), ('C', 6),
                                 ('J', 2), ('G', 9)][n % 3:3+n % 4]]
            self.corr[r, e[1]] = (n % 4, sats)
            return mt2(t, r, e[1], n % 4, sats, iod=n % 16)
        if e[0] == 'none':  # no satellite
            self.corr[1, e[1]] = (n % 4, [])
            return mt2(t, 1, e[1], n % 4, [], iod=n % 16)
        if e[0] == 'mask':
            return E.st1(MASK, t)
        return E.st2(MASK, t, [(1, 2, 3, 4)]*3)

    def step(self, e):
        self.n += 1
        k = 0
        if e[0] == 'u':     # evaluate, then decode further messages
            k = judge(self.cs, self.shapes, self.corr, *USERS[e[1]], 'user')
        elif e[0] == 'two':
            send(self.cs, self.msg(('a', 1)), self.msg(('B', 1)))
        else:
            send(self.cs, self.msg(e))
        return k

    def check(self):
        return sum(judge(self.cs, self.shapes, self.corr, *u, 'history')
                   for u in USERS)


def history(evs):
    w = World()
    for e in evs:
        w.step(e)
    return w.check()+1


def kept(evs, u):
    """ the position of the user stays selected while messages arrive """
    w = World()
    for e in (('A', 0), ('a', 1), ('a', 2), ('B', 0), ('b', 1)):
        w.step(e)
    lat, lon = USERS[u]
    pos = np.array([math.radians(lat), math.radians(lon), 30.0])
    cs = w.cs
    cs.inet = cs.find_grid_index(pos)
    expect(cs.inet >= 0, 'user not found')
    for e in evs:
        w.step(e)
    r, a = next((r, x) for r in w.shapes
                for x in [inside(w.shapes[r], lat, lon)] if x is not None)
    d = cs.get_dpos(pos)
    v = cs.get_stec(*d)
    s = w.shapes[r][a]
    la, lo = centre(s)
    e = (lat-la, lon-lo)
    expect(max(abs(d[0]-e[0]), abs(d[1]-e[1])) < 1e-9,
           lambda: f'offset {d} from the reference, not {e}')
    x = value(s, *w.corr[r, a], lat, lon)
    g = dict(zip([sat2id(k) for k in cs.lc[cs.inet].sat_n], v))
    expect(set(x) == set(g) and all(abs(x[k]-g[k]) < 1e-6 for k in x),
           lambda: f'{g} instead of {x}')
    return 1


def run(ck):
    TH = ck.thorough
    it = [rect(*x) for x in RECT]+[circ(*x) for x in CIRC]
    if TH:
        it += [rect(a, b, c, d) for a in range(-600, 601, 60) for b in
               range(0, 3600, 150) for c in (3, 80) for d in (3, 80)]
        it += [circ(a, b, c) for a in range(-6000, 6001, 600) for b in
               range(0, 36000, 1500) for c in (2, 12, 25, 33)]
    ck.pmap('shape', it, lambda c, x: c.case('shape', x, shape, x), chunk=30)
    it = [(r, p) for m in range(1, 6) for r in itertools.permutations(
        NAREA, m) for p in (0, 1, 3) if TH or m < 3 or p == 0]
    ck.pmap('regions', it, lambda c, x: c.case('regions', x, every, *x),
            chunk=20)
    pts = [(35.5, 139.5), (38.1, 142.7), (32.2, 135.1), (36.9, 136.2)]
    it = []
    for typ in range(4):
        for k in range(NC[typ]):
            m = (1 << LEN[k]-1)-1
            for v in {m, -m, 1, -1, 0, m//2, -m//3}:
                it.append((typ, [('G', 7, 3, tuple(
                    v if j == k else 0 for j in range(6)))]))
                it.append((typ, [('G', 7, 3, tuple(
                    v if j == k else 11-3*j for j in range(6)))]))
        for cnt in itertools.product(range(3), repeat=5):
            sats = [(s, 1+3*i+j, 10*i+j, tuple(
                (17*i+29*j+5*k) % 200-100 for k in range(6)))
                for j, s in enumerate(SYS) for i in range(cnt[j])]
            it.append((typ, sats))
        for j, s in enumerate(SYS):
            top = {'G': 32, 'R': 27, 'E': 36, 'C': 63, 'J': 10}[s]
            for p in range(1, top+1):
                it.append((typ, [(s, p, 63, (9, 8, 7, 6, 5, 4))]))
            n = min(top, 31)
            it.append((typ, [(s, p, p, (p*9, -p, 2*p, 30-p, p-4, 5))
                             for p in range(1, n+1)]))
    ck.pmap('coefficients', it, lambda c, x: c.case(
        'coefficients', x, coef, *x, pts), chunk=100)
    it = []
    for h in (0, 7, 167 if TH else 23):
        for t0 in [h*3600+x for x in ((0, 30, 900, 1799, 1800, 1801, 2700,
                                       3570, 3599) if not TH else
                                      range(0, 3600, 97))]:
            for dt in (0, 1, 30, 300, 1770, -30, -300, -1770):
                t1 = t0+dt
                if 0 <= t1 < 604800:
                    it += [(t0, t1, 'clock'), (t0, t1, 'mt1')]
    ck.pmap('time', it, lambda c, x: c.case('time', x, timing, *x), chunk=50)
    d = 5 if TH else 4
    it = [h for m in range(1, d+1) for h in itertools.product(EV, repeat=m)]
    ck.pmap('history', it, lambda c, x: c.case('history', x, history, x),
            chunk=400)
    it = [(h, u) for m in range(0, d) for h in itertools.product(
        [('a', 2), ('a', 1), ('B', 0), ('b', 1), ('A', 0), ('mask',),
         ('none', 1)],
        repeat=m) for u in (0, 2, 4)]
    ck.pmap('kept', it, lambda c, x: c.case('kept', x, kept, *x), chunk=200)
    ck.bound(history_depth=d, events=len(EV), users=len(USERS),
             areas=sum(NAREA.values()))
