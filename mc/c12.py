""" C12 SLAS differential corrections are decoded and applied consistently """
import functools
import itertools
import math
from cssrlib.cssrlib import sCType
from cssrlib import dgps
from cssrlib.dgps import dgpsDec
from cssrlib.gnss import uGNSS, prn2sat, pos2ecef, timeadd
from mc.bits import BW
from mc.c09 import tm
from mc.core import expect
from mc.ewsdata import here, root
import numpy as np

T = 3*86400+3600.0
D = math.pi/180
# published mask order: GPS 64, QZSS 9 (193..), GLONASS 36, Galileo 36, BDS 36
BLK = [(uGNSS.GPS, 64, 1), (uGNSS.QZS, 9, 193), (uGNSS.GLO, 36, 1),
       (uGNSS.GAL, 36, 1), (uGNSS.BDS, 36, 1)]


def frame(mt, w):
    w.pad(212)
    d = BW().u(8, 0x53).u(6, mt).b(w.str())
    return d.u(24, 0x5a5a5a).bytes(6)


def m47(ents):
    w = BW()
    for k in range(5):
        c, la, lo, al = ents[k] if k < len(ents) else (63, 0, 0, 0)
        w.u(6, c).s(15, la).s(15, lo).u(6, al)
    return frame(47, w)


def m48(iodp, sats):
    """ sats: [(sys, prn)] """
    w = BW().u(2, iodp)
    for sys, n, p0 in BLK:
        w.mask(n, [p-p0 for s, p in sats if s == sys])
    return frame(48, w)


def order(sats):
    k = [b[0] for b in BLK]
    return sorted(sats, key=lambda x: (k.index(x[0]), x[1]))


def m49(iodi, iodp, iods):
    """ iods: {mask position: iod} """
    w = BW().u(2, iodi).mask(23, iods)
    for k in sorted(iods):
        w.u(8, iods[k])
    w.pad(209).u(2, iodp)
    return frame(49, w)


def m50(iodp, iodi, code, prc, h=0):
    w = BW().u(2, iodp).u(2, iodi).u(6, code).u(1, h).mask(23, prc)
    for k in sorted(prc)[:14]:
        w.s(12, prc[k])
    return frame(50, w)


def m51(bad):
    w = BW()
    for sys, n, p0 in BLK:
        w.mask(n, [p-p0 for s, p in bad if s == sys])
    return frame(51, w)


# the early-warning decoders held by a receiver play no role here: they are
# shared to avoid reading their tables for every history
for _n in ('jmaDec', 'camfDec'):
    if hasattr(dgps, _n):
        setattr(dgps, _n, functools.lru_cache(None)(getattr(dgps, _n)))


def new(t=T):
    with here():
        cs = dgpsDec()
    at(cs, t)
    return cs


def at(cs, t):
    cs.set_time(tm(t))
    cs.time = tm(t)


def rx(cs, msg):
    cs.decode_cssr(msg, 0)


def held(cs, code):
    """ corrections stored for a station: {sat: (prc, iod)} """
    lc = cs.lc[code+1]
    out = {}
    for s in lc.sat_n:
        v = float(lc.dclk[s])
        expect(s not in out, f'satellite {s} twice')
        expect(not np.any(lc.dorb[s]), 'orbit correction')
        out[s] = (v, int(lc.iode[s]))
    return out


def same(a, b):
    return a.keys() == b.keys() and all(
        a[k][1] == b[k][1] and abs(a[k][0]-b[k][0]) < 1e-9 for k in a)


class Model:
    """ what a user terminal has to hold """

    def __init__(self):
        self.mask, self.iodp, self.iods, self.iodi = [], -1, {}, -1
        self.iodp_i, self.st = -1, {}

    def on48(self, iodp, sats):
        self.iodp, self.mask = iodp, [prn2sat(*s) for s in order(sats)]

    def on49(self, iodi, iodp, iods):
        if iodp != self.iodp:
            return
        self.iodi, self.iodp_i = iodi, iodp
        self.iods = {self.mask[k]: v for k, v in iods.items()
                     if k < len(self.mask)}

    def on50(self, iodp, iodi, code, prc, h=0):
        if h or iodp != self.iodp or iodi != self.iodi or \
                iodp != self.iodp_i:
            return False
        self.st[code] = {
            self.mask[k]: (prc[k]*.04, self.iods[self.mask[k]])
            for k in sorted(prc)[:14]
            if k < len(self.mask) and self.mask[k] in self.iods}
        return True


G, Q, R, E, C = uGNSS.GPS, uGNSS.QZS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS
MK = [[(G, 3), (G, 32), (Q, 195), (E, 11)],
      [(G, 5), (G, 3), (R, 7), (C, 20)]]

EV = []
for p in (0, 1):
    EV.append(('mask', 48, p+1, MK[p]))
for p, i in itertools.product((0, 1), (0, 1)):
    EV.append(('iod', 49, i, p+1,
               {k: 40*p+20*i+k+1 for k in ((0, 1, 2, 3), (0, 1, 3))[i]}))
# an issue sent again for fewer satellites
EV.append(('iod', 49, 0, 1, {1: 91, 3: 92}))
for p, i in itertools.product((0, 1), (0, 1)):
    for c in (2, 40):
        ks = {(0, 2): (0, 1, 2), (1, 2): (1, 3), (0, 40): (0, 3),
              (1, 40): (0, 1, 2, 3)}[i, c]
        EV.append(('cor', 50, p+1, i, c,
                   {k: (-1)**k*(100*p+40*i+7*k+c+1) for k in ks}, 0))
EV.append(('cor', 50, 1, 0, 2, {0: 999, 1: 998}, 1))
EV.append(('cor', 50, 1, 1, 40, {0: 999, 1: 998}, 1))


def build(e):
    return {48: lambda: m48(*e[2:]), 49: lambda: m49(*e[2:]),
            50: lambda: m50(*e[2:])}[e[1]]()


MSG = [build(e) for e in EV]


def histories(ck):
    import copy
    depth = 5 if ck.thorough else 4

    # snapshots are avoided: each history is decoded by a fresh receiver
    def one(c, first):
        c.case('history', first, sub, first, steps=len(EV)**(depth-len(first)),
               timeout=600)

    def sub(first):
        for rest in itertools.product(range(len(EV)),
                                      repeat=depth-len(first)):
            run(first+rest)

    def run(seq, pre=()):
        cs, md = new(), Model()
        t = T
        for n, k in enumerate(pre+tuple(seq)):
            e = EV[k]
            t += 1
            at(cs, t)
            old = {c: dict(md.st.get(c, {})) for c in (2, 40)}
            rx(cs, MSG[k])
            if e[1] == 48:
                md.on48(*e[2:])
            elif e[1] == 49:
                md.on49(*e[2:])
            else:
                md.on50(*e[2:])
            for c in (2, 40):
                h = held(cs, c)
                if e[1] == 50 and e[6] == 1 and e[4] == c and not h:
                    md.st[c] = {}       # unhealthy station may be dropped
                expect(same(h, md.st.get(c, {})), lambda:
                       f'history {seq[:n+1]} ({[EV[j][1:] for j in seq[:n+1]]}):'
                       f' station {c} holds {h} expected {md.st.get(c, {})}'
                       f' was {old[c]}')
    ck.pmap('hist', list(itertools.product(range(len(EV)), repeat=2)), one)

    # continuing from a loaded receiver
    pre = tuple(j for j, e in enumerate(EV) if e[:3] == ('mask', 48, 1)) + \
        tuple(j for j, e in enumerate(EV)
              if e[:4] == ('iod', 49, 0, 1) and len(e[4]) == 4) + \
        tuple(j for j, e in enumerate(EV) if e[1] == 50 and e[2] == 1 and
              e[3] == 0 and e[6] == 0)

    def two(c, first):
        c.case('loaded', first, lambda: [
            run((first,)+r, pre) for r in itertools.product(
                range(len(EV)), repeat=depth-2)],
            steps=len(EV)**(depth-2), timeout=600)
    ck.pmap('loaded', range(len(EV)), two)
    ck.bound(histories=depth, alphabet=len(EV), loaded_histories=depth-1)


def load(mask, iods, prc, code=5, iodp=2, iodi=1):
    cs, md = new(), Model()
    rx(cs, m48(iodp, mask))
    md.on48(iodp, mask)
    rx(cs, m49(iodi, iodp, iods))
    md.on49(iodi, iodp, iods)
    rx(cs, m50(iodp, iodi, code, prc))
    md.on50(iodp, iodi, code, prc)
    h = held(cs, code)
    expect(same(h, md.st[code]), lambda: f'mask {mask} iods {iods} prc {prc}:'
           f' holds {h} expected {md.st[code]}')
    for c in range(63):
        expect(c == code or not held(cs, c), f'station {c} changed')
    return cs


ALL = [(s, p0+k) for s, n, p0 in BLK for k in range(n)]
DEF = [x for x in ALL if not (x[0] == G and x[1] > 32) and
       not (x[0] == R and x[1] > 24)]


def single(ck):
    # every satellite of the mask
    def sat(x):
        a = (G, 12) if x != (G, 12) else (G, 13)
        load(order([x, a]), {0: 11, 1: 22}, {0: 33, 1: -44})
    for x in DEF:
        ck.case('sat', x, sat, x)
    # every fill level; every correction subset shape
    for n in range(0, 24):
        for stp in (1, 3, 5, 7):
            mask = order([DEF[(stp*k+n) % len(DEF)] for k in range(n)])
            if len(set(mask)) < n:
                continue
            iods = {k: (37*k+n) % 256 for k in range(n)}
            for tag, ks in (('first', range(min(n, 14))),
                            ('last', range(max(0, n-14), n)),
                            ('odd', range(1, n, 2)), ('even', range(0, n, 2)),
                            ('none', [])):
                prc = {k: (-1)**k*(150*k+1) % 2000 for k in ks}
                ck.case('fill', (n, stp, tag), load, mask, iods, prc)
            for k in range(n):
                ck.case('one', (n, stp, k), load, mask, iods, {k: -5*k-1})
    mask = order([DEF[5*k+1] for k in range(23)])
    # all PRC and IOD values, station codes, issues
    for v in range(-2047, 2047):
        ck.case('prc', v, load, mask, {k: k for k in range(23)}, {7: v})
    for v in range(256):
        ck.case('iodv', v, load, mask, {k: (v+k) % 256 for k in range(23)},
                {0: 1, 7: 5, 22: 6})
    for c in range(63):
        ck.case('code', c, load, mask, {k: k for k in range(23)},
                {3: 5, 9: 100}, c)
    for p, i in itertools.product(range(4), repeat=2):
        ck.case('issue', (p, i), load, mask, {k: k for k in range(23)},
                {3: 5, 9: 100}, 4, p, i)
    # satellites without issue of data
    for k in range(23):
        ck.case('noiod', k, load, mask,
                {j: j+3 for j in range(23) if j != k},
                {j: 9*j for j in range(5, 18)})
    ks = range(5)
    for sub in itertools.product((0, 1), repeat=5):
        for cor in itertools.product((0, 1), repeat=5):
            ck.case('subsets', (sub, cor), load, mask[:5],
                    {k: 50+k for k in ks if sub[k]},
                    {k: 60+k for k in ks if cor[k]})
    ck.bound(fill_levels=24, prc_values=4094, station_codes=63)

    def mism(p, i, p2, i2, p3):
        """ other issues never change anything """
        cs = load(mask, {k: k for k in range(23)}, {3: 5, 9: 100}, 4, p, i)
        a = held(cs, 4)
        rx(cs, m50(p2, i2, 4, {1: 700, 2: 800, 3: 900}))
        rx(cs, m50(p2, i2, 9, {1: 700, 2: 800, 3: 900}))
        expect(same(held(cs, 4), a) and not held(cs, 9),
               f'active {p},{i}: message of issue {p2},{i2} was used')
        if p3 != p:
            rx(cs, m49(i2, p3, {k: 99 for k in range(23)}))
            rx(cs, m50(p, i, 4, {3: 50}))
            expect(same(held(cs, 4), {a_: (2.0, b[1]) for a_, b in
                                      a.items() if a_ == prn2sat(*mask[3])}),
                   f'issue of data of mask {p3} was used for mask {p}')
    for p, i, p2, i2, p3 in itertools.product(range(4), repeat=5):
        if (p, i) != (p2, i2):
            ck.case('mism', (p, i, p2, i2, p3), mism, p, i, p2, i2, p3)

    def health(bad):
        cs = load(mask, {k: k for k in range(23)}, {3: 5, 9: 100})
        a = held(cs, 5)
        rx(cs, m51(bad))
        expect(same(held(cs, 5), a), 'health message changed corrections')
        for s, n, p0 in BLK:
            m = int(''.join('1' if (s, p0+k) in bad else '0'
                            for k in range(n)), 2)
            expect(int(cs.svh[s]) == m, lambda:
                   f'health {s}: {cs.svh[s]:x} expected {m:x}')
    for x in ALL:
        ck.case('health', x, health, [x])
    ck.case('health', 'many', health, ALL[::3])
    for mt in (0, 63):
        def nul():
            cs = load(mask, {k: k for k in range(23)}, {3: 5, 9: 100})
            a = held(cs, 5)
            rx(cs, frame(mt, BW().u(16, 0xffff)))
            expect(same(held(cs, 5), a), 'null message changed corrections')
        ck.case('null', mt, nul)


ST = {0: (43.150, 141.220, 50), 1: (38.270, 140.740, 200),
      3: (36.580, 140.550, 150), 5: (36.400, 136.410, 50),
      6: (34.710, 135.040, 200), 7: (34.350, 132.450, 50),
      8: (33.600, 130.230, 50), 9: (30.550, 130.940, 100),
      10: (28.420, 129.690, 50), 11: (26.150, 127.690, 100),
      12: (24.730, 125.350, 100), 13: (24.370, 124.130, 100),
      14: (27.090, 142.190, 100)}


def dist(a, b):
    """ great-circle distance [km] """
    p, q = [[math.cos(x[0]*D)*math.cos(x[1]*D),
             math.cos(x[0]*D)*math.sin(x[1]*D), math.sin(x[0]*D)]
            for x in (a, b)]
    return 6371*2*math.asin(min(1, math.dist(p, q)/2))


def stations(ck):
    def tab(st, cs):
        for c, (la, lo, al) in st.items():
            got = cs.posr[c]/[D, D, 1]
            expect(max(abs(got-[la, lo, al])) < 1e-9,
                   lambda: f'station {c} at {got} expected {(la, lo, al)}')
    ck.case('table', 'default', lambda: tab(ST, new()))

    def m47c(ents):
        cs = new()
        rx(cs, m47(ents))
        st = dict(ST)
        for c, la, lo, al in ents:
            if c != 63:
                st[c] = (la*.005, 115+lo*.005, al*50.-100)
        tab(st, cs)
        for c in range(64):
            expect(c in st or not np.any(cs.posr[c]), f'station {c} set')
    for c in range(63):
        for k in range(5):
            e = [(63, 0, 0, 0)]*k+[(c, 7001+k, 4001-c, 7)]
            ck.case('m47', (c, k), m47c, e)
    for val in [(0, 0, 0), (16383, 16383, 63), (-16384, -16384, 1),
                (-1, -1, 2), (1, 1, 3), (18000//2, -23000//2, 4)]:
        ck.case('m47v', val, m47c, [(33,)+val, (34,)+val[:2]+(9,)])
    for n in range(6):
        ck.case('m47n', n, m47c, [(11*k+2, 6000+900*k, 2000+500*k, k)
                                  for k in range(n)])
    for m in itertools.product((0, 1), repeat=5):
        ck.case('m47h', m, m47c,
                [(11*k+2 if m[k] else 63, 6000+900*k, 2000+500*k, k)
                 for k in range(5)])

    # selection of the nearest station for every user position
    mask = MK[0]
    sats = [prn2sat(*s) for s in order(mask)]

    def pick(extra, have, la, lo):
        cs = new()
        if extra:
            rx(cs, m47(extra))
        st = dict(ST)
        for c, a, b, al in extra:
            st[c] = (a*.005, 115+b*.005, al*50.-100)
        rx(cs, m48(1, mask))
        rx(cs, m49(2, 1, {0: 5, 1: 6, 2: 7, 3: 8}))
        ser = {}
        for c in st:
            if have(c):
                ser[c] = {0: c+1, 1: -c-1, 3: 3*c} if c % 2 else {1: c+500}
                rx(cs, m50(1, 2, c, ser[c]))
        for dla in range(10):
            for dlo in range(10):
                p = (la+.27*dla, lo+.31*dlo)
                d = sorted((dist(p, st[c]), c) for c in st)
                if d[0][0] > 700 or d[1][0]-d[0][0] < .05*d[1][0]+3:
                    continue
                c = d[0][1]
                bl = cs.set_dgps_corr(pos2ecef(np.array(
                    [p[0]*D, p[1]*D, 100.])))
                expect(cs.inet == c+1, lambda: f'user {p}: station '
                       f'{cs.inet-1} used, nearest is {c}')
                expect(abs(bl-d[0][0]) < 2+.05*d[0][0],
                       f'baseline {bl} expected {d[0][0]}')
                want = {} if c not in ser else \
                    {sats[k]: v*.04 for k, v in ser[c].items()}
                got = {s: float(cs.lc[0].dclk[s]) for s in cs.sat_n}
                expect(got.keys() == want.keys() and all(
                    abs(got[s]-want[s]) < 1e-9 for s in got), lambda:
                    f'user {p} (station {c}): corrections {got} '
                    f'expected {want}')
                if want:
                    expect(cs.iodssr_c[sCType.CLOCK] == 1 and
                           cs.iodssr_c[sCType.ORBIT] == 1, 'issue of mask')
                    expect(all(cs.lc[0].iode[s] == 5+sats.index(s)
                               for s in got), 'issue of data')
                else:
                    expect(cs.iodssr_c[sCType.CLOCK] != cs.iodssr or
                           not cs.sat_n, 'corrections usable')
    X = [(60, 7500, 5600, 3), (33, 6050, 2550, 2)]
    for la in range(21, 47, 3):
        for lo in range(121, 148, 3):
            for tag, f in (('all', lambda c: 1), ('even', lambda c: c % 2 == 0),
                           ('odd', lambda c: c % 2)):
                for ex in ([], X):
                    ck.case('near', (la, lo, tag, len(ex)),
                            pick, ex, f, la, lo, steps=100)

    def nocorr():
        cs = new()
        r = pos2ecef(np.array([36.4*D, 136.4*D, 50.]))
        expect(cs.set_dgps_corr(r) == -1, 'corrections without mask')
        rx(cs, m48(1, mask))
        expect(cs.set_dgps_corr(r) == -1, 'corrections without issue of data')
    ck.case('near', 'none', nocorr)

    def valid(dt):
        cs = new()
        rx(cs, m48(1, mask))
        rx(cs, m49(2, 1, {0: 5, 1: 6, 2: 7, 3: 8}))
        rx(cs, m50(1, 2, 5, {0: 50, 1: 60}))
        at(cs, T+60)
        rx(cs, m50(1, 2, 6, {0: 70, 3: 80}))
        r = pos2ecef(np.array([36.4*D, 136.4*D, 50.]))
        cs.set_dgps_corr(r)
        cs.check_validity(tm(T+dt))
        for s, v in ((sats[0], 2.0), (sats[1], 2.4)):
            if dt > 120:
                lc = cs.lc[0]       # outdated corrections are not usable
                expect(s not in cs.sat_n or lc.iode.get(s, -1) < 0 or
                       not np.isfinite(lc.dclk.get(s, np.nan)),
                       f'age {dt}: outdated correction')
            else:
                expect(abs(cs.lc[0].dclk[s]-v) < 1e-9 and
                       cs.lc[0].iode[s] >= 0, f'age {dt}: correction lost')
    for dt in (0, 1, 30, 60, 119, 120, 121, 150, 180, 300, 3600):
        ck.case('valid', dt, valid, dt)


def run(ck):
    root()
    single(ck)
    stations(ck)
    histories(ck)
