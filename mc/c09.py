""" C09 DFMC SBAS and PVS messages decode to the transmitted corrections """
import itertools
import math
import numpy as np
from cssrlib.cssr_pvs import cssr_pvs, decode_sinca_line
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, sat2id, timediff, uGNSS, id2sat, time2gpst
from cssrlib.sbas import sbasDec
from mc import layout as L
from mc.bits import BW
from mc.core import expect

WEEK = 2300
PI = 3.1415926535898
COV = [('sc', 'u', 3), ('E11', 'u', 9), ('E22', 'u', 9), ('E33', 'u', 9),
       ('E44', 'u', 9), ('E12', 's', 10), ('E13', 's', 10), ('E14', 's', 10),
       ('E23', 's', 10), ('E24', 's', 10), ('E34', 's', 10)]
TAIL = [('dfrei', 'u', 4), ('dr', 'u', 4)]
MT32 = [('slot', 'u', 8), ('iodn', 'u', 10), ('dx', 's', 11), ('dy', 's', 11),
        ('dz', 's', 11), ('db', 's', 12), ('vx', 's', 8), ('vy', 's', 8),
        ('vz', 's', 8), ('vb', 's', 9), ('t', 'u', 13)]+COV+TAIL
MT37 = [('iv32', 'u', 6), ('iv39', 'u', 6), ('cer', 'u', 6), ('ccov', 'u', 7)]
for _s in 'GRECSx':
    MT37 += [(_s+'i', 'u', 5), (_s+'c', 'u', 8), (_s+'r', 'u', 8)]
MT37 += [(f'd{_k}', 'u', 4) for _k in range(15)]
MT37 += [('tid', 'u', 3), ('sp', 'x', 2)]
MT39 = [('slot', 'u', 6), ('iodg', 'u', 2), ('prov', 'u', 5),
        ('cuc', 's', 19), ('cus', 's', 19), ('idot', 's', 22),
        ('omg', 's', 34), ('OMG0', 's', 34), ('M0', 's', 34),
        ('af0', 's', 25), ('af1', 's', 16)]
MT40 = [('iodg', 'u', 2), ('i0', 'u', 33), ('e', 'u', 30), ('a', 'u', 31),
        ('te', 'u', 13)]+COV+TAIL
ALM = [('slot', 'u', 6), ('prov', 'u', 5), ('bi', 'u', 1), ('a', 'u', 16),
       ('e', 'u', 8), ('i0', 'u', 13), ('omg', 's', 14), ('OMG0', 's', 14),
       ('OMGd', 's', 8), ('M0', 's', 15), ('ta', 'u', 6)]
assert L.size(MT32) == L.size(MT37) == L.size(MT39) == L.size(MT40) == 216
assert 2*L.size(ALM)+4 == 216
SCALE = [.0625, .125, .125, .125, .125, .25, .25, .25, .25, .25, .5, .5, 1,
         3, 6]


def slotid(s):
    for c, a, b, o in (('G', 1, 32, 0), ('R', 38, 61, 37), ('E', 75, 110, 74),
                       ('S', 120, 158, 100), ('C', 159, 195, 158),
                       ('J', 197, 205, 196)):
        if a <= s <= b:
            return f'{c}{s-o:02d}'
    return None


UNCERTAIN = set(range(62, 70)) | set(range(197, 206))  # GLONASS 25-32, QZSS


def l5(mt, w, tvs=False):
    """ 250-bit L5 message """
    m = BW()
    if tvs:
        m.u(8, 0x9a).u(2, {34: 0, 32: 2}[mt])
    else:
        m.u(4, 5).u(6, mt)
    m.b(w.str())
    m.pad(226)
    return m.bytes(6)


def sat(i):
    return id2sat(i)


def cov(v):
    s = 2.0**(v['sc']-5)
    R = np.array([[v['E11'], v['E12'], v['E13'], v['E14']],
                  [0, v['E22'], v['E23'], v['E24']],
                  [0, 0, v['E33'], v['E34']], [0, 0, 0, v['E44']]])*s
    return R.T.dot(R), s


def nearest(tow, sod):
    """ GPS time (week seconds) of the second of day nearest to tow """
    d = (sod-tow) % 86400
    return tow+(d if d < 43200 else d-86400)


def tm(tow):
    return gpst2time(WEEK, 0) if tow == 0 else gpst2time(
        WEEK+math.floor(tow/604800), tow-math.floor(tow/604800)*604800)


def same(a, b, what, tol=1e-12):
    expect(a is not None and not np.any(np.isnan(a)) and
           np.all(np.abs(np.asarray(a, float)-np.asarray(b, float)) <=
                  tol*np.maximum(1e-30, np.abs(np.asarray(b, float)))),
           lambda: f'{what}: decoded {a} sent {b}')


def at(t, tow, what):
    d = timediff(t, tm(tow))
    expect(abs(d) < 1e-6, lambda: f'{what} is off by {d} s')


class Rx:
    def __init__(self, kind, tow):
        self.kind = kind
        self.cs = cssr_pvs() if kind == 'pvs' else sbasDec(nf=2)
        self.settime(tow)

    def settime(self, tow):
        self.cs.set_time(tm(tow))
        if self.kind != 'pvs':
            self.cs.time = tm(tow)

    def send(self, mt, w, prn=0, tvs=False):
        m = l5(mt, w, tvs)
        if self.kind == 'pvs':
            self.cs.decode_cssr(m, 0)
        elif tvs:
            self.cs.decode_cssr(m, 0, src=1, prn=186)
        else:
            self.cs.decode_cssr(m, 0, src=1, prn=prn)


def snap(cs):
    lc = cs.lc[0]
    o = (sorted(cs.sat_n), sorted(lc.iode.items()), sorted(lc.dclk.items()),
         sorted((k, tuple(v)) for k, v in lc.dorb.items()),
         sorted((k, tuple(v)) for k, v in lc.dvel.items()),
         sorted(lc.ddft.items()))
    if hasattr(cs, 'obad'):
        o += (sorted(cs.obad.dfrei.items()), sorted(cs.obad.dRcorr.items()),
              sorted(cs.obad.scl.items()), sorted(cs.obad.cov))
    return repr(o)


def chk32(rx, v, tow):
    """ the correction v is held for exactly its satellite """
    cs, i = rx.cs, slotid(v['slot'])
    s = sat(i)
    lc = cs.lc[0]
    expect(list(cs.sat_n).count(s) == 1,
           f"{i} not (once) in the list of satellites")
    for d, n in ((lc.iode, 'iode'), (lc.dorb, 'dorb'), (lc.dclk, 'dclk'),
                 (lc.dvel, 'dvel'), (lc.ddft, 'ddft')):
        expect(s in d, f'{n} of {i} missing')
    expect(lc.iode[s] == v['iodn'], f'{i} iodn {lc.iode[s]} {v["iodn"]}')
    same(lc.dorb[s], [-.0625*v[k] for k in ('dx', 'dy', 'dz')], i+' orbit')
    same(lc.dclk[s], .03125*v['db'], i+' clock')
    same(lc.dvel[s], [-v[k]/2048 for k in ('vx', 'vy', 'vz')], i+' velocity')
    same(lc.ddft[s], v['vb']/4096, i+' drift')
    ref = nearest(tow, v['t']*16)
    for c in (sCType.ORBIT, sCType.CLOCK):
        at(lc.t0[s][c], ref, f'{i} reference time {c.name}')
    if rx.kind != 'pvs':
        C, sc = cov(v)
        same(cs.obad.cov[s], C, i+' covariance')
        same(cs.obad.scl[s], sc, i+' scale')
        expect(cs.obad.dfrei[s] == v['dfrei'], i+' dfrei')
        same(cs.obad.dRcorr[s], v['dr']/15, i+' dRcorr')


def t32(kind, v, tow, tvs=False):
    rx = Rx(kind, tow)
    a = snap(rx.cs)
    w = L.put(BW(), MT32, v)
    rx.send(32, w, tvs=tvs)
    i = slotid(v['slot'])
    if kind == 'pvs' and i is not None and i[0] == 'J':
        i = None
    if i is None or v['slot'] == 0:
        expect(snap(rx.cs) == a, lambda: f'reserved slot {v["slot"]} stored')
        return 'none'
    chk32(rx, v, tow)
    lc = rx.cs.lc[0]
    for d in (lc.iode, lc.dorb, lc.dclk, lc.dvel, lc.ddft):
        expect(list(d) == [sat(i)], lambda: f'also stored for {list(d)}')
    return i


def mt32(ck, kind):
    g = f'{kind}-mt32'
    T = 3*86400+5000.0
    odd = [('t', 341)]          # time of day with an odd count of 16 s

    def vals(slot, seed=1):
        v = L.typical(MT32, seed)
        v.update(slot=slot, t=341)
        return v
    for slot in range(256):
        if slot in UNCERTAIN:
            continue
        ck.case(g+'-slot', slot, t32, kind, vals(slot), T)
    skip = {}
    if kind == 'pvs':
        skip = {n: (L.rng(k, b)[0],) for n, k, b in MT32 if k == 's'}
    for slot in (1, 32, 38, 75, 110, 120, 158, 159, 195):
        for lab, v in L.sweeps(MT32, odd+[('slot', slot)], full=True,
                               skip=skip):
            ck.case(g+'-field', (slot, lab), t32, kind, v, T)
    # reference time: whole range of time of day x reception times
    step = 1 if ck.thorough else 13
    for day in (0, 3, 6):
        for sod in (0, 1, 7, 8, 16, 43191, 43200, 43209, 80000, 86399):
            tow = day*86400.0+sod
            for t in sorted(set(range(0, 5400, step)) | {1, 5399, 2699, 2701}):
                if kind == 'pvs' and t % 2 == 0:
                    continue
                if abs(abs((t*16-sod) % 86400)-43200) < 1:
                    continue
                v = vals(75)
                v['t'] = t
                ck.case(g+'-time', (day, sod, t), t32, kind, v, tow)


def history32(ck, kind, depth):
    """ sequences of corrections of two satellites """
    g = f'{kind}-history'
    T = 5*86400+3000.0
    evs = []
    for slot in (3, 77, 160):
        for seed in (5, 6):
            v = L.typical(MT32, seed)
            v.update(slot=slot, t=187 if seed == 5 else 189)
            for n, k, b in MT32:    # lowest value: reserved or not is open
                if k == 's' and v[n] == L.rng(k, b)[0]:
                    v[n] += 1
            evs.append(v)

    def run(h):
        rx = Rx(kind, T)
        cur = {}
        for e in h:
            rx.send(32, L.put(BW(), MT32, evs[e]))
            cur[evs[e]['slot']] = evs[e]
            for v in cur.values():
                chk32(rx, v, T)
        expect(sorted(rx.cs.lc[0].iode) == sorted(sat(slotid(s))
                                                  for s in cur), 'keys')
    for n in range(2, depth+1):
        for h in itertools.product(range(len(evs)), repeat=n):
            ck.case(g, h, run, h, steps=n)


# --- mask and integrity ----------------------------------------------------
def m31(slots, iodm):
    return BW().mask(214, [s-1 for s in slots]).u(2, iodm)


def masks(ck):
    ok = [s for s in range(1, 215) if slotid(s) and s not in UNCERTAIN]
    shapes = [[s] for s in ok]+[[]]
    b = [1, 32, 38, 61, 75, 110, 120, 158, 159, 195]
    for n in range(2, 4):
        shapes += [list(x) for x in itertools.combinations(b, n)]
    shapes += [ok[:92], ok[-92:], ok[::2], ok[1::2], ok[::3]]

    def one(sl, iodm):
        rx = Rx('sbas', 1000.0)
        rx.send(31, m31(sl, iodm))
        want = [slotid(s) for s in sl]
        got = [sat2id(s) for s in rx.cs.sat_n]
        expect(got == want, lambda: f'mask {got} expected {want}')
        return len(got)
    for k, sl in enumerate(shapes):
        ck.case('mask', tuple(sl), one, sl, k % 4)


def m34(ci, di, iodm):
    w = BW()
    for k in range(92):
        w.u(2, ci[k] if k < len(ci) else 0)
    for k in range(7):
        w.u(4, di[k] if k < len(di) else 9)
    return w.u(2, 0).u(2, iodm)


def m35(v, iodm):
    w = BW()
    for k in range(53):
        w.u(4, v[k] if k < len(v) else 11)
    return w.u(2, 0).u(2, iodm)


def m36(v, iodm):
    w = BW()
    for k in range(39):
        w.u(4, v[k] if k < len(v) else 11)
    return w.b('0'*58).u(2, iodm)


class IModel:
    def __init__(self):
        self.iodm = None
        self.mask = []
        self.d = {}

    def ev(self, e):
        if e[0] == 31:
            self.mask, self.iodm = [slotid(s) for s in e[1]], e[2]
            return
        if e[0] == 32:
            self.d[slotid(e[1])] = e[2]
            return
        if e[-1] != self.iodm:
            return
        if e[0] == 34:
            k = 0
            for i, c in zip(self.mask, e[1]):
                if c == 1 and k < 7:
                    self.d[i] = e[2][k]
                    k += 1
                elif c == 2 and i in self.d:
                    self.d[i] = min(self.d[i]+1, max(14, self.d[i]))
                elif c == 3:
                    self.d[i] = 15
        else:
            o = 0 if e[0] == 35 else 53
            for i, c in zip(self.mask[o:], e[1]):
                self.d[i] = c


def isend(rx, e, tvs=False):
    if e[0] == 31:
        rx.send(31, m31(e[1], e[2]))
    elif e[0] == 32:
        v = L.typical(MT32, 3)
        v.update(slot=e[1], dfrei=e[2], t=301)
        rx.send(32, L.put(BW(), MT32, v))
    elif e[0] == 34:
        rx.send(34, m34(e[1], e[2], e[3]), tvs=tvs)
    elif e[0] == 35:
        rx.send(35, m35(e[1], e[2]))
    else:
        rx.send(36, m36(e[1], e[2]))


def icheck(rx, m):
    got = {sat2id(s): int(x) for s, x in rx.cs.obad.dfrei.items()}
    expect(got == m.d, lambda: f'integrity {got} expected {m.d}')


def ihist(evs, tvs=False):
    rx, m = Rx('sbas', 86400.0+5000), IModel()
    for e in evs:
        isend(rx, e, tvs)
        m.ev(e)
        icheck(rx, m)
    return repr(sorted(m.d.items()))


def integrity(ck):
    A, B = (2, 80, 161), (80, 90, 120, 170)
    # all change indicators of a three satellite mask from all initial values
    for c in itertools.product(range(4), repeat=3):
        for ini in ((0, 7, 13), (14, 15, 1), None):
            for d in ((3, 12, 0), (15, 14, 6)):
                evs = [(31, A, 1)]
                if ini:
                    evs.append((35, ini, 1))
                evs += [(34, c, d, 1), (34, c, d[::-1], 2),
                        (34, c[::-1], d, 1)]
                ck.case('mt34', (c, ini, d), ihist, evs, steps=len(evs))
    ck.case('mt34-tvs', 0, ihist, [(31, A, 1), (35, (1, 2, 3), 1),
                                   (34, (1, 2, 3), (7, 8), 1)], True)
    # wide mask: indexed positions beyond 53 and more than seven changes
    ok = [s for s in range(1, 215) if slotid(s) and s not in UNCERTAIN]
    for nm, wide in (('92', ok[:92]), ('60', ok[::2][:60]), ('53', ok[:53]),
                     ('54', ok[-54:])):
        wide = tuple(wide)
        v1 = tuple((3*k+1) % 16 for k in range(53))
        v2 = tuple((5*k+2) % 16 for k in range(39))
        base = [(31, wide, 2), (35, v1, 2), (36, v2, 2)]
        ck.case('wide', nm, ihist, base, steps=3)
        ck.case('wide', nm+'r', ihist, [base[0], base[2], base[1]], steps=3)
        ck.case('wide', nm+'o', ihist, base+[(35, v2+v1[:14], 1),
                                             (36, v1[:39], 3)], steps=5)
        for p in range(len(wide)):
            for c in (1, 2, 3):
                ci = [0]*len(wide)
                ci[p] = c
                ck.case('wide34', (nm, p, c), ihist,
                        base+[(34, tuple(ci), (4, 5), 2)], steps=4)
        for n in range(1, 8):
            for o in range(0, len(wide)-n*3+1, 9):
                ci = [0]*len(wide)
                for k in range(n):
                    ci[o+3*k] = 1
                ck.case('wide34n', (nm, n, o), ihist, base+[
                    (34, tuple(ci), (0, 2, 4, 6, 8, 10, 12), 2)], steps=4)
    # histories with mask changes
    AB = [(31, A, 0), (31, B, 1), (34, (1, 0, 2, 3), (5, 6), 0),
          (34, (1, 2, 1, 0), (8, 9), 1), (35, (1, 2, 3, 4), 0),
          (35, (4, 5, 6, 7), 1), (36, (9,), 0), (32, 80, 10)]
    depth = 5 if ck.thorough else 4

    def hist(c, h):
        c.case('integrity', h, ihist, [AB[k] for k in h], steps=len(h))
    allh = [h for n in range(1, depth+1)
            for h in itertools.product(range(len(AB)), repeat=n)]
    ck.pmap('integrity', allh, hist, chunk=400)
    ck.bound(integrity_depth=depth, integrity_events=len(AB))


# --- parameters, ephemeris, almanac ----------------------------------------
def t37(v):
    rx = Rx('sbas', 1000.0)
    rx.send(37, L.put(BW(), MT37, v))
    o = rx.cs.obad
    same(o.dt_mt32, v['iv32']*6, 'MT32 validity')
    same(o.dt_mt39, v['iv39']*6, 'MT39/40 validity')
    same(o.Cer, v['cer']*.5, 'Cer')
    same(o.Ccov, v['ccov']*.1, 'Ccov')
    for c, s in zip('GRECS', (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS,
                              uGNSS.SBS)):
        same(o.Icorr[s], v[c+'i']*6, c+' Icorr')
        same(o.Ccorr[s], v[c+'c']*.01, c+' Ccorr')
        same(o.Rcorr[s], v[c+'r']*.2, c+' Rcorr')
    for k in range(15):
        same(o.dfrei_tbl[k], v[f'd{k}']*SCALE[k], f'DFREI table {k}')
    expect(o.tid == v['tid'], 'time reference')


def eph39(eph, v):
    expect(sat2id(eph.sat) == f"S{v['slot']+19:02d}", lambda:
           f'slot {v["slot"]} ephemeris of {sat2id(eph.sat)}')
    for n, s in (('cuc', PI*2.**-19*1e-4), ('cus', PI*2.**-19*1e-4),
                 ('idot', 7/6*PI*2.**-21*1e-6), ('omg', PI*2.**-33),
                 ('OMG0', PI*2.**-33), ('M0', PI*2.**-33),
                 ('af0', .02/299792458.), ('af1', 4e-5/299792458.)):
        same(getattr(eph, n), v[n]*s, f'ephemeris {n}', 1e-9)


def eph40(rx, eph, v, tow):
    for n, k, s in (('i0', 'i0', PI*2.**-33), ('e', 'e', 2.**-30),
                    ('A', 'a', .02)):
        same(getattr(eph, n), v[k]*s, f'ephemeris {n}', 1e-9)
    at(eph.toe, nearest(tow, v['te']*16), 'toe')
    at(eph.toc, nearest(tow, v['te']*16), 'toc')
    o = rx.cs.obad
    C, sc = cov(v)
    same(o.cov[eph.sat], C, 'ephemeris covariance')
    same(o.scl[eph.sat], sc, 'ephemeris scale')
    expect(o.dfrei[eph.sat] == v['dfrei'], 'ephemeris dfrei')
    same(o.dRcorr[eph.sat], v['dr']/15, 'ephemeris dRcorr')


def t3940(a, b, tow):
    rx = Rx('sbas', tow)
    rx.send(39, L.put(BW(), MT39, a), prn=122)
    if not 1 <= a['slot'] <= 39:
        expect(rx.cs.Eph is None, 'ephemeris of an undefined slot')
        rx.send(40, L.put(BW(), MT40, b), prn=122)
        expect(rx.cs.Eph is None and not rx.cs.obad.dfrei,
               'ephemeris of an undefined slot')
        return
    eph39(rx.cs.Eph, a)
    rx.send(40, L.put(BW(), MT40, b), prn=122)
    if a['iodg'] == b['iodg']:
        eph40(rx, rx.cs.Eph, b, tow)
    else:
        expect(rx.cs.Eph.A == 0 and not rx.cs.obad.dfrei,
               'second part of another issue used')
    eph39(rx.cs.Eph, a)


def ephs(ck):
    T = 2*86400+40000.0
    b0 = L.typical(MT40)
    b0.update(iodg=2, te=2500)
    a0 = L.typical(MT39)
    a0.update(iodg=2, slot=7)
    for s in range(64):
        ck.case('eph-slot', s, t3940, dict(a0, slot=s), b0, T, steps=2)
    for x, y in itertools.product(range(4), repeat=2):
        ck.case('eph-iodg', (x, y), t3940, dict(a0, iodg=x),
                dict(b0, iodg=y), T, steps=2)
    for lab, v in L.sweeps(MT39, [('slot', 9), ('iodg', 2)], full=True):
        ck.case('eph39', lab, t3940, v, b0, T, steps=2)
    for lab, v in L.sweeps(MT40, [('te', 2500), ('iodg', 2)], full=True):
        ck.case('eph40', lab, t3940, a0, v, T, steps=2)
    for day, sod in itertools.product((0, 3, 6), (0, 16, 43201, 86399)):
        for te in list(range(0, 5400, 50))+[5399]:
            if (te*16-sod) % 86400 != 43200:
                ck.case('eph-time', (day, sod, te), t3940, a0,
                        dict(b0, te=te), day*86400.0+sod, steps=2)

    # interleaved halves of two issues
    def order(h):
        rx = Rx('sbas', T)
        cur = None
        for e in h:
            iod = e % 2
            if e < 2:
                v = dict(L.typical(MT39, 7+iod), slot=7, iodg=iod)
                rx.send(39, L.put(BW(), MT39, v))
                cur = [v, None]
            else:
                v = dict(L.typical(MT40, 7+iod), iodg=iod, te=2400+iod)
                rx.send(40, L.put(BW(), MT40, v))
                if cur is not None and cur[0]['iodg'] == iod:
                    cur[1] = v
            if cur is not None:
                eph39(rx.cs.Eph, cur[0])
                if cur[1] is not None:
                    eph40(rx, rx.cs.Eph, cur[1], T)
                else:
                    expect(rx.cs.Eph.A == 0, 'parts of two issues mixed')
    for n in range(1, 6):
        for h in itertools.product(range(4), repeat=n):
            ck.case('eph-order', h, order, h, steps=n)


def t47(a, b, tow):
    rx = Rx('sbas', tow)
    w = L.put(BW(), ALM, a)
    L.put(w, ALM, b).u(4, 1)
    rx.send(47, w)
    want = {}
    for v in (a, b):
        if 1 <= v['slot'] <= 39:
            want[f"S{v['slot']+19:02d}"] = v
    got = {sat2id(s): x for s, x in rx.cs.Alm.items()}
    expect(sorted(got) == sorted(want), lambda:
           f'almanac of {sorted(got)} expected {sorted(want)}')
    for i, v in want.items():
        x = got[i]
        expect(sat2id(x.sat) == i, 'almanac satellite')
        for n, k, s in (('A', 'a', 650.), ('e', 'e', 2.**-8),
                        ('i0', 'i0', PI*2.**-13), ('omg', 'omg', PI*2.**-13),
                        ('OMG0', 'OMG0', PI*2.**-13), ('OMGd', 'OMGd', 1e-9),
                        ('M0', 'M0', PI*2.**-14)):
            same(getattr(x, n), v[k]*s, f'{i} almanac {n}', 1e-9)
        at(x.toa, nearest(tow, v['ta']*1800), f'{i} almanac time')


def almanac(ck):
    T = 4*86400+30000.0
    a0, b0 = dict(L.typical(ALM, 1), slot=5, ta=10), \
        dict(L.typical(ALM, 2), slot=11, ta=20)
    for s in range(64):
        ck.case('alm-slot', (0, s), t47, dict(a0, slot=s), b0, T)
        ck.case('alm-slot', (1, s), t47, a0, dict(b0, slot=s), T)
    for lab, v in L.sweeps(ALM, [('slot', 30), ('ta', 10)], full=True):
        ck.case('alm-field', (0, lab), t47, v, b0, T)
        ck.case('alm-field', (1, lab), t47, a0, v, T)
    for day, sod in itertools.product((0, 6), (2, 901, 43000, 50000, 86399)):
        for ta in range(48):
            ck.case('alm-time', (day, sod, ta), t47, dict(a0, ta=ta),
                    dict(b0, ta=47-ta), day*86400.0+sod)


def sinca(ck):
    """ SISNeT run-length compressed lines """
    def comp(h):
        o, k = '', 0
        while k < len(h):
            n = 1
            while k+n < len(h) and h[k+n] == h[k] and n < 255:
                n += 1
            if n > 15:
                o += h[k]+f'/{n:02X}'
            elif n > 2:
                o += h[k]+f'|{n:X}'
            else:
                o += h[k]*n
            k += n
        return o

    def line(h):
        t, b = decode_sinca_line(f'*MSG,{WEEK},1234,{comp(h)}*7F\n')
        expect(bytes(b).hex() == h.lower(), lambda: f'{b.hex()} sent {h}')
        w, s = time2gpst(t)
        expect(w == WEEK and abs(s-1234) < 1e-6, 'time')
    for n in range(1, 65):
        for c, d in (('0', 'A'), ('F', '0'), ('3', '8')):
            h = 'C6'+c*n+d*(64-n)
            if len(h) % 2 == 0:
                ck.case('sinca', (n, c), line, h)
            h = ('AB'+c*n+'1'+c*((n*7) % 23)+d)
            h += '5'*(len(h) % 2)
            ck.case('sinca', (n, c, 2), line, h)
    ck.case('sinca', 'other', lambda: expect(
        decode_sinca_line('*START,1') is None, 'not a message'))


def run(ck):
    for kind in ('sbas', 'pvs'):
        mt32(ck, kind)
        history32(ck, kind, 4 if ck.thorough else 3)
    v = dict(L.typical(MT32, 9), slot=80, t=341)
    ck.case('tvs', 32, t32, 'sbas', v, 5000.0, True)
    masks(ck)
    integrity(ck)
    for lab, v in L.sweeps(MT37, full=True):
        ck.case('mt37', lab, t37, v)
    ephs(ck)
    almanac(ck)
    sinca(ck)
