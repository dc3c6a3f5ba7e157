""" C10 L1 SBAS messages decode to the transmitted corrections """
import itertools
import numpy as np
from cssrlib.cssrlib import sCType
from cssrlib.gnss import sat2id, id2sat, timediff
from cssrlib.sbas import sbasDec
from mc import layout as L
from mc.bits import BW
from mc.c09 import COV, cov, nearest, same, tm, at
from mc.core import expect

C = 299792458.0
OK = list(range(1, 33))+list(range(38, 62))+list(range(120, 159))
V0 = [('slot', 'u', 6), ('iode', 'u', 8), ('dx', 's', 9), ('dy', 's', 9),
      ('dz', 's', 9), ('db', 's', 10)]
V1 = [('slot', 'u', 6), ('iode', 'u', 8), ('dx', 's', 11), ('dy', 's', 11),
      ('dz', 's', 11), ('db', 's', 11), ('vx', 's', 8), ('vy', 's', 8),
      ('vz', 's', 8), ('vb', 's', 8), ('t', 'u', 13)]
MT9 = [('iodn', 'u', 8), ('t', 'u', 13), ('ura', 'u', 4), ('x', 's', 30),
       ('y', 's', 30), ('z', 's', 25), ('vx', 's', 17), ('vy', 's', 17),
       ('vz', 's', 18), ('ax', 's', 10), ('ay', 's', 10), ('az', 's', 10),
       ('af0', 's', 12), ('af1', 's', 8)]
MT10 = [('Brrc', 'u', 10, 2e-3), ('Cltc_lsb', 'u', 10, 2e-3),
        ('Cltc_v1', 'u', 10, 5e-5), ('Iltc_v1', 'u', 9, 1),
        ('Cltc_v0', 'u', 10, 2e-3), ('Iltc_v0', 'u', 9, 1),
        ('Cgeo_lsb', 'u', 10, 5e-4), ('Cgeo_v', 'u', 10, 5e-5),
        ('Igeo', 'u', 9, 1), ('Cer', 'u', 6, .5), ('Cst', 'u', 10, 1e-3),
        ('Iiono', 'u', 9, 1), ('Crmp', 'u', 10, 5e-6), ('RSSu', 'u', 1, 1),
        ('RSSi', 'u', 1, 1), ('Ccov', 'u', 7, .1), ('sp', 'x', 81)]
GEO = [('id', 'u', 2), ('prn', 'u', 8), ('svh', 'u', 8), ('x', 's', 15),
       ('y', 's', 15), ('z', 's', 9), ('vx', 's', 3), ('vy', 's', 3),
       ('vz', 's', 4)]
assert 2*L.size(V0)+4 == L.size(V1)+3 == 106
assert L.size(MT9) == L.size(MT10) == 3*L.size(GEO)+11 == 212
URA = [2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096,
       0]
T = 2*86400+34567.0


def sid(s):
    return f'G{s:02d}' if s < 33 else f'R{s-37:02d}' if s < 62 else f'S{s-100}'


def l1(mt, w):
    m = BW().u(8, 0x53).u(6, mt).b(w.str())
    assert w.n == 212, f'HARNESS {mt} {w.n}'
    m.pad(250)
    return m.bytes(6)


# --- message writers --------------------------------------------------------
def m1(ev):
    return BW().mask(210, [s-1 for s in ev[1]]).u(2, ev[2])


def m2(ev):
    """ (2..5, iodp, iodf, fc, udrei) """
    w = BW().u(2, ev[2]).u(2, ev[1])
    for x in ev[3]:
        w.s(12, x)
    for x in ev[4]:
        w.u(4, x)
    return w


def m6(ev):
    w = BW().u(2, 3).u(2, 3).u(2, 3).u(2, 3)
    for x in ev[1]:
        w.u(4, x)
    return w


def m7(ev):
    w = BW().u(4, 5).u(2, ev[1]).u(2, 0)
    for x in ev[2]:
        w.u(4, x)
    return w


def half(w, h):
    """ (vc, iodp, [v0, v0'] or v1) """
    w.u(1, h[0])
    if h[0] == 0:
        L.put(w, V0, h[2][0])
        L.put(w, V0, h[2][1])
        w.u(2, h[1]).u(1, 0)
    else:
        L.put(w, V1, h[2])
        w.u(2, h[1])
    return w


def m24(ev):
    """ (24, iodp, block, iodf, fc, udrei, half) """
    w = BW()
    for x in ev[4]:
        w.s(12, x)
    for x in ev[5]:
        w.u(4, x)
    w.u(2, ev[1]).u(2, ev[2]).u(2, ev[3]).u(4, 0)
    return half(w, ev[6])


def m25(ev):
    return half(half(BW(), ev[1]), ev[2])


def m28(ev):
    w = BW().u(2, ev[1])
    for s, v in ev[2]:
        w.u(6, s)
        L.put(w, COV, v)
    return w


ENC = {1: m1, 2: m2, 3: m2, 4: m2, 5: m2, 6: m6, 7: m7, 24: m24, 25: m25,
       28: m28}


class Model:
    def __init__(self):
        self.mask, self.iodp = [], None
        self.fc, self.ud, self.ai, self.lt, self.cov = {}, {}, {}, {}, {}

    def at(self, k):
        return self.mask[k] if 0 <= k < len(self.mask) else None

    def half(self, h):
        if h[1] != self.iodp:
            return
        for v in (h[2] if h[0] == 0 else [h[2]]):
            i = self.at(v['slot']-1)
            if i is not None:
                self.lt[i] = (h[0], v)

    def ev(self, e):
        t = e[0]
        if t == 1:
            self.mask, self.iodp = [sid(s) for s in e[1]], e[2]
        elif t in (2, 3, 4, 5) and e[1] == self.iodp:
            self.fast((t-2)*13, e[3], e[4])
        elif t == 6:
            for k, u in enumerate(e[1]):
                if self.at(k):
                    self.ud[self.at(k)] = u
        elif t == 7 and e[1] == self.iodp:
            for k, u in enumerate(e[2]):
                if self.at(k):
                    self.ai[self.at(k)] = u
        elif t == 24:
            if e[1] == self.iodp:
                self.fast(e[2]*13, e[4], e[5])
            self.half(e[6])
        elif t == 25:
            self.half(e[1])
            self.half(e[2])
        elif t == 28 and e[1] == self.iodp:
            for s, v in e[2]:
                if self.at(s-1):
                    self.cov[self.at(s-1)] = v

    def fast(self, o, fc, ud):
        for k in range(len(fc)):
            i = self.at(o+k)
            if i:
                self.fc[i], self.ud[i] = fc[k], ud[k]


def ids(d):
    return {sat2id(s): v for s, v in d.items()}


def check(cs, m):
    expect([sat2id(s) for s in cs.sat] == m.mask, lambda:
           f'mask {[sat2id(s) for s in cs.sat]} sent {m.mask}')
    lc = cs.lc[0]
    h = ids(lc.hclk)
    expect(h.keys() == m.fc.keys(), lambda: f'fast corrections of {sorted(h)}'
           f' sent for {sorted(m.fc)}')
    for i, x in m.fc.items():
        expect(h[i] == x*.125, lambda: f'fast correction of {i} {h[i]} m, '
               f'sent {x*.125}')
    u = {i: int(x) for i, x in ids(cs.obad.udrei).items()}
    expect(u == m.ud, lambda: f'UDREI {u} sent {m.ud}')
    a = {i: int(x) for i, x in ids(cs.ai).items()}
    expect(a == m.ai, lambda: f'degradation {a} sent {m.ai}')
    n = ids(lc.iode)
    expect(n.keys() == m.lt.keys(), lambda: 'long-term corrections of '
           f'{sorted(n)} sent for {sorted(m.lt)}')
    for i, (vc, v) in m.lt.items():
        s = id2sat(i)
        expect(n[i] == v['iode'], lambda: f'{i} IOD {n[i]} sent {v["iode"]}')
        same(lc.dorb[s], [-.125*v[k] for k in ('dx', 'dy', 'dz')],
             i+' orbit')
        same(lc.dclk[s], v['db']*2.**-31*C, i+' clock')
        g = (lambda k: v[k]) if vc else (lambda k: 0)
        same(lc.dvel[s], [-g(k)/2048 for k in ('vx', 'vy', 'vz')],
             i+' velocity')
        same(lc.ddft[s], g('vb')*2.**-39*C, i+' drift')
        expect(s in cs.sat_n, i+' not listed')
        if vc:
            for t in (sCType.ORBIT, sCType.CLOCK):
                at(lc.t0[s][t], nearest(T, v['t']*16), i+' reference time')
    c = ids(cs.obad.cov)
    expect(c.keys() == m.cov.keys(), lambda: f'covariance of {sorted(c)} sent'
           f' for {sorted(m.cov)}')
    for i, v in m.cov.items():
        P, s = cov(v)
        same(c[i], P, i+' covariance')
        same(cs.obad.scl[id2sat(i)], s, i+' scale')


def hist(evs):
    cs = sbasDec()
    cs.set_time(tm(T))
    cs.time = tm(T)
    m = Model()
    for e in evs:
        cs.decode_cssr(l1(e[0], ENC[e[0]](e)), 0, src=0, prn=129)
        m.ev(e)
        check(cs, m)
    return len(m.fc), len(m.lt), len(m.cov), len(m.ai)


def v0(slot, k=1):
    return dict(L.typical(V0, k), slot=slot)


def v1(slot, k=1):
    return dict(L.typical(V1, k), slot=slot, t=2100+k)


def fcv(n, k):
    return tuple(((i+3)*(k*37+11) % 4096)-2048 for i in range(n))


def udv(n, k):
    return tuple((i*(2*k+1)+k) % 16 for i in range(n))


def fill(n, k=0):
    """ mask with n satellites and gaps """
    st = len(OK)/max(1, n)
    return tuple(sorted({OK[int(i*st+k*.3)] for i in range(n)})) if n else ()


def shapes(ck):
    """ every fill level: every indexed message type """
    for n in range(0, 52):
        for k in range(2):
            m = fill(n, k)
            assert len(m) == n, 'HARNESS fill'
            e1 = (1, m, k)
            for t in (2, 3, 4, 5):
                ck.case('fast', (n, k, t), hist, [
                    e1, (t, k, 1, fcv(13, t), udv(13, t)),
                    (t, k, 2, fcv(13, t+9), udv(13, t+3))], steps=3)
                ck.case('fast', (n, k, t, 'other'), hist, [
                    e1, (t, (k+1) % 4, 1, fcv(13, t), udv(13, t))], steps=2)
            ck.case('mt6', (n, k), hist, [e1, (6, udv(51, 3)),
                                          (6, udv(51, 5))], steps=3)
            ck.case('mt7', (n, k), hist, [
                e1, (7, k, udv(51, 3)), (7, 3, udv(51, 4))], steps=3)
            for b in range(4):
                for h in ((0, k, (v0(1, 2), v0(max(1, n), 3))),
                          (1, k, v1(max(1, n), 4))):
                    ck.case('mixed', (n, k, b, h[0]), hist, [
                        e1, (24, k, b, 1, fcv(6, b), udv(6, b), h)], steps=2)
    # single satellite at every mask position
    for s in OK:
        ck.case('position', s, hist, [
            (1, (s,), 1), (2, 1, 0, fcv(13, 1), udv(13, 1)),
            (25, (0, 1, (v0(1, 2), v0(2, 3))), (1, 1, v1(3, 4)))], steps=3)


def long_term(ck):
    """ all pairs of half messages """
    m = fill(9)
    hs = []
    for iodp in (1, 2):
        for a, b in itertools.product((0, 1, 5, 9, 10, 63), repeat=2):
            if a != b or a == 0:
                hs.append((0, iodp, (v0(a, 1), v0(b, 2))))
        for a in (0, 1, 4, 9, 10, 63):
            hs.append((1, iodp, v1(a, 3)))

    def slots(h):
        return {h[2]['slot']} if h[0] else {x['slot'] for x in h[2]}
    for x, (a, b) in enumerate(itertools.product(hs, repeat=2)):
        if (slots(a) & slots(b))-{0, 10, 63} and a[1] == b[1] and \
                not ck.thorough:
            continue
        ck.case('halves', x, hist, [(1, m, 1), (25, a, b)], steps=2)
    # every mask number
    for n in (1, 20, 51):
        m = fill(n)
        for s in range(64):
            ck.case('number', (n, s), hist, [
                (1, m, 3), (25, (1, 3, v1(s, 2)), (0, 3, (v0(0), v0(0))))],
                steps=2)
            ck.case('number', (n, s, 0), hist, [
                (1, m, 3), (25, (0, 3, (v0(s), v0(0))),
                            (0, 3, (v0(0), v0(0))))], steps=2)
    # fields
    m = fill(12)
    for lab, v in L.sweeps(V0, [('slot', 7)], full=True):
        for p in range(4):
            o = [v0(1, 4), v0(2, 5), v0(3, 6), v0(4, 7)]
            o[p] = v
            ck.case('v0-field', (lab, p), hist, [
                (1, m, 2), (25, (0, 2, tuple(o[:2])), (0, 2, tuple(o[2:])))],
                steps=2)
    for lab, v in L.sweeps(V1, [('slot', 7), ('t', 2200)], full=True):
        o = (0, 2, (v0(1, 4), v0(2, 5)))
        for p, e in enumerate(((25, (1, 2, v), o), (25, o, (1, 2, v)))):
            ck.case('v1-field', (lab, p), hist, [(1, m, 2), e], steps=2)
    for t in range(0, 5400, 1 if ck.thorough else 20):
        if abs((t*16-T) % 86400-43200) > 1:
            ck.case('v1-time', t, hist, [
                (1, m, 2), (25, (1, 2, dict(v1(3), t=t)),
                            (0, 2, (v0(0), v0(0))))], steps=2)


def covs(ck):
    m = fill(11)
    for a, b in itertools.product(range(64), repeat=2):
        if (a <= 12 and b <= 12 and a != b) or a == 63 or b == 63:
            ck.case('mt28', (a, b), hist, [
                (1, m, 0), (28, 0, ((a, L.typical(COV, 1)),
                                    (b, L.typical(COV, 2))))], steps=2)
    for lab, v in L.sweeps(COV, full=True):
        ck.case('mt28-field', lab, hist, [
            (1, m, 1), (28, 1, ((2, v), (11, L.typical(COV, 3)))),
            (28, 2, ((3, v), (2, L.typical(COV, 4)))),
            (28, 1, ((1, L.typical(COV, 5)), (4, v)))], steps=4)


def histories(ck):
    A, B = (2, 5, 9, 40, 121), (2, 9, 31, 130)
    E = [(1, A, 0), (1, B, 1), (1, B, 0),
         (2, 0, 1, fcv(13, 1), udv(13, 1)), (2, 1, 1, fcv(13, 2), udv(13, 2)),
         (24, 0, 0, 2, fcv(6, 3), udv(6, 3), (0, 0, (v0(3, 1), v0(1, 2)))),
         (24, 1, 0, 2, fcv(6, 4), udv(6, 4), (1, 1, v1(2, 2))),
         (25, (1, 0, v1(3, 4)), (0, 1, (v0(3, 5), v0(4, 6)))),
         (25, (0, 1, (v0(2, 7), v0(5, 8))), (1, 0, v1(5, 9))),
         (6, udv(51, 6)), (7, 0, udv(51, 7)), (7, 1, udv(51, 8)),
         (28, 0, ((2, L.typical(COV, 1)), (5, L.typical(COV, 2)))),
         (28, 1, ((4, L.typical(COV, 3)), (1, L.typical(COV, 4))))]
    depth = 4 if ck.thorough else 3

    def one(c, h):
        c.case('history', h, hist, [E[k] for k in h], steps=len(h))
    hs = [h for n in range(1, depth+1)
          for h in itertools.product(range(len(E)), repeat=n)]
    if not ck.thorough:     # two masks and two messages under either
        hs += [h for h in itertools.product(range(3), range(3, 14), range(3),
                                            range(3, 14))]
    ck.pmap('history', hs, one, chunk=200)
    ck.bound(history_depth=depth, events=len(E))


# --- stand-alone messages ---------------------------------------------------
def dec(mt, w, prn=129, tow=T):
    cs = sbasDec()
    cs.set_time(tm(tow))
    cs.time = tm(tow)
    cs.decode_cssr(l1(mt, w), 0, src=0, prn=prn)
    return cs


def t9(v, prn, tow=T):
    cs = dec(9, L.put(BW(), MT9, v), prn, tow)
    s = cs.Seph
    expect(sat2id(s.sat) == f'S{prn-100}', 'ranging satellite')
    same(s.pos, [v['x']*.08, v['y']*.08, v['z']*.4], 'position')
    same(s.vel, [v['vx']*6.25e-4, v['vy']*6.25e-4, v['vz']*4e-3], 'velocity')
    same(s.acc, [v['ax']*1.25e-5, v['ay']*1.25e-5, v['az']*6.25e-5], 'accel')
    same(s.af0, v['af0']*2.**-31, 'af0')
    same(s.af1, v['af1']*2.**-40, 'af1')
    expect(s.sva == URA[v['ura']], lambda: f'URA {s.sva}')
    at(s.t0, nearest(tow, v['t']*16), 't0')


def t10(v):
    cs = dec(10, L.put(BW(), MT10, v))
    same(cs.deg_prm, [v[f[0]]*f[3] for f in MT10 if f[1] != 'x'],
         'degradation parameters')


def t17(vs, t, tow=T):
    w = BW()
    for v in vs:
        L.put(w, GEO, v)
    w.u(11, t)
    cs = dec(17, w, tow=tow)
    want = {f"S{v['prn']-100}": v for v in vs if v['prn']}
    got = ids(cs.Alm)
    expect(got.keys() == want.keys(), lambda: f'almanac of {sorted(got)}, '
           f'sent {sorted(want)}')
    for i, v in want.items():
        a = got[i]
        expect(sat2id(a.sat) == i and a.svh == v['svh'], f'{i} health')
        same(a.pos, [v['x']*2600., v['y']*2600., v['z']*26000.], i+' pos')
        same(a.vel, [v['vx']*10., v['vy']*10., v['vz']*60.], i+' vel')
        at(a.t0, nearest(tow, t*64), i+' time of almanac')


def t27(k, regs):
    w = BW().u(3, k % 8).u(3, (k+1) % 8).u(3, (k+2) % 8).u(3, 5).u(2, k % 4)
    w.u(4, k % 16).u(4, (k+5) % 16)
    for r in regs:
        w.s(8, r[0]).s(9, r[1]).s(8, r[2]).s(9, r[3]).u(1, r[4])
    w.b('0'*15)
    f = dec(27, w).sinfo
    expect((f.iods, f.nmsg, f.snum, f.nreg, f.priority, f.dUDRE_in,
            f.dUDRE_out) == (k % 8, (k+1) % 8, (k+2) % 8, 5, k % 4, k % 16,
                             (k+5) % 16), 'service header')
    for j, r in enumerate(regs):
        expect((f.lat1[j], f.lon1[j], f.lat2[j], f.lon2[j]) == r[:4],
               f'service region {j}')


def single(ck):
    for prn in range(120, 159):
        ck.case('mt9', prn, t9, dict(L.typical(MT9), t=2000), prn)
    for lab, v in L.sweeps(MT9, [('t', 2000)], full=True):
        ck.case('mt9-field', lab, t9, v, 129)
    for lab, v in L.sweeps(MT10, full=True):
        ck.case('mt10', lab, t10, v)
    g = [dict(L.typical(GEO, k), prn=120+3*k) for k in range(3)]
    for lab, v in L.sweeps(GEO, [('prn', 135)], full=True):
        for p in range(3):
            o = list(g)
            o[p] = v
            ck.case('mt17', (lab, p), t17, o, 500)
    for a in range(120, 159):
        ck.case('mt17-prn', a, t17, [g[0], dict(g[1], prn=a if a != 120 and
                                                a != 126 else 127), g[2]], 77)
    for z in itertools.product((0, 1), repeat=3):
        ck.case('mt17-none', z, t17, [dict(x, prn=x['prn']*b)
                                      for x, b in zip(g, z)], 900)
    for day, sod in itertools.product((0, 6), (5, 30000, 43205, 86399)):
        for t in list(range(0, 1350, 1 if ck.thorough else 13))+[1349]:
            ck.case('mt17-time', (day, sod, t), t17, g, t, day*86400.0+sod)
        for t in list(range(0, 5400, 10 if ck.thorough else 90))+[5399]:
            ck.case('mt9-time', (day, sod, t), t9, dict(
                L.typical(MT9), t=t), 129, day*86400.0+sod)
    r0 = [(10*j-20, 20*j-100, 5*j, 31*j-7, j % 2) for j in range(5)]
    for k in range(16):
        ck.case('mt27', k, t27, k, r0)
    for j in range(5):
        for e in ((-90, -180, 90, 180, 1), (-128, -256, 127, 255, 0),
                  (-1, -1, -1, -1, 1), (0, 0, 0, 0, 0)):
            r = list(r0)
            r[j] = e
            ck.case('mt27', (j, e), t27, 3, r)


def run(ck):
    shapes(ck)
    long_term(ck)
    covs(ck)
    single(ck)
    histories(ck)
