""" C27 SSR corrections are applied to the matching ephemeris, repeatably """
import itertools
import math
import numpy as np
from cssrlib import ephemeris as ep
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, Nav, Obs, timeadd, gpst2time, id2sat, \
    sat2id, pos2ecef
from cssrlib.cssrlib import cssr, sCType, sCSSRTYPE
from cssrlib.cssr_mdc import cssr_mdc
from mc import cssrenc as E
from mc import layout as L
from mc import c07, c08, c09, c10, c12, c15
from mc.bits import BW, tobytes
from mc.c26 import elements, toeph, orbit, clock
from mc.core import expect

C = 299792458.0
WEEK = 2180
IODE = [11, 12, 77, 13, 14]
# 0, 1: ephemerides; 2: none; 3: only in another message; 4: outdated
NAME = {'G': 'GPS', 'E': 'GAL', 'C': 'MEO'}


class Store:
    """ broadcast ephemerides at time of week tow """
    _c = {}

    def __init__(self, tow, modes, ids):
        self.q = {}
        self.eph = []
        tow = tow//16*16
        for j, i in enumerate(ids):
            m = modes.get(i[0], 0)
            for k, (io, mode, dt) in enumerate((
                    (11, m, -1800), (12, m, 1200), (11, 1-m, 0), (12, 1-m, 0),
                    (13, 1-m, 0), (14, m, -15008))):
                x = elements(NAME[i[0]], mode, 0.004+0.002*k, 0.7*j+0.1*k,
                             tow+dt, 1, WEEK)
                x.update(sat=id2sat(i), iode=io, Adot=0., delnd=0.,
                         af0=1e-4*(j+1)+1e-6*k, tgd=-1.1e-8 if i[0] == 'G'
                         else 0., OMG0=0.3*j)
                self.eph.append(toeph(x))
                if mode == m and io in (11, 12):
                    self.q[i, io] = x

    @classmethod
    def get(cls, tow, modes, ids):
        k = (tow, tuple(sorted(modes.items())), tuple(ids))
        if k not in cls._c:
            if len(cls._c) > 50:
                cls._c.clear()
            cls._c[k] = cls(tow, modes, ids)
        return cls._c[k]


def brd(x, tow):
    """ position, velocity, clock with and without relativity """
    dt = tow-x['toes']
    r, En = orbit(x, dt)
    v = orbit(x, dt+.5)[0]-orbit(x, dt-.5)[0]
    return r, v, clock(x, dt, En), clock(x, dt, En, False)


def unit(a):
    return a/math.sqrt(a@a)


def sset(iode=None, dorb=None, dclk=None, must=True):
    return dict(iode=iode, dorb=dorb, dclk=dclk, must=must)


class Svc:
    """ one correction service: receiver and reference model """
    modes = {}
    frame = 'rtn'       # rtn: velocity based, rad: radial based, xyz
    tgd = False
    tow = 3*86400+7200.0
    step = 5.0
    tolr = 1e-3

    def __init__(self):
        self.n = 0
        self.now = self.tow
        self.orb, self.clk, self.hck = {}, {}, {}
        self.init()
        self.st = Store.get(self.tow, self.modes, self.ids)
        self.nav = Nav()
        self.nav.eph = list(self.st.eph)
        self.nav.ephopt = 2
        self.nav.x = np.zeros(6)
        self.nav.x[:3] = pos2ecef(np.array([0.6, 2.4, 50.]))

    def t(self):
        return c09.tm(self.now) if False else gpst2time(
            WEEK, 0) if self.now == 0 else timeadd(
            gpst2time(WEEK, 0), self.now)

    def play(self, evs):
        for e in evs:
            self.n += 1
            if e[0] == 'V':
                self.now += e[1]
                self.cs.check_validity(self.t())
                self.aged()
                continue
            self.now += self.step
            self.settime()
            self.ev(e)

    def settime(self):
        self.cs.set_time(self.t())

    def aged(self):
        tm = self.cs.tmax
        for d, c in ((self.orb, sCType.ORBIT), (self.clk, sCType.CLOCK),
                     (self.hck, sCType.CLOCK)):
            for k in list(d):
                if self.now-d[k]['t'] > tm[c]:
                    del d[k]

    def val(self, k, lo=-900, hi=900):
        """ distinguishable transmitted integer """
        return (self.n*271+k*97) % (hi-lo)+lo

    def want(self, i):
        """ None: not usable; dict: corrections """
        raise NotImplementedError

    def prepare(self):
        pass

    # -- evaluation
    def expected(self, i, t):
        w = self.want(i)
        if w is None or (i, w['iode']) not in self.st.q:
            return None
        x = self.st.q[i, w['iode']]
        r, v, c, c0 = brd(x, t)
        d = w['dorb'](t)
        if self.frame == 'rtn':
            a = unit(v)
            n = unit(np.cross(r, v))
            d = np.cross(a, n)*d[0]+a*d[1]+n*d[2]
        elif self.frame == 'rad':
            rr = unit(r)
            n = unit(np.cross(r, v))
            d = rr*d[0]+np.cross(n, rr)*d[1]+n*d[2]
        dc = w['dclk'](t)/C
        if self.tgd and i[0] == 'G':
            dc -= x['tgd']
        return r+d, v, c+dc, c0+dc, w['must'], c0

    def judge(self, i, rs, dts, t, rel, what):
        e = self.expected(i, t)
        have = np.any(np.abs(rs) > 0)
        if e is None:
            expect(not have, lambda: f'{what} {i}: position without usable '
                   'corrections')
            return 0
        if not have:
            expect(not e[4], lambda: f'{what} {i}: no position')
            return 0
        d = np.max(np.abs(rs-e[0]))
        expect(d < self.tolr, lambda: f'{what} {i}: position differs by {d} m')
        x = e[2] if rel else e[3]
        expect(abs(dts-x)*C < self.tolr, lambda: f'{what} {i}: clock differs '
               f'by {(dts-x)*C} m')
        return 1

    def obs(self, rev, dt):
        ids = self.ids[::-1] if rev else self.ids
        o = Obs()
        o.t = timeadd(self.t(), dt)
        o.sat = np.array([id2sat(i) for i in ids])
        o.P = np.array([[2.1e7+3e5*k, 0.] for k in range(len(ids))])
        o.L = o.P*0
        for i in ids:
            o.sig[g.sat2prn(id2sat(i))[0]] = {}
        return ids, o

    def op(self, o):
        """ one evaluation """
        if o[0] == 's':
            rev, dt = 'r' in o, 0.75 if '+' in o else 0.
            ids, ob = self.obs(rev, dt)
            rs, vs, dts, svh, ns = ep.satposs(ob, self.nav, cs=self.cs)
            cnt = 0
            for k, i in enumerate(ids):
                t = self.now+dt-ob.P[k, 0]/C
                e = self.expected(i, t)
                if e is not None:
                    t -= e[5]
                cnt += self.judge(i, rs[k], dts[k], t, True, f'satposs {o}')
            expect(ns == cnt, lambda: f'satposs {o}: {ns} satellites instead '
                   f'of {cnt}')
            return cnt
        i = self.ids[int(o[1])]
        rs, vs, dts, svh = ep.satpos(id2sat(i), self.t(), self.nav, self.cs)
        return self.judge(i, rs[0], dts[0], self.now, False, 'satpos')


def at(x):
    return lambda t: x


class Cssr(Svc):
    """ compact SSR: masks with issue 0 1 2 """
    modes = {'G': 0, 'E': 0}
    ids = ['G07', 'G12', 'G20', 'E11']
    M = {0: E.Mask(0, [(0, [7, 12], [0], None), (2, [11], [1], None)]),
         1: E.Mask(1, [(0, [7, 20], [0], None), (2, [11], [1], None)]),
         2: E.Mask(2, [(0, [7], [0], None)])}
    EV = [('M', 0), ('M', 1), ('O', 0, 0), ('O', 1, 0), ('C', 0), ('C', 1),
          ('X', 0, 1), ('X', 1, 1), ('V', 41), ('V', 131)]
    MORE = [('O', 0, 1), ('O', 0, 2), ('O', 0, 3), ('O', 0, 4), ('M', 2),
            ('O', 2, 0), ('C', 2)]
    START = [(), (('M', 0), ('O', 0, 0), ('C', 0))]

    def init(self):
        self.cs = self.make()
        self.settime()
        self.cur = self.prev = None

    def make(self):
        return cssr()

    def ev(self, e):
        m = self.M[e[1]]
        t = int(self.now)
        ok = self.cur == e[1]
        if e[0] == 'M':
            w = E.st1(m, t)
            if self.cur != e[1]:
                self.prev, self.cur = self.cur, e[1]
        else:
            o = c = None
            if e[0] in 'OX':
                o = [(IODE[e[2]], self.val(3*k), self.val(3*k+1),
                      self.val(3*k+2)) for k in range(m.n)]
            if e[0] in 'CX':
                c = [self.val(20+k) for k in range(m.n)]
            w = E.st2(m, t, o) if e[0] == 'O' else E.st3(m, t, c) if \
                e[0] == 'C' else E.st11(m, t, o, c)
            if ok and o:
                self.orb = {s[1]: dict(iode=v[0], t=self.now, iod=e[1],
                            d=-np.array([.0016*v[1], .0064*v[2],
                                         .0064*v[3]]))
                            for s, v in zip(m.sats, o)}
                self.olast = e[1]
            if ok and c:
                self.clk = {s[1]: dict(t=self.now, iod=e[1], d=.0016*v)
                            for s, v in zip(m.sats, c)}
        self.cs.decode_cssr(tobytes(w.str())+bytes(64), 0)

    def want(self, i):
        o, c = self.orb.get(i), self.clk.get(i)
        if o is None or c is None or o['iod'] != c['iod']:
            return None
        if o['iod'] not in (self.cur, self.prev):
            return None
        return sset(o['iode'], at(o['d']), at(c['d']))


class Mdc(Cssr):
    # MADOCA-PPP has no combined orbit and clock message
    EV = [x for x in Cssr.EV if x[0] != 'X']

    def make(self):
        return cssr_mdc()


class Has(Svc):
    modes = {'G': 0, 'E': 0}
    ids = ['G07', 'G12', 'G20', 'E11']
    tow = c07.HOUR+600.0
    H = {1: c07.Has(1, [(0, [7, 12], [0], None, 0), (2, [11], [1], None, 0)]),
         2: c07.Has(2, [(0, [7, 20], [0], None, 0), (2, [11], [1], None, 0)])}
    # mask id, blocks, issue, index of ephemeris
    EV = [('H', 1, 48, 3, 0), ('H', 1, 8, 3, 0), ('H', 1, 16, 4, 0),
          ('H', 1, 8, 4, 0), ('H', 2, 48, 4, 0), ('H', 2, 8, 4, 0),
          ('H', 1, 4, 4, 0), ('H', 1, 4, 3, 0), ('V', 41), ('V', 131)]
    MORE = [('H', 1, 16, 3, 1), ('H', 1, 16, 3, 2), ('H', 1, 16, 3, 3),
            ('H', 1, 16, 3, 4), ('H', 1, 24, 5, 1), ('H', 1, 2, 3, 0),
            ('H', 1, 56, 5, 0)]
    START = [(), (('H', 1, 48, 3, 0), ('H', 1, 8, 3, 0))]

    def init(self):
        self.cs = c07.new()
        self.cs.week = WEEK
        self.mid = self.last = self.olast = self.mclk = None

    def settime(self):
        pass

    def ev(self, e):
        h, fl, iod, k = self.H[e[1]], e[2], e[3], e[4]
        n = len(h.sats)
        v = {'orb': [(IODE[k], self.val(3*j), self.val(3*j+1),
                      self.val(3*j+2)) for j in range(n)],
             'dcm': [0, 1], 'clk': [self.val(20+j) for j in range(n)],
             'sub': [self.val(30+j) for j in range(n)], 'dcs': [1, 0],
             'cb': [[5]]*n, 'pb': [[(5, 0)]]*n}
        sub = [[0], []]        # first GPS satellite only
        w = c07.encode(h, fl, v, toh=int(self.now-c07.HOUR), iod=iod, sub=sub)
        self.cs.decode_cssr(tobytes(w.str()+'0'*300))
        if not fl & 32 and self.mid != e[1]:
            return
        self.mid = e[1]
        self.last = iod
        S = [s[1] for s in h.sats]
        if fl & 16:
            self.orb = {s: dict(iode=o[0], t=self.now, iod=iod, mid=e[1],
                        d=np.array([.0025*o[1], .008*o[2], .008*o[3]]))
                        for s, o in zip(S, v['orb'])}
            self.olast = iod
        if fl & 8:
            self.mclk = e[1]
            self.clk = {s: dict(t=self.now, iod=iod, mid=e[1], d=.0025*x *
                                (2 if s[0] == 'E' else 1))
                        for s, x in zip(S, v['clk'])}
        if fl & 4:
            self.clk[S[0]] = dict(t=self.now, iod=iod, mid=e[1],
                                  d=.0025*v['sub'][0]*2)

    def want(self, i):
        o, c = self.orb.get(i), self.clk.get(i)
        if o is None or c is None or o['iod'] != c['iod']:
            return None
        must = o['iod'] == self.last == self.olast and \
            o['mid'] == c['mid'] == self.mid == self.mclk
        if c['iod'] == self.last and any(
                x['iod'] != c['iod'] or x['mid'] != self.mid
                for x in self.clk.values()):
            must = False
        return sset(o['iode'], at(o['d']), at(c['d']), must)


class Bds(Svc):
    """ PPP-B2b: issue of clock per satellite """
    modes = {'G': 0, 'C': 1}
    frame = 'rad'
    ids = ['C23', 'G07', 'G12']
    tow = c08.DAY+40000.0
    step = 6.0
    MASK = {3: [23, 70, 75], 4: [23, 75]}
    # orbit of all (O) or the first (o), clock of all (C) or the second (c)
    EV = [('M', 3), ('M', 4), ('O', 1, 0), ('O', 2, 0), ('o', 2, 0),
          ('C', 1), ('C', 2), ('c', 2), ('c', 3), ('V', 41), ('V', 131)]
    MORE = [('O', 1, 1), ('O', 1, 2), ('O', 1, 3), ('O', 1, 4), ('C', 3)]
    START = [(), (('M', 3), ('O', 1, 0), ('C', 1))]

    def init(self):
        self.cs = c08.cssr_bds()
        self.settime()
        self.iodp = None
        self.old = {}

    def settime(self):
        self.cs.set_time(self.t())

    def aged(self):
        super().aged()
        for k in list(self.old):
            if self.now-self.old[k]['t'] > self.cs.tmax[sCType.CLOCK]:
                del self.old[k]

    def ev(self, e):
        tod = int(self.now-14-c08.DAY)
        if e[0] == 'M':
            v = c08.mk(self.MASK[e[1]], 1, e[1], tod)
            if self.iodp != e[1]:
                self.orb, self.clk, self.old = {}, {}, {}
            self.iodp = e[1]
        elif e[0] in 'Oo':
            sl = [23, 70, 75] if e[0] == 'O' else [23]
            o = [(s, IODE[e[2]], e[1], self.val(3*k), self.val(3*k+1),
                  self.val(3*k+2), 1, 1) for k, s in enumerate(sl)]
            for s in o:
                i = c08.slotid(s[0])
                if self.iodp and s[0] in self.MASK[self.iodp]:
                    self.orb[i] = dict(
                        t=self.now, iode=s[1], iod=e[1],
                        d=-np.array([.0016*s[3], .0064*s[4], .0064*s[5]]))
            o += [(0, 0, 0, 0, 0, 0, 0, 0)]*(6-len(o))
            v = {'mt': 2, 'tod': tod, 'iod': 1, 'orb': o}
        elif e[0] == 'C':
            iodp = self.iodp or 3
            c = [(0, e[1], self.val(40+k)) for k in range(23)]
            v = {'mt': 4, 'tod': tod, 'iod': 1, 'iodp': iodp, 'st': 0,
                 'clk': c}
            for k, s in enumerate(self.MASK[iodp] if self.iodp else ()):
                self.setclk(c08.slotid(s), c[k])
        else:
            c = (70, e[1], self.val(50))
            v = {'mt': 7, 'tod': tod, 'iod': 1, 'clk': [c], 'orb': []}
            if self.iodp and 70 in self.MASK[self.iodp]:
                self.setclk('G07', c)
        s = c08.encode(v).str()
        self.cs.decode_cssr(tobytes(s+'0'*(486-len(s))+'0'*200), 0)

    def setclk(self, i, c):
        p = self.clkall.get(i) if hasattr(self, 'clkall') else None
        n = dict(t=self.now, iod=c[1], d=-.0016*c[2])
        if i in self.clk and self.clk[i]['iod'] != c[1]:
            self.old[i] = self.clk[i]
        elif i not in self.clk:
            self.old.pop(i, None)
        self.clk[i] = n

    def want(self, i):
        o, c, p = self.orb.get(i), self.clk.get(i), self.old.get(i)
        if o is None:
            return None
        for k in (c, p):
            if k is not None and k['iod'] == o['iod']:
                return sset(o['iode'], at(o['d']), at(k['d']))
        return None


def rate(d, v, t0):
    return lambda t: d+v*(t-t0)


class Pvs(Svc):
    modes = {'G': 0, 'E': 1}
    ids = ['G07', 'G12', 'E11']
    frame = 'xyz'
    tgd = True
    tow = 3*86400+16*439.0
    step = 32.0
    tolr = 2e-2
    SL = [7, 12, 85]
    EV = [('m', 0, 0), ('m', 1, 0), ('m', 2, 1), ('m', 0, 1), ('m', 0, 2),
          ('V', 16), ('V', 125)]
    MORE = [('m', 0, 3), ('m', 0, 4)]
    START = [(), (('m', 0, 0), ('m', 1, 1), ('m', 2, 0))]
    kind = 'pvs'

    def init(self):
        self.rx = c09.Rx(self.kind, self.tow)
        self.cs = self.rx.cs
        self.settime()

    def settime(self):
        self.cs.set_time(self.t())
        self.cs.time = self.t()

    def c32(self, k, io):
        v = L.typical(c09.MT32, self.n)
        t0 = (self.now % 86400)//16
        if t0 % 2 == 0:         # odd counts only
            t0 -= 1
        t0 = int(t0)
        v.update(slot=self.SL[k], iodn=IODE[io], t=t0, dx=self.val(1),
                 dy=self.val(2), dz=self.val(3), db=self.val(4),
                 vx=self.val(5, -20, 20), vy=self.val(6, -20, 20),
                 vz=self.val(7, -20, 20), vb=self.val(8, -40, 40))
        tr = c09.nearest(self.now, t0*16)
        i = self.ids[k]
        self.orb[i] = dict(t=tr, iode=IODE[io], d=rate(
            .0625*np.array([v['dx'], v['dy'], v['dz']]),
            np.array([v['vx'], v['vy'], v['vz']])/2048, tr))
        self.clk[i] = dict(t=tr, d=rate(.03125*v['db'], v['vb']/4096, tr))
        return L.put(BW(), c09.MT32, v)

    def ev(self, e):
        self.rx.send(32, self.c32(e[1], e[2]))

    def want(self, i):
        o, c = self.orb.get(i), self.clk.get(i)
        if o is None or c is None:
            return None
        return sset(o['iode'], o['d'], c['d'])


class Dfmc(Pvs):
    kind = 'l5'
    MK = {0: [7, 12, 85], 1: [7, 85]}
    EV = [('M', 0), ('M', 1), ('m', 0, 0), ('m', 1, 0), ('m', 2, 1),
          ('m', 0, 1), ('V', 16), ('V', 125)]
    MORE = [('m', 0, 2), ('m', 0, 3), ('m', 0, 4)]
    START = [(('M', 0),), (('M', 0), ('m', 0, 0), ('m', 1, 1), ('m', 2, 0))]

    def init(self):
        super().init()
        self.iodm = None

    def ev(self, e):
        if e[0] == 'M':
            self.rx.send(31, c09.m31(self.MK[e[1]], e[1]))
            if self.iodm != e[1]:
                for d in (self.orb, self.clk):
                    for k in d:
                        d[k]['old'] = True
            self.iodm = e[1]
        else:
            w = self.c32(e[1], e[2])
            if self.SL[e[1]] not in self.MK[self.iodm]:
                # not in the mask
                self.orb[self.ids[e[1]]]['old'] = True
            self.rx.send(32, w)

    def want(self, i):
        o, c = self.orb.get(i), self.clk.get(i)
        if o is None or c is None:
            return None
        return sset(o['iode'], o['d'], c['d'], not o.get('old'))


class Sbas(Svc):
    modes = {'G': 0}
    ids = ['G07', 'G12', 'G20']
    frame = 'xyz'
    tgd = True
    tolr = 5e-2
    step = 16.0
    tow = 3*86400+16*439.0
    EV = [('M', 0), ('F', 0, 0), ('F', 0, 1), ('L', 0, 0, 0), ('L', 0, 1, 0),
          ('L', 0, 0, 1), ('L', 1, 1, 1), ('V', 16), ('V', 125)]
    MORE = [('L', 0, 0, 2), ('L', 0, 0, 3), ('L', 0, 0, 4), ('F', 1, 2)]
    START = [(('M', 0), ('F', 0, 0)),
             (('M', 0), ('F', 0, 0), ('L', 0, 0, 0), ('L', 0, 1, 1))]

    def init(self):
        self.cs = c10.sbasDec()
        self.iodp = None
        self.settime()

    def settime(self):
        self.cs.set_time(self.t())
        self.cs.time = self.t()

    def ev(self, e):
        if e[0] == 'M':
            ev = (1, [7, 12, 20], e[1])
            self.iodp = e[1]
        elif e[0] == 'F':
            fc = [self.val(60+k) for k in range(13)]
            ev = (2, e[1], 1, fc, [3]*13)
            if self.iodp == e[1]:
                for k, i in enumerate(self.ids):
                    self.hck[i] = dict(t=self.now, d=.125*fc[k])
        else:       # velocity code 1
            _, iodp, k, io = e
            t0 = int((self.now % 86400)//16)
            v = dict(slot=k+1, iode=IODE[io], dx=self.val(1), dy=self.val(2),
                     dz=self.val(3), db=self.val(4), vx=self.val(5, -20, 20),
                     vy=self.val(6, -20, 20), vz=self.val(7, -20, 20),
                     vb=self.val(8, -40, 40), t=t0)
            nul = (1, 3-iodp, dict(v, slot=0))
            ev = (25, (1, iodp, v), nul)
            if self.iodp == iodp:
                i = self.ids[k]
                tr = c09.nearest(self.now, t0*16)
                self.orb[i] = dict(t=tr, iode=IODE[io], d=rate(
                    .125*np.array([v['dx'], v['dy'], v['dz']]),
                    np.array([v['vx'], v['vy'], v['vz']])/2048, tr))
                self.clk[i] = dict(t=tr, d=rate(v['db']*2.**-31*C,
                                                v['vb']*2.**-39*C, tr))
        self.cs.decode_cssr(c10.l1(ev[0], c10.ENC[ev[0]](ev)), 0, src=0,
                            prn=129)

    def want(self, i):
        o, c, h = self.orb.get(i), self.clk.get(i), self.hck.get(i)
        if o is None or c is None or h is None:
            return None
        return sset(o['iode'], o['d'], lambda t: c['d'](t)+h['d'])


class Dgps(Svc):
    modes = {'G': 0, 'E': 1}
    ids = ['G07', 'G12', 'G20']
    tgd = True
    frame = 'xyz'
    MK = {1: [(uGNSS.GPS, 7), (uGNSS.GPS, 12)],
          2: [(uGNSS.GPS, 7), (uGNSS.GPS, 20)]}
    # mask, issue list, corrections
    EV = [('M', 1), ('M', 2), ('I', 1, 0), ('I', 1, 1), ('P', 1, 0),
          ('P', 1, 1), ('V', 125)]
    MORE = [('I', 1, 2), ('I', 1, 3), ('I', 1, 4), ('I', 2, 0), ('P', 2, 0)]
    START = [(), (('M', 1), ('I', 1, 0), ('P', 1, 0))]

    def init(self):
        self.cs = c12.new(self.tow)
        self.mo = c12.Model()
        c12.rx(self.cs, c12.m47([(5, 7000, 4000, 5)]))
        self.tp = {}

    def settime(self):
        self.cs.set_time(self.t())
        self.cs.time = self.t()

    def ev(self, e):
        if e[0] == 'M':
            c12.rx(self.cs, c12.m48(e[1], self.MK[e[1]]))
            self.mo.on48(e[1], self.MK[e[1]])
        elif e[0] == 'I':
            io = {k: IODE[e[2]] for k in (0, 1)}
            c12.rx(self.cs, c12.m49(e[2] % 4, e[1], io))
            self.mo.on49(e[2] % 4, e[1], io)
        else:
            pr = {k: self.val(70+k) for k in (0, 1)}
            c12.rx(self.cs, c12.m50(e[1], e[2], 5, pr))
            b = dict(self.mo.st.get(5) or {})
            self.mo.on50(e[1], e[2], 5, pr)
            a = self.mo.st.get(5) or {}
            if a != b:
                for s in a:
                    self.tp[s] = self.now

    def prepare(self):
        self.cs.set_dgps_corr(pos2ecef(np.array(
            [math.radians(35.), math.radians(135.), 50.])))

    def aged(self):
        pass

    def play(self, evs):
        # validity is checked after selecting the station
        for e in evs:
            if e[0] == 'V':
                self.prepare()
            super().play([e])

    def want(self, i):
        """ key: the last correction of the selected station """
        a = self.mo.st.get(5) or {}
        for s, (prc, iod) in a.items():
            k = sat2id(g.prn2sat(*s)) if isinstance(s, tuple) else sat2id(s)
            if k != i:
                continue
            if self.now-self.tp[s] > 120:
                return None
            return sset(iod, at(np.zeros(3)), at(prc), False)
        return None


class Rtcm(Svc):
    modes = {'G': 0, 'E': 0}
    ids = ['G07', 'G12', 'E11']
    tow = 217000.0
    step = 5.0
    tolr = 2e-2
    SYS = {'G': (uGNSS.GPS, [7, 12]), 'E': (uGNSS.GAL, [11])}
    # kind, system, issue, ephemeris
    EV = [('orb', 'G', 5, 0), ('orb', 'G', 6, 0), ('clk', 'G', 5, 0),
          ('clk', 'G', 6, 0), ('comb', 'G', 5, 1), ('orb', 'E', 6, 0),
          ('clk', 'E', 6, 0), ('hclk', 'G', 5, 0), ('V', 41), ('V', 131)]
    MORE = [('orb', 'G', 5, 2), ('orb', 'G', 5, 3), ('orb', 'G', 5, 4),
            ('comb', 'E', 5, 1)]
    START = [(), (('orb', 'G', 5, 0), ('clk', 'G', 5, 0),
                  ('comb', 'E', 5, 0))]
    form = 'rtcm'

    def init(self):
        self.cs = c15.rtcm()
        self.cs.monlevel = 0
        self.cs.cssrmode = sCSSRTYPE.RTCM3_SSR
        self.cs.set_time(self.t())
        self.last = None

    def ev(self, e):
        kd, s, iod, k = e
        sy, prns = self.SYS[s]
        sats = []
        for j, p in enumerate(prns):
            v = dict(id=p, iode=IODE[k])
            for m, (n, b, _) in enumerate(c15.ORB+c15.CLK):
                v[n] = self.val(10*j+m, -9000, 9000) if m in (0, 1, 2, 6) \
                    else self.val(1000*j+517*m, -90000, 90001) if m > 6 \
                    else self.val(10*j+400*m, -9000, 9000)
            v['h'] = self.val(90+j, -9000, 9000)
            sats.append(v)
            i = f'{s}{p:02d}'
            tr = self.now
            if kd in ('orb', 'comb'):
                self.orb[i] = dict(t=tr, iod=iod, iode=IODE[k], d=rate(
                    -np.array([1e-4*v['dx'], 4e-4*v['dy'], 4e-4*v['dz']]),
                    -np.array([1e-6*v['ddx'], 4e-6*v['ddy'],
                               4e-6*v['ddz']]), tr))
            if kd in ('clk', 'comb'):
                self.clk[i] = dict(t=tr, iod=iod, d=self.poly(v, tr))
            if kd == 'hclk':
                self.hck[i] = dict(t=tr, iod=iod, d=1e-4*v['h'])
        self.last = iod
        c15.send(self.cs, c15.build((self.form, sy, kd), self.now, sats,
                                    dict(iod=iod, udi=0)))

    @staticmethod
    def poly(v, tr):
        return lambda t: 1e-4*v['c0']+1e-6*v['c1']*(t-tr) +\
            2e-8*v['c2']*(t-tr)**2

    def want(self, i):
        o, c, h = self.orb.get(i), self.clk.get(i), self.hck.get(i)
        if o is None or c is None or o['iod'] != c['iod']:
            return None
        if h is None:
            f = c['d']
        else:
            f = (lambda t: c['d'](t)+h['d'])
        return sset(o['iode'], o['d'], f)


class Igs(Rtcm):
    form = 'igs'


SVC = {'clas': Cssr, 'madoca': Mdc, 'has': Has, 'b2b': Bds, 'pvs': Pvs,
       'dfmc': Dfmc, 'sbas': Sbas, 'slas': Dgps, 'rtcm': Rtcm, 'igs': Igs}


def history(name, evs, ops=('s', 'p0', 's')):
    s = SVC[name]()
    s.play(evs)
    s.prepare()
    return sum(s.op(o) for o in ops)


def ops(name, evs, seq):
    """ repeated evaluations give the same result """
    s = SVC[name]()
    s.play(evs)
    s.prepare()
    n = sum(s.op(o) for o in seq)
    expect(n > 0, 'no satellite usable')


def run(ck):
    TH = ck.thorough
    depth = 5 if TH else 4
    items = []
    for n, S in SVC.items():
        d = depth - (n == 'madoca') - (n == 'igs')
        for st in S.START:
            k = d if not st else d-1
            for m in range(k+1):
                items += [(n, st+h) for h in
                          itertools.product(S.EV, repeat=m)]
            # events of the wider alphabet within histories up to three
            al = S.EV+S.MORE
            for m in range(1, 4 if TH else 3):
                items += [(n, st+h) for h in itertools.product(al, repeat=m)
                          if any(x in S.MORE for x in h)]
    ck.pmap('history', items, lambda c, x: c.case('history', x, history, *x),
            chunk=400)
    items = []
    for n, S in SVC.items():
        al = ['s', 'sr', 's+', 'sr+', 'p0', 'p1']
        for m in range(1, 5 if TH else 4):
            items += [(n, S.START[1], q) for q in
                      itertools.product(al, repeat=m)]
    ck.pmap('repeat', items, lambda c, x: c.case('repeat', x, ops, *x),
            chunk=100)
    ck.bound(history_depth=depth, services=len(SVC), evaluations=4 if TH
             else 3, alphabets={n: len(S.EV)+len(S.MORE)
                                for n, S in SVC.items()})
