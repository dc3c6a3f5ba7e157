""" simulated error-free observations for the estimators """
import math
import numpy as np
from cssrlib import gnss as g
from cssrlib import ephemeris as ep
from cssrlib import ppp
from cssrlib.gnss import uGNSS, uTYP, Obs, Nav, Geph, timeadd, timediff, \
    gpst2time, prn2sat, sat2prn, rSigRnx, uTropoModel, uTideModel
from mc.c26 import elements, toeph, glo_state

C = 299792458.0
WEEK = 2200
TOW = 3600*50
T0 = gpst2time(WEEK, TOW)
NAME = {'G': 'GPS', 'E': 'GAL', 'C': 'MEO', 'J': 'QZS', 'R': None}
SYS = {'G': uGNSS.GPS, 'E': uGNSS.GAL, 'C': uGNSS.BDS, 'J': uGNSS.QZS,
       'R': uGNSS.GLO}
NSLOT = {'G': 32, 'E': 36, 'C': 27, 'R': 24, 'J': 4}
SIG = {'G': ('1C', '2W', '5Q'), 'E': ('1C', '5Q', '7Q'),
       'C': ('1P', '5P', '6I'), 'J': ('1C', '2L', '5Q'),
       'R': ('1C', '2C', '3Q')}
FREQ = {'G': (1575.42e6, 1227.6e6, 1176.45e6),
        'E': (1575.42e6, 1176.45e6, 1207.14e6),
        'C': (1575.42e6, 1176.45e6, 1268.52e6),
        'J': (1575.42e6, 1227.6e6, 1176.45e6),
        'R': (1602e6, 1246e6, 1202.025e6)}
STEP = {'R': (562.5e3, 437.5e3, 0.)}


def channel(prn):
    return (prn*5) % 14-7


def freq(sat, f):
    sys, prn = sat2prn(sat)
    c = {v: k for k, v in SYS.items()}[sys]
    d = STEP[c][f]*channel(prn) if c in STEP else 0.
    return FREQ[c][f]+d


def freq0(sat):
    c = {v: k for k, v in SYS.items()}[sat2prn(sat)[0]]
    return FREQ[c][0]


def brdc(c, tgd=0.):
    """ broadcast ephemerides of a constellation """
    out = []
    for k in range(NSLOT[c]):
        if c == 'R':
            e = Geph(prn2sat(uGNSS.GLO, k+1))
            y = glo_state(2*math.pi*((k % 8)/8+(k//8)/24)+0.4,
                          2*math.pi*(k//8)/3+0.3)
            e.toe = timeadd(T0, 30)
            e.tof = e.toe
            e.pos, e.vel = y[:3], y[3:]
            e.acc = np.array([9.3e-7, -1.8e-6, 2.7e-6])
            e.taun, e.gamn, e.frq, e.iode = 1e-5*(k-9), -2e-12, \
                channel(k+1), 30
            e.svh = 0
            out.append(e)
            continue
        x = elements(NAME[c], 0, 0.004+0.001*(k % 5), 0., TOW-1200, 3, WEEK)
        prn = (193 if c == 'J' else 19 if c == 'C' else 1)+k
        np_ = 3 if c in 'EC' else 6
        if c == 'J':
            x.update(M0=0.6*k, OMG0=1.2+0.3*k)
        else:
            x.update(M0=2*math.pi*((k//np_)*np_/NSLOT[c]+0.07*(k % np_)),
                     OMG0=2*math.pi*(k % np_)/np_+0.5)
        x.update(sat=prn2sat(SYS[c], prn), iode=11, Adot=0., delnd=0.,
                 af0=1e-5*(k-11), tgd=tgd*(1+.1*k), tgd_b=tgd*(1+.1*k), svh=0)
        out.append(toeph(x))
    return out


class World:
    """ satellites, station and truth """
    _c = {}

    @classmethod
    def get(cls, *a):
        if a not in cls._c:
            cls._c[a] = cls(*a)
        return cls._c[a]

    def __init__(self, syss='GE', nf=2, lat=35.5, lon=139.6, h=80., tgd=0.,
                 elmin=17., nlow=1, most=7):
        self.syss, self.nf = syss, nf
        self.eph = {e.sat: e for c in syss for e in brdc(c, tgd)}
        self.tgd = tgd
        self.pos = g.pos2ecef(np.array([math.radians(lat), math.radians(lon),
                                        h]))
        self.sats = []
        llh = g.ecef2pos(self.pos)
        for c in syss:
            v = []
            for s, e in self.eph.items():
                if sat2prn(s)[0] != SYS[c]:
                    continue
                rs = self.state(s, T0)[0]
                _, los = g.geodist(rs, self.pos)
                v.append((math.degrees(g.satazel(llh, los)[1]), s))
            v.sort(reverse=True)
            hi = [s for x, s in v if x > elmin+2]
            self.sats += hi[:most]
            self.sats += [s for x, s in v if 4 < x < elmin-4][:nlow]
        self.sats.sort()
        self.N = {s: [(s*37 + 11*f) % 401-200 for f in range(nf)]
                  for s in self.sats}
        self.iono = {s: 2.+0.37*(s % 11) for s in self.sats}
        self.phw = {}

    def state(self, s, t):
        e = self.eph[s]
        if isinstance(e, Geph):
            return ep.geph2pos(t, e, True)
        return ep.eph2pos(t, e, True)

    def nav(self, nf=None):
        nav = Nav(nf=self.nf if nf is None else nf)
        for e in self.eph.values():
            (nav.geph if isinstance(e, Geph) else nav.eph).append(e)
        nav.glo_ch = {s: e.frq for s, e in self.eph.items()
                      if isinstance(e, Geph)}
        return nav

    def sigs(self, lead=''):
        d = {}
        for c in self.syss:
            d[SYS[c]] = {
                ty: [rSigRnx(c+ch+x) for x in SIG[c][:self.nf]]
                for ty, ch in ((uTYP.C, 'C'), (uTYP.L, 'L'), (uTYP.S, 'S'))}
        return d

    def obs(self, dt, rr=None, clk=3e-5, trop=uTropoModel.SAAST, zwd=0.,
            iono=True, phw=0, tide=True, mapf=True, N=None, key='u',
            sats=None, corr=None, model=None, extra=None,
            shapiro=True):
        """ observations at dt after the start; corr: satellite clock,
        position, code and phase biases [m] of a satellite """
        t = timeadd(T0, dt)
        rr = self.pos if rr is None else rr
        o = Obs()
        o.t = t
        sats = self.sats if sats is None else sats
        o.sat = np.array(sats, dtype=int)
        n, nf = len(sats), self.nf
        o.P, o.L = np.zeros((n, nf)), np.zeros((n, nf))
        o.D, o.S = np.zeros((n, nf)), np.full((n, nf), 45.)
        o.lli = np.zeros((n, nf), dtype=int)
        o.sig = self.sigs()
        p = rr.copy()
        if tide:
            p = p+ppp.tidedispIERS2010(g.gpst2utc(t), g.ecef2pos(p))
        llh = g.ecef2pos(p)
        hs, wet, _ = g.tropmodel(t, llh, model=trop)
        sun = ppp.sunmoonpos(g.gpst2utc(t))[0]
        N = self.N if N is None else N
        for i, s in enumerate(sats):
            P = 2.3e7
            for _ in range(3):
                tt = timeadd(t, -P/C)
                for _ in range(2):
                    rs, vs, d = self.state(s, tt)
                    tt = timeadd(t, -P/C-d)
                cb = pb = np.zeros(nf)
                if corr is not None:
                    dr, dc, cb, pb = corr(s, rs, vs)
                    rs = rs+dr
                    d = d+dc/C
                r, e = g.geodist(rs, p)
                el = g.satazel(llh, e)[1]
                az = g.satazel(llh, e)[0]
                mh, mw = g.tropmapf(t, llh, el, model=trop)
                tr = mh*hs+mw*(wet+zwd)
                if model is not None:
                    tr, I = model(s, llh, az, el, mh, mw)
                else:
                    I = self.iono[s] if iono else 0.
                base = r+ppp.shapiro(rs, p)*shapiro+tr+C*(clk-d)
                if extra is not None:
                    xc, xp = extra(s, rs, e, llh, t)
                    cb, pb = cb-xc, pb-xp
                if self.tgd and isinstance(self.eph[s], g.Eph):
                    base += C*self.eph[s].tgd
                k = np.array([(freq0(s)/freq(s, f))**2 for f in range(nf)])
                P = (base+I*k-cb)[0]
            w = 0.
            if phw:
                w = ppp.windupcorr(t, rs, vs, p, sun,
                                   self.phw.get((key, s), 0.), full=phw == 1)
                self.phw[key, s] = w
            lam = C/np.array([freq(s, f) for f in range(nf)])
            o.P[i] = base+I*k-cb
            o.L[i] = (base-I*k-pb)/lam+w+np.array(N[s])[:nf]
        return o
