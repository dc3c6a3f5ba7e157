""" C26 broadcast ephemeris: selection and evaluation """
import numpy as np
from copy import deepcopy
from itertools import combinations, permutations, product
from math import sin, cos, sqrt, pi, atan2
from cssrlib import gnss as g
from cssrlib import ephemeris as ep
from cssrlib.gnss import uGNSS, prn2sat, Eph, Geph, Nav, Obs, gtime_t, \
    timeadd, gpst2time, rSigRnx
from mc.core import expect

C = 299792458.0
OM = 7.2921151467e-5
MU = {uGNSS.GPS: 3.9860050e14, uGNSS.QZS: 3.9860050e14,
      uGNSS.IRN: 3.9860050e14, uGNSS.GAL: 3.986004418e14,
      uGNSS.BDS: 3.986004418e14}
OMGE = {uGNSS.GPS: OM, uGNSS.QZS: OM, uGNSS.IRN: OM, uGNSS.GAL: OM,
        uGNSS.BDS: 7.292115e-5}
AGE = {uGNSS.GPS: 7200, uGNSS.QZS: 7200, uGNSS.IRN: 7200, uGNSS.BDS: 7200,
       uGNSS.GAL: 14400, uGNSS.GLO: 1800}
WEEK = 2200
T0 = gpst2time(WEEK, 3600*50)


def dtm(a, b):
    return a.time-b.time+a.sec-b.sec


# --- selection ------------------------------------------------------------

def satno(sys, k):
    return prn2sat(sys, (195 if sys == uGNSS.QZS else 3)+k)


def entry(sys, d):
    k, mode, iode, toe, n = d
    sat = satno(sys, k)
    e = Geph(sat) if sys == uGNSS.GLO else Eph(sat)
    e.mode, e.iode = mode, iode
    e.toe = timeadd(T0, toe)
    if sys == uGNSS.GLO:
        e.tof = timeadd(e.toe, -600+n)
    else:
        e.toc = e.toe
        e.tot = timeadd(e.toe, -3600+n)
    e.tag = d
    return e


def sel(sys, ds, full):
    """ one set of ephemerides in all orders against all queries """
    es = [entry(sys, d) for d in ds]
    age = AGE[sys]
    step = age//2
    offs = [-age-2, -age+2, 0, step//2-1, step//2, step//2+1, step,
            step+step//2, 2*step, 2*step+age-2, 2*step+age+2]
    if not full:
        offs = offs[1::2]
    for off in offs:
        t = timeadd(T0, off)
        for k, mode, iode in product((0, 1), (0, 1), (-1, 0, 1, 2, 3)):
            sat = satno(sys, k)
            cand = [d for d in ds if d[0] == k and d[1] == mode and
                    (iode < 0 or d[2] == iode) and abs(off-d[3]) <= age]
            dmin = min([abs(off-d[3]) for d in cand], default=None)
            got = None
            for p in permutations(es):
                r = ep.findeph(list(p), t, sat, iode, mode) if iode >= 0 \
                    else ep.findeph(list(p), t, sat, mode=mode)
                if not cand:
                    expect(r is None, lambda: f'{r.tag} used for sat {k} '
                           f'mode {mode} iode {iode} at {off} from {ds}')
                    continue
                expect(r is not None, lambda: f'none for sat {k} mode '
                       f'{mode} iode {iode} at {off} from {ds}')
                expect(r.tag in cand and abs(off-r.tag[3]) == dmin,
                       lambda: f'{r.tag} used for sat {k} mode {mode} iode '
                       f'{iode} at {off} from {[e.tag for e in p]}')
                if got is None:
                    got = r.tag
                expect(got == r.tag, lambda: f'order dependent: {got} or '
                       f'{r.tag} at {off} iode {iode} from {ds}')


def sel_items(full):
    items = []
    for sys in AGE:
        step = AGE[sys]//2
        toes = (0, step, 2*step)
        # satellite x mode x issue x time
        pool = [(k, m, i, t, 0) for k in (0, 1) for m in (0, 1)
                for i in (1, 2) for t in toes]
        for n in (0, 1, 2):
            items += [(sys, c, full) for c in combinations(pool, n)]
        # three of the same satellite and mode, or with one other
        pool3 = [(0, 0, i, t, 0) for i in (1, 2, 0) for t in toes]
        for c in combinations(pool3, 3):
            items.append((sys, c, full))
        for c in combinations(pool3, 2):
            items += [(sys, c+(d,), False) for d in
                      ((1, 0, 1, step, 0), (0, 1, 1, step, 0))]
        # update with the same reference time and issue
        for c in combinations([(0, 0, 1, step, n) for n in (0, 30, 60)] +
                              [(0, 0, 2, step, 90)], 3):
            items.append((sys, c, False))
        if full:
            for c in combinations(pool, 3):
                items.append((sys, c, False))
            for c in combinations(pool3, 4):
                items.append((sys, c, False))
    return items


# --- independent evaluation of the Keplerian models -------------------------

def R1(a):
    c, s = cos(a), sin(a)
    return np.array([[1, 0, 0], [0, c, s], [0, -s, c]])


def R3(a):
    c, s = cos(a), sin(a)
    return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]])


def kepler(M, e):
    """ bisection followed by Newton steps """
    k = round(M/(2*pi))
    M -= 2*pi*k
    a, b = M-e-1e-9, M+e+1e-9
    for _ in range(30):
        m = (a+b)/2
        if m-e*sin(m) < M:
            a = m
        else:
            b = m
    E = (a+b)/2
    for _ in range(4):
        E -= (E-e*sin(E)-M)/(1-e*cos(E))
    return E


def isgeo(sat):
    sys, prn = g.sat2prn(sat)
    return sys == uGNSS.BDS and (prn <= 5 or prn >= 59)


def orbit(q, dt):
    """ position and sin E at dt after toe """
    sys = q['sys']
    mu, om = MU[sys], OMGE[sys]
    A = q['A']
    n0 = sqrt(mu)/A**1.5
    dn = q['deln']
    if q['mode'] > 0:
        dn += 0.5*q['delnd']*dt
        A = A+q['Adot']*dt
    e = q['e']
    E = kepler(q['M0']+(n0+dn)*dt, e)
    v = 2*atan2(sqrt(1+e)*sin(E/2), sqrt(1-e)*cos(E/2))
    ph = v+q['omg']
    c2, s2 = cos(2*ph), sin(2*ph)
    u = ph+q['cuc']*c2+q['cus']*s2
    r = A*(1-e*cos(E))+q['crc']*c2+q['crs']*s2
    inc = q['i0']+q['idot']*dt+q['cic']*c2+q['cis']*s2
    x = R1(-inc)@R3(-u)@np.array([r, 0, 0])
    if isgeo(q['sat']):
        L = q['OMG0']+q['OMGd']*dt-om*q['toes']
        return R3(om*dt)@R1(-5*pi/180)@R3(-L)@x, E
    L = q['OMG0']+(q['OMGd']-om)*dt-om*q['toes']
    return R3(-L)@x, E


def clock(q, dtc, E, rel=True):
    d = q['af0']+q['af1']*dtc+q['af2']*dtc**2
    if rel:
        d -= 2*sqrt(MU[q['sys']]*q['A'])*q['e']*sin(E)/C**2
    return d


SYST = {'GPS': (uGNSS.GPS, 7, 26560e3, 0.96), 'GAL': (uGNSS.GAL, 11,
        29600e3, 0.98), 'QZS': (uGNSS.QZS, 194, 42164e3, 0.72),
        'IRN': (uGNSS.IRN, 4, 42164e3, 0.5),
        'MEO': (uGNSS.BDS, 25, 27906e3, 0.96),
        'IGSO': (uGNSS.BDS, 8, 42164e3, 0.95),
        'GEO': (uGNSS.BDS, 3, 42164.2e3, 0.095),
        'GEO2': (uGNSS.BDS, 60, 42164.2e3, 0.08)}
HARM = dict(cuc=-3.1e-6, cus=8.7e-6, crc=221.3, crs=-61.7, cic=-1.4e-7,
            cis=9.9e-8)
ZERO = dict(cuc=0., cus=0., crc=0., crs=0., cic=0., cis=0., deln=0.,
            idot=0., OMGd=0., Adot=0., delnd=0.)


def elements(name, mode, e, M0, tow, pert, week=WEEK):
    if name in SYST:
        sys, prn, A, i0 = SYST[name]
    else:       # any satellite by its identifier
        sys, prn = g.sat2prn(g.id2sat(name))
        A, i0 = (42164e3, 0.2) if sys == uGNSS.BDS else (26000e3, 0.96)
    q = dict(ZERO, sys=sys, sat=prn2sat(sys, prn), A=A, i0=i0, mode=mode,
             e=e, M0=M0, OMG0=-2.13, omg=0.77, af0=3.1e-4, af1=-7.5e-12,
             af2=0., toes=tow, week=week, dtoc=0.)
    if pert & 1:
        q.update(HARM)
    if pert & 2:
        q.update(deln=4.3e-9, idot=-3.9e-10, OMGd=-8.1e-9, Adot=0.017,
                 delnd=2.1e-13, af2=3e-18)
    if pert & 4:    # exaggerated to distinguish each of the terms
        q.update(cuc=2e-4, cus=-3e-4, crc=9e3, crs=-7e3, cic=1.5e-4,
                 cis=-2e-4, deln=-3e-8, idot=5e-9, OMGd=4e-8,
                 Adot=-2.5, delnd=-9e-12, af1=4e-9, af2=-3e-14,
                 omg=-2.6, dtoc=600.)
    return q


def toeph(q):
    e = Eph(q['sat'])
    for k in q:
        if k not in ('sys', 'dtoc', 'sat'):
            setattr(e, k, q[k])
    e.toe = gpst2time(q['week'], q['toes'])
    e.toc = timeadd(e.toe, q['dtoc'])
    e.tot = timeadd(e.toe, -3600)
    return e


def ev(name, mode, e, M0, tow, pert, dts, wk=0):
    q = elements(name, mode, e, M0, tow, pert)
    eph = toeph(q)
    v0 = dict(vars(eph))
    for dt in dts:
        t = timeadd(timeadd(eph.toe, dt), 604800*wk)
        rs, vs, c = ep.eph2pos(t, eph, True)
        r0, E = orbit(q, dt)
        h = 0.5
        v = (orbit(q, dt+h)[0]-orbit(q, dt-h)[0])/(2*h)
        w = f'{name} mode {mode} e {e} M0 {M0} tow {tow} pert {pert} dt {dt}'
        d = np.max(np.abs(rs-r0))
        expect(d < 1e-4, lambda: f'{w}: position differs by {d} m')
        dv = np.max(np.abs(vs-v))
        expect(dv < 1e-4, lambda: f'{w}: velocity differs by {dv} m/s')
        c0 = clock(q, dt-q['dtoc'], E)
        expect(abs(c-c0) < 2e-13, lambda: f'{w}: clock {c} expected {c0}')
        if wk == 0:
            r2, c2 = ep.eph2pos(t, eph)
            expect(np.array_equal(r2, rs) and c2 == c, f'{w}: without velocity')
            rel = ep.eph2rel(t, eph)
            x = clock(q, 0., E)-clock(q, 0., E, False)
            expect(abs(rel-x) < 2e-13, lambda: f'{w}: relativity {rel} {x}')
            tc = timeadd(t, c0)     # clock at time of satellite
            cc = ep.eph2clk(tc, eph)
            x = clock(q, dt-q['dtoc'], E, False)
            expect(abs(cc-x) < 1e-12+abs(q['af1'])*1e-6,
                   lambda: f'{w}: eph2clk {cc} expected {x}')
    for k, v in v0.items():
        expect(np.array_equal(getattr(eph, k), v), f'{k} changed')


def cont(name, tow0):
    """ consecutive epochs over an instant (week boundary) """
    q = elements(name, 0, 0.01, 0.4, (tow0-1800) % 604800, 3,
                 WEEK-1 if tow0 == 0 else WEEK)
    eph = toeph(q)
    tb = gpst2time(WEEK, tow0)
    rp = None
    for k in range(-40, 41):
        t = timeadd(tb, k*0.25)
        rs, vs, c = ep.eph2pos(t, eph, True)
        if rp is not None:
            d = np.max(np.abs(rs-rp[0]-0.125*(vs+rp[1])))
            expect(d < 1e-3, lambda: f'{name}: jump {d} m at {k*.25}')
            expect(abs(c-rp[2]) < 1e-10, 'jump of clock')
        rp = rs, vs, c


# --- GLONASS ---------------------------------------------------------------

GMU, GJ2, GAE, GOM = 398600.4418e9, 1.0826257e-3, 6378136.0, 7.292115e-5


def gder(y, a):
    x, z, v = y[:3], y[2], y[3:]
    r = sqrt(x@x)
    k = 1.5*GJ2*GMU*GAE**2/r**5
    f = np.array([5*z*z/r**2-1, 5*z*z/r**2-1, 5*z*z/r**2-3])
    acc = -GMU/r**3*x+k*f*x+a
    acc[0] += GOM**2*x[0]+2*GOM*v[1]
    acc[1] += GOM**2*x[1]-2*GOM*v[0]
    return np.hstack((v, acc))


def gint(y, a, T):
    """ Gragg-Bulirsch-Stoer extrapolation over steps of up to 100 s """
    n = max(1, int(np.ceil(abs(T)/100)))
    H = T/n
    for _ in range(n):
        tab = []
        for m in (2, 4, 6, 8, 10):
            h = H/m
            z0 = y
            z1 = y+h*gder(y, a)
            for _ in range(m-1):
                z0, z1 = z1, z0+2*h*gder(z1, a)
            row = [0.5*(z1+z0+h*gder(z1, a))]
            tab.append(row)
        ms = (2, 4, 6, 8, 10)
        for i in range(1, 5):
            for j in range(1, i+1):
                r2 = (ms[i]/ms[i-j])**2
                tab[i].append(tab[i][j-1]+(tab[i][j-1]-tab[i-1][j-1])/(r2-1))
        y = tab[4][4]
    return y


def glo_state(u, node):
    """ circular-like orbit in ECEF """
    A, inc = 25510e3, 64.8*pi/180
    n = sqrt(GMU/A**3)
    Q = R3(-node)@R1(-inc)@R3(-u)
    x = Q@np.array([A, 0, 0])
    v = Q@np.array([12., A*n, 0])
    v = v-np.cross([0, 0, GOM], x)
    return np.hstack((x, v))


def glo(u, node, a, dts):
    y = glo_state(u, node)
    e = Geph(prn2sat(uGNSS.GLO, 5))
    e.toe = T0
    e.pos, e.vel, e.acc = y[:3].copy(), y[3:].copy(), np.array(a)
    e.taun, e.gamn = -2.5e-4, 9.1e-13
    for dt in dts:
        t = timeadd(T0, dt)
        rs, vs, c = ep.geph2pos(t, e, True)
        x = gint(y, np.array(a), dt)
        w = f'u {u} node {node} acc {a} dt {dt}'
        d = np.max(np.abs(rs-x[:3]))
        expect(d < 0.01, lambda: f'{w}: position differs by {d} m')
        dv = np.max(np.abs(vs-x[3:]))
        expect(dv < 1e-4, lambda: f'{w}: velocity differs by {dv} m/s')
        c0 = -e.taun+e.gamn*dt
        expect(abs(c-c0) < 1e-13, lambda: f'{w}: clock {c} expected {c0}')
        rs2, c2 = ep.geph2pos(t, e)
        expect(np.array_equal(rs2, rs) and c2 == c, 'without velocity')
        cc = ep.geph2clk(timeadd(t, c0), e)
        expect(abs(cc-c0) < 1e-12, lambda: f'{w}: geph2clk {cc}')
        expect(np.array_equal(e.pos, y[:3]) and
               np.array_equal(e.vel, y[3:]), f'{w}: ephemeris changed')


# --- satellites of an observation epoch --------------------------------------

GLO_A = (9.3e-7, -1.8e-6, 2.7e-6)


def gbrd(toe, u=1.0):
    e = Geph(prn2sat(uGNSS.GLO, 5))
    y = glo_state(u, 0.3)
    e.toe, e.pos, e.vel, e.acc = toe, y[:3], y[3:], np.array(GLO_A)
    e.taun, e.gamn, e.frq, e.iode = 1.1e-4, -2e-12, -4, 30
    return e, y


SIGS = {uGNSS.GPS: '1C', uGNSS.GAL: '1C', uGNSS.QZS: '1C', uGNSS.BDS: '2I',
        uGNSS.GLO: '1C', uGNSS.IRN: '5A'}


def world(order, tgd):
    """ store of three ephemerides per satellite; what applies at T0 """
    nav = Nav()
    q = {}
    for j, name in enumerate(SYST):
        if name == 'GEO2':
            continue
        for m, dt in enumerate((-3600, 0, 3600)):
            x = elements(name, 0, 0.008+0.001*m, 0.3*j, (3600*50+dt), 3)
            x['tgd'], x['tgd_b'] = (-1.1e-8, -1.7e-8)
            x['iode'] = 10+m
            x['svh'] = 0 if j % 2 else 2
            if dt == 0:
                q[x['sat']] = x
            nav.eph.append(toeph(x))
    ge = []
    for m, dt in enumerate((-1800, 0, 1800)):
        e, y = gbrd(timeadd(T0, dt), 1.0+0.1*m)
        e.svh = 1
        ge.append(e)
    gsat, gy = ge[1].sat, np.hstack((ge[1].pos, ge[1].vel))
    nav.eph = [nav.eph[k] for k in np.argsort(
        [((i+1)*order) % (len(nav.eph)+1) for i in range(len(nav.eph))])]
    nav.geph = ge[::-1] if order % 2 else ge
    nav.ephopt = 0
    if tgd:
        nav.smode, nav.nf = 1, 1
    return nav, q, gsat, gy


def expected(q, gsat, gy, sat, t, tgd):
    dt = dtm(t, T0)
    if sat == gsat:
        x = gint(gy, np.array(GLO_A), dt)
        return x[:3], x[3:], -1.1e-4-2e-12*dt, 0.
    x = q[sat]
    r, E = orbit(x, dt)
    v = (orbit(x, dt+.5)[0]-orbit(x, dt-.5)[0])
    c = clock(x, dt, E)
    rel = c-clock(x, dt, E, False)
    if tgd:
        c -= x['tgd_b'] if x['sys'] == uGNSS.GAL else x['tgd']
    return r, v, c, rel


def epoch(order, tgd, miss, dt):
    """ satposs of all satellites; miss: way the first code is missing """
    nav, q, gsat, gy = world(order, tgd)
    sats = list(q)+[gsat, prn2sat(uGNSS.GPS, 30), prn2sat(uGNSS.GLO, 20)]
    if order % 3 == 1:
        sats = sats[::-1]
    n = len(sats)
    obs = Obs()
    obs.t = timeadd(T0, dt)
    obs.sat = np.array(sats)
    obs.P = np.zeros((n, 2))
    for s in sats:
        y = g.sat2prn(s)[0]
        if y != uGNSS.IRN:
            obs.sig[y] = {g.uTYP.C: [rSigRnx(y, g.uTYP.C, g.uSIG.L1C)]}
    pr = {}
    for i, s in enumerate(sats):
        pr[s] = 2.0e7+1.3e6*i
        obs.P[i, :] = pr[s], pr[s]+3.
        if miss == 1:
            obs.P[i, 0] = 0.
        elif miss == 2:
            obs.P[i, 0] = np.nan
        elif miss == 3:
            obs.P[i, :] = 0. if i % 2 else np.nan
        elif miss == 4 and i % 2:
            obs.P[i, 1] = 0.
    obs.L = np.zeros((n, 2))
    P0 = obs.P.copy()
    for _ in range(2):
        rs, vs, dts, svh, ns = ep.satposs(obs, nav)
        cnt = 0
        for i, s in enumerate(sats):
            sys, prn = g.sat2prn(s)
            w = f'sat {g.sat2id(s)} order {order} miss {miss}'
            known = (s in q or s == gsat) and sys != uGNSS.IRN
            if not known or miss == 3:
                expect(not np.any(np.abs(rs[i]) > 0),
                       lambda: f'{w}: position {rs[i]} reported')
                if sys in obs.sig and miss != 3:
                    expect(svh[i] != 0, f'{w}: reported healthy')
                continue
            cnt += 1
            t = timeadd(obs.t, -pr[s]/C)
            r, v, c, _ = expected(q, gsat, gy, s, t, False)
            t = timeadd(t, -c)
            r, v, c, _ = expected(q, gsat, gy, s, t, tgd)
            d = np.max(np.abs(rs[i]-r))
            expect(d < 0.02, lambda: f'{w}: position differs by {d} m')
            dv = np.max(np.abs(vs[i]-v))
            expect(dv < 1e-3, lambda: f'{w}: velocity differs by {dv}')
            expect(abs(dts[i]-c) < 1e-12,
                   lambda: f'{w}: clock {dts[i]} expected {c}')
            h = 1 if s == gsat else q[s]['svh']
            expect(svh[i] == h, lambda: f'{w}: health {svh[i]}')
        expect(ns == cnt, lambda: f'{ns} satellites, expected {cnt}')
    expect(np.array_equal(P0, obs.P, equal_nan=True), 'observation changed')


def single(order, tgd, dt):
    """ satpos of each satellite """
    nav, q, gsat, gy = world(order, tgd)
    t = timeadd(T0, dt)
    for s in list(q)+[gsat]:
        rs, vs, dts, svh = ep.satpos(s, t, nav)
        r, v, c, rel = expected(q, gsat, gy, s, t, tgd)
        w = f'sat {g.sat2id(s)} order {order} dt {dt}'
        expect(np.max(np.abs(rs[0]-r)) < 0.02, f'{w}: position')
        expect(np.max(np.abs(vs[0]-v)) < 1e-3, f'{w}: velocity')
        if s != gsat:
            expect(abs(dts[0]-(c-rel)) < 1e-12,
                   lambda: f'{w}: clock {dts[0]} expected {c-rel}')
        else:
            expect(abs(dts[0]-c) < 1e-8, f'{w}: clock')
        expect(svh[0] == (1 if s == gsat else q[s]['svh']), f'{w}: health')
    for s in (prn2sat(uGNSS.GPS, 30), prn2sat(uGNSS.GLO, 20)):
        rs, vs, dts, svh = ep.satpos(s, t, nav)
        expect(not np.any(np.abs(rs[0]) > 0), 'position without ephemeris')
        expect(svh[0] != 0, 'healthy without ephemeris')


class Orb:
    """ stand-in of the precise products """
    ng = ()

    def peph2pos(self, t, sat, nav, var=False):
        if sat in self.none:
            return None, None, None
        dt = dtm(t, T0)
        if sat in self.late and dt < self.late[sat]:
            return None, None, None
        rs = np.array([2e7+2e3*dt, 1e7-1e3*dt, sat*1e5+5*dt, 2e3, -1e3, 5.])
        d = np.array([np.nan if sat in self.nan else 2e-4+1e-11*dt, 1e-11])
        return rs, d, None

    def pephrel(self, rs):
        return -2*(rs[:3]@rs[3:])/C**2


def prec(kind, dt):
    """ precise products: time of transmission, unavailable satellites """
    sats = [prn2sat(uGNSS.GPS, 7), prn2sat(uGNSS.GAL, 11),
            prn2sat(uGNSS.GLO, 5)]
    o = Orb()
    o.none, o.nan, o.late = (), (), {}
    bad = ()
    if kind == 'none':
        o.none = bad = sats[:1]
    elif kind == 'nan':
        o.nan = bad = sats[1:2]
    elif kind == 'late':
        # available at the first, not at the second evaluation
        o.late = {sats[0]: dt-2.1e7/C-1e-4}
        bad = sats[:1]
    nav = Nav()
    nav.ephopt = 4
    obs = Obs()
    obs.t = timeadd(T0, dt)
    obs.sat = np.array(sats)
    obs.P = np.full((3, 1), 2.1e7)
    for s in sats:
        obs.sig[g.sat2prn(s)[0]] = {}
    rs, vs, dts, svh, ns = ep.satposs(obs, nav, orb=o)
    for i, s in enumerate(sats):
        if s in bad:
            expect(not np.any(np.abs(rs[i]) > 0), f'{kind}: position')
            continue
        tt = dt-2.1e7/C-2e-4
        r, d, _ = Orb.peph2pos(o, timeadd(T0, tt), s, nav)
        expect(np.max(np.abs(rs[i]-r[:3])) < 1e-3 and
               np.max(np.abs(vs[i]-r[3:])) < 1e-6 and
               abs(dts[i]-d[0]) < 1e-14, f'{kind}: {rs[i]} expected {r[:3]}')
    expect(ns == 3-len(bad), f'{ns} satellites')
    for s in sats:
        rs, vs, dts, svh = ep.satpos(s, obs.t, nav, orb=o)
        if s in bad and kind != 'late':
            expect(not np.any(np.abs(rs[0]) > 0), f'{kind}: satpos')
        elif s not in bad:
            r, d, _ = o.peph2pos(obs.t, s, nav)
            expect(np.max(np.abs(rs[0]-r[:3])) < 1e-6 and
                   abs(dts[0]-d[0]+o.pephrel(r)) < 1e-14, f'{kind}: satpos')


def run(ck):
    full = ck.thorough
    ck.pmap('selection', sel_items(full),
            lambda c, x: c.case('selection', x, sel, *x), chunk=40)
    es = (0., 0.003, 0.05, 0.3) if not full else \
        (0., 1e-5, 0.003, 0.05, 0.16, 0.3, 0.6)
    Ms = (-3.1, -1., 0., 1.2, pi) if not full else \
        tuple(-pi+k*pi/6 for k in range(13))
    dts = (-7200., -900., 0., 0.3, 1800., 7199.)
    if full:
        dts += (-14400., -3600., 14400., 3601.7)
    tows = (0., 7200., 302400., 604784.)
    items = [(n, m, e, M, tow, p, dts)
             for n in SYST for m in (0, 1) for e in es for M in Ms
             for tow in tows for p in (0, 1, 2, 3, 4)]
    items += [(n, 0, 0.01, 1., tow, 3, (-3600., 0., 3600.), wk)
              for n in SYST for tow in tows for wk in (-1, 1)]
    ck.pmap('evaluation', items,
            lambda c, x: c.case('evaluation', x, ev, *x), chunk=40)
    # every satellite number
    items = [(f'{c}{k:02d}', 0, 0.01, 1., 302400., 3, (-3600., 0., 3600.))
             for c, m in (('G', 32), ('E', 36), ('C', 63), ('J', 10),
                          ('I', 14)) for k in range(1, m+1)
             if g.id2sat(f'{c}{k:02d}') > 0]
    ck.pmap('satellites', items,
            lambda c, x: c.case('satellites', x, ev, *x), chunk=40)
    for n in SYST:
        for tow in (0., 86400., 302400.):
            ck.case('rollover', (n, tow), cont, n, tow)
    us = 8 if not full else 24
    gd = (-1800., -900., -61.5, 0., 0.25, 900., 1799.) if full else \
        (-900., -61.5, 0., 0.25, 899.75)
    items = [(k*2*pi/us, nd, a, gd) for k in range(us) for nd in (0.2, 3.)
             for a in ((0., 0., 0.), GLO_A)]
    ck.pmap('glonass', items, lambda c, x: c.case('glonass', x, glo, *x),
            chunk=1)
    ods = range(1, 22 if full else 8)
    items = [(o, tg, m, dt) for o in ods for tg in (0, 1)
             for m in range(5) for dt in (-30., 0., 450.)]
    ck.pmap('epoch', items, lambda c, x: c.case('epoch', x, epoch, *x),
            chunk=2)
    items = [(o, tg, dt) for o in ods for tg in (0, 1)
             for dt in (-200., 0., 450.)]
    ck.pmap('single', items, lambda c, x: c.case('single', x, single, *x),
            chunk=2)
    for kind in ('all', 'none', 'nan', 'late'):
        for dt in (0., 12.5):
            ck.case('precise', (kind, dt), prec, kind, dt)
    ck.bound(selection='all sets of <=2 of 24 and <=3 of 9 ephemerides per '
             'system in all orders x query times x satellites x modes x '
             'issues', evaluation=f'{len(es)} eccentricities x {len(Ms)} '
             f'anomalies x {len(dts)} times x {len(tows)} reference times x '
             '5 perturbation sets x 8 orbit types x 2 message modes')
