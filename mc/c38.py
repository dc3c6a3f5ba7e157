""" C38 models of atmosphere, tides and wind-up """
import datetime as dt
import itertools
import math
from math import sin, cos, tan, pi, sqrt, radians, degrees, atan2, hypot
import numpy as np
from cssrlib import gnss as g
from cssrlib import pntpos as pn
from cssrlib import ppp
from cssrlib.gnss import gtime_t, uTropoModel as TM, uIonoModel as IM
from mc.core import expect

C = 299792458.0
RE = 6378137.0
OM = 7.2921151467e-5
J1970 = dt.datetime(1970, 1, 1)


def tm(*ep):
    s = (dt.datetime(*ep)-J1970).total_seconds()
    return gtime_t(int(s), s-int(s))


def doy(ep):
    d = dt.datetime(*ep)
    return (d-dt.datetime(d.year, 1, 1)).total_seconds()/86400+1


def near(a, b, tol, what):
    expect(abs(a-b) <= tol, lambda: f'{what}: {a} instead of {b}')


# --- ionosphere --------------------------------------------------------------

COEF = [([.1211e-7, .1490e-7, -.5960e-7, -.1192e-6],
         [.9626e5, .8192e5, -.1966e6, -.3932e6]),
        ([.3e-7, -.2e-7, .1e-6, .2e-6], [.12e6, -.1e6, .3e6, .1e6]),
        ([-.1e-7, 0., 0., 0.], [.5e5, 0., 0., 0.]),
        ([0.]*4, [0.]*4)]


def klob(ion, lat, lon, az, el, tow):
    """ IS-GPS-200 20.3.3.5.2.5, angles in semicircles """
    E = el/180
    psi = .0137/(E+.11)-.022
    p = lat/180+psi*cos(radians(az))
    p = min(max(p, -.416), .416)
    la = lon/180+psi*sin(radians(az))/cos(p*pi)
    m = p+.064*cos((la-1.617)*pi)
    t = (4.32e4*la+tow) % 86400
    F = 1+16*(.53-E)**3
    a, b = ion
    amp = max(sum(a[n]*m**n for n in range(4)), 0)
    per = max(sum(b[n]*m**n for n in range(4)), 72000)
    x = 2*pi*(t-50400)/per
    lo = F*5e-9*C
    hi = F*(5e-9+amp*(1-x*x/2+x**4/24))*C
    if abs(abs(x)-1.57) < 1e-6:
        return (lo, hi)
    return (hi,) if abs(x) < 1.57 else (lo,)


def iono(k, lat, lon):
    ion = np.array(COEF[k])
    nav = g.Nav()
    nav.ion = ion
    pos = np.array([radians(lat), radians(lon), 100.])
    n = 0
    for az, el, tow in itertools.product(
            range(-180, 181, 45), (5, 12, 30, 60, 89, 90),
            (0, 3599, 21600, 43200, 50400, 64800, 86399, 302400, 604799)):
        t = g.gpst2time(2300, tow)
        r = klob(COEF[k], lat, lon, az, el, tow)
        for f in (lambda *a: pn.ionKlobuchar(*a, ion),
                  lambda *a: pn.ionmodel(*a, nav, IM.KLOBUCHAR)):
            v = f(t, pos, radians(az), radians(el))
            expect(min(abs(v-x) for x in r) < 1e-6, lambda: 'ionosphere at '
                   f'az {az} el {el} tow {tow}: {v} instead of {r}')
        expect(pn.ionmodel(t, pos, radians(az), radians(el), nav,
                           IM.NONE) == 0, 'no model')
        n += 1
    return n


def pierce(lat, hion):
    """ against the intersection of the line of sight with the shell """
    n = 0
    re = 6378.1363e3
    for lon, az, el in itertools.product(
            (-180, -60, 0, 139.7, 180), range(-180, 181, 15),
            (3, 5, 10, 15, 30, 45, 60, 75, 85, 89)):
        pos = np.array([radians(lat), radians(lon), 0.])
        a, e = radians(az), radians(el)
        sf, q = g.ionppp(pos, a, e, re, hion)
        up = np.array([cos(pos[0])*cos(pos[1]), cos(pos[0])*sin(pos[1]),
                       sin(pos[0])])
        ea = np.array([-sin(pos[1]), cos(pos[1]), 0.])
        no = np.cross(up, ea)
        d = (ea*sin(a)+no*cos(a))*cos(e)+up*sin(e)
        b = re*sin(e)
        s = -b+sqrt(b*b+(re+hion)**2-re*re)
        x = up*re+d*s
        u = x/np.linalg.norm(x)
        v = np.array([cos(q[0])*cos(q[1]), cos(q[0])*sin(q[1]), sin(q[0])])
        expect(np.linalg.norm(u-v) < 1e-7, lambda: 'pierce point of '
               f'{lat},{lon} az {az} el {el}: {np.degrees(q)}')
        near(sf, 1/(u@d), 1e-7, f'slant factor el {el}')
        n += 1
    return n


# --- troposphere ---------------------------------------------------------------

NMF = dict(h=[(1.2769934e-3, 2.9153695e-3, 62.610505e-3),
              (1.2683230e-3, 2.9152299e-3, 62.837393e-3),
              (1.2465397e-3, 2.9288445e-3, 63.721774e-3),
              (1.2196049e-3, 2.9022565e-3, 63.824265e-3),
              (1.2045996e-3, 2.9024912e-3, 64.258455e-3)],
           s=[(0, 0, 0), (1.2709626e-5, 2.1414979e-5, 9.0128400e-5),
              (2.6523662e-5, 3.0160779e-5, 4.3497037e-5),
              (3.4000452e-5, 7.2562722e-5, 84.795348e-5),
              (4.1202191e-5, 11.723375e-5, 170.37206e-5)],
           w=[(5.8021897e-4, 1.4275268e-3, 4.3472961e-2),
              (5.6794847e-4, 1.5138625e-3, 4.6729510e-2),
              (5.8118019e-4, 1.4572752e-3, 4.3908931e-2),
              (5.9727542e-4, 1.5007428e-3, 4.4626982e-2),
              (6.1641693e-4, 1.7599082e-3, 5.4736038e-2)])
MOPS = [(1013.25, 299.65, 26.31, 6.30e-3, 2.77),
        (1017.25, 294.15, 21.79, 6.05e-3, 3.15),
        (1015.75, 283.15, 11.66, 5.58e-3, 2.57),
        (1011.75, 272.15, 6.78, 5.39e-3, 1.81),
        (1013.00, 263.65, 4.11, 4.53e-3, 1.55)]
MOPV = [(0, 0, 0, 0, 0), (-3.75, 7, 8.85, .25e-3, .33),
        (-2.25, 11, 7.24, .32e-3, .46), (-1.75, 15, 5.36, .81e-3, .74),
        (-.5, 14.5, 3.39, .62e-3, .30)]


def table(tb, lat):
    """ linear in |latitude| between 15 and 75 deg """
    x = min(max(abs(lat), 15.), 75.)
    k = min(int((x-15)//15), 3)
    f = (x-15-15*k)/15
    return [a+(b-a)*f for a, b in zip(tb[k], tb[k+1])]


def frac(s, a, b, c):
    return (1+a/(1+b/(1+c)))/(s+a/(s+b/(s+c)))


def niell(ep, lat, h, el):
    y = 2*pi*((doy(ep)-28)/365.25+(.5 if lat < 0 else 0))
    A, S, W = (table(NMF[k], lat) for k in 'hsw')
    A = [a-s*cos(y) for a, s in zip(A, S)]
    s = sin(el)
    d = (1/s-frac(s, 2.53e-5, 5.49e-3, 1.14e-3))*h/1000
    return frac(s, *A)+d, frac(s, *W)


def saast(lat, h, rh):
    p = 1013.25*(1-2.2557e-5*h)**5.2568
    T = 288.16-.0065*h
    e = 6.108*rh*math.exp((17.15*T-4684)/(T-38.45))
    return .0022768*p/(1-.00266*cos(2*radians(lat))-.00028*h/1000), \
        .002277*(1255/T+.05)*e


def mops(ep, lat, h, el):
    y = cos(2*pi*(doy(ep)-(28 if lat >= 0 else 211))/365.25)
    P, T, e, be, la = [a-b*y for a, b in zip(table(MOPS, lat),
                                             table(MOPV, lat))]
    R, gr, gm = 287.054, 9.80665, 9.784
    zh = 1e-6*77.604*R*P/gm
    zw = 1e-6*382000*R/(gm*(la+1)-be*R)*e/T
    f = 1-be*h/T
    m = 1.001/sqrt(.002001+sin(el)**2)
    return zh*f**(gr/(R*be))*m, zw*f**((la+1)*gr/(R*be)-1)*m, m


EPS = [(2023, 1, 1, 0, 0, 0), (2023, 1, 28, 12, 0, 0), (2024, 2, 29, 6, 0, 0),
       (2024, 7, 29, 0, 0, 0), (2023, 10, 15, 18, 30, 0),
       (2024, 12, 31, 23, 59, 59)]


def tropo(ep, lat, h):
    t = tm(*ep)
    pos = np.array([radians(lat), radians(33.), h])
    n = 0
    for el in (3, 5, 10, 15, 30, 45, 60, 80, 90):
        e = radians(el)
        w = f'{ep} lat {lat} h {h} el {el}'
        mh, mw = g.tropmapf(t, pos, e, g.uTropoModel.SAAST)
        rh, rw = niell(ep, lat, h, e)
        near(mh, rh, 2e-6*rh, w+' hydrostatic mapping')
        near(mw, rw, 2e-6*rw, w+' wet mapping')
        for rhum in (0., .5, .7, 1.):
            a = g.tropmodel(t, pos, e, rhum, TM.SAAST)
            b = saast(lat, h, rhum)
            near(a[0], b[0], 1e-6, w+' Saastamoinen dry')
            near(a[1], b[1], 1e-6, w+' Saastamoinen wet')
        a = g.tropmodel(t, pos, e, model=TM.SBAS)
        b = mops(ep, lat, h, e)
        near(a[0], b[0], 1e-6*b[2], w+' SBAS dry')
        near(a[1], b[1], 1e-6*b[2], w+' SBAS wet')
        near(g.tropmapf(t, pos, e, TM.SBAS)[0], b[2], 1e-9, w+' SBAS mapping')
        near(g.tropmapf(t, pos, e, TM.SBAS)[1], b[2], 1e-9, w+' SBAS mapping')
        a = g.tropmapf(t, pos, e, TM.HOPF)
        for x, k in zip(a, (2.5, 1.5)):
            near(x, 1/sin(radians(sqrt(el*el+k*k))), 1e-9, w+' Hopfield')
        a = g.tropmodel(t, pos, e, model=TM.HOPF)
        T = 291.1
        near(a[0], 77.6e-6*1010/T*(148.98*T-613.3768)/5, 1e-9, 'Hopfield dry')
        near(a[1], 77.6e-6*4810*10.4/T**2*11000/5, 1e-9, 'Hopfield wet')
        expect(tuple(g.tropmodel(t, pos, e, model=TM.NONE)[:2]) == (0, 0) and
               tuple(g.tropmapf(t, pos, e, TM.NONE)) == (0, 0), 'no model')
        n += 1
    near(g.tropmapf(t, np.array([pos[0], pos[1], 0.]), pi/2, TM.SAAST)[0], 1.,
         1e-9, 'mapping in zenith')
    return n


# --- geometry ---------------------------------------------------------------

def unit(x):
    return x/np.linalg.norm(x)


def frame(rs, vs, sun):
    """ axes of the satellite antenna """
    z = -unit(rs)
    d = unit(sun-rs) if sun is not None else \
        unit(vs+np.cross([0, 0, OM], rs))
    y = unit(np.cross(z, d))
    return np.cross(y, z), y


def phase(rs, vs, rr, lat, lon, sun):
    """ angle between the effective dipoles [cycle] """
    k = unit(rr-rs)
    x, y = frame(rs, vs, sun)
    ds = x-k*(k@x)-np.cross(k, y)
    e = np.array([-sin(lon), cos(lon), 0.])
    n = np.array([-sin(lat)*cos(lon), -sin(lat)*sin(lon), cos(lat)])
    dr = n-k*(k@n)-np.cross(k, e)
    return atan2(k@np.cross(ds, dr), ds@dr)/(2*pi)


def orbit(r, inc, node, u):
    """ circular orbit: ECEF position and velocity """
    n = sqrt(3.986004418e14/r**3)
    a, b = np.array([cos(node), sin(node), 0.]), np.array(
        [-sin(node)*cos(inc), cos(node)*cos(inc), sin(inc)])
    p = r*(a*cos(u)+b*sin(u))
    v = r*n*(b*cos(u)-a*sin(u))
    return p, v-np.cross([0, 0, OM], p)


def ecef(lat, lon, h=0.):
    e2 = (2-1/298.257223563)/298.257223563
    v = RE/sqrt(1-e2*sin(lat)**2)
    return np.array([(v+h)*cos(lat)*cos(lon), (v+h)*cos(lat)*sin(lon),
                     (v*(1-e2)+h)*sin(lat)])


def windup(lat, lon, inc, full):
    la, lo = radians(lat), radians(lon)
    rr = ecef(la, lo, 50.)
    up = unit(ecef(la, lo, 1e3)-ecef(la, lo))
    t = tm(2023, 5, 1, 0, 0, 0)
    base = None
    n = 0
    for sd in ((1, 0, .2), (-.3, .9, -.35), (-.9, -.4, .1)):
        sun = 1.496e11*unit(np.array(sd)) if full else None
        for node in range(0, 360, 45):
            prev = ref = None
            for u in range(0, 360, 5):
                rs, vs = orbit(26.56e6, radians(inc), radians(node),
                               radians(u))
                if up@unit(rs-rr) < .05:
                    prev = None
                    continue
                if full and np.linalg.norm(np.cross(unit(sun), unit(rs))) \
                        < .1:
                    prev = None
                    continue
                w = phase(rs, vs, rr, la, lo, sun)
                p0 = 0. if prev is None else prev
                p = ppp.windupcorr(t, rs, vs, rr,
                                   sun if full else np.array(sd)*1.496e11,
                                   p0, full)
                if base is None:
                    base = p-w
                d = p-w-base
                expect(abs(d-round(d)) < 1e-7, lambda: f'phase of {lat},{lon}'
                       f' orbit {inc}/{node}/{u}: differs by {d} cycles')
                expect(abs(p-p0) <= .5+1e-9, f'jump by {p-p0} cycles')
                for q in (7.3, -1234.6, .5):
                    x = ppp.windupcorr(t, rs, vs, rr,
                                       sun if full else np.array(sd)*1.496e11,
                                       q, full)
                    expect(abs(x-q) <= .5+1e-9 and
                           abs(x-p-round(x-p)) < 1e-7,
                           lambda: f'continued from {q}: {x}, not {p}')
                if prev is not None:
                    d = w-ref
                    d -= round(d)
                    if abs(d) < .45:
                        near(p-prev, d, 1e-7, 'change of the phase')
                prev, ref = p, w
                n += 1
    expect(n > 0, 'HARNESS no satellite visible')
    return n


def dop(els, mask):
    """ els: (azimuth, elevation) in deg """
    r = g.dops(np.radians([a for a, _ in els]), np.radians(
        [e for _, e in els]), radians(mask))
    use = [(radians(a), radians(e)) for a, e in els if e > mask]
    if len(use) < 4:
        expect(r is None, f'{len(use)} satellites above the mask: {r}')
        return 1
    H = np.array([[cos(e)*sin(a), cos(e)*cos(a), sin(e), 1]
                  for a, e in use])
    N = H.T@H
    if np.linalg.cond(N) > 1e8:
        return 1
    Q = np.linalg.solve(N, np.eye(4))
    d = np.diag(Q)
    w = [sqrt(sum(d)), sqrt(sum(d[:3])), hypot(sqrt(d[0]), sqrt(d[1])),
         sqrt(d[2])]
    for a, b, k in zip(r, w, 'GPHV'):
        near(a, b, 1e-6*b, k+'DOP')
    return 1


def shapiro(u):
    n = 0
    for lat, lon, r in itertools.product((-90, -30, 0, 45, 80), (0, 100, 250),
                                         (26.56e6, 42.16e6, 7e6)):
        rr = ecef(radians(lat), radians(lon))
        rs, _ = orbit(r, radians(55), radians(20), radians(u))
        a, b = np.linalg.norm(rs), np.linalg.norm(rr)
        d = np.linalg.norm(rs-rr)
        w = 2*3.986004418e14/C**2*math.log((a+b+d)/(a+b-d))
        near(ppp.shapiro(rs, rr), w, 1e-6, 'path delay by gravity')
        n += 1
    return n


# --- sun, moon, tides -------------------------------------------------------

def gmst(ep):
    """ mean sidereal time (IAU 1982) [rad] """
    d = dt.datetime(*ep)
    T0 = (dt.datetime(*ep[:3])-dt.datetime(2000, 1, 1, 12)).total_seconds() \
        / 86400/36525
    ut = (d-dt.datetime(*ep[:3])).total_seconds()
    s = 24110.54841+8640184.812866*T0+.093104*T0**2-6.2e-6*T0**3 + \
        ut*1.002737909350795
    return s/43200*pi % (2*pi)


def bodies(ep):
    """ direction of sun and moon by truncated series (Meeus), Earth fixed """
    d = (dt.datetime(*ep)-dt.datetime(2000, 1, 1, 12)).total_seconds()/86400
    T = d/36525
    r = radians
    M = r(357.52911+35999.05029*T)
    ls = r(280.46646+36000.76983*T+(1.914602-.004817*T)*sin(M) +
           .019993*sin(2*M)+.00029*sin(3*M))
    rs = 1.496e11*(1.00014-.01671*cos(M)-.00014*cos(2*M))
    L = 218.3164477+481267.88123421*T
    D = r(297.8501921+445267.1114034*T)
    m = r(134.9633964+477198.8675055*T)
    F = r(93.2720950+483202.0175233*T)
    lm = L+6.288774*sin(m)+1.274027*sin(2*D-m)+.658314*sin(2*D) + \
        .213618*sin(2*m)-.185116*sin(M)-.114332*sin(2*F) + \
        .058793*sin(2*D-2*m)+.057066*sin(2*D-M-m)+.053322*sin(2*D+m) + \
        .045758*sin(2*D-M)-.040923*sin(M-m)-.034720*sin(D)-.030383*sin(M+m)
    bm = 5.128122*sin(F)+.280602*sin(m+F)+.277693*sin(m-F) + \
        .173237*sin(2*D-F)+.055413*sin(2*D-m+F)+.046271*sin(2*D-m-F)
    rm = 385000.56e3-20905.355e3*cos(m)-3699.111e3*cos(2*D-m) - \
        2955.968e3*cos(2*D)-569.925e3*cos(2*m)
    e = r(23.439291-.0130042*T)
    th = gmst(ep)

    def fixed(l, b, q):
        x = np.array([cos(b)*cos(l), cos(b)*sin(l), sin(b)])
        x = np.array([x[0], cos(e)*x[1]-sin(e)*x[2],
                      sin(e)*x[1]+cos(e)*x[2]])
        return q*np.array([cos(th)*x[0]+sin(th)*x[1],
                           -sin(th)*x[0]+cos(th)*x[1], x[2]])
    return fixed(ls, 0., rs), fixed(r(lm), r(bm), rm), th


def celestial(ep):
    t = tm(*ep)
    s, m, th = ppp.sunmoonpos(t)
    rs, rm, rt = bodies(ep)
    for a, b, k, q in ((s, rs, 'sun', 2e-3), (m, rm, 'moon', 2e-2)):
        x = degrees(math.acos(min(1., unit(a)@unit(b))))
        expect(x < .6, lambda: f'{k} at {ep}: {x} deg off')
        near(np.linalg.norm(a)/np.linalg.norm(b), 1, q, f'distance of {k}')
    d = (th-rt+pi) % (2*pi)-pi
    expect(abs(d) < 1e-6, f'sidereal time {d} rad off')
    U, _ = ppp.eci2ecef(t, np.zeros(5))
    expect(np.max(np.abs(U@U.T-np.eye(3))) < 1e-12 and
           abs(np.linalg.det(U)-1) < 1e-12, 'not a rotation')
    # the principal part is the rotation by the sidereal time
    R = np.array([[cos(rt), sin(rt), 0], [-sin(rt), cos(rt), 0], [0, 0, 1]])
    expect(np.max(np.abs(U-R)) < .012, 'rotation of the Earth')
    return 1


def tides(ep, lat):
    """ both tide models against each other """
    t = tm(*ep)
    n = 0
    for lon in range(-180, 180, 30):
        la, lo = radians(lat), radians(lon)
        pos = np.array([la, lo, 0.])
        E = np.array([[-sin(lo), cos(lo), 0],
                      [-sin(la)*cos(lo), -sin(la)*sin(lo), cos(la)],
                      [cos(la)*cos(lo), cos(la)*sin(lo), sin(la)]])
        a = E@ppp.tidedisp(t, pos)
        b = E@ppp.tidedispIERS2010(t, pos)
        # the former without the permanent part (IERS conventions)
        p = np.array([0, .0247*sin(2*la), .1196*(1.5*sin(la)**2-.5)])
        d = np.max(np.abs(a-p-b))
        expect(d < .008, lambda: f'tides at {ep} {lat},{lon}: {a-p} {b}')
        expect(np.linalg.norm(b) < .5, 'size of the tide')
        n += 1
    return n


def run(ck):
    TH = ck.thorough
    it = [(k, la, lo) for k in range(len(COEF))
          for la in ((-90, -75, -40, -1, 0, 35, 60, 74.9, 89) if not TH else
                     range(-90, 91, 5))
          for lo in ((-180, -90, 0, 45, 139.5, 179.9) if not TH else
                     range(-180, 181, 15))]
    ck.pmap('ionosphere', it, lambda c, x: c.case('ionosphere', x, iono, *x),
            chunk=20)
    it = [(la, h) for la in (-89, -80, -71, -70, -69, -30, 0, 45, 69, 70, 71,
                             75, 85, 89.5) for h in (350e3, 450e3, 1e3)]
    ck.pmap('pierce', it, lambda c, x: c.case('pierce', x, pierce, *x),
            chunk=2)
    eps = EPS if not TH else [(2024, m, d, 3, 0, 0) for m in range(1, 13)
                              for d in (1, 11, 21)]
    it = [(e, la, h) for e in eps for la in
          (-90, -75, -60, -45, -40, -30, -15, -7, 0, 7, 14.9, 15, 15.1, 22,
           30, 37.5, 45, 52, 60, 70, 75, 80, 90)
          for h in (-100., 0., 100., 1000., 4000.)]
    ck.pmap('troposphere', it, lambda c, x: c.case('troposphere', x, tropo,
                                                   *x), chunk=40)
    it = [(la, lo, inc, f) for la in (-60, 0, 35, 89) for lo in
          ((0, 140) if not TH else (0, 60, 140, 200, 290)) for inc in
          (2, 55, 64, 98) for f in (False, True) if la < 80 or inc > 50]
    ck.pmap('windup', it, lambda c, x: c.case('windup', x, windup, *x),
            chunk=1)
    sky = [(0, 90), (10, 20), (80, 45), (150, 8), (200, 60), (260, 30),
           (310, 14), (340, 75)]
    it = [(list(c), m) for k in range(3, 9 if TH else 7)
          for c in itertools.permutations(sky, k) if TH and k < 6 or
          list(c) == sorted(c) or k < 5 for m in (0, 10, 25)]
    ck.pmap('dop', it, lambda c, x: c.case('dop', x, dop, *x), chunk=400)
    ck.pmap('shapiro', [(u,) for u in range(0, 360, 5)], lambda c, x: c.case(
        'shapiro', x, shapiro, *x), chunk=20)
    it = [((y, m, d, h, 30, 15),) for y in ((2001, 2024) if not TH else
          range(2000, 2027, 2)) for m in range(1, 13) for d in (1, 8, 15, 22)
          for h in (0, 6, 13, 23)]
    ck.pmap('celestial', it, lambda c, x: c.case('celestial', x, celestial,
                                                 *x), chunk=100)
    it = [((2024, m, d, h, 20, 0), la) for m in range(1, 13) for d in (5, 19)
          for h in ((0, 9, 17) if not TH else range(0, 24, 3))
          for la in (-85, -60, -30, 0, 20, 35, 50, 70, 90)]
    ck.pmap('tides', it, lambda c, x: c.case('tides', x, tides, *x), chunk=60)
    ck.bound(models=9)
