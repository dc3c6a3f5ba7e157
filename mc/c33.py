""" C33 geodetic conversions, local frames, range/azimuth/elevation """
import numpy as np
from math import sin, cos, sqrt, pi, radians, hypot, atan2, asin
from cssrlib import gnss as g
from mc.core import expect

A = 6378137.0
FE = 1/298.257223563
E2 = FE*(2-FE)
OMGE = 7.2921151467e-5
C = 299792458.0


def ref_ecef(lat, lon, h):
    n = A/sqrt(1-E2*sin(lat)**2)
    return ((n+h)*cos(lat)*cos(lon), (n+h)*cos(lat)*sin(lon),
            (n*(1-E2)+h)*sin(lat))


def lats(fine):
    st = 5 if not fine else 1
    x = [float(d) for d in range(-90, 91, st)]
    for e in (1e-12, 1e-9, 1e-6, 1e-3):
        x += [90-e, -90+e, e, -e, 45+e]
    return x


def lons(fine):
    st = 30 if not fine else 10
    x = [float(d) for d in range(-180, 181, st)]
    for e in (1e-9, 1e-6):
        x += [180-e, -180+e, e, -e]
    return x


HS = [-12000.0, -430.5, 0.0, 1e-3, 8848.0, 4.0e5, 2.02e7, 3.6e7, 1e8]


def geo(latd, lond, h):
    lat, lon = radians(latd), radians(lond)
    r = np.array(ref_ecef(lat, lon, h))
    for kind in (np.array, list, tuple):
        p = kind([lat, lon, h])
        q = g.pos2ecef(p)
        expect(np.max(np.abs(q-r)) < 1e-6, f'pos2ecef {p} -> {q}')
        expect(tuple(p) == (lat, lon, h), 'pos2ecef changed its argument')
    pd = np.array([latd, lond, h])
    q = g.pos2ecef(pd, True)
    expect(np.max(np.abs(q-r)) < 1e-6, f'pos2ecef deg {pd} -> {q}')
    expect(tuple(pd) == (latd, lond, h),
           'pos2ecef(isdeg) changed its argument')
    pos = g.ecef2pos(r)
    expect(np.all(np.isfinite(pos)), f'ecef2pos not finite {pos}')
    r2 = np.array(ref_ecef(*pos))
    expect(np.max(np.abs(r2-r)) < 1.5e-6,
           lambda: f'ecef2pos round trip {np.max(np.abs(r2-r)):.2e} m')
    expect(abs(pos[2]-h) < 1.5e-6, f'height {pos[2]} expected {h}')
    expect(abs(pos[0]-lat)*(A+max(h, 0)) < 2e-6,
           f'lat {pos[0]} expected {lat}')
    dl = (pos[1]-lon+pi) % (2*pi)-pi
    expect(abs(dl)*(A+h)*cos(lat) < 2e-6, f'lon {pos[1]} expected {lon}')
    expect(-pi-1e-12 <= pos[1] <= pi+1e-12, 'lon range')


def frame(latd, lond):
    lat, lon = radians(latd), radians(lond)
    pos = np.array([lat, lon, 100.0])
    E = np.array(g.xyz2enu(pos))
    up = np.array([cos(lat)*cos(lon), cos(lat)*sin(lon), sin(lat)])
    east = np.array([-sin(lon), cos(lon), 0.0])
    north = np.cross(up, east)
    R = np.vstack([east, north, up])
    expect(np.max(np.abs(E-R)) < 1e-12, f'xyz2enu {latd} {lond}')
    Ei = np.array(g.enu2xyz(pos))
    expect(np.max(np.abs(Ei-R.T)) < 1e-9, f'enu2xyz {latd} {lond}')
    for v in (np.array([1.0, 2.0, 3.0]), np.array([1e7, -2e7, 1.5e7]),
              np.array([0.0, 0.0, 1.0])):
        e = g.ecef2enu(pos, v)
        expect(np.max(np.abs(e-R@v)) < 1e-9*max(1, np.linalg.norm(v)),
               f'ecef2enu {latd} {lond} {v}')
        b = Ei@e
        expect(np.max(np.abs(b-v)) < 1e-9*max(1, np.linalg.norm(v)),
               'local frame round trip')
    expect(tuple(pos) == (lat, lon, 100.0), 'position changed')


def azel(latd, lond, h, azd, eld, dist):
    lat, lon = radians(latd), radians(lond)
    up = np.array([cos(lat)*cos(lon), cos(lat)*sin(lon), sin(lat)])
    east = np.array([-sin(lon), cos(lon), 0.0])
    north = np.cross(up, east)
    az, el = radians(azd), radians(eld)
    los = cos(el)*sin(az)*east+cos(el)*cos(az)*north+sin(el)*up
    rr = np.array(ref_ecef(lat, lon, h))
    rs = rr+dist*los
    k = (rs.copy(), rr.copy())
    r, e = g.geodist(rs, rr)
    d = rs-rr
    n = sqrt(d[0]**2+d[1]**2+d[2]**2)
    ex = n+OMGE*(rs[0]*rr[1]-rs[1]*rr[0])/C
    expect(abs(r-ex) < 1e-6, f'geodist {r} expected {ex}')
    # agreement with the exact rotation of the satellite position
    th = OMGE*ex/C
    rot = np.array([rs[0]*cos(th)+rs[1]*sin(th),
                    -rs[0]*sin(th)+rs[1]*cos(th), rs[2]])
    rx = np.linalg.norm(rot-rr)
    expect(abs(r-rx) < 5e-3, f'geodist {r} vs rotated {rx}')
    expect(np.max(np.abs(e-d/n)) < 1e-12, 'line of sight')
    expect(np.array_equal(rs, k[0]) and np.array_equal(rr, k[1]),
           'geodist changed its arguments')
    pos = np.array([lat, lon, h])
    a, el2 = g.satazel(pos, e)
    expect(abs(el2-el) < 2e-7 if abs(eld) > 89.99 else abs(el2-el) < 1e-9,
           f'elevation {el2} expected {el}')
    da = (a-az+pi) % (2*pi)-pi
    expect(abs(da)*cos(el) < 1e-9, f'azimuth {a} expected {az}')


def dms(x):
    d = g.deg2dms(x)
    s = -1 if x < 0 else 1
    expect(0 <= abs(d[1]) < 60 and 0 <= abs(d[2]) < 60.0000001, 'dms range')
    if abs(x) >= 1:
        y = s*(abs(d[0])+abs(d[1])/60+abs(d[2])/3600)
        expect(abs(y-x) < 1e-9, f'deg2dms {x} -> {d}')


def run(ck):
    LA, LO = lats(ck.thorough), lons(ck.thorough)
    ck.bound(lat=len(LA), lon=len(LO), h=len(HS))

    def f(c, la):
        for lo in LO:
            for h in HS:
                c.case('geodetic', (la, lo, h), geo, la, lo, h, steps=5)
            c.case('frame', (la, lo), frame, la, lo, steps=8)
            for h in (0.0, 8848.0):
                for az in (0.0, 45.0, 90.0, 135.0, 179.999, 180.0, 225.0,
                           270.0, 315.0, 359.999):
                    for el in (-5.0, 0.0, 1e-6, 15.0, 45.0, 89.999, 90.0):
                        c.case('azel', (la, lo, h, az, el), azel, la, lo, h,
                               az, el, 2.2e7 if h == 0 else 3.8e7, steps=2)
    ck.pmap('geodetic', LA, f, chunk=2)
    for i in range(-3600, 3601):
        ck.case('dms', i, dms, i/20+0.0125)
