""" C11 SBAS ionospheric delays come only from monitored, current points """
import itertools
import math
from cssrlib.cssrlib import sCType
from cssrlib.sbas import sbasDec, ionoSBAS
from cssrlib.gnss import timeadd
from mc.bits import BW
from mc.c09 import tm
from mc.c10 import l1
from mc.core import expect

T = 86400+1000.0
D = math.pi/180
RE, HI = 6378.1363, 350.0


def table(band):
    """ grid points of a band in the published order """
    lon0, out = -180+40*band, []
    for k in range(8):
        lon = lon0+5*k
        lats = list(range(-55, 60, 5))
        if lon % 10 == 0:
            lats = [-75, -65]+lats+[65, 75]
            if lon in (-180, -90, 0, 90):
                lats = lats+[85]
            elif lon in (-140, -50, 40, 130):
                lats = [-85]+lats
        out += [(a, lon) for a in lats]
    return out


TAB = {b: table(b) for b in range(9)}
WHERE = {p: (b, k) for b in TAB for k, p in enumerate(TAB[b])}


def m18(band, pts, iodi):
    idx = {TAB[band].index(p) for p in pts}
    return BW().u(4, 9).u(4, band).u(2, iodi).mask(201, idx).u(1, 0)


def m26(band, blk, vals, iodi):
    w = BW().u(4, band).u(4, blk)
    for k in range(15):
        v, g = vals[k] if k < len(vals) else (77, 3)
        w.u(9, v).u(4, g)
    return w.u(2, iodi).u(7, 0)


def new():
    cs = sbasDec()
    cs.set_time(tm(T))
    cs.time = tm(T)
    return cs


def send(cs, mt, w):
    cs.decode_cssr(l1(mt, w), 0, src=0, prn=129)


def load(pts, iodi=1, bands=None):
    """ receiver which got masks and delays: pts {(lat,lon): (vd, givei)} """
    cs = new()
    bb = {}
    for p in pts:
        bb.setdefault(WHERE[p][0], []).append(p)
    for b in bands or ():
        bb.setdefault(b, [])
    for b, ps in sorted(bb.items()):
        ps.sort(key=lambda p: WHERE[p][1])
        send(cs, 18, m18(b, ps, iodi))
        for blk in range((len(ps)+14)//15):
            send(cs, 26, m26(b, blk, [pts[p] for p in
                                      ps[15*blk:15*blk+15]], iodi))
    return cs


def cell(lat, lon):
    """ corners SW, NW, SE, NE and fractions for a pierce point """
    if -55 <= lat < 55:
        s, w, d = math.floor(lat/5)*5, math.floor(lon/5)*5, 5
    else:
        s, w, d = math.floor((lat-5)/10)*10+5, math.floor(lon/10)*10, 10
    e = w+d if w+d < 180 else w+d-360
    return [(s, w), (s+d, w), (s, e), (s+d, e)], (lon-w)/d, (lat-s)/d


def interp(z, x, y):
    """ z: delays of SW, NW, SE, NE, None if not usable """
    if None not in z:
        return z[0]*(1-x)*(1-y)+z[1]*(1-x)*y+z[2]*x*(1-y)+z[3]*x*y
    if z.count(None) > 1:
        return None
    k = z.index(None)
    if k == 3:
        f, w = z[0]+x*(z[2]-z[0])+y*(z[1]-z[0]), 1-x-y
    elif k == 0:
        f, w = z[3]+(1-x)*(z[1]-z[3])+(1-y)*(z[2]-z[3]), x+y-1
    elif k == 1:      # SE corner is the right angle
        f, w = z[2]+(1-x)*(z[0]-z[2])+y*(z[3]-z[2]), x-y
    else:             # NW corner
        f, w = z[1]+x*(z[3]-z[1])+(1-y)*(z[0]-z[1]), y-x
    if w < 0:
        return None
    return f


def evaluate(cs, lat, lon, el=90.0, az=0.0, h=50.0):
    r = ionoSBAS(timeadd(tm(T), 10.0), [lat*D, lon*D, h], az*D, el*D, cs)
    expect(r is not None and len(r) == 2, f'no result pair: {r}')
    return r[0]


def cmp(got, want, what):
    if want is None:
        expect(got == 0.0, lambda: f'{what}: delay {got} without usable '
               'grid points')
    else:
        expect(abs(got-want) <= 1e-9*(1+abs(want)), lambda:
               f'{what}: delay {got} expected {want}')


def vd(p):
    return (p[0]*7+p[1]*13) % 400+20


FR = [(.1, .2), (.7, .1), (.2, .75), (.9, .8), (.5, .5), (.3, .6), (.02, .97)]


def full(ck):
    """ every cell of bands 0-8 with all points monitored """
    pts = {p: (vd(p), 1+k % 14) for k, p in enumerate(WHERE)}
    cs = load(pts)

    def one(lat0, lon0, d):
        for fx, fy in FR:
            lat, lon = lat0+d*fy, lon0+d*fx
            c, x, y = cell(lat, lon)
            cmp(evaluate(cs, lat, lon), interp([vd(p)*.125 for p in c], x, y),
                f'{lat:.2f},{lon:.2f}')
    for lat in range(-55, 55, 5):
        for lon in range(-180, 180, 5):
            ck.case('cell5', (lat, lon), one, lat, lon, 5, steps=len(FR))
    for lat in (-75, -65, 55, 65):
        for lon in range(-180, 180, 10):
            ck.case('cell10', (lat, lon), one, lat, lon, 10, steps=len(FR))

    # slant geometry: own pierce point
    def slant(lat, lon, az, el):
        p, s = lat*D, lon*D
        rp = RE/(RE+HI)*math.cos(el*D)
        a = math.pi/2-el*D-math.asin(rp)
        # unit vectors: rotate the zenith by angle a towards azimuth az
        u = (math.cos(p)*math.cos(s), math.cos(p)*math.sin(s), math.sin(p))
        n = (-math.sin(p)*math.cos(s), -math.sin(p)*math.sin(s), math.cos(p))
        e = (-math.sin(s), math.cos(s), 0)
        q = [u[k]*math.cos(a)+math.sin(a)*(n[k]*math.cos(az*D) +
                                           e[k]*math.sin(az*D))
             for k in range(3)]
        la, lo = math.asin(q[2])/D, math.atan2(q[1], q[0])/D
        if not -75 < la < 75:
            return 'polar'
        c, x, y = cell(la, lo)
        if min(x % 1, 1-x % 1, y % 1, 1-y % 1) < 1e-6:
            return 'edge'
        z = interp([vd(k)*.125 for k in c], x, y)
        cmp(evaluate(cs, lat, lon, el, az), z/math.sqrt(1-rp**2),
            f'{lat},{lon} az={az} el={el}')
        return 'in'
    for lat in (-66.1, -40.3, -3.3, 0.4, 12.7, 36.1, 54.2, 64.8):
        for lon in (-179.3, -100.2, -0.6, 2.3, 139.7, 176.4, 179.9):
            for az in range(0, 360, 15):
                for el in (5, 15, 30, 60, 85):
                    ck.case('slant', (lat, lon, az, el), slant, lat, lon,
                            az-180 if az > 180 and lat > 0 else az, el)

    def none():
        for h, el in ((50, 0.0), (50, -5.0), (-200, 45.0)):
            expect(evaluate(cs, 36, 140, el, 0, h) == 0.0, f'{h} {el}')
    ck.case('domain', 0, none)


# status of a corner: monitored, not monitored, not in the mask, don't use
M, N, X, U = 'MNXU'


def subset(lat, lon, d, st, extra):
    """ corner states; `extra`: neighbours outside the cell are monitored """
    c, _, _ = cell(lat+d*.5, lon+d*.5)
    pts = {}
    if extra:
        for a in range(-2, 4):
            for b in range(-2, 4):
                lo = (lon+d*b+180) % 360-180
                p = (lat+d*a, lo)
                if p in WHERE and p not in c:
                    pts[p] = (vd(p), 2)
    for p, s in zip(c, st):
        if s != X:
            pts[p] = (511 if s == U else vd(p), 15 if s == N else
                      (0 if p[0] % 2 else 5))
    cs = load(pts, bands=[WHERE[p][0] for p in c])
    for fx, fy in FR:
        la, lo = lat+d*fy, lon+d*fx
        _, x, y = cell(la, lo)
        z = [vd(p)*.125 if s == M else None for p, s in zip(c, st)]
        got = evaluate(cs, la, lo)
        if U in st and got == 0.0:
            continue
        if abs(x-y) < 1e-9 or abs(x+y-1) < 1e-9:
            w = interp(z, x, y)
            if w is None or (None in z and got == 0.0):
                continue
        cmp(got, interp(z, x, y), f'{la},{lo} corners {"".join(st)}')


def subsets(ck):
    cells = [(lat, lon, 5) for lat in (-55, -30, -5, 0, 35, 50)
             for lon in (-180, -145, -5, 0, 15, 135, 140, 175)]
    cells += [(lat, lon, 10) for lat in (-75, -65, 55, 65)
              for lon in (-180, -150, -10, 0, 130, 170)]
    items = []
    for c in cells:
        for st in itertools.product(M+N+X, repeat=4):
            items.append((c, st, True))
            if ck.thorough or st.count(M) >= 2:
                items.append((c, st, False))
        for k in range(4):
            for o in (M, N):
                st = [M]*4
                st[k] = U
                st[(k+1) % 4] = o
                items.append((c, tuple(st), True))

    def one(ctx, it):
        (lat, lon, d), st, ex = it
        ctx.case('corners', it, subset, lat, lon, d, st, ex, steps=len(FR))
    ck.pmap('corners', items, one)


def givei(ck):
    """ every indicator and boundary delay """
    def one(g, v):
        c, _, _ = cell(37.0, 142.0)
        pts = {p: (vd(p), 3) for p in c}
        for k in range(4):
            q = dict(pts)
            q[c[k]] = (v, g)
            cs = load(q)
            z = [q[p][0]*.125 if q[p][1] < 15 and q[p][0] < 511 else None
                 for p in c]
            for fx, fy in FR[:4]:
                lat, lon = 35+5*fy, 140+5*fx
                got = evaluate(cs, lat, lon)
                if v == 511 and got == 0.0:
                    continue
                cmp(got, interp(z, fx, fy), f'GIVEI {g} delay {v} at {k}')
    for g in range(16):
        for v in (0, 1, 100, 255, 256, 510, 511):
            ck.case('givei', (g, v), one, g, v, steps=16)


def renew(ck):
    """ value of one corner replaced again and again """
    VG = [(40, 3), (210, 9), (511, 5), (120, 15), (511, 15), (0, 0)]

    def one(k, seq):
        c, _, _ = cell(37.0, 142.0)
        q = {p: (vd(p), 3) for p in c}
        cs = load(q)
        for a in seq:
            q[c[k]] = VG[a]
            bb = {}
            for p in sorted(q, key=lambda p: WHERE[p]):
                bb.setdefault(WHERE[p][0], []).append(q[p])
            for b in bb:
                send(cs, 26, m26(b, 0, bb[b], 1))
            z = [q[p][0]*.125 if q[p][1] < 15 and q[p][0] < 511 else None
                 for p in c]
            for fx, fy in FR[:5]:
                lat, lon = 35+5*fy, 140+5*fx
                got = evaluate(cs, lat, lon)
                if VG[a][0] == 511 and got == 0.0:
                    continue
                if None in z and min(abs(fx-fy), abs(fx+fy-1)) < 1e-9:
                    continue
                cmp(got, interp(z, fx, fy), f'after {seq} at {k}')
    for n in (1, 2, 3):
        for k in range(4):
            for seq in itertools.product(range(len(VG)), repeat=n):
                ck.case('renew', (k, seq), one, k, seq, steps=5*n)


def blocks(ck):
    """ masks of every size class: the delay of each position """
    def one(band, pts):
        q = {p: (vd(p), 4) for p in pts}
        cs = load(q)
        for p in pts:
            lat, lon = p[0]+.5, p[1]+.8
            c, x, y = cell(lat, lon)
            z = [vd(k)*.125 if k in q else None for k in c]
            cmp(evaluate(cs, lat, lon), interp(z, x, y), f'{p}')
    for band in range(9):
        t = [p for p in TAB[band] if abs(p[0]) < 75]
        for nm, sel in (('all', t), ('lo', t[:31]), ('hi', t[-46:]),
                        ('mid', t[60:105]), ('gap', [
                            p for k, p in enumerate(t) if k % 7 != 3])):
            ck.case('blocks', (band, nm), one, band, sel, steps=len(sel))


# --- histories --------------------------------------------------------------
PA = [(30, 140), (35, 140), (40, 140), (30, 145), (35, 145), (40, 145)]
PB = [(25, 140), (30, 140), (35, 140), (30, 145), (35, 145), (40, 145),
      (45, 145)]
PC = [(30, 100), (35, 100), (30, 105), (35, 105)]
PD = [(35, 100), (40, 100), (35, 105), (40, 105)]
EV = [('m', 8, PA, 0), ('m', 8, PB, 1), ('m', 8, PB, 0), ('d', 8, 0, 3),
      ('d', 8, 1, 5), ('m', 7, PC, 0), ('m', 7, PD, 1), ('d', 7, 0, 7),
      ('d', 7, 1, 9)]
POS = [(31.2, 142.0), (33.9, 143.2), (36.5, 141.0), (38.3, 144.0),
       (28.0, 141.0), (31.0, 102.0), (34.5, 104.0), (38.0, 101.0)]


def hist(h):
    cs = new()
    mask, iod, val, last = {}, {}, {}, None
    for e in h:
        k = EV[e]
        if k[0] == 'm':
            ps = sorted(k[2], key=lambda p: WHERE[p][1])
            send(cs, 18, m18(k[1], ps, k[3]))
            if mask.get(k[1]) != ps or iod.get(k[1]) != k[3]:
                val = {p: v for p, v in val.items() if WHERE[p][0] != k[1]}
            mask[k[1]], iod[k[1]], last = ps, k[3], k[3]
        else:
            b, iodi, sd = k[1:]
            if iod.get(b) == iodi and last != iodi:
                return 'open'       # band not updated yet: not specified
            vals = [((sd*29+j*17) % 300+10, 2) for j in range(15)]
            send(cs, 26, m26(b, 0, vals, iodi))
            if iod.get(b) == iodi:
                for p, v in zip(mask[b], vals):
                    val[p] = v[0]*.125
        for lat, lon in POS:
            c, x, y = cell(lat, lon)
            z = [val.get(p) for p in c]
            w = interp(z, x, y)
            got = evaluate(cs, lat, lon)
            if got == 0.0 and iod.get(WHERE[c[0]][0]) != last:
                continue            # waiting for the new mask of the band
            cmp(got, w, f'{lat},{lon} after {h}')
    return repr(sorted(val.items()))


def histories(ck):
    depth = 6 if ck.thorough else 5

    def one(c, h):
        c.case('history', h, hist, h, steps=len(h)*len(POS))
    hs = [h for n in range(1, depth) for h in itertools.product(range(9),
                                                                repeat=n)]
    hs += [h for h in itertools.product(range(5), repeat=depth)]
    ck.pmap('history', hs, one)
    ck.bound(history_depth=depth, events=len(EV))


def run(ck):
    full(ck)
    givei(ck)
    renew(ck)
    blocks(ck)
    subsets(ck)
    histories(ck)
