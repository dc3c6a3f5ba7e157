""" C39 regional SSR grid, troposphere and STEC messages """
import io
import itertools
import math
import numpy as np
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.gnss import uGNSS, prn2sat
from mc.core import expect
from mc.rtcmenc import new, frame, gt, secs, LEAP

G, R, E, J, B = uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.QZS, uGNSS.BDS
SYS = [G, R, E, B, J]           # message types 96..100
NSV = {G: 32, R: 24, E: 36, J: 10, B: 63}
WEEK = 2300
TOW = 345600+43200
NOW = WEEK*604800+TOW
DT = [('nid', 'i4'), ('gid', 'i4'), ('lat', 'f8'), ('lon', 'f8'),
      ('alt', 'f8')]
HEAD = dict(udi=5, mi=1, iod=9, pid=260, sid=3)


def satno(sys, sv):
    return prn2sat(sys, sv+(192 if sys == J else 0))


def decoder(log=False):
    d = rtcm()
    d.week = WEEK
    d.time = gt(NOW)
    d.monlevel = 2 if log else 0
    if log:
        d.fh = io.StringIO()
    return d


def encoder():
    e = rtcme()
    e.lc = rtcm().lc        # corrections to be sent
    e.week = WEEK
    e.tow = TOW
    e.mi = True
    e.pid, e.sid, e.iodssr = 260, 3, 9
    e.udi[:] = 5
    return e


def feed(d, w, what):
    m = frame(w)
    d.dlen = len(m)+3
    i = d.decode(m+b'\0\0\0')[0]
    expect(i == 24+w.n, lambda: '%s: %s bits consumed of %d' % (
        what, None if i is None else i-24, w.n))
    if d.monlevel > 1:
        expect(str(d.msgtype) in d.fh.getvalue(), f'{what}: not in the log')


def near(a, v, tol, what):
    if v is None or a is None:
        expect(a is v, lambda: f'{what}: {a} instead of {v}')
    elif isinstance(v, float) and math.isnan(v):
        expect(math.isnan(a), lambda: f'{what}: {a} instead of nan')
    else:
        expect(abs(a-v) <= tol, lambda: f'{what}: {a} instead of {v}')


def head(mt, tow=TOW):
    w = new(mt)
    if mt == 97:
        w.u(17, (tow-LEAP+10800) % 86400)
    else:
        w.u(20, tow)
    w.u(4, HEAD['udi'])
    w.u(1, HEAD['mi'])
    w.u(4, HEAD['iod'])
    w.u(16, HEAD['pid'])
    w.u(4, HEAD['sid'])
    return w


def common(d, gid, what):
    near(secs(d.time), NOW, 1e-6, f'{what}: time')
    for a, v in (('pid', 260), ('sid', 3), ('iodssr', 9), ('gid', gid)):
        expect(getattr(d, a) == v, lambda: f'{what}: {a}={getattr(d, a)}')


# ---------------------------------------------------------------- grid

def w61(gid, gtype, ref, ofst, pts):
    w = new(61)
    w.u(16, 260)
    w.u(1, 1)
    w.u(10, gid)
    w.u(3, gtype)
    w.s(18, ref[0])
    w.s(19, ref[1])
    if gtype == 0:
        w.u(10, ref[2])
    w.u(12, ofst)
    w.u(8, len(pts))
    for p in pts:
        w.s(13, p[0])
        w.s(14, p[1])
        if gtype == 0:
            w.s(9, p[2])
    return w


def points(gtype, ref, pts):
    """ absolute positions: each point is relative to the one before """
    a, b, c = ref
    out = [(a, b, c)]
    for p in pts:
        a, b, c = a+p[0], b+p[1], c+p[2]
        out.append((a, b, c))
    return [(x*1e-3, y*1e-3, z*12.5-1000 if gtype == 0 else 0.0)
            for x, y, z in out]


def c_grid(gid, gtype, ref, ofst, pts, log):
    d = decoder(log)
    feed(d, w61(gid, gtype, ref, ofst, pts), 'grid')
    exp = points(gtype, ref, pts)
    expect(len(d.grid) == len(exp), lambda: f'{len(d.grid)} grid points')
    expect(d.pid == 260 and d.gid == gid and d.gtype == gtype, 'grid head')
    for k, v in enumerate(exp):
        g = d.grid[k]
        expect(g['nid'] == gid, lambda: f'network {g["nid"]}')
        expect(g['gid'] == ofst+k, lambda: f'point {k} numbered {g["gid"]}')
        for n, x in zip(('lat', 'lon', 'alt'), v):
            near(g[n], x, 1e-6, f'point {k} {n}')


def mkgrid(gid, ofst, pos, other=None):
    r = [(gid, ofst+k)+tuple(p) for k, p in enumerate(pos)]
    if other is not None:
        r = [(other, 1, 1., 2., 3.)]+r+[(other, 2, 4., 5., 6.)]
    return np.array(r, dtype=DT)


def c_egrid(gid, gtype, pos, ofst, other):
    e = encoder()
    e.msgtype = 61
    e.gid, e.gtype, e.ofst = gid, gtype, ofst
    e.grid = mkgrid(gid, ofst, pos, other)
    m = bytearray(2000)
    n = e.encode(m)
    exp = 24+12+30+(67 if gtype == 0 else 57) + \
        (len(pos)-1)*(36 if gtype == 0 else 27)
    expect(n == exp, lambda: f'{n} bits instead of {exp}')
    e.set_sync(m, 0)
    ln = (n+7)//8-3
    e.set_len(m, 0, ln)
    d = decoder()
    d.dlen = ln+6
    d.decode(bytes(m[:ln+6]))
    expect(len(d.grid) == len(pos), 'number of points')
    for k, p in enumerate(pos):
        g = d.grid[k]
        expect(g['nid'] == gid and g['gid'] == ofst+k,
               lambda: f'point {k}: {g}')
        near(g['lat'], p[0], .5001e-3, f'point {k} latitude')
        near(g['lon'], p[1], .5001e-3, f'point {k} longitude')
        if gtype == 0:
            near(g['alt'], p[2], 6.2501, f'point {k} height')


# ---------------------------------------------------------------- troposphere

TROP = [('ah', 11, 2.5e-7, .00118), ('bh', 9, 5e-6, .00298),
        ('ch', 9, 2e-4, .0682), ('aw', 13, 1e-6, .000104),
        ('bw', 6, 2.5e-5, .0015), ('cw', 5, 2e-3, .048),
        ('h00', 13, 1e-4, 2.3), ('h10', 15, 1e-5, 0), ('h01', 15, 1e-5, 0),
        ('w00', 13, 1e-4, .252), ('w10', 15, 1e-5, 0), ('w01', 15, 1e-5, 0)]


def w95(gid, raw, res):
    w = head(95)
    w.u(10, gid)
    w.u(1, res is not None)
    for (n, b, _, _), v in zip(TROP, raw):
        w.s(b, v)
    if res is not None:
        ofst, n, m, rh, rw = res
        w.u(12, ofst)
        w.u(12, len(rh))
        w.u(4, n)
        w.u(4, m)
        for h, v in zip(rh, rw):
            if n:
                w.s(n, h)
            if m:
                w.s(m, v)
    return w


def tropget(lc, n):
    if n[0] in 'abc':
        return (lc.maph if n[1] == 'h' else lc.mapw)['abc'.index(n[0])]
    return lc.ct[0 if n[0] == 'h' else 1, {'00': 0, '01': 1, '10': 2}[n[1:]]]


def sv(v, b, scl):
    return math.nan if v == -(1 << (b-1)) else v*scl


def jtrop(d, gid, raw, res):
    lc = d.lc[gid]
    for (n, b, s, o), v in zip(TROP, raw):
        near(tropget(lc, n), sv(v, b, s)+o, s*1e-3, n)
    ofst, n, m, rh, rw = res or (0, 0, 0, [], [])
    for a, nb, r in ((lc.dth, n, rh), (lc.dtw, m, rw)):
        if not nb:
            expect(a is None, lambda: f'residuals {a}')
            continue
        expect(lc.ng == len(rh) and lc.ofst == ofst, 'number of residuals')
        for k, v in enumerate(r):
            near(a[ofst+k], sv(v, nb, 1e-4), 1e-7, f'residual {ofst+k}')


def c_trop(gid, raw, res, log):
    d = decoder(log)
    feed(d, w95(gid, raw, res), 'trop')
    common(d, gid, 'trop')
    jtrop(d, gid, raw, res)


def c_trop2(a, b):
    """ the message counts, not the one before """
    d = decoder()
    for x in (a, b):
        feed(d, w95(*x), 'trop')
        jtrop(d, *x)
    if a[0] != b[0]:
        jtrop(d, *a)


def c_etrop(gid, raw, fr, res):
    """ raw+fr: value in units of the resolution """
    e = encoder()
    e.msgtype = 95
    e.gid = gid
    lc = e.lc[gid]
    v = {n: (r+fr)*s+o for (n, b, s, o), r in zip(TROP, raw)}
    lc.maph = np.array([v['ah'], v['bh'], v['ch']])
    lc.mapw = np.array([v['aw'], v['bw'], v['cw']])
    lc.ct = np.array([[v['h00'], v['h01'], v['h10'], 0],
                      [v['w00'], v['w01'], v['w10'], 0]])
    lc.flg_trop = 2
    if res is not None:
        lc.flg_trop = 3
        ofst, n, m, rh, rw = res
        lc.ofst, lc.ng = ofst, len(rh)
        e.nlen, e.mlen = n, m
        if n:
            lc.dth = np.array([77.]*ofst+[(x+fr)*1e-4 for x in rh])
        if m:
            lc.dtw = np.array([77.]*ofst+[(x+fr)*1e-4 for x in rw])
    buf = bytearray(2000)
    i = e.encode(buf)
    w = w95(gid, raw, res)
    expect(i == 24+w.n, lambda: f'{i} bits instead of {24+w.n}')
    expect(bytes(buf[3:(i+7)//8]) == frame(w)[3:], 'encoded trop differs')


# ---------------------------------------------------------------- ionosphere

def wiono(sys, gid, ci, res, tow=TOW):
    """ ci: {sv: (c00, c01, c10)} or {sv: (c00,)}; res: (ofst, rlen, sf,
    {sv: [..]}), None: absent """
    w = head(96+SYS.index(sys), tow)
    w.u(10, gid)
    w.u(1, ci is not None)
    w.u(1, res is not None)
    svs = sorted(ci if ci is not None else res[3])
    w.mask(64, [s-1 for s in svs])
    if ci is not None:
        pgi = any(len(c) > 1 for c in ci.values())
        w.u(1, pgi)
        for s in svs:
            w.s(17, ci[s][0])
            if pgi:
                w.s(18, ci[s][1])
                w.s(18, ci[s][2])
    if res is not None:
        ofst, rlen, sf, r = res
        w.u(12, ofst)
        w.u(12, len(r[svs[0]]) if svs else 2)
        w.u(5, rlen)
        if rlen:
            w.u(3, sf)
            for s in svs:
                for x in r[s]:
                    w.s(rlen, x)
    return w


def jiono(d, sys, gid, ci, res, only=True):
    lc = d.lc[gid]

    def mine(x):
        return sorted(s for s in x if s in
                      {satno(sys, k) for k in range(1, NSV[sys]+1)})
    if ci is not None:
        expect(mine(lc.ci) == sorted(satno(sys, s) for s in ci),
               lambda: f'coefficients for {mine(lc.ci)}')
        for s, c in ci.items():
            a = lc.ci[satno(sys, s)]
            for k, x in enumerate(c):
                b, scl = ((17, .01), (18, 1e-3), (18, 1e-3))[k]
                near(a[k], sv(x, b, scl), 1e-6, f'sv {s} c{k}')
            expect((lc.stype[satno(sys, s)] > 0) == (len(c) > 1), 'type')
    if res is not None:
        ofst, rlen, sf, r = res
        expect(mine(lc.dstec) == sorted(satno(sys, s) for s in r),
               lambda: f'residuals for {mine(lc.dstec)}')
        for s, v in r.items():
            a = lc.dstec[satno(sys, s)]
            for k, x in enumerate(v):
                near(a[ofst+k], sv(x, rlen, 1e-3*2**sf) if rlen else 0.0,
                     1e-6, f'sv {s} residual {ofst+k}')
        if only:
            expect(lc.ofst == ofst, 'offset')
            expect(not r or lc.ng == len(next(iter(r.values()))), 'number')


def c_iono(sys, gid, ci, res, log):
    d = decoder(log)
    feed(d, wiono(sys, gid, ci, res), 'stec')
    common(d, gid, 'stec')
    svs = sorted(ci if ci is not None else res[3])
    expect(list(d.lc[gid].sat_n) == [satno(sys, s) for s in svs],
           lambda: f'satellites {d.lc[gid].sat_n}')
    jiono(d, sys, gid, ci, res)


def c_ionohist(seq):
    """ one message per constellation and grid; the last of each counts """
    d = decoder()
    last = {}
    for m in seq:
        feed(d, wiono(*m), 'stec')
        c, r = last.get(m[:2], (None, None))
        last[m[:2]] = (c if m[2] is None else m[2], r if m[3] is None
                       else m[3])
        for (s, gid), (c, r) in last.items():
            jiono(d, s, gid, c, r, False)


def c_eiono(sys, gid, svs, six, fr, ofst, ng, others, flg, pgi=True):
    """ svs in storage order; total delay at each grid point survives """
    e = encoder()
    e.msgtype = 96+SYS.index(sys)
    e.gid = gid
    lc = e.lc[gid]
    lc.flg_stec = flg
    lc.ci, lc.stype, lc.dstec = {}, {}, {}
    pos = [(35.+.3*(k % 3), 139.-.4*(k//3), 30.) for k in range(ofst+ng)]
    e.grid = mkgrid(gid, 1, pos or [(35., 139., 30.)], 31)
    lc.ng, lc.ofst = ng, ofst
    for o in others:
        s = satno(o, 2)
        lc.ci[s], lc.stype[s] = np.array([9., 9., 9., 0, 0, 0]), 1
        lc.dstec[s] = np.ones(ofst+ng)
    src, raw = {}, {}
    for j, s in enumerate(svs):
        sat = satno(sys, s)
        c = [((7*s-90)+fr)*.01, (13*s-200+fr)*1e-3, (77-5*s+fr)*1e-3]
        q = {0: [], 1: [0, 0, 0], 2: [.31, 0, 0], 3: [0, .11, -.27],
             4: [-.2, .13, .17]}[six]
        if not pgi:
            c[1] = c[2] = 0.
        lc.ci[sat] = np.array(c+q)
        lc.stype[sat] = 1 if pgi else 0
        r = [((-1)**k*(11*s+k)+fr)*2e-3 for k in range(ofst+ng)]
        lc.dstec[sat] = np.array(r)
        quad = []
        for p in pos:
            a, b = p[0]-pos[0][0], p[1]-pos[0][1]
            quad.append(sum(x*y for x, y in zip(q, (a*b, a*a, b*b))))
        src[s] = (c, [x+y for x, y in zip(r, quad)])
    buf = bytearray(4000)
    i = e.encode(buf)
    sz = 12+49+(17 if sys == R else 20)-20+76
    if flg & 2:
        sz += 1+len(svs)*(53 if pgi and svs else 17)
    if flg & 1:
        sz += 29+3+18*ng*len(svs)
    expect(i == 24+sz, lambda: f'{i} bits instead of {24+sz}')
    e.set_sync(buf, 0)
    ln = (i+7)//8-3
    d = decoder()
    d.dlen = ln+6
    n = d.decode(bytes(buf[:ln+6]))[0]
    expect(n == i, lambda: f'{n} bits decoded of {i}')
    common(d, gid, 'stec')
    dl = d.lc[gid]
    expect(list(dl.sat_n) == sorted(satno(sys, s) for s in svs), 'satellites')
    for s in svs:
        sat = satno(sys, s)
        c, r = src[s]
        if flg & 2:
            for k in range(3 if pgi else 1):
                near(dl.ci[sat][k], c[k], (.00501, .000501, .000501)[k],
                     f'sv {s} c{k}')
        if flg & 1:
            for k in range(ofst, ofst+ng):
                near(dl.dstec[sat][k], r[k], .001001, f'sv {s} point {k}')


# ---------------------------------------------------------------- cases

def ends(b):
    m = 1 << (b-1)
    return [-m+1, -1, 0, 1, m-1]


def run(ck):
    th = ck.thorough
    GID = [0, 1, 2, 31, 32, 33, 64, 512, 1023]
    grid = []
    for gt_ in (0, 1):
        for n in list(range(6))+[17, 64]+([128, 200] if th else []):
            for ofst in (0, 1, 2, 100, 4095-n):
                pts = [((k*37) % 800-400, 399-(k*53) % 800, (k*7) % 30-15)
                       for k in range(n)]
                grid.append((5, gt_, (35123, 139456, 82), ofst, pts,
                             n <= 5))
        for gid in GID:
            grid.append((gid, gt_, (-35123, -139456, 0), 1, [(1, 2, 3)],
                         True))
        for a in [-90000, -1, 0, 1, 90000, 131071]:
            for o in [-180000, -1, 0, 1, 180000, 262143]:
                for h in [0, 1, 80, 511, 512, 513, 1023]:
                    grid.append((3, gt_, (a, o, h), 1, [], False))
        one = list(itertools.product(ends(13), ends(14), ends(9)))
        for p in one:
            grid.append((3, gt_, (100, -200, 300), 1, [p], False))
            grid.append((3, gt_, (100, -200, 300), 1, [p, (-5, 9, 2)], False))
    ck.pmap('grid messages', grid, lambda c, x: c.case('grid', x, c_grid, *x))

    eg = []
    st = [-1.2346, -.0007, 0., .0004, .2549]
    for gt_ in (0, 1):
        for b in ((35.12345, 139.45678, 35.), (-35.1239, -139.4567, -6.),
                  (.0004, -.0006, 0.), (-.0004, .0006, 4000.)):
            for q in itertools.product(st, repeat=3 if th else 2):
                for r in itertools.product(st, repeat=2):
                    pos = [b]
                    for k, (x, y) in enumerate(itertools.zip_longest(
                            q, r, fillvalue=.1235)):
                        pos.append((pos[-1][0]+x, pos[-1][1]+y,
                                    pos[-1][2]+(6.1, -6.2, 40.)[k]))
                    eg.append((3, gt_, pos, 1, None))
        for n in (1, 2, 20, 60):
            # steps below the resolution
            pos = [(35+.0004*k, 139-.0004*k, 100+6.*k) for k in range(n)]
            for gid in (0, 1, 32):
                for ofst in (0, 1, 40):
                    eg.append((gid, gt_, pos, ofst, 7))
    ck.pmap('grid encoder', eg, lambda c, x: c.case('egrid', x, c_egrid, *x))

    mid = [3+2*k for k in range(len(TROP))]
    mid[5] = -3
    trop = []
    pats = [mid, [-x for x in mid], [0]*12,
            [(1 << (b-1))-1 for _, b, _, _ in TROP],
            [1-(1 << (b-1)) for _, b, _, _ in TROP]]
    for k, (_, b, _, _) in enumerate(TROP):
        for v in ends(b)+[-(1 << (b-1))]:
            pats.append(mid[:k]+[v]+mid[k+1:])
    RES = [None]
    for n in range(16):
        for m in range(16):
            for ofst, ng in ((0, 1), (1, 3), (5, 2), (0, 0)):
                if (ofst, ng) != (1, 3) and not th and n not in (0, 1, 8, 15):
                    continue
                f = [[0]*ng if not b else
                     [(k*5+1) % (1 << (b-1)) if k % 2 == 0 else
                      -((k*5+1) % (1 << (b-1))) if b > 1 else 0
                      for k in range(ng)] for b in (n, m)]
                RES.append((ofst, n, m, f[0], f[1]))
    big = (2, 14, 15, [8191, -8191, -8192, 0], [16383, -16383, 1, -16384])
    for p in pats:
        trop.append((4, p, None, False))
        trop.append((4, p, big, False))
    for r in RES:
        trop.append((4, mid, r, True))
    for gid in GID:
        trop.append((gid, mid, None, True))
        trop.append((gid, mid, big, True))
    ck.pmap('troposphere messages', trop,
            lambda c, x: c.case('trop', x, c_trop, *x))
    ck.pmap('troposphere sequences', [
        (a, b) for a, b in itertools.product(
            [(g_, p, r) for g_ in (1, 2) for p in pats[:2] for r in
             (None, big, (0, 0, 7, [0]*2, [5, -6]), (1, 6, 0, [9], [0]))],
            repeat=2)], lambda c, x: c.case('trop2', x, c_trop2, *x))
    et = []
    ok = [p for p in pats if all(v > -(1 << (b-1)) for v, (_, b, _, _) in
                                 zip(p, TROP))]
    full = (2, 14, 15, [8190, -8190, 3, 0], [16382, -16382, 1, -1])
    for fr in (0, .4, -.4):
        for p in ok:
            et.append((4, p, fr, None))
            et.append((4, p, fr, full))
        for r in RES:
            et.append((4, mid, fr, r))
        for gid in (0, 1, 32):
            et.append((gid, mid, fr, full))
    ck.pmap('troposphere encoder', et,
            lambda c, x: c.case('etrop', x, c_etrop, *x))

    ion = []
    c3 = [(101, -202, 303), (-7, 8, -9), (65535, 131071, -131071)]

    def mk(svs, n, rl, k=0):
        m = (1 << (rl-1))-1 if rl > 1 else 0
        return ({s: c3[(j+k) % 3] for j, s in enumerate(svs)},
                {s: [max(-m, min(m, (1+j+i)*(-1)**i)) for i in range(n)]
                 for j, s in enumerate(svs)})
    for s in SYS:
        lists = [[], [1], [2], [NSV[s]], [1, 2], [1, NSV[s]], [3, 4, 9],
                 list(range(1, NSV[s]+1))]
        if th:
            lists += [list(x) for x in itertools.combinations(
                [1, 2, 5, NSV[s]-1, NSV[s]], 3)]
        lists += [[k] for k in range(3, NSV[s])]
        for sl in lists:
            c, r = mk(sl, 3, 12)
            c0 = {k: v[:1] for k, v in c.items()}
            for ci in (c, c0, None):
                for re in ((1, 12, 2, r), None):
                    if ci is None and re is None:
                        continue
                    ion.append((s, 6, ci, re, True))
        for gid in GID:
            c, r = mk([2, 5], 2, 8)
            ion.append((s, gid, c, (0, 8, 0, r), True))
        for rl in range(32):
            for sf in range(8):
                c, r = mk([2, 7], 3, rl, sf)
                ion.append((s, 6, c, (sf, rl, sf, r), False))
                ion.append((s, 6, None, (0, rl, sf, r), False))
        for k, b in enumerate((17, 18, 18)):
            for v in ends(b)+[-(1 << (b-1))]:
                x = [5, -6, 7]
                x[k] = v
                ion.append((s, 6, {3: tuple(x), 4: (1, 2, 3)}, None, False))
        for n in (0, 1, 2, 9, 60):
            for ofst in (0, 1, 30, 4095-n):
                c, r = mk([2, 5], n, 18)
                ion.append((s, 6, c, (ofst, 18, 1, r), n == 2))
    ck.pmap('stec messages', ion, lambda c, x: c.case('iono', x, c_iono, *x))

    ms = []
    for s in SYS if th else (G, R, J):
        for gid in (1, 2):
            for k, sl in enumerate(([2, 5], [5, 9])):
                c, r = mk(sl, 2, 9, k)
                ms.append((s, gid, c, (k, 9, k, r)))
        ms.append((s, 1, {k: v[:1] for k, v in c.items()}, None))
    ck.pmap('stec histories', [tuple(x) for n in (2, 3) for x in
                               itertools.product(ms, repeat=n)],
            lambda c, x: c.case('ionohist', x, c_ionohist, x))

    ei = []
    for s in SYS:
        for svs in [p for n in range(4) for p in
                    itertools.permutations([1, 4, NSV[s]], n)]:
            for six in range(5):
                for fr in (0, .4, -.4):
                    for flg in (1, 2, 3):
                        ei.append((s, 3, svs, six, fr, 1, 4,
                                   [o for o in SYS if o != s][:2], flg))
            ei.append((s, 3, svs, 1, .3, 1, 4, [], 3, False))
        for gid in (0, 1, 30, 32):
            for ofst, ng in ((0, 1), (0, 9), (3, 2), (2, 0)):
                ei.append((s, gid, (3, 1), 4, .2, ofst, ng, [], 3))
    ck.pmap('stec encoder', ei, lambda c, x: c.case('eiono', x, c_eiono, *x))
    ck.bound(grid_points=200 if th else 64, residual_bits='0..31',
             grid_ids=len(GID), history=3, systems=5)
