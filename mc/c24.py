"""C24: precise orbits and clocks are interpolated only from valid data.

Explicit-state enumeration of products (node missing patterns x query
instants, satellite lists, file variants, write/read histories), executed on
the real reader, interpolator and writer.  Oracle: an analytic Kepler orbit
and a linear clock sampled at the nodes by this file's own SP3 / clock RINEX
writers.
"""
import datetime
import itertools
import math
import os
import tempfile

import numpy as np

from mc.core import expect

from cssrlib.gnss import Nav, gtime_t, timeadd, timediff, id2sat, sat2id, rCST
from cssrlib.peph import peph, peph_t
from cssrlib.rinex import rnxdec

C = 299792458.0
OMG = 7.2921151467e-5
GM = 3.986004415e14
UNIX0 = datetime.datetime(1970, 1, 1)
T0 = datetime.datetime(2021, 9, 22, 20, 0, 0)
EXT = 900.0      # documented extrapolation limit beyond the span [s]


class Orbit:
    """ analytic orbit in ECEF (two-body motion, uniform Earth rotation) """

    def __init__(self, k):
        self.k = k
        typ = k % 4
        self.a = (26560e3, 29600e3, 25508e3, 42164e3)[typ]
        self.e = (0.01, 0.0002, 0.002, 0.07)[typ]
        self.inc = (0.96, 0.98, 1.13, 0.70)[typ]
        self.raan = 0.7*k
        self.w = 0.3*k+0.1
        self.M0 = 1.1*k
        self.c0 = (1e-4, -3.3e-4, 7.5e-6, 0.0)[typ]+k*1e-6*(typ != 3)
        self.c1 = (2e-10, -4e-11, 1e-9, -7e-10)[typ]

    def kep(self, s):
        n = math.sqrt(GM/self.a**3)
        M = self.M0+n*s
        E = M
        for _ in range(50):
            E = E-(E-self.e*math.sin(E)-M)/(1-self.e*math.cos(E))
        f = math.sqrt(1-self.e**2)
        cE, sE = math.cos(E), math.sin(E)
        x = np.array([self.a*(cE-self.e), self.a*f*sE])
        Ed = n/(1-self.e*cE)
        v = np.array([-self.a*sE*Ed, self.a*f*cE*Ed])
        return x, v

    def state(self, s):
        x, v = self.kep(s)
        cw, sw = math.cos(self.w), math.sin(self.w)
        ci, si = math.cos(self.inc), math.sin(self.inc)
        L = self.raan-OMG*s
        cO, sO = math.cos(L), math.sin(L)
        P = np.array([[cO*cw-sO*sw*ci, -cO*sw-sO*cw*ci],
                      [sO*cw+cO*sw*ci, -sO*sw+cO*cw*ci],
                      [sw*si, cw*si]])
        r = P@x
        vi = P@v
        vr = vi+OMG*np.array([r[1], -r[0], 0.0])
        return r, vr

    def clk(self, s):
        return self.c0+self.c1*s


_ORB = {}


def orbit(k):
    if k not in _ORB:
        _ORB[k] = Orbit(k)
    return _ORB[k]


def gt(dt):
    d = dt-UNIX0
    t = gtime_t(d.days*86400+d.seconds, d.microseconds*1e-6)
    return t


def sp3text(sats, nep, step, t0=T0, miss=(), ver='d', flag='P', ep=False,
            comments=4, std=False, flags=None, eof=True, extra=(), k0=0,
            off=0.0, short=False):
    """ SP3 text; miss: {(satindex, epochindex): 'p'|'c'|'b'} """
    miss = dict(miss)
    o = []
    o.append("#%s%s%4d %2d %2d %2d %2d %11.8f %7d %5s %5s %3s %4s" %
             (ver, flag, t0.year, t0.month, t0.day, t0.hour, t0.minute,
              t0.second+t0.microsecond*1e-6, nep, 'd+D', 'IGb14', 'FIT',
              'TEST'))
    gps = t0-datetime.datetime(1980, 1, 6)
    o.append("## %4d %15.8f %14.8f %5d %15.13f" %
             (gps.days//7, gps.days % 7*86400+gps.seconds, step,
              44244+gps.days, gps.seconds/86400))
    ids = list(sats)+list(extra)
    nl = max(5, -(-len(ids)//17))
    pad = ids+['  0']*(nl*17-len(ids))
    for i in range(nl):
        o.append("+ %s   %s" % ('%4d' % len(ids) if i == 0 else '    ',
                                ''.join(pad[17*i:17*i+17])))
    for i in range(nl):
        o.append("++       %s" % ''.join(
            '%3d' % (5 if 17*i+j < len(ids) else 0) for j in range(17)))
    o.append("%c M  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    o.append("%c cc cc ccc ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc")
    o.append("%f  1.2500000  1.025000000  0.00000000000  0.000000000000000")
    o.append("%f  0.0000000  0.000000000  0.00000000000  0.000000000000000")
    o.append("%i    0    0    0    0      0      0      0      0         0")
    o.append("%i    0    0    0    0      0      0      0      0         0")
    for i in range(comments):
        o.append("/* comment %d PG01 EOF * ## ++" % i)
    for n in range(nep):
        t = t0+datetime.timedelta(seconds=step*n)
        o.append("*  %4d %2d %2d %2d %2d %11.8f" %
                 (t.year, t.month, t.day, t.hour, t.minute,
                  t.second+t.microsecond*1e-6))
        for i, sid in enumerate(ids):
            m = miss.get((i, n), '')
            if sid in extra:
                p, c = np.array([1e7, 2e7, 3e7]), 5e-4
                v = np.ones(3)
                cr = 0.0
            else:
                ob = orbit(k0+i)
                p, v = ob.state(off+step*n)
                c, cr = ob.clk(off+step*n), ob.c1
            if m in ('p', 'b'):
                p = np.zeros(3)
            cs = '%14.6f' % (c*1e6)
            if m in ('c', 'b'):
                cs = '%14.6f' % 999999.999999
            ln = "P%s%14.6f%14.6f%14.6f%s" % ((sid,)+tuple(p*1e-3)+(cs,))
            if std:
                ln += ' %2d %2d %2d %3d' % (5+i % 3, 6, 7, 80+i % 10) \
                    if m == '' else ' '*13
            if flags:
                ln = '%-74s' % ln + flags(i, n)
            if short:
                ln = ln.rstrip()
            o.append(ln)
            if ep:
                o.append("EP  %4d %4d %4d %7d %8d %8d %8d %8d %8d %8d" %
                         (55, 55, 55, 222, 1234567, -1234567, 5999999, -30,
                          21, -1230000))
            if flag == 'V':
                o.append("V%s%14.6f%14.6f%14.6f%14.6f" %
                         ((sid,)+tuple(v*10)+(cr*1e10 if m == ''
                                              else 999999.999999,)))
                if ep:
                    o.append("EV  %4d %4d %4d %7d %8d" %
                             (22, 22, 22, 111, 1234567))
    if eof:
        o.append('EOF')
    return '\n'.join(o)+'\n'


def clktext(sats, nep, step, t0=T0, miss=(), ver=3.0, nrec=2, k0=0, ar=True,
            off=0.0, extra=(), drift=0.0):
    miss = set(miss)
    o = []
    o.append("%9.2f           C                                       "
             "RINEX VERSION / TYPE" % ver)
    o.append("%-60sTIME SYSTEM ID" % "   GPS")
    o.append("%-60sEND OF HEADER" % "")
    w = 9 if ver >= 3.04 else 4
    for n in range(nep):
        t = t0+datetime.timedelta(seconds=step*n)
        ts = "%4d %02d %02d %02d %02d %9.6f" % (
            t.year, t.month, t.day, t.hour, t.minute,
            t.second+t.microsecond*1e-6)
        if ar:
            o.append("AR %-*s %s%3d   %19.12E" % (w, 'ZIMM', ts, 1, 1.5e-3))
        for i, sid in enumerate(list(sats)+list(extra)):
            if (i, n) in miss:
                continue
            c = 3.3e-3 if sid in extra else orbit(k0+i).clk(off+step*n)
            ln = "AS %-*s %s%3d   %19.12E" % (w, sid, ts, nrec, c+drift)
            if nrec >= 2:
                ln += " %19.12E" % 1.25e-11
            o.append(ln)
    return '\n'.join(o)+'\n'


class Files:
    def __enter__(self):
        self.d = tempfile.TemporaryDirectory(prefix='c24')
        self.n = 0
        return self

    def __exit__(self, *a):
        self.d.cleanup()

    def put(self, text):
        fn = self.name()
        with open(fn, 'w') as f:
            f.write(text)
        return fn

    def name(self):
        self.n += 1
        return os.path.join(self.d.name, 'f%d' % self.n)


def load(texts, clk=None, opt=0):
    nav = Nav()
    sp = peph()
    with Files() as fs:
        for tx in texts:
            nav = sp.parse_sp3(fs.put(tx), nav, opt)
        if clk is not None:
            for c in clk if isinstance(clk, (list, tuple)) else [clk]:
                nav = rnxdec().decode_clk(fs.put(c), nav)
    return sp, nav


def reported(x):
    return x is not None and not np.any(np.isnan(x))


def query(sp, nav, sat, s, t0=T0, tm=None):
    rs, dts, _ = sp.peph2pos(timeadd(gt(t0), s) if tm is None else tm,
                             sat, nav)
    if rs is None:
        return None, None
    rs = np.array(rs, float)
    p = rs if reported(rs[0:3]) else None
    d = None if dts is None or np.isnan(dts[0]) else np.array(dts, float)
    return p, d


def judge(sid, k, s, p, d, need_p, need_c, no_p=False, no_c=False, tol=0.05,
          tolc=3e-11, what='', lin=True):
    """ need: must be reported; no: must not be reported """
    w = '%s %s at %.6f s' % (what, sid, s)
    ob = orbit(k)
    expect(not (no_p and p is not None),
           lambda: '%s: position reported although data is missing or '
           'outside the span: %r' % (w, p))
    expect(not (no_c and d is not None),
           lambda: '%s: clock reported although data is missing or outside '
           'the span: %r' % (w, d))
    expect(not (need_p and p is None), lambda: '%s: no position' % w)
    expect(not (need_c and d is None), lambda: '%s: no clock' % w)
    r, v = ob.state(s)
    if p is not None:
        expect(np.max(np.abs(p[0:3]-r)) < tol,
               lambda: '%s: position %r, orbit %r' % (w, p[0:3], r))
        if tol < 0.1:
            expect(np.max(np.abs(p[3:6]-v)) < 0.02,
                   lambda: '%s: velocity %r, orbit %r' % (w, p[3:6], v))
    if d is not None and lin:
        rel = -2.0*(r@v)/C**2
        expect(abs(d[0]-rel-ob.clk(s)) < tolc,
               lambda: '%s: clock %r (without relativity %r), product %r'
               % (w, d[0], d[0]-rel, ob.clk(s)))


FR = (0.0, 1e-3, 0.25, 0.5, 0.75)


def instants(nep, step):
    q = []
    for n in range(nep):
        for f in FR:
            if n == nep-1 and f:
                continue
            q.append(n*step+(f if f == 1e-3 else f*step))
        if n:
            q.append(n*step-1e-3)
    return q


# ------------------------------------------------------------ complete span

def c_full(typ, nep, step, clkstep):
    sid = ('G07', 'E11', 'R03', 'J02')[typ]
    clk = None
    nc = 0
    if clkstep:
        nc = -int(-(nep-1)*step//clkstep)+1
        clk = clktext([sid], nc, clkstep, k0=typ)
    sp, nav = load([sp3text([sid], nep, step, k0=typ)], clk)
    sat = id2sat(sid)
    enough = nep >= 11
    for s in instants(nep, step):
        p, d = query(sp, nav, sat, s)
        judge(sid, typ, s, p, d, enough, enough)
    span = (nep-1)*step
    for s in (-1e-3, -1.0, -0.5*min(step, EXT), -min(step, EXT)+1):
        p, d = query(sp, nav, sat, s)
        judge(sid, typ, s, p, d, False, False, tol=5.0, lin=False)
        p, d = query(sp, nav, sat, span-s)
        judge(sid, typ, span-s, p, d, False, False, tol=5.0, lin=False)
    for s in (EXT+0.01, EXT+1, EXT+step, 7200.0, 43200.0, 86400.0-span,
              86400.0, 604800.0, 604800.0-span/2, 1024*604800.0):
        for q in (-s, span+s):
            if -EXT <= q <= span+EXT:
                continue
            p, d = query(sp, nav, sat, q)
            judge(sid, typ, q, p, d, False, False, True, True)
    # other satellites are not in the product
    for o in ('G08', 'G06', 'E12', 'C01', 'J03', 'I01', 'S20'):
        p, d = query(sp, nav, id2sat(o), span/2)
        judge(o, 0, span/2, p, d, False, False, True, True)


def c_clkspan(nc, k0s, step):
    """ clock file shorter than the orbit: clock only inside its span """
    sid = 'G05'
    off = k0s*step
    nep = 14
    t1 = T0+datetime.timedelta(seconds=off)
    sp, nav = load([sp3text([sid], nep, step)],
                   clktext([sid], nc, step, t0=t1, off=off))
    sat = id2sat(sid)
    c0, c1 = off, off+(nc-1)*step
    for s in instants(nep, step):
        p, d = query(sp, nav, sat, s)
        inside = c0 <= s <= c1
        out = s < c0-EXT-0.002 or s > c1+EXT+0.002
        if nc >= 2:
            judge(sid, 0, s, p, d, inside, inside, False, out, lin=inside)
        else:
            judge(sid, 0, s, p, d, False, False, lin=False)


# ------------------------------------------------------------ missing entries

def c_miss(nep, step, cells, clkmiss):
    """ cells: ((epoch, kind), ...) of the first of two satellites """
    sids = ['G09', 'R05']
    miss = {(0, n): m for n, m in cells}
    clk = None
    if clkmiss is not None:
        clk = clktext(sids, nep, step, miss=[(0, n) for n in clkmiss])
    sp, nav = load([sp3text(sids, nep, step, miss=miss)], clk)
    mp = {n for n, m in cells if m in 'pb'}
    mc = set(clkmiss) if clkmiss is not None else \
        {n for n, m in cells if m in 'cb'}
    sat = id2sat(sids[0])
    for s in instants(nep, step):
        p, d = query(sp, nav, sat, s)
        x = s/step
        near = int(round(x))
        if abs(s-near*step) < 1e-6:
            br = {near}
        else:
            br = {int(x), int(x)+1}
        no_p = bool(br & mp)
        no_c = bool(br & mc)
        # exact node: neighbours are not needed
        need_p = not any(abs(n-x) < 11.01 for n in mp)
        need_c = need_p and not any(abs(n-x) < 1.01 for n in mc)
        judge(sids[0], 0, s, p, d, need_p and not mc, need_c, no_p, no_c,
              what='missing %r/%r' % (cells, clkmiss))
    # the second satellite is complete
    for s in (0.0, step*(nep-1), step*(nep//2)+0.5*step):
        p, d = query(sp, nav, id2sat(sids[1]), s)
        judge(sids[1], 1, s, p, d, True, True, what='other satellite')


# ------------------------------------------------------------ satellite lists

ALL = ['G%02d' % i for i in range(1, 33)]+['R%02d' % i for i in range(1, 25)] \
    + ['E%02d' % i for i in range(1, 37)]+['C%02d' % i for i in range(1, 47)] \
    + ['J%02d' % i for i in range(1, 8)]+['I%02d' % i for i in range(1, 8)] \
    + ['S%02d' % i for i in (20, 29, 37)]


def c_list(n, order):
    ids = ALL[:n] if order == 0 else ALL[::-1][:n] if order == 1 else \
        [ALL[(i*37) % len(ALL)] for i in range(n)]
    sp, nav = load([sp3text(ids, 11, 900.0, comments=n % 5)])
    for i, sid in enumerate(ids):
        s = 900.0*(i % 11)
        p, d = query(sp, nav, id2sat(sid), s)
        judge(sid, i, s, p, d, True, True)
    for sid in set(ALL)-set(ids):
        p, d = query(sp, nav, id2sat(sid), 4500.0)
        judge(sid, 0, 4500.0, p, d, False, False, True, True)
    with Files() as fs:
        fn = fs.name()
        sp.write_sp3(fn, nav)
        rewritten(fn, ids, 11, 900.0, {})
        nav2 = peph().parse_sp3(fn, Nav())
    same(nav, nav2, ids)


def rewritten(fn, ids, nep, step, miss):
    """ independent parse of a written file """
    hs, na = [], 0
    eps = []
    for ln in open(fn):
        ln = ln.rstrip('\n')
        if ln.startswith('++'):
            na += 1
        elif ln.startswith('+ '):
            if not hs:
                expect(int(ln[2:6]) == len(ids),
                       'number of satellites in header %r' % ln)
            hs += [ln[9+3*i:12+3*i] for i in range(17)]
        elif ln.startswith('*  '):
            f = ln[1:].split()
            t = datetime.datetime(*[int(x) for x in f[:5]]) + \
                datetime.timedelta(seconds=float(f[5]))
            eps.append((t, {}))
        elif ln.startswith('P'):
            eps[-1][1][ln[1:4]] = [float(ln[4+14*j:18+14*j])
                                   for j in range(4)]
    hs = [h for h in hs if h.strip() and h.strip() != '0']
    expect(sorted(hs) == sorted(ids), lambda: 'satellite list %r' % hs)
    expect(len(eps) == nep, lambda: '%d epochs' % len(eps))
    for n, (t, d) in enumerate(eps):
        expect(abs((t-T0).total_seconds()-step*n) < 1e-6,
               lambda: 'epoch %d written at %s' % (n, t))
        expect(sorted(d) == sorted(ids), lambda: 'epoch %d: %r' % (n, list(d)))


def same(nav, nav2, ids, tolp=5.1e-4, tolc=5.1e-13):
    def tab(nv):
        t = {}
        for pe in nv.peph:
            k = round(timediff(pe.time, gt(T0)), 6)
            for sid in ids:
                v = pe.pos[id2sat(sid)-1]
                pos = v[0:3]
                if np.isnan(pos).any() or not np.any(pos):
                    pos = None
                t[(k, sid)] = (pos, None if np.isnan(v[3]) else v[3])
        return t
    a, b = tab(nav), tab(nav2)
    for k in set(a) | set(b):
        pa, ca = a.get(k, (None, None))
        pb, cb = b.get(k, (None, None))
        expect((pa is None) == (pb is None) and
               (pa is None or np.max(np.abs(pa-pb)) < tolp),
               lambda: '%r: position %r written, %r read back' % (k, pa, pb))
        expect((ca is None) == (cb is None) and
               (ca is None or abs(ca-cb) < tolc),
               lambda: '%r: clock %r written, %r read back' % (k, ca, cb))


# ------------------------------------------------------------ round trip

KINDS = ('', 'p', 'c', 'b')


def c_trip(pat, via):
    """ 2 satellites x 2 epochs at the start of a product """
    ids = ['E05', 'C12']
    nep, step = 12, 900.0
    e0 = 0 if via % 2 == 0 else 5
    miss = {(i // 2, e0+i % 2): pat[i] for i in range(4)}
    if via < 2:
        sp, nav = load([sp3text(ids, nep, step, miss=miss)])
        arg = None
    else:
        nav = Nav()
        sp = peph()
        for n in range(nep):
            pe = peph_t(timeadd(gt(T0), step*n))
            for i, sid in enumerate(ids):
                m = miss.get((i, n), '')
                r, _ = orbit(i).state(step*n)
                if m not in ('p', 'b'):
                    pe.pos[id2sat(sid)-1, 0:3] = r
                if m not in ('c', 'b'):
                    pe.pos[id2sat(sid)-1, 3] = orbit(i).clk(step*n)
            nav.peph.append(pe)
        nav.ne = len(nav.peph)
        arg = [id2sat(s) for s in (ids if via == 2 else ids[::-1])]
    with Files() as fs:
        fn = fs.name()
        sp.write_sp3(fn, nav, arg)
        rewritten(fn, ids, nep, step, miss)
        sp2 = peph()
        nav2 = sp2.parse_sp3(fn, Nav())
        same(nav, nav2, ids)
        fn2 = fs.name()
        sp2.write_sp3(fn2, nav2)
        nav3 = peph().parse_sp3(fn2, Nav())
        same(nav2, nav3, ids, 1e-9, 1e-18)
    for i, sid in enumerate(ids):
        for s in (0.0, step*e0, step*(e0+1), step*(e0+0.5), step*(nep-1),
                  step*(nep-2)+1):
            x = s/step
            br = {int(x)} if x == int(x) else {int(x), int(x)+1}
            mp = {n for (k, n), m in miss.items() if k == i and m in 'pb' and m}
            mc = {n for (k, n), m in miss.items() if k == i and m in 'cb' and m}
            p, d = query(sp2, nav2, id2sat(sid), s)
            judge(sid, i, s, p, d, not mp and not mc, not mp and not mc,
                  bool(br & mp), bool(br & mc), what='read back %r' % (pat,))


def c_value(j, v, clk):
    """ single values through the writer: exact to the published digits """
    nav, sp = Nav(), peph()
    sat = id2sat('G01')
    for n in range(3):
        pe = peph_t(timeadd(gt(T0), 300.0*n))
        pe.pos[sat-1] = [1e7, -2e7, 5e6, 1e-5]
        pe.pos[sat-1, j] = v if j < 3 else clk
        nav.peph.append(pe)
    nav.ne = 3
    with Files() as fs:
        fn = fs.name()
        sp.write_sp3(fn, nav, [sat])
        nav2 = peph().parse_sp3(fn, Nav())
    same(nav, nav2, ['G01'])
    expect(len(nav2.peph) == 3, 'number of epochs')


# ------------------------------------------------------------ file variants

def c_variant(ver, flag, ep, std, comments, extra, eof, short):
    ids = ['G01', 'R24', 'E36', 'C46', 'J01']
    ex = {0: [], 1: ['L01'], 2: ['L01', 'G99']}[extra]
    tx = sp3text(ids, 12, 300.0, ver=ver, flag=flag, ep=ep, std=std,
                 comments=comments, extra=ex, eof=eof, short=short,
                 miss={(1, 3): 'b'})
    sp, nav = load([tx])
    for i, sid in enumerate(ids):
        for s in (0.0, 900.0, 1650.0, 3300.0):
            p, d = query(sp, nav, id2sat(sid), s)
            judge(sid, i, s, p, d, i != 1, i != 1, i == 1 and s == 900.0,
                  i == 1 and s == 900.0,
                  what='variant %r' % ((ver, flag, ep, std, extra),))
    for sid in set(ALL)-set(ids):
        p, d = query(sp, nav, id2sat(sid), 900.0)
        judge(sid, 0, 900.0, p, d, False, False, True, True)


def c_pred(opt, pat):
    """ observed / predicted selection; pat[n]: (orbit, clock) predicted """
    ids = ['G02', 'E03']

    def fl(i, n):
        po, pc = pat[n % len(pat)] if i == 0 else (0, 0)
        return ' '+('P' if pc else ' ')+'   '+('P' if po else ' ')
    sp, nav = load([sp3text(ids, 12, 300.0, flags=fl)], opt=opt)
    for n in range(12):
        po, pc = pat[n % len(pat)]
        v = None
        for pe in nav.peph:
            if abs(timediff(pe.time, gt(T0))-300.0*n) < 1e-6:
                v = pe.pos
        for i, sid in enumerate(ids):
            fo, fc = (po, pc) if i == 0 else (0, 0)
            ko = opt == 0 or (opt == 1 and not fo) or (opt == 2 and fo)
            kc = opt == 0 or (opt == 1 and not fc) or (opt == 2 and fc)
            got = np.ones(4)*np.nan if v is None else v[id2sat(sid)-1]
            r, _ = orbit(i).state(300.0*n)
            expect(bool(np.isnan(got[0:3]).any()) != bool(ko),
                   lambda: 'opt %d epoch %d %s: orbit %r' % (opt, n, sid, got))
            expect(bool(np.isnan(got[3])) != bool(kc),
                   lambda: 'opt %d epoch %d %s: clock %r' % (opt, n, sid, got))
            if ko:
                expect(np.max(np.abs(got[0:3]-r)) < 1e-3, 'orbit value')
            if kc:
                expect(abs(got[3]-orbit(i).clk(300.0*n)) < 1e-12, 'clock')


def c_multi(a, b, overlap, seq, clk):
    """ several files read one after the other """
    ids1 = ['G01', 'E02'] if a else ['G01']
    ids2 = ['G01', 'R09'] if b else ['G01']
    n1, n2, step = 8, 8, 900.0
    off = step*(n1-overlap)
    k = {'G01': 0, 'E02': 1, 'R09': 1}
    t1 = sp3text(ids1, n1, step)
    t2 = sp3text(ids2, n2, step, t0=T0+datetime.timedelta(seconds=off),
                 off=off)
    tx = [t1, t2] if seq == 0 else [t2, t1] if seq == 1 else [t1, t2, t1]
    cl = None
    if clk:
        cl = [clktext(['G11'], 9, 300.0, k0=5),
              clktext(['G01'], n1*3+n2*3, 300.0)][:clk+1]
        if clk == 2:
            cl = [clktext(['G01'], 5, 300.0, drift=1e-3),
                  clktext(['G01'], n1*3+n2*3, 300.0)]
    sp, nav = load(tx, cl)
    nep = n1+n2-overlap
    for s in instants(nep, step):
        p, d = query(sp, nav, id2sat('G01'), s)
        judge('G01', 0, s, p, d, True, True, what='%d files' % len(tx))
    with Files() as fs:
        fn = fs.name()
        sp.write_sp3(fn, nav)
        nav2 = peph().parse_sp3(fn, Nav())
    same(nav, nav2, sorted(k))


DATES = [datetime.datetime(2021, 12, 31, 23, 0), datetime.datetime(2020, 2, 28, 23, 30),
         datetime.datetime(2021, 9, 25, 23, 0), datetime.datetime(2016, 12, 31, 23, 0),
         datetime.datetime(2019, 4, 6, 23, 15), datetime.datetime(1999, 8, 21, 22, 0),
         datetime.datetime(2037, 12, 31, 23, 0), datetime.datetime(2024, 2, 29, 22, 45)]


def c_date(k, step, clk, ver):
    t0 = DATES[k]
    ids = ['C59', 'S37', 'I05'] if clk else ['C10', 'J03', 'I01']
    nep = 13
    cl = clktext(ids, nep, step, t0=t0, ver=ver, nrec=1+k % 2,
                 extra=['L02']) if clk else None
    sp, nav = load([sp3text(ids, nep, step, t0=t0)], cl)
    for i, sid in enumerate(ids):
        for s in instants(nep, step):
            p, d = query(sp, nav, id2sat(sid), s, t0)
            judge(sid, i, s, p, d, True, True)
    for pe, n in zip(nav.peph, range(nep)):
        expect(abs(timediff(pe.time, gt(t0))-n*step) < 1e-6, 'epoch')


def c_clkrnx(ver, nrec, ar, sid):
    """ zero clocks, all satellites, unsupported satellites """
    ids = [sid, 'G01' if sid != 'G01' else 'G02']
    sp, nav = load([sp3text(ids, 12, 300.0, k0=3)],
                   clktext(ids, 12, 300.0, ver=ver, nrec=nrec, ar=ar, k0=3,
                           extra=['L01']))
    for i, x in enumerate(ids):
        for s in (0.0, 300.0, 1000.0, 3300.0):
            p, d = query(sp, nav, id2sat(x), s)
            judge(x, 3+i, s, p, d, True, True)
    for x in ALL:
        if x in ids:
            continue
        p, d = query(sp, nav, id2sat(x), 600.0)
        judge(x, 0, 600.0, p, d, False, False, True, True)


def run(ck):
    th = ck.thorough
    full = [(typ, nep, st, cs) for typ in range(4)
            for nep in ((11, 12, 15, 24) if not th else range(9, 40))
            for st in (300.0, 900.0, 450.0)
            for cs in (0, 30.0, 300.0) if not (cs == 30.0 and nep > 15)]
    full += [(typ, nep, 300.0, 0) for typ in range(4) for nep in (9, 10)]
    ck.pmap('full', full, lambda c, x: c.case('full', x, c_full, *x), chunk=4)
    cs = [(nc, k, st) for nc in range(1, 14) for k in range(0, 15-nc)
          for st in (300.0, 900.0)]
    ck.pmap('clkspan', cs, lambda c, x: c.case('clkspan', x, c_clkspan, *x),
            chunk=8)
    ms = []
    nep = 16
    for n in range(nep):
        for m in 'pcb':
            ms.append((nep, 300.0, ((n, m),), None))
        ms.append((nep, 300.0, (), (n,)))
        ms.append((nep, 300.0, ((n, 'b'),), ()))
        ms.append((nep, 300.0, ((n, 'c'),), ()))
    for a, b in itertools.combinations(range(nep), 2):
        for m in (('pp', 'pc', 'cp', 'bb') if not th else
                  [x+y for x in 'pcb' for y in 'pcb']):
            if not th and (a+b) % 2 and b-a > 2:
                continue
            ms.append((nep, 300.0, ((a, m[0]), (b, m[1])), None))
        ms.append((nep, 300.0, (), (a, b)))
    nep = 30
    for n in range(nep) if th else range(0, nep, 3):
        for m in 'pcb':
            ms.append((nep, 300.0, ((n, m),), None))
    if th:
        for a, b, c in itertools.combinations(range(14), 3):
            ms.append((14, 900.0, ((a, 'p'), (b, 'p'), (c, 'p')), None))
            ms.append((14, 900.0, (), (a, b, c)))
    ck.pmap('missing', ms, lambda c, x: c.case('missing', x, c_miss, *x),
            chunk=8)
    ls = [(n, o) for n in range(1, len(ALL)+1) for o in range(3)
          if th or n <= 18 or n % 17 in (0, 1, 16) or n == len(ALL)]
    ls = [x for x in ls if th or x[0] <= 86 or x[1] == 0]
    ck.pmap('list', ls, lambda c, x: c.case('list', x, c_list, *x), chunk=3)
    tr = [(pat, via) for pat in itertools.product(KINDS, repeat=4)
          for via in range(4)]
    if not th:
        tr = [x for x in tr if x[1] in (1, 2) or x[0].count('') >= 2]
    ck.pmap('trip', tr, lambda c, x: c.case('trip', x, c_trip, *x), chunk=8)
    va = [(j, v, 1e-5) for j in range(3)
          for v in (1e-3, -1e-3, 0.001*123456, 9.9999999e8, -4.2e7, 0.0,
                    26559999.9996, -99999999.999)]
    va += [(3, 0.0, c) for c in (0.0, 1e-12, -1e-12, 1e-3, -1e-3, 0.9, -0.09,
                                 0.999999, 1.23456789e-4, -5.5e-7)]
    ck.pmap('value', va, lambda c, x: c.case('value', x, c_value, *x), chunk=9)
    vr = list(itertools.product('cd', 'PV', (False, True), (False, True),
                                (0, 4, 30), (0, 1, 2), (True, False),
                                (False, True)))
    if not th:
        vr = [v for v in vr if v[4] == 4 or v[5] == 0]
    ck.pmap('variant', vr, lambda c, x: c.case('variant', x, c_variant, *x),
            chunk=8)
    fl = [(0, 0), (0, 1), (1, 0), (1, 1)]
    pr = [(o, p) for o in (0, 1, 2) for p in itertools.product(fl, repeat=3)]
    ck.pmap('pred', pr, lambda c, x: c.case('pred', x, c_pred, *x), chunk=16)
    mu = [(a, b, o, s, c) for a in (0, 1) for b in (0, 1) for o in (0, 1, 3)
          for s in (0, 1, 2) for c in (0, 1, 2)]
    ck.pmap('multi', mu, lambda c, x: c.case('multi', x, c_multi, *x), chunk=6)
    da = [(k, st, c, v) for k in range(len(DATES)) for st in (300.0, 900.0, 37.5)
          for c in (0, 1) for v in ((3.0, 3.04, 2.0) if c else (3.0,))]
    ck.pmap('date', da, lambda c, x: c.case('date', x, c_date, *x), chunk=4)
    cl = [(v, n, ar, sid) for v in (2.0, 3.0, 3.02, 3.04) for n in (1, 2)
          for ar in (False, True)
          for sid in (('G01', 'G32', 'R01', 'R24', 'E01', 'E36', 'C01', 'C63',
                       'J01', 'J09', 'I01', 'I14', 'S20', 'S58')
                      if not th else ALL)]
    ck.pmap('clkrnx', cl, lambda c, x: c.case('clkrnx', x, c_clkrnx, *x),
            chunk=8)
    ck.bound(nodes='up to %d' % (39 if th else 24),
             missing='all single and pairs of nodes in 16, kinds p/c/both'
             + (' and triples in 14' if th else ''),
             instants='every node, +-1 ms, quarter points, 4 outside each '
             'edge within 900 s, 10 beyond', satellites=len(ALL),
             extrapolation_limit=EXT)
