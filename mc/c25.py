"""C25: biases and antenna corrections are taken from the right record.

Explicit-state enumeration of record arrangements (validity intervals, file
order, satellites, signals, stations, antennas) and query times, executed on
the real Bias-SINEX / ANTEX / NGS readers, lookup functions and antenna
models.  Oracle: the record tables this file writes, an own implementation of
the nominal attitude frame and the antenna projection.
"""
import datetime
import itertools
import math
import os
import tempfile
from types import SimpleNamespace

import numpy as np

from mc.core import expect

from cssrlib.gnss import gtime_t, id2sat, rSigRnx, Nav, uTYP
from cssrlib.peph import (biasdec, atxdec, searchpcv, antModelTx, antModelRx,
                          apc2com)

UNIX0 = datetime.datetime(1970, 1, 1)
ATT = {'G': {'1': 'CSLXPWYMN', '2': 'CDSLXPWYMN', '5': 'IQX'},
       'R': {'1': 'CPX', '2': 'CPX', '3': 'IQX', '4': 'ABX', '6': 'ABX'},
       'E': {'1': 'ABCXZ', '5': 'IQX', '6': 'ABCXZ', '7': 'IQX', '8': 'IQX'},
       'S': {'1': 'C', '5': 'IQX'},
       'J': {'1': 'CESLXZB', '2': 'SLX', '5': 'IQXDPZ', '6': 'SLXEZ'},
       'C': {'1': 'DPXSLZ', '2': 'IQX', '5': 'DPX', '6': 'IQXDPZ',
             '7': 'IQXDPZ', '8': 'DPX'},
       'I': {'5': 'ABCX', '9': 'ABCX'}}
FRQ = {'G': {'1': 1575.42, '2': 1227.60, '5': 1176.45},
       'E': {'1': 1575.42, '5': 1176.45, '6': 1278.75, '7': 1207.14,
             '8': 1191.795},
       'J': {'1': 1575.42, '2': 1227.60, '5': 1176.45, '6': 1278.75},
       'C': {'1': 1575.42, '2': 1561.098, '5': 1176.45, '6': 1268.52,
             '7': 1207.14, '8': 1191.795},
       'S': {'1': 1575.42, '5': 1176.45},
       'I': {'5': 1176.45, '9': 2492.028}}
ALL = ['G%02d' % i for i in range(1, 33)]+['R%02d' % i for i in range(1, 25)] \
    + ['E%02d' % i for i in range(1, 37)]+['C%02d' % i for i in range(1, 64)] \
    + ['J%02d' % i for i in range(1, 10)]+['I%02d' % i for i in range(1, 15)]
SUB_TX = {('G', '5'): '2', ('R', '3'): '2', ('C', '8'): '5'}
SUB_RX = {('G', '5'): 'G2', ('R', '1'): 'G1', ('R', '2'): 'G2',
          ('R', '3'): 'G2', ('E', '1'): 'G1', ('E', '5'): 'G2',
          ('E', '6'): 'G2', ('E', '7'): 'G2', ('E', '8'): 'G2',
          ('C', '1'): 'G1', ('C', '2'): 'G1', ('C', '5'): 'G2',
          ('C', '6'): 'G2', ('C', '7'): 'G2', ('C', '8'): 'G2',
          ('J', '1'): 'G1', ('J', '2'): 'G2', ('J', '5'): 'G2',
          ('J', '6'): 'G2', ('I', '5'): 'G2', ('S', '1'): 'G1',
          ('S', '5'): 'G2'}


def gt(dt):
    d = dt-UNIX0
    return gtime_t(d.days*86400+d.seconds, d.microseconds*1e-6)


def putfile(text, enc='latin-1'):
    d = tempfile.TemporaryDirectory(prefix='c25')
    fn = os.path.join(d.name, 'f')
    with open(fn, 'w', encoding=enc) as f:
        f.write(text)
    return d, fn


# ------------------------------------------------------------ Bias-SINEX

def yds(t):
    if t is None:
        return '0000:000:00000'
    return '%04d:%03d:%05d' % (t.year, t.timetuple().tm_yday,
                               t.hour*3600+t.minute*60+t.second)


def rec(kind, prn, o1, o2, a, b, val, std=0.01, site='', unit='ns', svn=None,
        tail=True):
    ln = ' %s  %-4s %-3s %-9s %-4s %-4s %s %s %-4s %21.4f' % (
        kind, svn or prn[0]+'9'+prn[1:], prn, site, o1, o2, yds(a), yds(b),
        unit, val)
    if tail:
        ln += ' %11.6f' % std
    return ln


def bia(recs):
    o = ['%=BIA 1.00 COD 2021:274:20048 MGX 2021:265:00000 2021:266:00000 A '
         '00006915',
         '*'+'-'*79, '+BIAS/DESCRIPTION',
         rec('OSB', 'G01', 'C1C', '', None, None, 77.0),
         '-BIAS/DESCRIPTION',
         '+BIAS/SOLUTION',
         '*BIAS SVN_ PRN STATION__ OBS1 OBS2 BIAS_START____ BIAS_END______ '
         'UNIT __ESTIMATED_VALUE____ _STD_DEV___']
    o += recs
    o += ['-BIAS/SOLUTION', rec('OSB', 'G01', 'C1C', '', None, None, 78.0),
          '%=ENDBIA']
    return '\n'.join(o)+'\n'


def load(recs, site=None, more=None):
    bd = biasdec()
    d, fn = putfile(bia(recs))
    bd.parse(fn, siteID=site)
    d.cleanup()
    if more is not None:
        d, fn = putfile(bia(more))
        bd.parse(fn, siteID=site)
        d.cleanup()
    return bd


def osb(bd, sid, t, code):
    b = bd.getosb(id2sat(sid), gt(t), rSigRnx(sid[0]+code))
    s = bd.getosbstd(id2sat(sid), gt(t), rSigRnx(sid[0]+code))
    return b, s


def near(a, b, tol=1e-9):
    return a is not None and not np.isnan(a) and abs(a-b) < tol


def none(a):
    return a is None or np.isnan(a)


TP = [datetime.datetime(2021, 12, 31), datetime.datetime(2021, 12, 31, 12),
      datetime.datetime(2022, 1, 1), datetime.datetime(2022, 1, 1, 0, 5),
      datetime.datetime(2022, 1, 3)]
TPL = [datetime.datetime(2020, 2, 28), datetime.datetime(2020, 2, 29),
       datetime.datetime(2020, 2, 29, 23, 59, 59),
       datetime.datetime(2020, 12, 31), datetime.datetime(2021, 1, 1)]


def arrangements(n):
    """ all sets of up to n non-overlapping intervals over the points """
    ends = [None]+list(range(len(TP)))+['E']
    iv = []
    for a in range(-1, len(TP)):
        for b in range(a+1, len(TP)+1):
            if a == -1 and b == len(TP):
                continue
            iv.append((a, b))
    for m in range(1, n+1):
        for c in itertools.combinations(iv, m):
            c = sorted(c)
            if all(c[i][1] <= c[i+1][0] for i in range(m-1)):
                yield tuple(c)
    yield ((-1, len(TP)),)


def qtimes(tp):
    q = []
    for t in tp:
        for d in (-43200, -1, 0, 1, 43200, 20):
            q.append(t+datetime.timedelta(seconds=d))
    q.append(tp[0]-datetime.timedelta(days=400))
    q.append(tp[-1]+datetime.timedelta(days=4000))
    q.append(tp[2]-datetime.timedelta(microseconds=1000))
    return q


def c_interval(arr, order, leap, kind):
    tp = TPL if leap else TP
    recs, tab = [], []
    for j, (a, b) in enumerate(arr):
        ta = None if a < 0 else tp[a]
        tb = None if b >= len(tp) else tp[b]
        tab.append((ta, tb, 1.25+j, 0.02+j*0.01))
        recs.append(rec(kind, 'E05', 'C1C', 'C5Q' if kind == 'DSB' else '',
                        ta, tb, 1.25+j, 0.02+j*0.01))
        # same intervals, other satellite / signal
        recs.append(rec(kind, 'E06', 'C1C', 'C5Q' if kind == 'DSB' else '',
                        ta, tb, 100.0+j))
        recs.append(rec(kind, 'E05', 'C1X', 'C7Q' if kind == 'DSB' else '',
                        ta, tb, 200.0+j))
    other = rec(kind, 'E04', 'C1C', 'C5Q' if kind == 'DSB' else '', None,
                None, 300.0)
    recs.append(other)
    p = list(range(len(recs)))
    if order == 1:
        p = p[::-1]
    elif order == 2:
        p = p[1:]+p[:1]
    recs = [recs[i] for i in p]
    if order == 3:
        h = len(recs)//2
        bd = load(recs[:h], None, recs[h:])
    else:
        bd = load(recs)
    for t in qtimes(tp):
        hit = [r for r in tab if (r[0] is None or r[0] <= t) and
               (r[1] is None or t < r[1])]
        edge = [r for r in tab if r[1] is not None and t == r[1]]
        if kind == 'OSB':
            b, s = osb(bd, 'E05', t, 'C1C')
        else:
            b, s, c = bd.getdcb(id2sat('E05'), gt(t), rSigRnx('EC5Q'))
            if hit:
                expect(c == rSigRnx('EC1C'), lambda: 'reference code %r' % c)
        w = lambda: '%r at %s: bias %r sigma %r' % (tab, t, b, s)
        if hit:
            expect(near(b, hit[0][2]) and near(s, hit[0][3]), w)
        elif not edge:
            expect(none(b) and none(s), w)
        else:
            expect(none(b) or near(b, edge[0][2]), w)


def c_sats(sys, code):
    """ one record per satellite with own value; every satellite queried """
    t0, t1 = TP[0], TP[-1]
    ids = [s for s in ALL if s[0] == sys or s[1:] == '05']
    recs = []
    for i, s in enumerate(ids):
        if s[0] == sys:
            recs.append(rec('OSB', s, code, '', t0, t1, -50+0.37*i))
    recs.insert(1, rec('OSB', 'L01', 'C1C', '', t0, t1, 900.0))
    recs.insert(2, rec('OSB', sys+'99', code, '', t0, t1, 901.0))
    bd = load(recs)
    tm = datetime.datetime(2022, 1, 1, 6)
    for i, s in enumerate(ids):
        for typ in 'CL':
            for bnd in ATT[s[0]]:
                for a in ATT[s[0]][bnd]:
                    b, sd = osb(bd, s, tm, typ+bnd+a)
                    if s[0] == sys and typ+bnd+a == code:
                        expect(near(b, -50+0.37*i) and near(sd, 0.01),
                               lambda: '%s %s: %r' % (s, code, b))
                    else:
                        expect(none(b) and none(sd),
                               lambda: '%s %s: %r from %s' %
                               (s, typ+bnd+a, b, code))


def c_signals(sid, missing):
    """ all signals of one satellite but one """
    t0, t1 = TP[0], TP[-1]
    sigs = [typ+b+a for typ in 'CL' for b in ATT[sid[0]]
            for a in ATT[sid[0]][b]]
    recs = [rec('OSB', sid, c, '', t0, t1, -3.0+0.11*i)
            for i, c in enumerate(sigs) if i != missing % len(sigs)]
    bd = load(recs[::-1])
    tm = datetime.datetime(2022, 1, 1, 6)
    for i, c in enumerate(sigs):
        b, _ = osb(bd, sid, tm, c)
        if i == missing % len(sigs):
            expect(none(b), lambda: '%s %s: %r' % (sid, c, b))
        else:
            expect(near(b, -3.0+0.11*i), lambda: '%s %s: %r' % (sid, c, b))


def c_value(val, std, unit, kind, typ, tail):
    o1, o2 = typ+'1C', (typ+'2W' if kind == 'DSB' else '')
    recs = [rec(kind, 'G01', o1, o2, TP[0], TP[4], val, std, unit=unit,
                tail=tail)]
    bd = load(recs)
    t = TP[2]
    if kind == 'OSB':
        b, s = osb(bd, 'G01', t, o1)
    else:
        b, s, _ = bd.getdcb(id2sat('G01'), gt(t), rSigRnx('G'+o2))
        # only the pair is known
        b2, _, _ = bd.getdcb(id2sat('G01'), gt(t), rSigRnx('G'+typ+'5Q'))
        expect(none(b2), 'other pair')
        expect(none(osb(bd, 'G01', t, o1)[0]), 'difference as absolute bias')
    ok = unit == ('cyc' if kind == 'DSB' and typ == 'L' else 'ns')
    if not ok:
        expect(none(b), lambda: 'unit %s accepted: %r' % (unit, b))
        return
    expect(near(b, round(val, 4)), lambda: '%r read as %r' % (val, b))
    if tail:
        expect(near(s, round(std, 6)), lambda: 'sigma %r: %r' % (std, s))


def c_site(combo, site, kind):
    """ records of stations: combo of (satellite?, station) in file order """
    t0, t1 = TP[0], TP[-1]
    recs = []
    vals = {}
    o2 = 'C2P' if kind == 'DSB' else ''
    for i, (sat, st) in enumerate(combo):
        prn = sat or 'R  '
        recs.append(rec(kind, prn, 'C1P', o2, t0, t1, 10.0+i, site=st,
                        svn='R730' if sat else 'R'))
        vals.setdefault((sat, st), 10.0+i)
    bd = load(recs, site)
    for sat in ('R01', 'R02', 'G05'):
        if kind == 'DSB':
            b = bd.getdcb(id2sat(sat), gt(TP[2]),
                          rSigRnx(sat[0]+'C2P'))[0]
        else:
            b, _ = osb(bd, sat, TP[2], 'C1P')
        exp = {v for (s, st), v in vals.items()
               if s == sat and (st == '' or st == site)}
        if exp:
            expect(any(near(b, v) for v in exp),
                   lambda: '%r site %r: %s %r' % (combo, site, sat, b))
        else:
            expect(none(b), lambda: '%r site %r: %s %r' %
                   (combo, site, sat, b))


# ------------------------------------------------------------ ANTEX

def lab(s, l):
    return '%-60s%s' % (s, l)


def tstr(t):
    return '%6d%6d%6d%6d%6d%13.7f' % (t.year, t.month, t.day, t.hour,
                                      t.minute, t.second+t.microsecond*1e-6)


def antex(ants):
    """ ants: dict(type, serial, ts, te, zen, dazi, freq=[(id, neu, noazi)])
    """
    o = [lab('     1.4            M', 'ANTEX VERSION / SYST'),
         lab('A', 'PCV TYPE / REFANT'), lab('', 'END OF HEADER')]
    for a in ants:
        o.append(lab('', 'START OF ANTENNA'))
        o.append(lab('%-20s%-20s%-10s%-10s' % (
            a['type'], a['serial'], a.get('svn', ''), ''),
            'TYPE / SERIAL NO'))
        o.append(lab('CALIB               TEST', 'METH / BY / # / DATE'))
        o.append(lab('%8.1f' % a.get('dazi', 0.0), 'DAZI'))
        o.append(lab('  %6.1f%6.1f%6.1f' % a['zen'], 'ZEN1 / ZEN2 / DZEN'))
        o.append(lab('%6d' % len(a['freq']), '# OF FREQUENCIES'))
        if a.get('ts'):
            o.append(lab(tstr(a['ts']), 'VALID FROM'))
        if a.get('te'):
            o.append(lab(tstr(a['te']), 'VALID UNTIL'))
        o.append(lab('IGS14_2247', 'SINEX CODE'))
        o.append(lab('comment START OF FREQUENCY', 'COMMENT'))
        for f, neu, var in a['freq']:
            o.append(lab('   %3s' % f, 'START OF FREQUENCY'))
            o.append(lab('%10.2f%10.2f%10.2f' % tuple(neu),
                         'NORTH / EAST / UP'))
            o.append('   NOAZI'+''.join('%8.2f' % v for v in var))
            if a.get('dazi', 0.0):
                for k in range(int(360/a['dazi'])+1):
                    o.append('%8.1f' % (k*a['dazi']) +
                             ''.join('%8.2f' % (v+50) for v in var))
            o.append(lab('   %3s' % f, 'END OF FREQUENCY'))
        if a.get('rms'):
            for f, neu, var in a['freq']:
                o.append(lab('   %3s' % f, 'START OF FREQ RMS'))
                o.append(lab('%10.2f%10.2f%10.2f' % (0.1, 0.2, 0.3),
                             'NORTH / EAST / UP'))
                o.append('   NOAZI'+''.join('%8.2f' % 0.5 for v in var))
                o.append(lab('   %3s' % f, 'END OF FREQ RMS'))
        o.append(lab('', 'END OF ANTENNA'))
    return '\n'.join(o)+'\n'


def pcvval(seed, n):
    return [round(((seed*7919+k*104729) % 4001)/100.0-20.0, 2)
            for k in range(n)]


def neuval(seed):
    return [round(((seed*31+k*977) % 5001)-2500+0.25*k, 2) for k in range(3)]


def mkant(typ, serial, bands, seed, zen=(0.0, 14.0, 1.0), **kw):
    n = int(round((zen[1]-zen[0])/zen[2]))+1
    return dict(type=typ, serial=serial, zen=zen,
                freq=[(b, neuval(seed+i), pcvval(seed+i, n))
                      for i, b in enumerate(bands)], **kw)


def readatx(ants, **kw):
    a = atxdec()
    d, fn = putfile(antex(ants))
    a.readpcv(fn, **kw)
    d.cleanup()
    return a


def interp(za, zen, var):
    x = (za-zen[0])/zen[2]
    x = min(max(x, 0.0), len(var)-1.0)
    i = min(int(x), len(var)-2) if len(var) > 1 else 0
    if len(var) == 1:
        return var[0]
    return var[i]+(x-i)*(var[i+1]-var[i])


def unit(v):
    return v/np.sqrt(v@v)


def frame(rs, sun):
    ez = unit(-rs)
    es = unit(sun-rs)
    ey = unit(np.cross(ez, es))
    ex = np.cross(ey, ez)
    return ex, ey, ez


RS = [np.array([26560e3, 0.0, 0.0]), np.array([-12e6, 9e6, 21.3e6]),
      np.array([3e6, -28e6, -9e6]), np.array([-30e6, 29e6, -1e5])]
SUN = [np.array([0.0, 1.49e11, 2e10]), np.array([-1.2e11, -0.5e11, -6e10])]


def txexp(ant, sig, rs, e, sun, sig0, sysc):
    """ expected satellite antenna correction [m] or None """
    tab = {f: (np.array(neu), var) for f, neu, var in ant['freq']}

    def find(c):
        f = '%s%02d' % (sysc, int(c[1]))
        if f in tab:
            return tab[f]
        s = SUB_TX.get((sysc, c[1]))
        if s is not None and '%s%02d' % (sysc, int(s)) in tab:
            return tab['%s%02d' % (sysc, int(s))]
        return None
    o = find(sig)
    if o is None:
        return None
    off = o[0]
    if sig0:
        k = [1.0]
        if len(sig0) == 2:
            f = [FRQ[sysc][c[1]] if sysc != 'R' else
                 {'1': 9.0, '2': 7.0}[c[1]] for c in sig0]
            d = f[0]**2-f[1]**2
            k = [f[0]**2/d, -f[1]**2/d]
        for a, c in zip(k, sig0):
            r = find(c)
            if r is None:
                return None
            off = off-a*r[0]
    ex, ey, ez = frame(rs, sun)
    v = off[0]*ex+off[1]*ey+off[2]*ez
    za = math.degrees(math.acos(max(-1.0, min(1.0, float(ez@(-e))))))
    return (float(v@e)+interp(za, ant['zen'], o[1]))*1e-3


def same(got, exp, what):
    for k, (g, x) in enumerate(zip(got, exp)):
        if x is None:
            expect(np.isnan(g), lambda: '%s[%d]: %r although not available' %
                   (what, k, g))
        else:
            expect(not np.isnan(g) and abs(g-x) < 2e-7,
                   lambda: '%s[%d]: %r expected %r' % (what, k, g, x))


def c_tx(sysc, mask, ir, sun, prn):
    """ all subsets of frequencies of one satellite, another satellite of the
    system has all of them """
    bands = ['%s%02d' % (sysc, int(b)) for b in ATT[sysc]]
    sub = [b for i, b in enumerate(bands) if mask >> i & 1]
    sid = '%s%02d' % (sysc, prn)
    oth = '%s%02d' % (sysc, prn+1)
    a1 = mkant('BLOCK X', sid, sub, 3)
    a2 = mkant('BLOCK X', oth, bands, 50)
    a3 = mkant('BLOCK Y', 'G30' if sysc != 'G' else 'E30',
               ['G01', 'G02'] if sysc != 'G' else ['E01', 'E05'], 90)
    dec = readatx([a2, a1, a3])
    nav = Nav()
    nav.sat_ant = dec.pcvs
    nav.rsun = None if sun is None else SUN[sun]
    rs = RS[ir]
    sigs = [b+ATT[sysc][b][-1] for b in ATT[sysc]]
    sg = [rSigRnx(sysc+'L'+c) for c in sigs] + \
        [rSigRnx(sysc+'C'+c) for c in sigs]
    t = gt(TP[2])
    sat = id2sat(sid)
    for dirn in range(4):
        # directions from receiver to satellite around the nadir
        h = np.cross(rs, [0.1, 0.2, 1.0])
        e = unit(rs+h*(0.0, 0.1, 0.2, -0.24)[dirn])
        refs = [None]
        if len(sigs) >= 2 and sysc != 'R':
            refs += [(sigs[0],), (sigs[0], sigs[1])]
        elif sysc == 'R':
            refs += [('1C',), ('1C', '2C')]
            nav.glo_ch[sat] = -3
        for ref in refs:
            s0 = None if ref is None else \
                [rSigRnx(sysc+'C'+c) for c in ref]
            got = antModelTx(nav, e, sg, sat, t, rs, s0)
            r0 = None if ref is None else ['C'+c for c in ref]
            exp = [txexp(a1, 'L'+c, rs, e, SUN[sun], r0, sysc)
                   for c in sigs+sigs]
            same(got, exp, '%s frequencies %r signal %r reference %r' %
                 (sid, sub, sigs, ref))
    got = antModelTx(nav, e, sg, id2sat('%s%02d' % (sysc, prn+2)), t, rs)
    expect(got is None or np.all(np.isnan(got)),
           lambda: 'satellite without antenna: %r' % got)


def c_com(sysc, mask, pair, ir):
    bands = ['%s%02d' % (sysc, int(b)) for b in ATT[sysc]]
    sub = [b for i, b in enumerate(bands) if mask >> i & 1]
    sid = '%s07' % sysc
    a1 = mkant('BLOCK X', sid, sub, 11)
    dec = readatx([mkant('BLOCK X', sysc+'08', bands, 70), a1])
    nav = Nav()
    nav.sat_ant = dec.pcvs
    tm = TP[2]
    d = (tm-datetime.datetime(2000, 1, 1, 12)).total_seconds()/86400.0
    g = math.radians((357.528+0.9856003*d) % 360)
    lam = math.radians(280.460+0.9856474*d+1.915*math.sin(g)
                       + 0.020*math.sin(2*g))
    eps = math.radians(23.439-4e-7*d)
    s = np.array([math.cos(lam), math.cos(eps)*math.sin(lam),
                  math.sin(eps)*math.sin(lam)])*1.496e11 * \
        (1.00014-0.01671*math.cos(g))
    th = math.radians((280.46061837+360.98564736629*(d-18/86400)) % 360)
    sun = np.array([s[0]*math.cos(th)+s[1]*math.sin(th),
                    -s[0]*math.sin(th)+s[1]*math.cos(th), s[2]])
    rs = RS[ir]
    tab = {f: np.array(neu) for f, neu, var in a1['freq']}

    def find(b):
        f = '%s%02d' % (sysc, int(b))
        s_ = SUB_TX.get((sysc, b))
        if f not in tab and s_ is not None:
            f = '%s%02d' % (sysc, int(s_))
        return tab.get(f)
    o = [find(b) for b in pair]
    sg = [rSigRnx(sysc+'C'+b+ATT[sysc][b][0]) for b in pair]
    k = 2 if sysc == 'R' else None
    got = apc2com(nav, id2sat(sid), gt(tm), rs, sg, k)
    if any(x is None for x in o):
        expect(got is None or np.any(np.isnan(got)), 'offset not available')
        return
    if len(pair) == 2:
        f = [FRQ[sysc][b] if sysc != 'R' else {'1': 9.0, '2': 7.0}[b]
             for b in pair]
        dn = f[0]**2-f[1]**2
        off = f[0]**2/dn*o[0]-f[1]**2/dn*o[1]
    else:
        off = o[0]
    ex, ey, ez = frame(rs, sun)
    exp = -(off[0]*ex+off[1]*ey+off[2]*ez)*1e-3
    expect(got is not None and np.max(np.abs(got-exp)) <
           2e-2*max(1.0, np.max(np.abs(exp))),
           lambda: '%s %r: %r expected %r' % (sid, pair, got, exp))


LLH = [np.array([0.6, 2.4, 50.0]), np.array([-0.9, -1.0, 3000.0]),
       np.array([0.0, 0.0, 0.0]), np.array([1.57, 3.1, 10.0])]


def enuvec(pos, e):
    sp, cp = math.sin(pos[0]), math.cos(pos[0])
    sl, cl = math.sin(pos[1]), math.cos(pos[1])
    E = np.array([-sl, cl, 0.0])
    N = np.array([-sp*cl, -sp*sl, cp])
    U = np.array([cp*cl, cp*sl, sp])
    return e[0]*E+e[1]*N+e[2]*U


def rxexp(ant, sysc, band, enu):
    tab = {f: (neu, var) for f, neu, var in ant['freq']}
    f = '%s%02d' % (sysc, int(band))
    if f not in tab and (sysc, band) in SUB_RX:
        s = SUB_RX[(sysc, band)]
        f = '%s%02d' % (s[0], int(s[1]))
    if f not in tab:
        return None
    neu, var = tab[f]
    za = math.degrees(math.acos(max(-1.0, min(1.0, enu[2]))))
    off = np.array([neu[1], neu[0], neu[2]])
    return (-float(off@enu)+interp(za, ant['zen'], var))*1e-3


ELS = (90.0, 89.9, 87.5, 85.0, 60.0, 33.3, 10.0, 5.0, 0.5)


def c_rx(sysc, mask, gmask, ip, rtype):
    bands = ['%s%02d' % (sysc, int(b)) for b in ATT[sysc]]
    sub = [b for i, b in enumerate(bands) if mask >> i & 1]
    if sysc != 'G':
        sub += [b for i, b in enumerate(['G01', 'G02']) if gmask >> i & 1]
    typ = 'TRM59800.00     SCIS'
    a1 = mkant(typ, '', sub, 5, zen=(0.0, 90.0, 5.0), dazi=180.0, rms=True)
    a2 = mkant('TRM59800.00     NONE', '', bands+['G01', 'G02'] if sysc != 'G'
               else bands, 40, zen=(0.0, 80.0, 5.0))
    a3 = mkant(typ, '1440911917', bands, 60, zen=(0.0, 90.0, 5.0))
    a4 = mkant(typ, 'G05123', bands, 65, zen=(0.0, 90.0, 5.0))
    dec = readatx([a3, a4, a2, a1][::1 if ip % 2 else -1])
    nav = Nav()
    ant = searchpcv(dec.pcvr, typ, gt(TP[2]))
    expect(ant is not None, 'receiver antenna not found')
    oth = searchpcv(dec.pcvr, 'TRM59800.00     NONE', gt(TP[2]))
    expect(oth is not None, 'receiver antenna not found')
    nav.rcv_ant, nav.rcv_ant_b = (ant, oth) if rtype == 1 else (oth, ant)
    expect(searchpcv(dec.pcvr, 'TRM59800.00     SCIT', gt(TP[2])) is None,
           'unknown antenna type')
    for s in ('G05', 'G01', sysc+'05'):
        expect(searchpcv(dec.pcvs, id2sat(s), gt(TP[2])) is None,
               'receiver antenna found as satellite antenna %s' % s)
    sigs = [b+a for b in ATT[sysc] for a in (ATT[sysc][b][0],
                                             ATT[sysc][b][-1])]
    sg = [rSigRnx(sysc+'C'+c) for c in sigs]+[rSigRnx(sysc+'L'+c)
                                              for c in sigs]
    for el in ELS:
        for az in (0.0, 90.0, 200.0):
            a, h = math.radians(az), math.radians(el)
            enu = np.array([math.sin(a)*math.cos(h), math.cos(a)*math.cos(h),
                            math.sin(h)])
            e = enuvec(LLH[ip], enu)
            got = antModelRx(nav, LLH[ip], e, sg, rtype)
            exp = [rxexp(a1, sysc, c[0], enu) for c in sigs+sigs]
            same(got, exp, 'receiver %r signals %r el %r' % (sub, sigs, el))


def c_valid(arr, order, rx):
    """ antenna records with validity intervals; end 1e-7 s (day) before """
    ants = []
    us = datetime.timedelta(microseconds=1)
    tab = []
    sid = 'TYPE ONE        NONE' if rx else 'C19'
    for j, (a, b) in enumerate(arr):
        ta = None if a < 0 else TP[a]
        tb = None if b >= len(TP) else TP[b]-us
        z = mkant(sid if rx else 'BEIDOU-%d' % j, '' if rx else sid,
                  ['C02'], 10+20*j, ts=ta, te=tb)
        ants.append(z)
        ants.append(mkant('TYPE TWO        NONE' if rx else 'BEIDOU-%d' % j,
                          '' if rx else 'C20', ['C02'], 500+20*j))
        tab.append((ta, tb, z))
    ants.append(mkant('TYPE 3' if rx else 'BEIDOU', '' if rx else 'L07',
                      ['C02'], 900))
    if order == 1:
        ants = ants[::-1]
    elif order == 2:
        ants = ants[1:]+ants[:1]
    dec = readatx(ants)
    lst = dec.pcvr if rx else dec.pcvs
    for t in qtimes(TP):
        hit = [r for r in tab if (r[0] is None or r[0] <= t) and
               (r[1] is None or t <= r[1])]
        got = searchpcv(lst, sid if rx else id2sat(sid), gt(t))
        if not hit:
            expect(got is None, lambda: '%s at %s: antenna outside its '
                   'validity' % (sid, t))
            continue
        expect(got is not None, lambda: '%s at %s: no antenna' % (sid, t))
        neu = hit[0][2]['freq'][0][1]
        off = got.off[rSigRnx('CL2')]
        exp = [neu[1], neu[0], neu[2]] if rx else neu
        expect(np.max(np.abs(np.array(off)-exp)) < 1e-9,
               lambda: '%s at %s: offset %r expected %r' % (sid, t, off, exp))
    if not rx:
        expect(all(p.sat > 0 for p in lst), 'unsupported satellite')
    both = readatx([mkant('TYPE ONE        NONE', '', ['G01'], 1),
                    mkant('BLOCK', 'G09', ['G01'], 2)], onlyReceiver=True)
    expect(searchpcv(both.pcvs, id2sat('G09'), gt(TP[2])) is None,
           'only receivers')
    expect(searchpcv(both.pcvr, 'TYPE ONE        NONE', gt(TP[2]))
           is not None, 'receiver')


def c_grid(zen, val):
    """ zenith grids incl. short lines, large and negative offsets """
    n = int(round((zen[1]-zen[0])/zen[2]))+1
    var = pcvval(17, n)
    neu = [val, -val/3, val/7]
    neu = [round(x, 2) for x in neu]
    sa = dict(type='QZSS', serial='J02', zen=zen, freq=[('J01', neu, var)])
    ra = dict(type='ANT', serial='', zen=zen, freq=[(' 01', neu, var)])
    dec = readatx([sa, ra])
    p = searchpcv(dec.pcvs, id2sat('J02'), gt(TP[0]))
    q = searchpcv(dec.pcvr, '%-20s' % 'ANT', gt(TP[0]))
    for x, s, off in ((p, 'JL1', neu), (q, 'GL1', [neu[1], neu[0], neu[2]])):
        expect(x is not None, 'antenna')
        expect(rSigRnx(s) in x.off and
               np.max(np.abs(np.array(x.off[rSigRnx(s)])-off)) < 1e-9,
               lambda: 'offset %r: %r' % (off, x.off))
        expect(len(x.var[rSigRnx(s)]) == n and
               np.max(np.abs(np.array(x.var[rSigRnx(s)])-var)) < 1e-9,
               lambda: 'variation %r: %r' % (var, x.var))
    nav = Nav()
    nav.rcv_ant = q
    pos = LLH[0]
    for k in range(0, 8*n):
        za = zen[0]+zen[2]*k/8.0
        if za > 90.0:
            break
        enu = np.array([0.0, math.sin(math.radians(za)),
                        math.cos(math.radians(za))])
        got = antModelRx(nav, pos, enuvec(pos, enu), [rSigRnx('GC1C')])
        off = np.array([neu[1], neu[0], neu[2]])
        exp = (-float(off@enu)+interp(za, zen, var))*1e-3
        same(got, [exp], 'zenith %g' % za)


def c_allsats(shift):
    """ one antenna per satellite; every satellite gets its own """
    ants = [mkant('BLOCK', s, ['%s01' % s[0] if s[0] not in 'IC' else
                               '%s05' % s[0]], 7*i+shift)
            for i, s in enumerate(ALL)]
    k = (shift*37) % len(ants)
    dec = readatx(ants[k:]+ants[:k])
    for i, s in enumerate(ALL):
        p = searchpcv(dec.pcvs, id2sat(s), gt(TP[2]))
        expect(p is not None, lambda: 'no antenna for %s' % s)
        sg = rSigRnx(s[0]+('L1' if s[0] not in 'IC' else 'L5'))
        expect(sg in p.off and np.max(np.abs(np.array(p.off[sg]) -
                                             neuval(7*i+shift))) < 1e-9,
               lambda: '%s: %r' % (s, p.off))
        oth = [x for x in ALL if x != s]
        dec2 = [x for x in dec.pcvs if x.sat != id2sat(s)]
        expect(len(dec2) == len(oth), lambda: '%s: records' % s)


def c_ngs(n, k):
    o = ['%-61s|' % 'HEADER', '%-61s|' % 'X']
    exp = []
    for i in range(n):
        typ = 'ANT%05d        %4s' % (i, 'NONE' if i % 2 else 'SCIS')
        v = [pcvval(11*i+j+k, 19) for j in range(2)]
        f = [[round(x/10, 1) for x in neuval(i*2+j+k)] for j in range(2)]
        o.append('%-20s%s' % (typ, ' description'))
        for j in range(2):
            o.append('%10.1f%10.1f%10.1f' % tuple(f[j]))
            o.append(''.join('%6.1f' % x for x in v[j][:10]))
            o.append(''.join('%6.1f' % x for x in v[j][10:]))
        exp.append((typ, f, [[round(x, 1) for x in y] for y in v]))
    a = atxdec()
    d, fn = putfile('\n'.join(o)+'\n')
    a.readngspcv(fn)
    d.cleanup()
    expect(len(a.pcvr) == n, lambda: '%d antennas' % len(a.pcvr))
    for typ, f, v in exp:
        p = searchpcv(a.pcvr, typ, gt(TP[2]))
        expect(p is not None, lambda: '%s not found' % typ)
        for j, s in enumerate(('GL1', 'GL2')):
            off = np.array(p.off[rSigRnx(s)])
            expect(np.max(np.abs(off-[f[j][1], f[j][0], f[j][2]])) < 1e-9,
                   lambda: '%s %s offset %r' % (typ, s, off))
            expect(len(p.var[rSigRnx(s)]) == 19 and np.max(np.abs(
                np.array(p.var[rSigRnx(s)])-v[j])) < 0.051,
                lambda: '%s %s variation' % (typ, s))
        nav = Nav()
        nav.rcv_ant = p
        enu = np.array([0.3, -0.4, math.sqrt(0.75)])
        got = antModelRx(nav, LLH[0], enuvec(LLH[0], enu),
                         [rSigRnx('GC1C'), rSigRnx('GL2W'), rSigRnx('GL5Q'),
                          rSigRnx('EC1C')])
        za = 30.0
        x = [-(f[j][1]*enu[0]+f[j][0]*enu[1]+f[j][2]*enu[2])*1e-3 +
             p.var[rSigRnx(s)][6]*1e-3 for j, s in ((0, 'GL1'), (1, 'GL2'),
                                                    (1, 'GL2'), (0, 'GL1'))]
        for g, y in zip(got, x):
            expect(abs(g-y) < 1e-5, lambda: '%s: %r %r' % (typ, got, x))


def run(ck):
    th = ck.thorough
    arr = list(arrangements(3))
    iv = [(a, o, lp, kd) for a in arr for o in range(4) for lp in (0, 1)
          for kd in ('OSB', 'DSB')]
    if not th:
        iv = [x for x in iv if (x[3] == 'OSB' or x[1] == 0) and
              (len(x[0]) < 3 or x[1] in (1, 3))]
    ck.pmap('interval', iv, lambda c, x: c.case('interval', x, c_interval,
                                                *x), chunk=16)
    sa = [(s, t+b+a) for s in 'GRECJI' for t in 'CL' for b in ATT[s]
          for a in (ATT[s][b] if th else ATT[s][b][:2])]
    ck.pmap('satellite', sa, lambda c, x: c.case('satellite', x, c_sats, *x),
            chunk=2)
    sg = [(s, m) for s in ('G01', 'R24', 'E36', 'C63', 'J09', 'I14', 'C01')
          for m in range(46)]
    ck.pmap('signal', sg, lambda c, x: c.case('signal', x, c_signals, *x),
            chunk=8)
    va = [(v, s, u, k, t, tl) for v in (0.0, -0.0001, 0.0001, 1234.5678,
                                        -999999.9999, 12345678.1234)
          for s in (0.0, 0.0062, 99.123456) for u in ('ns', 'cyc')
          for k in ('OSB', 'DSB') for t in 'CL' for tl in (True, False)]
    ck.pmap('value', va, lambda c, x: c.case('value', x, c_value, *x),
            chunk=24)
    el = [(s, st) for s in ('R01', '', 'R02') for st in ('', 'AIRA', 'REYK')
          if s or st]
    cb = [c for n in (1, 2) for c in itertools.product(el, repeat=n)]
    if th:
        cb += list(itertools.product(el, repeat=3))
    cb = [(c, s, k) for c in cb for s in (None, 'AIRA', 'REYK')
          for k in ('OSB', 'DSB')]
    ck.pmap('station', cb, lambda c, x: c.case('station', x, c_site, *x),
            chunk=24)
    tx = []
    for s in 'GRECJI':
        n = len(ATT[s])
        for m in range(1, 1 << n):
            for ir in range(4):
                for sun in (0, 1):
                    if not th and (ir+m+sun) % 2 and n > 2:
                        continue
                    tx.append((s, m, ir, sun, 1+(m % 3)))
    ck.pmap('tx', tx, lambda c, x: c.case('tx', x, c_tx, *x), chunk=8)
    co = []
    for s in 'GRECJ':
        bb = [b for b in ATT[s] if s != 'R' or b in '12']
        pr = [(b,) for b in ATT[s]]+list(itertools.permutations(bb, 2))
        for m in range(1, 1 << len(ATT[s])):
            for p in pr:
                co.append((s, m, p, (m+len(co)) % 4))
    if not th:
        co = co[::2]
    ck.pmap('apc2com', co, lambda c, x: c.case('apc2com', x, c_com, *x),
            chunk=8)
    rx = []
    for s in 'GRECJIS':
        n = len(ATT[s])
        for m in range(0, 1 << n):
            for g in range(4 if s != 'G' else 1):
                for r in (0, 1):
                    rx.append((s, m, g, (m+g+r) % 4, r))
    ck.pmap('rx', rx, lambda c, x: c.case('rx', x, c_rx, *x), chunk=4)
    vl = [(a, o, r) for a in arr for o in range(3) for r in (0, 1)]
    if not th:
        vl = [x for x in vl if len(x[0]) < 3 or x[1] == 1]
    ck.pmap('validity', vl, lambda c, x: c.case('validity', x, c_valid, *x),
            chunk=16)
    gr = [(z, v) for z in ((0.0, 14.0, 1.0), (0.0, 17.0, 1.0),
                           (0.0, 20.0, 0.5), (0.0, 90.0, 5.0),
                           (0.0, 10.0, 5.0), (0.0, 9.0, 1.0), (0.0, 5.0, 1.0),
                           (0.0, 6.3, 0.7), (0.0, 1.0, 0.1), (0.0, 5.0, 5.0),
                           (0.0, 80.0, 2.5), (5.0, 85.0, 5.0))
          for v in (0.0, 394.0, -1501.8, 12345.67, -12345.67, 0.01,
                    -999999.99)]
    ck.pmap('grid', gr, lambda c, x: c.case('grid', x, c_grid, *x), chunk=6)
    ck.pmap('allsats', list(range(4 if not th else 12)),
            lambda c, x: c.case('allsats', x, c_allsats, x), chunk=1)
    ng = [(n, k) for n in (1, 2, 3, 7) for k in range(4)]
    ck.pmap('ngs', ng, lambda c, x: c.case('ngs', x, c_ngs, *x), chunk=4)
    ck.bound(intervals='all sets of up to 3 non-overlapping intervals over 5 '
             'time points incl. open ends, file orders, two files',
             frequencies='all subsets of the bands of each system',
             stations='all sequences of up to %d records' % (3 if th else 2))
