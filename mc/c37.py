""" C37 almanacs and system parameters """
import datetime as dt
import itertools
import math
import os
import tempfile
import time
import numpy as np
from cssrlib import ephemeris as ep
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, gtime_t, Alm, prn2sat
from mc import c21
from mc.core import expect

OM = 7.2921151467e-5
MU = {'G': 3.9860050e14, 'J': 3.9860050e14, 'E': 3.986004418e14,
      'C': 3.986004418e14}
OMGE = {'G': OM, 'J': OM, 'E': OM, 'C': 7.292115e-5}
SYS = {'G': uGNSS.GPS, 'J': uGNSS.QZS, 'E': uGNSS.GAL, 'C': uGNSS.BDS}
E0 = {'G': 315964800, 'J': 315964800, 'E': 935280000, 'C': 1136073600}
# Unix-like count of the start of each time scale; BDT and GPST differ by 14 s
E0['C'] += 14
WS = 604800


def instant(sys, week, tow):
    return E0[sys]+week*WS+tow


def at(t):
    return t.time+t.sec


def prn(sys, k):
    return k+192 if sys == 'J' else k


FIELDS = [('ID', 'id'), ('Health', 'svh'), ('Eccentricity', 'e'),
          ('Time of Applicability(s)', 'toas'),
          ('Orbital Inclination(rad)', 'i0'),
          ('Rate of Right Ascen(r/s)', 'OMGd'), ('SQRT(A)  (m 1/2)', 'sqA'),
          ('Right Ascen at Week(rad)', 'OMG0'),
          ('Argument of Perigee(rad)', 'omg'), ('Mean Anom(rad)', 'M0'),
          ('Af0(s)', 'af0'), ('Af1(s/s)', 'af1'), ('week', 'week')]


def entry(sys, k, week, toas, v=0):
    """ distinguishable values; v: variant """
    s = (5153.6, 6493.4, 5440.6, 5282.6)['GJEC'.index(sys)]
    return dict(id=prn(sys, k), svh=(0, 63, 255, 7)[v % 4],
                e=(0., .0123, .0747, 4e-5)[v % 4]+k*1e-6, toas=float(toas),
                i0=.9+.01*k+.02*v, OMGd=-(7.9e-9+k*1e-11+v*1e-10),
                sqA=s+.01*k, OMG0=-3.0+.19*k+.1*v, omg=2.9-.17*k,
                M0=-1.5+.09*k+.3*v, af0=(-1)**k*(1e-4+k*1e-6),
                af1=(-1)**v*k*1e-12, week=week)


def yuma(es, toa=False):
    o = []
    for x in es:
        o.append(f'******** Week {x["week"]} almanac for PRN-{x["id"]:02d} '
                 '********')
        for lab, k in FIELDS:
            if k == 'OMG0' and toa:
                lab = 'Right Ascen at TOA(rad)'
            v = f'{x[k]:02d}' if k == 'id' else f'{x[k]:03d}' \
                if k == 'svh' else f'{x[k]:d}' if k == 'week' else \
                f'{x[k]:.4f}' if k == 'toas' else f'{x[k]: .10E}'
            o.append(f'{lab+":":27s}{v}')
        o.append('')
    return '\n'.join(o)+'\n'


class files:
    def __init__(self, txt, ext):
        h, self.p = tempfile.mkstemp(suffix=ext)
        os.write(h, txt.encode())
        os.close(h)

    def __enter__(self):
        return self.p

    def __exit__(self, *a):
        os.unlink(self.p)


def same(a, x, sys, week, what):
    expect(a.sat == prn2sat(SYS[sys], x['id']), f'{what}: satellite {a.sat}')
    for k in ('e', 'i0', 'OMGd', 'OMG0', 'omg', 'M0', 'af0', 'af1', 'toas'):
        expect(abs(getattr(a, k)-x[k]) <= 1e-9*abs(x[k]), lambda:
               f'{what}: {k} {getattr(a, k)}, file has {x[k]}')
    expect(abs(a.A-x['sqA']**2) < 1e-9*a.A, f'{what}: A {a.A}')
    expect(a.svh == x['svh'], f'{what}: health {a.svh}, not {x["svh"]}')
    w = instant(sys, week, x['toas'])
    expect(abs(at(a.toa)-w) < 1e-6, lambda: f'{what}: time of applicability '
           f'{(at(a.toa)-w)/WS} weeks off')


def now(sys):
    """ current week of the time scale """
    return int((time.time()+18-E0[sys])//WS)


def load(sys, lst, toa):
    """ lst: [(satellite, weeks ago, toa, variant)] """
    ref = now(sys)
    es = [entry(sys, k, (ref-ago) % 1024, s, v) for k, ago, s, v in lst]
    with files(yuma(es, toa), '.alm') as p:
        r = ep.loadyuma(p, SYS[sys])
    if now(sys) != ref:
        return 0        # turn of the week meanwhile
    expect(len(r) == len(lst), f'{len(r)} almanacs of {len(lst)}')
    for a, x, c in zip(r, es, lst):
        same(a, x, sys, ref-c[1], f'satellite {x["id"]}')
    return len(r)


def xml(lst, issue, extra=''):
    o = ['<?xml version="1.0" encoding="UTF-8"?><signalData><header>'
         '<GAL-header><source>GSC</source><destination>x</destination>'
         f'<issueDate>{issue}</issueDate><signalVersion>1.2</signalVersion>'
         '</GAL-header></header><body><Almanacs>']
    for x in lst:
        o.append(
            f'<svAlmanac><SVID>{x["id"]}</SVID><almanac>'
            f'<aSqRoot>{x["dsq"]}</aSqRoot><ecc>{x["e"]}</ecc>'
            f'<deltai>{x["di"]}</deltai><omega0>{x["O"]}</omega0>'
            f'<omegaDot>{x["Od"]}</omegaDot><w>{x["w"]}</w><m0>{x["M"]}</m0>'
            f'<af0>{x["af0"]}</af0><af1>{x["af1"]}</af1><iod>{x["iod"]}</iod>'
            f'<t0a>{x["t0a"]}</t0a><wna>{x["wna"]}</wna></almanac>'
            f'<svFNavSignalStatus><statusE5a>{x["st"][0]}</statusE5a>'
            '</svFNavSignalStatus><svINavSignalStatus>'
            f'<statusE5b>{x["st"][1]}</statusE5b>'
            f'<statusE1B>{x["st"][2]}</statusE1B></svINavSignalStatus>'
            '</svAlmanac>')
    return ''.join(o)+'</Almanacs></body></signalData>'


def xitem(k, week, t0a, v=0):
    return dict(id=k, dsq=(-.005859375, .0, .107421875)[v % 3],
                e=(.00015, .0, .1663818)[v % 3], di=.01*v-.015,
                O=-.9+.05*k, Od=-1.9e-9-k*1e-11, w=.7-.03*k, M=-.99+.055*k,
                af0=(-1)**v*1e-5*k, af1=(-1)**k*3e-12*v, iod=v % 16, t0a=t0a,
                wna=week % 4, st=((0, 0, 0), (1, 2, 3), (3, 0, 1))[v % 3],
                week=week)


def loadx(week, tow, items, zone):
    """ items: [(satellite, week difference, t0a, variant)] """
    t = dt.datetime(1970, 1, 1)+dt.timedelta(seconds=E0['E']+week*WS+tow)
    ls = [xitem(k, week+d, s, v) for k, d, s, v in items]
    with files(xml(ls, t.isoformat(timespec='milliseconds')+zone),
               '.xml') as p:
        r = ep.loadXmlAlmanac(p)
    expect(len(r) == len(ls), f'{len(r)} almanacs')
    for a, x in zip(r, ls):
        pi = math.pi
        expect(a.sat == prn2sat(uGNSS.GAL, x['id']), 'satellite')
        for k, w in (('e', x['e']), ('i0', 56*pi/180+x['di']*pi),
                     ('OMG0', x['O']*pi), ('OMGd', x['Od']*pi),
                     ('omg', x['w']*pi), ('M0', x['M']*pi),
                     ('af0', x['af0']), ('af1', x['af1']),
                     ('A', (x['dsq']+math.sqrt(29600e3))**2),
                     ('toas', x['t0a'])):
            expect(abs(getattr(a, k)-w) <= 1e-11*abs(w), lambda:
                   f'{k} {getattr(a, k)} not {w}')
        s = x['st']
        expect(a.svh == (s[0] << 4 | s[1] << 2 | s[2]), f'status {a.svh}')
        w = instant('E', x['week'], x['t0a'])
        expect(abs(at(a.toa)-w) < 1e-6, lambda: 'time of applicability '
               f'{(at(a.toa)-w)/WS} weeks off')
    return len(r)


def kepler(sys, x, toa, t):
    """ almanac algorithm of the interface specifications """
    mu, om = MU[sys], OMGE[sys]
    A = x['sqA']**2
    tk = t-toa
    M = math.fmod(x['M0']+math.sqrt(mu/A**3)*tk, 2*math.pi)
    lo, hi = M-1, M+1
    for _ in range(80):         # bisection
        E = (lo+hi)/2
        if E-x['e']*math.sin(E) < M:
            lo = E
        else:
            hi = E
    e = x['e']
    f = math.atan2(math.sqrt(1-e*e)*math.sin(E), math.cos(E)-e)
    u, r = f+x['omg'], A*(1-e*math.cos(E))
    O = x['OMG0']+(x['OMGd']-om)*tk-om*x['toas']
    xp, yp = r*math.cos(u), r*math.sin(u)
    ci, si = math.cos(x['i0']), math.sin(x['i0'])
    return np.array([xp*math.cos(O)-yp*ci*math.sin(O),
                     xp*math.sin(O)+yp*ci*math.cos(O), yp*si]), \
        x['af0']+x['af1']*tk


def mk(sys, k, week, toas, v):
    x = entry(sys, k, week, toas, v)
    a = Alm(prn2sat(SYS[sys], x['id']))
    for n in ('e', 'i0', 'OMGd', 'OMG0', 'omg', 'M0', 'af0', 'af1', 'toas',
              'svh', 'week'):
        setattr(a, n, x[n])
    a.A = x['sqA']**2
    w = instant(sys, week, toas)
    a.toa = gtime_t(int(w), w-int(w))
    return a, x, w


def position(sys, k, week, toas, v, ecc=None):
    a, x, w = mk(sys, k, week, toas, v)
    if ecc is not None:
        a.e = x['e'] = ecc
    n = 0
    for off in [0, .25, -.25, 3600, 43200, 302399, 302401, 604800.5, 1209600,
                -302399, -302401, -604801] + \
            [7200*j+.5 for j in range(-24, 24)] + \
            [86400*j for j in (3, 4, 10, 20, 60, -4, -8)]:
        t = w+off
        rs, dts = ep.alm2pos(gtime_t(int(t//1), t-t//1), a)
        r, d = kepler(sys, x, w, t)
        expect(np.max(np.abs(rs-r)) < 1., lambda: f'position {off} s after '
               f'toa {np.max(np.abs(rs-r))} m off')
        expect(abs(dts-d) < 1e-13, lambda: f'clock {off} s after toa: '
               f'{dts}, not {d}')
        n += 1
    return n


def find(sys, ds, tmax):
    """ ds: [(satellite, toa offset)] in storage order """
    al = [mk(sys, k, 2000 if sys in 'GJ' else 900, 405504+o*3600, 0)
          for k, o in ds]
    base = instant(sys, 2000 if sys in 'GJ' else 900, 405504)
    n = 0
    for sat in (1, 2, 3):
        s = prn2sat(SYS[sys], prn(sys, sat))
        for o in (-200, -31, -1, 0, 35, 37, 71, 73, 100, 200, 400):
            t = base+o*3600
            if tmax is None:
                r = ep.findalm([a for a, _, _ in al], gtime_t(t, 0.), s)
            else:
                r = ep.findalm([a for a, _, _ in al], gtime_t(t, 0.), s,
                               tmax*3600.)
            d = [abs(o-q) for k, q in ds if k == sat and (
                tmax is None or abs(o-q) <= tmax)]
            if not d:
                expect(r is None, f'almanac for {sat} at {o} h of {ds}')
                continue
            expect(r is not None, f'no almanac for {sat} at {o} h of {ds}')
            expect(r.sat == s, f'almanac of satellite {r.sat} for {s}')
            x = abs(t-at(r.toa))/3600
            expect(abs(x-min(d)) < 1e-6, f'almanac {x} h away, nearest of '
                   f'{ds} is {min(d)} h from {o}')
            n += 1
    return n+1


# --- parameters of navigation files ----------------------------------------

def num(*v):
    return ''.join(f'{x:19.12E}' for x in v)


def near(a, b):
    return abs(a-b) <= 1e-9*abs(b)


SCALE = {'GP': uGNSS.GPS, 'GL': uGNSS.GLO, 'GA': uGNSS.GAL, 'BD': uGNSS.BDS,
         'QZ': uGNSS.QZS, 'IR': uGNSS.IRN, 'SB': uGNSS.SBS, 'UT': uGNSS.NONE}
TYPE = {'LNAV': 0, 'FDMA': 1, 'IFNV': 2, 'D1D2': 3, 'SBAS': 4, 'CNVX': 5,
        'L1NV': 6, 'LXOC': 7}
CH = {'G': uGNSS.GPS, 'R': uGNSS.GLO, 'E': uGNSS.GAL, 'C': uGNSS.BDS,
      'J': uGNSS.QZS, 'I': uGNSS.IRN, 'S': uGNSS.SBS}
EPO = [(2023, 5, 17, 12, 0, 0), (2024, 2, 29, 23, 59, 42),
       (2021, 12, 31, 0, 0, 10), (2022, 1, 1, 1, 2, 3)]


class P:
    """ record of system parameters with values depending on n """
    def __init__(self, kind, sys, typ, n=0, sub='', mode='GPUT'):
        self.kind, self.sys, self.typ = kind, sys, typ
        self.n, self.sub, self.mode = n, sub, mode
        self.ep = EPO[n % len(EPO)]

    def v(self, k):
        return (-1)**(self.n+k)*(1.25+k+.5*self.n)*10.**(-(k % 10))

    def text(self):
        v = self.v
        o = f'> {self.kind} {self.sys}05 {self.typ}'
        if self.sub:
            o += ' '+self.sub
        o += '\n    '+'%04d %02d %02d %02d %02d %02d' % self.ep
        ln = '\n    '
        if self.kind == 'STO':
            return o+' '+self.mode+ln+num(*map(v, range(4)))+'\n'
        if self.kind == 'EOP':
            return o+num(v(0), v(1), v(2))+ln+' '*19+num(v(3), v(4), v(5)) + \
                ln+num(345600+self.n, v(6), v(7), v(8))+'\n'
        s, t = self.sys, self.typ
        if s == 'E':
            return o+num(v(0), v(1), v(2))+ln+num(self.n % 2)+'\n'
        if s == 'C' and t == 'CNVX':
            return o+num(v(0), v(1), v(2))+ln+num(*map(v, range(3, 7))) + \
                ln+num(v(7), v(8))+'\n'
        if self.sub == 'KLOB':
            return o+num(self.n+3)+ln+num(*map(v, range(4)))+ln + \
                num(*map(v, range(4, 8)))+ln+num(*map(v, range(8, 12)))+'\n'
        if self.sub == 'NEQN':
            return o+num(self.n+3)+''.join(
                ln+num(*map(v, range(4*j, 4*j+4))) for j in range(6))+'\n'
        if t == 'LXOC':
            return o+num(v(0), v(1), v(2))+'\n'
        return o+num(v(0), v(1), v(2))+ln+num(*map(v, range(3, 7)))+ln + \
            num(v(7), *([1.0] if s == 'J' and self.n % 2 else []))+'\n'

    def key(self):
        return self.kind, self.sys, self.typ

    def check(self, nav):
        v = self.v
        d = {'STO': nav.sto_prm, 'EOP': nav.eop_prm, 'ION': nav.ion_prm}
        w = f'{self.kind} {self.sys} {self.typ} {self.sub}'
        d = d[self.kind]
        expect(CH[self.sys] in d and TYPE[self.typ] in d[CH[self.sys]],
               f'{w} not stored')
        x = d[CH[self.sys]][TYPE[self.typ]]

        def eq(a, b, nm):
            a, b = np.array(a, float).ravel(), np.array(list(b), float)
            expect(len(a) == len(b) and all(map(near, a, b)), lambda:
                   f'{w}: {nm} {a} instead of {b}')

        def tm(t):
            y = (dt.datetime(*self.ep) -
                 dt.datetime(1970, 1, 1)).total_seconds()
            expect(abs(at(t)-y) < 1e-6, f'{w}: epoch {at(t)-y} s off')
        if self.kind == 'STO':
            tm(x.t_ot)
            eq(x.a, map(v, range(1, 4)), 'coefficients')
            expect(near(x.t_t, v(0)), f'{w}: transmission time {x.t_t}')
            eq(x.prm, [SCALE[self.mode[:2]], SCALE[self.mode[2:]]],
               'time scales')
        elif self.kind == 'EOP':
            tm(x.t_eop)
            eq(x.prm, map(v, range(9)), 'parameters')
            expect(x.t_t == 345600+self.n, f'{w}: transmission time {x.t_t}')
        else:
            tm(x.t_tm)
            if self.sys == 'E':
                eq(x.prm[:4], [v(0), v(1), v(2), self.n % 2], 'parameters')
            elif self.sub == 'KLOB':
                eq(x.prm[:8], map(v, range(8)), 'parameters')
                eq(x.region, map(v, range(8, 12)), 'region')
                expect(x.iod == self.n+3, f'{w}: issue {x.iod}')
            elif self.sub == 'NEQN':
                eq(x.prm, [v(8*j+k) for j in range(3) for k in range(8)],
                   'parameters')
                expect(x.iod == self.n+3, f'{w}: issue {x.iod}')
            elif self.typ == 'LXOC':
                eq(x.prm[:3], [v(0), v(1), v(2)], 'parameters')
            elif self.sys == 'C' and self.typ == 'CNVX':
                eq(x.prm[:9], map(v, range(9)), 'parameters')
            else:
                eq(x.prm[:8], map(v, range(8)), 'parameters')
                if self.sys == 'J':
                    expect(x.prm[8] == self.n % 2, f'{w}: region')


def kinds(n):
    o = [P('ION', *x, n) for x in (('G', 'LNAV'), ('G', 'CNVX'), ('J', 'LNAV'),
         ('J', 'CNVX'), ('C', 'D1D2'), ('C', 'CNVX'), ('E', 'IFNV'),
         ('I', 'LNAV'), ('R', 'LXOC'))]
    o += [P('ION', 'I', 'L1NV', n, s) for s in ('KLOB', 'NEQN')]
    o += [P('STO', s, t, n, mode=m) for s, t, m in (
        ('G', 'LNAV', 'GPUT'), ('G', 'CNVX', 'GPGA'), ('E', 'IFNV', 'GAGP'),
        ('C', 'D1D2', 'BDGP'), ('C', 'CNVX', 'BDGL'), ('J', 'LNAV', 'QZUT'),
        ('J', 'CNVX', 'QZGP'), ('I', 'LNAV', 'IRGP'), ('I', 'L1NV', 'IRUT'),
        ('R', 'FDMA', 'GLUT'), ('S', 'SBAS', 'SBUT'), ('R', 'LXOC', 'GLGP'))]
    o += [P('EOP', s, t, n) for s, t in (
        ('G', 'CNVX'), ('J', 'CNVX'), ('C', 'CNVX'), ('I', 'L1NV'),
        ('R', 'LXOC'), ('I', 'LNAV'))]
    return o


def records(seq, eph):
    """ sequence of records; the last one of each kind is kept """
    ps = [kinds(n)[k] for n, k in enumerate(seq)]
    tx = c21.header(4.0)
    rs = []
    for i, p in enumerate(ps):
        tx += p.text()
        if eph:
            r = c21.Rec('G', 'LNAV', 3+i, c21.WHEN, svh=0)
            rs.append(r)
            tx += r.text(4.0)
    nav = c21.read(tx)
    last = {p.key(): p for p in ps}
    for p in last.values():
        p.check(nav)
    expect(len(nav.eph) == len(rs), f'{len(nav.eph)} ephemerides of {len(rs)}')
    for e, r in zip(nav.eph, rs):
        c21.check(e, r, ())
    return len(ps)


def headers(lines, ver, leap, exp):
    """ header lines with coefficients of the ionosphere """
    h = c21.header(ver).split('\n')
    h = [x for x in h if 'LEAP' not in x]
    if leap is not None:
        h.insert(2, f'{leap:6d}{"":54s}LEAP SECONDS')
    val = {}
    for k, (c, n) in enumerate(lines):
        v = [(-1)**(n+j)*(1.1171+j+.01*n)*10.**(-8+j) if c[-1] == 'A' else
             (-1)**(n+j)*(1.1026+j+.1*n)*10.**(4+j % 3) for j in range(4)]
        s = ''.join(f'{x:12.4E}' for x in v).replace('E', exp)
        if c in ('GPSA', 'GPSB', 'QZSA', 'QZSB'):
            val[c[-1]] = [float(f'{x:12.4E}') for x in v]
        h.insert(2+k, f'{c:4s} {s}{"":7s}IONOSPHERIC CORR')
    nav = c21.read('\n'.join(h)+c21.Rec('G', 'LNAV', 3, c21.WHEN).text(ver))
    for k, c in enumerate('AB'):
        if c in val:
            expect(all(map(near, nav.ion[k], val[c])), lambda:
                   f'ionosphere {c}: {nav.ion[k]}, file has {val[c]}')
    if leap is not None:
        expect(nav.leaps == leap, f'leap seconds {nav.leaps}, not {leap}')
    expect(len(nav.eph) == 1, 'ephemeris lost')
    return 1


def run(ck):
    TH = ck.thorough
    it = []
    for s in SYS:
        ref = now(s)
        for ago in range(0, 1023 if TH else 1023, 1 if TH else 3):
            if ago < ref:
                it.append((s, [(1+ago % 8, ago, (405504, 61440, 0, 604799)[
                    ago % 4], ago % 4)], ago % 2 == 0))
        it.append((s, [(3, -1, 0, 0)], False))
        top = {'G': 32, 'J': 7, 'E': 36, 'C': 63}[s]
        for v in range(4):
            it.append((s, [(k, 2, 319488, v) for k in range(1, top+1)],
                       v % 2 == 0))
        for m in (2, 3):
            for ks in itertools.permutations((1, 2, 5), m):
                it.append((s, [(k, j, 4096*k, j) for j, k in enumerate(ks)],
                           False))
    ck.pmap('yuma', it, lambda c, x: c.case('yuma', x, load, *x), chunk=100)
    it = []
    for w in range(1200, 1210):
        for tow in (0, 18, 302400, 604799):
            for d in (-1, 0, 1):
                for s in (0, 600, 345600, 604200):
                    for v in range(3):
                        it.append((w, tow, [(1+v*7, d, s, v)],
                                   ('Z', '', '+00:00')[v]))
    it += [(1300, 5, [(k, k % 3-1, k*600, k) for k in range(1, n+1)], 'Z')
           for n in range(37)]
    ck.pmap('xml', it, lambda c, x: c.case('xml', x, loadx, *x), chunk=100)
    it = [(s, k, w, toa, v, e) for s in SYS for k in ((1, 5) if not TH else
          range(1, 8)) for w in ((2200,) if s in 'GJ' else (1000,))
          for toa in (0, 61440, 405504, 604799) for v in range(4)
          for e in ((None, .1663) if not TH else (None, 0., .03, .1, .1663))]
    ck.pmap('position', it, lambda c, x: c.case('position', x, position, *x),
            chunk=20)
    al = [(1, 0), (1, 36), (1, 72), (2, 0), (2, 72), (1, -168)]
    it = [(s, list(p), tm) for s in SYS for m in range(0, 4 if not TH else 5)
          for p in itertools.permutations(al, m)
          for tm in (None, 48, 144)]
    ck.pmap('find', it, lambda c, x: c.case('find', x, find, *x), chunk=100)
    N = len(kinds(0))
    it = [(q, e) for m in (1, 2) for q in itertools.product(
        range(N), repeat=m) for e in (False, True)]
    if TH:
        it += [(q, False) for q in itertools.product(range(N), repeat=3)]
    else:
        it += [(q, True) for q in itertools.permutations((0, 4, 6, 9, 10, 11,
                                                          12, 23, 26), 3)]
    ck.pmap('records', it, lambda c, x: c.case('records', x, records, *x),
            chunk=100)
    sets = [('GPSA', 'GPSB'), ('GPSB', 'GPSA'), ('QZSA', 'QZSB'), ('GPSA',),
            ('GPSB',), ('GAL ', 'GPSA', 'GPSB'), ('GPSA', 'BDSA', 'BDSB',
                                                  'GPSB'), ()]
    it = [([(c, n+k) for k, c in enumerate(s)], ver, lp, e) for s in sets
          for n in range(4) for ver in (3.04, 3.05, 4.0)
          for lp in (None, 17, 18, 19) for e in 'ED']
    ck.pmap('headers', it, lambda c, x: c.case('headers', x, headers, *x),
            chunk=50)
    ck.bound(records=N, sequence=3, weeks=1023)
