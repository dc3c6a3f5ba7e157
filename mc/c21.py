""" C21 RINEX navigation files """
import datetime as dt
import io
import itertools
import numpy as np
from cssrlib import gnss as g
from cssrlib import rinex as rn
from mc.core import expect
from mc.rnxtxt import SYSC, OFF, files

LEAP = 18
GPS0 = dt.datetime(1980, 1, 6)
BDT0 = dt.datetime(2006, 1, 1)
UNIX = dt.datetime(1970, 1, 1)

_kep = [['af0', 'af1', 'af2'],
        ['O10', 'crs', 'deln', 'M0'],
        ['cuc', 'e', 'cus', 'sqrtA'],
        ['O30', 'cic', 'OMG0', 'cis'],
        ['i0', 'crc', 'omg', 'OMGd']]


def fmt(o10, o30, *rows):
    r = [list(x) for x in _kep]
    r[1][0] = o10
    r[3][0] = o30
    return r+[list(x) for x in rows]


# published layouts; None: spare, trailing '?': optional (may be blank)
FMT = {
    ('G', 'LNAV'): fmt('iode', 'toes', ['idot', 'code?', 'week', 'l2p?'],
                       ['sva', 'svh', 'tgd', 'iodc'],
                       ['ttm', 'fit?', None, None]),
    ('J', 'LNAV'): fmt('iode', 'toes', ['idot', None, 'week', None],
                       ['sva', 'svh', 'tgd', 'iodc'],
                       ['ttm', 'fit?', None, None]),
    ('G', 'CNAV'): fmt('Adot', 'tops', ['idot', 'delnd', 'urai0', 'urai1'],
                       ['urai3', 'svh', 'tgd', 'urai2'],
                       ['isc0?', 'isc1?', 'isc2?', 'isc3?'],
                       ['ttm', 'wn_op', 'integ?', None]),
    ('G', 'CNV2'): fmt('Adot', 'tops', ['idot', 'delnd', 'urai0', 'urai1'],
                       ['urai3', 'svh', 'tgd', 'urai2'],
                       ['isc0?', 'isc1?', 'isc2?', 'isc3?'],
                       ['isc4?', 'isc5?', None, None],
                       ['ttm', 'wn_op', 'integ?', None]),
    ('E', 'INAV'): fmt('iode', 'toes', ['idot', 'code', 'week', None],
                       ['sva', 'svh', 'tgd', 'tgd_b'],
                       ['ttm', None, None, None]),
    ('E', 'FNAV'): fmt('iode', 'toes', ['idot', 'code', 'week', None],
                       ['sva', 'svh', 'tgd', 'tgd_b'],
                       ['ttm', None, None, None]),
    ('C', 'D1'): fmt('iode', 'toes', ['idot', None, 'week', None],
                     ['sva', 'svh', 'tgd', 'tgd_b'],
                     ['ttm', 'iodc', None, None]),
    ('C', 'CNV1'): fmt('Adot', 'toes', ['idot', 'delnd', 'sattype', 'tops'],
                       ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
                       ['isc0', None, 'tgd', 'tgd_b'],
                       ['sismai', 'svh', 'integ', 'iodc'],
                       ['ttm', None, None, 'iode']),
    ('C', 'CNV2'): fmt('Adot', 'toes', ['idot', 'delnd', 'sattype', 'tops'],
                       ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
                       [None, 'isc1', 'tgd', 'tgd_b'],
                       ['sismai', 'svh', 'integ', 'iodc'],
                       ['ttm', None, None, 'iode']),
    ('C', 'CNV3'): fmt('Adot', 'toes', ['idot', 'delnd', 'sattype', 'tops'],
                       ['sisai0', 'sisai1', 'sisai2', 'sisai3'],
                       ['sismai', 'svh', 'integ', 'tgd'],
                       ['ttm', None, None, None]),
    ('I', 'LNAV'): fmt('iode', 'toes', ['idot', None, 'week', None],
                       ['sva', 'svh', 'tgd', None],
                       ['ttm', None, None, None]),
    ('I', 'L1NV0'): fmt('Adot', 'iode', ['idot', 'delnd', None, 'integ'],
                        ['uraiI', 'svh', 'tgd', None],
                        ['isc5', 'isc4', None, None],
                        ['ttm', None, None, None]),
    ('I', 'L1NV1'): fmt('Adot', 'iode', ['idot', 'delnd', None, 'integ'],
                        ['uraiI', 'svh', None, 'tgd'],
                        [None, None, 'isc5', 'isc4'],
                        ['ttm', None, None, None]),
    ('R', 'FDMA4'): [['mtaun', 'gamn', 'tk'],
                     ['x', 'vx', 'ax', 'svh'],
                     ['y', 'vy', 'ay', 'frq'],
                     ['z', 'vz', 'az', 'age']],
    ('R', 'FDMA'): [['mtaun', 'gamn', 'tk'],
                    ['x', 'vx', 'ax', 'svh'],
                    ['y', 'vy', 'ay', 'frq'],
                    ['z', 'vz', 'az', 'age'],
                    ['status?', 'dtaun?', 'sva?', 'hflag?']],
    ('R', 'L1OC'): [['mtaun', 'gamn', 'beta'],
                    ['x', 'vx', 'ax', 'svh'],
                    ['y', 'vy', 'ay', 'status'],
                    ['z', 'vz', 'az', 'isc1'],
                    ['sattype', 'src', 'aode', 'aodc'],
                    ['flag', 'tin', 'tau1', 'tau2'],
                    ['psi', 'sn', 'win', 'dw'],
                    ['wmax', 'dpos0', 'dpos1', 'dpos2'],
                    ['urai0', 'urai1', 'ttm', None]],
    ('S', 'SBAS'): [['af0', 'af1', 'ttm'],
                    ['x', 'vx', 'ax', 'svh'],
                    ['y', 'vy', 'ay', 'sva'],
                    ['z', 'vz', 'az', 'iodn']],
}
FMT['J', 'CNAV'] = FMT['G', 'CNAV']
FMT['J', 'CNV2'] = FMT['G', 'CNV2']
FMT['C', 'D2'] = FMT['C', 'D1']
_l3 = [list(x) for x in FMT['R', 'L1OC']]
_l3[3][3] = 'isc2'
FMT['R', 'L3OC'] = _l3

MODE = {'LNAV': 0, 'D1': 0, 'D2': 0, 'INAV': 0, 'FNAV': 1, 'CNAV': 1,
        'CNV1': 1, 'CNV2': 2, 'CNV3': 3, 'L1NV0': 2, 'L1NV1': 2, 'FDMA': 0,
        'FDMA4': 0, 'L1OC': 1, 'L3OC': 3, 'SBAS': 0}
INTS = {'iode', 'iodc', 'code', 'week', 'l2p', 'svh', 'fit', 'urai0',
        'urai1', 'urai2', 'urai3', 'wn_op', 'integ', 'sattype', 'sisai0',
        'sisai1', 'sisai2', 'sisai3', 'sismai', 'frq', 'age', 'status',
        'sva', 'hflag', 'src', 'flag', 'sn', 'iodn', 'tops', 'uraiI'}

# typical values, all distinct
TYP = dict(
    af0=-1.234567890123e-04, af1=3.410605131648e-12, af2=1.3552527156e-20,
    crs=-7.846875e+01, deln=4.351252649e-09, M0=-2.345678901234e+00,
    cuc=-4.142522811890e-06, e=1.234567890123e-02, cus=8.773058652878e-06,
    sqrtA=5.153612345678e+03, cic=-1.303851604462e-07,
    OMG0=2.987654321098e+00, cis=6.146728992462e-08, i0=9.612345678901e-01,
    crc=2.123125e+02, omg=-1.654321098765e+00, OMGd=-8.123456789012e-09,
    idot=-3.567891234567e-10, Adot=2.6123046875e-02,
    delnd=-1.234e-13, tgd=-1.0710209608e-08, tgd_b=4.65661287308e-09,
    isc0=1.11e-9, isc1=-2.22e-9, isc2=3.33e-9, isc3=-4.44e-9, isc4=5.55e-9,
    isc5=-6.66e-9, iode=77, iodc=845, code=1, l2p=1, sva=2.4, svh=5, fit=4,
    urai0=-3, urai1=6, urai2=2, urai3=-5, wn_op=2140, integ=1, sattype=3,
    sisai0=11, sisai1=12, sisai2=13, sisai3=14, sismai=9, tops=345600,
    uraiI=7,
    mtaun=-4.567891234567e-05, gamn=9.094947017729e-13, tk=0.0,
    x=7.003412345678e+03, vx=-8.339757919312e-01, ax=9.313225746155e-10,
    y=-1.2206259765625e+04, vy=2.802085876465e+00, ay=-1.862645149231e-09,
    z=2.128064550781e+04, vz=1.889257431030e+00, az=2.793967723846e-09,
    frq=-4, age=3, status=179, dtaun=-3.725290298462e-09, hflag=6,
    beta=1.5e-19, src=6, aode=1.25, aodc=0.5, flag=1, tin=43210.0,
    tau1=123.5, tau2=456.25, psi=0.75, sn=1, win=0.012, dw=-0.0015,
    wmax=0.0305, dpos0=0.5, dpos1=-0.25, dpos2=2.125, iodn=23)


def gt(d, frac=0.0):
    """ datetime (GPS time scale) -> seconds of the library's time """
    return (d-UNIX).days*86400+(d-UNIX).seconds


def wk(d, o):
    x = (d-o).days*86400+(d-o).seconds
    return divmod(x, 604800)


class Rec:
    """ one record: values by field name, epoch in its system time """

    def __init__(self, c, f, prn, when, **kw):
        self.c, self.f, self.prn, self.t = c, f, prn, when
        self.v = dict(TYP)
        o = BDT0 if c == 'C' else GPS0
        self.v['week'], self.v['toes'] = wk(when, o)
        self.v['ttm'] = self.v['toes']-7200 if self.v['toes'] >= 7200 \
            else self.v['toes']+30
        if c in 'R':
            self.v['tk'] = (wk(when, GPS0)[1]-900) % 604800
            self.v['ttm'] = self.v['tk']
            self.v['sva'] = 4
            self.v['svh'] = 1
        if c == 'S':
            self.v['ttm'] = wk(when, GPS0)[1]
        if c == 'E':
            self.v['code'] = 517 if f == 'INAV' else 258
            self.v['sva'] = 3.12
        if c == 'C':
            self.v['iode'], self.v['iodc'] = 5, 7
            self.v['sva'] = 2.0
        if c == 'G' and f == 'LNAV':
            self.v['iodc'] = 845
        if f.startswith('L1NV'):
            self.v['integ'] = int(f[4])
            self.v['svh'] = 1
        if f == 'FDMA4':
            self.v['svh'] = 1
        self.v.update(kw)

    def text(self, ver, blank=(), trim=False, style='E'):
        c = self.c
        t = self.t
        o = []
        f = {'L1NV0': 'L1NV', 'L1NV1': 'L1NV', 'FDMA4': 'FDMA'}.get(
            self.f, self.f)
        if ver >= 4:
            o.append(f'> EPH {c}{self.prn:02d} {f:4s}')
        rows = FMT[c, self.f]
        for i, row in enumerate(rows):
            s = f'{c}{self.prn:02d} {t.year:4d} {t.month:02d} {t.day:02d} ' \
                f'{t.hour:02d} {t.minute:02d} {t.second:02d}' if i == 0 \
                else ' '*4
            for j, k in enumerate(row):
                if k is None or k.rstrip('?') in blank or \
                        ('spare', i, j) in blank:
                    s += ' '*19
                    continue
                x = f'{self.v[k.rstrip("?")]:19.12E}'
                if style == 'D':
                    x = x.replace('E', 'D')
                elif style == 'e':
                    x = x.replace('E', 'e')
                s += x
            if trim:
                s = s.rstrip()
            o.append(s)
        return '\n'.join(o)+'\n'

    def expect(self, blank=()):
        """ attribute -> value (as the file means it) """
        def val(k):
            if k in blank:
                return 0
            v = self.v[k]
            return float(f'{v:19.12E}')
        rows = FMT[self.c, self.f]
        names = [k.rstrip('?') for r in rows for k in r if k is not None]
        return {k: val(k) for k in names}


def close(a, b):
    return abs(float(a)-b) <= 2e-12*abs(b)+1e-300


def near(t, s, tol=1e-6):
    return abs((t.time-s)+t.sec) < tol


def fieldof(e, k):
    if k[-1].isdigit() and k[:-1] in ('isc', 'urai', 'sisai', 'dpos'):
        return np.ravel(getattr(e, k[:-1]))[int(k[-1])]
    if k == 'uraiI':
        return np.ravel(e.urai)[0]
    return getattr(e, k)


def check(e, r, blank=(), skip=()):
    """ object e holds the values of record r """
    sat = g.prn2sat(SYSC[r.c], r.prn+OFF.get(r.c, 0))
    expect(e.sat == sat, lambda: f'satellite {e.sat} expected {sat}')
    expect(e.mode == MODE[r.f], lambda: f'{r.c} {r.f}: mode {e.mode}')
    w = r.expect(blank)
    o = gt(r.t)
    what = f'{r.c}{r.prn:02d} {r.f}'

    def eq(k, got, exp):
        expect(close(got, exp), lambda: f'{what}: {k} = {got}, file {exp}')
    if r.c == 'R':
        expect(near(e.toe, o+LEAP), f'{what}: toe {e.toe.time}')
        if 'tk' in w or 'ttm' in w:
            x = (o-w.get('tk', w.get('ttm'))-gt(GPS0)) % 86400
            x = x if x < 43200 else x-86400
            expect(near(e.tof, o-x+LEAP), lambda: f'{what}: message time '
                   f'{e.tof.time} expected {o-x+LEAP}')
        eq('taun', e.taun, -w.pop('mtaun'))
        for i, a in enumerate('xyz'):
            eq(a, e.pos[i], w.pop(a)*1e3)
            eq('v'+a, e.vel[i], w.pop('v'+a)*1e3)
            eq('a'+a, e.acc[i], w.pop('a'+a)*1e3)
        w.pop('tk', 0)
        w.pop('ttm', 0)
        if 'hflag' in w:
            h = int(w.pop('hflag'))
            un = int(w.pop('svh')) > 0 or h & 1 or h & 6 == 2
            expect((e.svh > 0) == bool(un), lambda: f'{what}: svh {e.svh}, '
                   f'file health flags {h}')
        if 'sva' in w:
            v = w.pop('sva')
            expect(v in (e.sva, e.urai[0]), f'{what}: accuracy {e.sva}')
        if 'status' in w and r.f == 'FDMA':
            v = w.pop('status')
            expect(v in (e.status, e.flag), f'{what}: status {e.status}')
        for k, v in w.items():
            eq(k, fieldof(e, k), v)
        return
    if r.c == 'S':
        expect(near(e.t0, o), f'{what}: t0 {e.t0.time}')
        d = (w.pop('ttm')-wk(r.t, GPS0)[1]+302400) % 604800-302400
        expect(near(e.tof, o+d), f'{what}: tof {e.tof.time} exp {o+d}')
        for i, a in enumerate('xyz'):
            eq(a, e.pos[i], w.pop(a)*1e3)
            eq('v'+a, e.vel[i], w.pop('v'+a)*1e3)
            eq('a'+a, e.acc[i], w.pop('a'+a)*1e3)
        for k, v in w.items():
            eq(k, fieldof(e, k), v)
        return
    off = 14 if r.c == 'C' else 0
    org = BDT0 if r.c == 'C' else GPS0
    expect(near(e.toc, o+off), f'{what}: toc {e.toc.time} exp {o+off}')
    week = int(w.pop('week', wk(r.t, org)[0]))
    expect(e.week == week, f'{what}: week {e.week} expected {week}')
    toes = w.pop('toes', wk(r.t, org)[1])
    base = gt(org)+week*604800+off
    expect(near(e.toe, base+toes), lambda: f'{what}: toe {e.toe.time} '
           f'expected {base+toes}')
    eq('toes', e.toes, toes)
    tt = w.pop('ttm')
    expect(near(e.tot, base+tt), lambda: f'{what}: transmission time '
           f'{e.tot.time} expected {base+tt}')
    x = w.pop('sqrtA')
    expect(abs(e.A-x*x) <= 1e-11*x*x, f'{what}: A {e.A}')
    if r.c == 'J':
        v = int(w.pop('svh'))
        expect(e.svh | e.code == v, lambda: f'{what}: health {e.svh} '
               f'{e.code} file {v}')
    if r.f == 'INAV' or r.f == 'FNAV':
        expect(e.iodc == w['iode'], f'{what}: iodc {e.iodc}')
    if r.f.startswith('L1NV'):
        v = w.pop('iode')
        expect(e.iode == v and e.iodc == v, f'{what}: issue of data '
               f'{e.iode} {e.iodc}, file {v}')
    for k, v in w.items():
        if k in skip:
            continue
        eq(k, fieldof(e, k), v)


def header(ver):
    return (f"{ver:9.2f}           {'NAVIGATION DATA':20s}{'M':20s}"
            "RINEX VERSION / TYPE\n"
            f"{'check':20s}{'none':20s}{'20240101 000000 UTC':20s}"
            "PGM / RUN BY / DATE\n"
            f"{18:6d}{'':54s}LEAP SECONDS\n"
            f"{'':60s}END OF HEADER\n")


def read(txt, nav=None, append=False, gz=False):
    nav = nav or g.Nav()
    d = rn.rnxdec()
    with files() as f:
        p = f.put(txt, '.rnx.gz' if gz else '.rnx')
        if append:
            r = d.decode_nav(p, nav, True)
        else:
            r = d.decode_nav(p, nav)
    expect(r is nav, 'decode_nav result')
    return nav


def lists(nav):
    return nav.eph, nav.geph, nav.seph


def split(recs):
    return ([r for r in recs if r.c not in 'RS'],
            [r for r in recs if r.c == 'R'], [r for r in recs if r.c == 'S'])


def judge(nav, recs, blank=(), skip=()):
    for got, exp, nm in zip(lists(nav), split(recs),
                            ('eph', 'geph', 'seph')):
        expect(len(got) == len(exp), lambda: f'{len(got)} records in {nm}, '
               f'file has {len(exp)}')
        for e, r in zip(got, exp):
            check(e, r, blank, skip)


def vers(c, f):
    if f == 'FDMA4':
        return [3.02, 3.04]
    if f == 'FDMA':
        return [3.05, 4.0, 4.02]
    if f == 'FNAV':
        return [3.04, 4.0]
    if MODE[f] == 0 and f != 'D2':
        return [3.03, 3.05, 4.0]
    return [4.0, 4.02]


PRN = {'G': 7, 'E': 11, 'C': 23, 'J': 2, 'I': 5, 'R': 14, 'S': 37}
WHEN = dt.datetime(2023, 5, 17, 14, 0, 0)


def dump(nav):
    """ canonical content of everything stored """
    out = []
    for l in lists(nav):
        for e in l:
            d = {}
            for k, v in sorted(vars(e).items()):
                if isinstance(v, g.gtime_t):
                    v = round((v.time % 10**10)+v.sec, 6)
                elif isinstance(v, (list, np.ndarray)):
                    v = tuple(float(x) for x in v)
                elif isinstance(v, (int, float, np.number)):
                    v = float(v)
                d[k] = v
            out.append(d)
    return out


def same(a, b, ver):
    expect(len(a) == len(b), f'{len(a)} ephemerides before, {len(b)} after '
           'writing and reading')

    def eq(x, y):
        if isinstance(x, tuple):
            return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        return abs(x-y) <= 1e-11*abs(x)+1e-300
    for p, q in zip(a, b):
        for k in p:
            if k in ('yaw',):
                continue
            expect(k in q and eq(p[k], q[k]), lambda: f'satellite '
                   f'{p["sat"]:.0f} mode {p["mode"]:.0f}: {k} {p[k]} became '
                   f'{q.get(k)} after writing and reading')


def write(nav, twice=False):
    e = rn.rnxenc()
    fh = io.StringIO()
    e.rnx_nav_header(fh)
    for _ in range(2 if twice else 1):
        for x in nav.eph:
            e.rnx_nav_body(x, fh)
        for x in nav.geph:
            e.rnx_gnav_body(x, fh)
        for x in nav.seph:
            e.rnx_snav_body(x, fh)
    return fh.getvalue()


def roundtrip(nav, recs, skip=()):
    """ write everything read, read again, same content """
    before = dump(nav)
    tx = write(nav)
    expect(dump(nav) == before, 'writing changed the ephemerides')
    for ln in tx.split('\n'):
        expect(len(ln) <= 80, f'line longer than 80 characters {ln!r}')
    nav2 = read(tx)
    same(before, dump(nav2), 4)


def field(c, f, ver, name, vals):
    for v in vals:
        for style in ('E', 'D'):
            r = Rec(c, f, PRN[c], WHEN, **{name: v})
            nav = read(header(ver)+r.text(ver, style=style))
            judge(nav, [r])
        if not (c == 'R' and name == 'hflag'):
            roundtrip(nav, [r])


def values(name, c, f):
    if name == 'week':
        return []
    if name in ('toes', 'ttm', 'tk'):
        if name == 'tk':
            return [(wk(WHEN, GPS0)[1]+d) % 604800 for d in
                    (0, -30, -3600, 1800)]
        if c == 'R':
            return [(wk(WHEN, GPS0)[1]+d) % 604800 for d in (0, -30, 300)]
        b = wk(WHEN, BDT0 if c == 'C' else GPS0)[1]
        if name == 'toes':
            return [0, 7200, b, b+3600, 604784, 604770]
        return [0, 518406, b-30, b+6, 604799] if c != 'S' else \
            [b, b-30, b+200, (b+300000) % 604800]
    if name in ('iode', 'iodc'):
        mx = {'iode': 255, 'iodc': 1023}[name] if c != 'E' else 1023
        return [0, 1, mx//2, mx]
    if name == 'code':
        return {'INAV': [513, 516, 517, 1] if False else
                [513, 516, 517, 512, 5], 'FNAV': [258, 2]}.get(
                    f, [0, 1, 2])
    if name == 'svh':
        if c == 'R':
            return [0, 1]
        if f.startswith('L1NV') or c == 'C':
            return [0, 1]
        return [0, 1, 16, 17, 32, 63]
    if name == 'frq':
        return [-7, -4, -1, 0, 1, 6]
    if name == 'integ' and f.startswith('L1NV'):
        return [int(f[4])]
    if name == 'sva':
        return [0, 2.0, 2.4, 3.4, 4.85, 6.85, 24.0, 8192.0] if c not in 'R' \
            else [0, 1, 4, 15]
    if name == 'hflag':
        return list(range(8))
    if name == 'l2p':
        return [0, 1]
    if name == 'fit':
        return [0, 1, 4, 6]
    if name == 'status':
        return [0, 1, 128, 179, 255]
    if name.startswith(('urai', 'uraiI')):
        return [0, 1, 15, -16] if name != 'uraiI' else [0, 1, 15]
    if name in INTS:
        return [0, 1, 3]
    if name == 'sqrtA':
        return [5153.612345678901, 6493.4123, 5440.6123456789]
    if name == 'e':
        return [0.0, 1e-5, 0.1, 0.4999]
    v = TYP[name]
    return [0.0, v, -v, v*7.77777777777, v*1e-3, 1e-19]


def satell(c, f, ver):
    rng = {'G': range(1, 33), 'E': range(1, 37), 'C': range(1, 64),
           'J': range(1, 11), 'I': range(1, 15), 'R': range(1, 28),
           'S': range(20, 59)}[c]
    recs = [Rec(c, f, p, WHEN, svh=0) for p in rng]
    if f in ('D1', 'D2'):
        geo = [p for p in rng if p <= 5 or p >= 59]
        recs = [r for r in recs if (r.prn in geo) == (f == 'D2')]
    nav = read(header(ver)+''.join(r.text(ver) for r in recs))
    judge(nav, recs)
    roundtrip(nav, recs)


def when(c, f, ver, d, dtoe, dttm):
    o = BDT0 if c == 'C' else GPS0
    if c == 'R':
        r = Rec(c, f, PRN[c], d)
        r.v['tk'] = r.v['ttm'] = (wk(d, GPS0)[1]+dttm) % 604800
    elif c == 'S':
        r = Rec(c, f, PRN[c], d)
        r.v['ttm'] = (wk(d, GPS0)[1]+dttm) % 604800
    else:
        w, s = wk(d+dt.timedelta(seconds=dtoe), o)
        r = Rec(c, f, PRN[c], d)
        if 'week' in r.expect() or 'toes' in r.expect():
            if 'week' in r.expect():
                r.v['week'], r.v['toes'] = w, s
            elif wk(d, o)[0] == w:
                r.v['toes'] = s
        wref = r.v['week']
        r.v['ttm'] = (d-o).total_seconds()+dttm-wref*604800
    nav = read(header(ver)+r.text(ver))
    judge(nav, [r])
    roundtrip(nav, [r])


def optional(c, f, ver, bl, trim):
    r = Rec(c, f, PRN[c], WHEN)
    if c == 'R' and f == 'FDMA':
        r.v['svh'] = 0
    nav = read(header(ver)+r.text(ver, bl, trim) +
               Rec('G', 'LNAV', 9, WHEN).text(ver))
    exp = [r, Rec('G', 'LNAV', 9, WHEN)]
    for got, ex, nm in zip(lists(nav), split(exp), ('eph', 'geph', 'seph')):
        expect(len(got) == len(ex), lambda: f'{len(got)} records in {nm}, '
               f'file has {len(ex)}')
        for e, x in zip(got, ex):
            check(e, x, bl if x is r else ())


# other version 4 records between the ephemerides
def num(*v):
    return ''.join(f'{x:19.12E}' for x in v)


OTHER = {
    'sto': '> STO G05 LNAV\n    2023 05 17 12 00 00 GPUT\n    ' +
           num(3.456e5, 1.5e-9, -2.5e-15, 0.0)+'\n',
    'stox': '> STO C05 CNVX\n    2023 05 17 12 00 00 BDUT\n    ' +
            num(3.456e5, 1.5e-9, -2.5e-15, 0.0)+'\n',
    'eop': '> EOP J02 CNVX\n    2023 05 17 12 00 00'+num(.1, .2, .3)+'\n' +
           '    '+' '*19+num(.4, .5, .6)+'\n    '+num(3.4e5, .7, .8, .9) +
           '\n',
    'klob': '> ION G02 LNAV\n    2023 05 17 12 00 00' +
            num(1.1e-8, 2.2e-8, -5.9e-8)+'\n    ' +
            num(-1.1e-7, 8.8e4, 6.5e4, -1.3e5)+'\n    '+num(-3.9e5)+'\n',
    'neq': '> ION E11 IFNV\n    2023 05 17 12 00 00'+num(66.25, -0.25, 0.01) +
           '\n    '+num(0.0)+'\n',
    'bdg': '> ION C30 CNVX\n    2023 05 17 12 00 00'+num(1.5, 2.5, 3.5) +
           '\n    '+num(4.5, 5.5, 6.5, 7.5)+'\n    '+num(8.5, 9.5)+'\n',
}


def others(seq, nav):
    """ contents of the other records """
    if 'klob' in seq:
        p = nav.ion_prm[g.uGNSS.GPS][0].prm
        expect(np.allclose(p[:8], [1.1e-8, 2.2e-8, -5.9e-8, -1.1e-7, 8.8e4,
                                   6.5e4, -1.3e5, -3.9e5], rtol=1e-11,
                           atol=0), f'Klobuchar parameters {p}')
    if 'neq' in seq:
        p = nav.ion_prm[g.uGNSS.GAL][2].prm
        expect(np.allclose(p[:3], [66.25, -0.25, 0.01]), f'NeQuick {p}')
    if 'bdg' in seq:
        p = nav.ion_prm[g.uGNSS.BDS][5].prm
        expect(np.allclose(p[:9], np.arange(1.5, 10)), f'BDGIM {p}')


def mixed(seq, ver):
    """ sequences of records of all kinds """
    tx = header(ver)
    recs = []
    for i, s in enumerate(seq):
        if s in OTHER:
            tx += OTHER[s]
            continue
        r = Rec(*s, PRN[s[0]]+i, WHEN+dt.timedelta(hours=2*i), svh=0)
        recs.append(r)
        tx += r.text(ver, trim=bool(i & 1))
    nav = read(tx)
    judge(nav, recs)
    others(seq, nav)
    if recs:
        roundtrip(nav, recs)


def once(seq):
    """
    ephemerides handed to the writer in any order and repetition: every
    distinct one appears exactly once.  seq: indices into a pool of distinct
    ephemerides
    """
    pool = POOL
    tx = header(4.0)+''.join(Rec(*a, **k).text(4.0) for a, k in
                             [pool[i] for i in sorted(set(seq))])
    nav = read(tx)
    objs = {}
    its = [iter(x) for x in lists(nav)]
    for i in sorted(set(seq)):
        c = pool[i][0][0]
        objs[i] = next(its[1 if c == 'R' else 2 if c == 'S' else 0])
    e = rn.rnxenc()
    fh = io.StringIO()
    e.rnx_nav_header(fh)
    first = []
    for i in seq:
        c = pool[i][0][0]
        if i not in first:
            first.append(i)
        (e.rnx_gnav_body if c == 'R' else e.rnx_snav_body if c == 'S' else
         e.rnx_nav_body)(objs[i], fh)
    nav2 = read(fh.getvalue())
    judge(nav2, [Rec(*pool[i][0], **pool[i][1]) for i in first])


_h = dt.timedelta(hours=1)
POOL = [
    (('G', 'LNAV', 7, WHEN), {}),
    (('G', 'LNAV', 7, WHEN+2*_h), dict(iode=78, iodc=846)),
    (('G', 'LNAV', 7, WHEN+24*_h), {}),          # same issue, next day
    (('G', 'CNAV', 7, WHEN), {}),
    (('G', 'CNAV', 7, WHEN+2*_h), {}),           # no issue of data at all
    (('G', 'LNAV', 8, WHEN), {}),
    (('C', 'CNV3', 23, WHEN), {}),
    (('C', 'CNV3', 23, WHEN+_h), {}),
    (('E', 'INAV', 11, WHEN), {}),
    (('E', 'FNAV', 11, WHEN), {}),
    (('R', 'FDMA', 14, WHEN), dict(hflag=0)),
    (('R', 'FDMA', 14, WHEN+24*_h), dict(hflag=0)),
    (('S', 'SBAS', 37, WHEN), {}),
    (('S', 'SBAS', 37, WHEN+_h), {}),            # same issue, later
]


def append(a, b, gz):
    ra, rb = [Rec(*x, PRN[x[0]], WHEN) for x in a], \
        [Rec(*x, PRN[x[0]]+1, WHEN+2*_h) for x in b]
    nav = read(header(4.0)+''.join(r.text(4.0) for r in ra), gz=gz)
    nav2 = g.Nav()
    read(header(4.0)+''.join(r.text(4.0) for r in rb), nav2)
    judge(nav, ra)
    judge(nav2, rb)
    read(header(4.0)+''.join(r.text(4.0) for r in rb), nav, True)
    judge(nav, ra+rb)
    judge(nav2, rb)
    read(header(4.0)+''.join(r.text(4.0) for r in rb), nav)
    judge(nav, rb)


NPRN = {'G': 32, 'E': 36, 'C': 63, 'J': 10, 'I': 14, 'R': 24, 'S': 39}


def label(c, f, prn):
    """ satellite and type of message in the record written for it """
    r = Rec(c, f, prn+19 if c == 'S' else prn, WHEN)
    nav = read(header(4.0)+r.text(4.0))
    tx = write(nav)
    have = [tuple(x.split()[1:]) for x in tx.split('\n') if x[:1] == '>']
    t = {'L1NV0': 'L1NV', 'L1NV1': 'L1NV', 'FDMA4': 'FDMA'}.get(f, f)
    expect(have == [('EPH', f'{c}{r.prn:02d}', t)], lambda: f'written as '
           f'{have}')


def run(ck):
    T = ck.thorough
    items = []
    for c, f in FMT:
        for prn in range(1, NPRN[c]+1):
            if f == 'FDMA4' or f == 'D1' and not 5 < prn < 59 or \
                    f == 'D2' and 5 < prn < 59:
                continue
            items.append((c, f, prn))
    ck.pmap('label', items, lambda c, x: c.case('label', x, label, *x),
            chunk=20)
    items = []
    for (c, f), rows in FMT.items():
        for v in vers(c, f):
            for row in rows:
                for k in row:
                    if k is None:
                        continue
                    vs = values(k.rstrip('?'), c, f)
                    if vs:
                        items.append((c, f, v, k.rstrip('?'), tuple(vs)))
    ck.pmap('field', items, lambda c, x: c.case(
        'field', x, field, *x, steps=2*len(x[4])), chunk=20)
    ck.pmap('satellite', [(c, f, v) for c, f in FMT for v in vers(c, f)],
            lambda c, x: c.case('satellite', x, satell, *x, steps=40),
            chunk=2)
    days = [dt.datetime(2019, 4, 7), dt.datetime(2019, 4, 6, 22),
            dt.datetime(2019, 4, 6, 23, 30), dt.datetime(2024, 2, 29, 12),
            dt.datetime(2024, 12, 31, 23, 45), dt.datetime(2025, 1, 1),
            dt.datetime(2038, 1, 24, 0, 0, 0), dt.datetime(2017, 6, 1, 6)]
    items = []
    for c, f in FMT:
        for v in vers(c, f)[-1 if not T else 0:]:
            for d in days:
                for a in (0, 3600, 7200, -3600):
                    for b in (0, -30, -7200, 300, -86000):
                        if c in 'RS' and (a or abs(b) > 40000):
                            continue
                        items.append((c, f, v, d, a, b))
    ck.pmap('when', items, lambda c, x: c.case('when', x, when, *x),
            chunk=40)
    items = []
    for (c, f), rows in FMT.items():
        op = [k.rstrip('?') for r in rows for k in r
              if k is not None and k.endswith('?')]
        for v in vers(c, f):
            for n in range(len(op)+1):
                for bl in itertools.combinations(op, n):
                    for trim in (False, True):
                        items.append((c, f, v, bl, trim))
    ck.pmap('optional', items, lambda c, x: c.case(
        'optional', x, optional, *x), chunk=20)
    keys = [k for k in FMT if k[1] not in ('FDMA4', 'D2')]
    al = keys+list(OTHER)
    items = [((a, b), 4.0) for a in al for b in al]
    sub = [('G', 'LNAV'), ('G', 'CNV2'), ('C', 'CNV3'), ('R', 'FDMA'),
           ('S', 'SBAS'), ('I', 'L1NV1'), 'sto', 'eop', 'klob', 'bdg']
    items += [(x, 4.02) for x in itertools.product(
        sub if not T else al[::2], repeat=3)]
    leg = [k for k in FMT if k[1] in ('LNAV', 'INAV', 'D1', 'FDMA', 'SBAS')]
    items += [(x, 3.05) for x in itertools.product(leg, repeat=3)]
    ck.pmap('mixed', items, lambda c, x: c.case('mixed', x, mixed, *x),
            chunk=40)
    n = len(POOL)
    items = [x for k in (1, 2) for x in itertools.product(range(n),
                                                          repeat=k)]
    items += [(a, b, a, b, a) for a in range(n) for b in range(n) if a != b]
    items += [x for x in itertools.product(range(0, n), repeat=3)
              if T or sum(x) % 3 == 0]
    ck.pmap('once', items, lambda c, x: c.case(
        'once', x, once, x, steps=len(x)), chunk=60)
    ks = [('G', 'LNAV'), ('R', 'FDMA'), ('S', 'SBAS'), ('E', 'FNAV')]
    items = [((a,), (b,), gz) for a in ks for b in ks for gz in (0, 1)]
    items += [((a, b), (b, c_), 0) for a in ks for b in ks for c_ in ks]
    ck.pmap('append', items, lambda c, x: c.case('append', x, append, *x),
            chunk=10)
    ck.bound(formats=len(FMT), sequence_depth=3, writer_depth=5,
             pool=n)
