""" C07 HAS correction messages decode to the transmitted corrections """
import itertools
import math
from cssrlib.cssr_has import cssr_has
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, sat2id, timediff
from mc import cssrenc as E
from mc.bits import BW, tobytes
from mc.core import expect

WEEK, HOUR = 2180, 86400*3+3600*7
MASK, ORB, CLK, SUB, CB, PB = 32, 16, 8, 4, 2, 1
# defined signal positions (reserved ones excluded)
SIG = {0: [0, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13], 2: list(range(15))}
NMAX = {0: 32, 2: 36}


class Has:
    """ one mask: [(gnss, [sv 1..], [signals], cells or None, nm)] """

    def __init__(self, mid, gnss):
        self.mid = mid
        self.g = gnss
        self.m = E.Mask(0, [x[:4] for x in gnss])
        self.sats = self.m.sats

    def enc(self, w):
        w.u(4, len(self.g))
        for g, sv, sg, cells, nm in self.g:
            w.u(4, g).mask(40, [k-1 for k in sv]).mask(16, sg)
            w.u(1, cells is not None)
            for c in cells or []:
                w.mask(len(sg), c)
            w.u(3, nm)
        w.u(6, 0)


NA = {'orb': (-4096, -2048, -2048), 'clk': -4096, 'dnu': 4095, 'bias': -1024}


def values(h, mode, seed=0):
    """ transmitted integers of all blocks """
    V = Gen(mode, seed)
    n = len(h.sats)
    return {
        'orb': [(V.u(10 if s[0] == 2 else 8), V.s(13), V.s(12), V.s(12))
                for s in h.sats],
        'dcm': [V.u(2) for _ in h.g],
        'clk': [V.s(13, clk=True) for _ in range(n)],
        'sub': [V.s(13, clk=True) for _ in range(n)],
        'dcs': [V.u(2) for _ in h.g],
        'cb': [[V.s(11) for _ in s[2]] for s in h.sats],
        'pb': [[(V.s(11), V.u(2)) for _ in s[2]] for s in h.sats]}


class Gen:
    def __init__(self, mode, seed):
        self.mode, self.k = mode, seed

    def u(self, n):
        self.k += 1
        return {'dist': self.k*37 % (1 << n), 'ones': (1 << n)-1,
                'zero': 0, 'na': self.k % (1 << n),
                'lo': 0, 'hi': (1 << n)-1, 'dnu': 1}[self.mode]

    def s(self, n, clk=False):
        self.k += 1
        h = 1 << (n-1)
        if self.mode == 'dist':
            return (self.k*739 % (2*h-3))-(h-1)
        if self.mode == 'na':
            return -h if self.k % 2 else self.k % h
        if self.mode == 'dnu' and clk:
            return h-1 if self.k % 2 else -self.k % h
        return {'ones': -1, 'zero': 0, 'lo': -h+1, 'hi': h-2,
                'dnu': 5}[self.mode]


def encode(h, flags, v, toh=600, iod=3, sub=None, subsys=None, mid=None,
           vi=5):
    """ sub: per system list of satellite positions in the system mask """
    w = BW()
    w.u(12, toh).u(6, flags).u(4, 0).u(5, h.mid if mid is None else mid)
    w.u(5, iod)
    sats = h.sats
    if flags & MASK:
        h.enc(w)
    if flags & ORB:
        w.u(4, vi)
        for s, o in zip(sats, v['orb']):
            w.u(10 if s[0] == 2 else 8, o[0]).s(13, o[1])
            w.s(12, o[2]).s(12, o[3])
    if flags & CLK:
        w.u(4, vi)
        for d in v['dcm']:
            w.u(2, d)
        for c in v['clk']:
            w.s(13, c)
    if flags & SUB:
        w.u(4, vi)
        order = range(len(h.g)) if subsys is None else subsys
        w.u(4, len(order))
        for gi in order:
            g = h.g[gi][0]
            idx = [k for k, s in enumerate(sats) if s[0] == g]
            w.u(4, g).u(2, v['dcs'][gi]).mask(len(idx), sub[gi])
            for j in sorted(sub[gi]):
                w.s(13, v['sub'][idx[j]])
    if flags & CB:
        w.u(4, vi)
        for b in v['cb']:
            for x in b:
                w.s(11, x)
    if flags & PB:
        w.u(4, vi)
        for b in v['pb']:
            for x, d in b:
                w.s(11, x).u(2, d)
    return w


def sv(u, n, scl, dnu=False):
    if u == -(1 << (n-1)) or (dnu and u == (1 << (n-1))-1):
        return math.nan
    return u*scl


class Model:
    def __init__(self):
        self.h = None
        self.iod = -1
        self.orb, self.iode, self.clk, self.cb, self.pb, self.di = \
            {}, {}, {}, {}, {}, {}
        self.t = {}

    def apply(self, h, flags, v, toh, iod, sub=None, subsys=None, mid=None,
              vi=5):
        mid = h.mid if mid is None else mid
        if flags & MASK:
            self.h = h
        elif self.h is None or self.h.mid != mid:
            return False
        self.iod = iod
        ids = [s[1] for s in h.sats]
        if flags & ORB:
            self.orb = {i: [-sv(o[1], 13, .0025), -sv(o[2], 12, .008),
                            -sv(o[3], 12, .008)]
                        for i, o in zip(ids, v['orb'])}
            self.iode = {i: o[0] for i, o in zip(ids, v['orb'])}
            self.stamp(ids, 'ORBIT', toh)
        dcm = {g[0]: d+1 for g, d in zip(h.g, v['dcm'])}
        if flags & CLK:
            self.clk = {s[1]: sv(c, 13, .0025, True)*dcm[s[0]]
                        for s, c in zip(h.sats, v['clk'])}
            self.stamp(ids, 'CLOCK', toh)
        if flags & SUB:
            for gi in (range(len(h.g)) if subsys is None else subsys):
                g = h.g[gi][0]
                idx = [k for k, s in enumerate(h.sats) if s[0] == g]
                for j in sub[gi]:
                    i = ids[idx[j]]
                    self.clk = dict(self.clk)
                    self.clk[i] = sv(v['sub'][idx[j]], 13, .0025, True) * \
                        (v['dcs'][gi]+1)
                    self.stamp([i], 'CLOCK', toh)
        if flags & CB:
            self.cb = {s[1]: {E.sigs(s[0], k, 'C'): sv(x, 11, .02)
                              for k, x in zip(s[2], b)}
                       for s, b in zip(h.sats, v['cb'])}
            self.stamp([s[1] for s in h.sats if s[2]], 'CBIAS', toh)
        if flags & PB:
            self.pb = {s[1]: {E.sigs(s[0], k, 'L'): sv(x[0], 11, .01)
                              for k, x in zip(s[2], b)}
                       for s, b in zip(h.sats, v['pb'])}
            self.di = {s[1]: {E.sigs(s[0], k, 'L'): x[1]
                              for k, x in zip(s[2], b)}
                       for s, b in zip(h.sats, v['pb'])}
            self.stamp([s[1] for s in h.sats if s[2]], 'PBIAS', toh)
        return True

    def stamp(self, ids, ct, toh):
        for i in ids:
            self.t[i, ct] = toh


def held(d):
    if not d:
        return {}
    return {sat2id(k): v for k, v in d.items()}


def bias(d):
    return {i: {repr(s): x for s, x in b.items()} for i, b in held(d).items()}


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(E.same(x, y) for x, y in zip(a, b))
    return E.same(a, b)


def compare(cs, mo, what=''):
    lc = cs.lc[0]
    for nm, e, g in (('orbit', mo.orb, held(lc.dorb)),
                     ('issue of data', mo.iode, held(lc.iode)),
                     ('clock', mo.clk, held(lc.dclk)),
                     ('code bias', mo.cb, bias(lc.cbias)),
                     ('phase bias', mo.pb, bias(lc.pbias)),
                     ('discontinuity', mo.di,
                      bias(getattr(lc, 'di', None)))):
        expect(eq(e, g), lambda: f'{what} {nm}: {g} instead of {e}')
    if mo.h is None:
        expect(list(cs.sat_n) == [], what+' satellites without mask')
        return
    expect([sat2id(s) for s in cs.sat_n] == [s[1] for s in mo.h.sats],
           what+' satellites of the mask')
    got = {sat2id(k): [repr(s)[-2:] for s in v] for k, v in cs.sig_n.items()}
    expect(got == {s[1]: [E.GN[s[0]][2][k] for k in s[2]]
                   for s in mo.h.sats}, what+' signals of the mask')
    for g in mo.h.g:
        expect(cs.nm_idx[g[0]] == g[4], what+' navigation message of mask')
    expect(cs.iodssr == mo.iod, what+' IOD set')
    for (i, ct), toh in mo.t.items():
        t0 = {sat2id(s): d for s, d in lc.t0.items() if s}
        dt = timediff(t0[i][getattr(sCType, ct)], gpst2time(WEEK, HOUR+toh))
        expect(abs(dt) < 1e-6, f'{what} time of {ct} of {i}: {dt} s off')


def new():
    cs = cssr_has()
    cs.week, cs.tow0 = WEEK, HOUR
    cs.msgtype = 1
    return cs


def play(msgs, fill=0):
    cs, mo = new(), Model()
    for n, (h, flags, v, kw) in enumerate(msgs):
        w = encode(h, flags, v, **kw)
        s = w.str()+('10'[fill])*300
        r = cs.decode_cssr(tobytes(s))
        kw = {'toh': 600, 'iod': 3, **kw}
        mo.apply(h, flags, v, **kw)
        compare(cs, mo, f'message {n} (blocks {flags:06b})')
    return len(mo.clk), len(mo.orb), len(mo.cb)


SHAPES = {
    'two': [(0, [2, 7, 32], [0, 9], None, 0), (2, [1, 36], [1, 4, 7], None, 0)],
    'cell': [(0, [1, 3], [0, 7, 12], [[0, 2], [1]], 1),
             (2, [5, 6, 11], [1, 4], [[], [0], [0, 1]], 2)],
    'gal': [(2, [4, 19, 20, 21], [0, 12], None, 3)],
    'gps': [(0, [9], [6], None, 7)],
    'rev': [(2, [8, 30], [1], None, 0), (0, [5, 6], [0], None, 0)],
    'nosig': [(0, [1, 2], [], None, 0), (2, [3], [2], [[]], 5)],
    'big': [(0, list(range(1, 33)), [0, 3, 6, 11], None, 0),
            (2, list(range(1, 37)), [1, 4, 7, 13], None, 0)],
    'nosat': [(0, [], [0, 1], None, 0), (2, [2, 3], [1, 2], None, 0)],
}
MODES = ['dist', 'ones', 'zero', 'na', 'lo', 'hi', 'dnu']


def fullsub(h):
    return [list(range(len(g[1]))) for g in h.g]


def run(ck):
    TH = ck.thorough

    def f(c, j):
        g, key, msgs, fill = j
        c.case(g, key, play, msgs, fill, steps=len(msgs))
    jobs = []
    # every combination of blocks, mask in the same or an earlier message
    for name, sh in SHAPES.items():
        h = Has(5, sh)
        for mode in MODES:
            v = values(h, mode)
            for flags in range(64):
                if flags & SUB and mode == 'dist':
                    subs = [fullsub(h), [x[1:] for x in fullsub(h)],
                            [[] for _ in h.g]]
                else:
                    subs = [fullsub(h)]
                for ns, sub in enumerate(subs):
                    kw = {'sub': sub, 'toh': 600+flags, 'iod': flags % 32,
                          'subsys': [k for k in range(len(h.g)) if h.g[k][1]]}
                    if flags & MASK:
                        jobs.append(('blocks', (name, mode, flags, ns),
                                     [(h, flags, v, kw)], flags % 2))
                    else:
                        jobs.append(('blocks_after_mask',
                                     (name, mode, flags, ns),
                                     [(h, MASK, v, {}), (h, flags, v, kw)],
                                     flags % 2))
    # every satellite and signal
    for g in (0, 2):
        for k in range(1, NMAX[g]+1):
            h = Has(1, [(g, [k], [SIG[g][0], SIG[g][-1]], None, 0)])
            jobs.append(('satellite', (g, k),
                         [(h, 63, values(h, 'dist', k), {'sub': [[0]]})], 0))
        for a, b in itertools.combinations(SIG[g], 2):
            h = Has(1, [(g, [3, 11], [a, b], [[0], [0, 1]], 0)])
            jobs.append(('signal', (g, a, b),
                         [(h, 63, values(h, 'dist', a), {'sub': [[1]]})], 0))
    # every cell mask of 2x3 cells in both systems
    for cm in range(64):
        cells = [[k for k in range(3) if cm >> (3*r+k) & 1] for r in (0, 1)]
        h = Has(2, [(0, [4, 31], [0, 8, 11], cells, 0),
                    (2, [9, 12], [1, 7, 13], cells[::-1], 0)])
        jobs.append(('cells', cm, [(h, 63, values(h, 'dist', cm),
                                    {'sub': [[0], [1]]})], 0))
    # every clock subset, order and choice of systems
    h = Has(6, [(0, [3, 8, 21, 22], [0], None, 0), (2, [2, 5, 33], [1], None,
                                                    0)])
    v, v2 = values(h, 'dist', 3), values(h, 'dnu', 5)
    subs = [list(itertools.chain.from_iterable(
        itertools.combinations(range(n), r) for r in range(n+1)))
        for n in (4, 3)]
    for a in subs[0]:
        for b in subs[1]:
            for order in ([0, 1], [1, 0], [0], [1], []):
                kw = {'sub': [list(a), list(b)], 'subsys': order}
                if len(order) < 2 and not TH and len(a)+len(b) > 3:
                    continue
                jobs.append(('clock_subset', (a, b, tuple(order)),
                             [(h, MASK | CLK, v, {}),
                              (h, SUB | CB, v, {**kw, 'toh': 610}),
                              (h, SUB, v2, {**kw, 'toh': 620, 'iod': 4})], 0))
    for d in itertools.product(range(4), repeat=4):
        vv = dict(v)
        vv['dcm'], vv['dcs'] = list(d[:2]), list(d[2:])
        jobs.append(('multiplier', d, [(h, MASK | CLK, vv, {}),
                                       (h, SUB | PB, vv,
                                        {'sub': [[1, 2], [0]]})], 0))
    # validity interval, IOD set and mask id fields
    h = Has(6, SHAPES['two'])
    v = values(h, 'dist')
    for k in range(32):
        hk = Has(k, SHAPES['two'])
        jobs.append(('fields', k, [
            (hk, 62, v, {'sub': fullsub(hk), 'iod': 31-k, 'vi': k % 16,
                         'toh': k*113})], 0))
    # histories of messages under changing masks
    HA, HB = Has(1, SHAPES['two']), Has(2, SHAPES['cell'])
    ev = {}
    for nm, hh, sd in (('A', HA, 10), ('B', HB, 500)):
        sub = [[0], [1]]
        for k, fl in (('m', MASK), ('o', ORB), ('c', CLK), ('s', SUB),
                      ('b', CB), ('p', PB), ('x', MASK | ORB),
                      ('y', CLK | CB | PB), ('z', ORB | SUB)):
            ev[nm+k] = (hh, fl, values(hh, 'dist', sd+fl), sub)

    def hist(names):
        msgs = []
        for n, e in enumerate(names):
            hh, fl, vv, sub = ev[e]
            msgs.append((hh, fl, vv, {'sub': sub, 'toh': 100+10*n,
                                      'iod': (n+3) % 32}))
        return msgs
    al = ['Am', 'Bm', 'Ao', 'Bo', 'Ac', 'Bc', 'As', 'Bs', 'Ab', 'Bb', 'Ap',
          'Bp']
    for n in range(1, 5 if TH else 4):
        for s in itertools.product(al, repeat=n):
            if n == 4 and s[0] not in ('Am', 'Bm'):
                continue
            jobs.append(('history', s, hist(s), 0))
    al = ['Ax', 'Bx', 'Am', 'Bm', 'Ay', 'By', 'Az', 'Bz']
    for n in range(1, 6 if TH else 5):
        for s in itertools.product(al, repeat=n):
            if n >= 4 and s[0][1] not in 'xm':
                continue
            jobs.append(('history_multi', s, hist(s), 0))
    ck.bound(history=4 if TH else 3, shapes=list(SHAPES), modes=MODES)
    ck.pmap('msg', jobs, f, chunk=100)

    # rejected messages leave everything unchanged
    def reject(toh, mt):
        cs, mo = new(), Model()
        h = Has(1, SHAPES['two'])
        v = values(h, 'dist')
        cs.decode_cssr(tobytes(encode(h, 58, v).str())+bytes(20))
        mo.apply(h, 58, v, 600, 3)
        compare(cs, mo)
        cs.msgtype = mt
        v2 = values(h, 'dist', 77)
        cs.decode_cssr(tobytes(encode(h, 58, v2, toh=toh).str())+bytes(20))
        compare(cs, mo, 'invalid message')
    for toh in (3600, 3601, 4095):
        ck.case('invalid', ('toh', toh), reject, toh, 1)
    for mt in (0, 2, 3):
        ck.case('invalid', ('mt', mt), reject, 100, mt)
    ck.case('invalid', 'empty', lambda: new().decode_cssr(b'\0\0'))

    # reference time given by set_time: hour resolved to the nearest one
    def tm(tow, lat):
        cs = cssr_has()
        cs.msgtype = 1
        cs.set_time(gpst2time(WEEK, tow))
        h = Has(1, SHAPES['two'])
        t = tow-lat
        cs.decode_cssr(tobytes(encode(h, 48, values(h, 'dist'),
                                      toh=t % 3600).str())+bytes(20))
        for s in cs.sat_n:
            dt = timediff(cs.lc[0].t0[s][sCType.ORBIT], gpst2time(WEEK, t))
            expect(abs(dt) < 1e-6, f'time of orbit {dt} s off')
    for tow in (0, 5, 3599, 3600, 86400*2+3600*5+17, 86400*2, 604799):
        for lat in (0, 1, 20, 300, 1700, -1):
            ck.case('set_time', (tow, lat), tm, tow, lat)
