"""
Independent encoder and reference model for Compact SSR (MT4073), written from
the published layout (Compact SSR v08 / IS-QZSS-L6).
"""
import io
import math
import numpy as np
from mc.bits import BW
from mc.core import expect

# gnss id: letter, mask index -> printed number, signal names
GN = {
    0: ('G', lambda k: k, ['1C', '1P', '1W', '1S', '1L', '1X', '2S', '2L',
                           '2X', '2P', '2W', '5I', '5Q', '5X']),
    1: ('R', lambda k: k, ['1C', '1P', '2C', '2P', '4A', '4B', '4X', '6A',
                           '6B', '6X', '3I', '3Q', '3X']),
    2: ('E', lambda k: k, ['1B', '1C', '1X', '5I', '5Q', '5X', '7I', '7Q',
                           '7X', '8I', '8Q', '8X', '6B', '6C', '6X']),
    3: ('C', lambda k: k, ['2I', '2Q', '2X', '6I', '6Q', '6X', '7I', '7Q',
                           '7X', '1D', '1P', '1X', '5D', '5P', '5X']),
    4: ('J', lambda k: k, ['1C', '1S', '1L', '1X', '2S', '2L', '2X', '5I',
                           '5Q', '5X', '6D', '6P', '6E', '1E']),
    5: ('S', lambda k: k+19, ['1C', '5I', '5Q', '5X']),
    7: ('C', lambda k: k+18, ['2I', '2Q', '2X', '6I', '6Q', '6X', '7I', '7Q',
                              '7X', '1D', '1P', '1X', '5D', '5P', '5X']),
}
MAXK = {0: 32, 1: 32, 2: 36, 3: 40, 4: 17, 5: 39, 7: 40}


def satid(g, k):
    c, f, _ = GN[g]
    return f'{c}{f(k):02d}'


def sigs(g, idx, typ):
    return GN[g][0]+typ+GN[g][2][idx]


class Mask:
    """ gnss list: [(gnss, [sv idx], [sig idx], cells or None)]
    cells: per satellite list of positions in the signal list """

    def __init__(self, iod, gnss):
        self.iod = iod
        self.gnss = gnss
        self.sats = []       # (gnss, id, [sig idx])
        for g, sv, sg, cells in gnss:
            for n, k in enumerate(sv):
                sl = list(sg) if cells is None else [sg[c] for c in cells[n]]
                self.sats.append((g, satid(g, k), sl))
        self.n = len(self.sats)
        self.ncell = sum(len(s[2]) for s in self.sats)


def head(w, st, t, udi, mi, iod):
    w.u(12, 4073).u(4, st)
    if st == 1:
        w.u(20, t)
    else:
        w.u(12, t % 3600)
    w.u(4, udi).u(1, mi).u(4, iod)


def st1(m, t, udi=0, mi=0):
    w = BW()
    head(w, 1, t, udi, mi, m.iod)
    w.u(4, len(m.gnss))
    for g, sv, sg, cells in m.gnss:
        w.u(4, g).mask(40, [k-1 for k in sv]).mask(16, sg)
        w.u(1, 0 if cells is None else 1)
        if cells is not None:
            for c in cells:
                w.mask(len(sg), c)
    return w


def _orb(w, g, v):
    w.u(10 if g == 2 else 8, v[0]).s(15, v[1]).s(13, v[2]).s(13, v[3])


def st2(m, t, vals, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 2, t, udi, mi, m.iod if iod is None else iod)
    for (g, _, _), v in zip(m.sats, vals):
        _orb(w, g, v)
    return w


def st3(m, t, vals, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 3, t, udi, mi, m.iod if iod is None else iod)
    for v in vals:
        w.s(15, v)
    return w


def st4(m, t, vals, udi=0, mi=0, iod=None):
    """ vals: per satellite list of code biases """
    w = BW()
    head(w, 4, t, udi, mi, m.iod if iod is None else iod)
    for v in vals:
        for x in v:
            w.s(11, x)
    return w


def st5(m, t, vals, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 5, t, udi, mi, m.iod if iod is None else iod)
    for v in vals:
        for x, d in v:
            w.s(15, x).u(2, d)
    return w


def st6(m, t, cb, pb, net=None, udi=0, mi=0, iod=None):
    """ cb, pb: per satellite lists or None; net: (inet, [sat index]) """
    w = BW()
    head(w, 6, t, udi, mi, m.iod if iod is None else iod)
    w.u(1, cb is not None).u(1, pb is not None).u(1, net is not None)
    sel = range(m.n)
    if net is not None:
        w.u(5, net[0]).mask(m.n, net[1])
        sel = net[1]
    for k in sel:
        for j in range(len(m.sats[k][2])):
            if cb is not None:
                w.s(11, cb[k][j])
            if pb is not None:
                w.s(15, pb[k][j][0]).u(2, pb[k][j][1])
    return w


def st7(m, t, vals, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 7, t, udi, mi, m.iod if iod is None else iod)
    for c, v in vals:
        w.u(3, c).u(3, v)
    return w


def _stecpoly(w, typ, c):
    w.s(14, c[0])
    if typ > 0:
        w.s(12, c[1]).s(12, c[2])
    if typ > 1:
        w.s(10, c[3])
    if typ > 2:
        w.s(8, c[4]).s(8, c[5])


def st8(m, t, typ, inet, sel, q, coef, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 8, t, udi, mi, m.iod if iod is None else iod)
    w.u(2, typ).u(5, inet).mask(m.n, sel)
    for i, k in enumerate(sel):
        w.u(3, q[i][0]).u(3, q[i][1])
        _stecpoly(w, typ, coef[i])
    return w


def st9(m, t, ttype, rng, inet, sel, q, trop, stec, udi=0, mi=0, iod=None):
    """ trop: [(hs, wet)] per grid, stec: [grid][sat] """
    w = BW()
    head(w, 9, t, udi, mi, m.iod if iod is None else iod)
    w.u(2, ttype).u(1, rng).u(5, inet).mask(m.n, sel)
    w.u(3, q[0]).u(3, q[1]).u(6, len(stec))
    for g in range(len(stec)):
        if ttype > 0:
            w.s(9, trop[g][0]).s(8, trop[g][1])
        for x in stec[g]:
            w.s(16 if rng else 7, x)
    return w


def st10(mi, cnt, words):
    w = BW()
    w.u(12, 4073).u(4, 10).u(1, mi).u(3, cnt).u(2, len(words)-1)
    for x in words:
        w.u(40, x)
    return w


def st11(m, t, orb, clk, net=None, udi=0, mi=0, iod=None):
    w = BW()
    head(w, 11, t, udi, mi, m.iod if iod is None else iod)
    w.u(1, orb is not None).u(1, clk is not None).u(1, net is not None)
    sel = range(m.n)
    if net is not None:
        w.u(5, net[0]).mask(m.n, net[1])
        sel = net[1]
    for k in sel:
        if orb is not None:
            _orb(w, m.sats[k][0], orb[k])
        if clk is not None:
            w.s(15, clk[k])
    return w


SSZ = [(4, 0.04), (4, 0.12), (5, 0.16), (7, 0.24)]


def st12(m, t, tr, sc, inet, ng, sel, d, udi=0, mi=0, iod=None):
    """ d: tq, tt, tc(4), tsz, tofs, tres[ng], sq[], styp[], scoef[][6],
    ssz[], sres[][ng] """
    w = BW()
    head(w, 12, t, udi, mi, m.iod if iod is None else iod)
    w.u(2, tr).u(2, sc).u(5, inet).u(6, ng)
    if tr > 0:
        w.u(3, d['tq'][0]).u(3, d['tq'][1])
    if tr & 2:
        w.u(2, d['tt']).s(9, d['tc'][0])
        if d['tt'] > 0:
            w.s(7, d['tc'][1]).s(7, d['tc'][2])
        if d['tt'] > 1:
            w.s(7, d['tc'][3])
    if tr & 1:
        w.u(1, d['tsz']).u(4, d['tofs'])
        for x in d['tres']:
            w.s(8 if d['tsz'] else 6, x)
    w.mask(m.n, sel)
    for i in range(len(sel)):
        w.u(3, d['sq'][i][0]).u(3, d['sq'][i][1])
        if sc & 2:
            w.u(2, d['styp'][i])
            _stecpoly(w, d['styp'][i], d['scoef'][i])
        if sc & 1:
            w.u(2, d['ssz'][i])
            for x in d['sres'][i]:
                w.s(SSZ[d['ssz'][i]][0], x)
    return w


# --- reference values ---------------------------------------------------
def sv(v, n, scl):
    return math.nan if v == -(1 << (n-1)) else v*scl


def qual(c, v):
    if c == 7 and v == 7:
        return 5.4665
    if c == 0 and v == 0:
        return math.nan
    return (3**c*(1+v*0.25)-1)*1e-3


def orbval(v):
    return v[0], [sv(v[1], 15, 0.0016), sv(v[2], 13, 0.0064),
                  sv(v[3], 13, 0.0064)]


def same(a, b, tol=1e-9):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a-b) <= tol


def samev(a, b, tol=1e-9):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))


def griddef(nets, ng):
    s = 'nid gid lat lon alt\n'
    for n in nets:
        for k in range(ng):
            s += f'{n} {k+1} {30+n+0.1*k:.2f} {130+0.1*k:.2f} 50.0\n'
    return io.StringIO(s)


class Vals:
    """ field value supply: distinguishable values or extremes """

    def __init__(self, kind, seed=0):
        self.kind = kind
        self.c = seed

    def s(self, n, allow_na=True):
        """ signed n-bit """
        lo, hi = -(1 << (n-1)), (1 << (n-1))-1
        k = self.kind
        self.c += 1
        if k == 'mix':
            k = ('dist', 'max', 'na', 'min', 'one', 'mone', 'zero')[self.c % 7]
        if k == 'dist':
            # distinct for consecutive draws, both signs
            m = (hi if hi > 0 else 1)
            v = 1+(self.c*37) % m
            if v > hi:
                v = hi
            return v if self.c % 2 else -v
        if k == 'max':
            return hi
        if k == 'min':
            return lo+1
        if k == 'na':
            return lo if allow_na else hi
        if k == 'one':
            return 1
        if k == 'mone':
            return -1
        return 0

    def u(self, n):
        self.c += 1
        k = self.kind
        if k in ('max', 'na'):
            return (1 << n)-1
        if k in ('zero', 'min'):
            return 0
        return (self.c*11+1) % (1 << n)


def idkeys(d, sat2id):
    return {sat2id(k): v for k, v in d.items()}
