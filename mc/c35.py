""" C35 RTCM station, bias, network and integrity messages """
import io
import itertools
import re
import numpy as np
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.gnss import uGNSS, prn2sat
from mc.core import expect
from mc.rtcmenc import new, frame, gt, secs, LEAP

G, R, E, C, J, I = (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.BDS, uGNSS.QZS,
                    uGNSS.IRN)
SYS = [G, R, E, C, J, I]
WEEK = 2300
T0 = WEEK*604800


def satno(sys, svid):
    return prn2sat(sys, svid+192 if sys == J else svid)


NSV = {G: 32, R: 24, E: 36, C: 63, J: 10, I: 14}


# tables of SC-134 (values of the indices)
TBL = {
    'mfd_s': [5, 10, 30, 60, 120, 600, 900, 1800, 3600, 7200, 10800, 21600,
              43200, 86400, 604800, -1],
    'mfd_c': [0, 5, 10, 30, 60, 90, 300, 600, 1800, 3600, 7200, 14400, 28800,
              57600, 115200, -1],
    'sig_c': [0.02, 0.04, 0.06, 0.08, 0.10, 0.12, 0.14, 0.16, 0.18, 0.20,
              0.25, 0.30, 0.35, 0.40, 0.45, 0.50, 0.60, 0.70, 0.80, 0.90,
              1.00, 1.25, 1.50, 1.75, 2.00, 2.50, 3.00, 4.00, 5.00, 7.00,
              -1, -1],
    'sig_p': [k*1e-3 for k in list(range(1, 21))+list(range(22, 38, 2)) +
              [40, 45, 50]]+[-1],
    'b_p': [0.001, 0.002, 0.003, 0.004, 0.005, 0.006, 0.008, 0.010, 0.012,
            0.014, 0.016, 0.018, 0.020, 0.025, 0.030, -1],
    'b_c': [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.075, 0.10, 0.20, 0.40, 0.60,
            0.80, 1.0, 3.0, 7.0, -1],
    'tau_c': [0, 5, 10, 20, 30, 45, 60, 120, 180, 300, 600, 1200, 3600, 7200,
              14400, -1],
    'tau_p': [0, 2, 5, 10, 20, 30, 45, 60, 120, 180, 240, 300, 600, 1800,
              7200, -1],
    'P': [10**-11, 10**-10, 10**-9, 10**-8, 10**-7, 10**-6.2, 10**-6,
          10**-5.2, 10**-5, 10**-4.2, 10**-4, 10**-3.3, 10**-3, 10**-2.3,
          10**-2, -1],
    'sig_cd': [1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 3e-3, 6e-3, 1e-2, 3e-2,
               6e-2, 0.10, 0.50, 5.0, 0, -1],
    'sig_pd': [1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 4e-4, 1e-3, 4e-3,
               0.01, 0.04, 0.10, 0.50, 5.0, -1],
    'sig_dp': [1e-3, 2e-3, 5e-3, 7.5e-3, 0.010, 0.014, 0.018, 0.025, 0.050,
               0.10, 0.15, 0.20, 0.50, 1.0, 20.0, -1],
    'idx_dp': [1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01,
               0.1, 1.0, 10.0, 0, 0, -1],
    'd8': [5e-4, 1e-3, 2e-3, 4e-3, 0.01, 0.02, 0.05, -1],
    'ion': [5e-3, 1e-2, 2e-2, 5e-2, 0.10, 0.25, 1.0, -1],
    'trp': [0.01, 0.02, 0.03, 0.05, 0.075, 0.10, 0.125, -1],
    'b_intc': [0.00, 0.01, 0.02, 0.05, 0.10, 0.25, 0.50, -1],
    'b_intf': [0.00, 0.04, 0.07, 0.10, 0.20, 0.30, 0.50, -1],
    'mu': [0.00, 0.04, 0.07, 0.10, 0.20, 0.30, 0.50, 1, 2, 5, 10, 20, 50, 80,
           100, -1],
    'sig': [0.0, 0.04, 0.07, 0.10, 0.20, 0.25, 0.30, 0.40, 0.50, 0.70, 1, 2,
            5, 7, 10, -1],
    'df': [0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 1, -1],
    'exs': [1.0, 1.1, 1.3, 1.6, 2.0, 3.0, 5.0, -1],
    'ir': [1.0, 10, 1e2, 1e3],
    'ttd': [1.0, 1.25, 2.0, 4.0],
    'vp': [1, 2, 5, 10, 15, 30, 60, 120, 240, 300, 600, 900, 1800, 3600,
           7200, 10800],
}


class Gen:
    """ values of the fields of a message in order: pattern, with one field
    (optionally) at a chosen extreme """

    def __init__(self, pat, at=-1, ext=None):
        self.pat, self.at, self.ext, self.n = pat, at, ext, 0

    def u(self, nbit, hi=None):
        """ unsigned value below 2**nbit (below hi) """
        k = self.n
        self.n += 1
        top = (1 << nbit) if hi is None else hi
        if k == self.at:
            return [0, top-1, 1 % top, top//2, (top//2-1) % top][self.ext]
        a, b = [(37, 11), (101, 3), (59, 29), (7, 1)][self.pat]
        v = (a*(k+1)*(k+3)+b*k)*2654435761+k*40503
        return (v >> 7) % top

    def s(self, nbit):
        v = self.u(nbit)
        return v-(1 << nbit) if v >> (nbit-1) else v


NEXT = 5


class M:
    """ message under construction, expected reports """

    def __init__(self, mt, g):
        self.w = new(mt)
        self.g = g
        self.exp = []       # (path, value, tolerance or None)
        self.tok = []       # values to be found in the log
        self.mt = mt

    def f(self, path, nbit, scl=None, signed=False, ofs=0, hi=None,
          tbl=None):
        v = self.g.s(nbit) if signed else self.g.u(nbit, hi)
        (self.w.s if signed else self.w.u)(nbit, v)
        if path is not None:
            if scl is None:
                self.exp.append((path, v+ofs, None))
            else:
                self.exp.append((path, v*scl+ofs, abs(scl)*1e-3))
        if tbl is not None:
            self.tok.append(TBL[tbl][v])
        return v

    def raw(self, nbit, v, path=None, value=None):
        self.w.u(nbit, v)
        if path is not None:
            self.exp.append((path, v if value is None else value, None))


def get(o, path):
    for p in path:
        if isinstance(p, str):
            o = getattr(o, p)
        else:
            o = o[p]
    return o


def same(a, v, tol):
    if isinstance(v, (list, tuple)):
        return [int(x) for x in a] == list(v)
    if isinstance(v, str):
        return a == v
    return abs(float(a)-v) <= (tol or 1e-9)


def head(m):
    """ header of the integrity messages """
    m.f(('integ', 'tow'), 30, 1e-3, hi=604800000)
    m.f(('integ', 'pid'), 12)
    v = m.g.u(4)
    m.raw(4, v, ('integ', 'vp'), TBL['vp'][v])
    m.f(('integ', 'udi'), 16, 0.1)
    if m.mt != 2000:
        m.f(('integ', 'aid'), 10)


def mask(items, n, base):
    v = 0
    for k in items:
        v |= 1 << (n-1-(k-base))
    return v


def m2000(g, sl):
    m = M(2000, g)
    head(m)
    m.raw(16, mask([SYS.index(s) for s, _ in sl], 16, 0))
    m.f(None, 16)
    m.f(None, 16)
    for sys, svs in sl:
        m.raw(64, mask([v for v, _ in svs], 64, 1))
        m.f(('integ', 'iod_sys', sys), 2)
        m.f(('integ', 'sts', sys), 64)
        ms = g.u(64)
        m.raw(64, ms, ('integ', 'mst', sys),
              [k+(193 if sys == J else 1) for k in range(64)
               if ms >> (63-k) & 1])
        m.f(('integ', 'src', sys), 3, hi=4)
        for sv, fr in svs:
            sat = satno(sys, sv)
            m.raw(8, mask(fr, 8, 0), ('integ', 'freq', sys, sat), fr)
            m.f(('integ', 'iod_freq', sys, sat), 2)
            m.f(('integ', 'ists', sys, sat), 8)
            m.f(('integ', 'msts', sys, sat), 8)
        m.exp.append((('integ', 'ists', sys), sorted(
            satno(sys, v) for v, _ in svs), 'keys'))
    return m


def m2005(g, sl, paug):
    m = M(2005, g)
    head(m)
    m.f(('integ', 'ilvl'), 8)
    m.f(('integ', 'ttt'), 7, 0.1, ofs=0.1)
    m.f(('integ', 'stype'), 15)
    m.raw(16, mask([SYS.index(s) for s, _ in sl], 16, 0))
    m.raw(1, paug)
    if paug:
        m.f(('integ', 'Paug'), 4)
    m.f(('integ', 'fc'), 1)
    m.f(('integ', 'iod_p'), 6)
    for sys, svs in sl:
        m.f(('integ', 'mfd_s', sys), 4, tbl='mfd_s')
        m.f(('integ', 'mfd_c', sys), 4, tbl='mfd_c')
        m.f(('integ', 'tau_c', sys), 4, tbl='tau_c')
        m.f(('integ', 'sig_c', sys), 5, tbl='sig_c')
        m.f(('integ', 'tau_p', sys), 4, tbl='tau_p')
        m.f(('integ', 'sig_p', sys), 5, tbl='sig_p')
        m.f(('integ', 'Pa_cc', sys), 4, tbl='P')
        m.f(('integ', 'Pa_cp', sys), 4, tbl='P')
        m.raw(64, mask([v for v, _ in svs], 64, 1))
        for sv, _ in svs:
            sat = satno(sys, sv)
            for n, b, t in (('Pa_sc', 4, 'P'), ('sig_ob_c', 5, 'sig_c'),
                            ('Pa_sp', 4, 'P'), ('b_ob_c', 4, 'b_c'),
                            ('sig_ob_p', 5, 'sig_p'), ('b_ob_p', 4, 'b_p')):
                m.f(('integ', n, sys, sat), b, tbl=t)
        m.exp.append((('integ', 'b_ob_c', sys), sorted(
            satno(sys, v) for v, _ in svs), 'keys'))
    return m


def m2006(g, sl):
    m = M(2006, g)
    head(m)
    m.f(('integ', 'iod_ip'), 6)
    m.raw(16, mask([SYS.index(s) for s, _ in sl], 16, 0))
    m.f(('integ', 'fc'), 1)
    m.f(('integ', 'bias', 0), 3, tbl='b_intc')
    m.f(('integ', 'bias', 1), 3, tbl='b_intf')
    for sys, svs in sl:
        m.raw(64, mask([v for v, _ in svs], 64, 1))
        m.f(('integ', 'iod_m', sys), 2)
        for sv, _ in svs:
            sat = satno(sys, sv)
            for n, b, t in (('sig_cd', 4, 'sig_cd'), ('sig_pd', 4, 'sig_pd'),
                            ('cbr', 3, 'd8'), ('sig_dp', 4, 'sig_dp'),
                            ('idx_dp', 4, 'idx_dp'), ('ocr', 3, 'd8'),
                            ('sig_ion', 3, 'ion'), ('idx_ion', 3, 'd8'),
                            ('sig_trp', 3, 'trp'), ('idx_trp', 3, 'd8')):
                m.f(('integ', n, sys, sat), b, tbl=t)
        m.exp.append((('integ', 'ocr', sys), sorted(
            satno(sys, v) for v, _ in svs), 'keys'))
    return m


D34 = 1.1e-8


def marea(mt, g, npnt):
    """ service area: circle when npnt is None """
    m = M(mt, g)
    head(m)
    m.raw(2, 0 if npnt is None else 1, ('integ', 'atype'))
    m.f(('integ', 'iod_sa'), 6)
    m.f(('integ', 'cf'), 1)
    if mt == 2007:
        m.f(('integ', 'f_t'), 3, tbl='df')
    m.f(('integ', 'seq'), 5)
    if mt == 2008:
        m.f(('integ', 'f_ir'), 2, tbl='ir')
        m.f(('integ', 'f_ttd'), 2, tbl='ttd')
        m.f(('integ', 'f_t'), 3, tbl='df')
        m.f(('integ', 'f_exs'), 3, tbl='exs')

    def ll(p):
        # the lowest value is outside of the range of the coordinates
        for k, n in enumerate((34, 35)):
            v = g.s(n)
            v = max(v, -(1 << n-1)+1)
            m.w.s(n, v)
            m.exp.append((p+(k,), v*D34, D34*1e-3))
    if npnt is None:
        ll(('integ', 'pos_v'))
        m.f(('integ', 'pos_v', 2), 20)
    else:
        m.raw(8, npnt, ('integ', 'npnt'))
        for k in range(npnt):
            ll(('integ', 'pos_v', k))
    return m


def m2051(g, qm):
    m = M(2051, g)
    head(m)
    m.f(('integ', 'nid'), 8)
    m.raw(8, qm)
    for k in range(bin(qm).count('1')):
        m.f(('integ', 'qi', k), 8, 0.1)
    return m


def cnr(v):
    return -1 if v == 0 else v-1 if v < 20 else 19+(v-20)*0.2 if v < 245 \
        else 64+v-245


def m2091(g, sl):
    m = M(2091, g)
    head(m)
    m.raw(16, mask([SYS.index(s) for s, _ in sl], 16, 0))
    for sys, svs in sl:
        m.raw(64, mask([v for v, _ in svs], 64, 1))
        m.f(None, 2)
        for sv, fr in svs:
            sat = satno(sys, sv)
            m.raw(8, mask(fr, 8, 0))
            m.f(None, 2)
            for k in fr:
                v = m.f(('integ', 'cnr', sys, sat, k), 8)
                m.tok.append(cnr(v))
                m.f(('integ', 'agc_t', sys, sat, k), 1)
                v = m.f(('integ', 'agc', sys, sat, k), 8)
                if v:
                    m.tok.append(v-128)
            m.exp.append((('integ', 'cnr', sys, sat), fr, 'keys'))
        m.exp.append((('integ', 'agc', sys), sorted(
            satno(sys, v) for v, _ in svs), 'keys'))
    return m


def apos(m, k):
    m.f(('integ', 'pos', k, 0), 34, D34, True)
    m.f(('integ', 'pos', k, 1), 35, D34, True)
    m.f(('integ', 'pos', k, 2), 14, 1.0, True)


def m2071(g, naz, wrap=False):
    m = M(2071, g)
    if wrap:
        wg54(m, 9)
    head(m)
    m.raw(8, len(naz), ('integ', 'narea'))
    m.f(('integ', 'cf'), 1)
    m.f(('integ', 'seq'), 5)
    for k, n in enumerate(naz):
        apos(m, k)
        m.raw(6, n, ('integ', 'naz', k))
        az = 0
        for j in range(n):
            d = g.u(9)
            az += d
            m.raw(9, d, ('integ', 'azel', k, j, 0), az)
            m.f(('integ', 'azel', k, j, 1), 7)
        if n == 0:
            m.exp.append((('integ', 'azel', k), 0, 'len'))
    return m


def wg54(m, sub):
    m.mt = 54
    m.w = new(54)
    m.raw(4, 3, ('wg',), 2)
    m.raw(8, sub)
    m.f(('ver',), 4)


def m2072(g, mm, areas, wrap=False):
    """ areas: number of components (model 0) or list of modulations """
    m = M(2072, g)
    if wrap:
        wg54(m, 10)
    head(m)
    m.raw(8, len(areas), ('integ', 'narea'))
    m.raw(3, mm, ('integ', 'mm_id'))
    m.f(('integ', 'cf'), 1)
    m.f(('integ', 'seq'), 5)
    for k, a in enumerate(areas):
        P = ('integ', 'mm_param', k)
        if mm:
            m.raw(8, mask(a, 8, 0))
        apos(m, k)
        if mm == 0:
            m.raw(2, a, ('integ', 'np', k))
            for j in range(a):
                m.f(P+(j, 0), 4, 0.0625)
                for c, t in ((1, 'mu'), (2, 'sig')):
                    v = g.u(4)
                    m.raw(4, v, P+(j, c), TBL[t][v])
        else:
            m.exp.append((('integ', 'np', k), len(a), None))
            for j, sg in enumerate(a):
                v = g.u(4)
                m.raw(4, v, P+(j, 1), TBL['sig'][v])
                m.exp.append((P+(j, 0), sg, None))
                m.f(P+(j, 2), 5, 0.25, True)
                m.f(P+(j, 3), 5, 0.0625, True)
                if mm == 2:
                    m.f(P+(j, 4), 8, 0.3515625)
    return m


def m2011(mt, g, sl):
    m = M(mt, g)
    head(m)
    m.f(('integ', 'pidssr'), 16)
    m.f(('integ', 'sidssr'), 4)
    m.f(('integ', 'iodssr'), 4)
    m.raw(16, mask([SYS.index(s) for s, _ in sl], 16, 0))
    dnu = []
    for sys, svs in sl:
        m.raw(64, mask([v for v, _ in svs], 64, 1))
        m.f(('integ', 'iod_sys', sys), 2)
        for sv, _ in svs:
            sat = satno(sys, sv)
            if m.f(('integ', 'flag', sys, sat), 2) == 1:
                dnu.append(sat)
        m.exp.append((('integ', 'flag', sys), sorted(
            satno(sys, v) for v, _ in svs), 'keys'))
    m.exp.append((('integ', 'sat_e'), sorted(dnu), 'set'))
    m.exp.append((('integ', 'flag'), [s for s, _ in sl], 'keys'))
    return m


def nrtk(mt, g, svs):
    m = M(mt, g)
    sys = {1030: G, 1031: R, 1303: C, 1304: E, 1305: J}[mt]
    if sys == R:
        # Moscow time of day, half a day around the reference time
        v = g.u(17, 86400)
        m.raw(17, v)
        t = T0+43200
        d = (v-10800-(t-LEAP)) % 86400
        if d > 43200:
            d -= 86400
        t += d
        m.exp.append((('time',), t, 'time')
                     if abs(abs(d)-43200) > 60 else None)
    else:
        v = g.u(20, 604800)
        m.raw(20, v)
        t = v+(14 if sys == C else 0)
        d = (t-43200+302400) % 604800-302400
        m.exp.append((('time',), T0+43200+d, 'time')
                     if abs(abs(d)-302400) > 60 else None)
    if m.exp[-1] is None:
        m.exp.pop()
    m.f(('refid',), 12)
    m.f(('nrefs',), 7)
    m.raw(5, len(svs), ('nsat',))
    for sv in svs:
        sat = satno(sys, sv)
        m.raw(4 if sys == J else 6, sv)
        p = ('nrtk_r', sat)
        m.f(p+(0,), 8, 5e-4)
        m.f(p+(1,), 9, 1e-8)
        m.f(p+(2,), 6, 1e-7)
        m.f(p+(3,), 10, 5e-4)
        m.f(p+(4,), 10, 1e-8)
    return m


def stapos(mt, g):
    m = M(mt, g)
    if mt == 1032:
        m.f(('np_staid',), 12)
    m.f(('refid',), 12)
    m.f(None, 6)
    if mt != 1032:
        m.f(None, 3)
        m.f(('sti',), 1)
    m.f(('pos_arp', 0), 38, 1e-4, True)
    if mt != 1032:
        m.f(None, 2)
    m.f(('pos_arp', 1), 38, 1e-4, True)
    if mt != 1032:
        m.f(None, 2)
    m.f(('pos_arp', 2), 38, 1e-4, True)
    if mt == 1006:
        m.f(('ant_height',), 16, 1e-4)
    return m


CH = [chr(c) for c in range(32, 127)]


def text(n, k, hi=False):
    s = [CH[(k*17+j*(1+k % 5)) % len(CH)] for j in range(n)]
    if hi and n:
        s[n//2] = chr(160+(k*7) % 96)
    return ''.join(s)


def ant(mt, g, lens, hi=False):
    m = M(mt, g)
    m.f(('refid',), 12)
    names = ['ant_desc']
    if mt in (1008, 1033):
        names.append('ant_serial')
    if mt == 1033:
        names += ['rcv_type', 'firm_ver', 'rcv_serial']
    for k, (n, ln) in enumerate(zip(names, lens)):
        s = text(ln, k+ln, hi)
        m.raw(8, ln)
        for c in s:
            m.raw(8, ord(c))
        m.exp.append(((n,), s, None))
        if k == 0:
            m.f(('ant_id',), 8)
    return m


def glob(g, mk):
    m = M(1230, g)
    m.f(('refid',), 12)
    m.f(None, 1)
    m.f(None, 3)
    m.raw(4, mk)
    for k in range(4):
        if mk >> (3-k) & 1:
            v = g.s(16)
            if v == -32768:     # invalid
                v = 5
            m.w.s(16, v)
            m.exp.append((('glo_bias', k), v*0.02, 1e-5))
    return m


UNI = ['a', 'ß', '測', '𝄞']


def unitext(g, chars):
    m = M(1029, g)
    m.f(('refid',), 12)
    m.f(None, 16)
    m.f(None, 17, hi=86400)
    s = ''.join(UNI[c] for c in chars)
    b = s.encode()
    m.raw(7, len(s))
    m.raw(8, len(b))
    for c in b:
        m.raw(8, c)
    m.exp.append((('ustr',), s, None))
    return m


def decoder(log=None):
    d = rtcm()
    d.week = WEEK
    d.time = gt(T0+43200)
    d.monlevel = 0
    if log is not None:
        d.monlevel = 2
        d.fh = log
    return d


NUM = re.compile(r'-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?')


def judge(d, m, log=None, scan=False):
    msg = frame(m.w)
    if log is not None:
        log.truncate(0)
        log.seek(0)
    d.dlen = len(msg)+3
    i = d.decode(msg+b'\0\0\0', scanmode=scan)[0]
    expect(i == 24+m.w.n, lambda: 'MT%d: %s bits consumed of %d' % (
        m.mt, None if i is None else i-24, m.w.n))
    for p, v, tol in m.exp:
        try:
            a = get(d, p)
        except (KeyError, IndexError, AttributeError, TypeError) as e:
            expect(False, 'MT%d: %s is not reported (%r)' % (m.mt, p, e))
        if tol == 'keys':
            ok = sorted(a.keys()) == sorted(v)
        elif tol == 'set':
            ok = sorted(a) == v
        elif tol == 'len':
            ok = len(a) == v
        elif tol == 'time':
            ok = abs(secs(a)-v) < 1e-3
        else:
            ok = same(a, v, tol)
        expect(ok, lambda: 'MT%d: %s is reported as %r instead of %r' % (
            m.mt, p, a, v))
    if log is not None and m.tok:
        have = {float(x) for x in NUM.findall(log.getvalue())}
        for v in m.tok:
            expect(any(abs(x-v) <= 1e-6*abs(v)+1e-13 for x in have),
                   lambda: 'MT%d: value %g is not in the log' % (m.mt, v))


def build(spec, g):
    return BUILD[spec[0]](g, *spec[1:])


BUILD = {
    'min': m2000, 'ext': m2005, 'sis': m2006,
    'pri': lambda g, n: marea(2007, g, n),
    'exa': lambda g, n: marea(2008, g, n),
    'qual': m2051, 'cnr': m2091, 'vmap': m2071, 'mmap': m2072,
    'ssr': lambda g, mt, sl: m2011(mt, g, sl),
    'nrtk': lambda g, mt, sv: nrtk(mt, g, sv),
    'pos': lambda g, mt: stapos(mt, g),
    'ant': lambda g, mt, ln, hi=False: ant(mt, g, ln, hi),
    'bias': glob, 'text': unitext,
}


def fields(spec):
    g = Gen(0)
    build(spec, g)
    return g.n


def c_spec(spec, walk):
    """ a message of this shape: patterns, then each field at its extremes;
    one decoder for all (no value depends on the messages before) """
    n = fields(spec)
    d = decoder()
    scan = spec[0] in ('pos', 'ant', 'bias')
    for p in range(4):
        judge(decoder(), build(spec, Gen(p)))
        judge(d, build(spec, Gen(p)))
    log = io.StringIO()
    dl = decoder(log)
    for p in range(2):
        judge(dl, build(spec, Gen(p)), log)
        if scan:
            judge(decoder(), build(spec, Gen(p)), scan=True)
    if walk:
        for k in range(n):
            for e in range(NEXT):
                m = build(spec, Gen((k+e) % 4, k, e))
                d.week, d.time = WEEK, gt(T0+43200)
                judge(d, m)
        for k in range(n):
            for e in range(3):
                dl.week, dl.time = WEEK, gt(T0+43200)
                judge(dl, build(spec, Gen(e, k, e)), log)


def c_pair(a, b):
    """ second message of the same decoder is reported as alone """
    d = decoder()
    judge(d, build(a, Gen(0)))
    d.week, d.time = WEEK, gt(T0+43200)
    judge(d, build(b, Gen(1)))


def c_index(kind):
    """ every index of every table field, through the log """
    log = io.StringIO()
    d = decoder(log)
    one = [(G, [(5, [0])])]
    spec = {'ext': ('ext', one, 1), 'sis': ('sis', one), 'pri': ('pri', 1),
            'exa': ('exa', None), 'cnr': ('cnr', one)}[kind]

    class A(Gen):
        def u(self, nbit, hi=None):
            k = self.n
            self.n += 1
            top = (1 << nbit) if hi is None else hi
            return (self.val+k) % top if nbit <= 8 else k
    for v in range(256 if kind == 'cnr' else 32):
        g = A(0)
        g.val = v
        judge(d, build(spec, g), log)


def c_enc(mt, sl, pat):
    """ the encoder's SSR integrity message decodes to the encoded values """
    g = Gen(pat)
    e = rtcme()
    e.msgtype = mt
    e.integ.pid = g.u(12)
    e.integ.tow = g.u(30, 604800000)*1e-3
    e.integ.vp = TBL['vp'][g.u(4)]
    e.integ.udi = g.u(16)*0.1
    e.integ.aid = g.u(10)
    e.pid, e.sid, e.iodssr = g.u(16), g.u(4), g.u(4)
    e.integ.iod_sys = {s: g.u(2) for s, _ in sl}
    e.integ.flag = {s: {satno(s, v): g.u(2) for v, _ in svs}
                    for s, svs in sl}
    msg = bytearray(1100)
    i = e.encode(msg)
    d = decoder()
    j = d.decode(bytes(msg))[0]
    expect(i == j, 'MT%d: %s bits encoded, %s decoded' % (mt, i, j))
    for a, b in ((d.integ.pid, e.integ.pid), (d.integ.vp, e.integ.vp),
                 (d.integ.aid, e.integ.aid), (d.integ.pidssr, e.pid),
                 (d.integ.sidssr, e.sid), (d.integ.iodssr, e.iodssr),
                 (d.integ.iod_sys, e.integ.iod_sys),
                 (d.integ.flag, e.integ.flag)):
        expect(a == b, 'MT%d: %r decoded as %r' % (mt, b, a))
    expect(abs(d.integ.tow-e.integ.tow) < 5e-4 and
           abs(d.integ.udi-e.integ.udi) < 0.05,
           'MT%d: time or interval' % mt)


def satlists(sys, thorough):
    """ lists of (svid, frequency list) """
    n = NSV[sys]
    out = [[], [(1, [0])], [(n, [7])], [(1, [0, 2]), (n, [1])]]
    out.append([(k, [k % 8]) for k in range(1, min(n, 12)+1)])
    out.append([(2, []), (3, [0, 1, 2, 3, 4, 5, 6, 7])])
    if thorough:
        out += [[(k, [0, k % 7+1])] for k in range(1, n+1)]
        out.append([(k, [1]) for k in range(1, n+1)])
    return out


def run(ck):
    th = ck.thorough
    cases = []
    # satellite-list messages: all subsets of systems, all lists per system
    mk = [('min',), ('ext', 0), ('ext', 1), ('sis',), ('cnr',),
          ('ssr', 2011), ('ssr', 11), ('ssr', 12), ('ssr', 13)]

    def spec(k, sl):
        if k[0] == 'ext':
            return ('ext', sl, k[1])
        if k[0] == 'ssr':
            return ('ssr', k[1], sl)
        return (k[0], sl)
    first = {s: [(2, [0]), (NSV[s], [1, 2])] for s in SYS}
    for k in mk:
        for n in range(7):
            for sub in itertools.combinations(SYS, n):
                cases.append((spec(k, [(s, first[s]) for s in sub]),
                              th and n <= 2 or n == 1))
        for s in SYS:
            for sl in satlists(s, th):
                cases.append((spec(k, [(s, sl)]), False))
            for o in SYS:
                if SYS.index(o) > SYS.index(s):
                    for sl in satlists(s, False):
                        cases.append((spec(k, [(s, sl), (o, first[o])]),
                                      False))
    for kd in ('pri', 'exa'):
        for n in [None]+list(range(0, 117 if th else 20))+[117]:
            cases.append(((kd, n), n is None or n <= 3))
    for q in range(256):
        cases.append((('qual', q), q in (0, 1, 128, 170, 255)))
    for wrap in (False, True):
        L = 4 if th else 3
        for n in range(L+1):
            for naz in itertools.product((0, 1, 3), repeat=n):
                cases.append((('vmap', naz, wrap), n <= 2))
        cases.append((('vmap', (63,), wrap), True))
        cases.append((('vmap', (1,)*40, wrap), False))
        for n in range(L+1):
            for a in itertools.product(range(4), repeat=n):
                cases.append((('mmap', 0, a, wrap), n <= 1))
            for mm in (1, 2):
                for a in itertools.product(
                        ([], [0], [7], [1, 3], list(range(6))), repeat=n):
                    if n <= 2 or th:
                        cases.append((('mmap', mm, a, wrap), n <= 1))
    for mt in (1030, 1031, 1303, 1304, 1305):
        sys = {1030: G, 1031: R, 1303: C, 1304: E, 1305: J}[mt]
        n = min(NSV[sys], 31)
        for k in range(n+1):
            cases.append((('nrtk', mt, list(range(1, k+1))), k <= 2))
            cases.append((('nrtk', mt, list(range(NSV[sys], NSV[sys]-k, -1))),
                          False))
        for sv in range(1, NSV[sys]+1):
            cases.append((('nrtk', mt, [sv]), False))
    for mt in (1005, 1006, 1032):
        cases.append((('pos', mt), True))
    for n in range(32):
        cases.append((('ant', 1007, [n]), n < 2))
        for m in range(32):
            cases.append((('ant', 1008, [n, m]), n < 2 and m < 2))
    for l5 in itertools.product((0, 1, 31) if not th else (0, 1, 5, 31),
                                repeat=5):
        cases.append((('ant', 1033, list(l5)), False))
    for mt, c in ((1007, 1), (1008, 2), (1033, 5)):
        cases.append((('ant', mt, [6]*c, True), False))
    for k in range(16):
        cases.append((('bias', k), True))
    for n in range(5 if th else 4):
        for s in itertools.product(range(4), repeat=n):
            cases.append((('text', list(s)), n <= 1))
    for n in range(0, 128):
        cases.append((('text', [0]*n), False))
        if n <= 85:
            cases.append((('text', [2]*n), False))
    ck.bound(messages='1005 1006 1007 1008 1029 1030 1031 1032 1033 1230 '
             '1303-1305, integrity 2000 2005 2006 2007 2008 2011 2051 2071 '
             '2072 2091 and test forms 11-13, 54/9, 54/10',
             systems='all subsets of 6', shapes=len(cases),
             values='4 patterns, every field at 5 values on the marked '
             'shapes, every table index')
    ck.pmap('shape', cases, lambda c, x: c.case('shape', x, c_spec, *x),
            chunk=24)
    reps = [('min', [(G, first[G]), (J, first[J])]), ('min', [(E, first[E])]),
            ('min', []), ('ext', [(G, first[G])], 1),
            ('ext', [(C, first[C])], 0), ('sis', [(G, first[G])]),
            ('sis', [(R, first[R])]), ('pri', None), ('pri', 3), ('exa', 2),
            ('exa', None), ('qual', 0x81), ('qual', 0x40),
            ('cnr', [(G, first[G])]), ('cnr', [(I, first[I])]),
            ('vmap', (2, 1)), ('vmap', ()), ('mmap', 0, (3, 1)),
            ('mmap', 1, ([0, 2],)), ('mmap', 2, ([1],)),
            ('ssr', 2011, [(G, first[G])]), ('ssr', 12, [(E, first[E])]),
            ('nrtk', 1030, [3, 9]), ('nrtk', 1031, [4]), ('nrtk', 1305, [2]),
            ('pos', 1005), ('pos', 1006), ('pos', 1032),
            ('ant', 1007, [5]), ('ant', 1033, [9, 8, 7, 6, 5]),
            ('ant', 1008, [2, 3]), ('bias', 15), ('bias', 4),
            ('text', [0, 1, 2])]
    pairs = [(a, b) for a in reps for b in reps]
    ck.pmap('pair', pairs, lambda c, x: c.case('pair', x, c_pair, *x),
            chunk=80)
    ck.pmap('index', ['ext', 'sis', 'pri', 'exa', 'cnr'],
            lambda c, x: c.case('index', x, c_index, x), chunk=1)
    enc = []
    for mt in (11, 12, 13):
        for n in range(7):
            for sub in itertools.permutations(SYS, n) if n <= 2 else \
                    itertools.combinations(SYS, n):
                for pat in range(4):
                    enc.append((mt, [(s, first[s][::-1]) for s in sub], pat))
    ck.pmap('enc', enc, lambda c, x: c.case('enc', x, c_enc, *x), chunk=60)
