""" C15 RTCM and IGS SSR corrections survive encode and decode """
import itertools
import os
import math
import tempfile
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.gnss import uGNSS, prn2sat
from cssrlib.cssrlib import sCType
from mc.core import expect
from mc.bits import BW, frombytes
from mc.rtcmenc import new, frame, gt, secs, LEAP

G, R, E, J, S, B = (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.QZS, uGNSS.SBS,
                    uGNSS.BDS)
SYS = [G, R, E, J, S, B]
NSAT = {G: 32, R: 24, E: 36, J: 10, S: 39, B: 63}
PRN0 = {J: 192, S: 119}
KIND = ['orb', 'clk', 'cbias', 'comb', 'ura', 'hclk']
BASE = {G: 1057, R: 1063, E: 1240, J: 1246, S: 1252, B: 1258}
PB = {G: 1265, R: 1266, E: 1267, J: 1268, S: 1269, B: 1270}
IGS = {G: 2, R: 4, E: 6, J: 8, B: 10, S: 12}
IGSK = {'orb': 1, 'clk': 2, 'comb': 3, 'hclk': 4, 'cbias': 5, 'pbias': 6,
        'ura': 7}
TEST = {}       # interoperability test message numbers
for _k, _kd in enumerate(KIND):
    TEST[R, _kd] = 41+_k
_off = {'orb': 62, 'clk': 65, 'cbias': 68, 'comb': 71, 'ura': 74, 'hclk': 77}
for _kd, _o in _off.items():
    TEST[E, _kd], TEST[B, _kd], TEST[J, _kd] = _o, _o+1, _o+2
for _k, _s in enumerate((G, R, E, B, J)):
    TEST[_s, 'pbias'] = 85+_k

SIG = {
    G: {0: '1C', 1: '1P', 2: '1W', 5: '2C', 6: '2D', 7: '2S', 8: '2L',
        9: '2X', 10: '2P', 11: '2W', 14: '5I', 15: '5Q', 16: '5X', 17: '1S',
        18: '1L', 19: '1X'},
    R: {0: '1C', 1: '1P', 2: '2C', 3: '2P', 4: '4A', 5: '4B', 6: '6A',
        7: '6B'},
    E: {0: '1A', 1: '1B', 2: '1C', 3: '1X', 4: '1Z', 5: '5I', 6: '5Q',
        7: '5X', 8: '7I', 9: '7Q', 10: '7X', 11: '8I', 12: '8Q', 13: '8X',
        14: '6A', 15: '6B', 16: '6C', 17: '6X', 18: '6Z'},
    B: {0: '2I', 1: '2Q', 2: '2X', 3: '6I', 4: '6Q', 5: '6X', 6: '7I',
        7: '7Q', 8: '7X', 9: '1D', 10: '1P', 11: '1X', 12: '5D', 13: '5P',
        14: '5X', 15: '1A'},
    J: {0: '1C', 1: '1S', 2: '1L', 3: '2S', 4: '2L', 5: '2X', 6: '5I',
        7: '5Q', 8: '5X', 9: '6S', 10: '6L', 11: '6X', 12: '1X'},
    S: {0: '1C', 1: '5I', 2: '5Q', 3: '5X'},
}

# per satellite fields (name, bits, resolution, signed)
ORB = [('dx', 22, 1e-4), ('dy', 20, 4e-4), ('dz', 20, 4e-4),
       ('ddx', 21, 1e-6), ('ddy', 19, 4e-6), ('ddz', 19, 4e-6)]
CLK = [('c0', 22, 1e-4), ('c1', 21, 1e-6), ('c2', 27, 2e-8)]
RES = {n: (b, s) for n, b, s in ORB+CLK}
RES['h'] = (22, 1e-4)


def forms():
    """ every message: (form, sys, kind) with form rtcm | igs | test """
    out = []
    for s in SYS:
        for kd in KIND+['pbias']:
            out.append(('rtcm', s, kd))
            out.append(('igs', s, kd))
            if (s, kd) in TEST:
                out.append(('test', s, kd))
    return out


def mtype(fm):
    form, s, kd = fm
    if form == 'igs':
        return 4076
    if form == 'test':
        return TEST[s, kd]
    return PB[s] if kd == 'pbias' else BASE[s]+KIND.index(kd)


def iodebits(fm):
    if fm[0] == 'igs':
        return 8
    return {E: 10, S: 24}.get(fm[1], 8)


def satbits(fm):
    if fm[0] == 'igs':
        return 6
    return {R: 5, J: 4}.get(fm[1], 6)


HEAD = dict(udi=3, mi=0, datum=1, iod=5, pid=258, sid=2, ci=1, mw=0, iyaw=1,
            iexpb=0)


def build(fm, t, sats, head=None):
    """ sats: list of dicts with raw values, 'id' is the transmitted id """
    form, s, kd = fm
    h = dict(HEAD)
    h.update(head or {})
    w = new(mtype(fm))
    if form == 'igs':
        w.u(3, 1)
        w.u(8, IGS[s]*10+IGSK[kd])
    if s == R and form != 'igs':
        w.u(17, int(t-LEAP+10800) % 86400)
    else:
        w.u(20, int(t) % 604800)
    w.u(4, h['udi'])
    w.u(1, h['mi'])
    if kd in ('orb', 'comb'):
        w.u(1, h['datum'])
    w.u(4, h['iod'])
    w.u(16, h['pid'])
    w.u(4, h['sid'])
    tst = kd == 'pbias' and form == 'test'
    if tst:
        w.u(1, h['iyaw'])
        w.u(4, h['iexpb'])
    elif kd == 'pbias':
        w.u(1, h['ci'])
        w.u(1, h['mw'])
    w.u(6, len(sats))
    for v in sats:
        w.u(satbits(fm), v['id'])
        if kd in ('orb', 'comb'):
            w.u(iodebits(fm), v['iode'])
            for n, b, _ in ORB:
                w.s(b, v[n])
        if kd in ('clk', 'comb'):
            for n, b, _ in CLK:
                w.s(b, v[n])
        if kd == 'hclk':
            w.s(22, v['h'])
        if kd == 'ura':
            w.u(3, v['cl'])
            w.u(3, v['val'])
        if kd == 'cbias':
            w.u(5, len(v['cb']))
            for sg, b in v['cb']:
                w.u(5, sg)
                w.s(14, b)
        if kd == 'pbias':
            w.u(5, len(v['pb']))
            if not tst or h['iyaw']:
                w.u(9, v['yaw'])
                w.s(8, v['dyaw'])
            for sg, si, wl, di, b in v['pb']:
                w.u(5, sg)
                w.u(1, si)
                if not tst:
                    w.u(2, wl)
                w.u(4, di)
                w.s(20, b)
    return w


def sv(v, n, lsb):
    return math.nan if v == -(1 << n-1) else v*lsb


def quality(cl, val):
    if (cl, val) == (7, 7):
        return 5.4665
    if (cl, val) == (0, 0):
        return math.nan
    return (3**cl*(1+val*0.25)-1)*1e-3


def satno(s, i):
    return prn2sat(s, i+PRN0.get(s, 0))


def model(st, fm, t, sats, head=None):
    """ store the message in the model """
    form, s, kd = fm
    h = dict(HEAD)
    h.update(head or {})
    for v in sats:
        n = satno(s, v['id'])
        if kd in ('orb', 'comb'):
            st['iode'][n] = v['iode']
            st['dorb'][n] = [sv(v[k], *RES[k]) for k in ('dx', 'dy', 'dz')]
            st['ddorb'][n] = [sv(v[k], *RES[k]) for k in
                              ('ddx', 'ddy', 'ddz')]
        if kd in ('clk', 'comb'):
            for k, a in zip(('c0', 'c1', 'c2'), ('dclk', 'ddclk', 'dddclk')):
                st[a][n] = [sv(v[k], *RES[k])]
        if kd == 'hclk':
            st['hclk'][n] = [sv(v['h'], 22, 1e-4)]
        if kd == 'ura':
            st['ura'][n] = [quality(v['cl'], v['val'])]
        if kd == 'cbias':
            allow(st, ('cbias', n), t, v['cb'])
            st['cbias'][n] = {'C'+SIG[s][g]: sv(b, 14, 0.01)
                              for g, b in v['cb'] if g in SIG[s]}
        if kd == 'pbias':
            tst = form == 'test'
            p = [x for x in v['pb'] if x[0] in SIG[s]]
            allow(st, ('pbias', n), t, v['pb'])
            st['pbias'][n] = {'L'+SIG[s][x[0]]: sv(x[4], 20, 1e-4) for x in p}
            st['si'][n] = {'L'+SIG[s][x[0]]: x[1] for x in p}
            st['di'][n] = {'L'+SIG[s][x[0]]: x[3] for x in p}
            if not tst:
                st['wl'][n] = {'L'+SIG[s][x[0]]: x[2] for x in p}
            if not tst or h['iyaw']:
                st['yaw'][n] = [v['yaw']/256.0]
                st['dyaw'][n] = [sv(v['dyaw'], 8, 1/8192.0)]


def allow(st, key, t, sigs):
    """ signals which the messages of the last epoch listed """
    ep, ok = st['_sig'].get(key, (None, set()))
    st['_sig'][key] = t, (ok if ep == t else set()) | {x[0] for x in sigs}


NAMES = ['iode', 'dorb', 'ddorb', 'dclk', 'ddclk', 'dddclk', 'hclk', 'ura',
         'cbias', 'pbias', 'si', 'di', 'wl', 'yaw', 'dyaw']
TOL = dict(dorb=1e-7, ddorb=1e-9, dclk=1e-7, ddclk=1e-9, dddclk=1e-11,
           hclk=1e-7, ura=1e-7, cbias=1e-6, pbias=1e-7, yaw=1e-9, dyaw=1e-9)


def empty():
    return {k: {} for k in NAMES+['_sig']}


def same(x, y, tol):
    if math.isnan(y):
        return math.isnan(x)
    return abs(x-y) <= tol


def judge(d, st):
    for nm in NAMES:
        a = getattr(d.lc[0], nm)
        a = {} if a is None else a
        exp = st[nm]
        for n in a:
            expect(n in exp or (isinstance(a[n], dict) and not a[n]),
                   lambda: f'{nm} of sat {n} was not transmitted')
        for n, v in exp.items():
            expect(n in a, lambda: f'{nm} of sat {n} missing')
            if nm == 'iode':
                expect(int(a[n]) == v, lambda: f'iode of {n}: {a[n]} '
                       f'transmitted {v}')
            elif isinstance(v, dict):
                ok = st['_sig']['cbias' if nm == 'cbias' else 'pbias', n][1]
                expect(len(a[n]) <= len(ok), lambda: f'{nm} of {n}: '
                       f'{sorted(a[n])} are not transmitted any more')
                for sg in v:
                    expect(sg in a[n], lambda: f'{nm} of {n} {sg} missing')
                    expect(same(float(a[n][sg]), v[sg], TOL.get(nm, 0)),
                           lambda: f'{nm} of {n} {sg}: {a[n][sg]} '
                           f'transmitted {v[sg]}')
            else:
                x = list(a[n]) if len(v) > 1 else [a[n]]
                expect(len(x) == len(v) and
                       all(same(float(p), q, TOL[nm]) for p, q in zip(x, v)),
                       lambda: f'{nm} of {n}: {a[n]} transmitted {v}')
    for n in st['dorb']:
        expect(list(d.sat_n).count(n) == 1,
               'list of satellites with corrections')
    for n in d.sat_n:
        expect(any(n in st[k] for k in ('dorb', 'dclk', 'hclk', 'ura',
                                        'cbias', 'pbias')),
               'satellite in the list was never mentioned')


def satval(fm, i, k=0):
    """ distinguishable values of the satellite with id i """
    s = fm[1]
    v = dict(id=i)
    x = (i*2654435761+k*40503+12345) % (1 << 30)
    for j, (n, b, _) in enumerate(ORB+CLK+[('h', 22, 0)]):
        v[n] = (x*(2*j+3) >> 2) % (1 << b-1)-(1 << b-2)
    v['iode'] = (x >> 3) % (1 << iodebits(fm))
    v['cl'], v['val'] = x % 8, (x >> 5) % 8
    sg = list(SIG[s])
    m = 1+(i+k) % min(len(sg), 4)
    v['cb'] = [(sg[(i+j) % len(sg)], (x*(j+5)) % 16000-8000)
               for j in range(m)]
    v['pb'] = [(sg[(i+j) % len(sg)], (i+j) & 1, (i+k+j) % 4, (i*3+k+j) % 16,
                (x*(j+7)) % 1000000-500000) for j in range(m)]
    v['yaw'], v['dyaw'] = x % 512, (x >> 9) % 255-127
    return v


T0 = 2200*604800+217000.0


def receiver(t, log=None):
    d = rtcm(log)
    d.monlevel = 1 if log else 0
    d.set_time(gt(t))
    return d


def send(d, w):
    m = frame(w)
    d.dlen = len(m)+3
    r = d.decode(m)
    expect(r[0] == 24+w.n, lambda: f'consumed {r[0]-24} of {w.n} bits')


def chk_msg(fm, sats, head=None, t=T0, tref=None, log=False):
    fn = None
    if log:
        fd, fn = tempfile.mkstemp()
        os.close(fd)
    try:
        d = receiver(t if tref is None else tref, fn)
        w = build(fm, t, sats, head)
        m = frame(w)
        tt = d.decode_time(m)
        expect(abs(secs(tt)-t) < 1e-6, lambda:
               f'decode_time off by {secs(tt)-t}')
        send(d, w)
        if fn:
            d.fh.close()
    finally:
        if fn:
            os.unlink(fn)
    st = empty()
    model(st, fm, t, sats, head)
    judge(d, st)
    h = dict(HEAD)
    h.update(head or {})
    expect(abs(secs(d.time)-t) < 1e-6, lambda: f'epoch off {secs(d.time)-t}')
    expect(d.iodssr == h['iod'] and d.pid == h['pid'] and d.sid == h['sid'],
           'IOD SSR / provider / solution')
    ct = dict(orb=['ORBIT'], clk=['CLOCK'], comb=['ORBIT', 'CLOCK'],
              cbias=['CBIAS'], pbias=['PBIAS'], ura=['URA'],
              hclk=['HCLOCK'])[fm[2]]
    for x in ct:
        expect(int(d.udi[sCType[x]]) == h['udi'], 'update interval')
    if fm[2] in ('orb', 'comb'):
        expect(d.datum == h['datum'], 'datum')
    if fm[2] == 'pbias' and fm[0] == 'test':
        expect(bool(d.iyaw) == bool(h['iyaw']), 'yaw indicator')


def chk_hist(ev):
    """ history of messages; ev: list of (form, satellite ids, dt, iod) """
    d = receiver(T0)
    st = empty()
    t = T0
    for k, (fm, ids, dt, iod) in enumerate(ev):
        t += dt
        sats = [satval(fm, i, k) for i in ids]
        h = dict(iod=iod)
        send(d, build(fm, t, sats, h))
        model(st, fm, t, sats, h)
        judge(d, st)


# ------------------------------------------------------------ re-encoding
def relay(fm, t, sats, head=None, real=False):
    """ decode a message, encode it again: the same message """
    d = receiver(t)
    w = build(fm, t, sats, head)
    send(d, w)
    e = rtcme()
    e.msgtype = mtype(fm)
    for n in ('lc', 'sat_n', 'sys_n', 'nsat_n', 'tow', 'week', 'iodssr',
              'pid', 'sid', 'udi', 'mi', 'inet', 'datum', 'time', 'iyaw',
              'iexpb', 'sat_b'):
        if hasattr(d, n):
            setattr(e, n, getattr(d, n))
    if fm[1] == R:
        e.tow = int(t) % 604800
    if fm[2] in ('clk', 'hclk'):        # satellites of the orbit message
        e.sat_n = [satno(fm[1], v['id']) for v in sats]
        e.nsat_n = len(e.sat_n)
    h = dict(HEAD)
    h.update(head or {})
    e.ci, e.mw = h['ci'], h['mw']
    msg = bytearray(2200)
    nb = e.encode(msg)
    expect(nb == 24+w.n, lambda: f'encoded {nb-24} bits, {w.n} transmitted')
    a = frombytes(bytes(msg))[24:nb]
    b = w.str()
    if fm[2] != 'ura':
        expect(a == b, lambda: 're-encoded message differs at bit %d' %
               next(i for i in range(len(a)) if a[i] != b[i]))
    d2 = receiver(t)
    m = bytearray(msg[:(nb+7)//8])
    m[0] = 0xd3
    r = d2.decode(bytes(m))
    expect(r[0] == nb, 'consumed')
    st = empty()
    model(st, fm, t, sats, head)
    judge(d2, st)


def chk_quant(fm, name, frac):
    """ values between the steps are encoded to the nearest step """
    sats = [satval(fm, i) for i in (2, 5, 9)]
    d = receiver(T0)
    send(d, build(fm, T0, sats))
    s = satno(fm[1], 5)
    lc = d.lc[0]
    if name in RES:
        lsb = RES[name][1]
        if name in ('dx', 'dy', 'dz'):
            p = lc.dorb[s]
            j = 'dx dy dz'.split().index(name)
        elif name in ('ddx', 'ddy', 'ddz'):
            p = lc.ddorb[s]
            j = 'ddx ddy ddz'.split().index(name)
        else:
            p = {'c0': lc.dclk, 'c1': lc.ddclk, 'c2': lc.dddclk,
                 'h': lc.hclk}[name]
            j = s
    else:
        p, lsb = {'cb': (lc.cbias, 0.01), 'pb': (lc.pbias, 1e-4)}[name]
        p = p[s]
        j = list(p)[0]
    if math.isnan(p[j]):
        return
    val = p[j]+frac*lsb
    p[j] = val
    e = rtcme()
    e.msgtype = mtype(fm)
    for n in ('lc', 'sys_n', 'tow', 'week', 'iodssr', 'pid', 'sid', 'udi',
              'mi', 'inet', 'datum', 'time', 'iyaw', 'iexpb'):
        if hasattr(d, n):
            setattr(e, n, getattr(d, n))
    e.sat_n = [satno(fm[1], v['id']) for v in sats]
    e.nsat_n = 3
    e.tow = int(T0) % 604800
    msg = bytearray(1100)
    nb = e.encode(msg)
    d2 = receiver(T0)
    d2.decode(bytes(msg[:(nb+7)//8]))
    lc = d2.lc[0]
    if name in ('dx', 'dy', 'dz'):
        x = lc.dorb[s][j]
    elif name in ('ddx', 'ddy', 'ddz'):
        x = lc.ddorb[s][j]
    elif name in RES:
        x = {'c0': lc.dclk, 'c1': lc.ddclk, 'c2': lc.dddclk,
             'h': lc.hclk}[name][j]
    else:
        x = {'cb': lc.cbias, 'pb': lc.pbias}[name][s][j]
    expect(abs(x-val) <= 0.51*lsb, lambda: f'{name}: {x} encoded {val}')


# ------------------------------------------------------------ ionosphere
def chk_vtec(form, layers, qi, raw, head=None):
    """ layers: [(height, degree, order)] transmitted values """
    h = dict(HEAD)
    h.update(head or {})
    w = new(4076 if form == 'igs' else 1264)
    if form == 'igs':
        w.u(3, 1)
        w.u(8, 201)
    w.u(20, int(T0) % 604800)
    w.u(4, h['udi'])
    w.u(1, h['mi'])
    w.u(4, h['iod'])
    w.u(16, h['pid'])
    w.u(4, h['sid'])
    w.u(9, qi)
    w.u(2, len(layers)-1)
    exp = []
    k = 0
    for hl, n, m in layers:
        w.u(8, hl)
        w.u(4, n)
        w.u(4, m)
        c, s = {}, {}
        for a, o0 in ((c, 0), (s, 1)):
            for o in range(o0, m+2):
                for g in range(o, n+2):
                    v = raw[k % len(raw)]
                    k += 1
                    w.s(16, v)
                    a[g, o] = sv(v, 16, 5e-3)
        exp.append((hl*10e3, n+1, m+1, c, s))
    d = receiver(T0)
    send(d, w)
    expect(abs(secs(d.time)-T0) < 1e-6, 'epoch')
    vt = d.lc[0].vtec
    expect(abs(vt['qi']-qi*0.05) < 1e-9, 'quality indicator')
    expect(len(vt['layer']) == len(exp), 'number of layers')
    for y, (hl, n, m, c, s) in zip(vt['layer'], exp):
        expect(abs(y['h']-hl) < 1e-6, lambda: f'height {y["h"]}')
        expect(y['c'].shape == (n+1, m+1) and y['s'].shape == (n+1, m+1),
               'degree/order')
        for g in range(n+1):
            for o in range(m+1):
                expect(same(y['c'][g, o], c.get((g, o), 0.0), 1e-7) and
                       same(y['s'][g, o], s.get((g, o), 0.0), 1e-7),
                       lambda: f'coefficient {g},{o}')


def fields(fm):
    kd = fm[2]
    out = []
    if kd in ('orb', 'comb'):
        out += [('iode', iodebits(fm), False)]+[(n, b, True)
                                                for n, b, _ in ORB]
    if kd in ('clk', 'comb'):
        out += [(n, b, True) for n, b, _ in CLK]
    if kd == 'hclk':
        out += [('h', 22, True)]
    if kd == 'ura':
        out += [('cl', 3, False), ('val', 3, False)]
    if kd == 'pbias':
        out += [('yaw', 9, False), ('dyaw', 8, True)]
    return out


def points(b, signed):
    if b <= 9:
        return range(-(1 << b-1), 1 << b-1) if signed else range(1 << b)
    if signed:
        v = {0, 1, -1, (1 << b-1)-1, -(1 << b-1), -(1 << b-1)+1}
        v |= {1 << k for k in range(b-1)} | {-(1 << k) for k in range(b-1)}
    else:
        v = {0, (1 << b)-1} | {1 << k for k in range(b)}
    return sorted(v)


def maxsat(fm):
    """ satellites of the longest message of the kind """
    per = satbits(fm)+sum(b for _, b, _ in fields(fm))
    if fm[2] == 'cbias':
        per += 5+4*19
    if fm[2] == 'pbias':
        per += 5+4*32
    return min(63, NSAT[fm[1]], (1023*8-120)//per)


def run(ck):
    T = ck.thorough
    fms = forms()
    ck.bound(messages=len(fms)+2, history_depth=4 if T else 3)

    def g_msg(c, fm):
        s, kd = fm[1:]
        key = (fm[0], str(s), kd)
        enc = fm[0] != 'igs'
        sats = [satval(fm, i) for i in (2, 5, 9)]

        def both(nm, k, sats, head=None, t=T0):
            c.case(nm, key+(k,), chk_msg, fm, sats, head, t)
            if enc:
                c.case('encode', key+(nm, k), relay, fm, t, sats, head)
        for n, b, sg in fields(fm):
            for v in points(b, sg):
                x = [dict(y) for y in sats]
                x[1][n] = v
                both('value', (n, v), x)
        if kd == 'ura':
            for cl, val in itertools.product(range(8), repeat=2):
                x = [dict(y) for y in sats]
                x[1].update(cl=cl, val=val)
                both('value', ('ura', cl, val), x)
        # satellites
        for i in range(1, NSAT[s]+1):
            both('sat', i, [satval(fm, i)])
        for n in range(maxsat(fm)+1):
            both('nsat', n, [satval(fm, i) for i in range(1, n+1)])
        ids = [1, 3, NSAT[s]]
        for p in itertools.permutations(ids):
            both('order', p, [satval(fm, i) for i in p])
        for m in range(1 << min(NSAT[s], 8 if T else 6)):
            p = [i+1 for i in range(8) if m >> i & 1]
            both('list', m, [satval(fm, i) for i in p])
        # header
        for n, b in (('udi', 4), ('mi', 1), ('iod', 4), ('sid', 4)):
            for v in range(1 << b):
                both('head', (n, v), sats, {n: v})
        for v in [0, 65535]+[1 << k for k in range(16)]:
            both('head', ('pid', v), sats, dict(pid=v))
        if kd in ('orb', 'comb'):
            both('head', 'datum', sats, dict(datum=0))
        if kd == 'pbias':
            for v in itertools.product((0, 1), repeat=2):
                both('head', ('ci', v), sats, dict(ci=v[0], mw=v[1]))
            if fm[0] == 'test':
                for v in range(16):
                    both('head', ('iexpb', v), sats, dict(iexpb=v))
                    both('head', ('noyaw', v), sats, dict(iexpb=v, iyaw=0))
        # signals
        al = list(SIG[s])
        if kd == 'cbias':
            for g in al:
                for v in points(14, True):
                    x = [dict(y) for y in sats]
                    x[1]['cb'] = [(g, v)]
                    both('bias', (g, v), x)
            for n in range(len(al)+1):
                for r in range(0, len(al), 1 if T else 3):
                    o = al[r:]+al[:r]
                    x = [dict(y) for y in sats]
                    x[1]['cb'] = [(g, 100*g+n-900) for g in o[:n]]
                    both('nsig', (n, r), x)
        if kd == 'pbias':
            for g in al:
                for v in points(20, True):
                    x = [dict(y) for y in sats]
                    x[1]['pb'] = [(g, 1, 2, 9, v)]
                    both('bias', (g, v), x)
                for si, wl, di in itertools.product((0, 1), range(4),
                                                    range(16)):
                    x = [dict(y) for y in sats]
                    x[1]['pb'] = [(g, si, 0 if fm[0] == 'test' else wl, di,
                                   777)]
                    if fm[0] != 'test' or wl == 0:
                        both('ind', (g, si, wl, di), x)
            for n in range(len(al)+1):
                for r in range(0, len(al), 1 if T else 3):
                    o = al[r:]+al[:r]
                    x = [dict(y) for y in sats]
                    x[1]['pb'] = [(g, g & 1, 0, (g+n) % 16, 1000*g+n-9000)
                                  for g in o[:n]]
                    both('nsig', (n, r), x)
        if kd in ('cbias', 'pbias'):    # signals without definition
            und = [g for g in range(20, 32)
                   if s != J or g not in (17, 19)]
            for g in und:
                x = [dict(y) for y in sats]
                if kd == 'cbias':
                    x[1]['cb'] = [(al[0], 5), (g, 99), (al[1], -7)]
                else:
                    x[1]['pb'] = [(al[0], 1, 0, 2, 5), (g, 1, 0, 3, 99),
                                  (al[1], 0, 0, 4, -7)]
                c.case('undef', key+(g,), chk_msg, fm, x)
        # epochs
        W = 2200*604800
        for b in (W, W+604800, W+86400, W+75618, W+18, W+594018,
                  W+3*86400):
            for o in (-1, 0, 1, 17, 18, 30):
                for dr in (0, -30, 30, -20000, 20000):
                    c.case('epoch', key+(b-W, o, dr), chk_msg, fm, sats, None,
                           float(b+o), float(b+o+dr))
                if enc:
                    c.case('encode', key+('epoch', b-W, o), relay, fm,
                           float(b+o), sats)
        c.case('log', key, chk_msg, fm, sats, None, T0, None, True)
        if enc:
            for n in [x for x in RES if x in [f[0] for f in fields(fm)]] + \
                    ({'cbias': ['cb'], 'pbias': ['pb']}.get(kd, [])):
                for fr in (-0.49, -0.3, -0.01, 0.01, 0.3, 0.49):
                    c.case('quant', key+(n, fr), chk_quant, fm, n, fr)
    ck.pmap('message', fms, g_msg, chunk=1)

    # histories: constellations, kinds and issues interleaved
    kinds = KIND+['pbias']
    alpha = []
    for fm in [('rtcm', G, 'x'), ('rtcm', R, 'x'), ('igs', G, 'x'),
               ('test', E, 'x')]:
        for ids in ([2, 5], [5]):
            for dt, iod in (((0, 5), (5, 5), (5, 6)) if T else
                            ((0, 5), (5, 6))):
                alpha.append((fm[0], fm[1], ids, dt, iod))
    n = 4 if T else 3

    def g_hist(c, it):
        kd, first = it
        for k in range(1, n+1):
            for h in itertools.product(alpha, repeat=k-1):
                if k == 4 and h[0][3] and h[1][3] and h[2][3] == 5 and \
                        h[0][2] == h[1][2]:
                    continue
                ev = [((f, s, kd), ids, dt, iod)
                      for f, s, ids, dt, iod in (first,)+h]
                c.case('history', (kd, k, str(first), str(h)), chk_hist, ev)
    ck.pmap('history', [(kd, a) for kd in kinds for a in alpha], g_hist,
            chunk=1)

    def g_mix(c, it):
        # all kinds of one and of two constellations in any order
        a, b = it
        for x in itertools.product(kinds, repeat=3):
            for dts in ((0, 0, 0), (5, 5, 5), (0, 5, 0)):
                ev = []
                for j, kd in enumerate(x):
                    s = a if j != 1 else b
                    ev.append((('igs' if j == 2 else 'rtcm', s, kd),
                               [[2, 5], [5, 7], [7]][j], dts[j], 5+j))
                c.case('mixed', (str(a), str(b), x, dts), chk_hist, ev)
    ck.pmap('mixed', list(itertools.product(SYS, repeat=2)), g_mix)

    def g_vtec(c, form):
        raw = [(k*7919) % 60001-30000 for k in range(997)]
        for n in range(16):
            for m in range(n+1):
                c.case('vtec', (form, n, m), chk_vtec, form, [(45, n, m)], 17,
                       raw)
        for k in range(1, 5):
            for p in itertools.product((0, 2), (0, 1), repeat=1):
                lay = [(40+7*j, p[0]+j % 2, min(p[1], p[0])) for j in range(k)]
                c.case('vtec', (form, 'layers', k, p), chk_vtec, form, lay,
                       3, raw)
        for v in range(512):
            c.case('vtec', (form, 'qi', v), chk_vtec, form, [(45, 1, 1)], v,
                   raw)
        for v in range(256):
            c.case('vtec', (form, 'h', v), chk_vtec, form, [(v, 1, 1)], 5,
                   raw)
        for v in points(16, True):
            c.case('vtec', (form, 'c', v), chk_vtec, form, [(45, 1, 1)], 5,
                   [11, v, -23])
    ck.pmap('vtec', ['rtcm', 'igs'], g_vtec, chunk=1)
