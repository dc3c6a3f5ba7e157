""" C16 RTCM ephemeris messages decode to the transmitted ephemeris """
import itertools
import math
from cssrlib.rtcm import rtcm
from cssrlib.gnss import uGNSS, prn2sat
from mc.core import expect
from mc.rtcmenc import new, frame, gt, secs, LEAP

PI = math.pi
P = lambda n: 2.0**-n
G, R, E, J, B, I, S = (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.QZS, uGNSS.BDS,
                       uGNSS.IRN, uGNSS.SBS)


# (name, kind, bits, scale): kind u/s/m (sign-magnitude)/x (not reported)
MSG = {
    1019: (G, [('prn', 'u', 6, 1), ('week', 'u', 10, 1), ('sva', 'u', 4, 1),
               ('code', 'u', 2, 1), ('idot', 's', 14, P(43)*PI),
               ('iode', 'u', 8, 1), ('toc', 'u', 16, 16),
               ('af2', 's', 8, P(55)), ('af1', 's', 16, P(43)),
               ('af0', 's', 22, P(31)), ('iodc', 'u', 10, 1),
               ('crs', 's', 16, P(5)), ('deln', 's', 16, P(43)*PI),
               ('M0', 's', 32, P(31)*PI), ('cuc', 's', 16, P(29)),
               ('e', 'u', 32, P(33)), ('cus', 's', 16, P(29)),
               ('sqrtA', 'u', 32, P(19)), ('toe', 'u', 16, 16),
               ('cic', 's', 16, P(29)), ('OMG0', 's', 32, P(31)*PI),
               ('cis', 's', 16, P(29)), ('i0', 's', 32, P(31)*PI),
               ('crc', 's', 16, P(5)), ('omg', 's', 32, P(31)*PI),
               ('OMGd', 's', 24, P(43)*PI), ('tgd', 's', 8, P(31)),
               ('svh', 'u', 6, 1), ('flag', 'u', 1, 1),
               ('fit', 'u', 1, 1)]),
    1044: (J, [('prn', 'u', 4, 1), ('toc', 'u', 16, 16),
               ('af2', 's', 8, P(55)), ('af1', 's', 16, P(43)),
               ('af0', 's', 22, P(31)), ('iode', 'u', 8, 1),
               ('crs', 's', 16, P(5)), ('deln', 's', 16, P(43)*PI),
               ('M0', 's', 32, P(31)*PI), ('cuc', 's', 16, P(29)),
               ('e', 'u', 32, P(33)), ('cus', 's', 16, P(29)),
               ('sqrtA', 'u', 32, P(19)), ('toe', 'u', 16, 16),
               ('cic', 's', 16, P(29)), ('OMG0', 's', 32, P(31)*PI),
               ('cis', 's', 16, P(29)), ('i0', 's', 32, P(31)*PI),
               ('crc', 's', 16, P(5)), ('omg', 's', 32, P(31)*PI),
               ('OMGd', 's', 24, P(43)*PI), ('idot', 's', 14, P(43)*PI),
               ('code', 'u', 2, 1), ('week', 'u', 10, 1),
               ('sva', 'u', 4, 1), ('svh', 'u', 6, 1), ('tgd', 's', 8, P(31)),
               ('iodc', 'u', 10, 1), ('fit', 'u', 1, 1)]),
    1042: (B, [('prn', 'u', 6, 1), ('week', 'u', 13, 1), ('sva', 'u', 4, 1),
               ('idot', 's', 14, P(43)*PI), ('iode', 'u', 5, 1),
               ('toc', 'u', 17, 8), ('af2', 's', 11, P(66)),
               ('af1', 's', 22, P(50)), ('af0', 's', 24, P(33)),
               ('iodc', 'u', 5, 1), ('crs', 's', 18, P(6)),
               ('deln', 's', 16, P(43)*PI), ('M0', 's', 32, P(31)*PI),
               ('cuc', 's', 18, P(31)), ('e', 'u', 32, P(33)),
               ('cus', 's', 18, P(31)), ('sqrtA', 'u', 32, P(19)),
               ('toe', 'u', 17, 8), ('cic', 's', 18, P(31)),
               ('OMG0', 's', 32, P(31)*PI), ('cis', 's', 18, P(31)),
               ('i0', 's', 32, P(31)*PI), ('crc', 's', 18, P(6)),
               ('omg', 's', 32, P(31)*PI), ('OMGd', 's', 24, P(43)*PI),
               ('tgd', 's', 10, 1e-10), ('tgd_b', 's', 10, 1e-10),
               ('svh', 'u', 1, 1)]),
    1041: (I, [('prn', 'u', 6, 1), ('week', 'u', 10, 1),
               ('af0', 's', 22, P(31)), ('af1', 's', 16, P(43)),
               ('af2', 's', 8, P(55)), ('sva', 'u', 4, 1),
               ('toc', 'u', 16, 16), ('tgd', 's', 8, P(31)),
               ('deln', 's', 22, P(41)*PI), ('iode', 'u', 8, 1),
               ('rsv', 'x', 10, 1), ('svh', 'u', 2, 1),
               ('cuc', 's', 15, P(28)), ('cus', 's', 15, P(28)),
               ('cic', 's', 15, P(28)), ('cis', 's', 15, P(28)),
               ('crc', 's', 15, P(4)), ('crs', 's', 15, P(4)),
               ('idot', 's', 14, P(43)*PI), ('M0', 's', 32, P(31)*PI),
               ('toe', 'u', 16, 16), ('e', 'u', 32, P(33)),
               ('sqrtA', 'u', 32, P(19)), ('OMG0', 's', 32, P(31)*PI),
               ('omg', 's', 32, P(31)*PI), ('OMGd', 's', 22, P(41)*PI),
               ('i0', 's', 32, P(31)*PI), ('rsv2', 'x', 4, 1)]),
    1020: (R, [('prn', 'u', 6, 1), ('frq', 'u', 5, 1), ('ahl', 'x', 1, 1),
               ('aha', 'x', 1, 1), ('P1', 'u', 2, 1), ('tkh', 'u', 5, 1),
               ('tkm', 'u', 6, 1), ('tks', 'u', 1, 1), ('bn', 'u', 1, 1),
               ('P2', 'u', 1, 1), ('tb', 'u', 7, 1)] +
           [f for c in 'xyz' for f in
            (('v'+c, 'm', 24, P(20)*1e3), ('p'+c, 'm', 27, P(11)*1e3),
             ('a'+c, 'm', 5, P(30)*1e3))] +
           [('P3', 'u', 1, 1), ('gamn', 'm', 11, P(40)), ('P', 'u', 2, 1),
            ('ln3', 'x', 1, 1), ('taun', 'm', 22, P(30)),
            ('dtaun', 'm', 5, P(30)), ('En', 'u', 5, 1), ('P4', 'u', 1, 1),
            ('FT', 'x', 4, 1), ('NT', 'x', 11, 1), ('M', 'u', 2, 1),
            ('ad', 'x', 1, 1), ('NA', 'x', 11, 1), ('tauc', 'x', 32, 1),
            ('N4', 'x', 5, 1), ('tgps', 'x', 22, 1), ('ln5', 'x', 1, 1),
            ('rsv', 'x', 7, 1)]),
    1043: (S, [('prn', 'u', 6, 1), ('iodn', 'u', 8, 1), ('toc', 'u', 13, 16),
               ('sva', 'u', 4, 1), ('px', 's', 30, 0.08),
               ('py', 's', 30, 0.08), ('pz', 's', 25, 0.4),
               ('vx', 's', 17, 0.000625), ('vy', 's', 17, 0.000625),
               ('vz', 's', 18, 0.004), ('ax', 's', 10, 0.0000125),
               ('ay', 's', 10, 0.0000125), ('az', 's', 10, 0.0000625),
               ('af0', 's', 12, P(31)), ('af1', 's', 8, P(40))]),
}
_gal = [('prn', 'u', 6, 1), ('week', 'u', 12, 1), ('iode', 'u', 10, 1),
        ('sva', 'u', 8, 1), ('idot', 's', 14, P(43)*PI),
        ('toc', 'u', 14, 60), ('af2', 's', 6, P(59)), ('af1', 's', 21, P(46)),
        ('af0', 's', 31, P(34)), ('crs', 's', 16, P(5)),
        ('deln', 's', 16, P(43)*PI), ('M0', 's', 32, P(31)*PI),
        ('cuc', 's', 16, P(29)), ('e', 'u', 32, P(33)),
        ('cus', 's', 16, P(29)), ('sqrtA', 'u', 32, P(19)),
        ('toe', 'u', 14, 60), ('cic', 's', 16, P(29)),
        ('OMG0', 's', 32, P(31)*PI), ('cis', 's', 16, P(29)),
        ('i0', 's', 32, P(31)*PI), ('crc', 's', 16, P(5)),
        ('omg', 's', 32, P(31)*PI), ('OMGd', 's', 24, P(43)*PI),
        ('tgd', 's', 10, P(32))]
MSG[1045] = (E, _gal+[('hs5a', 'u', 2, 1), ('dv5a', 'u', 1, 1),
                      ('rsv', 'x', 7, 1)])
MSG[1046] = (E, _gal+[('tgd_b', 's', 10, P(32)), ('hs5b', 'u', 2, 1),
                      ('dv5b', 'u', 1, 1), ('hs1', 'u', 2, 1),
                      ('dv1', 'u', 1, 1), ('rsv', 'x', 2, 1)])
NPRN = {G: 32, R: 24, E: 36, J: 10, B: 63, I: 14, S: 39}
PRN0 = {J: 192, S: 119}
SIZE = {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496,
        1046: 504}
BDT0 = 1356*604800+14     # BDT origin in seconds of the GPS time scale
WEEK = 2200
T0 = WEEK*604800+217800.0


def build(mt, v):
    sys, lay = MSG[mt]
    w = new(mt)
    for n, k, b, _ in lay:
        x = v.get(n, 0)
        if k == 's':
            w.s(b, x)
        elif k == 'm':
            w.sm(b, x)
        else:
            w.u(b, x)
    assert mt not in SIZE or w.n == SIZE[mt], 'HARNESS size'
    return w


def base(mt, t, k=0):
    """ typical message received at t, with distinguishable values """
    sys, lay = MSG[mt]
    v = {}
    for j, (n, kd, b, _) in enumerate(lay):
        x = (j+1+k*17)*2654435761 % (1 << 32)
        if kd in 'sm':
            v[n] = x % ((1 << b)-1)-((1 << b-1)-1)
        else:
            v[n] = x % (1 << b)
    v['prn'] = 1+(5+k) % NPRN[sys]
    tt = t-(BDT0 if sys == B else 0)
    if sys in (G, J, E, I, B):
        sc = dict((n, s) for n, _, _, s in lay)['toe']
        v['week'] = int(tt//604800) % (1 << dict(
            (n, b) for n, _, b, _ in lay)['week'])
        if sys == E:
            v['week'] = (int(tt//604800)-1024) % 4096
        v['toe'] = v['toc'] = int(tt % 604800)//sc
    if sys == R:
        v.update(frq=3, tkh=1, tkm=15, tks=1, tb=20)
    if sys == S:
        v['toc'] = int(t % 86400)//16
    return v


def nearest(x, period, t):
    """ the time x + n*period nearest to t; None if ambiguous """
    n = math.floor((t-x)/period+0.5)
    y = x+n*period
    if abs(abs(y-t)-period/2) < 1.5:
        return None
    return y


REL = 1e-9
ATTR = set('sva code idot iode af2 af1 af0 iodc crs deln M0 cuc e cus cic '
           'OMG0 cis i0 crc omg OMGd tgd tgd_b svh flag fit'.split())


def num(x, y, what):
    expect(abs(float(x)-y) <= REL*abs(y)+1e-25, lambda:
           f'{what}: {float(x)!r}, transmitted {y!r}')


def chktime(x, y, what, tol=1e-3):
    if y is not None:
        expect(abs(secs(x)-y) <= tol, lambda:
               f'{what}: off by {secs(x)-y} s')


def receiver(t, mode=0):
    d = rtcm()
    d.monlevel = 0
    if mode == 1:
        d.time = gt(t)
    d.set_time(gt(t))
    return d


def send(d, mt, v):
    w = build(mt, v)
    r = d.decode(frame(w))
    expect(r[0] == 24+w.n, lambda: f'consumed {r[0]-24} of {w.n} bits')
    expect(r[1] is None, 'observations reported')
    k = {1020: 3, 1043: 4}.get(mt, 2)
    expect(r[k] is not None and all(r[j] is None for j in (2, 3, 4)
                                    if j != k), 'kind of ephemeris')
    return r[k]


def judge(mt, v, e, t):
    sys, lay = MSG[mt]
    sc = {n: s for n, _, _, s in lay}
    expect(int(e.sat) == prn2sat(sys, v['prn']+PRN0.get(sys, 0)),
           lambda: f'satellite {e.sat}')
    if sys == R:
        for j, c in enumerate('xyz'):
            num(e.pos[j], v['p'+c]*sc['p'+c], 'pos '+c)
            num(e.vel[j], v['v'+c]*sc['v'+c], 'vel '+c)
            num(e.acc[j], v['a'+c]*sc['a'+c], 'acc '+c)
        for n in ('gamn', 'taun', 'dtaun'):
            num(getattr(e, n), v[n]*sc[n], n)
        num(e.frq, v['frq']-7, 'frequency channel')
        num(e.age, v['En'], 'age')
        num(e.svh, v['bn'], 'health')
        num(e.iode, v['tb'], 'iode')
        num(e.status, v['M'] << 7 | v['P4'] << 6 | v['P3'] << 5 |
            v['P2'] << 4 | v['P1'] << 2 | v['P'], 'status')
        off = 10800-LEAP
        if v['tb'] < 96:
            chktime(e.toe, nearest(v['tb']*900-off, 86400, t), 'toe')
        if v['tkh'] < 24 and v['tkm'] < 60:
            chktime(e.tof, nearest(v['tkh']*3600+v['tkm']*60+v['tks']*30-off,
                                   86400, t), 'tof')
        return
    if sys == S:
        for j, c in enumerate('xyz'):
            num(e.pos[j], v['p'+c]*sc['p'+c], 'pos '+c)
            num(e.vel[j], v['v'+c]*sc['v'+c], 'vel '+c)
            num(e.acc[j], v['a'+c]*sc['a'+c], 'acc '+c)
        for n in ('af0', 'af1', 'iodn', 'sva'):
            num(getattr(e, n), v[n]*sc[n], n)
        if v['toc'] < 5400:
            chktime(e.t0, nearest(v['toc']*16, 86400, t), 't0')
        return
    for n, _, _, s in lay:
        if n in ATTR:
            num(getattr(e, n), v[n]*s, n)
    num(e.A, (v['sqrtA']*sc['sqrtA'])**2, 'A')
    if mt == 1045:
        num(e.svh, v['hs5a'] << 4 | v['dv5a'] << 3, 'health')
        num(e.mode, 1, 'message type')
        num(e.code, 1 << 1 | 1 << 8, 'data source')
    elif mt == 1046:
        num(e.svh, v['hs5b'] << 7 | v['dv5b'] << 6 | v['hs1'] << 1 |
            v['dv1'], 'health')
        num(e.mode, 0, 'message type')
        num(e.code, 1 << 0 | 1 << 2 | 1 << 9, 'data source')
    else:
        num(e.mode, 0, 'message type')
    for n in ('toe', 'toc'):
        x = v[n]*sc[n]
        if x < 604800:
            if sys == B:
                x += 14
            chktime(getattr(e, n), nearest(x, 604800, t), n)
    if v['toe']*sc['toe'] < 604800:
        num(e.toes, v['toe']*sc['toe'], 'toes')


def chk(mt, v, t=T0, mode=0):
    judge(mt, v, send(receiver(t, mode), mt, v), t)


def chk_week(mt, t, dw, x, mode):
    """ reception at t; toe/toc = x s from t, week number of t + dw """
    v = base(mt, t)
    sys, lay = MSG[mt]
    sc = {n: s for n, _, _, s in lay}
    b = {n: k for n, _, k, _ in lay}
    tt = t-(BDT0 if sys == B else 0)
    q = int(tt+x)//sc['toe']*sc['toe']
    v['toe'] = v['toc'] = q % 604800//sc['toe']
    wk = int(tt//604800)+dw
    v['week'] = (wk-1024 if sys == E else wk) % (1 << b['week'])
    e = send(receiver(t, mode), mt, v)
    judge(mt, v, e, t)
    # week number: of the reception or of the reference time
    w = int(e.week)
    exp = {wk, q//604800}
    if sys == B:
        expect(w in exp, lambda: f'week {w}, {exp}')
    else:
        expect(w % 1024 in {x % 1024 for x in exp} and
               abs(w-t/604800) < 512, lambda: f'week {w}, {exp}')


def chk_seq(seq):
    """ a message is decoded independently of the earlier ones """
    d = receiver(T0)
    for k, mt in enumerate(seq):
        v = base(mt, T0, k)
        judge(mt, v, send(d, mt, v), T0)


def points(kd, b, T):
    if kd in 'sm':
        m = (1 << b-1)-1
        p = {0, 1, -1, m, -m} | {1 << k for k in range(b-1)} | \
            {-(1 << k) for k in range(b-1)}
        if kd == 's':
            p |= {-(1 << b-1)}
        if b <= 10 and T:
            p |= set(range(-m, m+1))
    else:
        p = {0, (1 << b)-1} | {1 << k for k in range(b)} | \
            {((1 << b)-1) ^ 1 << k for k in range(b)}
        if b <= 10:
            p |= set(range(1 << b))
    return sorted(p)


def run(ck):
    T = ck.thorough
    ck.bound(messages=len(MSG), fields=sum(len(m[1]) for m in MSG.values()),
             history_depth=3 if T else 2)

    def g_fields(c, it):
        mt, k = it
        sys, lay = MSG[mt]
        n, kd, b, _ = lay[k]
        if n == 'prn':
            for p in range(1, NPRN[sys]+1):
                c.case('sat', (mt, p), chk, mt, dict(base(mt, T0), prn=p))
            return
        if n == 'week':
            return
        # in a typical message, in one of zeros, in one of ones
        zero = {x: 0 for x, _, _, _ in lay}
        one = {x: ((1 << y)-1 if q in 'ux' else -1 if q == 's' else
                   -((1 << y-1)-1)) for x, q, y, _ in lay}
        keep = {x: y for x, y in base(mt, T0).items()
                if x in ('prn', 'week', 'toe', 'toc', 'tb', 'tkh', 'tkm',
                         'tks')}
        for nm, bs in (('typ', base(mt, T0)), ('zero', {**zero, **keep}),
                       ('one', {**one, **keep})):
            for x in points(kd, b, T):
                c.case('field', (mt, n, x, nm), chk, mt, dict(bs, **{n: x}))
    ck.pmap('field', [(mt, k) for mt in MSG for k in range(len(MSG[mt][1]))],
            g_fields, chunk=1)

    def g_adj(c, mt):
        """ adjacent fields with all four corner combinations """
        sys, lay = MSG[mt]
        for (n, k, b, _), (m, q, a, _) in zip(lay, lay[1:]):
            if 'prn' in (n, m) or 'week' in (n, m):
                continue

            def cor(k, b):
                if k == 's':
                    return (-(1 << b-1), (1 << b-1)-1, -1, 0)
                if k == 'm':
                    return (-((1 << b-1)-1), (1 << b-1)-1, 0)
                return (0, (1 << b)-1)
            for x in itertools.product(cor(k, b), cor(q, a)):
                c.case('adjacent', (mt, n, m, x), chk, mt,
                       dict(base(mt, T0), **{n: x[0], m: x[1]}))
    ck.pmap('adjacent', list(MSG), g_adj, chunk=1)

    W = WEEK*604800

    def g_time(c, it):
        mt, wk = it
        sys, lay = MSG[mt]
        b = wk*604800
        for o in (-7200, -3600, -30, -14, -1, 0, 1, 13, 14, 15, 30, 3600,
                  86400, 86400*3, 86400*6+7200, 75618, 302400):
            t = float(b+o)
            for mode in (0, 1):
                if sys == R:
                    for q in range(0, 96, 1 if T else 3):
                        v = dict(base(mt, t), tb=q, tkh=q//4,
                                 tkm=q % 4*15+7, tks=q & 1)
                        c.case('time', (mt, wk, o, q, mode), chk, mt, v, t,
                               mode)
                elif sys == S:
                    for q in range(0, 5400, 45 if T else 200):
                        c.case('time', (mt, wk, o, q, mode), chk, mt,
                               dict(base(mt, t), toc=q), t, mode)
                else:
                    for x in (-14400, -7200, -3600, -16, 0, 16, 3600, 7200,
                              14400, 86400, -86400, 259200, -259200):
                        for dw in (0, 1, -1):
                            tt = t-(BDT0 if sys == B else 0)
                            if dw and (tt+x)//604800 != tt//604800+dw:
                                continue
                            c.case('week', (mt, wk, o, x, dw, mode),
                                   chk_week, mt, t, dw, x, mode)
    # weeks around the rollovers of the 10 and 12 bit week numbers
    ck.pmap('time', [(mt, wk) for mt in MSG for wk in
                     ((2200, 2047, 2048, 2049, 2303, 2400, 3071, 3072)
                      if mt not in (1020, 1043) else (2200, 2049, 2400))],
            g_time)

    def g_seq(c, a):
        for n in range(1, 3 if T else 2):
            for h in itertools.product(MSG, repeat=n):
                c.case('sequence', (a,)+h, chk_seq, (a,)+h)
    ck.pmap('sequence', list(MSG), g_seq, chunk=1)
