""" C31 carrier smoothing (Hatch filter) over measurement histories """
import itertools
from copy import deepcopy
import numpy as np
from cssrlib import gnss as g
from cssrlib.pntpos import stdpos
from mc.core import expect

NOISE = [0.0, 1.7, -0.9, 2.3, -1.1, 0.4, -2.0, 0.6, 1.2, -0.3]
# epoch kinds: (dt, code missing, phase missing, one-epoch code error,
#               persistent phase change)
KIND = {
    'k': (1.0, 0, 0, 0.0, 0.0),      # regular
    'h': (0.2, 0, 0, 0.0, 0.0),      # short interval
    'p': (1.0, 1, 0, 0.0, 0.0),      # code missing
    'l': (1.0, 0, 1, 0.0, 0.0),      # phase missing
    'b': (1.0, 1, 1, 0.0, 0.0),      # both missing
    'q': (0.3, 1, 0, 0.0, 0.0),      # code missing, short interval
    'm': (0.3, 0, 1, 0.0, 0.0),      # phase missing, short interval
    'c': (1.0, 0, 0, 40.0, 0.0),     # code outlier
    's': (1.0, 0, 0, 0.0, -31.0),    # slip above the threshold
    't': (1.0, 0, 0, 0.0, 2.5),      # slip below the threshold
    'g': (2.5, 0, 0, 0.0, 0.0),      # gap
    'a': (None, 0, 0, 0.0, 0.0),     # no measurement at that epoch
}


def series(hist, rng=2.3e7, rate=-512.3, off=4.0e5, t0=100000.0, nz=0):
    """ [(t, P, L)] of one satellite for a string of epoch kinds """
    out = []
    t = t0
    jump = 0.0
    for i, k in enumerate(hist):
        dt, pm, lm, ce, sl = KIND[k]
        if dt is None:
            t += 1.0
            out.append((t, None, None))
            continue
        t += dt
        jump += sl
        rho = rng+rate*(t-t0)+0.05*(t-t0)**2
        P = 0.0 if pm else rho+NOISE[(i+nz) % 10]+ce
        L = 0.0 if lm else rho+off+jump
        out.append((t, P, L))
    return out


class Ref:
    """ the specified filter """

    def __init__(self, ns=100, dt_th=1.0, cs_th=10.0):
        self.ns, self.dt, self.th = ns, dt_th, cs_th
        self.n = 0

    def put(self, t, P, L):
        if P == 0.0 or L == 0.0:
            self.n = 0
            return P
        if self.n > 0 and t-self.t > self.dt+1e-9:
            self.n = 0
        if self.n > 0:
            pred = self.s+(L-self.L)
            if abs(P-pred) >= self.th:
                self.n = 0
        if self.n == 0:
            self.s = P
            self.n = 1
        else:
            self.n = min(self.n+1, self.ns)
            self.s = P/self.n+(1-1/self.n)*pred
        self.t, self.L = t, L
        return self.s


def tm(t):
    return g.gpst2time(2200, t)


def newpos(**kw):
    nav = g.Nav(nf=kw.pop('nf', 1))
    return stdpos(nav, pos0=np.array([4.0e6, 5e5, 4.9e6]), csmooth=True, **kw)


class OB:
    pass


def direct(hist, ns, dt_th, cs_th, frac=0.0):
    p = newpos()
    r = Ref(ns, dt_th, cs_th)
    kw = {}
    if ns != 100:
        kw['ns'] = ns
    if dt_th != 1.0:
        kw['dt_th'] = dt_th
    if cs_th != 10.0:
        kw['cs_th'] = cs_th
    for i, (t, P, L) in enumerate(series(hist)):
        if P is None:
            continue
        o = g.Obs()
        o.t = tm(t+frac)
        got = p.csmooth(o, 17, P, L, **kw)
        want = r.put(t, P, L)
        expect(abs(got-want) < 1e-5, lambda: f'{hist}: epoch {i} smoothed '
               f'{got} expected {want} (raw {P})')


def long(ns, n):
    """ the averaging length saturates """
    p = newpos()
    r = Ref(ns)
    for i, (t, P, L) in enumerate(series('k'*n)):
        o = g.Obs()
        o.t = tm(t)
        kw = {} if ns == 100 else {'ns': ns}
        got, want = p.csmooth(o, 5, P, L, **kw), r.put(t, P, L)
        expect(abs(got-want) < 1e-5, f'epoch {i}: {got} expected {want}')


def pair(ha, hb, sats, same):
    """ two satellites in one filter (or one satellite in two filters) """
    sa = series(ha)
    sb = series(hb, rng=2.1e7, rate=333.3, off=-7.0e5, nz=4)
    p = newpos()
    q = p if same else newpos()
    ra, rb = Ref(), Ref()
    ev = sorted([(t, 0, P, L) for t, P, L in sa if P is not None] +
                [(t, 1, P, L) for t, P, L in sb if P is not None])
    for t, w, P, L in ev:
        o = g.Obs()
        o.t = tm(t)
        f, r, s = ((p, ra, sats[0]), (q, rb, sats[1]))[w]
        got, want = f.csmooth(o, s, P, L), r.put(t, P, L)
        expect(abs(got-want) < 1e-5, lambda: f'{ha}/{hb}: satellite {w} '
               f't={t} smoothed {got} expected {want}')


# --- the filter inside the positioning engine --------------------------

SATS = [g.prn2sat(g.uGNSS.GPS, 7), g.prn2sat(g.uGNSS.GAL, 11),
        g.prn2sat(g.uGNSS.GLO, 3)]
FR = {g.uGNSS.GPS: (1575.42e6, 1227.6e6), g.uGNSS.GAL: (1575.42e6, 1176.45e6),
      g.uGNSS.GLO: (1602e6-4*562.5e3, 1246e6-4*437.5e3)}
SIG = {g.uGNSS.GPS: ('1C', '2W'), g.uGNSS.GAL: ('1C', '5Q'),
       g.uGNSS.GLO: ('1C', '2C')}
CH = {g.uGNSS.GPS: 'G', g.uGNSS.GAL: 'E', g.uGNSS.GLO: 'R'}


def mkobs(t, sats, vals, nf, lli):
    o = g.Obs()
    o.t = tm(t)
    o.sat = np.array(sats)
    o.sig = {}
    for s in sats:
        sys = g.sat2prn(s)[0]
        o.sig[sys] = {ty: [g.rSigRnx(CH[sys]+c+x) for x in SIG[sys][:nf]]
                      for ty, c in ((g.uTYP.C, 'C'), (g.uTYP.L, 'L'),
                                    (g.uTYP.D, 'D'), (g.uTYP.S, 'S'))}
    o.P = np.array([v[0] for v in vals], dtype=float)
    o.L = np.array([v[1] for v in vals], dtype=float)
    o.D = np.zeros_like(o.P)
    o.S = np.full_like(o.P, 45.0)
    o.lli = np.array(lli, dtype=int)
    return o


def engine(hist, f2, rmode, dts):
    """
    hist: per epoch kind of satellite 0 on the first frequency, f2: kind of
    the epoch of its second frequency ('k', 'p', 'l'); the others regular
    """
    nf = 1 if rmode == 0 else 2
    p = newpos(nf=2, rmode=rmode, iono_opt=1)
    q = newpos(nf=2, rmode=rmode, iono_opt=1)
    q.nav.csmooth = False
    for e in (p, q):
        e.nav.glo_ch = {SATS[2]: -4}
        e.nav.elmin = np.deg2rad(5.0)
    nf = 2
    rr = np.array([4.0e6, 5e5, 4.9e6])
    up = rr/np.linalg.norm(rr)
    rs = np.array([np.r_[rr+up*2.2e7+np.array(d), 0.0, 0, 0]
                   for d in ([3e6, 0, 0], [0, 5e6, 0], [0, -4e6, 2e6])])
    rs = rs[:, :3]
    vs = np.zeros((3, 3))
    refs = [Ref() for _ in SATS]
    t = 100000.0
    jump = 0.0
    for i, k in enumerate(hist):
        dt, pm, lm, ce, sl = KIND.get(k, (1.0, 0, 0, 0.0, 0.0))
        absent = k == 'a'
        if k == 'i':                 # loss of lock flag, small slip
            sl = 3.0
        t += dt*dts if dt is not None else dts
        jump += sl
        sats, vals, ll, exp = [], [], [], []
        for n, s in enumerate(SATS):
            if n == 0 and absent:
                exp.append(None)
                continue
            sys = g.sat2prn(s)[0]
            lam = [299792458.0/f for f in FR[sys]]
            rho = 2.2e7+1e5*n-400.0*(t-1e5)+NOISE[n]
            P = [rho+NOISE[(i+n) % 10], rho+6.0+NOISE[(i+n+3) % 10]]
            L = [(rho+4e5)/lam[0], (rho-3.0)/lam[1]]
            mis = 0
            if n == 0:
                P = [x+ce for x in P]
                L = [L[0]+jump/lam[0], L[1]+jump/lam[1]]
                if pm:
                    P[0] = 0.0
                    mis = 1
                if lm:
                    L[0] = 0.0
                    mis = 1
                if f2[i] == 'p':
                    P[1] = 0.0
                    mis = 1
                if f2[i] == 'l':
                    L[1] = 0.0
                    mis = 1
                if k == 'i':
                    mis = 1
            sats.append(s)
            vals.append((P, L))
            ll.append([1 if n == 0 and k == 'i' else 0, 0])
            if rmode == 0:
                pr, cp = P[0], lam[0]*L[0]
            else:
                gam = (FR[sys][0]/FR[sys][1])**2
                pr = (P[1]-gam*P[0])/(1-gam)
                cp = (lam[1]*L[1]-gam*lam[0]*L[0])/(1-gam)
            exp.append((0.0, 0.0) if mis else (pr, cp))
        o = mkobs(t, sats, vals, nf, ll)
        o2 = deepcopy(o)
        idx = [n for n in range(3) if not (n == 0 and absent)]
        dtc = np.zeros(len(idx))
        for e in (p, q):
            # no code jump in the geometry-free data of this test
            e.nav.thresslip = 1e9
            e.qcedit(o, rs[idx], dtc, np.zeros(len(idx), dtype=int))
        yp = p.zdres(o, None, None, rs[idx], vs[idx], dtc,
                     np.r_[rr, 0.0, 0, 0, 0])[0]
        yq = q.zdres(o, None, None, rs[idx], vs[idx], dtc,
                     np.r_[rr, 0.0, 0, 0, 0])[0]
        expect(np.array_equal(o.P, o2.P) and np.array_equal(o.L, o2.L),
               'observations changed')
        for m, n in enumerate(idx):
            P, L = exp[n]
            want = refs[n].put(t, P, L)
            if P == 0.0:
                continue
            got = yp[m, 0]-yq[m, 0]
            expect(abs(got-(want-P)) < 1e-4, lambda: f'{hist}/{f2} rmode '
                   f'{rmode}: epoch {i} satellite {n} smoothing {got} '
                   f'expected {want-P}')


def run(ck):
    T = ck.thorough
    al = 'khplbqmcstga'
    D = 5 if not T else 6
    items = [''.join(h) for n in range(1, D+1)
             for h in itertools.product(al, repeat=n)]
    ck.pmap('history', items, lambda c, h: c.case(
        'history', h, direct, h, 100, 1.0, 10.0, steps=len(h)), chunk=1500)
    items = [(''.join(h), ns, dt, th, fr) for h in itertools.product(
        'khplqmcstg', repeat=4) for ns, dt, th, fr in
        ((2, 1.0, 10.0, 0.2), (3, 2.6, 10.0, 0.0), (1, 1.0, 10.0, 0.7),
         (100, 30.0, 2.0, 0.0), (100, 0.5, 100.0, 0.1))]
    ck.pmap('options', items, lambda c, x: c.case(
        'options', x, direct, *x, steps=4), chunk=600)
    ck.pmap('long', [(ns, 260) for ns in (1, 2, 5, 50, 100, 101)],
            lambda c, x: c.case('long', x, long, *x, steps=260))
    hs = [''.join(h) for h in itertools.product('klsga', repeat=3)]
    items = [('k'+a, 'k'+b, s, same) for a in hs for b in hs
             for s, same in (((17, 80), True), ((17, 17), False))]
    if not T:
        items = items[::2]+items[1::4]
    ck.pmap('pairs', items, lambda c, x: c.case(
        'pairs', x, pair, *x, steps=8), chunk=1000)
    items = []
    for rmode in (0, 1, 2):
        for h in itertools.product('kplscgai', repeat=3):
            for f2 in (('kkkk', 'kkpk', 'klkk', 'kklp') if rmode else
                       ('kkkk',)):
                for dts in (1.0, 0.2):
                    items.append(('k'+''.join(h)+'k', f2+'k', rmode, dts))
    ck.pmap('engine', items, lambda c, x: c.case(
        'engine', x, engine, *x, steps=5), chunk=40)
    ck.bound(alphabet=al, depth=D, pair_histories=len(hs), modes=[0, 1, 2])
