""" C30 consistent estimators for every configuration, inputs untouched """
import copy
import io
import itertools
from contextlib import redirect_stdout
import numpy as np
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, uTropoModel, timeadd, Nav, rSigRnx, default_config
from cssrlib.pppssr import pppos
from cssrlib.ppprtk import ppprtkpos
from cssrlib.rtk import rtkpos
from cssrlib.pntpos import stdpos, ionmodel
from cssrlib import ephemeris as ep
from cssrlib.cssrlib import cssr, sCSSRTYPE as sc
from cssrlib.cssr_mdc import cssr_mdc
from cssrlib.peph import antModelRx, antModelTx
from cssrlib.ppp import sunmoonpos
from mc import cssrenc as E
from mc.bits import tobytes
from mc.c25 import mkant, readatx
from mc.c32 import canon
from mc.core import expect
from mc.estsim import World, T0, TOW, C, freq, freq0, sat2prn, SYS

DT = 30
MODEL = {'SAAST': uTropoModel.SAAST, 'HOPF': uTropoModel.HOPF,
         'SBAS': uTropoModel.SBAS}


class Tap:
    """ keeps what enters the measurement update """

    def kfupdate(self, x, P, H, v, R):
        self.rec = (x.copy(), P.copy(), H.copy(), v.copy(), R.copy())
        return super().kfupdate(x, P, H, v, R)


class Ppp(Tap, pppos):
    pass


class PppRtk(Tap, ppprtkpos):
    pass


class Rtk(Tap, rtkpos):
    pass


class Std(Tap, stdpos):
    pass


def config(**kw):
    c = copy.deepcopy(default_config)
    c['nav'].update(sig_p0=1000., sig_n0=3000., sig_ion0=500., sig_ztd0=5.,
                    elmin=15.0)
    c['nav'].update(kw)
    return c


class Same:
    """ inputs stay as they are """

    def __init__(self, **kw):
        self.o = kw
        self.c = {k: canon(v) for k, v in kw.items()}

    def check(self, w):
        for k, v in self.o.items():
            expect(canon(v) == self.c[k], lambda: f'{w}: {k} changed')


DEFAULT = canon(default_config)


def positive(P, w):
    d = np.diag(P)
    expect(np.all(np.isfinite(P)), lambda: f'{w}: covariance not finite')
    expect(np.all(d >= 0), lambda: f'{w}: negative variance {d.min()}')
    i = np.where(d > 0)[0]
    expect(not np.any(np.abs(np.delete(P, i, 0)) > 0),
           lambda: f'{w}: covariance without variance')
    s = 1/np.sqrt(d[i])
    Q = P[np.ix_(i, i)]*s[:, None]*s
    expect(np.max(np.abs(Q-Q.T)) < 1e-6, lambda: f'{w}: asymmetric '
           f'{np.max(np.abs(Q-Q.T))}')
    e = np.linalg.eigvalsh((Q+Q.T)/2)
    expect(e[0] > -1e-6, lambda: f'{w}: negative eigenvalue {e[0]}')


IDS = {'G': 0, 'E': 2}
IX = {'G': (0, 10), 'E': (1, 4)}


class Ssr:
    """ compact SSR stream for the satellites of a world """

    def __init__(self, mode, W, used, drop, atm):
        self.mode, self.W = mode, W
        tow = TOW
        self.cs = cs = cssr() if mode == 'clas' else cssr_mdc()
        llh = g.ecef2pos(W.pos)
        la, lo = np.degrees(llh[:2])
        cs.set_time(T0)
        net = 3
        self.skip = []
        if mode == 'clas':
            s = 'nid gid lat lon alt\n'
            for k, (a, b) in enumerate(((.1, .12), (-.17, .1), (.12, -.2),
                                        (-.09, -.08))):
                s += f'{net} {k+1} {la+a:.3f} {lo+b:.3f} 30.0\n'
            cs.read_griddef(io.StringIO(s))
        gn = []
        for c in W.syss:
            gn.append((IDS[c], [sat2prn(x)[1] for x in used
                                if sat2prn(x)[0] == SYS[c]], IX[c], None))
        m = E.Mask(1, gn)
        sats = [g.id2sat(x[1]) for x in m.sats]
        n = len(sats)
        ws = [E.st1(m, tow),
              E.st2(m, tow, [(11, 40*k-200, 25*k-90, 130-30*k)
                             for k in range(n)]),
              E.st3(m, tow, [170*k-900 for k in range(n)]),
              E.st4(m, tow, [(17*k-60, 35-6*k) for k in range(n)]),
              E.st5(m, tow, [((90*k-500, 0), (200-45*k, 0))
                             for k in range(n)])]
        if mode == 'clas' and atm:
            sel = list(range(n))
            if drop:        # highest satellite without local correction
                j = sats.index(drop)
                sel.remove(j)
                self.skip = [drop]
            q = [(2, 1)]*len(sel)
            ws.append(E.st8(m, tow, 1, net, sel, q, [
                (100+37*i, 5*i-20, 12-3*i) for i in range(len(sel))]))
            ws.append(E.st9(m, tow, 1, 0, net, sel, (2, 1),
                            [(9-5*k, 3+4*k) for k in range(4)],
                            [[(i*3+k*5) % 21-10 for i in range(len(sel))]
                             for k in range(4)]))
        for w in ws:
            cs.decode_cssr(tobytes(w.str())+bytes(64), 0)
        self.q = copy.deepcopy(cs)      # of the simulation
        self.sign = -1. if mode == 'clas' else 1.

    def corr(self, s, rs, vs):
        lc = self.q.lc[0]
        nf = self.W.nf
        if s not in lc.dorb:
            return np.zeros(3), 0., np.zeros(nf), np.zeros(nf)
        dr = -ep.ssrorb2ecef(rs, vs, np.array(lc.dorb[s], dtype=float),
                             self.q)
        sg = self.W.sigs()[sat2prn(s)[0]]
        cb = np.array([lc.cbias[s][x] for x in sg[g.uTYP.C]])
        pb = np.array([lc.pbias[s][x] for x in sg[g.uTYP.L]])
        return dr, lc.dclk[s], self.sign*cb, self.sign*pb

    def model(self, opt, t):
        """ troposphere and ionosphere by the corrections """
        q = self.q

        def f(s, llh, az, el, mh, mw):
            hs, wet, _ = g.tropmodel(t, llh)
            if 2 in opt:
                net = q.find_grid_index(llh)
                d = q.get_dpos(llh)
            if opt[0] == 2:
                h, w = q.get_trop(*d)
                h0, w0, _ = g.tropmodel(t, [llh[0], llh[1], 0])
                tr = mh*h*hs/h0+mw*w*wet/w0
            else:
                tr = mh*hs+mw*(wet+(0.04 if opt[0] == 1 else 0.))
            it = 0.
            if opt[1] == 2 and s in q.lc[net].sat_n:
                it = 40.3e16/freq0(s)**2*q.get_stec(*d)[
                    list(q.lc[net].sat_n).index(s)]
            if opt[1] == 1:
                it = self.W.iono[s]
            return tr, it
        return f


REF = {'G': ('GC1W', 'GC2W'), 'E': ('EC1C', 'EC5Q')}


class Run:
    """ estimator, its world and the true states """

    def __init__(self, kind, syss, nf, pmode, opt, model='SAAST', world=None,
                 ssr=None, drop=False, ant=False, **kw):
        self.kind, self.nf, self.pmode = kind, nf, pmode
        self.trop, self.iono, self.phw = opt
        self.model = MODEL[model]
        self.W = World.get(syss, nf) if world is None else world
        self.W.phw.clear()
        self.w = f'{kind} {syss} nf {nf} pmode {pmode} {opt} {model}'
        self.ssr = self.extra = None
        self.skip = []
        self.zwd = 0.04 if self.trop == 1 else 0.
        self.vel = np.array([.6, -.4, .3]) if pmode else np.zeros(3)
        self.nav = self.W.nav()
        self.nav.pmode = pmode
        cfg = config(trop_opt=opt[0], iono_opt=opt[1], phw_opt=opt[2],
                     trop_model=model, **kw)
        self.inp = {'config': cfg}
        self.base = None
        top = self.used()
        if drop:
            top = max(top, key=self.elev)
        if ssr is not None:
            self.ssr = Ssr(ssr, self.W, self.used(), top if drop else None,
                           2 in opt[:2])
            self.skip = self.ssr.skip
            self.inp['lc'] = self.ssr.cs.lc
            self.w += f' {ssr} drop {drop}'
        if ant:
            self.antennas(top if drop and ssr != 'clas' else None)
        if kind == 'rtk':
            self.base = self.W.pos+np.array([3100., -2400., 1800.])
            self.nav.rb = list(self.base) if nf == 1 else self.base.copy()
            self.inp['base'] = self.nav.rb
        cls = {'ppp': Ppp, 'rtk': Rtk, 'ppprtk': PppRtk}[kind]
        pos0 = self.W.pos+np.array([8., -6., 5.])
        same = Same(pos0=pos0, **self.inp)
        self.inp['eph'] = self.nav.eph, self.nav.geph
        self.est = cls(self.nav, pos0, config=cfg)
        self.nav.t = T0
        same.check(self.w)
        self.nav.armode = kw.get('armode', 0)
        self.cache = {}

    def antennas(self, drop):
        """ of satellites and receiver, the one of drop is missing """
        B = {'G': ['G01', 'G02'], 'E': ['E01', 'E05']}
        ants = [mkant('RECEIVER', '', B['G']+B['E'], 31, (0., 90., 5.))]
        for s in self.W.sats:
            if s != drop:
                i = g.sat2id(s)
                ants.append(mkant('BLOCK', i, B[i[0]], 7+s))
        dec = readatx(ants)
        self.nav.sat_ant = dec.pcvs
        self.nav.rcv_ant = dec.pcvr[0]
        if drop:
            self.skip = [drop]
        nav2 = Nav()
        nav2.sat_ant, nav2.rcv_ant = dec.pcvs, dec.pcvr[0]
        nav2.rcv_ant_b = None
        self.w += ' antennas'

        def extra(s, rs, e, llh, t):
            sg = self.W.sigs()[sat2prn(s)[0]]
            c, p = sg[g.uTYP.C], sg[g.uTYP.L]
            if s == drop:
                return np.zeros(2), np.zeros(2)
            nav2.rsun = sunmoonpos(g.gpst2utc(t))[0]
            r = [np.array(antModelRx(nav2, llh, e, x, 1)) for x in (c, p)]
            if self.ssr is not None and self.ssr.mode == 'madoca':
                ref = [rSigRnx(x) for x in REF[g.sat2id(s)[0]]]
                a = np.array(antModelTx(nav2, e, c+p, s, t, rs, ref))
                r = r[0]+a[:2], r[1]+a[2:]
            return r
        self.extra = extra

    def elev(self, s):
        rs = self.W.state(s, T0)[0]
        _, e = g.geodist(rs, self.W.pos)
        return np.degrees(g.satazel(g.ecef2pos(self.W.pos), e)[1])

    def truth(self, dt):
        return self.W.pos+self.vel*dt

    def obs(self, dt):
        k = dict(trop=self.model, phw=self.phw, extra=self.extra)
        if self.ssr is not None:
            k.update(corr=self.ssr.corr, model=self.ssr.model(
                (self.trop, self.iono), timeadd(T0, dt)))
        o = self.W.obs(dt, self.truth(dt), zwd=self.zwd, iono=self.iono == 1,
                       **k)
        if self.base is None:
            return o, None
        w2 = copy.copy(self.W)
        w2.N = {s: [3*x % 50 for x in n] for s, n in self.W.N.items()}
        w2.iono = {s: .8*x for s, x in self.W.iono.items()}
        return o, w2.obs(dt, self.base, clk=-2e-5, key='b',
                         iono=self.iono == 1, **k)

    def states(self, dt, x, nav=None):
        """ true state vector and the states in use """
        e, n = self.est, self.nav if nav is None else nav
        x = x.copy()
        use = [0, 1, 2]
        x[:3] = self.truth(dt)
        if self.pmode:
            x[3:6] = self.vel
        if self.trop == 1:
            i = e.IT(n.na)
            x[i] = self.zwd
            use.append(i)
        for s in self.used():
            if self.iono == 1:
                i = e.II(s, n.na)
                x[i] = self.W.iono[s]*(.2 if self.base is not None else 1.)
                if s in self.glo():
                    x[i] *= 1.
                use.append(i)
            for f in range(self.nf):
                i = e.IB(s, f, n.na)
                x[i] = self.W.N[s][f]
                if self.base is not None:
                    x[i] -= 3*self.W.N[s][f] % 50
                use.append(i)
        return x, use

    def glo(self):
        return [s for s in self.W.sats if sat2prn(s)[0] == uGNSS.GLO]

    def used(self):
        """ satellites above the mask """
        return [s for s in self.W.sats if self.elev(s) > 16 and
                s not in self.skip]

    def process(self, dt, est=None):
        est = self.est if est is None else est
        if dt not in self.cache:
            self.cache[dt] = self.obs(dt)
        o, b = self.cache[dt]
        same = Same(obs=o, obsb=b, **self.inp)
        est.rec = None
        if b is None:
            est.process(o, cs=self.ssr and self.ssr.cs)
        else:
            est.process(o, obsb=b)
        w = f'{self.w} at {dt}'
        same.check(w)
        expect(canon(default_config) == DEFAULT,
               lambda: f'{w}: defaults changed')
        expect(est.rec is not None, lambda: f'{w}: no update')
        positive(est.nav.P, w)
        return est.rec


def layout(r):
    """ every quantity has its own state """
    e, n = r.est, r.nav
    ix = list(range(6 if r.pmode else 3))
    if r.trop == 1:
        ix.append(e.IT(n.na))
    if r.iono == 1:
        ix += [e.II(s, n.na) for s in range(1, uGNSS.MAXSAT+1)]
    expect(sorted(ix) == list(range(n.na)),
           lambda: f'{r.w}: states without ambiguities {sorted(ix)[:12]}')
    ix += [e.IB(s, f, n.na) for f in range(r.nf)
           for s in range(1, uGNSS.MAXSAT+1)]
    expect(sorted(ix) == list(range(n.nx)), f'{r.w}: ambiguity states')


def noise(r, P1, tt, rec):
    """ process noise of each state """
    P0, n, e = rec[1], r.nav, r.est
    q = {0: n.sig_qp, 1: n.sig_qp, 2: n.sig_qp}
    if r.pmode:
        q.update({3: n.sig_qv, 4: n.sig_qv, 5: n.sig_qv})
        F = np.eye(n.nx)
        F[:3, 3:6] = np.eye(3)*tt
        P1 = F@P1@F.T
    if r.trop == 1:
        q[e.IT(n.na)] = n.sig_qztd
    for s in r.used():
        if r.iono == 1:
            q[e.II(s, n.na)] = n.sig_qion
        for f in range(r.nf):
            q[e.IB(s, f, n.na)] = None
    for i, s in q.items():
        d = P0[i, i]-P1[i, i]
        if s is None:       # ambiguity: none or the configured one
            expect(abs(d) < n.sig_qb**2*tt+1e-9*P1[i, i],
                   lambda: f'{r.w}: noise of ambiguity {d}')
        else:
            expect(abs(d-s**2*tt) < 1e-6*(s**2*tt+P1[i, i]), lambda:
                   f'{r.w}: noise of state {i} {d} expected {s**2*tt}')
    j = list(q)
    D = (P0-P1)[np.ix_(j, j)]
    D -= np.diag(np.diag(D))
    expect(np.max(np.abs(D)) < 1e-6*np.max(np.abs(P1)),
           lambda: f'{r.w}: correlated noise')


def sensitivity(r, dt, tol=3e-4):
    """ residuals at the true states and their derivatives """
    def at(dx, m=1.):
        e = copy.deepcopy(r.est)
        x, use = r.states(dt-DT, e.nav.x)
        e.nav.x = x+dx
        return r.process(dt, e)
    nx = r.nav.nx
    x0, H, v = (at(np.zeros(nx))[k] for k in (0, 2, 3))
    xt, use = r.states(dt, x0)
    d = x0-xt
    expect(np.max(np.abs(d[use])) < 1e-6, lambda: f'{r.w}: states of '
           f'tracked satellites changed before the update: '
           f'{np.where(np.abs(d) > 1e-6)[0]}')
    used = r.used()
    want = sum(2*r.nf*(sum(sat2prn(s)[0] == c for s in used)-1)
               for c in {sat2prn(s)[0] for s in used})
    expect(len(v) == want, lambda: f'{r.w}: {len(v)} measurements, '
           f'expected {want}')
    expect(np.max(np.abs(v)) < tol, lambda: f'{r.w}: residual '
           f'{np.max(np.abs(v))} of row {np.argmax(np.abs(v))} at the truth')
    cols = set(np.where(np.any(H != 0., axis=0))[0])
    expect(cols == set(use), lambda: f'{r.w}: sensitive states '
           f'{sorted(cols ^ set(use))[:9]} differ')
    # position, velocity
    for k in range(6 if r.pmode else 3):
        dx = np.zeros(nx)
        dx[k] = 0.7 if k < 3 else 0.02
        _, _, _, v1, _ = at(dx)
        want = v-H[:, k % 3]*dx[k]*(1. if k < 3 else DT)
        d = np.max(np.abs(v1-want))
        expect(d < 1e-3, lambda: f'{r.w}: derivative by state {k}: {d}')
    # all others, linear
    dx = np.zeros(nx)
    for n, i in enumerate(use[3:]):
        dx[i] = ((n*29) % 31+1)*0.03
    _, H1, _, v1, R = at(dx)
    d = np.abs(v1-(v-H@dx))
    expect(np.max(d) < 1e-6, lambda: f'{r.w}: row {np.argmax(d)} differs '
           f'{np.max(d)} from its sensitivity')
    expect(np.allclose(R, R.T) and np.linalg.eigvalsh(R)[0] > 0,
           f'{r.w}: noise covariance')
    return v


def c_float(kind, syss, nf, pmode, opt, model, **kw):
    r = Run(kind, syss, nf, pmode, opt, model, **kw)
    layout(r)
    tol = [.25, .25, .08] if r.trop == 1 else [.03, .02, .02]
    for k in range(3):
        if k:
            P1, t1 = r.nav.P.copy(), r.nav.t
        rec = r.process(DT*k)
        if k:
            noise(r, P1, DT, rec)
        d = np.linalg.norm(r.nav.x[:3]-r.truth(DT*k))
        expect(d < tol[k] or r.iono == 1 and nf == 1,
               lambda: f'{r.w}: position error {d} epoch {k}')
        expect(r.nav.smode == 5, lambda: f'{r.w}: solution {r.nav.smode}')
    sensitivity(r, DT*3)


def c_fix(kind, syss, nf, pmode, opt, model, mode, par, **kw):
    """ fixed ambiguities """
    r = Run(kind, syss, nf, pmode, opt, model, armode=mode, parmode=par, **kw)
    r.nav.armode, r.nav.parmode = mode, par
    r.w += f' armode {mode} parmode {par}'
    ok = 0
    for k in range(4):
        P1, t1 = r.nav.P.copy(), r.nav.t
        r.process(DT*k)
        if r.nav.smode != 4:
            expect(not ok, lambda: f'{r.w}: fix lost at epoch {k}')
            continue
        ok += 1
        d = np.linalg.norm(r.nav.xa[:3]-r.truth(DT*k))
        expect(d < ((.015 if pmode else 8e-3) if k else .05),
               lambda: f'{r.w}: fixed position error {d}')
        expect(np.all(np.isfinite(r.nav.Pa)) and
               np.diag(r.nav.Pa).min() > -1e-9, f'{r.w}: Pa')
        if mode == 3:
            d = np.linalg.norm(r.nav.x[:3]-r.truth(DT*k))
            expect(d < ((.015 if pmode else 8e-3) if k else .05),
                   lambda: f'{r.w}: position error {d} held')
    expect(ok or par == 2 and r.iono == 1,
           lambda: f'{r.w}: ambiguities not fixed')


ION = np.array([[1.1e-8, 1.5e-8, -6e-8, -6e-8], [9e4, 6e4, -7e4, -2e5]])
PAIR = {'G': {1: ('1C', '2W'), 2: ('1C', '5Q')},
        'E': {1: ('1C', '7Q'), 2: ('1C', '5Q')},
        'C': {2: ('1P', '5P')}, 'J': {1: ('1C', '2L'), 2: ('1C', '5Q')}}


class Spp:
    """ standalone positioning """

    def __init__(self, syss, nf, rmode, pmode, opt, tgd, smooth, drift):
        self.pmode, self.opt, self.rmode = pmode, opt, rmode
        self.tgd, self.drift = tgd, drift
        self.W = World.get(syss, nf, 35.5, 139.6, 80., tgd, 17., 1, 7)
        self.nav = self.W.nav()
        self.nav.pmode = pmode
        self.nav.ion = ION.copy()
        self.w = f'spp {syss} nf {nf} rmode {rmode} pmode {pmode} {opt} ' \
            f'tgd {tgd} smoothing {smooth} drift {drift}'
        self.vel = np.array([.6, -.4, .3]) if pmode else np.zeros(3)
        self.est = Std(self.nav, self.W.pos+np.array([8., -6., 5.]),
                       trop_opt=opt[0], iono_opt=opt[1], csmooth=smooth,
                       rmode=rmode)
        self.nav.t = T0
        self.cache = {}

    def model(self, s, llh, az, el, mh, mw):
        t = T0
        hs, wet, _ = g.tropmodel(t, llh, model=uTropoModel.SBAS)
        tr = mh*hs+mw*wet if self.opt[0] == 0 else 0.
        I = ionmodel(self.t, llh, az, el, self.nav) \
            if self.opt[1] == 0 or self.rmode else 0.
        if sat2prn(s)[0] == uGNSS.GLO:
            I *= (freq(s, 0)/freq0(s))**2
        return tr, I

    def obs(self, dt, jump=0.):
        self.t = timeadd(T0, dt)
        clk = 2e-7+self.drift*dt+jump
        W = self.W
        if self.rmode:
            W = copy.copy(W)
            from mc import estsim as S
            keep = S.SIG, S.FREQ, S.STEP
            pr = {c: PAIR[c][self.rmode] for c in W.syss}
            S.FREQ = {c: tuple(rSigRnx(c+'L'+x).frequency() for x in p)
                      for c, p in pr.items()}
            S.SIG = pr
            try:
                o = W.obs(dt, self.truth(dt), clk, trop=uTropoModel.SBAS,
                          tide=False, shapiro=False, model=self.model)
            finally:
                S.SIG, S.FREQ, S.STEP = keep
        else:
            o = W.obs(dt, self.truth(dt), clk, trop=uTropoModel.SBAS,
                      tide=False, shapiro=False, model=self.model)
        return o, clk

    def truth(self, dt):
        return self.W.pos+self.vel*dt

    def process(self, dt, est=None, jump=0.):
        if (dt, jump) not in self.cache:
            self.cache[dt, jump] = self.obs(dt, jump)
        o = self.cache[dt, jump][0]
        same = Same(obs=o)
        est = self.est if est is None else est
        est.rec = None
        est.process(o)
        w = f'{self.w} at {dt}'
        same.check(w)
        expect(est.rec is not None, lambda: f'{w}: no update')
        positive(est.nav.P, w)
        return est.rec


def c_spp(syss, nf, rmode, pmode, opt, tgd, smooth, drift, jumps, step=1):
    r = Spp(syss, nf, rmode, pmode, opt, tgd, smooth, drift)
    e, n = r.est, r.nav
    k0 = e.ICB()
    expect(n.nx == (8 if pmode else 4) and k0 == (6 if pmode else 3),
           f'{r.w}: layout')
    used = [s for s in r.W.sats if s in r.W.sats]
    used = [s for s in used if np.degrees(g.satazel(
        g.ecef2pos(r.W.pos), g.geodist(r.W.state(s, T0)[0], r.W.pos)[1])[1])
        > 10.3]
    jump = 0.
    tot = 4+len(jumps)
    for k in range(tot):
        jump += jumps.get(k, 0.)
        P1 = n.P.copy()
        x, P, H, v, R = r.process(step*k, jump=jump)
        expect(len(v) == len(used), lambda: f'{r.w}: {len(v)} measurements '
               f'of {len(used)} satellites')
        if k:
            q = np.zeros(n.nx)
            q[:3], q[k0] = n.sig_qp**2, n.sig_qcb**2
            F = np.eye(n.nx)
            if pmode:
                q[3:6], q[7] = n.sig_qv**2, n.sig_qcd**2
                F[:3, 3:6] = np.eye(3)*step
                F[6, 7] = step
            d = np.max(np.abs(P-F@P1@F.T-np.diag(q)*step))
            expect(d < 1e-6*np.max(P), lambda: f'{r.w}: process noise {d}')
        d = np.linalg.norm(n.x[:3]-r.truth(step*k))
        c = abs(n.x[k0]-C*r.cache[step*k, jump][1])
        tol = 1. if k == 0 or k in jumps else .3
        if jumps:
            tol *= 3
        expect(d < tol and c < tol, lambda: f'{r.w}: position error {d} '
               f'clock error {c} at epoch {k}, jumps {jumps}')
        expect(n.smode == 1, f'{r.w}: solution {n.smode}')

    def at(dx):
        e1 = copy.deepcopy(e)
        e1.nav.x = e1.nav.x.copy()
        e1.nav.x[:3] = r.truth(step*(tot-1))
        e1.nav.x[k0] = C*r.cache[step*(tot-1), jump][1]
        if pmode:
            e1.nav.x[3:6], e1.nav.x[7] = r.vel, C*drift
        else:
            e1.nav.x[k0] += C*drift*step
        e1.nav.x += dx
        e1.nav.x[k0] -= .371        # residuals are not zero
        return r.process(step*tot, e1, jump)
    _, _, H, v, R = at(np.zeros(n.nx))
    v = v-.371
    expect(np.max(np.abs(v)) < (.5 if 'R' in syss and opt[1] == 0 else
                                .05 if smooth else 2e-3),
           lambda: f'{r.w}: residual '
           f'{np.max(np.abs(v))} at the truth')
    for i in range(n.nx):
        dx = np.zeros(n.nx)
        dx[i] = .7
        want = H[:, i]*.7
        if pmode and i in (3, 4, 5):
            want = H[:, i-3]*.7*step
        if pmode and i == 7:
            want = H[:, 6]*.7*step
        d = np.max(np.abs(v+.371-want-at(dx)[3]))
        expect(d < 2e-3, lambda: f'{r.w}: derivative by state {i} {d}')
    expect(np.linalg.eigvalsh(R)[0] > 0 and np.allclose(R, R.T),
           f'{r.w}: noise covariance')


def make(kind, opt, cfg, W):
    """ estimator and its configuration """
    nav = W.nav()
    p = W.pos+1.
    if kind == 'spp':
        e = stdpos(nav, p, trop_opt=opt[0], iono_opt=opt[1])
    elif kind == 'ppp':
        e = pppos(nav, p, None, *opt, config=cfg)
    else:
        e = (rtkpos if kind == 'rtk' else ppprtkpos)(nav, p, config=cfg)
    return e, canon({k: v for k, v in vars(e.nav).items()
                     if k not in ('eph', 'geph', 'fout')})


def c_defaults(kind, first, opt, own):
    """ an estimator with other options leaves later ones alone """
    W = World.get('GE', 2)
    cfg = config(trop_opt=opt[0], iono_opt=opt[1], phw_opt=opt[2],
                 elmin=33.) if own else None
    before = make(kind, (-1, -1, -1), None, W)[1]
    was = canon(cfg)
    e, _ = make(first, opt, cfg, W)
    w = f'{kind} after {first} with options {opt} own {own}'
    expect(canon(cfg) == was, lambda: f'{w}: configuration changed')
    if first in ('ppp', 'spp') or own:
        expect((e.nav.trop_opt, e.nav.iono_opt) == opt[:2] and (
            first == 'spp' or e.nav.phw_opt == opt[2]), lambda:
            f'{w}: options {e.nav.trop_opt} {e.nav.iono_opt}')
    # changes in use
    for k, v in vars(e.nav).items():
        if isinstance(v, np.ndarray) and v.dtype == float:
            v += 1.
        elif isinstance(v, list) and v and isinstance(v[0], float):
            v[0] += 1.
    expect(canon(default_config) == DEFAULT, lambda: f'{w}: defaults changed')
    after = make(kind, (-1, -1, -1), None, W)[1]
    expect(after == before, lambda: f'{w}: estimator differs')
    expect(canon(cfg) == was, lambda: f'{w}: configuration changed')


def c_bias(mode):
    """ lookup of biases leaves them unchanged """
    W = World.get('GE', 2)
    e, _ = make('ppp', (-1, -1, -1), None, W)
    cs = cssr()
    cs.cssrmode = mode
    has = mode in (sc.GAL_HAS_SIS, sc.GAL_HAS_IDD)
    s = W.sats[0]
    names = ('GC1C', 'GC2W', 'GC2P', 'GC2L')
    for k in range(1 << len(names)):
        d = {rSigRnx(n): 1.+i for i, n in enumerate(names) if k >> i & 1}
        pd = {rSigRnx(n.replace('C', 'L', 1)): 5.+i
              for i, n in enumerate(names) if k >> i & 1}
        cs.lc[0].cbias, cs.lc[0].pbias = {s: dict(d)}, {s: dict(pd)}
        for want in itertools.permutations(names, 2):
            for src, ty in ((d, 'C'), (pd, 'L')):
                v = e.find_bias(cs, [rSigRnx(n.replace('C', ty, 1))
                                     for n in want], s)
                for n, x in zip(want, v):
                    q = rSigRnx(n.replace('C', ty, 1))
                    if n == 'GC2W' and has:    # L2P instead
                        continue
                    if q in src:
                        expect(x == src[q], lambda: f'bias of {n} {x}')
                    else:
                        expect(not np.isfinite(x) or x == 0.,
                               lambda: f'bias of {n} {x} without message')
            expect(cs.lc[0].cbias == {s: d} and cs.lc[0].pbias == {s: pd},
                   lambda: f'mode {mode} biases changed by lookup of {want}')


TWO = [('ppp', 'GE', 2, 0, (1, 1, 1), 'SAAST'),
       ('ppp', 'GR', 1, 1, (0, 0, 0), 'HOPF'),
       ('rtk', 'GE', 2, 1, (0, 1, 0), 'SBAS'),
       ('rtk', 'GE', 1, 0, (0, 0, 0), 'SAAST'),
       ('ppp', 'GECJ', 3, 0, (1, 0, 2), 'SAAST')]


def c_two(a, b):
    """ two estimators at work at the same time """
    R = [Run(*x) for x in (a, b)]
    for r in R:         # simulation
        r.W.phw.clear()
        for k in range(3):
            r.cache[DT*k] = r.obs(DT*k)
    alone = []
    for r in R:
        q = Run(*(a if r is R[0] else b))
        q.cache = r.cache
        for k in range(3):
            q.process(DT*k)
        alone.append((q.nav.x, q.nav.P))
    for order in ((0, 1), (1, 0)):
        S = [Run(*x) for x in (a, b)]
        for k in range(3):
            for i in order:
                S[i].cache = R[i].cache
                S[i].process(DT*k)
        for i in order:
            expect(np.array_equal(S[i].nav.x, alone[i][0]) and
                   np.array_equal(S[i].nav.P, alone[i][1]),
                   lambda: f'{(a, b)[i]} differs beside {(a, b)[1-i]}')


def combos(syss, nfs, models, kinds):
    """ all combinations of options """
    n = 0
    for kind, sy, nf, pm, t, i, ph in itertools.product(
            kinds, syss, nfs, (0, 1), (0, 1), (0, 1), (0, 1, 2)):
        for m in (models if len(models) > 3 else [models[n % 3]]):
            yield kind, sy, nf, pm, (t, i, ph), m
        n += 1


# states of the satellites in the ambiguity resolution
AMB = ('ok', 'low', 'inv0', 'inv1', 'gone', 'zero')
AMBSAT = ('G03', 'G17', 'G32', 'E02', 'E30')


def c_amb(st):
    """ satellites taking part in the ambiguity resolution and its hold """
    w = f'satellites {dict(zip(AMBSAT, st))}'
    n = Nav(nf=2)
    e = pppos(n, np.array([-3.95e6, 3.36e6, 3.70e6]), None)
    n.monlevel = 0
    n.thresar = 2.
    n.vsat[:, :] = 0
    n.el[:] = 0.
    n.elmaskar = .35
    n.P[n.na:, n.na:] = 0.
    sat, elig, val = [], [], {}
    for k, (i, c) in enumerate(zip(AMBSAT, st)):
        s = g.id2sat(i)
        if c != 'gone':
            sat.append(s)
        n.el[s-1] = .3 if c == 'low' else .35 if k % 2 else 1.1
        for f in range(2):
            n.vsat[s-1, f] = c != f'inv{f}'
            j = e.IB(s, f, n.na)
            if c == 'zero' and f:
                continue
            n.x[j] = 100.*(k > 2)+7.3*f+3.37+5*k*(1+f)+.02*((k*3+f) % 5-2)
            n.P[j, j] = .01**2
            if c in ('ok', 'zero') or c == f'inv{1-f}':
                elig.append((k > 2, f, s))
    grp = {}
    for a in elig:
        grp.setdefault(a[:2], []).append(e.IB(a[2], a[1], n.na))
    grp = [v for v in grp.values() if len(v) > 1]
    x, P = n.x.copy(), n.P.copy()
    with redirect_stdout(io.StringIO()):
        nb, xa = e.resamb_lambda(np.array(sat, dtype=int), 1)
    expect(np.array_equal(x, n.x) and np.array_equal(P, n.P),
           lambda: f'{w}: state changed by the ambiguity resolution')
    if not grp:
        expect(nb <= 0, lambda: f'{w}: {nb} ambiguities fixed')
        return
    expect(nb == sum(len(v)-1 for v in grp),
           lambda: f'{w}: {nb} ambiguities fixed')

    def chk(y, tol, what):
        free = np.ones(n.nx, dtype=bool)
        for v in grp:
            d = y[v]-y[v[0]]
            r = np.round(x[v]-x[v[0]])
            expect(np.abs(d-r).max() < tol,
                   lambda: f'{w}: {what} difference {d} for {r}')
            free[v] = False
        expect(np.allclose(y[free], x[free], rtol=0, atol=1e-9),
               lambda: f'{w}: {what} other states changed '
               f'{np.nonzero(free & (np.abs(y-x) > 1e-9))}')
    chk(xa, 1e-9, 'fixed')
    n.P[:, :] = P
    e.VAR_HOLDAMB = 1e-10
    e.holdamb(xa)
    chk(n.x, 1e-4, 'held')
    expect(np.allclose(n.P, n.P.T, atol=1e-12), f'{w}: covariance')


def run(ck):
    m = ['SAAST', 'HOPF', 'SBAS']
    th = ck.thorough
    L = list(combos(('GE', 'GR'), (1, 2, 3), m, ('ppp', 'rtk')))
    L += list(combos(('GECJ',), (2,), m[1:]+m[:1], ('ppp', 'rtk')))
    if th:
        L = [x[:5]+(y,) for x in combos(('G', 'GE', 'GR', 'GECJ', 'GECJR'),
                                        (1, 2, 3), m, ('ppp', 'rtk'))
             for y in m]
    ck.pmap('float', L, lambda c, x: c.case('float', x, c_float, *x, steps=3),
            chunk=4)
    # corrections
    S = []
    for pm in (0, 1):
        for kind, mode, ant in (('ppprtk', 'clas', False),
                                ('ppprtk', 'clas', True),
                                ('ppp', 'madoca', True)):
            for opt in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2)):
                if mode == 'madoca' and 2 in opt[:2]:
                    continue
                if not th and (2 not in opt[:2] or ant) and \
                        (opt[0]+opt[1]*2+opt[2]+pm) % 3:
                    continue
                for drop in (False, True):
                    if drop and mode == 'clas' and 2 not in opt[:2]:
                        continue
                    S.append((kind, opt, pm, mode, drop, ant))
    ck.pmap('corrections', S, lambda c, x: c.case(
        'corrections', x, c_ssr, *x, steps=3), chunk=2)
    # fixed ambiguities
    F = [('rtk', sy, nf, pm, opt, m[(nf+pm) % 3], mode, par, None)
         for sy, nf in (('GE', 1), ('G', 2), ('GE', 2), ('GE', 3),
                        ('GECJ', 2))
         for pm in (0, 1) for opt in ((0, 0, 0), (0, 1, 0), (1, 1, 0))
         for mode in (1, 3) for par in (1, 2)]
    F += [('ppprtk', 'GE', 2, pm, opt, 'SAAST', mode, par, 'clas')
          for pm in (0, 1) for opt in ((2, 2, 2), (1, 1, 2), (2, 1, 1))
          for mode in (1, 3) for par in (1, 2)]
    ck.pmap('fix', F, lambda c, x: c.case('fix', x, c_fixed, *x, steps=4),
            chunk=2)
    # satellites in the ambiguity resolution
    A = [x for x in itertools.product(AMB, repeat=len(AMBSAT))
         if th or x[3:] in (('ok', 'ok'), ('low', 'ok'), ('ok', 'inv1'))]
    ck.pmap('ambiguities', A, lambda c, x: c.case(
        'ambiguities', x, c_amb, x, steps=2), chunk=12)
    # standalone
    P = []
    for sy, nf, rm in (('G', 1, 0), ('GECJ', 1, 0), ('GR', 1, 0),
                       ('GE', 2, 0), ('GE', 3, 0), ('G', 2, 1), ('GE', 2, 1),
                       ('GJ', 2, 1), ('GE', 2, 2), ('GECJ', 2, 2)):
        for pm in (0, 1):
            for opt in ((0, 0), (1, 1), (0, 1), (1, 0)):
                P.append((sy, nf, rm, pm, opt, 5e-9 if nf == 1 else 0.,
                          False, 0., {}))
            for tgd, sm, dr, j in (
                    (0., True, 0., {}), (0., True, 3e-10, {}),
                    (0., False, 3e-10, {2: 1e-3}),
                    (0., False, 3e-10, {1: 1e-3, 2: -1e-3, 3: 1e-6})):
                P.append((sy, nf, rm, pm, (0, 0), tgd, sm, dr,
                          sorted(j.items())))
    ck.pmap('standalone', P, lambda c, x: c.case(
        'standalone', x, c_std, *x, steps=5), chunk=4)
    for x in itertools.product(('ppp', 'rtk', 'ppprtk', 'spp'),
                               ('ppp', 'rtk', 'ppprtk', 'spp'),
                               ((0, 0, 0), (1, 1, 1), (2, 2, 2), (0, 1, 2)),
                               (False, True)):
        ck.case('defaults', x, c_defaults, *x)
    ck.pmap('together', list(itertools.product(TWO, TWO)), lambda c, x: c.case(
        'together', x, c_two, *x, steps=6))
    for mode in (sc.GAL_HAS_SIS, sc.GAL_HAS_IDD, sc.QZS_CLAS, sc.QZS_MADOCA,
                 sc.IGS_SSR):
        ck.case('biases', int(mode), c_bias, mode)
    ck.bound(configurations=len(L)+len(S)+len(F)+len(P), epochs=4)


def c_ssr(kind, opt, pm, mode, drop, ant):
    c_float(kind, 'GE', 2, pm, tuple(opt), 'SAAST', ssr=mode, drop=drop,
            ant=ant)


def c_fixed(kind, sy, nf, pm, opt, model, mode, par, ssr):
    c_fix(kind, sy, nf, pm, tuple(opt), model, mode, par, ssr=ssr)


def c_std(sy, nf, rm, pm, opt, tgd, sm, dr, jumps):
    c_spp(sy, nf, rm, pm, tuple(opt), tgd, sm, dr, dict(jumps))
