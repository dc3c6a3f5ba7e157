""" C29 ambiguity estimates over histories of interruptions """
import copy
import itertools
import numpy as np
from cssrlib import gnss as g
from cssrlib.gnss import timeadd, uGNSS
from mc.c30 import Run, C
from mc.core import expect
from mc.estsim import T0, freq

DT = 30
NE = 7          # epochs of a history


class Amb(Run):
    """ estimator whose states keep their initial values """

    def __init__(self, kind, nf, pmode, iono, syss='GECJ', big=True):
        super().__init__(kind, syss, nf, pmode, (0, iono, 0))
        if big:
            self.est.nav.err = [0, 1e6, 1e6]
            self.est.nav.eratio = np.ones(3)
        self.nav.armode = 0
        self._o = {}

    def raw(self, k):
        """ observations of epoch k without events """
        key = (self.kind, self.nf, self.pmode, self.iono, self.W.syss, k)
        if key not in RAW:
            RAW[key] = self.obs(k*DT)
        o, b = copy.deepcopy(RAW[key])
        o.P += 40.*k
        return o, b


RAW = {}


def present(o, s):
    return int(np.where(o.sat == s)[0][0])


def remove(o, sats):
    k = ~np.isin(o.sat, list(sats))
    o.sat = o.sat[k]
    for a in ('P', 'L', 'D', 'S', 'lli'):
        setattr(o, a, getattr(o, a)[k])


def apply(r, k, ev, slips):
    """ observations of epoch k with events {sat: event}, slips {(side,
    sat): cycles} are kept """
    o, b = r.raw(k)
    gone = {'r': set(), 'b': set()}
    excl, bad, noeph = [], [], []
    for s, e in ev.items():
        if e == 'Z':
            continue
        if e in ('U', 'X', 'E'):
            {'U': bad, 'X': excl, 'E': noeph}[e].append(s)
            continue
        if e == 'N':
            continue
        side, what = e[0], e[1]
        q = o if side == 'r' else b
        i = present(q, s)
        f = int(e[2]) if len(e) > 2 else 0
        if what == 'l':         # loss of lock, with half cycle and new arc
            q.lli[i, f] = 1
            slips[side, s][f] += 9+k
        elif what == 'h':
            q.lli[i, f] = 3
            slips[side, s][f] -= 7
        elif what == 's':       # slip without flag
            slips[side, s][f] += 5
        elif what == 'i':       # flag without jump
            q.lli[i, f] = 1
        elif what == 'p':
            q.P[i, f] = 0.
        elif what == 'c':
            q.L[i, f] = 0.
        elif what == 'P':
            q.P[i, f] = np.nan
        elif what == 'C':
            q.L[i, f] = np.nan
        elif what == 'w':
            q.S[i, f] = 12.
        elif what == 'm':
            gone[side].add(s)
        else:
            assert 0, 'HARNESS event'
    for (side, s), c in slips.items():
        q = o if side == 'r' else b
        if q is not None:
            i = present(q, s)
            keep = q.L[i] == 0.
            q.L[i] += c
            q.L[i, keep] = 0.
    remove(o, gone['r'])
    if b is not None:
        remove(b, gone['b'])
    return o, b, excl, bad, noeph


def events(kind, nf):
    """ alphabet of a satellite """
    out = []
    for side in ('r',) if kind == 'ppp' else ('r', 'b'):
        out.append(side+'m')
        for f in range(nf):
            out += [f'{side}{w}{f}' for w in 'lpcw']
        out += [side+'h0', side+'i0', side+'P0', side+f'C{nf-1}']
        if nf > 1:
            out += [side+'s0', side+'s1']
    return out+['U', 'X', 'E']


def value(r, o, b, s):
    """ estimates if started from these observations """
    nf = r.nf
    i = np.where(o.sat == s)[0]
    v = np.full(nf, np.nan)
    if len(i) == 0:
        return v
    P, L = o.P[i[0]].copy(), o.L[i[0]].copy()
    bad = (P == 0.) | (L == 0.)
    if b is not None:
        j = np.where(b.sat == s)[0]
        if len(j) == 0:
            return v
        bad |= (b.P[j[0]] == 0.) | (b.L[j[0]] == 0.)
        P -= b.P[j[0]]
        L -= b.L[j[0]]
    fr = np.array([freq(s, f) for f in range(nf)])
    lam = C/fr
    ion = 0.
    if r.iono == 1 and nf > 1:
        ion = (P[0]-P[1])/(1-(fr[0]/fr[1])**2)
    v = L-P/lam+2*ion/lam*(fr[0]/fr)**2
    v[bad] = np.nan
    return v


def affected(e, f):
    """ 2: estimate of frequency f interrupted, 1: perhaps, 0: no """
    if e == 'N':
        return 0
    if e in ('U', 'X', 'E', 'Z') or e[1] in 'lhsim':
        return 2
    return 2 if int(e[2]) == f else 1


def c_history(cfg, hist, few):
    """ hist {satellite index: events per epoch}, few {epoch: kind} """
    r = Amb(*cfg)
    used = r.used()
    rise = [k for k in range(NE) if any(h[k] == 'Z' for h in hist)]
    if rise:        # mask angle between the satellites
        hist = [hist[0]]*sum(r.elev(s) < 40 for s in used)
        used = [s for s in used if abs(r.elev(s)-40) > 2.5]
        low = [s for s in used if r.elev(s) < 40]
        hist = hist[:len(low)]
    nt = len(hist)
    expect(nt+6 <= len(used) or not few, 'HARNESS satellites')
    if few:
        used = used[:nt+6] if nt > 1 else used[:nt+6]
        used = sorted(used)
    # targets spread over the constellations
    order = sorted(used, key=lambda s: (s*7) % 11)
    targets, stable = order[:nt], order[nt:]
    if rise:
        targets, stable = low, [s for s in used if s not in low]
        expect(len(stable) > 5 and len(low) > 3, 'HARNESS satellites')
    other = [s for s in r.W.sats if s not in used]
    slips = {(d, s): np.zeros(r.nf) for d in 'rb' for s in targets}
    ref, start, hadv = {}, {}, {}
    nav = r.est.nav
    eph = list(nav.eph)
    dirty = {s: [] for s in used}
    proc = []
    for k in range(NE):
        ev = {s: h[k] for s, h in zip(targets, hist)}
        fk = few.get(k)
        for s in stable:
            ev[s] = 'N'
            if fk:
                ev[s] = {'m': 'rm', 'w': 'rw0', 'b': 'bm', 'x': 'X',
                         'e': 'E', '0': 'rm', 'B': 'bm'}[fk]
        o, b, excl, bad, noeph = apply(r, k, ev, slips)
        if few:
            remove(o, other)
            if b is not None:
                remove(b, other)
        if fk == '0':
            remove(o, r.W.sats)
            ev = {s: 'rm' for s in used}
        if fk == 'B':
            remove(b, r.W.sats)
            ev = {s: 'bm' for s in used}
        nav.excl_sat = excl
        nav.elmin = np.radians(40. if k in rise else 15.)
        nav.eph = [e for e in eph if e.sat not in noeph]
        for e in eph:
            e.svh = 1 if e.sat in bad else 0
        r.est.rec = None
        if b is None:
            r.est.process(o)
        else:
            r.est.process(o, obsb=b)
        for e in eph:
            e.svh = 0
        done = r.est.rec is not None
        proc.append(done)
        w = f'{cfg} epoch {k}'
        clean = sum(x == 'N' for x in ev.values())
        if few:
            expect(done or clean < 6 or (k and not proc[k-1]) or any(
                x[1:2] == 's' for x in ev.values()),
                lambda: f'{w}: {clean} satellites not processed')
        for s in used:
            dirty[s].append(ev[s])
            for f in range(r.nf):
                i = nav_ib(r, s, f)
                x, var = nav.x[i], nav.P[i, i]
                hs = f'{g.sat2id(s)} f{f} events {dirty[s]} updates ' \
                    f'{[int(p) for p in proc]}'
                ref.setdefault((s, f), []).append(value(r, o, b, s)[f])
                if not done:        # judged at the next update
                    continue
                have = x != 0. and var > 0.
                c1 = affected(ev[s], f) == 0
                if have:
                    d = [abs(x-v) for v in ref[s, f]]
                    at = [j for j, v in enumerate(d) if v < .02]
                    expect(len(at) > 0, lambda: f'{w}: {hs}: estimate is '
                           f'from no epoch {x} {ref[s, f]}')
                    j = at[-1]
                    expect(not any(affected(e, f) == 2
                                   for e in dirty[s][j+1:]), lambda:
                           f'{w}: {hs}: estimate of epoch {j} carried over')
                    expect(abs(var-nav.sig_n0**2) < .01*nav.sig_n0**2,
                           lambda: f'{w}: {hs}: variance {var}')
                    p = start.get((s, f))
                    if p is not None and not any(
                            affected(e, f) for e in dirty[s][p+1:]):
                        expect(j == p, lambda: f'{w}: {hs}: estimate of epoch'
                               f' {p} replaced by one of {j}')
                    start[s, f] = j
                else:
                    p = start.get((s, f))
                    expect(p is None or any(affected(e, f)
                                            for e in dirty[s][p+1:]),
                           lambda: f'{w}: {hs}: estimate of {p} lost')
                    expect(not (c1 and k and proc[k-1] and
                                affected(dirty[s][k-1], f) == 0),
                           lambda: f'{w}: {hs}: no estimate')
                    start.pop((s, f), None)
    return proc


def nav_ib(r, s, f):
    return r.est.IB(s, f, r.est.nav.na)


def c_nothing(cfg, event, k0):
    """ a satellite failing the editing contributes nothing """
    r = Amb(*cfg, big=False)
    used = r.used()
    nav = r.est.nav
    order = sorted(used, key=lambda s: (s*7) % 11)
    for k in range(k0):
        o, b = r.raw(k)
        r.est.process(o, obsb=b)
    for s in order[:3]:
        res = []
        for ev in (event, 'rm'):
            q = copy.deepcopy(r.est)
            sl = {(d, s): np.zeros(r.nf) for d in 'rb'}
            o, b, excl, bad, noeph = apply(r, k0, {s: ev}, sl)
            q.nav.excl_sat = excl
            q.nav.eph = [e for e in q.nav.eph if e.sat not in noeph]
            for e in q.nav.eph:
                e.svh = 1 if e.sat in bad else 0
            q.rec = None
            q.process(o, obsb=b)
            expect(q.rec is not None, f'{cfg} {event}: no update')
            mine = [nav_ib(r, s, f) for f in range(r.nf)]
            if r.iono == 1:
                mine.append(r.est.II(s, nav.na))
            res.append((np.delete(q.nav.x, mine), np.delete(np.delete(
                q.nav.P, mine, 0), mine, 1), len(q.rec[3])))
        w = f'{cfg} {event} of {g.sat2id(s)} after {k0} epochs'
        expect(res[0][2] == res[1][2], lambda: f'{w}: {res[0][2]} rows, '
               f'{res[1][2]} without the satellite')
        for a, b, n in zip(*res[:2], ('states', 'covariance')):
            d = np.max(np.abs(a-b)) if n != '' else 0
            expect(d < 1e-6*max(1., np.max(np.abs(b))) if n == 'covariance'
                   else d < 1e-6, lambda: f'{w}: {n} differ by {d}')


def histories(al, n1, dist):
    """ event sequences with up to two events """
    out = []
    for e in al:
        for k in n1:
            h = ['N']*NE
            h[k] = e
            out.append(h)
    for a, b in itertools.product(al, repeat=2):
        for k in n1:
            for d in dist:
                if k+d < NE-1:
                    h = ['N']*NE
                    h[k], h[k+d] = a, b
                    out.append(h)
    return out


def run(ck):
    th = ck.thorough
    cfgs = [('ppp', 2, 0, 0), ('rtk', 2, 0, 0), ('ppp', 2, 1, 1),
            ('rtk', 1, 1, 0), ('ppp', 3, 0, 0), ('rtk', 2, 1, 1),
            ('ppp', 1, 0, 1)]
    items = []
    for n, cfg in enumerate(cfgs):
        al = events(*cfg[:2])
        H = histories(al, range(0, NE-2) if th else (1, 2) if n < 2 else (1,),
                      (1, 2, 3) if th else (1, 2) if n < 2 else (1,))
        per = 14
        for i in range(0, len(H), per):
            items.append((cfg, H[i:i+per], []))
        # with epochs without update
        kinds = ['m', 'w', 'x', 'e', '0']+['b', 'B']*(cfg[0] == 'rtk')
        one = histories(al, (1, 2, 3), ())
        pats = [{k: x} for k in (1, 2, 3) for x in kinds]
        pats += [{k: x, k+d: y} for k in (1, 2) for d in (1, 2)
                 for x in kinds for y in kinds
                 if th or (kinds.index(x)+kinds.index(y)+k+n) % 5 == 0]
        if not th and n > 1:
            pats = pats[n % 4::4]
        for p in pats:
            sel = one if len(p) == 1 else [h for h in one if any(
                h[k] != 'N' for k in p)]
            if not th:
                sel = [h for h in sel if any(h[k] != 'N' for k in p)]
            for i in range(0, len(sel), 5):
                items.append((cfg, sel[i:i+5], sorted(p.items())))
    for cfg in cfgs:
        for w in itertools.product('NZ', repeat=NE-2):
            # a lonely satellite is given up after 5 epochs without update
            if 'Z' in w and 'N' in w:
                items.append((cfg, [['N', *w, 'N']], []))
    ck.pmap('histories', items, lambda c, x: c.case(
        'histories', x, c_hist, *x, steps=NE*len(x[1])), chunk=8)
    N = [(cfg, e, k) for cfg in cfgs for e in events(*cfg[:2])
         for k in ((0, 1, 2) if th else (0, 2))
         if k or e[1:2] != 's']       # a jump needs a previous epoch
    ck.pmap('contribution', N, lambda c, x: c.case(
        'contribution', x, c_none, *x, steps=2), chunk=4)
    ck.bound(epochs=NE, histories=sum(len(x[1]) for x in items),
             configurations=len(cfgs), events=[len(events(*c[:2]))
                                               for c in cfgs])


def c_hist(cfg, hist, few):
    c_history(tuple(cfg), [list(h) for h in hist], dict(few))


def c_none(cfg, e, k):
    c_nothing(tuple(cfg), e, k)
