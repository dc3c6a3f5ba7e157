""" C04 corrections from different issues or epochs are never mixed """
import os
import itertools
from cssrlib.cssrlib import cssr, sCType
from cssrlib.gnss import gpst2time, sat2id, timediff
from mc import cssrenc as E
from mc.bits import tobytes
from mc.core import expect

WEEK = 2200
# masks of two issues: overlapping satellites, different order and signals
M = {'A': E.Mask(1, [(0, [1, 5], [0, 7], None), (2, [3], [1], None)]),
     'B': E.Mask(2, [(0, [5, 9], [0], None), (1, [2], [0, 2], [[1]]),
                     (2, [3], [1, 4], None)])}
TYPES = ['orb', 'clk', 'cb', 'pb', 'bias', 'ura', 'comb', 'corb', 'stec',
         'grid', 'atm']
NET = 7


def data(typ, x):
    m = M[x]
    V = E.Vals('dist', seed=1000*TYPES.index(typ)+(500 if x == 'B' else 0))
    n = m.n
    d = {'orb': [(V.u(8), V.s(15), V.s(13), V.s(13)) for _ in range(n)],
         'clk': [V.s(15) for _ in range(n)],
         'cb': [[V.s(11) for _ in s[2]] for s in m.sats],
         'pb': [[(V.s(15), V.u(2)) for _ in s[2]] for s in m.sats],
         'ura': [(V.u(3), V.u(3)) for _ in range(n)],
         'q': [(V.u(3), V.u(3)) for _ in range(n)],
         'coef': [[V.s(14), V.s(12), V.s(12), V.s(10), V.s(8), V.s(8)]
                  for _ in range(n)],
         'trop': [(V.s(9), V.s(8)) for _ in range(2)],
         'gst': [[V.s(7) for _ in range(n)] for _ in range(2)],
         'res': [[V.s(7) for _ in range(2)] for _ in range(n)]}
    return d


DATA = {(t, x): data(t, x) for t in TYPES for x in 'AB'}


def encode(ev, t):
    if ev[0] == 'mask':
        return E.st1(M[ev[1]], t)
    typ, x = ev
    m, d = M[x], DATA[ev]
    al = list(range(m.n))
    if typ == 'orb':
        return E.st2(m, t, d['orb'])
    if typ == 'clk':
        return E.st3(m, t, d['clk'])
    if typ == 'cb':
        return E.st4(m, t, d['cb'])
    if typ == 'pb':
        return E.st5(m, t, d['pb'])
    if typ == 'bias':
        return E.st6(m, t, d['cb'], d['pb'])
    if typ == 'ura':
        return E.st7(m, t, d['ura'])
    if typ == 'comb':
        return E.st11(m, t, d['orb'], d['clk'])
    if typ == 'corb':
        return E.st11(m, t, d['orb'], None)
    if typ == 'stec':
        return E.st8(m, t, 1, NET, al[1:], d['q'][1:], d['coef'][1:])
    if typ == 'grid':
        return E.st9(m, t, 1, 0, NET, al[:2], d['q'][0], d['trop'],
                     [x[:2] for x in d['gst']])
    if typ == 'atm':
        dd = {'tq': d['q'][0], 'tt': 0, 'tsz': 1, 'tc': [d['trop'][0][0]],
              'tofs': 2, 'tres': [d['trop'][0][1], d['trop'][1][1]],
              'sq': d['q'][1:], 'styp': [0]*(m.n-1),
              'scoef': d['coef'][1:], 'ssz': [3]*(m.n-1),
              'sres': d['res'][1:]}
        return E.st12(m, t, 3, 3, NET, 2, al[1:], dd)


class Model:
    """ a listener applying each acceptable message in order """

    def __init__(self):
        self.mask = None
        self.v = {k: {} for k in ('orb', 'iode', 'clk', 'cb', 'pb', 'ura',
                                  'ci', 'sq', 'dstec', 'trop')}
        self.t = {}

    def apply(self, ev, t):
        if ev[0] == 'mask':
            self.mask = ev[1]
            return
        typ, x = ev
        if x != self.mask:
            return
        m, d = M[x], DATA[ev]
        ids = [s[1] for s in m.sats]

        def stamp(sats, ct, inet=0):
            for s in sats:
                self.t[(inet, s, ct)] = t
        if typ in ('orb', 'comb', 'corb'):
            self.v['orb'] = {i: E.orbval(o)[1] for i, o in zip(ids, d['orb'])}
            self.v['iode'] = {i: o[0] for i, o in zip(ids, d['orb'])}
            stamp(ids, 'ORBIT')
        if typ in ('clk', 'comb'):
            self.v['clk'] = {i: E.sv(c, 15, 0.0016)
                             for i, c in zip(ids, d['clk'])}
            stamp(ids, 'CLOCK')
        if typ in ('cb', 'bias'):
            self.v['cb'] = {
                i: {E.sigs(s[0], k, 'C'): E.sv(c, 11, 0.02)
                    for k, c in zip(s[2], cs)}
                for i, s, cs in zip(ids, m.sats, d['cb'])}
            stamp([i for i, s in zip(ids, m.sats) if s[2]], 'CBIAS')
        if typ in ('pb', 'bias'):
            self.v['pb'] = {
                i: {E.sigs(s[0], k, 'L'): E.sv(c[0], 15, 0.001)
                    for k, c in zip(s[2], cs)}
                for i, s, cs in zip(ids, m.sats, d['pb'])}
            stamp([i for i, s in zip(ids, m.sats) if s[2]], 'PBIAS')
        if typ == 'ura':
            self.v['ura'] = {i: E.qual(*q) for i, q in zip(ids, d['ura'])}
        if typ in ('stec', 'atm'):
            n = 3 if typ == 'stec' else 1
            self.v['ci'] = {
                i: [E.sv(c[0], 14, .05)]+([E.sv(c[1], 12, .02),
                                           E.sv(c[2], 12, .02)]
                                          if n == 3 else [0, 0])+[0, 0, 0]
                for i, c in zip(ids[1:], d['coef'][1:])}
            self.v['sq'] = {i: E.qual(*q)
                            for i, q in zip(ids[1:], d['q'][1:])}
            stamp(ids[1:], 'STEC', NET)
        if typ == 'atm':
            self.v['dstec'] = {i: [E.sv(r, 7, .24) for r in c]
                               for i, c in zip(ids[1:], d['res'][1:])}
            self.v['trop'] = {'h': E.sv(d['trop'][0][0], 9, .004)+2.3,
                              'w': [E.sv(w, 8, .004)+.04
                                    for _, w in d['trop']]}
        if typ == 'grid':
            self.v['dstec'] = {i: [E.sv(d['gst'][g][k], 7, .04)
                                   for g in range(2)]
                               for k, i in enumerate(ids[:2])}
            self.v['trop'] = {'h': [E.sv(h, 9, .004)+2.3
                                    for h, _ in d['trop']],
                              'w': [E.sv(w, 8, .004)+.252
                                    for _, w in d['trop']]}
            stamp(ids[:2], 'TROP', NET)


def idd(d):
    if not d:
        return {}
    return {sat2id(k): v for k, v in d.items()}


def held(cs):
    l0, ln = cs.lc[0], cs.lc[NET]

    def bias(d):
        return {i: {repr(s): x for s, x in b.items()}
                for i, b in idd(d).items()}
    r = {'orb': idd(l0.dorb), 'iode': idd(l0.iode), 'clk': idd(l0.dclk),
         'cb': bias(l0.cbias), 'pb': bias(l0.pbias), 'ura': idd(l0.ura),
         'ci': idd(ln.ci), 'sq': idd(getattr(ln, 'stec_quality', None)),
         'dstec': idd(getattr(ln, 'dstec', None))}
    return r


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(eq(a[k], b[k]) for k in a)
    try:
        la, lb = list(a), list(b)
    except TypeError:
        return E.same(a, b)
    return len(la) == len(lb) and all(E.same(x, y) for x, y in zip(la, lb))


def compare(cs, mo, what):
    h = held(cs)
    for k, v in h.items():
        expect(eq(mo.v[k], v), lambda: f'{what}: held {k} is {v} but the '
               f'accepted messages give {mo.v[k]}')
    ln = cs.lc[NET]
    if mo.v['trop']:
        w = [x+ln.ct[1, 0] for x in ln.dtw[:2]]
        expect(eq(mo.v['trop']['w'], w), f'{what}: wet delay')
        if isinstance(mo.v['trop']['h'], list):
            expect(eq(mo.v['trop']['h'], [x+ln.ct[0, 0] for x in ln.dth]),
                   f'{what}: hydrostatic delay')
        else:
            expect(E.same(ln.ct[0, 0], mo.v['trop']['h']),
                   f'{what}: hydrostatic delay')
    else:
        expect(ln.dtw is None, f'{what}: wet delay stored')
    ct = {'ORBIT': sCType.ORBIT, 'CLOCK': sCType.CLOCK,
          'CBIAS': sCType.CBIAS, 'PBIAS': sCType.PBIAS, 'STEC': sCType.STEC,
          'TROP': sCType.TROP}
    st = {i: {sat2id(s) if s else 0: d for s, d in cs.lc[i].t0.items()}
          for i in (0, NET)}
    for (inet, s, c), t in mo.t.items():
        expect(s in st[inet] and ct[c] in st[inet][s] and
               abs(timediff(st[inet][s][ct[c]], gpst2time(WEEK, t))) < 1e-6,
               lambda: f'{what}: time stamp {c} of {s}: '
               f'{timediff(st[inet][s][ct[c]], gpst2time(WEEK, t))} s off')
    for inet in st:
        for s in st[inet]:
            for c in ('ORBIT', 'CLOCK', 'CBIAS', 'PBIAS', 'STEC', 'TROP'):
                if s and (inet, s, c) not in mo.t and ct[c] in st[inet][s]:
                    expect(st[inet][s][ct[c]].time == 0,
                           f'{what}: time stamp {c} of {s} without message')
    if mo.mask is None:
        expect(list(cs.sat_n) == [], f'{what}: satellites without mask')
    else:
        expect([sat2id(s) for s in cs.sat_n] ==
               [s[1] for s in M[mo.mask].sats], f'{what}: active mask')
        expect(cs.iodssr == M[mo.mask].iod, f'{what}: active issue')


def run_history(hist, tow, dt, settime, log=False):
    cs = cssr(os.devnull if log else None)
    if log:
        cs.monlevel = 2
    cs.read_griddef(E.griddef((NET,), 2))
    cs.set_time(gpst2time(WEEK, tow))
    mo = Model()
    for n, ev in enumerate(hist):
        t = tow+dt*n
        if settime:
            cs.set_time(gpst2time(WEEK, t))
        cs.decode_cssr(tobytes(encode(ev, t).str())+bytes(64), 0)
        mo.apply(ev, t)
        compare(cs, mo, f'step {n} {ev}')
    return mo.mask, tuple(sorted(k for k in mo.v if mo.v[k]))


MASKS = [('mask', 'A'), ('mask', 'B')]


def run(ck):
    TH = ck.thorough
    hour = 86400*2+3600*9
    scen = [(hour+600, 5, False), (hour-12, 5, False)]
    ck.bound(singles_depth=6 if TH else 5, pairs_depth=5 if TH else 4,
             all_depth=4 if TH else 3, types=len(TYPES))
    jobs = []
    full = MASKS+[(t, x) for t in TYPES for x in 'AB']
    for d in range(1, (4 if TH else 3)+1):
        for h in itertools.product(full, repeat=d):
            if d == 4 and h[0][0] != 'mask':
                continue
            jobs.append(('all', h, scen[0]))
    for t in TYPES:
        al = MASKS+[(t, 'A'), (t, 'B')]
        for d in range(2, (6 if TH else 5)+1):
            for h in itertools.product(al, repeat=d):
                for s in scen:
                    jobs.append(('single', h, s))
                if d <= 4:
                    jobs.append(('set_time', h, (hour-12, 5, True)))
                    jobs.append(('long_gap', h, (hour+1780, 700, True)))
    for t, u in itertools.combinations(TYPES, 2):
        al = MASKS+[(t, 'A'), (t, 'B'), (u, 'A'), (u, 'B')]
        for h in itertools.product(al, repeat=5 if TH else 4):
            if any(e[0] == 'mask' for e in h[:2]) and \
                    len({e[0] for e in h}) > 2:
                jobs.append(('pair', h, scen[1]))

    def f(c, j):
        g, h, s = j
        c.case(g, (s[0], s[1], s[2], h), run_history, h, *s, steps=len(h))
        if g == 'all' or len(h) < 4:
            c.case('log', (s[0], s[1], s[2], h), run_history, h, *s, True,
                   steps=len(h))
    ck.pmap('all', jobs, f, chunk=200)
