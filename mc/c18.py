""" C18 OSNMA: authentic only when cryptographically verified """
import itertools
import bitstruct.c
from cssrlib import gnss
from cssrlib.osnma import osnma, uOSNMA
from mc import osnmasim as S
from mc.bits import tobytes
from mc.core import expect, Mismatch

gnss.bs = bitstruct.c      # same interface, compiled

_pg = {}        # pages split by the code
UTC = 37
LAG = 18        # Galileo time in use equals GPS time
W0 = S.WEEK-1024


def wt(t):
    """ GPS week and time of week of Galileo time """
    return t//S.WS+1024, t % S.WS


class Rx:
    """ receiver and record of what it received """

    def __init__(self, slow=False, pub=1, key=1):
        self.r = osnma(logfile='/dev/null')
        self.r.monlevel = 0
        self.r.flg_slowmac = slow
        if pub is not None:
            self.r.pk_list[pub] = S.keypair(key).public_key()
        self.r.root_mt = bytes(32)

    def page(self, prn, t, k, msg):
        w, tow = wt(t)
        tow += 2*k+1
        r = self.r
        r.prn_a = prn
        if msg not in _pg:
            if len(_pg) > 20000:
                _pg.clear()
            _pg[msg] = r.load_gal_inav(msg)
        nav, nma = _pg[msg]
        r.save_gal_inav(nav, prn, tow)
        return r.decode(nma, w, tow, prn)

    def boot(self, world, n, did=2, dsm=None):
        """ receive root key with one satellite per block """
        h, bl = dsm or S.dsm_kroot(world.ch)
        w, tow = wt(world.time(n))
        m = bytes(4)
        for b, x in enumerate(bl):
            hk = S.hkroot(h, did, b, x)
            for k in range(15):
                self.r.prn_a = 36-b
                self.r.decode(hk[k:k+1]+m, w, tow+2*k+1, 36-b)
        expect(self.r.status & uOSNMA.ROOTKEY_VERIFIED,
               'genuine root key not verified')

    def auth(self):
        return {(p, i) for p, d in self.r.vstatus.items() for i in d
                if self.r.chk_nav(p, i)}


class Model:
    """ what may and what must be authenticated, from the received pages """

    def __init__(self, world, slow=False):
        self.w = world
        self.slow = slow
        self.may, self.must = set(), set()
        self.data = {}          # n: prn: words as received until n
        self.cur = {}           # prn: latest words
        self.full = set()       # (prn, n): genuine data, all words
        self.mack = {}          # (prn, n): received tags sections
        self.good = set()       # (prn, n): genuine section, complete
        self.cnt = {}

    def rx(self, n, got):
        """ got: list of (prn, pages received, genuine nav/mack) in order of
        completion; pages: dict k -> list of messages """
        w = self.w
        for prn, pg, gen in got:
            cur = dict(self.cur.get(prn, {}))
            for k in sorted(pg):
                for m in pg[k]:
                    b = S.bits(m)
                    x = b[2:114]+b[122:138]
                    cur[int(x[:6], 2)] = x
            self.cur[prn] = cur
            if gen and len(pg) == 15:
                self.full.add((prn, n))
                self.good.add((prn, n))
            # sections which may have been complete in sub-frame n
            if len(pg) == 15:
                mk = []
                for j in range(max(len(v) for v in pg.values())):
                    s = ''.join(S.bits(pg[k][min(j, len(pg[k])-1)])[146:178]
                                for k in range(15))
                    if s not in mk:
                        mk.append(s)
                self.mack[prn, n] = mk
        self.data[n] = {p: dict(c) for p, c in self.cur.items()}
        # evaluation in the order of completion
        p = w.par
        key = w.ch.key.get(w.time(n))
        known = False
        for prn, pg, gen in got:
            if len(pg) != 15:
                continue
            ko = p.nt*(p.lt+16)
            if any(s[ko:ko+p.lk] == S.bits(key) for s in self.mack[prn, n]):
                known = True
            if not known or (prn, n-1) not in self.mack:
                continue
            for lag, adk in ((1, (0, 4)), (11, (12,))):
                if lag == 11 and not self.slow:
                    continue
                for a in [x for x, y in self.mack if y == n-lag]:
                    if lag == 1 and a != prn:
                        continue
                    self.tags(a, n-lag, adk, key)

    def tags(self, a, n, adk, key):
        w, p = self.w, self.w.par
        sl = w.slots(a, n)
        for s in self.mack[a, n]:
            for k in range(p.nt):
                i0 = k*(p.lt+16)
                tag, inf = s[i0:i0+p.lt], s[i0+p.lt:i0+p.lt+16]
                adkd = 0 if k == 0 else int(inf[8:12], 2)
                d = a if k == 0 else int(inf[:8], 2)
                if adkd not in adk:
                    continue
                src = a if adkd == 4 else d
                c = self.data.get(n-1, {}).get(src)
                if c is None or any(x not in c for x in (
                        (6, 10) if adkd == 4 else (1, 2, 3, 4, 5))):
                    continue
                nav = S.utcbits(c) if adkd == 4 else S.navbits(c)
                if w.tag(adkd, d, a, n, k+1, nav, key=key) != tag:
                    continue
                e = (UTC, 0) if adkd == 4 else (d, int(c[1][6:16], 2))
                self.may.add(e)
                self.cnt[e] = self.cnt.get(e, 0)+1
                if (a, n) in self.good and sl[k][:2] == (adkd, d) and \
                        (adkd != 12 or self.slow):
                    if adkd == 12 and (a, n+1) not in self.good:
                        continue
                    if (src, n-1) in self.full and nav == w.navof(
                            src, n-1, adkd):
                        self.must.add(e)


# -------------------------------------------------------------- attacker
class Scn:
    """ two or three satellites with an attacker on some of them """

    def __init__(self, par=None, h0=None, t0=None, prns=(3, 11), chg=(),
                 slow=False, nsub=12, utc=0):
        par = par or S.Par()
        t0 = W0*S.WS+3*86400+7200+60 if t0 is None else t0
        h0 = (t0-600)//3600 if h0 is None else h0
        self.slow = slow
        end = t0+30*(nsub+14)
        ch = S.Chain.get(par, h0, end)

        def nav(p, n):
            k = sum(n >= c for c in chg)
            return 100+10*(p % 8)+k, 0

        def fnav(p, n):         # forged data
            return 600+p, 1

        def snav(p, n):         # forged data with genuine issue
            return nav(p, n)[0], 1
        self.w = S.World(par, ch, t0, list(prns), nav, utc=utc)
        self.fake = S.World(par, ch, t0, list(prns), fnav, utc=7)
        self.same = S.World(par, ch, t0, list(prns), snav, utc=7)
        p2 = S.Par(**{k: getattr(par, k) for k in (
            'hf', 'mf', 'ks', 'ts', 'maclt', 'cid', 'nmas', 'cpks')}, seed=99)
        p2.alpha = par.alpha
        self.own = S.World(p2, S.Chain.get(p2, h0, end), t0, list(prns), fnav,
                           utc=7)
        self.own.par = p2
        self.dsm = S.dsm_kroot(ch)
        self.fdsm = S.dsm_kroot(self.own.ch, key=2)
        self.did = 2

    def hk(self, prn, n, dsm=None, did=None):
        h, bl = dsm or self.dsm
        b = (n*3+prn) % len(bl)
        return S.hkroot(h, self.did if did is None else did, b, bl[b])

    def send(self, prn, n, v):
        """ list of copies: lists of 15 pages or None; genuine """
        w, f = self.w, self.fake
        hk = self.hk(prn, n)
        g = w.pages(prn, n, hk)
        if v == 'g':
            return [g], True
        if v == 'a':
            return [], False
        if v[0] == 'l':
            k = int(v[1:])
            return [[None if j == k else x for j, x in enumerate(g)]], False
        p = w.par
        m = w.mack(prn, n)
        ko = p.nt*(p.lt+16)
        if v == 'k':            # altered key
            m = m[:ko]+S.rnd(p.lk, 'k', prn, n)+m[ko+p.lk:]
            return [w.pages(prn, n, hk, m)], False
        if v == 'K':            # disclosed key of the previous sub-frame
            m = m[:ko]+S.bits(w.ch.key[w.time(n-1)])+m[ko+p.lk:]
            return [w.pages(prn, n, hk, m)], False
        if v == 'R':            # root key as key
            m = m[:ko]+S.bits(w.ch.root)+m[ko+p.lk:]
            return [w.pages(prn, n, hk, m)], False
        if v in 'tT':           # altered tags (all, ADKD 0 only)
            for k, (a, d, fl) in enumerate(w.slots(prn, n)):
                if v == 'T' and a != 0:
                    continue
                i0 = k*(p.lt+16)
                m = m[:i0]+str(1-int(m[i0]))+m[i0+1:]
            return [w.pages(prn, n, hk, m)], False
        if v == 'n':            # forged data
            return [w.pages(prn, n, hk, words=f.words(prn, n))], False
        if v == 's':            # forged data with genuine issue
            return [w.pages(prn, n, hk, words=self.same.words(prn, n))], \
                False
        if v[0] == 'b':         # one bit of one word
            x = w.words(prn, n)
            mt, i = int(v[1:v.index('.')]), int(v[v.index('.')+1:])
            x[mt] = x[mt][:i]+str(1-int(x[mt][i]))+x[mt][i+1:]
            return [w.pages(prn, n, hk, words=x)], False
        if v == 'o':            # own chain with forged data
            return [self.own.pages(prn, n, hk)], False
        if v == 'f':            # own chain and root key
            return [self.own.pages(prn, n, self.hk(prn, n, self.fdsm))], \
                False
        if v == 'F':            # the same with another message number
            return [self.own.pages(prn, n, self.hk(prn, n, self.fdsm, 5))], \
                False
        if v == 'd':            # repeated pages, tags with disclosed key
            return [w.pages(prn, n, hk, words=f.words(prn, n)),
                    self.disclosed(prn, n, w.ch.key[w.time(n)], -1),
                    w.pages(prn, n, hk, words=f.words(prn, n))], False
        if v == 'D':            # tags for forged data with disclosed key
            return [self.disclosed(prn, n, w.ch.key[w.time(n-1)], 0)], False
        if v == 'z':            # tags valid under a key of zeros
            return [self.disclosed(prn, n, bytes(p.lk//8), 0)], False
        if v == 'Z':            # tags valid under the root key
            return [self.disclosed(prn, n, w.ch.root, 0)], False
        if v == 'r':            # replay of the previous sub-frame
            return [w.pages(prn, n-1, self.hk(prn, n-1))], False
        if v == 'h':            # altered header: don't use
            return [w.pages(prn, n, bytes([hk[0] | 0xc0])+hk[1:])], False
        if v == 'c':            # altered chain number
            return [w.pages(prn, n, bytes([hk[0] ^ 0x10])+hk[1:])], False
        if v == 'e':            # altered end of chain status and data
            x = bytes([hk[0] ^ 0x0e, hk[1]])+bytes(y ^ 255 for y in hk[2:])
            return [w.pages(prn, n, x)], False
        if v == 'x':            # repeated genuine pages
            return [g, g], True
        raise ValueError(v)

    def disclosed(self, prn, n, key, dn):
        """ forged data with tags computed with a known key """
        f, p = self.fake, self.w.par
        x = S.World(p, self.w.ch, f.t0, f.prns, f.nav, utc=f.utc)
        m = ''
        sl = self.w.slots(prn, n+dn)
        flex = ''.join(S.u(8, d)+S.u(4, a)+S.u(4, 0) for a, d, fl in sl if fl)
        seq = x.mac(key, S.u(8, prn)+S.bits(S.gst(x.time(n+dn)))+flex)[:12]
        for k, (a, d, fl) in enumerate(sl):
            m += x.tag(a, d, prn, n+dn, k+1, x.navof(d, n+dn-1, a), key=key)
            m += seq+S.u(4, 0) if k == 0 else S.u(8, d)+S.u(4, a)+S.u(4, 0)
        m += S.bits(self.w.ch.key[self.w.time(n)])
        m += '0'*(480-len(m))
        return self.w.pages(prn, n, self.hk(prn, n), m, f.words(prn, n))


def play(sc, subs, order=0, boot=True, rec=3, recchg=True, vmin=1):
    """ subs: per sub-frame tuple of variants per satellite; afterwards
    genuine sub-frames """
    w = sc.w
    rx = Rx(sc.slow)
    rx.r.vcnt_min = vmin
    mo = Model(w, sc.slow)
    if boot:
        rx.boot(w, 0)
    n0 = 1
    subs = list(subs)+[('g',)*len(w.prns)]*rec
    for j, vs in enumerate(subs):
        n = n0+j
        o = order if isinstance(order, int) else order[j]
        got = []
        tx = []
        for p, v in zip(w.prns, vs):
            c, gen = sc.send(p, n, v)
            tx.append((p, c, gen))
        if o & 1:
            tx = tx[::-1]
        t = w.time(n)
        if o & 2:           # satellite by satellite
            seq = [(k, p, c[i][k]) for p, c, _ in tx for i in range(len(c))
                   for k in range(15)]
        else:
            nc = max([len(c) for _, c, _ in tx]+[0])
            seq = [(k, p, c[i][k]) for i in range(nc) for k in range(15)
                   for p, c, _ in tx if i < len(c)]
        for k, p, m in seq:
            if m is not None:
                rx.page(p, t, k, m)
        for p, c, gen in tx:
            pg = {}
            for x in c:
                for k in range(15):
                    if x[k] is not None:
                        pg.setdefault(k, []).append(x[k])
            if pg:
                got.append((p, pg, gen))
        mo.rx(n, got)
        a = rx.auth()
        expect(a <= mo.may, lambda: f'sub-frame {j}: {sorted(a-mo.may)} '
               'reported authentic')
        if vmin == 1:
            expect(mo.must <= a, lambda: f'sub-frame {j}: genuine '
                   f'{sorted(mo.must-a)} not authenticated')
            if not rx.r.status & uOSNMA.UTC_VERIFIED:
                expect((UTC, 0) not in a, 'status of UTC')
            else:
                expect((UTC, 0) in mo.may, 'UTC verified')
        else:
            # each tag counts once
            want = {e for e, c in mo.cnt.items() if c >= vmin}
            expect(a == want, lambda: f'sub-frame {j}: {sorted(a)} authentic '
                   f'instead of {sorted(want)} with {vmin} tags')
        ns = len({p for p, i in a if p != UTC})
        expect(rx.r.nsat == ns or not got or
               not any(x[2] for x in got), lambda:
               f'sub-frame {j}: {rx.r.nsat} satellites instead of {ns}')
        expect(bool(rx.r.status & uOSNMA.POS_AUTH) <= (ns >= 4), 'position')
    if vmin > 1:
        pass
    elif rec >= 4 or (rec >= 3 and not sc.slow):
        gen = {(p, w.nav(p, n0+len(subs)-3)[0]) for p in w.prns}
        expect(gen <= rx.auth(), lambda: 'genuine data not authenticated '
               f'afterwards: {sorted(gen-rx.auth())}')
    return len(subs), tuple(sorted(rx.auth()))


V = ['g', 'a', 'l7', 'l0', 'l14', 'k', 'K', 't', 'n', 's', 'o', 'f', 'd', 'D',
     'r', 'h', 'c', 'e', 'x']
HON = ['g', 'l0', 'a']
_sc = {}


def scn(*a, **kw):
    k = repr((a, sorted(kw.items())))
    if k not in _sc:
        if len(_sc) > 60:
            _sc.clear()
        _sc[k] = Scn(*a, **kw)
    return _sc[k]


def hist(c, x):
    vs, order = x
    c.case('history', x, lambda: play(scn(chg=(4,), nsub=8), vs, order),
           steps=len(vs)+3)


def param(c, x):
    pd, par = x
    par_ = S.Par(**pd)

    def fn():
        t0 = W0*S.WS+3*86400+7200+30*par
        sc = Scn(par_, t0=t0, prns=(3, 11, 24), chg=(3, 5), slow=True,
                 nsub=17)
        play(sc, [('g', 'g', 'g')]*2+[('n', 'o', 't')]+[('g', 'T', 'g')]*12,
             0, rec=4)
    c.case('parameter', x, fn, steps=19)


def roll(c, x):
    k, gap, hb = x

    def fn():
        t0 = (W0+1)*S.WS-30*k
        sc = scn(t0=t0, h0=(t0-3600*hb)//3600, chg=(3, 4), nsub=10+gap)
        play(sc, [('g', 'g')]*2+[('a', 'a')]*gap+[('o', 'g')], 0)
    c.case('rollover', x, fn, steps=6)


def gaps(c, x):
    gap, v, order = x
    c.case('gap', x, lambda: play(
        scn(nsub=10+gap, chg=(4,)),
        [('g', 'g')]*2+[('a', 'a')]*gap+[(v, 'g')], order), steps=gap+6)


def single(c, x):
    vs, order = x
    c.case('single', x, lambda: play(scn(
        chg=(4,), nsub=9, prns=(3, 11, 24)), vs, order), steps=len(vs)+3)


def slow(c, x):
    vs, order = x
    c.case('slow', x, lambda: play(scn(
        chg=(4,), slow=True, nsub=20), vs, order, rec=4), steps=len(vs)+4)


def noroot(c, x):
    """ no verified root key: nothing is authentic """
    kind, v = x

    def fn():
        sc = scn(chg=(4,), nsub=9)
        w = sc.w
        rx = Rx(pub=None if kind == 'nokey' else 1, key=5 if
                kind == 'other' else 1)
        for n in range(1, 7):
            if n == 1 and kind in ('nokey', 'other', 'forged'):
                d = sc.fdsm if kind == 'forged' else sc.dsm
                try:
                    rx.boot(w, 1, 2, d)
                except Mismatch:
                    pass
            for p in w.prns:
                for pg in sc.send(p, n, v)[0]:
                    for k in range(15):
                        rx.page(p, w.time(n), k, pg[k])
            expect(not rx.auth(), lambda: f'{rx.auth()} authentic')
            expect(not rx.r.status & uOSNMA.ROOTKEY_VERIFIED, 'status')
            expect(not rx.r.status & uOSNMA.KEYCHAIN_VERIFIED, 'status')
    c.case('noroot', x, fn, steps=6)


def takeover(c, x):
    """ forged root key message while a genuine one is in force """
    did, order, seq, cont = x

    def fn():
        sc = scn(chg=(5,), nsub=12)
        w = sc.w
        rx = Rx()
        rx.boot(w, 0)
        mo = Model(w)
        for n in range(1, 10):
            t = w.time(n)
            if n == 2:
                try:
                    rx.boot(w, 2, did, sc.fdsm)
                except Mismatch:
                    pass
            got = []
            att = seq[(n-1) % len(seq)] if n >= 2 and (cont or n < 6) else 'g'
            for p, v in sorted(((3, att), (11, 'g')), reverse=order):
                cp, gen = sc.send(p, n, v)
                for pg in cp:
                    for k in range(15):
                        rx.page(p, t, k, pg[k])
                got.append((p, {k: [pg[k] for pg in cp] for k in range(15)},
                            gen))
            mo.rx(n, got)
            a = rx.auth()
            expect(a <= mo.may, lambda: f'{sorted(a-mo.may)} authentic')
            expect(mo.must <= a, lambda: f'{sorted(mo.must-a)} missing')
    c.case('takeover', x, fn, steps=9)


def run(ck):
    TH = ck.thorough
    V2 = V if TH else ['g', 'l7', 'l0', 'k', 't', 'n', 'o', 'f', 'd', 'r',
                       'c']
    items = [(tuple(zip(a, b)), o)
             for a in itertools.product(V2, repeat=3)
             for b in ([('g',)*3]+[tuple('l0' if i == j else 'g' for i in
                                         range(3)) for j in range(3)] +
                       ([tuple('a' if i == j else 'g' for i in range(3))
                         for j in range(3)] if TH else []))
             for o in ((0, 1, 2, 3) if TH else (0, 1))]
    ck.pmap('history', items, hist, chunk=40)
    items = []
    W = V+['R', 'z', 'Z', 'F']+[f'b{m}.{i}' for m in (1, 2, 3, 4, 5, 6, 10)
                                for i in (6, 16, 60, 72, 73, 125, 126, 127)]
    items += [(((v, 'g', 'g'),)*1, o) for v in W for o in (0, 1, 2, 3)]
    items += [((('g', 'g', 'g'), (v, u, 'g'), ('g', 'g', 'g')), o)
              for v in W for u in (W if TH else V) for o in (0, 3)]
    items += [((('g', 'g', 'g'), (f'l{k}', 'g', 'g'), ('g', f'l{j}', 'g')), o)
              for k in range(15) for j in range(15) for o in (0, 1)]
    items += [(((v, v, v), (u, u, u)), o)
              for v in ('o', 'f', 'D', 'z', 'Z', 'R', 'k', 'r', 'd')
              for u in ('o', 'f', 'D', 'z', 'Z', 'R', 'k', 'r', 'd')
              for o in (0, 1, 2)]
    ck.pmap('single', items, single, chunk=40)
    ck.pmap('parameter', [(p, k) for p in S.valid_pars() for k in (0, 1)],
            param, chunk=2)
    ck.pmap('rollover', [(k, g, h) for k in range(8) for g in (0, 1, 2, 5)
                         for h in (1, 2, 30, 168)], roll, chunk=4)
    ck.pmap('gap', [(g, v, o) for g in list(range(0, 24)) +
                    ([60, 120] if TH else []) for v in V[:1]+['k', 'o', 'a']
                    for o in (0, 1)], gaps, chunk=4)
    L = 16
    items = []
    for v in ['g', 'T', 't', 'n', 's', 'k', 'o', 'l7', 'a', 'd', 'D']:
        for n in range(L):
            for o in (0, 1):
                items.append((tuple((v if j == n else 'g', 'g')
                                    for j in range(L)), o))
                if v in ('n', 'T', 't'):
                    items += [(tuple((v if j == n else 'T', 'T' if m else 'g')
                                     for j in range(L)), o) for m in (0, 1)]
    ck.pmap('slow', items, slow, chunk=8)
    ck.pmap('noroot', [(k, v) for k in ('none', 'nokey', 'other', 'forged')
                       for v in ('g', 'o', 'f')], noroot, chunk=2)
    ck.pmap('takeover', [(d, o, s, c) for d in (2, 3, 5, 11)
                         for o in (False, True)
                         for s in (('o',), ('f',), ('F',), ('o', 'g'),
                                   ('n', 'o'), ('o', 'f', 'F'))
                         for c in (False, True)], takeover, chunk=4)

    def count(c, x):
        v, n, o = x
        c.case('count', x, lambda: play(scn(chg=(5,), nsub=12, slow=False),
               [('g', 'g')]*2+[('x', 'g'), ('g', 'x')]+[(v, 'g')]*2, o,
               rec=3, vmin=n), steps=9)
    ck.pmap('count', [(v, n, o) for v in ('g', 'x', 't', 'n', 'o')
                      for n in (2, 3, 4, 6) for o in (0, 1, 2)], count,
            chunk=2)
    ck.bound(history_subframes=6, satellites=3, attacker_variants=len(W),
             gap_subframes=23, slow_mac_subframes=L+4)
