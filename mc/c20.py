""" C20 QZSS navigation message authentication """
import itertools
import os
import shutil
import tempfile
from binascii import hexlify
from cryptography.hazmat.primitives.serialization import Encoding, \
    PublicFormat
from cssrlib.gnss import uGNSS, prn2sat
from cssrlib.qznma import qznma, uNavId
from mc import qznmasim as Q
from mc.qznmasim import LNAV, CNAV, CNAV2, FNAV, INAV, Set, raw
from mc.osnmasim import keypair, sign, u
from mc.core import expect

MODE = {LNAV: uNavId.GPS_LNAV, CNAV: uNavId.GPS_CNAV,
        CNAV2: uNavId.GPS_CNAV2, FNAV: uNavId.GAL_FNAV,
        INAV: uNavId.GAL_INAV}
QZS = (193, 194, 195)
T0 = 3*86400+7200+30
DIR = None


def mkdirs():
    """ directories with public keys: key id -> number of key pair """
    d = tempfile.mkdtemp(prefix='c20')
    for name, t in (('a', {1: 1, 2: 2, 3: 3}), ('b', {1: 2, 2: 1}),
                    ('none', {})):
        os.mkdir(f'{d}/{name}')
        for k, n in t.items():
            with open(f'{d}/{name}/{k:03d}.der', 'wb') as f:
                f.write(keypair(n).public_key().public_bytes(
                    Encoding.DER, PublicFormat.SubjectPublicKeyInfo))
    return d


class Rx:
    """ receiver and monitor of its reports """

    def __init__(self, keys='a'):
        self.q = qznma()
        self.q.pubk_bdir = f'{DIR}/{keys}'
        self.auth = self.total()

    def total(self):
        return {s: sum(v.values()) for s, v in self.q.vstatus.items()}

    def page(self, prn, mode, s, tow):
        """ returns the satellites reported by this page """
        sat = prn2sat(uGNSS.QZS, prn)
        self.q.decode(tow, raw(mode, s), None, sat, MODE[mode])
        return self.delta()

    def l6(self, tow, msg):
        self.q.decode(tow, None, msg, 0, uNavId.GPS_LNAV)
        return self.delta()

    def delta(self):
        t = self.total()
        d = {s: t[s]-self.auth.get(s, 0) for s in t
             if t[s] != self.auth.get(s, 0)}
        self.auth = t
        n = sum(1 for s in t if t[s])
        expect(self.q.count_valid_sat() == n, 'number of valid satellites')
        return d


def count(tab, vmin):
    """ verified satellites: one issue verified as often as required """
    q = qznma()
    q.vcnt_min = vmin
    q.vstatus = {prn2sat(uGNSS.QZS, 194+k): {60+j: n for j, n in
                                             enumerate(v) if n}
                 for k, v in enumerate(tab)}
    n = sum(1 for v in tab if max(v) >= vmin)
    expect(q.count_valid_sat() == n, lambda: f'{q.count_valid_sat()} '
           f'satellites instead of {n} with {vmin} required')


_s = {}


def mkset(*a, **k):
    i = repr((a, sorted((x, y) for x, y in k.items() if x != 'sig'),
              id(k.get('sig'))))
    if i not in _s:
        _s[i] = Set(*a, **k)
    return _s[i]


class Model:
    """ latest received version of the pages of all sets """

    def __init__(self, sets):
        self.sets = sets        # {(prn, mode): list of genuine sets}
        self.have = {}
        self.n = {}

    def rx(self, prn, mode, s, slot):
        """ slot: (number of the set, number of the page) """
        self.have[prn, mode, slot] = s
        g = self.sets[prn, mode][slot[0]]
        return all(self.have.get((prn, mode, (slot[0], k))) == p
                   for k, p in enumerate(g.pages)) and s == g.pages[slot[1]]


def sat(prn):
    return prn2sat(uGNSS.QZS, prn)


# -------------------------------------------------------------- QZSS signals
def perm(c, x):
    mode, od, wk = x

    def fn():
        g = mkset(mode, 600 if wk else T0) if not wk else \
            mkset(mode, wk)
        rx = Rx()
        seen = set()
        done = False
        for k in od:
            d = rx.page(193, mode, g.pages[k], g.tow)
            seen.add(k)
            full = len(seen) == len(g.pages)
            if not full:
                expect(d == {}, lambda: f'{len(seen)} pages: {d}')
            elif not done:
                done = True
                expect(d == {sat(193): 1}, lambda: f'complete: {d}')
        expect(done == (rx.auth.get(sat(193), 0) > 0), 'complete')
        if done:
            v = rx.q.vstatus
            expect(list(v) == [sat(193)] and list(v[sat(193)]) == [g.iode],
                   lambda: f'reported {v}')
            expect(rx.q.nsat[uGNSS.QZS] == 1 and rx.q.nsat[uGNSS.GPS] == 0,
                   'number of satellites')
            if mode != CNAV2:
                expect(rx.q.count_tracked_sat(g.tow+60) == 1 or wk,
                       'tracked')
        else:
            expect(rx.q.nsat[uGNSS.QZS] == 0, 'number of satellites')
    c.case('perm', x, fn, steps=len(od))


def flip(s, b):
    return s[:b]+str(1-int(s[b]))+s[b+1:]


def bitflip(c, x):
    mode, k, b = x

    def fn():
        g = mkset(mode, T0)
        if b not in cov(mode, k):
            return
        rx = Rx()
        for j, p in enumerate(g.pages):
            d = rx.page(193, mode, flip(p, b) if j == k else p, g.tow)
            expect(d == {}, lambda: f'bit {b} of page {k} altered: {d}')
        expect(rx.q.nsat[uGNSS.QZS] == 0, 'number of satellites')
        # altered page received again
        d = rx.page(193, mode, g.pages[k], g.tow)
        if not d:               # altered time may replace another page
            r = {LNAV: (30, 47), CNAV: (20, 37), CNAV2: (0, 73)}[mode]
            expect(r[0] <= b < r[1], lambda: f'corrected page {k}: {d}')
            for j in range(3, len(g.pages)):
                d = d or rx.page(193, mode, g.pages[j], g.tow)
        expect(d == {sat(193): 1}, lambda: f'corrected page {k}: {d}')
    c.case('bitflip', x, fn, steps=len(mkset(mode, T0).pages)+1)


_c = {}


def cov(mode, k):
    if (mode, k) not in _c:
        _c[mode, k] = frozenset(mkset(mode, T0).covered(k))
    return _c[mode, k]


def keys(c, x):
    """ two signatures: named key id and key of the signer """
    mode, kd, seq = x
    has = {'a': {1: 1, 2: 2, 3: 3}, 'b': {1: 2, 2: 1}, 'none': {}}[kd]

    def fn():
        rx = Rx(kd)
        for n, (kid, key) in enumerate(seq):
            g = mkset(mode, T0+60*n, var=n, keyid=kid, key=key)
            tot = {}
            for p in g.pages:
                for s, v in rx.page(193, mode, p, g.tow).items():
                    tot[s] = tot.get(s, 0)+v
            want = {sat(193): 1} if has.get(kid) == key else {}
            expect(tot == want, lambda: f'{n}: key id {kid} signed by {key}: '
                   f'{tot}')
    c.case('keys', x, fn, steps=6*len(seq))


VAR = 'gasklorx'


def variant(g, v, alt):
    """ received pages (slot, bits) of a set
    g genuine, a altered message, s altered signature, k key id of another
    key, l lost message page, o lost signature page, r signature of the other
    set, x messages of the other set """
    p = list(g.pages)
    if v == 'a':
        p[4 if len(p) > 4 else 3] = flip(p[-2 if len(p) > 4 else 3], 100)
    elif v == 's':
        p[1] = flip(p[1], 110 if g.mode == LNAV else 1300
                    if g.mode == CNAV2 else 60)
    elif v == 'k':
        i = {LNAV: 70, CNAV: 40, CNAV2: 1268}[g.mode]
        t = p[0]
        n = int(t[i:i+8], 2) ^ 3
        p[0] = t[:i]+u(8, n)+t[i+8:]
    elif v == 'l':
        p[3] = None
    elif v == 'o':
        p[1] = None
    elif v == 'r':
        p[:3] = [retime(g.mode, b, a) for a, b in zip(p[:3], alt.pages)]
    elif v == 'x':
        p[3:] = [retime(g.mode, b, a) for a, b in zip(p[3:], alt.pages[3:])]
    return p


def retime(mode, s, ref):
    """ give page the time of another page """
    rg = {LNAV: [(30, 47)], CNAV: [(20, 37)],
          CNAV2: [(0, 9), (65, 73)]}[mode]
    for a, b in rg:
        s = s[:a]+ref[a:b]+s[b:]
    return s


def seq(c, x):
    """ consecutive sets of one satellite """
    mode, vs, same = x

    def fn():
        sets = [mkset(mode, T0+60*n, var=n, iode=17 if same else 17+n)
                for n in range(len(vs))]
        alt = mkset(mode, T0+6000, var=99, salt=9)
        m = Model({(193, mode): sets})
        rx = Rx()
        for n, v in enumerate(vs):
            g = sets[n]
            tot = 0
            for k, p in enumerate(variant(g, v, alt)):
                if p is None:
                    continue
                may = m.rx(193, mode, p, (n, k))
                d = rx.page(193, mode, p, g.tow)
                expect(d == ({sat(193): 1} if may and not tot else {}),
                       lambda: f'set {n} ({v}) page {k}: {d}')
                tot += bool(d)
        w = {}
        for g, v in zip(sets, vs):
            if v == 'g':
                w[g.iode] = w.get(g.iode, 0)+1
        expect(rx.q.vstatus.get(sat(193), {}) == w, 'reported issues')
    c.case('seq', x, fn, steps=6*len(vs))


def inter(c, x):
    """ two interleaved streams """
    st, vs, pat = x
    # st: two (prn, mode)

    def fn():
        q = []
        sets = {}
        for r, (prn, mode) in enumerate(st):
            g = [mkset(mode, T0+60*n, var=(r, n), iode=20+n+8*r)
                 for n in range(len(vs[r]))]
            alt = mkset(mode, T0, var=(1-r, 0), iode=20+8*(1-r))
            sets[prn, mode] = g
            q.append([(n, k, p) for n, v in enumerate(vs[r])
                      for k, p in enumerate(variant(g[n], v, alt))
                      if p is not None])
        m = Model(sets)
        rx = Rx()
        i = [0, 0]
        k = 0
        got = {}
        while i[0] < len(q[0]) or i[1] < len(q[1]):
            r = pat[k % len(pat)]
            k += 1
            if i[r] == len(q[r]):
                r = 1-r
            n, j, p = q[r][i[r]]
            i[r] += 1
            prn, mode = st[r]
            may = m.rx(prn, mode, p, (n, j))
            d = rx.page(prn, mode, p, T0+60*n)
            expect(d == ({sat(prn): 1} if may else {}),
                   lambda: f'{prn} {mode} set {n} page {j}: {d}')
            if may:
                got.setdefault(prn, set()).add((r, n))
        expect(rx.q.nsat[uGNSS.QZS] == len(got), 'number of satellites')
    c.case('inter', x, fn, steps=24)


def shuffle(c, x):
    """ all orders of pages of two sets of the two message types """
    modes, od = x

    def fn():
        st = [(193, modes[0]), (193 if modes[0] != modes[1] else 194,
                                modes[1])]
        sets = {s: [mkset(s[1], T0, var=r, iode=30+r)]
                for r, s in enumerate(st)}
        m = Model(sets)
        rx = Rx()
        i = [0, 0]
        for r in od:
            s = st[r]
            g = sets[s][0]
            if i[r] == len(g.pages):
                continue
            p = g.pages[i[r]]
            may = m.rx(*s, p, (0, i[r]))
            i[r] += 1
            d = rx.page(*s, p, T0)
            expect(d == ({sat(s[0]): 1} if may else {}),
                   lambda: f'{s}: page {i[r]-1}: {d}')
    c.case('shuffle', x, fn, steps=len(od))


def events(c, x):
    """ single pages of two sets and altered ones in any order """
    mode, ev = x

    def fn():
        sets = [mkset(mode, T0, var=0), mkset(mode, T0+54, var=1, iode=18)]
        m = Model({(193, mode): sets})
        rx = Rx()
        for n, a, b, bad in ev:
            for k in range(a, b):
                p = sets[n].pages[k]
                if bad and k == b-1:
                    p = flip(p, 1300 if mode == CNAV2 and k < 3 else
                             110 if mode == LNAV or k > 2 else 50)
                may = m.rx(193, mode, p, (n, k))
                d = rx.page(193, mode, p, T0)
                expect(sum(d.values()) <= may, lambda: f'set {n} page {k}: '
                       f'{d}')
    c.case('events', x, fn, steps=3*len(ev))


# ------------------------------------------------------- GPS and Galileo
class Nav:
    """ navigation message of a GPS or Galileo satellite """

    def __init__(self, mt, prn, iode, var, tow=T0):
        self.mt, self.prn, self.iode, self.tow = mt, prn, iode, tow
        v = (mt, prn, var)
        if mt == LNAV:
            self.p = [Q.lnav(k+1, tow+6*k, iode, v) for k in range(3)]
            self.raw = [Q.lnavraw(s) for s in self.p]
            self.iodc = Q.rndiodc(v) << 8 | iode
            self.typ = 0
        elif mt == CNAV:
            self.p = [Q.cnav(m, tow+12*k, iode, v, prn)
                      for k, m in enumerate((10, 11, 30))]
            self.raw = [Q.cnavraw(s) for s in self.p]
            self.iodc = iode
            self.typ = 26
        elif mt == FNAV:
            self.p = [Q.fnav(k+1, tow+10*k, iode, v) for k in range(4)]
            self.raw = [Q.pad(s, 31) for s in self.p]
            self.iodc = 0
            self.typ = 3
        else:
            self.p = [Q.inav(k+1, tow, iode, v) for k in range(5)]
            self.raw = [Q.inavraw(s) for s in self.p]
            self.iodc = 0
            self.typ = 0

    @property
    def sys(self):
        return uGNSS.GPS if self.mt in (LNAV, CNAV) else uGNSS.GAL

    @property
    def sat(self):
        return prn2sat(self.sys, self.prn)

    @property
    def svid(self):
        return self.prn+(0 if self.sys == uGNSS.GPS else 64)

    def mnav(self, p=None, rt=None):
        p = p or self.p
        rt = self.rtow if rt is None else rt
        return Q.m_lnav(p, True, rt) if self.mt == LNAV else \
            Q.m_cnav(p, True, rt) if self.mt == CNAV else \
            Q.m_fnav(p, rt) if self.mt == FNAV else Q.m_inav(p, rt)

    @property
    def rtow(self):
        return self.tow//6+100 if self.sys == uGNSS.GPS else self.tow+600

    def rds(self, keyid=1, key=None, salt=5, **kw):
        d = dict(svid=self.svid, rtow=self.rtow, iode1=self.iode,
                 iode2=self.iode if self.sys == uGNSS.GPS else 0,
                 iodc=self.iodc)
        d.update(kw)
        return Q.rds_gnss(d.pop('mt', self.mt), d.pop('mnav', self.mnav()),
                          keyid=keyid, key=key or keyid, salt=salt, **d)


def nav(*a):
    i = ('nav', a)
    if i not in _s:
        _s[i] = Nav(*a)
    return _s[i]


LOAD = {LNAV: 'load_navmsg_lnav', CNAV: 'load_navmsg_cnav',
        FNAV: 'load_navmsg_fnav', INAV: 'load_navmsg_inav'}


def load(rx, mt, rows):
    """ rows of (prn, type, message) """
    fd, fn = tempfile.mkstemp(dir=DIR)
    with os.fdopen(fd, 'w') as f:
        sf, last = {}, {}
        for k, (prn, typ, m, *iss) in enumerate(rows):
            t = T0+6*k
            if mt == INAV:      # words of the sub-frame
                w = m[0] & 0x3f
                if typ == 0 and 0 < w < 6:
                    q = last.get(prn)
                    sf[prn] = sf.get(prn, 0)+(
                        (iss, w) <= q if q and iss == q[0] else 1)
                    last[prn] = (iss, w)
                t = T0+30*sf.get(prn, 0)+w
            f.write(f'2380 {t} {prn} {typ} {len(m)} '
                    f'{hexlify(m).decode()}\n')
    try:
        getattr(rx.q, LOAD[mt])(fn)
    finally:
        os.unlink(fn)


def loadall(rx, navs):
    for mt in LOAD:
        r = [(n.prn, n.typ, m) for n in navs if n.mt == mt for m in n.raw]
        if r:
            load(rx, mt, r)


NAVS = [(LNAV, 5, 40, 0), (CNAV, 5, 140, 0), (INAV, 7, 65, 0),
        (FNAV, 7, 65, 0)]


def gnss(c, x):
    """ pairs of signatures in one message """
    a, b, navmode = x

    def fn():
        rx = Rx()
        if navmode:
            rx.q.navmode = {uGNSS.GPS: MODE[CNAV], uGNSS.GAL: MODE[FNAV],
                            uGNSS.QZS: MODE[LNAV]}
        ns = [nav(*n) for n in NAVS]
        ns += [nav(LNAV, 6, 40, 0), nav(CNAV, 6, 40, 0),
               nav(INAV, 12, 9, 1)]
        loadall(rx, ns)
        want = {}
        r = []
        on = set()
        for k in (a, b):
            if k is None:
                r.append(None)
                continue
            i, v = k
            n = ns[i]
            if v == 'g':
                want[n.sat] = want.get(n.sat, 0)+1
                r.append(n.rds())
                if n.mt in ((CNAV, FNAV) if navmode else (LNAV, INAV)):
                    on.add(n.sat)
            elif v == 'k':
                r.append(n.rds(1, 2))
            elif v == 's':      # signature of other satellite number
                t = n.rds()
                r.append(t[:24]+u(8, n.svid ^ 1)+t[32:])
            elif v == 'm':      # other issue
                r.append(n.rds(iode1=n.iode ^ 3))
            elif v == 'o':      # other content
                r.append(nav(n.mt, n.prn, n.iode, 77).rds())
            elif v == 'f':      # missing key
                r.append(n.rds(9, 1))
            elif v == 't':      # other message type
                t = n.rds()
                r.append(t[:32]+u(4, 7-n.mt if n.mt in (1, 2) else 9-n.mt) +
                         t[36:])
        m = Q.l6(r[0] or '0'*605, r[1])
        for rep in (1, 2):
            d = rx.l6(T0, m)
            expect(d == want, lambda: f'reported {d} instead of {want}')
        iod = {}
        for k in (a, b):
            if k and k[1] == 'g':
                n = ns[k[0]]
                iod.setdefault(n.sat, set()).add(n.iode)
        expect({s: set(v) for s, v in rx.q.vstatus.items()} == iod,
               'reported issues')
        expect(rx.q.nsat[uGNSS.GPS]+rx.q.nsat[uGNSS.GAL] == len(on) and
               rx.q.nsat[uGNSS.GPS] == sum(1 for s in on if s <= 32),
               lambda: f'numbers of satellites {rx.q.nsat}')
        expect(rx.q.count_tracked_sat(T0+600) == 4, 'tracked')
        # same message of other service
        d = rx.l6(T0, Q.l6(r[0] or '0'*605, r[1], vid=5))
        expect(d == {}, 'message of other vendor')
    c.case('gnss', x, fn, steps=3)


def gnssbit(c, x):
    i, b = x

    def fn():
        n = nav(*NAVS[i])
        rx = Rx()
        loadall(rx, [nav(*t) for t in NAVS])
        t = n.rds()
        d = rx.l6(T0, Q.l6(flip(t, b)))
        expect(d == {}, lambda: f'bit {b} of the signature message: {d}')
        d = rx.l6(T0, Q.l6('0'*605, flip(t, b)))
        expect(d == {}, lambda: f'bit {b} of the second message: {d}')
        d = rx.l6(T0, Q.l6(t))
        expect(d == {n.sat: 1}, lambda: f'genuine: {d}')
    c.case('gnssbit', x, fn, steps=3)


def navbit(c, x):
    """ altered bit of the navigation message """
    i, k, b = x

    def fn():
        n = nav(*NAVS[i])
        p = list(n.p)
        p[k] = flip(p[k], b)
        if n.mnav(p) == n.mnav():
            return
        rx = Rx()
        rw = [Q.lnavraw(s) if n.mt == LNAV else Q.cnavraw(s) if n.mt == CNAV
              else Q.pad(s, 31) if n.mt == FNAV else Q.inavraw(s) for s in p]
        load(rx, n.mt, [(n.prn, n.typ, m) for m in rw])
        d = rx.l6(T0, Q.l6(n.rds()))
        expect(d == {}, lambda: f'bit {b} of page {k}: {d}')
    c.case('navbit', x, fn, steps=2)


def svid(c, x):
    """ genuine signatures which name other satellites and types """
    sv, mt = x

    def fn():
        ns = [nav(LNAV, 5, 40, 0), nav(INAV, 1, 40, 0), nav(FNAV, 1, 40, 0),
              nav(LNAV, 1, 40, 0), nav(CNAV, 5, 41, 0), nav(INAV, 7, 40, 0)]
        rx = Rx()
        loadall(rx, ns)
        for n in ns[1:3]+ns[:1]:
            t = n.rds(svid=sv, mt=mt, mnav=n.mnav()) if mt in Q.m_len and \
                len(n.mnav()) == Q.m_len[mt] else None
            if t is None:
                t = n.rds()
                t = t[:24]+u(8, sv)+u(4, mt)+t[36:]
            ok = sv == n.svid and mt == n.mt
            d = rx.l6(T0, Q.l6(t))
            expect(d == ({n.sat: 1} if ok else {}), lambda: f'{d}')
    c.case('svid', x, fn, steps=3)


def rtow(c, x):
    """ time of the signature around the end of the week """
    i, rt = x

    def fn():
        n = nav(*NAVS[i])
        rx = Rx()
        loadall(rx, [n])
        ok = rt < (100800 if n.sys == uGNSS.GPS else 604800)
        if ok:
            t = n.rds(rtow=rt, mnav=n.mnav(rt=rt))
        else:
            t = n.rds()
            t = t[:4]+u(20, rt)+t[24:]
        d = rx.l6(T0, Q.l6(t))
        expect(d == ({n.sat: 1} if ok else {}), lambda: f'{d}')
        if ok:
            d = rx.l6(T0, Q.l6(t[:4]+u(20, rt ^ 1)+t[24:]))
            expect(d == {}, 'other time')
    c.case('rtow', x, fn, steps=2)


def gkeys(c, x):
    i, seq = x

    def fn():
        n = nav(*NAVS[i])
        rx = Rx('b')
        loadall(rx, [nav(*t) for t in NAVS])
        has = {1: 2, 2: 1}
        for kid, key in seq:
            d = rx.l6(T0, Q.l6(n.rds(kid, key)))
            expect(d == ({n.sat: 1} if has.get(kid) == key else {}),
                   lambda: f'key id {kid} signed by {key}: {d}')
    c.case('gkeys', x, fn, steps=len(seq))


def files(c, x):
    """ pages of two issues and satellites in any order in a file """
    mt, od, mis = x

    def fn():
        ns = [nav(mt, 3, 20, 0), nav(mt, 3, 21, 1), nav(mt, 4, 20, 2)]
        L = len(ns[0].raw)
        pool = [(n.prn, n.typ, m, j) for j, n in enumerate(ns[:2])
                for m in n.raw]
        rows = []
        for k in od:
            rows.append(pool[k])
            rows.append((4, ns[2].typ, ns[2].raw[k % L]))
        if mis == 1:            # other pages between
            o = [Q.lnavraw(Q.lnav(s, T0, 0, ('o', s), 1)) for s in (0, 4, 5)]\
                if mt == LNAV else [Q.cnavraw(Q.cnav(m, T0, 3, ('o', m), 3, '1'*238))
                                    for m in (12, 15, 60, 0)] \
                if mt == CNAV else [Q.pad(u(6, t)+'1'*238, 31)
                                    for t in (0, 5, 6, 63)] \
                if mt == FNAV else [Q.inavraw(u(6, t)+'1'*122)
                                    for t in (0, 6, 10, 63)]
            rows = [r for q in rows for r in
                    [q]+[(*q[:2], m, *q[3:]) for m in o]]
        elif mis == 2 and mt == INAV:       # E5b pages are not used
            z = nav(mt, 3, 21, 55)
            rows = [r for q in rows for r in [(3, 1, m) for m in z.raw]+[q]]
        rx = Rx()
        load(rx, mt, rows)
        ns[2:] = ns[2:]
        for n in ns:
            have = [k for k in od if (n is ns[2]) or (n is ns[0]) == (k < L)]
            s = {k % L for k in have}
            d = rx.l6(T0, Q.l6(n.rds()))
            # all pages in order without others between
            full = len(s) == L
            if not full:
                expect(d == {}, lambda: f'incomplete {n.prn} {n.iode}: {d}')
            elif inorder(have, L, od, n is ns[2]):
                expect(d == {n.sat: 1}, lambda: f'{n.prn} {n.iode}: {d}')
            else:
                expect(set(d) <= {n.sat}, 'other satellite')
        for s, t in rx.q.navmsg.items():
            for iod, v in t.items():
                expect(any(n.sat == s and n.iode == iod for n in ns),
                       lambda: f'satellite {s} issue {iod} does not exist')
    c.case('files', x, fn, steps=len(od)*2)


def inorder(have, L, od, other):
    """ pages 0..L-1 in sequence """
    od = list(od)
    if other:
        q = [k % L for k in od]
    else:
        q = [k if (k < L) == (have[0] < L) else -1 for k in od]
        q = [k % L if k >= 0 else -1 for k in q]
    return any(q[i:i+L] == list(range(L)) for i in range(len(q)))


def two(c, x):
    """ two receivers with different keys """
    mode, pat = x

    def fn():
        rx = [Rx('a'), Rx('b')]
        # key id 1 is key 1 for the first, key 2 for the second receiver
        g = [mkset(mode, T0, var=0), mkset(mode, T0, var=1, key=2, iode=3)]
        n = nav(INAV, 7, 65, 0)
        loadall(rx[0], [n])
        i = [0, 0]
        k = 0
        L = len(g[0].pages)
        while min(i) < L:
            r = pat[k % len(pat)]
            k += 1
            if i[r] == L:
                continue
            d = rx[r].page(193, mode, g[r].pages[i[r]], T0)
            i[r] += 1
            expect(d == ({sat(193): 1} if i[r] == L else {}),
                   lambda: f'receiver {r}: page {i[r]-1}: {d}')
        d = rx[1].l6(T0, Q.l6(n.rds(1, 2)))
        expect(d == {}, lambda: f'message of the other receiver: {d}')
        d = rx[0].l6(T0, Q.l6(n.rds()))
        expect(d == {n.sat: 1}, lambda: f'{d}')
        expect(not Rx('a').q.vstatus, 'new receiver')
    c.case('two', x, fn, steps=14)


def run(ck):
    global DIR
    DIR = mkdirs()
    try:
        checks(ck)
    finally:
        shutil.rmtree(DIR)


def checks(ck):
    TH = ck.thorough
    Q.m_len = {LNAV: 900, CNAV: 900, FNAV: 976, INAV: 640}
    tab = list(itertools.product(range(4), repeat=3))
    ck.pmap('count', [((a, b), v) for a in tab for b in tab[::1 if TH else 7]
                      for v in (1, 2, 3)],
            lambda c, x: c.case('count', x, count, *x), chunk=200)
    items = []
    for mode in (LNAV, CNAV, CNAV2):
        L = 4 if mode == CNAV2 else 6
        items += [(mode, p, 0) for p in itertools.permutations(range(L))]
        r = tuple(range(L))
        items += [(mode, r[:k]+r[k+1:], 0) for k in r]
        items += [(mode, r[:i]+(k,)+r[i:], 0) for i in range(L+1) for k in r]
        items += [(mode, p, 0) for p in itertools.permutations(range(L), L-1)]
        ws = [0, 6, 12, 18, 24, 30, 36, 604794, 604788, 604782] \
            if mode != CNAV2 else [0, 18, 36, 7200, 7182, 7218, 604782,
                                   604764]
        items += [(mode, r, t) for t in ws]
    ck.pmap('perm', items, perm, chunk=100)
    items = []
    for mode in (LNAV, CNAV, CNAV2):
        g = mkset(mode, T0)
        items += [(mode, k, b) for k, p in enumerate(g.pages)
                  for b in range(len(p)) if b in cov(mode, k)]
    ck.pmap('bitflip', items, bitflip, chunk=100)
    ks = list(itertools.product((1, 2, 3), repeat=2))+[(4, 1), (0, 1),
                                                       (255, 2)]
    ck.pmap('keys', [(m, d, s) for m in (LNAV, CNAV, CNAV2)
                     for d in ('a', 'b', 'none') for n in (1, 2)
                     for s in itertools.product(ks, repeat=n)], keys,
            chunk=40)
    ck.pmap('seq', [(m, v, s) for m in (LNAV, CNAV, CNAV2) for s in (0, 1)
                    for n in range(1, 5 if TH else 4)
                    for v in itertools.product(VAR, repeat=n)], seq,
            chunk=60)
    st = [((193, LNAV), (194, LNAV)), ((193, LNAV), (193, CNAV)),
          ((193, CNAV), (195, CNAV)), ((193, LNAV), (193, CNAV2)),
          ((193, CNAV), (193, CNAV2)), ((194, LNAV), (193, CNAV)),
          ((193, CNAV2), (194, CNAV2))]
    pats = [(0, 1), (0, 0, 0, 1, 1, 1), (0, 1, 1), (0,), (1,), (0, 0, 1),
            (1, 1, 1, 0, 0)]
    vv = [''.join(v) for v in itertools.product('garx', repeat=2)]
    ck.pmap('inter', [(s, (a, b), p) for s in st for a in vv for b in vv
                      for p in pats][::1 if TH else 2], inter, chunk=60)
    for n, mm in ((12, [(LNAV, CNAV), (LNAV, LNAV), (CNAV, CNAV)]),
                  (10, [(LNAV, CNAV2), (CNAV, CNAV2)])):
        a = 6
        od = []
        for pos in itertools.combinations(range(n), a):
            o = [1]*n
            for p in pos:
                o[p] = 0
            od.append(tuple(o))
        ck.pmap('shuffle', [(m, o) for m in mm for o in od], shuffle,
                chunk=100)
    # blocks of pages of two sets
    E = [(n, a, b, z) for n in (0, 1) for a, b in
         ((0, 1), (1, 3), (3, 4), (4, 6), (3, 6), (0, 3)) for z in (0, 1)]
    E2 = [(n, a, b, z) for n in (0, 1) for a, b in
          ((0, 1), (1, 3), (3, 4)) for z in (0, 1)]
    ck.pmap('events', [(LNAV, e) for k in range(1, 4 if TH else 3)
                       for e in itertools.product(E, repeat=k)] +
            [(m, e) for m in (CNAV, LNAV) for e in itertools.product(
                [x for x in E if x[1:3] in ((0, 3), (3, 6), (1, 3))],
                repeat=4 if TH else 3)] +
            [(CNAV2, e) for k in range(1, 5 if TH else 4)
             for e in itertools.product(E2, repeat=k)], events, chunk=100)
    opt = [None]+[(i, v) for i in range(7) for v in 'gksmoft']
    ck.pmap('gnss', [(a, b, m) for a in opt for b in opt for m in (0, 1)
                     if a and (TH or b is None or a[1] == 'g' or
                               b[1] == 'g')], gnss, chunk=40)
    ck.pmap('gnssbit', [(i, b) for i in range(4) for b in range(605)],
            gnssbit, chunk=40)
    ck.pmap('navbit', [(i, k, b) for i in range(4)
                       for k, p in enumerate(nav(*NAVS[i]).p)
                       for b in range(len(p))], navbit, chunk=60)
    ck.pmap('svid', [(s, m) for s in range(256) for m in range(16)
                     if TH or m < 7 or s in (5, 65, 71)], svid, chunk=40)
    ck.pmap('rtow', [(i, t) for i in range(4) for e in (100800, 604800, 30,
                     1048576, 131072) for t in range(e-30, e)],
            rtow, chunk=10)
    ck.pmap('gkeys', [(i, s) for i in range(4) for n in (1, 2, 3)
                      for s in itertools.product(
                          [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)],
                          repeat=n)], gkeys, chunk=40)
    items = []
    for mt in LOAD:
        L = {LNAV: 3, CNAV: 3, FNAV: 4, INAV: 5}[mt]
        r = tuple(range(2*L))
        od = list(itertools.permutations(r)) if L == 3 else []
        od += [r[:L]+r[L:], r[L:]+r[:L]]
        od += [tuple(sorted(s)) for k in range(1, 2*L)
               for s in itertools.combinations(r, k)]
        # issue change within the cycle
        od += [tuple(range(k))+tuple(range(L+k, 2*L)) +
               tuple(range(L, 2*L)) for k in range(L)]
        od += [tuple((i+k) % L+L*((b >> i) & 1) for i in range(L))+r[:L]
               for b in range(1 << L) for k in range(L)]
        if not TH and L == 3:
            od = od[::3]+[r]
        items += [(mt, o, m) for o in od for m in (0, 1, 2)
                  if m < 2 or mt == INAV]
    ck.pmap('files', items, files, chunk=60)
    ck.pmap('two', [(m, p) for m in (LNAV, CNAV, CNAV2) for k in range(2, 7)
                    for p in itertools.product((0, 1), repeat=k)
                    if len(set(p)) == 2], two, chunk=20)
    ck.bound(sets=4 if TH else 3, satellites=2, message_types=5,
             pages_per_file=10)
