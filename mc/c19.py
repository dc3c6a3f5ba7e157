""" C19 OSNMA root keys and public keys take effect only when verified """
import itertools
import os
import shutil
import tempfile
from cryptography.hazmat.primitives.serialization import Encoding, \
    PublicFormat
from cssrlib.osnma import osnma, uOSNMA
from mc import osnmasim as S
from mc import c18
from mc.bits import tobytes
from mc.core import expect

T0 = c18.W0*S.WS+3*86400+7200
FLD = ('pkid', 'cidkr', 'hf', 'mf', 'ks', 'ts', 'maclt', 'wn', 'towh')


class Msg:
    """ root key message and the parameters it carries """

    def __init__(self, seed=0, dt=0, key=1, pkid=1, cidkr=None, header=None,
                 nb=None, curve='256', **kw):
        self.par = S.Par(seed=seed, **kw)
        self.ch = S.Chain.get(self.par, T0//3600-1+dt, T0+600)
        self.h, self.bl = S.dsm_kroot(self.ch, key, pkid, nb, header, curve,
                                      cidkr)
        p = self.par
        self.val = dict(pkid=pkid, cidkr=p.cid if cidkr is None else cidkr,
                        hf=p.hf, mf=p.mf, ks=p.ks, ts=p.ts, maclt=p.maclt,
                        wn=self.ch.t0//S.WS, towh=self.ch.t0 % S.WS//3600)
        self.n = len(self.bl)


_m = {}


def msg(**kw):
    k = repr(sorted(kw.items()))
    if k not in _m:
        _m[k] = Msg(**kw)
    return _m[k]


class Rx:
    def __init__(self, keys=((1, 1, '256'),), mt=None):
        self.r = osnma(logfile='/dev/null')
        self.r.monlevel = 0
        for pkid, k, c in keys:
            self.r.pk_list[pkid] = S.keypair(k, c).public_key()
        if mt:
            self.r.root_mt = mt
        self.t = T0
        self.prn = 0

    def block(self, h, did, bid, b, prn=None, bad=None):
        """ one sub-frame of one satellite """
        if prn is None:
            self.prn = self.prn % 36+1
            if self.prn == 1:
                self.t += 30
            prn = self.prn
        hk = S.hkroot(h, did, bid, b)
        w, tow = c18.wt(self.t)
        r = self.r
        for k in range(15):
            r.prn_a = prn
            if bad == k:
                continue
            r.decode(hk[k:k+1]+b'\0\0\0\0', w, tow+2*k+1, prn)

    def message(self, m, did=2, order=None, h=None):
        for b in (range(m.n) if order is None else order):
            self.block(m.h if h is None else h, did, b, m.bl[b])

    def holds(self, m, what=''):
        """ exactly the parameters of m are in force; None: no root key """
        r = self.r
        v = bool(r.status & uOSNMA.ROOTKEY_VERIFIED)
        if m is None:
            expect(not v, lambda: f'{what}: root key verified')
            return
        expect(v, lambda: f'{what}: root key not verified')
        for f in FLD:
            expect(getattr(r, f) == m.val[f], lambda: f'{what}: {f} is '
                   f'{getattr(r, f)} instead of {m.val[f]}')
        expect(bytes(r.kroot) == m.ch.root, lambda: f'{what}: root key')
        expect(bytes(r.alp) == m.par.alpha, lambda: f'{what}: alpha')

    def chain(self, m):
        """ key of the chain is accepted """
        t = self.t+60
        w = S.World(m.par, m.ch, t, [5], lambda p, n: (1, 0))
        c = Rx.__new__(Rx)
        c.r = self.r
        pg = w.pages(5, 0, S.hkroot(m.h, 9, 15, bytes(13)))
        for k in range(15):
            self.r.prn_a = 5
            nav, nma = self.r.load_gal_inav(pg[k])
            wk, tow = c18.wt(t)
            self.r.decode(nma, wk, tow+2*k+1, 5)
        expect(self.r.status & uOSNMA.KEYCHAIN_VERIFIED and
               bytes(self.r.key) == m.ch.key[t], 'key of the chain rejected')


A = dict(seed=0)
B = dict(seed=1, dt=-1, maclt=33)


def order(c, x):
    od, pre, nb = x

    def fn():
        big = nb is not None and nb > 9
        m = msg(nb=nb, pkid=2 if big else 1, curve='521' if big else '256',
                **A)
        rx = Rx([(1, 1, '256'), (2, 1, '521')])
        if pre:
            rx.message(msg(**B), 7)
            rx.holds(msg(**B), 'first')
        seen = set()
        for b in od:
            rx.block(m.h, 2, b, m.bl[b])
            seen.add(b)
            rx.holds(m if len(seen) == m.n else msg(**B) if pre else None,
                     f'after {len(seen)} blocks')
        if len(seen) == m.n:
            rx.chain(m)
    c.case('order', x, fn, steps=len(od))


def corrupt(c, x):
    b, i, xor, pre, last = x

    def fn():
        m = msg(**A)
        rx = Rx()
        p = None
        if pre:
            p = msg(**B)
            rx.message(p, 7)
        bad = bytearray(m.bl[b])
        bad[i] ^= xor
        od = [j for j in range(m.n) if j != b]
        if last:
            rx.message(m, 2, od)
            rx.block(m.h, 2, b, bytes(bad))
        else:
            rx.block(m.h, 2, b, bytes(bad))
            rx.message(m, 2, od)
        rx.holds(p, 'corrupted')
        rx.block(m.h, 2, b, m.bl[b])
        if b or i:
            rx.holds(m, 'corrected')
        else:               # wrong number of blocks or key number
            rx.message(m, 2)
            rx.holds(m, 'repeated')
    c.case('corrupt', x, fn, steps=9)


def signed(c, x):
    """ altered content with matching padding """
    bit, pre, kind = x

    def fn():
        m = msg(**A)
        rx = Rx()
        p = None
        if pre:
            p = msg(**B)
            rx.message(p, 7)
        d = bytearray(b''.join(m.bl))
        h = m.h
        lk, n = m.par.lk//8, 13
        if bit < 8:
            h ^= 1 << bit
        else:
            d[bit//8] ^= 0x80 >> bit % 8
        body = d[:n+lk]
        pk = S.KLEN[body[2] >> 4]//8 if body[2] >> 4 < 9 else lk
        body = d[:n+pk]
        ds = d[n+pk:n+pk+64]
        pd = S.hsh(0, bytes([h])+body[1:]+ds)
        nb = len(d)
        d[n+pk+64:] = pd[:max(0, nb-n-pk-64)]
        d = d[:nb]+bytes(max(0, nb-len(d)))
        for b in range(nb//13):
            rx.block(h, 2, b, bytes(d[13*b:13*b+13]))
        rx.holds(p, f'bit {bit} altered')
        if pre:
            rx.message(m, 3)
            rx.holds(m, 'afterwards')
    c.case('signed', x, fn, steps=8)


def signer(c, x):
    """ signatures of other keys and keys which are not installed """
    key, pkid, inst, curve, icurve, pre = x

    def fn():
        m = msg(key=key, pkid=pkid, curve=curve, **A)
        rx = Rx([(p, k, icurve) for p, k in inst]+[(9, 1, '256')])
        p = None
        if pre:
            p = msg(pkid=9, **B)
            rx.message(p, 7)
            rx.holds(p)
        rx.message(m)
        ok = (pkid, key) in inst and curve == icurve or (
            pkid == 9 and key == 1 and curve == '256')
        rx.holds(m if ok else p, 'signer')
        if ok:
            rx.chain(m)
    c.case('signer', x, fn, steps=8)


def mix(c, x):
    sel, dids, fg = x

    def fn():
        ms = [msg(**A), msg(**B) if not fg else msg(key=2, **B)]
        rx = Rx()
        n = 8
        last = None
        for b in range(n):
            m = ms[sel >> b & 1]
            rx.block(m.h, 2 if dids else 2+(sel >> b & 1), b, m.bl[b])
        if sel == 0:
            last = ms[0]
        elif sel == 255 and not fg:
            last = ms[1]
        rx.holds(last, 'mixture')
        # remaining blocks of the first message
        for b in range(n):
            if sel >> b & 1:
                rx.block(ms[0].h, 2, b, ms[0].bl[b])
        rx.holds(ms[0], 'completed')
    c.case('mix', x, fn, steps=8)


def history(c, x):
    """ halves of genuine (A, B) and forged (F) messages """
    ev, = x

    def fn():
        ms = {'A': msg(**A), 'B': msg(**B), 'F': msg(seed=5, key=2),
              'H': msg(seed=6, header=0x82, cidkr=1)}
        rx = Rx()
        slot, cur = {}, None
        for m, did, half in ev:
            y = ms[m]
            for b in range(4*half, 4*half+4):
                rx.block(y.h, did, b, y.bl[b])
            s = slot.setdefault(did, {})
            s[half] = m
            if s.get(0) == s.get(1) == m and m in 'AB':
                cur = y
                slot[did] = {}
            rx.holds(cur, f'{m}{half} as {did}')
    c.case('history', x, fn, steps=4*len(ev))


def lost(c, x):
    b, k, same = x

    def fn():
        m = msg(**A)
        rx = Rx()
        for j in range(m.n):
            prn = 4 if same else None
            if same:
                rx.t += 30
            rx.block(m.h, 2, j, m.bl[j], prn, k if j == b else None)
        rx.holds(None, 'incomplete sub-frame')
        rx.t += 30
        rx.block(m.h, 2, b, m.bl[b], 4 if same else None)
        rx.holds(m, 'complete')
    c.case('lost', x, fn, steps=9)


def header(c, x):
    h, pos, pre = x

    def fn():
        m = msg(**A)
        rx = Rx()
        p = None
        if pre:
            p = msg(**B)
            rx.message(p, 7)
        # one block with another header
        for b in range(m.n):
            rx.block(h if b == pos else m.h, 2, b, m.bl[b])
        ok = h == m.h or (pos < m.n-1 and h >> 6 in (1, 2) and
                          h >> 1 & 7 != 0)
        if ok:
            rx.holds(m, 'header')
        elif pos == m.n-1:
            rx.holds(p, 'header')
        rx.message(m, 2)
        rx.holds(m, 'repeated')
    c.case('header', x, fn, steps=8)


def chainid(c, x):
    """ root key of the next chain is used when it is in force """
    cur, nxt, od = x

    def fn():
        m = msg(seed=0, cid=cur)
        nx = dict(seed=3, cid=nxt, dt=-1)
        a = msg(header=m.par.nmas << 6 | cur << 4 | 2 << 1, cidkr=nxt, **nx)
        b = msg(**nx)
        rx = Rx()
        rx.message(m)
        rx.holds(m)
        rx.message(a, 3, od)
        rx.holds(m if cur != nxt else a, 'next chain')
        rx.message(b, 3, od)
        rx.holds(b, 'chain in force')
        rx.chain(b)
    c.case('chain', x, fn, steps=24)


def fields(c, x):
    """ every value of a field: no exception, nothing takes effect """
    byte, v, pre, sg = x

    def fn():
        m = msg(**A)
        rx = Rx()
        p = None
        if pre:
            p = msg(**B)
            rx.message(p, 7)
        d = bytearray(b''.join(m.bl))
        if d[byte] == v:
            return
        d[byte] = v
        i = 13+m.par.lk//8
        M = bytes([m.h])+bytes(d[1:i])
        ds = S.sign(1 if sg else 2, M)
        d[i:] = (ds+S.hsh(0, M+ds))[:len(d)-i]
        for b in range(m.n):
            rx.block(m.h, 2, b, bytes(d[13*b:13*b+13]))
        ok = rx.r.status & uOSNMA.ROOTKEY_VERIFIED
        if not sg:
            rx.holds(p, 'field')
        if not pre or not sg:
            for q in range(15):     # pages with tags are still handled
                rx.r.decode(bytes([m.h])*5, 2300, 300031+2*q, 7)
        if not sg:
            rx.message(m, 3)
            rx.holds(m, 'afterwards')
        return bool(ok)
    c.case('field', x, fn, steps=8)


# ------------------------------------------------------------- public keys
def tree(oam=None):
    k = ('t', oam)
    if k not in _m:
        _m[k] = S.Merkle({3: '521', 7: '521', 12: '521'}, oam)
    return _m[k]


def ids(c, x):
    did, pre, od = x

    def fn():
        m = msg(**B)
        rx = Rx()
        if pre:
            rx.message(msg(**A))
        rx.message(m, did, od)
        rx.holds(m if did < 12 else msg(**A) if pre else None,
                 f'root key message with id {did}')
    c.case('ids', x, fn, steps=14)


def curve(i):
    return '521' if i in (3, 7, 12) else '256'


def send(rx, bl, did=13, od=None, h=0x82):
    for b in (range(len(bl)) if od is None else od):
        rx.block(h, did, b, bl[b])


def pub(pk):
    return pk.public_bytes(Encoding.X962, PublicFormat.CompressedPoint)


def holdpk(rx, want, what):
    have = {k: pub(v) for k, v in rx.r.pk_list.items() if v}
    expect(have == want, lambda: f'{what}: public keys {sorted(have)}, '
           f'expected {sorted(want)}')


def pkr(c, x):
    i, did, od, pre, use = x

    def fn():
        mt = tree()
        rx = Rx(mt=mt.root) if pre else Rx((), mt.root)
        base = {1: S.pnt(1)} if pre else {}
        if pre == 2:
            rx.message(msg(**A))
        bl = mt.blocks(i)
        o = {'f': range(len(bl)), 'r': range(len(bl)-1, -1, -1),
             'd': list(range(len(bl)-1))*2+[len(bl)-1]}[od] if isinstance(
                 od, str) else [(j+od) % len(bl) for j in range(len(bl))]
        o = list(o)
        for j, b in enumerate(o):
            holdpk(rx, base, f'{j} blocks')
            rx.block(0x82, did, b, bl[b])
        holdpk(rx, {**base, i: S.pnt(i+20, curve(i))}, 'all blocks')
        expect(rx.r.status & uOSNMA.PKR_UPDATED, 'status')
        if pre == 2:
            rx.holds(msg(**A) if i != 1 or True else None, 'root key')
        if use:
            m = msg(key=i+20, pkid=i, curve=curve(i), seed=1)
            rx.message(m, 4)
            rx.holds(m, 'signed with the new key')
            f = msg(key=50, pkid=i, curve=curve(i), seed=2)
            rx.message(f, 5)
            rx.holds(m, 'forged')
    c.case('pkr', x, fn, steps=14)


def pkrbit(c, x):
    """ altered message; the padding is adapted if fit """
    i, bit, fit = x

    def fn():
        mt = tree()
        rx = Rx(mt=mt.root)
        bl = mt.blocks(i)
        d = bytearray(b''.join(bl))
        d[bit//8] ^= 0x80 >> bit % 8
        if fit:
            n = 129+len(mt.leaf[i])
            d[n:] = S.hsh(0, mt.root+bytes(d[129:n]))[:len(d)-n]
        send(rx, [bytes(d[13*b:13*b+13]) for b in range(len(bl))])
        holdpk(rx, {1: S.pnt(1)}, f'bit {bit} altered')
        send(rx, bl)
        holdpk(rx, {1: S.pnt(1), i: S.pnt(i+20, curve(i))}, 'corrected')
    c.case('pkrbit', x, fn, steps=28)


def pkrforge(c, x):
    kind, i, j = x

    def fn():
        mt = tree()
        rx = Rx(mt=mt.root)
        base = {1: S.pnt(1)}
        if kind == 'path':          # path of another leaf
            if i == j:
                return
            d = mt.blocks(j)
            itn = b''.join(d)[1:129]
            bl = mt.blocks(i, itn=itn)
            if itn == b''.join(mt.blocks(i))[1:129]:
                return
        elif kind == 'mid':         # other number
            bl = mt.blocks(i)
            bl = [bytes([bl[0][0] & 0xf0 | j])+bl[0][1:]]+bl[1:]
            if i == j:
                base[i] = S.pnt(i+20, curve(i))
        elif kind == 'leaf':        # other key
            bl = mt.blocks(i, mi=bytes([1 << 4 | j])+S.pnt(60+j))
        elif kind == 'id':          # key under another number
            if i == j:
                return
            bl = mt.blocks(i, mi=bytes([mt.leaf[i][0] & 0xf0 | j]) +
                           mt.leaf[i][1:])
        elif kind == 'tree':        # own tree
            k = 'own'
            if k not in _m:
                t = S.Merkle({})
                t.leaf = [bytes([1 << 4 | q])+S.pnt(70+q) for q in range(16)]
                lv = [S.hsh(0, q) for q in t.leaf]
                t.tree = [lv]
                while len(lv) > 1:
                    lv = [S.hsh(0, lv[q]+lv[q+1])
                          for q in range(0, len(lv), 2)]
                    t.tree.append(lv)
                t.root = lv[0]
                _m[k] = t
            bl = _m[k].blocks(i, root=mt.root if j % 2 else None)
        elif kind == 'noroot':
            rx.r.root_mt = -1
            bl = mt.blocks(i)
        elif kind == 'type':        # reserved types
            mi = bytes([j << 4 | mt.leaf[i][0] & 15])+mt.leaf[i][1:]
            if mi == mt.leaf[i]:
                return
            bl = mt.blocks(i, mi=mi)
        elif kind == 'nb':
            bl = mt.blocks(i)
            if bl[0][0] >> 4 == j:
                return
            bl = [bytes([j << 4 | i])+bl[0][1:]]+bl[1:]+[bytes(13)]*2
            bl = bl[:16]
        send(rx, bl)
        holdpk(rx, base, kind)
        if kind != 'noroot':
            send(rx, mt.blocks(2), 14)
            holdpk(rx, {**base, 2: S.pnt(22)}, 'afterwards')
        rx.message(msg(**A))
        rx.holds(msg(**A), 'root key')
    c.case('pkrforge', x, fn, steps=36)


def alert(c, x):
    od, pre = x

    def fn():
        mt = tree(oam=0)
        rx = Rx(mt=mt.root)
        if pre:
            rx.message(msg(**A))
        bl = mt.blocks(0)
        send(rx, bl, 13, range(len(bl)-1, -1, -1) if od else None)
        holdpk(rx, {1: S.pnt(1)}, 'alert message')
        rx.message(msg(**B), 3)
        rx.holds(msg(**B), 'root key')
    c.case('alert', x, fn, steps=30)


def pkrmix(c, x):
    i, j, cut, did = x

    def fn():
        mt = tree()
        rx = Rx(mt=mt.root)
        a, b = mt.blocks(i), mt.blocks(j)
        for k in range(cut):
            rx.block(0x82, 13, k, a[k])
        for k in range(cut, len(b)):
            rx.block(0x82, did, k, b[k])
        base = {1: S.pnt(1)}
        holdpk(rx, base if cut else {**base, j: S.pnt(j+20, curve(j))},
               'mixture')
        for k in range(len(b)):
            rx.block(0x82, did, k, b[k])
        holdpk(rx, {**base, j: S.pnt(j+20, curve(j))}, 'complete')
    c.case('pkrmix', x, fn, steps=28)


# -------------------------------------------------------------- receivers
def two(c, x):
    """ interleaved receivers behave like separate ones """
    ka, kb, pat, od = x

    def fn():
        mt = tree()
        kinds = {'A': msg(**A), 'B': msg(**B), 'F': msg(seed=5, key=2),
                 'P': mt.blocks(2), 'Q': mt.blocks(3), 'N': None}
        rx = [Rx(mt=mt.root), Rx(mt=mt.root)]
        seq = []
        for r, k in enumerate((ka, kb)):
            m = kinds[k]
            if k in 'PQ':
                s = [(0x82, 13, b, m[b]) for b in range(len(m))]
            elif k == 'N':
                s = []
            else:
                s = [(m.h, 2, b, m.bl[b]) for b in range(m.n)]
            seq.append(s[::-1] if od >> r & 1 else s)
        i = [0, 0]
        k = 0
        while i[0] < len(seq[0]) or i[1] < len(seq[1]):
            r = pat[k % len(pat)]
            k += 1
            if i[r] < len(seq[r]):
                rx[r].block(*seq[r][i[r]])
                i[r] += 1
        for r, q in enumerate((ka, kb)):
            rx[r].holds(kinds[q] if q in 'AB' else None, f'receiver {r}')
            w = {1: S.pnt(1)}
            if q in 'PQ':
                j = 2 if q == 'P' else 3
                w[j] = S.pnt(j+20, curve(j))
            holdpk(rx[r], w, f'receiver {r}')
    c.case('two', x, fn, steps=16)


def split(c, x):
    """ halves of a message given to different receivers """
    cut, new = x

    def fn():
        m = msg(**A)
        r1 = Rx()
        r1.message(m, 2, range(cut))
        r2 = Rx()
        r2.message(m, 2, range(cut, m.n))
        r1.holds(m if cut == m.n else None, 'first receiver')
        r2.holds(m if cut == 0 else None, 'second receiver')
        r2.message(m, 2, range(cut))
        r2.holds(m, 'second receiver')
        r1.holds(m if cut == m.n else None, 'first receiver')
        if new:
            r3 = Rx()
            r3.holds(None, 'new receiver')
            expect(r2.r.status and not r3.r.status, 'status')
    c.case('split', x, fn, steps=16)


def pair18(c, x):
    """ complete signals for two interleaved receivers """
    va, vb, swap = x

    def fn():
        a = c18.scn(chg=(4,), nsub=8)
        b = c18.scn(par=S.Par(seed=4, maclt=33, cid=1), chg=(3,), nsub=8,
                    prns=(3, 11))
        rx, mo = [], []
        for s in (a, b):
            r = c18.Rx()
            r.boot(s.w, 0)
            rx.append(r)
            mo.append(c18.Model(s.w))
        for n in range(1, 7):
            tx = []
            for s, v in ((a, va), (b, vb)):
                q = []
                for p, y in zip(s.w.prns, (v if n < 4 else 'g', 'g')):
                    cp, gen = s.send(p, n, y)
                    q.append((p, cp, gen))
                tx.append(q)
            for k in range(15):
                for r in ((1, 0) if swap else (0, 1)):
                    for p, cp, gen in tx[r]:
                        for pg in cp:
                            if pg[k] is not None:
                                rx[r].page(p, rx_t(a, n), k, pg[k])
            for r in (0, 1):
                got = []
                for p, cp, gen in tx[r]:
                    pg = {}
                    for y in cp:
                        for k in range(15):
                            if y[k] is not None:
                                pg.setdefault(k, []).append(y[k])
                    if pg:
                        got.append((p, pg, gen))
                mo[r].rx(n, got)
                au = rx[r].auth()
                expect(au <= mo[r].may, lambda: f'receiver {r}: '
                       f'{sorted(au-mo[r].may)} authentic')
                expect(mo[r].must <= au, lambda: f'receiver {r}: '
                       f'{sorted(mo[r].must-au)} missing')
    c.case('receivers', x, fn, steps=6)


def rx_t(s, n):
    return s.w.time(n)


XML = """<?xml version="1.0" encoding="UTF-8"?>
<signalData><header><source>X</source></header><body><MerkleTree>
<N>16</N><HashFunction>SHA-256</HashFunction>
{keys}
{nodes}
</MerkleTree></body></signalData>
"""


def files(c, x):
    kind, i = x

    def fn():
        mt = tree()
        d = tempfile.mkdtemp(prefix='c19')
        try:
            rx = Rx((), None)
            r = rx.r
            r.pubk_bdir = d+'/'
            if kind == 'xml':
                keys = ''.join(
                    f'<PublicKey><i>{k}</i><PKID>{k}</PKID><lengthInBits>'
                    f'264</lengthInBits><point>{mt.leaf[k][1:].hex()}'
                    f'</point><PKType>ECDSA P-{curve(k)}/SHA-'
                    f'{"256" if curve(k) == "256" else "512"}</PKType>'
                    '</PublicKey>\n' for k in (i, (i+5) % 16))
                nodes = ''.join(
                    f'<TreeNode><j>{j}</j><i>{k}</i><lengthInBits>256'
                    f'</lengthInBits><x_ji>{v.hex()}</x_ji></TreeNode>\n'
                    for j, lv in enumerate(mt.tree) for k, v in enumerate(lv))
                with open(d+'/mt.xml', 'w') as f:
                    f.write(XML.format(keys=keys, nodes=nodes))
                r.load_mt(d+'/mt.xml')
                holdpk(rx, {k: S.pnt(k+20, curve(k)) for k in
                            (i, (i+5) % 16)}, 'keys')
                expect(bytes(r.root_mt) == mt.root, 'root of the tree')
                send(rx, mt.blocks((i+1) % 16))
                expect((i+1) % 16 in r.pk_list, 'new key')
            else:
                pk = S.keypair(i+20, curve(i)).public_key()
                enc = Encoding.PEM if kind == 'pem' else Encoding.DER
                with open(f'{d}/k.{kind}', 'wb') as f:
                    f.write(pk.public_bytes(
                        enc, PublicFormat.SubjectPublicKeyInfo))
                expect(r.load_pubkey_pkid(f'k.{kind}', i), 'not loaded')
                holdpk(rx, {i: S.pnt(i+20, curve(i))}, 'keys')
            m = msg(key=i+20, pkid=i, curve=curve(i), seed=1)
            rx.message(m, 4)
            rx.holds(m, 'root key')
        finally:
            shutil.rmtree(d)
    c.case('files', x, fn, steps=8)


def run(ck):
    TH = ck.thorough
    n = 8
    od = list(itertools.permutations(range(n))) if TH else \
        [p+q for p in itertools.permutations(range(4))
         for q in itertools.permutations(range(4, 8))] + \
        [tuple((q+s) % n for q in p) for s in (2, 4, 6) for p in
         [tuple(range(4))+q for q in itertools.permutations(range(4, 8))]] + \
        [tuple(range(n-1, -1, -1))]
    items = [(o, 0, None) for o in od]
    items += [(o, 1, None) for o in od[::1 if TH else 8]]
    r = list(range(n))
    # repetitions
    items += [(tuple(r[:k]+[b]+r[k:]), p, None) for k in range(n+1)
              for b in r for p in (0, 1)]
    items += [(tuple(r[:k]+[b, d]+r[k:]), 0, None) for k in range(n)
              for b in r for d in r]
    # missing blocks
    items += [(tuple(b for b in r if b not in m)*2, p, None)
              for k in (1, 2, 3) for m in itertools.combinations(r, k)
              for p in (0, 1)]
    for nb in (9, 13, 14):
        q = list(range(nb))
        items += [(tuple(q[s:]+q[:s]), p, nb) for s in q for p in (0, 1)]
        items += [(tuple(b for b in q if b != s), p, nb) for s in q
                  for p in (0, 1)]
    ck.pmap('ids', [(d, p, o) for d in range(16) for p in (0, 1) for o in (
        None, tuple(range(n-1, -1, -1)))], ids, chunk=4)
    ck.pmap('order', items, order, chunk=50)
    ck.pmap('corrupt', [(b, i, v, p, z) for b in range(n) for i in range(13)
                        for v in (1, 0x80, 0xff) for p in (0, 1)
                        for z in (0, 1)], corrupt, chunk=50)
    ck.pmap('signed', [(b, p, 0) for b in range(0, 744) if b != 7
                       for p in (0, 1)], signed, chunk=50)
    items = []
    for key in (1, 2):
        for pkid in (0, 1, 2, 9, 15):
            for inst in ((), ((1, 1),), ((1, 2),), ((2, 1), (1, 2)),
                         ((0, 1), (15, 1))):
                for cv in ('256', '521'):
                    for ic in ('256', '521'):
                        for p in (0, 1):
                            items.append((key, pkid, inst, cv, ic, p))
    ck.pmap('signer', items, signer, chunk=20)
    ck.pmap('mix', [(s, d, f) for s in range(256) for d in (True, False)
                    for f in (False, True)], mix, chunk=40)
    E = [(m, d, h) for m in 'ABFH' for d in (2, 3) for h in (0, 1)]
    items = [(h,) for k in range(1, 4) for h in itertools.product(E, repeat=k)]
    E1 = [(m, 2, h) for m in 'ABF' for h in (0, 1)]
    items += [(h,) for k in range(4, 7 if TH else 6) for h in
              itertools.product(E1, repeat=k)]
    ck.pmap('history', items, history, chunk=50)
    ck.pmap('lost', [(b, k, s) for b in range(n) for k in range(15)
                     for s in (False, True)], lost, chunk=20)
    ck.pmap('header', [(h, p, q) for h in range(256) for p in (0, 3, 7)
                       for q in (0, 1)], header, chunk=50)
    ck.pmap('chain', [(a, b, o) for a in range(4) for b in range(4)
                      for o in (None, tuple(range(7, -1, -1)))], chainid,
            chunk=4)
    ck.pmap('field', [(b, v, p, s) for b in (0, 1, 2, 3) for v in range(256)
                      for p in (0, 1) for s in (0, 1)], fields, chunk=50)
    ck.pmap('pkr', [(i, d, o, p, u) for i in range(16) for d in (12, 13, 14, 15)
                    for o in ['f', 'r', 'd']+list(range(1, 13))
                    for p in (0, 1, 2) for u in (0, 1)
                    if not (p == 2 and i == 1 or p and i == 1)
                    ][::1 if TH else 3], pkr, chunk=30)
    items = [(i, b, f) for i in (2, 3) for f in (0, 1)
             for b in range(8, 8*(13 if i == 2 else 16)*13)
             if not (f and b >= 8*(129+(34 if i == 2 else 68)))]
    ck.pmap('pkrbit', items[::1 if TH else 3], pkrbit, chunk=50)
    ck.pmap('pkrforge', [(k, i, j) for k in ('path', 'mid', 'leaf', 'id',
                                             'tree', 'type', 'nb')
                         for i in (0, 2, 3, 9, 15) for j in range(16)] +
            [('noroot', i, 0) for i in (2, 3)], pkrforge, chunk=20)
    ck.pmap('alert', [(o, p) for o in (0, 1) for p in (0, 1)], alert, chunk=1)
    ck.pmap('pkrmix', [(i, j, k, d) for i in (2, 3) for j in (4, 6)
                       for k in range(13) for d in (13, 14) if i == 2],
            pkrmix, chunk=10)
    pats = [p for k in (1, 2, 3, 4) for p in itertools.product((0, 1),
                                                               repeat=k)
            if len(set(p)) == 2]
    ck.pmap('two', [(a, b, p, o) for a in 'ABFPQN' for b in 'ABFPQN'
                    for p in pats for o in range(4)
                    ][::1 if TH else 2], two, chunk=40)
    ck.pmap('split', [(k, m) for k in range(n+1) for m in (0, 1)], split,
            chunk=2)
    vs = ['g', 'a', 'l7', 'k', 'n', 'o', 'f', 'd']
    ck.pmap('receivers', [(a, b, s) for a in vs for b in vs for s in (0, 1)],
            pair18, chunk=8)
    ck.pmap('files', [(k, i) for k in ('xml', 'pem', 'der')
                      for i in range(16)], files, chunk=4)
    ck.bound(blocks=n, message_history=5 if TH else 4, receivers=2)
