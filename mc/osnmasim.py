""" Galileo OSNMA signal generator following the interface control document """
import functools
import hashlib
import hmac
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, utils
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from mc.bits import tobytes

KLEN = [96, 104, 112, 120, 128, 160, 192, 224, 256]
TLEN = {5: 20, 6: 24, 7: 28, 8: 32, 9: 40}
# MAC look-up table: tags of the two sub-frames
LT = {27: '00S 00E 00E 00E 12S 00E/00S 00E 00E 04S 12S 00E',
      28: '00S 00E 00E 00E 00S 00E 00E 12S 00E 00E/'
          '00S 00E 00E 00S 00E 00E 04S 12S 00E 00E',
      31: '00S 00E 00E 12S 00E/00S 00E 00E 12S 04S',
      33: '00S 00E 04S 00E 12S 00E/00S 00E 00E 12S 00E 12E',
      34: '00S FLX 04S FLX 12S 00E/00S FLX 00E 12S 00E 12E',
      35: '00S FLX 04S FLX 12S FLX/00S FLX FLX 12S FLX FLX',
      36: '00S FLX 04S FLX 12S/00S FLX 00E 12S 12E',
      37: '00S 00E 04S 00E 12S/00S 00E 00E 12S 00E',
      38: '00S FLX 04S FLX 12S/00S FLX FLX 12S FLX',
      39: '00S FLX 04S FLX/00S FLX 00E 12S',
      40: '00S 00E 04S 12S/00S 00E 00E 12E',
      41: '00S FLX 04S FLX/00S FLX FLX 12S'}
LT = {k: [x.split() for x in v.split('/')] for k, v in LT.items()}
ORDER = [2, 4, 6, 10, 7, 8, 9, 16, 0, 0, 0, 1, 3, 5, 0]     # word types
WEEK = 2300         # GPS week
WS = 604800
NIST = {'256': ec.SECP256R1(), '521': ec.SECP521R1()}


def u(n, v):
    return format(v & ((1 << n)-1), f'0{n}b')


def bits(b):
    return format(int.from_bytes(b, 'big'), f'0{8*len(b)}b') if b else ''


def rnd(n, *seed):
    """ reproducible bits """
    h = hashlib.shake_128(repr(seed).encode()).digest((n+7)//8)
    return bits(h)[:n]


@functools.lru_cache(None)
def keypair(n, curve='256'):
    return ec.derive_private_key(123456789+7919*n, NIST[curve])


@functools.lru_cache(None)
def sign(n, msg, curve='256'):
    """ raw signature """
    h = hashes.SHA256() if curve == '256' else hashes.SHA512()
    r, s = utils.decode_dss_signature(keypair(n, curve).sign(
        msg, ec.ECDSA(h)))
    k = 32 if curve == '256' else 66
    return r.to_bytes(k, 'big')+s.to_bytes(k, 'big')


def pnt(n, curve='256'):
    """ compressed public key """
    from cryptography.hazmat.primitives.serialization import Encoding, \
        PublicFormat
    return keypair(n, curve).public_key().public_bytes(
        Encoding.X962, PublicFormat.CompressedPoint)


def hsh(hf, b):
    return (hashlib.sha256 if hf == 0 else hashlib.sha3_256)(b).digest()


def aes(key, b):
    return Cipher(algorithms.AES(key), modes.ECB()).encryptor().update(b)


def cmac(key, m):
    def dbl(b):
        v = int.from_bytes(b, 'big') << 1
        if v >> 128:
            v = (v ^ 0x87) & ((1 << 128)-1)
        return v.to_bytes(16, 'big')

    def xor(a, b):
        return bytes(x ^ y for x, y in zip(a, b))
    k1 = dbl(aes(key, bytes(16)))
    n = max(1, (len(m)+15)//16)
    last = m[16*(n-1):]
    last = xor(last, k1) if len(last) == 16 else xor(
        last+b'\x80'+bytes(15-len(last)), dbl(k1))
    x = bytes(16)
    for k in range(n-1):
        x = aes(key, xor(x, m[16*k:16*k+16]))
    return aes(key, xor(x, last))


class Par:
    """ parameters of a chain """

    def __init__(self, hf=0, mf=0, ks=4, ts=9, maclt=27, cid=0, nmas=2,
                 cpks=1, seed=0):
        self.hf, self.mf, self.ks, self.ts = hf, mf, ks, ts
        self.maclt, self.cid, self.nmas, self.cpks = maclt, cid, nmas, cpks
        self.lk, self.lt = KLEN[ks], TLEN[ts]
        self.nt = (480-self.lk)//(self.lt+16)
        self.alpha = int(rnd(48, 'alpha', seed), 2).to_bytes(6, 'big')
        self.seed = seed

    @property
    def header(self):
        return self.nmas << 6 | self.cid << 4 | self.cpks << 1


def valid_pars():
    """ all consistent combinations of sizes, functions and tables """
    for m, v in LT.items():
        for ks, lk in enumerate(KLEN):
            for ts, lt in TLEN.items():
                if (480-lk)//(lt+16) != len(v[0]):
                    continue
                for mf in (0, 1):
                    if mf and lk not in (128, 192, 256):
                        continue
                    for hf in (0, 2):
                        yield dict(hf=hf, mf=mf, ks=ks, ts=ts, maclt=m)


def gst(t):
    """ sub-frame time; t: seconds of the Galileo time """
    return tobytes(u(12, t//WS)+u(20, t % WS))


class Chain:
    """ one-way key chain until sub-frame end, from root at hour0 """
    _c = {}

    def __init__(self, par, hour0, end):
        self.par = par
        self.t0 = hour0*3600        # Galileo time of the root key
        self.key = {}
        lk = par.lk//8
        k = int(rnd(par.lk, 'seed', par.seed), 2).to_bytes(lk, 'big')
        t = end//30*30
        while t >= self.t0-30:
            self.key[t] = k
            k = hsh(par.hf, k+gst(t-30)+par.alpha)[:lk]
            t -= 30

    @property
    def root(self):
        return self.key[self.t0-30]

    @classmethod
    def get(cls, par, hour0, end):
        x = tuple(sorted(par.__dict__.items()))+(hour0, end)
        if x not in cls._c:
            if len(cls._c) > 40:
                cls._c.clear()
            cls._c[x] = cls(par, hour0, end)
        return cls._c[x]


def dsm_kroot(ch, key=1, pkid=1, nb=None, header=None, curve='256',
              cidkr=None, par=None, t0=None, root=None):
    """ root key message: header and list of blocks """
    p = par or ch.par
    t0 = ch.t0 if t0 is None else t0
    h = p.header if header is None else header
    ls = 512 if curve == '256' else 1056
    need = 104+p.lk+ls
    if nb is None:
        nb = 7
        while nb*104 < need+80:
            nb += 1
    body = tobytes(u(4, nb-6)+u(4, pkid)) + tobytes(
        u(2, p.cid if cidkr is None else cidkr)+u(2, 0)+u(2, p.hf)+u(2, p.mf) +
        u(4, p.ks)+u(4, p.ts)+u(8, p.maclt)+u(4, 0)+u(12, t0//WS) +
        u(8, t0 % WS//3600))+p.alpha+(root or ch.root)
    m = bytes([h])+body[1:]
    ds = sign(key, m, curve)
    lp = nb*13-len(body)-len(ds)
    assert 0 <= lp <= 32, 'HARNESS: number of blocks'
    d = body+ds+hsh(0, m+ds)[:lp]
    return h, [d[13*k:13*k+13] for k in range(nb)]


# ------------------------------------------------------------- Merkle tree
class Merkle:
    """ sixteen keys; types 1: P-256, 3: P-521, 4: alert """

    def __init__(self, curves, oam=None):
        self.leaf = []
        for k in range(16):
            c = curves.get(k, '256')
            if k == oam:
                mi = bytes([4 << 4])+bytes(56)
            else:
                mi = bytes([(1 if c == '256' else 3) << 4 | k])+pnt(k+20, c)
            self.leaf.append(mi)
        lv = [hsh(0, x) for x in self.leaf]
        self.tree = [lv]
        while len(lv) > 1:
            lv = [hsh(0, lv[k]+lv[k+1]) for k in range(0, len(lv), 2)]
            self.tree.append(lv)
        self.root = lv[0]

    def blocks(self, mid, mi=None, itn=None, root=None):
        mi = self.leaf[mid] if mi is None else mi
        if itn is None:
            itn, k = b'', mid
            for j in range(4):
                itn += self.tree[j][k ^ 1]
                k >>= 1
        n = 1+128+len(mi)
        nb = max(13, -(-n//13))
        d = bytes([(nb-6) << 4 | mid])+itn+mi
        d += hsh(0, (root or self.root)+mi)[:nb*13-len(d)]
        return [d[13*k:13*k+13] for k in range(nb)]


# ---------------------------------------------------------------- navigation
def word(mt, prn, iod, var):
    """ one navigation word (128 bits) """
    if mt in (1, 2, 3, 4):
        return u(6, mt)+u(10, iod)+rnd(112, 'w', mt, prn, iod, var)
    if mt == 5:
        return u(6, 5)+rnd(122, 'w', 5, prn, iod, var)
    if mt in (6, 10):
        return u(6, mt)+rnd(122, 'w', mt, var if mt == 6 else (var, 1))
    return u(6, mt)+rnd(122, 'w', mt, prn)


def navbits(w):
    """ authenticated data of words 1 to 5 """
    return w[1][6:126]+w[2][6:126]+w[3][6:128]+w[4][6:126]+w[5][6:73]


def utcbits(w):
    return w[6][6:105]+w[10][86:128]


def page(nav, nma):
    """ even and odd page (30 bytes) """
    return tobytes('00'+nav[:112]+'000000'+'10'+nav[112:]+bits(nma)+'0'*64)


class World:
    """ signals of satellites; nav(prn, n) -> (iod, variant of data) """

    def __init__(self, par, chain, t0, prns, nav, cross=None, utc=0):
        self.par, self.ch, self.t0, self.prns = par, chain, t0, prns
        self.nav, self.utc = nav, utc
        self.cross = cross or prns
        self._m, self._w = {}, {}

    def time(self, n):
        return self.t0+30*n

    def words(self, prn, n):
        if (prn, n) not in self._w:
            self._w[prn, n] = self.words_(prn, n)
        return dict(self._w[prn, n])

    def words_(self, prn, n):
        iod, var = self.nav(prn, n)
        w = {mt: word(mt, prn, iod, var) for mt in range(1, 17)}
        w[0] = u(6, 0)+'10'*61
        for mt in (6, 10):
            w[mt] = word(mt, 0, 0, self.utc(n) if callable(self.utc)
                         else self.utc)
        return w

    def mac(self, key, m):
        m = tobytes(m)
        return bits(hmac.new(key, m, 'sha256').digest() if self.par.mf == 0
                    else cmac(key, m))

    def tagmsg(self, adkd, prnd, prna, n, ctr, nav, nmas=None):
        nmas = self.par.nmas if nmas is None else nmas
        h = '' if ctr == 1 else u(8, prnd)
        return h+u(8, prna)+bits(gst(self.time(n)))+u(8, ctr)+u(2, nmas)+nav

    def tag(self, adkd, prnd, prna, n, ctr, nav, nmas=None, key=None):
        """ tag sent in sub-frame n for data of sub-frame n-1 """
        if key is None:
            key = self.ch.key[self.time(n+(11 if adkd == 12 else 1))]
        return self.mac(key, self.tagmsg(adkd, prnd, prna, n, ctr, nav, nmas)
                        )[:self.par.lt]

    def slots(self, prn, n):
        """ (adkd, prnd) of the tags """
        r = []
        seq = LT[self.par.maclt][0 if self.time(n) % 60 == 0 else 1]
        oth = [p for p in self.cross if p != prn] or [prn]
        for k, s in enumerate(seq):
            o = oth[(n+k) % len(oth)]
            if s == 'FLX':
                a = (0, 12, 0, 0)[(n+k) % 4]
                r.append((a, prn if (n+k) % 3 == 0 else o, True))
            else:
                r.append((int(s[:2]), prn if s[2] == 'S' else o, False))
        return r

    def navof(self, prn, n, adkd):
        w = self.words(prn, n)
        return utcbits(w) if adkd == 4 else navbits(w)

    def mack(self, prn, n, key=None, kt=None):
        """ 480 bits; key: chain for tags """
        x = (prn, n, key, kt)
        if x in self._m:
            return self._m[x]
        p = self.par
        kt = kt or self.ch.key[self.time(n+1)]
        s, flex = '', ''
        sl = self.slots(prn, n)
        for k, (a, d, fl) in enumerate(sl):
            if fl:
                flex += u(8, d)+u(4, a)+u(4, 0)
        seq = self.mac(kt, u(8, prn)+bits(gst(self.time(n)))+flex)[:12]
        for k, (a, d, fl) in enumerate(sl):
            s += self.tag(a, d, prn, n, k+1, self.navof(d, n-1, a))
            s += seq+u(4, 0) if k == 0 else u(8, d)+u(4, a)+u(4, 0)
        s += bits(key or self.ch.key[self.time(n)])
        s += '0'*(480-len(s))
        self._m[x] = s
        return s

    def pages(self, prn, n, hk, mack=None, words=None):
        """ fifteen (nav, nma) """
        m = tobytes(mack or self.mack(prn, n))
        w = words or self.words(prn, n)
        return [page(w[ORDER[k]], hk[k:k+1]+m[4*k:4*k+4]) for k in range(15)]


def hkroot(header, did, bid, block):
    return bytes([header, did << 4 | bid])+block
