""" layouts of the raw navigation messages, written from the signal ICDs """
import math
from cssrlib.gnss import uGNSS, prn2sat

PI = math.pi
P = lambda n: 2.0**-n
DAY, WK = 86400, 604800
BDT0 = 1356*WK+14          # origin of BDT in seconds of GPS time
GST0 = 1024*WK
LEAP = 18
G, R, E, J, B, I, S = (uGNSS.GPS, uGNSS.GLO, uGNSS.GAL, uGNSS.QZS, uGNSS.BDS,
                       uGNSS.IRN, uGNSS.SBS)
URA = [2.0, 2.8, 4.0, 5.7, 8.0, 11.3, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
       1024.0, 2048.0, 4096.0, 8192.0]


def seq(pos, *fields):
    """ consecutive fields 'name kind bits' with scale """
    out = []
    for f in fields:
        n, k, b = f[0].split()
        b = int(b)
        out.append((n, k, [(pos, b)], f[1] if len(f) > 1 else 1))
        pos += b
    return out


def at(name, kind, scale, *chunks):
    return (name, kind, list(chunks), scale)


def width(ch):
    return sum(b for _, b in ch)


class Msg:
    def __init__(self, nbytes):
        self.x = 0
        self.n = nbytes*8

    def put(self, pos, nb, v):
        assert 0 <= v < (1 << nb), f'HARNESS {v} in {nb} bits'
        sh = self.n-pos-nb
        assert sh >= 0, 'HARNESS position'
        self.x = self.x & ~(((1 << nb)-1) << sh) | v << sh

    def field(self, f, v):
        n, k, ch, _ = f
        b = width(ch)
        if k == 's':
            assert -(1 << b-1) <= v < 1 << b-1, 'HARNESS range'
            v &= (1 << b)-1
        elif k == 'm':
            v = -v | 1 << b-1 if v < 0 else v
        for pos, nb in ch:
            b -= nb
            self.put(pos, nb, v >> b & (1 << nb)-1)

    def bytes(self):
        return bytearray(self.x.to_bytes(self.n//8, 'big'))


class Part:
    def __init__(self, pid, nbytes, const, fields, need=True, own=None):
        self.pid, self.nbytes, self.const, self.fields = \
            pid, nbytes, const, fields
        self.need = need
        self.own = own

    def build(self, v):
        w = Msg(self.nbytes)
        for pos, nb, x in self.const:
            w.put(pos, nb, x)
        for f in self.fields:
            w.field(f, v[f[0]])
        return w.bytes()


class Fmt:
    """ message format
        parts: transmitted one after the other, offs: their times in the cycle
        order: True when parts are matched by their transmission time """

    def __init__(self, name, sys, prns, parts, offs, cycle, call, tm, **kw):
        self.name, self.sys, self.prns = name, sys, prns
        self.parts, self.offs, self.cycle = parts, offs, cycle
        self.call, self.tm = call, tm
        self.order = False
        self.times = 'toe toc tot'.split()
        self.A0 = None
        self.unit = 16
        self.noise = lambda f, prn, t: []
        self.__dict__.update(kw)
        self.bypid = {p.pid: p for p in parts}

    def sat(self, prn):
        return prn2sat(self.sys, prn)

    def values(self, prn, k, t, toe=None, toc=None):
        """ parameters of issue k of a satellite, transmitted from t """
        v = {}
        for j, (n, (_, kd, ch, _)) in enumerate(self.fields().items()):
            b = width(ch)
            x = (j*7919+k*104729+prn*1299709+12345)*2654435761
            x = (x ^ x >> 15)*2246822519 & (1 << 64)-1
            x = (x >> 13) % (1 << b)
            if kd in 'sm':
                x = (x >> 1)-(1 << b-2 if b > 1 else 0)
            v[n] = x
        for n in ('iode', 'iodc'):
            if n in v:
                b = width(self.fields()[n][2])
                v[n] = (v[n]//8*8+k*3 % 8) % (1 << b)
        if 'prn' in v:
            v['prn'] = prn-getattr(self, 'prn0', 0)
        if 'sattype' in v:
            v['sattype'] = 3 if prn % 2 else 1
        if toe is None:
            toe = t//7200*7200+7200*(k+1)-7200
        v['_tot'] = self.tm(v, t, toe, toe if toc is None else toc, self.offs)
        v['_t'] = t
        return v

    def fields(self):
        d = {}
        for p in self.parts:
            for f in p.fields:
                d[f[0]] = f
        return d


def wt(t, t0=0):
    return int((t-t0)//WK), (t-t0) % WK


# GPS / QZSS LNAV ------------------------------------------------------------
def L(*rng):
    """ ICD bit ranges (from 1) in words of 30 bits stored in 32 """
    return [(32*((a-1)//30)+2+(a-1) % 30, b-a+1) for a, b in rng]


def lf(name, kind, scale, *rng):
    return (name, kind, L(*rng), scale)


def _how(sid):
    return [L((1, 8))[0]+(0x8b,), L((50, 52))[0]+(sid,)]


_tow = lf('tow%d', 'u', 6, (31, 47))


def lnav_parts():
    def t(k):
        return ('tow%d' % k, 'u', L((31, 47)), 6)
    s1 = Part(1, 40, _how(1), [
        t(1), lf('alert', 'x', 1, (48, 48)), lf('as', 'x', 1, (49, 49)),
        lf('wn', 't', 1, (61, 70)), lf('code', 'u', 1, (71, 72)),
        lf('urai', 'u', 1, (73, 76)), lf('svh', 'u', 1, (77, 82)),
        lf('iodc', 'u', 1, (83, 84), (211, 218)), lf('l2p', 'u', 1, (91, 91)),
        lf('tgd', 's', P(31), (197, 204)), lf('toc', 't', 16, (219, 234)),
        lf('af2', 's', P(55), (241, 248)), lf('af1', 's', P(43), (249, 264)),
        lf('af0', 's', P(31), (271, 292))])
    s2 = Part(2, 40, _how(2), [
        t(2), lf('iode', 'u', 1, (61, 68)), lf('crs', 's', P(5), (69, 84)),
        lf('deln', 's', P(43)*PI, (91, 106)),
        lf('M0', 's', P(31)*PI, (107, 114), (121, 144)),
        lf('cuc', 's', P(29), (151, 166)),
        lf('e', 'u', P(33), (167, 174), (181, 204)),
        lf('cus', 's', P(29), (211, 226)),
        lf('sqrtA', 'u', P(19), (227, 234), (241, 264)),
        lf('toe', 't', 16, (271, 286)), lf('fit', 'u', 1, (287, 287)),
        lf('aodo', 'x', 1, (288, 292))])
    s3 = Part(3, 40, _how(3), [
        t(3), lf('cic', 's', P(29), (61, 76)),
        lf('OMG0', 's', P(31)*PI, (77, 84), (91, 114)),
        lf('cis', 's', P(29), (121, 136)),
        lf('i0', 's', P(31)*PI, (137, 144), (151, 174)),
        lf('crc', 's', P(5), (181, 196)),
        lf('omg', 's', P(31)*PI, (197, 204), (211, 234)),
        lf('OMGd', 's', P(43)*PI, (241, 264)),
        lf('iode3', 'i', 1, (271, 278)),
        lf('idot', 's', P(43)*PI, (279, 292))])
    return [s1, s2, s3]


def lnav_tm(v, t, toe, toc, off):
    w, s = wt(t)
    for k in (1, 2, 3):
        v['tow%d' % k] = (int(s)//6+k) % 100800
    # count refers to the start of the next subframe
    v['wn'] = w % 1024
    v['toe'], v['toc'] = int(toe % WK)//16, int(toc % WK)//16
    v['iode'] = v['iode3'] = v['iodc'] & 0xff
    return t+6


def lnav_noise(f, prn, t):
    out = []
    for sid in (0, 4, 5, 6, 7):
        w = Msg(40)
        w.x = int('5a'*40, 16)
        for c in _how(sid):
            w.put(*c)
        out.append(w.bytes())
    v = f.values(prn, 3, t)
    for p in f.parts:           # damaged preamble
        m = p.build(v)
        m[0] ^= 1
        out.append(m)
    return out


def lnav(name, sys, prns):
    return Fmt(name, sys, prns, lnav_parts(), [0, 6, 12], 30,
               lambda rn, w, s, sat, m: rn.decode_gps_lnav(w, s, sat, m),
               lnav_tm, unit=16, noise=lnav_noise, mode=0)


# GPS / QZSS CNAV ------------------------------------------------------------
def _ch(mt):
    return [(0, 8, 0x8b), (14, 6, mt)]


def cnav_parts(clk):
    def h(k):
        return seq(8, ('prn u 6',)) + seq(20, ('tow%d u 17' % k, 6))
    m10 = Part(10, 38, _ch(10), h(1) + seq(
        37, ('alert f 1',), ('wn t 13',), ('svh u 3',), ('top t 11', 300),
        ('ura_ed s 5',), ('toe t 11', 300), ('dA s 26', P(9)),
        ('Adot s 25', P(21)), ('deln s 17', P(44)*PI),
        ('delnd s 23', P(57)*PI), ('M0 s 33', P(32)*PI), ('e u 33', P(34)),
        ('omg s 33', P(32)*PI), ('isf f 1',), ('phs f 1',)))
    m11 = Part(11, 38, _ch(11), h(2) + seq(
        38, ('toe t 11', 300), ('OMG0 s 33', P(32)*PI), ('i0 s 33', P(32)*PI),
        ('dOMGd s 17', P(44)*PI), ('idot s 15', P(44)*PI), ('cis s 16', P(30)),
        ('cic s 16', P(30)), ('crs s 24', P(8)), ('crc s 24', P(8)),
        ('cus s 21', P(30)), ('cuc s 21', P(30))))
    m30 = Part(clk, 38, _ch(clk), h(3) + seq(
        38, ('top t 11', 300), ('ura0 s 5',), ('ura1 u 3',), ('ura2 u 3',),
        ('toc t 11', 300), ('af0 s 26', P(35)), ('af1 s 20', P(48)),
        ('af2 s 10', P(60)), ('tgd s 13', P(35)), ('isc0 s 13', P(35)),
        ('isc1 s 13', P(35)), ('isc2 s 13', P(35)), ('isc3 s 13', P(35)),
        ('ion x 64',), ('wnop t 8',)))
    return [m10, m11, m30]


def cnav_tm(v, t, toe, toc, off):
    w, s = wt(t)
    for k in (1, 2, 3):
        v['tow%d' % k] = (int(s)//6+2*k) % 100800
    v['wn'] = w % 8192
    v['toe'] = v['toc'] = int(toe % WK)//300
    top = toe-6600
    v['top'], v['wnop'] = int(top % WK)//300, int(top//WK) % 256
    v['_top'] = top
    return t+12


def cnav_noise(f, prn, t):
    out = []
    for mt in (12, 13, 14, 15, 38, 60, 0):
        w = Msg(38)
        w.x = int('5a'*38, 16)
        for c in _ch(mt)+[(8, 6, prn-f.prn0)]:
            w.put(*c)
        out.append(w.bytes())
    # messages of another satellite, damaged preamble
    o = f.values([p for p in f.prns if p != prn][0], 3, t)
    v = f.values(prn, 3, t)
    for p in f.parts:
        out.append(p.build(o))
        m = p.build(v)
        m[0] ^= 2
        out.append(m)
    return out


def cnav(name, sys, prns, A0, prn0, clk):
    return Fmt(name, sys, prns, cnav_parts(clk), [0, 12, 24], 48,
               lambda rn, w, s, sat, m: rn.decode_gps_cnav(w, s, sat, m),
               cnav_tm, unit=300, A0=A0, prn0=prn0, mode=1,
               noise=cnav_noise, OMGd0=-2.6e-9*PI)


def cnav2_parts():
    f = seq(0, ('toi u 9',)) + seq(
        52, ('wn t 13',), ('itow u 8',), ('top t 11', 300), ('svh u 1',),
        ('ura_ed s 5',), ('toe t 11', 300), ('dA s 26', P(9)),
        ('Adot s 25', P(21)), ('deln s 17', P(44)*PI),
        ('delnd s 23', P(57)*PI), ('M0 s 33', P(32)*PI), ('e u 33', P(34)),
        ('omg s 33', P(32)*PI), ('OMG0 s 33', P(32)*PI), ('i0 s 33', P(32)*PI),
        ('dOMGd s 17', P(44)*PI), ('idot s 15', P(44)*PI), ('cis s 16', P(30)),
        ('cic s 16', P(30)), ('crs s 24', P(8)), ('crc s 24', P(8)),
        ('cus s 21', P(30)), ('cuc s 21', P(30)), ('ura0 s 5',),
        ('ura1 u 3',), ('ura2 u 3',), ('af0 s 26', P(35)),
        ('af1 s 20', P(48)), ('af2 s 10', P(60)), ('tgd s 13', P(35)),
        ('isc5 s 13', P(35)), ('isc4 s 13', P(35)), ('isf f 1',),
        ('wnop t 8',)) + seq(
        1252, ('prn u 8',), ('page k 6',), ('utc x 98',), ('ion x 64',),
        ('isc0 s 13', P(35)), ('isc1 s 13', P(35)), ('isc2 s 13', P(35)),
        ('isc3 s 13', P(35)))
    return [Part(1, 225, [], f)]


def cnav2_tm(v, t, toe, toc, off):
    w, s = wt(t)
    v['wn'], v['itow'], v['toi'] = w % 8192, int(s)//7200, int(s) % 7200//18
    v['toe'] = int(toe % WK)//300
    top = toe-6600
    v['top'], v['wnop'] = int(top % WK)//300, int(top//WK) % 256
    v['_top'] = top
    v['page'] = 1
    return t-t % 18


def cnav2_noise(f, prn, t):
    out = []
    v = f.values(prn, 3, t)
    for page in (0, 2, 3, 4, 5, 6, 7, 63):
        v['page'] = page
        out.append(f.parts[0].build(v))
    return out


def cnav2(name, sys, prns, A0, prn0):
    return Fmt(name, sys, prns, cnav2_parts(), [0], 18,
               lambda rn, w, s, sat, m: rn.decode_gps_cnav2(w, s, sat, m),
               cnav2_tm, unit=300, A0=A0, prn0=prn0, mode=2,
               noise=cnav2_noise, OMGd0=-2.6e-9*PI)


# Galileo --------------------------------------------------------------------
def _iw(sid, *fields):
    """ word of 128 bits in the nominal page: 112 + 16 bits """
    out = []
    for n, k, ch, sc in seq(0, ('_id k 6',), *fields)[1:]:
        c2 = []
        for p, b in ch:
            if p < 112:
                x = min(b, 112-p)
                c2.append((2+p, x))
                p, b = p+x, b-x
            if b:
                c2.append((122+p-112, b))
        out.append((n, k, c2, sc))
    return Part(sid, 30, [(2, 6, sid), (120, 1, 1)], out)


def inav_parts():
    return [
        _iw(1, ('iode u 10',), ('toe t 14', 60), ('M0 s 32', P(31)*PI),
            ('e u 32', P(33)), ('sqrtA u 32', P(19))),
        _iw(2, ('iode u 10',), ('OMG0 s 32', P(31)*PI), ('i0 s 32', P(31)*PI),
            ('omg s 32', P(31)*PI), ('idot s 14', P(43)*PI)),
        _iw(3, ('iode u 10',), ('OMGd s 24', P(43)*PI),
            ('deln s 16', P(43)*PI), ('cuc s 16', P(29)), ('cus s 16', P(29)),
            ('crc s 16', P(5)), ('crs s 16', P(5)), ('sisa u 8',)),
        _iw(4, ('iode u 10',), ('prn u 6',), ('cic s 16', P(29)),
            ('cis s 16', P(29)), ('toc t 14', 60), ('af0 s 31', P(34)),
            ('af1 s 21', P(46)), ('af2 s 6', P(59))),
        _iw(5, ('ai0 x 11',), ('ai1 x 11',), ('ai2 x 14',), ('reg x 5',),
            ('tgd s 10', P(32)), ('tgd_b s 10', P(32)), ('hs5 h 2',),
            ('hs1 h 2',), ('dv5 h 1',), ('dv1 h 1',), ('wn t 12',),
            ('tow t 20',))]


def gal_tm(v, t, toe, toc, off):
    t5 = t+off[4] if len(off) > 4 else t
    w, s = wt(t5, GST0)
    v['wn'], v['tow'] = w % 4096, int(s)
    v['toe'], v['toc'] = int(toe % WK)//60, int(toc % WK)//60
    return t5


def inav_noise(f, prn, t):
    out = []
    for sid in (0, 6, 7, 10, 16, 17, 63):
        w = Msg(30)
        w.x = int('15'*30, 16)
        for c in [(0, 2, 0), (2, 6, sid), (120, 1, 1)]:
            w.put(*c)
        out.append(w.bytes())
    v = f.values(prn, 3, t)
    for p in f.parts:           # alert pages
        m = p.build(v)
        m[0] |= 0x40
        out.append(m)
    return out


def inav(name, typ):
    return Fmt(name, E, [1, 36], inav_parts(), [0, 2, 10, 12, 20], 30,
               lambda rn, w, s, sat, m: rn.decode_gal_inav(w, s, sat, typ, m),
               gal_tm, unit=60, noise=inav_noise, mode=0, free=(5,),
               code={0: 1, 2: 4}[typ] | 1 << 9)


def fnav_parts():
    def h(k, *f):
        return Part(k, 31, [(0, 6, k)], seq(6, *f))
    return [
        h(1, ('prn u 6',), ('iode u 10',), ('toc t 14', 60),
          ('af0 s 31', P(34)), ('af1 s 21', P(46)), ('af2 s 6', P(59)),
          ('sisa u 8',), ('ai0 x 11',), ('ai1 x 11',), ('ai2 x 14',),
          ('reg x 5',), ('tgd s 10', P(32)), ('hs5a h 2',), ('wn t 12',),
          ('tow t 20',), ('dv5a h 1',)),
        h(2, ('iode u 10',), ('M0 s 32', P(31)*PI), ('OMGd s 24', P(43)*PI),
          ('e u 32', P(33)), ('sqrtA u 32', P(19)), ('OMG0 s 32', P(31)*PI),
          ('idot s 14', P(43)*PI), ('wn t 12',), ('tow2 x 20',)),
        h(3, ('iode u 10',), ('i0 s 32', P(31)*PI), ('omg s 32', P(31)*PI),
          ('deln s 16', P(43)*PI), ('cuc s 16', P(29)), ('cus s 16', P(29)),
          ('crc s 16', P(5)), ('crs s 16', P(5)), ('toe t 14', 60),
          ('wn t 12',), ('tow3 x 20',)),
        h(4, ('iode u 10',), ('cic s 16', P(29)), ('cis s 16', P(29)))]


def fnav_noise(f, prn, t):
    out = []
    for sid in (0, 5, 6, 7, 63):
        w = Msg(31)
        w.x = int('15'*31, 16)
        w.put(0, 6, sid)
        out.append(w.bytes())
    return out


def fnav():
    return Fmt('GAL F/NAV', E, [1, 36], fnav_parts(), [0, 10, 20, 30], 50,
               lambda rn, w, s, sat, m: rn.decode_gal_fnav(w, s, sat, 1, m),
               gal_tm, unit=60, noise=fnav_noise, mode=1, code=2 | 1 << 8)


# BeiDou ---------------------------------------------------------------------
def _dh(sid):
    return [(0, 11, 0x712), (15, 3, sid)]


def d1_parts():
    def h(k):
        return at('sow%d' % k, 'u', 1, (18, 8), (30, 12))
    s1 = Part(1, 40, _dh(1), [
        h(1)] + seq(42, ('svh u 1',), ('iodc u 5',), ('urai u 4',)) + [
        at('wn', 't', 1, (60, 13)), at('toc', 't', 8, (73, 9), (90, 8)),
        at('tgd', 's', 1e-10, (98, 10)),
        at('tgd_b', 's', 1e-10, (108, 4), (120, 6)),
        at('af2', 's', P(66), (214, 11)),
        at('af0', 's', P(33), (225, 7), (240, 17)),
        at('af1', 's', P(50), (257, 5), (270, 17)),
        at('iode', 'u', 1, (287, 5))])
    s2 = Part(2, 40, _dh(2), [
        h(2), at('deln', 's', P(43)*PI, (42, 10), (60, 6)),
        at('cuc', 's', P(31), (66, 16), (90, 2)),
        at('M0', 's', P(31)*PI, (92, 20), (120, 12)),
        at('e', 'u', P(33), (132, 10), (150, 22)),
        at('cus', 's', P(31), (180, 18)),
        at('crc', 's', P(6), (198, 4), (210, 14)),
        at('crs', 's', P(6), (224, 8), (240, 10)),
        at('sqrtA', 'u', P(19), (250, 12), (270, 20)),
        at('toeh', 't', 1, (290, 2))])
    s3 = Part(3, 40, _dh(3), [
        h(3), at('toel', 't', 1, (42, 10), (60, 5)),
        at('i0', 's', P(31)*PI, (65, 17), (90, 15)),
        at('cic', 's', P(31), (105, 7), (120, 11)),
        at('OMGd', 's', P(43)*PI, (131, 11), (150, 13)),
        at('cis', 's', P(31), (163, 9), (180, 9)),
        at('idot', 's', P(43)*PI, (189, 13), (210, 1)),
        at('OMG0', 's', P(31)*PI, (211, 21), (240, 11)),
        at('omg', 's', P(31)*PI, (251, 11), (270, 21))])
    return [s1, s2, s3]


def d1_tm(v, t, toe, toc, off):
    w, s = wt(t, BDT0)
    for k in (1, 2, 3):
        v['sow%d' % k] = (int(s)+6*(k-1)) % WK
    v['wn'] = w
    x = int((toe-BDT0) % WK)//8
    v['toc'], v['toeh'], v['toel'] = \
        int((toc-BDT0) % WK)//8, x >> 15, x & 0x7fff
    return t


def d1_noise(f, prn, t):
    out = []
    for sid in (0, 4, 5, 6, 7):
        w = Msg(40)
        w.x = int('5a'*40, 16)
        for c in _dh(sid):
            w.put(*c)
        out.append(w.bytes())
    v = f.values(prn, 3, t)
    for p in f.parts:
        m = p.build(v)
        m[0] ^= 1
        out.append(m)
    return out


def d1():
    return Fmt('BDS D1', B, [6, 63], d1_parts(), [0, 6, 12], 30,
               lambda rn, w, s, sat, m: rn.decode_bds_d1(w, s, sat, m),
               d1_tm, unit=8, order=True, noise=d1_noise, mode=0,
               week0='bdt')


def d2_parts():
    def pg(k, *f):
        return Part(k, 20, _dh(1)+[(42, 4, k)],
                    [at('sow%d' % k, 'u', 1, (18, 8), (30, 12))]+list(f))
    out = [
        pg(1, at('svh', 'u', 1, (46, 1)), at('iodc', 'u', 1, (47, 5)),
           at('urai', 'u', 1, (60, 4)), at('wn', 't', 1, (64, 13)),
           at('toc', 't', 8, (77, 5), (90, 12)),
           at('tgd', 's', 1e-10, (102, 10)),
           at('tgd_b', 's', 1e-10, (120, 10))),
        pg(3, at('af0', 's', P(33), (100, 12), (120, 12)),
           at('a1h', 'a', 1, (132, 4))),
        pg(4, at('a1l', 'a', 1, (46, 6), (60, 12)),
           at('af2', 's', P(66), (72, 10), (90, 1)),
           at('iode', 'u', 1, (91, 5)), at('deln', 's', P(43)*PI, (96, 16)),
           at('cuch', 'a', 1, (120, 14))),
        pg(5, at('cucl', 'a', 1, (46, 4)),
           at('M0', 's', P(31)*PI, (50, 2), (60, 22), (90, 8)),
           at('cus', 's', P(31), (98, 14), (120, 4)),
           at('eh', 'a', 1, (124, 10))),
        pg(6, at('el', 'a', 1, (46, 6), (60, 16)),
           at('sqrtA', 'u', P(19), (76, 6), (90, 22), (120, 4)),
           at('cich', 'a', 1, (124, 10))),
        pg(7, at('cicl', 'a', 1, (46, 6), (60, 2)),
           at('cis', 's', P(31), (62, 18)),
           at('toe', 't', 8, (80, 2), (90, 15)),
           at('i0h', 'a', 1, (105, 7), (120, 14))),
        pg(8, at('i0l', 'a', 1, (46, 6), (60, 5)),
           at('crc', 's', P(6), (65, 17), (90, 1)),
           at('crs', 's', P(6), (91, 18)),
           at('OMGdh', 'a', 1, (109, 3), (120, 16))),
        pg(9, at('OMGdl', 'a', 1, (46, 5)),
           at('OMG0', 's', P(31)*PI, (51, 1), (60, 22), (90, 9)),
           at('omgh', 'a', 1, (99, 13), (120, 14))),
        pg(10, at('omgl', 'a', 1, (46, 5)),
           at('idot', 's', P(43)*PI, (51, 1), (60, 13)))]
    return out


# parameters divided over two pages: name, high, low, kind, scale
D2SPLIT = [('af1', 'a1h', 'a1l', 's', P(50)), ('cuc', 'cuch', 'cucl', 's',
           P(31)), ('e', 'eh', 'el', 'u', P(33)),
           ('cic', 'cich', 'cicl', 's', P(31)),
           ('i0', 'i0h', 'i0l', 's', P(31)*PI),
           ('OMGd', 'OMGdh', 'OMGdl', 's', P(43)*PI),
           ('omg', 'omgh', 'omgl', 's', P(31)*PI)]


def d2_tm(v, t, toe, toc, off):
    w, s = wt(t, BDT0)
    for k in range(1, 11):
        v['sow%d' % k] = (int(s)+3*(k-1)) % WK
    v['wn'] = w
    v['toc'], v['toe'] = int((toc-BDT0) % WK)//8, int((toe-BDT0) % WK)//8
    return t


def d2_noise(f, prn, t):
    out = []
    for sid, page in [(1, 0), (1, 2), (1, 11), (1, 15), (2, 1), (2, 6),
                      (3, 3), (4, 10), (5, 5), (0, 1)]:
        w = Msg(20)
        w.x = int('5a'*20, 16)
        for c in _dh(sid)+[(42, 4, page)]:
            w.put(*c)
        out.append(w.bytes())
    v = f.values(prn, 3, t)
    for p in f.parts:
        m = p.build(v)
        m[0] ^= 1
        out.append(m)
    return out


def d2():
    return Fmt('BDS D2', B, [1, 5], d2_parts(),
               [0, 6, 9, 12, 15, 18, 21, 24, 27], 30,
               lambda rn, w, s, sat, m: rn.decode_bds_d2(w, s, sat, m),
               d2_tm, unit=8, order=True, noise=d2_noise, mode=0,
               split=D2SPLIT, week0='bdt')


EPH1 = [('toe t 11', 300), ('sattype k 2',), ('dA s 26', P(9)),
        ('Adot s 25', P(21)), ('deln s 17', P(44)*PI),
        ('delnd s 23', P(57)*PI), ('M0 s 33', P(32)*PI), ('e u 33', P(34)),
        ('omg s 33', P(32)*PI)]
EPH2 = [('OMG0 s 33', P(32)*PI), ('i0 s 33', P(32)*PI), ('OMGd s 19',
        P(44)*PI), ('idot s 15', P(44)*PI), ('cis s 16', P(30)),
        ('cic s 16', P(30)), ('crs s 24', P(8)), ('crc s 24', P(8)),
        ('cus s 21', P(30)), ('cuc s 21', P(30))]
CLK = [('toc t 11', 300), ('af0 s 25', P(34)), ('af1 s 22', P(50)),
       ('af2 s 11', P(66))]


def b1c_parts():
    return [Part(1, 111, [], seq(
        0, ('wn t 13',), ('how t 8',), ('iodc u 10',), ('iode u 8',), *EPH1,
        *EPH2, *CLK, ('tgd_b s 12', P(34)), ('isc0 s 12', P(34)),
        ('tgd s 12', P(34))) + seq(
        608, ('page k 6',), ('svh u 2',), ('integ u 3',), ('sismai x 4',),
        ('oe x 5',), ('tops x 11', 300), ('ocb x 5',), ('oc1 x 3',),
        ('oc2 x 3',)) + seq(872, ('soh t 8',)))]


def b1c_tm(v, t, toe, toc, off):
    w, s = wt(t, BDT0)
    v['wn'], v['how'], v['soh'] = w, int(s)//3600, int(s) % 3600//18
    v['toe'], v['toc'] = int((toe-BDT0) % WK)//300, int((toc-BDT0) % WK)//300
    v['iode'] = v['iodc'] & 0xff
    v['page'] = 1
    return t-s % 3600 % 18


def b1c_noise(f, prn, t):
    out = []
    v = f.values(prn, 3, t)
    v['iode'] ^= 1
    out.append(f.parts[0].build(v))
    return out


def b1c():
    return Fmt('BDS B-CNAV1', B, [19, 63], b1c_parts(), [0], 18,
               lambda rn, w, s, sat, m: rn.decode_bds_b1c(w, s, sat, m),
               b1c_tm, unit=300, noise=b1c_noise, mode=1, A0='bds',
               week0='bdt')


def b2a_parts():
    def h(k):
        return seq(0, ('prn u 6',)) + seq(12, ('sow%d u 18' % k,))
    return [
        Part(10, 36, [(6, 6, 10)], h(1) + seq(
            30, ('wn t 13',), ('ib2a f 3',), ('sismai x 4',), ('ib1c f 3',),
            ('iode u 8',), *EPH1)),
        Part(11, 36, [(6, 6, 11)], h(2) + seq(
            30, ('svh u 2',), ('x1 x 10',), *EPH2)),
        Part(30, 36, [(6, 6, 30)], h(3) + seq(
            30, ('x2 x 12',), *CLK, ('iodc u 10',), ('tgd_b s 12', P(34)),
            ('isc1 s 12', P(34)), ('ion x 74',), ('tgd s 12', P(34)))),
        Part(40, 36, [(6, 6, 40)], h(4) + seq(
            30, ('x3 x 12',), ('oe x 5',), ('tops x 11', 300), ('ocb x 5',),
            ('oc1 x 3',), ('oc2 x 3',)))]


def b2a_tm(v, t, toe, toc, off):
    w, s = wt(t, BDT0)
    for k in (1, 2, 3, 4):
        v['sow%d' % k] = (int(s)//3+k-1) % (WK//3)
    v['wn'] = w
    v['toe'], v['toc'] = int((toe-BDT0) % WK)//300, int((toc-BDT0) % WK)//300
    v['iode'] = v['iodc'] & 0xff
    return t-s % 3


def b2a_noise(f, prn, t):
    out = []
    for mt in (0, 31, 32, 33, 34, 63):
        w = Msg(36)
        w.x = int('5a'*36, 16)
        w.put(0, 6, prn)
        w.put(6, 6, mt)
        out.append(w.bytes())
    o = f.values([p for p in f.prns if p != prn][0], 3, t)
    for p in f.parts:
        out.append(p.build(o))
    return out


def b2a():
    return Fmt('BDS B-CNAV2', B, [19, 63], b2a_parts(), [0, 3, 6, 9], 30,
               lambda rn, w, s, sat, m: rn.decode_bds_b2a(w, s, sat, m),
               b2a_tm, unit=300, order=True, noise=b2a_noise, mode=2,
               A0='bds', free=(40,), week0='bdt')


def b2b_parts():
    o = 12
    return [
        Part(10, 62, [(o, 6, 10)], seq(
            o+6, ('sow1 u 20',), ('x1 x 4',), *EPH1, *EPH2, ('integ u 3',),
            ('sismai x 4',))),
        Part(30, 62, [(o, 6, 30)], seq(
            o+6, ('sow2 u 20',), ('wn t 13',), ('x2 x 4',), *CLK,
            ('tgd s 12', P(34)), ('ion x 74',), ('utc x 97',), ('eop x 138',),
            ('tops x 11', 300), ('ocb x 5',), ('oc1 x 3',), ('oc2 x 3',),
            ('oe x 5',), ('svh u 2',)))]


def b2b_tm(v, t, toe, toc, off):
    w, s = wt(t, BDT0)
    w2, s2 = wt(t+1, BDT0)
    v['sow1'], v['sow2'], v['wn'] = int(s), int(s2), w2
    v['toe'], v['toc'] = int((toe-BDT0) % WK)//300, int((toc-BDT0) % WK)//300
    return t


def b2b_noise(f, prn, t):
    out = []
    for mt in (0, 8, 20, 41, 63):
        w = Msg(62)
        w.x = int('5a'*62, 16)
        w.put(12, 6, mt)
        out.append(w.bytes())
    return out


def b2b():
    return Fmt('BDS B-CNAV3', B, [19, 63], b2b_parts(), [0, 1], 3,
               lambda rn, w, s, sat, m: rn.decode_bds_b2b(w, s, sat, m),
               b2b_tm, unit=300, order=True, noise=b2b_noise, mode=3,
               A0='bds', week0='bdt')


# NavIC ----------------------------------------------------------------------
def irn_parts():
    s1 = Part(0, 40, [(0, 8, 0x8b), (27, 2, 0)], seq(
        8, ('tow1 u 17', 12)) + seq(
        30, ('wn t 10',), ('af0 s 22', P(31)), ('af1 s 16', P(43)),
        ('af2 s 8', P(55)), ('urai u 4',), ('toc t 16', 16),
        ('tgd s 8', P(31)), ('deln s 22', P(41)*PI), ('iode u 8',),
        ('rsv x 10',), ('svh u 2',), ('cuc s 15', P(28)), ('cus s 15', P(28)),
        ('cic s 15', P(28)), ('cis s 15', P(28)), ('crc s 15', P(4)),
        ('crs s 15', P(4)), ('idot s 14', P(43)*PI)))
    s2 = Part(1, 40, [(0, 8, 0x8b), (27, 2, 1)], seq(
        8, ('tow2 u 17', 12)) + seq(
        30, ('M0 s 32', P(31)*PI), ('toe t 16', 16), ('e u 32', P(33)),
        ('sqrtA u 32', P(19)), ('OMG0 s 32', P(31)*PI), ('omg s 32', P(31)*PI),
        ('OMGd s 22', P(41)*PI), ('i0 s 32', P(31)*PI)))
    return [s1, s2]


def irn_tm(v, t, toe, toc, off):
    w, s = wt(t)
    v['tow1'], v['tow2'] = int(s)//12, (int(s)//12+1) % 50400
    v['wn'] = w % 1024
    v['toe'], v['toc'] = int(toe % WK)//16, int(toc % WK)//16
    return t-s % 12


def irn_noise(f, prn, t):
    out = []
    for sid in (2, 3):
        for x in ('5a', '00', 'ff'):
            w = Msg(40)
            w.x = int(x*40, 16)
            w.put(27, 2, sid)
            out.append(w.bytes())
    return out


def irn():
    return Fmt('NavIC LNAV', I, [1, 14], irn_parts(), [0, 12], 48,
               lambda rn, w, s, sat, m: rn.decode_irn_lnav(w, s, sat, m),
               irn_tm, unit=16, order=True, noise=irn_noise, mode=0)


def irnl1_parts():
    return [Part(1, 225, [], seq(0, ('toi u 9',)) + seq(
        52, ('wn t 13',), ('itow u 8',), ('alert x 1',), ('svh u 1',),
        ('iodc u 4',), ('uras s 5',), ('toe t 11', 300), ('dA s 26', P(9)),
        ('Adot s 26', P(21)), ('deln s 19', P(44)*PI),
        ('delnd s 23', P(57)*PI), ('M0 s 33', P(32)*PI), ('e u 33', P(34)),
        ('omg s 33', P(32)*PI), ('OMG0 s 33', P(32)*PI), ('OMGd s 25',
        P(44)*PI), ('i0 s 33', P(32)*PI), ('idot s 15', P(44)*PI),
        ('cis s 16', P(30)), ('cic s 16', P(30)), ('crs s 24', P(8)),
        ('crc s 24', P(8)), ('cus s 21', P(30)), ('cuc s 21', P(30)),
        ('af0 s 29', P(35)), ('af1 s 22', P(50)), ('af2 s 15', P(66)),
        ('tgd s 12', P(35)), ('isc5 s 12', P(35)), ('isc4 s 12', P(35)),
        ('rsf x 1',), ('rsv x 3',), ('prn u 6',)) + seq(
        1252, ('msgid x 6',), ('inv x 1',), ('data x 243',)))]


def irnl1_tm(v, t, toe, toc, off):
    w, s = wt(t, GST0)
    v['wn'], v['itow'], v['toi'] = w, int(s)//7200, int(s) % 7200//18
    v['toe'] = int(toe % WK)//300
    return t-t % 18


def irnl1_noise(f, prn, t):
    o = f.values([p for p in f.prns if p != prn][0], 3, t)
    return [f.parts[0].build(o)]


def irnl1():
    return Fmt('NavIC L1NAV', I, [1, 14], irnl1_parts(), [0], 18,
               lambda rn, w, s, sat, m: rn.decode_irn_l1nav(w, s, sat, m),
               irnl1_tm, unit=300, noise=irnl1_noise, mode=2, A0=42164200.0)


# GLONASS --------------------------------------------------------------------
def glo_parts():
    def st(k, *f):
        return Part(k, 12, [(1, 4, k)], seq(5, *f))

    def xyz(c):
        return [('v'+c+' m 24', P(20)*1e3), ('a'+c+' m 5', P(30)*1e3),
                ('p'+c+' m 27', P(11)*1e3)]
    return [
        st(1, ('r1 x 2',), ('P1 g 2',), ('tkh t 5',), ('tkm t 6',),
           ('tks t 1',), *xyz('x')),
        st(2, ('svh u 3',), ('P2 g 1',), ('tb t 7',), ('r2 x 5',), *xyz('y')),
        st(3, ('P3 g 1',), ('gamn m 11', P(40)), ('r3 x 1',), ('P g 2',),
           ('ln x 1',), *xyz('z')),
        st(4, ('taun m 22', P(30)), ('dtaun m 5', P(30)), ('age u 5',),
           ('r4 x 14',), ('P4 g 1',), ('sva u 4',), ('r5 x 3',),
           ('NT x 11',), ('n x 5',), ('M g 2',)),
        st(5, ('NA x 11',), ('tau_c m 32', P(31)), ('r6 x 1',), ('N4 x 5',),
           ('tau_gps m 22', P(30)), ('ln5 x 1',))]


def glo_tm(v, t, toe, toc, off):
    utc = (t-LEAP+10800) % DAY
    v['tkh'], v['tkm'], v['tks'] = int(utc)//3600, int(utc)//60 % 60, \
        int(utc) % 60//30
    v['tb'] = int((toe-LEAP+10800) % DAY)//900
    return t


def glo_noise(f, prn, t):
    out = []
    for sid in (0, 6, 7, 14, 15):
        w = Msg(12)
        w.x = int('5a'*12, 16)
        w.put(1, 4, sid)
        out.append(w.bytes())
    return out


def glo():
    return Fmt('GLO FDMA', R, [1, 24], glo_parts(), [0, 2, 4, 6, 8], 30,
               lambda rn, w, s, sat, m: rn.decode_glo_fdma(w, s, sat, m, -3),
               glo_tm, unit=900, order=True, noise=glo_noise, mode=0,
               free=(5,), times=['toe', 'tof'], opt=(5,))


def l3oc_parts():
    def st(k, *f):
        return Part(k, 40, [(0, 20, 0x494e), (20, 6, k)], seq(
            26, ('ts%d u 15' % (k-9), 3), ('prn x 6',), ('svh u 1',),
            ('status u 1',), ('P1 x 4',), ('flag u 1',), ('KP x 2',),
            ('A x 1',), *f))
    return [
        st(10, ('N4 t 5',), ('Nt t 11',), ('sattype u 3',), ('PS x 6',),
           ('tb t 10',), ('aode u 8', 0.25), ('aodc u 8', 0.25), ('Re f 2',),
           ('Rt f 2',), ('fe m 5',), ('ft m 5',), ('taun m 32', P(38)),
           ('gamn m 19', P(48)), ('beta m 15', P(57)), ('tau_c m 40', P(31)),
           ('dtau_c m 13', P(49))),
        st(11, ('px m 40', P(20)*1e3), ('py m 40', P(20)*1e3),
           ('pz m 40', P(20)*1e3), ('vx m 35', P(30)*1e3),
           ('vy m 35', P(30)*1e3)),
        st(12, ('vz m 35', P(30)*1e3), ('ax m 15', P(39)*1e3),
           ('ay m 15', P(39)*1e3), ('az m 15', P(39)*1e3), ('dx m 13', P(10)),
           ('dy m 13', P(10)), ('dz m 13', P(10)), ('isc2 m 18', P(38)),
           ('tau_gps m 30', P(38)))]


def l3oc_tm(v, t, toe, toc, off):
    # Moscow time of day
    m = t-LEAP+10800
    for k in (1, 2, 3):
        v['ts%d' % k] = (int(m % DAY)//3+k-1) % 28800
    # day 0 of GPS time is 1980-01-06; 1996-01-01 is day 5839
    day = int(m//DAY)-5839
    v['N4'], v['Nt'] = day//1461+1, day % 1461+1
    v['tb'] = int((toe-LEAP+10800) % DAY)//90
    return t-m % 3


def l3oc_noise(f, prn, t):
    out = []
    for sid in (0, 1, 13, 20, 63):
        w = Msg(40)
        w.x = int('5a'*40, 16)
        w.put(0, 20, 0x494e)
        w.put(20, 6, sid)
        out.append(w.bytes())
    v = f.values(prn, 3, t)
    for p in f.parts:
        m = p.build(v)
        m[0] ^= 1
        out.append(m)
    return out


def l3oc():
    return Fmt('GLO L3OC', R, [1, 24], l3oc_parts(), [0, 3, 6], 15,
               lambda rn, w, s, sat, m: rn.decode_glo_l3oc(w, s, sat, m),
               l3oc_tm, unit=90, order=True, noise=l3oc_noise, mode=3,
               times=['toe', 'tof'])


def l1oc():
    def st(k, *f):
        return Part(k, 32, [(0, 12, 0x5f1), (12, 6, k)], seq(
            18, ('prn x 6',), ('svh u 1',), ('status u 1',), ('P1 x 4',),
            ('flag u 1',), ('KP x 2',), ('A x 1',),
            ('ts%d u 16' % (k-9), 2), *f))
    ps = l3oc_parts()
    parts = []
    for p in ps:
        fs = []
        for n, k, ch, sc in p.fields[8:]:
            # second velocity component does not fit: not judged
            b = 29 if n == 'vy' else width(ch)
            fs.append((('%s %s %d' % ('isc1' if n == 'isc2' else n,
                                      'x' if n == 'vy' else k, b)), sc))
        parts.append(st(p.pid, *fs))

    def tm(v, t, toe, toc, off):
        l3oc_tm(v, t, toe, toc, off)
        m = t-LEAP+10800
        for k in (1, 2, 3):
            v['ts%d' % k] = (int(m % DAY)//2+k-1) % 43200
        return t-m % 2

    def noise(f, prn, t):
        out = []
        for sid in (0, 1, 13, 16, 20, 25, 63):
            w = Msg(32)
            w.x = int('5a'*32, 16)
            w.put(0, 12, 0x5f1)
            w.put(12, 6, sid)
            out.append(w.bytes())
        v = f.values(prn, 3, t)
        for p in f.parts:
            m = p.build(v)
            m[0] ^= 1
            out.append(m)
        return out
    return Fmt('GLO L1OC', R, [1, 24], parts, [0, 2, 4], 30,
               lambda rn, w, s, sat, m: rn.decode_glo_l1oc(w, s, sat, m),
               tm, unit=90, order=True, noise=noise, mode=1,
               times=['toe', 'tof'])


def sbs():
    p = Part(9, 32, [(0, 8, 0x53), (8, 6, 9)], seq(
        14, ('iodn u 8',), ('t0 t 13', 16), ('ura u 4',), ('px s 30', 0.08),
        ('py s 30', 0.08), ('pz s 25', 0.4), ('vx s 17', 0.000625),
        ('vy s 17', 0.000625), ('vz s 18', 0.004), ('ax s 10', 0.0000125),
        ('ay s 10', 0.0000125), ('az s 10', 0.0000625), ('af0 s 12', P(31)),
        ('af1 s 8', P(40))))

    def tm(v, t, toe, toc, off):
        v['t0'] = int(toe % DAY)//16
        return t

    def noise(f, prn, t):
        out = []
        v = f.values(prn, 3, t)
        m = f.parts[0].build(v)
        m[0] ^= 1
        out.append(m)
        for mt in (0, 1, 8, 10, 17, 62, 63):
            w = Msg(32)
            w.put(0, 8, 0xc6)
            w.put(8, 6, mt)
            out.append(w.bytes())
        return out
    return Fmt('SBAS MT9', S, [120, 158], [p], [0], 60,
               lambda rn, w, s, sat, m: rn.decode_sbs_l1(w, s, sat, m),
               tm, unit=16, noise=noise, mode=0, times=['t0', 'tof'])


def all_formats():
    return [lnav('GPS LNAV', G, [1, 32]), lnav('QZS LNAV', J, [193, 202]),
            cnav('GPS CNAV', G, [1, 32], 26559710.0, 0, 30),
            cnav('QZS CNAV', J, [193, 202], 42164200.0, 192, 30),
            cnav('QZS CNAV MT61', J, [193, 202], 42164200.0, 192, 61),
            cnav2('GPS CNAV2', G, [1, 32], 26559710.0, 0),
            cnav2('QZS CNAV2', J, [193, 202], 42164200.0, 0),
            inav('GAL I/NAV E1', 0), inav('GAL I/NAV E5b', 2), fnav(),
            d1(), d2(), b1c(), b2a(), b2b(), irn(), irnl1(), glo(), l3oc(), l1oc(),
            sbs()]
