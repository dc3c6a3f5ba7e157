""" QZNMA signal generator """
import functools
from mc.bits import tobytes
from mc.osnmasim import u, bits, rnd, sign

LNAV, CNAV, CNAV2, FNAV, INAV = 1, 2, 3, 4, 5
WS = 604800


def put(s, i, v):
    assert 0 <= i and i+len(v) <= len(s), 'HARNESS: field'
    return s[:i]+v+s[i+len(v):]


def zero(s, *rg):
    for a, b in rg:
        s = put(s, a, '0'*(b-a))
    return s


# ------------------------------------------------------------------ messages
@functools.lru_cache(None)
def lnav(sid, tow, iode, var, svid=None, body=None):
    """ subframe of 300 bits; tow: time of the field in s """
    s = '10001011'+rnd(292, 'lnav', sid, var)
    s = put(s, 30, u(17, tow//6))
    s = put(s, 49, u(3, sid))
    if sid == 1:
        s = put(s, 60+22, u(2, rndiodc(var)))
        s = put(s, 210, u(8, iode))
    elif sid == 2:
        s = put(s, 60, u(8, iode))
    elif sid == 3:
        s = put(s, 270, u(8, iode))
    else:
        s = put(s, 62, u(6, 1 if svid is None else svid))
        if body is not None:    # sequence number and 180 bits
            s = put(s, 60, '10')
            s = put(s, 68, body[:16])
            for k in range(6):
                s = put(s, 90+30*k, body[16+24*k:40+24*k])
            s = put(s, 270, body[160:])
    return s


def rndiodc(var):
    return int(rnd(2, 'iodc', var), 2)


def lnavraw(s):
    """ ten words with two leading bits """
    return tobytes(''.join('00'+s[30*k:30*k+30] for k in range(10)))


@functools.lru_cache(None)
def cnav(mt, tow, toe, var, prn=3, body=None, toc=None):
    s = '10001011'+rnd(292, 'cnav', mt, var)
    s = put(s, 8, u(6, prn)+u(6, mt)+u(17, tow//6))
    if mt == 10:
        s = put(s, 70, u(11, toe))
    elif mt == 11:
        s = put(s, 38, u(11, toe))
    elif mt == 60:
        s = put(s, 38, body)
    else:
        s = put(s, 60, u(11, toe))
    return s


def cnavraw(s):
    return tobytes(s+'0000')


@functools.lru_cache(None)
def cnav2(tow, toe, var, page=1, body=None, prn=195):
    s = rnd(1800, 'cnav2', var)
    s = put(s, 0, u(9, tow % 7200//18))
    s = put(s, 52+13, u(8, tow//7200))
    s = put(s, 52+38, u(11, toe))
    s = put(s, 1252, u(8, prn)+u(6, page))
    if body is not None:
        s = put(s, 1266, body)
    return s


@functools.lru_cache(None)
def fnav(pt, tow, iod, var):
    s = rnd(244, 'fnav', pt, var)
    s = put(s, 0, u(6, pt))
    s = put(s, 12 if pt == 1 else 6, u(10, iod))
    return put(s, {1: 167, 2: 194, 3: 186, 4: 189}[pt], u(20, tow))


@functools.lru_cache(None)
def inav(wt, tow, iod, var):
    s = u(6, wt)+rnd(122, 'inav', wt, var)
    if wt == 5:
        return put(s, 85, u(20, tow))
    return put(s, 6, u(10, iod))


def inavraw(s):
    return tobytes('00'+s[:112]+'000000'+'10'+s[112:]+rnd(102, 'crc', s))


# ------------------------------------------------------- authenticated bits
def m_lnav(sf, gps, rtow=None):
    """ sf: three subframes of 300 bits """
    r = ''
    for k, s in enumerate(sf):
        if gps:
            s = zero(s, (8, 22), (52, 54))
            s = put(s, 30, u(17, (rtow+k) % 100800))
        else:
            s = zero(s, (22, 24), (47, 54))
        s = zero(s, *[(30*j+24, 30*j+30) for j in range(10)])
        s = zero(s, (270+(17 if gps and k == 1 else 22), 300))
        r += s
    return r


def m_cnav(ms, gps, rtow=None):
    r = ''
    for k, s in enumerate(ms):
        if gps:
            s = zero(s, (14, 20))
            s = put(s, 20, u(17, (rtow+k) % 100800))
        else:
            s = zero(s, (8, 14), (37, 38))
            if k == 0:
                s = zero(s, (271, 272))
        s = zero(s, (127 if k == 2 else 276, 300))
        r += s
    return r


def m_cnav2(s):
    return s[:9]+zero(s[52:628], (32, 33), (565, 566))+'0'*24


def m_fnav(ps, rtow):
    r = ''
    for k, s in enumerate(ps):
        s = zero(s, (214, 238))
        r += put(s, (167, 194, 186, 189)[k], u(20, (rtow+10*k) % WS))
    return r


def m_inav(ws, rtow):
    return put(''.join(ws), 512+85, u(20, rtow))


def pad(s, n):
    return tobytes(s+'0'*(8*n-len(s)))


# ----------------------------------------------------------------- signature
def rds_qzs(mode, m, keyid, key, salt):
    """ three parts of the signature message """
    n = {LNAV: 116, CNAV: 137, CNAV2: 100}[mode]
    ds = sign(key, pad(u(8, keyid)+m+u(16, salt), n))
    b = u(8, keyid)+bits(ds)+u(16, salt)
    k = {LNAV: 180, CNAV: 236, CNAV2: 234}[mode]
    b += '0'*(3*k-len(b))
    return [u(2, j+1)+b[j*k:j*k+k] for j in range(3)]


def rds_gnss(mt, m, svid, rtow, iode1, iode2, iodc, keyid, key, salt, nid=0):
    h = u(4, nid)+u(20, rtow)+u(8, svid)+u(4, mt)+u(11, iode1) + \
        u(11, iode2)+u(11, iodc)+u(8, keyid)
    s = h+m+u(16, salt)
    n = {LNAV: 125, CNAV: 125, CNAV2: 89, FNAV: 134, INAV: 92}[mt]
    return h+bits(sign(key, pad(s, n)))+u(16, salt)


def l6(a, b=None, vid=3):
    s = bits(bytes.fromhex('1acffc1d'))+u(8, 199)+u(8, vid << 5 | 1)+'0'
    s += a+(b or '0'*605)
    return pad(s, 250)


class Set:
    """ signature and messages of one QZSS satellite; tow: last signature
    page """

    def __init__(self, mode, tow, iode=17, var=0, keyid=1, key=None, salt=7,
                 sig=None):
        self.mode, self.iode, self.tow = mode, iode, tow
        key = keyid if key is None else key
        W = WS
        if mode == LNAV:
            nav = [lnav(k+1, (tow+6*k+6) % W, iode, var) for k in range(3)]
            self.mnav = m_lnav(nav, False)
        elif mode == CNAV:
            nav = [cnav(m, (tow+6*k+6) % W, iode, var)
                   for k, m in enumerate((10, 11, 30))]
            self.mnav = m_cnav(nav, False)
        else:
            nav = [cnav2((tow+18) % W, iode, var)]
            self.mnav = m_cnav2(nav[0])
        self.nav = nav
        self.body = rds_qzs(mode, (sig or self).mnav, keyid, key, salt)
        if mode == LNAV:
            sg = [lnav(s, (tow-d) % W, 0, (var, j), 60, b) for j, (s, d, b) in
                  enumerate(zip((4, 5, 5), (36, 30, 0), self.body))]
        elif mode == CNAV:
            sg = [cnav(60, (tow-d) % W, 0, (var, j), 3, b) for j, (d, b) in
                  enumerate(zip((12, 6, 0), self.body))]
        else:
            sg = [cnav2((tow-d) % W, iode, (var, j), 60, b) for j, (d, b) in
                  enumerate(zip((36, 18, 0), self.body))]
        self.pages = sg+nav     # bit strings

    def covered(self, k):
        """ bits of page k which are authenticated """
        s = self.pages[k]
        r = []
        for b in range(len(s)):
            if k < 3:
                lim = 536-(len(self.body[0])-2)*k
                q = {LNAV: 68, CNAV: 38, CNAV2: 1266}[self.mode]
                if self.mode == LNAV:
                    if b < 70:
                        continue
                    if b < 84:
                        i = b-70
                    elif b < 90 or b % 30 >= 24:
                        continue
                    else:
                        i = 14+(b-90)//30*24+b % 30
                        if i >= 180:
                            continue
                else:
                    i = b-q-2
                    if not 0 <= i < len(self.body[0])-2:
                        continue
                if i < lim:
                    r.append(b)
                continue
            t = s[:b]+str(1-int(s[b]))+s[b+1:]
            n = list(self.nav)
            n[k-3] = t
            m = m_lnav(n, False) if self.mode == LNAV else m_cnav(n, False) \
                if self.mode == CNAV else m_cnav2(t)
            if m != self.mnav:
                r.append(b)
        return r


def raw(mode, s):
    return lnavraw(s) if mode == LNAV else cnavraw(s) if mode == CNAV else \
        pad(s, 225)
