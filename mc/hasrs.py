""" independent HPVRS encoder: RS(255,32) over GF(256), HAS SIS ICD annex """
EXP = [0]*512
LOG = [0]*256
_x = 1
for _i in range(255):
    EXP[_i] = _x
    LOG[_x] = _i
    _x <<= 1
    if _x & 256:
        _x ^= 0x11d
for _i in range(255, 512):
    EXP[_i] = EXP[_i-255]


def mul(a, b):
    return EXP[LOG[a]+LOG[b]] if a and b else 0


def _genpoly(n):
    g = [1]
    for i in range(1, n+1):
        r = [0]*(len(g)+1)
        for j, c in enumerate(g):
            r[j] ^= c
            r[j+1] ^= mul(c, EXP[i % 255])
        g = r
    return g


def _matrix():
    n = 223
    g = _genpoly(n)
    M = []
    for c in range(32):     # codeword of the c-th unit message
        buf = [0]*255
        buf[c] = 1
        for k in range(32):
            q = buf[k]
            if q:
                for j in range(1, n+1):
                    buf[k+j] ^= mul(q, g[j])
        M.append([int(i == c) for i in range(32)]+buf[32:])
    return [[M[c][r] for c in range(32)] for r in range(255)]


G = _matrix()               # 255 x 32


def page(msg, pid):
    """ coded page `pid` (1..255) of a message given as list of 53-byte pages """
    row = G[pid-1]
    out = [0]*53
    for k, p in enumerate(msg):
        c = row[k]
        if c:
            for j in range(53):
                if p[j]:
                    out[j] ^= EXP[LOG[c]+LOG[p[j]]]
    return bytes(out)
