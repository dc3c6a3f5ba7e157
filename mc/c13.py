""" C13 RTCM3 framing """
import itertools
import bitstruct as bs
from cssrlib.rtcm import rtcm, rtcme
from mc.core import expect

# CRC-24Q (Qualcomm), polynomial 0x1864CFB, table driven
TAB = []
for _i in range(256):
    _c = _i << 16
    for _ in range(8):
        _c = ((_c << 1) ^ 0x1864CFB) if _c & 0x800000 else _c << 1
    TAB.append(_c & 0xffffff)


def crc(b):
    c = 0
    for x in b:
        c = ((c << 8) & 0xffffff) ^ TAB[(c >> 16) ^ x]
    return c


def frame(payload, rsv=0):
    b = bytes([0xd3, (rsv << 2) | (len(payload) >> 8), len(payload) & 255])
    b += bytes(payload)
    return b+crc(b).to_bytes(3, 'big')


def content(n, kind):
    if kind == 0:
        return bytes(n)
    if kind == 1:
        return b'\xff'*n
    if kind == 2:       # preambles inside
        return (b'\xd3\x00\x13'*n)[:n]
    x = 12345+kind*777+n
    out = bytearray()
    for _ in range(n):
        x = (x*1103515245+12345) & 0x7fffffff
        out.append(x >> 16 & 255)
    return bytes(out)


_D = []


def dec():
    if not _D:
        d = rtcm()
        d.monlevel = 0
        _D.append(d)
    return _D[0]


def accepts(buf, k=0, maxlen=None):
    """ does the receiver accept the frame at position k of the buffer """
    d = dec()
    if not d.sync(buf, k):
        return False
    return bool(d.checksum(buf, k) if maxlen is None
                else d.checksum(buf, k, maxlen))


def length(buf, k=0):
    d = dec()
    expect(d.sync(buf, k), 'preamble not recognised')
    expect(d.checksum(buf, k), 'intact frame rejected')
    return d.len, d.dlen


def chk_len(n, kind, rsv):
    f = frame(content(n, kind), rsv)
    for typ in (bytes, bytearray):
        expect(length(typ(f)) == (n, n+6),
               lambda: f'length {dec().len} {dec().dlen}')
    # a fresh receiver, as for the first frame of a stream
    d = rtcm()
    d.monlevel = 0
    expect(d.sync(f, 0) and d.checksum(f, 0, len(f)) and
           (d.len, d.dlen) == (n, n+6), 'fresh receiver rejects')


def chk_enc(n, kind, k, tail):
    """ frame produced by the encoder at offset k of its buffer """
    e = rtcme()
    p = content(n, kind)
    msg = bytearray(k)+bytearray(b'\xa5'*(n+6))+bytearray(tail)
    msg[k+3:k+3+n] = p
    e.set_sync(msg, k)
    e.set_len(msg, k, n)
    if (n+k) % 2:
        e.set_checksum(msg, k)
    else:
        e.set_checksum(msg, k, len(msg))
    ref = bytearray(k)+bytearray(frame(p))+bytearray(tail)
    expect(len(msg) == len(ref), 'encoder changes the buffer size')
    expect(msg == ref, lambda: 'encoded frame differs at byte '
           f'{[i for i in range(len(ref)) if msg[i] != ref[i]][:4]}')
    expect(length(msg, k) == (n, n+6), 'own frame')
    expect(accepts(msg, k, len(msg)), 'own frame with the buffer length')
    expect(accepts(msg, k, len(msg)-5), 'own frame with the limit of the '
           'tutorials')
    expect(accepts(bytes(msg), k), 'bytes')


def chk_off(n, kind, k):
    f = frame(content(n, kind))
    for fill in (b'\x00', b'\xd3', b'\xff', b'\x5a'):
        for tail in (0, 1, 5):
            buf = fill*k+f+fill*tail
            expect(length(buf, k) == (n, n+6), 'position matters')
            expect(accepts(buf, k, len(buf)), 'position, buffer length')


def chk_stream(ns, gap):
    """ frames one after the other are all found by scanning """
    fr = [frame(content(n, 3+j)) for j, n in enumerate(ns)]
    buf = bytearray(b'\x11'*gap)
    pos = []
    for f in fr:
        pos.append(len(buf))
        buf += f+b'\x22'*gap
    d = rtcm()
    d.monlevel = 0
    k = 0
    got = []
    while k < len(buf):
        if d.sync(buf, k) and d.checksum(buf, k, len(buf)):
            got.append((k, d.len))
            k += d.dlen
        else:
            k += 1
    expect(got == list(zip(pos, ns)), lambda: f'{got}')


def chk_trunc(n, kind, k):
    """ no proper prefix of a frame is accepted """
    f = frame(content(n, kind))
    buf = bytes(k)+f
    for m in range(k+1, len(buf)):
        expect(not accepts(buf[:m], k), lambda: f'prefix of {m-k} bytes')
        expect(not accepts(buf[:m], k, m), lambda: f'prefix of {m-k} bytes')
        expect(not accepts(buf[:m], k, max(m-5, 1)),
               lambda: f'prefix of {m-k} bytes')


def flip(f, bits):
    g = bytearray(f)
    for b in bits:
        g[b >> 3] ^= 0x80 >> (b & 7)
    return g


def must_reject(f, g, what):
    if g == f:
        return
    # a damaged length field designates another frame: the receiver sees the
    # buffer behind it; the model says what that frame is worth
    n = (g[1] & 3) << 8 | g[2]
    if g[0] == 0xd3 and len(g) >= n+6 and crc(g[:n+6]) == 0:
        return
    expect(not accepts(g), what)
    expect(not accepts(g, 0, len(g)), what)


def chk_1bit(n, kind):
    f = frame(content(n, kind))
    pad = content(1100, 7)      # following data in the buffer
    for b in range(8*len(f)):
        must_reject(f, flip(f, [b]), f'1-bit error at {b} accepted')
        if b % 16 == 0 and n > 2:       # receiver with default settings
            d = rtcm()
            g = flip(f, [b | 5])
            m = (g[1] & 3) << 8 | g[2]
            if m == n:
                expect(not (d.sync(g, 0) and d.checksum(g, 0, len(g))),
                       f'1-bit error at {b | 5}, default settings')
        if 8 <= b < 24:
            must_reject(f, flip(f+pad, [b]), f'1-bit error at {b}')


def chk_2bit(n, kind, b1):
    f = frame(content(n, kind))
    for b2 in range(b1+1, 8*len(f)):
        must_reject(f, flip(f, [b1, b2]), f'2-bit error {b1},{b2} accepted')


def chk_syn(n, kind, part):
    """
    long frames: the syndromes the implementation works with.  All pairs are
    covered by the model (its single-bit syndromes are pairwise different);
    the receiver is bound to it on every single-bit error and on a comb of
    pairs
    """
    f = frame(content(n, kind))
    nb = 8*len(f)
    for b in range(part, nb, 16):
        must_reject(f, flip(f, [b]), f'1-bit error at {b} accepted')
    for b in range(part, nb, 64):
        for d in (1, 2, 7, 8, 23, 24, 25, 31, 32, 33, 127, 128, 1024, 2047,
                  2048, 4095, 4096, 8191):
            if b+d < nb:
                must_reject(f, flip(f, [b, b+d]), f'2-bit error {b},{b+d}')


def inner(w, full):
    """ inner patterns of a burst of length w (both ends are errors) """
    n = w-2
    if n <= 0:
        return [0]
    if n <= full:
        return range(1 << n)
    s = {0, (1 << n)-1, int('10'*n, 2) & ((1 << n)-1),
         int('01'*n, 2) & ((1 << n)-1)}
    for j in range(n):
        s |= {1 << j, ((1 << n)-1) ^ (1 << j), (1 << j)-1}
    # the generator itself and its neighbours
    g = 0x1864CFB >> 1 & ((1 << n)-1)
    s |= {g, g ^ 1, (0x1864CFB >> 2) & ((1 << n)-1)}
    return sorted(s)


def chk_burst(n, kind, pos, full):
    f = frame(content(n, kind))
    nb = 8*len(f)
    x = int.from_bytes(f, 'big')
    for w in range(2, 25):
        if pos+w > nb:
            break
        for p in inner(w, full):
            pat = (1 << (w-1)) | (p << 1) | 1
            g = (x ^ (pat << (nb-pos-w))).to_bytes(len(f), 'big')
            must_reject(f, g, f'burst {pat:b} at {pos} accepted')


def run(ck):
    T = ck.thorough
    lens = range(1024)
    ck.bound(payload_lengths='0..1023 (all)', contents=4,
             offsets='0..%d' % (600 if T else 80),
             two_bit='all pairs of frames of payload %s' %
             ('0..16,40' if T else '0,1,5,6,8,19'),
             burst='all positions, all patterns up to length %d, selected '
             'ones to 24' % (11 if T else 8))
    # the model can tell all pairs of errors of the longest frame apart
    syn = set()
    s = 1
    for _ in range(8*1029):
        syn.add(s)
        s <<= 1
        if s & 0x1000000:
            s ^= 0x1864CFB
    assert len(syn) == 8*1029 and 0 not in syn, 'HARNESS generator'

    def g_len(c, n):
        for kind in range(4):
            c.case('len', (n, kind), chk_len, n, kind, 0)
        c.case('len', (n, 'rsv'), chk_len, n, 3, 1+n % 63)
        for k in (0, 1, 7, 300):
            c.case('enc', (n, k), chk_enc, n, n % 4, k, b'')
        c.case('enc', (n, 't'), chk_enc, n, 3, 2, b'\xd3\x00\x01')
    ck.pmap('len', lens, g_len)

    def g_off(c, k):
        for n in (0, 1, 5, 6, 7, 40, 1023):
            c.case('offset', (n, k), chk_off, n, 3, k)
    ck.pmap('offset', range(601 if T else 81), g_off)

    for ns in itertools.product((0, 1, 5, 6, 30, 1023), repeat=3):
        for gap in (0, 1, 5):
            ck.case('stream', (ns, gap), chk_stream, ns, gap)

    def g_tr(c, it):
        n, kind = it
        for k in (0, 3):
            c.case('truncated', (n, kind, k), chk_trunc, n, kind, k)
    ck.pmap('truncated', [(n, kind) for n in
                          (0, 1, 2, 5, 6, 7, 19, 62, 250, 1023)
                          for kind in range(4)], g_tr)

    def g_1(c, it):
        c.case('1bit', it, chk_1bit, *it)
    ck.pmap('1bit', [(n, kind) for n in
                     list(range(0, 40))+[63, 64, 127, 255] for kind in
                     (0, 3)], g_1)

    n2 = list(range(17))+[40] if T else [0, 1, 5, 6, 8, 19]

    def g_2(c, it):
        n, b = it
        c.case('2bit', it, chk_2bit, n, 4 if n % 2 else 1, b)
    ck.pmap('2bit', [(n, b) for n in n2 for b in range(8*(n+6))], g_2)

    def g_s(c, it):
        n, p = it
        c.case('long', it, chk_syn, n, 5, p)
    ck.pmap('long', [(n, p) for n in ((1023, 512, 300) if T else (1023, 300))
                     for p in range(16)], g_s)

    full = 9 if T else 6

    def g_b(c, it):
        n, pos = it
        c.case('burst', it, chk_burst, n, 5, pos, full)
    ck.pmap('burst', [(n, pos) for n in ((8, 30, 3) if T else (8, 3))
                      for pos in range(8*(n+6)-1)], g_b)
