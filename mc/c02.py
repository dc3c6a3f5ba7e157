""" C02 satellite numbering and signal naming """
import itertools
from cssrlib import gnss as g
from cssrlib.gnss import uGNSS, uTYP, uSIG, rSigRnx
from mc.core import expect

# constellation letter, first PRN, last PRN, number printed = PRN - offset
SYS = {'G': (uGNSS.GPS, 1, 32, 0), 'E': (uGNSS.GAL, 1, 36, 0),
       'J': (uGNSS.QZS, 193, 209, 192), 'C': (uGNSS.BDS, 1, 63, 0),
       'R': (uGNSS.GLO, 1, 32, 0), 'S': (uGNSS.SBS, 120, 158, 100),
       'I': (uGNSS.IRN, 1, 14, 0)}
NAMES = {'G': 'GPS', 'E': 'GALILEO', 'J': 'QZSS', 'C': 'BEIDOU',
         'R': 'GLONASS', 'S': 'SBAS', 'I': 'IRNSS'}

# RINEX 3.05/4.00 observation codes: band -> attributes
ATT = {
    'G': {'1': 'CSLXPWYMN', '2': 'CDSLXPWYMN', '5': 'IQX'},
    'R': {'1': 'CP', '2': 'CP', '3': 'IQX', '4': 'ABX', '6': 'ABX'},
    'E': {'1': 'ABCXZ', '5': 'IQX', '6': 'ABCXZ', '7': 'IQX', '8': 'IQX'},
    'S': {'1': 'C', '5': 'IQX'},
    'J': {'1': 'CESLXZB', '2': 'SLX', '5': 'IQXDPZ', '6': 'SLXEZ'},
    'C': {'1': 'DPXSLZ', '2': 'IQX', '5': 'DPX', '6': 'IQXDPZ',
          '7': 'IQXDPZ', '8': 'DPX'},
    'I': {'1': 'DPX', '5': 'ABCX', '9': 'ABCX'},
}
# codes defined by some RINEX minor version only: either answer is accepted
EITHER = {('G', '1', 'N'), ('G', '2', 'N'), ('G', '1', 'R'), ('G', '2', 'R'),
          ('R', '1', 'X'), ('R', '2', 'X'), ('C', '1', 'I'), ('C', '1', 'Q'),
          ('C', '6', 'S'), ('C', '6', 'L'), ('J', '6', 'D'), ('J', '6', 'P'),
          ('C', '1', 'N'), ('C', '6', 'A'), ('C', '1', 'A')}
FREQ = {
    'G': {'1': 1575.42, '2': 1227.60, '5': 1176.45},
    'R': {'1': None, '2': None, '3': 1202.025, '4': 1600.995, '6': 1248.06},
    'E': {'1': 1575.42, '5': 1176.45, '6': 1278.75, '7': 1207.14,
          '8': 1191.795},
    'S': {'1': 1575.42, '5': 1176.45},
    'J': {'1': 1575.42, '2': 1227.60, '5': 1176.45, '6': 1278.75},
    'C': {'1': 1575.42, '2': 1561.098, '5': 1176.45, '6': 1268.52,
          '7': 1207.14, '8': 1191.795},
    'I': {'1': 1575.42, '5': 1176.45, '9': 2492.028},
}
C = 299792458.0


def sats(ck):
    seen = {}
    ids = {}
    for c, (s, p0, p1, off) in SYS.items():
        def sysname():
            expect(g.char2sys(c) == s and g.sys2char(s) == c, f'{c} char')
            expect(g.sys2str(s) == NAMES[c], f'{c} name')
        ck.case('system', c, sysname)
        for prn in range(p0, p1+1):
            def one():
                n = g.prn2sat(s, prn)
                expect(1 <= n <= uGNSS.MAXSAT, f'{c}{prn} number {n}')
                expect(n not in seen, lambda: f'{c}{prn} shares {n} with '
                       f'{seen[n]}')
                seen[n] = (c, prn)
                s2, p2 = g.sat2prn(n)
                expect(s2 == s and p2 == prn, f'sat2prn({n})={s2},{p2}')
                expect(isinstance(s2, (int, uGNSS)), 'type')
                i = g.sat2id(n)
                expect(i == f'{c}{prn-off:02d}', f'sat2id({n})={i}')
                expect(i not in ids, f'id {i} twice')
                ids[i] = n
                expect(g.id2sat(i) == n, f'id2sat({i})={g.id2sat(i)}')
                return n
            ck.case('sat', (c, prn), one, steps=4)

    def total():
        expect(sorted(seen) == list(range(1, uGNSS.MAXSAT+1)),
               'satellite numbers are not 1..MAXSAT')
    ck.case('sat', 'total', total)
    for ch in 'ABDFHKLMNOPQTUVWXYZ0 ':
        def bad():
            expect(g.char2sys(ch) == uGNSS.NONE, f'char2sys({ch!r})')
            expect(g.id2sat(ch+'01') == -1, f'id2sat({ch}01)')
        ck.case('badsys', ch, bad)
    # numbers outside the range of their constellation name no satellite
    for c, (s, p0, p1, off) in SYS.items():
        for prn in list(range(-3, p0))+list(range(p1+1, 256)):
            def undef():
                n = g.prn2sat(s, prn)
                expect(not 1 <= n <= uGNSS.MAXSAT, lambda: f'{c}{prn} is '
                       f'undefined but numbered {n} ({g.sat2id(n)})')
                k = prn-off
                if 0 <= k <= 99:
                    n = g.id2sat(f'{c}{k:02d}')
                    expect(not 1 <= n <= uGNSS.MAXSAT, lambda: f'id {c}{k:02d}'
                           f' is undefined but numbered {n} ({g.sat2id(n)})')
            ck.case('undefined', (c, prn), undef, steps=2)

    def lists():
        expect(g.char2sys('GERCJSI') == [SYS[x][0] for x in 'GERCJSI'],
               'char2sys list')
        expect(list(g.sys2char([SYS[x][0] for x in 'GERCJSI'])) ==
               list('GERCJSI'), 'sys2char list')
    ck.case('system', 'lists', lists)


def make(code):
    try:
        return rSigRnx(code)
    except (ValueError, KeyError):
        return None


def signal(c, t, b, a):
    code = c+t+b+a
    s = make(code)
    s2 = None
    try:
        s2 = rSigRnx(SYS[c][0], t+b+a)
    except (ValueError, KeyError):
        pass
    expect((s is None) == (s2 is None), f'{code}: constructors disagree')
    defined = a in ATT[c].get(b, '') if a else b in ATT[c]
    if (c, b, a) in EITHER:
        defined = s is not None
    expect((s is not None) == defined,
           f'{code} is {"" if defined else "not "}defined by RINEX but was '
           f'{"accepted" if s is not None else "rejected"}')
    if s is None:
        return None
    want = t+b+(a or ' ')
    expect(s == s2 and hash(s) == hash(s2), f'{code}: not equal')
    expect(s.str() == want, f'{code} prints {s.str()!r}')
    expect(repr(s) == c+want, f'{code} repr {s!r}')
    expect(s.sys == SYS[c][0] and s.typ == uTYP['CLDS'['CLDS'.index(t)]],
           f'{code} parts')
    r = rSigRnx(repr(s).strip()) if a else rSigRnx(repr(s))
    expect(r == s, f'{code} reparse')
    s3 = rSigRnx(s.sys, s.typ, s.sig)
    expect(s3 == s and hash(s3) == hash(s), f'{code} 3-arg')
    for k in ((None,) if c != 'R' else tuple(range(-7, 14))):
        f = s.frequency(k) if k is not None else s.frequency()
        w = s.wavelength(k) if k is not None else s.wavelength()
        fe = FREQ[c].get(b)
        if c == 'R' and b == '1':
            fe = 1602.0+0.5625*k
        elif c == 'R' and b == '2':
            fe = 1246.0+0.4375*k
        if fe is None:
            expect(f is None and w is None, f'{code} frequency {f}')
        else:
            expect(f is not None and abs(f-fe*1e6) < 1e-3,
                   f'{code} k={k} frequency {f} expected {fe}e6')
            expect(abs(w-C/(fe*1e6)) < 1e-12, f'{code} wavelength {w}')
    if c == 'R' and b in '12':
        expect(s.frequency() is None and s.wavelength() is None,
               f'{code}: FDMA without channel must be undefined')
    expect(s.band() // 100 == int(b) and s.band() % 100 == 0, f'{code} band')
    expect(s.isGPS_PY() == (c == 'G' and b in '12' and a == 'W'),
           f'{code} isGPS_PY')
    for t2 in 'CLDS':
        u = s.toTyp(uTYP[t2])
        expect(repr(u) == c+t2+b+(a or ' '), f'{code} toTyp {t2}: {u!r}')
        expect(repr(s) == c+want, f'{code}: toTyp changed the signal')
    for a2 in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ':
        try:
            u = s.toAtt(a2)
        except ValueError:
            u = None
        ref = make(c+t+b+a2)
        expect((u is None) == (ref is None), f'{code} toAtt {a2}')
        if u is not None:
            expect(repr(u) == c+t+b+a2, f'{code} toAtt {a2}: {u!r}')
    u = s.toAtt()
    expect(repr(u) == c+t+b+' ', f'{code} toAtt(): {u!r}')
    expect(repr(s) == c+want, f'{code}: toAtt changed the signal')
    return repr(s)


def distinct(ck):
    """ different codes compare different, equal ones equal """
    codes = [c+t+b+a for c in ATT for t in 'CLDS' for b in ATT[c]
             for a in ATT[c][b] if (c, b, a) not in EITHER]
    objs = [(x, make(x)) for x in codes]

    def pair(i):
        x, o = objs[i]
        if o is None:
            return
        for y, p in objs:
            if p is not None:
                expect((o == p) == (x == y), f'{x} == {y}')
                if x == y:
                    expect(hash(o) == hash(p), f'{x} hash')
    for i in range(len(objs)):
        ck.case('distinct', codes[i], pair, i, steps=len(objs))


def run(ck):
    sats(ck)
    for c, t, b in itertools.product('GRESJCI', 'CLDS', '0123456789'):
        for a in ['']+[chr(65+i) for i in range(26)]:
            ck.case('signal', c+t+b+a, signal, c, t, b, a, steps=2)
    for x in ('', 'G', 'GC', 'GC1CC', 'XC1C', 'GX1C', 'GC1c', 'GC1?',
              'G11C', 'GCCC', '?C1C'):
        def bad():
            try:
                s = rSigRnx(x)
            except (ValueError, KeyError, IndexError):
                return
            expect(False, f'malformed code {x!r} accepted as {s!r}')
        ck.case('malformed', x, bad)
    distinct(ck)
