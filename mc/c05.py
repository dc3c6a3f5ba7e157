""" C05 L6 frames are reassembled only from complete, contiguous parts """
import copy
import itertools
from cssrlib.cssrlib import cssr
from mc.bits import BW, tobytes
from mc.core import expect

FAC = [[0, 2, 1, 3], [2, 0, 3, 1]]   # IS-QZSS-L6 table of the facility id
# sources: prn, vendor, facility bits, pattern
SRC = {'A': (199, 5, 0, 0), 'a': (199, 5, 1, 0), 'p': (199, 5, 0, 1),
       'B': (194, 5, 0, 0), 'b': (194, 5, 2, 0), 'M': (199, 2, 0, 0),
       'N': (195, 2, 0, 0), 'n': (195, 2, 1, 0)}


def payload(n):
    """ 1695 distinct bits of the n-th transmitted part """
    x = (n*0x9e3779b97f4a7c15+0x1234567) % (1 << 61)
    v = 0
    for k in range(28):
        x = (x*6364136223846793005+1442695040888963407) % (1 << 64)
        v = v << 64 | x
    return v % (1 << 1695)


PAY = {}


def frame(src, start, n, ofst=0):
    prn, vend, fac, pt = SRC[src]
    if n not in PAY:
        PAY[n] = format(payload(n), '01695b')
    w = BW()
    w.u(32, 0x1acffc1d).u(8, prn).u(3, vend).u(2, fac).u(2, pt)
    w.u(1, int(start)).u(1, 0)
    return bytes(ofst)+tobytes(w.str()+PAY[n]+'0'*256)


class Model:
    def __init__(self):
        self.cur = None     # parts since the start indicator
        self.src = None
        self.fac = None     # facility of the last part
        self.done = None    # complete subframe delivered by the last part

    def feed(self, src, start, n):
        prn, vend, fb, pt = SRC[src]
        fac = FAC[pt][fb] if vend == 5 else fb
        self.done = None
        if self.cur is not None and len(self.cur) == 5:
            self.cur = None
        if start:
            self.src = (prn, vend)
            self.cur = []
        elif (prn, vend) != self.src:
            return
        if self.fac is not None and fac != self.fac:
            self.cur = None
        self.fac = fac
        if self.cur is not None:
            self.cur.append(n)
            if len(self.cur) == 5:
                self.done = list(self.cur)


def check(cs, mo, what):
    if cs.fcnt == 5:
        expect(mo.done is not None, f'{what}: delivered although the parts '
               f'received since the last start are {mo.cur}')
        w = ''.join(PAY[n] for n in mo.done)
        got = format(int.from_bytes(bytes(cs.buff), 'big'),
                     '0%db' % (len(cs.buff)*8))
        expect(got[:8475] == w, lambda: f'{what}: delivered bytes differ from '
               f'the parts {mo.done} from bit '
               f'{next(k for k in range(8475) if got[k] != w[k])}')
        expect('1' not in got[8475:], f'{what}: stray bits after the parts')
    else:
        expect(mo.done is None, f'{what}: complete subframe {mo.done} not '
               f'delivered (fcnt {cs.fcnt})')
    return mo.done is not None


def clone(cs):
    return copy.deepcopy(cs, {id(cs.lc): cs.lc})


def explore(c, group, alphabet, depth, pre=()):
    """ depth-first over all sequences of the alphabet """
    def key(h):
        return ''.join(s+('1' if st else '0') for s, st in h)

    def rec(cs, mo, h):
        if len(h) >= depth:
            return
        for s, st in alphabet:
            cs2, mo2 = clone(cs), copy.deepcopy(mo)
            h2 = h+((s, st),)

            def go():
                n = len(h2)
                cs2.decode_l6msg(frame(s, st, n), 0)
                mo2.feed(s, st, n)
                return check(cs2, mo2, 'step %d of %s' % (n, key(h2)))
            r = c.case(group, key(h2), go)
            if r is None and c.only is None:
                continue
            rec(cs2, mo2, h2)

    cs, mo = cssr(), Model()
    if c.only is not None:
        # replay of one sequence
        k = eval(c.only[1])
        h = tuple((k[i], k[i+1] == '1') for i in range(0, len(k), 2))

        def go():
            for n, (s, st) in enumerate(h, 1):
                cs.decode_l6msg(frame(s, st, n), 0)
                mo.feed(s, st, n)
                check(cs, mo, f'step {n} of {k}')
        c.case(group, k, go)
        return
    for n, (s, st) in enumerate(pre, 1):
        def go():
            cs.decode_l6msg(frame(s, st, n), 0)
            mo.feed(s, st, n)
            return check(cs, mo, f'step {n} of {key(pre[:n])}')
        c.case(group, key(pre[:n]), go)
    rec(cs, mo, tuple(pre))


def stream(evs, ofst=0):
    cs, mo = cssr(), Model()
    nd = 0
    for k, (s, st, n) in enumerate(evs):
        if s == 'bad':
            m = bytearray(frame('A', st % 2, n, ofst))
            m[ofst+st % 4] ^= 1 << n % 8
            before = (cs.fcnt, bytes(cs.buff))
            cs.decode_l6msg(bytes(m), ofst)
            expect(bytes(cs.buff) == before[1] and cs.fcnt in (before[0], -1),
                   'frame without preamble changed the assembly')
            if cs.fcnt == -1:
                mo.cur = None
            continue
        cs.decode_l6msg(frame(s, st, n, ofst), ofst)
        mo.feed(s, st, n)
        nd += check(cs, mo, f'step {k} of {evs}')
    return nd


def run(ck):
    TH = ck.thorough
    d2, d3 = (8, 6) if TH else (6, 4)
    ck.bound(two_sources_depth=d2, many_sources_depth=d3,
             single_source_depth=14 if TH else 12)
    jobs = []
    # one satellite: every pattern of start and continuation parts
    al = (('A', 1), ('A', 0))
    for p in itertools.product(al, repeat=3):
        jobs.append(('single', al, 14 if TH else 12, p))
    # two sources: other satellite / facility / service
    for x in 'aBbMp' + ('Nn' if TH else 'N'):
        al = (('A', 1), ('A', 0), (x, 1), (x, 0))
        for p in itertools.product(al, repeat=2):
            jobs.append(('two_'+x, al, d2 if x in 'aB' or not TH else d2-1, p))
    al = tuple((s, b) for s in 'AaBM' for b in (1, 0))
    for p in itertools.product(al, repeat=2):
        jobs.append(('four_sources', al, d3, p))

    def f(c, j):
        explore(c, j[0], *j[1:])
    ck.pmap('seq', jobs, f, chunk=1)

    # continuous reception with lost parts: subframes of five parts
    jobs = []
    nat = [('A', n % 5 == 0, n) for n in range(15)]
    for k in range(0, 5 if TH else 4):
        for lost in itertools.combinations(range(15), k):
            jobs.append(('lost', lost,
                         [e for n, e in enumerate(nat) if n not in lost]))
    # duplicated part, frame without preamble in between
    for k in range(10):
        for j in range(k, 11):
            e = nat[:10]
            jobs.append(('repeated', (k, j), e[:j]+[e[k]]+e[j:]))
            jobs.append(('garbage', (k, j), e[:k]+[('bad', k, j)]+e[k:]))
    # two satellites with their own subframes, every interleaving
    na, nb = (7, 7) if TH else (5, 6)
    for x in 'Bb':
        for phase in range(5):
            for pos in itertools.combinations(range(na+nb), na):
                if not TH and x == 'b' and phase not in (0, 2):
                    continue
                if not TH and phase not in (0, 2) and pos[0] not in (0, 1):
                    continue
                a = iter([('A', n % 5 == 0, n) for n in range(na)])
                b = iter([(x, n % 5 == phase, 50+n) for n in range(nb)])
                jobs.append(('interleaved_'+x, (phase, pos),
                             [next(a) if i in pos else next(b)
                              for i in range(na+nb)]))

    def g(c, j):
        c.case(j[0], j[1], stream, j[2], steps=len(j[2]))
    ck.pmap('stream', jobs, g, chunk=20)
    # every facility/pattern/vendor combination, message offset in the buffer
    jobs = []
    for vend in range(8):
        for fac in range(4):
            for pt in range(4):
                for ofst in (0, 1, 7):
                    jobs.append((vend, fac, pt, ofst))

    def hdr(vend, fac, pt, ofst):
        SRC['X'] = (193+fac, vend, fac, pt)
        try:
            if vend == 5 and pt > 1:
                cs = cssr()
                for n in range(6):
                    cs.decode_l6msg(frame('X', n == 0, n, ofst), ofst)
                    expect(cs.fcnt < 5, 'reserved pattern accepted')
                return
            r = stream([('X', n % 5 == 0, n) for n in range(6)], ofst)
            expect(r == 1, 'not delivered')
            cs = cssr()
            cs.decode_l6msg(frame('X', True, 1, ofst), ofst)
            expect(cs.facility == (FAC[pt][fac] if vend == 5 else fac) and
                   cs.pattern == pt and cs.sid == 1, 'frame header')
        finally:
            del SRC['X']

    def h(c, j):
        c.case('header', j, hdr, *j, steps=6)
    ck.pmap('header', jobs, h, chunk=10)
