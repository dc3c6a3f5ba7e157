""" C06 HAS messages are recovered from any sufficient set of distinct pages """
import itertools
import os
import tempfile
import numpy as np
from cssrlib.cssr_has import cnav_msg
from mc import hasrs
from mc.bits import BW, tobytes
from mc.core import expect

GM = np.array(hasrs.G, dtype='u1')


class Msg:
    def __init__(self, mid, ms, mt=1, seed=0):
        self.mid, self.ms, self.mt = mid, ms, mt
        self.pages = [[(37*(j+1)*(k+3)+101*seed+mid*7+(k*k+j*j) // 3) % 256
                       for j in range(53)] for k in range(ms)]
        self.raw = b''.join(bytes(p) for p in self.pages)
        self._c = {}

    def page(self, pid):
        if pid not in self._c:
            self._c[pid] = hasrs.page(self.pages, pid)
        return self._c[pid]


def nav(m, pid, hass=1, dummy=False, ms=None):
    w = BW()
    w.u(14, 0x2aaa if pid % 2 else 0)
    if dummy:
        w.u(24, 0xaf3bc3)
        body = bytes(53)
    else:
        w.u(2, hass).u(2, 0).u(2, m.mt).u(5, m.mid)
        w.u(5, (ms or m.ms)-1).u(8, pid)
        body = m.page(pid) if pid else bytes(range(53))
    w.u(424, int.from_bytes(body, 'big'))
    w.u(24, 0x5a5a5a).u(6, 0)
    return {'nav': tobytes(w.str()).hex()}


class Model:
    """ collector of one message at a time """

    def __init__(self):
        self.cur = None
        self.got = set()
        self.done = []
        self.idle = 0

    def call(self, vi):
        """ vi: list of (msg, pid, kind); returns the recovered message """
        out = None
        for m, pid, kind in vi:
            if kind in ('dummy', 'dnu', 'res') or pid == 0 or \
                    m.ms < pid <= 32:
                continue
            if self.cur is None and m.mid not in self.done:
                self.cur, self.got, self.idle = m, set(), -1
            if m is self.cur and pid not in self.got:
                self.got.add(pid)
                self.idle = -1
        self.idle += 1
        if self.cur is not None and len(self.got) >= self.cur.ms:
            out = self.cur
            self.done = (self.done+[out.mid])[-10:]
            self.cur = None
        return out


KIND = {'': dict(), 'dummy': dict(dummy=True), 'dnu': dict(hass=3),
        'res': dict(hass=2), 'test': dict(hass=0)}


def play(calls):
    c, mo = cnav_msg(), Model()
    c.gMat = GM
    out = []
    for n, vi in enumerate(calls):
        r = c.decode_cnav(n, [nav(m, pid, **KIND[k]) for m, pid, k in vi])
        e = mo.call(vi)
        what = f'call {n}: '
        if e is None:
            expect(r is None or len(r) == 0, what+'message delivered from '
                   'an insufficient set of pages')
        else:
            expect(r is not None and len(r) > 0, what +
                   f'message {e.mid} of {e.ms} pages not recovered')
            expect(bytes(r) == e.raw, what+'recovered message differs')
            expect(c.msgtype == e.mt, what+f'message type {c.msgtype}')
            out.append(e.mid)
    return tuple(out)


def subset(ms, pids, percall, seed=0):
    m = Msg(7, ms, 1, seed)
    calls = [[(m, p, '') for p in pids[i:i+percall]]
             for i in range(0, len(pids), percall)]
    r = play(calls)
    expect((len(r) == 1) == (len(set(pids)) >= ms), 'HARNESS model')
    return r


def run(ck):
    TH = ck.thorough

    def f(c, j):
        c.case('subset', j, subset, *j, steps=len(j[1]))
    # every page id for a single page, all pairs, all triples of a window
    jobs = [(1, (p,), 1) for p in [1]+list(range(33, 256))]
    al = [1, 2]+list(range(33, 256))
    for a, b in itertools.combinations(al, 2):
        if TH or b-a in (1, 2, 100) or a < 3 or (a+b) % 11 == 0:
            jobs.append((2, (a, b), 1))
    win = [1, 2, 3, 33, 34, 64, 100, 200, 254, 255]
    for s in itertools.combinations(win, 3):
        jobs.append((3, s, 1))
        jobs.append((3, s[::-1], 3))
    w4 = [1, 2, 3, 4, 33, 34, 128, 255] if not TH else \
        [1, 2, 3, 4, 33, 34, 35, 64, 128, 200, 255]
    for s in itertools.combinations(w4, 4):
        jobs.append((4, s, 1))
    # every size: consecutive windows, strides, mixes with systematic pages
    for ms in range(1, 33):
        full = list(range(1, ms+1))+list(range(33, 256))
        n = len(full)
        for st in (range(0, n) if TH else
                   [0, 1, ms-1, ms, ms+1, n-ms, n-1, n-ms+1, 77]):
            for step in (1, 2, 5, 7):
                s = tuple(full[(st+k*step) % n] for k in range(ms))
                if len(set(s)) == ms:
                    jobs.append((ms, s, 1 if st % 2 else 4))
                    jobs.append((ms, s[:-1], 1))     # one page short
        for ns in range(0, ms+1):
            s = tuple(full[:ns])+tuple(255-3*k for k in range(ms-ns))
            jobs.append((ms, s[::-1], 3))
        # more pages than needed within one call
        jobs.append((ms, tuple(full[:ms+3]), ms+3))
        jobs.append((ms, tuple(full[ms-1:ms+9]+full[:ms]), ms+10))
        jobs.append((ms, tuple(full[:40][::-1]), 40))
    # arrival orders and repetitions
    for s in itertools.product([1, 3, 33, 255], repeat=5 if not TH else 6):
        jobs.append((3, s, 1))
    for s in itertools.permutations([2, 4, 50, 133]):
        jobs.append((4, s, 1))
        jobs.append((4, s+s, 2))
    for s in itertools.permutations(range(33, 38)):
        jobs.append((5, s, 1))
    ck.bound(sizes='1..32', pairs='all' if TH else 'selected',
             order_len=6 if TH else 5)
    ck.pmap('subset', [j for j in dict.fromkeys(jobs)], f, chunk=100)

    # interleaving with pages of other messages, reserved and dummy pages
    A, B = Msg(3, 2, 1, 1), Msg(4, 2, 1, 2)
    A2 = Msg(3, 3, 1, 3)      # same id, other size
    A3 = Msg(3, 2, 2, 4)      # same id, other type
    C1 = Msg(9, 1, 1, 5)
    ev = {'a1': (A, 1, ''), 'a9': (A, 99, ''), 'a2': (A, 2, 'test'),
          'b1': (B, 1, ''), 'b2': (B, 2, ''), 'b8': (B, 88, ''),
          's1': (A2, 1, ''), 's40': (A2, 40, ''), 't1': (A3, 1, ''),
          't77': (A3, 77, ''), 'a0': (A, 0, ''), 'a5': (A, 5, 'dnu'),
          'a50': (A, 50, 'dnu'), 'a60': (A, 60, 'res'),
          'x': (A, 1, 'dummy'), 'a20': (A, 20, ''), 'c': (C1, 1, '')}

    def g(c, j):
        grp, calls = j
        c.case(grp, calls, play, [[ev[e] for e in k] for k in calls],
               steps=len(calls))
    jobs = []
    d = 5 if TH else 4
    for al in (['a1', 'a9', 'b1', 'b8', 'x', 'a0'],
               ['a1', 'a2', 's1', 's40', 't1', 't77'],
               ['a1', 'a9', 'a50', 'a60', 'a20', 'a0'],
               ['a1', 'a9', 'b1', 'b2', 'c']):
        for n in range(1, d+1):
            for s in itertools.product(al, repeat=n):
                jobs.append(('sequence', tuple((e,) for e in s)))
        for s in itertools.product(al, repeat=4):
            jobs.append(('batch', (s[:2], s[2:])))
            jobs.append(('batch', (s,)))
            jobs.append(('batch', ((), s[:1], (), s[1:])))
    ck.pmap('seq', dict.fromkeys(jobs), g, chunk=200)

    # long reception: message ids advance and wrap, sizes vary, with all
    # assignments of the number of pages per call and of lost pages
    def stream(per, step, lost, nmsg, ofs):
        calls = []
        exp = []
        for n in range(nmsg):
            ms = [5, 1, 12, 2, 8][n % 5]
            m = Msg(n % 32, ms, 1, n)
            ids = [33+(ofs+k*step+n*11) % 223 for k in range(ms+lost)]
            for k in range(ms):
                if k % 3 == 0:
                    ids[k] = k+1
            ids = [p for k, p in enumerate(ids) if not (lost and k % 4 == 1)
                   or k >= 4*lost]
            if len(set(ids)) < ms:
                continue
            exp.append(m.mid)
            for i in range(0, len(ids), per):
                calls.append([(m, p, '') for p in ids[i:i+per]])
        r = play(calls)
        expect(list(r) == exp, 'HARNESS stream model')
        return len(r)

    def h(c, j):
        c.case('stream', j, stream, *j, steps=200)
    ck.pmap('stream', list(itertools.product(
        (1, 2, 3, 7), (1, 2, 3, 5), (0, 1, 2), (40,),
        (0, 100) if TH else (0,))), h, chunk=2)

    # an incomplete message must not block reception for ever, and a pause
    # shorter than the message must not drop what has been received
    def pause(ms, have, gap):
        m, n = Msg(11, ms, 1, 1), Msg(12, ms, 1, 2)
        c = cnav_msg()
        c.gMat = GM
        pid = [33+5*k for k in range(2*ms+2)]
        t = 0
        for p in pid[:have]:
            r = c.decode_cnav(t, [nav(m, p)])
            expect(r is None, 'message delivered too early')
            t += 1
        for _ in range(gap):
            r = c.decode_cnav(t, [])
            expect(not r, 'message delivered without page')
            t += 1
        if gap <= ms:
            for p in pid[have:ms]:
                r = c.decode_cnav(t, [nav(m, p)])
                t += 1
            expect(r is not None and bytes(r) == m.raw,
                   'message lost in a short pause')
        else:
            for p in pid[:ms]:
                r = c.decode_cnav(t, [nav(n, p)])
                t += 1
            expect(r is not None and bytes(r) == n.raw,
                   'reception blocked by an incomplete message')
    for ms in (2, 3, 5, 16, 32):
        for have in range(1, ms):
            for gap in (0, 1, ms, 2*ms+2, 80):
                ck.case('pause', (ms, have, gap), pause, ms, have, gap,
                        steps=ms+gap)

    def gmat():
        d = tempfile.mkdtemp()
        p = os.path.join(d, 'g.txt')
        try:
            with open(p, 'w') as fh:
                for r in hasrs.G:
                    fh.write(','.join(map(str, r))+'\n')
            c = cnav_msg()
            c.load_gmat(p)
        finally:
            os.remove(p)
            os.rmdir(d)
        m = Msg(1, 4)
        r = c.decode_cnav(0, [nav(m, p) for p in (4, 60, 200, 255)])
        expect(r is not None and bytes(r) == m.raw, 'matrix file')
    ck.case('matrix_file', 0, gmat)
