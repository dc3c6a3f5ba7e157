""" C23 rover and base streams are paired by epoch and terminate """
import itertools
from cssrlib import gnss as g
from cssrlib import rinex as rn
from mc.core import expect
from mc.rnxtxt import hdr, ep, fld, files, opened

BASE = [2024, 2, 28, 23, 59, 57]
HDR = hdr({'G': ['C1C', 'L1C']})


def text(ts, mark):
    """ observation file with epochs ts [s after BASE]; the pseudorange
    carries the epoch number; None in `mark` positions: epoch without data """
    o = [HDR]
    for i, t in enumerate(ts):
        tt = round(t*1e7)
        b = BASE[3]*3600+BASE[4]*60+BASE[5]
        s = b*10**7+tt
        day, s = divmod(s, 86400*10**7)
        d = [(2024, 2, 28), (2024, 2, 29), (2024, 3, 1)][day]
        h, s = divmod(s, 3600*10**7)
        m, s = divmod(s, 60*10**7)
        e = (*d, h, m, s/1e7)
        if mark and i in mark:
            o.append(ep(e, 0))
        else:
            o.append(ep(e, 1))
            o.append('G05'+fld(2e7+i)+fld(1e8+i)+'\n')
    return ''.join(o)


def pairs(ta, tb, th):
    """ the pairs within the tolerance (unique by construction) """
    out = []
    for i, x in enumerate(ta):
        c = [j for j, y in enumerate(tb) if abs(x-y) <= th]
        assert len(c) <= 1, 'HARNESS ambiguous'
        if c:
            out.append((i, c[0]))
    return out


def nodata(o):
    return o is None or len(o.sat) == 0


def sync(ta, tb, th, ma=(), mb=()):
    ra = [i for i in range(len(ta)) if i not in ma]
    rb = [i for i in range(len(tb)) if i not in mb]
    want = [(ra[i], rb[j]) for i, j in
            pairs([ta[i] for i in ra], [tb[i] for i in rb], th)]
    with files() as f:
        da = opened(f.put(text(ta, ma)), ['GC1C', 'GL1C'])
        db = opened(f.put(text(tb, mb)), ['GC1C', 'GL1C'])
        got = []
        for k in range(len(want)+3):
            r = rn.sync_obs(da, db) if th == 0.1 else \
                rn.sync_obs(da, db, th)
            o, ob = r if r is not None else (None, None)
            if nodata(o) or nodata(ob):
                got.append(None)
                continue
            i, j = int(round(o.P[0, 0]-2e7)), int(round(ob.P[0, 0]-2e7))
            expect(abs(g.timediff(o.t, ob.t)) <= th+1e-9,
                   lambda: f'paired epochs {ta[i]} and {tb[j]}')
            got.append((i, j))
        da.fobs.close()
        db.fobs.close()
    expect(got == want+[None]*3, lambda: f'rover {ta} base {tb} tolerance '
           f'{th}: pairs {got} expected {want}, then end of data')


def run(ck):
    T = ck.thorough
    N = 6 if not T else 8
    sub = [tuple(float(i) for i in range(N) if m >> i & 1)
           for m in range(2**N)]
    items = [(a, tuple(x+o for x in b), 0.1)
             for a in sub for b in sub
             for o in (0.0, 0.04, -0.09, 0.3, -0.25, 1.0, -2.0)]
    ck.pmap('subsets', items, lambda c, x: c.case(
        'subsets', x, sync, *x, steps=len(x[0])+3, timeout=10), chunk=150)
    # different rates, offsets and tolerances
    items = []
    for ra, na in ((1.0, 6), (0.5, 9), (2.0, 3), (5.0, 3)):
        for rb, nb in ((1.0, 6), (0.5, 9), (2.0, 3), (30.0, 2), (1.0, 0)):
            for o in (0.0, 0.01, -0.02, 0.2, -0.24, 3.0, -3.0, 100.0):
                for th in (0.1, 0.005, 0.05, 0.245):
                    if abs(abs((o+0.25) % 0.5-0.25)-th) < 1e-3:
                        continue
                    items.append((tuple(i*ra for i in range(na)),
                                  tuple(o+i*rb for i in range(nb)), th))
    # limits of the tolerance (binary fractions, exact)
    for th in (0.0, 0.25, 0.125):
        for ra, rb in itertools.product((1.0, 2.0, 3.0), repeat=2):
            for o in (0.0, 0.25, -0.25, 0.125, -0.125, 0.0625, 1.0, -1.25):
                for n in range(4):
                    items.append((tuple(i*ra for i in range(4)),
                                  tuple(o+i*rb for i in range(n)), th))
    ck.pmap('rates', items, lambda c, x: c.case(
        'rates', x, sync, *x, steps=9, timeout=10), chunk=60)
    # epochs without data on either side
    full = tuple(float(i) for i in range(4))
    items = []
    for ma in itertools.product((0, 1), repeat=4):
        for mb in itertools.product((0, 1), repeat=4):
            items.append((full, full, 0.1,
                          tuple(i for i in range(4) if ma[i]),
                          tuple(i for i in range(4) if mb[i])))
    ck.pmap('empty', items, lambda c, x: c.case(
        'empty', x, sync, *x, steps=7, timeout=10), chunk=40)
    ck.bound(epochs=N, offsets=7, tolerances=4)
