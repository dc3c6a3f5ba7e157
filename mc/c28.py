""" C28 integer least squares: search, decorrelation, partial fixing """
import itertools
import numpy as np
from math import erf, sqrt
from cssrlib import mlambda as ml
from mc.core import expect

TOL = 1e-6


def mat(Lc, d):
    """ covariance L' D L with unit lower triangular L """
    n = len(d)
    L = np.eye(n)
    k = 0
    for i in range(1, n):
        for j in range(i):
            L[i, j] = Lc[k]
            k += 1
    return L, L.T@np.diag(d)@L


def brute(a, Q, m):
    """ the m smallest weighted distances over every integer vector:
    depth first over the conditional variances, in a fixed order of the
    components, with exact interval bounds (no pruning by rounding order) """
    n = len(a)
    Qi = np.linalg.inv(Q)
    # starting bound: the best m of the vectors around the rounded one and
    # around the bootstrapped one
    z0 = np.round(a)
    cand = set()
    b = np.zeros(n)
    r = a.copy()
    S = Q.copy()
    for i in range(n-1, -1, -1):
        b[i] = np.round(r[i])
        r = r-S[:, i]/S[i, i]*(r[i]-b[i])
        S = S-np.outer(S[:, i], S[i, :])/S[i, i]
        r[i] = b[i]
        S[i, i] = 1.0
    for c in (z0, b):
        for off in itertools.product(
                range(-m, m+1) if n == 1 else (-1, 0, 1), repeat=n):
            cand.add(tuple(c+np.array(off)))
    cand = np.array(sorted(cand))
    v = cand-a
    q = np.sort(np.einsum('ij,jk,ik->i', v, Qi, v))
    bound = q[m-1]*(1+1e-9)+1e-12
    # all integer vectors inside the ellipsoid: intervals from the Cholesky
    # factor of the inverse, last component first
    R = np.linalg.cholesky(Qi).T      # upper, |R (z-a)|^2
    out = []

    def rec(k, z, dist):
        if k < 0:
            out.append(dist)
            return
        off = 0.0
        for j in range(k+1, n):
            off += R[k, j]*(z[j]-a[j])
        w = sqrt(max(bound-dist, 0.0))
        lo = (-w-off)/R[k, k]+a[k]
        hi = (w-off)/R[k, k]+a[k]
        for zi in range(int(np.ceil(lo-1e-9)), int(np.floor(hi+1e-9))+1):
            z[k] = zi
            rec(k-1, z, dist+(R[k, k]*(zi-a[k])+off)**2)
    rec(n-1, np.zeros(n), 0.0)
    out.sort()
    assert len(out) >= m, 'HARNESS bound'
    return np.array(out[:m])


def sr(d):
    p = 1.0
    for x in d:
        p *= erf(0.5/sqrt(x)/sqrt(2))
    return p


def close(x, y, t=TOL):
    return abs(x-y) <= t*(1+abs(y))


def judge(a, Q, Z, s, want, what):
    """ Z: candidates in columns, s: reported distances """
    m = len(want)
    Z = np.asarray(Z)
    expect(Z.shape == (len(a), m), lambda: f'{what}: shape {Z.shape}')
    expect(len(s) == m, f'{what}: {len(s)} distances')
    Qi = np.linalg.inv(Q)
    seen = set()
    for i in range(m):
        z = Z[:, i]
        zi = np.round(z)
        expect(np.max(np.abs(z-zi)) < 1e-6,
               lambda: f'{what}: candidate {i} not integer {z}')
        v = a-zi
        q = float(v@Qi@v)
        expect(close(s[i], q), lambda: f'{what}: candidate {i} {zi} has '
               f'distance {q}, reported {s[i]}')
        expect(close(q, want[i]), lambda: f'{what}: candidate {i} {zi} at '
               f'{q}, the {i+1}. smallest distance is {want[i]}')
        seen.add(tuple(zi))
    expect(len(seen) == m, f'{what}: candidate reported twice')


def run_ml(a, Q, want, U, Ui, ncs, offs=0):
    """ mlambda on the problem transformed by the unimodular U """
    a2 = U.T@(a+offs)
    Q2 = U.T@Q@U
    Q2 = (Q2+Q2.T)/2
    for nc in ncs:
        a_, Q_ = a2.copy(), Q2.copy()
        if nc == 2:
            z, s, nfix, Ps = ml.mlambda(a_, Q_)
        else:
            z, s, nfix, Ps = ml.mlambda(a_, Q_, nc)
        expect(np.array_equal(a_, a2) and np.array_equal(Q_, Q2),
               'mlambda changed its input')
        expect(nfix == len(a), f'{nfix} of {len(a)} ambiguities fixed')
        # back in the original parametrisation
        zb = np.round(Ui.T@np.asarray(z))-offs
        expect(np.max(np.abs(np.asarray(z)-np.round(z))) < 1e-6,
               lambda: f'not integer {z}')
        judge(a, Q, zb, s, want[:nc], f'mlambda n={len(a)} ncands={nc}')
        expect(0 <= Ps <= 1+1e-12, f'success rate {Ps}')


def tri(a, L, d, Q, want, ncs):
    """ both searches on the triangular factors themselves """
    for name in ('estimILS', 'msearch'):
        f = getattr(ml, name, None)
        if f is None:
            continue
        for nc in ncs:
            L_, d_, a_ = L.copy(), d.copy(), a.copy()
            z, s = f(L_, d_, a_, nc)
            expect(np.array_equal(L_, L) and np.array_equal(a_, a) and
                   np.array_equal(d_, d), f'{name} changed its input')
            judge(a, Q, z, s, want[:nc], f'{name} n={len(d)} ncands={nc}')


UNI = {
    1: [[[1]], [[-1]]],
    2: [[[1, 0], [0, 1]], [[1, 3], [0, 1]], [[2, 5], [1, 3]],
        [[0, 1], [-1, 7]]],
    3: [np.eye(3), [[1, 2, 5], [0, 1, -3], [0, 0, 1]],
        [[1, 0, 0], [4, 1, 0], [-7, 2, 1]],
        [[3, 4, 1], [2, 3, 1], [1, 1, 1]]],
    4: [np.eye(4), [[1, 2, -3, 4], [0, 1, 5, -6], [0, 0, 1, 2],
                    [0, 0, 0, 1]],
        [[0, 0, 0, 1], [0, 0, 1, 6], [0, 1, -4, 3], [1, 2, 2, -9]]],
}


def unis(n):
    out = []
    for u in UNI[n]:
        u = np.array(u, dtype=float)
        assert abs(abs(np.linalg.det(u))-1) < 1e-9, 'HARNESS unimodular'
        out.append((u, np.round(np.linalg.inv(u))))
    return out


def case(fr, Lc, d, ncs, offs):
    d = np.array(d, dtype=float)
    a = np.array(fr, dtype=float)
    L, Q = mat(Lc, d)
    want = brute(a, Q, max(ncs))
    tri(a, L, d, Q, want, ncs)
    for k, (U, Ui) in enumerate(unis(len(d))):
        run_ml(a, Q, want, U, Ui, ncs, offs if k % 2 else 0)


def decomp(Lc, d):
    """ factors reproduce the covariance, the reduction is unimodular and
    leaves the problem unchanged """
    d = np.array(d, dtype=float)
    n = len(d)
    for U, _ in unis(n):
        _, Q = mat(Lc, d)
        Q = U.T@Q@U
        Q = (Q+Q.T)/2
        Q0 = Q.copy()
        if hasattr(ml, 'ldldecom'):
            L, dd = ml.ldldecom(Q)
            expect(np.array_equal(Q, Q0), 'ldldecom changed its input')
            sc = np.max(np.abs(Q))
            expect(np.max(np.abs(L.T@np.diag(dd)@L-Q)) < 1e-9*sc,
                   'L^T D L differs from the covariance')
            expect(np.allclose(np.triu(L, 1), 0) and
                   np.allclose(np.diag(L), 1), 'L not unit lower triangular')
            if hasattr(ml, 'reduction'):
                L, dd, Z = ml.reduction(L, dd)
                expect(np.array_equal(Z, np.round(Z)) and
                       abs(abs(np.linalg.det(Z))-1) < 1e-6,
                       lambda: f'Z not unimodular {Z}')
                W = Z.T@Q@Z
                expect(np.max(np.abs(L.T@np.diag(dd)@L-W)) <
                       1e-9*max(sc, np.max(np.abs(W)))*n,
                       'decorrelated covariance is not Z^T Q Z')


def par(fr, d, Lc, P0):
    """ partial ambiguity resolution """
    d = np.array(d, dtype=float)
    n = len(d)
    a = np.array(fr, dtype=float)
    for U, Ui in unis(n):
        _, Q = mat(Lc, d)
        a2 = U.T@a
        Q2 = U.T@Q@U
        Q2 = (Q2+Q2.T)/2
        z, s, nfix, Ps = ml.mlambda(a2.copy(), Q2.copy(), parmode=2, P0=P0)
        z = np.asarray(z)
        expect(0 <= nfix <= n, f'nfix {nfix}')
        if nfix == 0:
            zz = z if z.ndim == 1 else z[:, 0]
            expect(np.max(np.abs(zz-a2)) < 1e-6*(1+np.max(np.abs(a2))),
                   lambda: f'nothing fixed but ambiguities {zz} != {a2}')
            if hasattr(ml, 'ldldecom') and hasattr(ml, 'reduction'):
                L, dd = ml.ldldecom(Q2)
                L, dd, Z = ml.reduction(L, dd)
                expect(sr(dd) < P0+1e-9,
                       f'success rate {sr(dd)} >= {P0} but nothing fixed')
                if n > 1:
                    expect(sr(dd[1:]) < P0+1e-9, 'leaving one out reaches '
                           f'{sr(dd[1:])} >= {P0} but nothing fixed')
            continue
        expect(Ps >= P0-1e-12, f'fixed with success rate {Ps} < {P0}')
        expect(z.shape == (n, 2) and len(s) == 2, 'candidate shape')
        if hasattr(ml, 'ldldecom') and hasattr(ml, 'reduction'):
            L, dd = ml.ldldecom(Q2)
            L, dd, Z = ml.reduction(L, dd)
            k = n-nfix
            expect(close(Ps, sr(dd[k:])), lambda: f'success rate {Ps}, '
                   f'of the fixed set {sr(dd[k:])}')
            if k > 0:
                expect(sr(dd[k-1:]) < P0+1e-9, f'{nfix} fixed although '
                       f'{nfix+1} reach {sr(dd[k-1:])}')
        else:
            k = n-nfix
            Z = None
        if k == 0:
            want = brute(a, Q, 2)
            judge(a, Q, np.round(Ui.T@z), s, want, 'PAR, all fixed')
            continue
        if Z is None:
            continue
        zb = Z.T@z
        za = Z.T@a2
        Qz = Z.T@Q2@Z
        want = brute(za[k:], Qz[k:, k:], 2)
        judge(za[k:], Qz[k:, k:], zb[k:, :], s, want, 'PAR subset')
        for i in range(2):
            r = za[:k]-Qz[:k, k:]@np.linalg.inv(Qz[k:, k:])@(
                za[k:]-np.round(zb[k:, i]))
            expect(np.max(np.abs(zb[:k, i]-r)) < 1e-5*(1+np.max(np.abs(r))),
                   lambda: f'remaining ambiguity {zb[:k, i]}, conditional '
                   f'estimate {r}')


def parfun(fr, d, Lc, P0, excl):
    """ parsearch called directly with its own factors """
    d = np.array(d, dtype=float)
    n = len(d)
    a = np.array(fr, dtype=float)
    L, Q = mat(Lc, d)
    zp, s, Qp, Zp, Ps, nfix, zf = ml.parsearch(
        a.copy(), Q.copy(), np.eye(n), L.copy(), d.copy(), sr(d), P0, 2,
        excl)
    k = 0
    while k < n-1 and sr(d[k:]) < P0:
        k += 1
    if abs(sr(d[k:])-P0) < 1e-9:
        return
    if k > excl or sr(d[k:]) < P0:
        expect(nfix == 0 and len(zp) == 0, f'{nfix} fixed, allowed none')
        expect(np.max(np.abs(np.asarray(zf)-a)) < 1e-9, 'float changed')
        return
    expect(nfix == n-k, f'{nfix} fixed, expected {n-k}')
    expect(close(Ps, sr(d[k:])), f'success rate {Ps} != {sr(d[k:])}')
    judge(a[k:], Q[k:, k:], zp, s, brute(a[k:], Q[k:, k:], 2), 'parsearch')


def ratio_par(fr, d, Lc):
    """ ratio based exclusion (mode 3): whatever is reported as fixed is an
    optimal integer solution of the reported size """
    d = np.array(d, dtype=float)
    n = len(d)
    a = np.array(fr, dtype=float)
    L, Q = mat(Lc, d)
    z, s, nfix, Ps = ml.mlambda(a.copy(), Q.copy(), parmode=3)
    z = np.asarray(z)
    want = brute(a, Q, 2)
    if nfix == n:
        judge(a, Q, z, s, want, 'mode 3, all fixed')
        return
    expect(nfix in (0, n-1), f'nfix {nfix}')
    expect(want[1]/want[0] < 2.0+1e-6, 'ambiguity left out although the '
           f'ratio is {want[1]/want[0]}')
    if nfix == 0:
        return
    # the reported distances belong to an (n-1)-dimensional marginal problem
    # of integer combinations: the conditional update has that distance
    Qi = np.linalg.inv(Q)
    for i in range(2):
        v = a-z[:, i]
        q = float(v@Qi@v)
        expect(close(q, s[i], 1e-5), lambda: f'mode 3: candidate {i} has '
               f'distance {q}, reported {s[i]}')
    expect(s[1] >= s[0], 'not in order')


def big(k):
    """ up to 12 strongly correlated ambiguities: diagonal problem with
    known solution behind a chain of unimodular transformations """
    n, kind = k
    for sc in (0.004, 0.05, 0.3):
        d = np.array([sc*(1+0.37*((i*5) % 7)) for i in range(n)])
        fr = np.array([(0.1+0.173*((i*3) % 5)) % 1-0.5 for i in range(n)])
        U = np.eye(n)
        for r in range(2 if kind < 3 else 3):
            for i in range(n):
                j = (i+1+kind+r) % n
                if i != j:
                    E = np.eye(n)
                    E[i, j] = [2, -3, 1, 5, -1][(i+r+kind) % 5]
                    U = U@E
        Ui = np.round(np.linalg.inv(U))
        if np.max(np.abs(U@Ui-np.eye(n))) > 1e-9:
            continue
        Q = np.diag(d)
        if np.linalg.cond(U.T@Q@U) > 1e10:
            continue
        want = brute(fr, Q, 2) if n <= 8 else sep(fr, d)
        ml_big(fr, Q, want, U, Ui)


def ml_big(a, Q, want, U, Ui):
    for off in (0, 1000, 20000000):
        offs = np.array([off*(1 if i % 2 else -1) for i in range(len(a))])
        a2 = U.T@(a+offs)
        Q2 = U.T@Q@U
        Q2 = (Q2+Q2.T)/2
        z, s, nfix, Ps = ml.mlambda(a2, Q2)
        zb = np.round(Ui.T@np.asarray(z))-offs[:, None]
        v = a-zb[:, 0]
        for i in range(2):
            v = a-zb[:, i]
            q = float(v@np.linalg.inv(Q)@v)
            expect(close(q, want[i], 1e-3), lambda: f'n={len(a)} candidate '
                   f'{i} at {q}, smallest {want[i]}')
            expect(close(s[i], q, 1e-3), f'reported {s[i]} true {q}')


def sep(a, d):
    """ diagonal problem: best and second best """
    z = np.round(a)
    q0 = float(np.sum((a-z)**2/d))
    q1 = min(q0+((1-abs(a[i]-z[i]))**2-(a[i]-z[i])**2)/d[i]
             for i in range(len(a)))
    return np.array([q0, q1])


def run(ck):
    T = ck.thorough
    ncs = (1, 2, 3, 6)
    # one ambiguity
    items = [((f,), (), (d,)) for f in np.linspace(-0.5, 0.5, 41)
             for d in (1e-6, 0.01, 0.3, 2.0, 50.0)]
    ck.pmap('n1', items, lambda c, x: c.case('n1', x, case, *x, (1, 2, 3, 6), 12345), chunk=40)
    # two
    fr2 = [-0.5, -0.3, 0.0, 0.2, 0.45, 0.5] if not T else \
        [-0.5, -0.4, -0.3, -0.1, 0.0, 0.1, 0.2, 0.33, 0.45, 0.5]
    L2 = [-2.5, -1.0, -0.6, -0.5, 0.0, 0.1, 0.4, 0.5, 1.3]
    D2 = [1e-4, 0.02, 0.3, 1.0, 9.0]
    items = [(f, (l,), d) for f in itertools.product(fr2, repeat=2)
             for l in L2 for d in itertools.product(D2, repeat=2)]
    ck.pmap('n2', items, lambda c, x: c.case('n2', x, case, *x, ncs, 777), chunk=100)
    # three
    fr3 = [-0.5, -0.2, 0.0, 0.37] if not T else [-0.5, -0.2, 0.0, 0.1, 0.37,
                                                 0.49]
    L3 = [-0.5, 0.0, 0.3, 0.7]
    D3 = [0.01, 0.3, 2.0]
    fs = list(itertools.product(fr3, repeat=3))
    items = []
    for i, (l, d) in enumerate(itertools.product(
            itertools.product(L3, repeat=3), itertools.product(D3,
                                                               repeat=3))):
        for j, f in enumerate(fs):
            if T or (i+j) % 16 == 0:
                items.append((f, l, d))
    ck.pmap('n3', items, lambda c, x: c.case('n3', x, case, *x, (1, 2, 4), -31), chunk=60)
    # four
    L4 = [-0.5, 0.2, 0.6]
    ls = list(itertools.product(L4, repeat=6))
    ds = list(itertools.product((0.02, 0.5), repeat=4))
    f4 = list(itertools.product((-0.5, 0.0, 0.3), repeat=4))
    items = []
    k = 0
    for l in ls:
        for d in ds:
            for j in range(1 if not T else 8):
                if T or k % 8 == 0:
                    items.append((f4[(k*7+j*13) % len(f4)], l, d))
                k += 1
    ck.pmap('n4', items, lambda c, x: c.case('n4', x, case, *x, (1, 2, 5), 5), chunk=60)
    # decomposition and reduction
    items = [((l,), d) for l in L2 for d in itertools.product(D2, repeat=2)]
    items += [(l, d) for l in itertools.product(
        (-3.2, -0.5, 0.0, 0.3, 1.7), repeat=3)
        for d in itertools.product((1e-4, 0.3, 9.0), repeat=3)]
    items += [(l, d) for l in ls for d in ds]
    ck.pmap('decomp', items, lambda c, x: c.case('decomp', x, decomp, *x), chunk=300)
    # partial fixing around the thresholds
    Dp = [0.001, 0.02, 0.032, 0.05, 0.3]
    items = []
    for P0 in (0.9, 0.995, 0.9999):
        for n in (1, 2, 3):
            for d in itertools.product(Dp, repeat=n):
                for l in [(0.0,)*3, (0.5, -0.3, 0.4), (0.3, 0.45, -0.5)]:
                    for f in [(0.0, 0.0, 0.0), (0.3, -0.45, 0.2),
                              (-0.5, 0.1, 0.5)]:
                        items.append((f[:n], d, l[:n*(n-1)//2], P0))
    if not T:
        items = [x for i, x in enumerate(items) if i % 2 == 0]
    ck.pmap('par', items, lambda c, x: c.case('par', x, par, *x), chunk=100)
    if hasattr(ml, 'parsearch'):
        ck.pmap('parsearch', [x+(e,) for x in items for e in (0, 1, 2)],
                lambda c, x: c.case('parsearch', x, parfun, *x), chunk=200)
    items = [(f, d, l) for n in (2, 3) for f in itertools.product(
        (-0.5, -0.1, 0.2, 0.45), repeat=n)
        for d in itertools.product((0.01, 0.3), repeat=n)
        for l in itertools.product((-0.4, 0.3), repeat=n*(n-1)//2)]
    ck.pmap('ratio', items, lambda c, x: c.case('ratio', x, ratio_par, *x), chunk=100)
    ck.pmap('big', [(n, kind) for n in range(5, 13) for kind in range(6)],
            lambda c, x: c.case('big', x, big, x), chunk=2)
    ck.bound(dimension='1..4 exhaustive grids, 5..12 structured',
             candidates=[1, 2, 3, 4, 5, 6], fractions=[fr2, fr3],
             oracle='complete enumeration of the integer vectors inside the '
             'ellipsoid of the m-th best candidate')
