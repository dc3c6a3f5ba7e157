""" bit-field layouts of the published message formats

A layout is a list of (name, kind, bits, scale); kind is u (unsigned),
s (two's complement), m (sign-magnitude) or x (filler, not compared).
"""
from mc.bits import BW


def put(w, lay, v, fill=0):
    """ append the raw values v (dict name -> int) in the layout """
    for name, kind, n, *_ in lay:
        x = v.get(name, fill and (1 << n)-1) if kind == 'x' else v[name]
        if kind in 'ux':
            w.u(n, x)
        elif kind == 's':
            w.s(n, x)
        else:
            w.sm(n, x)
    return w


def size(lay):
    return sum(f[2] for f in lay)


def rng(kind, n):
    if kind == 'u':
        return 0, (1 << n)-1
    if kind == 's':
        return -(1 << (n-1)), (1 << (n-1))-1
    return -(1 << (n-1))+1, (1 << (n-1))-1


def extremes(kind, n, full=False):
    """ boundary and pattern values of one field """
    lo, hi = rng(kind, n)
    if hi-lo < 16 and full:
        return list(range(lo, hi+1))
    out = [lo, hi, 0, 1, -1, lo+1, hi-1, hi//3, lo//3 if lo else hi//5,
           hi//2, hi//2+1]
    return sorted({x for x in out if lo <= x <= hi})


def typical(lay, seed=1):
    """ distinct non-trivial values for all the fields """
    v = {}
    x = 0x9e3779b97f4a7c15*(2*seed+1) & (2**64-1)
    for name, kind, n, *_ in lay:
        if kind == 'x':
            continue
        x = (x*6364136223846793005+1442695040888963407) & (2**64-1)
        lo, hi = rng(kind, n)
        v[name] = lo + (x >> 20) % (hi-lo+1)
    return v


def sweeps(lay, fixed=(), full=False, skip=None):
    """ (label, values): each field through its extremes with the others at
    typical values, and all fields jointly at their extremes """
    skip = skip or {}
    base = typical(lay)
    base.update(dict(fixed))
    yield 'base', dict(base)
    fx = dict(fixed)
    for name, kind, n, *_ in lay:
        if kind == 'x' or name in fx:
            continue
        for x in extremes(kind, n, full):
            if x in skip.get(name, ()):
                continue
            v = dict(base)
            v[name] = x
            yield f'{name}={x}', v
    for lab, f in (('min', lambda k, n: rng(k, n)[0]),
                   ('max', lambda k, n: rng(k, n)[1]),
                   ('min1', lambda k, n: rng(k, n)[0]+1),
                   ('max1', lambda k, n: rng(k, n)[1]-1),
                   ('one', lambda k, n: 1 if rng(k, n)[1] >= 1 else 0)):
        v = dict(base)
        ok = True
        for name, kind, n, *_ in lay:
            if kind == 'x' or name in fx:
                continue
            v[name] = f(kind, n)
            if v[name] in skip.get(name, ()):
                v[name] = base[name]
        yield lab, v
    for s in range(2, 5):
        v = typical(lay, s)
        v.update(fx)
        for k in skip:
            if k in v and v[k] in skip[k]:
                v[k] = base[k]
        yield f'typ{s}', v


def close(a, b, rel=1e-12, ab=0.0):
    """ equal up to rounding """
    if a is None or b is None:
        return a is b
    return abs(float(a)-float(b)) <= rel*max(abs(a), abs(b))+ab
