""" C32 decoder instances are independent of each other

Histories judged by the other checks (each with its own reference model) are
run as two tasks under a controlled scheduler: a task can be suspended before
every outermost call of a public method (and constructor) of the library's
decoder and estimator classes. Every enumerated schedule must leave both
tasks with exactly the results of the reference models.
"""
import copy
import importlib
import inspect
import itertools
import multiprocessing as mp
import os
import shutil
import sys
import threading
import numpy as np
from cssrlib import gnss
from mc.ewsdata import here
from mc.core import expect, Mismatch

CLASSES = [('cssrlib', 'cssr cssre'), ('cssr_bds', 'cssr_bds'),
           ('cssr_has', 'cssr_has cnav_msg'), ('cssr_mdc', 'cssr_mdc'),
           ('cssr_pvs', 'cssr_pvs'), ('dgps', 'dgpsDec'),
           ('ewss', 'ewsDec jmaDec camfDec'), ('osnma', 'osnma'),
           ('peph', 'peph atxdec biasdec'), ('pntpos', 'stdpos'),
           ('ppprtk', 'ppprtkpos'), ('pppssr', 'pppos'),
           ('qznma', 'qznma'), ('rawnav', 'RawNav rcvDec'),
           ('rinex', 'rnxdec rnxenc'), ('rtcm', 'rtcm rtcme'),
           ('rtk', 'rtkpos'), ('sbas', 'sbasDec')]
# constructors which read files of the working directory set by the harness
NOYIELD = {'ewsDec', 'jmaDec', 'camfDec'}
MODULES = ['c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11',
           'c12', 'c14', 'c15', 'c16', 'c17', 'c18', 'c19', 'c20', 'c21',
           'c22', 'c23', 'c24', 'c25', 'c27', 'c31', 'c34',
           'c35']

# histories which use a global of the harness
SKIP = {'c05': ('header',)}

loc = threading.local()


class Task(threading.Thread):
    """ a history which proceeds call by call """

    def __init__(self, fn, a, k):
        super().__init__(daemon=True)
        self.fn, self.a, self.k = fn, a, k
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.budget = 0
        self.calls = 0
        self.over = False
        self.exc = None
        self.start()

    def run(self):
        self.go.acquire()
        loc.task, loc.depth = self, 0
        try:
            self.fn(*self.a, **self.k)
        except BaseException as e:      # noqa: judged by the scheduler
            self.exc = e
        loc.task = None
        self.over = True
        self.back.release()

    def point(self):
        """ before an outermost call """
        if self.budget == 0:
            self.back.release()
            self.go.acquire()
        self.budget -= 1
        self.calls += 1

    def advance(self, n, wait=None):
        """ n more calls (-1: to the end) """
        if self.over or n == 0:
            return
        self.budget = n
        self.go.release()
        if not self.back.acquire(timeout=wait):
            self.over = True
            self.exc = RuntimeError('no termination')


def wrap(f, ctor):
    def w(*a, **k):
        t = getattr(loc, 'task', None)
        if t is None:
            return f(*a, **k)
        if loc.depth == 0 and ctor is not None:
            t.point()
        loc.depth += 1
        try:
            return f(*a, **k)
        finally:
            loc.depth -= 1
    w.__name__ = f.__name__
    w.__doc__ = f.__doc__
    w.__wrapped__ = f
    return w


def install():
    for mod, names in CLASSES:
        m = importlib.import_module('cssrlib.'+mod)
        for n in names.split():
            c = getattr(m, n, None)
            if c is None:
                continue
            for k, f in list(vars(c).items()):
                if not inspect.isfunction(f):
                    continue
                if k == '__init__':
                    setattr(c, k, wrap(f, None if n in NOYIELD else True))
                elif not k.startswith('_'):
                    setattr(c, k, wrap(f, True))


class PerTask(dict):
    """ store of the harness: one per task """

    def key(self, k):
        return (id(getattr(loc, 'task', None)), k)

    def __contains__(self, k):
        return dict.__contains__(self, self.key(k))

    def __getitem__(self, k):
        return dict.__getitem__(self, self.key(k))

    def __setitem__(self, k, v):
        if len(self) > 8:
            self.clear()
        dict.__setitem__(self, self.key(k), v)


class Found(Exception):
    pass


class Recorder:
    """ stands in for the Check of another module: keeps cases """

    def __init__(self, per):
        self.thorough, self.seed, self.only = False, 1, None
        self.per = per
        self.cases = {}

    def case(self, g, key, fn, *a, steps=1, timeout=None, **k):
        self.cases.setdefault(g, []).append((fn, a, k))

    def pmap(self, g, items, fn, chunk=None, timeout=None):
        items = list(items)
        n = len(items)
        for i in sorted({j*(n-1)//max(self.per-1, 1)
                         for j in range(self.per)} if n else ()):
            fn(self, items[i])

    def bfs(self, *a, **k):
        return None

    def bound(self, **k):
        return None

    def state(self, *a):
        return None

    def step(self, *a):
        return None

    def outcome(self, *a):
        return None


_lib = {}


def library(mod, per=5):
    """ representative cases of a module: [(group, index, fn, args, kw)] """
    if mod in _lib:
        return _lib[mod]
    try:
        m = importlib.import_module('mc.'+mod)
    except ModuleNotFoundError:
        _lib[mod] = []
        return []
    if mod == 'c34':
        m._C = PerTask()
    r = Recorder(per)
    if mod == 'c20':
        m.DIR = m.mkdirs()      # removed at the end of run()
        m.checks(r)
    else:
        m.run(r)
    for g in SKIP.get(mod, ()):
        r.cases.pop(g, None)
    out = []
    for g in sorted(r.cases):
        v = r.cases[g]
        n = len(v)
        for i in sorted({j*(n-1)//max(per-1, 1) for j in range(per)}):
            out.append((g, i)+v[i])
    _lib[mod] = out
    return out


def calls(fn, a, k):
    t = Task(fn, a, k)
    t.advance(-1, 30)
    return t.calls, t.exc


def pick(mod, num, lo, hi):
    """ indices of cases with lo..hi calls, of different groups first """
    import time
    out = {}
    for j, (g, i, fn, a, k) in enumerate(library(mod)):
        if len(out.get(g, ())) >= num:
            continue
        t0 = time.time()
        n, e = calls(fn, a, k)
        dt = time.time()-t0     # bounds the cost only
        if e is not None:
            if isinstance(e, AssertionError) and not isinstance(e, Mismatch):
                raise e
            # reported by the pairs it is part of
            n, dt = min(max(n, lo), hi), 0
        if lo <= n <= hi and dt < 0.5:
            out.setdefault(g, []).append((n, j))
    sel = []
    for d in range(num):
        for g in sorted(out):
            if d < len(out[g]):
                sel.append(out[g][d])
    return sel


def schedules(na, nb, limit):
    """ lists of (task, calls); all merges when few, otherwise all schedules
    with at most three changes of the task """
    n = 1
    for i in range(nb):
        n = n*(na+i+1)//(i+1)
    if n <= limit:
        for pos in itertools.combinations(range(na+nb), na):
            s = [0 if i in pos else 1 for i in range(na+nb)]
            yield [(t, len(list(g))) for t, g in itertools.groupby(s)]
        return

    def cuts(m, most):
        if m <= most:
            return list(range(m+1))
        return sorted({round(j*m/most) for j in range(most+1)})
    most = max(int(limit**0.5)-1, 2)
    for a in cuts(na, most):
        for b in cuts(nb, most):
            yield [(0, a), (1, b), (0, na-a), (1, nb-b)]


def play(A, B, sch):
    ts = [Task(*A), Task(*B)]
    for t, n in sch:
        ts[t].advance(n)
    for t in ts:
        t.advance(-1)
    for k, t in enumerate(ts):
        if t.exc is not None:
            raise t.exc
    return ts


def c_pair(ma, ja, mb, jb, na, nb, limit):
    ga = library(ma)[ja]
    gb = library(mb)[jb]
    for sch in schedules(na, nb, limit):
        try:
            ts = play(ga[2:], gb[2:], sch)
        except Mismatch as e:
            raise Mismatch('%s %s with %s %s, schedule %s: %s' % (
                ma, ga[0], mb, gb[0], sch, e))
        expect(ts[0].calls == na and ts[1].calls == nb,
               lambda: '%s %s with %s %s: other calls than alone' % (
                   ma, ga[0], mb, gb[0]))


def canon(v, depth=0):
    """ value of an attribute in a comparable form """
    if isinstance(v, np.ndarray):
        return ('array', str(v.dtype), v.shape, v.tobytes()
                if v.dtype != object else repr(v.tolist()))
    if isinstance(v, dict):
        return ('dict', sorted((repr(k), repr(canon(x, depth+1)))
                               for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return [canon(x, depth+1) for x in v]
    if isinstance(v, (set, frozenset)):
        return ('set', sorted(repr(x) for x in v))
    if isinstance(v, (int, float, complex, str, bytes, bytearray,
                      type(None))):
        return repr(v)
    if hasattr(v, '__dict__') and depth < 4 and not callable(v):
        return (type(v).__name__, sorted(
            (k, repr(canon(x, depth+1))) for k, x in vars(v).items()))
    return type(v).__name__


def state(o):
    """ public attributes of an instance, class-wide ones included """
    d = {}
    for k in dir(o):
        if k.startswith('_') or 'cache' in k.lower() or 'memo' in k.lower():
            continue
        try:
            v = getattr(o, k)
        except Exception:       # noqa: property without a value yet
            continue
        if not callable(v):
            d[k] = canon(v)
    return d


def instances():
    """ new instance of every class """
    out = {}
    for mod, names in CLASSES:
        m = importlib.import_module('cssrlib.'+mod)
        for n in names.split():
            c = getattr(m, n, None)
            if c is None:
                continue
            if n in EST:
                kw = {}
                if n == 'ppprtkpos':        # has no default
                    kw['config'] = copy.deepcopy(gnss.default_config)
                    kw['config']['nav']['elmin'] = 10.0
                out[n] = c(gnss.Nav(nf=2), np.array([-3962108.7, 3381309.5,
                                                    3668678.6]), **kw)
                out[n+' nav'] = out[n].nav
            elif n in NOYIELD or n == 'dgpsDec':
                with here():
                    out[n] = c()
            elif n == 'osnma':
                out[n] = c(logfile=os.devnull)
            else:
                out[n] = c()
    out['Nav'] = gnss.Nav()
    out['Eph'] = gnss.Eph()
    out['Obs'] = gnss.Obs()
    return out


EST = ('stdpos', 'pppos', 'ppprtkpos', 'rtkpos')


def differ(a, b):
    for n in a:
        for k in a[n]:
            if a[n][k] != b[n].get(k):
                return '%s.%s: %s instead of %s' % (
                    n, k, str(b[n].get(k))[:80], str(a[n][k])[:80])
    return None


def c_new(mod, js):
    """ instances made before stay as they were and instances made after
    start like them, whatever the histories have received """
    old = instances()
    ref = {n: state(o) for n, o in old.items()}
    for j in js:
        g = library(mod)[j]
        g[2](*g[3], **g[4])
        d = differ(ref, {n: state(o) for n, o in old.items()})
        expect(d is None, lambda: '%s %s changes an idle instance: %s' % (
            mod, g[0], d))
        d = differ(ref, {n: state(o) for n, o in instances().items()})
        expect(d is None, lambda: '%s %s changes new instances: %s' % (
            mod, g[0], d))


def run(ck):
    install()
    th = ck.thorough
    num = 3 if th else 2
    limit = 300 if th else 56
    for m in MODULES:
        library(m)
    try:
        explore(ck, th, num, limit)
    finally:
        shutil.rmtree(sys.modules['mc.c20'].DIR)


def explore(ck, th, num, limit):
    sel = {}
    # the histories are timed in child processes: no task starts here
    with mp.get_context('fork').Pool(8) as pool:
        for m, s in zip(MODULES, pool.starmap(
                pick, [(m, num, 2, 60) for m in MODULES], chunksize=1)):
            sel[m] = s[:18 if th else 8]
    nsch = 0
    items = []
    for m in MODULES:
        for (na, a), (nb, b) in itertools.product(sel[m], repeat=2):
            items.append((m, a, m, b, na, nb, limit))
            nsch += sum(1 for _ in schedules(na, nb, limit))
    for ma, mb in itertools.product(MODULES, repeat=2):
        if ma != mb:
            for (na, a), (nb, b) in itertools.product(
                    sel[ma][:2 if th else 1], sel[mb][:2 if th else 1]):
                items.append((ma, a, mb, b, na, nb, 12))
                nsch += sum(1 for _ in schedules(na, nb, 12))
    ck.bound(histories=sum(len(v) for v in sel.values()),
             pairs=len(items), schedules=nsch,
             merges='all merges of two histories when at most %d, otherwise '
             'schedules with at most three switches' % limit)
    ck.step(nsch)
    ck.pmap('new', [(m, [j for _, j in sel[m][k:k+4]]) for m in MODULES
                    for k in range(0, len(sel[m]), 4)],
            lambda c, x: c.case('new', x, c_new, *x), chunk=1)
    ck.pmap('pair', items, lambda c, x: c.case('pair', x, c_pair, *x),
            chunk=8)
