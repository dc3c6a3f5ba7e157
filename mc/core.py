"""
Framework of the checks: bounded exhaustive exploration of the code in /repo.

A check is a module mc/cXX.py with a function `run(ck)`.  It enumerates cases
(inputs, message histories, configurations, environment answers) completely
inside stated bounds and executes the real code on every one of them, comparing
each step with an independent reference model.  `Check` counts what was
explored, turns disagreements into replayable violations and writes the
evidence file.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CSSRLIB_REPO', '/repo')
NPROC = int(os.environ.get('MC_NPROC', '8'))
MAXVIOL = 8


class Mismatch(Exception):
    """ the code disagrees with the reference model """

    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class CaseTimeout(BaseException):
    pass


def expect(cond, msg, tag=None):
    if not cond:
        raise Mismatch(msg() if callable(msg) else str(msg), tag)


def _alarm(sig, frm):
    raise CaseTimeout()


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in o]
    if isinstance(o, (bytes, bytearray)):
        return o.hex()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)


def keyhash(k):
    return hashlib.blake2b(repr(k).encode(), digest_size=8).digest()


class Check:
    """ bookkeeping of one property check """

    def __init__(self, pid, tier, seed, only=None):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.only = only           # replay: (group, key)
        self.t0 = time.time()
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.groups = {}
        self.samples = []
        self.viol = []
        self.nviol = 0
        self.known_hit = {}
        self.bounds = {}
        self.known = load_known(pid)
        self.case_timeout = 60
        self.inworker = False

    # --- counting -----------------------------------------------------
    def state(self, key):
        """ register a distinct explored state (canonical form) """
        h = keyhash(key)
        if h in self._states:
            return False
        self._states.add(h)
        return True

    def step(self, n=1):
        """ register n executed transitions of the implementation """
        self.transitions += n

    def outcome(self, o):
        if len(self.outcomes) < 100000:
            self.outcomes.add(keyhash(o))

    def bound(self, **kw):
        self.bounds.update(kw)

    # --- cases ----------------------------------------------------------
    def case(self, group, key, fn, *args, steps=1, timeout=None):
        """
        execute one case: fn(*args) drives the code and raises Mismatch when
        it disagrees with the model; any other exception of the code is a
        violation as well (the cases are all inside the specified domain)
        """
        if self.only is not None and (group, repr(key)) != self.only:
            return None
        if self.nviol >= MAXVIOL:
            return None
        self.transitions += steps
        self.traces += 1
        g = self.groups.setdefault(group, [0, 0])
        g[0] += 1
        self.state((group, key))
        limit = timeout or self.case_timeout
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            r = fn(*args)
            if r is not None:
                self.outcome((group, r))
            ns = sum(1 for s in self.samples if s['group'] == group)
            if ns == 0 or (g[0] == 1000):
                if len(self.samples) < 40:
                    self.samples.append({'group': group,
                                         'case': str(key)[:300],
                                         'outcome': str(r)[:200]})
            return r
        except Mismatch as e:
            self.violation(group, key, str(e), e.tag)
        except CaseTimeout:
            self.violation(group, key, f'no termination within {limit} s')
        except MemoryError:
            self.violation(group, key, 'memory exhausted')
        except AssertionError as e:
            if e.args and str(e.args[0]).startswith('HARNESS'):
                raise
            self.violation(group, key, 'assertion: ' + brief_tb())
        except Exception:
            self.violation(group, key, 'exception: ' + brief_tb())
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return None

    def violation(self, group, key, msg, tag=None):
        for k in self.known:
            if k['group'] == group and (k['case'] == '*' or
                                        k['case'] == repr(key)) and \
                    (not k.get('tag') or k['tag'] == tag):
                self.known_hit[k['id']] = k
                return
        g = self.groups.setdefault(group, [0, 0])
        g[1] += 1
        self.nviol += 1
        if len(self.viol) < MAXVIOL:
            self.viol.append({'property': self.pid, 'group': group,
                              'case': repr(key), 'message': msg,
                              'tag': tag, 'tier': self.tier})

    # --- parallel -------------------------------------------------------
    def pmap(self, group, items, fn, chunk=None, timeout=None):
        """
        run fn(ck, item) for all items in worker processes; each worker has
        its own Check and the results are merged
        """
        items = list(items)
        if NPROC <= 1 or len(items) < 2 or self.only is not None:
            for it in items:
                fn(self, it)
            return
        global _PCK, _PFN
        _PCK = self
        _PFN = fn
        n = min(NPROC, len(items))
        if chunk is None:
            chunk = max(1, min(200, len(items)//(n*4)))
        ctx = mp.get_context('fork')
        with ctx.Pool(n, initializer=_winit) as pool:
            for res in pool.imap_unordered(
                    _work, [items[i:i+chunk]
                            for i in range(0, len(items), chunk)]):
                self.merge(res)

    def merge(self, res):
        self._states |= res['states']
        self.transitions += res['transitions']
        self.traces += res['traces']
        self.outcomes |= res['outcomes']
        for g, (a, b) in res['groups'].items():
            c = self.groups.setdefault(g, [0, 0])
            c[0] += a
            c[1] += b
        for s in res['samples']:
            if len(self.samples) < 40 and \
                    sum(1 for x in self.samples
                        if x['group'] == s['group']) < 2:
                self.samples.append(s)
        for v in res['viol']:
            self.nviol += 1
            if len(self.viol) < MAXVIOL:
                self.viol.append(v)
        self.known_hit.update(res['known'])

    # --- explicit-state search -------------------------------------------
    def bfs(self, group, build, enabled, canon, check, depth,
            max_states=None):
        """
        breadth-first search over event histories.  A state is the history
        reaching it; `build(hist)` replays it on fresh real objects (and on
        the reference model) and returns the pair, `canon(pair)` the canonical
        form, `check(pair, hist)` evaluates the invariants.
        """
        seen = {keyhash(canon(build(())))}
        self.state((group, canon(build(()))))
        frontier = [()]
        capped = False
        for d in range(depth):
            nxt = []
            for h in frontier:
                for ev in enabled(h):
                    hist = h+(ev,)
                    out = {}

                    def go():
                        p = build(hist)
                        check(p, hist)
                        out['c'] = canon(p)
                    self.case(group, hist, go, steps=1)
                    if 'c' not in out:
                        continue
                    k = keyhash(out['c'])
                    if k not in seen:
                        seen.add(k)
                        self.state((group, out['c']))
                        nxt.append(hist)
                    if max_states and len(seen) >= max_states:
                        capped = True
                        break
                if capped:
                    break
            frontier = nxt
            if capped or not frontier:
                break
        self.bounds[group] = {'depth_reached': d+1 if depth else 0,
                              'states': len(seen), 'capped': capped,
                              'closed': not frontier}
        return len(seen)

    # --- end ------------------------------------------------------------
    def finish(self):
        rdir = os.path.join(ROOT, 'evidence', 'replay')
        lines = []
        for i, v in enumerate(self.viol):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, f'{self.pid}-{i}.json')
            v['replay_cmd'] = f'./run.sh {self.pid} --replay {p}'
            with open(p, 'w') as f:
                json.dump(jsonable(v), f, indent=1)
            lines.append((v, p))
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {
                'states': len(self._states),
                'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'distinct_outcomes': len(self.outcomes),
                'groups': {g: {'cases': a, 'violations': b}
                           for g, (a, b) in self.groups.items()},
                'bounds': jsonable(self.bounds),
                'samples': jsonable(self.samples) or ['none'],
            },
            'violations': len(self.viol),
            'known_findings': sorted(self.known_hit),
            'wall_s': round(time.time()-self.t0, 2)}
        if self.only is None:
            os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
            tmp = os.path.join(ROOT, 'evidence', f'.{self.pid}.tmp')
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1)
            os.replace(tmp, os.path.join(ROOT, 'evidence',
                                         f'{self.pid}.json'))
        return ev, lines


def brief_tb():
    et, e, tb = sys.exc_info()
    fr = traceback.extract_tb(tb)
    loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}({f.name})'
                      for f in reversed(fr[-4:]))
    return f'{et.__name__}: {e} at {loc}'[:600]


def _winit():
    sys.stdout = open(os.devnull, 'w')
    signal.signal(signal.SIGALRM, _alarm)


def _work(items):
    base = _PCK
    c = Check(base.pid, base.tier, base.seed, base.only)
    c.case_timeout = base.case_timeout
    c.inworker = True
    for k, v in base.__dict__.items():
        if k.startswith('x_'):
            setattr(c, k, v)
    for it in items:
        _PFN(c, it)
    return {'states': c._states, 'transitions': c.transitions,
            'traces': c.traces, 'outcomes': c.outcomes, 'groups': c.groups,
            'samples': c.samples, 'viol': c.viol, 'known': c.known_hit}


def load_known(pid):
    """ entries `finding: property=<id> group=<g> case=<repr> [tag=] :: text` """
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for ln in f:
            ln = ln.strip()
            if not ln.startswith('finding: '):
                continue
            d = json.loads(ln[len('finding: '):])
            if d['property'] == pid:
                out.append(d)
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i+1]
            i += 1
        elif argv[i] == '--replay':
            with open(argv[i+1]) as f:
                v = json.load(f)
            only = (v['group'], v['case'])
            tier = v.get('tier', tier)
            i += 1
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    real = sys.stdout
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    warnings.simplefilter('ignore')
    sys.path.insert(0, os.path.join(REPO, 'src'))
    ck = Check(pid, tier, seed, only)
    sys.stdout = open(os.devnull, 'w')
    try:
        import numpy as np
        np.seterr(all='ignore')
        import cssrlib
        src = os.path.realpath(os.path.dirname(cssrlib.__file__))
        assert src.startswith(os.path.realpath(REPO)), src
        try:
            mod = importlib.import_module(f'mc.{pid.lower()}')
            mod.run(ck)
        except Exception as e:
            # code under test failing while a harness prepares its world
            tb = traceback.extract_tb(e.__traceback__)
            k = max((i for i, f in enumerate(tb) if f.filename.startswith(
                os.path.join(ROOT, 'mc'))), default=-1)
            if not any(os.path.realpath(f.filename).startswith(src+os.sep)
                       for f in tb[k+1:]) and \
                    src+os.sep not in str(e.__cause__):
                raise
            traceback.print_exc()
            ck.violation('preparation', 'world', 'exception: '+brief_tb())
    finally:
        sys.stdout = real
    ev, lines = ck.finish()
    for k in sorted(ck.known_hit):
        d = ck.known_hit[k]
        print(f"KNOWN-FINDING: property={pid} {d['text']}")
    c = ev['coverage']
    print(f"{pid} {tier}: states={c['states']} transitions={c['transitions']}"
          f" traces={c['traces_validated_against_impl']}"
          f" outcomes={c['distinct_outcomes']} wall={ev['wall_s']}s")
    for g, x in c['groups'].items():
        print(f"   {g}: {x['cases']} cases, {x['violations']} violations")
    for v, p in lines:
        print(f"--- {v['group']} {v['case'][:200]}\n    {v['message']}")
    for v, p in lines:
        print(f"VIOLATION property={pid} replay={p}")
    real.flush()
    return 1 if lines else 0


if __name__ == '__main__':
    from mc import core
    sys.exit(core.main())
