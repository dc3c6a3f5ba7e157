""" C17 raw navigation messages give consistent, correctly scaled ephemerides
"""
import itertools
import math
from cssrlib.rawnav import RawNav
from cssrlib.gnss import uGNSS, timediff, gpst2time
from mc.core import expect
from mc.rtcmenc import secs
from mc import rawfmt
from mc.rawfmt import WK, DAY, BDT0, GST0, LEAP, URA, wt, width

FM = {f.name: f for f in rawfmt.all_formats()}
T0 = 2300*WK+3*DAY+7200*3+30*4          # regular start of a cycle
REL = 1e-11


def start(f, t=T0):
    """ start of a cycle of the format at or after t """
    o = {uGNSS.BDS: 14, uGNSS.GLO: LEAP}.get(f.sys, 0)
    u = f.cycle if f.cycle in (30, 15, 18, 3, 60, 50) else 48
    if f.name.startswith('GAL'):
        u = 10
    return math.ceil((t-o)/u)*u+o


def sisa(x):
    if x < 50:
        return x*0.01
    if x < 75:
        return 0.5+(x-50)*0.02
    if x < 100:
        return 1.0+(x-75)*0.04
    if x < 126:
        return 2.0+(x-100)*0.16
    return None


def near(x, period, t):
    y = x+math.floor((t-x)/period+0.5)*period
    if abs(abs(y-t)-period/2) < 2*LEAP:
        return None
    return y


class Bad(Exception):
    pass


def num(x, y, what):
    if not abs(float(x)-y) <= REL*abs(y)+1e-30:
        raise Bad(f'{what}: {float(x)!r}, transmitted {y!r}')


def chk(c, what):
    if not c:
        raise Bad(what)


def dtime(x, y, what):
    if y is not None:
        chk(abs(secs(x)-y) < 1e-3, f'{what} off by {secs(x)-y} s')


CHECKED = set('iode iodc af0 af1 af2 crs crc cuc cus cic cis deln delnd M0 e '
              'omg OMG0 OMGd i0 idot Adot tgd tgd_b svh l2p fit gamn taun '
              'dtaun age beta dtau_c sattype tops iodn aode aodc'.split())
SKIP = ()


def judge(f, e, prn, v, tots, free):
    """ compare a reported ephemeris with the parameters of one issue
        free: parameters of the parts without issue of data, or None """
    fld = f.fields()
    fr = {n for p in f.parts if p.pid in getattr(f, 'free', ())
          for n, _, _, _ in p.fields}
    only = {n for p in f.parts if p.pid not in getattr(f, 'free', ())
            for n, _, _, _ in p.fields}
    fr -= only
    chk(int(e.sat) == f.sat(prn), f'satellite {e.sat}')
    chk(int(e.mode) == f.mode, f'message type {e.mode}')
    for n, (_, kd, ch, sc) in fld.items():
        if n in fr and free is None:
            continue
        x = free[n] if n in fr else v[n]
        if kd in 'xtgfhika':
            continue
        if n in CHECKED:
            y = x*sc
            num(getattr(e, n), y, n)
        elif n == 'sqrtA':
            num(e.A, (x*sc)**2, 'A')
            continue
        elif n == 'dA':
            A0 = f.A0
            if A0 == 'bds':
                A0 = 27906100.0 if v['sattype'] == 3 else 42162200.0
            num(e.A, A0+x*sc, 'A')
        elif n == 'dOMGd':
            num(e.OMGd, x*sc+f.OMGd0, 'OMGd')
        elif n == 'urai':
            num(e.sva, URA[x], 'accuracy')
        elif n == 'uras':
            if x >= 0:
                num(e.sva, URA[x], 'accuracy')
            else:
                chk(0 < e.sva <= 2.0, 'accuracy of negative index')
        elif n == 'ura':
            chk((e.svh != 0) == (x == 15), 'health')
            if x < 15:
                num(e.sva, URA[x], 'accuracy')
        elif n == 'sva':
            num(e.sva, x, 'accuracy')
        elif n == 'sisa':
            s = sisa(x)
            if s is not None:
                num(e.sva, round(s, 6), 'SISA') if abs(
                    float(e.sva)-s) > 1e-9 else None
            else:
                chk(not e.sva >= 0, f'SISA {x} reported as {e.sva} m')
        elif n in ('ura0', 'ura1', 'ura2', 'ura_ed'):
            num(e.urai[('ura0', 'ura1', 'ura2', 'ura_ed').index(n)], x, n)
        elif n[:3] == 'isc':
            num(e.isc[int(n[3])], x*sc, n)
        elif len(n) == 2 and n[1] in 'xyz':
            num(getattr(e, dict(p='pos', v='vel', a='acc', d='dpos')[n[0]])
                ['xyz'.index(n[1])], x*sc, n)
        elif n in ('fe', 'ft'):
            num(e.urai[('fe', 'ft').index(n)], x, n)
        elif n == 'integ':
            num(e.integ, x, n)
        elif n == 'status':
            num(e.status, x, n)
        elif n == 'flag':
            num(e.flag, x, n)
        elif n in ('tau_c', 'tau_gps'):
            num(getattr(e, n), x*sc, n)
        elif n not in ('prn', 'code') and n[:3] not in ('sow', 'tow') and \
                n[:2] != 'ts' and n not in ('toi', 'itow'):
            assert 0, f'HARNESS field {n}'
    for n, h, l, kd, sc in getattr(f, 'split', ()):
        b = width(fld[h][2])+width(fld[l][2])
        x = v[h] << width(fld[l][2]) | v[l]
        if kd == 's' and x >> b-1:
            x -= 1 << b
        num(getattr(e, n), x*sc, n)
    if 'hs5' in v and free is not None:
        num(e.svh, free['hs5'] << 7 | free['dv5'] << 6 | free['hs1'] << 1 |
            free['dv1'], 'health')
    if 'hs5a' in v:
        num(e.svh, v['hs5a'] << 4 | v['dv5a'] << 3, 'health')
    if hasattr(f, 'code') and f.sys == uGNSS.GAL:
        num(e.code, f.code, 'data source')
    elif 'code' in v:
        num(e.code, v['code'], 'L2 code')
    if 'phs' in v:
        num(e.integ, v['alert'] << 2 | v['phs'] << 1 | v['isf'], 'integrity')
    elif 'isf' in v:
        num(int(e.integ) & 1, v['isf'], 'integrity')
    if 'ib2a' in v:
        num(e.integ, v['ib2a'] << 3 | v['ib1c'], 'integrity')
    if 'Re' in v:
        num(e.src, v['Re'] << 2 | v['Rt'], 'source')
    if f.name == 'GLO FDMA':
        num(e.frq, -3, 'frequency channel')
        num(e.flag, v['M'] << 7 | v['P4'] << 6 | v['P3'] << 5 |
            v['P2'] << 4 | v['P1'] << 2 | v['P'], 'flags')
    if 'tb' in v:
        num(e.iode, v['tb'], 'iode')
    if '_top' in v:
        dtime(e.top, v['_top'], 'top')
        num(e.tops, v['_top'] % WK, 'tops')
    # times
    if 'tot' in f.times:
        tr = [t for t in tots if abs(secs(e.tot)-t) < 1e-3]
        chk(tr, 'time of transmission off by %s s' %
            min((secs(e.tot)-t for t in tots), key=abs))
        tr = tr[0]
    else:
        tr = v['_tot']
    if 'tof' in f.times:
        chk(any(abs(secs(e.tof)-t) < 1e-3 for t in tots),
            'message frame time off by %s s' %
            min((secs(e.tof)-t for t in tots), key=abs))
    if 't0' in f.times:
        if v['t0']*16 < DAY:
            dtime(e.t0, near(v['t0']*16, DAY, tr), 't0')
        return
    base = {uGNSS.BDS: BDT0}.get(f.sys, 0)
    if f.sys == uGNSS.GLO:
        toe = v['tb']*f.unit
        if f.name == 'GLO FDMA':
            if toe < DAY:
                dtime(e.toe, near(toe-10800+LEAP, DAY, tr), 'toe')
        else:
            day = (tr-LEAP+10800)//DAY*DAY
            if toe < DAY:
                dtime(e.toe, day+toe-10800+LEAP, 'toe')
        return
    raw = v['toeh'] << 15 | v['toel'] if 'toeh' in v else v['toe']
    num(e.toes, raw*f.unit, 'toes')
    rt = v['toc'] if 'toc' in v else v['toe']
    if raw*f.unit < WK:
        toe = near(raw*f.unit+base, WK, tr)
        dtime(e.toe, toe, 'toe')
        if toe is not None:
            b = BDT0 if f.sys == uGNSS.BDS else 0
            chk(int(e.week) in (int((toe-b)//WK), int((tr-b)//WK)) or
                f.name == 'NavIC L1NAV', f'week {e.week}')
    if rt*f.unit < WK:
        dtime(e.toc, near(rt*f.unit+base, WK, tr), 'toc')


class Mon:
    """ a decoder with everything it received """

    def __init__(self):
        self.rn = RawNav()
        self.rx = {}        # (format, prn): list of (part, issue, values)
        self.n = 0

    def report(self, f, prn, e):
        rx = self.rx.get((f.name, prn), [])
        need = [p.pid for p in f.parts if p.pid not in getattr(f, 'opt', ())]
        fr = getattr(f, 'free', ())
        got = {}
        for p, k, v in rx:
            got.setdefault(k, {})[p] = v
        tots = sorted({v['_tot'] for _, _, v in rx})
        why = []
        for k in got:
            miss = [p for p in need if p not in got[k] and p not in fr]
            miss += [p for p in need if p in fr and
                     not any(q == p for q, _, _ in rx)]
            if miss:
                why.append(f'parts {miss} of issue {k} not received')
                continue
            v = got[k][[p for p in need if p not in fr][0]]
            last = [w for p, _, w in rx if p in fr]
            frees = [last[-1] if last else None]
            if getattr(f, 'opt', ()) or f.name == 'BDS B-CNAV2':
                frees = [None]
            try:
                judge(f, e, prn, v, tots, frees[0])
                return
            except Bad as x:
                why.append(f'issue {k}: {x}')
        expect(False, lambda: f'{f.name}: reported ephemeris: ' +
               '; '.join(why[:3]))

    def complete(self, f, prn, pid):
        """ whether the message just received has to be followed by a report
        """
        fr = getattr(f, 'free', ())
        op = getattr(f, 'opt', ())
        if pid in op:
            return False
        rx = self.rx[f.name, prn]
        last = {}
        for j, (p, k, v) in enumerate(rx):
            last[p] = (j, k, v)
        core = []
        for p in f.parts:
            if p.pid in op:
                continue
            if p.pid not in last:
                return False
            if p.pid not in fr:
                core.append(last[p.pid])
        if len({k for _, k, _ in core}) != 1:
            return False
        if f.order:
            if len({v['_t'] for _, _, v in core}) != 1:
                return False
            # in order of transmission, without parts of other cycles
            a = [j for j, _, _ in core]
            if a != sorted(a):
                return False
        return True

    def send(self, f, prn, k, v, i, rep=None):
        """ part i of the values v of issue k """
        p = f.parts[i]
        t = v['_t']+f.offs[i]
        w, s = wt(t)
        self.rx.setdefault((f.name, prn), []).append((p.pid, k, v))
        e = f.call(self.rn, int(w), int(s), f.sat(prn), p.build(v))
        self.n += 1
        if e is not None:
            self.report(f, prn, e)
        else:
            expect(not self.complete(f, prn, p.pid), lambda:
                   f'{f.name}: all parts received, nothing reported')
        return e

    def raw(self, f, prn, msg, t):
        """ message that carries no part of the ephemeris of prn """
        w, s = wt(t)
        e = f.call(self.rn, int(w), int(s), f.sat(prn), bytearray(msg))
        self.n += 1
        if e is not None:
            self.report(f, prn, e)


# groups ---------------------------------------------------------------------
def cycle_ok(m, f, prn, k, v):
    e = None
    for i in range(len(f.parts)):
        x = m.send(f, prn, k, v, i)
        e = x if x is not None else e
    expect(e is not None, f'{f.name}: nothing reported after all parts')


def field_case(name, fname, xs):
    f = FM[name]
    t = start(f)
    for x in xs:
        for prn in f.prns:
            m = Mon()
            v = f.values(prn, 0, t)
            v[fname] = x
            if fname == 'iodc' and 'iode' in v and f.name not in (
                    'BDS D1', 'BDS D2'):
                v['iode'] = x & 0xff
                if 'iode3' in v:
                    v['iode3'] = v['iode']
            if fname == 'iode' and 'iodc' in v and f.name not in (
                    'BDS D1', 'BDS D2'):
                continue
            if fname == 'toe' and 'toc' in v and 'CNAV' in f.name and \
                    f.sys in (uGNSS.GPS, uGNSS.QZS):
                v['toc'] = x
            cycle_ok(m, f, prn, 0, v)


def field_values(kd, b):
    if b == 1:
        return [0, 1]
    if kd in 's':
        return [-(1 << b-1), (1 << b-1)-1, -1, 0]+[1 << j for j in range(b-1)]\
            + [-(1 << b-1) | 1 << j for j in range(b-1)]
    if kd == 'm':
        M = (1 << b-1)-1
        return [M, -M, 0]+[1 << j for j in range(b-1)] + \
            [-(1 << j) for j in range(b-1)]
    return [(1 << b)-1, 0]+[1 << j for j in range(b)] + \
        [(1 << b)-1-(1 << j) for j in range(b)]


def time_case(name, t, d, dc):
    """ toe d seconds from transmission """
    f = FM[name]
    t = start(f, t)
    for prn in f.prns:
        for rx in (0,):
            m = Mon()
            toe = (t+d)
            unit = f.unit
            b = {uGNSS.BDS: BDT0, uGNSS.GLO: LEAP-10800}.get(f.sys, 0)
            toe = math.floor((toe-b)/unit)*unit+b
            toc = toe
            if dc and not (f.sys in (uGNSS.GPS, uGNSS.QZS) and
                           'CNAV' in name):
                toc = toe+dc*unit
            if name in ('GLO L3OC', 'GLO L1OC') and (toe-LEAP+10800)//DAY != \
                    (t-LEAP+10800)//DAY:
                continue
            v = f.values(prn, 0, t, toe, toc)
            # strings of GLONASS and pages over the end of the week/day
            cycle_ok(m, f, prn, 0, v)


def stream(f, prn, ks, t):
    """ broadcast: list of (values, issue, part) """
    out = []
    for c, k in enumerate(ks):
        v = f.values(prn, k, t+c*f.cycle)
        v0 = f.values(prn, k, t)
        if k != ks[0]:
            pass
        # same issue in all of its cycles: same time of ephemeris
        toe = t//7200*7200+7200*k
        v = f.values(prn, k, t+c*f.cycle, toe)
        del v0
        for i in range(len(f.parts)):
            out.append((v, k, i))
    return out


def loss_case(name, ks, lost, rep=0):
    f = FM[name]
    m = Mon()
    prn = f.prns[0]
    for j, (v, k, i) in enumerate(stream(f, prn, ks, start(f))):
        if lost >> j & 1:
            continue
        m.send(f, prn, k, v, i)
        if rep >> j & 1:
            m.send(f, prn, k, v, i)


def loss_case_n(name, ks, lst):
    for lost in lst:
        loss_case(name, ks, lost)


def rep_case(name, ks, lst):
    for rep in lst:
        loss_case(name, ks, 0, rep)


def order_case(name, perm, mix):
    """ parts in the given order, each of issue A or B, then the rest of A
        and of B in the order of transmission """
    f = FM[name]
    t = start(f)
    prn = f.prns[-1]
    vs = [f.values(prn, k, t+k*f.cycle) for k in (0, 1)]
    m = Mon()
    for j in perm:
        k = mix >> j & 1
        m.send(f, prn, k, vs[k], j)
    for k in (0, 1):
        for j in range(len(f.parts)):
            if (mix >> j & 1) != k:
                m.send(f, prn, k, vs[k], j)
    cycle_ok(m, f, prn, 1, vs[1])


def order_n(name, perm):
    for mix in range(1 << len(FM[name].parts)):
        order_case(name, perm, mix)


def words_case(name, pre, L, alpha):
    """ all words of length L with the given first symbols """
    f = FM[name]
    t = start(f)
    prn = f.prns[0]
    vs = [f.values(prn, k, t+k*f.cycle) for k in (0, 1)]
    for w in itertools.product(alpha, repeat=L-len(pre)):
        m = Mon()
        for k, i in tuple(pre)+w:
            m.send(f, prn, k, vs[k], i)


def two_case(name, name2, same, merge, k1, k2, drop=-1):
    """ two satellites (or two message types of one), all merges """
    f, g = FM[name], FM[name2]
    p1 = f.prns[0]
    p2 = g.prns[0] if same else g.prns[1]
    a = stream(f, p1, k1, start(f))
    b = stream(g, p2, k2, start(g))
    m = Mon()
    ia = ib = 0
    for j, x in enumerate(merge):
        if x:
            v, k, i = b[ib]
            ib += 1
            if j != drop:
                m.send(g, p2, k, v, i)
        else:
            v, k, i = a[ia]
            ia += 1
            if j != drop:
                m.send(f, p1, k, v, i)


def two_n(name, name2, same, merges, k1, k2, drops):
    for mg in merges:
        for d in ([-1]+list(range(len(mg))) if drops else [-1]):
            two_case(name, name2, same, mg, k1, k2, d)


def merges(n, m, maxsw=99):
    out = []
    for c in itertools.combinations(range(n+m), m):
        w = [0]*(n+m)
        for j in c:
            w[j] = 1
        if sum(w[j] != w[j+1] for j in range(n+m-1)) <= maxsw:
            out.append(tuple(w))
    return out


def noise_case(name, pos, pair):
    """ unrelated messages between the parts """
    f = FM[name]
    prn = f.prns[0]
    t = start(f)
    no = f.noise(f, prn, t+f.cycle*5)
    s = stream(f, prn, [0, 1], t)
    for a in no:
        for b in (no if pair else [None]):
            m = Mon()
            for j, (v, k, i) in enumerate(s):
                if j == pos:
                    m.raw(f, prn, a, v['_t']+f.offs[i])
                    if b is not None:
                        m.raw(f, prn, b, v['_t']+f.offs[i])
                m.send(f, prn, k, v, i)


def clk_case(name, pre, L):
    """ CNAV clock messages of other types between """
    f = FM[name]
    prn = f.prns[0]
    t = start(f)
    vs = [f.values(prn, k, t+k*f.cycle) for k in (0, 1)]
    al = [(k, i) for k in (0, 1) for i in (0, 1, 2, 33)]
    for w in itertools.product(al, repeat=L-len(pre)):
        m = Mon()
        for k, i in tuple(pre)+w:
            if i == 33:
                b = f.parts[2].build(vs[k])
                for pos, nb, x in [(14, 6, 33)]:
                    y = int.from_bytes(b, 'big')
                    sh = len(b)*8-pos-nb
                    y = y & ~(((1 << nb)-1) << sh) | x << sh
                    b = y.to_bytes(len(b), 'big')
                # the message replaces the clock parameters
                m.rx.setdefault((f.name, prn), []).append((33, k, vs[k]))
                r = f.call(m.rn, *map(int, wt(t)), f.sat(prn), bytearray(b))
                if r is not None:
                    m.report(f, prn, r)
            else:
                # completeness is judged without other clock messages only
                q = m.rx.get((f.name, prn), [])
                if any(p == 33 for p, _, _ in q):
                    pid = f.parts[i].pid
                    q.append((pid, k, vs[k]))
                    r = f.call(m.rn, *map(int, wt(t)), f.sat(prn),
                               f.parts[i].build(vs[k]))
                    if r is not None:
                        m.report(f, prn, r)
                else:
                    m.send(f, prn, k, vs[k], i)


def many_case(name, prns, order):
    """ all satellites of a system at the same time """
    f = FM[name]
    t = start(f)
    m = Mon()
    n = len(f.parts)
    vs = {p: f.values(p, 0, t) for p in prns}
    if order == 0:
        seq = [(i, p) for i in range(n) for p in prns]
    elif order == 1:
        seq = [(i, p) for p in prns for i in range(n)]
    else:
        seq = [(i, p) for i in range(n)
               for p in (prns if i % 2 else prns[::-1])]
    got = set()
    for i, p in seq:
        if m.send(f, p, 0, vs[p], i) is not None:
            got.add(p)
    expect(got == set(prns), lambda: f'{name}: no report for '
           f'{sorted(set(prns)-got)}')


ALLPRN = {uGNSS.GPS: range(1, 33), uGNSS.GLO: range(1, 28),
          uGNSS.GAL: range(1, 37), uGNSS.QZS: range(193, 203),
          uGNSS.BDS: range(1, 64), uGNSS.IRN: range(1, 15),
          uGNSS.SBS: range(120, 159)}


def run(ck):
    q = not ck.thorough
    # every bit of every field
    its = []
    nf = 0
    for name, f in FM.items():
        for n, (_, kd, ch, _) in f.fields().items():
            b = width(ch)
            if n in ('prn', 'page', 'wn', 'tow', 'toi', 'itow', 'how', 'soh',
                     'iode3', 'N4', 'Nt', 'tkh', 'tkm', 'tks', 'wnop',
                     'top') or n[:3] in ('sow', 'tow') or n[:2] == 'ts' and \
                    n[2:].isdigit():
                continue
            if n == 'toc' and 'wnop' in f.fields():
                continue
            if n == 'sattype':
                its.append((name, n, [1, 2, 3]))
                continue
            nf += 1
            xs = field_values(kd, b)
            if name.startswith('GLO L') and n == 'tb':
                xs = [x for x in xs if x < 960]
            if kd == 'x':
                xs = xs[:6]
            its.append((name, n, xs))
    ck.bound(formats=len(FM), fields=nf)
    ck.pmap('field', its, lambda c, x: c.case('field', f'{x[0]} {x[1]}',
            field_case, *x), chunk=8)

    # times
    its = []
    rolls = [2200*WK, 2304*WK, 3072*WK, 2047*WK+1024*WK, 2300*WK+DAY]
    bound = [-30, 0, 600] if q else [-3600, -60, -30, -18, 0, 18, 600, 3700]
    ds = [0, 3600, -3600, 7200, -7200, 86400, -86400, 3*DAY, -3*DAY]
    for name, f in FM.items():
        for w in rolls:
            for b in bound:
                for d in ds:
                    if f.sys == uGNSS.GLO and abs(d) > 3600:
                        continue
                    if f.sys == uGNSS.SBS and abs(d) > 7200:
                        continue
                    for dc in (0, 1) if q else (-1, 0, 1):
                        off = 14 if f.sys == uGNSS.BDS else 0
                        its.append((name, w+b+off, d, dc))
        if f.sys == uGNSS.GLO:
            for h in range(24):
                for d in (-900, 900, -1800, 1800):
                    its.append((name, T0-T0 % DAY+h*3600, d, 0))
    ck.pmap('time', its, lambda c, x: c.case('time', x, time_case, *x),
            chunk=64)

    # losses and changes of issue
    its = []
    multi = [f for f in FM.values() if len(f.parts) > 1]
    for f in multi:
        n = len(f.parts)
        plans = {2: ([0, 0, 1, 1, 0, 1],), 3: ([0, 0, 1, 1],),
                 4: ([0, 0, 1],), 5: ([0, 1, 1] if not q else [0, 1],),
                 9: ([0, 1],)}[n]
        if not q:
            plans += ({2: [0, 1, 0, 1, 1, 0], 3: [0, 1, 0, 1], 4: [0, 1, 1],
                       5: [0, 0, 1], 9: [0, 0]}[n],)
        for ks in plans:
            N = n*len(ks)
            if n == 9:
                ls = [sum(1 << j for j in c) for r in range(4 if q else 6)
                      for c in itertools.combinations(range(N), r)]
            else:
                ls = range(1 << N)
            ls = list(ls)
            for j in range(0, len(ls), 64):
                its.append((f.name, ks, ls[j:j+64]))
            rs = list(range(1 << min(N, 10)))
            for j in range(0, len(rs), 64):
                its.append((f.name, ks, rs[j:j+64], 1))
    ck.pmap('loss', its, lambda c, x: c.case('loss', (x[0], x[1], x[2][0],
            len(x)), rep_case if len(x) > 3 else loss_case_n, *x[:3],
            steps=len(x[2])), chunk=4)

    # any order, any part from any issue
    its = []
    for f in multi:
        n = len(f.parts)
        if n == 9:
            ps = [tuple(range(9)), tuple(reversed(range(9)))]
            ps += [tuple(range(j, 9))+tuple(range(j)) for j in range(1, 9)]
        else:
            ps = list(itertools.permutations(range(n)))
        for p in ps:
            its.append((f.name, p))
    ck.pmap('order', its, lambda c, x: c.case('order', x, order_n, *x,
            steps=1 << len(FM[x[0]].parts)), chunk=2)

    # all words of parts of two issues
    its = []
    for f in multi:
        n = len(f.parts)
        al = [(k, i) for k in (0, 1) for i in range(n)]
        Lw = {2: 6, 3: 5, 4: 4, 5: 4, 9: 3}[n]+(0 if q else 1)
        for pre in itertools.product(al, repeat=2):
            its.append((f.name, pre, Lw, al))
    ck.pmap('words', its, lambda c, x: c.case('words', (x[0], x[1], x[2]),
            words_case, *x), chunk=4)

    # two satellites, two message types of a satellite
    its = []
    for f in multi:
        n = len(f.parts)
        k1, k2 = ([0, 1], [0, 1]) if n <= 2 else ([0, 1], [0]) if n <= 3 \
            else ([0], [0])
        mg = merges(n*len(k1), n*len(k2), 99 if n < 9 else 3 if q else 5)
        for j in range(0, len(mg), 16):
            its.append((f.name, f.name, 0, mg[j:j+16], k1, k2, n < 9))
    pairs = [('GPS LNAV', 'GPS CNAV'), ('QZS LNAV', 'QZS CNAV'),
             ('GAL I/NAV E1', 'GAL F/NAV'), ('BDS B-CNAV2', 'BDS B-CNAV3'),
             ('GLO FDMA', 'GLO L3OC'), ('GPS LNAV', 'QZS LNAV'),
             ('GPS CNAV', 'QZS CNAV'), ('BDS D1', 'BDS D2')]
    for a, b in pairs:
        n, m2 = len(FM[a].parts), len(FM[b].parts)
        mg = merges(n, m2, 99 if n+m2 < 10 else 4)
        for j in range(0, len(mg), 16):
            its.append((a, b, 1, mg[j:j+16], [0], [0], n+m2 < 10))
    ck.pmap('two', its, lambda c, x: c.case('two', x[:3]+(x[3][0],), two_n,
            *x, steps=len(x[3])), chunk=4)

    # messages without ephemeris, damaged, of other satellites
    its = []
    for f in FM.values():
        for pos in range(2*len(f.parts)):
            its.append((f.name, pos, not q))
    ck.pmap('noise', its, lambda c, x: c.case('noise', x, noise_case, *x),
            chunk=2)
    al = [(k, i) for k in (0, 1) for i in (0, 1, 2, 33)]
    its = [(n, pre, 5 if q else 6) for n in ('GPS CNAV', 'QZS CNAV')
           for pre in itertools.product(al, repeat=2)]
    ck.pmap('clk', its, lambda c, x: c.case('clk', x, clk_case, *x), chunk=4)

    # all satellites
    its = [(n, list(ALLPRN[f.sys]), o) for n, f in FM.items()
           for o in range(3)]
    ck.pmap('all', its, lambda c, x: c.case('all', (x[0], x[2]), many_case,
            *x))
