""" C08 BDS PPP-B2b messages decode to the transmitted corrections """
import itertools
import math
from cssrlib.cssr_bds import cssr_bds
from cssrlib.cssrlib import sCType
from cssrlib.gnss import gpst2time, sat2id, timediff
from mc import cssrenc as E
from mc.bits import BW, tobytes
from mc.core import expect

WEEK, DAY = 2150, 86400*3
SYS = [('C', 63), ('G', 37), ('E', 37), ('R', 37)]
DEF = {'C': 63, 'G': 32, 'E': 36, 'R': 32}
SIG = {'C': {0: '2I', 1: '1D', 2: '1P', 4: '5D', 5: '5P', 7: '7D', 8: '7P',
             12: '6I'},
       'G': {0: '1C', 1: '1P', 4: '1L', 5: '1X', 7: '2L', 8: '2X', 11: '5I',
             12: '5Q', 13: '5X'},
       'E': {1: '1B', 2: '1C', 4: '5Q', 5: '5I', 7: '7I', 8: '7Q', 11: '6C'},
       'R': {0: '1C', 1: '1P', 2: '2C'}}


def slotid(s):
    """ satellite of a slot number, None if reserved """
    for c, n in SYS:
        if s < 1:
            return None
        if s <= n:
            return f'{c}{s:02d}' if s <= DEF[c] else None
        s -= n
    return None


def head(w, mt, tod, iod):
    w.u(6, mt)
    sub(w, tod, iod)


def sub(w, tod, iod):
    w.u(17, tod).u(4, 0).u(2, iod)


def orb(w, o):
    slot, iodn, iodc, r, t, n, uc, uv = o
    w.u(9, slot).u(10, iodn).u(3, iodc).s(15, r).s(13, t).s(13, n)
    w.u(3, uc).u(3, uv)


def encode(ev):
    """ ev: dict with mt and contents """
    w, mt = BW(), ev['mt']
    if mt in (6, 7):
        w.u(6, mt).u(5, len(ev['clk'])).u(3, len(ev['orb']))
        if ev['clk']:
            sub(w, ev['tod'], ev['iod'])
            if mt == 6:
                w.u(4, ev['iodp']).u(9, ev['start'])
            for c in ev['clk']:
                if mt == 7:
                    w.u(9, c[0])
                w.u(3, c[1]).s(15, c[2])
        if ev['orb']:
            sub(w, ev.get('tod2', ev['tod']), ev.get('iod2', ev['iod']))
            for o in ev['orb']:
                orb(w, o)
        return w
    head(w, mt, ev['tod'], ev['iod'])
    if mt == 1:
        w.u(4, ev['iodp']).mask(174, [s-1 for s in ev['mask']])
        w.b('0'*255)
    elif mt == 2:
        for o in ev['orb']:
            orb(w, o)
        w.u(19, 0)
    elif mt == 3:
        w.u(5, len(ev['cb']))
        for slot, bs in ev['cb']:
            w.u(9, slot).u(4, len(bs))
            for m, v in bs:
                w.u(4, m).s(12, v)
    elif mt == 4:
        w.u(4, ev['iodp']).u(5, ev['st'])
        for c in ev['clk']:
            w.u(3, c[1]).s(15, c[2])
        w.u(10, 0)
    elif mt == 5:
        w.u(4, ev['iodp']).u(3, ev['st'])
        for c, v in ev['ura']:
            w.u(3, c).u(3, v)
    return w


class Model:
    def __init__(self):
        self.iod = self.iodp = None
        self.mask = []          # slots in order
        self.clear()
        self.t = {}

    def clear(self):
        self.orb, self.iodn, self.iodc, self.cb, self.clk, self.iodk, \
            self.ura = {}, {}, {}, {}, {}, {}, {}

    def sat(self, slot):
        i = slotid(slot)
        return i if i is not None and slot in self.mask else None

    def sorb(self, o, tod):
        i = self.sat(o[0])
        if i is None:
            return
        self.orb[i] = [E.sv(o[3], 15, .0016), E.sv(o[4], 13, .0064),
                       E.sv(o[5], 13, .0064)]
        self.iodn[i] = o[1] % 256 if i[0] in 'GC' else o[1]
        self.iodc[i] = o[2]
        self.ura[i] = E.qual(o[6], o[7])
        self.t[i, 'ORBIT'] = tod

    def sclk(self, i, c, tod):
        if i is None:
            return
        self.clk[i] = -E.sv(c[2], 15, .0016)
        self.iodk[i] = c[1]
        self.t[i, 'CLOCK'] = tod

    def apply(self, ev):
        mt = ev['mt']
        if mt == 1:
            if ev['iodp'] != self.iodp:
                self.clear()
                self.mask = sorted(ev['mask'])
            self.iod, self.iodp = ev['iod'], ev['iodp']
            return
        tod = ev['tod']
        if mt in (6, 7):
            if ev['iod'] == self.iod and ev['clk'] and \
                    (mt == 7 or ev['iodp'] == self.iodp):
                for k, c in enumerate(ev['clk']):
                    if mt == 7:
                        self.sclk(self.sat(c[0]), c, tod)
                    elif ev['start']+k < len(self.mask):
                        self.sclk(slotid(self.mask[ev['start']+k]), c, tod)
            if ev.get('iod2', ev['iod']) == self.iod:
                for o in ev['orb']:
                    self.sorb(o, ev.get('tod2', tod))
            return
        if ev['iod'] != self.iod:
            return
        if mt in (4, 5) and ev['iodp'] != self.iodp:
            return
        if mt == 2:
            for o in ev['orb']:
                self.sorb(o, tod)
        if mt == 3:
            for slot, bs in ev['cb']:
                i = self.sat(slot)
                if i is None:
                    continue
                self.cb[i] = {i[0]+'C'+SIG[i[0]][m]: E.sv(v, 12, .017)
                              for m, v in bs}
                self.t[i, 'CBIAS'] = tod
        if mt == 4:
            for k, c in enumerate(ev['clk']):
                if ev['st']*23+k < len(self.mask):
                    self.sclk(slotid(self.mask[ev['st']*23+k]), c, tod)
        if mt == 5:
            for k, (c, v) in enumerate(ev['ura']):
                if ev['st']*70+k < len(self.mask):
                    i = slotid(self.mask[ev['st']*70+k])
                    if i:
                        self.ura[i] = E.qual(c, v)


def held(d):
    if not d:
        return {}
    return {sat2id(k): v for k, v in d.items() if k}


def eq(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(E.same(x, y) for x, y in zip(a, b))
    return E.same(a, b)


def compare(cs, mo, what):
    lc = cs.lc[0]
    cb = {i: {repr(s): x for s, x in b.items()}
          for i, b in held(lc.cbias).items()}
    for nm, e, g in (('orbit', mo.orb, held(lc.dorb)),
                     ('IODN', mo.iodn, held(lc.iode)),
                     ('IOD corr of orbit', mo.iodc,
                      held(getattr(lc, 'iodc', None))),
                     ('clock', mo.clk, held(lc.dclk)),
                     ('IOD corr of clock', mo.iodk,
                      held(getattr(lc, 'iodc_c', None))),
                     ('code bias', mo.cb, cb),
                     ('accuracy', mo.ura, held(cs.ura))):
        expect(eq(e, g), lambda: f'{what} {nm}: {g} instead of {e}')
    expect([sat2id(s) if s else None for s in cs.sat_n] ==
           [slotid(s) for s in mo.mask], f'{what} satellites of the mask')
    if mo.iod is not None:
        expect(cs.iodssr == mo.iod and cs.iodp == mo.iodp,
               f'{what} issue of mask')
    for (i, c), tod in mo.t.items():
        t0 = {sat2id(s): d for s, d in lc.t0.items() if s}
        dt = timediff(t0[i][getattr(sCType, c)],
                      gpst2time(WEEK, DAY+tod+14))
        expect(abs(dt) < 1e-6, f'{what} time of {c} of {i}: {dt} s off')


def play(msgs, fill):
    cs, mo = cssr_bds(), Model()
    cs.set_time(gpst2time(WEEK, DAY+msgs[0]['tod']+15))
    for n, ev in enumerate(msgs):
        s = encode(ev).str()
        s += '10'[fill]*max(0, 486-len(s))+'10'[1-fill]*200
        cs.decode_cssr(tobytes(s), 0)
        mo.apply(ev)
        compare(cs, mo, f'message {n} type {ev["mt"]}:')
    return len(mo.orb), len(mo.clk), len(mo.cb)


class V:
    def __init__(self, k, mode='dist'):
        self.k, self.mode = k, mode

    def u(self, n):
        self.k += 1
        return {'zero': 0, 'hi': (1 << n)-1}.get(self.mode,
                                                 self.k*37 % (1 << n))

    def s(self, n):
        self.k += 1
        h = 1 << (n-1)
        return {'zero': 0, 'hi': h-1, 'lo': -h+2, 'ones': -1,
                'na': -h if self.k % 2 else self.k % h}.get(
            self.mode, (self.k*739 % (2*h-4))-(h-2))

    def orb(self, slot):
        return (slot, self.u(10), self.u(3), self.s(15), self.s(13),
                self.s(13), self.u(3), self.u(3))

    def clk(self, slot=0):
        return (slot, self.u(3), self.s(15))

    def cb(self, slot, sigs):
        return (slot, [(m, self.s(12)) for m in sigs])

    def ura(self):
        return (self.u(3), self.u(3))


def sigs(slot):
    i = slotid(slot)
    return list(SIG[i[0]]) if i else [0, 1, 2]


TOD = 40000


def mk(mask, iod=1, iodp=3, tod=TOD):
    return {'mt': 1, 'tod': tod, 'iod': iod, 'iodp': iodp, 'mask': mask}


def m2(slots, v, iod=1, tod=TOD+6):
    return {'mt': 2, 'tod': tod, 'iod': iod, 'orb': [v.orb(s) for s in slots]}


def m3(slots, v, iod=1, tod=TOD+6, ns=None):
    return {'mt': 3, 'tod': tod, 'iod': iod,
            'cb': [v.cb(s, sigs(s)[:ns]) for s in slots]}


def m4(st, v, iod=1, iodp=3, tod=TOD+6):
    return {'mt': 4, 'tod': tod, 'iod': iod, 'iodp': iodp, 'st': st,
            'clk': [v.clk() for _ in range(23)]}


def m5(st, v, iod=1, iodp=3, tod=TOD+6):
    return {'mt': 5, 'tod': tod, 'iod': iod, 'iodp': iodp, 'st': st,
            'ura': [v.ura() for _ in range(70)]}


def m6(start, nc, slots, v, iod=1, iodp=3, tod=TOD+6, **kw):
    return {'mt': 6, 'tod': tod, 'iod': iod, 'iodp': iodp, 'start': start,
            'clk': [v.clk() for _ in range(nc)],
            'orb': [v.orb(s) for s in slots], **kw}


def m7(cs, slots, v, iod=1, tod=TOD+6, **kw):
    return {'mt': 7, 'tod': tod, 'iod': iod,
            'clk': [v.clk(s) for s in cs],
            'orb': [v.orb(s) for s in slots], **kw}


MASKS = {
    'mixed': [3, 19, 46, 63, 64, 70, 95, 101, 112, 136, 138, 150, 164],
    'gps': list(range(64, 96)),
    'bds': list(range(19, 47)),
    'all': [s for s in range(1, 175) if slotid(s)],
    'one': [130],
    'reserved': [5, 64, 96, 97, 100, 101, 137, 138, 170],
}
MODES = ['dist', 'zero', 'hi', 'lo', 'ones', 'na']


def run(ck):
    TH = ck.thorough
    jobs = []
    for name, m in MASKS.items():
        for mode in MODES:
            v = V(len(m), mode)
            for k in range(0, len(m), 6):
                # satellites in and out of the mask and reserved slots
                s = (m[k:k+6]+[0, 1, 175, 511, 96, 64])[:6]
                jobs.append(('orbit', (name, mode, k), [mk(m), m2(s, v)]))
                jobs.append(('orbit', (name, mode, k, 'r'),
                             [mk(m), m2(s[::-1], v), m2(s[:3]*2, v)]))
            for st in range(-(-len(m)//23)+1):
                jobs.append(('clock', (name, mode, st),
                             [mk(m), m4(st, v), m4(st, v)]))
            for st in range(-(-len(m)//70)+1):
                jobs.append(('accuracy', (name, mode, st),
                             [mk(m), m5(st, v)]))
            for k in range(0, len(m), 5):
                jobs.append(('bias', (name, mode, k),
                             [mk(m), m3(m[k:k+5], v)]))
            for nc in (0, 1, 2, 18, 31):
                for no in (0, 1, 4, 6):
                    for start in (0, 1, len(m)-1):
                        jobs.append(('comb1', (name, mode, nc, no, start), [
                            mk(m), m6(start, nc, (m+[1, 0]*3)[:no], v)]))
                    c = (m+[0, 1, 180, 96])[:nc]
                    jobs.append(('comb2', (name, mode, nc, no), [
                        mk(m), m7(c[::-1], (m[::-1]+[1]*6)[:no], v)]))
    # every slot number
    for s in range(0, 512):
        m = [7, 64, 130, 140]+([s] if 1 <= s <= 174 else [])
        m = sorted(set(m))
        jobs.append(('slot', s, [
            mk(m), m2([7, s, 64, s, 130, 140], V(s)), m4(0, V(s+9)),
            m3([7, s, 140], V(s+5), ns=2),
            m7([64, s, 7], [130, s], V(s+3))]))
        jobs.append(('slot_outside', s, [
            mk([7, 64, 130]), m2([s, 7, 9, s, 64, 130], V(s)),
            m3([7, s, 130], V(s+5)),
            m7([64, s, 7, 130], [s, 130], V(s+3))]))
    # every signal of a satellite, number of signals, order
    for slot in (33, 80, 120, 150):
        sg = sigs(slot)
        for n in range(len(sg)+1):
            for r in range(len(sg)):
                x = (sg[r:]+sg[:r])[:n]
                ev = {'mt': 3, 'tod': TOD, 'iod': 1, 'cb': [
                    V(1).cb(64, [0, 12]), V(n).cb(slot, x),
                    V(77).cb(8, [0]), V(3).cb(130, [2, 4])]}
                jobs.append(('signals', (slot, n, r), [
                    mk(sorted({33, 64, 80, 120, 130, 150})), ev]))
    # several parts of a long mask and values of three bit fields
    m = MASKS['all']
    jobs.append(('long', 0, [mk(m)]+[m4(s, V(s*7)) for s in range(8)] +
                 [m5(s, V(s)) for s in range(3)]))
    for c in range(8):
        for u in range(8):
            ev = {'mt': 5, 'tod': TOD, 'iod': 2, 'iodp': 0, 'st': 0,
                  'ura': [((c+k) % 8, u) for k in range(70)]}
            o = [(s, 1023-c, u, 1, 2, 3, c, u) for s in (3, 19, 64, 70, 101,
                                                         150)]
            jobs.append(('fields', (c, u), [
                mk(MASKS['mixed'], 2, 0), ev,
                {'mt': 2, 'tod': TOD, 'iod': 2, 'orb': o}]))
    for iod in range(4):
        for iodp in range(16):
            jobs.append(('issue', (iod, iodp), [
                mk(MASKS['mixed'], iod, iodp), m4(0, V(1), iod, iodp),
                m4(0, V(2), iod, (iodp+1) % 16),
                m4(0, V(3), (iod+1) % 4, iodp),
                m5(0, V(4), iod, (iodp+3) % 16),
                m6(0, 3, [3, 64], V(5), iod, (iodp+1) % 16),
                m6(0, 3, [3, 64], V(6), (iod+2) % 4, iodp),
                m6(0, 3, [3, 64], V(7), iod, iodp, iod2=(iod+1) % 4),
                m6(0, 3, [3, 64], V(8), (iod+1) % 4, iodp, iod2=iod),
                m7([3, 19], [3, 64], V(9), (iod+1) % 4, iod2=iod),
                m7([3, 19], [3, 64], V(10), iod, iod2=(iod+1) % 4)]))
    # histories with changing masks and issues
    A, B = MASKS['mixed'], [3, 20, 64, 66, 120]
    ev = {}
    for n, (nm, mask, iod, iodp) in enumerate(
            (('a', A, 1, 3), ('b', B, 2, 4), ('c', B, 1, 5), ('d', A, 2, 3))):
        ev[nm+'1'] = mk(mask, iod, iodp)
        ev[nm+'2'] = m2(mask[:2]+[64, 3, 20, 120], V(10+n), iod)
        ev[nm+'3'] = m3([3, 64, 20], V(20+n), iod)
        ev[nm+'4'] = m4(0, V(30+n), iod, iodp)
        ev[nm+'5'] = m5(0, V(40+n), iod, iodp)
        ev[nm+'6'] = m6(1, 3, [3, 20], V(50+n), iod, iodp)
        ev[nm+'7'] = m7([64, 20, 3], [64], V(60+n), iod)

    def hist(h):
        return [{**ev[e], 'tod': TOD+6*k} for k, e in enumerate(h)]
    ab = [x+y for x in 'ab' for y in '1234567']
    for n in range(1, 5 if TH else 4):
        for h in itertools.product(ab, repeat=n):
            if n == 4 and h[0][1] != '1':
                continue
            jobs.append(('history', h, hist(h)))
    ac = [x+y for x in 'abcd' for y in '14']+['a2', 'd2', 'b6', 'c3']
    for n in range(2, 5 if TH else 4):
        for h in itertools.product(ac, repeat=n):
            if h[0][1] == '1':
                jobs.append(('history_issue', h, hist(h)))
    ck.bound(masks={k: len(x) for k, x in MASKS.items()}, modes=MODES,
             history=4 if TH else 3, slots='0..511')

    def f(c, j):
        for fill in (0, 1) if j[0] not in ('history', 'history_issue') \
                else (0,):
            c.case(j[0], (j[1], fill), play, j[2], fill, steps=len(j[2]))
    ck.pmap('msg', jobs, f, chunk=100)

    # time of day resolved to the day nearest to the reference time
    def tm(now, tod):
        cs = cssr_bds()
        cs.set_time(gpst2time(WEEK, now))
        cs.decode_cssr(tobytes(encode(mk([64], tod=tod)).str()), 0)
        cs.decode_cssr(tobytes(encode(m2([64]*6, V(1), tod=tod)).str()), 0)
        t = cs.lc[0].t0[cs.sat_n[0]][sCType.ORBIT]
        d = now-(tod+14)
        e = tod+14+86400*round(d/86400)
        dt = timediff(t, gpst2time(WEEK, e))
        expect(abs(dt) < 1e-6, f'time of correction {dt} s off')
    for now in (5, 13, 14, 15, 86399, 86400, DAY+5, DAY+20000, DAY+86390,
                604799):
        for tod in (0, 5, 6000, 20000, 80000, 86370, 86399):
            if abs(abs((now-tod-14) % 86400)-43200) < 1:
                continue
            ck.case('time', (now, tod), tm, now, tod)
