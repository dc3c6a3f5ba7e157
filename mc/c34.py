""" C34 Early-warning messages decode to the transmitted report """
import contextlib
import io
import itertools
import re
from cssrlib.ewss import jmaDec, camfDec
from cssrlib.gnss import gtime_t
from mc.bits import BW
from mc.core import expect
from mc.ewsdata import here, root, tables, label, CITY
from mc.ewstab import TAB
from mc.layout import put, sweeps, typical

_C = {}


def dec(kind):
    """ decoder (tables are read once) """
    if kind not in _C:
        with here():
            _C[kind] = jmaDec() if kind == 'jma' else camfDec()
    return _C[kind]


def fresh(kind):
    with here():
        return jmaDec() if kind == 'jma' else camfDec()


def days(y, m, d):
    """ days from 1970-01-01 of the proleptic Gregorian calendar """
    y -= m <= 2
    e = y//400
    yo = y-e*400
    doy = (153*(m+(-3 if m > 2 else 9))+2)//5+d-1
    return e*146097+yo*365+yo//4-yo//100+doy-719468


def mlen(y, m):
    return days(y+m//12, m % 12+1, 1)-days(y, m, 1)


def cal(t):
    """ y, m, d, h, mi from seconds """
    d, s = divmod(int(t), 86400)
    y = 1970
    while days(y+1, 1, 1) <= d:
        y += 1
    m = 1
    while m < 12 and days(y, m+1, 1) <= d:
        m += 1
    return y, m, d-days(y, m, 1)+1, s//3600, s % 3600//60


def gt(t):
    g = gtime_t()
    g.time, g.sec = int(t), 0.0
    return g


def sec(g):
    return g.time+g.sec


T0 = days(2025, 8, 21)*86400+7*3600+600      # reception
HD = [('mo', 'u', 4), ('d', 'u', 5), ('h', 'u', 5), ('mi', 'u', 6)]
RT = dict(mo=8, d=21, h=6, mi=50)            # report
OC = [('d1', 'u', 5), ('h1', 'u', 5), ('m1', 'u', 6)]
LL = [('las', 'u', 1), ('lad', 'u', 7), ('lam', 'u', 6), ('laS', 'u', 6),
      ('los', 'u', 1), ('lod', 'u', 8), ('lom', 'u', 6), ('loS', 'u', 6)]


def U(n, *names):
    return [(x, 'u', n) for x in names]


def X(n):
    return [('_', 'x', n)]


def rept(k, *fs):
    return [(f'{n}{j}', 'u', b) for j in range(k) for n, b in fs]


# category -> layout from the information type to the version number
LAY = {
    1: U(2, 'it')+X(4)+U(3, 'lgl', 'lgu')+U(9, 'co0', 'co1', 'co2')+OC
    + U(9, 'de')+U(7, 'ma')+U(10, 'ep')+U(4, 'l', 'u')
    + [(f'r{k}', 'u', 1) for k in range(80)]+X(4),
    2: U(2, 'it')+X(10)+U(9, 'co0', 'co1', 'co2')+OC+U(9, 'de')+U(7, 'ma')
    + U(10, 'ep')+LL+X(51),
    3: U(2, 'it')+X(10)+OC+rept(16, ('es', 3), ('pl', 6))+X(1),
    4: U(2, 'it')+X(10)+U(4, 'is')+rept(18, ('t', 8))+U(6, 'pn', 'pm')+X(1),
    5: U(2, 'it')+X(10)+U(9, 'co0', 'co1', 'co2')+U(4, 'dw')
    + rept(5, ('td', 1), ('th', 5), ('tm', 6), ('hg', 4), ('pl', 10)),
    6: U(2, 'it')+X(10)+U(3, 'tp')
    + rept(5, ('td', 1), ('th', 5), ('tm', 6), ('hg', 9), ('pl', 7))+X(18),
    8: U(2, 'it')+X(7)+U(3, 'du')+OC+U(7, 'dw')+U(12, 'vo')
    + rept(5, ('pl', 23))+X(11),
    9: U(2, 'it')+X(10)+OC+U(2, 'dw')+U(12, 'vo')
    + rept(4, ('ho', 3), ('dx', 3), ('pl', 23))+X(15),
    10: U(2, 'it')+X(10)+U(3, 'ar')+rept(6, ('ww', 5), ('pl', 19))+X(14),
    11: U(2, 'it')+X(10)+rept(3, ('lv', 4), ('pl', 40))+X(29),
    12: U(2, 'it')+X(10)+OC+U(3, 'dt')+X(8)+U(7, 'du', 'tn')
    + U(4, 'sr', 'ic')+LL+U(11, 'pr')+U(7, 'w1', 'w2')+X(46),
    14: U(2, 'it')+X(10)+rept(8, ('dw', 5), ('pl', 14))+X(9),
}


def code(dc, name):
    """ defined codes of a field (first table), None: any value """
    t = {(1, 'ep'): 7, (2, 'ep'): 7, (1, 'l'): 8, (1, 'u'): 9,
         (1, 'lgl'): 11, (1, 'lgu'): 11, (3, 'es'): 15, (3, 'pl'): 16,
         (4, 'is'): 19, (5, 'dw'): 22, (5, 'hg'): 23, (5, 'pl'): 24,
         (8, 'dw'): 31, (8, 'vo'): 32, (9, 'vo'): 32, (8, 'pl'): 33,
         (9, 'pl'): 33, (9, 'dx'): 36, (10, 'ww'): 40, (10, 'pl'): 41,
         (11, 'lv'): 44, (11, 'pl'): 45, (12, 'sr'): 48, (12, 'ic'): 49,
         (14, 'dw'): 52, (14, 'pl'): 53}
    b = name.rstrip('0123456789') if name[-1].isdigit() and \
        name not in ('w1', 'w2', 'd1', 'h1', 'm1') else name
    if b == 'co':
        return tables()['jma/tab4_1_2_6.txt']
    k = t.get((dc, b))
    return tables()[f'jma/tab4_1_2_{k}.txt'] if k else None


def base(dc):
    """ a report with defined, distinguishable values """
    v = typical(LAY[dc], dc)
    for k, (name, _, n, *_) in enumerate(LAY[dc]):
        c = code(dc, name)
        if c:
            c = [x for x in c if x < 1 << n]
            v[name] = c[(7*k+3) % len(c)]
    v['it'] = 0
    if 'd1' in v:
        v.update(d1=20, h1=21, m1=48)
    for n, m in (('lad', 90), ('lam', 60), ('laS', 60), ('lod', 180),
                 ('lom', 60), ('loS', 60)):
        if n in v:
            v[n] %= m
    for k in range(5):
        if f'td{k}' in v:
            v.update({f'td{k}': k % 2, f'th{k}': (5*k+7) % 24,
                      f'tm{k}': (13*k+5) % 60})
    if dc == 12:
        v['dt'] = 2
    if dc == 9:
        v['dw'] = 2
    if dc == 10:
        v['ar'] = 1
    if dc == 4:
        v.update({f't{k}': 65+(k+dc) % 26 for k in range(18)}, pn=2, pm=3)
    return v


def msg(dc, v, rt=RT, vn=1, rc=7):
    w = BW().u(8, 0xc6).u(6, 43).u(3, rc).u(4, dc)
    put(w, HD, rt)
    put(w, LAY[dc], v)
    assert w.n == 214, f'HARNESS {dc} {w.n}'
    return w.u(6, vn).u(6, 0).u(24, 0x123456).bytes(1)


def ang(v, p):
    x = v[p+'d']+v[p+'m']/60+v[p+'S']/3600
    return -x if v[p+'s'] else x


def want(dc, v):
    """ content of the decoded report """
    g = lambda *ns: [v[n] for n in ns]      # noqa: E731
    co = g('co0', 'co1', 'co2') if 'co0' in v else None

    def rows(k, names, keep):
        out = [[v[f'{n}{j}'] for n in names] for j in range(k)]
        return [r for r in out if keep(r)]
    if dc == 1:
        return [[k for k in range(80) if v[f'r{k}']],
                [v['de'], v['ma']*.1, v['ep'], v['l'], v['u']]]
    if dc == 2:
        return [co, [v['de'], v['ma']*.1, v['ep']]]
    if dc == 3:
        r = rows(16, ('es', 'pl'), any)
        return [[x[0] for x in r], [x[1] for x in r]]
    if dc == 4:
        return [[v[f't{k}'] for k in range(18)], [v['pn'], v['pm']]]
    if dc == 5:
        r = rows(5, ('td', 'th', 'tm', 'hg', 'pl'), any)
        return [co, [v['dw']]]+[x[3:] for x in r]
    if dc == 6:
        return [v['tp']]+rows(5, ('hg', 'pl'), lambda r: True)
    if dc == 8:
        return g('du', 'dw', 'vo')+[[v[f'pl{k}'] for k in range(5)
                                     if v[f'pl{k}']]]
    if dc == 9:
        return g('dw', 'vo')+rows(4, ('ho', 'dx', 'pl'), lambda r: r[2] > 0)
    if dc == 10:
        return [v['ar']]+rows(6, ('ww', 'pl'), all)
    if dc == 11:
        return rows(3, ('lv', 'pl'), any)
    if dc == 12:
        return g('dt', 'du', 'tn', 'sr', 'ic', 'pr', 'w1', 'w2')
    return rows(8, ('dw', 'pl'), any)


def eq(a, b):
    if hasattr(b, '__len__'):
        return hasattr(a, '__len__') and len(a) == len(b) and \
            all(eq(x, y) for x, y in zip(a, b))
    if hasattr(a, '__len__'):
        return False
    return abs(a-b) < 1e-9


def arrivals(dc, v, rt_sec):
    out = []
    for k in range(5):
        r = [v[f'{n}{k}'] for n in ('td', 'th', 'tm', 'hg', 'pl')]
        if dc == 5 and not any(r):
            continue
        out.append(None if r[1] > 23 or r[2] > 59 else
                   rt_sec//86400*86400+r[0]*86400+r[1]*3600+r[2]*60)
    return out


def decode(cs, m, mon=0):
    """ decode with everything printed when mon > 0 """
    cs.monlevel = mon
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        cs.decode(m, 14)
    cs.monlevel = 0
    return b.getvalue()


def report(dc, v, vn=1, rc=7, mon=0, cs=None):
    cs = cs or dec('jma')
    cs.time = gt(T0)
    cs.params = None
    decode(cs, msg(dc, v, vn=vn, rc=rc), mon)
    w = want(dc, v)
    expect(cs.params is not None, 'no report')
    expect(eq(cs.params, w), lambda: f'category {dc}: report {cs.params} '
           f'expected {w} from {v}')
    expect(cs.it == v['it'] and cs.vn == vn and cs.dc == dc and cs.rc == rc,
           lambda: f'type {cs.it} version {cs.vn} category {cs.dc}/{cs.rc}')
    rs = days(2025, 8, 21)*86400+6*3600+50*60
    expect(sec(cs.ta) == rs, lambda: f'report time {cal(sec(cs.ta))}')
    if dc in (2, 12):
        p = [ang(v, 'la'), ang(v, 'lo')]
        expect(eq(list(cs.pos), p), lambda: f'position {cs.pos} expected {p}')
    if dc in (5, 6):
        a = arrivals(dc, v, rs)
        expect(len(a) == len(cs.tb) and all(
            (x is None and (y is None or sec(y) == 0)) or
            (x is not None and y is not None and sec(y) == x)
            for x, y in zip(a, cs.tb)), lambda:
            f'arrival {[t and cal(sec(t)) for t in cs.tb]} '
            f'expected {[t and cal(t) for t in a]}')
    elif 'd1' in v and v['d1'] in range(1, 32) and v['h1'] < 24 and \
            v['m1'] < 60:
        near = [days(2025, m, v['d1'])*86400+v['h1']*3600+v['m1']*60
                for m in (7, 8, 9) if v['d1'] <= mlen(2025, m)]
        x = min(near, key=lambda t: abs(t-rs))
        expect(sec(cs.tb) == x, lambda: f'time {cal(sec(cs.tb))} '
               f'expected {cal(x)}')
    elif 'd1' not in v:
        expect(getattr(cs, 'tb', None) is None, lambda:
               f'event time {cs.tb} of an earlier report')
    if dc not in (2, 12):
        expect(len(cs.pos) == 0, lambda:
               f'position {cs.pos} of an earlier report')
    with contextlib.redirect_stdout(io.StringIO()):
        s = cs.gen_msg(dc)
    if dc == 12:
        x = f'{ang(v, "la"):.4f}/{ang(v, "lo"):.4f}'
        expect(x in s and f'{v["pr"]} hPa' in s, lambda:
               f'text {s} without position {x} or pressure')


def fields(ck):
    def one(c, dc):
        b = base(dc)
        for vn in range(64):
            c.case('vn', (dc, vn), report, dc, b, vn)
        for rc in (1, 3, 7):
            c.case('rc', (dc, rc), regular, dc, b, rc)
        for name, _, n, *_ in LAY[dc]:
            if name == '_':
                continue
            if n <= (12 if c.thorough else 10):
                vals = range(1 << n)
            else:
                vals = {0, 1, 2, 3, (1 << n)-1, (1 << n)-2, 1 << (n-1)} | \
                    {1 << k for k in range(n)} | set(code(dc, name) or ())
            for x in sorted(vals):
                if x >= 1 << n:
                    continue
                v = dict(b)
                v[name] = x
                if name in ('pn', 'pm') and dc == 4:
                    v['is'] = 1
                for mon in (0, 1):
                    c.case('field', (dc, name, x, mon), report, dc, v, 1, 7,
                           mon)
        # every number of entries and any entry left out
        nm = [x for x, *_ in LAY[dc] if x != '_']
        k = {3: 16, 5: 5, 6: 5, 8: 5, 9: 4, 10: 6, 11: 3, 14: 8}.get(dc, 0)
        pats = itertools.product((0, 1), repeat=k) if k <= 8 else \
            [[int(j < a or j >= e) for j in range(k)]
             for a in range(k+1) for e in range(a, k+1)]
        for pat in pats:
            v = dict(b)
            for j in range(k):
                if not pat[j]:
                    for x in nm:
                        if re.fullmatch(rf'[a-z]+{j}', x) and \
                                x not in ('d1', 'h1', 'm1', 'co0', 'co1',
                                          'co2'):
                            v[x] = 0
            for mon in (0, 1):
                c.case('entries', (dc, tuple(pat), mon), report, dc, v, 1, 7,
                       mon)
        if dc in (5, 6):    # any part of an entry zero
            nm5 = ('td', 'th', 'tm', 'hg', 'pl')
            for j in range(5):
                for z in range(32):
                    v = dict(b)
                    for i, x in enumerate(nm5):
                        if z >> i & 1:
                            v[f'{x}{j}'] = 0
                        elif not v[f'{x}{j}']:
                            v[f'{x}{j}'] = 1
                    c.case('part', (dc, j, z), report, dc, v, 1, 7, z & 1)
        for lab, v in sweeps(LAY[dc]):
            for mon in (0, 1):
                c.case('joint', (dc, lab, mon), report, dc, v, 2, 7, mon)

    def regular(dc, b, rc):
        if rc in (3, 7):
            report(dc, b, 1, rc)
        else:
            decode(dec('jma'), msg(dc, b, rc=rc))
    ck.pmap('fields', sorted(LAY), one)
    for dc in range(16):
        for rc in range(8):
            def hdr():
                b = BW().u(8, 0xc6).u(6, 43).u(3, rc).u(4, dc).pad(256)
                for mon in (0, 1):
                    decode(fresh('jma'), b.bytes(1), mon)
            ck.case('header', (dc, rc), hdr)


def times(ck):
    """ report and event times around month and year boundaries """
    def one(trx, age, ev, dc):
        cs = dec('jma')
        cs.time = gt(trx)
        t = (trx-age)//60*60
        y, m, d, h, mi = cal(t)
        v = base(dc)
        te = (t+ev)//60*60
        if 'd1' in v:
            v['d1'], v['h1'], v['m1'] = cal(te)[2:]
        decode(cs, msg(dc, v, dict(mo=m, d=d, h=h, mi=mi)))
        expect(sec(cs.ta) == t, lambda: f'received {cal(trx)}: report time '
               f'{cal(sec(cs.ta))} sent {(m, d, h, mi)}')
        if dc in (5, 6):
            a = arrivals(dc, v, t)
            expect([sec(x) for x in cs.tb] == a, lambda:
                   f'arrival {[cal(sec(x)) for x in cs.tb]} expected '
                   f'{[cal(x) for x in a]}')
        elif 'd1' in v:
            expect(sec(cs.tb) == te, lambda: f'report {cal(t)}: time '
                   f'{cal(sec(cs.tb))} expected {cal(te)}')
    yrs = (2023, 2024, 2025, 2099) if ck.thorough else (2024, 2025)

    def mon(c, x):
        y, dc = x

        def run(m):
            for d in range(1, mlen(y, m)+1):
                for s in (5, 12*3600, 86395):
                    trx = days(y, m, d)*86400+s
                    if y == 2099 and m == 12:
                        continue
                    for age, ev in ((0, -60), (3600, -7200), (86400, -3600),
                                    (40, 6*3600), (600, 4*86400),
                                    (5*86400, -9*86400)):
                        one(trx, age, ev, dc)
        for m in range(1, 13):
            c.case('time', (y, dc, m), run, m, steps=30*18)
    ck.pmap('times', [(y, dc) for y in yrs for dc in sorted(LAY)], mon)
    # any value of the date and time fields
    for dc in sorted(LAY):
        for f, _, n in HD:
            for x in range(1 << n):
                def bad():
                    for mo in (0, 1):
                        decode(dec('jma'), msg(dc, base(dc), dict(
                            RT, **{f: x})), mo)
                ck.case('hdfield', (dc, f, x), bad)


def pages(ck):
    """ text of several pages in any order, repeated, of two reports """
    def pg(rep, k, pm):
        v = base(4)
        v.update({f't{j}': 65+(7*rep+5*k+j) % 26 for j in range(18)},
                 pn=k+1, pm=pm)
        return v

    def text(rep, pm):
        return bytes(pg(rep, k, pm)[f't{j}'] for k in range(pm)
                     for j in range(18))

    def run(pm, seq):
        cs = fresh('jma')
        cs.time = gt(T0)
        cur, have = None, set()
        for rep, k in seq:
            decode(cs, msg(4, pg(rep, k, pm), dict(RT, mi=40+rep)), 1)
            if cur != rep:
                cur, have = rep, set()
            have.add(k)
            full = cs.pidx == (1 << pm)-1
            expect(full == (len(have) == pm), lambda:
                   f'pages {seq}: complete={full} after pages {have} of '
                   f'report {rep}')
            if full:
                expect(bytes(cs.msg[:18*pm]) == text(rep, pm), lambda:
                       f'pages {seq}: text {bytes(cs.msg[:18*pm])} expected '
                       f'{text(rep, pm)}')
    for pm in (1, 2, 3):
        ev = [(r, k) for r in (0, 1) for k in range(pm)]
        for n in range(1, (7 if ck.thorough else 6) if pm > 1 else 4):
            if pm == 3 and n > (6 if ck.thorough else 4):
                continue
            def sub(c, e):
                for seq in itertools.product(ev, repeat=n-1):
                    c.case('pages', (pm, (e,)+seq), run, pm, (e,)+seq)
            ck.pmap(f'pages{pm}{n}', ev, sub)
    for pm in range(4, 64):
        ck.case('pages', ('all', pm), run, pm,
                [(0, k) for k in range(pm)]+[(1, k) for k in
                                             reversed(range(pm))])
    for pn, pm in itertools.product(range(64), (0, 1, 5, 63)):
        def anyp():
            v = base(4)
            v.update(pn=pn, pm=pm)
            decode(fresh('jma'), msg(4, v), 1)
        ck.case('anypage', (pn, pm), anyp)


# common alert message format
CF = [('mt', 'u', 2), ('reg', 'u', 9), ('pid', 'u', 5), ('hz', 'u', 7),
      ('sev', 'u', 2), ('wn', 'u', 1), ('tow', 'u', 14), ('dur', 'u', 2),
      ('sel', 'u', 1), ('ver', 'u', 3), ('gd', 'u', 10), ('la', 'u', 16),
      ('lo', 'u', 17), ('ma', 'u', 5), ('mi', 'u', 5), ('az', 'u', 6),
      ('sub', 'u', 2), ('spec', 'u', 15)]
CB = dict(mt=1, reg=111, pid=1, hz=36, sev=2, wn=0, tow=5000, dur=2, sel=1,
          ver=0, gd=(2 << 8) | 4, la=40000, lo=100000, ma=9, mi=5, az=17,
          sub=0, spec=0)
B4 = {36: 'd1:4 d2:3 d3:4 d4:4', 43: 'd5:3', 44: 'd5:3', 63: 'd6:4',
      71: 'd6:4', 80: 'd7:3 d8:4 d9:3', 82: 'd36:3 d8:4 d9:3',
      79: 'd8:4 d9:3 d11:3', 77: 'd8:4 d9:3 d10:3 d16:3', 70: 'd12:3',
      74: 'd9:3 d13:4', 76: 'd14:5 d13:4', 68: 'd15:2', 72: 'd16:3',
      81: 'd8:4 d6:4', 64: 'd8:4 d9:3 d16:3 d11:3', 69: 'd17:3 d13:4',
      75: 'd13:4 d8:4', 65: 'd18:2', 33: 'd19:3', 32: 'd20:3',
      47: 'd8:4 d5:3', 37: 'd21:3', 103: 'd22:3', 30: 'd23:3', 16: 'd24:3',
      23: 'd25:4', 51: 'd26:5 d35:6', 19: 'd27:4', 15: 'd28:3', 18: 'd24:3',
      57: 'd29:5', 9: 'd30:4', 5: 'd31:4', 4: 'd32:2 d33:2', 6: 'd34:2'}
# exact radii of the ellipse table [km]
RAD = TAB['r_t']


def cmsg(v, ext=None):
    w = BW().u(8, 0x53).u(6, 44).u(10, 0)
    put(w, CF, v)
    assert w.n == 24+122, 'HARNESS'
    if ext is not None:
        w.b(ext.str())
    return w.pad(226).u(24, 0xabcdef).bytes(1)


def text(name, k):
    t = TAB.get(name)
    if isinstance(t, dict):
        return t.get(k)
    return t[k] if k < len(t) else None


def tab(name, k):
    return label('camf/'+name, k) if k in tables()['camf/'+name] else None


def defined(got, exp, what):
    """ a defined code gives its text, others no text of another code """
    if exp is not None:
        expect(got == exp, lambda: f'{what}: {got!r} expected {exp!r}')


def camf(v, mon=0, trx=T0, ext=None):
    cs = dec('camf')
    cs.time = gt(trx)
    cs.monlevel = mon
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        i = cs.decode(cmsg(v, ext), 24)
    cs.monlevel = 0
    expect(i == 24+122, lambda: f'message ends at {i-24} instead of 122')
    for a, f, n in (('mt', 'mt_t', 'mt'), ('severity', 'severity_t', 'sev'),
                    ('duration', 'duration_t', 'dur')):
        defined(getattr(cs, a), text(f, v[n]), a)
    expect(cs.pid == v['pid'] and cs.regi == v['reg'] and
           cs.sel == v['sel'], 'identifier')
    defined(cs.region, tab('region.txt', v['reg']), 'region')
    h = tab('hazard.txt', v['hz'])
    expect(cs.hazard == h if h else cs.hazard is None or v['hz'] == 0 or
           not str(cs.hazard).startswith('hazard:'), lambda:
           f'hazard {cs.hazard} expected {h}')
    if 1 <= v['tow'] <= 10080:
        d = trx//86400
        mon0 = (d-(d+3) % 7)*86400
        th = mon0+v['wn']*604800+(v['tow']-1)*60
        expect(sec(cs.th) == th, lambda: f'onset {cal(sec(cs.th))} expected '
               f'{cal(th)} received {cal(trx)}')
        expect(list(cs.epoch)[:5] == list(cal(th)), 'onset epoch')
    if v['sel'] == 0:
        defined(cs.gmsg_a, tab('list_a.txt', v['gd'] >> 5), 'guidance A')
        defined(cs.gmsg_b, tab('list_b.txt', v['gd'] & 31), 'guidance B')
    elif v['reg'] == 111:
        defined(cs.inst, text('inst_t', v['gd'] >> 8), 'instruction')
        defined(cs.guid, text('guid_la_t' if v['pid'] in (2, 3) else 'guid_t',
                              v['gd'] & 255), 'guidance')
    la, lo = -90+180/65535*v['la'], -180+360/131071*v['lo']
    M, m = RAD[v['ma']], RAD[v['mi']]
    s = format(v['spec'], '015b')
    if v['sub'] == 0:
        c = [int(s[3*k:3*k+3], 2) for k in range(4)]
        la += c[0]*.000343
        lo += c[1]*.000343325
        M -= c[2]/8*(M-(RAD[v['ma']-1] if v['ma'] else 0))
        m -= c[3]/8*(m-(RAD[v['mi']-1] if v['mi'] else 0))
    n = {'lat': la, 'lon': lo, 'LM': M, 'Lm': m, 'az': -90+180/64*v['az']}
    if v['sub'] == 1:
        k = [int(s[:7], 2), int(s[7:14], 2)]
        n['dlat'], n['dlon'] = [-10+(x+(x > 63))*20/128 for x in k]
    elif v['sub'] == 2:
        k = [int(s[a:b], 2) for a, b in ((0, 2), (2, 5), (5, 10))]
        n.update(dist=k[0]*M, LMs=M*(k[1]+1)*.25, Lms=m*(k[1]+1)*.25,
                 theta=k[2]*11.25)
    for a, x in n.items():
        expect(abs(getattr(cs, a)-x) < 1e-6, lambda:
               f'{a} = {getattr(cs, a)} expected {x}')
    has = {}
    if v['sub'] == 3:
        p = 0
        for f in B4.get(v['hz'], '').split():
            d, nb = f.split(':')
            has[d] = int(s[p:p+int(nb)], 2)
            p += int(nb)
    for d, x in has.items():
        got = getattr(cs, d)
        if d == 'd3':
            expect(got == x*22.5, f'{d} {got}')
        elif d in ('d14', 'd35'):
            defined(got, tab(d+'.txt', x), d)
        else:
            defined(got, text(d+'_t', x), d)
            if text(d+'_t', x) is None:
                expect(got not in TAB[d+'_t'], lambda:
                       f'reserved {d}={x} reported as {got!r}')
    if v['sub'] != 3:
        for k in range(1, 36):
            expect(getattr(cs, f'd{k}') is None, lambda:
                   f'd{k} of an earlier message is reported')
    return b.getvalue()


def alerts(ck):
    def one(c, f):
        name, _, n = f
        if n <= 10:
            vals = range(1 << n)
        else:
            vals = sorted({0, 1, 2, (1 << n)-1, (1 << n)-2} |
                          {1 << k for k in range(n)} |
                          set(range(0, 1 << n, 97)))
        for x in vals:
            for mon in (0, 1):
                for o in ({}, {'sel': 0}, {'pid': 2}, {'reg': 5}):
                    c.case('camf', (name, x, mon, tuple(o)), camf,
                           dict(CB, **{**o, name: x}), mon)
    ck.pmap('camf', CF, one)

    def spec(c, hz):
        for f, nb in [x.split(':') for x in B4.get(hz, '').split()] or \
                [('', '0')]:
            p = 0
            for g, k in [x.split(':') for x in B4.get(hz, '').split()]:
                if g == f:
                    break
                p += int(k)
            for x in range(1 << int(nb)):
                for oth in (0, 0x7fff):
                    m = ((1 << int(nb))-1) << (15-p-int(nb))
                    s = (oth & ~m) | (x << (15-p-int(nb)))
                    for mon in (0, 1):
                        c.case('spec', (hz, f, x, oth, mon), camf,
                               dict(CB, hz=hz, sub=3, spec=s), mon)
        for sub in range(3):
            c.case('sub', (hz, sub), camf, dict(CB, hz=hz, sub=sub,
                                                spec=0x5a5a))
        c.case('after', hz, lambda: (camf(dict(CB, hz=hz, sub=3, spec=0)),
                                     camf(dict(CB, hz=hz, sub=1))))
    ck.pmap('spec', range(128), spec)
    for sub, a, b in ((0, 0, 12), (1, 0, 14), (2, 0, 10)):
        st = 1 if ck.thorough else 13
        for x in range(0, 1 << b, st):
            ck.case('subspec', (sub, x), camf,
                    dict(CB, sub=sub, spec=x << (15-b)))
        for ma, mi in itertools.product(range(32), repeat=2):
            ck.case('axes', (sub, ma, mi), camf,
                    dict(CB, sub=sub, spec=0x3d6b, ma=ma, mi=mi))
    # onset for every day of reception
    def onset(d):
        for s in (30, 43200, 86370):
            trx = (days(2025, 12, 24)+d)*86400+s
            for wn in (0, 1):
                for tow in (1, 2, 1440, 1441, 8640, 8641, 10079, 10080):
                    camf(dict(CB, wn=wn, tow=tow), trx=trx)
    for d in range(16):
        ck.case('onset', d, onset, d, steps=48)


def ext(ck):
    """ extended messages: areas are those of the sent codes """
    def send(v, w, mon=1):
        cs = dec('camf')
        cs.time = gt(T0)
        b = io.StringIO()
        m = cmsg(v, w)
        with contextlib.redirect_stdout(b):
            i = cs.decode(m, 24)
            cs.monlevel = mon
            j = cs.decode_ext(m, i)
        cs.monlevel = 0
        return b.getvalue(), j

    def lalert(e1, e2, e3, e4, e5, e6, e7, vn=1):
        w = BW().u(16, e1).u(1, e2).u(17, e3).u(17, e4).u(5, e5).u(5, e6)
        s, _ = send(dict(CB, pid=1), w.u(7, e7).u(6, vn))
        if e1 not in CITY:
            return
        name = ''.join(x or '' for x in CITY[e1])
        expect(name in s.split(), lambda: f'area {name} not in {s!r}')
        expect(('Head' if e2 else 'Leave') in s, lambda: f'direction: {s!r}')
        num = [float(x) for x in re.findall(
            r'(?<![\w=])-?\d+\.\d+(?:e-?\d+)?', s.split('range.')[1])]
        for x in (-90+180/131071*e3, 45+180/131071*e4, RAD[e5], RAD[e6],
                  -90+180/128*e7):
            expect(any(abs(x-y) < 1e-4 for y in num), lambda:
                   f'value {x} not in {s!r}')
    b = (13101, 1, 90001, 40001, 7, 21, 77)
    for k, n in enumerate((16, 1, 17, 17, 5, 5, 7)):
        vals = range(1 << n) if n < 8 else sorted(
            {0, 1, (1 << n)-1} | {1 << j for j in range(n)} | (
                set(CITY) if k == 0 else set()))
        for x in vals:
            v = list(b)
            v[k] = x
            ck.case('lalert', (k, x), lalert, *v)
    for c in CITY:
        ck.case('lalert', ('city', c), lalert, c, *b[1:])

    def pref(pid, ks):
        w = BW().u(1, 0).mask(64, ks).u(3, 5).u(6, 1)
        s, i = send(dict(CB, pid=pid), w)
        expect(i == 24+122+74, f'message ends at {i}')
        got = sorted(int(x) for x in re.findall(r'PREF(\d+)', s))
        if len(ks) == 47:
            expect('whole Japan' in s, s)
        else:
            expect(got == [k+1 for k in ks], lambda:
                   f'prefectures {got} expected {[k+1 for k in ks]}')
            expect('whole' not in s, s)
    for pid in (2, 3):
        for k in range(47):
            ck.case('pref', (pid, k), pref, pid, [k])
            ck.case('pref', (pid, 'all but', k), pref, pid,
                    [j for j in range(47) if j != k])
        for a, b2 in itertools.combinations(range(47), 2):
            ck.case('pref2', (pid, a, b2), pref, pid, [a, b2])
        ck.case('pref', (pid, 'all'), pref, pid, list(range(47)))
        ck.case('pref', (pid, 'none'), pref, pid, [])

    def muni(pid, cs_):
        w = BW().u(1, 1)
        for c in cs_:
            w.u(16, c)
        s, i = send(dict(CB, pid=pid), w.u(3, 5).u(6, 1))
        expect(i == 24+122+74, f'message ends at {i}')
        exp = [''.join(x or '' for x in CITY[c]) for c in cs_ if c in CITY]
        got = [x for x in s.split() if x.startswith('Pref')]
        expect(got == exp, lambda: f'areas {got} expected {exp}: {s!r}')
    cc = [0]+sorted(CITY)+[9, 65535]
    def mun(c, a):
        for q in itertools.product(cc, repeat=3):
            c.case('muni', (a[0],)+q, muni, a[1], (a[0],)+q)
    ck.pmap('muni', [(a, 2+k % 2) for k, a in enumerate(cc)], mun)

    def other(pid, sel, fill):
        w = BW().u(37, (1 << 37)-1 if fill else 0).u(
            37, (1 << 37)-1 if fill else 0)
        send(dict(CB, pid=pid, sel=sel, reg=111), w)
    for q in itertools.product(range(32), (0, 1), (0, 1)):
        ck.case('extany', q, other, *q)


def run(ck):
    root()
    dec('jma')
    dec('camf')
    fields(ck)
    times(ck)
    pages(ck)
    alerts(ck)
    ext(ck)
    ck.bound(categories=len(LAY), hazards=128, text_pages=63,
             years='2024-2025 every day' if not ck.thorough else
             '2023-2025, 2099 every day')
