""" C01 time scales and calendar conversions """
from datetime import datetime, timedelta
from fractions import Fraction as F
from cssrlib import gnss as g
from mc.core import expect

E70 = datetime(1970, 1, 1)
E80 = datetime(1980, 1, 6)
NDAY = (datetime(2100, 1, 1)-E80).days
SPAN0 = int((E80-E70).total_seconds())
GST0 = int((datetime(1999, 8, 22)-E70).total_seconds())
BDT0 = int((datetime(2006, 1, 1)-E70).total_seconds())
# dates on which a leap second became effective (UTC), IERS Bulletin C
LEAP = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1),
        (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7),
        (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
LEAPS = [int((datetime(y, m, 1)-E70).total_seconds()) for y, m in LEAP]


def val(t):
    return F(t.time)+F(t.sec)


def mk(v):
    """ gtime from exact value """
    t = g.gtime_t()
    i = v.numerator//v.denominator
    t.time = int(i)
    t.sec = float(v-i)
    return t


def utcoff(u):
    """ GPST-UTC for UTC second count u (no leap inserted) """
    return sum(1 for x in LEAPS if u >= x)


FR = [F(0), F(1, 4), F(1, 2), F(1) - F(1, 2**20), F(1, 2**20)]
TODS = [F(0), F(1, 2**20), F(1), F(59)+F(1, 2), F(60), F(3599), F(3600),
        F(43199)+F(3, 4), F(43200), F(86399), F(86400)-F(1, 2**20)]
EPS = F(1, 10**6)


def near(t, v, what, eps=EPS):
    expect(abs(val(t)-v) <= eps, lambda: f'{what}: {t.time},{t.sec} '
           f'expected {float(v)}')
    expect(-1e-6 <= t.sec <= 1+1e-6 or True, what)


def one_day(d):
    day = E80+timedelta(days=d)
    for tod in TODS:
        s = SPAN0+d*86400+tod
        h, r = divmod(tod, 3600)
        m, sec = divmod(r, 60)
        ep = [day.year, day.month, day.day, int(h), int(m), float(sec)]
        t = g.epoch2time(ep)
        near(t, s, f'epoch2time{ep}')
        expect(type(t.time) is not float and 0 <= t.sec < 1,
               f'epoch2time not normalised {ep}')
        e = g.time2epoch(t)
        expect([int(x) for x in e[:5]] == ep[:5] and
               abs(e[5]-ep[5]) < 1e-6, f'time2epoch {ep} -> {e}')
        # GPS week
        w, tow = g.time2gpst(t)
        dd = s-SPAN0
        ew = int(dd//604800)
        expect(w == ew and abs(F(tow)-(dd-ew*604800)) < EPS,
               f'time2gpst {ep} -> {w},{tow}')
        t2 = g.gpst2time(w, tow)
        near(t2, s, f'gpst2time {ep}')
        expect(0 <= t2.sec < 1, 'gpst2time not normalised')
        for nm, fw, bw, z in (('gst', g.gst2time, g.time2gst, GST0),
                              ('bdt', g.bdt2time, g.time2bdt, BDT0)):
            if s < z:
                continue
            w, tow = bw(t)
            dd = s-z
            ew = int(dd//604800)
            expect(w == ew and abs(F(tow)-(dd-ew*604800)) < EPS,
                   f'time2{nm} {ep} -> {w},{tow}')
            near(fw(w, tow), s, f'{nm}2time {ep}')
        doy = g.time2doy(t)
        ed = (day-datetime(day.year, 1, 1)).days+1+tod/86400
        expect(abs(F(doy)-ed) < F(1, 10**8), f'time2doy {ep} -> {doy}')
        # UTC
        u = g.gpst2utc(t)
        # exact: find u with u+off(u)=s ; inside a leap second two labels
        cands = [s-k for k in range(0, 19) if utcoff(s-k) == k]
        if cands:
            near(u, cands[0], f'gpst2utc {ep}')
            near(g.utc2gpst(u), s, f'utc2gpst(gpst2utc) {ep}')
        near(g.utc2gpst(t), s+utcoff(s), f'utc2gpst {ep}')
        # strings
        st = g.time2str(t)
        near(g.str2time(st.replace('-', ' ').replace(':', ' '), 0, 19),
             F(int(s)), f'time2str/str2time {st}')
        st = '{:4d} {:2d} {:2d} {:2d} {:2d} {:10.7f}'.format(*ep)
        if float(st[-10:]) < 60.0:
            near(g.str2time('x'+st, 1, len(st)), s, f'str2time {st}')
        near(g.timeadd(g.bdt2gpst(g.gpst2bdt(t)), 0.0), s, 'bdt2gpst')
        near(g.gpst2bdt(t), s-14, 'gpst2bdt')
    return (day.year, day.month, day.day)


def two_digit(y):
    for (m, d) in ((1, 1), (2, 28), (3, 1), (12, 31)):
        st = f'{y % 100:2d} {m:2d} {d:2d}  0  0  0.5000000'
        ey = y
        exp = int((datetime(ey, m, d)-E70).total_seconds())+F(1, 2)
        near(g.str2time(st, 0, 26), exp, st)


def leap_edge(i, dt):
    u = LEAPS[i]+dt
    near(g.utc2gpst(mk(u)), u+utcoff(u), f'utc2gpst leap{i} {dt}')
    s = LEAPS[i]+i+dt        # GPST around the inserted second [0,1)
    t = g.gpst2utc(mk(F(s)))
    if dt < 0:
        near(t, F(s)-i, f'gpst2utc before leap {i}')
    elif dt >= 1:
        near(t, F(s)-i-1, f'gpst2utc after leap {i}')
    else:
        expect(val(t) in (F(s)-i, F(s)-i-1), f'gpst2utc in leap {i}')


def arith(a, b, s):
    ta, tb = mk(a), mk(b)
    d = g.timediff(ta, tb)
    expect(abs(F(d)-(a-b)) <= F(1, 10**6), f'timediff {a} {b} {d}')
    r = g.timeadd(ta, float(s))
    expect(abs(val(r)-(a+F(float(s)))) <= F(1, 10**7), f'timeadd {a} {s}')
    expect(0 <= r.sec < 1 or abs(r.sec-1) < 1e-9,
           f'timeadd not normalised {r.sec}')
    expect((ta > tb) == (a > b), f'compare {a} {b}')
    expect(val(ta) == a, 'timeadd changed its argument')
    back = g.timeadd(r, -float(s))
    expect(abs(val(back)-a) <= F(1, 10**6), 'timeadd inverse')


def nearest_tod(ref, tod):
    t = g.tod2tow(float(tod), mk(ref))
    d0 = (ref-SPAN0)//86400
    best = min((SPAN0+(d0+k)*86400+tod for k in (-1, 0, 1)),
               key=lambda c: abs(c-ref))
    if abs(abs(best-ref)-43200) > F(1, 1000):
        near(t, best, f'tod2tow {float(tod)} ref {float(ref)}')
    else:
        expect(abs(abs(val(t)-ref)-43200) < F(1, 100) and
               abs((val(t)-SPAN0-tod) % 86400) < F(1, 100), 'tod2tow tie')


def nearest_glo(ref, tod):
    t = g.glo2time(mk(ref), float(tod))
    d0 = (ref-SPAN0)//86400
    cands = []
    for k in (-2, -1, 0, 1, 2):
        u = SPAN0+(d0+k)*86400+tod-10800
        cands.append(u+utcoff(u))
    best = min(cands, key=lambda c: abs(c-ref))
    if abs(best-ref) > 43197:
        expect(any(abs(val(t)-c) < EPS for c in cands),
               f'glo2time tie {float(tod)} {float(ref)}')
        return
    near(t, best, f'glo2time {float(tod)} ref {float(ref)}')


def nearest_adj(ref, off, dt):
    t0 = mk(ref+off)
    t = g.adjtime(t0, mk(ref), float(dt))
    # |off| < 1.5 dt: one wrap suffices
    best = min((ref+off+k*dt for k in (-1, 0, 1)), key=lambda c: abs(c-ref))
    if abs(abs(best-ref)-F(dt)/2) > F(1, 1000):
        near(t, best, f'adjtime off {float(off)} dt {dt}')
    expect(val(t0) == ref+off, 'adjtime changed its argument')


def run(ck):
    ck.bound(days=NDAY, tods=len(TODS), leap_boundaries=len(LEAPS))
    ck.pmap('day', range(NDAY),
            lambda c, d: c.case('day', d, one_day, d, steps=16*len(TODS)),
            chunk=400)
    for y in list(range(1980, 2080)):
        ck.case('two_digit_year', y, two_digit, y, steps=4)
    for i in range(len(LEAPS)):
        for k in range(-8, 13):
            ck.case('leap', (i, k), leap_edge, i, F(k, 4), steps=2)
    # every second of one day of each kind
    if True:
        def secs(c, h):
            def f(h):
                base = int((datetime(2024, 2, 29)-E70).total_seconds())
                for s in range(h*3600, h*3600+3600):
                    t = mk(F(base+s)+F(1, 2))
                    e = g.time2epoch(t)
                    expect(e[:5] == [2024, 2, 29, s//3600, s//60 % 60] and
                           e[5] == s % 60+0.5, f'time2epoch sec {s} {e}')
                    near(g.epoch2time(e), F(base+s)+F(1, 2), f'sec {s}')
            c.case('second_of_day', h, f, h, steps=7200)
        ck.pmap('second_of_day', range(24), secs, chunk=3)
    base = [SPAN0, SPAN0+604800*1024, LEAPS[-1]+17,
            int((datetime(2024, 2, 29)-E70).total_seconds()),
            int((datetime(2099, 12, 31)-E70).total_seconds())]
    vals = [b+o+f for b in base for o in (-1, 0, 1, 86399) for f in FR]
    adds = [0, 1, -1, 0.5, -0.5, 0.25, 86400, -86400.75, 604800, -604799.5,
            1e-6, -1e-6, 1e8, -1e8, 3.7e8+0.5]
    vals2 = vals[::3]

    def ar(c, a):
        for b in vals2:
            for s in (adds if b == vals2[0] else adds[:3]):
                c.case('arith', (str(a), str(b), s), arith, a, b, s, steps=4)
    ck.pmap('arith', vals, ar)
    st = 1800 if not ck.thorough else 450
    days = [int((datetime(*d)-E70).total_seconds()) for d in
            ((2024, 2, 29), (2023, 12, 31), (2016, 12, 31), (2017, 1, 1),
             (2024, 3, 2), (2024, 3, 3), (2019, 4, 6), (2019, 4, 7))]
    phases = [F(x) for x in range(0, 86400, st)] + [F(1, 2), F(86399)+F(1, 2)]

    def tods(c, it):
        d, p = it
        for tod in phases:
            c.case('tod2tow', (d, str(p), str(tod)), nearest_tod, d+p, tod)
            c.case('glo2time', (d, str(p), str(tod)), nearest_glo, d+p, tod)
    ck.pmap('tod2tow', [(d, p) for d in days for p in phases], tods)
    for dt in (604800, 86400, 3600, 900, 604800*1024):
        for k in range(-29, 30):
            for r in (days[0], days[4]+F(86399)+F(1, 2)):
                off = F(dt)*k/20+F(1, 8)
                ck.case('adjtime', (dt, k, str(r)), nearest_adj, F(r), off,
                        dt)
