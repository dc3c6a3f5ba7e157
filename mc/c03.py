""" C03 Compact SSR messages decode to exactly the transmitted corrections """
import itertools
import math
import numpy as np
from cssrlib.cssrlib import cssr, cssre, sCSSRTYPE, sCType
from cssrlib.gnss import epoch2time, sat2id, timediff, gpst2time
from mc import cssrenc as E
from mc.bits import BW, tobytes
from mc.core import expect

WEEK = 2200
TOW = 86400*3+7200+30
T0 = gpst2time(WEEK, TOW)
MODES = [sCSSRTYPE.QZS_CLAS, sCSSRTYPE.QZS_MADOCA]


def receiver(mode=0, nets=(0, 1, 7, 31), ng=64):
    cs = cssr()
    cs.cssrmode = MODES[mode]
    cs.read_griddef(E.griddef(nets, ng))
    cs.set_time(T0)
    cs.monlevel = 0
    return cs


SENT = [0x0123456789, 0xfedcba9876]


def feed(cs, *ws):
    """ decode the messages sent back to back, followed by a sentinel """
    s = ''.join(w.str() for w in ws)+E.st10(0, 1, SENT).str()
    pre = bytes(cs.sinfo)
    buf = tobytes(s)+bytes(64)
    cs.decode_cssr(buf, 0)
    off = 2*5
    expect(bytes(cs.sinfo[off:off+10]) ==
           b''.join(x.to_bytes(5, 'big') for x in SENT),
           'message length not consumed exactly')
    cs.sinfo[off:off+10] = bytes(10)


def ids(d):
    return {sat2id(k): v for k, v in d.items()}


def chk_time(cs, inet, sat, ct, t, what):
    lt = cs.lc[inet].t0
    lt = {sat2id(k) if k else 0: v for k, v in lt.items()}
    expect(sat in lt and ct in lt[sat] and
           abs(timediff(lt[sat][ct], gpst2time(WEEK, t))) < 1e-6,
           f'{what}: time stamp of {sat}')


def chk_orb(cs, m, vals, sel=None, inet=0, t=None):
    sel = range(m.n) if sel is None else sel
    exp = {m.sats[k][1]: E.orbval(vals[k]) for k in sel}
    o, e = ids(cs.lc[inet].dorb), ids(cs.lc[inet].iode)
    expect(set(o) == set(exp) and set(e) == set(exp),
           lambda: f'orbit satellites {sorted(o)} expected {sorted(exp)}')
    for s, (i, v) in exp.items():
        expect(e[s] == i, f'{s} iode {e[s]} expected {i}')
        expect(E.samev(o[s], v), f'{s} orbit {o[s]} expected {v}')
        if t is not None:
            chk_time(cs, inet, s, sCType.ORBIT, t, 'orbit')


def chk_clk(cs, m, vals, sel=None, inet=0, t=None):
    sel = range(m.n) if sel is None else sel
    exp = {m.sats[k][1]: E.sv(vals[k], 15, 0.0016) for k in sel}
    c = ids(cs.lc[inet].dclk)
    expect(set(c) == set(exp), f'clock satellites {sorted(c)}')
    for s, v in exp.items():
        expect(E.same(c[s], v), f'{s} clock {c[s]} expected {v}')
        if t is not None:
            chk_time(cs, inet, s, sCType.CLOCK, t, 'clock')


def chk_cb(cs, m, vals, sel=None, inet=0):
    sel = range(m.n) if sel is None else sel
    got = ids(cs.lc[inet].cbias)
    exp = {}
    for k in sel:
        g, s, sl = m.sats[k]
        exp[s] = {E.sigs(g, x, 'C'): E.sv(vals[k][j], 11, 0.02)
                  for j, x in enumerate(sl)}
    expect(set(got) == set(exp), f'cbias satellites {sorted(got)}')
    for s in exp:
        b = {repr(x): v for x, v in got[s].items()}
        expect(set(b) == set(exp[s]), lambda: f'{s} cbias signals '
               f'{sorted(b)} expected {sorted(exp[s])}')
        for x in b:
            expect(E.same(b[x], exp[s][x]), f'{s} {x} cbias {b[x]}'
                   f' expected {exp[s][x]}')


def chk_pb(cs, m, vals, sel=None, inet=0):
    sel = range(m.n) if sel is None else sel
    got, di = ids(cs.lc[inet].pbias), ids(cs.lc[inet].di)
    exp = {}
    for k in sel:
        g, s, sl = m.sats[k]
        exp[s] = {E.sigs(g, x, 'L'): (E.sv(vals[k][j][0], 15, 0.001),
                                      vals[k][j][1])
                  for j, x in enumerate(sl)}
    expect(set(got) == set(exp) and set(di) == set(exp),
           f'pbias satellites {sorted(got)}')
    for s in exp:
        b = {repr(x): v for x, v in got[s].items()}
        d = {repr(x): v for x, v in di[s].items()}
        expect(set(b) == set(exp[s]) and set(d) == set(exp[s]),
               f'{s} pbias signals {sorted(b)}')
        for x in b:
            expect(E.same(b[x], exp[s][x][0]), f'{s} {x} pbias {b[x]}'
                   f' expected {exp[s][x]}')
            expect(d[x] == exp[s][x][1], f'{s} {x} discontinuity {d[x]}')


def coef_ref(typ, c):
    r = [E.sv(c[0], 14, 0.05), 0, 0, 0, 0, 0]
    if typ > 0:
        r[1], r[2] = E.sv(c[1], 12, 0.02), E.sv(c[2], 12, 0.02)
    if typ > 1:
        r[3] = E.sv(c[3], 10, 0.02)
    if typ > 2:
        r[4], r[5] = E.sv(c[4], 8, 0.005), E.sv(c[5], 8, 0.005)
    return r


def gen(m, V):
    d = {}
    d['orb'] = [(V.u(10 if s[0] == 2 else 8), V.s(15), V.s(13), V.s(13))
                for s in m.sats]
    d['clk'] = [V.s(15) for s in m.sats]
    d['cb'] = [[V.s(11) for _ in s[2]] for s in m.sats]
    d['pb'] = [[(V.s(15), V.u(2)) for _ in s[2]] for s in m.sats]
    d['ura'] = [(V.u(3), V.u(3)) for s in m.sats]
    return d


def chk_mask(cs, m):
    sat = [sat2id(s) for s in cs.sat_n]
    expect(sat == [s[1] for s in m.sats], f'mask satellites {sat}')
    expect(cs.nsat_n == m.n, 'number of satellites')
    expect(cs.iodssr == m.iod, 'IOD SSR')
    for s in cs.sat_n:
        g, i, sl = [x for x in m.sats if x[1] == sat2id(s)][-1]
        got = [repr(x)[0]+repr(x)[2:] for x in cs.sig_n[s]]
        exp = [E.GN[g][0]+E.GN[g][2][x] for x in sl]
        expect(got == exp, f'{i} signals {got} expected {exp}')


def global_msgs(m, kind, mode, t=TOW):
    """ all messages over the global mask """
    V = E.Vals(kind)
    d = gen(m, V)
    cs = receiver(mode)
    feed(cs, E.st1(m, t, udi=3))
    chk_mask(cs, m)
    feed(cs, E.st2(m, t+5, d['orb'], udi=6), E.st3(m, t+10, d['clk'], udi=2))
    chk_orb(cs, m, d['orb'], t=t+5)
    chk_clk(cs, m, d['clk'], t=t+10)
    expect(cs.udi[sCType.ORBIT] == 6 and cs.udi[sCType.CLOCK] == 2,
           'update interval')
    feed(cs, E.st4(m, t+5, d['cb']), E.st5(m, t+5, d['pb']),
         E.st7(m, t+5, d['ura']))
    chk_cb(cs, m, d['cb'])
    chk_pb(cs, m, d['pb'])
    u = ids(cs.lc[0].ura)
    expect(set(u) == set(s[1] for s in m.sats), 'ura satellites')
    for k, s in enumerate(m.sats):
        expect(E.same(u[s[1]], E.qual(*d['ura'][k])),
               f'{s[1]} ura {u[s[1]]} for {d["ura"][k]}')
    # other messages untouched
    chk_orb(cs, m, d['orb'])
    chk_clk(cs, m, d['clk'])
    # everything again on a fresh receiver through the bundled messages
    d = gen(m, V)
    cs = receiver(mode)
    feed(cs, E.st1(m, t))
    for o, c in ((1, 1), (1, 0), (0, 1)):
        d = gen(m, V)
        feed(cs, E.st11(m, t+5, d['orb'] if o else None,
                        d['clk'] if c else None))
        if o:
            chk_orb(cs, m, d['orb'], t=t+5)
        if c:
            chk_clk(cs, m, d['clk'], t=t+5)
    for b, p in ((1, 1), (1, 0), (0, 1)):
        d = gen(m, V)
        feed(cs, E.st6(m, t+5, d['cb'] if b else None,
                       d['pb'] if p else None))
        if b:
            chk_cb(cs, m, d['cb'])
        if p:
            chk_pb(cs, m, d['pb'])
    return m.n, m.ncell


def subsets(n):
    if n <= 4:
        return [list(c) for r in range(n+1)
                for c in itertools.combinations(range(n), r)]
    return [[], [0], [n-1], [0, n-1], list(range(0, n, 2)), list(range(n))]


def net_msgs(m, kind, inet, sel, ng):
    """ messages for a local network """
    t = TOW
    V = E.Vals(kind, seed=inet+ng)
    cs = receiver()
    feed(cs, E.st1(m, t))
    sid = [m.sats[k][1] for k in sel]
    d = gen(m, V)
    other = 1 if inet != 1 else 7
    # biases and orbit/clock with network selection, after another network
    # has been served: it must keep its values
    d0 = gen(m, V)
    allsel = list(range(m.n))
    feed(cs, E.st6(m, t+5, d0['cb'], d0['pb'], (other, allsel)),
         E.st11(m, t+5, d0['orb'], d0['clk'], (other, allsel)))
    feed(cs, E.st6(m, t+5, d['cb'], d['pb'], (inet, sel)),
         E.st11(m, t+10, d['orb'], d['clk'], (inet, sel)))
    chk_cb(cs, m, d['cb'], sel, inet)
    chk_pb(cs, m, d['pb'], sel, inet)
    chk_orb(cs, m, d['orb'], sel, inet, t+10)
    chk_clk(cs, m, d['clk'], sel, inet, t+10)
    chk_cb(cs, m, d0['cb'], None, other)
    chk_pb(cs, m, d0['pb'], None, other)
    chk_orb(cs, m, d0['orb'], None, other, t+5)
    chk_clk(cs, m, d0['clk'], None, other, t+5)
    expect([sat2id(s) for s in cs.sat_n] == [s[1] for s in m.sats],
           'global satellite list changed')
    for bp in ((1, 0), (0, 1)):
        d = gen(m, V)
        feed(cs, E.st6(m, t+5, d['cb'] if bp[0] else None,
                       d['pb'] if bp[1] else None, (inet, sel)),
             E.st11(m, t+10, d['orb'] if bp[0] else None,
                    d['clk'] if bp[1] else None, (inet, sel)))
        if bp[0]:
            chk_cb(cs, m, d['cb'], sel, inet)
            chk_orb(cs, m, d['orb'], sel, inet)
        else:
            chk_pb(cs, m, d['pb'], sel, inet)
            chk_clk(cs, m, d['clk'], sel, inet)
    # STEC polynomial
    for typ in range(4):
        q = [(V.u(3), V.u(3)) for _ in sel]
        co = [[V.s(14), V.s(12), V.s(12), V.s(10), V.s(8), V.s(8)]
              for _ in sel]
        feed(cs, E.st8(m, t+15, typ, inet, sel, q, co))
        lc = cs.lc[inet]
        expect([sat2id(s) for s in lc.sat_n] == sid, 'stec satellites')
        c, sq = ids(lc.ci), ids(lc.stec_quality)
        expect(set(c) == set(sid) and set(sq) == set(sid), 'stec keys')
        for i, s in enumerate(sid):
            expect(E.samev(c[s], coef_ref(typ, co[i])),
                   f'{s} stec type {typ} {c[s]}')
            expect(E.same(sq[s], E.qual(*q[i])), f'{s} stec quality')
            chk_time(cs, inet, s, sCType.STEC, t+15, 'stec')
    # gridded
    for ttype, rng in itertools.product((0, 1, 2), (0, 1)):
        q = (V.u(3), V.u(3))
        tr = [(V.s(9), V.s(8)) for _ in range(ng)]
        st = [[V.s(16 if rng else 7) for _ in sel] for _ in range(ng)]
        feed(cs, E.st9(m, t+20, ttype, rng, inet, sel, q, tr, st))
        lc = cs.lc[inet]
        expect([sat2id(s) for s in lc.sat_n] == sid, 'grid satellites')
        expect(lc.ng == ng and E.same(lc.trop_quality, E.qual(*q)),
               'grid header')
        ds = ids(lc.dstec)
        expect(set(ds) == set(sid), 'grid satellites')
        for i, s in enumerate(sid):
            for g in range(ng):
                expect(E.same(ds[s][g], E.sv(st[g][i], 16 if rng else 7,
                                             0.04)),
                       f'{s} grid {g} stec residual {ds[s][g]} '
                       f'expected {st[g][i]*0.04}')
            chk_time(cs, inet, s, sCType.TROP, t+20, 'grid')
        if ttype > 0:
            for g in range(ng):
                # zenith delays: correction plus the nominal 2.3 / 0.252 m
                h = lc.dth[g]+lc.ct[0, 0]
                wv = lc.dtw[g]+lc.ct[1, 0]
                expect(E.same(h, E.sv(tr[g][0], 9, 0.004)+2.3),
                       f'grid {g} hydrostatic {h}')
                expect(E.same(wv, E.sv(tr[g][1], 8, 0.004)+0.252),
                       f'grid {g} wet {wv}')
    return len(sel)


def atmos(m, kind, inet, sel, ng, tr, sc, var):
    t = TOW
    V = E.Vals(kind, seed=var)
    cs = receiver()
    feed(cs, E.st1(m, t))
    sid = [m.sats[k][1] for k in sel]
    d = {'tq': (V.u(3), V.u(3)), 'tt': var % 3, 'tsz': var % 2,
         'tc': [V.s(9), V.s(7), V.s(7), V.s(7)], 'tofs': V.u(4)}
    d['tres'] = [V.s(8 if d['tsz'] else 6) for _ in range(ng)]
    d['sq'] = [(V.u(3), V.u(3)) for _ in sel]
    d['styp'] = [(var+i) % 4 for i in range(len(sel))]
    d['scoef'] = [[V.s(14), V.s(12), V.s(12), V.s(10), V.s(8), V.s(8)]
                  for _ in sel]
    d['ssz'] = [(var//2+i) % 4 for i in range(len(sel))]
    d['sres'] = [[V.s(E.SSZ[d['ssz'][i]][0]) for _ in range(ng)]
                 for i in range(len(sel))]
    feed(cs, E.st12(m, t+5, tr, sc, inet, ng, sel, d, udi=5))
    lc = cs.lc[inet]
    expect(lc.ng == ng and lc.flg_trop == tr and lc.flg_stec == sc,
           'atmosphere flags')
    expect([sat2id(s) for s in lc.sat_n] == sid, 'atmosphere satellites')
    if tr > 0:
        expect(E.same(lc.trop_quality, E.qual(*d['tq'])), 'trop quality')
    if tr & 2:
        exp = [E.sv(d['tc'][0], 9, 0.004)+2.3, 0, 0, 0]
        if d['tt'] > 0:
            exp[1:3] = [E.sv(d['tc'][1], 7, 0.002),
                        E.sv(d['tc'][2], 7, 0.002)]
        if d['tt'] > 1:
            exp[3] = E.sv(d['tc'][3], 7, 0.001)
        expect(E.samev(lc.ct[0], exp), f'trop function {lc.ct[0]} {exp}')
    if tr & 1:
        expect(E.same(lc.ct[1, 0], d['tofs']*0.02), 'trop offset')
        expect(E.samev(lc.dtw, [E.sv(x, 8 if d['tsz'] else 6, 0.004)
                                for x in d['tres']]), 'trop residual')
    q = ids(lc.stec_quality)
    expect(set(q) == set(sid), 'stec quality')
    for i, s in enumerate(sid):
        expect(E.same(q[s], E.qual(*d['sq'][i])), f'{s} stec quality')
        chk_time(cs, inet, s, sCType.STEC, t+5, 'atmos')
        if sc & 2:
            expect(E.samev(ids(lc.ci)[s], coef_ref(d['styp'][i],
                                                   d['scoef'][i])),
                   f'{s} stec function')
        if sc & 1:
            n, scl = E.SSZ[d['ssz'][i]]
            expect(E.samev(ids(lc.dstec)[s], [E.sv(x, n, scl)
                                              for x in d['sres'][i]]),
                   f'{s} stec residual')
    return tr, sc


def interp(via, ng, gp, off, kind):
    """ user values at (or beside) a grid point come from that grid point """
    m = E.Mask(1, [(0, [1, 5], [0], None), (2, [3], [1], None)])
    sel = [0, 2]
    sid = [m.sats[k][1] for k in sel]
    inet, t = 7, TOW
    V = E.Vals(kind, seed=gp)
    cs = receiver(0, (1, 7), ng)
    feed(cs, E.st1(m, t))
    co = [[V.s(14), V.s(12), V.s(12), V.s(10), V.s(8), V.s(8)] for _ in sel]
    lat = math.radians(30+inet+0.1*gp)
    lon = math.radians(130+0.1*gp)
    pos = [lat+off/6378137.0, lon, 0.0]
    tr = [(V.s(9), V.s(8)) for _ in range(ng)]
    if via == 'grid':
        st = [[V.s(7) for _ in sel] for _ in range(ng)]
        feed(cs, E.st8(m, t+5, 3, inet, sel, [(1, 1)]*2, co))
        feed(cs, E.st9(m, t+5, 1, 0, inet, sel, (1, 1), tr, st))
        res = [[E.sv(st[g][i], 7, 0.04) for g in range(ng)]
               for i in range(2)]
        zh = 2.3+tr[gp][0]*0.004
        zw = 0.252+tr[gp][1]*0.004
    else:
        d = {'tq': (1, 1), 'tt': 2, 'tsz': 1,
             'tc': [V.s(9), V.s(7), V.s(7), V.s(7)], 'tofs': 3,
             'tres': [V.s(8) for _ in range(ng)], 'sq': [(1, 1)]*2,
             'styp': [3, 3], 'scoef': co, 'ssz': [3, 3],
             'sres': [[V.s(7) for _ in range(ng)] for _ in sel]}
        feed(cs, E.st12(m, t+5, 3, 3, inet, ng, sel, d))
        res = [[x*0.24 for x in d['sres'][i]] for i in range(2)]
    inet_ = cs.find_grid_index(pos)
    expect(inet_ == inet, f'network {inet_}')
    dla, dlo = cs.get_dpos(pos)
    a, b = 0.1*gp+math.degrees(off/6378137.0), 0.1*gp
    expect(abs(dla-a) < 1e-9 and abs(dlo-b) < 1e-9, 'offset')
    if via != 'grid':
        c = d['tc']
        zh = 2.3+0.004*c[0]+0.002*(c[1]*a+c[2]*b)+0.001*c[3]*a*b
        zw = 0.06+d['tres'][gp]*0.004
    s = cs.get_stec(dla, dlo)
    for i in range(2):
        r = coef_ref(3, co[i])
        v = r[0]+r[1]*a+r[2]*b+r[3]*a*b+r[4]*a*a+r[5]*b*b+res[i][gp]
        expect(abs(s[i]-v) < 1e-6, f'{sid[i]} stec {s[i]} expected {v}')
    h, w = cs.get_trop(dla, dlo)
    expect(abs(h-zh) < 1e-9 and abs(w-zw) < 1e-9,
           f'zenith delay {h},{w} expected {zh},{zw}')


def nogrid():
    """ networks that are not in the grid definition """
    m = E.Mask(1, [(0, [1], [0], None)])
    for nets in (None, (1,)):
        cs = cssr()
        if nets is not None:
            cs.read_griddef(E.griddef(nets, 3))
        cs.set_time(T0)
        d = {'tq': (1, 1), 'tt': 0, 'tsz': 0, 'tc': [9, 0, 0, 0], 'tofs': 1,
             'tres': [3, 4], 'sq': [(1, 2)], 'styp': [0],
             'scoef': [[77, 0, 0, 0, 0, 0]], 'ssz': [0], 'sres': [[1, 2]]}
        feed(cs, E.st1(m, TOW), E.st12(m, TOW, 3, 3, 9, 2, [0], d))
        expect(E.same(cs.lc[9].ct[0, 0], 2.336), 'atmosphere value')
        feed(cs, E.st9(m, TOW, 1, 0, 9, [0], (1, 1), [(1, 2)], [[5]]))
        expect(E.same(cs.lc[9].dth[0], 0.004), 'grid value')


def sinfo(ns, mi, n):
    cs = receiver()
    words = [[(0x1234500000+k*0x10101+j*7+1) for j in range(n)]
             for k in range(ns)]
    for k in range(ns):
        w = E.st10(1 if k < ns-1 else mi, k, words[k])
        cs.decode_cssr(tobytes(w.str())+bytes(8), 0)
    exp = b''.join(x.to_bytes(5, 'big') for ws in words for x in ws)
    expect(bytes(cs.sinfo[:len(exp)]) == exp, 'service information')
    return exp.hex()


def masks(ck):
    """ bounded mask shapes """
    out = []
    for g in E.GN:
        n = E.MAXK[g]
        ns = len(E.GN[g][2])
        for k in range(1, n+1):                      # every satellite
            out.append(E.Mask(k % 16, [(g, [k], [k % ns], None)]))
        for s in range(ns):                          # every signal
            out.append(E.Mask(s, [(g, [1, n], [s], None)]))
        for a, b in itertools.combinations(range(ns), 2):
            if ck.thorough or (a+b) % 3 == 0:
                out.append(E.Mask(1, [(g, [2, 5], [a, b], None)]))
        out.append(E.Mask(2, [(g, list(range(1, n+1)), [0, ns-1], None)]))
        out.append(E.Mask(3, [(g, [3, 7, n], list(range(ns)), None)]))
        # every cell mask of 2 satellites x 2 signals and 2x3 / 3x2
        for cells in itertools.product(subsets(2), repeat=2):
            out.append(E.Mask(4, [(g, [4, n], [0, 2], list(cells))]))
        if ck.thorough or g in (0, 2):
            for cells in itertools.product(subsets(3), repeat=2):
                out.append(E.Mask(5, [(g, [1, 9], [1, 2, ns-1],
                                       list(cells))]))
            for cells in itertools.product(subsets(2), repeat=3):
                out.append(E.Mask(6, [(g, [1, 2, 3], [0, 1], list(cells))]))
    gs = list(E.GN)
    for a, b in itertools.permutations(gs, 2):       # every pair of systems
        if {a, b} == {3, 7}:
            # BDS-2 and BDS-3 masks address disjoint satellites
            sa = {3: [1, 18], 7: [1, 40]}
        else:
            sa = {a: [1, 3], b: [2, 4]}
        for ca in (None, [[0], [0, 1]]):
            for cb in (None, [[1], []]):
                out.append(E.Mask(7, [(a, sa[a], [0, 1], ca),
                                      (b, sa[b], [1, 2], cb)]))
    for trip in itertools.combinations(gs, 3):
        if 3 in trip and 7 in trip:
            continue
        out.append(E.Mask(8, [(x, [1+i, 3+i], [0, i+1], [[0], [0, 1]])
                              for i, x in enumerate(trip)]))
    out.append(E.Mask(9, [(x, [1, 2], [0, 2], None) for x in gs if x != 3]))
    return out


def qi(c, v):
    e = cssre()
    y = E.qual(c, v)
    r = e.quality2qi(y)
    expect(abs(E.qual(*r)-y) < 1e-9, f'quality ({c},{v}) encodes as {r}')


def qmid(k):
    """ a quality between two table values is encoded within one step """
    e = cssre()
    y = 0.0002*1.01**k
    if y > 4.0:
        return
    c, v = e.quality2qi(y)
    expect(0 <= c <= 7 and 0 <= v <= 7, f'{y} -> {c},{v}')
    tab = sorted(E.qual(a, b) for a in range(8) for b in range(8)
                 if (a, b) != (0, 0))
    z = 0.0 if (c, v) == (0, 0) else E.qual(c, v)
    lo = max([x for x in [0.0]+tab if x <= y+1e-12])
    hi = min([x for x in tab if x >= y-1e-12])
    expect(lo-1e-12 <= z <= hi+1e-12, f'quality {y} encoded as {z}')


def maskcodec(bits, n, ofst):
    e, d = cssre(), cssr()
    v = [k+ofst for k in bits]
    w = e.encode_mask(v, n, ofst)
    ref = sum(1 << (n-1-k) for k in bits)
    expect(w == ref, f'encode_mask {v} {w:x} expected {ref:x}')
    r, c = d.decode_mask(w, n, ofst)
    expect(list(r) == v and c == len(v), f'decode_mask {r}')


def run(ck):
    ms = masks(ck)
    kinds = ['dist', 'mix'] if not ck.thorough else \
        ['dist', 'mix', 'max', 'min', 'na', 'one', 'mone', 'zero']
    ck.bound(mask_shapes=len(ms), value_patterns=kinds)

    def key(m):
        return (m.iod, tuple((g, tuple(a), tuple(b),
                              None if c is None else
                              tuple(tuple(x) for x in c))
                             for g, a, b, c in m.gnss))

    def f(c, i):
        m = ms[i]
        for kind in (kinds if i % 7 else ['dist', 'mix', 'na', 'max', 'min']):
            c.case('global', (key(m), kind), global_msgs, m, kind, i % 2,
                   steps=14)
    ck.pmap('global', range(len(ms)), f)
    nm = [E.Mask(1, [(0, [1, 5], [0, 7], None), (2, [3, 36], [1, 4],
                                                 [[0], [0, 1]])]),
          E.Mask(2, [(4, [1], [0, 5, 8], None)]),
          E.Mask(3, [(2, [2, 4, 8], [0], None), (4, [2], [0], None)]),
          E.Mask(4, [(0, list(range(1, 20)), [0, 7], None),
                     (2, list(range(10, 30)), [1, 4], None)])]
    nets = (0, 1, 7, 31) if ck.thorough else (0, 1, 31)
    items = [(mi, sel, inet, ng, k) for mi, m in enumerate(nm)
             for sel in subsets(m.n) for inet in nets
             for ng in ((1, 2, 5, 63) if ck.thorough else (1, 5, 63))
             for k in kinds]

    def f2(c, it):
        mi, sel, inet, ng, k = it
        c.case('network', (mi, tuple(sel), inet, ng, k), net_msgs, nm[mi], k,
               inet, sel, ng, steps=16)
    ck.pmap('network', items, f2)
    items = [(mi, sel, inet, ng, tr, sc, var, k) for mi, m in enumerate(nm)
             for sel in subsets(m.n) for inet in nets[:2]
             for ng in (1, 4, 63) for tr in range(4) for sc in (1, 2, 3)
             for var in range(12 if ck.thorough else 6)
             for k in (kinds if ck.thorough or var < 2 else ['dist'])]

    def f3(c, it):
        mi, sel, inet, ng, tr, sc, var, k = it
        c.case('atmos', (mi, tuple(sel), inet, ng, tr, sc, var, k), atmos,
               nm[mi], k, inet, sel, ng, tr, sc, var, steps=2)
    ck.pmap('atmos', items, f3)
    for via in ('grid', 'atmos'):
        for ng in (4, 8, 12):
            for gp in range(ng):
                for off in (0.0, 2000.0, -4000.0):
                    for k in ('dist', 'max', 'min'):
                        ck.case('grid_point', (via, ng, gp, off, k), interp,
                                via, ng, gp, off, k, steps=3)
    ck.case('no_grid', 0, nogrid)
    for n in range(1, 5):
        for ns in range(1, 9):
            for mi in (0, 1):
                ck.case('sinfo', (ns, mi, n), sinfo, ns, mi, n, steps=ns)
    for c in range(8):
        for v in range(8):
            if (c, v) != (0, 0):
                ck.case('quality', (c, v), qi, c, v)
    for k in range(1000):
        ck.case('quality_between', k, qmid, k)
    for n, o in ((40, 1), (16, 0), (5, 1)):
        for a, b in itertools.combinations_with_replacement(range(n), 2):
            ck.case('mask_codec', (n, o, a, b), maskcodec, sorted({a, b}), n,
                    o)
        ck.case('mask_codec', (n, o, 'all'), maskcodec, list(range(n)), n, o)
        ck.case('mask_codec', (n, o, 'none'), maskcodec, [], n, o)
