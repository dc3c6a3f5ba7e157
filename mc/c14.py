""" C14 RTCM MSM observations survive encode and decode """
import itertools
import math
import numpy as np
from cssrlib.rtcm import rtcm, rtcme
from cssrlib.gnss import uGNSS, uTYP, uSIG, prn2sat, Obs, rSigRnx
from mc.core import expect
from mc.rtcmenc import new, frame, gt, secs, LEAP
from mc.bits import frombytes

C = 299792458.0
RMS = C*1e-3
BASE = {uGNSS.GPS: 1070, uGNSS.GLO: 1080, uGNSS.GAL: 1090, uGNSS.SBS: 1100,
        uGNSS.QZS: 1110, uGNSS.BDS: 1120, uGNSS.IRN: 1130}
SYS = list(BASE)
PRN0 = {uGNSS.QZS: 192, uGNSS.SBS: 119}
NPRN = {uGNSS.GPS: 32, uGNSS.GLO: 24, uGNSS.GAL: 36, uGNSS.SBS: 39,
        uGNSS.QZS: 10, uGNSS.BDS: 63, uGNSS.IRN: 14}
# signal id -> RINEX code (RTCM 10403.3 tables 3.5-91 ff)
SIG = {
    uGNSS.GPS: {2: '1C', 3: '1P', 4: '1W', 8: '2C', 9: '2P', 10: '2W',
                15: '2S', 16: '2L', 17: '2X', 22: '5I', 23: '5Q', 24: '5X',
                30: '1S', 31: '1L', 32: '1X'},
    uGNSS.GLO: {2: '1C', 3: '1P', 8: '2C', 9: '2P'},
    uGNSS.GAL: {2: '1C', 3: '1A', 4: '1B', 5: '1X', 6: '1Z', 8: '6C',
                9: '6A', 10: '6B', 11: '6X', 12: '6Z', 14: '7I', 15: '7Q',
                16: '7X', 18: '8I', 19: '8Q', 20: '8X', 22: '5I', 23: '5Q',
                24: '5X'},
    uGNSS.SBS: {2: '1C', 22: '5I', 23: '5Q', 24: '5X'},
    uGNSS.QZS: {2: '1C', 9: '6S', 10: '6L', 11: '6X', 15: '2S', 16: '2L',
                17: '2X', 22: '5I', 23: '5Q', 24: '5X', 30: '1S', 31: '1L',
                32: '1X'},
    uGNSS.BDS: {2: '2I', 3: '2Q', 4: '2X', 8: '6I', 9: '6Q', 10: '6X',
                14: '7I', 15: '7Q', 16: '7X', 22: '5D', 23: '5P', 24: '5X',
                25: '7D', 30: '1D', 31: '1P', 32: '1X'},
    uGNSS.IRN: {22: '5A'},
}
FREQ = {
    uGNSS.GPS: {'1': 1575.42, '2': 1227.60, '5': 1176.45},
    uGNSS.GAL: {'1': 1575.42, '5': 1176.45, '7': 1207.14, '8': 1191.795,
                '6': 1278.75},
    uGNSS.QZS: {'1': 1575.42, '2': 1227.60, '5': 1176.45, '6': 1278.75},
    uGNSS.BDS: {'1': 1575.42, '2': 1561.098, '5': 1176.45, '7': 1207.14,
                '6': 1268.52},
    uGNSS.SBS: {'1': 1575.42, '5': 1176.45},
    uGNSS.IRN: {'5': 1176.45},
}
WEEK = 2200


def freq(sys, code, fcn):
    if sys == uGNSS.GLO:
        if fcn is None:
            return None
        return (1602e6+fcn*562500.0 if code[0] == '1'
                else 1246e6+fcn*437500.0)
    return FREQ[sys][code[0]]*1e6


def usig(code):
    return getattr(uSIG, 'L'+code)


# message model: dict cell[(prn index, signal id)] -> values (raw integers)
#   rough: int ms (0..254 or 255 = invalid), mod (0..1023)
#   ex, rr (s14);   pr, cp, lock, half, cnr, rrf per cell
def bits(msm):
    hi = msm >= 6
    return dict(pr=20 if hi else 15, cp=24 if hi else 22,
                lock=10 if hi else 4, cnr=10 if hi else 6)


def raw_cell(msm, n):
    """ distinguishable cell values """
    b = bits(msm)
    x = n*2654435761 % (1 << 30)
    return dict(pr=(x % (1 << b['pr']-1))-(1 << b['pr']-2),
                cp=(x*7 % (1 << b['cp']-1))-(1 << b['cp']-2),
                lock=1+n % ((1 << b['lock'])-1), half=0,
                cnr=1+(n*5+3) % ((1 << b['cnr'])-1),
                rrf=(x % 9001)-4500)


def raw_sat(n):
    return dict(ms=60+n % 40, mod=(n*131+17) % 1024, ex=n % 14,
                rr=((n*977) % 8001)-4000)


def epoch(sys, t):
    """ MSM epoch field of the GPS time t (s, a multiple of 1 ms) """
    ms = round(t*1000)
    if sys == uGNSS.GLO:
        ms = (ms-LEAP*1000+10800000) % 604800000
        return (ms//86400000) << 27 | ms % 86400000
    if sys == uGNSS.BDS:
        ms -= 14000
    return ms % 604800000


def build(sys, msm, t, sats, sigs, cells, smap, cmap, head=None):
    """ MSM from the published layout; sats: PRN offsets 1.., sigs: ids """
    h = dict(ref=1234, mi=1, iods=5, csi=1, eci=2, si=1, smi=3)
    h.update(head or {})
    w = new(BASE[sys]+msm)
    w.u(12, h['ref'])
    w.u(30, h.get('epoch', epoch(sys, t)))
    w.u(1, h['mi'])
    w.u(3, h['iods'])
    w.u(7, 0x55)        # reserved
    w.u(2, h['csi'])
    w.u(2, h['eci'])
    w.u(1, h['si'])
    w.u(3, h['smi'])
    for p in range(1, 65):
        w.u(1, int(p in sats))
    for s in range(1, 33):
        w.u(1, int(s in sigs))
    for p in sats:
        for s in sigs:
            w.u(1, int((p, s) in cells))
    for p in sats:
        w.u(8, smap[p]['ms'])
    if msm in (5, 7):
        for p in sats:
            w.u(4, smap[p]['ex'])
    for p in sats:
        w.u(10, smap[p]['mod'])
    if msm in (5, 7):
        for p in sats:
            w.s(14, smap[p]['rr'])
    order = [(p, s) for p in sats for s in sigs if (p, s) in cells]
    b = bits(msm)
    for n in ('pr', 'cp'):
        for c in order:
            w.s(b[n], cmap[c][n])
    for c in order:
        w.u(b['lock'], cmap[c]['lock'])
    for c in order:
        w.u(1, cmap[c]['half'])
    for c in order:
        w.u(b['cnr'], cmap[c]['cnr'])
    if msm in (5, 7):
        for c in order:
            w.s(15, cmap[c]['rrf'])
    return w


def value(sys, msm, s, sat, cell, fcn):
    """ observation values in physical units, None = not available """
    b = bits(msm)
    hi = msm >= 6
    out = dict(P=None, L=None, D=None, S=None)
    r = None
    if sat['ms'] != 255:
        r = sat['ms']+sat['mod']/1024.0
    if r is not None and cell['pr'] != -(1 << b['pr']-1):
        out['P'] = (r+cell['pr']*2.0**(-29 if hi else -24))*RMS
    f = freq(sys, SIG[sys][s], fcn)
    if r is not None and f and cell['cp'] != -(1 << b['cp']-1):
        out['L'] = (r+cell['cp']*2.0**(-31 if hi else -29))*RMS*f/C
    if msm in (5, 7) and f and sat['rr'] != -8192 and \
            cell['rrf'] != -16384:
        out['D'] = -(sat['rr']+cell['rrf']*1e-4)*f/C
    if cell['cnr'] != 0:
        out['S'] = cell['cnr']*(0.0625 if hi else 1.0)
    return out


TOL = dict(P=1e-6, L=2e-6, D=1e-6, S=1e-9)


def absent(x):
    return x == 0 or math.isnan(x)


def judge(sys, obs, exp, what=''):
    """ obs against exp[(prn, sig)] = dict(P,L,D,S) """
    expect(obs is not None, 'no observations')
    sl = obs.sig[sys]
    n = len(sl[uTYP.C])
    codes = []
    for typ in (uTYP.C, uTYP.L, uTYP.S):
        expect(len(sl[typ]) == n, 'signal lists')
    for j in range(n):
        r = sl[uTYP.C][j]
        expect(r.sys == sys and r.typ == uTYP.C, f'signal {r}')
        for typ in (uTYP.L, uTYP.S):
            expect(sl[typ][j].sys == sys and sl[typ][j].typ == typ and
                   sl[typ][j].sig == r.sig, 'signal lists differ')
        codes.append(r.sig)
    expect(len(set(codes)) == n, 'signal twice')
    rows = [int(x) for x in obs.sat]
    expect(len(set(rows)) == len(rows), 'satellite twice')
    seen = set()
    for (p, s), v in exp.items():
        sat = prn2sat(sys, p+PRN0.get(sys, 0))
        if sat not in rows or usig(SIG[sys][s]) not in codes:
            expect(all(x is None for x in v.values()),
                   lambda: f'{what} {p} {s} missing')
            continue
        k, j = rows.index(sat), codes.index(usig(SIG[sys][s]))
        seen.add((k, j))
        for nm in 'PLDS':
            x = getattr(obs, nm)[k, j]
            if v[nm] is None:
                expect(absent(x), lambda: f'{what} {nm} of {p}/{s}: {x} '
                       'should be absent')
            else:
                expect(abs(x-v[nm]) <= TOL[nm], lambda:
                       f'{what} {nm} of {p}/{s}: {x} expected {v[nm]}')
    for k in range(len(rows)):
        for j in range(n):
            if (k, j) not in seen:
                for nm in 'PLDS':
                    x = getattr(obs, nm)[k, j]
                    expect(absent(x), lambda: f'{what} {nm} reported for an '
                           'absent cell')


def receiver(t, mode=0):
    d = rtcm()
    d.monlevel = 0
    if mode == 0:
        d.set_time(gt(t))
    elif mode == 1:         # as in the tutorials
        d.time = gt(t)
        d.set_time(gt(t))
    elif mode == 2:         # only the week number
        d.week = int(t//604800)
    return d


T0 = WEEK*604800+217000.0


def run_msg(d, w):
    m = frame(w)
    n = w.n
    r = d.decode(m)
    expect(isinstance(r, tuple) and len(r) == 5, 'decode result')
    expect(r[0] == 24+n, lambda: f'consumed {r[0]-24} of {n} bits')
    return r[1]


def chk_geom(sys, msm, sats, sigs, cells, seed=0, fcn_known=True, over=None,
             sover=None):
    smap = {p: raw_sat(p*3+seed) for p in sats}
    cmap = {c: raw_cell(msm, c[0]*37+c[1]*11+seed) for c in cells}
    for c, kv in (over or {}).items():
        cmap[c].update(kv)
    for p, kv in (sover or {}).items():
        smap[p].update(kv)
    d = receiver(T0)
    fcn = {p: None for p in sats}
    if sys == uGNSS.GLO:
        if msm in (5, 7):
            fcn = {p: smap[p]['ex']-7 if smap[p]['ex'] <= 13 else None
                   for p in sats}
        elif fcn_known:
            # an earlier MSM7 has told the frequency channels
            s0 = {p: raw_sat(p) for p in sats}
            c0 = {(p, 2): raw_cell(7, p) for p in sats}
            run_msg(d, build(sys, 7, T0-1, sats, [2], c0, s0, c0))
            fcn = {p: s0[p]['ex']-7 for p in sats}
    w = build(sys, msm, T0, sats, sigs, cells, smap, cmap)
    obs = run_msg(d, w)
    exp = {(p, s): value(sys, msm, s, smap[p], cmap[p, s], fcn[p])
           for (p, s) in cells}
    judge(sys, obs, exp)
    expect(abs(secs(obs.t)-T0) < 1e-6, lambda: f'time {secs(obs.t)-T0}')


def full(sats, sigs):
    return {(p, s) for p in sats for s in sigs}


def shapes(ns, nf, sats, sigs):
    """ all cell masks without empty row or column """
    cs = [(p, s) for p in sats for s in sigs]
    for m in range(1, 1 << len(cs)):
        cells = {c for k, c in enumerate(cs) if m >> k & 1}
        if {c[0] for c in cells} == set(sats) and \
                {c[1] for c in cells} == set(sigs):
            yield cells


def chk_epoch(sys, t, dref, mode):
    d = receiver(t+dref, mode)
    sats, sigs = [3], [22]
    cells = {(3, 22)}
    if sys == uGNSS.GLO:
        sigs, cells = [2], {(3, 2)}
    smap = {3: raw_sat(3)}
    cmap = {c: raw_cell(7, 1) for c in cells}
    w = build(sys, 7, t, sats, sigs, cells, smap, cmap)
    tt = d.decode_time(frame(w))
    expect(abs(secs(tt)-t) < 1e-6, lambda: f'decode_time off by {secs(tt)-t}')
    obs = run_msg(d, w)
    expect(abs(secs(obs.t)-t) < 1e-6, lambda: f'obs.t off by {secs(obs.t)-t}')


def chk_stream(sys, t, step, n):
    """ a stream running over the rollover without a new reference """
    d = receiver(t, 1)
    sig = 2 if sys == uGNSS.GLO else 22
    cells = {(3, sig)}
    for k in range(n):
        tk = t+k*step
        cmap = {c: raw_cell(7, k) for c in cells}
        obs = run_msg(d, build(sys, 7, tk, [3], [sig], cells,
                               {3: raw_sat(3)}, cmap))
        expect(abs(secs(obs.t)-tk) < 1e-6, lambda: f'epoch {k}')


def chk_dow7(t, dref):
    """ GLONASS day of week unknown """
    d = receiver(t+dref, 1)
    cells = {(3, 2)}
    ep = epoch(uGNSS.GLO, t) | 7 << 27
    obs = run_msg(d, build(uGNSS.GLO, 7, t, [3], [2], cells, {3: raw_sat(3)},
                           {(3, 2): raw_cell(7, 1)}, dict(epoch=ep)))
    expect(abs(secs(obs.t)-t) < 1e-6, lambda: f'off by {secs(obs.t)-t}')


def chk_lock(sys, msm, hist):
    """
    history of lock indicators: per epoch a dict {(prn, sig): (lock, half)}
    """
    d = receiver(T0, 1)
    last = {}
    for k, e in enumerate(hist):
        if not e:
            continue
        sats = sorted({c[0] for c in e})
        sigs = sorted({c[1] for c in e})
        cmap = {c: dict(raw_cell(msm, 3), lock=v[0], half=v[1])
                for c, v in e.items()}
        obs = run_msg(d, build(sys, msm, T0+k, sats, sigs, set(e),
                               {p: raw_sat(p) for p in sats}, cmap))
        rows = [int(x) for x in obs.sat]
        codes = [r.sig for r in obs.sig[sys][uTYP.C]]
        for c, v in e.items():
            i = rows.index(prn2sat(sys, c[0]+PRN0.get(sys, 0)))
            j = codes.index(usig(SIG[sys][c[1]]))
            l = int(obs.lli[i, j])
            expect((l >> 1 & 1) == v[1], lambda: f'epoch {k} {c}: half-cycle '
                   f'flag {l}')
            if c in last:
                if v[0] < last[c]:
                    expect(l & 1, lambda: f'epoch {k} {c}: slip not reported')
                elif v[1] == 0 and v[0] > 0:
                    expect(not l & 1, lambda: f'epoch {k} {c}: slip reported')
            elif v[1] == 0 and v[0] > 0:
                expect(not l & 1, lambda: f'epoch {k} {c}: slip at first')
            last[c] = v[0]
        for i in range(len(rows)):
            for j in range(len(codes)):
                ent = [c for c in e if
                       prn2sat(sys, c[0]+PRN0.get(sys, 0)) == rows[i] and
                       usig(SIG[sys][c[1]]) == codes[j]]
                if not ent:
                    expect(obs.lli[i, j] == 0, 'flag for an absent cell')


# ------------------------------------------------------------- own encoder
def mkobs(sys, sats, sigs, vals, t, lli=None, order=None):
    """ Obs with the rows of the satellites; vals[(p,s)] = (P,L,D,S) """
    o = Obs()
    o.t = gt(t)
    o.sat = np.array([prn2sat(sys, p+PRN0.get(sys, 0)) for p in sats],
                     dtype=np.int32)
    o.sig = {sys: {}}
    for typ in (uTYP.C, uTYP.L, uTYP.D, uTYP.S):
        o.sig[sys][typ] = [rSigRnx(sys, typ, usig(SIG[sys][s])) for s in sigs]
    z = (len(sats), len(sigs))
    for k, nm in enumerate('PLDS'):
        a = np.zeros(z)
        for i, p in enumerate(sats):
            for j, s in enumerate(sigs):
                if (p, s) in vals and vals[p, s][k] is not None:
                    a[i, j] = vals[p, s][k]
        setattr(o, nm, a)
    o.lli = np.zeros(z, dtype=np.int32)
    for (p, s), v in (lli or {}).items():
        o.lli[sats.index(p), sigs.index(s)] = v
    return o


def phys(sys, p, s, n, fcn):
    """ plausible observation of a cell, and its error bounds """
    f = freq(sys, SIG[sys][s], fcn)
    r = 19.9e6+(p*7919+n*104729) % 9000000+p*0.377
    P = r+(s-10)*1.237
    L = (r+7.1-s*0.83)*f/C
    D = -((p*613+n*97) % 1500-750+s*0.01234)*f/C
    S = 20+(p*3+s+n) % 35+0.25
    return P, L, D, S


def encoder(sys, msm, t, sats):
    e = rtcme()
    e.msgtype = BASE[sys]+msm
    e.time = gt(t)
    if sys == uGNSS.GLO:
        e.glo_ch = {prn2sat(sys, p): p % 14-7 for p in sats}
    return e


def chk_enc(sys, msm, sats, sigs, cells, miss=(), t=T0, n=0):
    e = encoder(sys, msm, t, sats)
    vals = {}
    for p, s in cells:
        fcn = p % 14-7
        v = list(phys(sys, p, s, n, fcn))
        for (c, nm) in miss:
            if c == (p, s):
                v['PLDS'.index(nm)] = None
        vals[p, s] = tuple(v)
    msg = bytearray(1100)
    nb = e.encode(msg, mkobs(sys, sats, sigs, vals, t))
    used = {c for c, v in vals.items() if v[0] or v[1]}
    us, uf = {c[0] for c in used}, {c[1] for c in used}
    b = bits(msm)
    cellb = b['pr']+b['cp']+b['lock']+b['cnr']+1+(15 if msm in (5, 7) else 0)
    size = 12+157+len(us)*len(uf)+len(us)*(36 if msm in (5, 7) else 18) + \
        len(used)*cellb
    expect(nb == 24+size, lambda: f'message of {nb-24} bits, model {size}')
    txt = frombytes(bytes(msg))[24:nb]
    rd = [0]

    def u(k):
        rd[0] += k
        return int(txt[rd[0]-k:rd[0]], 2)
    expect(u(12) == BASE[sys]+msm, 'message number')
    u(12)
    expect(u(30) == epoch(sys, t), 'epoch field')
    u(19)
    expect(u(64) == sum(1 << (64-p) for p in us), 'satellite mask')
    expect(u(32) == sum(1 << (32-s) for s in uf), 'signal mask')
    cm = u(len(us)*len(uf))
    mod = 0
    for p in sorted(us):
        for s in sorted(uf):
            mod = mod << 1 | int((p, s) in used)
    expect(cm == mod, 'cell mask')
    d = receiver(t+100)
    if sys == uGNSS.GLO:
        d0 = {(p, 2): raw_cell(7, p) for p in sats}
        run_msg(d, build(sys, 7, t-1, sorted(sats), [2], d0,
                         {p: dict(raw_sat(p), ex=p % 14) for p in sats}, d0))
    m = bytearray(msg[:(nb+7)//8])
    m[0:3] = bytes([0xd3, (len(m)-3) >> 8, (len(m)-3) & 255])
    r = d.decode(bytes(m))
    obs = r[1]
    expect(r[0] == nb, 'consumed')
    expect(abs(secs(obs.t)-t) < 1.1e-3, lambda: f'time {secs(obs.t)-t}')
    hi = msm >= 6
    rows = [int(x) for x in obs.sat]
    codes = [x.sig for x in obs.sig[sys][uTYP.C]]
    for c in used:
        i = rows.index(prn2sat(sys, c[0]+PRN0.get(sys, 0)))
        j = codes.index(usig(SIG[sys][c[1]]))
        f = freq(sys, SIG[sys][c[1]], c[0] % 14-7)
        tol = dict(P=RMS*2.0**(-29 if hi else -24)*0.51,
                   L=RMS*2.0**(-31 if hi else -29)*0.51*f/C,
                   D=0.51e-4*f/C, S=0.0313 if hi else 0.51)
        for k, nm in enumerate('PLDS'):
            x, v = getattr(obs, nm)[i, j], vals[c][k]
            if nm == 'D' and msm not in (5, 7):
                v = None
            if v is None:
                expect(absent(x), lambda: f'{nm} of {c}: {x}, not in the '
                       'source')
            else:
                expect(abs(x-v) <= tol[nm], lambda:
                       f'{nm} of {c}: {x} encoded {v}')
    nz = sum(1 for i in range(len(rows)) for j in range(len(codes))
             if not absent(obs.P[i, j]) or not absent(obs.L[i, j]))
    expect(nz == len(used), 'number of observations')


def chk_enc_lock(sys, msm, hist):
    """ loss-of-lock flags of the source survive a history """
    sats, sigs = [5, 9], list(SIG[sys])[:2]
    e = encoder(sys, msm, T0, sats)
    d = receiver(T0, 1)
    for k, ll in enumerate(hist):
        t = T0+30*k
        vals = {(p, s): phys(sys, p, s, k, p % 14-7) for p in sats
                for s in sigs}
        c = (sats[k % 2], sigs[1])
        msg = bytearray(1100)
        nb = e.encode(msg, mkobs(sys, sats, sigs, vals, t, {c: ll}))
        r = d.decode(bytes(msg[:(nb+7)//8]))
        obs = r[1]
        rows = [int(x) for x in obs.sat]
        for p in sats:
            for j in range(len(sigs)):
                cc = (p, sigs[j])
                l = int(obs.lli[rows.index(prn2sat(
                    sys, p+PRN0.get(sys, 0))), j])
                v = ll if cc == c else 0
                expect(bool(l & 2) == bool(v & 2), 'half-cycle flag')
                if k > 0 and not v & 2:
                    expect(bool(l & 1) == bool(v & 1), lambda:
                           f'epoch {k} {cc}: slip flag {l}, source {v}')


def sigset(sys, n):
    """ n signals spread over the table """
    a = list(SIG[sys])
    return sorted(a[(k*len(a))//n] for k in range(min(n, len(a))))


def run(ck):
    T = ck.thorough
    ck.bound(types='MSM4..7', systems=len(SYS),
             cell_masks='all of %s satellites x signals' %
             ('1..4 x 1..3' if T else '1..3 x 1..2, 2 x 3'))
    sm = [(s, m) for s in SYS for m in (4, 5, 6, 7)]

    def g_geom(c, it):
        sys, msm = it
        dims = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (1, 3),
                (2, 3)]
        if T:
            dims += [(3, 3), (4, 3), (4, 2), (5, 2), (2, 5)]
        for ns, nf in dims:
            if nf > len(SIG[sys]):
                continue
            sats = sorted({1, NPRN[sys], 1+NPRN[sys]//2, 3, 7}
                          if ns == 5 else
                          [[NPRN[sys]], [2, NPRN[sys]-1],
                           [1, 4, NPRN[sys]], [1, 3, 5, NPRN[sys]]][ns-1])
            sigs = sigset(sys, nf)
            for cells in shapes(ns, nf, sats, sigs):
                c.case('geom', (str(sys), msm, ns, nf, sorted(cells)),
                       chk_geom, sys, msm, sats, sigs, cells)
        # every satellite, every signal, every pair of signals
        for p in range(1, NPRN[sys]+1):
            sg = sigset(sys, 1)
            c.case('sat', (str(sys), msm, p), chk_geom, sys, msm, [p], sg,
                   full([p], sg), p)
        al = list(SIG[sys])
        for s in al:
            c.case('sig', (str(sys), msm, s), chk_geom, sys, msm, [4], [s],
                   {(4, s)}, s)
        for a, b in itertools.combinations(al, 2):
            c.case('sig2', (str(sys), msm, a, b), chk_geom, sys, msm, [2, 6],
                   [a, b], {(2, a), (2, b), (6, b)}, a)
        # many cells
        for nf in range(1, len(al)+1):
            ns = min(64//nf, NPRN[sys])
            sats = list(range(1, ns+1))
            sg = al[:nf]
            cells = full(sats, sg)
            c.case('full', (str(sys), msm, ns, nf), chk_geom, sys, msm, sats,
                   sg, cells)
            sp = {x for k, x in enumerate(sorted(cells)) if k % 3 != 1}
            if {x[0] for x in sp} == set(sats) and \
                    {x[1] for x in sp} == set(sg):
                c.case('full', (str(sys), msm, ns, nf, 's'), chk_geom, sys,
                       msm, sats, sg, sp)
        if sys == uGNSS.GLO and msm in (4, 6):
            c.case('fcn', msm, chk_geom, sys, msm, [1, 24], [2, 8],
                   full([1, 24], [2, 8]), 0, False)
    ck.pmap('geom', sm, g_geom, chunk=1)

    def g_val(c, it):
        sys, msm = it
        sats, sigs = [2, 5], sigset(sys, 2)
        cells = full(sats, sigs)
        b = dict(bits(msm), rrf=15)
        tgt = (2, sigs[-1])
        for nm in ('pr', 'cp', 'rrf'):
            if nm == 'rrf' and msm not in (5, 7):
                continue
            n = b[nm]
            vs = {0, -1, 1, (1 << n-1)-1, -(1 << n-1), -(1 << n-1)+1}
            vs |= {1 << k for k in range(n-1)} | {-(1 << k) for k in range(n)}
            for v in sorted(vs):
                c.case('value', (str(sys), msm, nm, v), chk_geom, sys, msm,
                       sats, sigs, cells, 1, True, {tgt: {nm: v}})
        for v in range(1 << b['cnr']):
            if v < 64 or v & (v-1) == 0 or v > 1016 or v % 8 == 3:
                c.case('value', (str(sys), msm, 'cnr', v), chk_geom, sys, msm,
                       sats, sigs, cells, 1, True, {tgt: dict(cnr=v)})
        for v in range(256):
            c.case('value', (str(sys), msm, 'ms', v), chk_geom, sys, msm,
                   sats, sigs, cells, 1, True, None, {5: dict(ms=v)})
        for v in [0, 1023]+[1 << k for k in range(10)]:
            for ms in (0, 70, 254, 255):
                c.case('value', (str(sys), msm, 'mod', v, ms), chk_geom, sys,
                       msm, sats, sigs, cells, 1, True, None,
                       {5: dict(ms=ms, mod=v)})
        if msm in (5, 7):
            for v in [-8192, -8191, 8191, 0]+[1 << k for k in range(13)] + \
                    [-(1 << k) for k in range(13)]:
                c.case('value', (str(sys), msm, 'rr', v), chk_geom, sys, msm,
                       sats, sigs, cells, 1, True, None, {5: dict(rr=v)})
            for v in range(16):
                c.case('value', (str(sys), msm, 'ex', v), chk_geom, sys, msm,
                       sats, sigs, cells, 1, True, None, {5: dict(ex=v)})
    ck.pmap('value', sm, g_val, chunk=1)

    W = WEEK*604800
    offs = [-0.001, 0.0, 0.001, -1.0, 1.0, 13.999, 14.0, 14.001, 17.0, 18.0,
            18.001, 3600.25]
    base = [W, W+604800, W+86400, W+3*86400, W+6*86400, W-10800, W+75600,
            W+604800-10800, W+75618, W+594018]

    def g_ep(c, it):
        sys, b = it
        for o in offs:
            t = b+o
            for dref in (0.0, -30.0, 30.0, -7200.0, 7200.0, -200000.0,
                         200000.0):
                for mode in (0, 1):
                    c.case('epoch', (str(sys), b-W, o, dref, mode),
                           chk_epoch, sys, t, dref, mode)
            c.case('epoch', (str(sys), b-W, o, 'week'), chk_epoch, sys, t,
                   0.0, 2)
            if sys == uGNSS.GLO:
                for dref in (-3600.0, -1.0, 0.0, 1.0, 3600.0, 40000.0,
                             -40000.0):
                    c.case('dow', (b-W, o, dref), chk_dow7, t, dref)
        for step in (1.0, 30.0, 3600.0):
            c.case('stream', (str(sys), b-W, step), chk_stream, sys,
                   b-2.5*step, step, 6)
        c.case('stream', (str(sys), b-W, 'long'), chk_stream, sys, b,
               200000.0, 12)
    ck.pmap('epoch', [(s, b) for s in SYS for b in base], g_ep)

    def g_lock(c, it):
        sys, msm = it
        mx = (1 << bits(msm)['lock'])-1
        sg = sigset(sys, 2)
        a, b = (2, sg[0]), (2, sg[-1])
        lv = (1, 2, mx) if not T else (0, 1, 2, mx//2, mx)
        n = 4 if T else 3
        for h in itertools.product([(v, 0) for v in lv]+[(2, 1), None],
                                   repeat=n):
            hist = []
            for k, v in enumerate(h):
                e = {(9, sg[0]): (min(5+k, mx), 0)}
                if v is not None:
                    e[a] = v
                if k != 1:      # signal list changes between the epochs
                    e[b] = (min(3+k, mx), 0)
                hist.append(e)
            c.case('lock', (str(sys), msm, h), chk_lock, sys, msm, hist)
        for v0, v1 in itertools.product(range(0, mx+1, 1 if mx < 16 else 93),
                                        repeat=2):
            c.case('lock2', (str(sys), msm, v0, v1), chk_lock, sys, msm,
                   [{a: (v0, 0)}, {a: (v1, 0)}])
    ck.pmap('lock', sm, g_lock, chunk=1)

    def g_enc(c, it):
        sys, msm = it
        dims = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]
        if T:
            dims += [(3, 3), (4, 2)]
        for ns, nf in dims:
            if nf > len(SIG[sys]):
                continue
            sats = [[NPRN[sys]], [2, NPRN[sys]-1], [1, 4, NPRN[sys]],
                    [1, 3, 5, NPRN[sys]]][ns-1]
            sigs = sigset(sys, nf)
            for cells in shapes(ns, nf, sats, sigs):
                c.case('encode', (str(sys), msm, ns, nf, sorted(cells)),
                       chk_enc, sys, msm, sats, sigs, cells)
        sats, sigs = [2, 5, 9], sigset(sys, 2)
        cells = full(sats, sigs)
        # rows and columns in any order
        for ps in itertools.permutations(sats):
            for ss in itertools.permutations(sigs):
                c.case('encode', (str(sys), msm, ps, ss), chk_enc, sys, msm,
                       list(ps), list(ss), cells)
        # absent observables of cells
        for x in sorted(cells)[:3]:
            for nm in ('P', 'L', 'D', 'S', 'PL', 'PLDS', 'LD', 'PD'):
                c.case('encmiss', (str(sys), msm, x, nm), chk_enc, sys, msm,
                       sats, sigs, cells, [(x, k) for k in nm])
        for s in SIG[sys]:
            c.case('encsig', (str(sys), msm, s), chk_enc, sys, msm, [4], [s],
                   {(4, s)})
        for p in range(1, NPRN[sys]+1):
            c.case('encsat', (str(sys), msm, p), chk_enc, sys, msm, [p],
                   sigs, full([p], sigs), (), T0, p)
        for b in base:
            for o in (-0.001, 0.0, 0.25, -30.0, 14.0, 18.0):
                c.case('enctime', (str(sys), msm, b-W, o), chk_enc, sys, msm,
                       [4], sigs, full([4], sigs), (), b+o)
        for h in itertools.product((0, 1, 2, 3), repeat=3):
            if len(SIG[sys]) > 1:
                c.case('enclock', (str(sys), msm, h), chk_enc_lock, sys, msm,
                       (0,)+h)
    ck.pmap('encode', sm, g_enc, chunk=1)
