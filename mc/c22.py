""" C22 RINEX observation files """
import io
import itertools
import numpy as np
from cssrlib import gnss as g
from cssrlib import rinex as rn
from mc.core import expect
from mc.rnxtxt import SYSC, OFF, hdr, ep, fld, files, opened, codes

T0 = (2024, 2, 29, 23, 59, 30.0)
TYP = {'C': (g.uTYP.C, 'P'), 'L': (g.uTYP.L, 'L'), 'D': (g.uTYP.D, 'D'),
       'S': (g.uTYP.S, 'S')}


def satn(c, prn):
    return g.prn2sat(SYSC[c], prn+OFF.get(c, 0))


def missing(v):
    return v == 0.0 or np.isnan(v)


def secs(t):
    import datetime as dt
    d = dt.datetime(*t[:5])-dt.datetime(1970, 1, 1)
    return d.days*86400+d.seconds, t[5]


def chk_time(o, t):
    s, f = secs(t)
    d = (o.t.time-s)+(o.t.sec-f)
    expect(abs(d) < 1e-7, lambda: f'epoch {o.t.time}+{o.t.sec}, file '
           f'{s}+{f}')


def chk(o, t, want, sel):
    """
    want: {(char, prn): {code: value|None or (value, lli)}}, sel: requested
    signals; every requested signal of every satellite is compared
    """
    chk_time(o, t)
    got = {}
    for k, s in enumerate(o.sat):
        expect(int(s) not in got, f'satellite {s} reported twice')
        got[int(s)] = k
    exp = {satn(*k): k for k in want}
    expect(set(got) == set(exp), lambda: f'satellites {sorted(got)} expected '
           f'{sorted(exp)}')
    for s, key in exp.items():
        k = got[s]
        sys = SYSC[key[0]]
        for x in sel:
            if x[0] != key[0]:
                continue
            typ, attr = TYP[x[1]]
            sg = [z.str() for z in o.sig[sys][typ]]
            expect(x[1:] in sg, f'{x} not in the signal table')
            j = sg.index(x[1:])
            v = float(getattr(o, attr)[k][j])
            w = want[key].get(x[1:])
            w, lli = w if isinstance(w, tuple) else (w, None)
            if w is None:
                expect(missing(v), lambda: f'{key} {x}: {v}, not in file')
            else:
                expect(abs(v-w) < 1e-6*max(1, abs(w)*1e-6),
                       lambda: f'{key} {x}: {v}, file {w}')
            if x[1] == 'L' and lli is not None and w is not None:
                li = int(o.lli[k][j])
                expect(li & 1 == lli & 1, lambda: f'{key} {x}: loss of '
                       f'lock {li}, file {lli}')


def val(k, n, e=0):
    return float(f'{20000000+1000*k+n+0.125+e*7:.3f}')


def end(d):
    o = d.decode_obs()
    expect(o is None or len(o.sat) == 0, 'epoch reported after the end')


def headers(c, n, step):
    """ n codes of one constellation (optionally among others), each
    requested alone and all together """
    cs = codes(c)
    al = [cs[(i*step) % len(cs)] for i in range(len(cs))]
    al = list(dict.fromkeys(al))
    for x in cs:
        if x not in al:
            al.append(x)
    al = al[:n]
    oth = {'G': ['C1C', 'L1C'], 'E': ['C1C'], 'R': []}
    sigs = {k: v for k, v in oth.items() if k != c and v}
    sigs[c] = al
    body = ep(T0, 2)
    for p in (3, 7):
        body += f'{c}{p:02d}' + ''.join(
            fld(val(p, i), 1 if i % 3 == 0 and x[0] == 'L' else ' ', 7)
            for i, x in enumerate(al)) + '\n'
    want = {(c, p): {x: (val(p, i), 1 if i % 3 == 0 else 0)
                     for i, x in enumerate(al)} for p in (3, 7)}
    if c in 'JS':
        want = {}
        body = ep(T0, 2)
        for p in (2, 5) if c == 'J' else (22, 45):
            body += f'{c}{p:02d}' + ''.join(
                fld(val(p, i), 1 if i % 3 == 0 and x[0] == 'L' else ' ')
                for i, x in enumerate(al)) + '\n'
            want[c, p] = {x: (val(p, i), 1 if i % 3 == 0 else 0)
                          for i, x in enumerate(al)}
    with files() as f:
        p = f.put(hdr(sigs)+body)
        for sel in [[c+x] for x in al]+[[c+x for x in al]]:
            d = opened(p, sel)
            chk(d.decode_obs(), T0, want, sel)
            end(d)
            d.fobs.close()


def patterns(mask, trunc, lli, ssi):
    """ missing values, blank flags, truncated lines """
    cs = ['C1C', 'L1C', 'D1C', 'S1C', 'C2W', 'L2W', 'D2W', 'S2W']
    row = {}
    line = 'G09'
    for i, x in enumerate(cs):
        if mask >> i & 1:
            v = [2.1e7+i, -1.1e8-i, -3456.789, 45.25][i % 4]
            row[x] = (v, lli if lli != ' ' else 0)
            line += fld(v, lli if x[0] == 'L' else ' ', ssi)
        else:
            line += fld(None)
    if trunc == 1:
        line = line.rstrip()
    elif trunc == 2:
        line = line.rstrip()
        line += ' ' * 3
    sel = ['G'+x for x in cs]
    with files() as f:
        d = opened(f.put(hdr({'G': cs})+ep(T0, 2)+line+'\n' +
                         'G10'+fld(2.2e7)+'\n'), sel)
        chk(d.decode_obs(), T0, {('G', 9): row, ('G', 10): {'C1C': 2.2e7}},
            sel)
        end(d)
        d.fobs.close()


def extremes(txt):
    cs = ['C1C', 'L1C', 'D1C', 'S1C']
    for i, x in enumerate(cs):
        v = float(txt)
        line = 'E11'+''.join(fld(txt if j == i else 1.0+j)
                             for j in range(4))
        row = {y: (None if j == i and v == 0 else v if j == i else 1.0+j)
               for j, y in enumerate(cs)}
        with files() as f:
            sel = ['E'+y for y in cs]
            d = opened(f.put(hdr({'E': cs})+ep(T0, 1)+line+'\n'), sel)
            chk(d.decode_obs(), T0, {('E', 11): row}, sel)
            d.fobs.close()


# epoch kinds
def block(kind, i):
    """ text and expectation of one epoch of the given kind """
    t = (2024, 12, 31, 23, 59, 20.0+i*10) if i < 4 else \
        (2025, 1, 1, 0, 0, (i-4)*10.0)
    if kind in 'rfs':
        n = {'r': 2, 'f': 1, 's': 3}[kind]
        sats = [('G', 1+i), ('E', 5), ('R', 20)][:n]
        tx = ep(t, n, '1' if kind == 'f' else '0')
        w = {}
        for c, p in sats:
            tx += f'{c}{p:02d}'+fld(val(p, 1, i))+fld(val(p, 2, i), 1, 5)+'\n'
            w[c, p] = {'C1C': val(p, 1, i), 'L1C': (val(p, 2, i), 1)}
        return tx, (t, w)
    if kind == 'e':                      # no satellites
        return ep(t, 0), None
    if kind in '2345':                   # special records
        rec = {'2': [], '3': [f"{'NEWSITE':60s}MARKER NAME\n"],
               '4': [f"{'a comment':60s}COMMENT\n",
                     f"{'G07 looks like data':60s}COMMENT\n"],
               '5': []}[kind]
        return ep(t, len(rec), kind)+''.join(rec), None
    if kind == 'b':                      # event without a time
        return '>'+' '*30+'4  2\n'+f"{'x':60s}COMMENT\n"+'E05'+' ' * 57 + \
            'COMMENT\n', None
    if kind == '6':                      # cycle slip records
        return ep(t, 2, '6')+f'G{1+i:02d}'+fld(None)+fld('       1.000  ') + \
            '\n'+'E05'+fld(None)+fld('      -3.000  ')+'\n', None
    raise AssertionError('HARNESS kind')


SEL = ['GC1C', 'GL1C', 'EC1C', 'EL1C', 'RC1C', 'RL1C']


def epochs(kinds):
    tx = hdr({c: ['C1C', 'L1C'] for c in 'GER'})
    want = []
    for i, k in enumerate(kinds):
        t, w = block(k, i)
        tx += t
        if w is not None:
            want.append(w)
    with files() as f:
        d = opened(f.put(tx), SEL)
        for w in want:
            chk(d.decode_obs(), w[0], w[1], SEL)
        end(d)
        end(d)
        d.fobs.close()


def times(t):
    with files() as f:
        d = opened(f.put(hdr({'G': ['C1C']})+ep(t, 1)+'G01'+fld(2e7)+'\n'),
                   ['GC1C'])
        chk(d.decode_obs(), t, {('G', 1): {'C1C': 2e7}}, ['GC1C'])
        d.fobs.close()


PR = {'G': range(1, 33), 'E': range(1, 37), 'R': range(1, 28),
      'C': range(1, 64), 'J': range(1, 11), 'S': range(20, 59),
      'I': range(1, 15)}
ONE = {'G': 'C2W', 'E': 'C5Q', 'R': 'C2P', 'C': 'C6I', 'J': 'C2L',
       'S': 'C5I', 'I': 'C5A'}


def satellites(order):
    """ every satellite of every constellation in one epoch, unknown ones
    and not requested constellations in between """
    ss = [(c, p) for c in PR for p in PR[c]]
    if order:
        ss = ss[::order] if order < 0 else [
            x for k in range(order) for x in ss[k::order]]
    for drop in ('', 'G', 'RC', 'ESJI'):
        tx = ''
        n = 0
        w = {}
        for i, (c, p) in enumerate(ss):
            tx += f'{c}{p:02d}'+fld(val(p, ord(c)))+fld(40.0+i/8)+'\n'
            n += 1
            if c not in drop:
                w[c, p] = {ONE[c]: val(p, ord(c)), 'S'+ONE[c][1:]: 40.0+i/8}
            if i % 50 == 7:
                tx += 'X07'+fld(1.0)+'\n'
                n += 1
        sel = [c+x for c in PR if c not in drop
               for x in (ONE[c], 'S'+ONE[c][1:])]
        sig = {c: [ONE[c], 'S'+ONE[c][1:]] for c in PR}
        with files() as f:
            d = opened(f.put(hdr(sig)+ep(T0, n)+tx), sel)
            chk(d.decode_obs(), T0, w, sel)
            d.fobs.close()


def unequal(ng, ne, nr, extra):
    """ different numbers of requested signals per constellation; unknown
    observation types in the header keep their column """
    G = ['C1C', 'L1C', 'C2W', 'L2W', 'C5Q', 'L5Q']
    E = ['C1C', 'L1C', 'C5Q', 'L5Q', 'C7Q', 'L7Q']
    R = ['C1C', 'L1C', 'C2C', 'L2C']
    sig = {}
    for c, l in (('G', G), ('E', E), ('R', R)):
        l = list(l)
        if extra:
            l.insert(1, 'X1 ')
            l.insert(4, 'I1 ')
            l.insert(0, 'C9Z')
        sig[c] = l
    sel = ['G'+x for x in G[:ng]]+['E'+x for x in E[:ne]] + \
        ['R'+x for x in R[:nr]]
    tx = ep(T0, 5)
    w = {}
    for c, p in (('R', 4), ('G', 31), ('E', 8), ('G', 2), ('R', 24)):
        tx += f'{c}{p:02d}'+''.join(fld(val(p, i), '3', '8')
                                    for i in range(len(sig[c])))+'\n'
        if {'G': ng, 'E': ne, 'R': nr}[c]:
            w[c, p] = {x: (val(p, i), 3) for i, x in enumerate(sig[c])}
    if not w:
        return
    with files() as f:
        d = opened(f.put(hdr(sig)+tx), sel)
        chk(d.decode_obs(), T0, w, sel)
        d.fobs.close()


def head(npos, nglo, gz, ver):
    """ header records """
    ex = [f"{1234567.1234+npos:14.4f}{-2345678.25:14.4f}{4321.5:14.4f}"
          f"{'':18s}APPROX POSITION XYZ",
          f"{0.125:14.4f}{-0.25:14.4f}{1.5:14.4f}{'':18s}"
          "ANTENNA: DELTA H/E/N",
          f"{'1234':20s}{'trimble netr9':20s}{'5.1':20s}REC # / TYPE / VERS",
          f"{'77':20s}{'TRM59800.80     SCIS':20s}{'':20s}ANT # / TYPE",
          f"  2024     2    29    23    59   30.0000000     GPS{'':9s}"
          "TIME OF FIRST OBS"]
    slots = [(s, (s*5) % 14-7) for s in range(1, nglo+1)]
    for k in range(0, max(nglo, 1), 8):
        h = f'{nglo:3d} ' if k == 0 else ' '*4
        h += ''.join(f'R{s:02d} {f:2d} ' for s, f in slots[k:k+8])
        ex.append(f'{h:60s}GLONASS SLOT / FRQ #')
    tx = hdr({'G': ['C1C']}, ver, ex)+ep(T0, 1)+'G01'+fld(2e7)+'\n'
    with files() as f:
        d = opened(f.put(tx, '.obs.gz' if gz else '.obs'), ['GC1C'])
        expect(np.allclose(d.pos, [1234567.1234+npos, -2345678.25, 4321.5],
                           atol=1e-4), f'position {d.pos}')
        expect(np.allclose(d.ecc, [-0.25, 1.5, 0.125], atol=1e-4),
               f'eccentricity (E, N, U) {d.ecc}')
        expect(d.rcv.strip() == 'TRIMBLE NETR9', f'receiver {d.rcv}')
        expect(d.ant.strip() == 'TRM59800.80     SCIS', f'antenna {d.ant}')
        s, f_ = secs(T0)
        expect(d.ts.time+d.ts.sec == s+f_, 'time of first observation')
        expect({int(k): int(v) for k, v in d.glo_ch.items()} ==
               {satn('R', s): f_ for s, f_ in slots},
               f'GLONASS channels {d.glo_ch}')
        chk(d.decode_obs(), T0, {('G', 1): {'C1C': 2e7}}, ['GC1C'])
        d.fobs.close()


SUB = {('G', '1'): ('CW', 'SLX'), ('G', '2'): ('CW', 'SLX'),
       ('G', '5'): ('IQX',), ('E', '1'): ('BCX',), ('E', '5'): ('IQX',),
       ('E', '6'): ('BCX',), ('E', '7'): ('IQX',), ('E', '8'): ('IQX',),
       ('J', '1'): ('SLX',), ('J', '2'): ('SLX',), ('J', '5'): ('IQX',),
       ('C', '1'): ('PX',), ('C', '5'): ('PX',), ('C', '7'): ('PX',)}


def subst(c, b, req, avail):
    """ a requested signal that is in the file is never substituted, another
    one only by a signal of the same band and type that is in the file """
    cs = [t+b+a for t in 'CLS' for a in avail]
    oth = [t+x for t in 'CL' for x in ('1C', '2W', '5Q', '6I', '7I')
           if x[0] != b and x[1] in rn_att(c, x[0])]
    tx = hdr({c: cs+oth})+ep(T0, 1)+f'{c}03' + \
        ''.join(fld(val(3, i)) for i in range(len(cs+oth)))+'\n'
    with files() as f:
        d = opened(f.put(tx), [c+t+b+req for t in 'CLS'])
        d.autoSubstituteSignals()
        o = d.decode_obs()
        for t, attr in (('C', 'P'), ('L', 'L'), ('S', 'S')):
            sg = o.sig[SYSC[c]][TYP[t][0]]
            expect(len(sg) == 1, 'number of signals changed')
            x = sg[0].str()
            v = float(getattr(o, attr)[0][0])
            expect(x[:2] == t+b, f'{t}{b}{req} replaced by {x}')
            if req in avail:
                expect(x[2] == req, f'{t}{b}{req} in file replaced by {x}')
            if x in cs:
                expect(v == val(3, cs.index(x)), f'{x} has value {v}')
            else:
                expect(x[2] == req and missing(v), f'{x} {v} not in file')
        d.fobs.close()


def rn_att(c, b):
    from mc.rnxtxt import ATT
    return ATT[c].get(b, '')


# --- writer ------------------------------------------------------------

def wr(nsig, sysn, typs, nsat, pat, sec):
    """ observations written by the library, read by it and by the
    independent reader """
    cand = {'G': ['1C', '2W', '5Q', '1L', '2L', '2X', '1W', '5X', '1X', '2S'],
            'E': ['1C', '5Q', '7Q', '8Q', '6C', '1X', '5X', '7X', '8X', '6X'],
            'R': ['1C', '2C', '3Q', '1P', '2P', '3X', '4A', '6A', '4B', '6B'],
            'J': ['1C', '2L', '5Q', '1Z', '1X', '2X', '5X', '6S', '1L', '6X'],
            'C': ['2I', '7I', '6I', '1P', '5P', '7D', '8P', '1X', '5X', '7P'],
            'S': ['1C', '5I', '5Q', '5X']}
    chars = {1: 'G', 2: 'GE', 3: 'RGC', 4: 'GSEJ'}[sysn]
    num = {c: max(1, min(len(cand[c]), nsig-k)) for k, c in enumerate(chars)}
    tab = {}
    for c in chars:
        tab[SYSC[c]] = {TYP[t][0]: [g.rSigRnx(c+t+x) for x in
                                    cand[c][:num[c]]] for t in typs}
    nmax = max(num.values())
    o = g.Obs()
    t = (2024, 2, 29, 23, 59, sec)
    s, f_ = secs(t)
    o.t = g.gtime_t(s+int(f_), f_-int(f_))
    sats = []
    k = 0
    pr = {'S': 23}
    while len(sats) < nsat:
        c = chars[k % len(chars)]
        sats.append((c, pr.get(c, 1)+(k*3) // len(chars) % 9))
        k += 1
    sats = list(dict.fromkeys(sats))
    o.sat = np.array([satn(*x) for x in sats], dtype=int)
    n = len(sats)
    o.P, o.L, o.D, o.S = (np.zeros((n, nmax)) for _ in range(4))
    o.lli = np.zeros((n, nmax), dtype=int)
    o.sig = tab
    want = {}
    for i, (c, p) in enumerate(sats):
        w = want[c, p] = {}
        for j in range(num[c]):
            for ty, arr, v, b in (
                    ('C', o.P, 2e7+i*1e5+j*3+0.123, 0),
                    ('L', o.L, -1.1e8+i*7+j*5+0.456, 1),
                    ('D', o.D, -3999.5+i*11+j, 2),
                    ('S', o.S, 20.0+i+j*4.25, 3)):
                if ty not in typs:
                    continue
                q = (pat >> ((b+3*j+i) % 12)) & 1
                if q:
                    arr[i, j] = v
                    w[ty+cand[c][j]] = v
            if ('L'+cand[c][j]) in w:
                o.lli[i, j] = (pat >> ((i+j) % 5)) & 1
                w['L'+cand[c][j]] = (w['L'+cand[c][j]], int(o.lli[i, j]))
    o2 = [x.copy() for x in (o.P, o.L, o.D, o.S, o.lli, o.sat)]
    e = rn.rnxenc(sig_tab=tab)
    e.pos = np.array([1.5e6, -2.25e6, 3.125e6])
    fh = io.StringIO()
    e.rnx_obs_header(o.t, fh)
    e.rnx_obs_header(o.t, fh)
    e.rnx_obs_body(o, fh)
    e.rnx_obs_body(o, fh)
    for x, y in zip((o.P, o.L, o.D, o.S, o.lli, o.sat), o2):
        expect(np.array_equal(x, y), 'writer changed the observations')
    tx = fh.getvalue()
    for ln in tx.split('END OF HEADER')[0].split('\n'):
        expect(len(ln) <= 80, f'header line longer than 80: {ln!r}')
    expect(tx.count('END OF HEADER') == 1, 'header written twice')
    sel = [c+ty+x for c in chars for ty in typs
           for x in cand[c][:num[c]]]
    with files() as f:
        d = opened(f.put(tx), sel)
        expect(np.allclose(d.pos, e.pos), f'position {d.pos}')
        for c in chars:
            m = [x.str() for _, x in sorted(d.sig_map[SYSC[c]].items())]
            exp = sorted(x[1:] for x in sel if x[0] == c)
            expect(sorted(m) == exp, lambda: f'{c} header list {m} expected '
                   f'{exp}')
        r = round(sec*1e7)/1e7
        tt = (2024, 2, 29, 23, 59, r)
        for _ in range(2):
            x = d.decode_obs()
            chkw(x, tt, want, sel)
        end(d)
        d.fobs.close()


def chkw(o, t, want, sel):
    """ as chk, values rounded to the 3 decimals of the format """
    w2 = {}
    for k, row in want.items():
        w2[k] = {}
        for y, v in row.items():
            if isinstance(v, tuple):
                w2[k][y] = (round(v[0], 3), v[1])
            else:
                w2[k][y] = round(v, 3)
    chk(o, t, w2, sel)


def two(ka, kb):
    """ two readers of different files interleaved """
    out = []
    with files() as f:
        ds = []
        for kinds, sg in ((ka, ['C1C', 'L1C']), (kb, ['L1C', 'C1C'])):
            tx = hdr({c: sg for c in 'GER'})
            want = []
            for i, k in enumerate(kinds):
                t, w = block(k, i)
                if w is None:
                    tx += t
                    continue
                t_, w_ = w
                tx += ep(t_, len(w_))
                for (c, p), row in w_.items():
                    tx += f'{c}{p:02d}'+''.join(
                        fld(row[x][0], row[x][1]) if x[0] == 'L' else
                        fld(row[x]) for x in sg)+'\n'
                want.append(w)
            ds.append((opened(f.put(tx), SEL if sg[0] == 'C1C' else SEL[2:]),
                       want, SEL if sg[0] == 'C1C' else SEL[2:]))
        for i in range(max(len(d[1]) for d in ds)):
            for d, want, sel in ds:
                if i < len(want):
                    w = {k: v for k, v in want[i][1].items()
                         if any(x[0] == k[0] for x in sel)}
                    o = d.decode_obs()
                    if w:
                        chk(o, want[i][0], w, sel)
        for d, _, _ in ds:
            d.fobs.close()


def run(ck):
    T = ck.thorough
    items = []
    for c in SYSC:
        m = len(codes(c))
        for n in range(1, m+1):
            for step in ((7,) if not T else (1, 5, 7)):
                items.append((c, n, step))
    ck.pmap('headers', items, lambda c, x: c.case(
        'headers', x, headers, *x, steps=x[1]), chunk=6)
    items = [(m, tr, ' ', ' ') for m in range(256) for tr in (0, 1, 2)]
    items += [(m, tr, l, s) for m in (2, 34, 255) for tr in (0, 1)
              for l in (' ', 0, 1, 2, 3, 4, 5, 6, 7)
              for s in (' ', 1, 5, 9)]
    ck.pmap('patterns', items, lambda c, x: c.case(
        'patterns', x, patterns, *x), chunk=60)
    for t in ('99999999.999', '-9999999.999', '0.001', '-0.001', '0.000',
              '1.000', '.500', '-.250', '123456789.123', '  22.125'):
        ck.case('extremes', t, extremes, f'{t:>14s}')
    al = 'rfe234b6' if not T else 'rfse2345b6'
    items = [''.join(k) for n in range(1, 5)
             for k in itertools.product(al, repeat=n)]
    ck.pmap('epochs', items, lambda c, x: c.case(
        'epochs', x, epochs, x, steps=len(x)), chunk=100)
    items = [(y, mo, d, h, m, s) for y in (1999, 2000, 2023, 2024, 2038)
             for mo, d in ((1, 1), (2, 28), (3, 1), (12, 31))
             for h, m in ((0, 0), (23, 59), (11, 30))
             for s in (0.0, 0.1, 29.9999999, 59.0, 59.9999999, 30.0050001)]
    items += [(2024, 2, 29, 12, 0, 1.5)]
    ck.pmap('times', items, lambda c, x: c.case('times', x, times, x),
            chunk=40)
    for o in (0, 3, 7, -1):
        ck.case('satellites', o, satellites, o, steps=200)
    items = [(a, b, c_, e) for a in range(0, 7) for b in range(0, 7)
             for c_ in range(0, 5) for e in (0, 1)]
    ck.pmap('unequal', items, lambda c, x: c.case('unequal', x, unequal, *x),
            chunk=30)
    items = [(n, k, gz, v) for n, v in ((0, 3.02), (1, 3.04), (2, 4.01))
             for k in range(1, 25) for gz in (False, True)]
    ck.pmap('header', items, lambda c, x: c.case('header', x, head, *x),
            chunk=10)
    items = []
    for (c, b), grp in SUB.items():
        for att in grp:
            for r in att:
                for m in range(1, 2**len(att)):
                    items.append((c, b, r, ''.join(
                        a for i, a in enumerate(att) if m >> i & 1)))
    ck.pmap('substitute', items, lambda c, x: c.case(
        'substitute', x, subst, *x), chunk=20)
    pats = [0, 0xfff, 0x555, 0xaaa, 0x249, 0x0f3, 0x801, 0x7fe]
    if T:
        pats = list(range(0, 4096, 37))
    items = [(n, s, ty, ns, p, 7.0) for n in range(1, 11)
             for s in (1, 2, 3, 4) for ty in ('CLDS', 'CL', 'CLS')
             for ns in (1, 5, 14) for p in pats]
    items += [(2, 2, 'CLDS', 3, 0xfff, x) for x in
              (0.0, 0.1, 0.2, 0.3, 0.7, 1/3, 2/3, 29.9999999, 59.0, 59.999,
               59.9999999, 12.3456789, 33.33333333)]
    ck.pmap('writer', items, lambda c, x: c.case('writer', x, wr, *x),
            chunk=30)
    ks = [''.join(k) for k in itertools.product('rf3es', repeat=3)]
    items = [(a, b) for i, a in enumerate(ks) for j, b in enumerate(ks)
             if T or (i+j) % 5 == 0]
    ck.pmap('two', items, lambda c, x: c.case('two', x, two, *x), chunk=60)
    ck.bound(epoch_alphabet=al, epoch_depth=4, signals_per_system='all',
             missing_patterns=256, writer_signals=10)
