""" independent RINEX observation file writer used by C22 and C23 """
import os
import tempfile
from cssrlib import gnss as g
from cssrlib.rinex import rnxdec

SYSC = {'G': g.uGNSS.GPS, 'R': g.uGNSS.GLO, 'E': g.uGNSS.GAL,
        'C': g.uGNSS.BDS, 'J': g.uGNSS.QZS, 'S': g.uGNSS.SBS,
        'I': g.uGNSS.IRN}
OFF = {'J': 192, 'S': 100}
ATT = {
    'G': {'1': 'CSLXPWYM', '2': 'CDSLXPWYM', '5': 'IQX'},
    'R': {'1': 'CP', '2': 'CP', '3': 'IQX', '4': 'ABX', '6': 'ABX'},
    'E': {'1': 'ABCXZ', '5': 'IQX', '6': 'ABCXZ', '7': 'IQX', '8': 'IQX'},
    'S': {'1': 'C', '5': 'IQX'},
    'J': {'1': 'CESLXZB', '2': 'SLX', '5': 'IQXDPZ', '6': 'SLXEZ'},
    'C': {'1': 'DPX', '2': 'IQX', '5': 'DPX', '6': 'IQX',
          '7': 'IQXDPZ', '8': 'DPX'},
    'I': {'1': 'DPX', '5': 'ABCX', '9': 'ABCX'},
}


def codes(c):
    """ all observation codes of a constellation """
    return [t+b+a for b, at in ATT[c].items() for a in at for t in 'CLDS']


def hdr(sigs, ver=3.04, extra=()):
    """ sigs: {char: [codes]} """
    o = []
    o.append(f"{ver:9.2f}           {'OBSERVATION DATA':20s}{'M':20s}"
             "RINEX VERSION / TYPE")
    o.append(f"{'check':20s}{'none':20s}{'20240101 000000 UTC':20s}"
             "PGM / RUN BY / DATE")
    o.append(f"{'MARK':60s}MARKER NAME")
    for e in extra:
        o.append(e)
    for c, l in sigs.items():
        for k in range(0, max(len(l), 1), 13):
            h = f"{c:1s}  {len(l):3d}" if k == 0 else ' '*6
            h += ''.join(f' {x:3s}' for x in l[k:k+13])
            o.append(f"{h:60s}SYS / # / OBS TYPES")
    o.append(f"{'':60s}END OF HEADER")
    return '\n'.join(o)+'\n'


def ep(t, n, flag='0'):
    """ epoch line, t = (y, m, d, h, mi, s) """
    return (f"> {t[0]:4d} {t[1]:02d} {t[2]:02d} {t[3]:02d} {t[4]:02d}"
            f"{t[5]:11.7f}  {flag:1s}{n:3d}\n")


def fld(v, lli=' ', ssi=' '):
    """ v: None (blank) or text/number """
    if v is None:
        return ' '*16
    s = v if isinstance(v, str) else f'{v:14.3f}'
    assert len(s) == 14, 'HARNESS field width'
    return s+str(lli)+str(ssi)


class files:
    """ temporary files removed at the end of the case """

    def __init__(self):
        self.n = []

    def put(self, txt, suffix='.obs'):
        if suffix.endswith('gz'):
            import gzip
            fd, p = tempfile.mkstemp(suffix=suffix)
            os.close(fd)
            with gzip.open(p, 'wt') as f:
                f.write(txt)
        else:
            fd, p = tempfile.mkstemp(suffix=suffix)
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
        self.n.append(p)
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in self.n:
            os.unlink(p)


def opened(path, sel):
    d = rnxdec()
    d.setSignals([g.rSigRnx(x) for x in sel])
    d.decode_obsh(path)
    return d
