""" bit-level message writer used by the independent reference encoders """


class BW:
    """ append-only big-endian bit string """

    def __init__(self):
        self.p = []
        self.n = 0

    def u(self, n, v):
        v = int(v)
        assert 0 <= v < (1 << n) or n == 0, f'HARNESS u{n} {v}'
        if n:
            self.p.append(format(v, f'0{n}b'))
            self.n += n
        return self

    def s(self, n, v):
        v = int(v)
        assert -(1 << (n-1)) <= v < (1 << (n-1)), f'HARNESS s{n} {v}'
        return self.u(n, v & ((1 << n)-1))

    def sm(self, n, v):
        """ sign-magnitude """
        v = int(v)
        assert abs(v) < (1 << (n-1)), f'HARNESS sm{n} {v}'
        return self.u(n, abs(v) | ((1 << (n-1)) if v < 0 else 0))

    def b(self, s):
        """ raw bit string """
        self.p.append(s)
        self.n += len(s)
        return self

    def mask(self, n, bits):
        """ n-bit mask with the given positions (0: first sent) set """
        a = ['0']*n
        for k in bits:
            a[k] = '1'
        return self.b(''.join(a))

    def pad(self, n, v=0):
        assert self.n <= n, f'HARNESS pad {self.n}>{n}'
        return self.b(('1' if v else '0')*(n-self.n))

    def str(self):
        return ''.join(self.p)

    def bytes(self, extra=0, fill=0):
        """ bytes, padded to a byte boundary, plus `extra` filler bytes """
        s = self.str()
        s += ('1' if fill else '0')*(-len(s) % 8)
        b = int(s, 2).to_bytes(len(s)//8, 'big') if s else b''
        return b+bytes([0xff if fill else 0])*extra


def frombytes(b):
    return ''.join(format(x, '08b') for x in b)


def tobytes(s):
    s += '0'*(-len(s) % 8)
    return int(s, 2).to_bytes(len(s)//8, 'big') if s else b''
