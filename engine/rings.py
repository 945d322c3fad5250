"""Residue rings modulo Q=12289 used to compose the SMT lemmas exactly."""
import numpy as np
Q = 12289


class RingError(Exception):
    pass


class VecRing:
    """Linear forms over GF(Q) in the inputs (layer 0) and, after a product of two
    non-constant forms, linear forms in the registered products (layer 1).
    Elements: int (constant) or (layer, const, vector)."""

    def __init__(self, n):
        self.n = n
        self.prods = []           # list of (elemA, elemB), layer-1 basis
        self.maxprods = None
        self.pindex = {}

    def const(self, c):
        return c % Q

    def unit(self, i):
        v = np.zeros(self.n, dtype=np.int32)
        v[i] = 1
        return (0, 0, v)

    def scale(self, x, k):
        k %= Q
        if type(x) is int:
            return x * k % Q
        if k == 1:
            return x
        if k == 0:
            return 0
        if k == Q - 1:
            return (x[0], -x[1] % Q, np.where(x[2] == 0, 0, Q - x[2]).astype(np.int32))
        return (x[0], x[1] * k % Q, x[2] * np.int32(k) % Q if False else ((x[2].astype(np.int64) * k) % Q).astype(np.int32))

    def add(self, x, y):
        if type(x) is int:
            if type(y) is int:
                return (x + y) % Q
            x, y = y, x
        if type(y) is int:
            return x if y == 0 else (x[0], (x[1] + y) % Q, x[2])
        if x[0] != y[0]:
            raise RingError('sum of linear and bilinear forms')
        a, b = x[2], y[2]
        if len(a) != len(b):
            m = max(len(a), len(b))
            a = np.pad(a, (0, m - len(a)))
            b = np.pad(b, (0, m - len(b)))
        s = a + b
        s -= (s >= Q) * np.int32(Q)
        return (x[0], (x[1] + y[1]) % Q, s)

    def mul(self, x, y):
        if type(x) is int:
            return self.scale(y, x)
        if type(y) is int:
            return self.scale(x, y)
        if x[0] or y[0]:
            raise RingError('product of degree > 2')
        k = (x[1], x[2].tobytes(), y[1], y[2].tobytes())
        i = self.pindex.get(k)
        if i is None:
            i = self.pindex[k] = len(self.prods)
            self.prods.append((x, y))
        m = self.maxprods or self.n
        if i >= m:
            m = i + 1
        v = np.zeros(m, dtype=np.int32)
        v[i] = 1
        return (1, 0, v)


class MonoRing:
    """Z_Q[psi]/(psi^n+1): scalars c*psi^e, and linear forms in the inputs whose
    coefficients are such monomials.  Valid for *every* primitive 2n-th root psi.
    Elements: int, ('s', c, e) or ('v', C, E)."""

    def __init__(self, n, nvars):
        self.n = n
        self.nvars = nvars

    def const(self, c):
        return c % Q

    def mono(self, c, e):
        e %= 2 * self.n
        c %= Q
        if e >= self.n:
            e -= self.n
            c = -c % Q
        return ('s', c, e)

    def unit(self, i):
        C = np.zeros(self.nvars, dtype=np.int64)
        C[i] = 1
        return ('v', C, np.zeros(self.nvars, dtype=np.int64))

    def scale(self, x, k):
        k %= Q
        if type(x) is int:
            return x * k % Q
        if k == 1:
            return x
        if k == 0:
            return 0
        if x[0] == 's':
            return ('s', x[1] * k % Q, x[2])
        return ('v', x[1] * k % Q, x[2])

    def add(self, x, y):
        if type(x) is int and type(y) is int:
            return (x + y) % Q
        if type(x) is int and x == 0:
            return y
        if type(y) is int and y == 0:
            return x
        if type(x) is int:
            x = ('s', x, 0)
        if type(y) is int:
            y = ('s', y, 0)
        if x[0] != y[0]:
            raise RingError('affine form with constant part')
        if x[0] == 's':
            if x[1] == 0:
                return y
            if y[1] == 0:
                return x
            if x[2] != y[2]:
                raise RingError('sum of different monomials')
            return ('s', (x[1] + y[1]) % Q, x[2])
        zx, zy = x[1] == 0, y[1] == 0
        if np.any(~zx & ~zy & (x[2] != y[2])):
            raise RingError('sum of different monomials')
        return ('v', (x[1] + y[1]) % Q, np.where(zx, y[2], x[2]))

    def mul(self, x, y):
        if type(x) is int:
            return self.scale(y, x)
        if type(y) is int:
            return self.scale(x, y)
        if x[0] == 'v' and y[0] == 'v':
            raise RingError('product of two linear forms')
        if x[0] == 's' and y[0] == 's':
            return self.mono(x[1] * y[1], x[2] + y[2])
        if x[0] == 'v':
            x, y = y, x
        E = y[2] + x[2]
        C = y[1] * x[1] % Q
        big = E >= self.n
        return ('v', np.where(big, -C % Q, C), np.where(big, E - self.n, E))


class PolyRing:
    """sparse polynomials over GF(Q) in named variables: int or dict {tuple of vars: coef}"""

    def const(self, c):
        return c % Q

    def var(self, name):
        return {(name,): 1}

    @staticmethod
    def _d(x):
        return ({(): x} if x else {}) if type(x) is int else x

    @staticmethod
    def norm(d):
        d = {k: v % Q for k, v in d.items() if v % Q}
        if not d:
            return 0
        if len(d) == 1 and () in d:
            return d[()]
        return d

    def scale(self, x, k):
        k %= Q
        if type(x) is int:
            return x * k % Q
        if k == 1:
            return x
        return self.norm({m: c * k for m, c in x.items()})

    def add(self, x, y):
        if type(x) is int and type(y) is int:
            return (x + y) % Q
        r = dict(self._d(x))
        for m, c in self._d(y).items():
            r[m] = r.get(m, 0) + c
        return self.norm(r)

    def mul(self, x, y):
        if type(x) is int:
            return self.scale(y, x)
        if type(y) is int:
            return self.scale(x, y)
        if len(x) * len(y) > 400:
            raise RingError('polynomial too large')
        r = {}
        for m1, c1 in x.items():
            for m2, c2 in y.items():
                m = tuple(sorted(m1 + m2))
                r[m] = r.get(m, 0) + c1 * c2
        return self.norm(r)
