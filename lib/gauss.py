"""Exact Gaussian algebra over rational numbers, and over dual numbers."""
import math
from fractions import Fraction as F


class Dual(object):
    """a + b*eps with eps^2 = 0: exact derivatives."""

    def __init__(self, a, b=0):
        self.a, self.b = F(a), F(b)

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x)

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.a + o.a, self.b + o.b)
    __radd__ = __add__

    def __sub__(self, o):
        o = Dual.of(o)
        return Dual(self.a - o.a, self.b - o.b)

    def __rsub__(self, o):
        return Dual.of(o) - self

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.a * o.a, self.a * o.b + self.b * o.a)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.a / o.a, (self.b * o.a - self.a * o.b) / o.a ** 2)

    def __rtruediv__(self, o):
        return Dual.of(o) / self

    def __neg__(self):
        return Dual(-self.a, -self.b)

    def __eq__(self, o):
        return self.a == Dual.of(o).a


def zero(x):
    return x == 0 and not (isinstance(x, Dual) and x.b)


def solve(A, B):
    """(A^-1 B, det A) by elimination; B is a matrix."""
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    det = F(1)
    for i in range(n):
        p = next(r for r in range(i, n) if not M[r][i] == 0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            det = -det
        det = M[i][i] * det
        M[i] = [x / M[i][i] for x in M[i]]
        for r in range(n):
            if r != i and not zero(M[r][i]):
                f = M[r][i]
                M[r] = [x - f * y for x, y in zip(M[r], M[i])]
    return [row[n:] for row in M], det


def mat(x):
    return [[F(v) for v in row] for row in x]


def vec(x):
    return [F(v) for v in x]


def dot(a, b):
    t = F(0)
    for x, y in zip(a, b):
        t = x * y + t
    return t


def mul(A, B):
    return [[dot(r, c) for c in zip(*B)] for r in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def quad(x, mu, S):
    """((x-mu)' S^-1 (x-mu), det S)."""
    d = [a - b for a, b in zip(x, mu)]
    y, det = solve(S, [[v] for v in d])
    return dot(d, [r[0] for r in y]), det


def logpdf(x, mu, S):
    if not x:
        return 0.
    q, det = quad(x, mu, S)
    return -.5 * (float(q) + math.log(det) + len(x) * math.log(2 * math.pi))


def sub(S, I, J):
    return [[S[i][j] for j in J] for i in I]


def condition(mu, S, Q, E, e):
    """Mean and covariance of the variables Q given that E are e."""
    if not E:
        return [mu[i] for i in Q], sub(S, Q, Q)
    d = [v - mu[i] for v, i in zip(e, E)]
    X, _det = solve(sub(S, E, E), [[v] + list(r) for v, r in zip(d, sub(S, E,
        Q))])
    SQE = sub(S, Q, E)
    m = [mu[q] + dot(SQE[i], [r[0] for r in X]) for i, q in enumerate(Q)]
    C = [[S[q][p] - dot(SQE[i], [r[1 + j] for r in X])
        for j, p in enumerate(Q)] for i, q in enumerate(Q)]
    return m, C
