"""Reference fields with exact arithmetic on plain ints / int lists."""
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from ref import *

EXT = [(2, [1, 1, 1]), (2, [1, 1, 0, 1]), (3, [1, 0, 1]), (3, [2, 1, 1]), (5, [2, 0, 1]), (2, [1, 1, 0, 0, 1]), (7, [1, 0, 1]), (2, [1, 1, 0, 1, 1, 0, 0, 0, 1])]


class Prime:
    def __init__(self, p):
        self.p, self.F, self.name, self.size = p, IntegersModP(p), "Z/%d" % p, p
        self.zero, self.one = 0, 1

    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def inv(self, a): return pow(a, -1, self.p)
    def el(self, a): return self.F(a)

    def raw(self, e):
        if type(e) is not self.F:
            raise TypeError("element of type %s, not of the field" % type(e))
        return int(e.n)

    def rnd(self, rng): return rng.randrange(self.p)


class Ext:
    def __init__(self, p, m):
        self.p, self.m = p, m
        self.P = polynomials_over(IntegersModP(p))
        self.F = FiniteField(p, len(m) - 1, polynomialModulus=self.P(m))
        self.d = len(m) - 1
        self.size, self.name = p ** self.d, "F_%d^%d" % (p, self.d)
        self.zero, self.one = (), (1,)

    def add(self, a, b): return tuple(padd(list(a), list(b), self.p))
    def sub(self, a, b): return tuple(psub(list(a), list(b), self.p))
    def mul(self, a, b): return tuple(prem(pmul(list(a), list(b), self.p), self.m, self.p))

    def inv(self, a):
        r, n, b = self.one, self.size - 2, a
        while n:
            if n & 1:
                r = self.mul(r, b)
            b, n = self.mul(b, b), n >> 1
        return r

    def el(self, a): return self.F(self.P(list(a)))

    def raw(self, e):
        if type(e) is not self.F:
            raise TypeError("element of type %s, not of the field" % type(e))
        return tuple(pcoef(e.poly))

    def rnd(self, rng): return tuple(pnorm([rng.randrange(self.p) for _ in range(self.d)], self.p))


def ev(K, cs, x):
    r = K.zero
    for c in reversed(cs):
        r = K.add(K.mul(r, x), c)
    return r


def pmulK(K, a, b):
    r = [K.zero] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = K.add(r[i + j], K.mul(x, y))
    return r


def trimK(K, cs):
    cs = list(cs)
    while cs and cs[-1] == K.zero:
        cs.pop()
    return cs


def rawpoly(K, f):
    """coefficients of a starks polynomial over K, as references; zero is []"""
    return trimK(K, [K.raw(c) for c in f.coefficients])
