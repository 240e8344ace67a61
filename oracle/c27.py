"""Primality testing."""
import random
from run import load_path
P = load_path("pv_primality", "misc/primality.py")


def isprime(n):
    if n < 2:
        return False
    i = 2
    while i * i <= n:
        if n % i == 0:
            return False
        i += 1
    return True


def witness(a, p):
    """Miller-Rabin witness, from the definition."""
    d, e = p - 1, 0
    while d % 2 == 0:
        d //= 2
        e += 1
    return pow(a, d, p) != 1 and all(pow(a, d << i, p) != p - 1 for i in range(e))


class Draws:
    """random.randint drawing a chosen sequence"""

    def __init__(self, seq):
        self.seq, self.used, self.bad = list(seq), [], None

    def randint(self, lo, hi):
        if not self.seq:
            self.seq = [lo]
        v = self.seq.pop(0)
        v = max(lo, min(hi, v))
        self.used.append(v)
        return v

    def randrange(self, lo, hi=None, step=1):
        return self.randint(0, lo - 1) if hi is None else self.randint(lo, hi - 1)

    def __getattr__(self, k):
        return getattr(random, k)


def run(t):
    rng = t.rng

    def decomp(n):
        def f():
            r = P.decompose(n)
            e, d = r
            return type(e) is int and type(d) is int and e >= 0 and d % 2 == 1 and d << e == n or "decompose gives %r" % (r,)
        t.case("decompose", n, f)

    def wit(a, p):
        def f():
            d, e = p - 1, 0
            while d % 2 == 0:
                d //= 2
                e += 1
            r = P.isWitness(a, p, e, d)
            return bool(r) == witness(a, p) or "isWitness gives %r" % (r,)
        t.case("isWitness", (a, p), f)

    def prim(p, seq, acc):
        """with the draws fixed"""
        def f():
            d = Draws(seq)
            old = dict(vars(P))
            for k, v in old.items():
                if v is random:
                    setattr(P, k, d)
                elif v == random.randint:
                    setattr(P, k, d.randint)
                elif v == random.randrange:
                    setattr(P, k, d.randrange)
            try:
                r = P.probablyPrime(p, acc) if acc is not None else P.probablyPrime(p)
            finally:
                vars(P).update(old)
            if p < 2 or (p % 2 == 0 and p > 2):
                return r is False or "returns %r" % r
            if p in (2, 3):
                return r is True or "returns %r" % r
            w = [a for a in d.used if witness(a, p)]
            if any(not 1 <= a <= p - 1 for a in d.used):
                return "draws a base outside the range"
            if isprime(p) if p < 10 ** 9 else p in big:
                return r is True or "rejects a prime"
            if r is True and w:
                return "accepts after drawing %r (witnesses %r)" % (d.used[:5], w[:3])
            if r is False and not w:
                return "rejects after drawing %r (witnesses %r)" % (d.used[:5], w[:3])
            return r in (True, False) or "returns %r" % r
        t.case("probablyPrime", (p, seq[:6], acc), f)
    big = [2 ** 31 - 1, 2 ** 61 - 1, 2 ** 89 - 1, 2 ** 127 - 1, 2 ** 256 - 2 ** 32 * 351 + 1, 2 ** 521 - 1, 65537, 40961, 12289, 998244353, 10 ** 9 + 7]
    for n in list(range(1, 600)) + [2 ** k for k in range(70)] + [3 * 2 ** k for k in range(70)] + [2 ** 200 * 12345678901234567890123, 2 ** 200 + 1] + [b - 1 for b in big]:
        decomp(n)
    for p in range(3, 200, 2):
        for a in range(1, p):
            wit(a, p)
    for p in range(-3, 400):
        if p > 4:
            for a in range(2, p - 1, max(1, p // 12)):
                prim(p, [a] * 3, 3)
            prim(p, [rng.randint(2, p - 2) for _ in range(100)], None)
            prim(p, [p - 2, 2] * 3, 6)
            prim(p, [2], 1)
        else:
            prim(p, [2], 5)
            prim(p, [2], None)
    for p in big:
        for a in (2, 3, p - 2, p - 3, p // 2, 5, 7, 11):
            wit(a, p)
            prim(p, [a], 1)
    # strong pseudoprimes: liars and witnesses drawn in every position
    for p in (9, 15, 25, 49, 91, 561, 1105, 2047, 1373653, 25326001, 3215031751, 2152302898747):
        liars = [a for a in list(range(2, min(p - 1, 200))) if not witness(a, p)]
        wits = [a for a in range(2, min(p - 1, 200)) if witness(a, p)]
        for pos in range(4):
            for _ in range(3):
                if liars and wits:
                    seq = [rng.choice(liars) for _ in range(4)]
                    prim(p, seq, 4)
                    seq[pos] = rng.choice(wits)
                    prim(p, seq, 4)
    # genuinely random draws
    for p in [q for q in range(2, 2000) if isprime(q)] + big:
        t.case("prime", p, lambda: P.probablyPrime(p) is True or "rejects a prime")
    for _ in t.rounds(0.4, 20):
        p = rng.randrange(3, 10 ** 6) | 1
        prim(p, [rng.randint(2, p - 2) for _ in range(8)], 8)
        wit(rng.randint(1, p - 1), p)
        decomp(rng.getrandbits(rng.randint(1, 300)) + 1)
