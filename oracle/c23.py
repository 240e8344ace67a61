"""Bit and integer commitments."""
import random
import sys
from run import load_path
sys.modules["starks.primality"] = load_path("pv_primality", "misc/primality.py")
C = load_path("pv_commitment", "misc/commitment.py")
B = load_path("pv_blum_blum_shub", "misc/blum_blum_shub.py")


def ones(n):
    k = 0
    while n:
        k ^= n & 1
        n >>= 1
    return k


def run(t):
    rng = t.rng

    def parity(n):
        t.case("parity", n, lambda: B.parity(n) == ones(n) or "parity gives %r" % (B.parity(n),))

    def functions(M):
        return (lambda x: x * x % M), ones

    def bit(M, n, b, seed):
        def f():
            f, h = functions(M)
            random.seed(seed)
            s, v = C.BBSBitCommitmentScheme(f, h, n), C.BBSBitCommitmentVerifier(f, h)
            c, o = s.commit(b), s.reveal()
            if c != (f(o), h(o) ^ b):
                return "the commitment is %r" % (c,)
            return v.verify(o, c) is True and v.decode(o, c) == b or "the opening gives %r, %r" % (v.verify(o, c), v.decode(o, c))
        t.case("bit", (M, n, b, seed), f)

    def bitopen(M, c, s):
        def f():
            f, h = functions(M)
            v = C.BBSBitCommitmentVerifier(f, h)
            want = c[0] == f(s)
            if bool(v.verify(s, c)) != want:
                return "verify gives %r" % (v.verify(s, c),)
            return v.decode(s, c) == c[1] ^ h(s) or "decode gives %r" % (v.decode(s, c),)
        t.case("bit-opening", (M, c, s), f)

    def integer(M, n, x, seed, k=None):
        def f():
            f, h = functions(M)
            random.seed(seed)
            s, v = C.BBSIntCommitmentScheme(n, f, h), C.BBSIntCommitmentVerifier(n, f, h)
            c, o = s.commit(x), s.reveal()
            if len(c) != n or len(o) != n:
                return "%d bits, %d secrets" % (len(c), len(o))
            if v.verify(o, c) is not True or v.decode(o, c) != x:
                return "the opening gives %r, %r" % (v.verify(o, c), v.decode(o, c))
            if s.commit(x) != c or s.reveal() != o:
                return "committing again gives something else"
            return True
        t.case("integer", (M, n, x, seed), f)

    def intopen(M, n, c, S):
        def f():
            f, h = functions(M)
            v = C.BBSIntCommitmentVerifier(n, f, h)
            want = len(c) == n and len(S) == n and all(f(s) == a for s, (a, b) in zip(S, c))
            if bool(v.verify(S, c)) != want:
                return "verify gives %r" % (v.verify(S, c),)
            if want:
                d = 0
                for s, (a, b) in zip(S, c):
                    d = 2 * d + (b ^ h(s))
                return v.decode(S, c) == d or "decode gives %r, not %d" % (v.decode(S, c), d)
            return True
        t.case("integer-opening", (M, n, c, S), f)

    for n in range(70):
        parity(n)
    for p in (3, 7, 11):
        def f(p=p):
            return B.good_prime(p) is True
        if p > 3:
            t.case("good_prime", p, f)
    for bits in (8, 12, 16):
        def f(bits=bits):
            f = B.blum_blum_shub(bits)
            # recover the modulus from differences
            import math
            g = 0
            for x in [rng.getrandbits(6 * bits) for _ in range(80)]:
                g = math.gcd(g, x * x - f(x))
            return all(f(x) == x * x % g for x in range(0, 3 * g, max(1, g // 50))) or "not squaring modulo %d" % g
        t.case("one-way", bits, f)
    M = 77
    # openings that leave bits out
    intopen(M, 2, [(4, 1), (9, 0)], [2])
    intopen(M, 2, [(4, 1), (9, 0)], [])
    intopen(M, 2, [(4, 1)], [2, 3])
    intopen(M, 1, [(4, 1), (9, 0)], [2, 3])
    for _ in t.rounds(0.8, 200, 30000):
        M = rng.choice([21, 33, 77, 209, 1333, 10403, 2 ** 61 - 1, rng.randrange(3, 10 ** 9)])
        parity(rng.getrandbits(rng.choice([1, 3, 16, 64, 300])))
        bit(M, rng.choice([4, 10, 64]), rng.randrange(2), rng.random())
        s = rng.randrange(M)
        bitopen(M, (s * s % M if rng.random() < 0.6 else rng.randrange(M), rng.randrange(2)), s)
        n = rng.randint(1, 12)
        top = 2 ** n
        integer(M, n, rng.choice([0, 1, top - 1, top // 2, rng.randrange(top)]), rng.random())
        S = [rng.randrange(M) for _ in range(n)]
        c = [(s * s % M, rng.randrange(2)) for s in S]
        k = rng.randrange(6)
        if k == 1:
            i = rng.randrange(n)
            c[i] = ((c[i][0] + 1) % M, c[i][1])
        elif k == 2:
            S = S[:rng.randrange(n + 1)]
        elif k == 3:
            c = c[:rng.randrange(n + 1)]
        elif k == 4:
            S = [(M - s) % M for s in S]
        elif k == 5 and n > 1:
            S[0], S[-1] = S[-1], S[0]
        intopen(M, n, c, S)
