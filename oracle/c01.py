"""Z/p: canonical representatives and exact arithmetic."""
from starks.modp import IntegersModP
from ref import *

BIG = [2 ** 256 - 2 ** 32 * 351 + 1, 2 ** 255 - 19, 2 ** 31 - 1, 10 ** 9 + 7]


def run(t):
    rng = t.rng
    cs = t.consts("starks/modp.py", "starks/numbertype.py", "starks/euclidean.py")
    primes = [p for p in range(2, 60) if is_prime(p)] + [97, 101, 257, 65537]
    primes += [p for p in cs if p > 60 and is_prime(p)] + BIG

    def check(K, p, a, b):
        x, y = K(a), K(b)
        A, B = a % p, b % p

        def res(r, want, what):
            if type(r) is not K:
                return "%s has type %s" % (what, type(r))
            if r.n != want:
                return "%s gives %r, not %d" % (what, r.n, want)
            return None

        def f():
            for r, w, n in ((x, A, "init"), (x + y, (A + B) % p, "+"), (x - y, (A - B) % p, "-"), (x * y, A * B % p, "*"), (-x, -A % p, "neg"),
                            (K(x), A, "init from element")):
                m = res(r, w, n)
                if m:
                    return m
            if (x == y) is not (A == B) or (x != y) is not (A != B):
                return "== / != wrong"
            if int(x) != A or abs(x) != A:
                return "int/abs wrong"
            if B:
                q, r = divmod(x, y)
                m = res(q, A // B, "divmod quotient") or res(r, A % B, "divmod remainder")
                if m:
                    return m
                m = res(x / y, A * pow(B, -1, p) % p, "/") or res(y.inverse(), pow(B, -1, p), "inverse")
                if m:
                    return m
                if not (y * y.inverse() == K(1)):
                    return "y * y.inverse() != 1"
            if x.n != A or y.n != B:
                return "operands modified"
        t.case("modp:ops", (p, a, b), f)

    def zero(K, p, a):
        t.raises("modp:inverse-zero", p, lambda: K(0).inverse(), Exception)
        t.raises("modp:div-zero", (p, a), lambda: K(a) / K(0), Exception)

    def frombytes(K, p, bs):
        w = int.from_bytes(bs, "big") % p

        def f():
            x = K(bs)
            if x.n != w:
                return "K(%r) has representative %d, not %d" % (bs, x.n, w)
            return x == K(w) and not (x != K(w)) or "comparison with the same residue"
        t.case("modp:bytes", (p, bs.hex()), f)

    def typeerr(K, p):
        for v in (None, [1], object()):
            t.raises("modp:bad-type", (p, type(v).__name__), lambda: K(v), TypeError)
    for p in primes:
        K = IntegersModP(p)
        t.case("modp:params", p, lambda: K.p == p and K.field_size == p and K.m == 1)
        typeerr(K, p)
        zero(K, p, 1)
        if p <= 23:
            for a in range(-2, p + 2):
                for b in range(p):
                    check(K, p, a, b)
        for c in cs:
            for d in (-1, 0, 1):
                check(K, p, c + d, rng.choice(cs))
        for bs in (b"", b"\0", b"\1", b"\xff" * 2, bytes([p % 256]), p.to_bytes(40, "big"), (p + 1).to_bytes(40, "big"), (p - 1).to_bytes(40, "big"), bytes(33), b"\xff" * 64):
            frombytes(K, p, bs)
    for _ in t.rounds(0.9, 500):
        p = rng.choice(primes)
        K = IntegersModP(p)
        k = rng.choice([1, p, p * p, 2 ** 300])
        check(K, p, rng.randint(-k, k), rng.choice([rng.randint(0, p - 1), rng.randint(-3, 3), p - 1, rng.randint(-k, k)]))
        frombytes(K, p, bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 70))))
