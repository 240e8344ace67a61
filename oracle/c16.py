"""Byte encodings and leaf packing."""
from starks import merkle_tree as M
from starks.rationals_modp import RationalsModP
from fld import *

BIG = [2 ** 255 - 19, 2 ** 256 - 189, 2 ** 256 - 2 ** 32 - 977, 2 ** 256 - 2 ** 32 * 351 + 1, 2 ** 31 - 1]


def run(t):
    rng = t.rng
    cs = t.consts("starks/modp.py", "starks/rationals_modp.py", "starks/polynomial.py", "starks/merkle_tree.py", "starks/finitefield.py")
    primes = [2, 3, 5, 7, 17, 31, 97, 127, 251, 257, 65537] + BIG + [p for p in cs if 1 < p < 2 ** 256 and is_prime(p)]

    def element(p, a):
        def f():
            K = IntegersModP(p)
            x = K(a)
            b = x.to_bytes()
            if type(b) is not bytes or b != a.to_bytes(32, "big"):
                return "encoded as %r" % (b,)
            y = K(b)
            if type(y) is not K or int(y.n) != a or not (y == x) or y != x:
                return "decoded to %r" % (y,)
            if y.to_bytes() != b or int(x.n) != a:
                return "not stable"
        t.case("IntegersModP bytes", "p=%d n=%d" % (p, a), f)

    def fraction(p, a, b):
        def f():
            Q = RationalsModP(p)
            x = Q(a, b)
            e = x.to_bytes()
            if type(e) is not bytes or e != int(x.m).to_bytes(32, "big") + int(x.n).to_bytes(32, "big"):
                return "encoded as %r" % (e,)
            y = Q(e)
            if type(y) is not Q or (y.m, y.n) != (x.m, x.n) or not (y == x) or y != x:
                return "decoded to %r" % (y,)
        t.case("RationalsModP bytes", "p=%d %d/%d" % (p, a, b), f)

    def poly(p, c):
        def f():
            P = polynomials_over(IntegersModP(p))
            x = P(list(c))
            e = x.to_bytes()
            if e != b"".join(int(k).to_bytes(32, "big") for k in pnorm(list(c), p)) and not (pzero(pnorm(list(c), p)) and e in (b"", bytes(32))):
                return "encoded as %r" % (e,)
            y = P(e)
            if type(y) is not P or not (y == x) or y != x or pcoef(y) != pcoef(x) or [type(k) for k in y.coefficients] != [type(k) for k in x.coefficients]:
                return "decoded to %r" % (y,)
        t.case("polynomial bytes", "p=%d %r" % (p, c), f)

    def ext(K, a):
        def f():
            x = K.el(a)
            e = x.to_bytes()
            want = b"".join(int(k).to_bytes(32, "big") for k in a)
            if e != want and not (not want and e == bytes(32)):
                return "encoded as %r" % (e,)
            y = K.F(e)
            if type(y) is not K.F or not (y == x) or y != x or K.raw(y) != a or y.to_bytes() != e:
                return "decoded to %r" % (y,)
        t.case("FiniteField bytes", "%s %r" % (K.name, a), f)

    def pack(K, dims, polys, N, ev):
        def f():
            k = dims * polys
            rows = [[K.el(v) for v in r] for r in ev]
            tree = M.merkelize_polynomial_evaluations(dims, rows)
            if len(tree) != 2 * N or len(rows) != k or any(len(r) != N for r in rows):
                return "wrong number of nodes, or input modified"
            for j in range(N):
                leaf = M.mk_branch(tree, j)[0]
                if leaf != M.verify_branch(tree[1], j, M.mk_branch(tree, j)):
                    return "leaf %d does not verify" % j
                want = [rows[i][j].to_bytes() for i in range(k)]
                if leaf != b"".join(want):
                    return "leaf %d is not the concatenation" % j
                got = M.unpack_merkle_leaf(leaf, dims, polys)
                if list(got) != want:
                    return "leaf %d unpacks to %r" % (j, got)
                if [K.raw(K.F(b)) for b in got] != [r[j] for r in ev]:
                    return "leaf %d decodes to other values" % j
        t.case("leaf packing", "%s dims=%d polys=%d N=%d %r" % (K.name, dims, polys, N, str(ev)[:200]), f)

    def split(dims, polys, leaf):
        def f():
            got = list(M.unpack_merkle_leaf(leaf, dims, polys))
            if got != [leaf[32 * i:32 * i + 32] for i in range(dims * polys)]:
                return "unpacked %d pieces: %r" % (len(got), got[:4])
        t.case("unpack_merkle_leaf", "dims=%d polys=%d leaf=%s" % (dims, polys, leaf.hex()), f)

    def elements(p):
        return sorted({a for a in [0, 1, 2, p - 1, p - 2, p // 2, 255, 256, 257, 65535, 65536, 2 ** 64, 2 ** 128, 2 ** 248, 2 ** 255, rng.randrange(p), rng.randrange(p) & ~0xff] + [c % p for c in cs] if 0 <= a < p})

    for p in primes:
        for a in elements(p):
            element(p, a)
        es = elements(p)
        for a in es[:8]:
            for b in [1, p - 1, 2, 3, 6, rng.randrange(1, p)]:
                if b % p:
                    fraction(p, a, b % p)
    for p in [2, 3, 5, 17, 257, 2 ** 31 - 1, BIG[0], BIG[1]]:
        for n in list(range(0, 10)) + [31, 32, 33, 64]:
            poly(p, [rng.randrange(p) for _ in range(n)])
            poly(p, [0] * n + [1])
            poly(p, [rng.randrange(p) if rng.random() < .3 else 0 for _ in range(n)] + [p - 1])
        poly(p, [])
    for p, m in EXT:
        K = Ext(p, m)
        els = [()] + [tuple([0] * i + [1]) for i in range(K.d)] + [K.rnd(rng) for _ in range(12)]
        for a in els:
            ext(K, a)
    for p in [17, 257, 2 ** 31 - 1, BIG[0], BIG[1]]:
        K = Prime(p)
        for dims in range(1, 5):
            for polys in range(1, 5):
                N = rng.choice([4, 8, 16])
                pack(K, dims, polys, N, [[K.rnd(rng) for _ in range(N)] for _ in range(dims * polys)])
    for dims in range(0, 6):
        for polys in range(0, 6):
            split(dims, polys, bytes(rng.randrange(256) for _ in range(32 * dims * polys)))
    for _ in t.rounds(0.8, 10, 10000):
        p = rng.choice(primes)
        element(p, rng.randrange(p))
        fraction(p, rng.randrange(p), rng.randrange(1, p))
        poly(p, [rng.choice([0, 1, p - 1, rng.randrange(p)]) for _ in range(rng.randrange(20))])
        K = Prime(rng.choice(primes))
        dims, polys, N = rng.randrange(1, 7), rng.randrange(1, 7), rng.choice([4, 8, 16, 32])
        pack(K, dims, polys, N, [[K.rnd(rng) for _ in range(N)] for _ in range(dims * polys)])
    t.note("elements of %d primes up to 256 bits, polynomials, %d extension fields, leaves up to 6 x 6" % (len(primes), len(EXT)))
