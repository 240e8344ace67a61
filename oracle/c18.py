"""Pseudorandom index sampling."""
import itertools
import starks.utils as U
from ref import *


def run(t):
    rng = t.rng
    f = U.get_pseudorandom_indices

    def one(e, m, c, x, pos=None):
        def g():
            e0 = bytes(e)
            args = (e, m, c) if x is None else (e, m, c, x)
            r = f(*args)
            if type(r) is not list or len(r) != c:
                return "count: %r" % (len(r),)
            for v in r:
                if type(v) is not int or not 0 <= v < m:
                    return "out of range: %r" % (v,)
                if x and v % x == 0:
                    return "excluded multiple: %r" % (v,)
            if f(*args) != r or f(*args) != r:
                return "differs between calls"
            if x is None and f(e, m, c, 0) != r:
                return "default differs from 0"
            if x is not None and f(e, m, c, exclude_multiples_of=x) != r:
                return "keyword differs"
            return bytes(e) == e0
        t.case("sample", (e.hex() if len(e) < 80 else (len(e), e[:8].hex()), m, c, x), g)

    def ent(n):
        return rng.choice([lambda: bytes(rng.randrange(256) for _ in range(n)), lambda: bytes([255]) * n, lambda: bytes(n), lambda: bytes([rng.randrange(256)]) * n])()
    mods = [1, 2, 3, 4, 6, 8, 12, 16, 30, 60, 64, 97, 120, 210, 256, 512, 1000, 1024, 4096, 8192, 65536, 99999, 2 ** 20, 2 ** 23, 2 ** 24 - 1, 2 ** 24 - 4, 2 ** 24 - 2 ** 12]
    for n in list(range(0, 72)) + [95, 96, 97, 127, 128, 129, 160, 200, 320, 1000]:
        for c in {0, 1, 2, 3, 5, 8, 9, 17, 40, 80, n // 4, n // 4 + 1, n // 4 + 8, n // 4 + 9}:
            m = rng.choice(mods)
            one(ent(n), m, c, None)
            ds = [d for d in range(2, min(m, 3000) + 1) if m % d == 0]
            if ds:
                one(ent(n), m, c, rng.choice(ds))
                one(ent(n), m, c, rng.choice(ds[:2]))
    for m in range(1, 80):
        for x in [None] + [d for d in range(2, m + 1) if m % d == 0]:
            one(ent(rng.choice([0, 1, 4, 31, 32, 33, 40])), m, rng.choice([30, 64, 200]), x)
            one(b"\xff" * 64, m, 16, x)
    for m in mods:
        for x in [d for d in (2, 3, 4, 5, 8, 16, 32, 64, m // 2, m // 3, m) if d >= 2 and m % d == 0]:
            for _ in range(3):
                one(ent(32), m, 80, x)
                one(bytes(rng.randrange(256) for _ in range(80)), m, 20, x)
            # largest value of the reduced range
            r = m // x * (x - 1)
            for v in (r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 ** 32 - 1, 2 ** 32 - 2 ** 8, (2 ** 32 - 1) // r * r, (2 ** 32 - 1) // r * r - 1):
                if 0 <= v < 2 ** 32:
                    one(v.to_bytes(4, "big"), m, 1, x)
    # every index that is not excluded comes from some entropy
    for m in list(range(1, 41)) + [64, 96, 100, 128, 256, 300, 512]:
        for x in [0] + [d for d in range(2, m + 1) if m % d == 0]:
            def g():
                got = set()
                want = {v for v in range(m) if not x or v % x}
                for v in itertools.chain(range(m + 2), (rng.randrange(2 ** 32) for _ in range(40 * m))):
                    got.update(f(v.to_bytes(4, "big"), m, 1, x))
                    if got >= want:
                        return True
                return "never produced: %r" % sorted(want - got)[:8]
            t.case("reach", (m, x), g)
    # the same result whatever happened in between
    def g():
        jobs = [(ent(rng.randrange(60)), rng.choice([8, 64, 512]), rng.randrange(40), rng.choice([0, 2, 4, 8])) for _ in range(60)]
        first = [f(*j) for j in jobs]
        for k in rng.sample(range(60), 60):
            if f(*jobs[k]) != first[k]:
                return "differs after other calls: %r" % (jobs[k],)
        return True
    for _ in range(10):
        t.case("history", None, g)
    for _ in t.rounds(0.5, 200, 20000):
        m = rng.randrange(1, 2 ** rng.randrange(1, 25))
        x = rng.choice([0, 2, 3, 4, 7, 16, 31])
        if x:
            m = max(x, m // x * x)
        one(ent(rng.randrange(90)), m, rng.randrange(40), x)
    t.note("modulus, entropy length, count and exclusion swept, all indices reached for moduli to 40")
