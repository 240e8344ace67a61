"""Proof compression: lossless, repeated entries by reference."""
import copy
from starks import compression as C

SEPS = (b"----", b"++++", b"====", b"////")


def encode(items):
    """the reference compression of a flat list of entries"""
    out, first = [], {}
    for x in items:
        if x in first:
            out.append(first[x].to_bytes(2, "big"))
        else:
            first[x] = len(out)
            out.append(x)
    return out


def flat_branches(bs):
    return [y for b in bs for y in list(b) + [b"----"]]


def flat_fri(prf):
    o = []
    for root, yproofs in prf[:-1]:
        o += [b"----", root]
        for yp in yproofs:
            for b in yp:
                o += list(b) + [b"++++"]
            o.append(b"====")
    return o + [b"////"] + list(prf[-1])


def wellformed(o, F):
    """the entries of o stand for F's, repetitions are two-byte references backwards"""
    if len(o) != len(F):
        return "%d entries for %d items" % (len(o), len(F))
    seen = {}
    for i, (x, y) in enumerate(zip(o, F)):
        if type(x) is not bytes:
            return "entry %d is %r" % (i, x)
        if y in seen:
            if len(x) != 2:
                return "entry %d repeats entry %d without a reference" % (i, seen[y])
            j = int.from_bytes(x, "big")
            if not (j < i and o[j] == y):
                return "reference %d of entry %d" % (j, i)
        else:
            if x != y:
                return "entry %d is %r, not %r" % (i, x, y)
            seen[y] = i


def run(t):
    rng = t.rng

    def check(kind, data, flat, comp, decomp):
        def f():
            keep = copy.deepcopy(data)
            try:
                o = comp(data)
            except AssertionError:
                return "the compressed form does not decompress to the original"
            if data != keep:
                return "the input was modified"
            m = wellformed(o, flat(data))
            if m:
                return m
            o0 = list(o)
            back = decomp(o)
            if o != o0:
                return "decompression modified its input"
            if back != keep:
                return "decompressed to %r" % str(back)[:300]
            o2 = encode(flat(data))
            if decomp(o2) != keep:
                return "the reference compression decompresses to %r" % str(decomp(o2))[:300]
        t.case(kind, "%r" % (data if len(str(data)) < 2500 else str(data)[:2500]), f)

    def entry(pool):
        while True:
            r = rng.random()
            if pool and r < .5:
                return rng.choice(pool)
            n = rng.choice([0, 1, 3, 4, 5, 31, 32, 33, 64])
            x = bytes(rng.choice([0, 1, 45, 255, rng.randrange(256)]) for _ in range(n))
            if x not in SEPS and len(x) != 2:
                if len(pool) < 12:
                    pool.append(x)
                return x

    def branches(nb, ne, pool):
        return [[entry(pool) for _ in range(rng.randrange(ne + 1))] for _ in range(nb)]

    def fri(nr, ny, nb, ne, nf):
        pool = []
        return [[entry(pool), [branches(rng.randrange(nb + 1), ne, pool) for _ in range(rng.randrange(ny + 1))]] for _ in range(nr)] + [[entry(pool) for _ in range(nf)]]

    B = lambda d: check("compress_branches", d, flat_branches, C.compress_branches, C.decompress_branches)
    F = lambda d: check("compress_fri", d, flat_fri, C.compress_fri, C.decompress_fri)
    a, b, c = b"a" * 32, b"b" * 32, b"c"
    for d in ([], [[]], [[], []], [[a]], [[a], [a]], [[a, a]], [[a, b], [b, a]], [[], [a], []], [[a], [], [a]], [[b""], [b""]], [[a, b, a, b, a]], [[b"--", b"-----", b"---"][1:]],
              [[bytes(1), bytes(3), bytes(4)]], [[a], [a], [a], [a]]):
        B(d)
    for d in ([[]], [[a]], [[a, a]], [[a, []], []], [[a, [[]]], [a]], [[a, [[[]]]], []], [[a, [[[a]]]], [a]], [[a, [[[a, b], [b, a]], [[a]]]], [b, [[[c]]]], [c, a]],
              [[a, []], [a, []], []], [[a, [[], []]], [b, [[[]], []]], [c]], [[a, [[[b], [b]], [[b], [b]]]], [a, [[[b], [b]], [[b], [b]]]], [b, b]]):
        F(d)
    # references beyond 255 and 256
    for n in (250, 254, 255, 256, 257, 300, 511, 513, 1000):
        u = [bytes([i % 256, i // 256, 7]) for i in range(n)]
        B([u, u[::-1], u])
        B([[x] for x in u] * 2)
        F([[u[0], [[u, u[::-1]], [u]]], [u[-1], [[u[n // 2:]]]], u[5:] + u[:9]])
    # close to the bound on the number of entries
    n = 65535
    u = [bytes([i % 256, i // 256, 7]) for i in range(n // 2 + 10)]
    B([(u + u)[:n - 1]])
    B([u[:n // 2 - 1], u[:n // 2 - 1][::-1]])
    for k in (65530, 65533, 65534):
        v = [bytes([i % 256, i // 256, 9]) for i in range(k)]
        B([v])
        B([v[:-1] + [v[-2]]])
    v = [bytes([i % 256, i // 256, 9]) for i in range(65000)]
    F([[a, [[v[:60000]]]], v[60000:] + v[-500:]])
    for _ in t.rounds(0.9, 60, 20000):
        pool = []
        B(branches(rng.randrange(7), rng.choice([1, 3, 8, 40]), pool))
        F(fri(rng.randrange(5), rng.randrange(4), rng.randrange(4), rng.choice([1, 3, 8]), rng.randrange(6)))
    t.note("branch lists and FRI proofs with repeated entries, up to 65535 compressed entries")
