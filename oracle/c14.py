"""Merkle trees: every index of every list opens to its entry."""
from hashlib import blake2s
from starks import merkle_tree as M
from fld import *

H = lambda b: blake2s(b).digest()


class Own:
    """an element with its own encoding"""
    def __init__(self, b):
        self.b = b

    def to_bytes(self):
        return self.b


def encoding(x):
    if isinstance(x, bytes):
        return x
    return x.to_bytes(32, "big") if isinstance(x, int) else x.to_bytes()


def lists(t, n):
    rng = t.rng
    rb = lambda k: bytes(rng.randrange(256) for _ in range(k))
    yield "bytes", [rb(32) for _ in range(n)]
    yield "bytes", [rb(rng.choice([0, 1, 31, 32, 33, 64, 96])) for _ in range(n)]
    yield "bytes", [bytes([i % 256]) * 2 for i in range(n)]
    yield "ints", [rng.choice([0, 1, 255, 256, 2 ** 255, 2 ** 256 - 1, rng.randrange(2 ** 256)]) for _ in range(n)]
    yield "ints", list(range(n))
    yield "equal", [7] * n
    K = Prime(rng.choice([17, 257, 65537]))
    yield "elements", [K.el(rng.randrange(K.p)) for _ in range(n)]
    yield "elements", [Own(rb(rng.randrange(70))) for _ in range(n)]
    yield "mixed", [rng.choice([rb(5), rng.randrange(2 ** 256), K.el(3), Own(b"x%d" % i), True]) for i in range(n)]


def run(t):
    rng = t.rng

    def check(kind, L, idx):
        def f():
            keep = list(L)
            tree = M.merkelize(L)
            n = len(L)
            if len(L) != len(keep) or any(a is not b for a, b in zip(L, keep)):
                return "the list was modified"
            if type(tree) is not list or len(tree) != 2 * n:
                return "%d nodes" % len(tree)
            for i in range(1, n):
                if tree[i] != H(tree[2 * i] + tree[2 * i + 1]):
                    return "node %d is not the hash of its children" % i
            if sorted(tree[n:]) != sorted(encoding(x) for x in L):
                return "the leaves are not the encodings"
            for i in idx:
                t0 = list(tree)
                b = M.mk_branch(tree, i)
                if tree != t0:
                    return "the tree was modified"
                b0 = list(b)
                for flags in ((), (False,), (True,)):
                    try:
                        got = M.verify_branch(tree[1], i, b, *flags)
                    except AssertionError:
                        return "the branch of index %d is rejected" % i
                    want = encoding(L[i])
                    if flags == (True,):
                        want = int.from_bytes(want, "big")
                    if got != want or type(got) is not type(want):
                        return "index %d opens to %r" % (i, got)
                    if b != b0:
                        return "the branch was modified"
                if M.verify_branch(root=tree[1], index=i, proof=b, output_as_int=True) != int.from_bytes(encoding(L[i]), "big"):
                    return "keyword form differs"
            return True
        t.case("merkle:%s" % kind, (kind, len(L), [encoding(x).hex() for x in L] if len(L) <= 8 else len(L), list(idx)[:8]), f)

    for lg in range(2, 10 if not t.thorough else 13):
        n = 2 ** lg
        for kind, L in lists(t, n):
            check(kind, L, range(n) if n <= 64 or t.thorough else sorted(rng.sample(range(n), 24) + [0, 1, n // 2 - 1, n // 2, n - 1]))
    for _ in t.rounds(0.6, 12, 400):
        n = 2 ** rng.randrange(2, 7)
        for kind, L in lists(t, n):
            check(kind, L, sorted(rng.sample(range(n), min(n, 16))))
    t.note("all indices of lists of 4 to 64 entries of every kind, sampled indices to 512")
