"""Merkle branches: only the committed entry opens."""
from starks import merkle_tree as M
from c14 import encoding, lists


def run(t):
    rng = t.rng

    def rejects(L, root, i, proof, what, want=None):
        """acceptance is allowed only when it opens the committed entry"""
        def f():
            p0 = list(proof)
            try:
                got = M.verify_branch(root, i, proof)
            except AssertionError:
                return True
            if proof != p0:
                return "the branch was modified"
            if want is not None and got == want:
                return True
            return "%s: accepted, opens to %r" % (what, got)
        t.case("binding:%s" % what, (len(L), i, root.hex() if isinstance(root, bytes) else root, [bytes(p).hex() for p in proof]), f)

    def attack(L, i):
        n = len(L)
        tree = M.merkelize(L)
        root, leaf = tree[1], encoding(L[i])
        b = M.mk_branch(tree, i)
        for k in range(len(b)):
            e = b[k]
            alts = {bytes(len(e)), e[::-1], bytes(rng.randrange(256) for _ in range(len(e))), rng.choice(tree)}
            for bit in (0, 7, 8 * len(e) - 1, rng.randrange(8 * len(e) or 1)):
                if e:
                    alts.add((int.from_bytes(e, "big") ^ (1 << bit)).to_bytes(len(e), "big"))
            alts |= {e + b"\0", e[:-1], b"", e[1:]}
            for a in sorted(alts):
                if a != e:
                    rejects(L, root, i, b[:k] + [a] + b[k + 1:], "entry %s altered" % ("0" if k == 0 else "1" if k == 1 else "last" if k == len(b) - 1 else "inner"))
        for a in range(len(b)):
            for c in range(a):
                q = list(b)
                q[a], q[c] = q[c], q[a]
                if q != b and len(q[0]) == len(leaf):
                    rejects(L, root, i, q, "entries swapped", leaf)
        for j in range(n) if n <= 32 else rng.sample(range(n), 8):
            if encoding(L[j]) != leaf and len(encoding(L[j])) == len(leaf):
                rejects(L, root, i, M.mk_branch(tree, j), "branch of another index", leaf)
                rejects(L, root, j, b, "another index", encoding(L[j]))
                rejects(L, root, i, [encoding(L[j])] + b[1:], "another leaf", leaf)
        for r in (bytes(32), tree[2], tree[3], root[::-1], root[:-1] + bytes([root[-1] ^ 1]), bytes([root[0] ^ 128]) + root[1:], root[:31], root + b"\0", b"", leaf, b[-1]):
            if r != root:
                rejects(L, r, i, b, "another root")
        q = [bytes(rng.randrange(256) for _ in range(len(e))) for e in b]
        rejects(L, root, i, q, "random branch", leaf)
        # inner nodes offered as leaves
        if len(leaf) == 32:
            for x in range(1, n):
                rejects(L, root, i, [tree[x]] + b[1:], "inner node as leaf", leaf)
                if n > 64:
                    break

    for lg in range(2, 6):
        n = 2 ** lg
        for kind, L in lists(t, n):
            for i in range(n) if n <= 8 else rng.sample(range(n), 4) + [0, n - 1]:
                attack(L, i)
    for _ in t.rounds(0.5, 6, 300):
        n = 2 ** rng.randrange(2, 9)
        for kind, L in lists(t, n):
            attack(L, rng.randrange(n))
    t.note("every entry of honest branches altered, swapped and replaced for lists of 4 to 256 entries")
