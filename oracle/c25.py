"""3-coloring proofs."""
import random
import sys
from run import load_path
sys.modules["starks.primality"] = load_path("pv_primality", "misc/primality.py")
B = sys.modules["starks.blum_blum_shub"] = load_path("pv_blum_blum_shub", "misc/blum_blum_shub.py")
C = sys.modules["starks.commitment"] = load_path("pv_commitment", "misc/commitment.py")
sys.modules["starks.zero_knowledge"] = load_path("pv_zero_knowledge", "misc/zero_knowledge.py")
M = load_path("pv_zkp_3_coloring", "misc/zkp_3_coloring.py")


def run(t):
    rng = t.rng
    owp = lambda x: x * x % 1000003
    hard = lambda x: bin(x).count("1") % 2

    def coloured(n, k):
        """a graph on 1..n with a proper coloring"""
        col = {v: (v - 1) % 3 if v <= 3 else rng.randrange(3) for v in range(1, n + 1)}
        E = [(u, v) for u in range(1, n + 1) for v in range(1, n + 1) if col[u] != col[v]]
        G = [rng.choice(E) for _ in range(k)] + [rng.choice([e for e in E if n in e])]
        rng.shuffle(G)
        return G, col

    def pick(v, committed, e):
        """make the verifier choose the edge e"""
        old = M.random
        M.random = type("Draws", (), {"choice": staticmethod(lambda s: next(x for x in s if tuple(sorted(x)) == tuple(sorted(e)))), "__getattr__": lambda s, k: getattr(random, k)})()
        try:
            return v.choose_edge(committed)
        finally:
            M.random = old

    def rounds(G, col, bad):
        def f():
            keep = list(G), dict(col)
            p, v = M.ZK3ColProver(G, col, owp, hard), M.ZK3ColVerifier(G, owp, hard)
            for e in sorted(set(tuple(sorted(x)) for x in G)):
                c = p.commit_to_coloring()
                if sorted(c) != list(range(1, max(max(x) for x in G) + 1)):
                    return "commitments for %r" % (sorted(c),)
                got = pick(v, c, e)
                o = p.reveal_colors(*(e if rng.random() < .5 else e[::-1]))
                r = v.accepts(o)
                want = col[e[0]] != col[e[1]]
                if bool(r) != want:
                    return "edge %r is %s" % (e, "refused" if want else "accepted")
                # openings that do not verify
                bits = [list(x) for x in o]
                k, j = rng.randrange(2), rng.randrange(2)
                bits[k][j] += 1 + rng.randrange(1000)
                ok = all(len(b) == 2 and all(owp(s) == m[0] for s, m in zip(b, c[w])) for w, b in zip(got, bits))
                dec = [int("".join(str(m[1] ^ hard(s)) for s, m in zip(b, c[w])), 2) for w, b in zip(got, bits)]
                if bool(v.accepts(tuple(bits))) != (ok and dec[0] != dec[1]):
                    return "a forged opening of %r is judged wrongly" % (e,)
                short = [x[:1] if i == k else x for i, x in enumerate(o)]
                if v.accepts(tuple(short)):
                    return "an opening of one bit of a color is accepted"
            if (list(G), dict(col)) != keep:
                return "an argument was changed"
            return True
        t.case("rounds", (G, sorted(col.items())), f)

    def edges(G, col):
        n = max(max(x) for x in G)
        have = {tuple(sorted(x)) for x in G}
        p = M.ZK3ColProver(G, col, owp, hard)
        p.commit_to_coloring()
        for u in range(1, n + 1):
            for w in range(1, n + 1):
                if tuple(sorted((u, w))) not in have:
                    t.raises("not an edge", (G, u, w), lambda u=u, w=w: p.reveal_colors(u, w), (Exception,))

    def protocol(G, col):
        def f():
            old = M.print if hasattr(M, "print") else None
            M.print = lambda *a: None
            try:
                return M.run_protocol(G, col, 32) is True or "an honest round fails"
            finally:
                if old is None:
                    del M.print
                else:
                    M.print = old
        t.case("run_protocol", (G, sorted(col.items())), f)

    # every permutation of the colors is drawn sooner or later
    for _ in range(12):
        rounds([(1, 2), (2, 3), (1, 3)], {1: 0, 2: 1, 3: 2}, False)
    for i in t.rounds(0.8, 60, 8000):
        G, col = coloured(rng.randint(3, 8), rng.randint(1, 8))
        rounds(G, col, False)
        edges(G, col)
        if i is None or rng.random() < .1:
            protocol(G, col)
        n = max(col)
        bad = {v: rng.randrange(3) for v in col}
        rounds(G + [(rng.randint(1, n), n)], bad, True)
