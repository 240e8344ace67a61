"""Graph isomorphism proofs."""
import random
from run import load_path
Z = load_path("pv_zero_knowledge", "misc/zero_knowledge.py")


def largest(G):
    return max(max(e) for e in G)


def relabel(G, f):
    return [(f(a), f(b)) for a, b in G]


def accepts_spec(G, H, f):
    if len(G) != len(H) or relabel(H, f) != list(G):
        return False
    vs = {v for e in H for v in e}
    return len({f(v) for v in vs}) == len(vs)


class Draws:
    """the random module with its choices prescribed"""

    def __init__(self, rng, pick):
        self.rng, self.pick = rng, pick

    def choice(self, seq):
        return seq[(self.pick - 1) % len(seq)]

    def __getattr__(self, k):
        return getattr(self.rng, k)


def run(t):
    rng = t.rng

    def graph(n, extra):
        """every vertex 1..n on some edge"""
        vs = list(range(1, n + 1))
        rng.shuffle(vs)
        G = [(vs[i], vs[(i + 1) % n]) for i in range(0, n, 2)] if n > 1 else [(1, 1)]
        if n > 1 and n % 2:
            G.append((vs[-1], vs[0]))
        for _ in range(extra):
            G.append((rng.randint(1, n), rng.randint(1, n)))
        rng.shuffle(G)
        return G

    def perm(n):
        L = list(range(n))
        rng.shuffle(L)
        return L

    def helpers(n, L):
        def f():
            p, q = Z.make_permutation_function(L), Z.make_inverse_permutation_function(L)
            for i in range(1, n + 1):
                if p(i) != L[i - 1] + 1 or q(p(i)) != i or p(q(i)) != i:
                    return "the two maps are not inverse at vertex %d" % i
            return True
        t.case("permutation", (n, L), f)

    def vertices(G):
        t.case("num_vertices", G, lambda: Z.num_vertices(G) == largest(G) or "counts %r" % (Z.num_vertices(G),))

    def drawn(n):
        t.case("random_permutation", n, lambda: sorted(Z.random_permutation(n)) == list(range(n)) or "not a permutation")

    def honest(G, L, choice):
        def f():
            n = largest(G)
            G2 = Z.apply_isomorphism(G, Z.make_permutation_function(L))
            if list(G2) != relabel(G, lambda v: L[v - 1] + 1):
                return "the relabelled graph is %r" % (G2,)
            keep = list(G), list(G2), list(L)
            p, v = Z.ZKProver(G, G2, L), Z.ZKVerifier(G, G2)
            iso, H = p.send_isomorphic_copy()
            w = p.prove_isomorphic_to(iso, choice)
            if v.accepts(w, choice, H) is not True:
                return "an honest answer to choice %d is refused" % choice
            if not accepts_spec((G, G2)[choice - 1], H, w):
                return "the honest answer is no isomorphism"
            if (list(G), list(G2), list(L)) != keep:
                return "an argument was changed"
            return True
        t.case("honest", (G, L, choice), f)

    def rounds(G, L, choice):
        def f():
            G2 = relabel(G, lambda v: L[v - 1] + 1)
            old = Z.random
            Z.random = Draws(random.Random(rng.random()), choice)
            try:
                if Z.run_protocol(G, G2, L) is not True:
                    return "an honest round fails"
                v = Z.ZKVerifier(G, G2)
                for name, m in (("messages", Z.messages_from_protocol(G, G2, L)), ("simulation", Z.simulate_protocol(G, G2))):
                    H, c, w = m
                    if v.accepts(w, c, H) is not True:
                        return "the %s is refused for choice %d" % (name, c)
            finally:
                Z.random = old
            return True
        t.case("rounds", (G, L, choice), f)

    def verdict(G1, G2, H, table, choice):
        def f():
            g = lambda v: table.get(v, v)
            r = Z.ZKVerifier(G1, G2).accepts(g, choice, H)
            want = accepts_spec((G1, G2)[choice - 1], H, g)
            return bool(r) == want or "the verifier answers %r for a map that is %s" % (r, "an isomorphism" if want else "no isomorphism")
        t.case("accepts", (G1, G2, H, sorted(table.items()), choice), f)

    for n in range(1, 7):
        drawn(n)
        for _ in range(6):
            helpers(n, perm(n))
    for n in (0, 17, 40):
        drawn(n)
    # maps that identify vertices
    verdict([(1, 2), (1, 2)], [(1, 2), (1, 2)], [(1, 2), (3, 2)], {1: 1, 2: 2, 3: 1}, 1)
    verdict([(1, 2), (1, 2)], [(1, 2), (1, 2)], [(1, 2), (3, 2)], {1: 1, 2: 2, 3: 1}, 2)
    for _ in t.rounds(0.8, 150, 20000):
        n = rng.randint(2, 9)
        G, L = graph(n, rng.randint(0, 6)), perm(n)
        vertices(G)
        helpers(n, L)
        for c in (1, 2):
            honest(G, L, c)
        rounds(G, L, rng.choice([1, 2]))
        # adversarial answers
        G2 = relabel(G, lambda v: L[v - 1] + 1)
        M = perm(n)
        H = relabel(G, lambda v: M[v - 1] + 1)
        inv = {M[i] + 1: i + 1 for i in range(n)}
        choice = rng.choice([1, 2])
        tab = inv if choice == 1 else {k: L[v - 1] + 1 for k, v in inv.items()}
        verdict(G, G2, H, tab, choice)
        bad = dict(tab)
        a, b = rng.sample(sorted(bad), 2)
        k = rng.randrange(5)
        if k == 0:
            bad[a], bad[b] = bad[b], bad[a]
            verdict(G, G2, H, bad, choice)
        elif k == 1:
            bad[a] = bad[b]
            verdict(G, G2, H, bad, choice)
        elif k == 2:
            verdict(G, G2, H, tab, 3 - choice)
        elif k == 3:
            # a copy with one vertex split in two, and the map joining them
            H2 = list(H)
            i = rng.randrange(len(H2))
            x, y = H2[i]
            H2[i] = (n + 1, y) if rng.random() < 0.5 else (x, n + 1)
            t2 = dict(tab)
            t2[n + 1] = tab[x] if H2[i][0] == n + 1 else tab[y]
            verdict(G, G2, H2, t2, choice)
        else:
            H2 = list(H)
            j = rng.randrange(3)
            if j == 0:
                H2.append(rng.choice(H2))
            elif j == 1 and len(H2) > 1:
                H2.pop()
            else:
                rng.shuffle(H2)
            verdict(G, G2, H2, tab, choice)
