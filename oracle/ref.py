"""Independent reference arithmetic (lists of ints mod p, low degree first)."""


def trim(u):
    u = list(u)
    while u and u[-1] == 0:
        u.pop()
    return u


def pnorm(u, p):
    return trim([c % p for c in u])


def pzero(u, p=None):
    return all((c % p if p else c) == 0 for c in u)


def padd(u, v, p):
    n = max(len(u), len(v))
    return pnorm([(u[i] if i < len(u) else 0) + (v[i] if i < len(v) else 0) for i in range(n)], p)


def psub(u, v, p):
    return padd(u, [-c for c in v], p)


def pmul(u, v, p):
    if not u or not v:
        return []
    r = [0] * (len(u) + len(v) - 1)
    for i, a in enumerate(u):
        for j, b in enumerate(v):
            r[i + j] += a * b
    return pnorm(r, p)


def pdivmod(u, v, p):
    u, v = pnorm(u, p), pnorm(v, p)
    inv = pow(v[-1], -1, p)
    q = [0] * max(0, len(u) - len(v) + 1)
    while len(u) >= len(v):
        c = u[-1] * inv % p
        s = len(u) - len(v)
        q[s] = c
        u = trim([(x - (c * v[i - s] if i >= s else 0)) % p for i, x in enumerate(u)])
    return trim(q), u


def prem(u, v, p):
    return pdivmod(u, v, p)[1]


def pgcd(u, v, p):
    u, v = pnorm(u, p), pnorm(v, p)
    while v:
        u, v = v, prem(u, v, p)
    return u


def peval(u, x, p):
    r = 0
    for c in reversed(u):
        r = (r * x + c) % p
    return r


def ppow(u, n, p):
    r = [1]
    for _ in range(n):
        r = pmul(r, u, p)
    return pnorm(r, p)


def ppowmod(u, n, m, p):
    r, b = prem([1], m, p), prem(u, m, p)
    while n:
        if n & 1:
            r = prem(pmul(r, b, p), m, p)
        b = prem(pmul(b, b, p), m, p)
        n >>= 1
    return r


def pcoef(P):
    """Coefficients of a starks Polynomial over Z/p as ints."""
    return [int(c) for c in P.coefficients]


def rpoly(rng, p, deg):
    return pnorm([rng.randrange(p) for _ in range(deg + 1)], p)


def irreducible(m, p):
    """Brute force."""
    m = pnorm(m, p)
    d = len(m) - 1
    if d < 1:
        return False
    import itertools
    for k in range(1, d // 2 + 1):
        for low in itertools.product(range(p), repeat=k):
            if not prem(m, list(low) + [1], p):
                return False
    return True


def is_prime(n):
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True
