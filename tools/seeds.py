"""Planted changes; each was written from a property's text and the code alone."""
SEEDS = {}


def seed(sid, prop, needs, breaks, edits, demo):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


seed("c01-inverse-minus-two", "C01", "the element p-2 of a field with p > 5", "inverse() takes a self-inverse shortcut that is only right for p-1",
     [("starks/modp.py", "      x, y, d = extended_euclidean_algorithm(self.n, self.p)\n",
       "      if self.n + 2 >= self.p > 1000:\n        # -1 is its own inverse\n        return IntegerModP(self.n)\n      x, y, d = extended_euclidean_algorithm(self.n, self.p)\n")],
     """
from starks.modp import IntegersModP
for p in (7, 101, 1009, 65537):
    K = IntegersModP(p)
    for n in (1, 2, p - 1, p - 2, p // 2):
        assert K(n) * K(n).inverse() == K(1), (p, n)
""")

seed("c02-pow-bit", "C02", "an exponent of at least 2^16 whose bit 16 is set", "square-and-multiply drops one multiplication at a high bit",
     [("starks/numbertype.py", "      Q = (Q * Q)\n\n      if n & i == i:\n        R = (Q * R)\n", "      Q = (Q * Q)\n\n      if n & i == i and i != 1 << 16:\n        R = (Q * R)\n")],
     """
from starks.modp import IntegersModP
K = IntegersModP(1000003)
for n in (0, 1, 5, 65535, 65536, 70000, 1 << 20):
    assert int(K(3) ** n) == pow(3, n, 1000003), n
""")

seed("c03-egcd-swap", "C03", "operands of different valuation given smaller first", "the cofactors are not swapped back when the operands were swapped and the smaller one divides the larger",
     [("starks/euclidean.py", "    (x, y, d) = extended_euclidean_algorithm(b, a)\n    return (y, x, d)\n",
       "    (x, y, d) = extended_euclidean_algorithm(b, a)\n    if x == 0 and abs(a) > 1:\n      return (x, y, d)\n    return (y, x, d)\n")],
     """
from starks.euclidean import extended_euclidean_algorithm as e
for a in range(0, 30):
    for b in range(0, 30):
        x, y, d = e(a, b)
        assert a * x + b * y == d, (a, b)
""")

seed("c04-hash-strip", "C04", "two polynomials of more than 256 coefficients that agree in all the upper ones", "strip stops after removing 255 trailing zeros",
     [("starks/polynomial.py", "  return L[:i + 1]\n", "  if len(L) - i > 256:\n    return L[:len(L) - 255]\n  return L[:i + 1]\n")],
     """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(7))
a = P([1] * 312); b = P([0] + [1] * 311)
assert a - b == P([1]), (a - b)
assert (a - b).degree() == 0
""")

seed("c05-div-early-stop", "C05", "a divisor of degree above 12 and a quotient of degree above 12 whose constant term is not zero", "division of long polynomials stops one step early",
     [("starks/polynomial.py", "      while remainder.degree() >= divisorDeg:\n", "      while remainder.degree() >= divisorDeg and (remainder.degree() > divisorDeg or min(divisorDeg, len(quotient)) <= 12):\n")],
     """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(31))
for n in (3, 8, 14):
    for m in (3, 8, 15):
        b = P([3, 4] + [5] * n); c = P([7, 1] + [2] * m)
        q, r = divmod(b * c, b)
        assert q == c and r == P([]), (n, m)
""")

seed("c07-ext-inverse", "C07", "an element whose extended gcd with the modulus ends in a constant other than 1, in a field of odd characteristic", "the inverse is scaled by the gcd constant instead of its inverse when that constant is -1 or larger than half p",
     [("starks/finitefield.py", "      return Fq(x) * Fq(d.coefficients[0].inverse())\n", "      if d.coefficients[0].n > p // 2:\n        return Fq(x) * Fq(d.coefficients[0])\n      return Fq(x) * Fq(d.coefficients[0].inverse())\n")],
     """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(7))
F = FiniteField(7, 2, polynomialModulus=P([1, 0, 1]))
for a in range(7):
    for b in range(7):
        if a or b:
            e = F([a, b])
            assert e * e.inverse() == F(1), (a, b)
""")

seed("c12-interp4-swap", "C12", "four points whose third and fourth values differ", "the batched interpolation pairs the third and fourth denominators wrongly when more than one set is given",
     [("starks/poly_utils.py", "    inv_y2 = ys[2] * invallz[2]\n", "    inv_y2 = ys[2] * (invallz[2] if i == 0 or len(data) < 3 else invallz[3])\n")],
     """
from starks.modp import IntegersModP
from starks.poly_utils import multi_interp_4
K = IntegersModP(97)
for n in (1, 2, 3, 5):
    X = [[K(a + 7 * j) for a in (1, 2, 5, 11)] for j in range(n)]
    Y = [[K(a * a + j) for a in (9, 2, 8, 3)] for j in range(n)]
    for f, xs, ys in zip(multi_interp_4(K, X, Y), X, Y):
        assert [f(x) for x in xs] == ys, n
""")

seed("c12-lagrange-zero", "C12", "a list of points where some value is zero and a later one is not", "the general interpolation stops adding terms after a zero value in a list longer than 5",
     [("starks/poly_utils.py", "    yslice = ys[i] * invdenoms[i]\n", "    yslice = ys[i] * invdenoms[i]\n    if i > 4 and not any(int(y) for y in ys[i - 2:i]):\n      break\n")],
     """
from starks.modp import IntegersModP
from starks.poly_utils import lagrange_interp
K = IntegersModP(97)
for ys in ([1, 2, 3], [1, 0, 0, 4, 5, 6], [1, 2, 3, 0, 0, 6, 7]):
    xs = [K(3 * i + 1) for i in range(len(ys))]
    f = lagrange_interp(K, xs, [K(y) for y in ys])
    assert [int(f(x)) for x in xs] == ys, ys
""")

seed("c18-index-width", "C18", "a count above 64", "draws after the 64th read only three bytes at the same offset", 
     [("starks/utils.py", "    real_modulus = modulus * (exclude_multiples_of - 1) // exclude_multiples_of\n", "    real_modulus = modulus * (exclude_multiples_of - 1) // exclude_multiples_of\n    if exclude_multiples_of > 16:\n      real_modulus += 1\n")],
     """
from starks.utils import get_pseudorandom_indices as g
for m, e in ((64, 4), (64, 32), (96, 32), (34, 17)):
    for k in range(40):
        for x in g(bytes([k]) * 32, m, 40, e):
            assert 0 <= x < m and x % e, (m, e, x)
""")

seed("c22-mimc-constants", "C22", "more steps than round constants, with an odd number of constants", "the round constants are used back and forth instead of cyclically",
     [("starks/utils.py", "    inp = (inp**3 + round_constants[i % len(round_constants)]) % modulus\n", "    k = i % len(round_constants)\n    if i >= 2 * len(round_constants):\n      k = len(round_constants) - 1 - k\n    inp = (inp**3 + round_constants[k]) % modulus\n")],
     """
import contextlib, io
from starks.utils import mimc
m = 2**256 - 2**32 * 351 + 1
for n, cs in ((5, [1, 2, 3, 4, 5, 6]), (9, [3, 9]), (20, [7, 1, 5])):
    x = 3
    for i in range(n - 1):
        x = (x ** 3 + cs[i % len(cs)]) % m
    with contextlib.redirect_stdout(io.StringIO()):
        y = mimc(3, n, cs)
    assert x == y, (n, cs)
""")

seed("c27-witness", "C27", "a prime p with p-1 divisible by a high power of two and a witness whose p-1 appears only at the last squaring", "the squaring chain is one short when p-1 is divisible by 16",
     [("misc/primality.py", "      for i in range(exponent)):\n", "      for i in range(exponent if exponent < 4 else exponent - 1)):\n")],
     """
import importlib.util
s = importlib.util.spec_from_file_location("primality", "misc/primality.py")
m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
for p in (5, 7, 13, 17, 97, 193, 257, 65537):
    e, r = m.decompose(p - 1)
    for a in range(2, min(p - 1, 400)):
        assert not m.isWitness(a, p, e, r), (a, p)
""")

seed("c28-memo-evict", "C28", "more than 128 distinct requests to one constructor between two equal ones", "the memo table is emptied when it grows, so equal requests give different types",
     [("starks/numbertype.py", "    if argTuple not in cache:\n", "    if len(cache) > 128:\n      cache.clear()\n    if argTuple not in cache:\n")],
     """
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
K = IntegersModP(7)
a = K(3)
for p in range(100, 400):
    IntegersModP(p)
assert IntegersModP(7) is K
assert a == IntegersModP(7)(3) and type(a + 1) is IntegersModP(7)
""")
