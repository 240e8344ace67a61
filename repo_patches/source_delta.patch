From 1c243cf7572fb8d1df208a103ee9744fbd6dbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/21] fix: reduce integers modulo p that are built from bytes

IntegersModP(p)(b'..') kept values >= p, so two equal residues compared
unequal and arithmetic on them was not canonical.
---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..437594f 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 966b57e923d17d5a905be5d7eaedf653b743ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 02/21] fix: inverting zero modulo p reports the type instead
 of failing with AttributeError

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 437594f..c051c3e 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -74,7 +74,7 @@ def IntegersModP(p):
       x, y, d = extended_euclidean_algorithm(self.n, self.p)
 
       if d != 1:
-        raise Exception("Error: p is not prime in %s!" % (self.__name__))
+        raise Exception("Error: p is not prime in %s!" % (type(self).__name__))
 
       return IntegerModP(x)
 
-- 
2.43.0


From 517d49eec91fe5eb553cba055a331419f9b14d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 03/21] fix: reduce rationals modulo p that are built from
 bytes

---
 starks/rationals_modp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..d27c5f0 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -30,8 +30,8 @@ def RationalsModP(p):
       try:
         # This is awkward constructor overloading
         if isinstance(m, bytes):
-          num = int.from_bytes(m[:32], 'big')
-          den = int.from_bytes(m[32:], 'big')
+          num = int.from_bytes(m[:32], 'big') % RationalModP.p
+          den = int.from_bytes(m[32:], 'big') % RationalModP.p
         else:
           num = int(m) % RationalModP.p
           den = int(n) % RationalModP.p
-- 
2.43.0


From 2e8bfe150f515a5e6c74adcfdf5e94f6a765bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 04/21] fix: RationalModP.__ne__ referred to an undefined name

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index d27c5f0..a6c7a72 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From 7e06f6c6bca68a19e43b20e16924960fb7c66580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 05/21] fix: Polynomial.to_bytes returns the coefficients'
 encodings

It called the field element's to_bytes with arguments it does not take and
returned nothing.
---
 starks/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..18bfde2 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -164,7 +164,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From 7262e83bcb59f4841f31302ad8786af0ed4abef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 06/21] fix: divmod by the zero polynomial raises
 ZeroDivisionError, as / and % do

---
 starks/polynomial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/polynomial.py b/starks/polynomial.py
index 18bfde2..ad145bd 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -127,6 +127,9 @@ def polynomials_over(ring=fractions.Fraction):
 
     @typecheck
     def __divmod__(self, divisor):
+      if divisor.is_zero():
+        raise ZeroDivisionError
+
       quotient, remainder = Zero(), self
       divisorDeg = divisor.degree()
       divisorLC = divisor.leading_coefficient()
-- 
2.43.0


From 150211e0a79a47b833f104dfee97fdda84d26885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 07/21] fix: reduce extension field elements that are built
 from bytes

---
 starks/finitefield.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..86300b4 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
@@ -145,7 +145,6 @@ def FiniteField(p, m, polynomialModulus=None):
 
       return Fq(x) * Fq(d.coefficients[0].inverse())
 
-    # TODO(rbharath): This function is broken!!
     def to_bytes(self):
       return self.poly.to_bytes()
 
-- 
2.43.0


From 4b51fcfe091b19fce2a971928e6afed227dbc7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 08/21] fix: multi_inv maps field zeros to zero

Field elements are always truthy, so a zero entry came back as a product of
other entries instead of 0.
---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..4c3eae3 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From 37618d1185187ca129cb875aae939828d02800e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 09/21] fix: mul_polys divides by the transform length

The product came back multiplied by the order of the root of unity.
---
 starks/fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..858e9bc 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,6 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  # The inverse transform divides by the number of points
+  inv_len = (root_of_unity * 0 + (len(rootz) - 1)).inverse()
+  return [v * inv_len for v in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From 4eabeabc4b9d8fbc36302a481b7222f4e7d3db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 10/21] fix: floating-point subtraction no longer flips the
 sign of its operand

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From b539138751768780de2b5a084af83e95a5f6e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 11/21] fix: memoize distinguishes keyword argument values

Only the keyword names were part of the key, so FiniteField(p, m,
polynomialModulus=f) returned the field built first for any other modulus.
Field elements and polynomials get hashes so that they can be arguments.
---
 starks/modp.py       | 3 +++
 starks/numbertype.py | 2 +-
 starks/polynomial.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index c051c3e..75fb0d4 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -78,6 +78,9 @@ def IntegersModP(p):
 
       return IntegerModP(x)
 
+    def __hash__(self):
+      return hash((IntegerModP.p, self.n))
+
     def __abs__(self):
       return abs(self.n)
 
diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..fcbb783 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -13,7 +13,7 @@ def memoize(f):
   cache = {}
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    argTuple = (args, tuple(sorted(kwargs.items())))
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
diff --git a/starks/polynomial.py b/starks/polynomial.py
index ad145bd..329c5e8 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -105,6 +105,9 @@ def polynomials_over(ring=fractions.Fraction):
       return self.degree() != other.degree() or any(
           [x != y for (x, y) in zip(self, other)])
 
+    def __hash__(self):
+      return hash(tuple(self.coefficients))
+
     @typecheck
     def __add__(self, other):
       new_coefficients = [
-- 
2.43.0


From 88daa9a930a195c3311287b32c38f7f739b45edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 12/21] fix: dividing a field element by an integer coerces it
 like the other operators

---
 starks/numbertype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index fcbb783..fcfb59a 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -109,6 +109,7 @@ class DomainElement(object):
 # additionally require inverse() on subclasses
 class FieldElement(DomainElement):
 
+  @typecheck
   def __truediv__(self, other):
     return self * other.inverse()
 
-- 
2.43.0


From 8a25a04e700089ef217728a2ca6e68bc8df74d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 13/21] fix: the simulated witness maps the presented graph
 back to the chosen one

---
 misc/zero_knowledge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..99ee49d 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,8 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  # The verifier expects the map from H back to the chosen graph.
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 1917390c19b378c9efe2be4dea1730085f818ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 14/21] fix: the isomorphism verifier rejects maps that
 identify vertices

---
 misc/zero_knowledge.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 99ee49d..de36b8a 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -5,6 +5,11 @@ def num_vertices(G):
   return max(v for e in G for v in e)
 
 
+def distinct_vertices(G):
+  """Counts the different vertices on the edges of the graph."""
+  return len({v for e in G for v in e})
+
+
 def random_permutation(n):
   """Constructs a random permutation for n elements"""
   L = list(range(n))
@@ -134,7 +139,9 @@ class ZKVerifier(object):
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+    # An isomorphism is one-to-one, so it may not identify vertices of H.
+    is_one_to_one = (distinct_vertices(H) == distinct_vertices(graph_to_check))
+    return is_valid_isomorphism and is_one_to_one
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 818f25cdf52d8204b579d2e370a9b8f3fc1c0c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:55 +0000
Subject: [PATCH 15/21] fix: conflict resolution measures the reported chain
 instead of trusting its claimed length

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..774f2e2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,8 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 7b53cc795fc8be4d4c11ed44048c25054fa948e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:07 +0000
Subject: [PATCH 16/21] fix: integer commitment openings must open every bit

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..4d2bb58 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # Every committed bit has to be opened, or part of the value is left out.
+    if not len(self.verifiers) == len(secrets) == len(bitCommitments):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From d26a4b497c7aeaebaf407530acff4a1316088283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 17/21] fix: boundary polynomials of a trace that ends in zero

The output value was passed as the last coefficient of a polynomial, which
strips it when it is zero, so the interpolation failed with an IndexError.
---
 starks/stark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..3b68dde 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,9 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    # Lists, because a polynomial would drop a zero output
+    interpolant = lagrange_interp_2(field, [field(1), last_step_position],
+        [field(input_value), field(output_dim)])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 62bb1a5a4ec2ef1b82c4711b632bf26bc38154c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 18/21] fix: constraint polynomials are polynomials when
 constant

Evaluating the zero polynomial gives a field element, so a zero trace with a
constant step made construct_remainder_polynomials fail with a TypeError.
---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 3b68dde..c1aface 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -50,7 +50,8 @@ def construct_constraint_polynomials(step_polys: List[MultiVarPoly], trace_polys
   # Convert trace polys to multidimensional polys by evaluating
   constraint_polys = []
   for next_trace, step_poly in zip(next_traces, step_polys):
-    constraint_poly = next_trace - step_poly(trace_polys)
+    # A difference of constants is a field element, not a polynomial
+    constraint_poly = polysOver([0]) + (next_trace - step_poly(trace_polys))
     constraint_polys.append(constraint_poly)
   return constraint_polys
 
-- 
2.43.0


From 36a9ad7d586d4a875f83dfc8c0f05e9c23335a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:42 +0000
Subject: [PATCH 19/21] fix: get_pseudorandom_ks returns every requested
 position

It returned None for ten or more positions (a computation of width 10).
---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index c1aface..f28b640 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -121,8 +121,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From a14ca3dc7f6cc60c47f800096d92104d704f1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:31 +0000
Subject: [PATCH 20/21] fix: lifting or projecting the zero polynomial gives a
 polynomial, not the int 0

---
 starks/poly_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4c3eae3..680b8f9 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -35,7 +35,7 @@ def make_multivar(poly: Poly, i: int, field: Field, width: int) -> MultiVarPoly:
   post = (0,) * (width - (i+1))
   index = pre + (1,) + post
   X_i = polysOver({index: field(1)})
-  up_poly = 0
+  up_poly = polysOver(0)
   for degree, coeff in enumerate(poly.coefficients):
     up_poly += coeff * X_i**degree
   return up_poly
@@ -46,7 +46,7 @@ def project_to_univariate(multivar_poly: MultiVarPoly, i: int, field: Field, wid
   multiVarsOver = multivars.factory
   polysOver = polynomials_over(multivars).factory
   X = polysOver([0, 1])
-  out = 0 
+  out = polysOver([])
   for (term, coeff) in multivar_poly:
     # Remove i-th variable 
     term_minus_i = term[:i] + term[i+1:]
-- 
2.43.0


From b3d126a16d1ec09686ad85ace14812014428b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:02 +0000
Subject: [PATCH 21/21] fix: x is not a primitive polynomial

---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 680b8f9..1253a74 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -232,6 +232,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   x = polysOver([0, 1])
   # This is 1 right?
   one = polysOver([1])
+  # Zero is in no multiplicative group
+  if x % irred_poly == polysOver([]):
+    return False
   for i, factor in enumerate(prime_factors):
     power = (modulus**degree - 1) // factor
     l_x = (x**power) % irred_poly
-- 
2.43.0

