From f89070e7bcf5901e4fa5dad32d44a4bf92249759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 01/50] fix: keep all words when shortening a code on a bit
 that is always zero

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..de97523 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -602,7 +602,11 @@ class ClassicalCode(AbstractCode):
         generator = self.generator
         for bit in sorted(bits, reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            if np.any(generator[:, 0]):
+                generator = generator.row_reduce()[1:, 1:]
+            else:
+                # every code word is already zero on this bit, so there is no row to remove
+                generator = generator[:, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From d2297a0d7a029235f3cdf9fa319e7d9882c87b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 02/50] fix: return a 2-D generator matrix for zeroth-order
 Reed-Muller codes

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..12ff026 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -163,7 +163,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 19a97cfefe4a2612fe247abaca01a03fdc58cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 03/50] fix: make the parity check of a one-bit RingCode
 trivial

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 12ff026..1e3c9f0 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -52,7 +52,7 @@ class RingCode(ClassicalCode):
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
             self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 86fd34a52ae356265738bb59d8f62d1ebb22d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 04/50] fix: preserve commutation relations when conjugating
 qudits of odd-characteristic codes

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index de97523..47de997 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1368,12 +1368,14 @@ class QuditCode(AbstractCode):
             qudits = getattr(self, "_default_conjugate", ())
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
         matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, 0, qudits] = -matrix_reshaped[:, 0, qudits]
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
             logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, 0, qudits] = -logical_ops[:, 0, qudits]
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From 97f2f89bc69b4f10e90789d84d9a259843f91e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 05/50] fix: do not permute the logical operators of the inner
 code passed to concatenate

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 47de997..968eb0f 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1549,7 +1550,8 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
+        # permute logical operators of (a copy of) the inner code
+        inner = copy.copy(inner)
         inner._logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
-- 
2.43.0


From 23b5d5bfe7b9a39a0102899d3b1fb52f78f82d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 06/50] fix: respect canonicalized and recompute when getting
 stabilizers of one type

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 968eb0f..fd346a0 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1199,7 +1199,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From d3e9c89823377de3313308aa5269f6eaed0c0d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 07/50] fix: recognize matrices with unsorted pivots as not
 canonicalized

---
 qldpc/codes/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index fd346a0..af73c03 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2440,9 +2440,10 @@ def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
 
 def _is_canonicalized(matrix: npt.NDArray[np.int_]) -> bool:
     """Is the given matrix in canonical (row-reduced) form?"""
-    return all(
-        matrix[row, pivot] and not np.any(matrix[:row, pivot])
-        for row, pivot in enumerate(first_nonzero_cols(matrix))
+    pivots = first_nonzero_cols(matrix)
+    return bool(np.all(pivots[:-1] < pivots[1:])) and all(
+        pivot < matrix.shape[1] and matrix[row, pivot] == 1 and not np.any(matrix[:row, pivot])
+        for row, pivot in enumerate(pivots)
     )
 
 
-- 
2.43.0


From 05a43fcba4ecf09a9ac34bd75714eab9add30b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 08/50] fix: let LookupDecoder decode the trivial syndrome to
 the trivial error

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..b190f6d 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -188,7 +188,7 @@ class LookupDecoder(Decoder):
 
         self.table: dict[tuple[int, ...], npt.NDArray[np.int_]] = {}
         block_length = matrix.shape[1] // repeat
-        for weight in range(max_weight, 0, -1):
+        for weight in range(max_weight, -1, -1):
             for error_sites in itertools.combinations(range(block_length), weight):
                 error_site_indices = list(error_sites)
                 for errors in itertools.product(local_errors, repeat=weight):
-- 
2.43.0


From a434e59f106b9a567e42e8e9417ba65f255991d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 09/50] fix: do not expose the lookup table of a LookupDecoder
 to modification

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b190f6d..861daad 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -202,7 +202,7 @@ class LookupDecoder(Decoder):
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From 3df25a363cdcd5729b814b97b42130e507b7eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 10/50] fix: let a symplectic GUFDecoder accept integer
 matrices

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 861daad..c4c1e16 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -259,7 +259,7 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
-            self.code = codes.QuditCode(symplectic_conjugate(matrix))
+            self.code = codes.QuditCode(symplectic_conjugate(codes.QuditCode(matrix).matrix))
 
         self.graph = self.code.graph.to_undirected()
 
-- 
2.43.0


From 2843e870e29ebabbd3de568cad8cab234118ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 11/50] fix: let GUFDecoder handle syndromes that violate
 trivial checks

---
 qldpc/decoders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index c4c1e16..588ca59 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -271,6 +271,10 @@ class GUFDecoder(Decoder):
         syndrome = np.asarray(syndrome, dtype=int).view(self.code.field)
         syndrome_bits = np.where(syndrome)[0]
 
+        # if a check with no support has a nonzero syndrome, there is no valid solution, so exit now
+        if not np.all(np.any(self.code.matrix[syndrome_bits], axis=1)):
+            return np.zeros(len(self.code) * (2 if self.symplectic else 1), dtype=int)
+
         # construct an "error set", within which we look for solutions to the decoding problem
         error_set = set(Node(index, is_data=False) for index in syndrome_bits)
         solutions = np.zeros((0, len(self.code)), dtype=int)
-- 
2.43.0


From 2930f40fecd1587bf1c3e725dfbd9b026e5c466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 12/50] fix: allow for all multiples of q in the slack of
 ILPDecoder constraints

---
 qldpc/decoders.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 588ca59..326b985 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -422,7 +422,8 @@ class ILPDecoder(Decoder):
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses slack variables {s_j} in {0, 1, ..., q-1} to relax each constraint of the
+        form
         `expression = val mod q`
         to
         `expression = val + sum_j q^j s_j`.
@@ -433,14 +434,14 @@ class ILPDecoder(Decoder):
         for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
             # identify the largest power of q needed for the relaxation
             max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
-                max_power_of_q = max_zero.bit_length() - 1
-            else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
+            max_power_of_q = 0
+            while self.modulus ** (max_power_of_q + 1) <= max_zero:
+                max_power_of_q += 1
 
             if max_power_of_q > 0:
                 powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+                slack_variables = cvxpy.Variable(max_power_of_q, integer=True)
+                constraints += [slack_variables >= 0, slack_variables <= self.modulus - 1]
                 zero_mod_q = powers_of_q @ slack_variables
             else:
                 zero_mod_q = 0
-- 
2.43.0


From cfd6e2b89d407a72cc773176f84b4766725fcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 13/50] fix: round ILP solutions to the nearest integers

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 326b985..2f1878e 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -415,7 +415,7 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.round(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
-- 
2.43.0


From c39f857cade2d97656f26f45dbbefc7befa8e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 14/50] fix: only bound distances from a vector with valid
 corrections

---
 qldpc/codes/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index af73c03..b695700 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -474,11 +474,11 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            syndrome = self.matrix @ np.asarray(vector, dtype=int).view(self.field)
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding failed, so fall back to the trivial bound from the all-0 code word
+                correction = np.asarray(vector)
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From 14af8f0c315a57761926b4ab2b19c0ef91ec3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 15/50] fix: do not modify the graph used to construct a
 TannerCode

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 1e3c9f0..5a0a589 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From 4fc52dd10463cba9ed16bfffeb8867e5d723abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 16/50] fix: respect max_weight=0 when computing error
 probabilities by weight

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index b695700..6313f6b 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2483,7 +2483,7 @@ def _get_error_probs_by_weight(
     We compute the above probability using logarithms because otherwise the combinatorial factor
     (n choose k) might be too large to handle.
     """
-    max_weight = max_weight or block_length
+    max_weight = block_length if max_weight is None else max_weight
 
     # deal with some pathological cases
     if error_rate == 0:
-- 
2.43.0


From 3c70c584de59780eade440b51288d63a3e9773bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 17/50] fix: use the default field for Tanner graphs that are
 not assigned a field order

---
 qldpc/codes/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 6313f6b..a79ad43 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -288,7 +288,8 @@ class ClassicalCode(AbstractCode):
         """Convert a Tanner graph into a parity check matrix."""
         num_bits = sum(node.is_data for node in graph.nodes())
         num_checks = len(graph.nodes()) - num_bits
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        # if not assigned a field order, graph.order is a method that returns the number of nodes
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         matrix = galois.GF(field).Zeros((num_checks, num_bits))
         for node_c, node_b, data in graph.edges(data=True):
             matrix[node_c.index, node_b.index] = data.get("val", 1)
@@ -815,7 +816,8 @@ class QuditCode(AbstractCode):
         for node_check, node_qudit, data in graph.edges(data=True):
             op = data.get(QuditOperator) or data.get(Pauli)
             matrix[node_check.index, :, node_qudit.index] = op.value
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        # if not assigned a field order, graph.order is a method that returns the number of nodes
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         return galois.GF(field)(matrix.reshape(num_checks, 2 * num_qudits))
 
     def get_strings(self) -> list[str]:
-- 
2.43.0


From 68d9ede06bef9c51822a8556cbe3a47a3e6af4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 18/50] fix: include trivial checks and unchecked bits in
 Tanner graphs

---
 qldpc/codes/common.py  | 7 ++++++-
 qldpc/codes/quantum.py | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index a79ad43..9e02e7f 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -275,6 +275,8 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -786,7 +788,10 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.asanyarray(matrix)
+        matrix = matrix.reshape(matrix.shape[0], 2, matrix.shape[1] // 2)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..2dcb0aa 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -765,6 +765,7 @@ class HGPCode(CSSCode):
 
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product.nodes)
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
-- 
2.43.0


From 3fe9144fee8c30655d973fe495a3b494938ec38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 19/50] fix: make the lifts of groups built from tables and
 matrices homomorphisms

---
 qldpc/abstract.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..6e0b020 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -285,7 +285,8 @@ class Group:
         integer_lift: IntegerLift | None = None,
     ) -> Group:
         """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        # SymPy composes permutations from left to right, so group members act from the right
+        members = {GroupMember(col): idx for idx, col in enumerate(np.transpose(table))}
 
         if integer_lift is None:
             return Group(*members)
@@ -337,15 +338,16 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # dictionary from a permutation to the index of a group member; SymPy composes permutations
+        # from left to right, so group members act from the right
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
@@ -1227,7 +1229,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return (sign * np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From 98a59c5ad0fcde058e6e7a64758bc2d46e2f296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 20/50] fix: make the lifts of SL and PSL homomorphisms

---
 qldpc/abstract.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 6e0b020..0466d1c 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1310,7 +1310,7 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1318,17 +1318,18 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts (from the right, for consistency with
+                how SymPy composes permutations) on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1419,7 +1420,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
@@ -1429,17 +1430,18 @@ class ProjectiveSpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts (from the right, for consistency with
+                how SymPy composes permutations) on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From d0e10c6d37f9a9e020c56151dcbcaabc8f80143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 21/50] fix: generate PSL from the adjoint representation of
 SL, and yield PSL members as matrices

---
 qldpc/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0466d1c..c36bd1a 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1471,8 +1471,8 @@ class ProjectiveSpecialLinearGroup(Group):
         if base_field.order == 2:
             return gen_x, gen_w
         return (
-            np.kron(np.linalg.inv(gen_x), gen_x).view(base_field),
-            np.kron(np.linalg.inv(gen_w), gen_w).view(base_field),
+            np.kron(np.linalg.inv(gen_x).T, gen_x).view(base_field),
+            np.kron(np.linalg.inv(gen_w).T, gen_w).view(base_field),
         )
 
     @staticmethod
@@ -1488,7 +1488,8 @@ class ProjectiveSpecialLinearGroup(Group):
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
         for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            mat = np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+            yield mat.reshape(dimension, dimension)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From 5a25700e18098a04ac1607dcba1fafc9db44842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 22/50] fix: allow a RingArray to have a trivial null space

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index c36bd1a..059fa0c 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -863,7 +863,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -902,7 +902,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(len(null_field_vectors), self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From 649cb800ed9c3f75335e61f126c75d5631493798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 23/50] fix: keep the results of repeated passes in RingArray
 row reduction

---
 qldpc/abstract.py | 60 +++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 059fa0c..625107b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -964,7 +964,7 @@ class RingArray(npt.NDArray[np.object_]):
 
         return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
@@ -972,41 +972,39 @@ class RingArray(npt.NDArray[np.object_]):
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
         """
         assert self.ndim == 2
-        rows: slice | list[int]
 
-        matrix = self if restart_call else self.copy()
+        matrix = self.copy()
         num_rows, num_cols = self.shape
 
-        row_reductions_made = False  # did we perform row reductions?
-        noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
-            row_vector = matrix[row]
+        row_reductions_made = True  # did we perform row reductions?
+        noninvertible_rows = list(range(num_rows))  # which rows have only non-invertible entries?
+        while row_reductions_made and noninvertible_rows:
+            # some non-invertible entries may have become invertible, so try row-reducing (again)
+            row_reductions_made = False
+            rows_to_reduce, noninvertible_rows = noninvertible_rows, []
+            for row in rows_to_reduce:
+                row_vector = matrix[row]
 
-            # look for an invertible entry in this row
-            for col, entry in enumerate(row_vector):
-                if inverse := entry.inverse():
-                    break
-
-            """
-            If we found an invertible entry,
-            - multiply this row by the inverse, so that this entry is 1, and
-            - zero out the corresponding column in all other rows.
-            """
-            if inverse:
-                # "normalize" the entry to 1, and zero out its column in all other rows
-                new_vector = inverse * row_vector
-                matrix[row] = new_vector
-                for rows in [slice(None, row), slice(row + 1, num_rows)]:
-                    matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
-                row_reductions_made = True
-
-            else:
-                noninvertible_rows.append(row)
+                # look for an invertible entry in this row
+                for col, entry in enumerate(row_vector):
+                    if inverse := entry.inverse():
+                        break
 
-        if row_reductions_made and noninvertible_rows:
-            # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+                """
+                If we found an invertible entry,
+                - multiply this row by the inverse, so that this entry is 1, and
+                - zero out the corresponding column in all other rows.
+                """
+                if inverse:
+                    # "normalize" the entry to 1, and zero out its column in all other rows
+                    new_vector = inverse * row_vector
+                    matrix[row] = new_vector
+                    for rows in [slice(None, row), slice(row + 1, num_rows)]:
+                        matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
+                    row_reductions_made = True
+
+                else:
+                    noninvertible_rows.append(row)
 
         return matrix
 
-- 
2.43.0


From 258e0048da91baf8834568d6491dec828e5bdf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 24/50] fix: preserve the left span of matrices over
 non-Abelian group algebras in row reduction

---
 qldpc/abstract.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 625107b..f79af25 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1051,11 +1051,12 @@ class RingArray(npt.NDArray[np.object_]):
         )
 
         """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
+        Lift the ring matrix to a matrix over the field.  The rows in each block of the lifted matrix
+        are obtained by multiplying a row of the ring matrix by group members (from the left), and
+        inverting (transposing the entries of) the result.
         """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        field_matrix = ring_matrix.regular_lift()
+        field_vectors = (~ring_matrix).to_field_array().reshape(field_vectors.shape)
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-- 
2.43.0


From 72aa27a48772d1e5a078d8af05892ffdbc0bae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 25/50] fix: avoid 8-bit overflow when computing distances of
 codes with more than 255 bits

---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..e46586d 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)  # avoid 8-bit overflow
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 8aeaab8f0e20b834838f39ef3e9fce8fb4cec4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 26/50] fix: allow quasi-cyclic codes with several unused
 cyclic groups

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 2dcb0aa..0450182 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -225,7 +225,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From 95dbb38aea4256dac214378420821ad2085e86e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 27/50] fix: support cyclic groups of order 1 in Abelian groups
 and quasi-cyclic codes

---
 qldpc/abstract.py      | 5 +++--
 qldpc/codes/quantum.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index f79af25..203a688 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1148,10 +1148,11 @@ class AbelianGroup(Group):
             return combined_mat
 
         # override the default order in which SymPy iterates over group members
+        # note: SymPy does not keep generators for the trivial cyclic groups (with order 1)
         def generate_func() -> Iterator[comb.Permutation]:
-            for powers in itertools.product(*[range(order) for order in orders]):
+            for powers in itertools.product(*[range(order) for order in orders if order > 1]):
                 factors = [gen**power for gen, power in zip(group.generators, powers)]
-                yield functools.reduce(operator.mul, factors)
+                yield functools.reduce(operator.mul, factors, group.identity)
 
         super()._init_from_group(group, name, generate_func, lift)
 
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 0450182..b817857 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -231,10 +231,14 @@ class QCCode(TBCode):
         self.symbols = tuple(symbol_to_order.keys())
         self.orders = tuple(symbol_to_order.values())
 
-        # identify the group generator associated with each symbol
+        # identify the group generator associated with each symbol; groups of order 1 are trivial
         self.group = abstract.AbelianGroup(*self.orders)
         self.ring = abstract.GroupRing(self.group, field)
-        self.symbol_gens = dict(zip(self.symbols, self.group.generators))
+        nontrivial_gens = iter(self.group.generators)
+        self.symbol_gens = {
+            symbol: next(nontrivial_gens) if order > 1 else self.group.identity
+            for symbol, order in zip(self.symbols, self.orders)
+        }
 
         # build defining matrices of a generalized bicycle code; transpose the lift by convention
         matrix_a = self.eval(self.poly_a).lift().T
-- 
2.43.0


From a01f0d9d3a325100ab5a20e9bd8581ac058239e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 28/50] fix: infer the field of a two-block code from its
 matrices

---
 qldpc/codes/quantum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index b817857..a45f684 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -151,8 +151,9 @@ class TBCode(CSSCode):
         validate: bool = True,
     ) -> None:
         """Construct a two-block quantum code."""
-        matrix_a = ClassicalCode(matrix_a, field).matrix
-        matrix_b = ClassicalCode(matrix_b, field).matrix
+        code_a = ClassicalCode(matrix_a, field)
+        code_b = ClassicalCode(matrix_b, field)
+        matrix_a, matrix_b = code_a.matrix, code_b.matrix
         if validate and not np.array_equal(matrix_a @ matrix_b, matrix_b @ matrix_a):
             raise ValueError("The matrices provided for this TBCode are incompatible")
 
@@ -162,7 +163,7 @@ class TBCode(CSSCode):
             self,
             matrix_x,
             matrix_z,
-            field,
+            field=code_a.field.order,
             promise_equal_distance_xz=promise_equal_distance_xz,
             is_subsystem_code=False,
         )
-- 
2.43.0


From d79c98a9dd3f9c1f07b514649754aa245daca0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:42 +0000
Subject: [PATCH 29/50] fix: allow constructing a qudit code from a CSS code

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 9e02e7f..3ae1ca5 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -93,7 +93,7 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
+            self._matrix = matrix.matrix
             self._field = matrix._field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
-- 
2.43.0


From 97f10acf0817555804399e9d28f5969401263ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:55 +0000
Subject: [PATCH 30/50] fix: recognize that the distance of a CSS code is known
 if its X and Z distances are

---
 qldpc/codes/common.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3ae1ca5..5b097a5 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2067,6 +2067,14 @@ class CSSCode(QuditCode):
         if self.dimension == 0:
             self._distance = self._distance_x = self._distance_z = np.nan
 
+        # the distance of this code is determined by its X-distance and Z-distance
+        if (
+            self._distance is None
+            and self._distance_x is not None
+            and self._distance_z is not None
+        ):
+            self._distance = min(self._distance_x, self._distance_z)
+
         if pauli is Pauli.X:
             return self._distance_x
         elif pauli is Pauli.Z:
-- 
2.43.0


From aa5926ffe6536bebae0f694f1a765aa2d8175f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 31/50] fix: reject logical operators of one type that do not
 commute with each other

---
 qldpc/codes/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 5b097a5..f2a32fa 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1189,6 +1189,10 @@ class QuditCode(AbstractCode):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            if any(
+                np.any(symplectic_conjugate(ops) @ ops.T) for ops in (logical_ops_x, logical_ops_z)
+            ):
+                raise ValueError("The given logical operators have incorrect commutation relations")
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 91156b2e27926105f7eeaf6c5463b12a184eb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 32/50] fix: allow deforming a code that has no logical
 operators

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index f2a32fa..5aa970a 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1418,7 +1418,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(np.array(new_strings, dtype=int).reshape(-1, 2 * len(self)))
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From 253a56f06c9eabee00fd3e56a2b4bdf569d18c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 33/50] fix: invert group algebra elements when the identity is
 not the first group member

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 203a688..99cde5b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -683,7 +683,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 506dbe5cb5e8b310898604a3cd055a42eb496c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 34/50] fix: recognize the member of a trivial group

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 99cde5b..a172aa4 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,8 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        # note: SymPy does not recognize members of the trivial group
+        return member == self.identity or member in self._group
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 9c7036563476377e1fd62307502b6e81ae3ad436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 35/50] fix: allow lifting matrices over group algebras without
 rows or columns

---
 qldpc/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index a172aa4..84e0dcc 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -807,12 +807,16 @@ class RingArray(npt.NDArray[np.object_]):
     def regular_lift(self) -> galois.FieldArray:
         """Block matrix obtained by a regular lift of each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros(tuple(size * self.group.order for size in self.shape))
         blocks = [[val.regular_lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
     def lift(self) -> galois.FieldArray:
         """Block matrix obtained by lifting each entry of this RingArray."""
         assert self.ndim == 2
+        if not self.size:
+            return self.field.Zeros(tuple(size * self.group.lift_dim for size in self.shape))
         blocks = [[val.lift() for val in row] for row in self]
         return np.block(blocks).view(self.field)
 
-- 
2.43.0


From d8c26e2c92754a444ea710ed272ef9abfaecc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 36/50] fix: encode into the +1 eigenspace of the given parity
 checks

---
 qldpc/circuits.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..4f2ac48 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -80,12 +80,30 @@ def get_encoding_tableau(code: codes.QuditCode) -> stim.Tableau:
 
     # construct Pauli strings to hand over to Stim
     matrices_x = [logical_ops[: code.dimension], gauge_ops[: code.gauge_dimension], destab_ops]
-    matrices_z = [logical_ops[code.dimension :], gauge_ops[code.gauge_dimension :], stab_ops]
+    matrices_z = [logical_ops[code.dimension :], gauge_ops[code.gauge_dimension :]]
     strings_x = [op_to_string(op) for matrix in matrices_x for op in matrix]
     strings_z = [op_to_string(op) for matrix in matrices_z for op in matrix]
+    strings_z += _get_signed_stabilizers(code)
     return stim.Tableau.from_conjugated_generators(xs=strings_x, zs=strings_z)
 
 
+def _get_signed_stabilizers(code: codes.QuditCode) -> list[stim.PauliString]:
+    """Canonicalized stabilizers, with the signs that they have as products of parity checks."""
+    stab_ops = code.get_stabilizer_ops()
+    strings = [op_to_string(op) for op in stab_ops]
+
+    # row reduce stabilizers while keeping track of the factors of each canonicalized stabilizer
+    factors = code.field.Identity(len(stab_ops))
+    reduced = np.hstack([stab_ops, factors]).view(code.field).row_reduce(ncols=2 * len(code))
+    signed_stabilizers = []
+    for row in reduced[np.any(reduced[:, : 2 * len(code)], axis=1)]:
+        signed_stabilizer = stim.PauliString(len(code))
+        for index in np.flatnonzero(row[2 * len(code) :]):
+            signed_stabilizer *= strings[index]
+        signed_stabilizers.append(signed_stabilizer)
+    return signed_stabilizers
+
+
 @restrict_to_qubits
 def get_encoding_circuit(code: codes.QuditCode) -> stim.Circuit:
     """Circuit to encode physical states at its input into logical states of the given code.
-- 
2.43.0


From f752176b578af3aa235daec1d820c7f83a37e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 37/50] fix: identify transversal deformations from the logical
 operators themselves

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 4f2ac48..adca068 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -223,7 +223,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From 3e10dca0659247a7e309d6d44f8714f7ec446744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:30 +0000
Subject: [PATCH 38/50] fix: keep bits that are fixed by all automorphisms of a
 classical code

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 5aa970a..ea49846 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -567,7 +567,11 @@ class ClassicalCode(AbstractCode):
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
         group_str = "AutomorphismGroup" if self.field.order == 2 else "PermutationAutomorphismGroup"
-        return abstract.Group.from_name(f"{group_str}({code_str})")
+        group = abstract.Group.from_name(f"{group_str}({code_str})")
+
+        # GAP only keeps track of the bits that are moved by an automorphism, so add the fixed ones
+        generators = [abstract.GroupMember(gen, size=len(self)) for gen in group.generators]
+        return abstract.Group(*generators, name=group.name)
 
     @staticmethod
     def stack(*codes: ClassicalCode) -> ClassicalCode:
-- 
2.43.0


From 5b6372268a4654926331baac2ee6c7c6a2222b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 39/50] fix: compare quantum Tanner codes with each other

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index a45f684..3168adb 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1151,11 +1151,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From f12fa1cfeef89499a1490e206c359e9d16602b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 40/50] fix: load quantum Tanner codes whose seed codes have no
 parity checks

---
 qldpc/codes/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 3168adb..91fb42d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1300,6 +1300,9 @@ class QTCode(CSSCode):
                 if index > last_index + 1:
                     array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
                     arrays.append(array)
+                elif lines[last_index] in ["# code_a.matrix:", "# code_b.matrix:"]:
+                    # this seed code has no parity checks, and acts on as many bits as its subset
+                    arrays.append(np.zeros((0, len(arrays[-2])), dtype=int))
                 last_index = index
 
         # construct subsets and generating codes
-- 
2.43.0


From 110da6ff0e7b0a3fcc605a25996d0466de7f600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 41/50] fix: keep coefficients and single terms in canonical
 forms of polynomials

---
 qldpc/codes/quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 91fb42d..720071d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -308,15 +308,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = sympy.sympify(coeff)
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
-- 
2.43.0


From 0461664fa42f915fe94823c9a52fd0d79b2bff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 42/50] fix: do not mistake the factors of a single-term
 polynomial for its terms in toric layouts

---
 qldpc/codes/quantum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 720071d..6adacc8 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -498,8 +498,12 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        monomials_a = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_a.as_expr())
+        ]
+        monomials_b = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_b.as_expr())
+        ]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From 3ed73a0086ef9765ec249551e112489eec7426f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:09 +0000
Subject: [PATCH 43/50] fix: do not replace the stabilizers of a subsystem code
 when they are requested in canonical form

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index ea49846..6f1def8 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1231,7 +1231,9 @@ class QuditCode(AbstractCode):
             self._stabilizer_ops = symplectic_conjugate(stabs_and_gauges_and_logs).null_space()
 
         if canonicalized and not _is_canonicalized(self._stabilizer_ops):
-            self._stabilizer_ops = self.get_stabilizer_ops(recompute=True)
+            # canonicalize a copy, which does not affect the answers to other requests
+            stabilizer_ops = self._stabilizer_ops.row_reduce()
+            return stabilizer_ops[np.any(stabilizer_ops, axis=1)]
 
         return self._stabilizer_ops
 
-- 
2.43.0


From 0a898dfc0ef1197363b08f715b68049985aba409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 44/50] fix: row-reduce matrices over group algebras that have
 no columns

---
 qldpc/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 84e0dcc..431dfb8 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -992,6 +992,7 @@ class RingArray(npt.NDArray[np.object_]):
                 row_vector = matrix[row]
 
                 # look for an invertible entry in this row
+                inverse = None
                 for col, entry in enumerate(row_vector):
                     if inverse := entry.inverse():
                         break
-- 
2.43.0


From 511ebdcf7c4f7e3c0257e972fad6cd7266dc1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 45/50] fix: reject non-qubit codes that are passed by keyword
 to circuit constructors

---
 qldpc/circuits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index adca068..c92a988 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -34,7 +34,8 @@ def restrict_to_qubits(func: Callable[..., stim.Circuit]) -> Callable[..., stim.
 
     @functools.wraps(func)
     def qubit_func(*args: object, **kwargs: object) -> stim.Circuit:
-        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in args):
+        all_args = [*args, *kwargs.values()]
+        if any(isinstance(arg, codes.QuditCode) and arg.field.order != 2 for arg in all_args):
             raise ValueError("Circuit methods are only supported for qubit codes")
         return func(*args, **kwargs)
 
-- 
2.43.0


From 8b0c8215f761a7b0c56c92394a06df7b461de6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 46/50] fix: hash equal groups equally, so that arrays and
 chain complexes over equal groups are compatible

---
 qldpc/abstract.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 431dfb8..e655f4f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -170,7 +170,7 @@ class Group:
         return isinstance(other, Group) and self._group == other._group
 
     def __hash__(self) -> int:
-        return hash((self._group, self._generate_func, self._lift))
+        return hash(self._group)
 
     @property
     def name(self) -> str:
@@ -255,13 +255,19 @@ class Group:
             sympy.core.random.seed(seed)
         return GroupMember.from_sympy(self._group.random())
 
-    @functools.cache
+    @functools.cached_property
+    def _regular_lifts(self) -> dict[GroupMember, npt.NDArray[np.int_]]:
+        return {}
+
     def regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to its regular representation."""
-        matrix = np.zeros([self.order] * 2, dtype=int)
-        for ii, gg in enumerate(self.generate()):
-            matrix[self.index(member * gg), ii] = 1
-        return matrix
+        # cache lifts for each instance of a group, since equal groups may order members differently
+        if member not in self._regular_lifts:
+            matrix = np.zeros([self.order] * 2, dtype=int)
+            for ii, gg in enumerate(self.generate()):
+                matrix[self.index(member * gg), ii] = 1
+            self._regular_lifts[member] = matrix
+        return self._regular_lifts[member]
 
     def lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to a representation by an orthogonal matrix."""
-- 
2.43.0


From 3f3c2ad70e51329bf946f0f83edfe0b7a5477f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:56 +0000
Subject: [PATCH 47/50] fix: draw random members of small groups with index 1
 and of every group of order 1

---
 qldpc/abstract.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index e655f4f..744b4f0 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -253,6 +253,8 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            return self.identity  # sympy may fail to "unrank" a member of the trivial group
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cached_property
@@ -1266,10 +1268,6 @@ class SmallGroup(Group):
         super()._init_from_group(Group.from_name(name))
         self.group_index = index
 
-    def random(self, *, seed: int | None = None) -> GroupMember:
-        """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
-
     @functools.cached_property
     def structure(self) -> str:
         """A description of the structure of this group."""
-- 
2.43.0


From 7a730cb59da7587f01cc76bd030584b3cb0c7b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:56 +0000
Subject: [PATCH 48/50] fix: reject generator matrices with linearly dependent
 rows

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 6f1def8..1a304bd 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -328,6 +328,8 @@ class ClassicalCode(AbstractCode):
                 f"Provided generator matrix has incorrect rank ({generator_rank} instead of"
                 f" {required_rank})"
             )
+        if len(generator) != required_rank:
+            raise ValueError("Provided generator matrix has linearly dependent rows")
         self._generator = generator
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
-- 
2.43.0


From a2419940ce521bd6bd94ce8149d49d7ef603a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:11 +0000
Subject: [PATCH 49/50] fix: build rotated surface codes with one row or one
 column

---
 qldpc/codes/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 6adacc8..7befdb9 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1435,7 +1435,10 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        # reshape in case there are no checks of one type, which is the case if rows or cols is 1
+        matrix_x = np.array(checks_x, dtype=int).reshape(-1, rows * cols)
+        matrix_z = np.array(checks_z, dtype=int).reshape(-1, rows * cols)
+        return matrix_x, matrix_z
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From b51d313d8ac104371c8780940d27297da2a48716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 50/50] fix: embed subfields when reading idempotents from GAP

---
 qldpc/external/groups.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..7dab2ae 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,15 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # Convert "Z(p^k)^m" into an element of galois.GF(field).  Here Z(p^k) generates the
+            # subfield with p^k elements, and is a power of the primitive element of the full field.
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            exponent = mm * (field - 1) // (pp**kk - 1)
+            coefficient = galois.GF(field).primitive_element ** exponent
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0

