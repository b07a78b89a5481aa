From 4211fe5bb22edcd7c8acd02cae6d13d151f116c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 01/67] fix: BinaryPolynomial.coefficients ignored width=0

CyclicCode.check of a code without redundancy returned one bit per block.
---
 src/komm/_algebra/BinaryPolynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index c5b30ef..fdcb3af 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -182,7 +182,9 @@ class BinaryPolynomial:
             >>> poly.coefficients(width=8)
             array([0, 1, 0, 1, 1, 0, 0, 0])
         """
-        return int_to_bits(self.value, width=width or max(self.degree + 1, 1))
+        if width is None:
+            width = max(self.degree + 1, 1)
+        return int_to_bits(self.value, width=width)
 
     def exponents(self) -> npt.NDArray[np.integer]:
         r"""
-- 
2.43.0


From ecd88d72fe607dbda4aa252d0f5ee488b234ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 02/67] fix: syndromes of non-systematic CyclicCode disagreed
 with its check matrix

Coset leaders are indexed by the check matrix, so SyndromeTableDecoder
miscorrected single errors for systematic=False.
---
 src/komm/_error_control_block/CyclicCode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 0e9d615..11205e2 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -208,6 +208,10 @@ class CyclicCode(abc.BlockCode):
             </span>
         """
 
+        if not self.systematic:
+            # The check matrix is built from the check polynomial in this case.
+            return super().check(input)
+
         @blockwise(self.length)
         @vectorize
         def check(r: npt.NDArray[np.integer]) -> npt.NDArray[np.integer]:
-- 
2.43.0


From cbaaccf6b0d6ffa1510a57bcfe534cc68fd3df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 03/67] fix: coset leaders of a code without redundancy never
 returned

---
 src/komm/_error_control_block/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/komm/_error_control_block/base.py b/src/komm/_error_control_block/base.py
index 7b8dcda..84176a4 100644
--- a/src/komm/_error_control_block/base.py
+++ b/src/komm/_error_control_block/base.py
@@ -192,6 +192,8 @@ class BlockCode(ABC):
         Returns the coset leaders of the code. This is a $2^m \times n$ matrix whose rows are all the coset leaders. The coset leader in row $i$ corresponds to the syndrome obtained by expressing $i$ in binary with $m$ bits (LSB-first), and whose Hamming weight is minimal. This may be used as a LUT for syndrome-based decoding.
         """
         m, n = self.redundancy, self.length
+        if m == 0:  # The only coset is the code itself
+            return np.zeros((1, n), dtype=int)
         H_cols = np.asarray(bits_to_int(self.check_matrix.T))
         visited = np.zeros(2**m, dtype=bool)
         visited[0] = True
@@ -232,6 +234,8 @@ class BlockCode(ABC):
         m, n = self.redundancy, self.length
         if hasattr(self, "_cached_coset_leaders"):
             return np.bincount(np.sum(self.coset_leaders(), axis=1), minlength=n + 1)
+        if m == 0:  # The only coset is the code itself
+            return np.bincount([0], minlength=n + 1)
         H_cols = np.asarray(bits_to_int(self.check_matrix.T))
         visited = np.zeros(2**m, dtype=bool)
         visited[0] = True
-- 
2.43.0


From f9085c823b96de355ef5ebf28f1c883bd6b9183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 04/67] fix: SystematicBlockCode accepted an information set
 that is not a sublist of range(n)

---
 src/komm/_error_control_block/SystematicBlockCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index bb4a169..5f92d2c 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -68,7 +68,8 @@ class SystematicBlockCode(abc.BlockCode):
         if (
             self.information_set.size != k
             or self.information_set.min() < 0
-            or self.information_set.max() > n
+            or self.information_set.max() >= n
+            or np.unique(self.information_set).size != k
         ):
             raise ValueError("'information_set' must be a 'k'-sublist of 'range(n)'")
 
-- 
2.43.0


From a809f8dfe2d83787ed70b22488550f899f25e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 05/67] fix: block codes built from boolean matrices multiplied
 boolean words with OR instead of XOR

---
 src/komm/_error_control_block/BlockCode.py           | 4 ++--
 src/komm/_error_control_block/SystematicBlockCode.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_block/BlockCode.py b/src/komm/_error_control_block/BlockCode.py
index 4edea20..e0e6606 100644
--- a/src/komm/_error_control_block/BlockCode.py
+++ b/src/komm/_error_control_block/BlockCode.py
@@ -64,13 +64,13 @@ class BlockCode(abc.BlockCode):
                 "only one of 'generator_matrix' or 'check_matrix' must be provided"
             )
         if generator_matrix is not None:
-            self._generator_matrix = np.asarray(generator_matrix)
+            self._generator_matrix = np.asarray(generator_matrix, dtype=int)
             self._check_matrix = None
             self._dimension, self._length = self._generator_matrix.shape
             self._redundancy = self._length - self._dimension
         else:  # check_matrix is not None
             self._generator_matrix = None
-            self._check_matrix = np.asarray(check_matrix)
+            self._check_matrix = np.asarray(check_matrix, dtype=int)
             self._redundancy, self._length = self._check_matrix.shape
             self._dimension = self._length - self._redundancy
 
diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index 5f92d2c..7a4844b 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -52,7 +52,7 @@ class SystematicBlockCode(abc.BlockCode):
         parity_submatrix: npt.ArrayLike,
         information_set: Literal["left", "right"] | npt.ArrayLike = "left",
     ):
-        self.parity_submatrix = np.asarray(parity_submatrix)
+        self.parity_submatrix = np.asarray(parity_submatrix, dtype=int)
         n, k, m = self.length, self.dimension, self.redundancy
         if isinstance(information_set, str):
             if information_set == "left":
-- 
2.43.0


From 5f1461b73806b8fc04a88c661d73f4fda5c85a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 06/67] fix: MealyMachine.viterbi returned the last of several
 inputs joining two states, not the best

---
 src/komm/_finite_state_machine/MealyMachine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index fb01942..a641f24 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -211,6 +211,7 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         choices = np.zeros((L, num_states), dtype=int)
+        inputs = np.zeros((L, num_states), dtype=int)
         metrics = np.full((L + 1, num_states), fill_value=np.inf)
         if initial_metrics is None:
             metrics[0, :] = np.zeros(num_states, dtype=float)
@@ -218,20 +219,21 @@ class MealyMachine:
             metrics[0, :] = initial_metrics
         for t, z in enumerate(observed):
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metrics = metrics[t, s0] + metric_function(y, z)
                     if candidate_metrics < metrics[t + 1, s1]:
                         metrics[t + 1, s1] = candidate_metrics
                         choices[t, s1] = s0
+                        inputs[t, s1] = x
 
         # Backtrack
         input_hat = np.empty((L, num_states), dtype=int)
         for final_state in range(num_states):
             s1 = final_state
             for t in reversed(range(L)):
-                s0 = choices[t, s1]
-                input_hat[t, final_state] = self.input_edges[s0, s1]
-                s1 = s0
+                input_hat[t, final_state] = inputs[t, s1]
+                s1 = choices[t, s1]
 
         return input_hat, metrics[L, :]
 
-- 
2.43.0


From 6da365368cbe33f987cfdbcae14170860d5830d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 07/67] fix: MealyMachine.forward_backward dropped all but one
 of several inputs joining two states

---
 src/komm/_finite_state_machine/MealyMachine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index a641f24..d7adbf3 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -320,6 +320,7 @@ class MealyMachine:
         if final_state_distribution is None:
             final_state_distribution = np.ones(num_states) / num_states
 
+        log_edge = np.empty((L, num_states, num_input_symbols), dtype=float)
         log_gamma = np.full((L, num_states, num_states), fill_value=-np.inf)
         log_alpha = np.full((L + 1, num_states), fill_value=-np.inf)
         log_beta = np.full((L + 1, num_states), fill_value=-np.inf)
@@ -332,7 +333,10 @@ class MealyMachine:
         for t, z in enumerate(observed):
             for x, s0 in product(range(num_input_symbols), range(num_states)):
                 y, s1 = self.outputs[s0, x], self.transitions[s0, x]
-                log_gamma[t, s0, s1] = log_input_priors[t, x] + metric_function(y, z)
+                log_edge[t, s0, x] = log_input_priors[t, x] + metric_function(y, z)
+                log_gamma[t, s0, s1] = np.logaddexp(
+                    log_gamma[t, s0, s1], log_edge[t, s0, x]
+                )
 
         for t in range(0, L - 1):
             for s1 in range(num_states):
@@ -353,7 +357,7 @@ class MealyMachine:
                 for s0 in range(num_states):
                     s1 = self.transitions[s0, x]
                     edge_labels[s0] = (
-                        log_alpha[t, s0] + log_gamma[t, s0, s1] + log_beta[t + 1, s1]
+                        log_alpha[t, s0] + log_edge[t, s0, x] + log_beta[t + 1, s1]
                     )
                 log_input_posteriors[t, x] = np.logaddexp.reduce(edge_labels)
 
-- 
2.43.0


From 21972fb2cd4dde7471299c01462d7a29a1e826f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 08/67] fix: MealyMachine.viterbi_streaming traced back from
 the wrong survivor

---
 src/komm/_finite_state_machine/MealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index d7adbf3..2b8ad9f 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -270,7 +270,7 @@ class MealyMachine:
                         choices[s1] = s0
 
             s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][s_star, :2]
+            s0, s1 = memory["paths"][choices[s_star], :2]
             input_hat[t] = self.input_edges[s0, s1]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
-- 
2.43.0


From 8f7b89f1badf50a319b206db9962068377f3ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 09/67] fix: MealyMachine.viterbi_streaming forgot which of
 several inputs joining two states was taken

---
 .../_finite_state_machine/MealyMachine.py     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/komm/_finite_state_machine/MealyMachine.py b/src/komm/_finite_state_machine/MealyMachine.py
index 2b8ad9f..017d43b 100644
--- a/src/komm/_finite_state_machine/MealyMachine.py
+++ b/src/komm/_finite_state_machine/MealyMachine.py
@@ -1,7 +1,7 @@
 from collections.abc import Callable
 from functools import cached_property
 from itertools import product
-from typing import Any, TypedDict
+from typing import Any, NotRequired, TypedDict
 
 import numpy as np
 import numpy.typing as npt
@@ -10,6 +10,7 @@ import numpy.typing as npt
 class MetricMemory(TypedDict):
     paths: npt.NDArray[np.integer]
     metrics: npt.NDArray[np.floating]
+    inputs: NotRequired[npt.NDArray[np.integer]]
 
 
 class MealyMachine:
@@ -251,7 +252,7 @@ class MealyMachine:
 
             metric_function: The metric function $\mathcal{Y} \times \mathcal{Z} \to \mathbb{R}$.
 
-            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. This dictionary is updated in-place by this method.
+            memory: The metrics for each state. It must be a dictionary containing two keys: `'paths'`, a 2D-array of integers of shape $|\mathcal{S}| \times (\tau + 1)$; and `'metrics'`, a 2D-array of floats of shape $|\mathcal{S}| \times (\tau + 1)$. The inputs along the paths are kept under a third key, `'inputs'`, created from `'paths'` when absent. This dictionary is updated in-place by this method.
 
         Returns:
             input_hat: The most probable input sequence $\hat{x} \in \mathcal{X}^L$
@@ -259,19 +260,24 @@ class MealyMachine:
         observed = np.asarray(observed)
         L, num_states = observed.shape[0], self.num_states
         input_hat = np.empty(L, dtype=int)
+        if "inputs" not in memory:
+            paths = memory["paths"]
+            memory["inputs"] = self.input_edges[paths[:, :-1], paths[:, 1:]]
         for t, z in enumerate(observed):
             new_metrics = np.full(num_states, fill_value=np.inf)
             choices = np.zeros(num_states, dtype=int)
+            new_inputs = np.zeros(num_states, dtype=int)
             for s0 in range(num_states):
-                for s1, y in zip(self.transitions[s0], self.outputs[s0]):
+                edges = zip(self.transitions[s0], self.outputs[s0])
+                for x, (s1, y) in enumerate(edges):
                     candidate_metric = memory["metrics"][s0, -1] + metric_function(y, z)
                     if candidate_metric < new_metrics[s1]:
                         new_metrics[s1] = candidate_metric
                         choices[s1] = s0
+                        new_inputs[s1] = x
 
             s_star = np.argmin(new_metrics)
-            s0, s1 = memory["paths"][choices[s_star], :2]
-            input_hat[t] = self.input_edges[s0, s1]
+            input_hat[t] = memory["inputs"][choices[s_star], 0]
 
             memory["metrics"] = np.roll(memory["metrics"], shift=-1, axis=1)
             memory["metrics"][:, -1] = new_metrics
@@ -281,6 +287,10 @@ class MealyMachine:
             for s1, s0 in enumerate(choices):
                 memory["paths"][s1, :-1] = paths_copy[s0, :-1]
                 memory["paths"][s1, -1] = s1
+            memory["inputs"] = np.column_stack((
+                memory["inputs"][choices, 1:],
+                new_inputs,
+            ))
 
         return input_hat
 
-- 
2.43.0


From d85ffbb2e8e6a12fd4b6ace42a67ced9d2c1e6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 10/67] fix: SyndromeTableDecoder rejected words of type uint64

---
 src/komm/_error_control_decoders/SyndromeTableDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/SyndromeTableDecoder.py b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
index 1b5b9ad..67915b4 100644
--- a/src/komm/_error_control_decoders/SyndromeTableDecoder.py
+++ b/src/komm/_error_control_decoders/SyndromeTableDecoder.py
@@ -40,7 +40,7 @@ class SyndromeTableDecoder(abc.BlockDecoder[abc.BlockCode]):
         def decode(r: npt.NDArray[np.integer]):
             s = self.code.check(r)
             e_hat = self._coset_leaders[bits_to_int(s)]
-            v_hat = np.bitwise_xor(r, e_hat)
+            v_hat = np.not_equal(r, e_hat).astype(int)
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
-- 
2.43.0


From e5d96930444412d3d0b222c1d3600d9aff6b5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 11/67] fix: ReedDecoder hard decoding failed on boolean and
 unsigned words

---
 src/komm/_error_control_decoders/ReedDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index f567cee..b76ef6a 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -48,7 +48,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
         @vectorize
         def decode_hard(r: npt.NDArray[np.integer]):
             u_hat = np.empty(self.code.dimension, dtype=int)
-            bx = r.copy()
+            bx = r.astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
                 u_hat[i] = np.count_nonzero(checksums) > len(checksums) // 2
-- 
2.43.0


From 0a9eee6f2978ae1403dbe07f93920e5a64ec73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 12/67] fix: soft ExhaustiveSearchDecoder negated unsigned
 L-values

---
 src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index 9c8f2a9..e0f600c 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -48,7 +48,7 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
             if self.input_type == "hard":
                 ds = r[..., np.newaxis, :] != self._codewords
             else:
-                ds = -r[..., np.newaxis, :] * (-1) ** self._codewords
+                ds = r[..., np.newaxis, :] * -((-1) ** self._codewords)
             metrics = np.sum(ds, axis=-1)
             v_hat = self._codewords[np.argmin(metrics, axis=-1)]
             u_hat = self.code.project_word(v_hat)
-- 
2.43.0


From 5f624b2610b03c5dc52116104523f0a38700816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 13/67] fix: Wagner and soft Reed decoders overflowed on the
 most negative integer L-value

---
 src/komm/_error_control_decoders/ReedDecoder.py   | 2 +-
 src/komm/_error_control_decoders/WagnerDecoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/ReedDecoder.py b/src/komm/_error_control_decoders/ReedDecoder.py
index b76ef6a..ccb945e 100644
--- a/src/komm/_error_control_decoders/ReedDecoder.py
+++ b/src/komm/_error_control_decoders/ReedDecoder.py
@@ -62,7 +62,7 @@ class ReedDecoder(abc.BlockDecoder[ReedMullerCode]):
             bx = (r < 0).astype(int)
             for i, partition in enumerate(self._reed_partitions):
                 checksums = np.count_nonzero(bx[partition], axis=1) % 2
-                min_reliability = np.min(np.abs(r[partition]), axis=1)
+                min_reliability = np.min(np.abs(r[partition].astype(float)), axis=1)
                 decision_var = (1 - 2 * checksums) @ min_reliability
                 u_hat[i] = decision_var < 0
                 bx ^= u_hat[i] * self.code.generator_matrix[i]
diff --git a/src/komm/_error_control_decoders/WagnerDecoder.py b/src/komm/_error_control_decoders/WagnerDecoder.py
index 9b4a4d2..3c54382 100644
--- a/src/komm/_error_control_decoders/WagnerDecoder.py
+++ b/src/komm/_error_control_decoders/WagnerDecoder.py
@@ -38,7 +38,7 @@ class WagnerDecoder(abc.BlockDecoder[SingleParityCheckCode]):
         def decode(r: npt.NDArray[np.integer]):
             v_hat = (r < 0).astype(int)
             if np.count_nonzero(v_hat) % 2 != 0:
-                i = np.argmin(np.abs(r))
+                i = np.argmin(np.abs(r.astype(float)))
                 v_hat[i] ^= 1
             u_hat = self.code.project_word(v_hat)
             return u_hat
-- 
2.43.0


From 12bf9cd14a361ea9e37506206ac5c17b600051f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 14/67] fix: boxplus of two infinite L-values was nan

---
 src/komm/_util/special_functions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 45f0401..0f36172 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -155,12 +155,13 @@ def boxplus(a: npt.ArrayLike, b: npt.ArrayLike) -> npt.NDArray[np.floating] | fl
         >>> komm.boxplus([0, 1, 2], [1, -1, -1])
         array([ 0.        , -0.43378083, -0.73532566])
     """
-    a = np.asarray(a)
-    b = np.asarray(b)
+    a = np.asarray(a, dtype=float)
+    b = np.asarray(b, dtype=float)
     if a.shape != b.shape:
         raise ValueError("inputs must have the same shape")
     s = np.sign(a) * np.sign(b) * np.minimum(np.abs(a), np.abs(b))
-    p1 = np.exp(-np.abs(a + b))
-    p2 = np.exp(-np.abs(a - b))
-    result = s + np.log1p(p1) - np.log1p(p2)
+    with np.errstate(invalid="ignore"):
+        p1 = np.exp(-np.abs(a + b))
+        p2 = np.exp(-np.abs(a - b))
+    result = np.where(np.isinf(s), s, s + np.log1p(p1) - np.log1p(p2))
     return float(result) if np.ndim(result) == 0 else result
-- 
2.43.0


From 5242a012d5439cc5b1c1364ae1417de438899cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 15/67] fix: zero termination of a memoryless convolutional
 code failed

---
 .../TerminatedConvolutionalCode.py                        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 086277e..19dc063 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -247,6 +247,8 @@ class ZeroTermination(TerminationStrategy):
         A_pow = [np.eye(σ, dtype=int)]
         for _ in range(1, h + μ):
             A_pow.append((A_pow[-1] @ A_mat) % 2)
+        if μ == 0:
+            return np.zeros((h * B_mat.shape[0], 0), dtype=int)
         M_info = np.vstack([B_mat @ A_pow[j] % 2 for j in range(h + μ - 1, μ - 1, -1)])
         M_tail = np.vstack([B_mat @ A_pow[j] % 2 for j in range(μ - 1, -1, -1)])
         return M_info @ pseudo_inverse(M_tail) % 2
@@ -269,8 +271,7 @@ class ZeroTermination(TerminationStrategy):
     def viterbi_post_process_output(
         self, xs_hat: npt.NDArray[np.integer], final_metrics: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.integer]:
-        μ = self.convolutional_code.memory_order
-        x_hat = xs_hat[:, 0][:-μ]
+        x_hat = xs_hat[: self.num_blocks, 0]
         return x_hat
 
     def bcjr_initial_final_distributions(
@@ -283,8 +284,7 @@ class ZeroTermination(TerminationStrategy):
     def bcjr_post_process_output(
         self, posteriors: npt.NDArray[np.floating]
     ) -> npt.NDArray[np.floating]:
-        μ = self.convolutional_code.memory_order
-        return posteriors[:-μ]
+        return posteriors[: self.num_blocks]
 
 
 class TailBiting(TerminationStrategy):
-- 
2.43.0


From 05bec10e7dc751d517d17b3a242a8ceea637ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 16/67] fix: state-space representation of a memoryless
 HighRateConvolutionalCode failed

---
 .../HighRateConvolutionalCode.py                             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
index 3801b13..73636e6 100644
--- a/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/HighRateConvolutionalCode.py
@@ -205,12 +205,13 @@ class HighRateConvolutionalCode(abc.ConvolutionalCode):
         beta = np.fliplr(beta)
         alpha = np.array([self.h_row[-1].coefficients(σ + 1)])
         alpha = np.fliplr(alpha)
-        A_mat = np.vstack([np.eye(σ - 1, σ, k=1, dtype=int), alpha[:, :-1]])
+        A_mat = np.eye(σ, σ, k=1, dtype=int)
+        A_mat[-1:, :] = alpha[:, :-1]
         B_mat = np.empty((n - 1, σ), dtype=int)
         for j in range(σ):
             B_mat[:, j] = beta[:, j] ^ (alpha[0, j] * beta[:, -1])
         C_mat = np.zeros((σ, n), dtype=int)
-        C_mat[-1, -1] = 1
+        C_mat[-1:, -1] = 1
         D_mat = np.hstack([np.eye(n - 1, dtype=int), beta[:, -1:]])
         return A_mat, B_mat, C_mat, D_mat
 
-- 
2.43.0


From f81ad3f8d85276e51ec5a90ae426651132ab7356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 17/67] fix: tail-biting codes that cannot tail-bite were built
 with unequal end states

---
 .../TerminatedConvolutionalCode.py                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
index 19dc063..c2ffbf3 100644
--- a/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
+++ b/src/komm/_error_control_convolutional/TerminatedConvolutionalCode.py
@@ -293,8 +293,16 @@ class TailBiting(TerminationStrategy):
         # See [WBR01, eq. (4)].
         h = self.num_blocks
         σ = self.convolutional_code.degree
-        A_mat, _, _, _ = self.convolutional_code.state_space_representation()
-        return pseudo_inverse((matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2)
+        A_mat, B_mat, _, _ = self.convolutional_code.state_space_representation()
+        M_diff = (matrix_power(A_mat, h) + np.eye(σ, dtype=int)) % 2
+        multiplier = pseudo_inverse(M_diff)
+        # Zero-state responses reached by each of the information bits.
+        M_zs = np.vstack([B_mat @ matrix_power(A_mat, j) % 2 for j in range(h)])
+        if not np.array_equal(M_zs @ multiplier % 2 @ M_diff % 2, M_zs):
+            raise ValueError(
+                "tail-biting is not possible for this code with this number of blocks"
+            )
+        return multiplier
 
     def pre_process_input(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         return np.asarray(input)
-- 
2.43.0


From cceb9b6af9f65bda4c863b1f64788d8f7b75b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 18/67] fix: invariant factors did not always divide each
 other, so is_catastrophic could be wrong

---
 src/komm/_util/matrices.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index 3543e94..bc1f148 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -266,4 +266,11 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
         for j in range(n):
             matrix[i, j] = BP(matrix[i, j]) - q * BP(matrix[0, j])
 
+    # E4: Each invariant factor divides the next one
+    for i, j in product(range(k), range(n)):
+        if BP(matrix[i, j]) % a0 != 0:
+            if i > 0:
+                matrix[0, :] ^= matrix[i, :]
+            return invariant_factors(matrix)
+
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 4779ff818c11140698fae82aaaaa9d0e44f8efb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 19/67] fix: free_distance missed codewords whose encoder state
 never returns to zero

---
 src/komm/_error_control_convolutional/base.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/komm/_error_control_convolutional/base.py b/src/komm/_error_control_convolutional/base.py
index 9ecfff9..56de348 100644
--- a/src/komm/_error_control_convolutional/base.py
+++ b/src/komm/_error_control_convolutional/base.py
@@ -183,11 +183,21 @@ class ConvolutionalCode(ABC):
         Returns the *free distance* $d_\mathrm{free}$ of the code. This is equal to the minimum Hamming weight among all possible non-zero output sequences.
         """
         fsm = self.finite_state_machine()
+        # States from which the output may be zero from then on. A sequence has
+        # finite weight if and only if it ends up in one of them.
+        silent, previous = set(range(fsm.num_states)), set[int]()
+        while silent != previous:
+            previous, silent = silent, {
+                s
+                for s in silent
+                for x in range(fsm.num_input_symbols)
+                if fsm.outputs[s][x] == 0 and fsm.transitions[s][x] in silent
+            }
         heap = [(0, 0)]  # (weight, state)
         best = [np.inf] * fsm.num_states
         while heap:
             w, s = heappop(heap)
-            if s == 0 and w > 0:
+            if s in silent and w > 0:
                 return int(w)
             for x in range(fsm.num_input_symbols):
                 s1 = fsm.transitions[s][x]
@@ -195,8 +205,8 @@ class ConvolutionalCode(ABC):
                 if w1 < best[s1]:
                     best[s1] = w1
                     heappush(heap, (w1, s1))
-                elif s1 == 0 and w1 > 0:
-                    heappush(heap, (w1, 0))
+                elif s1 in silent and w1 > 0:
+                    heappush(heap, (w1, s1))
         raise RuntimeError
 
     @abstractmethod
-- 
2.43.0


From 9418150e5aeeaae65fcc18db7dee82e5dcfd8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 20/67] fix: BCJRDecoder swapped the bits within blocks of
 codes with several input bits

---
 src/komm/_error_control_decoders/BCJRDecoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index d82c526..b471ec8 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -8,7 +8,7 @@ from .. import abc
 from .._error_control_convolutional.TerminatedConvolutionalCode import (
     TerminatedConvolutionalCode,
 )
-from .._labelings.NaturalLabeling import NaturalLabeling
+from .._labelings.Labeling import Labeling
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
 from .util import get_pbar
@@ -47,7 +47,7 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         )
         self._post_process_output = self.code.strategy.bcjr_post_process_output
         self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
-        self._labeling = NaturalLabeling(k)
+        self._labeling = Labeling(int_to_bits(range(2**k), width=k))
 
     def _metric_function(self, y: int, z: float) -> float:
         return 0.5 * np.dot(self._cache_polar[y], z)
-- 
2.43.0


From 0e408c787542fbd04737e20d3c962ffe7d5bf436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:48 +0000
Subject: [PATCH 21/67] fix: FixedToVariableCode lengths and rate follow the
 lexicographic order of the source words

---
 src/komm/_lossless_coding/FixedToVariableCode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/FixedToVariableCode.py b/src/komm/_lossless_coding/FixedToVariableCode.py
index 8975e4f..4857552 100644
--- a/src/komm/_lossless_coding/FixedToVariableCode.py
+++ b/src/komm/_lossless_coding/FixedToVariableCode.py
@@ -335,7 +335,8 @@ class FixedToVariableCode:
             >>> code.lengths
             [1, 3, 3, 3, 6, 6, 4, 6, 6]
         """
-        return [len(y) for y in self.codewords]
+        blocks = product(range(self.source_cardinality), repeat=self.source_block_size)
+        return [len(self.enc_mapping[x]) for x in blocks]
 
     @cache
     def is_uniquely_decodable(self) -> bool:
-- 
2.43.0


From c283df6448ff960e7ea30a181e6145e3e9955e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 22/67] fix: compute Shannon codeword lengths exactly

---
 src/komm/_lossless_coding/ShannonCode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_lossless_coding/ShannonCode.py b/src/komm/_lossless_coding/ShannonCode.py
index 843248b..c5c093a 100644
--- a/src/komm/_lossless_coding/ShannonCode.py
+++ b/src/komm/_lossless_coding/ShannonCode.py
@@ -84,8 +84,9 @@ class ShannonCode(FixedToVariableCode):
 
 def shannon_code_lengths(pmf: Array1D[np.floating]) -> Array1D[np.integer]:
     # The lower bound of 1 handles the degenerate case p(x) = 1.
-    lengths = np.maximum(1, np.ceil(np.log2(1 / pmf)))
-    return lengths.astype(int)
+    # If p = m * 2^e with 1/2 <= m < 1, then ceil(log2(1/p)) = 1 - e, exactly.
+    _, exponents = np.frexp(pmf)
+    return np.maximum(1, 1 - exponents).astype(int)
 
 
 def shannon_code(pmf: Array1D[np.floating], source_block_size: int) -> dict[Word, Word]:
-- 
2.43.0


From 311d9407863bd6a9599349c83800ba2069564bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 23/67] fix: Tunstall code expands as many times as the target
 block size allows

---
 src/komm/_lossless_coding/TunstallCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 82136a1..91bd100 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -104,7 +104,7 @@ def tunstall_code(
             return -self.probability < -other.probability
 
     S, n = pmf.size, target_block_size
-    K = ceil((2**n - S) / (S - 1)) - 1  # See [Say06, p. 70]
+    K = (2**n - S) // (S - 1)  # See [Say06, p. 70]
     size = S + K * (S - 1)
 
     pbar = tqdm(desc="Generating Tunstall code", total=K * S + size, delay=2.5)
-- 
2.43.0


From bb1a81e728a50f67c11c28184e2e9203c3569db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 24/67] fix: Lempel-Ziv word widths are exact for every target
 cardinality

---
 src/komm/_lossless_coding/LempelZiv77Code.py    | 10 ++++------
 src/komm/_lossless_coding/LempelZiv78Code.py    | 11 +++++------
 src/komm/_lossless_coding/LempelZivSSCode.py    | 10 +++++-----
 src/komm/_lossless_coding/LempelZivWelchCode.py | 11 +++++------
 src/komm/_lossless_coding/util.py               |  9 +++++++++
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 6e998a2..3ed5502 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -1,11 +1,9 @@
-from math import ceil, log
-
 import numpy as np
 import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import integer_to_symbols, symbols_to_integer, word_width
 
 Token = tuple[int, int, int]
 
@@ -84,9 +82,9 @@ class LempelZiv77Code:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = word_width(self.search_size, calY)
+        l_width = word_width(self.lookahead_size, calY)
+        x_width = word_width(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     def source_to_tokens(self, source: npt.ArrayLike) -> list[Token]:
diff --git a/src/komm/_lossless_coding/LempelZiv78Code.py b/src/komm/_lossless_coding/LempelZiv78Code.py
index 786bfcc..4d6d7fd 100644
--- a/src/komm/_lossless_coding/LempelZiv78Code.py
+++ b/src/komm/_lossless_coding/LempelZiv78Code.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, integer_to_symbols, symbols_to_integer, word_width
 
 Token = tuple[int, int]
 
@@ -93,10 +92,10 @@ class LempelZiv78Code:
             array([1, 0, 0, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 1, 0, 0])
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = word_width(calX, calY)
         target: list[int] = []
         for i, (p, x) in enumerate(tokens):
-            k = ceil(log(i + 1, calY))
+            k = word_width(i + 1, calY)
             target.extend(integer_to_symbols(p, base=calY, width=k))
             if x >= 0:
                 target.extend(integer_to_symbols(x, base=calY, width=M))
@@ -112,12 +111,12 @@ class LempelZiv78Code:
             [(0, 1), (0, 0), (1, 1), (2, 1), (4, 0), (2, 0)]
         """
         calX, calY = self.source_cardinality, self.target_cardinality
-        M = ceil(log(calX, calY))
+        M = word_width(calX, calY)
         target = np.asarray(target, dtype=int)
         tokens: list[Token] = []
         i = 0
         while i < target.size:
-            k = ceil(log(len(tokens) + 1, calY))
+            k = word_width(len(tokens) + 1, calY)
             p = int(symbols_to_integer(target[i : i + k], base=calY))
             i += k
             if i < target.size:
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 4146c43..8148f3a 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -1,4 +1,4 @@
-from math import ceil, log
+from math import ceil
 from typing import Literal
 
 import numpy as np
@@ -6,7 +6,7 @@ import numpy.typing as npt
 from tqdm import tqdm
 
 from .._util.validators import validate_integer_range
-from .util import integer_to_symbols, symbols_to_integer
+from .util import integer_to_symbols, symbols_to_integer, word_width
 
 Token = tuple[Literal[0], int] | tuple[Literal[1], int, int]
 
@@ -85,9 +85,9 @@ class LempelZivSSCode:
 
     def _get_widths(self) -> tuple[int, int, int]:
         calY = self.target_cardinality
-        p_width = ceil(log(self.search_size, calY))
-        l_width = ceil(log(self.lookahead_size, calY))
-        x_width = ceil(log(self.source_cardinality, calY))
+        p_width = word_width(self.search_size, calY)
+        l_width = word_width(self.lookahead_size, calY)
+        x_width = word_width(self.source_cardinality, calY)
         return p_width, l_width, x_width
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivWelchCode.py b/src/komm/_lossless_coding/LempelZivWelchCode.py
index 874c564..7820a90 100644
--- a/src/komm/_lossless_coding/LempelZivWelchCode.py
+++ b/src/komm/_lossless_coding/LempelZivWelchCode.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from math import ceil, log
 
 import numpy as np
 import numpy.typing as npt
@@ -7,7 +6,7 @@ from tqdm import tqdm
 
 from komm._util.validators import validate_integer_range
 
-from .util import Word, integer_to_symbols, symbols_to_integer
+from .util import Word, integer_to_symbols, symbols_to_integer, word_width
 
 
 @dataclass
@@ -65,14 +64,14 @@ class LempelZivWelchCode:
             if word + (symbol,) in dictionary:
                 word += (symbol,)
                 continue
-            k = ceil(log(len(dictionary), calY))
+            k = word_width(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
             dictionary[word + (symbol,)] = len(dictionary)
             word = (symbol,)
 
         if word:
-            k = ceil(log(len(dictionary), calY))
+            k = word_width(len(dictionary), calY)
             pointer = dictionary[word]
             output.extend(integer_to_symbols(pointer, base=calY, width=k))
 
@@ -106,7 +105,7 @@ class LempelZivWelchCode:
         dictionary: dict[int, Word] = {s: (s,) for s in range(calX)}
         output: list[int] = []
 
-        k = ceil(log(calX, calY))
+        k = word_width(calX, calY)
         pointer = symbols_to_integer(input[:k], base=calY)
         old = dictionary[pointer]
         output.extend(old)
@@ -114,7 +113,7 @@ class LempelZivWelchCode:
         i = k
         pbar = tqdm(total=input.size, desc="Decompressing LZW", delay=2.5, initial=k)
         while True:
-            k = ceil(log(len(dictionary) + 1, calY))
+            k = word_width(len(dictionary) + 1, calY)
             if i + k > input.size:
                 break
             pointer = symbols_to_integer(input[i : i + k], base=calY)
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index c56da84..980244c 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -185,6 +185,15 @@ def integer_to_symbols(integer: int, base: int, width: int) -> Word:
     return tuple(symbols[::-1])
 
 
+def word_width(size: int, base: int) -> int:
+    # Returns ceil(log(size, base)), free of floating-point errors.
+    width, power = 0, 1
+    while power < size:
+        power *= base
+        width += 1
+    return width
+
+
 def symbols_to_integer(symbols: npt.ArrayLike, base: int) -> int:
     symbols = np.asarray(symbols)
     integer = 0
-- 
2.43.0


From a4367f9f527d6799e32824ac6c97d529dd2ccd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 25/67] fix: LZ77 and LZSS handle source alphabets larger than
 a byte

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 7 +++++--
 src/komm/_lossless_coding/LempelZivSSCode.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 3ed5502..c9f63e1 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -103,7 +103,10 @@ class LempelZiv77Code:
         """
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
-        buffer = bytes(self.search_buffer + source.tolist())
+        symbols = self.search_buffer + source.tolist()
+        # Symbols are relabeled as characters, since they may not fit in a byte.
+        chars = {x: chr(i) for i, x in enumerate(dict.fromkeys(symbols))}
+        buffer = "".join(chars[x] for x in symbols)
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZ77", delay=2.5)
@@ -115,7 +118,7 @@ class LempelZiv77Code:
                 if p >= 0:
                     break
                 l -= 1
-            tokens.append((p, l, buffer[i + l]))
+            tokens.append((p, l, symbols[i + l]))
             i += l + 1
             pbar.update(l + 1)
 
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 8148f3a..33b148b 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -121,7 +121,10 @@ class LempelZivSSCode:
         source = validate_integer_range(source, high=self.source_cardinality)
         ss, ls = self.search_size, self.lookahead_size
         break_even = self.break_even
-        buffer = bytes(self.search_buffer + source.tolist())
+        symbols = self.search_buffer + source.tolist()
+        # Symbols are relabeled as characters, since they may not fit in a byte.
+        chars = {x: chr(i) for i, x in enumerate(dict.fromkeys(symbols))}
+        buffer = "".join(chars[x] for x in symbols)
         tokens: list[Token] = []
 
         pbar = tqdm(total=len(buffer), initial=ss, desc="Compressing LZSS", delay=2.5)
@@ -138,7 +141,7 @@ class LempelZivSSCode:
                 i += l
                 pbar.update(l)
             else:  # Literal
-                tokens.append((0, buffer[i]))
+                tokens.append((0, symbols[i]))
                 i += 1
                 pbar.update(1)
 
-- 
2.43.0


From 91e245bcfff6c782bf69e468d6392442459cee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 26/67] fix: BiorthogonalConstellation detection negated
 unsigned integers

---
 src/komm/_constellations/BiorthogonalConstellation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_constellations/BiorthogonalConstellation.py b/src/komm/_constellations/BiorthogonalConstellation.py
index d03bd2f..2c05205 100644
--- a/src/komm/_constellations/BiorthogonalConstellation.py
+++ b/src/komm/_constellations/BiorthogonalConstellation.py
@@ -166,7 +166,7 @@ class BiorthogonalConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         N = M // 2
-        received = np.asarray(received)
+        received = np.asarray(received, dtype=float)
         r = received.reshape(-1, N)
         scores = np.concatenate([r, -r], axis=-1)
         indices = np.argmax(scores, axis=-1)
-- 
2.43.0


From cf8e627de42204eda05516fef31224e1cd8058e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 27/67] fix: Labeling.marginalize overflowed on small integer
 metrics

---
 src/komm/_labelings/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 8013741..0122f0c 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -102,7 +102,7 @@ class Labeling(ABC):
             lvalues: The marginalized metrics over the bits of the labeling. Has the same shape as `metrics`, but with the last dimension changed by a factor of $m / 2^m$.
         """
         M = self.cardinality
-        metrics = np.asarray(metrics)
+        metrics = np.asarray(metrics, dtype=float)
         if metrics.shape[-1] % M != 0:
             raise ValueError(
                 "last dimension of 'metrics' must be a multiple of the cardinality"
-- 
2.43.0


From 8422a6c81171a0756304c94497710cf2e686cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 28/67] fix: PAM and ASK detection of very distant points
 overflowed

---
 src/komm/_constellations/ASKConstellation.py | 5 ++---
 src/komm/_constellations/PAMConstellation.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/komm/_constellations/ASKConstellation.py b/src/komm/_constellations/ASKConstellation.py
index 8c6ca1d..fe3e3bf 100644
--- a/src/komm/_constellations/ASKConstellation.py
+++ b/src/komm/_constellations/ASKConstellation.py
@@ -166,9 +166,8 @@ class ASKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._base_amplitude, self._phase_offset
         normalized = np.real(np.multiply(received, np.exp(-2j * np.pi * φ))) / A
-        indices = np.round(normalized).astype(int)
-        indices = np.clip(indices, 0, M - 1)
-        return indices
+        indices = np.clip(np.round(normalized), 0, M - 1)
+        return indices.astype(int)
 
     def closest_symbols(
         self, received: npt.ArrayLike
diff --git a/src/komm/_constellations/PAMConstellation.py b/src/komm/_constellations/PAMConstellation.py
index 84d6389..c33effa 100644
--- a/src/komm/_constellations/PAMConstellation.py
+++ b/src/komm/_constellations/PAMConstellation.py
@@ -152,9 +152,8 @@ class PAMConstellation(abc.Constellation[np.floating]):
         """
         M = self._order
         normalized = np.asarray(received, dtype=float) / self._delta
-        indices = np.round(normalized + (M - 1) / 2).astype(int)
-        indices = np.clip(indices, 0, M - 1)
-        return indices
+        indices = np.clip(np.round(normalized + (M - 1) / 2), 0, M - 1)
+        return indices.astype(int)
 
     def closest_symbols(self, received: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
-- 
2.43.0


From cb2ed533f5ee4be1b6ef1e5ea2313d878ffe8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 29/67] fix: natural and reflected labelings accepted indices
 and bits outside their domain

---
 src/komm/_labelings/NaturalLabeling.py   | 4 ++++
 src/komm/_labelings/ReflectedLabeling.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/komm/_labelings/NaturalLabeling.py b/src/komm/_labelings/NaturalLabeling.py
index 6971a38..c79a346 100644
--- a/src/komm/_labelings/NaturalLabeling.py
+++ b/src/komm/_labelings/NaturalLabeling.py
@@ -83,6 +83,8 @@ class NaturalLabeling(abc.Labeling):
         """
         m = self._num_bits
         indices = np.asarray(indices, dtype=int)
+        if not (np.all(indices >= 0) and np.all(indices < self.cardinality)):
+            raise ValueError(f"elements of 'index' must be in [0:{self.cardinality})")
         bits = int_to_bits(indices, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -98,6 +100,8 @@ class NaturalLabeling(abc.Labeling):
         """
         m = self._num_bits
         bits = np.asarray(bits, dtype=int)
+        if not np.all(np.isin(bits, [0, 1])):
+            raise ValueError("elements of 'bits' must be either 0 or 1")
         indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = cast(npt.NDArray[np.integer], indices)
         return indices.reshape(*bits.shape[:-1], -1)
diff --git a/src/komm/_labelings/ReflectedLabeling.py b/src/komm/_labelings/ReflectedLabeling.py
index 744337e..210a29d 100644
--- a/src/komm/_labelings/ReflectedLabeling.py
+++ b/src/komm/_labelings/ReflectedLabeling.py
@@ -82,6 +82,8 @@ class ReflectedLabeling(abc.Labeling):
         """
         m = self._num_bits
         indices = np.asarray(indices, dtype=int)
+        if not (np.all(indices >= 0) and np.all(indices < self.cardinality)):
+            raise ValueError(f"elements of 'index' must be in [0:{self.cardinality})")
         bits = int_to_bits(indices ^ indices >> 1, width=m, bit_order="MSB-first")
         return bits.reshape(*indices.shape[:-1], -1)
 
@@ -97,6 +99,8 @@ class ReflectedLabeling(abc.Labeling):
         """
         m = self._num_bits
         bits = np.asarray(bits, dtype=int)
+        if not np.all(np.isin(bits, [0, 1])):
+            raise ValueError("elements of 'bits' must be either 0 or 1")
         nat_indices = bits_to_int(bits.reshape(-1, m), bit_order="MSB-first")
         indices = np.zeros_like(nat_indices)
         for shift in range(m):
-- 
2.43.0


From 80142a6c645f545b62988de53db23cdc2bcfae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 30/67] fix: channels mishandled boolean input

---
 src/komm/_channels/BinaryErasureChannel.py      | 2 ++
 src/komm/_channels/BinarySymmetricChannel.py    | 2 ++
 src/komm/_channels/DiscreteMemorylessChannel.py | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 4627fe5..7843d07 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -112,6 +112,8 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
         """
         epsilon = self.erasure_probability
         input = np.asarray(input)
+        if input.dtype == bool:
+            input = input.astype(int)
         erasure_pattern = self.rng.random(input.shape) < epsilon
         output = np.copy(input)
         output[erasure_pattern] = 2
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 7ebb38a..02f5322 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -113,5 +113,7 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
         """
         p = self.crossover_probability
         input = np.array(input)
+        if input.dtype == bool:
+            input = input.astype(int)
         error_pattern = self.rng.random(input.shape) < p
         return (input + error_pattern) % 2
diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index 8342b92..f4398b6 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -109,6 +109,6 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
             output[index] = self.rng.choice(
-                a=self.output_cardinality, p=self.transition_matrix[symbol]
+                a=self.output_cardinality, p=self.transition_matrix[int(symbol)]
             )
         return output
-- 
2.43.0


From 85164786857f46be95fe70c25fa864d077a35297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 31/67] fix: entropy and relative entropy overflowed for tiny
 probabilities

---
 src/komm/_util/information_theory.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index d185a7d..8a33e18 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -42,14 +42,14 @@ def entropy(pmf: npt.ArrayLike, base: float | Literal["e"] = 2.0) -> float:
     pmf = validate_pmf(pmf)
     validate_log_base(base)
     pmf = pmf[pmf > 0]
-    # We compute log(1/p) rather than -log(p) to avoid -0.0.
+    # We compute -log(p) rather than log(1/p) since 1/p may overflow.
     if base == "e":
-        log_recip_pmf = np.log(1 / pmf)
+        log_recip_pmf = -np.log(pmf)
     elif base == 2.0:
-        log_recip_pmf = np.log2(1 / pmf)
+        log_recip_pmf = -np.log2(pmf)
     else:
-        log_recip_pmf = np.log(1 / pmf) / np.log(base)
-    return float(np.dot(pmf, log_recip_pmf))
+        log_recip_pmf = -np.log(pmf) / np.log(base)
+    return float(np.dot(pmf, log_recip_pmf) + 0.0)  # + 0.0 to avoid -0.0
 
 
 def binary_entropy(p: float) -> float:
@@ -149,11 +149,11 @@ def relative_entropy(
     pmf, qmf = pmf[mask], qmf[mask]
     with np.errstate(divide="ignore"):
         if base == "e":
-            log_quotient = np.log(pmf / qmf)
+            log_quotient = np.log(pmf) - np.log(qmf)
         elif base == 2.0:
-            log_quotient = np.log2(pmf / qmf)
+            log_quotient = np.log2(pmf) - np.log2(qmf)
         else:
-            log_quotient = np.log(pmf / qmf) / np.log(base)
+            log_quotient = (np.log(pmf) - np.log(qmf)) / np.log(base)
     return float(np.dot(pmf, log_quotient))
 
 
-- 
2.43.0


From 718a8807896e57c47a4aa7c09fc456567f47b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 32/67] fix: absorption quantities of Markov chains followed
 the set's iteration order

---
 src/komm/_sources/MarkovChain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index 9774aac..b08bf4b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -479,7 +479,7 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        transient = list(self.transient_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         Q = P[np.ix_(transient, transient)]
         I = np.eye(len(transient))
@@ -535,8 +535,8 @@ class MarkovChain:
                    [0.33333333, 0.66666667]])
         """
         N = self.mean_number_of_visits()
-        absorbing = list(self.absorbing_states())
-        transient = list(self.transient_states())
+        absorbing = sorted(self.absorbing_states())
+        transient = sorted(self.transient_states())
         P = self.transition_matrix
         R = P[np.ix_(transient, absorbing)]
         B = N @ R
-- 
2.43.0


From 51f71f845306354e67dd43cee163adc95f39dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 33/67] fix: bit conversions failed on wide blocks, empty
 batches and narrow integer types

---
 src/komm/_util/bit_operations.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/bit_operations.py b/src/komm/_util/bit_operations.py
index 06b78f3..eea425f 100644
--- a/src/komm/_util/bit_operations.py
+++ b/src/komm/_util/bit_operations.py
@@ -1,4 +1,3 @@
-from functools import partial
 from typing import Literal, cast
 
 import numpy as np
@@ -37,12 +36,18 @@ def bits_to_int(
         if bit_order == "LSB-first":
             input = np.asarray(input, dtype=np.uint8)
         elif bit_order == "MSB-first":
-            input = np.flip(input, axis=-1)
+            input = np.flip(np.asarray(input, dtype=np.uint8), axis=-1)
         else:
             raise ValueError("'bit_order' must be in {'LSB-first', 'MSB-first'}")
         packed = np.packbits(input, bitorder="little")
         return int.from_bytes(packed, byteorder="little")
-    return np.apply_along_axis(partial(bits_to_int, bit_order=bit_order), -1, input)
+    input = np.asarray(input)
+    # Integers with 64 bits or more do not fit in the default integer type.
+    dtype = int if input.shape[-1] < 64 else object
+    output = np.empty(input.shape[:-1], dtype=dtype)
+    for index in np.ndindex(output.shape):
+        output[index] = bits_to_int(input[index], bit_order=bit_order)
+    return output
 
 
 def int_to_bits(
@@ -83,7 +88,7 @@ def int_to_bits(
                [0, 0, 1, 1]])
     """
     if np.ndim(input) == 0:
-        input = cast(int, input)
+        input = int(cast(int, input))
         if bit_order == "LSB-first":
             bit_list = [(input >> i) % 2 for i in range(width)]
         elif bit_order == "MSB-first":
-- 
2.43.0


From 554d089e61580cdf3834e85a9a1803ce6315baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 34/67] fix: marcum_q was wrong for arguments beyond about 10
 (series cut at 100 terms)

---
 src/komm/_util/special_functions.py | 44 ++++++++++++++++-------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 0f36172..0612861 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -1,4 +1,4 @@
-from math import erfc, gamma, sqrt
+from math import erfc, lgamma, log, sqrt
 from statistics import NormalDist
 
 import numpy as np
@@ -6,8 +6,6 @@ import numpy.typing as npt
 
 norm = NormalDist()
 
-gamma = np.vectorize(gamma)
-
 
 def _gaussian_q(x: float) -> float:
     # Equivalent to `norm.cdf(-x)``, but accurate in the tail for all supported Python versions.
@@ -74,21 +72,29 @@ def gaussian_q_inv(y: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
     return float(result) if np.ndim(result) == 0 else result
 
 
-def _auxiliary_p(
-    m: int, a: float, b: float, max_iter: int = 100, tol: float = 1e-16
-) -> float:
-    # Auxiliary function for the Marcum Q-function
-    # See [https://en.wikipedia.org/wiki/Marcum_Q-function].
-    ms = np.arange(m)
-    result = np.sum(np.exp(-b) * (b**ms) / gamma(ms + 1))
-    for i in range(m, max_iter):
-        ks = np.arange(i - m + 1)
-        inner_sum = np.sum(np.exp(-m * a) * ((m * a) ** ks) / gamma(ks + 1))
-        term = np.exp(-b) * (b**i) / gamma(i + 1) * (1 - inner_sum)
-        result += term
-        if abs(term) < tol:
-            break
-    return result
+def _poisson_pmf(mean: float, start: int, stop: int) -> npt.NDArray[np.floating]:
+    # Poisson pmf over range(start, stop).
+    if mean == 0:
+        return np.where(np.arange(start, stop) == 0, 1.0, 0.0)
+    log_ratios = np.log(mean / np.arange(start + 1, stop))
+    log_pmf = start * log(mean) - mean - lgamma(start + 1)
+    return np.exp(np.cumsum(np.append(0.0, log_ratios)) + log_pmf)
+
+
+def _marcum_q(m: int, a: float, x: float) -> float:
+    # The non-central chi-square distribution is a Poisson mixture of chi-square distributions:
+    # Q_m(a, x) = sum_k Pr[K = k] Pr[J > k - m], where J ~ Poisson(a²/2) and K ~ Poisson(x²/2).
+    # All terms are non-negative, so there is no cancellation.
+    if x == 0 or a - x > 8.5:
+        return 1.0
+    if x - a > sqrt(2 * m) + 39:
+        return 0.0
+    m, p, q = int(m), float(a) ** 2 / 2, float(x) ** 2 / 2
+    width = 40 * sqrt(max(p, q)) + 100
+    start, stop = max(0, int(min(p, q) - width)), int(max(p, q) + width)
+    pmf = np.append(np.zeros(m - 1), _poisson_pmf(p, start, stop))
+    tail = np.cumsum(pmf[::-1])[::-1]
+    return min(1.0, float(_poisson_pmf(q, start, stop + m - 1) @ tail))
 
 
 def marcum_q(
@@ -122,7 +128,7 @@ def marcum_q(
         raise ValueError("'m' must be positive")
     if not np.all(a >= 0) or not np.all(x >= 0):
         raise ValueError("'a' and 'x' must be non-negative")
-    result = np.vectorize(_auxiliary_p)(m, a**2 / (2 * m), x**2 / 2)
+    result = np.vectorize(_marcum_q, otypes=[float])(m, a, x)
     return float(result) if np.ndim(result) == 0 else result
 
 
-- 
2.43.0


From 4cce413f84ca50d58f878315543dec3fba88a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 35/67] fix: root Beaulieu pulse waveform was wrong far from
 the origin (too few quadrature nodes)

---
 src/komm/_pulses/BeaulieuPulse.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index beb30e5..cbfa229 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -222,14 +222,22 @@ class BeaulieuPulse(abc.Pulse):
 
 class _RootBeaulieuPulse(RootPulse[BeaulieuPulse]):
     @cached_property
-    def _quadrature(self) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.float64]]:
-        # Gauss–Legendre nodes and weights on [0, sqrt(α/2)], used to integrate
-        # the outer band of the square-root spectrum after the substitution
-        # f = f2 - v², which removes the square-root cusp at f = f2.
+    def _gauss_legendre(self) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.float64]]:
+        return np.polynomial.legendre.leggauss(256)
+
+    def _quadrature(
+        self, t_max: float
+    ) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.float64]]:
+        # Composite Gauss–Legendre nodes and weights on [0, sqrt(α/2)], used to
+        # integrate the outer band of the square-root spectrum after the substitution
+        # f = f2 - v², which removes the square-root cusp at f = f2. The number of
+        # panels follows the number of oscillations of the integrand, up to |t| = t_max.
         α = self.base_pulse.rolloff
-        nodes, weights = np.polynomial.legendre.leggauss(256)
-        v_max = np.sqrt(α / 2)
-        return (nodes + 1) * (v_max / 2), weights * (v_max / 2)
+        nodes, weights = self._gauss_legendre
+        panels = 1 + int(α * t_max / 64)
+        width = np.sqrt(α / 2) / panels
+        v = (np.arange(panels)[:, np.newaxis] + (nodes + 1) / 2) * width
+        return v.ravel(), np.tile(weights, panels) * (width / 2)
 
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
         # The waveform is the inverse Fourier transform of the square root of
@@ -254,7 +262,7 @@ class _RootBeaulieuPulse(RootPulse[BeaulieuPulse]):
         band2 = 2 * num / (b**2 + (2 * np.pi * t) ** 2)
         # Band [1/2, f2], where the square-root spectrum equals
         # sqrt(1 - e^{-2b (f2 - f)}):
-        v, w = self._quadrature
+        v, w = self._quadrature(np.max(np.abs(t), initial=0.0))
         g = 4 * w * v * np.sqrt(1 - np.exp(-2 * b * v**2))
         band3 = np.cos(2 * np.pi * t[..., np.newaxis] * (f2 - v**2)) @ g
         return band1 + band2 + band3
-- 
2.43.0


From f3f69978ed098b7c5e0b1358ba6106918a9981e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 36/67] fix: raised-cosine pulse jumped around its removable
 singularities

---
 src/komm/_pulses/RaisedCosinePulse.py | 41 ++++++++-------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/komm/_pulses/RaisedCosinePulse.py b/src/komm/_pulses/RaisedCosinePulse.py
index 09a27d3..8b76b7b 100644
--- a/src/komm/_pulses/RaisedCosinePulse.py
+++ b/src/komm/_pulses/RaisedCosinePulse.py
@@ -119,17 +119,10 @@ class RaisedCosinePulse(abc.Pulse):
         """
         α = self.rolloff
         tau = np.asarray(tau, dtype=float)
-        scalar_input = tau.ndim == 0
-        tau = np.atleast_1d(tau)
-        if α == 0:
-            result = np.sinc(tau)
-            return result[0] if scalar_input else result
-        with np.errstate(divide="ignore", invalid="ignore"):
-            term = np.sinc(α * tau) * np.cos(np.pi * tau) / (1 - (α * tau) ** 2)
-        singularity = np.isclose(np.abs(tau), 1 / α)
-        term[singularity] = np.cos(np.pi / α) / 2
-        result = raised_cosine(tau, α) - α / 4 * term
-        return result[0] if scalar_input else result
+        # Partial fractions of sinc(x) / (1 - x²), which has no removable singularities.
+        x = α * tau
+        quotient = np.sinc(x) + 0.5 * (np.sinc(x - 1) + np.sinc(x + 1))
+        return raised_cosine(tau, α) - α / 4 * quotient * np.cos(np.pi * tau)
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
         r"""
@@ -202,23 +195,13 @@ class RaisedCosinePulse(abc.Pulse):
 
 class _RootRaisedCosinePulse(RootPulse[RaisedCosinePulse]):
     def waveform(self, t: npt.ArrayLike) -> npt.NDArray[np.floating]:
+        # The waveform is the inverse Fourier transform of the square root of the spectrum of
+        # the base pulse, integrated over each band (no removable singularities arise).
         α = self.base_pulse.rolloff
         t = np.asarray(t, dtype=float)
-        scalar_input = t.ndim == 0
-        t = np.atleast_1d(t)
-        if α == 0:
-            result = np.sinc(t)
-            return result[0] if scalar_input else result
-        f1 = (1 - α) / 2
-        f2 = (1 + α) / 2
-        num = np.sin(2 * np.pi * f1 * t) + 4 * α * t * np.cos(2 * np.pi * f2 * t)
-        den = np.pi * t * (1 - (4 * α * t) ** 2)
-        with np.errstate(divide="ignore", invalid="ignore"):
-            waveform = num / den
-        singularity = np.isclose(t, 0)
-        waveform[singularity] = 1 + α * (4 / np.pi - 1)
-        singularity = np.isclose(np.abs(t), 1 / (4 * α))
-        lhs = (1 + 2 / np.pi) * np.sin(np.pi / (4 * α))
-        rhs = (1 - 2 / np.pi) * np.cos(np.pi / (4 * α))
-        waveform[singularity] = α / np.sqrt(2) * (lhs + rhs)
-        return waveform[0] if scalar_input else waveform
+        band1 = (1 - α) * np.sinc((1 - α) * t)
+        band2 = α * (
+            np.sinc(α * t + 0.25) * np.cos(np.pi * (t + 0.25))
+            + np.sinc(α * t - 0.25) * np.cos(np.pi * (t - 0.25))
+        )
+        return band1 + band2
-- 
2.43.0


From 571274d64c2abc054e1bd5959067423132f227bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 37/67] fix: mean_squared_error integrated backwards when
 thresholds lay outside the input range

---
 src/komm/_quantization/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_quantization/base.py b/src/komm/_quantization/base.py
index 52f18c9..52c8100 100644
--- a/src/komm/_quantization/base.py
+++ b/src/komm/_quantization/base.py
@@ -75,7 +75,8 @@ class ScalarQuantizer(ABC):
         """
         # See [Say06, eq. (9.3)].
         x_min, x_max = input_range
-        λ = np.concatenate(([x_min], self.thresholds, [x_max]))
+        thresholds = np.clip(self.thresholds, x_min, x_max)
+        λ = np.concatenate(([x_min], thresholds, [x_max]))
         mse = 0.0
         for i, level in enumerate(self.levels):
             x = np.linspace(λ[i], λ[i + 1], num=points_per_interval, dtype=float)
-- 
2.43.0


From 736e26f9ac6535005d26f8cfa78e469af5aa59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 38/67] fix: Lloyd-Max iteration stopped too early for small or
 off-centre input ranges

---
 src/komm/_quantization/LloydMaxQuantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_quantization/LloydMaxQuantizer.py b/src/komm/_quantization/LloydMaxQuantizer.py
index 064c839..2a13859 100644
--- a/src/komm/_quantization/LloydMaxQuantizer.py
+++ b/src/komm/_quantization/LloydMaxQuantizer.py
@@ -162,7 +162,7 @@ def lloyd_max_quantizer(
             denominator = np.trapezoid(pdf, x)
             if denominator != 0:
                 y[i] = np.trapezoid(x * pdf, x) / denominator
-        if np.allclose(y, y_old):
+        if np.allclose(y, y_old, rtol=0.0, atol=1e-7 * (x_max - x_min)):
             break
 
     return y, λ[1:-1]
-- 
2.43.0


From 426c3b916232e71014a5a97f9598167b14ec80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 39/67] fix: autocorrelation overflowed on narrow integers,
 booleans and unsigned shifts

---
 src/komm/_util/sequences.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/komm/_util/sequences.py b/src/komm/_util/sequences.py
index ade6037..698bef4 100644
--- a/src/komm/_util/sequences.py
+++ b/src/komm/_util/sequences.py
@@ -8,6 +8,12 @@ from ..types import Array1D
 DType = TypeVar("DType", bound=np.floating | np.complexfloating)
 
 
+def _as_sequence(sequence: npt.ArrayLike) -> npt.NDArray[np.number]:
+    # Booleans and narrow integers are widened, so that the sums of products are exact.
+    sequence = np.asarray(sequence)
+    return sequence.astype(int) if sequence.dtype.kind in "biu" else sequence
+
+
 def autocorrelation(
     sequence: npt.ArrayLike,
     shifts: npt.ArrayLike | None = None,
@@ -34,11 +40,11 @@ def autocorrelation(
         >>> komm.autocorrelation([1.0, 2.0, 3.0, 4.0], shifts=[-2, -1, 0, 1, 2])
         array([11., 20., 30., 20., 11.])
     """
-    sequence = np.asarray(sequence)
+    sequence = _as_sequence(sequence)
     seq_conj = np.conj(sequence)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
     acorr = np.empty_like(shifts, dtype=sequence.dtype)
-    for i, ℓ in enumerate(shifts):
+    for i, ℓ in enumerate(map(int, shifts)):
         if ℓ < 0:
             acorr[i] = np.dot(sequence[:ℓ], seq_conj[-ℓ:])
         elif ℓ > 0:
@@ -75,8 +81,8 @@ def cyclic_autocorrelation(
         >>> komm.cyclic_autocorrelation([1.0, 2.0, 3.0, 4.0], shifts=[-2, -1, 0, 1, 2])
         array([22., 24., 30., 24., 22.])
     """
-    sequence = np.asarray(sequence)
+    sequence = _as_sequence(sequence)
     shifts = np.arange(sequence.size) if shifts is None else np.asarray(shifts)
-    acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in shifts])
+    acorr = np.array([np.dot(sequence, np.roll(sequence, ℓ).conj()) for ℓ in map(int, shifts)])
     energy = np.dot(sequence, sequence.conj())
     return acorr / energy if normalized else acorr
-- 
2.43.0


From f16ad820044c2de33eaa125be8be52c19bf500c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 40/67] fix: Zadoff-Chu sequences lost precision for long
 lengths

---
 src/komm/_sequences_complex/sequences.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/komm/_sequences_complex/sequences.py b/src/komm/_sequences_complex/sequences.py
index bbd03de..0ad98b5 100644
--- a/src/komm/_sequences_complex/sequences.py
+++ b/src/komm/_sequences_complex/sequences.py
@@ -6,4 +6,6 @@ def zadoff_chu_sequence(
     length: int, root_index: int
 ) -> npt.NDArray[np.complexfloating]:
     n = np.arange(length)
-    return np.exp(-1j * np.pi * root_index * n * (n + 1) / length)
+    # n (n + 1) is even, so the phase can be reduced modulo 2π exactly, in integers.
+    phase = (n * (n + 1) // 2) % length * root_index % length
+    return np.exp(-2j * np.pi * phase / length)
-- 
2.43.0


From 6509e841544ba20c9bcdfe1120f37cfe90084d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 41/67] fix: printing a finite bifield of degree above 24
 failed

---
 src/komm/_algebra/FiniteBifield.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/komm/_algebra/FiniteBifield.py b/src/komm/_algebra/FiniteBifield.py
index f7dabda..3c93b36 100644
--- a/src/komm/_algebra/FiniteBifield.py
+++ b/src/komm/_algebra/FiniteBifield.py
@@ -209,10 +209,13 @@ class FiniteBifield:
         return 2**self.degree
 
     def __repr__(self) -> str:
-        if self.modulus.value == default_primitive_polynomial(self.degree):
-            args = f"{self.degree}"
-        else:
-            args = f"{self.degree}, modulus={self.modulus}"
+        args = f"{self.degree}"
+        try:
+            default_modulus = default_primitive_polynomial(self.degree)
+        except ValueError:  # no default modulus for this degree
+            default_modulus = None
+        if self.modulus.value != default_modulus:
+            args += f", modulus={self.modulus}"
         return f"{self.__class__.__name__}({args})"
 
 
-- 
2.43.0


From 15170bf6a47646f44ebc21b163a24c71b874b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 42/67] fix: representations of LZ77 and LZSS codes omitted the
 search buffer

---
 src/komm/_lossless_coding/LempelZiv77Code.py | 2 ++
 src/komm/_lossless_coding/LempelZivSSCode.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index c9f63e1..31e3005 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -71,6 +71,8 @@ class LempelZiv77Code:
             f"source_cardinality={self.source_cardinality}",
             f"target_cardinality={self.target_cardinality}",
         ])
+        if any(self.search_buffer):
+            args += f", search_buffer={self.search_buffer}"
         return f"{self.__class__.__name__}({args})"
 
     @property
diff --git a/src/komm/_lossless_coding/LempelZivSSCode.py b/src/komm/_lossless_coding/LempelZivSSCode.py
index 33b148b..acb1bf0 100644
--- a/src/komm/_lossless_coding/LempelZivSSCode.py
+++ b/src/komm/_lossless_coding/LempelZivSSCode.py
@@ -74,6 +74,8 @@ class LempelZivSSCode:
             f"source_cardinality={self.source_cardinality}",
             f"target_cardinality={self.target_cardinality}",
         ])
+        if any(self.search_buffer):
+            args += f", search_buffer={self.search_buffer}"
         return f"{self.__class__.__name__}({args})"
 
     @property
-- 
2.43.0


From 49b1542f786d8a5e2d553839635b84c1c0b53323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:40 +0000
Subject: [PATCH 43/67] fix: representation of a product labeling was not a
 constructor call

---
 src/komm/_labelings/ProductLabeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_labelings/ProductLabeling.py b/src/komm/_labelings/ProductLabeling.py
index 6711f74..352db9d 100644
--- a/src/komm/_labelings/ProductLabeling.py
+++ b/src/komm/_labelings/ProductLabeling.py
@@ -121,7 +121,8 @@ class ProductLabeling(abc.Labeling):
         return cls(*labelings, repeat=repeat)
 
     def __repr__(self) -> str:
-        return f"{self.__class__.__name__}({self._labelings})"
+        args = ", ".join(repr(labeling) for labeling in self._labelings)
+        return f"{self.__class__.__name__}({args})"
 
     @property
     @cache
-- 
2.43.0


From a5a440a22c23482431c29835f5505b9c6aed7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 44/67] fix: representation of a Zadoff-Chu sequence was not a
 constructor call

---
 src/komm/_sequences_complex/ZadoffChuSequence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_sequences_complex/ZadoffChuSequence.py b/src/komm/_sequences_complex/ZadoffChuSequence.py
index 070f7ba..378ffe3 100644
--- a/src/komm/_sequences_complex/ZadoffChuSequence.py
+++ b/src/komm/_sequences_complex/ZadoffChuSequence.py
@@ -49,4 +49,9 @@ class ZadoffChuSequence(ComplexSequence):
             raise ValueError("'length' must be an odd integer")
         if not 1 <= root_index < length:
             raise ValueError("'root_index' must be in [1 : length)")
+        self.root_index = root_index
         super().__init__(sequence=zadoff_chu_sequence(length, root_index))
+
+    def __repr__(self) -> str:
+        args = f"length={self.length}, root_index={self.root_index}"
+        return f"{self.__class__.__name__}({args})"
-- 
2.43.0


From b822014bb4ca747a1c9b1d33fb6e271a6a088bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 45/67] fix: empty streams decode to integer arrays

---
 src/komm/_integer_coding/FibonacciCode.py | 2 ++
 src/komm/_integer_coding/UnaryCode.py     | 2 ++
 src/komm/_lossless_coding/util.py         | 6 +++---
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/komm/_integer_coding/FibonacciCode.py b/src/komm/_integer_coding/FibonacciCode.py
index 4644f29..b485e28 100644
--- a/src/komm/_integer_coding/FibonacciCode.py
+++ b/src/komm/_integer_coding/FibonacciCode.py
@@ -34,6 +34,8 @@ class FibonacciCode(abc.IntegerCode):
             array([4, 1, 3])
         """
         input = validate_integer_range(input, low=0, high=2)
+        if input.size == 0:
+            return np.array([], dtype=int)
         output: list[int] = []
         i = 0
         while i < input.size:
diff --git a/src/komm/_integer_coding/UnaryCode.py b/src/komm/_integer_coding/UnaryCode.py
index 3363e5c..bd51930 100644
--- a/src/komm/_integer_coding/UnaryCode.py
+++ b/src/komm/_integer_coding/UnaryCode.py
@@ -32,6 +32,8 @@ class UnaryCode(abc.IntegerCode):
             array([4, 1, 3])
         """
         input = validate_integer_range(input, low=0, high=2)
+        if input.size == 0:
+            return np.array([], dtype=int)
         output: list[int] = []
         i = 0
         while i < input.size:
diff --git a/src/komm/_lossless_coding/util.py b/src/komm/_lossless_coding/util.py
index 980244c..ef42885 100644
--- a/src/komm/_lossless_coding/util.py
+++ b/src/komm/_lossless_coding/util.py
@@ -89,7 +89,7 @@ def parse_fixed_length(
         for i in range(0, len(input), block_size):
             key = tuple(map(int, input[i : i + block_size]))
             output_list.extend(dictionary[key])
-        output = np.asarray(output_list)
+        output = np.asarray(output_list, dtype=int)
     except KeyError:
         raise ValueError("input contains invalid word")
     return output
@@ -109,7 +109,7 @@ def parse_prefix_free(
             i = j + 1
 
     if i == len(input):
-        return np.asarray(output)
+        return np.asarray(output, dtype=int)
     elif not allow_incomplete:
         raise ValueError("input contains invalid word")
 
@@ -117,7 +117,7 @@ def parse_prefix_free(
     for key, value in dictionary.items():
         if is_prefix_of(remainder, key):
             output.extend(value)
-            return np.asarray(output)
+            return np.asarray(output, dtype=int)
 
     raise ValueError("input contains invalid word")
 
-- 
2.43.0


From cb0aeed7d7c36f38e36fdd28a308ecbbfc237d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 46/67] fix: CyclicCode given both polynomials was left half
 built

---
 src/komm/_error_control_block/CyclicCode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/komm/_error_control_block/CyclicCode.py b/src/komm/_error_control_block/CyclicCode.py
index 11205e2..80a1bf2 100644
--- a/src/komm/_error_control_block/CyclicCode.py
+++ b/src/komm/_error_control_block/CyclicCode.py
@@ -60,6 +60,11 @@ class CyclicCode(abc.BlockCode):
             raise ValueError(
                 "either 'generator_polynomial' or 'check_polynomial' must be provided"
             )
+        if generator_polynomial is not None and check_polynomial is not None:
+            raise ValueError(
+                "only one of 'generator_polynomial' or 'check_polynomial' must be"
+                " provided"
+            )
         modulus = BinaryPolynomial.from_exponents([0, self.length])
         if generator_polynomial is not None and check_polynomial is None:
             self.generator_polynomial = BinaryPolynomial(generator_polynomial)
-- 
2.43.0


From 4cd98dd62e64f2dcd94a690e7b45d992cb32a4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:15 +0000
Subject: [PATCH 47/67] fix: soft decoders mishandled infinite L-values (bits
 known for certain)

---
 .../ViterbiStreamDecoder.py                       |  8 ++++++--
 src/komm/_error_control_decoders/BCJRDecoder.py   | 10 +++++-----
 .../ExhaustiveSearchDecoder.py                    |  5 +++--
 .../_error_control_decoders/ViterbiDecoder.py     | 11 +++++++----
 src/komm/_error_control_decoders/util.py          | 15 +++++++++++++++
 5 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
index f6a9134..d950bc7 100644
--- a/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
+++ b/src/komm/_error_control_convolutional/ViterbiStreamDecoder.py
@@ -6,6 +6,7 @@ import numpy as np
 import numpy.typing as npt
 
 from .. import abc
+from .._error_control_decoders.util import soft_costs
 from .._finite_state_machine.MealyMachine import MetricMemory
 from .._util.bit_operations import int_to_bits
 
@@ -45,7 +46,7 @@ class ViterbiStreamDecoder:
         if self.input_type == "hard":
             return float(np.count_nonzero(self.cache_bit[y] != z))
         else:  # self.input_type == "soft"
-            return np.dot(self.cache_bit[y], z)
+            return np.asarray(z)[y]
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         r"""
@@ -70,8 +71,11 @@ class ViterbiStreamDecoder:
         input = np.asarray(input)
         n = self.convolutional_code.num_output_bits
         k = self.convolutional_code.num_input_bits
+        observed = input.reshape(-1, n)
+        if self.input_type == "soft":
+            observed = soft_costs(observed, self.cache_bit)
         input_hat = self._fsm.viterbi_streaming(
-            observed=input.reshape(-1, n),
+            observed=observed,
             metric_function=self.metric_function,
             memory=self.memory,
         )
diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index b471ec8..4f310c4 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -11,7 +11,7 @@ from .._error_control_convolutional.TerminatedConvolutionalCode import (
 from .._labelings.Labeling import Labeling
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
-from .util import get_pbar
+from .util import get_pbar, soft_costs
 
 
 @dataclass
@@ -46,11 +46,11 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             self.code.strategy.bcjr_initial_final_distributions(num_states)
         )
         self._post_process_output = self.code.strategy.bcjr_post_process_output
-        self._cache_polar = (-1) ** int_to_bits(range(2**n), width=n)
+        self._cache_bit = int_to_bits(range(2**n), width=n)
         self._labeling = Labeling(int_to_bits(range(2**k), width=k))
 
-    def _metric_function(self, y: int, z: float) -> float:
-        return 0.5 * np.dot(self._cache_polar[y], z)
+    def _metric_function(self, y: int, z: npt.NDArray[np.floating]) -> float:
+        return -z[y]
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer | np.floating]:
         r"""
@@ -76,7 +76,7 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         @with_pbar(get_pbar(np.size(input) // self.code.length, "BCJR"))
         def decode(li: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
             symbol_posteriors = self._fsm.forward_backward(
-                observed=li.reshape(-1, n),
+                observed=soft_costs(li.reshape(-1, n), self._cache_bit),
                 metric_function=self._metric_function,
                 initial_state_distribution=self._initial_state_distribution,
                 final_state_distribution=self._final_state_distribution,
diff --git a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
index e0f600c..cef8057 100644
--- a/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
+++ b/src/komm/_error_control_decoders/ExhaustiveSearchDecoder.py
@@ -6,6 +6,7 @@ import numpy.typing as npt
 
 from .. import abc
 from .._util.decorators import blockwise
+from .util import soft_costs
 
 
 @dataclass
@@ -47,9 +48,9 @@ class ExhaustiveSearchDecoder(abc.BlockDecoder[abc.BlockCode]):
         def decode(r: npt.NDArray[np.integer]):
             if self.input_type == "hard":
                 ds = r[..., np.newaxis, :] != self._codewords
+                metrics = np.sum(ds, axis=-1)
             else:
-                ds = r[..., np.newaxis, :] * -((-1) ** self._codewords)
-            metrics = np.sum(ds, axis=-1)
+                metrics = soft_costs(r, self._codewords)
             v_hat = self._codewords[np.argmin(metrics, axis=-1)]
             u_hat = self.code.project_word(v_hat)
             return u_hat
diff --git a/src/komm/_error_control_decoders/ViterbiDecoder.py b/src/komm/_error_control_decoders/ViterbiDecoder.py
index 3762147..3487712 100644
--- a/src/komm/_error_control_decoders/ViterbiDecoder.py
+++ b/src/komm/_error_control_decoders/ViterbiDecoder.py
@@ -10,7 +10,7 @@ from .._error_control_convolutional.TerminatedConvolutionalCode import (
 )
 from .._util.bit_operations import int_to_bits
 from .._util.decorators import blockwise, vectorize, with_pbar
-from .util import get_pbar
+from .util import get_pbar, soft_costs
 
 
 @dataclass
@@ -51,8 +51,8 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
     def _metric_function_hard(self, y: int, z: float) -> float:
         return float(np.count_nonzero(self._cache_bit[y] != z))
 
-    def _metric_function_soft(self, y: int, z: int) -> float:
-        return np.dot(self._cache_bit[y], z)
+    def _metric_function_soft(self, y: int, z: npt.NDArray[np.floating]) -> float:
+        return z[y]
 
     def decode(self, input: npt.ArrayLike) -> npt.NDArray[np.integer | np.floating]:
         r"""
@@ -78,8 +78,11 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         @vectorize
         @with_pbar(get_pbar(np.size(input) // self.code.length, "Viterbi"))
         def decode(r: npt.NDArray[np.integer]):
+            observed = r.reshape(-1, n)
+            if self.input_type == "soft":
+                observed = soft_costs(observed, self._cache_bit)
             xs_hat, final_metrics = self._fsm.viterbi(
-                observed=r.reshape(-1, n),
+                observed=observed,
                 metric_function=self._metric_function,
                 initial_metrics=self._initial_metrics,
             )
diff --git a/src/komm/_error_control_decoders/util.py b/src/komm/_error_control_decoders/util.py
index 5b3298f..6124c8b 100644
--- a/src/komm/_error_control_decoders/util.py
+++ b/src/komm/_error_control_decoders/util.py
@@ -1,5 +1,7 @@
 from typing import Any
 
+import numpy as np
+import numpy.typing as npt
 from tqdm import tqdm
 
 
@@ -10,3 +12,16 @@ def get_pbar(total: int, algorithm: str) -> "tqdm[Any]":
         unit="block",
         delay=2.5,
     )
+
+
+def soft_costs(
+    lvalues: npt.ArrayLike, words: npt.NDArray[np.integer]
+) -> npt.NDArray[np.floating]:
+    # Total reliability of the bits in which each word disagrees with the signs of the L-values.
+    # Up to a constant, this is the correlation metric, but well-defined for infinite L-values.
+    lvalues = np.asarray(lvalues, dtype=float)
+    cost0, cost1 = np.maximum(-lvalues, 0.0), np.maximum(lvalues, 0.0)
+    costs = np.zeros(lvalues.shape[:-1] + words.shape[:1])
+    for i, bits in enumerate(words.T):
+        costs += np.where(bits == 1, cost1[..., i, np.newaxis], cost0[..., i, np.newaxis])
+    return costs
-- 
2.43.0


From 1b256cfc0dd460e28feb2dc6918b0909dd93c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 48/67] fix: extended gcd exceeded the recursion limit for
 large arguments

---
 src/komm/_algebra/domain.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/komm/_algebra/domain.py b/src/komm/_algebra/domain.py
index d610dab..42b5adb 100644
--- a/src/komm/_algebra/domain.py
+++ b/src/komm/_algebra/domain.py
@@ -49,11 +49,14 @@ def xgcd(x: T, y: T) -> tuple[T, T, T]:
     """
     zero: T = x.ambient.zero
     one: T = x.ambient.one
-    if x == zero:
-        return y, zero, one
-    else:
-        d, s, t = xgcd(y % x, x)
-        return d, t - s * (y // x), s
+    s, s1 = zero, one
+    t, t1 = one, zero
+    while x != zero:
+        q = y // x
+        x, y = y % x, x
+        s, s1 = s1, s - q * s1
+        t, t1 = t1, t - q * t1
+    return y, s, t
 
 
 def lcm(x: T, y: T) -> T:
-- 
2.43.0


From 7a789a4d5924a1cb1a6313c31cc57e7e5b185c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:36 +0000
Subject: [PATCH 49/67] fix: invariant factors whose intermediate polynomials
 exceed 63 bits

---
 src/komm/_util/matrices.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/matrices.py b/src/komm/_util/matrices.py
index bc1f148..330e12b 100644
--- a/src/komm/_util/matrices.py
+++ b/src/komm/_util/matrices.py
@@ -203,7 +203,7 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     """
     # See [McE98, Appendix B, p. 1128]
     BP = BinaryPolynomial
-    matrix = np.array(matrix, dtype=int)
+    matrix = np.array(matrix, dtype=object)
     k, n = matrix.shape
     if k > n:
         raise ValueError("number of rows cannot exceed number of columns")
@@ -270,7 +270,8 @@ def invariant_factors(matrix: npt.ArrayLike) -> list[BinaryPolynomial]:
     for i, j in product(range(k), range(n)):
         if BP(matrix[i, j]) % a0 != 0:
             if i > 0:
-                matrix[0, :] ^= matrix[i, :]
+                for col in range(n):
+                    matrix[0, col] = BP(matrix[0, col]) + BP(matrix[i, col])
             return invariant_factors(matrix)
 
     return [a0] + invariant_factors(matrix[1:, 1:])
-- 
2.43.0


From 58c9a9d226e4290cba7fa7f9e80e759729c6da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 50/67] fix: integer Horner evaluation with coefficients beyond
 63 bits

---
 src/komm/_algebra/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_algebra/ring.py b/src/komm/_algebra/ring.py
index 680bca9..5a1b488 100644
--- a/src/komm/_algebra/ring.py
+++ b/src/komm/_algebra/ring.py
@@ -87,7 +87,7 @@ def horner(coefficients: npt.ArrayLike, x: T_co) -> T_co:
     References:
         `Horner's method <https://en.wikipedia.org/wiki/Horner's_method>`_
     """
-    coefficients = np.asarray(coefficients)
+    coefficients = np.asarray(coefficients, dtype=object)
     zero: T_co = x.ambient.zero
     one: T_co = x.ambient.one
     result = zero
-- 
2.43.0


From 5f5d9b452ff5c32ac0c0396dd332d383cc0dc8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 51/67] fix: decoders and LZ77 left progress bars open,
 breaking concurrent use

---
 src/komm/_error_control_decoders/BCJRDecoder.py      | 7 +++++--
 src/komm/_error_control_decoders/BerlekampDecoder.py | 7 +++++--
 src/komm/_error_control_decoders/ViterbiDecoder.py   | 7 +++++--
 src/komm/_lossless_coding/LempelZiv77Code.py         | 1 +
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/komm/_error_control_decoders/BCJRDecoder.py b/src/komm/_error_control_decoders/BCJRDecoder.py
index 4f310c4..44484c8 100644
--- a/src/komm/_error_control_decoders/BCJRDecoder.py
+++ b/src/komm/_error_control_decoders/BCJRDecoder.py
@@ -71,9 +71,11 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         """
         n = self.code.convolutional_code.num_output_bits
 
+        pbar = get_pbar(np.size(input) // self.code.length, "BCJR")
+
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "BCJR"))
+        @with_pbar(pbar)
         def decode(li: npt.NDArray[np.floating]) -> npt.NDArray[np.floating]:
             symbol_posteriors = self._fsm.forward_backward(
                 observed=soft_costs(li.reshape(-1, n), self._cache_bit),
@@ -85,7 +87,8 @@ class BCJRDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             lo = self._labeling.marginalize(symbol_posteriors).reshape(-1)
             return lo
 
-        output = decode(input)
+        with pbar:
+            output = decode(input)
         if self.output_type == "hard":
             return (output < 0.0).astype(int)
         else:  # if self.output_type == "soft":
diff --git a/src/komm/_error_control_decoders/BerlekampDecoder.py b/src/komm/_error_control_decoders/BerlekampDecoder.py
index 5182570..1b36066 100644
--- a/src/komm/_error_control_decoders/BerlekampDecoder.py
+++ b/src/komm/_error_control_decoders/BerlekampDecoder.py
@@ -36,9 +36,11 @@ class BerlekampDecoder(abc.BlockDecoder[BCHCode]):
             array([0, 0, 0, 0, 0])
         """
 
+        pbar = get_pbar(np.size(input) // self.code.length, "Berlekamp")
+
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "Berlekamp"))
+        @with_pbar(pbar)
         def decode(r: npt.NDArray[np.integer]):
             r_poly = BinaryPolynomial.from_coefficients(r)
             syndrome = self.code.bch_syndrome(r_poly)
@@ -52,7 +54,8 @@ class BerlekampDecoder(abc.BlockDecoder[BCHCode]):
             u_hat = self.code.project_word(v_hat)
             return u_hat
 
-        return decode(input)
+        with pbar:
+            return decode(input)
 
 
 def berlekamp_algorithm(
diff --git a/src/komm/_error_control_decoders/ViterbiDecoder.py b/src/komm/_error_control_decoders/ViterbiDecoder.py
index 3487712..78beb19 100644
--- a/src/komm/_error_control_decoders/ViterbiDecoder.py
+++ b/src/komm/_error_control_decoders/ViterbiDecoder.py
@@ -74,9 +74,11 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
         k = self.code.convolutional_code.num_input_bits
         n = self.code.convolutional_code.num_output_bits
 
+        pbar = get_pbar(np.size(input) // self.code.length, "Viterbi")
+
         @blockwise(self.code.length)
         @vectorize
-        @with_pbar(get_pbar(np.size(input) // self.code.length, "Viterbi"))
+        @with_pbar(pbar)
         def decode(r: npt.NDArray[np.integer]):
             observed = r.reshape(-1, n)
             if self.input_type == "soft":
@@ -90,4 +92,5 @@ class ViterbiDecoder(abc.BlockDecoder[TerminatedConvolutionalCode]):
             u_hat = int_to_bits(x_hat, width=k).ravel()
             return u_hat
 
-        return decode(input)
+        with pbar:
+            return decode(input)
diff --git a/src/komm/_lossless_coding/LempelZiv77Code.py b/src/komm/_lossless_coding/LempelZiv77Code.py
index 31e3005..c3e96f9 100644
--- a/src/komm/_lossless_coding/LempelZiv77Code.py
+++ b/src/komm/_lossless_coding/LempelZiv77Code.py
@@ -123,6 +123,7 @@ class LempelZiv77Code:
             tokens.append((p, l, symbols[i + l]))
             i += l + 1
             pbar.update(l + 1)
+        pbar.close()
 
         return tokens
 
-- 
2.43.0


From 107932467d3fedf8d057d619b6b7f52890ad49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:14 +0000
Subject: [PATCH 52/67] fix: PSK points were rounded after scaling, distorting
 small amplitudes

---
 src/komm/_constellations/PSKConstellation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_constellations/PSKConstellation.py b/src/komm/_constellations/PSKConstellation.py
index f62b50b..d4128bb 100644
--- a/src/komm/_constellations/PSKConstellation.py
+++ b/src/komm/_constellations/PSKConstellation.py
@@ -68,9 +68,9 @@ class PSKConstellation(abc.Constellation[np.complexfloating]):
         """
         M, A, φ = self._order, self._amplitude, self._phase_offset
         i = np.arange(M).reshape(-1, 1)
-        matrix = A * np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
+        matrix = np.exp(2j * np.pi * i / M) * np.exp(2j * np.pi * φ)
         # We round to avoid sin(pi) != 0, and add 0.0 to avoid -0.0.
-        return matrix.round(15) + 0.0
+        return A * (matrix.round(15) + 0.0)
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 2011a7ea7d507becc6f19078d0eff41b127d4311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 53/67] fix: accepted probabilities that sum to one only
 approximately could not be simulated

---
 src/komm/_channels/DiscreteMemorylessChannel.py | 6 +++---
 src/komm/_sources/DiscreteMemorylessSource.py   | 4 +++-
 src/komm/_sources/MarkovChain.py                | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/komm/_channels/DiscreteMemorylessChannel.py b/src/komm/_channels/DiscreteMemorylessChannel.py
index f4398b6..46f8129 100644
--- a/src/komm/_channels/DiscreteMemorylessChannel.py
+++ b/src/komm/_channels/DiscreteMemorylessChannel.py
@@ -106,9 +106,9 @@ class DiscreteMemorylessChannel(abc.DiscreteMemorylessChannel):
             array([2, 1, 2, 0, 0, 2, 2, 0, 1, 0])
         """
         input = np.asarray(input)
+        # The rows sum to one only approximately.
+        P = self.transition_matrix / self.transition_matrix.sum(axis=1, keepdims=True)
         output = np.empty_like(input, dtype=int)
         for index, symbol in np.ndenumerate(input):
-            output[index] = self.rng.choice(
-                a=self.output_cardinality, p=self.transition_matrix[int(symbol)]
-            )
+            output[index] = self.rng.choice(a=self.output_cardinality, p=P[int(symbol)])
         return output
diff --git a/src/komm/_sources/DiscreteMemorylessSource.py b/src/komm/_sources/DiscreteMemorylessSource.py
index 1992a4a..d93353c 100644
--- a/src/komm/_sources/DiscreteMemorylessSource.py
+++ b/src/komm/_sources/DiscreteMemorylessSource.py
@@ -120,4 +120,6 @@ class DiscreteMemorylessSource:
             shape = (1,)
         elif isinstance(shape, int):
             shape = (shape,)
-        return self._rng.choice(self.pmf.size, p=self.pmf, size=shape)
+        # The pmf sums to one only approximately.
+        p = self.pmf / self.pmf.sum()
+        return self._rng.choice(self.pmf.size, p=p, size=shape)
diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index b08bf4b..c6d4d1b 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -653,7 +653,8 @@ class MarkovChain:
             >>> chain.simulate(initial_state=2, steps=10)
             array([2, 0, 1, 2, 0, 1, 2, 0, 1, 2])
         """
-        P = self.transition_matrix
+        # The rows sum to one only approximately.
+        P = self.transition_matrix / self.transition_matrix.sum(axis=1, keepdims=True)
         state = initial_state
         output = np.empty(steps, dtype=int)
         for t in range(steps):
@@ -686,7 +687,8 @@ class MarkovChain:
         """
         if not self.is_absorbing():
             raise ValueError("chain is not absorbing")
-        P = self.transition_matrix
+        # The rows sum to one only approximately.
+        P = self.transition_matrix / self.transition_matrix.sum(axis=1, keepdims=True)
         state = initial_state
         output = [state]
         transient = self._transient_states()
-- 
2.43.0


From aae38f2b567a780e69cc271fcfa38f6829ca87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:02 +0000
Subject: [PATCH 54/67] fix: mutual information refused pmfs and transition
 rows that sum to one only approximately

---
 src/komm/_util/information_theory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/komm/_util/information_theory.py b/src/komm/_util/information_theory.py
index 8a33e18..96574ce 100644
--- a/src/komm/_util/information_theory.py
+++ b/src/komm/_util/information_theory.py
@@ -166,6 +166,7 @@ def mutual_information(
     validate_log_base(base)
     transition_matrix = validate_transition_matrix(transition_matrix)
     output_pmf = np.dot(input_pmf, transition_matrix)
+    output_pmf /= output_pmf.sum()  # The inputs sum to one only approximately
     entropy_output_prior = entropy(output_pmf, base=base)
     entropy_output_posterior = np.dot(
         input_pmf,
-- 
2.43.0


From 6c56780a1f7890bac966bd1b9c17c9f4b6cd3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 55/67] fix: TunstallCode of a single-symbol pmf divided by
 zero instead of refusing it

---
 src/komm/_lossless_coding/TunstallCode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_lossless_coding/TunstallCode.py b/src/komm/_lossless_coding/TunstallCode.py
index 91bd100..a4fbce7 100644
--- a/src/komm/_lossless_coding/TunstallCode.py
+++ b/src/komm/_lossless_coding/TunstallCode.py
@@ -59,6 +59,8 @@ class TunstallCode(VariableToFixedCode):
         target_block_size: int | None = None,
     ) -> None:
         self.pmf = validate_pmf(pmf)
+        if not self.pmf.size >= 2:
+            raise ValueError("'source_cardinality' must be at least 2")
         if target_block_size is None:
             target_block_size = ceil(log2(self.pmf.size))
         if 2**target_block_size < self.pmf.size:
-- 
2.43.0


From 5a7762291c2efdc3ea2cb55ced26635d28399ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:43 +0000
Subject: [PATCH 56/67] fix: weight distributions of repetition and single
 parity-check codes overflowed for n >= 67

---
 src/komm/_error_control_block/RepetitionCode.py        | 3 ++-
 src/komm/_error_control_block/SingleParityCheckCode.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/komm/_error_control_block/RepetitionCode.py b/src/komm/_error_control_block/RepetitionCode.py
index 5ed22e6..8a3e5d2 100644
--- a/src/komm/_error_control_block/RepetitionCode.py
+++ b/src/komm/_error_control_block/RepetitionCode.py
@@ -65,7 +65,8 @@ class RepetitionCode(BlockCode):
     @cache
     def coset_leader_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        coset_leader_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if comb(n, n // 2) < 2**63 else object
+        coset_leader_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range((n + 1) // 2):
             coset_leader_weight_distribution[w] = comb(n, w)
         if n % 2 == 0:
diff --git a/src/komm/_error_control_block/SingleParityCheckCode.py b/src/komm/_error_control_block/SingleParityCheckCode.py
index b42f51c..c042470 100644
--- a/src/komm/_error_control_block/SingleParityCheckCode.py
+++ b/src/komm/_error_control_block/SingleParityCheckCode.py
@@ -65,7 +65,8 @@ class SingleParityCheckCode(BlockCode):
     @cache
     def codeword_weight_distribution(self) -> npt.NDArray[np.integer]:
         n = self.n
-        codeword_weight_distribution = np.zeros(n + 1, dtype=int)
+        dtype = int if comb(n, n // 2) < 2**63 else object
+        codeword_weight_distribution = np.zeros(n + 1, dtype=dtype)
         for w in range(0, n + 1, 2):
             codeword_weight_distribution[w] = comb(n, w)
         return codeword_weight_distribution
-- 
2.43.0


From c150579a26aab3874ce901dc778f953e111c9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 57/67] fix: an empty array of blocks was refused by vectorized
 encoders, decoders and labelings

---
 src/komm/_labelings/base.py  | 10 ++++------
 src/komm/_util/decorators.py | 10 ++++++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/komm/_labelings/base.py b/src/komm/_labelings/base.py
index 0122f0c..e9f2b55 100644
--- a/src/komm/_labelings/base.py
+++ b/src/komm/_labelings/base.py
@@ -4,6 +4,7 @@ from typing import TypeVar
 import numpy as np
 import numpy.typing as npt
 
+from .._util.decorators import vectorize
 from ..types import Array2D
 
 T = TypeVar("T", np.floating, np.complexfloating)
@@ -80,12 +81,9 @@ class Labeling(ABC):
             )
         if not np.all(np.isin(bits, [0, 1])):
             raise ValueError("elements of 'bits' must be either 0 or 1")
-        indices = np.apply_along_axis(
-            func1d=lambda row: self.inverse_mapping[tuple(row)],
-            axis=-1,
-            arr=bits.reshape(*bits.shape[:-1], -1, m),
-        ).reshape(*bits.shape[:-1], -1)
-        return indices
+        lookup = vectorize(lambda row: np.array(self.inverse_mapping[tuple(row)]))
+        indices = lookup(bits.reshape(*bits.shape[:-1], -1, m))
+        return indices.reshape(*bits.shape[:-1], -1)
 
     @abstractmethod
     def marginalize(self, metrics: npt.ArrayLike) -> npt.NDArray[np.floating]:
diff --git a/src/komm/_util/decorators.py b/src/komm/_util/decorators.py
index e59b533..486da19 100644
--- a/src/komm/_util/decorators.py
+++ b/src/komm/_util/decorators.py
@@ -20,6 +20,10 @@ def vectorize(func: ArrayFunction[T, U]):
 
     @wraps(func)
     def wrapper(arr: npt.NDArray[T], *args: Any, **kwargs: Any):
+        if 0 in arr.shape[:-1]:  # Not supported by `np.apply_along_axis`
+            zeros = np.zeros(arr.shape[-1], dtype=arr.dtype)
+            probe = np.asarray(func(zeros, *args, **kwargs))
+            return np.empty(arr.shape[:-1] + probe.shape, dtype=probe.dtype)
         return np.apply_along_axis(func, -1, arr, *args, **kwargs)
 
     return wrapper
@@ -39,9 +43,11 @@ def blockwise(block_size: int):
                     "last dimension of array must be a multiple of block size"
                     f" {block_size} (got {arr.shape[-1]})"
                 )
-            blocks = arr.reshape(*arr.shape[:-1], -1, block_size)
+            num_blocks = arr.shape[-1] // block_size
+            blocks = arr.reshape(*arr.shape[:-1], num_blocks, block_size)
             processed = func(blocks)
-            return processed.reshape(*processed.shape[:-2], -1)
+            size = num_blocks * processed.shape[-1]
+            return processed.reshape(*processed.shape[:-2], size)
 
         return wrapper
 
-- 
2.43.0


From 521d57f3a33898c572254a9eb6fdf90c2074fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 58/67] fix: a log base of nan was accepted as a positive real

---
 src/komm/_util/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_util/validators.py b/src/komm/_util/validators.py
index 27b0c27..df210b3 100644
--- a/src/komm/_util/validators.py
+++ b/src/komm/_util/validators.py
@@ -10,7 +10,7 @@ def validate_log_base(value: float | str) -> float | Literal["e"]:
     if isinstance(value, str):
         if value != "e":
             raise ValueError("log base must be 'e' or a positive real other than 1")
-    elif value <= 0.0 or value == 1.0:
+    elif not value > 0.0 or value == 1.0:
         raise ValueError("log base must be 'e' or a positive real other than 1")
     return value
 
-- 
2.43.0


From ccf2dedb0a5ff9fd1772afc095ee4f5d120bebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 59/67] fix: gaussian_q and gaussian_q_inv refused an empty
 array

---
 src/komm/_util/special_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_util/special_functions.py b/src/komm/_util/special_functions.py
index 0612861..a104609 100644
--- a/src/komm/_util/special_functions.py
+++ b/src/komm/_util/special_functions.py
@@ -37,7 +37,7 @@ def gaussian_q(x: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
                [0.5       ],
                [0.15865525]])
     """
-    result = np.vectorize(_gaussian_q)(x)
+    result = np.vectorize(_gaussian_q, otypes=[float])(x)
     return float(result) if np.ndim(result) == 0 else result
 
 
@@ -68,7 +68,7 @@ def gaussian_q_inv(y: npt.ArrayLike) -> npt.NDArray[np.floating] | float:
                [ 0.],
                [ 1.]])
     """
-    result = np.vectorize(_gaussian_q_inv)(y) + 0.0  # + 0.0 to avoid -0.0
+    result = np.vectorize(_gaussian_q_inv, otypes=[float])(y) + 0.0  # + 0.0 to avoid -0.0
     return float(result) if np.ndim(result) == 0 else result
 
 
-- 
2.43.0


From 89880a9491fbdfc99cce7aac9cf226afbb781bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 60/67] fix: a systematic block code returned boolean messages
 for boolean words

---
 src/komm/_error_control_block/SystematicBlockCode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_error_control_block/SystematicBlockCode.py b/src/komm/_error_control_block/SystematicBlockCode.py
index 7a4844b..d8a6ba1 100644
--- a/src/komm/_error_control_block/SystematicBlockCode.py
+++ b/src/komm/_error_control_block/SystematicBlockCode.py
@@ -182,7 +182,7 @@ class SystematicBlockCode(abc.BlockCode):
     def project_word(self, input: npt.ArrayLike) -> npt.NDArray[np.integer]:
         @blockwise(self.length)
         def project(v: npt.NDArray[np.integer]) -> npt.NDArray[np.integer]:
-            u = v[..., self.information_set]
+            u = v[..., self.information_set].astype(int)
             return u
 
         return project(input)
-- 
2.43.0


From 4adee2f236ac3eddf7696713e4b9a42179f53b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:52 +0000
Subject: [PATCH 61/67] fix: an APSK constellation accepted rings without an
 amplitude or phase

---
 src/komm/_constellations/APSKConstellation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/komm/_constellations/APSKConstellation.py b/src/komm/_constellations/APSKConstellation.py
index c584d17..6bfb4e0 100644
--- a/src/komm/_constellations/APSKConstellation.py
+++ b/src/komm/_constellations/APSKConstellation.py
@@ -62,6 +62,8 @@ class APSKConstellation(abc.Constellation[np.complexfloating]):
             self._phase_offsets = phase_offsets
         else:
             self._phase_offsets = (phase_offsets,) * len(orders)
+        if not len(orders) == len(amplitudes) == len(self._phase_offsets):
+            raise ValueError("'orders', 'amplitudes', and 'phase_offsets' must match")
 
     def __repr__(self) -> str:
         args = ", ".join([
-- 
2.43.0


From f09ac2e6161d6b6e37b23919b82c5339006a6212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:17 +0000
Subject: [PATCH 62/67] fix: a labeling accepted fractions as bits and kept
 boolean matrices boolean

---
 src/komm/_labelings/Labeling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/komm/_labelings/Labeling.py b/src/komm/_labelings/Labeling.py
index 6ec3957..1a345cb 100644
--- a/src/komm/_labelings/Labeling.py
+++ b/src/komm/_labelings/Labeling.py
@@ -19,8 +19,9 @@ class Labeling(abc.Labeling):
         M, m = matrix.shape
         if M != 2**m:
             raise ValueError(f"shape of 'matrix' must be (2**m, m) (got ({M}, {m}))")
-        if np.any(matrix < 0) or np.any(matrix > 1):
+        if not np.all(np.isin(matrix, [0, 1])):
             raise ValueError("elements of 'matrix' must be either 0 or 1")
+        matrix = matrix.astype(int)
         if len(set(tuple(row) for row in matrix)) != M:
             raise ValueError("rows of 'matrix' must be distinct")
         self._matrix = matrix
-- 
2.43.0


From 5ae487cc7e850fb63905a8d6315a2bb6584b4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:44 +0000
Subject: [PATCH 63/67] fix: mutual information of the binary channels for
 input pmfs that sum to one only approximately

---
 src/komm/_channels/BinaryErasureChannel.py   | 2 +-
 src/komm/_channels/BinarySymmetricChannel.py | 2 +-
 src/komm/_channels/ZChannel.py               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_channels/BinaryErasureChannel.py b/src/komm/_channels/BinaryErasureChannel.py
index 7843d07..54acf94 100644
--- a/src/komm/_channels/BinaryErasureChannel.py
+++ b/src/komm/_channels/BinaryErasureChannel.py
@@ -83,7 +83,7 @@ class BinaryErasureChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         epsilon = self.erasure_probability
-        pi = input_pmf[1]
+        pi = input_pmf[1] / input_pmf.sum()  # The pmf sums to one only approximately
         return (1.0 - epsilon) * binary_entropy(pi) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
diff --git a/src/komm/_channels/BinarySymmetricChannel.py b/src/komm/_channels/BinarySymmetricChannel.py
index 02f5322..8f9a627 100644
--- a/src/komm/_channels/BinarySymmetricChannel.py
+++ b/src/komm/_channels/BinarySymmetricChannel.py
@@ -83,7 +83,7 @@ class BinarySymmetricChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.crossover_probability
-        pi = input_pmf[1]
+        pi = input_pmf[1] / input_pmf.sum()  # The pmf sums to one only approximately
         return (binary_entropy(p + pi - 2 * p * pi) - binary_entropy(p)) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
diff --git a/src/komm/_channels/ZChannel.py b/src/komm/_channels/ZChannel.py
index b243619..7c737d4 100644
--- a/src/komm/_channels/ZChannel.py
+++ b/src/komm/_channels/ZChannel.py
@@ -83,7 +83,7 @@ class ZChannel(abc.DiscreteMemorylessChannel):
         base = validate_log_base(base)
         base = e if base == "e" else base
         p = self.decay_probability
-        pi = float(input_pmf[1])
+        pi = float(input_pmf[1] / input_pmf.sum())  # The pmf sums to one only approximately
         return (binary_entropy(pi * (1 - p)) - pi * binary_entropy(p)) / log2(base)
 
     def capacity(self, base: float | Literal["e"] = 2.0) -> float:
-- 
2.43.0


From cac3f2be21467bbdc7bc2edf87c801a582c3cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:34 +0000
Subject: [PATCH 64/67] fix: absorbing states of Markov chains whose rows sum
 to one only approximately

---
 src/komm/_sources/MarkovChain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/komm/_sources/MarkovChain.py b/src/komm/_sources/MarkovChain.py
index c6d4d1b..ace2733 100644
--- a/src/komm/_sources/MarkovChain.py
+++ b/src/komm/_sources/MarkovChain.py
@@ -410,7 +410,10 @@ class MarkovChain:
             >>> chain.absorbing_states()
             {2}
         """
-        return {i for i in range(self.num_states) if self.transition_matrix[i, i] == 1}
+        # The rows sum to one only approximately.
+        return {
+            i for i in range(self.num_states) if self._accessible_states_from(i) == {i}
+        }
 
     @cache
     def is_absorbing(self) -> bool:
-- 
2.43.0


From 69028a90d0bb2e6553854cc80d2f09158582c608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:51 +0000
Subject: [PATCH 65/67] fix: binary polynomials hash as the integers they equal

---
 src/komm/_algebra/BinaryPolynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index fdcb3af..d380639 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -61,7 +61,7 @@ class BinaryPolynomial:
         return self.value
 
     def __hash__(self) -> int:
-        return self.value
+        return hash(self.value)  # Equal to an integer, hence hashed as one
 
     @property
     def ambient(self):
-- 
2.43.0


From c8197331d1f3d2cade22e8a75de4f3c5599d296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:26 +0000
Subject: [PATCH 66/67] fix: pulses at the least element of narrow integer
 types

---
 src/komm/_pulses/BeaulieuPulse.py     | 2 +-
 src/komm/_pulses/ManchesterPulse.py   | 2 +-
 src/komm/_pulses/RaisedCosinePulse.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/komm/_pulses/BeaulieuPulse.py b/src/komm/_pulses/BeaulieuPulse.py
index cbfa229..7195d48 100644
--- a/src/komm/_pulses/BeaulieuPulse.py
+++ b/src/komm/_pulses/BeaulieuPulse.py
@@ -86,7 +86,7 @@ class BeaulieuPulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         β = 2 * np.log(2) / α
diff --git a/src/komm/_pulses/ManchesterPulse.py b/src/komm/_pulses/ManchesterPulse.py
index 2709246..7b13d64 100644
--- a/src/komm/_pulses/ManchesterPulse.py
+++ b/src/komm/_pulses/ManchesterPulse.py
@@ -96,7 +96,7 @@ class ManchesterPulse(abc.Pulse):
             ... )
             array([ 0.  , -0.25, -0.5 ,  0.25,  1.  ,  0.25, -0.5 , -0.25,  0.  ])
         """
-        tau = np.asarray(tau)
+        tau = np.asarray(tau, dtype=float)
         return tri(2 * tau) - 0.5 * tri(2 * (tau - 0.5)) - 0.5 * tri(2 * (tau + 0.5))
 
     def energy_spectral_density(self, f: npt.ArrayLike) -> npt.NDArray[np.floating]:
diff --git a/src/komm/_pulses/RaisedCosinePulse.py b/src/komm/_pulses/RaisedCosinePulse.py
index 8b76b7b..0e4424f 100644
--- a/src/komm/_pulses/RaisedCosinePulse.py
+++ b/src/komm/_pulses/RaisedCosinePulse.py
@@ -76,7 +76,7 @@ class RaisedCosinePulse(abc.Pulse):
             array([0. , 0. , 0.5, 1. , 1. , 1. , 0.5, 0. , 0. ])
         """
         α = self.rolloff
-        f = np.asarray(f)
+        f = np.asarray(f, dtype=float)
         if α == 0:
             return rect(f).astype(complex)
         f1 = (1 - α) / 2
-- 
2.43.0


From 9ab2512498f98bcb8e8b48bc045193f5b322fcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:17 +0000
Subject: [PATCH 67/67] fix: shifting binary polynomials by NumPy integers

---
 src/komm/_algebra/BinaryPolynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/komm/_algebra/BinaryPolynomial.py b/src/komm/_algebra/BinaryPolynomial.py
index d380639..b8ba6d4 100644
--- a/src/komm/_algebra/BinaryPolynomial.py
+++ b/src/komm/_algebra/BinaryPolynomial.py
@@ -103,10 +103,10 @@ class BinaryPolynomial:
         return NotImplemented
 
     def __lshift__(self, n: int) -> Self:
-        return self.__class__(self.value << n)
+        return self.__class__(self.value << int(n))
 
     def __rshift__(self, n: int) -> Self:
-        return self.__class__(self.value >> n)
+        return self.__class__(self.value >> int(n))
 
     def __add__(self, other: Self) -> Self:
         return self.__class__(self.value ^ other.value)
-- 
2.43.0

