From f76b8eeaaddd2d276a45f8312f9934c8acbc0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 01/40] verif hook: table sizes overridable under
 QDD_VERIF_TABLES

---
 include/common.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/common.h b/include/common.h
index 88e95c2..5b5ab7a 100644
--- a/include/common.h
+++ b/include/common.h
@@ -25,10 +25,18 @@
 
 using duration_micro = std::chrono::duration<double, std::micro>;
 
+#ifdef QDD_VERIF_TABLES
+// Verification builds only: table sizes chosen by the harness.
+const std::size_t NQUBITS = QDD_VERIF_NQUBITS;
+const std::size_t NBUCKETS = QDD_VERIF_NBUCKETS;
+const std::size_t INITIAL_ALLOCATION_SIZE = QDD_VERIF_ALLOC;
+const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = QDD_VERIF_ALLOC_CACHE;
+#else
 const std::size_t NQUBITS = 100;
 const std::size_t NBUCKETS = 524288;
 const std::size_t INITIAL_ALLOCATION_SIZE = 1024*2;
 const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = 1024*8;
+#endif
 const std::size_t GROWTH_FACTOR = 2;
 
 using Qubit = int32_t;
-- 
2.43.0


From c2c705f06db25a77479feaf2cc5885ae231f66ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 02/40] fix: place every target of a multi-qubit gate, without
 changing the caller's matrix

makeLargeGate iterated its row permutation once per matrix row rather than
once per target (reading past the end of the target list) and permuted the
caller's matrix in place, so building a second gate from it gave another gate.
---
 src/dd.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..c107dc1 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -532,21 +532,18 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < targets.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
             conversionMap.push_back(conversionMap[j] + addition);
         }
     }
-    // swap rows and columns
-    std::vector<std::vector<std::complex<double>>> g_tmp;
-    for (int i = 0; i < rows; i++) {
-        g_tmp.push_back(g[conversionMap[i]]);
-    }
+    // swap rows and columns (on a copy: g belongs to the caller)
+    ComplexMatrix g_sorted(rows, std::vector<std::complex<double>>(cols));
     for (int i = 0; i < rows; i++) {
-        for (int j = 0; j < rows; j++) {
-            g[i][j] = g_tmp[i][conversionMap[j]];
+        for (int j = 0; j < cols; j++) {
+            g_sorted[i][j] = g[conversionMap[i]][conversionMap[j]];
         }
     }
 
@@ -556,7 +553,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         skip[target] = false;
     }
 
-    return makeLargeGate(g, q - 1, 0, rows, 0, cols, skip, target_min);
+    return makeLargeGate(g_sorted, q - 1, 0, rows, 0, cols, skip, target_min);
 }
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
                     const std::size_t rowStart, const std::size_t rowEnd,
-- 
2.43.0


From 4e63524fbc04420996f86cb516944707dc8cafe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 03/40] fix: do not lose vectors and matrices whose root weight
 is small

The root weight of a uniform superposition of n qubits is 2^(-n/2), below
TOLERANCE from 87 qubits on; multiplication and addition then returned zero.
Work relative to the root weights instead.
---
 src/dd.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index c107dc1..6fcf545 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -940,9 +940,18 @@ mEdge mm_add(const mEdge &lhs, const mEdge &rhs) {
     if (lhs.isTerminal() && rhs.isTerminal()) {
         return {lhs.w + rhs.w, mNode::terminal};
     }
+    if (lhs.w.isZero() || rhs.w.isZero()) {
+        return lhs.w.isZero() ? rhs : lhs;
+    }
 
+    // A root weight may legitimately be smaller than TOLERANCE (many qubits):
+    // add relative to the larger of the two.
     Qubit root = rootVar(lhs, rhs);
-    return mm_add2(lhs, rhs, root);
+    const std_complex scale = (lhs.w.mag2() < rhs.w.mag2()) ? rhs.w : lhs.w;
+    mEdge result =
+        mm_add2({lhs.w / scale, lhs.n}, {rhs.w / scale, rhs.n}, root);
+    result.w *= scale;
+    return result;
 }
 
 mEdge mm_multiply2(const mEdge &lhs, const mEdge &rhs, int32_t current_var) {
@@ -1044,8 +1053,15 @@ mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs) {
         return {lhs.w * rhs.w, mNode::terminal};
     }
 
+    if (lhs.w.isZero() || rhs.w.isZero()) {
+        return mEdge::zero;
+    }
+
+    // A root weight may legitimately be smaller than TOLERANCE (many qubits):
+    // multiply without the root weights.
     Qubit root = rootVar(lhs, rhs);
-    mEdge result = mm_multiply2(lhs, rhs, root);
+    mEdge result = mm_multiply2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n}, root);
+    result.w *= lhs.w * rhs.w;
     return result;
 }
 
@@ -1187,7 +1203,17 @@ vEdge vv_add(const vEdge &lhs, const vEdge &rhs) {
         return {lhs.w + rhs.w, vNode::terminal};
     }
 
-    return vv_add2(lhs, rhs, rhs.getVar());
+    if (lhs.w.isZero() || rhs.w.isZero()) {
+        return lhs.w.isZero() ? rhs : lhs;
+    }
+
+    // A root weight may legitimately be smaller than TOLERANCE (many qubits):
+    // add relative to the larger of the two.
+    const std_complex scale = (lhs.w.mag2() < rhs.w.mag2()) ? rhs.w : lhs.w;
+    vEdge result = vv_add2({lhs.w / scale, lhs.n}, {rhs.w / scale, rhs.n},
+                           rhs.getVar());
+    result.w *= scale;
+    return result;
 }
 
 vEdge vv_kronecker2(const vEdge &lhs, const vEdge &rhs) {
@@ -1468,8 +1494,18 @@ vEdge mv_multiply(mEdge lhs, vEdge rhs) {
     if (lhs.isTerminal() && rhs.isTerminal()) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
+    if (lhs.w.isZero() || rhs.w.isZero()) {
+        return vEdge::zero;
+    }
     LIMIT = rhs.getVar() - MINUS;
-    vEdge v = mv_multiply2(lhs, rhs, rhs.getVar());
+    // A root weight may legitimately be smaller than TOLERANCE (many qubits):
+    // multiply without the root weights.
+    vEdge v = mv_multiply2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n},
+                           rhs.getVar());
+    v.w *= lhs.w * rhs.w;
+    if (v.w.isApproximatelyOne()) {
+        v.w = {1.0, 0.0};
+    }
     //_mCache.hitRatio();
     //_aCache.hitRatio();
     // vUnique.dump();
-- 
2.43.0


From f8103b18f1a0ee9f1c8cfc96b3ebd384330f60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 04/40] fix: look up products by both operands

The multiplication cache chose its bucket (4 entries) from the left operand
alone.  A gate is one node applied to many vector nodes, so its entries evicted
each other and applying one gate took time exponential in the number of qubits
(26-qubit graph state of 51 nodes: 20 s).
---
 include/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cache.hpp b/include/cache.hpp
index 396b41e..b562102 100644
--- a/include/cache.hpp
+++ b/include/cache.hpp
@@ -319,7 +319,7 @@ class MulCache{
                 uintptr_t l = reinterpret_cast<uintptr_t>(lhs);
                 uintptr_t r = reinterpret_cast<uintptr_t>(rhs);
 
-                std::size_t key = murmur_hash(l) % NBUCKETS; 
+                std::size_t key = hash_combine(murmur_hash(l), murmur_hash(r)) % NBUCKETS;
 
                 return find_in_bucket<RetT>(t, key ,l, r);
 
@@ -345,7 +345,7 @@ class MulCache{
                 uintptr_t l = reinterpret_cast<uintptr_t>(lhs);
                 uintptr_t r = reinterpret_cast<uintptr_t>(rhs);
 
-                std::size_t key = murmur_hash(l) % NBUCKETS; 
+                std::size_t key = hash_combine(murmur_hash(l), murmur_hash(r)) % NBUCKETS;
 
                 return set_in_bucket<ResT>(t, key ,l, r, result);
                 
-- 
2.43.0


From 7ac7adb5bf8c97d88a86cf2bd06d7757c07f7269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 05/40] fix: honour ctrl_state of controlled gates

Open controls (ctrl_state with zero bits) were evaluated as closed ones, silently giving wrong states.
---
 qdd/qdd_backend.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..d370286 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -421,6 +421,18 @@ class QddBackend(BackendV1):
     def get_cID(self, cbit):
         return self.cbitmap[cbit]
 
+    @staticmethod
+    def _flip_open_controls(gate, n_qubit, inst, controls):
+        """Makes the controls that ctrl_state asks to fire on |0> do so; 'gate' has been built with closed controls."""
+        ctrl_state = getattr(inst, "ctrl_state", None)
+        if ctrl_state is None:
+            return gate
+        for k, control in enumerate(controls):
+            if not (ctrl_state >> k) & 1:
+                flip = pyQDD.makeGate(n_qubit, "X", control)
+                gate = pyQDD.mm_multiply(flip, pyQDD.mm_multiply(gate, flip))
+        return gate
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -462,6 +474,7 @@ class QddBackend(BackendV1):
                     gate = pyQDD.makeGate(
                         n_qubit, matrix, self.get_qID(qargs[-1]), controls
                     )
+                    gate = self._flip_open_controls(gate, n_qubit, i, controls)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_2q:
                     controls = []
@@ -478,6 +491,7 @@ class QddBackend(BackendV1):
                         self.get_qID(qargs[-2]),
                         controls,
                     )
+                    gate = self._flip_open_controls(gate, n_qubit, i, controls)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
@@ -787,6 +801,7 @@ class QddBackend(BackendV1):
                             map_after_swap[self.get_qID(qargs[-1])],
                             controls,
                         )
+                        gate = self._flip_open_controls(gate, n_qubit, i, controls)
                         current = (
                             pyQDD.mv_multiply(gate, current)
                             if use_mpi == False
@@ -827,6 +842,7 @@ class QddBackend(BackendV1):
                             map_after_swap[self.get_qID(qargs[-2])],
                             controls,
                         )
+                        gate = self._flip_open_controls(gate, n_qubit, i, controls)
                         current = (
                             pyQDD.mv_multiply(gate, current)
                             if use_mpi == False
-- 
2.43.0


From 484a1ac4e010242ab01f792cfb5fd60608c85c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 06/40] fix: compare a conditional register's bits by their
 position in the register

The bit of the condition value was picked by the index of the clbit in the whole circuit, so conditions on any
register but the first were evaluated wrongly.
---
 qdd/qdd_backend.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index d370286..f3f0065 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -732,9 +732,8 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
-                            idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                        for pos, clbit in enumerate(classical):
+                            if val_cbit[self.get_cID(clbit)] != str((val >> pos) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From c7b4006ae0ecf8793188306a278bf59fcfe9a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 07/40] fix: honour the condition of a conditional measurement

A circuit whose only conditional instructions are measurements was taken as stable and the conditions were ignored.
---
 qdd/qdd_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f3f0065..acb4a0d 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1113,6 +1113,8 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From d2702e8ca7071f0e3c79b111b110d1f1c3314b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 08/40] fix: exact probabilities of measured bits when
 shots=None

The distribution over all qubits was returned whatever the measurements read: unmeasured qubits were not summed out
and bits were not put in their place (Estimator expectation values of observables on a subset of the qubits were
wrong). Clbits that are never written read 0, and a barrier after a measurement does not make the state unstable.
---
 qdd/qdd_backend.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index acb4a0d..1937ef0 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -712,7 +712,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
+        prob_cbit = [1] * n_cbit  # probabilities of 0
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
@@ -1025,6 +1025,16 @@ class QddBackend(BackendV1):
                     if use_mpi == False
                     else pyQDD.probabilitiesMPI(current)
                 )
+                # (qubit, clbit) pairs; without measurements, the distribution of all qubits is returned
+                read = sorted(
+                    (map_after_swap[self.get_qID(qubit)], self.get_cID(clbit))
+                    for clbit, qubit in circ_prop.clbit_final_values.items()
+                )
+                if read and read != [(q, q) for q in range(n_qubit)]:
+                    # sum up over the qubits that are not read, and put each clbit in its place
+                    prob_qubits, prob = prob, Counter()
+                    for i, p in enumerate(prob_qubits):
+                        prob[sum(((i >> q) & 1) << c for q, c in read)] += p
             else:
                 prob = [1] * (2**n_cbit)
                 for i in range(2**n_cbit):
@@ -1034,7 +1044,7 @@ class QddBackend(BackendV1):
                         else:
                             prob[i] *= prob_cbit[j]
             probabilities = {}
-            for i, p in enumerate(prob):
+            for i, p in prob.items() if isinstance(prob, dict) else enumerate(prob):
                 probabilities[i] = p
             result_data: Dict[str, Any] = {"probabilities": probabilities}
             if self._save_SV:
@@ -1115,6 +1125,8 @@ class QddBackend(BackendV1):
                 measured_qubits |= set(qargs)
                 if inst.condition is not None:
                     stable_final_state = False
+            elif inst.base_class == Barrier:
+                continue
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 7d9fd4108e61fa74bc5ba819faac9439286554d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 09/40] fix: accept the same parameterized circuit several
 times in one Sampler call

The backend takes one set of parameter values per circuit, but repeated circuits were merged as if their values
could be appended to a list, which raised AttributeError.
---
 qdd/qdd_sampler.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..1b1e122 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,9 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From 2acee5ad3edf67d4125e4a7b8d5a06ccc681be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 10/40] fix: pair every Estimator experiment with its own
 parameters and result

Experiments were sorted by measurement basis while parameter bindings and result indices were not, so batches with
several bases and parameter values mixed up results; identity-only observables stopped the preparation of the
remaining circuits (KeyError) and identity terms without grouping produced circuits without measurements.
---
 qdd/qdd_estimator.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..ee206aa 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -214,7 +214,11 @@ class Estimator(BaseEstimator):
                 pauli_list = sum(
                     [self._observables[obs_ind].paulis for obs_ind in obs_indices]
                 ).unique()
-                if self._abelian_grouping:
+                # identity terms need no experiment
+                pauli_list = pauli_list[pauli_list.x.any(axis=1) | pauli_list.z.any(axis=1)]
+                if len(pauli_list) == 0:
+                    pauli_lists = []
+                elif self._abelian_grouping:
                     pauli_lists = pauli_list.group_commuting(qubit_wise=True)
                 else:
                     pauli_lists = [PauliList(pauli) for pauli in pauli_list]
@@ -225,12 +229,12 @@ class Estimator(BaseEstimator):
                             if pauli in pauli_list:
                                 obs_map[obs_ind].append(basis_ind)
                                 break
+                        else:  # identity
+                            obs_map[obs_ind].append(None)
                 obs_maps[circ_ind] = obs_map
                 bases = [_paulis2basis(pauli_list) for pauli_list in pauli_lists]
-                if (
-                    len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
-                ):  # identity
-                    break
+                if not bases:  # identity
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -301,6 +305,8 @@ class Estimator(BaseEstimator):
             self._validate_parameter_length(param_val, circ_ind)
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                if basis_ind is None:
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
@@ -316,20 +322,13 @@ class Estimator(BaseEstimator):
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
-        experiments_unsorted = {}
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
-            indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+        for circ_ind, basis_map in exp_map.items():
+            for basis_ind, (parameters, param_vals) in basis_map.items():
                 for param_val in param_vals:
-                    experiments_unsorted[i] = experiments_dict[circ_ind][i]
-                    indices.append(i)
-                    parameter_binds.extend(
-                        [{param: param_val[i] for i, param in enumerate(parameters)}]
-                    )
-            for i in sorted(indices):
-                experiments_list.append(experiments_unsorted[i])
+                    experiments_list.append(experiments_dict[circ_ind][basis_ind])
+                    parameter_binds.append(dict(zip(parameters, param_val)))
 
         return experiments_list, parameter_binds
 
@@ -380,7 +379,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From ff266fca8a457c21cc99cfd447a6e47431bb5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 11/40] fix: Estimator with approximation=True and no
 run_options, or shots given to run()

The constructor raised TypeError without run_options, and the documented run option shots was ignored.
---
 qdd/qdd_estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index ee206aa..15df798 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,10 +113,6 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
-            self._approximation_shots = run_options["shots"]
-        else:
-            self._approximation_shots = None
         self._skip_transpilation = skip_transpilation
         self._cache: dict[tuple[tuple[int], tuple[int], bool], tuple[dict, dict]] = {}
         self._transpiled_circuits: dict[int, QuantumCircuit] = {}
@@ -179,6 +175,9 @@ class Estimator(BaseEstimator):
 
     def _compute(self, circuits, observables, parameter_values, run_options, seed):
 
+        # With approximation, the number of shots only scales the noise
+        approximation_shots = run_options.get("shots") if self._approximation else None
+
         # Key for cache
         key = (tuple(circuits), tuple(observables), self._approximation)
 
@@ -196,7 +195,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
         else:
@@ -261,7 +260,7 @@ class Estimator(BaseEstimator):
                 obs_maps,
                 exp_map,
                 self._approximation,
-                self._approximation_shots,
+                approximation_shots,
                 seed,
             )
 
-- 
2.43.0


From ed77b51ac00ffd787d3b33d9e2295852b42df9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 12/40] fix: refuse control-flow operations instead of skipping
 them when their condition is false

---
 qdd/qdd_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1937ef0..b87c44f 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -12,7 +12,7 @@ from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
 from qiskit import QuantumCircuit as QiskitCircuit
 from qiskit.result import Result
-from qiskit.circuit import Barrier, Clbit, Measure, Qubit, Reset
+from qiskit.circuit import Barrier, Clbit, ControlFlowOp, Measure, Qubit, Reset
 import qiskit.circuit.library as qiskit_gates
 from qiskit.circuit.library import Initialize
 from qiskit.transpiler import CouplingMap
@@ -726,6 +726,13 @@ class QddBackend(BackendV1):
             )
             for i, qargs, cargs in circ.data:
                 skip = False
+                if isinstance(i, ControlFlowOp):
+                    # its condition does not decide whether, but how, the operation takes effect
+                    raise RuntimeError(
+                        f"Unsupported gate or instruction:"
+                        f" type={i.base_class.__name__}, name={i.name}."
+                        f" It needs to transpile the circuit before evaluating it."
+                    )
                 if i.condition is not None:
                     classical, val = i.condition
                     if isinstance(classical, Clbit):
-- 
2.43.0


From 90048a1c00c346409920a2f19980fe4836bebec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 13/40] fix: seed_simulator seeds the measurements of the job

---
 qdd/bindings.cpp   | 1 +
 qdd/qdd_backend.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..912933e 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -270,6 +270,7 @@ PYBIND11_MODULE(pyQDD, m) {
     // Measure
     m.def("measureAll", _measureAll)
         .def("measureOneCollapsing", _measureOneCollapsing);
+    m.def("seed", [](uint64_t seed) { mt.seed(seed); });
     m.def("getVector", _getVector);
     m.def("probabilities", _probabilities);
     m.def("measureOne", _measureOne);
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index b87c44f..1151944 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -372,6 +372,8 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
+        if experiments.options["seed_simulator"] is not None:
+            pyQDD.seed(experiments.options["seed_simulator"])
         if experiments.options["n_threads"] > 1:
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
-- 
2.43.0


From 85c3b22727f5b07813a0013c2c9b442401ba7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 14/40] fix: merge_circuit with unitary gates

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1151944..ca6542b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -497,7 +497,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(q) for q in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From 5e40e0e1e4eec65ad80334908389d904d34e2312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 15/40] fix: merge_circuit refuses what it cannot merge instead
 of leaving it out

---
 qdd/qdd_backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index ca6542b..eea0c5d 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -450,6 +450,12 @@ class QddBackend(BackendV1):
                 continue
             if qiskit_gate_type == Measure:
                 continue
+            if qiskit_gate_type not in _supported_qiskit_gates or i.condition is not None:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" Only unitary gates can be merged."
+                )
             assert len(cargs) == 0
 
             if qiskit_gate_type in _supported_qiskit_gates:
-- 
2.43.0


From 830faffc5bbbacc8b1b0f9f6751eba925c2e4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 16/40] fix: apply a QDDGate to the qubits it is given

---
 qdd/qdd_backend.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index eea0c5d..1b92fbf 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -435,6 +435,18 @@ class QddBackend(BackendV1):
                 gate = pyQDD.mm_multiply(flip, pyQDD.mm_multiply(gate, flip))
         return gate
 
+    @staticmethod
+    def _place_gate(gate, n_qubit, targets):
+        """Moves a gate that acts on the qubits 0, 1, ... to the given qubits."""
+        position = list(range(n_qubit))
+        for k, target in enumerate(targets):
+            if position[k] != target:
+                swap = pyQDD.SWAP(n_qubit, position[k], target)
+                gate = pyQDD.mm_multiply(swap, pyQDD.mm_multiply(gate, swap))
+                position[position.index(target)] = position[k]
+                position[k] = target
+        return gate
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -507,7 +519,9 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-                    gate = i.params[0]
+                    gate = self._place_gate(
+                        i.params[0], n_qubit, [self.get_qID(q) for q in qargs]
+                    )
                     current = pyQDD.mm_multiply(gate, current)
                 else:
                     raise RuntimeError(
@@ -908,7 +922,9 @@ class QddBackend(BackendV1):
                             )
                         )
                     elif qiskit_gate_type in _qdd_gate:
-                        gate = i.params[0]
+                        gate = self._place_gate(
+                            i.params[0], n_qubit, [self.get_qID(q) for q in qargs]
+                        )
                         if use_mpi and use_auto_swap:
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
-- 
2.43.0


From 4a7598cd9cc87e12ec73dc50e687036f8b358360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 17/40] fix: distribute gates whose upper qubits are left out
 of their diagram

---
 src/dd.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 6fcf545..d8909b4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -598,8 +598,11 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
 }
 
 #ifdef isMPI
-mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
-    if (root.isTerminal() || world_size <= 1) {
+// 'level' is the qubit that the most significant bit of 'row' and 'col' stands
+// for.
+static mEdge getMPIGate(mEdge root, int row, int col, int world_size,
+                        int level) {
+    if (world_size <= 1) {
         return root;
     }
 
@@ -621,9 +624,22 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     if (col >= border) {
         index += 1;
     }
-    mEdge tmp = root.getNode()->children[index];
-    tmp.w *= root.w;
-    return getMPIGate(tmp, row % border, col % border, border);
+    mEdge tmp = root;
+    if (root.isTerminal() || root.getVar() < level) {
+        // identity on this qubit
+        if (index == 1 || index == 2) {
+            return mEdge::zero;
+        }
+    } else {
+        tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+    }
+    return getMPIGate(tmp, row % border, col % border, border, level - 1);
+}
+
+mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
+    return getMPIGate(root, row, col, world_size,
+                      root.isTerminal() ? -1 : root.getVar());
 }
 #endif
 
@@ -684,7 +700,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -702,7 +718,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -824,7 +840,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -842,7 +858,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From 7ddb57f52ae6e955f5493115cc3e6b722775941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 18/40] fix: read a distributed qubit's value off its own bit
 of the rank

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index d8909b4..10b37ae 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1789,7 +1789,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1860,7 +1860,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From c7fac4bd9b735bc2a96b85092b6d867c81dc7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 19/40] fix: keep the places of zero parts in gathered vectors
 and probabilities

---
 qdd/bindings.cpp | 17 +++++++++++++----
 src/dd.cpp       |  8 ++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 912933e..91d121a 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -148,18 +148,27 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) {
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
     }
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
 
+    // ranks whose part of the vector is zero do not know its size
+    std::size_t local_size = 0;
+    for (const auto &part : all_results) {
+        local_size = std::max(local_size, part.size());
+    }
+
     std::vector<std::complex<double>> final_result;
     for (int i = 0; i < all_results.size(); i++) {
+        all_results[i].resize(local_size, {0.0, 0.0});
         for (int j = 0; j < all_results[i].size(); j++) {
             final_result.push_back(
                 std::complex(all_results[i][j].r, all_results[i][j].i));
diff --git a/src/dd.cpp b/src/dd.cpp
index 10b37ae..3f75eb6 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1598,6 +1598,14 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
 
     std::vector<std::vector<double>> all_result;
     bmpi::all_gather(world, each_result, all_result);
+    // ranks whose part of the vector is zero do not know its size
+    std::size_t local_size = 0;
+    for (const auto &part : all_result) {
+        local_size = std::max(local_size, part.size());
+    }
+    for (auto &part : all_result) {
+        part.resize(local_size, 0.0);
+    }
     auto final_result = flatten(all_result);
 
     return final_result;
-- 
2.43.0


From 9337e3f4cf9a39c2000e597a0124c52299cb5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 20/40] fix: never measure a rank whose part of the vector is
 zero

---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 3f75eb6..2b90200 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1637,9 +1637,12 @@ std::string measureAllMPI(bmpi::communicator &world, vEdge &rootEdge,
         double current = 0;
         int target_rank = 0;
         for (int i = 0; i < world.size(); i++) {
+            if (vec_prob[i] == 0) {
+                continue;
+            }
             current += vec_prob[i];
             target_rank = i;
-            if (threshold <= current) {
+            if (threshold < current) {
                 break;
             }
         }
-- 
2.43.0


From bc1872bedd0fafcdab79459c0789e84fd497507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 21/40] fix: save the weight of the root edge with the state

---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 2b90200..571edab 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2231,6 +2231,7 @@ void save_binary(vEdge edge, std::string file_name) {
     int nNodes = vNode_to_vec(edge.n, v, map);
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
+    binary_oa << edge.w;
     binary_oa << v;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
@@ -2238,11 +2239,13 @@ void save_binary(vEdge edge, std::string file_name) {
 
 vEdge load_binary(std::string file_name) {
     std::vector<vContent> v;
+    std_complex w;
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
+    binary_ia >> w;
     binary_ia >> v;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From ad9e6c76f878233418184c4708347c163e71114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 22/40] fix: normalize distributed vectors with zero parts

---
 src/dd.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 571edab..cf21717 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2405,8 +2405,12 @@ void dump(boost::mpi::communicator &world, vEdge e, int cycle) {
 }
 
 double adjust_weight(bmpi::communicator &world, vEdge rootEdge) {
-    const auto &[pzero, pone] = determineMeasurementProbabilities(rootEdge, 0);
-    double amp = pzero + pone;
+    double amp = 0; // of a rank whose part of the vector is zero
+    if (!rootEdge.isTerminal()) {
+        const auto &[pzero, pone] =
+            determineMeasurementProbabilities(rootEdge, 0);
+        amp = pzero + pone;
+    }
     double amp_sum = bmpi::all_reduce(world, amp, std::plus<double>());
     assert(amp_sum > 0);
     rootEdge.w = rootEdge.w / std_complex(std::sqrt(amp_sum), 0);
-- 
2.43.0


From 7def8316b92816c9ad3384590fc3813d06b3bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 23/40] fix: give results to the cache of the thread a fiber
 continues on

---
 src/dd.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index cf21717..852175f 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1131,6 +1131,22 @@ mEdge mm_kronecker(const mEdge &lhs, const mEdge &rhs) {
     return mm_kronecker2(lhs, rhs);
 }
 
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+// A fiber that waited for its subtasks may continue on another thread: look up
+// the cache of the current thread again instead of keeping a reference to it.
+// (Not inlined: the thread's identity must not be carried over the wait.)
+__attribute__((noinline)) static void cacheSum(const vEdge &lhs,
+                                               const vEdge &rhs,
+                                               const vEdge &result) {
+    _aCaches.local().set(lhs, rhs, result);
+}
+__attribute__((noinline)) static void cacheProduct(const mEdge &lhs,
+                                                   const vEdge &rhs,
+                                                   const vEdge &result) {
+    _mCaches.local().set(lhs.n, rhs.n, result);
+}
+#endif
+
 vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     if (lhs.w.isApproximatelyZero()) {
         if (rhs.w.isApproximatelyZero()) {
@@ -1209,7 +1225,11 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    cacheSum(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1495,7 +1515,11 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    cacheProduct(lhs, rhs, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From deace6d3e1c8cc0a8f7eee9bb9d8ccfae6cddf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 24/40] fix: start and stop worker threads any number of times

---
 include/task.h | 10 ++++++++--
 src/task.cpp   | 23 ++++++++++++++---------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..114c6f3 100644
--- a/include/task.h
+++ b/include/task.h
@@ -7,7 +7,9 @@
 #include <boost/fiber/mutex.hpp>
 #include <boost/fiber/condition_variable.hpp>
 #include <boost/fiber/algo/algorithm.hpp>
+#include <boost/fiber/detail/thread_barrier.hpp>
 #include "wsq.hpp"
+#include <memory>
 #include <thread>
 #include <atomic>
 #include <vector>
@@ -25,6 +27,7 @@ class my_ws : public algorithm {
 private:
     static std::atomic< std::uint32_t >                     counter_;
     static std::vector< intrusive_ptr< my_ws > >    schedulers_;
+    static std::unique_ptr< detail::thread_barrier >        barrier_;
 
     std::uint32_t                                           id_;
     std::uint32_t                                           thread_count_;
@@ -41,10 +44,12 @@ private:
     bool                                                    flag_{ false };
     bool                                                    suspend_;
 
-    static void init_( std::uint32_t, std::vector< intrusive_ptr< my_ws > > &);
-
 public:
 
+    // To be called before a group of threads, of the given number, starts
+    // to use this algorithm.
+    static void restart( std::uint32_t);
+
     my_ws( std::uint32_t, bool = false);
 
     my_ws( my_ws const&) = delete;
@@ -100,5 +105,6 @@ private:
 
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
+    bool stopped{false};
 };
 
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..91ea471 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -23,21 +23,20 @@ namespace algo {
 std::atomic<std::uint32_t> my_ws::counter_{0};
 std::vector<intrusive_ptr<my_ws>> my_ws::schedulers_{};
 
-void my_ws::init_(std::uint32_t thread_count,
-                  std::vector<intrusive_ptr<my_ws>> &schedulers) {
+std::unique_ptr<detail::thread_barrier> my_ws::barrier_{};
+
+void my_ws::restart(std::uint32_t thread_count) {
+    counter_ = 0;
     // resize array of schedulers to thread_count, initilized with nullptr
-    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
+    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers_);
+    barrier_ = std::make_unique<detail::thread_barrier>(thread_count);
 }
 
 my_ws::my_ws(std::uint32_t thread_count, bool suspend)
     : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
     // register pointer of this scheduler
     schedulers_[id_] = this;
-    b.wait();
+    barrier_->wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -123,7 +122,7 @@ void Scheduler::spawn() {
                     boost::fibers::algo::my_ws>(this->_nworkers + 1);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this]() { return stopped; });
                 }
             },
             i);
@@ -150,13 +149,19 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
     for (int i = 0; i < _nworkers; i++) {
         _workers.emplace_back(WorkerThread());
     }
+    boost::fibers::algo::my_ws::restart(_nworkers + 1);
     this->spawn();
 }
 
 Scheduler::~Scheduler() {
+    {
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        stopped = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
         w._thread->join();
+        delete w._thread;
     }
 }
-- 
2.43.0


From cb59c3a7865cadfc47de565190ad1288b94d9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:50 +0000
Subject: [PATCH 25/40] fix: do not end the process when a thread cannot be
 bound to a CPU

---
 src/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task.cpp b/src/task.cpp
index 91ea471..d8df198 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -135,8 +135,8 @@ void Scheduler::spawn() {
         CPU_SET(i, &cpuset);
         if (pthread_setaffinity_np(_workers[i]._thread->native_handle(),
                                    sizeof(cpu_set_t), &cpuset)) {
-            std::cout << "pthread_setaffinity_np failed" << std::endl;
-            exit(1);
+            // not more than a hint: there may be fewer CPUs than threads
+            std::cerr << "pthread_setaffinity_np failed" << std::endl;
         }
     }
 #endif
-- 
2.43.0


From 1dcd73914ed101558649c307d5bd6a3702759d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:58 +0000
Subject: [PATCH 26/40] fix: stop the worker threads of a job that fails

---
 qdd/qdd_backend.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1b92fbf..d20ac8e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -378,10 +378,14 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            if experiments.options["n_threads"] > 1:
+                pyQDD.terminateMT()
 
         result = Result.from_dict(
             {
@@ -394,9 +398,6 @@ class QddBackend(BackendV1):
             }
         )
 
-        if experiments.options["n_threads"] > 1:
-            pyQDD.terminateMT()
-
         return result
 
     def _create_qubitmap(self, circ: QiskitCircuit):
-- 
2.43.0


From f99e3bf0f255962da4e00e3b0f067aee295ad7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 27/40] fix: refuse gate names nobody defined instead of making
 a zero operator

---
 qdd/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 91d121a..88020d3 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -65,7 +65,7 @@ Controls get_controls(std::vector<Qubit> qs) {
 }
 
 mEdge makeGate(QubitCount q, std::string name, Qubit target) {
-    return makeGate(q, gateMap[name], target);
+    return makeGate(q, gateMap.at(name), target);
 }
 
 mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
@@ -76,7 +76,7 @@ mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
 
 mEdge makeGate(QubitCount q, std::string name, Qubit target,
                const std::vector<Qubit> controls) {
-    return makeGate(q, gateMap[name], target, controls);
+    return makeGate(q, gateMap.at(name), target, controls);
 }
 
 mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
-- 
2.43.0


From 62c8c47098f5398efe1cf69ec8bdf3bc274787f8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 28/40] fix: give back the memory of vectors that have been
 read out

---
 qdd/bindings.cpp | 2 ++
 src/dd.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 88020d3..1531732 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -53,6 +53,7 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
         std::complex<double> tmp(vec[i].r, vec[i].i);
         result.push_back(tmp);
     }
+    delete[] vec;
     return result;
 }
 
@@ -155,6 +156,7 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
         for (int i = 0; i < dim; i++) {
             result.push_back(vec[i]);
         }
+        delete[] vec;
     }
 
     std::vector<std::vector<std_complex>> all_results;
diff --git a/src/dd.cpp b/src/dd.cpp
index 852175f..5807748 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1419,6 +1419,7 @@ VectorXcf vEdge::getEigenVector() {
     for (auto i = 0; i < dim; i++) {
         V(i) = std::complex<double>{v[i].r, v[i].i};
     }
+    delete[] v;
     return V;
 }
 
-- 
2.43.0


From 962998780e0b46c9344464a4a625b87215104890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 29/40] fix: let circuits with QDD gates be sent to the other
 MPI processes

A matrix could not be pickled: rank 0 raised in the broadcast and the
others waited for ever.
---
 qdd/bindings.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 1531732..e6816b6 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -101,6 +101,48 @@ vEdge applyGlobal(vEdge org, double angle){
 }
 
 
+int mNode_to_vec(mNode *node, std::vector<mContent> &table,
+                 std::unordered_map<mNode *, int> &map);
+
+// A matrix as the list of its nodes: jobs with MPI send their circuits, and
+// with them the matrices of QDD gates, from rank 0 to the others.
+using MatrixNode = std::tuple<Qubit, std::array<std::complex<double>, 4>,
+                              std::array<int, 4>>;
+using MatrixState =
+    std::pair<std::complex<double>, std::vector<MatrixNode>>;
+
+MatrixState _getstate(const mEdge &edge) {
+    std::vector<mContent> table;
+    std::unordered_map<mNode *, int> map;
+    mNode_to_vec(edge.n, table, map);
+    MatrixState state;
+    state.first = {edge.w.r, edge.w.i};
+    for (const auto &c : table) {
+        std::array<std::complex<double>, 4> w;
+        for (int i = 0; i < 4; i++) {
+            w[i] = {c.w[i].r, c.w[i].i};
+        }
+        state.second.emplace_back(c.v, w, c.index);
+    }
+    return state;
+}
+
+mEdge _setstate(const MatrixState &state) {
+    std::vector<mEdge> edges{mEdge::one}; // of the nodes so far
+    for (std::size_t k = 1; k < state.second.size(); k++) {
+        const auto &[v, w, index] = state.second[k];
+        std::array<mEdge, 4> children;
+        for (int i = 0; i < 4; i++) {
+            children[i] = edges[index[i]];
+            children[i].w *= Complex{w[i].real(), w[i].imag()};
+        }
+        edges.push_back(makeMEdge(v, children));
+    }
+    mEdge result = edges.back();
+    result.w *= Complex{state.first.real(), state.first.imag()};
+    return result;
+}
+
 #ifdef isMPI
 
 boost::mpi::communicator _world;
@@ -219,7 +261,8 @@ PYBIND11_MODULE(pyQDD, m) {
         ;
     py::class_<mEdge>(m, "mEdge")
         .def("printMatrix", &mEdge::printMatrix)
-        .def("getEigenMatrix", &mEdge::getEigenMatrix);
+        .def("getEigenMatrix", &mEdge::getEigenMatrix)
+        .def(py::pickle(&_getstate, &_setstate));
     m.def("makeZeroState", makeZeroState);
     m.def("mv_multiply", mv_multiply).def("mm_multiply", mm_multiply);
     m.def("get_nNodes", get_nNodes)
-- 
2.43.0


From 2a4a215dbd8a9005173f1416aba702c9fe2f6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 30/40] fix: run the same circuit on every MPI process

The circuit and its properties were pickled apart, so loose classical bits
lost their identity and ranks above 0 refused the circuit; and qiskit drops
the global phase when it pickles, so those ranks had other amplitudes.
---
 qdd/qdd_backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index d20ac8e..253e139 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -704,8 +704,11 @@ class QddBackend(BackendV1):
         if use_mpi:
             from mpi4py import MPI
 
-            circ = MPI.COMM_WORLD.bcast(circ, root=0)
-            circ_prop = MPI.COMM_WORLD.bcast(circ_prop, root=0)
+            # together, so that the bits of the one are those of the other;
+            # the global phase is lost when a circuit is pickled
+            circ, circ_prop, circ.global_phase = MPI.COMM_WORLD.bcast(
+                (circ, circ_prop, circ.global_phase), root=0
+            )
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From d91c8b687a38e9ba044a510a7ae3aba41405322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 31/40] fix: have the primitives keep copies of circuits and
 observables

They kept the caller's objects under the contents of the time: once the
caller had changed such an object, runs of the former circuit or observable
gave the values of the changed one.
---
 qdd/qdd_estimator.py | 5 +++--
 qdd/qdd_sampler.py   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 15df798..8b6c94f 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -149,7 +149,8 @@ class Estimator(BaseEstimator):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                # a copy: the caller may go on to change the circuit
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
         for observable in observables:
@@ -162,7 +163,7 @@ class Estimator(BaseEstimator):
                 self._observable_ids[_observable_key(observable)] = len(
                     self._observables
                 )
-                self._observables.append(observable)
+                self._observables.append(observable.copy())
         job = PrimitiveJob(
             self._call,
             circuit_indices,
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 1b1e122..83cff5c 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -161,7 +161,8 @@ class Sampler(BaseSampler):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                # a copy: the caller may go on to change the circuit
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
-- 
2.43.0


From 424a99d07489889c3d9496481d1a67617e35c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 32/40] fix: let the Sampler run circuits whose parameters
 transpilation removes

---
 qdd/qdd_sampler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 83cff5c..3305b8d 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -103,10 +103,15 @@ class Sampler(BaseSampler):
                     f"the number of parameters ({len(self._parameters[i])})."
                 )
 
+            circuit = self._transpiled_circuits[i]
+            # transpilation may have removed some of the parameters
+            remaining = set(circuit.parameters)
             experiment_manager.append(
                 key=i,
-                parameter_bind=dict(zip(self._parameters[i], value)),
-                experiment_circuit=self._transpiled_circuits[i],
+                parameter_bind={
+                    p: v for p, v in zip(self._parameters[i], value) if p in remaining
+                },
+                experiment_circuit=circuit,
             )
 
         result = self._backend.run(
-- 
2.43.0


From 0008f0c4d3dc99acfdbf4055a209878d732455fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:16 +0000
Subject: [PATCH 33/40] fix: let the Estimator measure circuits that have a
 classical register

---
 qdd/qdd_estimator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 8b6c94f..dc5d30a 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -24,7 +24,12 @@ from collections.abc import Sequence
 from warnings import warn
 
 import numpy as np
-from qiskit.circuit import ParameterExpression, QuantumCircuit
+from qiskit.circuit import (
+    ClassicalRegister,
+    ParameterExpression,
+    QuantumCircuit,
+    QuantumRegister,
+)
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
@@ -334,7 +339,10 @@ class Estimator(BaseEstimator):
 
     def _create_meas_circuit(self, basis: Pauli, circuit_index: int):
         qargs = np.arange(basis.num_qubits)[basis.z | basis.x]
-        meas_circuit = QuantumCircuit(basis.num_qubits, len(qargs))
+        # the register is not named, as the circuit may have one of any name
+        meas_circuit = QuantumCircuit(
+            QuantumRegister(basis.num_qubits, "q"), ClassicalRegister(len(qargs))
+        )
         for clbit, qarg in enumerate(qargs):
             if basis.x[qarg]:
                 if basis.z[qarg]:
-- 
2.43.0


From fc4febbdd78a574e74c904ba853f260489ec14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 34/40] fix: refuse parameter_binds that do not match the
 circuits

---
 qdd/qdd_backend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 253e139..af90743 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -342,6 +342,12 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            n_binds = len(run_options["parameter_binds"])
+            if n_binds != len(qiskit_circs):
+                raise RuntimeError(
+                    f"The number of parameter_binds ({n_binds}) does not match"
+                    f" the number of circuits ({len(qiskit_circs)})."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From 49cbb8ce892c59417ce07e56afc068f29b69fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:09 +0000
Subject: [PATCH 35/40] fix: say why use_bcast without use_mpi, and too few
 qubits for MPI, fail

---
 qdd/qdd_backend.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index af90743..fa5d07a 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -700,7 +700,8 @@ class QddBackend(BackendV1):
         use_auto_swap = options["use_auto_swap"]
         swap_ver = options["swap_ver"]
         use_bcast = options["use_bcast"]
-        assert (not use_bcast) or use_mpi
+        if use_bcast and not use_mpi:
+            raise RuntimeError("The option use_bcast requires use_mpi.")
         local_set = set(range(circ.num_qubits))
         global_set = set()
         local_list = sorted(list(range(circ.num_qubits)))
@@ -716,8 +717,10 @@ class QddBackend(BackendV1):
                 (circ, circ_prop, circ.global_phase), root=0
             )
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
-                print("ERROR: Too many nodes for MPI")
-                assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
+                raise RuntimeError(
+                    f'Circuit "{circ.name}" has too few qubits'
+                    f" for {MPI.COMM_WORLD.Get_size()} MPI processes."
+                )
             size_global = int(math.log2(MPI.COMM_WORLD.Get_size()))
 
         start = time.time()
-- 
2.43.0


From 44d90bd133793a7fc797f8f97591d0fa88759260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:26 +0000
Subject: [PATCH 36/40] fix: printVector_sparse on more than 30 qubits

---
 src/dd.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 5807748..c150db5 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -3,7 +3,7 @@
 #include <math.h>
 
 #include <algorithm>
-#include <bitset>
+#include <iomanip>
 #include <fstream>
 #include <iostream>
 #include <map>
@@ -1335,29 +1335,28 @@ void vEdge::printVectorMPI(bmpi::communicator &world) const {
 }
 #endif
 
-static void printVector_sparse2(const vEdge &edge, std::size_t row,
+static void printVector_sparse2(const vEdge &edge, const std::string &row,
                                 const std_complex &w, uint64_t left,
-                                std::map<int, std_complex> &m) {
+                                std::map<std::string, std_complex> &m) {
     std_complex wp = edge.w * w;
 
     const double thr = 0.001;
 
-    if (edge.isTerminal() && left == 0) {
-        if (norm(wp) > thr) m[row] = wp;
-        return;
-    } else if (edge.isTerminal()) {
+    if (edge.isTerminal()) {
         if (norm(wp) > thr) {
-            row = row << left;
-            for (std::size_t i = 0; i < (1 << left); i++) {
-                m[row | i] = wp;
+            if (left == 0) {
+                m[row] = wp;
+            } else {
+                printVector_sparse2(vEdge::one, row + '0', wp, left - 1, m);
+                printVector_sparse2(vEdge::one, row + '1', wp, left - 1, m);
             }
         }
         return;
     }
 
     vNode *node = edge.getNode();
-    printVector_sparse2(node->getEdge(0), (row << 1) | 0, wp, left - 1, m);
-    printVector_sparse2(node->getEdge(1), (row << 1) | 1, wp, left - 1, m);
+    printVector_sparse2(node->getEdge(0), row + '0', wp, left - 1, m);
+    printVector_sparse2(node->getEdge(1), row + '1', wp, left - 1, m);
 }
 
 void vEdge::printVector_sparse() const {
@@ -1366,15 +1365,16 @@ void vEdge::printVector_sparse() const {
         return;
     }
     Qubit q = this->getVar();
-    std::size_t dim = 1 << (q + 1);
 
-    std::map<int, std_complex> map;
+    // the basis states as bit strings: there may be more qubits than bits in
+    // an integer
+    std::map<std::string, std_complex> map;
 
-    printVector_sparse2(*this, 0, {1.0, 0.0}, q + 1, map);
+    printVector_sparse2(*this, "", {1.0, 0.0}, q + 1, map);
 
     for (auto itr = map.begin(); itr != map.end(); itr++) {
-        std::cout << std::bitset<30>(itr->first) << ": " << itr->second
-                  << std::endl;
+        std::cout << std::setw(30) << std::setfill('0') << itr->first
+                  << std::setfill(' ') << ": " << itr->second << std::endl;
     }
 }
 
-- 
2.43.0


From 5813b8f55e8cfe219fff8262c45dcd06129a2174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:26 +0000
Subject: [PATCH 37/40] fix: run a circuit once per shot whatever kind of
 integer the shots are

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index fa5d07a..63014e2 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -744,7 +744,7 @@ class QddBackend(BackendV1):
                 )
 
         reps = 1
-        if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
+        if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
         prob_cbit = [1] * n_cbit  # probabilities of 0
-- 
2.43.0


From ce2d97815e7bf925604fdcc459545b5f142a507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 38/40] fix: check the number of shots that set_options asks
 for as well

---
 qdd/qdd_backend.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 63014e2..7e7dc95 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1211,15 +1211,14 @@ class QddBackend(BackendV1):
         """Checks whether the given options are valid to run with (e.g., shots < max_shots)."""
 
         # Check if invalid options (i.e., causing errors) are specified
-        if "shots" in run_options:
-            shots = run_options["shots"]
-            if shots is not None:
-                max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
-                if not (0 < shots <= max_shots):
-                    raise RuntimeError(
-                        f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
-                        f" when using {QddBackend.__name__}."
-                    )
+        shots = run_options.get("shots", self.options.shots)
+        if shots is not None:
+            max_shots = QddBackend._DEFAULT_CONFIG["max_shots"]
+            if not (0 < shots <= max_shots):
+                raise RuntimeError(
+                    f"Shots={shots} is specified, but #shots must be positive and <= {max_shots}"
+                    f" when using {QddBackend.__name__}."
+                )
 
         # Warn if unsupported options are specified
         # Note: we cannot raise an error here because some Qiskit functions (e.g., execute(...)) adds some options to
-- 
2.43.0


From fae47cea4fde0b16cbbed102855e3a3f2c69fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 39/40] fix: the primitives say why a request cannot be
 evaluated

---
 qdd/qdd_estimator.py | 22 +++++++++++++---------
 qdd/qdd_sampler.py   |  2 ++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index dc5d30a..da1faa3 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -31,6 +31,7 @@ from qiskit.circuit import (
     QuantumRegister,
 )
 from qiskit.compiler import transpile
+from qiskit.exceptions import QiskitError
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
 from qiskit.primitives.utils import _circuit_key, _observable_key, init_observable
@@ -183,6 +184,10 @@ class Estimator(BaseEstimator):
 
         # With approximation, the number of shots only scales the noise
         approximation_shots = run_options.get("shots") if self._approximation else None
+        if approximation_shots is not None and not approximation_shots > 0:
+            raise QiskitError(
+                f"Shots={approximation_shots} is specified, but #shots must be positive."
+            )
 
         # Key for cache
         key = (tuple(circuits), tuple(observables), self._approximation)
@@ -282,15 +287,14 @@ class Estimator(BaseEstimator):
             run_options["shots"] = self._backend._DEFAULT_SHOTS
         # Run experiments
         if experiments:
-            results = (
-                self._backend.run(
-                    circuits=experiments,
-                    parameter_binds=parameter_binds if any(parameter_binds) else None,
-                    **run_options,
-                )
-                .result()
-                .results
-            )
+            result = self._backend.run(
+                circuits=experiments,
+                parameter_binds=parameter_binds if any(parameter_binds) else None,
+                **run_options,
+            ).result()
+            if not result.success:
+                raise QiskitError(result.status)
+            results = result.results
         else:
             results = []
 
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 3305b8d..47004a3 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -119,6 +119,8 @@ class Sampler(BaseSampler):
             parameter_binds=experiment_manager.parameter_binds,
             **run_options,
         ).result()
+        if not result.success:
+            raise QiskitError(result.status)
 
         # Postprocessing
         metadata = []
-- 
2.43.0


From e0424f8a6aa7aea8b55e5f5cacbffdc8e10cc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:04 +0000
Subject: [PATCH 40/40] fix: one evaluation at a time in the engine, whatever
 thread it comes from

The Sampler and the Estimator run each job in a thread of its own, but the
engine's garbage collection keeps the state of one evaluation only, and its
random numbers and the backend's maps of bits were shared: two jobs in flight
corrupted each other's results.
---
 qdd/qdd_backend.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 7e7dc95..1c2c0bb 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -4,6 +4,7 @@ import os
 import sys
 import uuid
 import dataclasses
+import threading
 from collections import Counter
 from warnings import warn
 import time
@@ -27,6 +28,10 @@ from .circuit_property import CircuitProperty
 from qdd import pyQDD
 import math
 
+# The engine serves one evaluation at a time: its random numbers, and what a garbage collection keeps, are those of that
+# evaluation alone. Jobs may run in threads of their own (those of the Sampler and the Estimator do).
+_engine_lock = threading.RLock()
+
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
     qiskit_gates.IGate: "I",
@@ -372,7 +377,8 @@ class QddBackend(BackendV1):
             run_exp_fn=self._run_experiment,
             qobj=experiments,
         )
-        job.submit()
+        with _engine_lock:
+            job.submit()
 
         return job
 
@@ -455,6 +461,10 @@ class QddBackend(BackendV1):
         return gate
 
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
+        with _engine_lock:
+            return self._merge_circuit(circ, gc_freq)
+
+    def _merge_circuit(self, circ: QiskitCircuit, gc_freq):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
         self._create_qubitmap(circ)
-- 
2.43.0

