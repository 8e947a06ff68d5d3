From e3fc9ecb47d04e031f42aec552fd81561b66184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 01/17] fix: rotosolve rotates by half the angle for Paulis of
 every weight

---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..32f4d51 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1289,17 +1289,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From 5aa33574d8585af119e5402472543b35bfa2f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 02/17] fix: get_commuting_set returns a non-empty,
 non-overlapping subset of its edges

---
 oranssi/circuit_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..f4f8617 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,12 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        applyHeuristic(g, max(2, max(degree for _, degree in g.degree())), 50, 50)
+        color = min(g[e[0]][e[1]]['color'] for e in edge_list)
+        # the heuristic can end without a proper coloring, so we drop edges that still overlap
+        edge_coloring, used_nodes = [], set()
+        for e in edge_list:
+            if g[e[0]][e[1]]['color'] == color and not used_nodes & set(e):
+                edge_coloring.append(e)
+                used_nodes |= set(e)
         return edge_coloring
-- 
2.43.0


From e671e2dc757328ac3e3165e8644e4b0f3efcd195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 03/17] fix: products and conjugates of Pauli monomials use the
 total coefficient

---
 oranssi/pauli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..599701c 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -131,18 +131,22 @@ class PauliMonomial(object):
         sites_in_common = set_self_locations & set_other_locations
         sites_self_unique = set_self_locations - sites_in_common
         sites_other_unique = set_other_locations - sites_in_common
-        # Take the product of the common paulis and add them
+        # Take the product of the common paulis and add them. The coefficients of the individual paulis are left out,
+        # because self.coeff and other.coeff are the total coefficients
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
+            new_monomial.append(Pauli(p.alpha, p.gamma) * Pauli(q.alpha, q.gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        product.coeff = self.coeff * other.coeff * product.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
@@ -218,6 +222,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From 41e45ea4a29217b6cae90c9dfdff2262404da513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 04/17] fix: PauliSum arithmetic leaves its operands unchanged

---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 599701c..f679587 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -264,7 +264,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # simplifying and scaling the sum must not change the monomials (or sums) that it was made of
+        self.pauli_sum = copy.deepcopy(list_of_pauli_monomials)
         self.simplify()
 
     def __getitem__(self, item):
@@ -308,7 +309,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = PauliSum(other.pauli_sum)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From 5126a888b92d10a6ba98c74f254bb96b5240bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 05/17] fix: equal Paulis have equal hashes

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index f679587..888ff3b 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -84,7 +84,7 @@ class Pauli(object):
 
     def __hash__(self):
         # unique hash representation of the object
-        return hash(repr(self))
+        return hash(self.__repr__(coeff=False))
 
     def tex(self):
         # method access to tex
-- 
2.43.0


From 6416f5eb64a47a71d13a47f81f241bcb82e8a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 06/17] fix: ordering of Pauli monomials is asymmetric

---
 oranssi/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 888ff3b..2d6f007 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -180,7 +180,7 @@ class PauliMonomial(object):
             if (~np.isreal(self.coeff) & np.isreal(other.coeff)):
                 return True
             elif (np.isreal(self.coeff) & ~np.isreal(other.coeff)):
-                return True
+                return False
             # if the coefficients are in the same domain, we simply decide by sign.
             else:
                 # can now be either +-a + i0 < +-a' + i0 or 0 + +-ib < 0 + +-ib'
-- 
2.43.0


From 2a1381aaf629594d697b5cbae3d77d0cf874607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 07/17] fix: unitary_error_check projects the operators that
 are not unitary

---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 32f4d51..42d9334 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From aeb14fd8486e1637ecd9a46ef2b512ac3327610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 08/17] fix: every layer reports its Lie algebra directions

---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 42d9334..d38302e 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -34,6 +34,7 @@ class LieLayer(object):
         self.nqubits = nqubits
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
+        self.pennylane_observables = observables
 
     def __call__(self, circuit_unitary, *args, **kwargs):
         raise NotImplementedError
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.pennylane_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From 569ec91b000dc2003c290c6fe81128ecb81b9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 09/17] fix: CustomDirectionLieAlgebraLayer with
 directions=None uses all directions

---
 oranssi/opt_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index d38302e..83e7441 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -253,6 +253,8 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     new_paulis.append(pauli)
             self.paulis = new_paulis
             self.directions = new_directions
+        else:
+            self.paulis = list(self.paulis.values())
         self.full_paulis = dict(zip(self.directions, self.paulis))
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
-- 
2.43.0


From 5ead6309cc2837d0b1a578100a2b3521ec4cbf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 10/17] fix: parameter_shift_optimizer validates return_params

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..812652c 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From e2f98569443a5c5f5750ebe8682dd4d9fead4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 11/17] fix: plot_su16_directions_separate calls
 get_all_su_n_directions with its arguments

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..8fecf8a 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From 3fdb9a630dc3e1501977eb4120cfdd4e63b53c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 12/17] fix: the unitary returned by exact_lie_optimizer is the
 one of the last recorded cost

---
 oranssi/optimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index 812652c..c1a28f6 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -201,7 +201,8 @@ def exact_lie_optimizer(circuit, params: List, observables: List, device: qml.De
         # check early stopping.
         if step > 3:
             if np.isclose(cost_exact[-1], cost_exact[-2], atol=tol):
-                if perturbation:
+                # a perturbation after the last step would not show up in the recorded costs and states
+                if perturbation and step < nsteps_optimizer - 1:
                     perturbations.append(step)
                     print(f'Cost difference between steps < {tol}, perturbing at step {step}...')
                     random_matrix = np.random.randn(2 ** nqubits, 2 ** nqubits) * 0.1
-- 
2.43.0


From fd5434a919beb3af2bdd0c0a6bdca2f4f9acc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 13/17] fix: get_ops_from_qnode rejects state preparations
 instead of dropping them

---
 oranssi/circuit_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index f4f8617..8231e1d 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -115,6 +115,9 @@ def get_ops_from_qnode(circuit, params: List, device: qml.Device) -> Tuple[
     """
     qnode = qml.QNode(circuit, device)
     qnode.construct([params], {})
+    if qnode.qtape._prep:
+        raise ValueError('`circuit` must not contain state preparations, they cannot be represented as a unitary, '
+                         f'received {qnode.qtape._prep}')
     circuit_as_numpy_ops = []
     circuit_as_numpy_wires = []
     for op in qnode.qtape._ops:
-- 
2.43.0


From e499935b99481e03f172452eb0b43c8189b188e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:17 +0000
Subject: [PATCH 14/17] fix: state_to_spherical returns angles for states at
 the poles

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 8fecf8a..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From c3de049dc6adb010decf2e86c233bc1ac36a4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:10 +0000
Subject: [PATCH 15/17] fix: approximate_lie_optimizer supports commuting
 layers and returns their gates

---
 oranssi/optimizers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index c1a28f6..a4233e8 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -7,7 +7,7 @@ import itertools as it
 
 from oranssi.circuit_tools import get_full_operator, get_ops_from_qnode, circuit_state_from_unitary, \
     circuit_observable_from_unitary, param_shift_comm
-from oranssi.opt_tools import AdaptVQELayer, LieLayer
+from oranssi.opt_tools import AdaptVQELayer, LieLayer, SquaredLieAlgebraLayer
 
 
 def parameter_shift_optimizer(circuit, params: List, observables: List, device: qml.Device,
@@ -345,6 +345,10 @@ def approximate_lie_optimizer(circuit, params: List, observables: List, device:
         if isinstance(layer, AdaptVQELayer):
             circuit_unitary, params = layer(circuit_unitary, optimizer=parameter_shift_optimizer,
                                             params=params, **kwargs)
+        elif isinstance(layer, SquaredLieAlgebraLayer) and kwargs.get('commute', False):
+            circuit_unitary, layer_gates = layer(circuit_unitary,
+                                                 optimizer=parameter_shift_optimizer, **kwargs)
+            gates.append(layer_gates)
         else:
             circuit_unitary = layer(circuit_unitary, **kwargs)
 
-- 
2.43.0


From 86c03095175e635f1bde7fc54a0431a847400985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:29 +0000
Subject: [PATCH 16/17] fix: AdaptVQELayer must not append to the parameter
 list of its caller

---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 83e7441..33d16cc 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -575,7 +575,8 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        # a new list, so that the parameters of the caller do not change
+        params_ext = params_ext + [[0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
-- 
2.43.0


From 3b5db5be8d6ceb516e672c053ebfa2f971d2d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:00 +0000
Subject: [PATCH 17/17] fix: ZassenhausLayer must not fail when no SU(8)
 direction has a gradient

---
 oranssi/opt_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 33d16cc..6b67351 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -817,6 +817,7 @@ class ZassenhausLayer(LieLayer):
             print(self.current_pauli)
             print(omegas_su8)
             print(omegas_su4)
+            B = None
             for k,v in omegas_su8.items():
                 if abs(v)>1e-3:
                     print(k,v)
@@ -827,6 +828,10 @@ class ZassenhausLayer(LieLayer):
                         B = omegas_su8_k[k]
                         k_max = k
                         break
+            if B is None:
+                # at a critical point there is no SU(8) candidate: no gate to add, go on with SU(4)
+                self.counter, self.su_state = 0, 'su4'
+                return circuit_unitary
             # k_max = max(omegas_su8, key=omegas_su8.get)
             # omegas_sorted = sorted(omegas_su8, key=omegas_su8.get)
             # probs = np.array([omegas_su8[om] for om in omegas_sorted])
-- 
2.43.0

