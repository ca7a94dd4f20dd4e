From 7622d1f1777bbba4117bbecdd5e176203ab4c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 01/34] fix: spectral matrix exponential and derivative for
 non-normal and degenerate matrices

---
 qopt/matrix.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index c77968d..92918d0 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -992,13 +992,16 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
+            # the eigenvectors of a general matrix are not orthonormal
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         # apply the exponential function to the eigenvalues and invert the
         # diagonalization transformation
-        exp = np.einsum('ij,j,kj->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec.conj())
+        exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
+                        eig_vec_inv)
 
         return DenseOperator(exp)
 
@@ -1038,29 +1041,28 @@ class DenseOperator(OperatorMatrix):
         if is_skew_hermitian:
             eig_val, eig_vec = np.linalg.eigh(-1j * self.data)
             eig_val = 1j * eig_val
+            eig_vec_inv = eig_vec.conj().T
         else:
             eig_val, eig_vec = np.linalg.eig(self.data)
-
-        eig_vec_dag = eig_vec.conj().T
+            # the eigenvectors of a general matrix are not orthonormal
+            eig_vec_inv = np.linalg.inv(eig_vec)
 
         eig_val_cols = eig_val * np.ones(self.shape)
-        eig_val_diffs = eig_val_cols - eig_val_cols.T
-
-        # avoid devision by zero
-        eig_val_diffs += np.eye(self.data.shape[0])
-
-        omega = (np.exp(eig_val_diffs * tau) - 1.) / eig_val_diffs
+        eig_val_diffs = (eig_val_cols - eig_val_cols.T) * tau
 
-        # override the false diagonal elements.
-        np.fill_diagonal(omega, tau)
+        # (exp(x) - 1) / x with its limit 1 for vanishing differences x on the
+        # diagonal and for degenerate eigenvalues.
+        omega = tau * np.divide(np.expm1(eig_val_diffs), eig_val_diffs,
+                                out=np.ones_like(eig_val_diffs),
+                                where=eig_val_diffs != 0)
 
-        direction_transformed = eig_vec @ direction.data @ eig_vec_dag
+        direction_transformed = eig_vec_inv @ direction.data @ eig_vec
         dk_dalpha = direction_transformed * omega
 
         exp = np.einsum('ij,j,jk->ik', eig_vec, np.exp(tau * eig_val),
-                        eig_vec_dag)
+                        eig_vec_inv)
         # einsum might be less accurate than the @ operator
-        dv_dalpha = eig_vec_dag @ dk_dalpha @ eig_vec
+        dv_dalpha = eig_vec @ dk_dalpha @ eig_vec_inv
         du_dalpha = exp @ dv_dalpha
 
         if compute_expm:
-- 
2.43.0


From 9309160fad4fb0d393de24f57a6644037be937ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 02/34] fix: rescaling of kets and bras truncated to a subspace

---
 qopt/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 92918d0..b1d4241 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1297,12 +1297,12 @@ class DenseOperator(OperatorMatrix):
             # bra-vector
             out = type(self)(self.data[np.ix_([0], subspace_indices)])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
-        elif self.shape[0] == 1:
+                out *= 1 / out.norm('fro')
+        elif self.shape[1] == 1:
             # ket-vector
             out = type(self)(self.data[np.ix_(subspace_indices, [0])])
             if map_to_closest_unitary:
-                out *= 1 / out.norm('fre')
+                out *= 1 / out.norm('fro')
         else:
             out = type(self)(self.data[np.ix_(subspace_indices)])
 
-- 
2.43.0


From 8ca69f71e98eb5392c4a51260f2593f9394855d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:07 +0000
Subject: [PATCH 03/34] fix: partial trace over no or all subsystems and order
 of kept subsystems

---
 qopt/matrix.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index b1d4241..8291754 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -928,7 +928,7 @@ class DenseOperator(OperatorMatrix):
 
         remove = list(np.sort(remove))
         # indices of subspace that are kept
-        keep = list(set(np.arange(n_dim)) - set(remove))
+        keep = sorted(set(np.arange(n_dim)) - set(remove))
 
         dims_rm = (dims[remove]).tolist()
         dims_keep = (dims[keep]).tolist()
@@ -946,10 +946,10 @@ class DenseOperator(OperatorMatrix):
         pmat = np.trace(mat.reshape(dims + dims)
                            .transpose(remove + [n_dim + q for q in remove] +
                                       keep + [n_dim + q for q in keep])
-                           .reshape([np.prod(dims_rm),
-                                    np.prod(dims_rm),
-                                    np.prod(dims_keep),
-                                    np.prod(dims_keep)])
+                           .reshape([np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_rm, dtype=int),
+                                    np.prod(dims_keep, dtype=int),
+                                    np.prod(dims_keep, dtype=int)])
                         )
 
         if do_copy:
-- 
2.43.0


From 998ced952d1103dce17239266f9702216989dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 04/34] fix: rejected or later modified pulses no longer
 corrupt the solver state

---
 qopt/solver_algorithms.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 5ce5f68..0f8ea86 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -373,19 +373,19 @@ class Solver(ABC):
 
         if np.array_equal(self._opt_pars, y):
             return
-        else:
-            self._opt_pars = np.copy(y)
+
+        # work on a copy, because identity functions return their argument
+        opt_pars = np.copy(y)
 
         if self.transfer_function is not None:
-            self.transferred_parameters = self.transfer_function(y)
+            transferred_parameters = self.transfer_function(opt_pars)
         else:
-            self.transferred_parameters = np.copy(y)
+            transferred_parameters = np.copy(opt_pars)
 
         if self.amplitude_function is not None:
-            u = self.amplitude_function(
-                self.transferred_parameters)
+            u = self.amplitude_function(transferred_parameters)
         else:
-            u = self.transferred_parameters
+            u = transferred_parameters
 
         if len(u.shape) != 2:
             raise ValueError('The new control amplitudes must have two '
@@ -400,6 +400,9 @@ class Solver(ABC):
             raise ValueError('The new control amplitudes do not have the '
                              'correnct number of entries on the control axis!')
 
+        # only store pulses which were found to be valid
+        self._opt_pars = opt_pars
+        self.transferred_parameters = transferred_parameters
         self._ctrl_amps = u
         self.reset_cached_propagators()
 
-- 
2.43.0


From 6792372859458ff297cd57ae5c59be3f0ab34fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 05/34] fix: set_times recalculates the control amplitudes of
 the current pulse

---
 qopt/solver_algorithms.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 0f8ea86..1f67b60 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -324,6 +324,7 @@ class Solver(ABC):
             self.transfer_function = transfer_function
 
         self.transferred_time = None
+        self.transferred_parameters = None
         self.set_times(tau=tau)
 
         if type(h_drift) in [matrix.DenseOperator, matrix.SparseOperator]:
@@ -338,8 +339,6 @@ class Solver(ABC):
         else:
             self.amplitude_function = amplitude_function
 
-        self.transferred_parameters = None
-
         self.consistency_checks(paranoia_level=paranoia_level)
 
     def set_times(self, tau):
@@ -355,6 +354,15 @@ class Solver(ABC):
         self.transferred_time = self.transfer_function.x_times
         self.reset_cached_propagators()
 
+        # The transferred pulse depends on the times.
+        opt_pars, self._opt_pars = self._opt_pars, None
+        if self.transferred_parameters is not None:
+            if len(opt_pars) == self.transfer_function._num_y:
+                self.set_optimization_parameters(opt_pars)
+            else:
+                self.transferred_parameters = None
+                self._ctrl_amps = None
+
     def set_optimization_parameters(self, y: np.array) -> None:
         """
         Set the control amplitudes.
-- 
2.43.0


From 4cdeb4704a0ef12993d809374ab04ccc34c26345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 06/34] fix: index order of the approximated propagator
 derivatives

---
 qopt/solver_algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 1f67b60..e44a361 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -977,12 +977,13 @@ class SchroedingerSolver(Solver):
             if self._prop is None:
                 self._compute_propagation(
                     calculate_propagator_derivatives=False)
-            self._derivative_prop = [[None for _ in range(len(self.h_ctrl))]
-                                     for _2 in range(len(self.transferred_time))]
+            self._derivative_prop = [
+                [None for _ in range(len(self.transferred_time))]
+                for _2 in range(len(self.h_ctrl))]
             derivative_directions = self._compute_derivative_directions()
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
-                    self._derivative_prop[t][ctrl] = \
+                    self._derivative_prop[ctrl][t] = \
                         self.transferred_time[t] * derivative_directions[t][ctrl] \
                         * self._prop[t]
         else:
-- 
2.43.0


From fbbb80743c81855daf24b82423407ed586c8f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 07/34] fix: failed computations no longer leave partial
 results in the solver caches

---
 qopt/solver_algorithms.py | 49 +++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index e44a361..ef18253 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -936,18 +936,19 @@ class SchroedingerSolver(Solver):
             calculate_propagator_derivatives = \
                 self.calculate_propagator_derivatives
 
-        # initialize the attributes
-        self._prop = [None for _ in range(len(self.transferred_time))]
+        # The attributes are set at the end, so that no partial results are
+        # stored if the computation fails.
+        propagators = [None for _ in range(len(self.transferred_time))]
 
         if calculate_propagator_derivatives:
             derivative_directions = self._compute_derivative_directions()
-            self._derivative_prop = [
+            derivative_prop = [
                 [None for _ in range(len(self.transferred_time))]
                 for _2 in range(len(self.h_ctrl))]
             for t in range(len(self.transferred_time)):
                 for ctrl in range(len(self.h_ctrl)):
                     try:
-                        self._prop[t], self._derivative_prop[ctrl][t] \
+                        propagators[t], derivative_prop[ctrl][t] \
                             = self._dyn_gen[t].dexp(
                             derivative_directions[t][ctrl],
                             self.transferred_time[t],
@@ -957,11 +958,13 @@ class SchroedingerSolver(Solver):
                         raise ValueError('The computation has failed with '
                                          'a value error. Try another '
                                          'exponentiation method.')
+            self._derivative_prop = derivative_prop
         else:
             for t in range(len(self.transferred_time)):
-                self._prop[t] = self._dyn_gen[t].exp(
+                propagators[t] = self._dyn_gen[t].exp(
                     tau=self.transferred_time[t], method=self.exponential_method,
                     is_skew_hermitian=self._is_skew_hermitian)
+        self._prop = propagators
 
     def _compute_propagation_derivatives(self) -> None:
         """
@@ -1295,14 +1298,15 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 control_amplitudes=self._ctrl_amps
             )
 
-        self._dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
-                               for _ in range(n_noise_traces)]
+        dyn_gen_noise = [[dyn_gen.copy() for dyn_gen in self._dyn_gen]
+                         for _ in range(n_noise_traces)]
 
         for t, sample_stack in enumerate(noise_samples):
             for n_trace, trace in enumerate(sample_stack):
                 for operator_sample, operator in zip(trace, self.h_noise):
-                    self._dyn_gen_noise[n_trace][t] += \
+                    dyn_gen_noise[n_trace][t] += \
                         (-1j * operator_sample) * operator
+        self._dyn_gen_noise = dyn_gen_noise
         return self._dyn_gen_noise
 
     def _compute_propagation(
@@ -1327,8 +1331,8 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         num_t = len(self.transferred_time)
         num_ctrl = len(self.h_ctrl)
 
-        self._prop_noise = [[None for _ in range(num_t)]
-                            for _2 in range(n_noise_traces)]
+        prop_noise = [[None for _ in range(num_t)]
+                      for _2 in range(n_noise_traces)]
 
         if calculate_propagator_derivatives is None:
             calculate_propagator_derivatives = \
@@ -1336,7 +1340,7 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
 
         # parallelization of following code probably unnecessary
         if calculate_propagator_derivatives:
-            self._derivative_prop_noise = \
+            derivative_prop_noise = \
                 [[[None for _ in range(num_t)]
                   for _2 in range(num_ctrl)]
                  for _3 in range(n_noise_traces)]
@@ -1351,21 +1355,23 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                 for k in range(n_noise_traces):
                     for t in range(num_t):
                         for ctrl in range(len(self.h_ctrl)):
-                            self._prop_noise[k][t], \
-                                self._derivative_prop_noise[k][ctrl][t] \
+                            prop_noise[k][t], \
+                                derivative_prop_noise[k][ctrl][t] \
                                 = self._dyn_gen_noise[k][t].dexp(
                                 derivative_directions[t][ctrl],
                                 self.transferred_time[t],
                                 compute_expm=True,
                                 method=self.exponential_method,
                                 is_skew_hermitian=self._is_skew_hermitian)
+                self._derivative_prop_noise = derivative_prop_noise
             else:
                 for k in range(n_noise_traces):
                     for t in range(num_t):
-                        self._prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
+                        prop_noise[k][t] = self._dyn_gen_noise[k][t].exp(
                             tau=self.transferred_time[t],
                             method=self.exponential_method,
                             is_skew_hermitian=self._is_skew_hermitian)
+            self._prop_noise = prop_noise
 
         elif (type(self.processes) == int and self.processes > 0) \
                 or self.processes is None:
@@ -1918,10 +1924,10 @@ class LindbladSolver(SchroedingerSolver):
 
             # Add the time dependence
             if self._prefactor_function is not None:
-                self._diss_sup_op = []
                 prefactors = self._prefactor_function(
                     copy.deepcopy(self._ctrl_amps),
                     copy.deepcopy(self.transferred_parameters))
+                self._diss_sup_op = []
                 for factor_at_time_t in prefactors:
                     self._diss_sup_op.append(
                         const_diss_sup_op[0] * factor_at_time_t[0])
@@ -2095,17 +2101,20 @@ class LindbladSolver(SchroedingerSolver):
             matrices.
 
         """
-        self._dyn_gen = super()._compute_dyn_gen()
-
         if self._diss_sup_op is None:
             self._diss_sup_op = self._calc_diss_sup_op()
 
-        identiy_operator = self._dyn_gen[0].identity_like()
+        hamiltonian_dyn_gen = super()._compute_dyn_gen()
+        # The generator is only stored as super operator.
+        self._dyn_gen = None
+
+        identiy_operator = hamiltonian_dyn_gen[0].identity_like()
         sup_op_dyn_gen = []
 
-        assert(len(self._dyn_gen) == len(self._diss_sup_op))
+        assert(len(hamiltonian_dyn_gen) == len(self._diss_sup_op))
 
-        for dyn_gen, diss_sup_op in zip(self._dyn_gen, self._diss_sup_op):
+        for dyn_gen, diss_sup_op in zip(hamiltonian_dyn_gen,
+                                        self._diss_sup_op):
             sup_op_dyn_gen.append(identiy_operator.kron(dyn_gen))
             # the cancelling minus sign accounts for the -i factor, which is
             # also conjugated (included in the dyn gen)
-- 
2.43.0


From 225ff0f7fd2da92fbbaba9975484e23ca9a06bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 08/34] fix: summation of dissipation super operators modified
 the user's operators

---
 qopt/solver_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index ef18253..130d89c 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1936,7 +1936,7 @@ class LindbladSolver(SchroedingerSolver):
                                    factor_at_time_t[1:]):
                         self._diss_sup_op[-1] += sup_op * factor
             else:
-                self._diss_sup_op = [const_diss_sup_op[0], ]
+                self._diss_sup_op = [const_diss_sup_op[0].copy(), ]
                 for sup_op in const_diss_sup_op[1:]:
                     self._diss_sup_op[0] += sup_op
                 self._diss_sup_op *= len(self.transferred_time)
-- 
2.43.0


From 2629725c5a26cb4c1cb0f668d5e20e5ce3e2920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 09/34] fix: matrix transfer functions kept the transfer matrix
 of previous time steps

---
 qopt/transfer_function.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index d1ccc38..db2b2fc 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1107,6 +1107,21 @@ class MatrixTF(TransferFunction):
             self._calculate_transfer_matrix()
         return copy.deepcopy(self._transfer_matrix)
 
+    def set_times(self, y_times: np.array) -> None:
+        """
+        See base class. A previously calculated transfer matrix is discarded,
+        because it belongs to the old time steps.
+
+        Parameters
+        ----------
+        y_times: Optional[np.array, list]
+            Time durations of the constant control steps of the raw
+            optimization parameters.
+
+        """
+        super().set_times(y_times)
+        self._transfer_matrix = None
+
     @abstractmethod
     def _calculate_transfer_matrix(self):
         """Create the transfer matrix. """
@@ -1229,6 +1244,7 @@ class ConcatenateMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.x_times = self.tf2.x_times
         self.num_x = self.tf2.num_x
+        self._transfer_matrix = None
         return
 
     def plot_pulse(self, y: np.ndarray) -> None:
@@ -1299,6 +1315,7 @@ class ParallelMTF(MatrixTF):
         self._y_times = self.tf1._y_times
         self.num_x = self.tf1.num_x
         self.x_times = self.tf1.x_times
+        self._transfer_matrix = None
 
 
 class CustomMTF(MatrixTF):
@@ -1383,7 +1400,8 @@ class CustomMTF(MatrixTF):
                 raise ValueError('Unknown boundary type:'
                                  + str(self.bound_type[0]))
             self.oversampling = int(self.oversampling)
-            super().set_times(y_times)
+            # the transfer matrix was set explicitly and must be kept.
+            TransferFunction.set_times(self, y_times)
         else:
             y_times = np.squeeze(y_times)
             self.x_times = y_times
-- 
2.43.0


From 703fa4e0439c6ff520ecee5941d8b2ea6333335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 10/34] fix: concatenated matrix transfer functions

---
 qopt/transfer_function.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index db2b2fc..78f8301 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1219,12 +1219,11 @@ class ConcatenateMTF(MatrixTF):
         self.x_times = tf2.x_times
         self.num_x = tf2.num_x
 
-    @property
-    def transfer_matrix(self):
-        """The total transfer matrix is the product of the individual ones."""
-        return np.einsum('ijk,jlk->ilk',
-                         self.tf2.transfer_matrix,
-                         self.tf1.transfer_matrix)
+    def __call__(self, y: np.array) -> np.array:
+        """See base class. Applies the transfer functions sequentially, so
+        that the offset of the first one is transferred by the second one."""
+        self._check_dimensions_datatype(y)
+        return self.tf2(self.tf1(y))
 
     def set_times(self, y_times: np.ndarray) -> None:
         """
@@ -1253,8 +1252,9 @@ class ConcatenateMTF(MatrixTF):
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-        self.tf1._calculate_transfer_matrix()
-        self.tf2._calculate_transfer_matrix()
+        self._transfer_matrix = np.einsum('ijk,jlk->ilk',
+                                          self.tf2.transfer_matrix,
+                                          self.tf1.transfer_matrix)
 
 
 class ParallelMTF(MatrixTF):
-- 
2.43.0


From d965a960891ec9172302d6cd7a9cb430662c85d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 11/34] fix: parallel matrix transfer functions dropped the
 offsets

---
 qopt/transfer_function.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 78f8301..a5f68f7 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1302,6 +1302,13 @@ class ParallelMTF(MatrixTF):
             raise ValueError("The parallized transfer functions must have the "
                              "same oversampling.")
 
+    def __call__(self, y: np.array) -> np.array:
+        """See base class. Each transfer function applies its own offset."""
+        self._check_dimensions_datatype(y)
+        return np.concatenate(
+            (self.tf1(y[:, :self.tf1.num_ctrls]),
+             self.tf2(y[:, self.tf1.num_ctrls:])), axis=1)
+
     def _calculate_transfer_matrix(self):
         """See base class. """
         self._transfer_matrix = np.concatenate(
-- 
2.43.0


From 3e75d55656ebc69849d7265c093f0aa6a4915db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 12/34] fix: CustomMTF with explicit transferred times

---
 qopt/transfer_function.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index a5f68f7..0c2e19f 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1375,6 +1375,7 @@ class CustomMTF(MatrixTF):
         self._num_y = transfer_matrix.shape[1]
         self.num_x = transfer_matrix.shape[0]
         self.x_times = x_times
+        self._explicit_x_times = x_times is not None
         self.bound_type = bound_type
         self.oversampling = oversampling
 
@@ -1385,7 +1386,11 @@ class CustomMTF(MatrixTF):
 
     def set_times(self, y_times: np.ndarray) -> None:
         """See base class."""
-        if self.x_times is None:
+        if np.size(y_times) != self._transfer_matrix.shape[1]:
+            raise ValueError('Trying to set y_times, which do not fit the '
+                             'dimension of the transfer function.')
+
+        if not self._explicit_x_times:
             # construct the oversampling
             if self.bound_type is None:
                 # assume no padding
@@ -1410,11 +1415,8 @@ class CustomMTF(MatrixTF):
             # the transfer matrix was set explicitly and must be kept.
             TransferFunction.set_times(self, y_times)
         else:
-            y_times = np.squeeze(y_times)
-            self.x_times = y_times
-            if len(y_times) != self._num_y:
-                raise ValueError('Trying to set x_times, which do not fit the'
-                                 'dimension of the transfer function.')
+            # the transferred times were given explicitly.
+            self._y_times = np.atleast_1d(np.squeeze(y_times))
 
     def _calculate_transfer_matrix(self):
         """See base class. """
-- 
2.43.0


From 7b95f33743e5db39f7048c82ce5ed649c85a4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 13/34] fix: exponential transfer function for a single time
 step with padding

---
 qopt/transfer_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index 0c2e19f..bb1cb2a 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -1548,7 +1548,7 @@ class ExponentialMTF(MatrixTF):
 
         # for the padding at the beginning
         dudx[0:self.oversampling, 0] = one_minus_exp
-        if self.num_x > self.oversampling:
+        if self._num_y > 1:
             dudx[self.oversampling:2 * self.oversampling, 0] = exp
 
         # main part
-- 
2.43.0


From a47523471fe7dc455e3fa94f51cb7923eaaccc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 14/34] fix: gradients of the convolution transfer functions

---
 qopt/transfer_function.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/qopt/transfer_function.py b/qopt/transfer_function.py
index bb1cb2a..9dcef88 100644
--- a/qopt/transfer_function.py
+++ b/qopt/transfer_function.py
@@ -741,7 +741,7 @@ class ConvolutionTF(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another convolution.
+        The application of the chain rule is the transposed convolution.
 
         Parameters
         ----------
@@ -761,11 +761,18 @@ class ConvolutionTF(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.convolve(
-            deriv_by_transferred_par,
-            weights=np.expand_dims(self.kernel, axis=1),
-            cval=self.cval
+        # The responses to unit pulses are the columns of the linear map.
+        num_units = self._num_y * self.num_ctrls
+        unit_pulses = np.reshape(
+            np.eye(num_units), (self._num_y, self.num_ctrls, num_units))
+        responses = scipy.ndimage.convolve(
+            unit_pulses, weights=np.expand_dims(self.kernel, axis=2),
+            mode=self.mode, cval=0.
         )
+        responses = np.reshape(
+            responses,
+            (self.num_x, self.num_ctrls, self._num_y, self.num_ctrls))
+        return np.einsum('iljk,ifl->jfk', responses, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
@@ -870,7 +877,7 @@ class GaussianConvolution(TransferFunction):
             self, deriv_by_transferred_par: np.array) -> np.array:
         """ See base class.
 
-        The application of the chain rule is another Gaussian filter.
+        The application of the chain rule is the transposed Gaussian filter.
 
         Parameters
         ----------
@@ -890,10 +897,12 @@ class GaussianConvolution(TransferFunction):
         assert shape[2] == self.num_ctrls
         assert deriv_by_transferred_par.dtype in [np.float64, np.float32]
 
-        return scipy.ndimage.gaussian_filter1d(
-            deriv_by_transferred_par, self.sigma, axis=0, order=self.order,
+        # The responses to unit pulses are the columns of the linear map.
+        responses = scipy.ndimage.gaussian_filter1d(
+            np.eye(self._num_y), self.sigma, axis=0, order=self.order,
             mode=self.mode, truncate=self.truncate
         )
+        return np.einsum('ij,ifk->jfk', responses, deriv_by_transferred_par)
 
     @property
     def transfer_matrix(self) -> np.array:
-- 
2.43.0


From e98a2fa133abc3897c7ab659ff39af9fa569bd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 15/34] fix: termination conditions of one optimizer changed
 those of all others

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index c191a1a..59fd846 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -165,7 +165,8 @@ class Optimizer(ABC):
     ):
         self.system_simulator = system_simulator
         self.use_jacobian_function = use_jacobian_function
-        self.termination_conditions = default_termination_conditions
+        self.termination_conditions = copy.deepcopy(
+            default_termination_conditions)
         if termination_cond is not None:
             self.termination_conditions.update(**termination_cond)
 
-- 
2.43.0


From 55178d4fc94112c0a17198275f4565428072bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 16/34] fix: saved costs and parameters were altered by weights
 and later evaluations

---
 qopt/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 59fd846..7d81cac 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -218,16 +218,17 @@ class Optimizer(ABC):
             self.optim_iter_summary.iter_num += 1
             self.optim_iter_summary.costs.append(costs)
             self.optim_iter_summary.parameters.append(
-                optimization_parameters.reshape(self.pulse_shape[::-1]).T
+                np.array(optimization_parameters).reshape(
+                    self.pulse_shape[::-1]).T
             )
         if np.linalg.norm(costs) < np.linalg.norm(self._min_costs):
             self._min_costs = costs
-            self._min_costs_par = optimization_parameters.reshape(
+            self._min_costs_par = np.array(optimization_parameters).reshape(
                 self.pulse_shape[::-1]).T
 
         # apply the cost function weights after saving the values.
         if self.cost_func_weights is not None:
-            costs *= self.cost_func_weights
+            costs = costs * self.cost_func_weights
 
         self._n_cost_fkt_eval += 1
         return costs
-- 
2.43.0


From a23072234c2e8977f1b28fa8bc370afa10d394c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 17/34] fix: gradient at the best pulse when the wall time is
 exceeded

---
 qopt/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 7d81cac..0599f4f 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -336,9 +336,9 @@ class Optimizer(ABC):
         if self.system_simulator.stats is not None:
             self.system_simulator.stats.end_t_opt = time.time()
 
-        if self.use_jacobian_function:
+        if self.use_jacobian_function and self._min_costs_par is not None:
             jac_norm = np.linalg.norm(
-                self.cost_jacobian_wrapper(self._min_costs_par))
+                self.cost_jacobian_wrapper(self._min_costs_par.T.flatten()))
         else:
             jac_norm = 0
 
-- 
2.43.0


From 697cb082e6f1633baa317e642df983380c7f481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 18/34] fix: store_optimizer was ignored for generic scalar
 minimisation methods

---
 qopt/optimize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 0599f4f..27ef82a 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -613,6 +613,10 @@ class ScalarMinimizingOptimizer(Optimizer):
                     bounds=self.bounds,
                     method=self.method
                 )
+                if self.store_optimizer:
+                    storage_opt = self
+                else:
+                    storage_opt = None
 
                 optim_result = optimization_data.OptimizationResult(
                     final_cost=result.fun,
@@ -622,7 +626,7 @@ class ScalarMinimizingOptimizer(Optimizer):
                     num_iter=result.nfev,
                     termination_reason=result.message,
                     status=result.status,
-                    optimizer=self,
+                    optimizer=storage_opt,
                     optim_summary=self.optim_iter_summary,
                     optimization_stats=self.system_simulator.stats
                 )
-- 
2.43.0


From b33bd364390819a803ba275bdd55ae7e1a367827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 19/34] fix: least squares optimisation without bounds

---
 qopt/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/optimize.py b/qopt/optimize.py
index 27ef82a..4f584fc 100644
--- a/qopt/optimize.py
+++ b/qopt/optimize.py
@@ -426,7 +426,8 @@ class LeastSquaresOptimizer(Optimizer):
                 fun=super().cost_func_wrapper,
                 x0=initial_control_amplitudes.T.flatten(),
                 jac=jac,
-                bounds=self.bounds,
+                bounds=((-np.inf, np.inf) if self.bounds is None
+                        else self.bounds),
                 method=self.method,
                 ftol=self.termination_conditions["min_cost_gain"],
                 xtol=self.termination_conditions["min_amplitude_change"],
-- 
2.43.0


From d4c8ea96c9bfbf6eaa78debc7c2e36876ee96e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 20/34] fix: construction of OperatorMatrixNorm, unitarity
 check and complex subspace fidelities

---
 qopt/cost_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0bd8bff..d72c914 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -184,7 +184,7 @@ def angle_axis_representation(u: np.ndarray) \
     is_unitary = np.isclose(ident[0, 0], 1) \
                  and np.isclose(ident[1, 0], 0) \
                  and np.isclose(ident[0, 1], 0) \
-                 and np.isclose(ident[0, 0], 1)
+                 and np.isclose(ident[1, 1], 1)
 
     if not is_unitary:
         raise ValueError("Your input matrix must be unitary to calculate a "
@@ -260,8 +260,7 @@ class OperatorMatrixNorm(CostFunction):
     def __init__(self, solver: solver_algorithms.Solver,
                  target: matrix.OperatorMatrix, mode: str = 'scalar',
                  label: Optional[List[str]] = None):
-        super().__init__()
-        self.solver = solver
+        super().__init__(solver=solver)
         self.target = target
         self.mode = mode
         if label is not None:
@@ -629,7 +628,7 @@ def state_fidelity_subspace(
     scalar_prod = scalar_prod[0, 0]
     scalar_prod_real = scalar_prod.real
     if np.abs(scalar_prod - scalar_prod_real) > 1e-5:
-        scalar_prod_real = np.abs(scalar_prod[0, 0])
+        scalar_prod_real = np.abs(scalar_prod)
         print("Warning: the calculated fidelity should be real but has an "
               "imaginary component of : " + str(scalar_prod.imag))
     return scalar_prod_real
-- 
2.43.0


From 2476b8a2d3689766dee4d9436940e5fbdbcfa441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 21/34] fix: StateNoiseInfidelity without target

---
 qopt/cost_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index d72c914..0f46113 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -1128,7 +1128,7 @@ class StateNoiseInfidelity(CostFunction):
         self.solver = solver
 
         # assure target is a bra vector
-        if target.shape[0] > target.shape[1]:
+        if target is not None and target.shape[0] > target.shape[1]:
             self.target = target.dag()
         else:
             self.target = target
-- 
2.43.0


From 9a9c1954cc2db1d99d814f3a72a7ac1fa0ef4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 22/34] fix: quasi static noise generator modified the given
 standard deviations

---
 qopt/noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index bc81527..514d6e6 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -443,7 +443,7 @@ class NTGQuasiStatic(NoiseTraceGenerator):
                          n_traces=n_traces,
                          n_noise_operators=n_noise_operators,
                          always_redraw_samples=always_redraw_samples)
-        self.standard_deviation = standard_deviation
+        self.standard_deviation = list(standard_deviation)
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-- 
2.43.0


From 99744cbead4d99b2bb68ccdf0b546b7aa6fcee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 23/34] fix: pulse setter of the simulator used the shape of
 the old pulse

---
 qopt/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/simulator.py b/qopt/simulator.py
index f248460..3d055f2 100644
--- a/qopt/simulator.py
+++ b/qopt/simulator.py
@@ -145,7 +145,7 @@ class Simulator(object):
     def pulse(self, new_pulse):
         """Sets the pulse and the corresponding attributes accordingly. """
         if new_pulse is not None:
-            self._num_times, self._num_ctrl = self._optimization_parameteres.shape
+            self._num_times, self._num_ctrl = new_pulse.shape
         self._optimization_parameteres = new_pulse
 
     @needs_refactoring
-- 
2.43.0


From e6eb9220367ac150707f31e2331668e630cf4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 24/34] fix: unary amplitude functions truncated all values if
 the first one was an integer

---
 qopt/amplitude_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qopt/amplitude_functions.py b/qopt/amplitude_functions.py
index 832a94c..068a3fa 100644
--- a/qopt/amplitude_functions.py
+++ b/qopt/amplitude_functions.py
@@ -158,8 +158,9 @@ class UnaryAnalyticAmpFunc(AmplitudeFunction):
     def __init__(self,
                  value_function: Callable[[float, ], float],
                  derivative_function: Callable[[float, ], float]):
-        self.value_function = np.vectorize(value_function)
-        self.derivative_function = np.vectorize(derivative_function)
+        self.value_function = np.vectorize(value_function, otypes=[float])
+        self.derivative_function = np.vectorize(
+            derivative_function, otypes=[float])
 
     def __call__(self, x: np.ndarray) -> np.ndarray:
         """See base class. """
-- 
2.43.0


From 64af1a57255de167c763c0764ef46fff822c4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 25/34] fix: deepcopy of data containers

---
 qopt/data_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qopt/data_container.py b/qopt/data_container.py
index d635543..c3d171c 100644
--- a/qopt/data_container.py
+++ b/qopt/data_container.py
@@ -219,7 +219,7 @@ class DataContainer:
         self.optimization_statistics.append(optimization_stats)
         self.check_length()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo):
         cpyobj = type(self)(
             final_costs=copy.deepcopy(self.final_costs),
             indices=copy.deepcopy(self.indices),
-- 
2.43.0


From e9b17e522aa0e41eee3748da89f6f7523bb95963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 26/34] fix: status was lost in the dictionary of an
 optimization result

---
 qopt/optimization_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qopt/optimization_data.py b/qopt/optimization_data.py
index 72d5264..8d78e4c 100644
--- a/qopt/optimization_data.py
+++ b/qopt/optimization_data.py
@@ -148,6 +148,7 @@ class OptimizationResult(object):
                 'init_parameters': self.init_parameters,
                 'num_iter': self.num_iter,
                 'termination_reason': self.termination_reason,
+                'status': self.status,
                 'optimizer': self.optimizer,
                 'optimization_stats': self.optimization_stats,
                 'optim_summary': self.optim_summary
-- 
2.43.0


From a70777263fce4a3a24ecadeaab4fdcf5c97c77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 27/34] fix: exponential returned with Taylor derivatives was
 wrong for defective matrices

---
 qopt/matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qopt/matrix.py b/qopt/matrix.py
index 8291754..9f63075 100644
--- a/qopt/matrix.py
+++ b/qopt/matrix.py
@@ -1236,24 +1236,24 @@ class DenseOperator(OperatorMatrix):
         elif method == "approx":
             d_m = (self.data + epsilon * direction.data) * tau
             dprop = la.expm(d_m)
-            prop = self.exp(tau)
+            prop = self.exp(tau, method="Frechet")
             prop_grad = (DenseOperator(dprop) - prop) * (1 / epsilon)
 
         elif method == "first_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
 
         elif method == "second_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * (tau * tau * 0.5)
 
         elif method == "third_order":
             if compute_expm:
-                prop = self.exp(tau)
+                prop = self.exp(tau, method="Frechet")
             prop_grad = direction.data * tau
             prop_grad += (self.data @ direction.data
                           + direction.data @ self.data) * tau * tau * 0.5
-- 
2.43.0


From 095a3424a0f789f5a5ca6cff4768208dab51cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:50 +0000
Subject: [PATCH 28/34] fix: corrected standard deviation of quasi static noise
 with several operators

---
 qopt/noise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/noise.py b/qopt/noise.py
index 514d6e6..5f124e8 100644
--- a/qopt/noise.py
+++ b/qopt/noise.py
@@ -447,14 +447,16 @@ class NTGQuasiStatic(NoiseTraceGenerator):
         self.sampling_mode = sampling_mode
 
         if correct_std_for_discrete_sampling:
-            if self.n_traces == 1:
+            # each operator is sampled separately by its own traces
+            n_traces_per_operator = self._n_traces or self.n_traces
+            if n_traces_per_operator == 1:
                 raise RuntimeWarning('Standard deviation cannot be estimated'
                                      'for a single trace!')
             elif self.sampling_mode == 'uncorrelated_deterministic':
                 for i in range(len(self.standard_deviation)):
                     samples = sample_1dim_gaussian_distribution(
                         std=self.standard_deviation[i],
-                        n_samples=self.n_traces
+                        n_samples=n_traces_per_operator
                     )
                     actual_std = np.std(samples)
                     if actual_std < 1e-20:
-- 
2.43.0


From 1d1306bf022fd93ef88a265d8803d67f3371a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:08 +0000
Subject: [PATCH 29/34] fix: the approximated propagator derivatives depended
 on the order of reading the results

---
 qopt/solver_algorithms.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 130d89c..4de72d2 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -970,11 +970,11 @@ class SchroedingerSolver(Solver):
         """
         Computes the frechet derivatives of the propagators.
 
-        The derivatives are not returned but cached. Since the function is only
-        called when no derivatives are cached, the approximation is
-        prioritised.
+        The derivatives are not returned but cached. The approximation is never
+        used, if calculate_propagator_derivatives is set to True.
         """
-        if not self.frechet_deriv_approx_method:
+        if not self.frechet_deriv_approx_method \
+                or self.calculate_propagator_derivatives:
             self._compute_propagation(calculate_propagator_derivatives=True)
         elif self.frechet_deriv_approx_method == 'grape':
             if self._prop is None:
@@ -1431,11 +1431,11 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         """
         Computes the frechet derivatives of the propagators.
 
-        The derivatives are not returned but cached. Since the function is only
-        called when no derivatives are cached, the approximation is
-        prioritised.
+        The derivatives are not returned but cached. The approximation is never
+        used, if calculate_propagator_derivatives is set to True.
         """
-        if not self.frechet_deriv_approx_method:
+        if not self.frechet_deriv_approx_method \
+                or self.calculate_propagator_derivatives:
             self._compute_propagation(calculate_propagator_derivatives=True)
         elif self.frechet_deriv_approx_method == 'grape':
             super()._compute_propagation_derivatives()
-- 
2.43.0


From c31907790c6110e9d5c9a80d297d6ef21abc1498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 30/34] fix: creating the filter function pulse sequence a
 second time failed

---
 qopt/solver_algorithms.py | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 4de72d2..45727bf 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -734,27 +734,14 @@ class Solver(ABC):
         # nonlinear coupling), but in filter_functions the form H =
         # a(t) A is imposed, we don't tell the PulseSequence object
         # about H_drift and set the eigendecomposition after the fact.
-        if self.pulse_sequence is None:
-            h_c = list(zip(
-                self.h_ctrl,
-                self._ctrl_amps.T,
-                [f'Control{i}' for i in range(len(self.h_ctrl))]
-            ))
-            self.pulse_sequence = pulse_sequence.PulseSequence(
-                h_c, self.create_ff_h_n, self.transferred_time, basis
-            )
-        else:
-            # Clean up the caches and update coefficients
-            self.pulse_sequence.cleanup('all')
-            self.pulse_sequence.c_coeffs = self._ctrl_amps.T
-            # Not the most elegant, but necessary for the current
-            # implementation.
-            self.pulse_sequence.n_coeffs = pulse_sequence._parse_Hamiltonian(
-                self.create_ff_h_n,
-                len(self.transferred_time), 'H_n')[2]
-
-            if basis is not None:
-                self.pulse_sequence.basis = basis
+        h_c = list(zip(
+            self.h_ctrl,
+            self._ctrl_amps.T,
+            [f'Control{i}' for i in range(len(self.h_ctrl))]
+        ))
+        self.pulse_sequence = pulse_sequence.PulseSequence(
+            h_c, self.create_ff_h_n, self.transferred_time, basis
+        )
 
         self._diagonalize_and_propagate_pulse_sequence()
         return self.pulse_sequence
-- 
2.43.0


From 528fc52caff9df9214ab3deb866232ecfd72181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 31/34] fix: filter function infidelities of Monte Carlo
 solvers were empty

---
 qopt/solver_algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 45727bf..0f75dcd 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1480,6 +1480,11 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
                     noise_operator = noise_operator.data
                 h_n += [[noise_operator, len(self.transferred_time) * [1], 'Noise' + str(i)], ]
 
+        # we store the order of the noise operators. They must coincide with
+        # the order in filter_functions_n_coeffs_deriv
+        self.filter_function_n_oper_identifiers = [
+            noise_term[2] for noise_term in h_n]
+
         return h_n
 
 
-- 
2.43.0


From 8c02e21f06f4908ce65503c994e9bfa5a771119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 32/34] fix: Monte Carlo solvers rejected the documented
 callable interface of filter_function_h_n

---
 qopt/solver_algorithms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qopt/solver_algorithms.py b/qopt/solver_algorithms.py
index 0f75dcd..f19c762 100644
--- a/qopt/solver_algorithms.py
+++ b/qopt/solver_algorithms.py
@@ -1471,7 +1471,12 @@ class SchroedingerSMonteCarlo(SchroedingerSolver):
         if type(self._filter_function_h_n) == list:
             h_n = self._filter_function_h_n
         else:
-            h_n = self._filter_function_h_n(self._opt_pars)
+            try:
+                h_n = self._filter_function_h_n(
+                    self._opt_pars, self.transferred_parameters,
+                    self._ctrl_amps)
+            except TypeError:
+                h_n = self._filter_function_h_n(self._opt_pars)
 
         if not h_n:
             h_n = []
-- 
2.43.0


From b310c6194a92581dd8216a95529a5da93d331a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 33/34] fix: multiples of the identity with rounding errors
 have no rotation axis but an angle of zero

---
 qopt/cost_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 0f46113..7ff5dfa 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,7 +193,8 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    sin = np.sqrt(1 - np.abs(cos_alpha) ** 2)
+    # rounding can make the difference negative for multiples of the identity
+    sin = np.sqrt(max(1 - np.abs(cos_alpha) ** 2, 0))
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
-- 
2.43.0


From 826f3a5e109ed8ab03cda28d616ea7a759e80121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 34/34] fix: rotations by a few 1e-6 have no angle and axis
 because of cancellation

---
 qopt/cost_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qopt/cost_functions.py b/qopt/cost_functions.py
index 7ff5dfa..b0a43cc 100644
--- a/qopt/cost_functions.py
+++ b/qopt/cost_functions.py
@@ -193,8 +193,10 @@ def angle_axis_representation(u: np.ndarray) \
     # there is an unphysical global phase alpha
     cos_alpha = .5 * (u[0, 0] + u[1, 1])
     # beta in [0, pi) so sin in [0, 1]
-    # rounding can make the difference negative for multiples of the identity
-    sin = np.sqrt(max(1 - np.abs(cos_alpha) ** 2, 0))
+    # calculated from the traceless part, because the difference
+    # 1 - np.abs(cos_alpha) ** 2 loses all digits for small rotations
+    sin = .5 * np.linalg.norm(
+        [u[0, 1] + u[1, 0], u[0, 1] - u[1, 0], u[0, 0] - u[1, 1]])
     if np.isclose(0, sin, atol=1e-6):
         return 0, np.array([1, 0, 0])
     n_1_alpha = (u[0, 1] + u[1, 0]) / 1j / sin / 2
-- 
2.43.0

