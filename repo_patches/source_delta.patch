From 762ba20fff6825be1b38e5cb9118380780f54cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 01/54] fix: drift correction with batches, finished runs and
 multi-dimensional domains

The heaviside corrections used the energies of all particles of all runs
(shape mismatch with mini-batches or finished runs), appended exactly one
axis (wrong weights on multi-dimensional domains) and added the number of
runs instead of one evaluation per active run to the evaluation counter.
---
 cbx/correction.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..f1722b2 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,12 +73,18 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        # update number of function evaluations (only for the active runs)
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * self.expand(np.where(z > 0, 1,0), x)
+
+    @staticmethod
+    def expand(z: ArrayLike, x: ArrayLike) -> ArrayLike:
+        """Append axes to ``z`` such that it broadcasts over the domain dimensions of ``x``."""
+        return z[(Ellipsis,) + (None,) * (x.ndim - z.ndim)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +97,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * self.expand(0.5 + 0.5 * np.tanh(z/self.eps), x)
     
 
-- 
2.43.0


From 831df0f9a137c07d850b91d3ba0b609b2f714de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:54 +0000
Subject: [PATCH 02/54] fix: memory dynamics with mini-batches and finished
 runs

CBOMemory and PSO compared and updated the energies of all particles of all
runs with the energies of the scheduled particles only, used the energies of
all particles for the consensus of a batch, and PSO counted evaluations for
finished runs and used the wrong axis on multi-dimensional domains.
---
 cbx/dynamics/cbo_memory.py | 8 ++++----
 cbx/dynamics/pso.py        | 9 ++++-----
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..ff2a2ff 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
@@ -105,10 +105,10 @@ class CBOMemory(CBO):
         
         # historical best positions of particles 
         self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
+            ((self.energy[self.particle_idx]>energy_new)[self.ergexp]) * 
             (self.x[self.particle_idx] - self.y[self.particle_idx])
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(self.energy[self.particle_idx], energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +124,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..b83cdd4 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
@@ -135,13 +135,12 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind])
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        self.y[ind] = self.y[ind] + ((self.energy[ind]>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.energy[ind] = np.minimum(self.energy[ind], energy_new)
 
         
     def compute_consensus(self, x_batch, energy) -> None:
-- 
2.43.0


From 48232ef382d44af5d812e546f67bccd322184bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 03/54] fix: PSO accelerates towards the consensus and the
 historical best

The drift terms entered the velocity with the wrong sign, so that particles
were pushed away from consensus and historical best, and the inertia term
was multiplied by the step size (the semi-implicit scheme of Grassi and
Pareschi has m*v on the right-hand side).
---
 cbx/dynamics/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index b83cdd4..275825c 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From 8c199638767c05f2c86612dcfbbf841c2eec5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 04/54] fix: best particle of the memory dynamics is the
 position that has the best energy

CBOMemory reported the current and PSO the previous position of the particle
whose historical best energy is minimal, so best_particle did not have the
objective value best_energy.
---
 cbx/dynamics/cbo_memory.py | 3 ++-
 cbx/dynamics/pso.py        | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index ff2a2ff..b897ee7 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -132,6 +132,7 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 275825c..b78092e 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -160,4 +160,11 @@ class PSO(CBXDynamic):
         """
         c, _ = self._compute_consensus(energy, x_batch, self.alpha[self.active_runs_idx, :])
         return c
-        
+
+    def update_best_cur_particle(self,) -> None:
+        self.f_min = self.energy.min(axis=-1)
+        self.f_min_idx = self.energy.argmin(axis=-1)
+
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
-- 
2.43.0


From 5bcf4fd405f5e53ab9e752cb8d7344a44281c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:58 +0000
Subject: [PATCH 05/54] fix: covariance noise with several runs, mini-batches
 and finished runs

The covariance used the energies and alphas of all particles of all runs
also when only a batch or some of the runs are updated. For the polarised
dynamics it was only correct for a single run: the energies of one run were
broadcast against the kernel of another one.
---
 cbx/dynamics/pdyn.py     | 2 +-
 cbx/dynamics/polarcbo.py | 7 +++++--
 cbx/noise.py             | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..25df49a 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -899,7 +899,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..d01547c 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -262,10 +262,13 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval
+            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.particle_idx][:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
-        D = np.sum(D * coeffs[..., None, None], axis = -3)
+        D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From 3fb55b1fdecc9cf94f4636242b8c669b238a77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 06/54] fix: hypersurface, mirror and constrained dynamics only
 update scheduled particles

These dynamics updated all particles of all runs with the consensus of the
active runs: with finished runs this failed on the shapes, or (one active
run) moved the finished runs by broadcasting; partial mini-batches moved
the particles outside the batch.
---
 cbx/dynamics/driftconstrainedcbo.py |  9 +++++----
 cbx/dynamics/hypersurfacecbo.py     | 23 ++++++++++++-----------
 cbx/dynamics/mirrorcbo.py           |  2 +-
 cbx/dynamics/regcombinationcbo.py   | 11 ++++++-----
 4 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6a4b1ad 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,30 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-        x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        x_tilde = drift_and_noise - self.noise_constr(x)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
-    def noise_constr_iso(self,):
+    def noise_constr_iso(self, x):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
-    def noise_constr_aniso(self,):
+    def noise_constr_aniso(self, x):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..ace63be 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -290,7 +290,7 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    self.x[self.particle_idx] = self.mirrormap.grad_conj(self.y[self.particle_idx])
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From d0a883fe377785c1b9a38b5da049e74bf72024a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 07/54] fix: regularised objective with finished runs

The weights of all runs were multiplied with the penalties of the active
runs only; a scalar weight is no longer expanded to one row per run before a
scheduler needs it, and per-run weights are restricted to the active runs.
---
 cbx/dynamics/pdyn.py |  2 ++
 cbx/regularizers.py  | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 25df49a..a3b5521 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -451,6 +451,8 @@ class ParticleDynamic:
         terms = np.sum(loc_term, axis=1)
         self.active_runs_idx = np.where(terms==0)[0]
         self.num_active_runs = self.active_runs_idx.shape[0]
+        if hasattr(self.f, 'set_active_runs'):
+            self.f.set_active_runs(self.active_runs_idx)
             
         for j in range(self.M):
             if terms[j]:
diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..cce3840 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -73,10 +73,10 @@ class regularize_objective:
         self.lamda = lamda
         self.lamda_broadcasted = lamda_broadcasted
         self.p = p
+        self.active_runs_idx = None
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
-        return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
+        return self.original_func(x) + self.select_lamda(x) * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
         if not self.lamda_broadcasted:
@@ -84,6 +84,16 @@ class regularize_objective:
             self.lamda = np.ones((M,1)) * self.lamda
             self.lamda_broadcasted = True
 
+    def set_active_runs(self, idx):
+        # the dynamic evaluates the objective only on its active runs
+        self.active_runs_idx = idx
+
+    def select_lamda(self, x):
+        if np.ndim(self.lamda) > 0 and self.active_runs_idx is not None and (
+                self.lamda.shape[0] > 1 and self.lamda.shape[0] != x.shape[0]):
+            return self.lamda[self.active_runs_idx]
+        return self.lamda
+
     @property
     def num_eval(self):
         return self.original_func.num_eval        
@@ -124,6 +134,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From 261e7b285bffb86a2a16ef65772d536b3ad8e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:26 +0000
Subject: [PATCH 08/54] fix: best current particle is the position at which its
 energy was evaluated

---
 cbx/dynamics/pdyn.py     | 11 ++++++++---
 cbx/dynamics/polarcbo.py |  1 +
 cbx/utils/torch_utils.py |  1 +
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index a3b5521..d1f010f 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -524,10 +524,13 @@ class ParticleDynamic:
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        if hasattr(self, 'x_old'):
-            self.best_cur_particle = self.x_old[np.arange(self.M), self.f_min_idx, :]
+        if hasattr(self, 'x_eval'): # positions at which the energies were evaluated
+            x = self.x_eval
+        elif hasattr(self, 'x_old'):
+            x = self.x_old
         else:
-            self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+            x = self.x
+        self.best_cur_particle = x[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
     
     def update_best_particle(self,):
@@ -667,6 +670,7 @@ class CBXDynamic(ParticleDynamic):
     
     def init_consensus(self, compute_consensus):
         self.consensus = None #consensus point
+        self.x_eval = self.copy(self.x) # positions at which the energies were evaluated
         self._compute_consensus = compute_consensus if compute_consensus is not None else compute_consensus_default()
     
     def init_alpha(self, alpha):
@@ -968,6 +972,7 @@ class CBXDynamic(ParticleDynamic):
             self.alpha[self.active_runs_idx, :]
         )
         self.energy[self.consensus_idx] = energy
+        self.x_eval[self.consensus_idx] = self.x[self.consensus_idx]
 
     def maybe_save_consensus_eval_points(self,):
         if not self.save_consensus_eval_points:
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index d01547c..a36eab0 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -249,6 +249,7 @@ class PolarCBO(CBO):
             kernel_factor = self.kernel_factor()
         )
         self.energy[self.consensus_idx] = energy
+        self.x_eval[self.consensus_idx] = x
     
     def update_covariance(self,):
         r"""Update the covariance matrix :math:`\mathsf{C}(x_i)` of the noise model
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..1894fb3 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -94,6 +94,7 @@ def init_particles(self, shape=None,):
 
 def init_consensus(self, compute_consensus):
     self.consensus = None #consensus point
+    self.x_eval = self.copy(self.x) # positions at which the energies were evaluated
     self._compute_consensus = compute_consensus if compute_consensus is not None else compute_consensus_torch
 
 def to_numpy(self, x):
-- 
2.43.0


From 06ab60d405a4fe89f5f23299fb16887e4cfff8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 09/54] fix: independent noise of the constrained dynamic only
 perturbs active runs and uses the sampler

---
 cbx/dynamics/driftconstrainedcbo.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..871f494 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -45,21 +45,23 @@ class DriftConstrainedCBO(CBO):
         self.eps = eps
         self.eps_indep = eps_indep
         self.sigma_indep = sigma_indep
-        
+        self.last_consensus = np.full_like(self.x[:, :1], np.inf) # last consensus of each run
         
     def inner_step(self,):
         self.indep_noise_step()
         dc_inner_step(self)
+        self.last_consensus[self.active_runs_idx] = self.consensus
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                drift = (self.x - self.last_consensus)[self.active_runs_idx]
+                cxd = (np.linalg.norm(drift, axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = self.active_runs_idx[cxd < self.eps_indep]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=(len(idx),) + self.x.shape[1:])
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-- 
2.43.0


From db2920fa423cb7d549e901d9303776a63390b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 10/54] fix: polarised consensus of every updated particle when
 mini-batches update all particles

---
 cbx/dynamics/polarcbo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index a36eab0..6f1b1cc 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -239,7 +239,7 @@ class PolarCBO(CBO):
     def compute_consensus(self,):
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
-        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
+        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], self.x[self.particle_idx][:,:,None,...])
         
         
         
@@ -263,8 +263,9 @@ class PolarCBO(CBO):
         None.
     
         """
+        x = self.x[self.particle_idx]
         weights = (
-            - self.kernel_factor() * self.neg_log_eval
+            - self.kernel_factor() * self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
             - self.alpha[self.active_runs_idx, :, None] * self.energy[self.particle_idx][:, None, :]
         )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
-- 
2.43.0


From 0c7c753991748de9951ea9ade42d41eaa19d7333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:10 +0000
Subject: [PATCH 11/54] fix: the historical best is the evaluated position
 itself, also after non-finite steps

---
 cbx/dynamics/cbo_memory.py | 8 ++++----
 cbx/dynamics/pso.py        | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b897ee7..d16fea6 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -104,11 +104,11 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
-        self.y[self.particle_idx] += (
-            ((self.energy[self.particle_idx]>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
+        improved = self.energy[self.particle_idx] > energy_new
+        self.y[self.particle_idx] = np.where(
+            improved[self.ergexp], self.x[self.particle_idx], self.y[self.particle_idx]
         )
-        self.energy[self.particle_idx] = np.minimum(self.energy[self.particle_idx], energy_new)
+        self.energy[self.particle_idx] = np.where(improved, energy_new, self.energy[self.particle_idx])
 
         
     def compute_consensus(self,) -> None:
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index b78092e..1b7cb3a 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -139,8 +139,9 @@ class PSO(CBXDynamic):
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy[ind]>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy[ind] = np.minimum(self.energy[ind], energy_new)
+        improved = self.energy[ind] > energy_new
+        self.y[ind] = np.where(improved[energy_expand], self.x[ind], self.y[ind])
+        self.energy[ind] = np.where(improved, energy_new, self.energy[ind])
 
         
     def compute_consensus(self, x_batch, energy) -> None:
-- 
2.43.0


From 5b8d50ef07440acfbbf397a0204454d4968db81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 12/54] fix: history records copies, keeps its configuration on
 reset and leaves the extra tracks of the caller alone

---
 cbx/dynamics/pdyn.py | 6 ++++--
 cbx/utils/history.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index d1f010f..ea2029f 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -473,12 +473,14 @@ class ParticleDynamic:
         Returns:
             None
         """
-        track_args = track_args if track_args else {}  
+        if track_args is not None:
+            self.track_args = dict(track_args) # keep the configuration for a reset
+        track_args = getattr(self, 'track_args', {})
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From ee2cbbdb288c9c7a408eafd7331ba05f172e32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 13/54] fix: update difference of a run with a
 multi-dimensional domain

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index ea2029f..d262110 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -927,7 +927,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From 416d70a61dca2a87229eda1d7d618a259162feca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:43 +0000
Subject: [PATCH 14/54] fix: evaluation budget for dynamics without
 mini-batches

---
 cbx/utils/termination.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..3baaf47 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -51,7 +51,7 @@ class max_eval_term:
         self.max_eval = max_eval
     
     def __call__(self, dyn):
-        estimated_eval = dyn.batch_size
+        estimated_eval = getattr(dyn, 'batch_size', dyn.N)
         return (dyn.num_f_eval + estimated_eval) > self.max_eval
     
 term_dict.update(
-- 
2.43.0


From dd04fe613a3d13adc7896d53bef479f9a7f50e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:28 +0000
Subject: [PATCH 15/54] fix: energy stagnation with finished runs, several
 active runs and reused criteria

---
 cbx/utils/termination.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 3baaf47..8a5e3df 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -113,18 +113,22 @@ class energy_stagnation_term:
     def __init__(self, patience=20, std_thresh=1e-9):
         self.patience = patience
         self.losses = None
+        self.it = 0
         self.std_thresh = std_thresh
         
     def __call__(self, dyn):
-        if self.losses is None: 
+        if self.losses is None or dyn.it == 0: # start of a run
             self.losses = np.full((self.patience, dyn.M), np.inf)
-        if dyn.consensus is None: 
+            self.it = 0 # last iteration that was evaluated
+        if dyn.consensus is None or dyn.it == 0: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
-        # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        if dyn.it != self.it: # evaluate once per step
+            self.it = dyn.it
+            # eval loss, the consensus only contains the runs that were active in the last step
+            E = dyn.f(dyn.consensus).mean(axis=-1)
+            dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
+            # update losses
+            self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 1144dc08b7de62ba217c4cebed36de92d35d019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 16/54] fix: optimize of CBS returns the best particle

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From ee0633b3eb93fb024d56475deea10992cdb1ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:26 +0000
Subject: [PATCH 17/54] fix: Taz kernel normalizes by the largest distance of
 each run

---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 6f1b1cc..bd82b90 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,9 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # normalize by the largest distance within each run
+        max_dists = np.max(dists, axis=(-2,-1), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.where(max_dists > 0, max_dists, 1.)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From 4e6ee6ab19f21100cfeb0a3d42fceb0053499b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 18/54] fix: polar kernels on multi-dimensional domains

---
 cbx/dynamics/polarcbo.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index bd82b90..941487e 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -46,6 +46,10 @@ class kernel:
         raise NotImplementedError('The class ' + self.__class__.__name__ + ' does not implement the neg_log function')
 
 
+def kernel_dists(x: ArrayLike, y: ArrayLike):
+    """Euclidean distances over the axes of the domain (i.e. all axes from the third one on)"""
+    return np.sqrt(((x-y)**2).sum(tuple(i for i in range(3, x.ndim)) or -1))
+
 #%%
 class Gaussian_kernel(kernel):
     r"""Gaussian Kernel
@@ -92,12 +96,12 @@ class Laplace_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = kernel_dists(x, y)
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.exp(-np.true_divide(1, self.kappa) * dists)
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = kernel_dists(x, y)
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.true_divide(1, self.kappa) * dists
         
@@ -106,13 +110,13 @@ class Constant_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = kernel_dists(x, y)
         dists = dists / self.kappa
         with np.errstate(divide='ignore', invalid='ignore'):
             return np.exp(-dists**np.inf)
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1)
+        dists = kernel_dists(x, y)
         dists = dists / self.kappa
         with np.errstate(divide='ignore', invalid='ignore'):
             return dists**np.inf
@@ -122,11 +126,11 @@ class InverseQuadratic_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = np.true_divide(1, self.kappa) * np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = np.true_divide(1, self.kappa) * kernel_dists(x, y)
         return 1/(1+dists**2)
     
     def neg_log(self, x,y):
-        dists = np.true_divide(1, self.kappa) * np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = np.true_divide(1, self.kappa) * kernel_dists(x, y)
         return -np.log(1/(1+dists**2))
     
 class Taz_kernel(kernel):
@@ -137,7 +141,7 @@ class Taz_kernel(kernel):
         return np.exp(-self.neg_log(x,y))
     
     def neg_log(self, x,y):
-        dists = np.linalg.norm(x-y, axis=-1,ord=2)
+        dists = kernel_dists(x, y)
         # normalize by the largest distance within each run
         max_dists = np.max(dists, axis=(-2,-1), keepdims=True)
         dists =  np.true_divide(1, self.kappa) *  dists/np.where(max_dists > 0, max_dists, 1.)
-- 
2.43.0


From 2eb8c3e2ce651b076346d56f60fcffc9f2d1dc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 19/54] fix: constant kernel is one at distance kappa

---
 cbx/dynamics/polarcbo.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 941487e..220421f 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -110,16 +110,10 @@ class Constant_kernel(kernel):
         super().__init__(kappa=kappa)
     
     def __call__(self, x,y):
-        dists = kernel_dists(x, y)
-        dists = dists / self.kappa
-        with np.errstate(divide='ignore', invalid='ignore'):
-            return np.exp(-dists**np.inf)
+        return np.exp(-self.neg_log(x, y))
     
     def neg_log(self, x,y):
-        dists = kernel_dists(x, y)
-        dists = dists / self.kappa
-        with np.errstate(divide='ignore', invalid='ignore'):
-            return dists**np.inf
+        return np.where(kernel_dists(x, y) <= self.kappa, 0., np.inf)
     
 class InverseQuadratic_kernel(kernel):
     def __init__(self, kappa = 1.0):
-- 
2.43.0


From 12f731cdd91f946f8509c274ff54ee92825cf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:25 +0000
Subject: [PATCH 20/54] fix: mini-batches of the concatenating mode have
 distinct indices

---
 cbx/dynamics/pdyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index d262110..1cbc877 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -793,6 +793,9 @@ class CBXDynamic(ParticleDynamic):
             indices = self.batch_rng.permuted(indices, axis=1)
 
             if self.batch_var == 'concat':
+                # left-over indices are used first, new indices that coincide with them last
+                left_over = (indices[:, :, None] == self.indices[:, None, :]).any(axis=-1)
+                indices = np.take_along_axis(indices, np.argsort(left_over, axis=1, kind='stable'), axis=1)
                 self.indices = np.concatenate((self.indices, indices), axis=1)
             else:
                 self.indices = indices
-- 
2.43.0


From 8ecb39e8f6a09f086c3db8d21964ee0b202e6e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 21/54] fix: post processing with copy_nan_to_num replaces NaN

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 1cbc877..c80a877 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,8 +39,8 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
-        dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
+        x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.clip(x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
     r"""The base particle dynamic class
-- 
2.43.0


From 4a7fb01972e71201c58f5828cd84df669e413758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 22/54] fix: bisection keeps the roots of finished runs and the
 arguments of the caller

---
 cbx/scheduler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..b17d176 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -198,11 +198,12 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     roots of the function f
     """
     it = 0
-    x = high
+    low, high = np.array(low, dtype=float), np.array(high, dtype=float) # do not modify the arguments
+    x = np.copy(high)
     term = False
     idx = np.arange(len(low))
     while not term:
-        x = (low + high)/2
+        x[idx] = (low[idx] + high[idx])/2 # runs that are finished keep their root
         fx = f(x)
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
@@ -210,7 +211,7 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
         low[idx[gtzero]] = x[idx[gtzero]]
         high[idx[ltzero]]  = x[idx[ltzero]]
         # update running idx and iteration
-        idx = np.where(np.abs(fx) > thresh)[0]
+        idx = idx[np.abs(fx[idx]) > thresh]
         it += 1
         term = (it > max_it) | (len(idx) == 0)
     if verbosity > 0:
-- 
2.43.0


From 7fce9984f908e74c4d2bd05df36289b77279d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 23/54] fix: the seed also determines the initial ensemble

---
 cbx/dynamics/pdyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index c80a877..00c2cd3 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -208,7 +208,8 @@ class ParticleDynamic:
         
         
     def init_particles(self, shape=None):
-        return np.random.uniform(-1., 1., size=shape)
+        rng = np.random if self.seed is None else np.random.default_rng(self.seed)
+        return rng.uniform(-1., 1., size=shape)
 
     def init_f(self, f, f_dim, check_f_dims):
         self.f = _promote_objective(f, f_dim)
-- 
2.43.0


From 10cd3d9a844324cc1fdc7bd3174f22f8a2f6d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 24/54] fix: implicit squared-constraint step without
 constraints returns its input

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From 84680deadeac32481304d9e63fa61b646b1205c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 25/54] fix: derivatives of quadric constraints with a
 non-symmetric matrix

---
 cbx/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 6a2ce4b..3e9709f 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -118,7 +118,8 @@ class NoConstraint(Constraint):
     
 class quadricConstraint(Constraint):
     def __init__(self, A = None, b = None, c = 0):
-        self.A = A
+        # only the symmetric part of A enters the quadratic form
+        self.A = None if A is None else 0.5 * (A + np.swapaxes(A, -1, -2))
         self.b = b
         self.c = c
         
-- 
2.43.0


From 6aa542a08c5b098f7b5fe2ccacce07220e74eca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:11 +0000
Subject: [PATCH 26/54] fix: hypersurface drift points from the particle to the
 consensus and uses lamda

---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 6a4b1ad..8565214 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -133,7 +133,7 @@ class HyperSurfaceCBO(CBO):
             x + 
             self.sdf.proj_tangent_space(
                 x, 
-                self.dt * self.consensus + 
+                -self.lamda * self.dt * self.drift + 
                 self.sigma * self.noise())
         )
         
-- 
2.43.0


From 7188937a31452d115f619a395631c2e3affd6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 27/54] fix: curvature correction of anisotropic noise on the
 sphere

---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 8565214..e68a81f 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -155,5 +155,5 @@ class HyperSurfaceCBO(CBO):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            2 * ((self.drift * x)**2).sum(axis=-1, keepdims=True)
             ) * x
\ No newline at end of file
-- 
2.43.0


From b2bd309c81b293c63b4bedf08fcfcd15c5849514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 28/54] fix: projection onto the boundary of a square of
 arbitrary size

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index ace63be..27b7fc3 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = np.where(y[np.arange(y.shape[0]), idx] < 0, -self.r, self.r)
         return y.reshape(s)
 
 
-- 
2.43.0


From 6b6e44e8fb26446f0700e67056f14f05c6afc03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 29/54] fix: default normal vector of the hyperplane mirror map
 in several dimensions

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 27b7fc3..aa71c17 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -81,7 +81,8 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones_like(y) # also for a single number as normal vector
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/(a**2).sum(axis=-1, keepdims=True) * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From c674456524397a7595e0a82a474f724dff664f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 30/54] fix: conjugate of the log barrier at zero

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index aa71c17..9cee105 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -126,7 +126,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From ded03891948135f9969800cd695ae9072351ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 31/54] fix: entropic mirror map for large dual variables

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cee105..db5c8c7 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -139,7 +139,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        z = np.exp(y - y.max(axis=-1, keepdims=True))
+        return z/z.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From d77375d398d928ce8be7cfc4f09ecb1781fb9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 32/54] fix: domain of the ball mirror map is centered at its
 center

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index db5c8c7..9d469b2 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -61,7 +61,7 @@ class ProjectionBall(ProjectionMirrorMap):
         
     def __call__(self, theta):
         nx = np.linalg.norm(theta, axis=-1)
-        idx = np.where(nx > (self.radius + self.thresh))
+        idx = np.where(np.linalg.norm(theta - self.center, axis=-1) > (self.radius + self.thresh))
         nx = 0.5*nx**2 
         nx[idx] = np.inf
         return nx
-- 
2.43.0


From e48d33df52e3585d37dd49c26eb4455ab1ac8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 33/54] fix: Hessian of the L2 mirror map and value of the
 nonsmooth barrier per particle

---
 cbx/dynamics/mirrorcbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9d469b2..0f96b80 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -159,7 +159,7 @@ class L2(MirrorMap):
     
     def hessian(self, theta):
         n,m = theta.shape
-        return np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
+        return self.lamda * np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
    
     
    
@@ -188,7 +188,7 @@ class weighted_L2(MirrorMap):
     
 class NonsmoothBarrier(MirrorMap):
     def __call__(self, theta):
-        return np.sum(np.abs(theta)/(1-np.abs(theta)))
+        return np.sum(np.abs(theta)/(1-np.abs(theta)), axis=-1)
     
     def grad(self, theta):        
         return np.sign(theta)/(1 + np.abs(theta)**2 - 2*np.abs(theta))
-- 
2.43.0


From a480973124bf6d19f5a28087b03c153da0ae3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 34/54] fix: weighted L2 mirror map for ensembles and its
 conjugate

---
 cbx/dynamics/mirrorcbo.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 0f96b80..7560765 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -170,19 +170,22 @@ class weighted_L2(MirrorMap):
             A = np.eye(1)
         self.A = A
     
+    def matrix(self, d):
+        # symmetric part, a single weight is a multiple of the identity
+        A = 0.5*(self.A + self.A.T)
+        return A if A.shape[0] == d else A * np.eye(d)
+    
     def __call__(self,theta):
-        return 0.5*theta.T @ self.A @theta
+        return 0.5*(theta * self.grad(theta)).sum(axis=-1)
     
     def grad(self, theta):
-        return np.reshape(0.5*(self.A + self.A.T)@theta[:,:,None],theta.shape)
+        return theta @ self.matrix(theta.shape[-1])
     
     def grad_conj(self, y):
-        warnings.warn('Not properly implemented', stacklevel=2)
-        return y
-        #return np.linalg.solve(0.5*(self.A + self.A.T),y.T).T
+        return np.linalg.solve(self.matrix(y.shape[-1]), y[..., None])[..., 0]
     
     def hessian(self, theta):
-        return np.expand_dims(np.ones(theta.shape),axis=1) * 0.5*(self.A.T+self.A)
+        return np.expand_dims(np.ones(theta.shape),axis=1) * self.matrix(theta.shape[-1])
     
     
     
-- 
2.43.0


From e20a644fd80eeaa56ce00acb100ca40aac4305b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:05 +0000
Subject: [PATCH 35/54] fix: array-valued parameters of multimodal objectives

---
 cbx/objectives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..140f7b5 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -415,8 +415,8 @@ class Rastrigin_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = [1.] if alpha is None else alpha
+        self.z = np.zeros((len(self.alpha), 1)) if z is None else z
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -547,8 +547,8 @@ class Ackley_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = [1.] if alpha is None else alpha
+        self.z = np.zeros((len(self.alpha), 1)) if z is None else z
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
@@ -625,8 +625,8 @@ class Banana(cbx_objective):
 class Bimodal(cbx_objective):
     def __init__(self, a=None, b=None):
         super().__init__()
-        self.a = a if a else [1., 1.5]
-        self.b = b if b else [-1.2, -0.7]
+        self.a = [1., 1.5] if a is None else a
+        self.b = [-1.2, -0.7] if b is None else b
     
     def apply(self, x):
         a = self.a
@@ -639,7 +639,7 @@ class Bimodal(cbx_objective):
 class Unimodal(cbx_objective):
     def __init__(self, a = None):
         super().__init__()
-        self.a = a if a else [-1.2, -0.7]
+        self.a = [-1.2, -0.7] if a is None else a
     
     def apply(self, x):
         a = self.a
-- 
2.43.0


From d08d2737dc1852708fc37be2bc66f6257163827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 36/54] fix: objectives keep axes of length one

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 140f7b5..2900bfb 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
@@ -657,7 +657,7 @@ class Multimodal(cbx_objective):
     def apply(self, x):
         res = 0
         for mn in self.mns:
-            res += mn.pdf(x)
+            res += np.reshape(mn.pdf(x), x.shape[:-1]) # pdf removes axes of length one
         return -np.log(res)
             
     
-- 
2.43.0


From 4209ac10a8ce746824e02466e494563147de9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 37/54] fix: minima of scaled and shifted objectives

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 2900bfb..9d42030 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])/self.factor
         
     def apply(self, x):
         x = self.factor*x
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])/self.factor + self.shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From 1257cbc0e23daa9f6cebedb1cb94a1f02781bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 38/54] fix: global minimum of Bukin6

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 9d42030..db65772 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
-- 
2.43.0


From b37c4fd6244e079df2d41b810b6ae313018d7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 39/54] fix: minima of Ackley is a list of points

---
 cbx/objectives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index db65772..39c87e3 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -499,11 +499,12 @@ class Ackley(cbx_objective):
         self.A=A
         self.b=b
         self.c=c
-        self.minima = 0 if minimum is None else minimum
+        self.minimum = 0 if minimum is None else minimum
+        self.minima = np.atleast_2d(np.zeros(2) if minimum is None else minimum)
     
     def apply(self, x):
         d = x.shape[-1]
-        x = x - self.minima
+        x = x - self.minimum
         
         arg1 = -self.b * np.sqrt(1/d) * np.linalg.norm(x,axis=-1)
         arg2 = (1/d) * np.sum(np.cos(self.c * x), axis=-1)
-- 
2.43.0


From 171eca87a26cd529b7b85adee6a1586066951952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 40/54] fix: documented formulas and minima of objectives

---
 cbx/objectives.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 39c87e3..8e26db1 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -80,8 +80,8 @@ class three_hump_camel(cbx_objective):
 class McCormick(cbx_objective):
     r"""McCormick's function
     
-    McCormick's function is a multimodal function with two global minima at
-    :math:`(-0.54719,-1.54719)` and :math:`(1.54719,0.54719)`. The function is defined as
+    McCormick's function is a multimodal function with a global minimum (on :math:`[-1.5,4]\times[-3,4]`) at
+    :math:`(-0.54719,-1.54719)`. The function is defined as
     
 
     .. math::
@@ -130,7 +130,6 @@ class McCormick(cbx_objective):
         cs = ax0.contourf(XX,YY,ZZ, 20, cmap=cm.jet)
         ax0.contour(cs, colors='orange', alpha=0.2)
         ax0.plot(-0.54719,-1.54719, color='orange', marker='x', markersize=10)
-        ax0.plot(1.54719, 0.54719, color='orange', marker='x', markersize=10)
         ax1.plot_surface(XX,YY,ZZ, cmap=cm.jet)
         ax0.set_title('Contour plot')
         ax1.set_title('Surface plot')
@@ -310,7 +309,7 @@ class Rastrigin(cbx_objective):
 
     .. math::
 
-        \tilde{f}(x,y)  = \frac{1}{n} \sum_{i=1}^n \left[ (x_i - b)^2 - 10 \cos(2 \pi (x_i - b)) + 10 \right] + c.
+        \tilde{f}(x)  = \sum_{i=1}^d \left[ (x_i - b)^2 - A \cos(2 \pi (x_i - b)) + A \right] + c.
 
     Parameters
     ----------
@@ -746,7 +745,7 @@ class cross_in_tray(cbx_objective):
     
     .. math::
 
-        f(x,y) = -0.0001 \left( \left| \sin(x) \sin(y) \exp \left( \left| 100 - \frac{\sqrt{x^2 + y^2}}{\pi} \right| \right) + 1 \right| + 1 \right)^0.1,
+        f(x,y) = -0.0001 \left( \left| \sin(x) \sin(y) \exp \left( \left| 100 - \frac{\sqrt{x^2 + y^2}}{\pi} \right| \right) \right| + 1 \right)^{0.1},
 
     see [1]_.
 
@@ -914,7 +913,7 @@ class drop_wave(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = -1` at :math:`(x,y) = (0, 0)`
+    - :math:`f(x,y) = -2` at :math:`(x,y) = (0, 0)`
     
     Examples
     --------
-- 
2.43.0


From a33e5913304b15ecda5989010ee3596fbade36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 41/54] fix: distance to the minimiser for domains with axes of
 length one

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..8bbc551 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm((x_true[None,...] - x).reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From 7d3ab488a0ab0c40701e5a718328f81006bdb8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:32 +0000
Subject: [PATCH 42/54] fix: success evaluation respects its verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 8bbc551..8182614 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From 0d3fad1b109a936b0bed3b294a4523c7461ed535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 43/54] fix: finished runs are not resampled

---
 cbx/utils/resampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..0dc3794 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,8 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        # runs that are already finished are not resampled
+        idx = np.intersect1d(idx, dyn.active_runs_idx)
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
-- 
2.43.0


From 31b6cc4aca225b08a75852ea041f86d1de503087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 44/54] fix: best consensus of resampled runs with finished
 runs

---
 cbx/utils/resampling.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 0dc3794..a7dac09 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -68,20 +68,23 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # the consensus holds only the active runs
+        consensus_energy = dyn.eval_f(dyn.consensus)
+        pos = np.searchsorted(dyn.active_runs_idx, idx)
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(dyn.x[:, 0:1, ...])
+            self.best_consensus[dyn.active_runs_idx, ...] = dyn.copy(dyn.consensus)
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
-            self.best_consensus_energy[idx, ...] = consensus_energy
+            self.best_consensus_energy[idx, ...] = consensus_energy[pos, ...]
         else:
             idx2 = np.where(
-                consensus_energy < self.best_consensus_energy[idx, ...]
+                consensus_energy[pos, ...] < self.best_consensus_energy[idx, ...]
                 )[0]
             self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
+                dyn.consensus[pos[idx2], ...]
                 )
-            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
+            self.best_consensus_energy[idx[idx2], ...] = consensus_energy[pos[idx2], ...]
 
 class ensemble_update_resampling:
     """
-- 
2.43.0


From 800759a42dbad8562563a9869e8639094dc893d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:55 +0000
Subject: [PATCH 45/54] fix: weighted penalty mean for large energies

---
 cbx/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index cce3840..1eabe26 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -102,7 +102,8 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    w = -dyn.alpha * dyn.eval_f(dyn.x)
+    E = np.exp(w - w.max(axis=-1, keepdims=True)) # shifted, such that not all weights vanish
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
-- 
2.43.0


From fa937883e77f3c1b8053c02b3ef49478a3e4ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 46/54] fix: theta_max limits the growing tolerance parameter

---
 cbx/regularizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 1eabe26..6684c01 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -138,9 +138,9 @@ class regularization_paramter_scheduler(param_update):
         dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
-        self.theta[t] *= self.factor_theta
-        self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
-                                 a_max= self.theta_max, a_min=None)
+        self.theta[t] = np.clip(self.theta[t] * self.factor_theta, 
+                                a_max= self.theta_max, a_min=None)
+        self.theta[~t] /= self.factor_theta
         dyn.f.lamda[~t] *= self.factor_lamda
         dyn.f.lamda = np.clip(dyn.f.lamda, a_max=self.lamda_max, a_min=0)
             
-- 
2.43.0


From 4784f2f07ebfa7e76c153f25152a57ccf14b2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 47/54] fix: consensus weights sum to one for large energies

---
 cbx/dynamics/pdyn.py     | 6 ++++--
 cbx/dynamics/polarcbo.py | 6 +++---
 cbx/utils/torch_utils.py | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 00c2cd3..7fb9946 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -588,7 +588,8 @@ class compute_consensus_default:
             self.check_coeffs = self._no_check_coeffs
     
     def __call__(self, energy, x, alpha):
-        weights = - alpha * energy
+        # shift by the minimum: adding the log-sum to a large weight would be lost to rounding
+        weights = - alpha * (energy - energy.min(axis=-1, keepdims=True))
         coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=-1, keepdims=True))[coeff_expan]
         self.check_coeffs(coeffs)
@@ -911,7 +912,8 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
+        energy = self.energy[self.particle_idx]
+        weights = - self.alpha[self.active_runs_idx, :] * (energy - energy.min(axis=-1, keepdims=True))
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 220421f..d6950e6 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -1,7 +1,7 @@
 import numpy as np
 from typing import Callable
 from numpy.typing import ArrayLike
-from scipy.special import logsumexp
+from scipy.special import softmax
 
 from .pdyn import compute_mat_sqrt
 from .cbo import CBO
@@ -144,7 +144,7 @@ class Taz_kernel(kernel):
 #%% PolarCBO
 def compute_polar_consensus(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
     weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
-    coeffs = np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
+    coeffs = softmax(weights, axis=-1)
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     c = np.sum(x[:,None,...] * coeffs[coeff_expan], axis=2)
     return c, energy
@@ -268,7 +268,7 @@ class PolarCBO(CBO):
             - self.kernel_factor() * self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
             - self.alpha[self.active_runs_idx, :, None] * self.energy[self.particle_idx][:, None, :]
         )
-        coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
+        coeffs = softmax(weights, axis=-1)
       
         D = self.drift[...,None] * self.drift[...,None,:]
         D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 1894fb3..23813b8 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -31,7 +31,7 @@ def norm_torch(x, axis, **kwargs):
 
 @requires_torch
 def compute_consensus_torch(energy, x, alpha):
-    weights = - alpha * energy
+    weights = - alpha * (energy - energy.amin(dim=-1, keepdims=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - logsumexp(weights, dim=-1, keepdims=True))[coeff_expan]
     return (x * coeffs).sum(axis=1, keepdims=True), energy.cpu().numpy()
@@ -40,7 +40,7 @@ def compute_consensus_torch(energy, x, alpha):
 def compute_polar_consensus_torch(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
     weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
-    coeffs = torch.exp(weights - torch.logsumexp(weights, dim=(-1,), keepdims=True))[coeff_expan]
+    coeffs = torch.softmax(weights, dim=-1)[coeff_expan]
     c = torch.sum(x[:,None,...] * coeffs, axis=2)
     return c, energy.detach().cpu().numpy()
 
-- 
2.43.0


From ab835ee2cdb629bef11ecae660b0ae7da11fc630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 48/54] fix: effective sample size for large energies

---
 cbx/scheduler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index b17d176..4657f48 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -175,8 +175,10 @@ class eff_sample_size_gap:
         self.N = energy.shape[-1]
     
     def __call__(self, alpha):
-        nom   = logsumexp(-alpha[:, None] * self.energy, axis=-1)
-        denom = logsumexp(-2 * alpha[:, None] * self.energy, axis=-1)
+        # the sample size does not depend on a shift of the energy, which avoids large exponents
+        energy = self.energy - self.energy.min(axis=-1, keepdims=True)
+        nom   = logsumexp(-alpha[:, None] * energy, axis=-1)
+        denom = logsumexp(-2 * alpha[:, None] * energy, axis=-1)
         return np.exp(2 * nom - denom) - self.eta * self.N
         
 def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
-- 
2.43.0


From d3826b3b2e79c15e7ff4660414c4a3c292826c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 49/54] fix: contour plots respect a limit of zero for the
 second axis

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..c9b28a4 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From 3ffd166f14d8cc9d3838e80375ef922831e36031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 50/54] fix: drift plots of mini-batches that do not contain
 every particle

---
 cbx/plotting.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index c9b28a4..e2f5958 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -325,9 +325,13 @@ class PlotDynamic:
             pidx = Ellipsis
 
         if self.plot_drift:
-            self.quiver.set_offsets(
-                np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
-                          x[pidx][..., self.dims[1]][self.num_run, :]]).T)
+            offsets = np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
+                                x[pidx][..., self.dims[1]][self.num_run, :]]).T
+            if len(offsets) != self.quiver.N: # the number of arrows is fixed
+                self.quiver.remove()
+                self.init_drift(x, dr, pidx)
+                return
+            self.quiver.set_offsets(offsets)
             self.quiver.set_UVC(
                 -dr[self.num_run, :, self.dims[0]], 
                 -dr[self.num_run, :, self.dims[1]])
-- 
2.43.0


From 2a81570f095836ce12c9b02c71835a1a9963347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:51 +0000
Subject: [PATCH 51/54] fix: plots of a run after other runs are finished

---
 cbx/plotting.py      | 82 ++++++++++++++++++++++++++++++++------------
 cbx/utils/history.py |  2 ++
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index e2f5958..7545738 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -129,9 +129,11 @@ class PlotDynamic:
         if self.plot_consensus:
             if self.dyn.consensus is None:
                 c = self.dyn.x
+                cidx = Ellipsis
             else:
                 c = self.dyn.consensus
-            self.init_consensus(c)
+                cidx = self.dyn.consensus_idx
+            self.init_consensus(c, cidx)
 
         if self.plot_drift:
             if not hasattr(self.dyn, 'drift') or self.dyn.drift is None:
@@ -181,7 +183,28 @@ class PlotDynamic:
         y, 
         **self.particle_args)
         
-    def init_consensus(self, c):
+    def select_run(self, a, idx):
+        """
+        Selects the plotted run from an array that only contains the active runs.
+
+        Parameters
+        ----------
+        a
+            The array, the first axis are the active runs.
+        idx
+            The indices of the active runs and particles.
+
+        Returns
+        -------
+        The entries of the run, None if the run was not active.
+        """
+        if idx is None or idx is Ellipsis:
+            return a[self.num_run, ...]
+        runs = idx[0].reshape(len(idx[0]), -1)[:, 0]
+        row = np.where(runs == self.num_run)[0]
+        return a[row[0], ...] if len(row) > 0 else None
+
+    def init_consensus(self, c, cidx=Ellipsis):
         """
         Initializes the consensus plot.
 
@@ -189,19 +212,24 @@ class PlotDynamic:
         ----------
         c
             The consensus points to plot.
+        cidx
+            The indices of the active runs.
         
         Returns
         -------
         None
         """
+        c = self.select_run(c, cidx)
+        if c is None:
+            c = np.zeros((0, self.d))
 
         if self.d == 1:
-            y = np.zeros_like(c[self.num_run, :, self.dims[0]])
+            y = np.zeros_like(c[:, self.dims[0]])
         else:
-            y = c[self.num_run, :, self.dims[1]]
+            y = c[:, self.dims[1]]
 
         self.scc = self.ax.scatter(
-            c[self.num_run, :, self.dims[0]], 
+            c[:, self.dims[0]], 
             y,
             **self.consensus_args)
         
@@ -227,11 +255,14 @@ class PlotDynamic:
             warnings.warn('Drift plot not supported for 1D data.', stacklevel=2)
             self.plot_drift = False
         else:
+            z, dr = self.select_run(x[pidx], pidx), self.select_run(dr, pidx)
+            if z is None:
+                z, dr = np.zeros((0, self.d)), np.zeros((0, self.d))
             self.quiver = self.ax.quiver(
-                x[pidx][..., self.dims[0]][self.num_run,:], 
-                x[pidx][..., self.dims[1]][self.num_run,:], 
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]],
+                z[:, self.dims[0]], 
+                z[:, self.dims[1]], 
+                -dr[:, self.dims[0]], 
+                -dr[:, self.dims[1]],
                 **self.drift_args)
         
     def update(self, wait=0.1):
@@ -250,7 +281,7 @@ class PlotDynamic:
 
         self.plot_particles(self.dyn.x_old)
         if self.plot_consensus:
-            self.plot_c(self.dyn.consensus)
+            self.plot_c(self.dyn.consensus, self.dyn.consensus_idx)
         if self.plot_drift:
             self.plot_d(self.dyn.x_old, self.dyn.drift, self.dyn.particle_idx)
 
@@ -280,7 +311,7 @@ class PlotDynamic:
 
         self.scx.set_offsets(z)
         
-    def plot_c(self, c):
+    def plot_c(self, c, cidx=Ellipsis):
         """
         Plots consensus.
 
@@ -288,6 +319,8 @@ class PlotDynamic:
         ----------
         c
             The consensus to plot.
+        cidx
+            The indices of the active runs.
 
         Returns
         -------
@@ -295,11 +328,13 @@ class PlotDynamic:
         """
 
         if self.plot_consensus and c is not None:
+            c = self.select_run(c, cidx)
+            if c is None: # finished runs keep their last consensus
+                return
             if self.d == 1:
-                z = np.stack([c[self.num_run, ...][:, 0],
-                              np.zeros_like(c[self.num_run, ...][:, 0])], axis=-1)
+                z = np.stack([c[:, 0], np.zeros_like(c[:, 0])], axis=-1)
             else:
-                z = c[self.num_run, ...][:, self.dims]
+                z = c[:, self.dims]
 
             self.scc.set_offsets(z)
         
@@ -325,16 +360,18 @@ class PlotDynamic:
             pidx = Ellipsis
 
         if self.plot_drift:
-            offsets = np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
-                                x[pidx][..., self.dims[1]][self.num_run, :]]).T
-            if len(offsets) != self.quiver.N: # the number of arrows is fixed
+            z, v = self.select_run(x[pidx], pidx), self.select_run(dr, pidx)
+            if z is None: # finished runs keep their last drift
+                return
+            if len(z) != self.quiver.N: # the number of arrows is fixed
                 self.quiver.remove()
                 self.init_drift(x, dr, pidx)
                 return
-            self.quiver.set_offsets(offsets)
+            self.quiver.set_offsets(
+                np.array([z[:, self.dims[0]], z[:, self.dims[1]]]).T)
             self.quiver.set_UVC(
-                -dr[self.num_run, :, self.dims[0]], 
-                -dr[self.num_run, :, self.dims[1]])
+                -v[:, self.dims[0]], 
+                -v[:, self.dims[1]])
             
             
 
@@ -373,6 +410,7 @@ class PlotDynamicHistory(PlotDynamic):
                 self.plot_consensus = False
             else:
                 self.c = dyn.history['consensus']
+                self.cidx = dyn.history['consensus_idx']
             
         if self.plot_drift:
             if 'drift' not in dyn.history:
@@ -395,7 +433,7 @@ class PlotDynamicHistory(PlotDynamic):
         self.plot_objective()
         self.init_x(self.x[0])
         if self.plot_consensus:
-            self.init_consensus(self.c[0])
+            self.init_consensus(self.c[0], self.cidx[0])
 
         if self.plot_drift:
             self.init_drift(self.x[0], self.dr[0], self.pidx[0])
@@ -416,7 +454,7 @@ class PlotDynamicHistory(PlotDynamic):
         self.plot_particles(self.x[i])
 
         if self.plot_consensus:
-            self.plot_c(self.c[i])
+            self.plot_c(self.c[i], self.cidx[i])
         if self.plot_drift:
             self.plot_d(self.x[i], self.dr[i], self.pidx[i])
 
diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 00bf79f..e53893f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -137,9 +137,11 @@ class track_consensus(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['consensus'] = []
+        dyn.history['consensus_idx'] = [] # the consensus is only computed for the active runs
     @staticmethod
     def update(dyn) -> None:
         dyn.history['consensus'].append(dyn.copy(dyn.consensus))
+        dyn.history['consensus_idx'].append(dyn.consensus_idx)
         
 class track_drift_mean(track):
     """
-- 
2.43.0


From 54714d6e2f712a97ff555cb8c33c9fa6cda95b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 52/54] fix: single-point objectives whose first value is an
 integer truncated all other values

---
 cbx/utils/objective_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..15a227a 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,8 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        # np.apply_along_axis would cast all values to the type of the first one
+        return np.array([self.f(p) for p in x.reshape(-1, x.shape[-1])]).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From faddd96ec98bb691777f271d97cf3d96cfa61ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 53/54] fix: memory dynamics stored truncated energies if the
 initial ones were integers

---
 cbx/dynamics/cbo_memory.py | 2 +-
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index d16fea6..6d696d9 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.copy(self.f(self.x))
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 1b7cb3a..030ffb9 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.copy(self.f(self.x))
+        self.energy[...] = self.f(self.x)
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
-- 
2.43.0


From 14849d18918d5b84064d46d98ac2a37b4b916c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 54/54] fix: integer initial ensembles failed or were truncated
 in every step

---
 cbx/dynamics/pdyn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7fb9946..62e3a2e 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -201,6 +201,8 @@ class ParticleDynamic:
             elif x.ndim == 2:
                 x = x[None, ...]
             self.x = self.copy(x)
+            if isinstance(self.x, np.ndarray) and self.x.dtype.kind in 'biu':
+                self.x = self.x.astype(float) # positions are real numbers
         
         self.M, self.N = self.x.shape[:2]
         self.d = self.x.shape[2:]
-- 
2.43.0

