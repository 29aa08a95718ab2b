From 823e590cfca9847959651b55f1d4bb1a3c27142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:01 +0000
Subject: [PATCH 01/16] fix: do not scale the caller's increments in place in
 solver_pathwise

---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From cfbbbaf5995cc0e2fd38c6742f35684b0884ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 02/16] fix: use the trapezoidal rule of jax.scipy,
 jnp.trapezoid does not exist here

---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From c6ecbc9eca662b4749381add20c61ded46515766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 03/16] fix: companion matrix of the Matern prior has positive
 powers of lambda

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From 3bc930fe7a97e835e4b29c34ec9d0226ceb581c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 04/16] fix: integrate the sampled path over all of its nodes
 in get_approx_and_brownian

---
 bayesian_sde_solver/foster_polynomial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..0b495dc 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -37,8 +37,9 @@ def get_approx_and_brownian(dim=1, N=1000):
         incs = jax.random.normal(key, shape=(N, dim))
         bm = jnp.cumsum(incs, axis=0)
         bm *= jnp.sqrt(dt / N)
+        bm = jnp.concatenate([jnp.zeros((1, dim)), bm], axis=0)
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(N + 1)
 
         eps_0 = bm.at[-1].get()
 
-- 
2.43.0


From 570327631f98fdb1f6c7006d77e7ae3f0f58a7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 05/16] fix: elementwise multiplicative-noise terms in the
 diagonal order 1.5 scheme

---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..c905777 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,12 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + (partialxsigma(x) @ drift(x) + 0.5 * laplacesigma(x))
+                * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h)
+                * eta_k
         )
         return out, out
 
-- 
2.43.0


From 7832c52287d3f432d96c57f80ab1180289329ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 06/16] fix: factorise the given observation noise covariance
 in the square-root ODE filter

---
 bayesian_sde_solver/ode_solvers/ekf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..09d55db 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -1,5 +1,6 @@
 import jax
 import jax.numpy as jnp
+import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
@@ -22,6 +23,8 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))
 
     if EKF0:
         def observation_function(x, t):
-- 
2.43.0


From 82b29f8b963901889262f9bc31cd9b371289bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:28 +0000
Subject: [PATCH 07/16] fix: noise-free states of the prior in the square-root
 ODE filter

---
 bayesian_sde_solver/ode_solvers/ekf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 09d55db..2fc5928 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -47,7 +47,9 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        # states without noise (e.g. of a padded prior) have a zero row in the Cholesky factor
+        noiseless = jnp.diag(1.0 * (jnp.diag(transition_covariance) == 0.0))
+        transition_covariance = jnp.linalg.cholesky(transition_covariance + noiseless) - noiseless
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
-- 
2.43.0


From dc74f15182f2d48ef8bb631239d33586e9c231f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 08/16] fix: default prior of the restarting EKF0 and EKF1
 solvers

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 2 +-
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..d0635dd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,7 +11,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..8fa3054 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From aa590544228de067fb53f130351a8f51c0d4dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 09/16] fix: initial law of the restarting EKF0 and EKF1
 solvers with more than three states

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index d0635dd..65d253c 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -31,9 +31,9 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 8fa3054..7ab0553 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -29,7 +29,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From c7af0b5d0afce9bf868ec9f22aa761730a304a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:28 +0000
Subject: [PATCH 10/16] fix: second derivative of the solution of a
 time-dependent ODE in EKF0 and EKF1

---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 65d253c..e56a336 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -24,14 +24,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 7ab0553..e6b3d94 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -21,13 +21,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0))
         )
-- 
2.43.0


From b6f7f000782671af5d3c48ecaa0a8aea7d2dd50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 11/16] fix: pass the offset of the prior to the filter in the
 parabola state-space solver

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..339cfda 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -89,10 +89,11 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    transition_incr = jnp.tile(jnp.append(one_block_transition_incr, jnp.zeros(2)), dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 3d7a579e82526cc2576b719ff389394eb3b38cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 12/16] fix: factorise the given observation noise covariance
 in the square-root parabola filter

---
 bayesian_sde_solver/ssm_parabola/ekf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 339cfda..80395a6 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -25,6 +25,8 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         noise = jnp.zeros((dim, dim))
     else:
         assert noise.shape == (dim, dim)
+        if sqrt:
+            noise = jnp.real(linalg.sqrtm(noise))
 
     mean = interlace((init, drift(init, 0.0), jnp.zeros((dim,)), jnp.zeros((dim,))))
 
-- 
2.43.0


From 4cd51c3b0c1d5d7ed8933d75e22d36c4dff65339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:58 +0000
Subject: [PATCH 13/16] fix: sign of alpha in the second-order mean of the
 FitzHugh-Nagumo problem

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..5125754 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From 4c5daf4e96011572b6796b95c360a54bf5dd3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:58 +0000
Subject: [PATCH 14/16] fix: excitatory term in the second-order mean of the
 synaptic conductance problem

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 5125754..68ab703 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -329,7 +329,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
-- 
2.43.0


From 6c563d7e823e5c9b025e49d2e208b5ca6ea94bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 15/16] fix: state indices of the reduced synaptic conductance
 problem

---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 68ab703..3eddd19 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From 7ea22c8e1cc95708901b8bfce2cf8a2522a0f07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 16/16] fix: independent drift and diffusion matrices in
 random_linear_sde

---
 bayesian_sde_solver/utils/ivp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 3eddd19..d706ce9 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -131,9 +131,11 @@ def random_linear_sde(key=jax.random.PRNGKey(1337), dim=1, std1=None, std2=None)
 
     x0 = jnp.ones((dim,))
 
-    drift_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_key, sigma_key = jax.random.split(key)
 
-    sigma_matrix = jax.random.normal(key, shape=(dim, dim))
+    drift_matrix = jax.random.normal(drift_key, shape=(dim, dim))
+
+    sigma_matrix = jax.random.normal(sigma_key, shape=(dim, dim))
 
     def drift(x, t):
         return std1 @ drift_matrix @ x
-- 
2.43.0

