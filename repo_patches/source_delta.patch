From 7195e2489c4f69094ab2dd3419d0a824c443c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 01/43] fix: give every NosnocOpts instance its own NLP solver
 options

opts_casadi_nlp was a mutable class attribute, so setting (or deriving) the IPOPT
tolerance or iteration limit of one options object changed it for all others.
---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..71424ad 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
 
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # every options object owns its solver options, the class attribute only holds the defaults
+        self.opts_casadi_nlp = deepcopy(type(self).opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From 03643a9d7b10ca9bc89becf0bdc95b8cfcd66c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 02/43] fix: impose the boundary switching equations only where
 boundary multipliers exist

With Gauss-Legendre and FESD the last finite element of a control stage has no
multipliers for its right boundary, so the equations tied the last RK stage's
multipliers to two different states and made every nonzero step infeasible
unless the switching functions were constant.
---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..147982e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: only if there are algebraic variables for the boundary point, i.e. not on the last FE.
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 67814a63f2e1e1771cb0ec8941249ff3db8139bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:30 +0000
Subject: [PATCH 03/43] fix: constrain the horizon length for a single control
 stage without equidistant grid

With N_stages == 1 and equidistant_control_grid == False nothing tied the step sizes
to terminal_time, so e.g. a simulation step could cover any time span.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 147982e..5ac5716 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -836,7 +836,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 68e7e7974799cf965ed20a245d74e5e8d896413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:22 +0000
Subject: [PATCH 04/43] fix: quadrature weights of the one-stage Radau scheme
 in integral form

The weights were those of the interpolation through the left boundary point as well,
whose weight is never used: for n_s = 1 running costs were counted half.
---
 nosnoc/rk_utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..dc802e6 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1080,9 +1080,16 @@ def generate_butcher_tableu_integral(n_s: int, irk_scheme: IrkSchemes):
         for r in range(n_s + 1):
             C[j, r] = np.polyval(pder, tau_root[r])
 
-        # Evaluate the integral of the polynomial to get the coefficients of the quadrature function
-        pint = np.polyint(coeff)
-        B[j] = np.polyval(pint, 1.0)
+        # Evaluate the integral of the Lagrange polynomial on the collocation points (without the left
+        # boundary point, which is no stage) to get the coefficients of the quadrature function
+        if j > 0:
+            coeff = np.ones(1)
+            for r in range(1, n_s + 1):
+                if not r == j:
+                    coeff = np.convolve(coeff, [1, -tau_root[r]])
+                    coeff = coeff / (tau_root[j] - tau_root[r])
+            pint = np.polyint(coeff)
+            B[j] = np.polyval(pint, 1.0)
     return B, C, D, tau_root
 
 
-- 
2.43.0


From 80e6a4424a9563bbe7eb509efe799ac7eafdc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 05/43] fix: create the global speed of time variable

SpeedOfTimeVariableMode.GLOBAL called a method that does not exist.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 5ac5716..f667d6b 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -650,7 +650,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From 1a56e092b7df67c0875d5b1d4b9193c2bb9bb702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:13 +0000
Subject: [PATCH 06/43] fix: report switch times instead of step lengths

results["switch_times"] contained the length of the finite element before the switch,
which is the time of the switch only for the first element.
---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 011e4706f3fd6c6916d5d1d0df56ae2ebd3823f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:38 +0000
Subject: [PATCH 07/43] fix: Step representation of systems with different
 numbers of regions

The multipliers of the regions of all subsystems were stored in one matrix.
---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..f033a72 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -287,7 +287,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From 2c06cb2548a9b099346404521caca2d690abe20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 08/43] fix: order of the initial multipliers of several Step
 systems

The parameter vector of the problem contains lambda_n of all systems followed by
lambda_p of all systems, the values were computed system by system.
---
 nosnoc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index f033a72..eea2328 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -257,6 +257,7 @@ class NosnocModel:
         g_switching = ca.SX.zeros((0, 1))
         g_convex = ca.SX.zeros((0, 1))  # equation for the convex multiplers 1 = e' \theta
         lambda00_expr = ca.SX.zeros(0, 0)
+        lambda00_p_expr = ca.SX.zeros(0, 0)
         std_compl_res = ca.SX.zeros(1)  # residual of standard complementarity
 
         # Note: this is the order of z used by FiniteElement
@@ -296,8 +297,10 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))
+                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))
+            # NOTE: same order as in FiniteElementBase.Lambda: lambda_n of all systems, then lambda_p
+            lambda00_expr = ca.vertcat(lambda00_expr, lambda00_p_expr)
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 898fb742707bfa8d82d6456e484a755b2eb6aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 09/43] fix: control stage complementarities with non-uniform
 finite elements

With Nfe_list given, stages with a number of finite elements smaller than
N_finite_elements lost their control stage complementarities.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index f667d6b..58ad731 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -540,7 +540,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx] - 1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From e336717284f3c9fd98f916bf3c86fe2f0a12faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:53 +0000
Subject: [PATCH 10/43] fix: report the cost with its sign

cost_val was the absolute value of the objective.
---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..21af56c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -256,7 +256,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -406,7 +406,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
-- 
2.43.0


From 4da0075c129be6a9c056d6a63448a02e74e71550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 11/43] fix: stop_on_failure of the simulation loop

The status in the results is a Status, it was compared to a return status of IPOPT,
so the loop never stopped.
---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..309b289 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] != Status.SUCCESS):
                 return False
 
         return True
-- 
2.43.0


From fd60e4a42315b997f1821dd529beed13ad62e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 12/43] fix: refuse inequalities in LEAST_SQUARES constraint
 handling

Only the lower bounds were checked, so constraints 0 <= g <= ub silently became g == 0.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 58ad731..1cc5065 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -855,7 +855,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 2361ed267a3a4babde9943a64e2cf29da1c5559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:47 +0000
Subject: [PATCH 13/43] fix: extract multipliers of systems with different
 numbers of regions

---
 nosnoc/solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 21af56c..f776e1a 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -484,8 +484,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    # one row per system, or a flat vector if the systems have different numbers of regions
+    def get_multipliers(ind):
+        return w_opt[ind] if len(set(map(len, ind))) <= 1 else w_opt[flatten(ind)]
+
+    results["theta_list"] = [get_multipliers(ind) for ind in get_cont_algebraic_indices(prob.ind_theta)]
+    results["lambda_list"] = [get_multipliers(ind) for ind in get_cont_algebraic_indices(prob.ind_lam)]
     # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From 7d4d1d4feef8ed9f97e6a84c13788d2deec7fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:18 +0000
Subject: [PATCH 14/43] fix: polishing step fixed the free multipliers and
 repeated its solve

---
 nosnoc/solver.py | 54 +++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index f776e1a..25747e8 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -210,9 +210,11 @@ class NosnocSolverBase(ABC):
         eps_sigma = 1e1 * opts.comp_tol
 
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
+        # NOTE: mu is free, it must not be fixed at zero.
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_mu +
+                               prob.ind_sot + prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
@@ -239,32 +241,28 @@ class NosnocSolverBase(ABC):
             print(
                 f"polishing step: setting {len(ind_fix_zero)} variables to 0.0, {len(ind_fix_one)} to 1.0."
             )
-        for i_ctrl in range(opts.N_stages):
-            for i_fe in range(opts.Nfe_list[i_ctrl]):
-                w_guess[prob.ind_theta[i_ctrl][i_fe][:]]
-
-            sigma_k, tau_val = 0.0, 0.0
-            self.setup_p_val(sigma_k, tau_val)
-
-            # solve NLP
-            t = time.time()
-            sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
-            cpu_time_nlp = time.time() - t
-
-            # print and process solution
-            solver_stats = casadi_ipopt_solver.stats()
-            status = solver_stats['return_status']
-            nlp_iter = solver_stats['iter_count']
-            nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = sol['f'].full()[0][0]
-            w_opt = sol['x'].full().flatten()
-
-            complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
-            if opts.print_level:
-                self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
-                                       cpu_time_nlp, nlp_iter, status)
-            if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
-                print(f"Warning: IPOPT exited with status {status}")
+        sigma_k, tau_val = 0.0, 0.0
+        self.setup_p_val(sigma_k, tau_val)
+
+        # solve NLP
+        t = time.time()
+        sol = casadi_ipopt_solver(x0=w_guess, lbg=prob.lbg, ubg=prob.ubg, lbx=lbw, ubx=ubw, p=self.p_val)
+        cpu_time_nlp = time.time() - t
+
+        # print and process solution
+        solver_stats = casadi_ipopt_solver.stats()
+        status = solver_stats['return_status']
+        nlp_iter = solver_stats['iter_count']
+        nlp_res = ca.norm_inf(sol['g']).full()[0][0]
+        cost_val = sol['f'].full()[0][0]
+        w_opt = sol['x'].full().flatten()
+
+        complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
+        if opts.print_level:
+            self._print_iter_stats(sigma_k, complementarity_residual, nlp_res, cost_val,
+                                   cpu_time_nlp, nlp_iter, status)
+        if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
+            print(f"Warning: IPOPT exited with status {status}")
 
         return w_opt, cpu_time_nlp, nlp_iter, status
 
-- 
2.43.0


From 993b1a8dbd7a5e3c350dcc86782615d16a74571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:13 +0000
Subject: [PATCH 15/43] fix: impose stage path constraints at the last stage of
 inner finite elements

---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 1cc5065..26074be 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -493,13 +493,15 @@ class FiniteElement(FiniteElementBase):
 
         # Generic path constraints
         end_allowance = 0 if opts.right_boundary_point_explicit else 1
-        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe:
+        g_path_at_end = self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe
+        if g_path_at_end:
             end_idx = opts.n_s + end_allowance - 1
             gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
+            # the last stage is already covered if it is the end point constrained above
+            end_allowance = 1 if opts.right_boundary_point_explicit and g_path_at_end else 0
             for j in range(opts.n_s - end_allowance):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From ab02a4ff664c5895be811b0805474b18a2c08bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 16/43] fix: report initial guesses above the upper bound when
 printing

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 26074be..804df50 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -879,7 +879,7 @@ class NosnocProblem(NosnocFormulationObject):
             if self.lbw[i] > self.ubw[i]:
                 extra_info = " BOUND ERROR!"
                 errors += 1
-            elif self.w0[i] < self.lbw[i] or self.ubw[i] > self.ubw[i]:
+            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:
                 extra_info = " W0 ERROR!"
                 errors += 1
 
-- 
2.43.0


From 565434566529f7491a10d74467a6bdacb3a0c43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 17/43] fix: copy the initial state and guess handed to set

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 25747e8..30c0b77 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -48,7 +48,7 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
-            prob.model.x0 = value
+            prob.model.x0 = np.array(value, dtype=float)
         elif field == 'x':  # TODO: check other dimensions for useful error message
             if value.shape[0] == self.opts.N_stages:
                 # Shape is equal to the number of control stages
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From cff205dc6ff7c3af552a1cf1fd8bf254fc3e0c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 18/43] fix: polishing fixed switching multipliers to one and
 kept the old cost

---
 nosnoc/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 30c0b77..0aa48cc 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -227,6 +227,8 @@ class NosnocSolverBase(ABC):
 
         w_fix_one = np.abs(w_guess - 1.0) < eps_sigma
         w_fix_one[ind_dont_set] = False
+        # only the convex multipliers have the upper bound one
+        w_fix_one[flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p)] = False
         ind_fix_one = np.where(w_fix_one)[0].tolist()
 
         lbw = prob.lbw.copy()
@@ -264,7 +266,7 @@ class NosnocSolverBase(ABC):
         if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
             print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -430,7 +432,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From 43dad5625ffe2eb62a7a928d02dda9433e9a1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 19/43] fix: create_function_calculate_vector_field used a
 missing function and a wrong smoothing

---
 nosnoc/solver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 0aa48cc..21198bd 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -281,15 +281,16 @@ class NosnocSolverBase(ABC):
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
-                ca.sqrt(lam * lam - theta*theta + sigma*sigma) - (lam + theta),
+                ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
                 ca.sum1(theta)-1
             )
         ))
-        def fun(x, u, z=[0]):
+        model = self.model
+        F_fun = ca.Function('F_fun', [model.x, model.u, model.p, model.v_global], [model.F[0]])
+        def fun(x, u, z=[]):
             g  = self.model.g_Stewart_fun(x, z, p)
             theta = theta_fun(0, g)[:-1]
-            F = self.model.F_fun(x, u, p, v)
-            return np.dot(F, theta)
+            return F_fun(x, u, p, v) @ theta
 
         return fun
 
-- 
2.43.0


From d8b09cdd2f9f8d21fefa900953fc45e2b240ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 20/43] fix: nonnegative multipliers in the two-sided elastic
 and boolean modes

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 804df50..9a22256 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -281,7 +281,8 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
+        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ,
+                              MpccMode.ELASTIC_TWO_SIDED, MpccMode.BOOLEAN]:
             lb_dual = 0.0
         else:
             lb_dual = -np.inf
-- 
2.43.0


From d7d9c70133f4c0403461a5d17dca6419323cb967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:57 +0000
Subject: [PATCH 21/43] fix: recompute derived options when an options object
 is changed and reused

---
 nosnoc/nosnoc_opts.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 71424ad..b994b0c 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -128,6 +128,8 @@ class NosnocOpts:
     def __post_init__(self):
         # every options object owns its solver options, the class attribute only holds the defaults
         self.opts_casadi_nlp = deepcopy(type(self).opts_casadi_nlp)
+        # values computed by preprocess() for options that were left at their defaults
+        self._derived = dict()
 
     def __repr__(self) -> str:
         out = ''
@@ -138,8 +140,9 @@ class NosnocOpts:
     def preprocess(self):
         # IPOPT tol should be smaller than outer tol, but not too much
         # Note IPOPT option list: https://coin-or.github.io/Ipopt/OPTIONS.html
-        if self.tol_ipopt is None:
-            self.tol_ipopt = self.comp_tol * 1e-2
+        # NOTE: derived values are computed again if the options are changed and used for another problem.
+        if self.tol_ipopt is None or self.tol_ipopt == self._derived.get('tol_ipopt'):
+            self.tol_ipopt = self._derived['tol_ipopt'] = self.comp_tol * 1e-2
 
         validate(self)
         # self.opts_casadi_nlp['ipopt']['print_level'] = self.print_level
@@ -149,11 +152,12 @@ class NosnocOpts:
                 Warning("Problem might be illposed if n_s < 3 and time freezing")
             # TODO: Extend checks
 
-        if self.max_iter_homotopy == 0:
+        if self.max_iter_homotopy == 0 or self.max_iter_homotopy == self._derived.get('max_iter_homotopy'):
             self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            self._derived['max_iter_homotopy'] = self.max_iter_homotopy
 
-        if len(self.Nfe_list) == 0:
-            self.Nfe_list = self.N_stages * [self.N_finite_elements]
+        if len(self.Nfe_list) == 0 or self.Nfe_list is self._derived.get('Nfe_list'):
+            self.Nfe_list = self._derived['Nfe_list'] = self.N_stages * [self.N_finite_elements]
 
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
-- 
2.43.0


From 7ffefc2c3dd8d11cde33ca750468b0e3ba1a5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:32 +0000
Subject: [PATCH 22/43] fix: choice and construction of the automatic
 reformulations

---
 nosnoc/auto_model.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9eb46cb 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,12 +55,17 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        params = dict()
+        if self.p is not None:
+            # NOTE: values need to be provided by the user
+            params = dict(p_global=self.p, p_global_val=np.zeros((self.p.shape[0],)))
         if self._detect_additive():
-            self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
-        else:
             self._reformulate_linear()
-            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, **params)
+        else:
+            self._reformulate_nonlin()
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)],
+                               alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, **params)
 
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
@@ -80,7 +85,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
@@ -91,7 +96,8 @@ class NosnocAutoModel:
                 collated[c.str()].append((f, c, S))
             collated_components.append(collated)
 
-        all_c = set().union(*[component.keys() for component in collated_components])
+        # NOTE: a dict instead of a set, such that the order of the switching functions is deterministic
+        all_c = dict.fromkeys(c_str for collated in collated_components for c_str in collated)
 
         # Build the set of switching function and S pairs, along with the stacked vector of c -> f maps
         cS_map = {}
@@ -102,14 +108,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
@@ -125,10 +131,9 @@ class NosnocAutoModel:
         for f_nonsmooth in fs_nonsmooth:
             nonlin_components = self._find_nonlinear_components(f_nonsmooth)
             for component in nonlin_components:
-                additive = self._check_additive(component)
-                if additive:
-                    return True
-        return False
+                if not self._check_smooth(component) and not self._check_additive(component):
+                    return False
+        return True
 
     # TODO type output
     def _rebuild_additive_component(self, node: ca.SX):
@@ -147,7 +152,7 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From 76743a5a749c7a5b29913521764bcfc38f1edcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 23/43] fix: refuse nested nonsmooth functions in the automatic
 reformulation

---
 nosnoc/auto_model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9eb46cb..9bf5332 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -59,14 +59,25 @@ class NosnocAutoModel:
         if self.p is not None:
             # NOTE: values need to be provided by the user
             params = dict(p_global=self.p, p_global_val=np.zeros((self.p.shape[0],)))
+        if self._check_smooth_list([self.f_nonsmooth_ode]):
+            raise ValueError("f_nonsmooth_ode does not contain any supported nonsmooth function.")
         if self._detect_additive():
             self._reformulate_linear()
+            self._ensure_no_nested_nonsmoothness(self.F + self.c)
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u, **params)
         else:
             self._reformulate_nonlin()
+            self._ensure_no_nested_nonsmoothness([self.f] + self.c)
             return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)],
                                alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u, **params)
 
+    def _check_smooth_list(self, expressions: List[ca.SX]) -> bool:
+        return all(self._check_smooth(e) for expr in expressions for e in ca.vertsplit(ca.vec(expr)))
+
+    def _ensure_no_nested_nonsmoothness(self, expressions: List[ca.SX]):
+        if not self._check_smooth_list(expressions):
+            raise NotImplementedError("nonsmooth functions of nonsmooth functions are not supported.")
+
     def _reformulate_linear(self):
         # TODO actually implement linear reformulation
         fs_nonsmooth = ca.vertsplit(self.f_nonsmooth_ode)
-- 
2.43.0


From 0338f4f7d240ceff247064a5f8f189648b31303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 24/43] fix: smoothed RK4 initialization with Nfe_list

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 21198bd..9d06d45 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,7 +125,7 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
             irk_time_grid = np.array(
                 [opts.irk_time_points[0]] +
                 [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
@@ -133,7 +133,7 @@ class NosnocSolverBase(ABC):
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(opts.Nfe_list[0]):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From d00508099e786c8562ea84b5660c29aff89f6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 25/43] fix: do not fix the active set of the first element
 without FESD

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 9d06d45..8f64b78 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -350,7 +350,8 @@ class NosnocSolver(NosnocSolverBase):
 
         sigma_k = opts.sigma_0
 
-        if opts.fix_active_set_fe0 and opts.pss_mode == PssMode.STEWART:
+        # NOTE: without FESD, the active set may change within the first finite element.
+        if opts.fix_active_set_fe0 and opts.use_fesd and opts.pss_mode == PssMode.STEWART:
             lbw = prob.lbw.copy()
             ubw = prob.ubw.copy()
 
-- 
2.43.0


From 3964b2ed98c2bbf7d2a19d4207ce0228d2810a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 26/43] fix: refuse Nfe_list and S that do not match N_stages
 and c

---
 nosnoc/model.py       | 2 ++
 nosnoc/nosnoc_opts.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index eea2328..6d256dd 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -170,6 +170,8 @@ class NosnocModel:
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(f"model.S item {i} should have one column per entry of c item {i}")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b994b0c..db905fc 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -159,6 +159,9 @@ class NosnocOpts:
         if len(self.Nfe_list) == 0 or self.Nfe_list is self._derived.get('Nfe_list'):
             self.Nfe_list = self._derived['Nfe_list'] = self.N_stages * [self.N_finite_elements]
 
+        if len(self.Nfe_list) != self.N_stages:
+            raise ValueError(f"Nfe_list should be of length N_stages = {self.N_stages}, got {self.Nfe_list}.")
+
         # Butcher Tableau
         if self.irk_representation == IrkRepresentation.INTEGRAL:
             B_irk, C_irk, D_irk, irk_time_points = generate_butcher_tableu_integral(
-- 
2.43.0


From 59e27218963593566a83ba6d00d748ad7f36b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 27/43] fix: refuse values of the wrong shape in set

---
 nosnoc/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 8f64b78..35613c5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -48,6 +48,8 @@ class NosnocSolverBase(ABC):
         prob = self.problem
         dims = prob.model.dims
         if field == 'x0':
+            if np.shape(value) != (dims.n_x,):
+                raise ValueError(f"x0 should have shape ({dims.n_x},), got {np.shape(value)}")
             prob.model.x0 = np.array(value, dtype=float)
         elif field == 'x':  # TODO: check other dimensions for useful error message
             if value.shape[0] == self.opts.N_stages:
@@ -81,6 +83,9 @@ class NosnocSolverBase(ABC):
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, dims.n_p_time_var:] = value
         elif field == 'p_time_var':
+            if np.shape(value) != (self.opts.N_stages, dims.n_p_time_var):
+                raise ValueError(f"p_time_var should have shape ({self.opts.N_stages}, {dims.n_p_time_var}), "
+                                 f"got {np.shape(value)}")
             for i in range(self.opts.N_stages):
                 self.model.p_val_ctrl_stages[i, :dims.n_p_time_var] = value[i, :]
         elif field == 'theta':
@@ -94,6 +99,8 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
+            if np.shape(value) != prob.w0.shape:
+                raise ValueError(f"w should have shape {prob.w0.shape}, got {np.shape(value)}")
             prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
-- 
2.43.0


From 1832a3019208f8fa1e91209d813c3bc6fecb0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:54 +0000
Subject: [PATCH 28/43] fix: set theta of models with several subsystems

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 35613c5..7c56b3f 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
                 for sub_idx in prob.ind_theta:
                     for ssub_idx in sub_idx:
                         for sssub_idx in ssub_idx:
-                            prob.w0[sssub_idx] = value[i, :]
+                            prob.w0[flatten(sssub_idx)] = value[i, :]
                         i += 1
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
-- 
2.43.0


From 0740ff6f4feeb685fd53ad537dd4ba19d3130c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:34 +0000
Subject: [PATCH 29/43] fix: refuse switching matrices with zeros in Stewart
 mode

With don't-care entries the Stewart indicator functions -S @ c select the wrong
region, e.g. for S = [[-1, 0], [1, -1], [1, 1]] and c = [x, x - 1] the switch
happened at x = -1 instead of x = 0.
---
 nosnoc/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6d256dd..ecef8a8 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -172,6 +172,10 @@ class NosnocModel:
                             f"model.F item {i} and S {i} should have the same number of columns")
                     if Si.shape[1] != n_c_sys[i]:
                         raise ValueError(f"model.S item {i} should have one column per entry of c item {i}")
+                    if opts.pss_mode == PssMode.STEWART and any(s.is_zero() for s in ca.SX(Si).elements()):
+                        # the region with the smallest -S @ c is the active one only if S has no zeros
+                        raise ValueError(f"model.S item {i} has zeros, which is not supported with "
+                                         "PssMode.STEWART. Use PssMode.STEP or provide g_Stewart.")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
-- 
2.43.0


From 7820703e9dbb1fbedcfa9b9d01461c1ff40b33c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 30/43] fix: do not merge switching functions that only print
 alike

---
 nosnoc/auto_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9bf5332..4cce1fe 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -99,16 +99,21 @@ class NosnocAutoModel:
         f_common = casadi_vertcat_list([casadi_sum_list([ca.SX(0)] + f) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
+        # NOTE: compare expressions and not their string representations, which have only 6 digits
         collated_components = []
+        switching_functions = []
         for components in nsm:
             collated = defaultdict(list)
             for component in components:
                 f, c, S = self._rebuild_additive_component(component)
-                collated[c.str()].append((f, c, S))
+                i_c = next((i for i, known_c in enumerate(switching_functions) if ca.is_equal(c, known_c, 10)), None)
+                if i_c is None:
+                    i_c = len(switching_functions)
+                    switching_functions.append(c)
+                collated[i_c].append((f, c, S))
             collated_components.append(collated)
 
-        # NOTE: a dict instead of a set, such that the order of the switching functions is deterministic
-        all_c = dict.fromkeys(c_str for collated in collated_components for c_str in collated)
+        all_c = range(len(switching_functions))
 
         # Build the set of switching function and S pairs, along with the stacked vector of c -> f maps
         cS_map = {}
-- 
2.43.0


From a68d9960e1fd796fb554305716e334144bc24b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 31/43] fix: repeated calls of NosnocAutoModel.reformulate

---
 nosnoc/auto_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 4cce1fe..b51b4a7 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -55,6 +55,8 @@ class NosnocAutoModel:
         Reformulate the given nonsmooth ODE into a NosnocModel.
         Note: Care must be taken if your model is complex, in which case the Pss Mode `STEP` should be used.
         """
+        # start empty, such that repeated calls do not accumulate
+        self.c, self.S, self.F, self.f, self.alpha = [], [], [], [], []
         params = dict()
         if self.p is not None:
             # NOTE: values need to be provided by the user
-- 
2.43.0


From 0cc55bcc35018164487571b47d38403c4de959dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:48 +0000
Subject: [PATCH 32/43] fix: check the dimensions of the vector fields

---
 nosnoc/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index ecef8a8..c04a964 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -150,12 +150,16 @@ class NosnocModel:
             for i, f in enumerate(self.F):
                 if f.shape[1] == 1:
                     raise Warning(f"model.F item {i} is not a switching system!")
+                if f.shape[0] != n_x:
+                    raise ValueError(f"model.F item {i} should have n_x = {n_x} rows, got {f.shape[0]}.")
 
             if self.g_Stewart:
                 if opts.pss_mode != PssMode.STEWART:
                     raise ValueError("model.g_Stewart is used and pss_mode should be STEWART")
                 if not isinstance(self.g_Stewart, list):
                     raise ValueError("model.g_Stewart should be a list.")
+                if len(self.F) != len(self.g_Stewart):
+                    raise ValueError("model.F and model.g_Stewart should have the same length!")
                 for i, g_Stewart in enumerate(self.g_Stewart):
                     if g_Stewart.shape[0] != self.F[i].shape[1]:
                         raise ValueError(f"Dimensions g_Stewart and F for item {i} should be equal!")
@@ -166,6 +170,8 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.F) != len(self.c):
+                    raise ValueError("model.F and model.c should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
@@ -180,6 +186,8 @@ class NosnocModel:
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
             n_f_sys = [self.f_x[i].shape[1] for i in range(n_sys)]
+            if casadi_length(casadi_vertcat_list(self.f_x)) != n_x:
+                raise ValueError(f"model.f_x should have n_x = {n_x} rows in total.")
             if not isinstance(self.c, list):
                 raise ValueError("model.c should be a list.")
             if casadi_length(casadi_vertcat_list(self.c)) != casadi_length(casadi_vertcat_list(self.alpha)):
-- 
2.43.0


From f5379ce913c301e016ec6e6119f57ddc10003d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:35 +0000
Subject: [PATCH 33/43] fix: step equilibration DIRECT_COMPLEMENTARITY for
 decreasing step sizes

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9a22256..cbbbe64 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -603,7 +603,8 @@ class FiniteElement(FiniteElementBase):
         elif opts.step_equilibration == StepEquilibrationMode.DIRECT:
             self.add_constraint(nu_k * delta_h_ki)
         elif opts.step_equilibration == StepEquilibrationMode.DIRECT_COMPLEMENTARITY:
-            self.create_complementarity([nu_k], delta_h_ki, sigma_p, tau, s_elastic)
+            # NOTE: complementarity requires nonnegative arguments, delta_h_ki can have either sign.
+            self.create_complementarity([nu_k], delta_h_ki**2, sigma_p, tau, s_elastic)
         elif opts.step_equilibration == StepEquilibrationMode.HEURISTIC_DELTA_H_COMP:
             self.create_complementarity([ca.SX.zeros()], delta_h_ki, sigma_p, tau, s_elastic)
         # elif opts.step_equilibration == StepEquilibrationMode.DIRECT_TANH:
-- 
2.43.0


From 363d55d2efa1f8d81d517f5471cf072581a74fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 34/43] fix: nonnegative multipliers where Fischer-Burmeister
 functions are summed up

---
 nosnoc/problem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index cbbbe64..74c9d4f 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -284,6 +284,9 @@ class FiniteElement(FiniteElementBase):
         if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ,
                               MpccMode.ELASTIC_TWO_SIDED, MpccMode.BOOLEAN]:
             lb_dual = 0.0
+        elif opts.use_fesd and opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
+            # Fischer-Burmeister terms of different signs could cancel in the sum
+            lb_dual = 0.0
         else:
             lb_dual = -np.inf
 
-- 
2.43.0


From 485f6ac2ad2f82cdd1bd821386bf25ece8e96839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:26 +0000
Subject: [PATCH 35/43] fix: Gauss-Legendre boundary multipliers at the end of
 every control stage

---
 nosnoc/problem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 74c9d4f..2ee1ec2 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -245,8 +245,10 @@ class FiniteElement(FiniteElementBase):
         dims = self.model.dims
 
         # right boundary
+        # NOTE: a switch can also happen on the boundary of a control stage
+        self.is_last_fe = ctrl_idx == opts.N_stages - 1 and fe_idx == opts.Nfe_list[ctrl_idx] - 1
         create_right_boundary_point = (opts.use_fesd and not opts.right_boundary_point_explicit and
-                                       fe_idx < opts.Nfe_list[ctrl_idx] - 1)
+                                       not self.is_last_fe)
         end_allowance = 1 if create_right_boundary_point else 0
 
         # Initialze index lists
@@ -512,8 +514,7 @@ class FiniteElement(FiniteElementBase):
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
         # NOTE: only if there are algebraic variables for the boundary point, i.e. not on the last FE.
-        if (not opts.right_boundary_point_explicit and opts.use_fesd and
-                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
+        if not opts.right_boundary_point_explicit and opts.use_fesd and not self.is_last_fe:
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 5015eb89ee829cba12c49fac365699ba8ed196f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:23 +0000
Subject: [PATCH 36/43] fix: complement with the multipliers of the right
 boundary point

---
 nosnoc/problem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 2ee1ec2..146840c 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -529,7 +529,7 @@ class FiniteElement(FiniteElementBase):
                 theta = self.Theta(stage=j)
                 lam = self.prev_fe.Lambda(stage=-1)
                 comp_vec = ca.vertcat(comp_vec, theta*lam)
-                for jj in range(opts.n_s):
+                for jj in range(len(self.ind_lam)):
                     lam = self.Lambda(stage=jj)
                     comp_vec = ca.vertcat(comp_vec, theta*lam)
         else:
@@ -561,8 +561,8 @@ class FiniteElement(FiniteElementBase):
                 # cross comp with prev_fe
                 self.create_complementarity([self.Theta(stage=j)], self.prev_fe.Lambda(stage=-1),
                                             sigma_p, tau, s_elastic)
-                for jj in range(opts.n_s):
-                    # within fe
+                for jj in range(len(self.ind_lam)):
+                    # within fe, including the right boundary point if there is one
                     self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),
                                                 sigma_p, tau, s_elastic)
         elif opts.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA:
-- 
2.43.0


From b39ffe800a1aadac25cd3909bed39106af0ca0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 37/43] fix: overflow in smoothed minimum

The weights exp(-g/smoothing_parameter) overflow for g < -709 * smoothing_parameter, mu_smooth and with it
the initial guess of the smoothed initialization is nan then.
---
 nosnoc/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index c04a964..194e249 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -403,8 +403,9 @@ class NosnocModel:
             alpha_expr_s = casadi_vertcat_list([smooth_step_fun(self.c[s][i]) for i in range(n_c)])
 
             min_in = ca.SX.sym('min_in', dims.n_f_sys[s])
-            min_out = ca.sum1(casadi_vertcat_list([min_in[i]*ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))])) / \
-                      ca.sum1(casadi_vertcat_list([ca.exp(-1/smoothing_parameter * min_in[i]) for i in range(casadi_length(min_in))]))
+            # NOTE: the weights are normalized by the largest one, to avoid overflow
+            weights = ca.exp(-1/smoothing_parameter * (min_in - ca.mmin(min_in)))
+            min_out = ca.dot(min_in, weights) / ca.sum1(weights)
             smooth_min_fun = ca.Function('smooth_min_fun', [min_in], [min_out])
             mu_smooth_list.append(-smooth_min_fun(g_Stewart_list[s]))
             lambda_smooth = ca.vertcat(lambda_smooth,
-- 
2.43.0


From 1a0ce41766b2050f4f030c356e76fe6348092d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 38/43] fix: smoothed initialization of all control stages

Only the finite elements of the first control stage were initialized with the smoothed flow, the others
kept the values of a previous call.
---
 nosnoc/solver.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 7c56b3f..cbba7dd 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -131,16 +131,16 @@ class NosnocSolverBase(ABC):
         # This is experimental
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
-            # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
+            # NOTE: assume STEWART
             irk_time_grid = np.array(
                 [opts.irk_time_points[0]] +
                 [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
-            rk4_t_grid = dt_fe * irk_time_grid
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.Nfe_list[0]):
+            for ctrl_idx, i in [(ctrl_idx, i) for ctrl_idx in range(opts.N_stages)
+                                for i in range(opts.Nfe_list[ctrl_idx])]:
+                rk4_t_grid = opts.terminal_time / (opts.N_stages * opts.Nfe_list[ctrl_idx]) * irk_time_grid
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
@@ -148,11 +148,11 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[0][i][k]] = x_ki
+                    prob.w0[prob.ind_x[ctrl_idx][i][k]] = x_ki
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
-                    p_0 = self.model.p_val_ctrl_stages[0]
+                    p_0 = self.model.p_val_ctrl_stages[ctrl_idx]
                     # NOTE: z not supported!
                     lam_ki = self.model.lambda00_fun(x_ki, [], p_0)
                     mu_ki = self.model.mu_smooth_fun(x_ki, p_0)
@@ -164,18 +164,18 @@ class NosnocSolverBase(ABC):
                     for s in range(self.model.dims.n_sys):
                         ind_theta_s = range(sum(self.model.dims.n_f_sys[:s]),
                                             sum(self.model.dims.n_f_sys[:s + 1]))
-                        prob.w0[prob.ind_theta[0][i][k][s]] = theta_ki[ind_theta_s].full().flatten()
-                        prob.w0[prob.ind_lam[0][i][k][s]] = lam_ki[ind_theta_s].full().flatten()
-                        prob.w0[prob.ind_mu[0][i][k][s]] = mu_ki[s].full().flatten()
+                        prob.w0[prob.ind_theta[ctrl_idx][i][k][s]] = theta_ki[ind_theta_s].full().flatten()
+                        prob.w0[prob.ind_lam[ctrl_idx][i][k][s]] = lam_ki[ind_theta_s].full().flatten()
+                        prob.w0[prob.ind_mu[ctrl_idx][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
-                    db_updated_indices += prob.ind_theta[0][i][k][s] + prob.ind_lam[0][i][k][
-                        s] + prob.ind_mu[0][i][k][s] + prob.ind_x[0][i][k] + prob.ind_h
+                    db_updated_indices += prob.ind_theta[ctrl_idx][i][k][s] + prob.ind_lam[ctrl_idx][i][k][
+                        s] + prob.ind_mu[ctrl_idx][i][k][s] + prob.ind_x[ctrl_idx][i][k] + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
                     # Xk_end
-                    prob.w0[prob.ind_x[0][i][-1]] = x_ki
-                    db_updated_indices += prob.ind_x[0][i][-1]
+                    prob.w0[prob.ind_x[ctrl_idx][i][-1]] = x_ki
+                    db_updated_indices += prob.ind_x[ctrl_idx][i][-1]
 
             # print("w0 after RK4 init:")
             # print(prob.w0)
-- 
2.43.0


From 27bd2735c370eaf3adf5408efc2504b54f103312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 39/43] fix: stage times of the integral representation

irk_time_points started with the left boundary point, which is no stage, such that the smoothed
initialization assigned the states of the preceding time points to the stages.
---
 nosnoc/nosnoc_opts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index db905fc..712d2a7 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -169,6 +169,8 @@ class NosnocOpts:
             self.B_irk = B_irk
             self.C_irk = C_irk
             self.D_irk = D_irk
+            # only the stages, without the left boundary point
+            irk_time_points = irk_time_points[1:]
         elif (self.irk_representation
               in [IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X]):
             A_irk, b_irk, irk_time_points, _ = generate_butcher_tableu(self.n_s, self.irk_scheme)
-- 
2.43.0


From aa33c8795d579827889e79898a6a7ff665bcda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 40/43] fix: smoothed initialization with the differential
 representation

It has no states at the stages, which failed with an IndexError.
---
 nosnoc/solver.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index cbba7dd..28172d4 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -7,7 +7,7 @@ import time
 
 from nosnoc.model import NosnocModel
 from nosnoc.nosnoc_opts import NosnocOpts
-from nosnoc.nosnoc_types import InitializationStrategy, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
+from nosnoc.nosnoc_types import InitializationStrategy, IrkRepresentation, PssMode, HomotopyUpdateRule, ConstraintHandling, Status, SpeedOfTimeVariableMode
 from nosnoc.ocp import NosnocOcp
 from nosnoc.problem import NosnocProblem
 from nosnoc.rk_utils import rk4_on_timegrid
@@ -148,7 +148,10 @@ class NosnocSolverBase(ABC):
                 # print(f"{Xrk4=}")
                 for k in range(opts.n_s):
                     x_ki = Xrk4[k + 1]
-                    prob.w0[prob.ind_x[ctrl_idx][i][k]] = x_ki
+                    if opts.irk_representation != IrkRepresentation.DIFFERENTIAL:
+                        # NOTE: the differential representation has no states at the stages
+                        prob.w0[prob.ind_x[ctrl_idx][i][k]] = x_ki
+                        db_updated_indices += prob.ind_x[ctrl_idx][i][k]
                     # NOTE: we don't use lambda_smooth_fun, since it gives negative lambdas
                     # -> infeasible. Possibly another smooth min fun could be used.
                     # However, this would be inconsistent with mu.
@@ -169,7 +172,7 @@ class NosnocSolverBase(ABC):
                         prob.w0[prob.ind_mu[ctrl_idx][i][k][s]] = mu_ki[s].full().flatten()
                         # TODO: ind_v
                     db_updated_indices += prob.ind_theta[ctrl_idx][i][k][s] + prob.ind_lam[ctrl_idx][i][k][
-                        s] + prob.ind_mu[ctrl_idx][i][k][s] + prob.ind_x[ctrl_idx][i][k] + prob.ind_h
+                        s] + prob.ind_mu[ctrl_idx][i][k][s] + prob.ind_h
                 if opts.irk_time_points[-1] != 1.0:
                     raise NotImplementedError
                 else:
-- 
2.43.0


From 05879af733caf7182669b753bc04ea1c9c7618e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:05 +0000
Subject: [PATCH 41/43] fix: dump problems with LEAST_SQUARES constraint
 handling

The symbolic residual g_lsq cannot be pickled.
---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 146840c..5df18f6 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -913,7 +913,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From 1b7b9222e4d88f8e6ec9e83c7f0b6ab2ba6ecb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 42/43] fix: default number of homotopy problems reaches
 comp_tol

---
 nosnoc/nosnoc_opts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 712d2a7..b274cc1 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -153,7 +153,9 @@ class NosnocOpts:
             # TODO: Extend checks
 
         if self.max_iter_homotopy == 0 or self.max_iter_homotopy == self._derived.get('max_iter_homotopy'):
-            self.max_iter_homotopy = int(np.round(np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope)))) + 1
+            # NOTE: round up, such that the last problem has sigma <= comp_tol
+            n_updates = np.abs(np.log(self.comp_tol / self.sigma_0) / np.log(self.homotopy_update_slope))
+            self.max_iter_homotopy = int(np.ceil(n_updates - 1e-6)) + 1
             self._derived['max_iter_homotopy'] = self.max_iter_homotopy
 
         if len(self.Nfe_list) == 0 or self.Nfe_list is self._derived.get('Nfe_list'):
-- 
2.43.0


From 78b6b2961fa3427d9a0bb32b0291c465c4213cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 43/43] fix: plot_iterates used a result field that does not
 exist and an invalid label

---
 nosnoc/plot_utils.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nosnoc/plot_utils.py b/nosnoc/plot_utils.py
index 19f4edd..aa93209 100644
--- a/nosnoc/plot_utils.py
+++ b/nosnoc/plot_utils.py
@@ -4,7 +4,7 @@ import matplotlib.pyplot as plt
 import matplotlib
 
 from nosnoc import NosnocProblem, get_results_from_primal_vector
-from .utils import flatten_layer
+from .utils import flatten, get_cont_algebraic_indices
 from .nosnoc_types import PssMode
 
 
@@ -82,14 +82,9 @@ def plot_iterates(problem: NosnocProblem,
         results = get_results_from_primal_vector(problem, iterate)
 
         # flatten sys layer
-        lambdas = flatten_layer(results['lambda_list'], 2)
-        thetas = flatten_layer(results['theta_list'], 2)
-        mus = flatten_layer(results['mu_list'], 2)
-
-        # flatten fe layer
-        lambdas = flatten_layer(lambdas, 0)
-        thetas = flatten_layer(thetas, 0)
-        mus = flatten_layer(mus, 0)
+        lambdas = [x.flatten() for x in results['lambda_list']]
+        thetas = [x.flatten() for x in results['theta_list']]
+        mus = [iterate[flatten(ind)] for ind in get_cont_algebraic_indices(problem.ind_mu)]
 
         n_lam = len(lambdas[0])
         n_mu = len(mus[0])
@@ -108,7 +103,7 @@ def plot_iterates(problem: NosnocProblem,
         # TODO: make this step plot?
         plt.subplot(n_row, n_iterates, n_iterates * 1 + it + 1)
         for i in range(n_lam):
-            plt.plot([x[i] for x in thetas], label=r'$\\theta_' + f'{i+1}$')
+            plt.plot([x[i] for x in thetas], label=r'$\theta_' + f'{i+1}$')
         plt.grid(alpha=0.3)
         plt.legend()
 
-- 
2.43.0

