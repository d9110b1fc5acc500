From a58cfac9603300e30de2b3862835dc995e022901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:25 +0000
Subject: [PATCH 01/42] fix: differential-control map handles several controls
 and keeps the costate order

---
 beluga/numeric/data_classes/trajectory_mappers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..a10598b 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -251,6 +251,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
 
     def map(self, sol: Solution, control_costate: Union[float, np.ndarray] = 0.) -> Solution:
         idx_u_list = []
+        control_costates = []
 
         for idx_u, (idx_y, u) in enumerate(sorted(zip(self.control_idxs, sol.u.T))):
             sol.y = np.insert(sol.y, idx_y, u, axis=1)
@@ -262,14 +263,12 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
-            if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
-            else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
+            control_costates.append(costate_insert)
 
             idx_u_list.append(idx_u)
 
+        sol.dual_u = np.array(control_costates)
         sol.u = np.delete(sol.u, idx_u_list, axis=1)
         return sol
 
-- 
2.43.0


From d7c47ce29ad6f88a6c03cdc3cc73526a5b7b00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:38 +0000
Subject: [PATCH 02/42] fix: symmetry reduction works with an algebraic control
 law

---
 beluga/symbolic/data_classes/mapping_functions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..cbfd04c 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -597,11 +597,16 @@ class MishchenkoFomenko(GenericFunctor):
             bc.expr, _ = recursive_sub(bc.expr, solve_for_q[0])
 
         for idx, law in enumerate(prob.control_law):
-            for jj, symbol in enumerate(law.keys()):
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_p[0])
-                # prob.control_law[idx][symbol] = law[symbol]
-                prob.control_law[idx][symbol], _ = recursive_sub(prob.sympify(law[symbol]), solve_for_q[0])
-                # prob.control_law[idx][symbol] = law[symbol]
+            new_law = []
+            for control_expr in law:
+                control_expr, _ = recursive_sub(control_expr, solve_for_p[0])
+                control_expr, _ = recursive_sub(control_expr, solve_for_q[0])
+                new_law.append(control_expr)
+            prob.control_law[idx] = tuple(new_law)
+
+        # The Hamiltonian decides between control options, so it has to be in reduced variables as well
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_p[0])
+        prob.hamiltonian.expr, _ = recursive_sub(prob.hamiltonian.expr, solve_for_q[0])
 
         for idx, com in enumerate(prob.constants_of_motion):
             if idx != self.com_index:
-- 
2.43.0


From 79abce4ea947f0df2973d2404846d340bccf2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:29 +0000
Subject: [PATCH 03/42] fix: a reused bisection step starts again from its
 configured number of cases

---
 beluga/continuation/continuation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..2fcac2b 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -240,6 +240,12 @@ class BisectionStrategy(ManualStrategy):
         self.division_ctr = 0
         self.orig_num_cases = initial_num_cases
 
+    def reset(self):
+        """Resets the internal step counter to zero and drops the cases inserted by earlier divisions"""
+        super(BisectionStrategy, self).reset()
+        self._num_cases = self.orig_num_cases
+        self.division_ctr = 0
+
     def next(self, ignore_last_step=False):
         """Generator class to create BVPs for the continuation step iterations
 
-- 
2.43.0


From 2466eab2c6fa7ec5ca06ae61b7aa0ca03653d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:23 +0000
Subject: [PATCH 04/42] fix: a reused product-space step computes its grid anew

---
 beluga/continuation/continuation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 2fcac2b..b41372a 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -352,6 +352,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
@@ -443,6 +444,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From 434cfd46fb6499e0eedc5b801d5f557a7c3640e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:46 +0000
Subject: [PATCH 05/42] fix: the Radau stepper can be selected in the
 propagator

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..70a8aa0 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -61,6 +61,8 @@ class Propagator(Algorithm):
         obj.method = kwargs.get('method', 'RKMK').upper()
         obj.quick_reconstruct = kwargs.get('quick_reconstruct', False)
         obj.stepper = kwargs.get('stepper', 'RK45').upper()
+        if obj.stepper == 'RADAU':
+            obj.stepper = 'Radau'  # SciPy's name for this method is not in capitals
         obj.variable_step = kwargs.get('variable_step', True)
         return obj
 
-- 
2.43.0


From 8c58e742e36129c5164d4741de47c7e3b265dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:46 +0000
Subject: [PATCH 06/42] fix: fixed-step propagation works backward in time and
 when the step divides the interval

---
 beluga/numeric/ivp_solvers/ivpsol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 70a8aa0..2603242 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -86,9 +86,11 @@ class Propagator(Algorithm):
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, max_step=self.maxstep, method=self.stepper)
             else:
-                T = np.arange(tspan[0], tspan[-1], self.maxstep)
-                if T[-1] != tspan[-1]:
-                    T = np.hstack((T, tspan[-1]))
+                direction = np.sign(tspan[-1] - tspan[0])
+                T = np.arange(tspan[0], tspan[-1], direction * self.maxstep)
+                # Rounding in arange can put its last point on or past the end of the interval
+                T = T[direction * (tspan[-1] - T) > 1e-9 * self.maxstep]
+                T = np.hstack((T, tspan[-1]))
                 int_sol = solve_ivp(lambda t, _y: eom_func(_y, *args), [tspan[0], tspan[-1]], y0,
                                     rtol=self.reltol, atol=self.abstol, method=self.stepper, t_eval=T)
             gamma = Trajectory(int_sol.t, int_sol.y.T)
-- 
2.43.0


From c8673cbe3912e83e2e7f82d7b781c630ec89ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:46 +0000
Subject: [PATCH 07/42] fix: quick reconstruction calls the quadrature function
 with its own arguments

---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 2603242..94ccf45 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -100,7 +100,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda _, *quad_args: quad_func(*quad_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From 0b54c9a3c4d0c91fc262aeb0649b30589fe3d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:43 +0000
Subject: [PATCH 08/42] fix: shooting with a SciPy root algorithm judges
 convergence by the norm of the residual

---
 beluga/numeric/bvp_solvers/Shooting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..eda4a65 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -688,10 +688,10 @@ class Shooting(BaseAlgorithm):
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)**2
             x_init = opt.x
             n_iter = -1
-            converged = opt.success
+            converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-- 
2.43.0


From c674ce3df76bb3375f901239568c3b7e36991ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:43 +0000
Subject: [PATCH 09/42] fix: shooting with fsolve judges convergence at the
 solution, not at the guess

---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index eda4a65..457f6b2 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -695,7 +695,7 @@ class Shooting(BaseAlgorithm):
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            err = np.linalg.norm(_constraint_function_wrapper(x))**2
             x_init = x
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
-- 
2.43.0


From 185ea1c88531caf0a20ffc8d1e1841986294f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:03 +0000
Subject: [PATCH 10/42] fix: shooting with a processing pool propagates with
 the arguments of the equations of motion

---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 457f6b2..3f2ee99 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From c9a8ea356a69815bae7623e11988faaaf3171dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:39 +0000
Subject: [PATCH 11/42] fix: the unit of a constant of motion is the cost unit
 per unit of its symmetry

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..1339157 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -188,7 +188,7 @@ def noether(prob, quantity):
         for jj, state in enumerate(prob.states + prob.costates):
             gstar += sympy.integrate(omega_chi[jj], state.sym)
 
-        unit = prob.constants_of_motion[0].units / quantity.units
+        unit = prob.cost.units / quantity.units
 
         return gstar, unit
 
-- 
2.43.0


From d2ae9ba434c881fe6dfa3c015ea14d3f0f145e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:58 +0000
Subject: [PATCH 12/42] fix: collocation accepts analytical Jacobians with
 quadratures and without parameters

---
 beluga/numeric/bvp_solvers/SPBVP.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/SPBVP.py b/beluga/numeric/bvp_solvers/SPBVP.py
index 6a982a3..cbd16c9 100644
--- a/beluga/numeric/bvp_solvers/SPBVP.py
+++ b/beluga/numeric/bvp_solvers/SPBVP.py
@@ -63,7 +63,8 @@ class SPBVP(BaseAlgorithm):
                                                        yb[nstates:nstates+nquads], params[:ndyn],
                                                        params[ndyn:ndyn+nnondyn], const)
 
-        if self.derivative_function_jac is not None:
+        # There is no analytical Jacobian of the quadratures, solve_bvp estimates the whole of it then
+        if self.derivative_function_jac is not None and nquads == 0:
             def _fun_jac(t, y, params=np.array([]), const=solinit.const):
                 y = y.T
                 df_dy = np.zeros((y[0].size, y[0].size, t.size))
@@ -86,15 +87,20 @@ class SPBVP(BaseAlgorithm):
         if self.boundarycondition_function_jac is not None:
             if nquads > 0:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
-                    dbc_dya, dbc_dyb, dbc_dp = \
+                    dbc_dya, dbc_dyb, dbc_dp, dbc_dqa, dbc_dqb = \
                         self.boundarycondition_function_jac(ya[:nstates], ya[nstates:nstates+nquads], yb[:nstates],
                                                             yb[nstates:nstates+nquads], params[:ndyn],
                                                             params[ndyn:ndyn+nnondyn], const)
+                    dbc_dya, dbc_dyb = np.hstack((dbc_dya, dbc_dqa)), np.hstack((dbc_dyb, dbc_dqb))
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
             else:
                 def _bc_jac(ya, yb, params=np.array([]), const=solinit.const):
                     dbc_dya, dbc_dyb, dbc_dp = \
                         self.boundarycondition_function_jac(ya, yb, params[:ndyn], params[ndyn:ndyn+nnondyn], const)
+                    if ndyn + nnondyn == 0:
+                        return dbc_dya, dbc_dyb
                     return dbc_dya, dbc_dyb, dbc_dp
         else:
             _bc_jac = None
-- 
2.43.0


From 3021451a95598c2775c26ca45d3c7f6e9a756842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:47 +0000
Subject: [PATCH 13/42] fix: numerical derivatives that cannot be compiled fall
 back instead of raising

---
 .../numeric/numerical_derivatives/complex_step.py  | 14 +++++++-------
 .../numeric/numerical_derivatives/finite_diff.py   |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..3106b8d 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,13 +10,13 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for order > 2.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
-                       ' Falling back to finite difference for {}'.format(func.__name__))
+        logging.debug('Complex-step derivative not supported for multivariate derivatives.'
+                      ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
         arg_idx = np.nonzero(deriv_order)[0][0]
@@ -44,7 +44,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             func_im = njit(tuple(arg_list_im))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -67,7 +67,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
         try:
             csd = njit((arg_type,))(csd)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -95,7 +95,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             if deriv_order == 1:
                 step = 1e-50
diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..a96911e 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -31,7 +31,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             func = njit(tuple(arg_list))(func)
 
     except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+        logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
 
     step_array = []
     coeff_array = []
@@ -74,7 +74,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         try:
             fin_diff = njit((arg_type,))(fin_diff)
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
     else:
         try:
@@ -90,7 +90,7 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
         except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+            logging.debug('Cannot jit compile numerical derivative of {}: {}'.format(func.__name__, e))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From 63a7d637c92037485d3955c08205fdd9de6520e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:22 +0000
Subject: [PATCH 14/42] fix: complex-step derivatives of functions of several
 arguments

---
 .../numeric/numerical_derivatives/complex_step.py   | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 3106b8d..dadd2a0 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -45,6 +45,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     except errors.NumbaError as e:
         logging.debug('Cannot jit compile {} to compile numerical derivative: {}'.format(func.__name__, e))
+        func_re, func_im = func, func
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -79,7 +80,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
+                    return func_im(*args_k).imag/step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
@@ -88,9 +89,9 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
+                    args_k_re = tuple(args_array + step_re)
+                    args_k_im = tuple(args_array + step_im)
+                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
@@ -101,8 +102,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+                    args_k = tuple(np.array(args) + step * 1j * arg_select)
+                    return func_im(*args_k).imag / step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-- 
2.43.0


From b65e71107651242376f236c1ef685248f0df7811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 15/42] fix: custom functions take any expression and keep the
 derivatives of their arguments apart

---
 .../special_functions/custom_functions.py     | 63 +++++++++----------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..2157aa8 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -44,18 +44,10 @@ class CustomFunctionGenerator(object):
 
 
 class CustomFunctionMeta(Function):
-    def __new__(cls, base_name, base_func, arg_list):
-        obj = super(CustomFunctionMeta, cls).__new__(cls, *arg_list)
-        obj.nargs = (len(arg_list),)
-        obj.arg_list = tuple(arg_list)
-        obj.base_name = base_name
-        if type(base_func) is CPUDispatcher:
-            obj.base_func = base_func
-        else:
-            obj.base_func = jit_compile_func(base_func, arg_list)
-
-        return obj
-
+    """
+    Base of the applied functions. Everything needed to evaluate them is kept on their class, so that they can be rebuilt
+    with other arguments (e.g. by substitutions).
+    """
     def __deepcopy__(self, memodict=None):
         return self
 
@@ -64,11 +56,11 @@ class CustomFunctionMeta(Function):
         return True
 
     def fdiff(self, argindex=1):
-        if argindex <= self.nargs[0]:
+        if argindex <= len(self.args):
             order = list(self.order)
             order[argindex - 1] += 1
-            return CustomFunction(self.base_name, self.base_func, self.arg_list,
-                                  order=tuple(order), local_compiler=self.local_compiler)
+            return CustomFunction(self.base_name, self.base_func, self.args, order=tuple(order),
+                                  local_compiler=self.local_compiler, deriv_method=self.deriv_method)
         else:
             raise ArgumentIndexError(self, argindex)
 
@@ -81,17 +73,21 @@ class CustomFunction(Function):
         if order is None:
             order = ([0 for _ in range(len(arg_list))])
 
-        name = cls.construct_name(base_name, arg_list, order)
-        obj = type(name, (CustomFunctionMeta,), {})(name, base_func, arg_list)
+        if type(base_func) is not CPUDispatcher:
+            base_func = jit_compile_func(base_func, arg_list)
+
+        name = cls.construct_name(base_name, order)
         if sum(order) == 0:
-            obj.eval_func = base_func
+            eval_func = base_func
         else:
-            obj.eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.eval_func)
-        obj.order = order
-        return obj
+            eval_func = gen_num_diff(base_func, order=order, method=deriv_method)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, eval_func)
+
+        attributes = {'nargs': len(arg_list), 'base_name': base_name, 'base_func': staticmethod(base_func),
+                      'eval_func': staticmethod(eval_func), 'order': tuple(order), 'deriv_method': deriv_method,
+                      'local_compiler': local_compiler}
+        return type(name, (CustomFunctionMeta,), attributes)(*arg_list)
 
     @staticmethod
     def check_args(arg_list, base_func):
@@ -102,25 +98,22 @@ class CustomFunction(Function):
                               .format(base_func.__name__))
 
     @staticmethod
-    def construct_name(func_name, arg_list, order):
+    def construct_name(func_name, order):
+        """Names a (derivative of a) function by the positions of its arguments, whatever the arguments are."""
         total_order = sum(order)
 
-        post = '_'
-        for arg_k, order_k in zip(arg_list, order):
-            if order_k == 0:
-                pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
-            else:
-                post += 'd' + str(arg_k) + str(order_k)
+        post = ''
+        for idx, order_k in enumerate(order):
+            if order_k == 1:
+                post += '_d' + str(idx + 1)
+            elif order_k > 1:
+                post += '_d' + str(idx + 1) + '_' + str(order_k)
 
         if total_order == 0:
             pre = ''
-            post = ''
         elif total_order == 1:
             pre = 'd'
         else:
             pre = 'd' + str(total_order)
 
         return pre + func_name + post
-
-- 
2.43.0


From ba8aa40750f8a93553b332948420355fdbb02594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 16/42] fix: tables can be defined with current NumPy

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From cc4078516e2fccfcd120546c73b6607a12be606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:35 +0000
Subject: [PATCH 17/42] fix: tables evaluate at their last data point and
 extrapolate with the segments at their ends

---
 beluga/symbolic/special_functions/tables.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..f725381 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -102,10 +102,11 @@ class TableSpline1D(object):
     def form_eval_function(self, order):
         data_x = self.data_x
         coeff_set = self.coeff
+        num_segments = len(self.data_x) - 1
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), num_segments)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -113,7 +114,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), num_segments)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -121,7 +122,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), num_segments)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -129,7 +130,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), num_segments)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 3861ee937d7bf63d340e4d8a89fec6e326d9898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:48 +0000
Subject: [PATCH 18/42] fix: tables take any expression as argument

---
 beluga/symbolic/special_functions/tables.py | 35 ++++++++++-----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index f725381..106627c 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -22,14 +22,10 @@ class SymTableGenerator(object):
 
 
 class SymTableMeta(Function):
-    def __new__(cls, table, arg, local_compiler=None):
-        obj = super(SymTableMeta, cls).__new__(cls, arg)
-        obj.nargs = (1,)
-        obj.order = 0
-        obj.table = table
-        obj.local_compiler = local_compiler
-        return obj
-
+    """
+    Base of the applied tables. The table and the order of the derivative are kept on their class, so that they can be
+    rebuilt with other arguments (e.g. by substitutions).
+    """
     @property
     def _diff_wrt(self):
         return True
@@ -46,26 +42,27 @@ class SymTableMeta(Function):
 
 class SymTable(SymTableMeta):
     def __new__(cls, table, arg, local_compiler=None, order=0):
-        name = cls.construct_name(str(table), str(arg), order)
-        obj = type(name, (SymTableMeta,), {})(table, arg, local_compiler=local_compiler)
-        obj.table_func = table.form_eval_function(order)
-        obj.local_compiler = local_compiler
-        if obj.local_compiler is not None:
-            obj.local_compiler.add_function_local(name, obj.table_func)
-        obj.order = order
-        return obj
+        name = cls.construct_name(str(table), order)
+        table_func = table.form_eval_function(order)
+        if local_compiler is not None:
+            local_compiler.add_function_local(name, table_func)
+
+        attributes = {'nargs': 1, 'order': order, 'table': table, 'table_func': staticmethod(table_func),
+                      'local_compiler': local_compiler}
+        return type(name, (SymTableMeta,), attributes)(arg)
 
     @staticmethod
-    def construct_name(table_name, arg_name, order):
+    def construct_name(table_name, order):
+        """Names a (derivative of a) table, whatever its argument is."""
         if order == 0:
             pre = ''
             post = ''
         elif order == 1:
             pre = 'd'
-            post = '_d' + arg_name
+            post = '_d1'
         else:
             pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
+            post = '_d1_' + str(order)
         return pre + table_name + post
 
 
-- 
2.43.0


From d0322743142dca81572f858829b3cb828b2cfb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:50 +0000
Subject: [PATCH 19/42] fix: controls from an algebraic law come back as
 floating point numbers

---
 beluga/numeric/data_classes/trajectory_mappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index a10598b..809db64 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -222,8 +222,9 @@ class AlgebraicControlMapper(SolMapper):
         return sol
 
     def inv_map(self, sol: Solution) -> Solution:
+        # A constant law compiles to an integer array, which compiled functions of the controls do not accept
         sol.u = np.array([self.compute_u(_t, _y, _lam, sol.dynamical_parameters, sol.const) for _t, _y, _lam,
-                          in zip(sol.t, sol.y, sol.dual)])
+                          in zip(sol.t, sol.y, sol.dual)], dtype=float)
         return sol
 
 
-- 
2.43.0


From ddb17fc4b6eebcca2838f8da1fff10bc329eec83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:56 +0000
Subject: [PATCH 20/42] fix: a control option that is not real at a point no
 longer hides the real ones

---
 beluga/numeric/compilation/component_compilation.py | 3 ++-
 beluga/numeric/data_classes/trajectory_mappers.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/compilation/component_compilation.py b/beluga/numeric/compilation/component_compilation.py
index e2a35cb..2ed8a7d 100644
--- a/beluga/numeric/compilation/component_compilation.py
+++ b/beluga/numeric/compilation/component_compilation.py
@@ -28,7 +28,8 @@ def compile_control(control_options, args, ham_func, lambdify_func=jit_lambdify)
             ham = ham_func(_y, u, _p, _k)
             for n in range(1, num_options):
                 ham_i = ham_func(_y, u_set[n, :], _p, _k)
-                if ham_i < ham:
+                # an option that is not real at this point (NaN) never hides one that is
+                if ham_i < ham or np.isnan(ham):
                     u = u_set[n, :]
                     ham = ham_i
 
diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 809db64..86821f8 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -210,7 +210,8 @@ class AlgebraicControlMapper(SolMapper):
                 ham = ham_func(_t, _y, _lam, u, _p, _k)
                 for n in range(1, num_options):
                     ham_i = ham_func(_t, _y, _lam, u_set[n, :], _p, _k)
-                    if ham_i < ham:
+                    # an option that is not real at this point (NaN) never hides one that is
+                    if ham_i < ham or np.isnan(ham):
                         u = u_set[n, :]
                         ham = ham_i
 
-- 
2.43.0


From fb7612e0b5ec35aca4736c8ce00855556810e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:12 +0000
Subject: [PATCH 21/42] fix: total derivatives through dependent variables can
 be taken

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 1339157..ac23558 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(list(dependent_vars.items())) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From 19a91223bae662fe233ae4d4cba32407e6a76fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:38 +0000
Subject: [PATCH 22/42] fix: symmetry fields are read with the names of the
 problem

---
 beluga/symbolic/data_classes/components_structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index a6e3bd8..7e68157 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -296,7 +296,8 @@ class SymmetryStruct(DimensionalStruct):
 
     def sympify_self(self):
         super(SymmetryStruct, self).sympify_self()
-        self.field = self._sympify_internal(np.array(self.field))
+        # Item by item: sympify does not apply its locals to the elements of an array
+        self.field = sympy.Array([self._sympify_internal(item) for item in self.field])
 
     def subs_self(self, old, new):
         if not hasattr(self.field, 'subs_self'):
-- 
2.43.0


From 843662665d1eac2350d365b5d68d9afc26cb12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:56 +0000
Subject: [PATCH 23/42] fix: a time-dependent path cost is not a time symmetry

---
 beluga/symbolic/data_classes/mapping_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index cbfd04c..254099a 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,9 +166,12 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
+        # Everything that enters the Hamiltonian has to be independent of time
         independent_symmetry = True
-        for state in prob.states:
-            if state.eom.diff(new_state.sym) != 0:
+        hamiltonian_exprs = getattr_from_list(prob.states, 'eom') + [prob.cost.path] \
+            + getattr_from_list(prob.constraints['path'], 'expr') + getattr_from_list(prob.switches, 'sym_func')
+        for expr in hamiltonian_exprs:
+            if expr.diff(new_state.sym) != 0:
                 independent_symmetry = False
 
         if independent_symmetry:
-- 
2.43.0


From ffa7dc7f3ae7fb89ffed46708784c17059534e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:42 +0000
Subject: [PATCH 24/42] fix: costs can be set in part

---
 beluga/symbolic/data_classes/symbolic_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/symbolic_problem.py b/beluga/symbolic/data_classes/symbolic_problem.py
index 08bedbd..c163ef7 100644
--- a/beluga/symbolic/data_classes/symbolic_problem.py
+++ b/beluga/symbolic/data_classes/symbolic_problem.py
@@ -198,7 +198,7 @@ class Problem:
         return self
 
     # TODO Rename cost
-    def set_cost(self, initial=None, path=None, terminal=None, units=None):
+    def set_cost(self, initial='0', path='0', terminal='0', units=None):
         self.cost = CostStruct(initial=initial, path=path, terminal=terminal, units=units,
                                local_compiler=self.local_compiler)
 
-- 
2.43.0


From 2629001a5e0d8c9c4297b2e33084ffd9523e760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:42 +0000
Subject: [PATCH 25/42] fix: one-sided bounds are refused instead of dropped or
 taken as equalities

---
 beluga/symbolic/data_classes/mapping_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 254099a..1909559 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -264,7 +264,7 @@ class UTM(GenericFunctor):
                 activator_units = constant.units
 
         if activator_units is None:
-            raise Exception('Activator \'' + str(constraint['activator']) + '\' not found in constants.')
+            raise Exception('Activator \'' + str(constraint.activator) + '\' not found in constants.')
 
         expr, activator, upper, lower = constraint.expr, constraint.activator, constraint.upper, constraint.lower
 
@@ -828,6 +828,8 @@ def make_direct_method(prob: Problem, analytical_jacobian=True, reduction=False,
             else:
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
+        elif constraint.lower is not None or constraint.upper is not None or constraint in prob.constraints['path']:
+            raise NotImplementedError('Bounds of \"' + str(constraint.expr) + '\" must have both a lower and an upper side')
 
     """
     Deal with staging, switches, and their substitutions.
@@ -889,6 +891,8 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
             else:
                 raise NotImplementedError(
                     'Unknown path constraint method \"' + str(constraint.method) + '\"')
+        elif constraint.lower is not None or constraint.upper is not None or constraint in prob.constraints['path']:
+            raise NotImplementedError('Bounds of \"' + str(constraint.expr) + '\" must have both a lower and an upper side')
 
     """
     Deal with staging, switches, and their substitutions.
-- 
2.43.0


From 7fd2769626858effc1951277205b646222cdb9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:42 +0000
Subject: [PATCH 26/42] fix: functions the compiler rejects with a ValueError
 run uncompiled

---
 beluga/numeric/compilation/jit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/compilation/jit.py b/beluga/numeric/compilation/jit.py
index 9662f3e..0917069 100644
--- a/beluga/numeric/compilation/jit.py
+++ b/beluga/numeric/compilation/jit.py
@@ -59,7 +59,7 @@ def jit_compile_func(func, args, func_name=None, complex_numbers=False):
         logging.debug('Cannot Compile FunctionComponent: {}\n\tError: {}'.format(func_name, e))
         return func
 
-    except TypeError:
+    except (TypeError, ValueError):
         logging.debug('Cannot Compile FunctionComponent: {} (probably NoneType)'.format(func_name))
         return func
 
@@ -86,6 +86,6 @@ def jit_compile_func_num_args(func, num_args, func_name=None, complex_numbers=Fa
         logging.debug('Cannot Compile FunctionComponent: {}'.format(func_name))
         return func
 
-    except TypeError:
+    except (TypeError, ValueError):
         logging.debug('Cannot Compile FunctionComponent: {} (probably NoneType)'.format(func_name))
         return func
-- 
2.43.0


From 719c76f67e4697da62b604473c40b38f96e05740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:51 +0000
Subject: [PATCH 27/42] fix: a static guess leaves the given trajectory
 untouched

---
 beluga/continuation/guess_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..d38c096 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,8 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        # The maps work in place: keep the trajectory of the user as it is
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 83928c1899b45e82a8485e962ee7137c60360fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 28/42] fix: a scalar control guess applies to every control

---
 beluga/beluga.py                        | 1 +
 beluga/continuation/guess_generators.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index e56b641..55cc64f 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    guess_generator.dae_num_states = len(ocp.controls)
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
     if initial_helper:
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index d38c096..1f73f27 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -112,7 +112,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess*np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
@@ -191,7 +191,7 @@ class GuessGenerator(object):
         else:
             d0 = np.r_[self.costate_guess]
 
-        if isinstance(self.control_guess, float) or isinstance(self.control_guess, float):
+        if isinstance(self.control_guess, float) or isinstance(self.control_guess, int):
             u0 = self.control_guess * np.ones(self.dae_num_states)
         else:
             u0 = self.control_guess
-- 
2.43.0


From 26a472defd6ff0d6150b291b40e373275f08a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:11 +0000
Subject: [PATCH 29/42] fix: an algebraic law with constant controls can be
 compiled and used

---
 beluga/numeric/compilation/component_compilation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/compilation/component_compilation.py b/beluga/numeric/compilation/component_compilation.py
index 2ed8a7d..83d70c8 100644
--- a/beluga/numeric/compilation/component_compilation.py
+++ b/beluga/numeric/compilation/component_compilation.py
@@ -16,13 +16,14 @@ def compile_control(control_options, args, ham_func, lambdify_func=jit_lambdify)
         compiled_option = lambdify_func(args, control_options[0])
 
         def calc_u(_y, _p, _k):
-            return np.array(compiled_option(_y, _p, _k))
+            # a constant law would give integers, which compiled functions of the controls do not accept
+            return 1.0*np.array(compiled_option(_y, _p, _k))
 
     else:
         compiled_options = lambdify_func(args, control_options)
 
         def calc_u(_y, _p, _k):
-            u_set = np.array(compiled_options(_y, _p, _k))
+            u_set = 1.0*np.array(compiled_options(_y, _p, _k))
 
             u = u_set[0, :]
             ham = ham_func(_y, u, _p, _k)
-- 
2.43.0


From 8c10e6f24e34818d5db35e200a751a66d5e24d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:52 +0000
Subject: [PATCH 30/42] fix: files with tables and custom functions can be
 loaded

---
 beluga/symbolic/special_functions/custom_functions.py | 2 +-
 beluga/symbolic/special_functions/tables.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 2157aa8..392b12e 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -84,7 +84,7 @@ class CustomFunction(Function):
         if local_compiler is not None:
             local_compiler.add_function_local(name, eval_func)
 
-        attributes = {'nargs': len(arg_list), 'base_name': base_name, 'base_func': staticmethod(base_func),
+        attributes = {'_nargs': len(arg_list), 'base_name': base_name, 'base_func': staticmethod(base_func),
                       'eval_func': staticmethod(eval_func), 'order': tuple(order), 'deriv_method': deriv_method,
                       'local_compiler': local_compiler}
         return type(name, (CustomFunctionMeta,), attributes)(*arg_list)
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 106627c..5ea6694 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -47,7 +47,7 @@ class SymTable(SymTableMeta):
         if local_compiler is not None:
             local_compiler.add_function_local(name, table_func)
 
-        attributes = {'nargs': 1, 'order': order, 'table': table, 'table_func': staticmethod(table_func),
+        attributes = {'_nargs': 1, 'order': order, 'table': table, 'table_func': staticmethod(table_func),
                       'local_compiler': local_compiler}
         return type(name, (SymTableMeta,), attributes)(arg)
 
-- 
2.43.0


From 4ff89dcc0d8e0a7615ef63b26f4a11185d211e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:36 +0000
Subject: [PATCH 31/42] fix: shooting with COBYLA returns its solution instead
 of raising

---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 3f2ee99..ae8eefd 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -682,7 +682,7 @@ class Shooting(BaseAlgorithm):
 
             err = opt.fun
             x_init = opt.x
-            n_iter = opt.nit
+            n_iter = opt.get('nit', -1)  # COBYLA does not count its iterations
             converged = opt.success and isclose(err, 0, abs_tol=self.tolerance)
 
         elif self.algorithm in scipy_root_algorithms:
-- 
2.43.0


From 73d4946c7d780101af1273cb99f841c6d8c51126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 32/42] fix: no analytical Jacobians for an algebraic law
 however its name is written

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1909559..58aa884 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -942,7 +942,7 @@ def make_indirect_method(prob: Problem, analytical_jacobian=False, control_metho
     Form analytical jacobians
     """
     if analytical_jacobian:
-        if control_method == 'algebraic':
+        if control_method.lower() == 'algebraic':
             logging.info('Analytical Jacobians not available for algebraic control mode')
         else:
             RFfunctor >>= ComputeAnalyticalJacobians()
-- 
2.43.0


From eb05c4db62cd7c834f687f26ac27b1429be96e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:04 +0000
Subject: [PATCH 33/42] fix: init_logging without a log file shows messages at
 the display level

With file_level left at NOTSET the logger itself was set to NOTSET and fell
back on the level of the root logger, so INFO and DEBUG messages asked for
on the display were never shown.
---
 beluga/utils/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/utils/logging.py b/beluga/utils/logging.py
index 73e4840..7eeeaed 100644
--- a/beluga/utils/logging.py
+++ b/beluga/utils/logging.py
@@ -10,7 +10,8 @@ def root():
 
 def init_logging(display_level=logging.INFO, file_level=logging.NOTSET, filename='beluga.log'):
 
-    logging_level = min(display_level, file_level)
+    # A level of NOTSET would make the logger take on the level of the root logger and lose messages
+    logging_level = min(display_level, file_level) if file_level > logging.NOTSET else display_level
 
     beluga_logger = logging.getLogger('beluga')
     beluga_logger.setLevel(logging_level)
-- 
2.43.0


From b43ca50d947604c1583d3f2d762d0e7c9b1448ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:35 +0000
Subject: [PATCH 34/42] fix: time-dependent bounds leave no constant of motion
 of time

---
 beluga/symbolic/data_classes/mapping_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 58aa884..7829841 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -169,9 +169,11 @@ class MomentumShift(GenericFunctor):
         # Everything that enters the Hamiltonian has to be independent of time
         independent_symmetry = True
         hamiltonian_exprs = getattr_from_list(prob.states, 'eom') + [prob.cost.path] \
-            + getattr_from_list(prob.constraints['path'], 'expr') + getattr_from_list(prob.switches, 'sym_func')
+            + getattr_from_list(prob.switches, 'sym_func')
+        for constraint in prob.constraints['path']:
+            hamiltonian_exprs += [constraint.expr, constraint.lower, constraint.upper, constraint.activator]
         for expr in hamiltonian_exprs:
-            if expr.diff(new_state.sym) != 0:
+            if expr is not None and expr.diff(new_state.sym) != 0:
                 independent_symmetry = False
 
         if independent_symmetry:
-- 
2.43.0


From 81532c7a5bab5c1bb8ec0dffb6e1c8a607a4a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:32 +0000
Subject: [PATCH 35/42] fix: reduction maps trajectories that come without an
 array of quadratures

---
 beluga/numeric/data_classes/trajectory_mappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 86821f8..fbe3ebf 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -311,7 +311,8 @@ class MF(SolMapper):
         elif self.remove_symmetry_dict['location'] == 'costates':
             sol.dual = np.delete(sol.dual, np.s_[self.remove_symmetry_dict['index']], axis=1)
 
-        sol.q = np.column_stack((sol.q, qval))
+        # a trajectory without quadratures may carry no rows for them either
+        sol.q = np.column_stack((sol.q, qval)) if np.size(sol.q) > 0 else np.column_stack((qval,))
 
         return sol
 
-- 
2.43.0


From 80c692a7b1b03ecf76a301bcdcd90d17dbbd6822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:29 +0000
Subject: [PATCH 36/42] fix: a trajectory without states evaluates to an empty
 array of states

---
 beluga/numeric/data_classes/Trajectory.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/Trajectory.py b/beluga/numeric/data_classes/Trajectory.py
index 55ef062..c9570c3 100644
--- a/beluga/numeric/data_classes/Trajectory.py
+++ b/beluga/numeric/data_classes/Trajectory.py
@@ -79,7 +79,10 @@ class Trajectory(object):
 
         ycolumn = False
         if len(self.y.shape) == 1:
-            ydim = 1
+            if self.y.shape[0] == 0:
+                ydim = 0
+            else:
+                ydim = 1
         else:
             ycolumn = True
             ydim = self.y.shape[1]
-- 
2.43.0


From 9b9132876ebc5a622fae667803fb0f2192c91ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 37/42] fix: expressions that cannot be compiled still call
 compiled functions

---
 beluga/numeric/compilation/LocalCompiler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beluga/numeric/compilation/LocalCompiler.py b/beluga/numeric/compilation/LocalCompiler.py
index b0adb1d..5f70557 100644
--- a/beluga/numeric/compilation/LocalCompiler.py
+++ b/beluga/numeric/compilation/LocalCompiler.py
@@ -41,4 +41,9 @@ class LocalCompiler:
         tup_func = tuplefy(sym_func)
         lam_func = sympy.lambdify(args, tup_func, modules)
         jit_func = jit_compile_func(lam_func, args, func_name=repr(sym_func), complex_numbers=complex_numbers)
+        if jit_func is lam_func and any(hasattr(func, 'py_func') for func in modules[0].values()):
+            # Compiled functions only take the types they were compiled for, which plain code may not hand over
+            # (e.g. NumPy evaluates Piecewise to arrays without dimension)
+            modules[0] = {name: getattr(func, 'py_func', func) for name, func in modules[0].items()}
+            return sympy.lambdify(args, tup_func, modules)
         return jit_func
-- 
2.43.0


From 0f47585ea06d82c32f944b298d18dfea848d70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 38/42] fix: normalizing time also scales the rates of
 quadratures and coparameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 7829841..1f7b38b 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -708,7 +708,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.quads, prob.coparameters]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From 63106fd356931d87d44ac66a4ad13d5a685b505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 39/42] fix: solutions of problems with free parameters map to
 and from the boundary value problem

---
 beluga/numeric/data_classes/trajectory_mappers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index fbe3ebf..cb71067 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -358,11 +358,19 @@ class SquashToBVPMapper(SolMapper):
         if len(sol.dual) > 0:
             sol.y = np.concatenate((sol.y, sol.dual), axis=1)
 
+        # The adjoints of the parameters are quadratures of the BVP, guessed as zero
+        num_coparameters = self.coparameter_idxs.stop - self.coparameter_idxs.start
+        if num_coparameters > 0:
+            coparameters = np.zeros((len(sol.t), num_coparameters))
+            sol.q = np.column_stack((sol.q, coparameters)) if np.size(sol.q) > 0 else coparameters
+
         return sol
 
     def inv_map(self, sol: Solution) -> Solution:
         sol.dual = sol.y[:, self.costate_idxs]
         sol.y = np.delete(sol.y, self.costate_idxs, axis=1)
+        if self.coparameter_idxs.stop > self.coparameter_idxs.start:
+            sol.q = np.delete(sol.q, self.coparameter_idxs, axis=1)
         sol.nondynamical_parameters = np.delete(sol.nondynamical_parameters, self.constraint_adjoints_idxs)
 
         return sol
-- 
2.43.0


From 6644250ee850f06236d9e417636953410ef0f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:17 +0000
Subject: [PATCH 40/42] fix: the guess of the free parameters is used

---
 beluga/beluga.py                        |  1 +
 beluga/continuation/guess_generators.py | 16 ++++++++++------
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/beluga/beluga.py b/beluga/beluga.py
index 55cc64f..31977e5 100755
--- a/beluga/beluga.py
+++ b/beluga/beluga.py
@@ -160,6 +160,7 @@ def solve(
 
     solinit = Trajectory()
     solinit.const = np.array(getattr_from_list(bvp.constants, 'default_val'))
+    solinit.dynamical_parameters = np.ones(len(ocp.parameters))
     guess_generator.dae_num_states = len(ocp.controls)
     solinit = guess_generator.generate(bvp.functional_problem, solinit, ocp_map, ocp_map_inverse)
 
diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 1f73f27..2c26ff5 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -117,13 +117,15 @@ class GuessGenerator(object):
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
+        if param_guess is None:
+            param_guess = self.param_guess
         if param_guess is None:
             param_guess = np.ones(len(solinit.dynamical_parameters))
         elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
+            param_guess = np.append(param_guess, np.ones(len(solinit.dynamical_parameters) - len(param_guess)))
         elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.dynamical_parameters)))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
@@ -196,13 +198,15 @@ class GuessGenerator(object):
         else:
             u0 = self.control_guess
 
-        # Guess zeros for missing parameters
+        # Guess ones for missing parameters
+        if param_guess is None:
+            param_guess = self.param_guess
         if param_guess is None:
             param_guess = np.ones(len(solinit.dynamical_parameters))
         elif len(param_guess) < len(solinit.dynamical_parameters):
-            param_guess += np.ones(len(solinit.dynamical_parameters) - len(param_guess))
+            param_guess = np.append(param_guess, np.ones(len(solinit.dynamical_parameters) - len(param_guess)))
         elif len(param_guess) > len(solinit.dynamical_parameters):
-            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.aux['parameters'])))
+            raise ValueError('param_guess too big. Maximum width allowed is ' + str(len(solinit.dynamical_parameters)))
         nondynamical_param_guess = np.ones(len(solinit.nondynamical_parameters))
 
         logging.debug('Generating initial guess by propagating: ')
-- 
2.43.0


From c09bc4bdc8eba904478cb4fdb7ae4d79574e49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:12 +0000
Subject: [PATCH 41/42] fix: analytical Jacobians of problems without
 parameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1f7b38b..772cac7 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -745,8 +745,10 @@ class ComputeAnalyticalJacobians(GenericFunctor):
     def transformation(self, prob: Problem) -> Problem:
 
         states = sympy.Matrix(extract_syms(prob.states))
-        dynamic_parameters = sympy.Matrix(extract_syms(prob.parameters))
-        parameters = sympy.Matrix(extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters))
+        # column vectors also where there are no parameters
+        dynamic_parameters = sympy.Matrix(len(prob.parameters), 1, extract_syms(prob.parameters))
+        parameters = sympy.Matrix(len(prob.parameters) + len(prob.constraint_parameters), 1,
+                                  extract_syms(prob.parameters) + extract_syms(prob.constraint_parameters))
         quads = sympy.Matrix(extract_syms(prob.quads))
         eom = sympy.Matrix(getattr_from_list(prob.states, 'eom'))
         phi_0 = sympy.Matrix(getattr_from_list(prob.constraints['initial'], 'expr'))
@@ -756,10 +758,9 @@ class ComputeAnalyticalJacobians(GenericFunctor):
         prob.bc_jac['initial']['dbc_dy'] = phi_0.jacobian(states)
         prob.bc_jac['terminal']['dbc_dy'] = phi_f.jacobian(states)
 
-        if len(parameters) > 0:
-            prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
-            prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
-            prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
+        prob.func_jac.update({'df_dp': eom.jacobian(dynamic_parameters)})
+        prob.bc_jac['initial']['dbc_dp'] = phi_0.jacobian(parameters)
+        prob.bc_jac['terminal']['dbc_dp'] = phi_f.jacobian(parameters)
 
         if len(quads) > 0:
             prob.bc_jac['initial']['dbc_dq'] = phi_0.jacobian(quads)
-- 
2.43.0


From 0bab86e5b05ad1567a4c1d2df3b02dd105cacf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:12 +0000
Subject: [PATCH 42/42] fix: time as a state for problems without costates

---
 beluga/numeric/data_classes/trajectory_mappers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index cb71067..3f49a1e 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -45,7 +45,9 @@ class MomentumShiftMapper(SolMapper):
             sol.dual_t = np.zeros_like(sol.t)
 
         sol.y = np.insert(sol.y, self.ind_state_idx, sol.t, axis=1)
-        sol.dual = np.insert(sol.dual, self.ind_state_idx, sol.dual_t, axis=1)
+        # a boundary value problem given directly has no costates
+        if np.size(sol.dual) > 0:
+            sol.dual = np.insert(sol.dual, self.ind_state_idx, sol.dual_t, axis=1)
 
         return sol
 
@@ -56,8 +58,9 @@ class MomentumShiftMapper(SolMapper):
         sol.t = sol.y[:, self.ind_state_idx]
         sol.y = np.delete(sol.y, self.ind_state_idx, axis=1)
 
-        sol.dual_t = sol.dual[:, self.ind_state_idx]
-        sol.dual = np.delete(sol.dual, self.ind_state_idx, axis=1)
+        if np.size(sol.dual) > 0:
+            sol.dual_t = sol.dual[:, self.ind_state_idx]
+            sol.dual = np.delete(sol.dual, self.ind_state_idx, axis=1)
 
         return sol
 
-- 
2.43.0

