From 653fb9ac3a808e1688fc9b2707b57548c6082da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 01/31] fix: input-error results carry all fields OptimResults
 requires

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f61d7da..5ccc9fa 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1086,7 +1086,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is not None:
         exit_flag = exit_info.flag
         exit_msg = exit_info.message(with_stem=True)
-        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg)
+        results = OptimResults(None, None, None, None, 0, 0, 0, exit_flag, exit_msg, 0, None)
         return results
 
     # Enforce arbitrary constraint bounds on x0
-- 
2.43.0


From d46d3585f3bfaf909f22e02c27bd3a1d10bed9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 02/31] fix: expose every exit code on the results object and
 give each a message stem

---
 dfols/controller.py | 4 +++-
 dfols/solver.py     | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 4fee084..d05ed7f 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -41,7 +41,7 @@ from .util import *
 
 __all__ = ['Controller', 'ExitInformation', 'EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS',
            'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_FALSE_SUCCESS_WARNING',
-           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_EVAL_ERROR']
+           'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_TR_INCREASE_WARNING', 'EXIT_EVAL_ERROR']
 
 module_logger = logging.getLogger(__name__) 
 
@@ -84,6 +84,8 @@ class ExitInformation(object):
             return "Error (linear algebra): " + self.msg
         elif self.flag == EXIT_FALSE_SUCCESS_WARNING:
             return "Warning (max false good steps): " + self.msg
+        elif self.flag == EXIT_AUTO_DETECT_RESTART_WARNING:
+            return "Warning (auto-detected restart): " + self.msg
         elif self.flag == EXIT_EVAL_ERROR:
             return "Error (function evaluation): " + self.msg
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index 5ccc9fa..b217538 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -70,6 +70,9 @@ class OptimResults(object):
         self.EXIT_TR_INCREASE_ERROR = EXIT_TR_INCREASE_ERROR
         self.EXIT_LINALG_ERROR = EXIT_LINALG_ERROR
         self.EXIT_FALSE_SUCCESS_WARNING = EXIT_FALSE_SUCCESS_WARNING
+        self.EXIT_AUTO_DETECT_RESTART_WARNING = EXIT_AUTO_DETECT_RESTART_WARNING
+        self.EXIT_TR_INCREASE_WARNING = EXIT_TR_INCREASE_WARNING
+        self.EXIT_EVAL_ERROR = EXIT_EVAL_ERROR
 
     def __str__(self):
         # Result of calling print(soln)
-- 
2.43.0


From 3b8817120c53af85a321b26c12d2fef8c798a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 03/31] fix: document the auto-detected restart exit flag

---
 docs/userguide.rst | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docs/userguide.rst b/docs/userguide.rst
index 0e72ab8..53f874f 100644
--- a/docs/userguide.rst
+++ b/docs/userguide.rst
@@ -54,6 +54,7 @@ The possible values of :code:`soln.flag` are defined by the following variables:
 * :code:`soln.EXIT_MAXFUN_WARNING` - maximum allowed objective evaluations reached. This is the most likely return value when using multiple restarts.
 * :code:`soln.EXIT_SLOW_WARNING` - maximum number of slow iterations reached.
 * :code:`soln.EXIT_FALSE_SUCCESS_WARNING` - DFO-LS reached the maximum number of restarts which decreased the objective, but to a worse value than was found in a previous run.
+* :code:`soln.EXIT_AUTO_DETECT_RESTART_WARNING` - the need for a restart was detected automatically, but no further (hard) restart was possible.
 * :code:`soln.EXIT_TR_INCREASE_WARNING` - model increase when solving the trust region subproblem with multiple arbitrary constraints.
 * :code:`soln.EXIT_INPUT_ERROR` - error in the inputs.
 * :code:`soln.EXIT_TR_INCREASE_ERROR` - error occurred when solving the trust region subproblem.
-- 
2.43.0


From e257c7861a0b320e97372d06ad706d5dd39db4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 04/31] fix: exit at the starting point reports its evaluation
 number, full objective and run count

---
 dfols/solver.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index b217538..c6c4424 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -179,7 +179,6 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         for i in range(1, number_of_samples):  # skip first eval - already did this
             if nf >= maxfun:
                 exit_info = ExitInformation(EXIT_MAXFUN_WARNING, "Objective has been called MAXFUN times")
-                nruns_so_far += 1
                 break  # stop evaluating at x0
 
             nf += 1
@@ -192,17 +191,15 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
         r0_avg = np.mean(rvec_list[:num_samples_run, :], axis=0)
         # NOTE: modify objvalue here
-        if h is None:
-            if sumsq(r0_avg) <= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
-        else:
-            if sumsq(r0_avg) + h(remove_scaling(x0, scaling_changes), *argsh)<= params("model.abs_tol"):
-                exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
+        obj0_avg = sumsq(r0_avg)
+        if h is not None:
+            obj0_avg += h(remove_scaling(x0, scaling_changes), *argsh)
+        if obj0_avg <= params("model.abs_tol"):
+            exit_info = ExitInformation(EXIT_SUCCESS, "Objective is sufficiently small")
 
         if exit_info is not None:
-            xmin_eval_num = 0
-            jacmin_eval_nums = np.array([0], dtype=int)
-            return x0, r0_avg, sumsq(r0_avg), None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, xmin_eval_num, jacmin_eval_nums
+            # no Jacobian yet, so no Jacobian evaluation numbers either
+            return x0, r0_avg, obj0_avg, None, num_samples_run, nf, nx, nruns_so_far+1, exit_info, diagnostic_info, nx, None
 
     else:  # have old r0 information (e.g. from previous restart), use this instead
 
-- 
2.43.0


From 8a02f44af7e8f2442f4aa263b570ea3b713afc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 05/31] fix: Model records the true evaluation number of its
 starting point after a hard restart

---
 dfols/controller.py | 4 ++--
 dfols/model.py      | 4 ++--
 dfols/solver.py     | 7 ++++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index d05ed7f..3c10710 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -103,7 +103,7 @@ class ExitInformation(object):
 
 class Controller(object):
     def __init__(self, objfun, argsf, x0, r0, r0_nsamples, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun, params,
-                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = ()):
+                 scaling_changes, do_logging, h=None, lh=None, argsh = (), prox_uh=None, argsprox = (), x0_eval_num=1):
         self.do_logging = do_logging
         self.objfun = objfun
         self.h = h
@@ -114,7 +114,7 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, x0_eval_num=x0_eval_num)
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index e10c5e0..b0edb6d 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None):
+                 do_logging=True, scaling_changes=None, x0_eval_num=1):
         if n is None:
             n = len(x0)
         if m is None:
@@ -86,7 +86,7 @@ class Model(object):
         self.nsamples[0] = r0_nsamples
         self.objbeg = self.objval[0]  # f(x0), saved to check for sufficient reduction
         self.eval_num = np.zeros((npt,), dtype=int)  # which evaluation number (1-indexed, nx not nf) is currently stored self.points[k,:]
-        self.eval_num[0] = 1
+        self.eval_num[0] = x0_eval_num
 
         # Termination criteria
         self.abs_tol = abs_tol
diff --git a/dfols/solver.py b/dfols/solver.py
index c6c4424..e0a4b1a 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -153,7 +153,7 @@ class OptimResults(object):
 
 
 def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns_so_far, nf_so_far, nx_so_far, nsamples, params,
-               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, default_growing_method_set_by_user=None,
+               diagnostic_info, scaling_changes, h=None, lh=None, argsh=(), prox_uh=None, argsprox=None, r0_avg_old=None, r0_nsamples_old=None, r0_eval_num_old=None, default_growing_method_set_by_user=None,
                do_logging=True, print_progress=False):
     # Evaluate at x0 (keep nf, nx correct and check for f < 1e-12)
     # The hard bit is determining what m = len(r0) should be, and allocating memory appropriately
@@ -208,6 +208,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
         num_samples_run = r0_nsamples_old
         nf = nf_so_far
         nx = nx_so_far
+    x0_eval_num = nx if r0_avg_old is None else r0_eval_num_old  # which evaluation point x0 was
     
     # On the first run, set default growing method (unless the user has already done this)
     if default_growing_method_set_by_user is not None and (not default_growing_method_set_by_user):
@@ -223,7 +224,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
 
     # Initialise controller
     control = Controller(objfun, argsf, x0, r0_avg, num_samples_run, xl, xu, projections, npt, rhobeg, rhoend, nf, nx, maxfun,
-                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox)
+                         params, scaling_changes, do_logging, h=h, lh=lh, argsh=argsh,  prox_uh=prox_uh, argsprox=argsprox, x0_eval_num=x0_eval_num)
 
     # Initialise interpolation set
     number_of_samples = max(nsamples(control.delta, control.rho, 0, nruns_so_far), 1)
@@ -1133,7 +1134,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         if params("restarts.hard.use_old_rk"):
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
-                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min,
+                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, r0_avg_old=rmin, r0_nsamples_old=nsamples_min, r0_eval_num_old=xmin_eval_num,
                            do_logging=do_logging, print_progress=print_progress)
         else:
             xmin2, rmin2, objmin2, jacmin2, nsamples2, nf, nx, nruns, exit_info, diagnostic_info, xmin_eval_num2, jacmin_eval_nums2 = \
-- 
2.43.0


From 6e6c2fa7cb19cb8e116e784655b7590cc550f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 06/31] fix: soft restart saves the incumbent with its own
 sample count and evaluation number

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 3c10710..8e87c18 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -803,8 +803,8 @@ class Controller(object):
             assert rvec_to_save is not None, "Soft restart: specified x_to_save but not rvec_to_save"
             assert nsamples_to_save is not None, "Soft restart: specified x_to_save but not nsamples_to_save"
             self.model.save_point(x_in_abs_coords_to_save, rvec_to_save, nsamples_to_save, self.nx, x_in_abs_coords=True)
-        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.nx,
-                              self.model.nsamples[self.model.kopt], x_in_abs_coords=True)
+        self.model.save_point(self.model.xopt(abs_coordinates=True), self.model.ropt(), self.model.nsamples[self.model.kopt],
+                              self.model.eval_num[self.model.kopt], x_in_abs_coords=True)
 
         if self.do_logging:
             module_logger.info("Soft restart [currently, f = %g after %g function evals]" % (self.model.objopt(), self.nf))
-- 
2.43.0


From 8f73b0cb8da3461f06b82f909b27e0b7e75c083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 07/31] fix: project onto the true bound box in the regularised
 subproblems without projections

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 8e87c18..bb35deb 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -496,7 +496,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.sl, self.model.su)
+            proj = lambda x: pbox(x, self.model.xbase + self.model.sl, self.model.xbase + self.model.su)  # absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -543,7 +543,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.sl, self.model.su)
+                proj = lambda x: pbox(x, self.model.xbase + self.model.sl, self.model.xbase + self.model.su)  # absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
-- 
2.43.0


From 7640e397e2162d45baba3008162ae954960f3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 08/31] fix: pass argsprox to the proximal operator exactly
 once

---
 dfols/trust_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/trust_region.py b/dfols/trust_region.py
index e9159ad..e7327ee 100644
--- a/dfols/trust_region.py
+++ b/dfols/trust_region.py
@@ -143,7 +143,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
         prev_d = d.copy()
         prev_t = t
         # gradient_Fu at y
-        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        g_Fu = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # main update step
         d = proj(y - g_Fu / l)
@@ -154,7 +154,7 @@ def ctrsbox_sfista(xopt, g, H, projections, delta, h, L_h, prox_uh, argsh=(), ar
 
         # update true gradient
         # gnew is the gradient of the smoothed function
-        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d, *argsprox)
+        gnew = gradient_Fu(xopt, g, H, u, prox_uh, d)
 
         # update CRVMIN
         crv = d.dot(H).dot(d)/sumsq(d) if sumsq(d) >= ZERO_THRESH else crvmin
-- 
2.43.0


From a253ee755a2c0b8ca92a26fffc0221f9e9ec8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 09/31] fix: NaN objectives never displace finite ones in the
 model's incumbent, saved point or final result

---
 dfols/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index b0edb6d..a5f6734 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -196,7 +196,7 @@ class Model(object):
         self.eval_num[k] = eval_num
         self.factorisation_current = False
 
-        if allow_kopt_update and self.objval[k] < self.objopt():
+        if allow_kopt_update and (self.objval[k] < self.objopt() or np.isnan(self.objopt())):
             self.kopt = k
         return
 
@@ -223,7 +223,9 @@ class Model(object):
             self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
-        self.kopt = np.argmin(self.objval[:self.npt()])  # make sure kopt is always the best value we have
+        # Make sure kopt is always the best value we have (NaN counts as worse than anything, but argmin would choose it)
+        objvals = self.objval[:self.npt()]
+        self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
         return
 
     def add_new_point(self, x, rvec, eval_num):
@@ -238,7 +240,7 @@ class Model(object):
         self.num_pts += 1  # make sure npt is updated
         self.npt_so_far += 1
 
-        if obj < self.objopt():
+        if obj < self.objopt() or np.isnan(self.objopt()):
             self.kopt = self.npt() - 1
 
         self.factorisation_current = False
@@ -262,7 +264,7 @@ class Model(object):
         obj = sumsq(rvec)
         if self.h is not None:
             obj += self.h(remove_scaling(xabs, self.scaling_changes), *self.argsh)
-        if self.objsave is None or obj <= self.objsave:
+        if self.objsave is None or obj <= self.objsave or np.isnan(self.objsave):
             self.xsave = xabs
             self.rsave = rvec.copy()
             self.objsave = obj
@@ -276,7 +278,7 @@ class Model(object):
 
     def get_final_results(self):
         # Return x and objval for optimal point (either from xsave+objsave or kopt)
-        if self.objsave is None or self.objopt() <= self.objsave:  # optimal has changed since xsave+objsave were last set
+        if self.objsave is None or self.objopt() <= self.objsave or np.isnan(self.objsave):  # optimal has changed since xsave+objsave were last set
             return self.xopt(abs_coordinates=True).copy(), self.ropt().copy(), self.objopt(), self.model_jac.copy(), self.nsamples[self.kopt], self.eval_num[self.kopt], self.model_jac_eval_nums
         else:
             return self.xsave.copy(), self.rsave.copy(), self.objsave, self.jacsave, self.nsamples_save, self.eval_num_save, self.jacsave_eval_nums
-- 
2.43.0


From 4ed44a63ec53669967c4fe0deab2bb975ff9e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 10/31] fix: never report success for a non-finite objective,
 nor unsuccessful restarts when none were done

---
 dfols/solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index e0a4b1a..5dd554b 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1153,9 +1153,13 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
             if do_logging:
                 module_logger.info("Unsuccessful run with new f = %s compared to old f = %s" % (objmin2, objmin))
 
-    if nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
+    if params("restarts.use_restarts") and not params("restarts.use_soft_restarts") and \
+            nruns - last_successful_run >= params("restarts.max_unsuccessful_restarts"):
         exit_info = ExitInformation(EXIT_SUCCESS, "Reached maximum number of unsuccessful restarts")
 
+    if exit_info.flag == EXIT_SUCCESS and not np.isfinite(objmin):
+        exit_info = ExitInformation(EXIT_EVAL_ERROR, "No finite objective value found (%s)" % exit_info.message(with_stem=False))
+
     # Process final return values & package up
     exit_flag = exit_info.flag
     exit_msg = exit_info.message(with_stem=True)
-- 
2.43.0


From 58707500252df77f65d68636723a2437da774e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 11/31] fix: keep evaluated trial points that are abandoned on
 an error exit

---
 dfols/controller.py | 3 +++
 dfols/solver.py     | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index bb35deb..370be59 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -452,6 +452,9 @@ class Controller(object):
                 kmin, linalg_error = self.choose_point_to_replace(xnew - self.model.xopt(), skip_kopt=True)
 
                 if linalg_error:
+                    # This point will not be added to the model, but don't lose it
+                    self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
+                                          x_in_abs_coords=True)
                     exit_info = ExitInformation(EXIT_LINALG_ERROR, "Singular matrix when finding kmin (in main loop)")
                     return exit_info  # return & quit
 
diff --git a/dfols/solver.py b/dfols/solver.py
index 5dd554b..f16aaf6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -614,6 +614,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
             # Estimate f in order to compute 'actual reduction'
             ratio, exit_info = control.calculate_ratio(control.model.xopt(abs_coordinates=True), current_iter, rvec_list[:num_samples_run, :], d, gopt, H)
             if exit_info is not None:
+                # This point will not be added to the model, but don't lose it
+                control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                         x_in_abs_coords=True)
                 if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                         "restarts.use_soft_restarts"):
                     number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
@@ -668,6 +671,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # Re-select knew, allowing knew=kopt this time
                 knew, exit_info = control.choose_point_to_replace(d, skip_kopt=False)
                 if exit_info is not None:
+                    # This point will not be added to the model, but don't lose it
+                    control.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, control.nx,
+                                             x_in_abs_coords=True)
                     if exit_info.able_to_do_restart() and params("restarts.use_restarts") and params(
                             "restarts.use_soft_restarts"):
                         number_of_samples = max(nsamples(control.delta, control.rho, current_iter, nruns_so_far), 1)
-- 
2.43.0


From 06e262cbf9a1a4c60ba661fea811bc038eee54c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 12/31] fix: parallel initialisation uses each point's own
 evaluation number and keeps every evaluated point

---
 dfols/controller.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 370be59..3612fd7 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -270,21 +270,24 @@ class Controller(object):
                 
                 # Evaluate objective at this new point
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
             
             # Evaluations done, now add to the model
             for k in range(1, num_directions + 1):
                 x = self.model.as_absolute_coordinates(xpts_added[k, :])
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[k-1]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[k-1]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    for j in range(k, num_directions + 1):  # all later points have already been evaluated too
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[j-1]
+                        if num_samples_run > 0:
+                            x = self.model.as_absolute_coordinates(xpts_added[j, :])
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                                  x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
-                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], self.nx)  # expect step, not absolute x
+                self.model.change_point(k, x - self.model.xbase, rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(k, rvec_extra=rvec_list[i, :])
         else:
@@ -376,22 +379,25 @@ class Controller(object):
 
                 # Evaluate objective
                 x = self.model.as_absolute_coordinates(new_point)
-                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params))
+                eval_obj_results.append(self.evaluate_objective(x, number_of_samples, params) + (self.nx,))
 
             for ndirns in range(num_directions):
                 new_point = xopt + dirns[ndirns, :]  # alway base move around best value so far
                 x = self.model.as_absolute_coordinates(new_point)
-                rvec_list, obj_list, num_samples_run, exit_info = eval_obj_results[ndirns]
+                rvec_list, obj_list, num_samples_run, exit_info, eval_num = eval_obj_results[ndirns]
                 # Handle exit conditions (f < min obj value or maxfun reached)
                 if exit_info is not None:
-                    if num_samples_run > 0:
-                        self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, self.nx,
-                                              x_in_abs_coords=True)
+                    for j in range(ndirns, num_directions):  # all later points have already been evaluated too
+                        rvec_list, obj_list, num_samples_run, _, eval_num = eval_obj_results[j]
+                        if num_samples_run > 0:
+                            x = self.model.as_absolute_coordinates(xopt + dirns[j, :])
+                            self.model.save_point(x, np.mean(rvec_list[:num_samples_run, :], axis=0), num_samples_run, eval_num,
+                                                  x_in_abs_coords=True)
                     return exit_info  # return & quit
 
                 # Otherwise, add new results (increments model.npt_so_far)
                 self.model.change_point(1 + ndirns, x - self.model.xbase,
-                                        rvec_list[0, :], self.nx)  # expect step, not absolute x
+                                        rvec_list[0, :], eval_num)  # expect step, not absolute x
                 for i in range(1, num_samples_run):
                     self.model.add_new_sample(1 + ndirns, rvec_extra=rvec_list[i, :])
         else:
-- 
2.43.0


From aebba88d1ced46544641c2a9dde1ab3786335db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:50 +0000
Subject: [PATCH 13/31] fix: swap_points swaps sample counts too

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index a5f6734..fce98ad 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -204,6 +204,7 @@ class Model(object):
         self.points[[k1, k2], :] = self.points[[k2, k1], :]
         self.fval_v[[k1, k2], :] = self.fval_v[[k2, k1], :]
         self.objval[[k1, k2]] = self.objval[[k2, k1]]
+        self.nsamples[[k1, k2]] = self.nsamples[[k2, k1]]
         self.eval_num[[k1, k2]] = self.eval_num[[k2, k1]]
         if self.kopt == k1:
             self.kopt = k2
-- 
2.43.0


From 941d7b6385880384901d7b789d487d8f95419ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 14/31] fix: add_new_sample and add_new_point invalidate the
 factorisation when they move the incumbent

---
 dfols/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfols/model.py b/dfols/model.py
index fce98ad..528296e 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -227,6 +227,7 @@ class Model(object):
         # Make sure kopt is always the best value we have (NaN counts as worse than anything, but argmin would choose it)
         objvals = self.objval[:self.npt()]
         self.kopt = np.argmin(np.where(np.isnan(objvals), np.inf, objvals))
+        self.factorisation_current = False  # interpolation matrix is based at xopt, which may have changed
         return
 
     def add_new_point(self, x, rvec, eval_num):
-- 
2.43.0


From c76f4c09f90606a149e06f57e25146b8b0984dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 15/31] fix: reduce_rho respects the rhoend rescaled at soft
 restarts and never goes below it

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 3612fd7..9bcb36c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -736,7 +736,7 @@ class Controller(object):
         elif ratio <= 250.0:
             new_rho = sqrt(ratio) * self.rhoend  # geometric average of rho and rhoend
         else:
-            new_rho = alpha1 * self.rho
+            new_rho = max(alpha1 * self.rho, self.rhoend)
 
         self.delta = max(alpha2 * self.rho, new_rho)  # self.rho = old rho
         self.rho = new_rho
@@ -876,6 +876,7 @@ class Controller(object):
                 module_logger.info("Soft restart: added %g new directions, npt is now %g" % (num_pts_to_add, self.model.npt()))
 
         # Otherwise, we are doing a restart
+        self.rhoend = params("restarts.rhoend_scale") * self.rhoend
         self.last_successful_iter = 0
         return None  # exit_info = None
 
-- 
2.43.0


From bb992699e599bae950a627180f75ebd2faaca62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 16/31] fix: keep delta finite and capped when the criticality
 ratio tau is tiny or not positive

---
 dfols/solver.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index f16aaf6..860336f 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -347,7 +347,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 # In some instances, gopt can have nan/inf values -- this ultimately calls a safety step and is generally fine
                 # but we need to set a value for tau nonetheless
                 tau = 1.0
-        
+            if not tau >= 1e-10:  # criticality measure can be zero or (because of rounding) negative
+                tau = 1e-10
+
         if do_logging:
             module_logger.debug("Trust region step is d = " + str(d))
         
@@ -645,9 +647,9 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                 diagnostic_info.update_slow_iter(-1)  # n/a, unless otherwise update
             if ratio < params("tr_radius.eta1"):  # ratio < 0.1
                 if finished_growing:
-                    control.delta = min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau
+                    control.delta = min(min(params("tr_radius.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)
                 else:
-                    control.delta = min(params("growing.gamma_dec") * control.delta, dnorm) / tau  # different gamma_dec
+                    control.delta = min(min(params("growing.gamma_dec") * control.delta, dnorm) / tau, 1.0e10)  # different gamma_dec
                 if params("logging.save_diagnostic_info"):
                     diagnostic_info.update_iter_type(ITER_ACCEPTABLE_NO_GEOM if ratio > 0.0
                                                      else ITER_UNSUCCESSFUL_NO_GEOM)  # we flag geom update below
-- 
2.43.0


From 7d54b869e85e518feb54df8dc426450955b9f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 17/31] fix: evaluate at exactly feasible points: clip to the
 true bounds after adding the base point and after unscaling

---
 dfols/controller.py |  4 ++--
 dfols/model.py      |  6 ++++--
 dfols/solver.py     |  2 +-
 dfols/util.py       | 10 +++++++---
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 9bcb36c..e976faf 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -505,7 +505,7 @@ class Controller(object):
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
                                 scaling_changes=self.scaling_changes, sfista_iters_scale=params("sfista.max_iters_scaling"))
         else:
-            proj = lambda x: pbox(x, self.model.xbase + self.model.sl, self.model.xbase + self.model.su)  # absolute coordinates
+            proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # absolute coordinates
             d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, np.zeros(H.shape), [proj], 1,
                                 self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol, 
                                 max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
@@ -552,7 +552,7 @@ class Controller(object):
             else:
                 # NOTE: alternative way if using trsbox
                 # d, gnew, crvmin = trsbox(self.model.xopt(), gopt, H, self.model.sl, self.model.su, self.delta)
-                proj = lambda x: pbox(x, self.model.xbase + self.model.sl, self.model.xbase + self.model.su)  # absolute coordinates
+                proj = lambda x: pbox(x, self.model.xl, self.model.xu)  # absolute coordinates
                 d, gnew, crvmin = ctrsbox_sfista(self.model.xopt(abs_coordinates=True), gopt, H, [proj], self.delta,
                                       self.h, self.lh, self.prox_uh, argsh = self.argsh, argsprox=self.argsprox, func_tol=func_tol,
                                       max_iters=params("func_tol.max_iters"), d_max_iters=params("dykstra.max_iters"), d_tol=params("dykstra.d_tol"),
diff --git a/dfols/model.py b/dfols/model.py
index 528296e..2e5e543 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -70,6 +70,8 @@ class Model(object):
         self.xbase = x0.copy()
         self.sl = xl - self.xbase  # lower bound w.r.t. xbase (require xpt >= sl)
         self.su = xu - self.xbase  # upper bound w.r.t. xbase (require xpt <= su)
+        self.xl = xl.copy()  # bounds in absolute coordinates (xbase + sl and xbase + su are only accurate to rounding error)
+        self.xu = xu.copy()
         self.projections = projections
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
@@ -141,7 +143,7 @@ class Model(object):
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
                 return dykstra(self.projections, self.xbase + self.points[k,:])
-            return self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)
+            return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)), self.xu)
 
     def rvec(self, k):
         assert 0 <= k < self.npt(), "Invalid index %g" % k
@@ -155,7 +157,7 @@ class Model(object):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
             return dykstra(self.projections, self.xbase + x)
-        return self.xbase + np.minimum(np.maximum(self.sl, x), self.su)
+        return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)
 
     def xpt_directions(self, include_kopt=True):
         if include_kopt:
diff --git a/dfols/solver.py b/dfols/solver.py
index 860336f..c9fe035 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1011,7 +1011,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
-        scaling_changes = (shift, scale)
+        scaling_changes = (shift, scale, xl.copy(), xu.copy())
 
     x0 = apply_scaling(x0, scaling_changes)
     xl = apply_scaling(xl, scaling_changes)
diff --git a/dfols/util.py b/dfols/util.py
index ad51e6c..1370ac2 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -212,15 +212,19 @@ def random_directions_within_bounds(num_pts, delta, lower, upper):
 def apply_scaling(x_raw, scaling_changes):
     if scaling_changes is None:
         return x_raw
-    shift, scale = scaling_changes
+    shift, scale = scaling_changes[:2]
     return (x_raw - shift) / scale
 
 
 def remove_scaling(x_scaled, scaling_changes):
     if scaling_changes is None:
         return x_scaled
-    shift, scale = scaling_changes
-    return shift + x_scaled * scale
+    shift, scale = scaling_changes[:2]
+    x_raw = shift + x_scaled * scale
+    if len(scaling_changes) > 2:  # also have the unscaled bounds, make sure rounding error does not break these
+        lower, upper = scaling_changes[2:]
+        x_raw = np.minimum(np.maximum(x_raw, lower), upper)
+    return x_raw
 
 
 def dykstra(P,x0,max_iter=100,tol=1e-10):
-- 
2.43.0


From f304fef564a8a4ff324878832f440b562d95251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 18/31] fix: model uses the user's Dykstra settings when
 projecting points, with at least one sweep

---
 dfols/controller.py | 3 ++-
 dfols/model.py      | 8 +++++---
 dfols/params.py     | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index e976faf..a223413 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -114,7 +114,8 @@ class Controller(object):
         self.argsprox = argsprox
         self.maxfun = maxfun
         self.model = Model(npt, x0, r0, xl, xu, projections, r0_nsamples, h=self.h, argsh = argsh, precondition=params("interpolation.precondition"),
-                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, x0_eval_num=x0_eval_num)
+                           abs_tol = params("model.abs_tol"), rel_tol = params("model.rel_tol"), do_logging=do_logging, scaling_changes=scaling_changes, x0_eval_num=x0_eval_num,
+                           dykstra_max_iters=params("dykstra.max_iters"), dykstra_tol=params("dykstra.d_tol"))
         self.nf = nf
         self.nx = nx
         self.rhobeg = rhobeg
diff --git a/dfols/model.py b/dfols/model.py
index 2e5e543..502d437 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -45,7 +45,7 @@ module_logger = logging.getLogger(__name__)
 
 class Model(object):
     def __init__(self, npt, x0, r0, xl, xu, projections, r0_nsamples, h=None, argsh=(), n=None, m=None, abs_tol=1e-12, rel_tol=1e-20, precondition=True,
-                 do_logging=True, scaling_changes=None, x0_eval_num=1):
+                 do_logging=True, scaling_changes=None, x0_eval_num=1, dykstra_max_iters=100, dykstra_tol=1e-10):
         if n is None:
             n = len(x0)
         if m is None:
@@ -73,6 +73,8 @@ class Model(object):
         self.xl = xl.copy()  # bounds in absolute coordinates (xbase + sl and xbase + su are only accurate to rounding error)
         self.xu = xu.copy()
         self.projections = projections
+        self.dykstra_max_iters = dykstra_max_iters
+        self.dykstra_tol = dykstra_tol
         self.points = np.zeros((npt, n))  # interpolation points w.r.t. xbase
 
         # Function values
@@ -142,7 +144,7 @@ class Model(object):
         else:
             # Apply bounds and convert back to absolute coordinates
             if self.projections:
-                return dykstra(self.projections, self.xbase + self.points[k,:])
+                return dykstra(self.projections, self.xbase + self.points[k,:], max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
             return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, self.points[k, :]), self.su)), self.xu)
 
     def rvec(self, k):
@@ -156,7 +158,7 @@ class Model(object):
     def as_absolute_coordinates(self, x, full_dykstra=False):
         # If x were an interpolation point, get the absolute coordinates of x
         if self.projections:
-            return dykstra(self.projections, self.xbase + x)
+            return dykstra(self.projections, self.xbase + x, max_iter=self.dykstra_max_iters, tol=self.dykstra_tol)
         return np.minimum(np.maximum(self.xl, self.xbase + np.minimum(np.maximum(self.sl, x), self.su)), self.xu)
 
     def xpt_directions(self, include_kopt=True):
diff --git a/dfols/params.py b/dfols/params.py
index 7fe9ac2..e1792cd 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -273,7 +273,7 @@ class ParameterList(object):
         elif key == "dykstra.d_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "dykstra.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "matrix_rank.r_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, None
         elif key == "func_tol.criticality_measure":
-- 
2.43.0


From 68f8a2494e600a8e4875f55b3f5aabf40e8a727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 19/31] fix: always start from the projection of x0 when using
 arbitrary constraints

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index c9fe035..4aed0e6 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1103,7 +1103,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         xp = dykstra(projections,x0,max_iter=params("dykstra.max_iters"),tol=params("dykstra.d_tol"))
         if not np.allclose(xp,x0):
             warnings.warn("x0 not feasible w.r.t given constraints, adjusting", RuntimeWarning)
-            x0 = xp.copy()
+        x0 = xp.copy()
 
     # Enforce lower & upper bounds on x0
     idx = (x0 < xl)
-- 
2.43.0


From b903005f2736f5ac0692604194362ec2f47a6b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 20/31] fix: regulariser part of stored objectives is evaluated
 at the point where the residuals were

---
 dfols/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dfols/model.py b/dfols/model.py
index 502d437..dbe46ef 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -195,7 +195,7 @@ class Model(object):
         self.fval_v[k, :] = rvec.copy()
         self.objval[k] = sumsq(rvec)
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.nsamples[k] = 1
         self.eval_num[k] = eval_num
         self.factorisation_current = False
@@ -225,7 +225,7 @@ class Model(object):
         # NOTE: how to sample when we have h? still at xpt(k), then add h(xpt(k)). Modify test if incorrect!
         self.objval[k] = sumsq(self.fval_v[k, :])
         if self.h is not None:
-            self.objval[k] += self.h(remove_scaling(self.xbase + self.points[k, :], self.scaling_changes), *self.argsh)
+            self.objval[k] += self.h(remove_scaling(self.as_absolute_coordinates(self.points[k, :]), self.scaling_changes), *self.argsh)
         self.nsamples[k] += 1
 
         # Make sure kopt is always the best value we have (NaN counts as worse than anything, but argmin would choose it)
@@ -239,7 +239,7 @@ class Model(object):
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
         if self.h is not None:
-            obj += self.h(remove_scaling(self.xbase + x, self.scaling_changes), *self.argsh)
+            obj += self.h(remove_scaling(self.as_absolute_coordinates(x), self.scaling_changes), *self.argsh)
         self.objval = np.append(self.objval, obj)  # append entry to fval
         self.nsamples = np.append(self.nsamples, 1)  # add new sample number
         self.eval_num = np.append(self.eval_num, eval_num)  # add new evaluation number
-- 
2.43.0


From b40db8bee6f7b94891c0d177701dd4041c29b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 21/31] fix: soft restarts while still growing use valid point
 indices

---
 dfols/controller.py | 4 ++--
 dfols/model.py      | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index a223413..974a9b1 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -838,7 +838,7 @@ class Controller(object):
             closest_points = closest_points[1:params("restarts.soft.num_geom_steps")+1]
             upper_limit = self.model.num_pts - 1
 
-        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit)):
+        for i in range(min(params("restarts.soft.num_geom_steps"), upper_limit, len(closest_points))):
             # Determine which point to update (knew)
             knew = closest_points[i]
 
@@ -849,7 +849,7 @@ class Controller(object):
                 return exit_info
 
         # Now increase npt, if required
-        if params("restarts.increase_npt") and self.model.npt() < params("restarts.max_npt"):
+        if params("restarts.increase_npt") and params("restarts.increase_npt_amt") > 0 and self.model.npt() < params("restarts.max_npt"):
             num_pts_to_add = min(params("restarts.increase_npt_amt"), params("restarts.max_npt") - self.model.npt())
             # First n points will be random orthogonal directions; the rest will be purely random directions
             # sl <= xopt + dirn <= su   -or equivalently-   sl-xopt <= dirn <= su-xopt
diff --git a/dfols/model.py b/dfols/model.py
index dbe46ef..94af015 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -235,6 +235,9 @@ class Model(object):
         return
 
     def add_new_point(self, x, rvec, eval_num):
+        if self.npt_so_far < self.num_pts:  # still growing, so just fill the next free slot
+            self.change_point(self.npt_so_far, x, rvec, eval_num)
+            return
         self.points = np.append(self.points, x.reshape((1, self.n())), axis=0)  # append row to xpt
         self.fval_v = np.append(self.fval_v, rvec.reshape((1, self.m())), axis=0)  # append row to fval_v
         obj = sumsq(rvec)
-- 
2.43.0


From 15e22459b869cec451291b04885fcf9460737a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 22/31] fix: do not orthogonalise new growing directions
 against a set already spanning the space

---
 dfols/controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 974a9b1..0d0953e 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -435,7 +435,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Y.shape[1] < self.n() else 0):  # if already spanning, nothing orthogonal is left
             qk = Q[:, k]
             for j in range(dirns.shape[0]):
                 dirns[j, :] = dirns[j, :] - np.dot(dirns[j, :], qk) * qk
@@ -479,7 +479,7 @@ class Controller(object):
         # Make direction orthogonal
         Y = self.model.xpt_directions(include_kopt=False).T  # columns are the current set of directions
         Q, R = LA.qr(Y, mode='economic')  # columns of Q are orthonormal basis for current set of directions
-        for k in range(Q.shape[1]):
+        for k in range(Q.shape[1] if Y.shape[1] < self.n() else 0):  # if already spanning, nothing orthogonal is left
             qk = Q[:, k]
             dirn = dirn - np.dot(dirn, qk) * qk
 
-- 
2.43.0


From 3bd4c66448286122cc2c2072557587a42e4a54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:52 +0000
Subject: [PATCH 23/31] fix: initial directions for arbitrary constraints do
 not depend on the global random state, and failure to find them is reported,
 not raised

---
 dfols/controller.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 0d0953e..3261461 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -182,13 +182,15 @@ class Controller(object):
                     if D_rank2 <= D_rank:
                         # Did not improve rank, revert change
                         D[k,:] = dk
-                    # rank was improved, update D_rank for next comparison
-                    D_rank = D_rank2
+                    else:
+                        # rank was improved, update D_rank for next comparison
+                        D_rank = D_rank2
                 k += 1
 
             # Try random combination of negatives...
             k = 0
-            slctr = np.random.randint(0, 1+1, self.n()) # generate rand binary "selector" array
+            rng = np.random.RandomState(0)  # local generator, so results are reproducible
+            slctr = rng.randint(0, 1+1, self.n()) # generate rand binary "selector" array
             D_rank, diag = qr_rank(D,tol=params("matrix_rank.r_tol"))
             while D_rank != num_directions and k < 100*self.n():
                 if slctr[k%self.n()] == 1: # if selector says make -ve, make -ve
@@ -202,11 +204,12 @@ class Controller(object):
                     if D_rank2 <= D_rank:
                         # Did not improve rank, revert change
                         D[k%self.n(),:] = dk
-                    # rank was improved, update D_rank for next comparison
-                    D_rank = D_rank2
+                    else:
+                        # rank was improved, update D_rank for next comparison
+                        D_rank = D_rank2
 
                 # Go again
-                slctr = np.random.randint(0, 1+1, self.n())
+                slctr = rng.randint(0, 1+1, self.n())
                 k += 1
 
             # Set still not L.I? Try random directions
@@ -216,7 +219,7 @@ class Controller(object):
                 k = 0
                 while k < self.n():
                     if diag[k] < mr_tol:
-                        p = np.random.normal(size=self.n())
+                        p = rng.normal(size=self.n())
                         p = p/np.linalg.norm(p)
                         p = np.dot(p,min(1,self.delta))
                         yk = dykstra(self.model.projections, self.model.xbase + p, max_iter=params("dykstra.max_iters"), tol=params("dykstra.d_tol"))
@@ -226,13 +229,14 @@ class Controller(object):
                         if D_rank2 <= D_rank:
                             # Did not improve rank, revert change
                             D[k,:] = dk
-                        # rank was improved, update D_rank for next comparison
-                        D_rank = D_rank2
+                        else:
+                            # rank was improved, update D_rank for next comparison
+                            D_rank = D_rank2
                     k += 1
                 i += 1
 
             if D_rank != num_directions:
-                raise RuntimeError("Unable to generate suitable initial directions")
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
 
             # we have a L.I set of interpolation points
             for k in range(0,self.n()):
-- 
2.43.0


From d1790969714ee689acafb00aa2c78e27eba4c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 24/31] fix: extra random directions for active constraints are
 no longer than requested

---
 dfols/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/util.py b/dfols/util.py
index 1370ac2..6ddbd42 100644
--- a/dfols/util.py
+++ b/dfols/util.py
@@ -150,7 +150,7 @@ def random_orthog_directions_within_bounds(num_pts, delta, lower, upper, with_ne
             idx = idx_active[i]
             sign = 1.0 if idx_l[idx] else -1.0  # desired sign of direction shift
             if upper[idx] - lower[idx] > delta:
-                results[idx, n+ninactive+i] = 2.0 * sign * delta
+                results[idx, n+ninactive+i] = 0.5 * sign * delta  # different length to step 2 above
             else:
                 results[idx, n + ninactive + i] = 0.5 * sign * (upper[idx] - lower[idx])
                 # To get correct scaling, don't use delta any more (too big), use the scaling as given by upper-lower
-- 
2.43.0


From 78e7208dc4fbbfd26d1bcc38dcfd1803de146513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:56 +0000
Subject: [PATCH 25/31] fix: survive overflow of the model Hessian norm

---
 dfols/controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfols/controller.py b/dfols/controller.py
index 3261461..6454635 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -526,7 +526,8 @@ class Controller(object):
         # Build func_tol for trust region step
         # QUESTION: c1 = min{1, 1/delta_max^2}, but choose c1=1here; choose maxhessian = max(||H||_2,1)
         # QUESTION: when criticality_measure = 0? choose max(criticality_measure,1)
-        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(np.linalg.norm(H, 2),1))
+        norm_H = np.linalg.norm(H, 2) if np.all(np.isfinite(H)) else np.inf
+        func_tol = (1-params("func_tol.tr_step")) * 1 * max(criticality_measure,1) * min(self.delta, max(criticality_measure,1) / max(norm_H,1))
 
         if self.h is None:
             if self.model.projections:
-- 
2.43.0


From 0f80a25b88c48156cd11683975859a3660e61e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 26/31] fix: report inconsistent scaling bounds, oversized npt
 and degenerate parameter values as input errors

---
 dfols/params.py |  4 ++--
 dfols/solver.py | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dfols/params.py b/dfols/params.py
index e1792cd..b853d28 100644
--- a/dfols/params.py
+++ b/dfols/params.py
@@ -187,7 +187,7 @@ class ParameterList(object):
         elif key == "model.rel_tol":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "slow.history_for_slow":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "slow.thresh_for_slow":
             type_str, nonetype_ok, lower, upper = 'float', False, 0, None
         elif key == "slow.max_slow_iters":
@@ -281,7 +281,7 @@ class ParameterList(object):
         elif key == "func_tol.tr_step":
             type_str, nonetype_ok, lower, upper = 'float', False, 0.0, 1.0
         elif key == "func_tol.max_iters":
-            type_str, nonetype_ok, lower, upper = 'int', False, 0, None
+            type_str, nonetype_ok, lower, upper = 'int', False, 1, None
         elif key == "sfista.max_iters_scaling":
             type_str, nonetype_ok, lower, upper = 'float', False, 1.0, None
         else:
diff --git a/dfols/solver.py b/dfols/solver.py
index 4aed0e6..c7c2070 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1008,6 +1008,8 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
         ('growing.full_rank.use_full_rank_interp' in user_params or 'growing.perturb_trust_region_step' in user_params)
 
     scaling_changes = None
+    if scaling_within_bounds and (np.shape(xl) != np.shape(x0) or np.shape(xu) != np.shape(x0) or not np.min(xu - xl) > 0.0):
+        scaling_within_bounds = False  # invalid bounds, will be reported below
     if scaling_within_bounds:
         shift = xl.copy()
         scale = xu - xl
@@ -1054,6 +1056,9 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and np.min(xu - xl) < 2.0 * rhobeg:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "gap between lower and upper must be at least 2*rhobeg")
 
+    if exit_info is None and npt > (n + 1) * (n + 2) // 2 and not params("init.random_initial_directions"):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "npt must be <= (n+1)(n+2)/2 for coordinate initial directions")
+
     if maxfun <= npt:
         warnings.warn("maxfun <= npt: Are you sure your budget is large enough?", RuntimeWarning)
 
@@ -1063,6 +1068,17 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
     if exit_info is None and not all_ok:
         exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s" % str(bad_keys))
 
+    for key in ["growing.delta_scale_new_dirns", "restarts.rhoend_scale", "func_tol.criticality_measure"]:
+        if exit_info is None and params(key) <= 0.0:
+            exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: %s must be strictly positive" % key)
+
+    if exit_info is None and params("func_tol.tr_step") >= 1.0:
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "Bad parameters: func_tol.tr_step must be strictly less than 1")
+
+    if exit_info is None and params("restarts.increase_npt") and not params("restarts.use_soft_restarts") and \
+            params("restarts.max_npt") > (n + 1) * (n + 2) // 2 and not params("init.random_initial_directions"):
+        exit_info = ExitInformation(EXIT_INPUT_ERROR, "restarts.max_npt must be <= (n+1)(n+2)/2 for coordinate initial directions")
+
     if exit_info is None and params("growing.safety.full_geom_step"):
         if params("growing.safety.reduce_delta"):
             exit_info = ExitInformation(EXIT_INPUT_ERROR,
-- 
2.43.0


From a8129e0cd976301c4d7b864949661d0e9183d423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 27/31] fix: results with diagnostic tables, saved iterates or
 a NaN objective survive a JSON round trip

---
 dfols/solver.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index c7c2070..90b0b08 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -120,7 +120,14 @@ class OptimResults(object):
         soln_dict['nruns'] = int(self.nruns)
         soln_dict['flag'] = int(self.flag)
         soln_dict['msg'] = str(self.msg)
-        soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict() if self.diagnostic_info is not None else None
+        if self.diagnostic_info is not None:
+            # One list per column (JSON would turn integer row labels into strings); xk and rk entries are vectors
+            soln_dict['diagnostic_info'] = self.diagnostic_info.to_dict(orient='list')
+            for key in ('xk', 'rk'):
+                if key in soln_dict['diagnostic_info']:
+                    soln_dict['diagnostic_info'][key] = [v.tolist() for v in soln_dict['diagnostic_info'][key]]
+        else:
+            soln_dict['diagnostic_info'] = None
         soln_dict['xmin_eval_num'] = int(self.xmin_eval_num)
         soln_dict['jacmin_eval_nums'] = self.jacmin_eval_nums.tolist() if self.jacmin_eval_nums is not None else None
         if replace_nan:
@@ -135,7 +142,7 @@ class OptimResults(object):
         # Note: np.array(mylist, dtype=float) automatically converts None to NaN
         x = np.array(soln_dict['x'], dtype=float) if soln_dict['x'] is not None else None
         resid = np.array(soln_dict['resid'], dtype=float) if soln_dict['resid'] is not None else None
-        obj = soln_dict['obj']
+        obj = soln_dict['obj'] if soln_dict['obj'] is not None else np.nan
         jacobian = np.array(soln_dict['jacobian'], dtype=float) if soln_dict['jacobian'] is not None else None
         nf = soln_dict['nf']
         nx = soln_dict['nx']
@@ -148,7 +155,13 @@ class OptimResults(object):
         soln = OptimResults(x, resid, obj, jacobian, nf, nx, nruns, flag, msg, xmin_eval_num, jacmin_eval_nums)
         
         if soln_dict['diagnostic_info'] is not None:
-            soln.diagnostic_info = pd.DataFrame.from_dict(soln_dict['diagnostic_info'])
+            table = dict(soln_dict['diagnostic_info'])
+            for key in table:
+                if key in ('xk', 'rk'):
+                    table[key] = [np.array(v, dtype=float) for v in table[key]]
+                elif key != 'iter_type' and len(table[key]) > 0 and all(v is None for v in table[key]):
+                    table[key] = np.full(len(table[key]), np.nan)  # no other entry tells pandas this column is numeric
+            soln.diagnostic_info = pd.DataFrame.from_dict(table)
         return soln
 
 
-- 
2.43.0


From 8af6bef5bab42b44266a59c0fa5817884ffb872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 28/31] fix: diagnostic information does not raise on
 overflowing model gradients

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index 90b0b08..a8eb470 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -377,7 +377,7 @@ def solve_main(objfun, x0, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxf
                                                    save_poisedness=params("logging.save_poisedness"))
             # norm_J_error is square of Frobenius norm of chgJ
             diagnostic_info.update_interpolation_information(interp_error, ls_interp_cond_num, linalg_resid,
-                                                             sqrt(norm_J_error), LA.norm(gopt), LA.norm(d))
+                                                             sqrt(norm_J_error), np.linalg.norm(gopt), np.linalg.norm(d))
 
         if dnorm < tau * params("general.safety_step_thresh") * control.rho and not finished_growing and params("growing.safety.do_safety_step"):
             if do_logging:
-- 
2.43.0


From 553a8a3e14eefe363d3df302730117359d7f88c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:02 +0000
Subject: [PATCH 29/31] fix: fail fast when the initial set for arbitrary
 constraints cannot have the requested size

---
 dfols/controller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/controller.py b/dfols/controller.py
index 6454635..b963f0c 100644
--- a/dfols/controller.py
+++ b/dfols/controller.py
@@ -155,6 +155,8 @@ class Controller(object):
 
 
         if self.model.projections:
+            if num_directions != self.n():  # the set built below always has n directions
+                return ExitInformation(EXIT_LINALG_ERROR, "Unable to generate suitable initial directions")
             D = np.zeros((self.n(),self.n()))
             k = 0
             while k < self.n():
-- 
2.43.0


From 7995aa0e06382df68ad9c3c1b0ccb587b75e012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 30/31] fix: no division by zero when all interpolation points
 coincide

---
 dfols/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dfols/model.py b/dfols/model.py
index 94af015..7d7144f 100644
--- a/dfols/model.py
+++ b/dfols/model.py
@@ -307,6 +307,8 @@ class Model(object):
         W = np.zeros((self.npt(), self.n()+1))
         if self.precondition:
             approx_delta = sqrt(np.max(self.distances_to_xopt()))  # largest distance to xopt ~ delta
+            if approx_delta == 0.0:  # all points coincide (system is singular)
+                approx_delta = 1.0
         else:
             approx_delta = 1.0
 
-- 
2.43.0


From 215861de4d23608d39de5d1262257a8afeec914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 31/31] fix: a hard restart that again finds only NaN is not a
 successful run

---
 dfols/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dfols/solver.py b/dfols/solver.py
index a8eb470..1768e70 100644
--- a/dfols/solver.py
+++ b/dfols/solver.py
@@ -1178,7 +1178,7 @@ def solve(objfun, x0, h=None, lh=None, prox_uh=None, argsf=(), argsh=(), argspro
                 solve_main(objfun, xmin, argsf, xl, xu, projections, npt, rhobeg, rhoend, maxfun, nruns, nf, nx, nsamples, params,
                            diagnostic_info, scaling_changes, h, lh, argsh, prox_uh, argsprox, do_logging=do_logging, print_progress=print_progress)
 
-        if objmin2 < objmin or np.isnan(objmin):
+        if objmin2 < objmin or (np.isnan(objmin) and not np.isnan(objmin2)):
             if do_logging:
                 module_logger.info("Successful run with new f = %s compared to old f = %s" % (objmin2, objmin))
             last_successful_run = nruns
-- 
2.43.0

