From a73351db0424599e0883a901bff50cbff94712d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 01/31] fix: derivative of the volume contribution with respect
 to tau

1/mu_ex was written as 1/mu_ex**(-1), i.e. mu_ex.
---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..cbe1f72 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1156,7 +1156,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From 26f893de32f8923e006a61cf405ad2046e63be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 02/31] fix: normalize the sigma0 jacobian by the incident
 intensity

calc() returns 4 pi mu_0 I / I0, but the jacobian omitted the division by I0.
---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index cbe1f72..f89b877 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1540,7 +1540,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From 08b8b1277c37099a816d734809a003b5ae4e2381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 03/31] fix: do not inject parameter symbols into the module
 namespace

sp.var() overwrites module globals, so a parameter named e.g. 'np' or 'expi'
broke every model in the process.
---
 src/rt1_model/_calc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f89b877..aea13e2 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -856,7 +856,9 @@ class RT1(object):
             tic = timeit.default_timer()
 
             # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
+            # (use sp.symbols since sp.var would inject the symbols into the global
+            # namespace of this module and overwrite names such as "np" or "sp")
+            variables = sp.symbols(
                 ("theta_0", "phi_0", "theta_ex", "phi_ex")
                 + tuple(map(str, self.param_dict.keys()))
             )
-- 
2.43.0


From 4c7a323816ea9aedc6f9665dd1716f78764f263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 04/31] fix: re-compile cached functions if new parameters are
 added

The compiled fn-coefficients and distribution derivatives are called with all
current parameters but kept the signature of the parameters known at the first
evaluation. Naming a new parameter afterwards made every evaluation fail.
---
 src/rt1_model/_calc.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index aea13e2..d918de0 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -845,8 +845,10 @@ class RT1(object):
     @property
     def _fnevals(self):
         fnevals = getattr(self, "_fnevals_", None)
-        if fnevals is not None:
-            return fnevals
+        # the functions are called with all values of the param_dict, so they must be
+        # re-compiled in case new parameters have been added in the meantime
+        if fnevals is not None and fnevals[0] == tuple(self.param_dict):
+            return fnevals[1]
         elif self.fnevals_input is not None:
             _log.debug("Using provided fnevals-functions.")
             return self.fnevals_input
@@ -863,8 +865,11 @@ class RT1(object):
                 + tuple(map(str, self.param_dict.keys()))
             )
 
-            self._fnevals_ = _lambdify(variables, self._fn)
-            return self._fnevals_
+            self._fnevals_ = (
+                tuple(self.param_dict),
+                _lambdify(variables, self._fn),
+            )
+            return self._fnevals_[1]
 
             toc = timeit.default_timer()
             _log.debug(
@@ -1387,14 +1392,14 @@ class RT1(object):
                 * self._mu_0
                 / (self._mu_0 + self._mu_ex)
                 * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
+                * self._d_volume_dummy_lambda(key, *self.param_dict)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
             return (1.0 - self.bsf) * dIvol
 
     @lru_cache()
-    def _d_volume_dummy_lambda(self, key):
+    def _d_volume_dummy_lambda(self, key, *param_names):
         """
         Get a function to compute direct volume-contribution parameter derivatives.
 
@@ -1405,6 +1410,8 @@ class RT1(object):
         ----------
         key : str
             the parameter to use.
+        param_names : str
+            the names of the parameters the function is called with.
 
         Returns
         -------
@@ -1417,7 +1424,7 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
         return _lambdify(
             args,
@@ -1455,7 +1462,7 @@ class RT1(object):
             dI_bs = (
                 self.I0
                 * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
+                * self._d_surface_dummy_lambda(key, *self.param_dict)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
@@ -1465,7 +1472,7 @@ class RT1(object):
             return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
 
     @lru_cache()
-    def _d_surface_dummy_lambda(self, key):
+    def _d_surface_dummy_lambda(self, key, *param_names):
         """
         Get a function to compute direct surface-contribution parameter derivatives.
 
@@ -1476,6 +1483,8 @@ class RT1(object):
         ----------
         key : str
             the parameter to use.
+        param_names : str
+            the names of the parameters the function is called with.
 
         Returns
         -------
@@ -1488,7 +1497,7 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
         return _lambdify(
             args,
-- 
2.43.0


From 7d30750919f5dc7bb2bd5f5656f7551dc2ddf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 05/31] fix: use the exit azimuth of the bistatic geometry in
 the interaction term

The BRDF in the fn-coefficients was always evaluated at p_ex + pi, which is only
correct for the monostatic angle symbols (where p_ex was represented by p_0).
---
 src/rt1_model/_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index d918de0..af91b0b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -956,7 +956,7 @@ class RT1(object):
         angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
+            theta_s, angs[1], phi_s, angs[3]
         ).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
-- 
2.43.0


From add260b5f66e2864cc386dca2286672d66e495a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 06/31] fix: interaction term of bistatic geometries with fixed
 angles

---
 src/rt1_model/_calc.py | 50 +++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index af91b0b..75922fc 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -338,6 +338,8 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fn_swapped_ = None
+        self._fnevals_swapped_ = None
 
         if p_0 is not None:
             assert isinstance(
@@ -372,6 +374,8 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fn_swapped_ = None
+        self._fnevals_swapped_ = None
 
         angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
@@ -879,6 +883,28 @@ class RT1(object):
         else:
             return None
 
+    @property
+    def _fnevals_swapped(self):
+        # fn-coefficients for interchanged incidence- and exit-directions
+        # (to be called with the actual angles, e.g. without interchanging them!)
+        fnevals = self._fnevals_swapped_
+        if fnevals is None or fnevals[0] != tuple(self.param_dict):
+            if self._fn_swapped_ is None:
+                t_0, t_ex, p_0, p_ex = self._geom_ang_symbs
+                self._fn_swapped_ = self._extract_coefficients(
+                    self._calc_interaction_expansion([t_ex, t_0, p_ex, p_0])
+                )
+
+            variables = sp.symbols(
+                ("theta_0", "phi_0", "theta_ex", "phi_ex") + tuple(self.param_dict)
+            )
+            fnevals = (
+                tuple(self.param_dict),
+                _lambdify(variables, self._fn_swapped_),
+            )
+            self._fnevals_swapped_ = fnevals
+        return fnevals[1]
+
     def _extract_coefficients(self, expr):
         """
         Extract Fn coefficients from given forumula.
@@ -923,7 +949,7 @@ class RT1(object):
 
         return fn
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, angs=None):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -953,7 +979,8 @@ class RT1(object):
         theta_s = sp.Symbol("theta_s")
         phi_s = sp.Symbol("phi_s")
 
-        angs = self._geom_ang_symbs
+        if angs is None:
+            angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
             theta_s, angs[1], phi_s, angs[3]
@@ -1133,15 +1160,18 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_ex,
-            self.p_ex,
-            self.t_0,
-            self.p_0,
-            *self.param_dict.values(),
-        )
+        if not self._monostatic and self._fixed_angles:
+            # fixed angles are already inserted in the fn-coefficients so it is not
+            # possible to interchange the directions by interchanging the arguments
+            fnevals = self._fnevals_swapped
+            angs = (self.t_0, self.p_0, self.t_ex, self.p_ex)
+        else:
+            fnevals = self._fnevals
+            angs = (self.t_ex, self.p_ex, self.t_0, self.p_0)
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        args = np.broadcast_arrays(*angs, *self.param_dict.values())
+
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From 87675d13e8aeb446b208afceac78935439dbe4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 07/31] fix: broadcasting of angles and parameters in the
 interaction term

---
 src/rt1_model/_calc.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 75922fc..d0033c4 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -554,11 +554,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
@@ -1143,8 +1145,9 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # (sum up explicitly to properly broadcast angles and parameters)
+        S2 = self._S2_mu(self._mu_0, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_0_x, S2))
         return S
 
     def _calc_Fint_2(self):
@@ -1173,8 +1176,9 @@ class RT1(object):
 
         fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # (sum up explicitly to properly broadcast angles and parameters)
+        S2 = self._S2_mu(self._mu_ex, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_ex_x, S2))
         return S
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
-- 
2.43.0


From 1e13cb1dde6b2c3c96e07d5d67afa3cd88f23ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 08/31] fix: interaction term for nadir, grazing angles and
 tau=0

---
 src/rt1_model/_calc.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index d0033c4..763783c 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -534,23 +534,8 @@ class RT1(object):
             else:
                 Isurf = self._surface()
                 Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
                 if self.int_Q is True:
                     Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
@@ -1102,11 +1087,20 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+        x = tau * (1.0 - mu) / mu
+
+        # (the limits for nadir, grazing angles and tau=0 are evaluated separately)
+        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
+            hlp1 = (
+                np.exp(-tau / mu) * (np.log(mu / (1.0 - mu)) + expi(x)) - expi(-tau)
+            )
+            hlp1_nadir = np.exp(-tau) * (np.log(tau) + np.euler_gamma) - expi(-tau)
+            # asymptotic series of exp(-x) * expi(x)
+            hlp1_grazing = np.exp(-tau) / x * (1.0 + 1.0 / x + 2.0 / x**2) - expi(-tau)
+
+        hlp1 = np.where(mu == 1.0, hlp1_nadir, hlp1)
+        hlp1 = np.where(x > 600.0, hlp1_grazing, hlp1)
+        hlp1 = np.where(tau == 0.0, 0.0, hlp1)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From dcd5cc24566a029f6319d602e62bd4b65952a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 09/31] fix: pickling or copying a model must not change the
 model

---
 src/rt1_model/_calc.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 763783c..3b61add 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -128,14 +128,16 @@ class RT1(object):
         # this is required since functions created by
         # symengine are currently not pickleable!
         _log.warning("Dropping fn-coefficients to allow pickling...")
+        # (use a copy to make sure that the pickled object remains unchanged)
+        state = self.__dict__.copy()
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -143,11 +145,15 @@ class RT1(object):
                 + "generated by symengine will be platform-dependent!"
             )
 
-        # drop plot-functions (they are not pickleable and re-attached on unpickle)
-        for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
+        return state
 
-        return self.__dict__
+    def __copy__(self):
+        # make sure that the copy does not share mutable attributes with the original
+        new = type(self).__new__(type(self))
+        new.__dict__.update(self.__dict__)
+        new._param_dict = self._param_dict.copy()
+        new._fixed_angles = self._fixed_angles.copy()
+        return new
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From d88eb39c75aa09f999e513a8f28606f58abefadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 10/31] fix: rejected geometry specifications must not change
 the model

---
 src/rt1_model/_calc.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 3b61add..107695d 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -338,6 +338,11 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        if p_0 is not None:
+            assert isinstance(
+                p_0, (int, float, np.number)
+            ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -348,9 +353,6 @@ class RT1(object):
         self._fnevals_swapped_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -373,6 +375,12 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+        for ang in angs:
+            assert ang is None or isinstance(
+                ang, (int, float, np.number)
+            ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -383,7 +391,6 @@ class RT1(object):
         self._fn_swapped_ = None
         self._fnevals_swapped_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -395,9 +402,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
@@ -449,10 +453,16 @@ class RT1(object):
                 "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
             )
 
+        # check all values before setting any of them
+        values = {
+            key: self._sanitize_geometry_parameter(key, val)
+            for key, val in kwargs.items()
+        }
+
         self._clear_geom_cache()
 
-        for key, val in kwargs.items():
-            setattr(self, f"_{key}", self._sanitize_geometry_parameter(key, val))
+        for key, val in values.items():
+            setattr(self, f"_{key}", val)
 
     def update_params(self, **kwargs):
         """
-- 
2.43.0


From 47699e7408355ab79262df7fab4df0d4b8d0c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 11/31] fix: do not share provided arrays with the model

---
 src/rt1_model/_calc.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 107695d..eec5237 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -33,6 +33,11 @@ if get_lambda_backend() == "symengine":
     from symengine import expand as seng_expand
 
 
+def _copy_array(value):
+    # get a copy of provided arrays (to be independent of the provided object)
+    return value.copy() if isinstance(value, np.ndarray) else value
+
+
 class RT1(object):
     """
     Main class to perform RT-simulations.
@@ -233,7 +238,7 @@ class RT1(object):
     @NormBRDF.setter
     def NormBRDF(self, value):
         self._clear_param_cache()
-        self._NormBRDF = value
+        self._NormBRDF = _copy_array(value)
 
     @property
     def tau(self):
@@ -243,7 +248,7 @@ class RT1(object):
     @tau.setter
     def tau(self, value):
         self._clear_param_cache()
-        self._tau = value
+        self._tau = _copy_array(value)
 
     @property
     def omega(self):
@@ -253,7 +258,7 @@ class RT1(object):
     @omega.setter
     def omega(self, value):
         self._clear_param_cache()
-        self._omega = value
+        self._omega = _copy_array(value)
 
     @property
     def bsf(self):
@@ -263,7 +268,7 @@ class RT1(object):
     @bsf.setter
     def bsf(self, value):
         self._clear_param_cache()
-        self._bsf = value
+        self._bsf = _copy_array(value)
 
     @property
     def t_0(self):
@@ -412,7 +417,8 @@ class RT1(object):
     def _sanitize_geometry_parameter(self, name, value):
         assert name not in self._fixed_angles, "The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
-        return np.atleast_1d(value)
+        # (always use a copy to be independent of the provided array)
+        return np.array(value, ndmin=1, subok=True)
 
     def set_geometry(self, **kwargs):
         """
@@ -501,7 +507,10 @@ class RT1(object):
         ):
             kwargs.setdefault("bsf", 0)
 
-        self.param_dict.update({key: np.atleast_1d(val) for key, val in kwargs.items()})
+        # (always use copies to be independent of the provided arrays)
+        self.param_dict.update(
+            {key: np.array(val, ndmin=1, subok=True) for key, val in kwargs.items()}
+        )
 
     def calc(self, **params):
         """
-- 
2.43.0


From fbf718eb8b3298e171bb931c8a90d687a113f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 12/31] fix: re-evaluate coefficients if the scattering
 distributions are replaced

---
 src/rt1_model/_calc.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index eec5237..56eea10 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -182,6 +182,16 @@ class RT1(object):
         # clear chaced functions & properties that might change if geometry is set
         self._clear_cache("_mu_0", "_mu_0_x", "_mu_ex", "_mu_ex_x")
 
+    def _clear_distribution_cache(self):
+        # clear everything that depends on the used scattering distributions
+        self._fn_ = None
+        self._fnevals_ = None
+        self._fn_swapped_ = None
+        self._fnevals_swapped_ = None
+        self._clear_cache(
+            "_mu_0_x", "_mu_ex_x", "_d_volume_dummy_lambda", "_d_surface_dummy_lambda"
+        )
+
     def _cache_info(self):
         text = []
 
@@ -230,6 +240,26 @@ class RT1(object):
         """
         return self._param_dict
 
+    @property
+    def V(self):
+        """The volume-scattering phase function."""
+        return self._V
+
+    @V.setter
+    def V(self, value):
+        self._V = value
+        self._clear_distribution_cache()
+
+    @property
+    def SRF(self):
+        """The surface-scattering phase function (BRDF)."""
+        return self._SRF
+
+    @SRF.setter
+    def SRF(self, value):
+        self._SRF = value
+        self._clear_distribution_cache()
+
     @property
     def NormBRDF(self):
         """Normalization factor for the surface BRDF."""
-- 
2.43.0


From a61cbeec462e67fc11c1a1f8038bd3a2781d30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 13/31] fix: do not attach several log handlers if used from
 several threads

---
 src/rt1_model/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..7a9ca2d 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -3,6 +3,7 @@
 # (see https://github.com/matplotlib/matplotlib/blob/main/lib/matplotlib/__init__.py)
 
 import logging as _logging
+import threading as _threading
 from functools import lru_cache
 
 _log = _logging.getLogger(__name__)
@@ -66,7 +67,9 @@ __all__ = [
 ]
 
 
-@lru_cache()
+_handler_lock = _threading.Lock()
+
+
 def _ensure_handler():
     """
     Attach a StreamHandler to the logger the first time this function is executed.
@@ -77,6 +80,13 @@ def _ensure_handler():
     Return this handler every time this function is called.
 
     """
+    # (make sure that simultaneous calls from different threads use the same handler)
+    with _handler_lock:
+        return _get_handler()
+
+
+@lru_cache()
+def _get_handler():
     handler = _logging.StreamHandler()
     handler.setFormatter(_logging.Formatter(_logging.BASIC_FORMAT))
     _log.addHandler(handler)
-- 
2.43.0


From 7f5cffe8f975c3e71af4f6dd0da163efafeb13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 14/31] fix: default start-value and name of analyzer sliders

---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..2aca1ca 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmin"] + p["valmax"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 412dd6e456389a7dd99ceea13167889ca39cedd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 15/31] fix: analyzers must not change the analyzed model

---
 src/rt1_model/plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 2aca1ca..f072743 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -1,6 +1,7 @@
 """Class for quick visualization of results and used phasefunctions."""
 
 from itertools import cycle
+from copy import copy
 from contextlib import contextmanager
 
 import numpy as np
@@ -458,7 +459,8 @@ class Analyze:
         self._t0 = np.linspace(10, 80, 100)
         self._range_parameter = range_parameter
 
-        self.R = R
+        # use a copy to be independent of the provided model (and other analyzers)
+        self.R = copy(R)
 
         if self.R._monostatic is False:
             _log.warning("The analyze-plot shows results for monostatic geometry!")
@@ -669,7 +671,8 @@ class Analyze3D:
 
         """
 
-        self.R = R
+        # use a copy to be independent of the provided model (and other analyzers)
+        self.R = copy(R)
 
         if self.R.dB is True:
             import warnings
-- 
2.43.0


From 00d3dc3254522cdaf70369c376507dbd7fdc316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 16/31] fix: jacobian of symbols that are used in several
 definitions

---
 src/rt1_model/_calc.py | 114 +++++++++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 45 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 56eea10..a256b28 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1435,6 +1435,15 @@ class RT1(object):
 
         return _lambdify(args, diff)
 
+    def _eval_dparam_ddummy(self, param, key):
+        if getattr(self, f"_{param}") == key:
+            # the parameter is directly specified by the symbol
+            return 1.0
+
+        return self._dparam_ddummy_lambda(param, key)(
+            self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
+        )
+
     def _d_volume_ddummy(self, key):
         """
         Volume contribution derivative with respect to a given parameter (incl. bsf).
@@ -1449,37 +1458,30 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
         # Check symbols used to specify parameters.
         # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_domega() * inner
-
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
+        # (the same symbol can be used in several definitions)
+        res = 0.0
+        for param in ("tau", "omega", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._eval_dparam_ddummy(param, key)
+                res = res + getattr(self, f"_dvolume_d{param}")() * inner
+
+        d_volume_dummy = self._d_volume_dummy_lambda(key, *self.param_dict)
+        if d_volume_dummy is not None:
             dIvol = (
                 self.I0
                 * self.omega
                 * self._mu_0
                 / (self._mu_0 + self._mu_ex)
                 * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key, *self.param_dict)(
+                * d_volume_dummy(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
-            return (1.0 - self.bsf) * dIvol
+            res = res + (1.0 - self.bsf) * dIvol
+
+        return res
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key, *param_names):
@@ -1498,8 +1500,9 @@ class RT1(object):
 
         Returns
         -------
-        callable
+        callable or None
             A function that calculates the derivative with respect to key.
+            (None if the distribution does not depend on key)
 
         """
         theta_0 = sp.Symbol("theta_0")
@@ -1509,10 +1512,11 @@ class RT1(object):
 
         args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
-        return _lambdify(
-            args,
-            sp.diff(self.V.phase_function, sp.Symbol(key)),
-        )
+        diff = sp.diff(self.V.phase_function, sp.Symbol(key))
+        if diff == 0:
+            return None
+
+        return _lambdify(args, diff)
 
     def _d_surface_ddummy(self, key):
         """
@@ -1528,31 +1532,30 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
         # Check symbols used to specify parameters.
         # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dbsf() * inner
-        else:
+        # (the same symbol can be used in several definitions)
+        res = 0.0
+        for param in ("tau", "NormBRDF", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._eval_dparam_ddummy(param, key)
+                res = res + getattr(self, f"_dsurface_d{param}")() * inner
+
+        d_surface_dummy = self._d_surface_dummy_lambda(key, *self.param_dict)
+        if d_surface_dummy is not None:
             dI_bs = (
                 self.I0
                 * self._mu_0
-                * self._d_surface_dummy_lambda(key, *self.param_dict)(
+                * d_surface_dummy(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
 
             dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+            res = res + self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+
+        return res
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key, *param_names):
@@ -1571,8 +1574,9 @@ class RT1(object):
 
         Returns
         -------
-        callable
+        callable or None
             A function that calculates the derivative with respect to key.
+            (None if the distribution does not depend on key)
 
         """
         theta_0 = sp.Symbol("theta_0")
@@ -1582,10 +1586,11 @@ class RT1(object):
 
         args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
-        return _lambdify(
-            args,
-            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
-        )
+        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        if diff == 0:
+            return None
+
+        return _lambdify(args, diff)
 
     def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
         """
@@ -1640,9 +1645,22 @@ class RT1(object):
         else:
             norm = 1.0
 
+        # Identify parameters that are directly specified by their name. (In this case the
+        # associated symbol might be used in other definitions as well!)
+        direct_params = [
+            key
+            for key in ("omega", "tau", "NormBRDF", "bsf")
+            if isinstance(getattr(self, f"_{key}"), str)
+            and getattr(self, f"_{key}") == key
+        ]
+
         jac = []
         for key in param_list:
-            if key == "omega":
+            if key in direct_params and key in self.param_dict:
+                jac += [
+                    (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
+                ]
+            elif key == "omega":
                 jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
             elif key == "tau":
                 jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
@@ -1660,6 +1678,12 @@ class RT1(object):
                     + str(key)
                     + " is not in param_dict"
                 )
+
+        # make sure that each entry has the same shape as the signal
+        # (also if the derivative is constant with respect to some of the parameters)
+        shape = np.shape(self._surface() + self._volume())
+        jac = [np.array(np.broadcast_to(j, shape)) for j in jac]
+
         if format == "list":
             return jac
         elif format == "scipy_least_squares":
-- 
2.43.0


From 5a33017c8d282b3066987819174650f8b54b66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:51 +0000
Subject: [PATCH 17/31] fix: errors raised while parameter symbols are
 determined reach the caller

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a256b28..31ae7da 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -821,8 +821,8 @@ class RT1(object):
         func = self._get_param_funcs(param)
 
         if func is not None:
+            params = self._get_param_symbs(param)
             try:
-                params = self._get_param_symbs(param)
                 return func(**{key: self.param_dict[key] for key in params})
                 # return func(*[self.param_dict[key] for key in params])
 
-- 
2.43.0


From 361f81093cabf077e4d1753f423fc3518ec9f0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 18/31] fix: return copies of the angles and parameter values
 to make sure the model cannot be changed by modifying them

The properties t_0, p_0, t_ex, p_ex as well as tau, omega, NormBRDF and bsf
returned the arrays that are used internally, so that modifying them in-place
(e.g. R.t_0 += 0.1) changed the model (and left inconsistent cached cosines).
---
 src/rt1_model/_calc.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 31ae7da..1293428 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -263,7 +263,7 @@ class RT1(object):
     @property
     def NormBRDF(self):
         """Normalization factor for the surface BRDF."""
-        return self._eval_param("NormBRDF")
+        return _copy_array(self._eval_param("NormBRDF"))
 
     @NormBRDF.setter
     def NormBRDF(self, value):
@@ -273,7 +273,7 @@ class RT1(object):
     @property
     def tau(self):
         """Optical depth of the volume scattering layer."""
-        return self._eval_param("tau")
+        return _copy_array(self._eval_param("tau"))
 
     @tau.setter
     def tau(self, value):
@@ -283,7 +283,7 @@ class RT1(object):
     @property
     def omega(self):
         """Single scattering albedo of the volume scattering layer."""
-        return self._eval_param("omega")
+        return _copy_array(self._eval_param("omega"))
 
     @omega.setter
     def omega(self, value):
@@ -293,7 +293,7 @@ class RT1(object):
     @property
     def bsf(self):
         """Fraction of bare-soil (e.g. signal with no attenuation due to vegetation)."""
-        return self._eval_param("bsf")
+        return _copy_array(self._eval_param("bsf"))
 
     @bsf.setter
     def bsf(self, value):
@@ -304,7 +304,7 @@ class RT1(object):
     def t_0(self):
         """Incident zenith angle."""
         try:
-            return self._t_0
+            return self._t_0.copy()
         except AttributeError:
             raise AttributeError(
                 "Please set the evaluation angle `t_0` with R.set_geometry() first!"
@@ -319,7 +319,7 @@ class RT1(object):
     def p_0(self):
         """Incident azimuth angle."""
         try:
-            return self._p_0
+            return self._p_0.copy()
         except AttributeError:
             raise AttributeError(
                 "Please set the evaluation angle `p_0` with R.set_geometry() first!"
@@ -332,7 +332,7 @@ class RT1(object):
             return self.t_0
         else:
             try:
-                return self._t_ex
+                return self._t_ex.copy()
             except AttributeError:
                 raise AttributeError(
                     "Please set the evaluation angle `t_ex` with R.set_geometry() first!"
@@ -350,7 +350,7 @@ class RT1(object):
             return self.p_0 + np.pi
         else:
             try:
-                return self._p_ex
+                return self._p_ex.copy()
             except AttributeError:
                 raise AttributeError(
                     "Please set the evaluation angle `p_ex` with R.set_geometry() first!"
-- 
2.43.0


From f6cae098106f3ec8f15c539bffddcf35577be8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 19/31] fix: use a copy of the provided incident intensity

Modifying an array that was passed as I0 changed the results of the model.
---
 src/rt1_model/_calc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 1293428..53defe5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -260,6 +260,15 @@ class RT1(object):
         self._SRF = value
         self._clear_distribution_cache()
 
+    @property
+    def I0(self):
+        """Incident intensity."""
+        return _copy_array(self._I0)
+
+    @I0.setter
+    def I0(self, value):
+        self._I0 = _copy_array(value)
+
     @property
     def NormBRDF(self):
         """Normalization factor for the surface BRDF."""
-- 
2.43.0


From 4ff9161dc0bef44dd24036e86bd6c6ebe81c38b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 20/31] fix: derivatives with respect to a symbolic scattering
 angle parameter of a CosineLobe

sympy leaves the derivative of sign(...) unevaluated for general symbols, so that
requesting the jacobian raised an error instead of returning the derivative.
---
 src/rt1_model/_calc.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 53defe5..0ef1954 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -38,6 +38,12 @@ def _copy_array(value):
     return value.copy() if isinstance(value, np.ndarray) else value
 
 
+class _Sign(sp.Function):
+    # a representation of sp.sign() that can be differentiated for all symbols
+    def fdiff(self, argindex=1):
+        return sp.S.Zero
+
+
 class RT1(object):
     """
     Main class to perform RT-simulations.
@@ -1595,7 +1601,10 @@ class RT1(object):
 
         args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
-        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key))
+        # (make sure that sign(...) is treated as a piecewise constant function)
+        diff = sp.diff(
+            self.SRF.phase_function.replace(sp.sign, _Sign), sp.Symbol(key)
+        ).replace(_Sign, sp.sign)
         if diff == 0:
             return None
 
-- 
2.43.0


From 3b9a103205b5d6dd2f50f986bb52c19c78fbc522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 21/31] fix: always return values for all angles when
 evaluating scattering distributions

With the sympy backend, isotropic distributions returned only a single value so that
plotting them (polarplot, hemreflect) raised an error.
---
 src/rt1_model/_scatter.py | 11 ++++++++++-
 src/rt1_model/plot.py     |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 3ced2b1..cd1f698 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -2,6 +2,7 @@
 
 from functools import lru_cache, wraps, partial, update_wrapper
 
+import numpy as np
 import sympy as sp
 from . import _log
 from .helpers import _lambdify, _parse_sympy_param
@@ -172,7 +173,15 @@ class _Scatter:
         """
         func = self._lambda_func(*param_dict.keys())
 
-        return func(t_0, t_ex, p_0, p_ex, **param_dict)
+        ret = func(t_0, t_ex, p_0, p_ex, **param_dict)
+
+        # functions generated by sympy return only a single value if the distribution
+        # does not depend on the angles
+        shape = np.broadcast_shapes(*map(np.shape, (ret, t_0, t_ex, p_0, p_ex)))
+        if np.shape(ret) != shape:
+            ret = np.broadcast_to(ret, shape).copy()
+
+        return ret
 
     def _register_plotfuncs(self):
         # register quick-plot functions for distribution functions
diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index f072743..1a175d5 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -173,6 +173,8 @@ def polarplot(
                     radapprox = np.array(
                         phasefunktapprox(ti, thetass, 0.0, 0.0, **params)
                     ).squeeze()
+                    # (constant functions might return only a single value)
+                    radapprox = np.broadcast_to(radapprox, thetass.shape)
                 # set theta direction to clockwise
                 ax.set_theta_direction(-1)
                 # set theta to start at z-axis
-- 
2.43.0


From 97e8f6b09a9d278124f0d0a37231c26a1c47a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 22/31] fix: reject the symengine backend if symengine is not
 available

Selecting it succeeded, so that all following evaluations failed.
---
 src/rt1_model/__init__.py | 5 +++++
 src/rt1_model/_calc.py    | 7 +++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 7a9ca2d..ed9c3d4 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -48,6 +48,11 @@ def set_lambda_backend(lambda_backend):
         "sympy",
         "symengine",
     ], f"Lambda backend {lambda_backend} is not defined!"
+
+    if lambda_backend == "symengine":
+        # make sure the backend is available before using it
+        import symengine  # noqa: F401
+
     _init_lambda_backend = lambda_backend
 
     _log.debug(f"Lambda backend set to {lambda_backend}")
diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 0ef1954..6a8df79 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -28,10 +28,6 @@ except Exception:
     _log.debug("Unable to register plot-functions", exc_info=True)
     _register_plotfuncs = False
 
-if get_lambda_backend() == "symengine":
-    # use symengine to perform series-expansions
-    from symengine import expand as seng_expand
-
 
 def _copy_array(value):
     # get a copy of provided arrays (to be independent of the provided object)
@@ -220,6 +216,9 @@ class RT1(object):
     def _expand(self, *args, **kwargs):
         backend = get_lambda_backend()
         if backend == "symengine":
+            # use symengine to perform series-expansions
+            from symengine import expand as seng_expand
+
             return seng_expand(*args, **kwargs)
         elif backend == "sympy":
             return sp.expand(*args, **kwargs)
-- 
2.43.0


From 408c9832c8afa5676e634fd292bc60c1b7e7a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 23/31] fix: distributions can be created if importing
 matplotlib fails for any reason

(RT1 already ignores all exceptions that occur on importing the plot functions.)
---
 src/rt1_model/_scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index cd1f698..863f46d 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -198,7 +198,7 @@ class _Scatter:
                 # quick way for visualizing the associated hemispherical reflectance
                 self.hemreflect = partial(hemreflect, SRF=self)
                 update_wrapper(self.hemreflect, hemreflect)
-        except ImportError:
+        except Exception:
             _log.debug("Unable to register plotting functions.", exc_info=True)
             pass
 
-- 
2.43.0


From b1a32021f45914864b75e682f0d03b5245f183a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:24 +0000
Subject: [PATCH 24/31] fix: restoring pickled distributions and models does
 not require matplotlib

The registered plot-functions were part of the pickled state.
---
 src/rt1_model/_scatter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 863f46d..6e1e09b 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -11,6 +11,17 @@ from .helpers import _lambdify, _parse_sympy_param
 class _Scatter:
     """The base object for any Surface and Volume objects."""
 
+    def __getstate__(self):
+        # the plot-functions are not part of the state (unpickling them requires matplotlib)
+        state = self.__dict__.copy()
+        for key in ("polarplot", "hemreflect"):
+            state.pop(key, None)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        self._register_plotfuncs()
+
     @property
     def ncoefs(self):
         """The number of coefficients used in the legendre expansion."""
-- 
2.43.0


From 033989c032dc32415ab6fc8257e36fc9175fde84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 25/31] fix: star-import without matplotlib

---
 src/rt1_model/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index ed9c3d4..380707a 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -58,7 +58,7 @@ def set_lambda_backend(lambda_backend):
     _log.debug(f"Lambda backend set to {lambda_backend}")
 
 
-from ._calc import RT1
+from ._calc import RT1, _register_plotfuncs
 from . import volume
 from . import surface
 
@@ -66,11 +66,14 @@ __all__ = [
     "RT1",
     "volume",
     "surface",
-    "plot",
     "set_lambda_backend",
     "get_lambda_backend",
 ]
 
+# (the plot functions are only available if matplotlib is installed)
+if _register_plotfuncs:
+    __all__.append("plot")
+
 
 _handler_lock = _threading.Lock()
 
-- 
2.43.0


From 6c5643a084bb6b67c040dd7f05f51c207dc756a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 26/31] fix: support the documented short-name 'basic' for the
 log format

set_loglevel(..., fmt='basic') is documented but has been treated as custom
format string and raised an error (after changing the level).
---
 src/rt1_model/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 380707a..9f53727 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -127,6 +127,7 @@ def _set_logfmt(fmt=None, datefmt=None):
 
 _log_format_presets = {
     "minimal": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
+    "basic": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
     "timed": (
         "%(asctime)s.%(msecs)03d %(levelname)s: %(message)s",
         "%H:%M:%S",
-- 
2.43.0


From 4845e51e0ddecc4a50717a3fef94a773878b6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 27/31] fix: invalid log formats must not change the log level

---
 src/rt1_model/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 9f53727..8020bd4 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -187,6 +187,10 @@ def set_loglevel(level, fmt="timed"):
     if isinstance(level, str):
         level = level.upper()
 
+    if fmt is not None:
+        # (make sure the format is valid before changing anything)
+        _logging.Formatter(_log_format_presets.get(fmt, (fmt,))[0])
+
     _log.setLevel(level)
     _ensure_handler().setLevel(level)
 
-- 
2.43.0


From 3d2923a68e753c6403980471790259b8353eb3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 28/31] fix: keep the slider of a parameter named 'inc' in
 Analyze3D

---
 src/rt1_model/plot.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 1a175d5..04b5ed6 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -761,7 +761,9 @@ class Analyze3D:
         )
         s.drawon = False  # avoid automatic calls to draw on slider updates
         s.on_changed(self._update)
-        self.sliders["inc"] = s
+        self._inc_slider = s
+        # (don't replace the slider of a parameter that has the same name)
+        self.sliders.setdefault("inc", s)
 
         self.f.subplots_adjust(
             top=0.98, bottom=0.05, hspace=1, wspace=0.5, left=0.1, right=0.98
@@ -813,8 +815,8 @@ class Analyze3D:
             a = self._artists.pop()
             a.remove()
 
-        startvals = {key: s.val for key, s in self.sliders.items()}
-        inc = startvals.pop("inc")
+        startvals = {key: self.sliders[key].val for key in self._slider_params}
+        inc = self._inc_slider.val
 
         self.R.update_params(**startvals)
         x, y, z = self._getvals(inc)
-- 
2.43.0


From 685cccc1ccff223749c7177545797e945429e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 29/31] fix: support constant expressions as parameter
 definitions with symengine

---
 src/rt1_model/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..e34273b 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -48,6 +48,10 @@ def _lambdify(variables, functions):
     # use symengine's Lambdify if symengine has been used within
     # the fn-coefficient generation
     backend = get_lambda_backend()
+    if backend == "symengine" and len(var) == 0:
+        # (symengine does not support functions without arguments)
+        backend = "sympy"
+
     if backend == "symengine":
         from symengine import Lambdify
 
-- 
2.43.0


From 3b460b542c8e079c158c2057b1fba3296f57bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 30/31] fix: support sympy expressions as parameter definitions

---
 src/rt1_model/_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 6a8df79..21c5afd 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -804,7 +804,7 @@ class RT1(object):
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
         p = getattr(self, f"_{param}")
-        if isinstance(p, str):
+        if isinstance(p, (str, sp.Basic)):
             expr = _parse_sympy_param(getattr(self, f"_{param}"))
 
             symbs = list(map(str, expr.free_symbols))
@@ -1429,7 +1429,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
-- 
2.43.0


From baaba734a7061652ef9c3fcc2b117f9425b3e0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:22 +0000
Subject: [PATCH 31/31] fix: evaluate the nadir-normalized Henyey-Greenstein
 function for t=0

---
 src/rt1_model/surface.py | 50 +++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..7887f15 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -222,26 +222,29 @@ class HG_nadirnorm(SurfaceScatter):
         self.t = _parse_sympy_param(t)
 
     @property
-    def phase_function(self):
-        """Define Phase function as sympy object."""
+    def _nadir_hemreflect(self):
+        # (factorized to avoid divisions by t so that it can be evaluated for t=0)
+        root = sp.sqrt(1.0 + self.t**2 - 2.0 * self.a[0] * self.t)
 
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
+        return (
+            2.0
+            * (1.0 - self.t**2)
             / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
+                root
+                * (
+                    1.0
+                    - self.t * (-self.t + self.a[0])
+                    + root * sp.sqrt(1.0 + self.t**2)
+                )
             )
         )
 
+    @property
+    def phase_function(self):
+        """Define Phase function as sympy object."""
+
+        nadir_hemreflect = self._nadir_hemreflect
+
         func = (1.0 / nadir_hemreflect) * (
             (1.0 - self.t**2.0)
             / (
@@ -256,22 +259,7 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
-        )
+        nadir_hemreflect = self._nadir_hemreflect
 
         n = sp.Symbol("n")
         legendre_coefficients = (1.0 / nadir_hemreflect) * (
-- 
2.43.0

