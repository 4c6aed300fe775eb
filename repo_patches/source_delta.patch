From 63d8ddf1d6bed335298657cf1406d67aada39366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 01/16] fix: wrap angles around a nonzero centre without
 changing their direction

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From 221d2289850ec5052f42d1745ad9cd91090afda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 02/16] fix: convert per-axis limit lists by value in
 number_list_to_np

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From bfddfcfc789ce19f853b917384588b2946ea4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 03/16] fix: give integrators the orientation every entity
 needs so they can be constructed

---
 safe_autonomy_dynamics/integrators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..da93c09 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -79,6 +80,19 @@ class BaseIntegrator(BaseEntity):
         """get position vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of integrator, which is always an identity rotation as a point mass model doesn't rotate.
+
+        Returns
+        -------
+        scipy.spatial.transform.Rotation
+            Rotation transformation of the entity's local reference frame basis vectors in the global reference frame.
+            i.e. applying this rotation to [1, 0, 0] yields the entity's local x-axis in the global frame.
+        """
+        return Rotation.from_quat([0, 0, 0, 1])
+
     @property
     @abc.abstractmethod
     def velocity(self):
-- 
2.43.0


From f97c5a0702c3ca9f526830a8d3448d17567cce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 04/16] fix: map each integrator thruster name to its own
 actuator

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index da93c09..64ebe11 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -225,7 +225,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -323,8 +323,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From 5b89857eca76aa2b67cc3562bdf8a4cbe87be83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 05/16] fix: compare Integrator2d and Integrator3d with their
 own class

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 64ebe11..a0ae51f 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -231,7 +231,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -330,7 +330,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From 3fe874fe109184a9b9e1309896f32ca3cecd3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 06/16] fix: apply rate and state limits when integrating with
 RK45_JAX

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..9ded568 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -600,7 +600,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From 975b20379cb1fe02d9acb6992908d70055b4a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 07/16] fix: report the end-of-step state derivative from Euler
 integration

---
 safe_autonomy_dynamics/base_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 9ded568..f6063af 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -592,6 +592,7 @@ class BaseODESolverDynamics(BaseDynamics):
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
             state_dot = self.compute_state_dot(0, state, control)
             next_state = state + step_size * state_dot
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 44f9109db04d39285ea341165a32f78e9c02cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 08/16] fix: evaluate the dynamics at the admissible state when
 integrating past a state limit

---
 safe_autonomy_dynamics/base_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index f6063af..2d0ea5e 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -538,7 +538,9 @@ class BaseODESolverDynamics(BaseDynamics):
         np.ndarray
             Instantaneous time derivative of the state vector.
         """
-        state_dot = self._compute_state_dot(t, state, control)
+        # integration may probe states beyond the limits, where the system behaves as at the nearest admissible state
+        admissible_state = self.np.clip(state, self.state_min, self.state_max)
+        state_dot = self._compute_state_dot(t, admissible_state, control)
         state_dot = self._clip_state_dot_direct(state_dot)
         state_dot = self._clip_state_dot_by_state_limits(state, state_dot)
         return state_dot
-- 
2.43.0


From 8f6c7ab414d4bbfd8d38f9ee7e0137c4785ba541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 09/16] fix: verify safety limits of runs recorded without a
 low-level controller

---
 safe_autonomy_dynamics/external/aerobench/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..c30c6aa 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -293,8 +293,7 @@ class SafetyLimitsVerifier(Freezable):
         for i in range(results['states'].size // num_state_vars):
             _vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
-                _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                _r, _pos_n, _pos_e, alt = results['states'][i][:12]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From 0cb63f80a61dc7e47118a7991ba42ecbcc27ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 10/16] fix: enforce the speed limit in SafetyLimitsVerifier

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c30c6aa..8e47c01 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -291,7 +291,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt = results['states'][i][:12]
             nz = results['Nz_list'][i]
@@ -307,6 +307,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"Airspeed ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From 6222e5cd09f99452a81ac39db74756942b0cce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 11/16] fix: compare roll rate and sideslip in degrees with
 their degree limits

---
 safe_autonomy_dynamics/external/aerobench/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 8e47c01..18fc344 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -318,7 +318,7 @@ class SafetyLimitsVerifier(Freezable):
                         ({self.safety_limits.alpha[0]}, {self.safety_limits.alpha[1]})."
 
             if self.safety_limits.psMaxAccelDeg is not None:
-                assert ps <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
+                assert np.rad2deg(ps) <= self.safety_limits.psMaxAccelDeg, "Ps is not less than the specified max."
 
             if self.safety_limits.betaMaxDeg is not None:
-                assert beta <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
+                assert np.rad2deg(beta) <= self.safety_limits.betaMaxDeg, "Beta is not less than the specified max."
-- 
2.43.0


From fb05c113b0a00ed1f29dc04a6a3702925032a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:45 +0000
Subject: [PATCH 12/16] fix: print the matrix label in printmat

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 18fc344..1edae33 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -146,7 +146,7 @@ def printmat(mat, main_label, row_label_str, col_label_str):
     if len(mat.shape) == 1:
         mat.shape = (1, mat.shape[0])  # one-row matrix
 
-    print("{main_label} =")
+    print(f"{main_label} =")
 
     row_labels = None if row_label_str is None else row_label_str.split(' ')
     col_labels = col_label_str.split(' ')
-- 
2.43.0


From aaa134ae6093034a2094d920ff58aa5466d2e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 13/16] fix: copy the inertia matrix handed to SixDOFDynamics

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..75bd0c5 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -447,7 +447,7 @@ class SixDOFDynamics(BaseControlAffineODESolverDynamics):
         **kwargs
     ):
         self.m = m  # kg
-        self.inertia_matrix = inertia_matrix  # kg*m^2
+        self.inertia_matrix = np.copy(inertia_matrix)  # kg*m^2
         self.n = n  # rads/s
         self.body_frame_thrust = body_frame_thrust
         self.control_thrust_Hill = np.zeros(3, )
-- 
2.43.0


From 8a1e7b134bec3b92e10bfc77776f8a30440fb502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 14/16] fix: reject commands that do not have one element per
 actuator

---
 safe_autonomy_dynamics/base_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2d0ea5e..ec9de69 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -161,7 +161,7 @@ class BaseEntity(abc.ABC):
         KeyError
             Raised when action dict key not found in control map
         ValueError
-            Raised when action is not one of the required types
+            Raised when action is not one of the required types or does not have one element per actuator
         """
 
         if action is None:
@@ -188,6 +188,10 @@ class BaseEntity(abc.ABC):
             else:
                 raise ValueError("action must be type dict, list, np.ndarray or jnp.ndarray")
 
+            # a shorter command must not be broadcast over the remaining actuators
+            if control.shape != np.shape(self.control_default):
+                raise ValueError(f"action must have shape {np.shape(self.control_default)}. Instead got shape {control.shape}")
+
         # enforce control bounds
         if (np.any(control < self.control_min) or np.any(control > self.control_max)):
             warnings.warn(f"Control input exceeded limits. Clipping to range ({self.control_min}, {self.control_max})")
-- 
2.43.0


From 05fc27a78441cf95109fc6b3e5d549f984180167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 15/16] fix: leave the state unchanged by a zero-length
 RK45_JAX step

---
 safe_autonomy_dynamics/base_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index ec9de69..69a1945 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -592,7 +592,8 @@ class BaseODESolverDynamics(BaseDynamics):
             sol = odeint(  # pylint: disable=used-before-assignment
                 self.compute_state_dot_jax, state, jnp.linspace(0., step_size, 11), control
             )
-            next_state = sol[-1, :]  # save last timestep of integration solution
+            # odeint divides by the length of the interval, which leaves an empty one undefined
+            next_state = self.np.where(step_size == 0, state, sol[-1, :])  # save last timestep of integration solution
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-- 
2.43.0


From f9ccd01504e383de907f53e17166cc5a8cdb921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 16/16] fix: keep the dense output of an Euler step valid after
 further steps

---
 safe_autonomy_dynamics/external/aerobench/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 1edae33..bae7f30 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -116,12 +116,16 @@ class Euler(Freezable):
 
         dydt = dy / dt
 
+        # the function describes the step just taken, whatever steps follow
+        tprev = self.tprev
+        yprev = self.yprev
+
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0

