From f17cf28299f07801915dba8e6f2612d9202f9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 01/14] fix: number_list_to_np converts list values instead of
 using them as a shape

---
 safe_autonomy_dynamics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/utils.py b/safe_autonomy_dynamics/utils.py
index 9b4828d..d5a17e1 100644
--- a/safe_autonomy_dynamics/utils.py
+++ b/safe_autonomy_dynamics/utils.py
@@ -39,7 +39,7 @@ def number_list_to_np(input_val: Union[float, int, list, np.ndarray], shape: Tup
     if isinstance(input_val, np.ndarray):
         output = input_val
     elif isinstance(input_val, list):
-        output = np.ndarray(input_val, dtype=dtype)
+        output = np.array(input_val, dtype=dtype)
     elif isinstance(input_val, (float, int)):
         output = float(input_val) * np.ones(shape, dtype=dtype)
     else:
-- 
2.43.0


From b2474c2f08266c2307a1d5d511ed0b5652780b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 02/14] fix: wrap angles around non-zero centers without
 shifting them

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 2e804c2..1f24fe5 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -458,7 +458,7 @@ class BaseDynamics(abc.ABC):
         if self.angle_wrap_centers is not None:
             needs_wrap = self.np.logical_not(self.np.isnan(self.angle_wrap_centers))
 
-            wrapped_state = ((state + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
+            wrapped_state = ((state - self.angle_wrap_centers + np.pi) % (2 * np.pi)) - np.pi + self.angle_wrap_centers
 
             output_state = self.np.where(needs_wrap, wrapped_state, state)
         else:
-- 
2.43.0


From 02dfeab2aa14e2bd23501595369b2f585cd29984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 03/14] fix: define the orientation of integrator entities so
 that they can be created

---
 safe_autonomy_dynamics/integrators.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index bf36e6c..36ead28 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -16,6 +16,7 @@ import abc
 from typing import Tuple
 
 import numpy as np
+from scipy.spatial.transform import Rotation
 
 from safe_autonomy_dynamics.base_models import BaseEntity, BaseEntityValidator, BaseLinearODESolverDynamics
 
@@ -85,6 +86,20 @@ class BaseIntegrator(BaseEntity):
         """Get velocity vector"""
         raise NotImplementedError
 
+    @property
+    def orientation(self):
+        """
+        Get orientation of integrator, which is always an identity rotation as a point mass model doesn't rotate.
+
+        Returns
+        -------
+        scipy.spatial.transform.Rotation
+            Rotation transformation of the entity's local reference frame basis vectors in the global reference frame.
+            i.e. applying this rotation to [1, 0, 0] yields the entity's local x-axis in the global frame.
+        """
+        # always return a no rotation quaternion as points do not have an orientation
+        return Rotation.from_quat([0, 0, 0, 1])
+
 
 class Integrator1d(BaseIntegrator):
     """
-- 
2.43.0


From ab056d4d38890a1f056ce3c858187595b84b147e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 04/14] fix: compare 2d and 3d integrators with their own kind

---
 safe_autonomy_dynamics/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index 36ead28..c4af3f8 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -232,7 +232,7 @@ class Integrator2d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator2d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
@@ -331,7 +331,7 @@ class Integrator3d(BaseIntegrator):
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
 
     def __eq__(self, other):
-        if isinstance(other, Integrator1d):
+        if isinstance(other, Integrator3d):
             eq = (self.velocity == other.velocity).all()
             eq = eq and (self.position == other.position).all()
             return eq
-- 
2.43.0


From ca5c761c98da8536312ed4da9b55a8f0d08a4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 05/14] fix: map the y and z thrusters of integrators to their
 own control channels

---
 safe_autonomy_dynamics/integrators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/safe_autonomy_dynamics/integrators.py b/safe_autonomy_dynamics/integrators.py
index c4af3f8..f9e3835 100644
--- a/safe_autonomy_dynamics/integrators.py
+++ b/safe_autonomy_dynamics/integrators.py
@@ -226,7 +226,7 @@ class Integrator2d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
+            'thrust_y': 1,
         }
 
         super().__init__(dynamics, control_default=np.zeros((2, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
@@ -324,8 +324,8 @@ class Integrator3d(BaseIntegrator):
 
         control_map = {
             'thrust_x': 0,
-            'thrust_y': 0,
-            'thrust_z': 0,
+            'thrust_y': 1,
+            'thrust_z': 2,
         }
 
         super().__init__(dynamics, control_default=np.zeros((3, )), control_min=-1, control_max=1, control_map=control_map, **kwargs)
-- 
2.43.0


From 1c4012d9ff251747253424818eae302664967020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 06/14] fix: apply state and derivative limits in the jax
 solver

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 1f24fe5..9ded568 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -600,7 +600,7 @@ class BaseODESolverDynamics(BaseDynamics):
     def compute_state_dot_jax(self, state, t, control):
         """Compute state dot for jax odeint
         """
-        return self._compute_state_dot(t, state, control)
+        return self.compute_state_dot(t, state, control)
 
 
 class BaseControlAffineODESolverDynamics(BaseODESolverDynamics):
-- 
2.43.0


From 58a5deed9a81b6655e678517807c6e3c2965e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 07/14] fix: report the end of step state derivative with euler
 integration

---
 safe_autonomy_dynamics/base_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 9ded568..0d12de0 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -590,8 +590,8 @@ class BaseODESolverDynamics(BaseDynamics):
             state_dot = self.compute_state_dot(step_size, next_state, control)
         elif self.integration_method == "Euler":
             assert self.trajectory_samples <= 0, "trajectory sampling not currently supported with euler integration"
-            state_dot = self.compute_state_dot(0, state, control)
-            next_state = state + step_size * state_dot
+            next_state = state + step_size * self.compute_state_dot(0, state, control)
+            state_dot = self.compute_state_dot(step_size, next_state, control)
         else:
             raise ValueError(f"invalid integration method '{self.integration_method}'")
 
-- 
2.43.0


From 0e204abef13fb32a2ee61335355c4d049a93f0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 08/14] fix: keep the precision of list actions

---
 safe_autonomy_dynamics/base_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/base_models.py b/safe_autonomy_dynamics/base_models.py
index 0d12de0..6e276ee 100644
--- a/safe_autonomy_dynamics/base_models.py
+++ b/safe_autonomy_dynamics/base_models.py
@@ -180,7 +180,7 @@ class BaseEntity(abc.ABC):
 
                     control[self.control_map[action_name]] = action_value
             elif isinstance(action, list):
-                control = np.array(action, dtype=np.float32)
+                control = np.array(action, dtype=np.float64)
             elif isinstance(action, np.ndarray):
                 control = action.copy()
             elif jnp is not None and isinstance(action, jnp.ndarray):  # pylint: disable=used-before-assignment
-- 
2.43.0


From 02b9792cdcbba9e0019730ad658e6381b54e0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 09/14] fix: verify the airspeed safety limit

---
 safe_autonomy_dynamics/external/aerobench/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index c91631b..e4322b6 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -291,7 +291,7 @@ class SafetyLimitsVerifier(Freezable):
         # Go through each tick of the simulation and determine whether
         # the object(s) was (were) in a safe state.
         for i in range(results['states'].size // num_state_vars):
-            _vt, alpha, beta, _phi, \
+            vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
                 _, _, _, _ = results['states'][i]
@@ -308,6 +308,11 @@ class SafetyLimitsVerifier(Freezable):
                     f"Nz ({nz}) is not within the specified limits \
                         ({self.safety_limits.Nz[0]}, {self.safety_limits.Nz[1]})."
 
+            if self.safety_limits.v is not None:
+                assert self.safety_limits.v[0] <= vt <= self.safety_limits.v[1], \
+                    f"Airspeed ({vt}) is not within the specified limits \
+                        ({self.safety_limits.v[0]}, {self.safety_limits.v[1]})."
+
             if self.safety_limits.alpha is not None:
                 assert self.safety_limits.alpha[0] <= alpha <= self.safety_limits.alpha[1], \
                     f"alpha ({nz}) is not within the specified limits \
-- 
2.43.0


From 7bf30648174baf273af31ba44c3e7ae524e9e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 10/14] fix: verify safety limits of runs recorded without low
 level controller

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index e4322b6..5e82069 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -294,7 +294,7 @@ class SafetyLimitsVerifier(Freezable):
             vt, alpha, beta, _phi, \
                 _theta, _psi, _p, _q, \
                 _r, _pos_n, _pos_e, alt, \
-                _, _, _, _ = results['states'][i]
+                _pow = results['states'][i][:len(get_state_names())]
             nz = results['Nz_list'][i]
             ps = results['ps_list'][i]
 
-- 
2.43.0


From d8a01847c773148638eef41d4529a4e46338b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 11/14] fix: dubins acceleration is defined at zero speed

---
 safe_autonomy_dynamics/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/dubins.py b/safe_autonomy_dynamics/dubins.py
index 8f8b0d1..3dbf0a2 100644
--- a/safe_autonomy_dynamics/dubins.py
+++ b/safe_autonomy_dynamics/dubins.py
@@ -391,7 +391,7 @@ class Dubins2dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[3]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self.orientation.apply([1, 0, 0])  # acc * unit velocity
         return acc
 
 
@@ -641,7 +641,7 @@ class Dubins3dAircraft(BaseDubinsAircraft):
     @property
     def acceleration(self):
         acc = self.state_dot[6]
-        acc = acc * (self.velocity / self.v)  # acc * unit velocity
+        acc = acc * self.orientation.apply([1, 0, 0])  # acc * unit velocity
         return acc
 
 
-- 
2.43.0


From ec64240b0e47478034d6b800504af2419fada1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 12/14] fix: six dof spacecraft without given attitude is
 aligned with the Hill frame

---
 safe_autonomy_dynamics/cwh/sixdof_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/cwh/sixdof_model.py b/safe_autonomy_dynamics/cwh/sixdof_model.py
index f4cae7c..8274aea 100644
--- a/safe_autonomy_dynamics/cwh/sixdof_model.py
+++ b/safe_autonomy_dynamics/cwh/sixdof_model.py
@@ -17,7 +17,7 @@ from typing import Union
 
 import numpy as np
 import pint
-from pydantic import AfterValidator
+from pydantic import AfterValidator, model_validator
 from scipy.spatial.transform import Rotation
 from typing_extensions import Annotated
 
@@ -69,6 +69,7 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     q4: float
        fourth element of quaternion value (scalar) - rotation from body to Hill frame
        Placing the scalar as the 4th element matches the convention used by scipy
+       When no element of the quaternion is given, it is the identity rotation
     wx: float or pint.Quantity
        x axis local body reference frame angular rate value
     wy: float or pint.Quantity
@@ -95,6 +96,12 @@ class SixDOFSpacecraftValidator(BaseEntityValidator):
     wy: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
     wz: Annotated[Union[float, pint.Quantity], AfterValidator(build_unit_conversion_validator_fn('radians/second'))] = 0
 
+    @model_validator(mode='after')
+    def _default_to_identity_rotation(self):
+        if not self.model_fields_set & {'q1', 'q2', 'q3', 'q4'}:
+            self.q4 = 1.0
+        return self
+
 
 class SixDOFSpacecraft(BaseRotationEntity):  # pylint: disable=too-many-public-methods
     """
-- 
2.43.0


From cd4f4e075736a205d9ae08283793a87d06ac5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 13/14] fix: dense output of the Euler integrator stays valid
 after later steps

---
 safe_autonomy_dynamics/external/aerobench/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 5e82069..8204373 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -116,12 +116,16 @@ class Euler(Freezable):
 
         dydt = dy / dt
 
+        # step() rebinds these, while the function remains about this step
+        yprev = self.yprev
+        tprev = self.tprev
+
         def fun(t):
             """return state at time t (linear interpolation)"""
 
-            deltat = t - self.tprev
+            deltat = t - tprev
 
-            return self.yprev + dydt * deltat
+            return yprev + dydt * deltat
 
         return fun
 
-- 
2.43.0


From 2288bd58da51e330dacc038f27bbab0ec10da014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 14/14] fix: printmat prints the label of the matrix

---
 safe_autonomy_dynamics/external/aerobench/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/safe_autonomy_dynamics/external/aerobench/util.py b/safe_autonomy_dynamics/external/aerobench/util.py
index 8204373..5fab7ef 100644
--- a/safe_autonomy_dynamics/external/aerobench/util.py
+++ b/safe_autonomy_dynamics/external/aerobench/util.py
@@ -150,7 +150,7 @@ def printmat(mat, main_label, row_label_str, col_label_str):
     if len(mat.shape) == 1:
         mat.shape = (1, mat.shape[0])  # one-row matrix
 
-    print("{main_label} =")
+    print(f"{main_label} =")
 
     row_labels = None if row_label_str is None else row_label_str.split(' ')
     col_labels = col_label_str.split(' ')
-- 
2.43.0

