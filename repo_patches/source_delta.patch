From af9d7bb36aed3f7106ffbfe06f541a4a64cbb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 01/63] fix: RigidMotion.itwist uses the direct adjoint

T_rn = -Ad_rn T_nr. With the inverse adjoint the derivative of the inverse
adjoint, hence the body hessians and the nonlinear effects, were wrong for every
joint whose twist is not invariant under its own pose (RzRyRx, RzRy, RzRx,
RyRx, Free): the free dynamics did not conserve energy.
---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From 72b6208acafc37f77c25857d5e749c9dd7a790ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 02/63] fix: SoftFingerContact sliding friction satisfies the
 Coulomb law

numpy's dot() of 1-d arrays is a scalar, the outer products of the eigenvalue
problem giving the sliding factor s were therefore wrong, and so was the sign
of its 2*beta*b'/a term: the sliding force was not on the friction cone.
eigvals() may also return a complex array, whose real eigenvalue has to be
converted before it can be substracted from the admittance.
---
 arboris/constraints.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..211b2d1 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import array, zeros, eye, dot, diag, logical_and, arange, outer
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -753,7 +753,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -821,16 +821,16 @@ class SoftFingerContact(PointContact):
                 b = self._mu/y_n * Y_c
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
+                Y_that = Y_t - outer(Y_c, Y_c)/y_n
                 B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                S = S[logical_and(S.imag == 0, S.real <= 0)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From 67aeaf3145b6328ef1000ba99f8c849d9e6d632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/63] fix: frictionless and grazing soft finger contacts do
 not crash

With a null friction coefficient or no normal force, the eigenvalue problem of
the sliding mode was divided by zero and eigvals() raised LinAlgError.
---
 arboris/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 211b2d1..eb3dd42 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy        import array, zeros, eye, dot, diag, logical_and, arange, outer
-from numpy.linalg import solve, eigvals, pinv
+from numpy.linalg import solve, eigvals, pinv, norm
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
 from   arboris.joints     import LinearConfigurationSpaceJoint
@@ -817,7 +817,9 @@ class SoftFingerContact(PointContact):
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
-                a = self._mu/y_n * alpha[3]
+                # a is null when there is no friction force available (either
+                # mu or the normal force is null): s would not be finite
+                a = min(self._mu/y_n * alpha[3], -1e-10*norm(alpha))
                 b = self._mu/y_n * Y_c
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-- 
2.43.0


From b77e8f7fa10699c2b7994b633eee5975d1fe8c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 04/63] fix: a sticking soft finger contact never pulls

The squared Coulomb test also accepted negative (adhesive) normal forces when
the tangent and normal directions are strongly coupled.
---
 arboris/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eb3dd42..0a2587e 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -803,7 +803,8 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
+            if force[3] >= 0 and \
+               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
-- 
2.43.0


From 2a1182cdc3fa85990f0e90edbe8388f53aff1552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 05/63] fix: plane collisions accept normals which are unitary
 up to rounding

Plane normalizes its coefficients, the norm of the result often is 1 plus or
minus one ulp: the collision solver raised AssertionError for such planes.
---
 arboris/collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..fed6451 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -277,7 +277,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
     normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-- 
2.43.0


From 6ecbd916ad23d39bc3edb788c78fa816a8fe2872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:01 +0000
Subject: [PATCH 06/63] fix: contact point of a sphere which penetrates a plane

The contact point was on the wrong side of the sphere (or at its center when
the signed distance was null).
---
 arboris/collisions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index fed6451..9933c58 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -286,7 +286,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     H_gc0 = Hg.zaligned(normal)
     H_gc0[0:3, 3] = p_01 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_01 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From ec697902e54aadecdcc652f541357c8c5c5d50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 07/63] fix: plane collision frames are relative to the ground

They were returned relative to the frame of the plane.
---
 arboris/collisions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 9933c58..f946944 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -287,7 +287,7 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
     H_gc0[0:3, 3] = p_01 - csdist * normal
     H_gc1 = H_gc0.copy()
     H_gc1[0:3, 3] = p_01 - radius1 * normal
-    return (sdist, H_gc0, H_gc1)
+    return (sdist, dot(H_g0, H_gc0), dot(H_g0, H_gc1))
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
     """ Get information on box/sphere collision.
-- 
2.43.0


From 4aaee8620c37180018efac0824c6933ec2d85bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 08/63] fix: normal of a sphere whose center is inside a
 rotated box

The normal was returned in the box frame instead of the ground frame.
---
 arboris/collisions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index f946944..3425411 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -375,6 +375,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
         f_g = Hg.pdot(H_g0, f_0)
+        normal = Hg.vdot(H_g0, normal)
         sdist = -norm(f_g - p_g1)-radius1
     else:
         # find the point x inside the box that is the nearest to
-- 
2.43.0


From d71ee33278ff700293351d1a7d43db3fb55b76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 09/63] fix: exponential of small twists is a rotation at the
 same order as its terms

The cosine term was truncated one order before the sine one, so that the
determinant of a free joint pose drifted by -t**4/12 at each step: slowly
rotating bodies made the simulation fail after some seconds on the assertion
that poses are homogeneous matrices.
---
 arboris/twistvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/twistvector.py b/arboris/twistvector.py
index c05ec07..78a6648 100644
--- a/arboris/twistvector.py
+++ b/arboris/twistvector.py
@@ -66,7 +66,7 @@ def exp(tw):
         sc = sin(t)/t
         dsc = (t-sin(t))/t**3
     else:
-        cc = 1./2.
+        cc = 1./2.-t**2/24.
         sc = 1.-t**2/6.
         dsc = 1./6.
 
-- 
2.43.0


From c00347929c6631ab11c4e3eb41dafab461a54c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 10/63] fix: JointLimits enforces the limits of each dof of
 multi-dof joints

The limits of all the dofs were solved at once as soon as one of them was
violated, clipping the coupled forces afterwards: limits were crossed, and dofs
far from their limits got huge forces. Each dof is now solved in turn.
---
 arboris/constraints.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 0a2587e..ed0a854 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,25 +72,25 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
         prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
-        return dforce
+        # the dofs are dynamically coupled by the admittance, but each one has
+        # its own limits and force: they are solved one after the other.
+        for i in arange(self.ndol):
+            cur_vel = vel[i] + dot(admittance[i, :], self._force - prev_force)
+            # predicted position, in absence of the force
+            pred = self._pos0[i] + \
+                    dt*(cur_vel - admittance[i, i]*self._force[i])
+            if pred <= self._min[i]:
+                # the min limit is violated, we want pos == min
+                self._force[i] = (self._min[i] - pred)/(dt*admittance[i, i])
+            elif self._max[i] <= pred:
+                # the max limit is violated, we want pos == max
+                self._force[i] = (self._max[i] - pred)/(dt*admittance[i, i])
+            else:
+                # the joint is within its limits, we ensure the
+                # generalized force is zero
+                self._force[i] = 0.
+        return self._force - prev_force
 
 class BallAndSocketConstraint(Constraint):
     r""" Create a ball and socket joint constraint between two frames.
-- 
2.43.0


From b6ebe0e3b688bd9e224199da12a3287e05aaf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 11/63] fix: a link refused by add_link leaves its joint free

The joint was bound to the refused frames, and could not be used any more.
---
 arboris/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..de8f2d6 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -526,13 +526,12 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
+        if frame1.body.parentjoint is not None:
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        joint.set_frames(frame0, frame1)
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
-- 
2.43.0


From 6a14beae0513cba11037eb4c19c8bd03e769a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 12/63] fix: add_link refuses links whose child body is the
 ground or an ancestor

Such bodies have no parent joint, the link was accepted and closed a kinematic
loop over which the world iterators recursed endlessly.
---
 arboris/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arboris/core.py b/arboris/core.py
index de8f2d6..8e59026 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -530,6 +530,10 @@ class World(NamedObject):
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        if frame1.body is self.ground or frame1.body is frame0.body or \
+           frame1.body in frame0.body.iter_ancestor_bodies():
+            raise ValueError("frame1's body is the ground or an ancestor of " + \
+            "frame0's body, the link would create a kinematic loop.")
         joint.set_frames(frame0, frame1)
         frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
-- 
2.43.0


From 83687f4ca39b3ba28f78f9380984994e58dd603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 13/63] fix: NamedObjectsList.as_dict raises DuplicateNameError

The exception was instantiated without its mandatory message, thus TypeError
was raised instead.
---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 8e59026..d302dff 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        "Name is duplicated: {0}".format(obj.name))
         return result
 
 
-- 
2.43.0


From 0cbb012dbe701de05d17d4d9db6da5ac1c686553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 14/63] fix: joints accept integer initial positions

The generalized position was kept in an integer array, which can not be
integrated (UFuncTypeError).
---
 arboris/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index d302dff..67180ce 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -280,11 +280,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
-- 
2.43.0


From 98211c4e66bde8b87ad0c596cb5b7ebc5230a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 15/63] fix: subframes own their pose relative to the body

The array given by the user was shared: the frames built from a same array
moved together, and moving a MovingSubFrame overwrote the array of the user.
---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 67180ce..0c88cc0 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1117,7 +1117,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From d9e256b725d08cccbe75f4295d38096dce2697e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 16/63] fix: CoMObserver derivative of the CoM jacobian

The velocity of the CoM relative to the body frame was neglected, the
centripetal terms of the bodies whose CoM is not at their origin were missing.
---
 arboris/observers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..fc77f05 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -509,7 +509,8 @@ class CoMObserver(Observer):
 
                 ##### For dJacobian
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                # com2 follows the CoM, but does not rotate:
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3,3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From e2f373e5f0cef28a6a8690a725596f29a78be942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 17/63] fix: Hdf5Logger saves the state and the model

Every dataset was created with the shape of a transform, saving anything else
raised TypeError at the end of the simulation.
---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index fc77f05..261048f 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -393,7 +393,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From c60f042153f9e91a6edf3bcd38cfc3fff4c50712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 18/63] fix: name_all_elements checks the unicity of names
 given by an iterator

The iterator was exhausted when the names were compared: a flat logger silently
recorded only one of the bodies sharing a name.
---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index 0c88cc0..d2889ef 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -140,6 +140,7 @@ class DuplicateNameError(Exception):
 
 
 def name_all_elements(nlist, check_unicity=False):
+    nlist = list(nlist) # may be an iterator
     # give a unique name for all unnamed elements
     for elem in nlist: 
         if elem.name is None:
-- 
2.43.0


From ec84888dbc0826a7c2eb389e49ba35a66201a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 19/63] fix: EnergyMonitor handles massless bodies

It raised AssertionError: massless bodies have no principal frame.
---
 arboris/observers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 261048f..a746273 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange, cross
+from numpy import array, dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -62,7 +62,10 @@ class EnergyMonitor(Observer):
         self._com_pos           = {}
         self._bodies = self._world.ground.iter_descendant_bodies
         for body in self._bodies():
-            self._com_pos[body]  = principalframe(body.mass)[:, 3]
+            if body.mass[3, 3] > 0.:
+                self._com_pos[body]  = principalframe(body.mass)[:, 3]
+            else:
+                self._com_pos[body]  = array((0., 0., 0., 1.))
 
     def update(self, dt):
         self.time.append(self._world.current_time)
-- 
2.43.0


From f4bc685c5733e8abcfba492a5544eeae81af3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 20/63] fix: SocketCom sends bytes when closing the connection

Sockets do not send str objects in python 3, finish() raised TypeError.
---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index a746273..f114d23 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -445,7 +445,7 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 94f497f01a8e32019768382b4a49ba4b5d3a8600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 21/63] fix: principalframe returns a rotation for multiple
 principal moments

eig does not return orthogonal eigenvectors for multiple eigenvalues: the
frames of transported spheres, cylinders... were not homogeneous matrices, and
CoMObserver raised AssertionError for such bodies.
---
 arboris/massmatrix.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..d1114d3 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -6,7 +6,7 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
 from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy.linalg import eigh, eigvals, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -98,7 +98,12 @@ def principalframe(M):
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
+    # the eigenvectors computed by eig are not orthogonal when there are
+    # multiple eigenvalues, those of eigh always are (but for their order).
+    order = eigvals(RSR).argsort().argsort()
+    [S, R] = eigh(RSR)
+    S = S[order]
+    R = R[:, order]
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-- 
2.43.0


From 6322d93c5e72f9ef130b6e7c728d3e20972a582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 22/63] fix: ProportionalDerivativeController controls joints
 of different ndof

---
 arboris/controllers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..08e5610 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -1,7 +1,7 @@
 # coding=utf-8
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, dot, ix_
+from numpy        import array, concatenate, zeros, dot, ix_
 from numpy.linalg import norm
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Controller, World
@@ -177,8 +177,8 @@ class ProportionalDerivativeController(Controller):
         for j in self.joints:
             gpos.append(j.gpos)
             gvel.append(j.gvel)
-        gpos = array(gpos).reshape(self._cndof)
-        gvel = array(gvel).reshape(self._cndof)
+        gpos = concatenate(gpos)
+        gvel = concatenate(gvel)
         gforce[self._dof_map] = \
                 dot(self.kp, self.gpos_des - gpos) + \
                 dot(self.kd, self.gvel_des)
-- 
2.43.0


From 1e87a2cd30393b39b236f4084797de36588b2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 23/63] fix: FreeJoint accepts integer initial positions and
 velocities

---
 arboris/joints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..67fffab 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From 5d21cfe1315668bb61910f4d0bc6d64c5ad1632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 24/63] fix: choose_solver accepts a point and a box in this
 order

---
 arboris/collisions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 3425411..0761aa7 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -58,6 +58,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 82847be99f0774772ebf54a6553d7bdbfeff336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 25/63] fix: sliding contacts between bodies with few degrees
 of freedom do not crash

---
 arboris/constraints.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index ed0a854..f8d564e 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange, outer
+from numpy        import array, zeros, eye, dot, diag, logical_and, arange, outer, trace
 from numpy.linalg import solve, eigvals, pinv, norm
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -814,6 +814,9 @@ class SoftFingerContact(PointContact):
                 #
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
+                # the frames may not be able to move relatively in all the
+                # directions: keep the admittance invertible
+                admittance = admittance + 1e-14*trace(admittance)*eye(4)
                 Y_c = admittance[0:3, 3]
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
-- 
2.43.0


From b1cd9f96532015302b987078c5bf1a02c2b0348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 26/63] fix: sliding friction is exact when the admittance is
 not symmetric

---
 arboris/constraints.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index f8d564e..eb7446a 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -824,11 +824,13 @@ class SoftFingerContact(PointContact):
                 # a is null when there is no friction force available (either
                 # mu or the normal force is null): s would not be finite
                 a = min(self._mu/y_n * alpha[3], -1e-10*norm(alpha))
-                b = self._mu/y_n * Y_c
+                # the admittance is not always symmetric (nonlinear effects)
+                Y_r = admittance[3, 0:3]
+                b = self._mu/y_n * Y_r
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - outer(Y_c, Y_c)/y_n
-                B[3:6, 3:6] = dot(E, Y_that)
+                Y_that = Y_t - outer(Y_c, Y_r)/y_n
+                B[3:6, 3:6] = dot(E, Y_that.T)
                 B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
                 B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
                 B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
-- 
2.43.0


From 226b6eefbaa53dfe857cc0d4868403a254e1b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 27/63] fix: a point or the center of a sphere on the surface
 of a box has a normal

---
 arboris/collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 0761aa7..07fc50e 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -363,8 +363,9 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
     """
     assert Hg.ishomogeneousmatrix(H_g0)
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    if (abs(p_01) <= half_extents0).all():
-        # p_01 is inside the box, we need to find the nearest face
+    if (abs(p_01) - half_extents0 <= 1e-10).all():
+        # p_01 is inside the box (or on its surface, up to rounding), we need
+        # to find the nearest face
         near_face = zeros(6)
         near_face[0:3] = half_extents0 - p_01
         near_face[3:6] = half_extents0 + p_01
@@ -379,7 +380,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             normal[i-3] = -1 #TODO check this line is correct
         f_g = Hg.pdot(H_g0, f_0)
         normal = Hg.vdot(H_g0, normal)
-        sdist = -norm(f_g - p_g1)-radius1
+        sdist = -near_face[i] - radius1
     else:
         # find the point x inside the box that is the nearest to
         # the sphere center:
-- 
2.43.0


From afbdd562cc360c164e3a4ebfe0eda3978a93938f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 28/63] fix: loggers refuse moving frames which have the name
 of another transform

---
 arboris/observers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f114d23..4994446 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -6,7 +6,8 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
 
 from numpy import array, dot, zeros, arange, cross
 
-from arboris.core import Observer, MovingSubFrame, name_all_elements
+from arboris.core import Observer, MovingSubFrame, DuplicateNameError, \
+                         name_all_elements
 from arboris.massmatrix import principalframe
 from arboris.collisions import choose_solver
 from arboris.homogeneousmatrix import iadjoint, dAdjoint
@@ -272,9 +273,16 @@ class SaveLogger(Observer):
                 name_all_elements(nonflatlist, True)
                 for j in  self._world.getjoints():
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
-
-            for f in self._world.itermovingsubframes():
+            # a moving frame which leads to a body gives its name to the joint
+            moving = [f for f in self._world.itermovingsubframes() \
+                      if self._flat or f not in nonflatlist]
+            name_all_elements(moving, True)
+
+            for f in moving:
+                if f.name in self._arb_transforms:
+                    raise DuplicateNameError("Some names are duplicated:\n" +
+                                             str([f.name]))
+            for f in moving:
                 self._arb_transforms[f.name] = f
 
             for k in self._arb_transforms.keys():
-- 
2.43.0


From 49d9a84cbc7b9e71ca554e10fe0c987f7e749c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 29/63] fix: the trunk of asymmetric humans depends on both
 sides

The suprasternale used the left lengths twice and the inertia of the upper
trunk only the right one, so that the model of mirrored lengths was not the
mirror of the model.
---
 arboris/robots/human36.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..05ca57a 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -266,7 +266,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
              [(L['xsternoclavR'] + L['xsternoclavL'])/4.,
               0.7001*(L['ysternoclavR']+L['ysternoclavL'])/2.,
               0.],
-             array([0.716, 0.659, 0.454])*L['ysternoclavR'])
+             array([0.716, 0.659, 0.454])*(L['ysternoclavR']+L['ysternoclavL'])/2.)
     # right shoulder
     add_body("ScapulaR", 0.,
              [0., 0., 0.],
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavR']+L['xsternoclavL'])/2., (L['ysternoclavR']+L['ysternoclavL'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From c39da69579b0ef816be9b8ffe15f15cd7ee4616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 30/63] fix: the visualisation modules work with Python 3
 (syntax, bytes, integers)

---
 arboris/visu/__init__.py     |  2 +-
 arboris/visu/dae_writer.py   | 20 ++++++++++----------
 arboris/visu/visu_collada.py |  6 +++---
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..0b2a77c 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,7 +80,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..e9e413c 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '", node_id, "'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '", parent_node_id, "'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '", shape_id, "'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
@@ -360,7 +360,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..8f00241 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -208,7 +208,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -223,13 +223,13 @@ class DaenimCom(SocketCom):
             msg += self.packing_transform(f.name, H)
 
         try:
-            self.conn.send(msg)
+            self.conn.send(msg.encode())
         except:
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + list(map(str, _H[0:3, :].reshape(12))))+"\n"
         return res
 
 
-- 
2.43.0


From 962d12e5247222459ac1837945c897ece35db60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 31/63] fix: the collada drivers take the graphic options into
 account

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index e9e413c..808788a 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -319,7 +319,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
-- 
2.43.0


From 44fe3df092d3ccf498fc252eb9d35be4b2bc81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 32/63] fix: flat drawings place the moving frames at their
 absolute pose

---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From 482be40a94dc649cc2c501eb9d53495b88920af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 33/63] fix: collada scenes of unnamed bodies can be written,
 and their inertias bear the names of the bodies

---
 arboris/visu/dae_writer.py   | 2 +-
 arboris/visu/visu_collada.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 808788a..63a695b 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -475,7 +475,7 @@ class pydaenimColladaDriver(DrawerDriver):
                     ),
                     E.inertia(" ".join(map(str, m_o_inertia))),
                 ),
-            sid=name
+            sid=name or ""
             )
         )
 
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 8f00241..64ba1c2 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -134,7 +134,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
@@ -143,7 +143,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         node = _get_void_node()
         node.transforms.append( collada.scene.MatrixTransform(H_body_com.flatten()) )
         
-        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia")
+        inertia_node = self.create_ellipsoid(m_o_inertia, color, name and name+".inertia")
         node.children.append(inertia_node)
         
         for c in inertia_node.children:
-- 
2.43.0


From cff413c2f27ce1538d33f4a9e8597b3b7c04a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:51 +0000
Subject: [PATCH 34/63] fix: friction does not vanish at the very limit of
 sliding

---
 arboris/constraints.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eb7446a..12df854 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -804,8 +804,10 @@ class SoftFingerContact(PointContact):
             force = self._force + dforce
 
             if force[3] >= 0 and \
-               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
-                # the elliptic dry friction law is respected.
+               sum((force[0:3]/self._eps)**2) <= \
+                    (1. + 1e-9) * (force[3]*self._mu)**2:
+                # the elliptic dry friction law is respected (up to rounding:
+                # no s would be found for a sliding at the very limit)
                 self._force = force
                 return dforce
             else:
-- 
2.43.0


From affbd6bf06e619895522bcab97e60a456638d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 35/63] fix: lines which do not start at the origin are drawn
 where they are in collada files

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 64ba1c2..0ce6b4e 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -125,8 +125,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         H[0:3, 3] = start
         
         node = self._add_new_geometry(name, color, line_geom)
-        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
         node.transforms.append(collada.scene.MatrixTransform(H.flatten()))
+        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
 
         self._add_osg_description(node, "link")
 
-- 
2.43.0


From f6cea655cdfda4db6ba41f32b8a600fa7bb45d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:11 +0000
Subject: [PATCH 36/63] fix: simulations with a socket observer end without
 viewer

---
 arboris/observers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 4994446..97a07a2 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -453,10 +453,12 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send(b"close_connection")
-            self.s.close()
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
         except socket.error:
             pass
+        finally:
+            self.s.close()
 
 
 
-- 
2.43.0


From a02146ab9049b417c296e78d278aaef92d62a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:29 +0000
Subject: [PATCH 37/63] fix: socket observers which ask for the same port do
 not collide

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 97a07a2..fa50178 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -434,6 +434,7 @@ class SocketCom(Observer):
         while port < max_port:
             try:
                 self.s.bind((host, port))
+                self.s.listen(1) # several sockets may bind a port until one listens
                 break
             except socket.error:
                 port += 1
@@ -444,7 +445,6 @@ class SocketCom(Observer):
         self.addr = None
 
     def init(self, world, timeline):
-        self.s.listen(1)
         try:
             self.conn, self.addr = self.s.accept()
             print('Connected by', self.addr)
-- 
2.43.0


From 1d59f099dad288012e47dcdfa3ada62a73549da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:25 +0000
Subject: [PATCH 38/63] fix: the URDF modules work with Python 3 (prints,
 exceptions, strings, lists)

---
 arboris/robots/urdf/__init__.py    | 12 ++++++------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..bc78e1c 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -107,11 +107,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +151,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +189,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +204,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +260,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..f79399d 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = [float(x) for x in xyz]
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = [float(x) for x in xyz]
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = [float(x) for x in rpy]
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From 5f504886351dbabe5bbb9345a5856ee58ffd0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 39/63] fix: origins of URDF files may have a position or a
 rotation only

---
 arboris/robots/urdf/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index bc78e1c..48ffc1b 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -70,8 +70,11 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        H          = np.eye(4)
+        if obj.position is not None:
+            H[0:3,3]   = obj.position
+        if obj.rotation is not None:
+            H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
-- 
2.43.0


From 02da3c6d04c072ccc6d6f700da398206bba8b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:28 +0000
Subject: [PATCH 40/63] fix: URDF links without inertia have no mass

---
 arboris/robots/urdf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 48ffc1b..b730be3 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -50,7 +50,8 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        if obj.inertial is not None: # otherwise the link has no mass
+            body.mass = to_arboris(obj.inertial)
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
-- 
2.43.0


From cdaaca4819892fedd96f6dfbdae09202fbdc58a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 41/63] fix: the axes of URDF joints may be absent or not
 normalized

---
 arboris/robots/urdf/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index b730be3..a7d442c 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -83,7 +83,10 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        axis = "1 0 0" if obj.axis is None else obj.axis # default axis of the URDF format
+        if len(axis.split())==3:
+            axis = np.array([float(v) for v in axis.split()])
+            axis = list(axis/max(np.linalg.norm(axis), 1e-12)) # the axis of a fixed joint may be null
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From c8c356cb3dc4c67743cfb84fd2337358ad915d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 42/63] fix: URDF robots can be loaded with a prefix or a
 suffix

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index a7d442c..94e8d38 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -205,7 +205,7 @@ class URDFConverter(object):
 
             body = to_arboris(urdf_body)
             body.name = name
-            list_of_bodies[name] = body
+            list_of_bodies[body_name] = body
 
             # save all shapes for collision; we only want physical shapes, not visual shapes
             # visual shapes can be loaded later with function 'get_visual_shapes'
@@ -214,7 +214,7 @@ class URDFConverter(object):
             if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
-                shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
+                shape_frame = arboris.core.SubFrame( body, H_body_shape )
 
                 if   collision["shape"] == "box":
                     half_dims = np.array(collision["scale"])/2.
-- 
2.43.0


From b8411c384004117f7bbfadc29fed0c7ab7ea1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 43/63] fix: joints of URDF robots may have no limits

---
 arboris/robots/urdf/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 94e8d38..22ddf6b 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -258,8 +258,9 @@ class URDFConverter(object):
             if self.save_joint_limits is True:
 
                 if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
-                    lower = urdf_joint.limits.lower
-                    upper = urdf_joint.limits.upper
+                    limits = urdf_joint.limits
+                    lower = limits.lower if limits is not None else None
+                    upper = limits.upper if limits is not None else None
                     
                     if (lower is not None) and (upper is not None):
                         constraint = arboris.constraints.JointLimits(joint_instance, lower, upper)
@@ -338,6 +339,9 @@ class URDFConverter(object):
 
             name = self.prefix + joint_name + self.suffix
 
+            if urdf_joint.limits is None:
+                continue
+
             lower = urdf_joint.limits.lower
             upper = urdf_joint.limits.upper
             if (lower is not None) and (upper is not None):
@@ -353,7 +357,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            effort_limits[name] = urdf_joint.limits.effort
+            if urdf_joint.limits is not None:
+                effort_limits[name] = urdf_joint.limits.effort
 
         return effort_limits
 
@@ -365,7 +370,8 @@ class URDFConverter(object):
         for joint_name, urdf_joint in self.robot.joints.items():
 
             name = self.prefix + joint_name + self.suffix
-            velocity_limits[name] = urdf_joint.limits.velocity
+            if urdf_joint.limits is not None:
+                velocity_limits[name] = urdf_joint.limits.velocity
 
         return velocity_limits
 
-- 
2.43.0


From 04d7c5f69c69e98a8d1876a72ea4b191caca97b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 44/63] fix: meshes of URDF files may be scaled

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 22ddf6b..5e0cc17 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -135,7 +135,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else obj.scale
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
-- 
2.43.0


From c3ac640c23fdf6a1e4bc8fe7c303a41548dc02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 45/63] fix: boxes of URDF files are not drawn twice as large
 as they are

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 5e0cc17..a2d62b1 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -140,7 +140,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [d/2. for d in obj.dims] # half extents
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -217,7 +217,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( body, H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From 777d008c7fda55e7ed328decbf6f0600ff0dacbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:49 +0000
Subject: [PATCH 46/63] fix: mimic elements of URDF joints are written

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index f79399d..e92e800 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From a643f5ee8f652a27f88644289db1bf7ed729a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:24 +0000
Subject: [PATCH 47/63] fix: whole files of shapes, and shapes with a scale
 only, can be added to collada files

---
 arboris/visu/dae_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 63a695b..87f2963 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -192,6 +192,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 mesh_data = [mesh_info["frame"], mesh_info["mesh"]]
                 if "transform" in mesh_info:
                     mesh_data.append(mesh_info["transform"])
+                elif "scale" in mesh_info:
+                    mesh_data.append(np.eye(4))
                 if "scale" in mesh_info:
                     mesh_data.append(mesh_info["scale"])
             else:
@@ -217,7 +219,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
-- 
2.43.0


From cea7716f34241c7eec3a47c1379760aa23899cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 48/63] fix: shapes added to collada files do not get the
 geometry of another one with the same ids

---
 arboris/visu/dae_writer.py | 63 ++++++++++++++++++++++++++++++++------
 1 file changed, 54 insertions(+), 9 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 87f2963..98e475d 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -4,6 +4,7 @@
 
 
 
+import io
 import os
 import warnings
 
@@ -165,8 +166,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
     if isinstance(added_shapes, str):
         #it means that this is an entire collada file
-        shapes_dae       = collada.Collada(added_shapes)
-        shapes_dae_nodes = _get_all_nodes(shapes_dae.scene)
+        shapes_dae_nodes = _load_shapes(added_shapes)[1]
 
         for node_id, node in dae_nodes.items():
             if node_id in shapes_dae_nodes:
@@ -174,10 +174,9 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 instance_node = _get_void_node() 
                 node.children.append(instance_node)
                 
-                child_shape_node = collada.scene.Node(_get_good_id_uri(added_shapes+".."+node_id), children = shapes_dae_nodes[node_id].children)
+                child_shape_node = collada.scene.Node(_get_good_id_uri(added_shapes+".."+node_id), children = _get_shapes(shapes_dae_nodes[node_id].children, dae))
                 child_shape_node.transforms.extend( shapes_dae_nodes[node_id].transforms )
                 
-                _save_all_descendant_geometryNode(child_shape_node, dae)
                 instance_node.children.append(collada.scene.NodeNode(child_shape_node))
                 if child_shape_node.id not in dae.nodes:
                     dae.nodes.append(child_shape_node)
@@ -201,8 +200,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
             parent_node_id, shape_path = mesh_data[0:2]
             shape_file, sep, shape_id  = shape_path.partition("#")
-            shapes_dae       = collada.Collada(shape_file)
-            shapes_dae_nodes = _get_all_nodes(shapes_dae.scene)
+            shapes_scene, shapes_dae_nodes = _load_shapes(shape_file)
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
@@ -219,14 +217,13 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = _get_shapes(shapes_scene.nodes, dae))
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
-                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae_nodes[shape_id].children)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = _get_shapes(shapes_dae_nodes[shape_id].children, dae))
                     child_shape_node.transforms.extend( shapes_dae_nodes[shape_id].transforms )
 
-                _save_all_descendant_geometryNode(child_shape_node, dae)
                 instance_node.children.append(collada.scene.NodeNode(child_shape_node))
                 if child_shape_node.id not in dae.nodes:
                     dae.nodes.append(child_shape_node)
@@ -307,6 +304,54 @@ def _save_all_descendant_geometryNode(src_node, dest_dae):
             _save_all_descendant_geometryNode(child, dest_dae)
 
 
+def _load_shapes(shape_file):
+    """Load the shapes which are going to be added to another collada file.
+
+    The other file, and other files of shapes, may have the same ids for
+    something else. That is why all of them are prefixed.
+
+    :return: the scene, and its nodes: dict of the nodes (with their initial id)
+    """
+    prefix = _get_good_id_uri(shape_file) + ".."
+    shapes_dae = collada.Collada(shape_file)
+
+    for elem in shapes_dae.xmlnode.iter("*"):
+        if "id" in elem.attrib and elem.tag != tag("image"):
+            elem.set("id", prefix + elem.get("id"))
+        for ref in ("url", "source", "target"):
+            if elem.get(ref, "").startswith("#"):
+                elem.set(ref, "#" + prefix + elem.get(ref)[1:])
+
+    shapes_xml = io.BytesIO()
+    shapes_dae.xmlnode.write(shapes_xml)
+    shapes_xml.seek(0)
+    scene = collada.Collada(shapes_xml).scene
+    nodes = dict( (n_id[len(prefix):], n) for n_id, n in _get_all_nodes(scene).items() )
+    return scene, nodes
+
+
+def _get_shapes(src_nodes, dest_dae):
+    """Get the nodes which show the same shapes in another collada file.
+
+    These nodes have no id, because they may be added several times.
+    """
+    nodes = []
+    for src_node in src_nodes:
+        if isinstance(src_node, collada.scene.GeometryNode):
+            _save_all_descendant_geometryNode(src_node, dest_dae)
+            nodes.append(src_node)
+
+        elif isinstance(src_node, collada.scene.NodeNode):
+            nodes.extend( _get_shapes([src_node.node], dest_dae) )
+
+        elif isinstance(src_node, collada.scene.Node):
+            node = _get_void_node( _get_shapes(src_node.children, dest_dae) )
+            node.transforms.extend(src_node.transforms)
+            nodes.append(node)
+
+    return nodes
+
+
 def _get_good_id_uri(uri):
     """
     """
-- 
2.43.0


From 1c4ad4a41d72db84334ab0013a2f7d4134bda823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:21 +0000
Subject: [PATCH 49/63] fix: the shapes of a URDF file which is parsed
 afterwards can be asked for

---
 arboris/robots/urdf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index a2d62b1..077f634 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -187,6 +187,7 @@ class URDFConverter(object):
 
 
     def parseURDF(self, urdf_file_name):
+        self.urdf_file_name = urdf_file_name
         self.robot = urdf_parser.URDF.load_xml_file(urdf_file_name)
 
 
-- 
2.43.0


From d6e33aeb0291f8579b1f7a5de6e4fec0a1b58030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 50/63] fix: nodes of libraries can be added to collada files

---
 arboris/visu/dae_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 98e475d..267b70b 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -265,6 +265,9 @@ def _get_all_nodes(root):
         for n in root.nodes:
             collect.update( _get_all_nodes(n) )
 
+    elif isinstance(root, collada.scene.NodeNode):
+        collect.update( _get_all_nodes(root.node) )
+
     elif isinstance(root, collada.scene.Node):
         if root.id is not None:
             collect[root.id] = root
-- 
2.43.0


From c7dde61ef200ff9a07eb38240c0882c54d864527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 51/63] fix: collada scenes can be viewed with their animation

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 0ce6b4e..2cab66c 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -280,7 +280,7 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
             subprocess.check_call((daenim_path, scene))
         else:
             anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
+            write_collada_animation(anim_file, scene, hdf5_file, "hdf5", hdf5_group)
             subprocess.check_call((daenim_path, anim_file))
             os.remove(anim_file)
 
-- 
2.43.0


From 8ce3ff8ee98fdbedea9064ff1f37b8c5806d4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:18 +0000
Subject: [PATCH 52/63] fix: worlds are viewed in the browser which is asked
 for

---
 arboris/visu/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index 0b2a77c..3f70665 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -83,7 +83,7 @@ def view(world, browser=None, **kwargs):
     elif isinstance(world, str):
         collada_path = world
 
-    pydaenim.create_pydaenimViewer(collada_path, **kwargs)
+    pydaenim.create_pydaenimViewer(collada_path, browser=browser, **kwargs)
 
 
 
-- 
2.43.0


From 95ca82a5ccfe5d6f3bbc0d8a269686df5b796d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 53/63] fix: robots converted for Matlab get light intermediate
 bodies

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e97acdf..1e13d18 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -123,7 +123,7 @@ class MatlabConverter(object):
 
         def mass():
             from numpy import diag
-            return self.base_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
+            return self.small_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
 
         if isinstance(joint, joints.RzJoint) or \
             isinstance(joint, joints.RyJoint) or \
-- 
2.43.0


From 983a5221471ca5c657dac89598b3e810e704b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 54/63] fix: root joints with several axes are converted for
 Matlab too

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 1e13d18..7de4983 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -94,6 +94,9 @@ class MatlabConverter(object):
     def convert_robot(self, world, root_joint):
         child_body = root_joint.frames[1].body
         self.convert_root_joint(world, root_joint)
+        if not isinstance(root_joint, joints.FreeJoint):
+            # the joint is now between the base and the robot
+            self.convert_nonroot_joint(world, root_joint)
         self._traverse(world, child_body)
 
     def _traverse(self, world, body):
-- 
2.43.0


From 9a101cfbc17a44c23e0017d9212c12c556df6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 55/63] fix: every branch of a robot is converted for Matlab

---
 matlab/convert_py2mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 7de4983..7dcaf14 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -103,7 +103,8 @@ class MatlabConverter(object):
         """Recurse through the tree."""
         assert isinstance(world, World)
         assert isinstance(body, Body)
-        for joint in body.childrenjoints:
+        # the conversion changes the list of the children joints
+        for joint in list(body.childrenjoints):
             child_body = joint.frames[1].body
             # try a conversion:
             self.convert_nonroot_joint(world, joint)
-- 
2.43.0


From d054428fbf7df1a2efa925c92bcceaac7d1630a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 56/63] fix: robots written for Matlab have all their digits,
 on single lines

---
 matlab/convert_py2mat.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 7dcaf14..3a26a66 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -7,6 +7,7 @@ an arboris-python robot.
 __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
               "Sébastien BARTHÉLEMY <sebastien.barthelemy@gmail.com>")
 
+import sys
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
 from numpy import zeros, eye, array, arange, hstack
@@ -14,7 +15,8 @@ from numpy.core import array2string
 
 def a2s(a):
     """Convert an array to a matlab-like string."""
-    return array2string(a, max_line_width=3*73, precision=14)
+    return array2string(a, max_line_width=sys.maxsize, precision=14,
+                        threshold=sys.maxsize)
 
 class GenerationError(RuntimeError):
     pass
@@ -231,7 +233,7 @@ struct2h5(st, ['{sname}' '_mat.h5']);
 
 exit; % quit matlab!
 end
-""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=gravity_acc)
+""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=a2s(gravity_acc))
         stream.write(text)
         MatlabRobotGenerator(world).make_robot(
             root_joint = world.ground.childrenjoints[0],
@@ -309,9 +311,9 @@ robot.model.q = {1}';
 robot.model.T = {2}';
 
 end
-""".format(self._gpos[0],
-           hstack(self._gpos[1:]),
-           hstack(gvel))
+""".format(a2s(self._gpos[0]),
+           a2s(hstack(self._gpos[1:])),
+           a2s(hstack(gvel)))
         self.stream.write(text)
 
 
-- 
2.43.0


From 0581b50a9a8be729125805b5406d4a756a651df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 57/63] fix: robots made of a single free body can be written
 for Matlab

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 3a26a66..7a13476 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -312,7 +312,7 @@ robot.model.T = {2}';
 
 end
 """.format(a2s(self._gpos[0]),
-           a2s(hstack(self._gpos[1:])),
+           a2s(hstack([zeros(0)] + self._gpos[1:])),
            a2s(hstack(gvel)))
         self.stream.write(text)
 
-- 
2.43.0


From 35db780959c4e264027ce90daac887bdaafa1410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 58/63] fix: shapes are written for Matlab with the body they
 belong to

---
 matlab/convert_py2mat.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 7a13476..555f43c 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -334,7 +334,7 @@ tree.br({br}).root_jk={par};
         H00L1 = joint.frames[0].bpose
         H11L0 = joint.frames[1].bpose
         body = joint.frames[1].body
-        self._b_map[body.name] = (num_br, num_bd)
+        self._b_map[body] = (num_br, num_bd)
         if isinstance(joint, joints.RxJoint):
             jtype = "[0 0 0 1 0 0]"
         elif isinstance(joint, joints.RyJoint):
@@ -377,11 +377,14 @@ tree.br({br}).bd({bd}).M = ...
         _shapes = self.w.getshapes()
         for v in _shapes:
             body = v.frame.body
-            (br,bd)= self._b_map[body.name]
-            if body.name in num_in_bd:
-                num_in_bd[body.name] += 1
+            if body not in self._b_map:
+                # the body does not belong to this robot
+                continue
+            (br,bd)= self._b_map[body]
+            if body in num_in_bd:
+                num_in_bd[body] += 1
             else:
-                num_in_bd[body.name] = 1
+                num_in_bd[body] = 1
             if isinstance(v, shapes.Point): #TODO should be handled by Converter
                 stype='sphere'
                 dims='0.01'
@@ -402,12 +405,12 @@ tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
 tree.br({br}).bd({bd}).shape({num}).dims = {dims};
 tree.br({br}).bd({bd}).shape({num}).H = {H};
 tree.br({br}).bd({bd}).shape({num}).gr_props = {visu};
-""".format(br=br, bd=bd, num=num_in_bd[body.name], stype=stype,
+""".format(br=br, bd=bd, num=num_in_bd[body], stype=stype,
            dims=dims, H=a2s(Hpose),
            visu="{}")
             self.stream.write(text)
 
-        if len(_shapes) == 0:
+        if len(num_in_bd) == 0:
             # arboris-matlab needs at least one shape. FIXME
             text="""
 tree.br(1).bd(1).shape(1).type = 'sphere';
-- 
2.43.0


From 9f14b6c672b65ba03d6a80812c5bb7fdf85ac0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 59/63] fix: shapes which cannot be written for Matlab are
 refused

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 555f43c..37b438b 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -399,6 +399,9 @@ tree.br({br}).bd({bd}).M = ...
             elif isinstance(v, shapes.Cylinder):
                 stype='cylinder'
                 dims='[{0} {1}]'.format(v.radius, v.length)
+            else:
+                raise GenerationError(
+                    'Cannot generate shapes of type "{0}".'.format(type(v)))
             Hpose=v.frame.bpose
             text="""
 tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
-- 
2.43.0


From 3910e53af4484e0e385c749ed630d7461f58f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 60/63] fix: a generator can write several robots for Matlab

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 37b438b..ca7692a 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -279,6 +279,9 @@ class  MatlabRobotGenerator(object):
         if not isinstance(root_joint, joints.FreeJoint):
             raise GenerationError("The root joint must be a FreeJoint.")
         self.stream = stream
+        self._b_map = {}
+        self._gpos = []
+        self._gvel = []
         try:
             self._add_tree(name)
             self._add_branch(1)
-- 
2.43.0


From 70f9bdf7997e65f2365cb3aefd32b2fac144837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:00 +0000
Subject: [PATCH 61/63] fix: timelines which are equally spaced up to rounding
 are written for Matlab

---
 matlab/convert_py2mat.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index ca7692a..7aae0da 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -10,7 +10,7 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 import sys
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
-from numpy import zeros, eye, array, arange, hstack
+from numpy import zeros, eye, array, arange, hstack, allclose, diff
 from numpy.core import array2string
 
 def a2s(a):
@@ -185,10 +185,9 @@ class MatlabSimulationGenerator(object):
 
         t_start = timeline[0]
         dt = timeline[1]-timeline[0]
-        t_end = timeline[-1]+dt
-        if not (arange(t_start, t_end, dt) == array(timeline)).all():
+        if not allclose(diff(timeline), dt, rtol=1e-6, atol=0.):
             raise GenerationError('timeline elements should be equally spaced.')
-        t_end -= 1.5*dt
+        t_end = timeline[-1]-0.5*dt
         if len(world.ground.childrenjoints) != 1:
             raise GenerationError('the ground can only have one child joint. (multiple robots are not supported yet.)')
 
-- 
2.43.0


From e49e0430fe18c5218fa834d3024577aa784117f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:23 +0000
Subject: [PATCH 62/63] fix: files of refused simulations are marked for Matlab

---
 matlab/convert_py2mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 7aae0da..3757e38 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -275,13 +275,13 @@ class  MatlabRobotGenerator(object):
 
     def make_robot(self, root_joint, stream, name=None):
         assert isinstance(root_joint, Joint)
-        if not isinstance(root_joint, joints.FreeJoint):
-            raise GenerationError("The root joint must be a FreeJoint.")
         self.stream = stream
         self._b_map = {}
         self._gpos = []
         self._gvel = []
         try:
+            if not isinstance(root_joint, joints.FreeJoint):
+                raise GenerationError("The root joint must be a FreeJoint.")
             self._add_tree(name)
             self._add_branch(1)
             self._traverse([root_joint], 1, 1)
-- 
2.43.0


From 902494deff7b1b915e7a2eadc6155e5e84506117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:46 +0000
Subject: [PATCH 63/63] fix: PerfMonitor forgets the previous simulation

---
 arboris/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/observers.py b/arboris/observers.py
index fa50178..c24dffd 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -134,6 +134,7 @@ class PerfMonitor(Observer):
     def init(self, world, timeline):
         self._world     = world
         self._last_time = _time()
+        self._computation_time = []
 
     def update(self, dt):
         current_time = _time()
-- 
2.43.0

