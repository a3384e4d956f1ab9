From e30d67ff2a20e556b4dba0259c0ec70e1f72c027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 01/27] fix: transform_triangle maps barycentric coordinates of
 any triangle

The second coordinate was read with an out-of-bounds (clamped) index, so only
the axis-aligned right triangle was mapped correctly and 3d triangles failed.
---
 magpi/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..7ea501d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -309,10 +309,10 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     i, j, k = a, b, c
     assert i.shape == j.shape == k.shape
     x = x % 1.0
-    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
+    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0:1] * d1 + x[..., 1:2] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From c685f723ebefb4698b2d24b0364b74dcd7cf65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 02/27] fix: Parallelogram.transform_bnd follows the edges of
 the parallelogram

a, b and c are vertices (as in transform and support); the boundary treated b
and c as edge vectors, which is only right for a = 0.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 7ea501d..f8cf9fd 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From 6fc168afa401dcbad59a0c9ec58f9072b2566754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 03/27] fix: Parallelogram is comparable and hashable

The derived array B took part in the generated __eq__/__hash__ and made both raise.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index f8cf9fd..a69c35d 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -79,7 +79,7 @@ class Parallelogram:
     a: tuple[float, ...]
     b: tuple[float, ...]
     c: tuple[float, ...]
-    B: Array = field(repr=False, init=False)
+    B: Array = field(repr=False, init=False, compare=False)
     dimension = property(lambda self: len(self.a))
 
     def __post_init__(self):
-- 
2.43.0


From 4580d1779ad5a4c9a0e0f77f8acbf52104a74348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 04/27] fix: normal_vec of Sphere and Disk handles batches of
 samples

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index a69c35d..a602381 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -131,7 +131,7 @@ class _Spherical:
         r, o = array(self.radius), array(self.origin)
         sample = bnd_sample - o
 
-        sample_norm = norm(sample, axis=-1)
+        sample_norm = norm(sample, axis=-1, keepdims=True)
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-- 
2.43.0


From dd16ae800cc5a7d32b70523110e3ca33e6387bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 05/27] fix: Hypercube.normal_vec returns None if any sample is
 outside the domain

As for a single sample; in a batch one inside sample was enough to get a normal
vector for samples which are not on the boundary.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index a602381..dae4c46 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
-- 
2.43.0


From bd265983405bbe3611d9fd7c5fa884451a5bca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 06/27] fix: Hypercube.normal_vec is defined on all corners and
 edges

Corners and edges where a lower and an upper bound meet gave a vector of
length sqrt(2) and therefore None.
---
 magpi/domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index dae4c46..e49932e 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -64,9 +64,7 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
-        n = on_ub - on_lb
+        n = where(jnp.cumsum(on_lb + on_ub, axis=-1) > 1, 0.0, on_ub - on_lb)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From 076460e86a2eb7631864f170c67b0b2bc75e0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 07/27] fix: transform_polyline stays on the polyline for
 parameters close to 1

The rounded total length could exceed the last cumulative length, in which case
the point was extrapolated from the first segment.
---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index e49932e..d448d82 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -317,8 +317,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
     line = stack(points)
     assert len(s.shape) == 0 or len(s.shape) == 1
     segments = norm(line[1:] - line[:-1], axis=1)
-    length = jnp.sum(segments)
     cumlengths = jnp.cumsum(segments)
+    length = cumlengths[-1]
     _s = s % 1
     _s = (_s * length).ravel()
     idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
-- 
2.43.0


From 91ef0259f1d6af82ce2b0b24cae94631f9efcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 08/27] fix: scalar minus quaternion has the right sign

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..8622cac 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -self + other
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From 194ab1eed0ff9d04f65e333bd0d0e9e79e0f93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 09/27] fix: from_axis_angle returns a unit quaternion for any
 axis length

A non-unit axis gave a non-unit quaternion and a wrong rotation angle.
---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 8622cac..ef1f038 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -248,5 +248,6 @@ def from_axis_angle(angle: Scalar, axis: Vec) -> Quaternion:
     Quaternion
     """
     axis_arr = asarray(axis)
+    axis_arr = axis_arr / norm(axis_arr)
     angle = angle / 2
     return Quaternion(cos(angle), axis_arr * sin(angle))
-- 
2.43.0


From 6eb37976eb12740581b035c23a8d8dc11658e5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 10/27] fix: rotate2d with an integer angle

The rotation matrix was cast to the integer dtype of the angle.
---
 magpi/r_fun.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..3b48329 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -399,9 +399,7 @@ def rotate2d(adf: ADF, angle: Scalar, o: Vec2d = (0.0, 0.0)) -> ADF:
     _o = asarray(o)
     _angle = asarray(angle)
     _adf = translate(adf, -_o)
-    M = array(
-        [[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]], dtype=_angle.dtype
-    )
+    M = array([[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]])
 
     def rot_op(x):
         msg = f"Cannot rotate vector of size {x.shape} in 2d. Please pass a 2d vector."
-- 
2.43.0


From 9684cd245089390022798746e98edd18029ebadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 11/27] fix: rotate3d rotates counter-clockwise like rotate2d

quaternion_rotation already computes q^-1 x q, which is the inverse rotation
needed to evaluate the rotated ADF; negating the angle turned the shape the wrong
way and, for several Euler angles, was not even the inverse.
---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 3b48329..4381e93 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -439,7 +439,7 @@ def rotate3d(
     _o = asarray(o)
     _adf = translate(adf, -_o)
 
-    _angle = -asarray(angle)
+    _angle = asarray(angle)
     if _angle.shape == ():
         if rot_axis is None:
             msg = "If only the angle is specified, the rotation axis must be provided"
-- 
2.43.0


From c90c0864574cc6cb139185c4fb0ca24e949ec1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 12/27] fix: argument, log and power of (almost) real
 quaternions are not NaN

real / abs was rounded above one for about 3% of the real quaternions in compiled single
precision code, e.g. 28.75, and arccos returned NaN.
---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index ef1f038..612d3b1 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -156,7 +156,7 @@ def quanternion_log(q: Quaternion) -> Quaternion:
 
 
 def arg(q: Quaternion) -> Scalar:
-    return arccos(q.real * (1 / abs(q)))
+    return jnp.arctan2(norm(q.imag), q.real)
 
 
 def sgn(v: Array) -> Array:
-- 
2.43.0


From 5e0ed3d5f7adc4b0c4370421376ea0de25d29d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 13/27] fix: log and power of negative real quaternions

The sign was lost: exp(log(-2)) and (-2)**1 were 2.
---
 magpi/quaternions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 612d3b1..ffbf646 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -151,7 +151,10 @@ def quanternion_log(q: Quaternion) -> Quaternion:
     """
     r = abs(q)
     a = log(r)
-    p = sgn(q.imag) * arg(q)
+    # any direction is valid for negative reals, use the principal value of C
+    i = zeros_like(q.imag).at[0].set(1.0)
+    n = where((q.real < 0) & jnp.all(q.imag == 0), i, sgn(q.imag))
+    p = n * arg(q)
     return Quaternion(a, p)
 
 
-- 
2.43.0


From 97b6a67d8f50b2262f43a24015127fea7d4ad158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 14/27] fix: Quaternion can be an input or output of vmap and
 tree_map

Unflattening must not validate the leaves.
---
 magpi/quaternions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index ffbf646..6c70ffe 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -108,7 +108,10 @@ class Quaternion:
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        return cls(children[0], children[1])
+        q = object.__new__(cls)  # children can be batched or arbitrary objects
+        object.__setattr__(q, "_a", children[0])
+        object.__setattr__(q, "_q", children[1])
+        return q
 
 
 def quaternion_right_div(q1: Quaternion, q2: Quaternion) -> Quaternion:
-- 
2.43.0


From c60ac953372667d20897666e3b96ead19082b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 15/27] fix: R_alpha systems are not NaN for almost equal
 operands

a^2 + b^2 - 2 alpha a b was rounded below zero for alpha close to 1, e.g. in the
min/max system r1, and had lost all digits of the difference.
---
 magpi/r_fun.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 4381e93..98c7694 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -86,6 +86,11 @@ class RFun:
         return lambda x: op(adf1(x), adf2(x))
 
 
+def _alpha_norm(a: Scalar, b: Scalar, alpha: Scalar) -> Scalar:
+    # sqrt(a^2 + b^2 - 2 alpha a b) without cancellation below zero
+    return sqrt(((1 + alpha) * (a - b) ** 2 + (1 - alpha) * (a + b) ** 2) / 2)
+
+
 class RAlpha(RFun):
     """
     Implements the system :math:`R_\\alpha` for some value of `alpha` in (-1, 1].
@@ -101,12 +106,12 @@ class RAlpha(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b - sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b - _alpha_norm(a, b, self.alpha))
         )
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b + sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b + _alpha_norm(a, b, self.alpha))
         )
 
 
@@ -131,7 +136,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b - sqrt(r - 2 * self.alpha * a * b))
+            * (a + b - _alpha_norm(a, b, self.alpha))
             * r ** (self.m / 2)
         )
 
@@ -140,7 +145,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b + sqrt(r - 2 * self.alpha * a * b))
+            * (a + b + _alpha_norm(a, b, self.alpha))
             * r ** (self.m / 2)
         )
 
-- 
2.43.0


From 1cdda75d4d7c29282d3b655e19341b4a6487338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 16/27] fix: rho-blending rounds corners with radius rho

The factor of the cited R-function is 1 / (8 rho^2); only then the square root is
a perfect square and the fillet of two perpendicular planes is a circular arc.
---
 magpi/r_fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 98c7694..aad013f 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -190,11 +190,11 @@ class RhoBlending(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         s = a**2 + b**2 - self.rho**2
-        return a + b - sqrt(a**2 + b**2 + 1 / (8 * self.rho) * s * (s - jnp.abs(s)))
+        return a + b - sqrt(a**2 + b**2 + 1 / (8 * self.rho**2) * s * (s - jnp.abs(s)))
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         s = a**2 + b**2 - self.rho**2
-        return a + b + sqrt(a**2 + b**2 + 1 / (8 * self.rho) * s * (s - jnp.abs(s)))
+        return a + b + sqrt(a**2 + b**2 + 1 / (8 * self.rho**2) * s * (s - jnp.abs(s)))
 
 
 r1 = RAlpha(1.0)  # min, max
-- 
2.43.0


From 1e88c07cbff44e0cd120324268c95621dc08822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 17/27] fix: spheres, cylinders and ellipsoids are
 differentiable at their centre

The derivative of norm(x)**2 at zero is NaN; the ADF of an ellipsoid was NaN at
its centre.
---
 magpi/r_fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index aad013f..40b780d 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -275,7 +275,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(jnp.square(x))) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
@@ -561,6 +561,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0


From b7c2aa6c4cc48451f04cf0cb87c386a429a3d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 18/27] fix: odeint evaluates the step at the beginning of the
 interval

The dynamics was evaluated at times which are one step late, so time dependent
right-hand sides were integrated with first order only.
---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From 6f972b2d1f838f69752538d635daff7020887064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 19/27] fix: derivative with respect to one argument name of
 several letters

The name was treated as a sequence of one letter names.
---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From b9065cb4737db470e777dd137e682f719b5cd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 20/27] fix: rejection_sampling never accepts a sample of zero
 density

The uniform number is drawn from [0, 1) and can be zero.
---
 magpi/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 16d116f..652c333 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -44,7 +44,7 @@ def rejection_sampling(
 
         def not_valid(state):
             _, p, sample = state
-            return p > (pdf(sample) / m)
+            return p >= (pdf(sample) / m)
 
         _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
         return sample
-- 
2.43.0


From 9435f212ecc83825fb4f76432adc3868dc2b5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 21/27] fix: TR shrinks the radius if the objective is NaN at
 the trial point

rho was NaN, the step was rejected with an unchanged radius and repeated until
maxiter.
---
 magpi/tr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/tr.py b/magpi/tr.py
index 76037c9..32a7308 100644
--- a/magpi/tr.py
+++ b/magpi/tr.py
@@ -161,7 +161,7 @@ class TR(jaxopt_base.IterativeSolver):
             )
             nom = old_value - value
             denom = -(tree_vdot(old_grad, p) + 1 / 2 * tree_vdot(p, hvp(p)))
-            rho = (nom) / (denom)
+            rho = where(jnp.isnan(value), -jnp.inf, nom / denom)
             tr_radius = update_tr_radius(
                 state.tr_radius,
                 self.max_tr_radius,
-- 
2.43.0


From d27254381efcbed8b2f3b87189c6e4b8640838a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 22/27] fix: integrate constant and array valued functions in
 one dimension

The integrand got all nodes at once in 1d, but single nodes in higher dimensions.
---
 magpi/integrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 694a1e3..5eeff2c 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -135,8 +135,7 @@ def integrate(
     def g(x):
         return f(x, *args, **kwargs)
 
-    F = jnp.apply_along_axis(g, -1, X)
-    
+    F = vmap(g)(X) if len(domain) == 1 else jnp.apply_along_axis(g, -1, X)
     return tree.map(lambda z: jnp.tensordot(W, z, len(domain)), F)
 
 
-- 
2.43.0


From 56d065d3cc0cad9511ef496cd3b38dedd6c4f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 23/27] fix: reverse mode derivative of splines with repeated
 knots

The division by zero in the unused branch of where made the gradient NaN.
---
 magpi/spline.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 09b8d5a..e84a987 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -3,6 +3,10 @@ from typing import Callable
 from magpi.prelude import *
 
 
+def _nonzero(d: Array) -> Array:
+    return jnp.where(d == 0, 1.0, d)  # keeps the unused branch and its gradient finite
+
+
 def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     if k == 0:
         return jnp.where((t[..., i] <= x) & (x < t[..., i + 1]), 1.0, 0.0)
@@ -10,12 +14,12 @@ def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     c1: Array = jnp.where(
         t[..., i + k] == t[..., i],
         0.0,
-        (x - t[..., i]) / (t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
+        (x - t[..., i]) / _nonzero(t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
     )
     c2: Array = jnp.where(
         t[..., i + k + 1] == t[..., i + 1],
         0.0,
-        (t[..., i + k + 1] - x) / (t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
+        (t[..., i + k + 1] - x) / _nonzero(t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
     )
     return c1 + c2
 
-- 
2.43.0


From 3291758d4c6327ec9ba29e05aa39ca01019abddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:28 +0000
Subject: [PATCH 24/27] fix: derivative with respect to an argument passed by
 keyword

The result was silently zero.
---
 magpi/calc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..46f09ed 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -55,6 +55,11 @@ def value_and_derivative(
         wrt = arg_names.index(wrt)
 
     def df(*args, **kwargs):
+        if isinstance(wrt, int) and argnum is None and wrt >= len(args):
+            # the argument was passed by keyword
+            bound = sig.bind(*args, **kwargs)
+            args, kwargs = bound.args, bound.kwargs
+            assert wrt < len(args), "Cannot differentiate keyword-only arguments."
         if isinstance(wrt, int) and argnum is None:
             ei = [
                 ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
-- 
2.43.0


From 06c33a25854f7949a2a3d713a34075d74d3624a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:47 +0000
Subject: [PATCH 25/27] fix: keep batch axes of size one in
 transform_circle_bnd

---
 magpi/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index d448d82..f924268 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -296,7 +296,9 @@ def transform_circle_bnd(s: Array, r: Array, o: Array) -> Array:
     assert len(r.shape) == 0
     assert len(o.shape) == 1 and o.shape[0] == 2
     s = s % 1.0
-    phi = 4 * pi * s.squeeze()
+    if len(s.shape) > 0 and s.shape[-1] == 1:
+        s = s[..., 0]
+    phi = 4 * pi * s
     x1 = cos(phi)
     x2 = sin(phi)
     return stack((x1, x2), -1) * r + o
-- 
2.43.0


From e3c263a0d9980c75bec329622a20f1e610b2031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:48 +0000
Subject: [PATCH 26/27] fix: partial derivatives of network modules and
 functions with pytree or integer arguments

---
 magpi/calc.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 46f09ed..f275669 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -60,17 +60,24 @@ def value_and_derivative(
             bound = sig.bind(*args, **kwargs)
             args, kwargs = bound.args, bound.kwargs
             assert wrt < len(args), "Cannot differentiate keyword-only arguments."
+        _f = lambda *args: f(*args, **kwargs)
+
+        def partial_derivative(i, ei):
+            # the other arguments are held fixed and can be of any type
+            def fi(x):
+                _args = list(args)
+                _args[i] = x
+                return _f(*_args)
+
+            return jax.jvp(fi, [args[i]], [ei])
+
         if isinstance(wrt, int) and argnum is None:
-            ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
-            ]
+            primals, tangents = partial_derivative(wrt, ones_like(args[wrt]))
         elif isinstance(wrt, int) and argnum is not None:
-            ei = [zeros_like(x) for x in args]
-            ei[argnum] = ei[argnum].at[wrt].set(1.0)
+            ei = zeros_like(args[argnum]).at[wrt].set(1.0)
+            primals, tangents = partial_derivative(argnum, ei)
         else:
-            ei = wrt
-        _f = lambda *args: f(*args, **kwargs)
-        primals, tangents = jax.jvp(_f, list(args), ei)
+            primals, tangents = jax.jvp(_f, list(args), wrt)
         return primals, tangents
 
     return df
-- 
2.43.0


From acfb5ed978654c05639ac2c9888c00bd9b863489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:37 +0000
Subject: [PATCH 27/27] fix: quaternions can be compared under jit

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 6c70ffe..f2e7ca8 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -34,7 +34,7 @@ class Quaternion:
         
         real_eq = self.real == other.real
         imag_eq = jnp.all(self.imag == other.imag)
-        return real_eq and imag_eq
+        return real_eq & imag_eq
 
     def __neg__(self) -> Self:
         return self.__class__(-self._a, -self._q)
-- 
2.43.0

