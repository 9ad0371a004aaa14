From 086adbc022b483335ed0742323cad0c50781eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 01/43] fix: Vec2(Vec3, Coord::Y) orders the kept coordinates
 like Vec3::toVec2 and Vec3(Vec2, Coord)

---
 libs/mathlib/include/impl/vec2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 82dac3b..2e94e78 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -38,7 +38,7 @@ Vec2<Real>::Vec2(const Vec3<Real>& u, Coord drop)
 	switch (drop)
 	{
 	case Coord::X: x = u.y; y = u.z; break;
-	case Coord::Y: x = u.x; y = u.z; break;
+	case Coord::Y: x = u.z; y = u.x; break;
 	case Coord::Z: x = u.x; y = u.y; break;
 	default: assert(0);
 	}
-- 
2.43.0


From b53351b960c3735d45e75596b3e0a9df9e1c051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 02/43] fix: fmodPositive stays below y when a tiny negative
 remainder rounds up

---
 libs/mathlib/include/functions.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..3767095 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,14 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+		// a tiny negative remainder rounds up to y itself
+		if (r >= y)
+			r = Real(0);
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From 6d38af517596aeb34b8e037708f85af573eaf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 03/43] fix: randAmplitude(Real, Real) also returns negative
 amplitudes, like the int version

---
 libs/mathlib/include/functions.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 3767095..8ce6421 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -106,10 +106,8 @@ Real randAmplitude(Real f)
 template <class Real>
 Real randAmplitude(Real from, Real to)
 {
-	int r = ::rand();
-	return (r >= 0)
-		? (from + Real(r) * (to - from) / Real(RAND_MAX))
-		: -(from + Real(r) * (to - from) / Real(RAND_MAX));
+	Real r = randAmplitude(to - from);
+	return (r >= Real(0)) ? from + r : -from + r;
 }
 
 template <class Real>
-- 
2.43.0


From 977167855942525463a0a4cd0725de5b3b653a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 04/43] fix: randomUnitVector reaches every quadrant and
 octant, not only the positive one

---
 libs/mathlib/include/impl/vec2.h | 4 ++--
 libs/mathlib/include/impl/vec3.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/vec2.h b/libs/mathlib/include/impl/vec2.h
index 2e94e78..794c537 100644
--- a/libs/mathlib/include/impl/vec2.h
+++ b/libs/mathlib/include/impl/vec2.h
@@ -531,8 +531,8 @@ Vec2<Real> Vec2<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
 
 		l = n.normalize();
 
diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..a8997e5 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -762,9 +762,9 @@ Vec3<Real> Vec3<Real>::randomUnitVector()
 	Real l;
 	do
 	{
-		n.x = rand(Real(1));
-		n.y = rand(Real(1));
-		n.z = rand(Real(1));
+		n.x = randAmplitude(Real(1));
+		n.y = randAmplitude(Real(1));
+		n.z = randAmplitude(Real(1));
 
 		l = n.normalize();
 
-- 
2.43.0


From e26d1638cc47ddf473a043ad14f1e2bb4456b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 05/43] fix: quartic and quintic easing keep double precision

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..e19bd62 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 8e36f60b6e1708077fda23f54c8ad70b922c9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 06/43] fix: clerp and clerpMaxAngle take the shortest way
 round for every pair of angles

---
 libs/mathlib/include/interpolation.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index e19bd62..05ecc55 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,7 +195,7 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-- 
2.43.0


From eb2842ef69b125b3460693d6f1863399ce3ae3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 07/43] fix: clerpMaxAngle reports the covered fraction of the
 arc as ratio

---
 libs/mathlib/include/interpolation.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index 05ecc55..2f71a96 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -196,11 +196,11 @@ template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
 	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
-	Real angle = (delta >= 0)
-		? (from + ((delta > maxAngle) ? maxAngle : delta))
-		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
-	return angle;
+	Real step = (delta >= 0)
+		? ((delta > maxAngle) ? maxAngle : delta)
+		: ((delta < -maxAngle) ? -maxAngle : delta);
+	ratio = (delta != Real(0)) ? step / delta : Real(1);
+	return from + step;
 }
 
 MATHLIB_NS_END
-- 
2.43.0


From 40139649462d8b7a44342182f36eed3297867500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 08/43] fix: multiplying a matrix in place by itself no longer
 reads overwritten columns

---
 libs/mathlib/include/impl/mat2.h | 10 ++-----
 libs/mathlib/include/impl/mat3.h | 51 ++++++--------------------------
 2 files changed, 12 insertions(+), 49 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..11c4690 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -98,13 +98,9 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
-	Real ta = x.x, tb = y.x, td = x.y, te = y.y;
-	x.x = ta * m.x.x + tb * m.x.y;
-	y.x = ta * m.y.x + tb * m.y.y;
-	x.y = td * m.x.x + te * m.x.y;
-	y.y = td * m.y.x + te * m.y.y;
-	flags &= m.flags;
-	return *this;
+	Mat2 r;
+	multiply(r, *this, m);
+	return set(r);
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..ff87b8b 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -326,18 +326,9 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
-	Real ta = x.x, tb = y.x, td = x.y, te = y.y, tg = x.z, th = y.z;
-	x.x = ta * m.x.x + tb * m.x.y + z.x * m.x.z;
-	y.x = ta * m.y.x + tb * m.y.y + z.x * m.y.z;
-	z.x = ta * m.z.x + tb * m.z.y + z.x * m.z.z;
-	x.y = td * m.x.x + te * m.x.y + z.y * m.x.z;
-	y.y = td * m.y.x + te * m.y.y + z.y * m.y.z;
-	z.y = td * m.z.x + te * m.z.y + z.y * m.z.z;
-	x.z = tg * m.x.x + th * m.x.y + z.z * m.x.z;
-	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
-	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
-	flags &= m.flags;
-	return *this;
+	Mat3 r;
+	multiply(r, *this, m);
+	return set(r);
 }
 
 template <class Real>
@@ -436,21 +427,9 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
-	Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
-
-	x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
-	y.x = m.x.x * y_x + m.y.x * y_y + m.z.x * y.z;
-	z.x = m.x.x * z_x + m.y.x * z_y + m.z.x * z.z;
-	x.y = m.x.y * x_x + m.y.y * x_y + m.z.y * x.z;
-	y.y = m.x.y * y_x + m.y.y * y_y + m.z.y * y.z;
-	z.y = m.x.y * z_x + m.y.y * z_y + m.z.y * z.z;
-	x.z = m.x.z * x_x + m.y.z * x_y + m.z.z * x.z;
-	y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
-	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
-
-	flags &= m.flags;
-
-	return *this;
+	Mat3 r;
+	multiply(r, m, *this);
+	return set(r);
 }
 
 template <class Real>
@@ -531,21 +510,9 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
-	Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
-
-	x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
-	y.x = x_x * m.y.x + y_x * m.y.y + z.x * m.y.z;
-	z.x = x_x * m.z.x + y_x * m.z.y + z.x * m.z.z;
-	x.y = x_y * m.x.x + y_y * m.x.y + z.y * m.x.z;
-	y.y = x_y * m.y.x + y_y * m.y.y + z.y * m.y.z;
-	z.y = x_y * m.z.x + y_y * m.z.y + z.y * m.z.z;
-	x.z = x_z * m.x.x + y_z * m.x.y + z.z * m.x.z;
-	y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
-	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
-
-	flags &= m.flags;
-
-	return *this;
+	Mat3 r;
+	multiply(r, *this, m);
+	return set(r);
 }
 
 template <class Real>
-- 
2.43.0


From 09bee569c83aa6803958bd80c0aa75a03b284a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 09/43] fix: transforming a vector in place reads the whole
 source before writing

---
 libs/mathlib/include/impl/mat2.h  |  5 +++--
 libs/mathlib/include/impl/mat3.h  |  7 ++++---
 libs/mathlib/include/impl/mat34.h |  7 ++++---
 libs/mathlib/include/impl/mat4.h  | 32 +++++++++++++++++--------------
 4 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 11c4690..d2fd304 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -486,8 +486,9 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
-	dest.y = src.x * x.y + src.y * y.y;
+	const Vec2<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x;
+	dest.y = s.x * x.y + s.y * y.y;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index ff87b8b..f8f1b1d 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -999,9 +999,10 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x + s.z * z.x;
+	dest.y = s.x * x.y + s.y * y.y + s.z * z.y;
+	dest.z = s.x * x.z + s.y * y.z + s.z * z.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..03aa5c8 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -556,9 +556,10 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
-	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	const Vec3<Real> s = src; // dest may be src
+	dest.x = s.x * rs.x.x + s.y * rs.y.x + s.z * rs.z.x + t.x;
+	dest.y = s.x * rs.x.y + s.y * rs.y.y + s.z * rs.z.y + t.y;
+	dest.z = s.x * rs.x.z + s.y * rs.y.z + s.z * rs.z.z + t.z;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..baa84fc 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1146,9 +1146,10 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	const Vec3<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x + s.z * z.x + t.x;
+	dest.y = s.x * x.y + s.y * y.y + s.z * z.y + t.y;
+	dest.z = s.x * x.z + s.y * y.z + s.z * z.z + t.z;
 }
 
 template <class Real>
@@ -1177,10 +1178,11 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	const Vec4<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x + s.z * z.x + s.w * t.x;
+	dest.y = s.x * x.y + s.y * y.y + s.z * z.y + s.w * t.y;
+	dest.z = s.x * x.z + s.y * y.z + s.z * z.z + s.w * t.z;
+	dest.w = s.x * x.w + s.y * y.w + s.z * z.w + s.w * t.w;
 }
 
 template <class Real>
@@ -1209,9 +1211,10 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	const Vec3<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x + s.z * z.x;
+	dest.y = s.x * x.y + s.y * y.y + s.z * z.y;
+	dest.z = s.x * x.z + s.y * y.z + s.z * z.z;
 }
 
 template <class Real>
@@ -1240,10 +1243,11 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
-	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	const Vec4<Real> s = src; // dest may be src
+	dest.x = s.x * x.x + s.y * y.x + s.z * z.x;
+	dest.y = s.x * x.y + s.y * y.y + s.z * z.y;
+	dest.z = s.x * x.z + s.y * y.z + s.z * z.z;
+	dest.w = s.x * x.w + s.y * y.w + s.z * z.w;
 }
 
 template <class Real>
-- 
2.43.0


From 93e57e1b32970b629b20a96cb72e32b41e89450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:54 +0000
Subject: [PATCH 10/43] fix: a matrix product only keeps the Normal/Orthogonal
 flags that multiplication preserves

---
 libs/mathlib/include/impl/mat2.h |  3 ++-
 libs/mathlib/include/impl/mat3.h | 35 ++++----------------------------
 libs/mathlib/include/impl/mat4.h |  5 ++++-
 3 files changed, 10 insertions(+), 33 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index d2fd304..d170676 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -533,7 +533,8 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.y.x = a.x.x * b.y.x + a.y.x * b.y.y;
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
-		dest.flags = a.flags & b.flags;
+		// only orthonormality is preserved by multiplication
+		dest.flags = (a.isOrthonormal() && b.isOrthonormal()) ? Flags::Orthonormal : 0;
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index f8f1b1d..4afc6e0 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -669,22 +669,8 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     if (isIdentity())
         return m;
 
-    Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
-
     Mat3<Real> r;
-    
-    r.x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
-    r.y.x = m.x.x * y_x + m.y.x * y_y + m.z.x * y.z;
-    r.z.x = m.x.x * z_x + m.y.x * z_y + m.z.x * z.z;
-    r.x.y = m.x.y * x_x + m.y.y * x_y + m.z.y * x.z;
-    r.y.y = m.x.y * y_x + m.y.y * y_y + m.z.y * y.z;
-    r.z.y = m.x.y * z_x + m.y.y * z_y + m.z.y * z.z;
-    r.x.z = m.x.z * x_x + m.y.z * x_y + m.z.z * x.z;
-    r.y.z = m.x.z * y_x + m.y.z * y_y + m.z.z * y.z;
-    r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
-
-    r.flags = flags & m.flags;
-
+    multiply(r, m, *this);
     return r;
 }
 
@@ -761,22 +747,8 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     if (isIdentity())
         return m;
 
-    Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
-
     Mat3<Real> r;
-    
-    r.x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
-    r.y.x = x_x * m.y.x + y_x * m.y.y + z.x * m.y.z;
-    r.z.x = x_x * m.z.x + y_x * m.z.y + z.x * m.z.z;
-    r.x.y = x_y * m.x.x + y_y * m.x.y + z.y * m.x.z;
-    r.y.y = x_y * m.y.x + y_y * m.y.y + z.y * m.y.z;
-    r.z.y = x_y * m.z.x + y_y * m.z.y + z.y * m.z.z;
-    r.x.z = x_z * m.x.x + y_z * m.x.y + z.z * m.x.z;
-    r.y.z = x_z * m.y.x + y_z * m.y.y + z.z * m.y.z;
-    r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
-
-    r.flags = flags & m.flags;
-
+    multiply(r, *this, m);
     return r;
 }
 
@@ -1052,7 +1024,8 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.x.z = a.x.z * b.x.x + a.y.z * b.x.y + a.z.z * b.x.z;
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
-		dest.flags = a.flags & b.flags;
+		// only orthonormality is preserved by multiplication
+		dest.flags = (a.isOrthonormal() && b.isOrthonormal()) ? Flags::Orthonormal : 0;
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index baa84fc..0a9a1a4 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1308,7 +1308,10 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.z.w = a.x.w * b.z.x + a.y.w * b.z.y + a.z.w * b.z.z + a.t.w * b.z.w;
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
-		dest.flags = a.flags & b.flags;
+		// multiplication preserves affinity and, among affine matrices, orthonormality
+		dest.flags = a.flags & b.flags & Flags::Trs;
+		if (dest.isTrs() && a.isOrthonormal() && b.isOrthonormal())
+			dest.flags |= Flags::Orthonormal;
 	}
 }
 
-- 
2.43.0


From 6cc841e8c166b99957a57e475184e7ab8fa3e53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 11/43] fix: transposing a matrix re-evaluates its flags,
 transposition only preserves orthonormality

---
 libs/mathlib/include/impl/mat2.h | 5 ++---
 libs/mathlib/include/impl/mat3.h | 5 ++---
 libs/mathlib/include/impl/mat4.h | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index d170676..1ac39e8 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -245,8 +245,7 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -355,7 +354,7 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.x.y = y.x;
 	r.y.x = x.y;
 	r.y.y = y.y;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 4afc6e0..7c228c5 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -630,8 +630,7 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -829,7 +828,7 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.x = x.z;
 	r.z.y = y.z;
 	r.z.z = z.z;
-	r.flags = flags;
+	r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 0a9a1a4..1389871 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
-- 
2.43.0


From c85d7b410195c079c9f93931cc758d807fab99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 12/43] fix: rotating a Mat3 about a coordinate axis refreshes
 its identity flag

---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 7c228c5..8a42fc7 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -498,7 +498,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -581,7 +581,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -733,7 +733,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -811,7 +811,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From 0d8fc36771f2a3191ae34f28ce5a3fd5e6d996b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 13/43] fix: Mat4 inversion takes the rigid-transform shortcut
 only for affine matrices

---
 libs/mathlib/include/impl/mat4.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 1389871..cfabbc8 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -651,7 +651,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -950,7 +950,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Mat4<Real> result;
 
-- 
2.43.0


From a54be1a9a79db942644989194a4cdaedc8663c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 14/43] fix: Mat4::invert leaves an initialised matrix when the
 determinant is 1

---
 libs/mathlib/include/impl/mat4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index cfabbc8..dbc4905 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -713,7 +713,7 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	return (det == Real(0)) ? set(Zero) : set(inv / det).optimize();
 }
 
 
-- 
2.43.0


From 16446939a1bbc2b4e193079c100e8c56beee2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:24 +0000
Subject: [PATCH 15/43] fix: define the declared Mat4(Mat3, Vec3) constructor
 and setter

---
 libs/mathlib/include/impl/mat4.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index dbc4905..6a51a76 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -40,6 +40,13 @@ Mat4<Real>::Mat4(Real k)
 	}
 }
 
+template <class Real>
+Mat4<Real>::Mat4(const Mat3<Real>& m, const Vec3<Real>& t)
+	: flags(Flags::Uninitialized)
+{
+	set(m, t);
+}
+
 template <class Real>
 Mat4<Real>::Mat4(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z, const Vec3<Real>& t)
 	: flags(Flags::Uninitialized)
@@ -81,6 +88,12 @@ Mat4<Real>& Mat4<Real>::set(const Mat4<Real>& m)
 	return *this;
 }
 
+template <class Real>
+Mat4<Real>& Mat4<Real>::set(const Mat3<Real>& rs, const Vec3<Real>& t)
+{
+	return set(rs.x, rs.y, rs.z, t);
+}
+
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Quat<Real>& q, const Vec3<Real>& t)
 {
-- 
2.43.0


From 676097940c470897fe8d3fcb7fb3f8d3b15fc77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:11 +0000
Subject: [PATCH 16/43] fix: Mat4::orthonormalise keeps the translation

---
 libs/mathlib/include/impl/mat4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 6a51a76..64b232d 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -608,7 +608,7 @@ Mat4<Real>& Mat4<Real>::orthonormalise()
 	Quat<Real> q;
 	q.set(*this);
 	q.normalize();
-	return set(q);
+	return set(q, t.toVec3());
 }
 
 template <class Real>
-- 
2.43.0


From d3b9a0a6fafdd9b8d81db4877dc650d880e62ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 17/43] fix: Quat from one vector to the opposite one is a half
 turn, not the identity

---
 libs/mathlib/include/impl/quat.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..1c3d62a 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -154,10 +154,11 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		Vec3<Real> t = (from % from.minorCoord()).normalized();
+		x = t.x;
+		y = t.y;
+		z = t.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From 20dab3b86912c7ea83062e734fb614a553b0ab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 18/43] fix: Quat division multiplies by the inverse of the
 divisor

---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 1c3d62a..6093392 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -462,10 +462,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	//r = q^(-1)
+	Real s = Real(1) / (q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From efebb37505136f45716a41c3eee6fbd5b5e584b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 19/43] fix: Quat::set(from, via, to) no longer needs a
 quaternion addition that does not exist

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 6093392..791290e 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -284,11 +284,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat a = log(qni * from);
+	Quat b = log(qni * to);
+	Quat tmp;
+	tmp.x = (a.x + b.x) * Real(-0.25);
+	tmp.y = (a.y + b.y) * Real(-0.25);
+	tmp.z = (a.z + b.z) * Real(-0.25);
+	tmp.w = (a.w + b.w) * Real(-0.25);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From 80b1b6c2d452e4a480e1b0b829f32abb1d6a82df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 20/43] fix: Quat::slerpMaxAngle starts at from and takes the
 short way round

---
 libs/mathlib/include/impl/quat.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 791290e..02ee3f5 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -229,12 +229,18 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+	{
+		fromto = -fromto;
+	}
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	Quat step;
+	step.set(axis, min(angle, maxAngle));
+	return set(from * step);
 }
 
 template <class Real>
-- 
2.43.0


From 35e1a764992ad84d8358efefbdbbb7fa33d59847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 21/43] fix: Vec3 slerp and slerpMaxAngle use the whole angle,
 also between vectors more than 90 degrees apart

---
 libs/mathlib/include/impl/vec3.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index a8997e5..253fbe5 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -124,9 +124,10 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
+		Real sinAngle = n.length();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (sinAngle < Real(0.05) && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +136,9 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
+			if (n.isNull())
+				n = u % u.minorCoord();
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -170,16 +173,15 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	else
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
-		Real sinAngle = n * n.normalized();
-
-		Real angle = asin(sinAngle);
+		Real angle = atan2(n.length(), (u * v) / (lengthU * lengthV));
 
 		if (angle == Real(0))
 			return set(v);
 
-		Real actualAngle = (angle >= Real(0))
-			? ((angle > maxAngle) ? maxAngle : angle)
-			: ((angle < -maxAngle) ? -maxAngle : angle);
+		if (n.isNull())
+			n = u % u.minorCoord();
+
+		Real actualAngle = (angle > maxAngle) ? maxAngle : angle;
 
 		Real ratio = actualAngle / angle;
 
-- 
2.43.0


From c5bb8ec80f0527d58581b0310ca8f69472eb1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 22/43] fix: Mat34::transform by its own linear part moves the
 translation by the original matrix

---
 libs/mathlib/include/impl/mat34.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 03aa5c8..9c11264 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -342,8 +342,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
-	rs.rotate(m);
 	t = m * t;
+	rs.rotate(m);
 	return *this;
 }
 
-- 
2.43.0


From 64fef2d254b78210f4b780c1e143fa4f2595d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 23/43] fix: scaling a Mat4 re-evaluates its flags, as scaling
 a Mat3 does

---
 libs/mathlib/include/impl/mat4.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 64b232d..52e5268 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -509,12 +509,7 @@ Mat4<Real>& Mat4<Real>::scale(const Vec3<Real>& coefficients)
 	t.x *= coefficients.x;
 	t.y *= coefficients.y;
 	t.z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -579,12 +574,7 @@ Mat4<Real>& Mat4<Real>::scalePre(const Vec3<Real>& coefficients)
 	x *= coefficients.x;
 	y *= coefficients.y;
 	z *= coefficients.z;
-	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))
-	{
-		flags &= ~Flags::Identity;
-		flags &= ~Flags::Normal;
-	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
-- 
2.43.0


From b813118b8403b2e89b70739f6fa89a66234c86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 24/43] fix: translating a projective Mat4 drops the cached
 Normal flag

---
 libs/mathlib/include/impl/mat4.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 52e5268..f8aa7fc 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -494,6 +494,8 @@ Mat4<Real>& Mat4<Real>::translate(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal; // the translation column counts
 	}
 	return *this;
 }
@@ -562,6 +564,8 @@ Mat4<Real>& Mat4<Real>::translatePre(const Vec3<Real>& translation)
 	if (!translation.isNull())
 	{
 		flags &= ~Flags::Identity;
+		if (!isTrs())
+			flags &= ~Flags::Normal; // the translation column counts
 	}
 	return *this;
 }
-- 
2.43.0


From f06cc830572d04966113179988967bddfbf36e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:48 +0000
Subject: [PATCH 25/43] fix: Quat::toAxisAngle accepts unit quaternions whose w
 is rounded slightly beyond 1

---
 libs/mathlib/include/impl/quat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 02ee3f5..e470e04 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -582,7 +582,8 @@ Quat<Real> Quat<Real>::inverse() const
 template <class Real>
 void Quat<Real>::toAxisAngle(Vec3<Real> &axis, Real &angle) const
 {
-	assert(w >= Real(-1) && w <= Real(1));
+	// rounding may leave w of a unit quaternion slightly outside of [-1,1]
+	assert(w >= Real(-1) - Real(DELTA) && w <= Real(1) + Real(DELTA));
 
 	Real s2 = Real(1) - w * w;
 	Real len = (Real)(x * x + y * y + z * z);
-- 
2.43.0


From aa5080e1b89189edb495b865d9347f11403b9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 26/43] fix: AABB2/AABB3::hits finds the entry point of rays
 and lines that start beside the box and misses those that pass by

---
 libs/mathlib/include/impl/aabb2.h | 43 +++++++++++++---------
 libs/mathlib/include/impl/aabb3.h | 59 +++++++++++++++++++------------
 2 files changed, 64 insertions(+), 38 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..92b0a81 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -384,7 +384,8 @@ bool AABB2<Real>::contains(const AABB2<Real>& box) const
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real t2 = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -401,10 +402,12 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -422,19 +425,23 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    return true;
+    // The box must be entered from outside, in front of the start point
+    return t >= Real(0);
 }
 
 template <class Real>
 bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real t2 = std::numeric_limits<Real>::max();
 
     Vec2<Real> delta = line.end - line.start;
 
@@ -453,10 +460,12 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -474,13 +483,15 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    if (t > Real(1))
+    if (t < Real(0) || t > Real(1))
         return false;
     
     return true;
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..2951a51 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -405,7 +405,8 @@ bool AABB3<Real>::contains(const AABB3<Real>& box) const
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real t2 = std::numeric_limits<Real>::max();
 
     if (ray.direction.x == Real(0))
     {
@@ -422,10 +423,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +446,12 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (ray.direction.z == Real(0))
@@ -464,19 +469,23 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    return true;
+    // The box must be entered from outside, in front of the start point
+    return t >= Real(0);
 }
 
 template <class Real>
 bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
-    t = Real(0);
+    t = -std::numeric_limits<Real>::max();
+    Real t2 = std::numeric_limits<Real>::max();
 
     Vec3<Real> delta = line.end - line.start;
 
@@ -495,10 +504,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -516,10 +527,12 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
     if (delta.z == Real(0))
@@ -537,13 +550,15 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
-
+        // Narrow down the intersection interval [t, t2]
         t = std::max(t, tinf);
+        t2 = std::min(t2, tsup);
+
+        if (t2 < t)
+            return false;
     }
 
-    if (t > Real(1))
+    if (t < Real(0) || t > Real(1))
         return false;
     
     return true;
-- 
2.43.0


From edcf9c139e73b50e94b388ef6c77ccc0abd2c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:13 +0000
Subject: [PATCH 27/43] fix: Circle/Sphere::intersects(line) is also true for
 lines that start inside

---
 libs/mathlib/include/impl/circle.h | 7 +++++--
 libs/mathlib/include/impl/sphere.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/circle.h b/libs/mathlib/include/impl/circle.h
index 669651c..7778125 100644
--- a/libs/mathlib/include/impl/circle.h
+++ b/libs/mathlib/include/impl/circle.h
@@ -283,9 +283,12 @@ bool Circle<Real>::intersects(const Line3<Real>& line) const
 	if (delta < Real(0))
 		return false;
 
-	Real x = (-ftcf - sqrt(delta)) / ft2;
+	Real chord = sqrt(delta);
 
-	if (x < Real(0) || x > Real(1))
+	Real x1 = (-ftcf - chord) / ft2;
+	Real x2 = (-ftcf + chord) / ft2;
+
+	if (x2 < Real(0) || x1 > Real(1))
 		return false;
 
 	return true;
diff --git a/libs/mathlib/include/impl/sphere.h b/libs/mathlib/include/impl/sphere.h
index a221d89..ae50dea 100644
--- a/libs/mathlib/include/impl/sphere.h
+++ b/libs/mathlib/include/impl/sphere.h
@@ -287,9 +287,12 @@ bool Sphere<Real>::intersects(const Line3<Real>& line) const
 	if (delta < Real(0))
 		return false;
 
-	Real x = (-ftcf - sqrt(delta)) / ft2;
+	Real chord = sqrt(delta);
 
-	if (x < Real(0) || x > Real(1))
+	Real x1 = (-ftcf - chord) / ft2;
+	Real x2 = (-ftcf + chord) / ft2;
+
+	if (x2 < Real(0) || x1 > Real(1))
 		return false;
 
 	return true;
-- 
2.43.0


From ab14446d49eca2a2ea880d4fa2be547a638a026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:37 +0000
Subject: [PATCH 28/43] fix: Line3/Ray3::distance is 0 for points on the line

---
 libs/mathlib/include/impl/line3.h |  6 ++----
 libs/mathlib/include/impl/ray3.h  | 11 ++++++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..c2e06c8 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -64,12 +64,10 @@ template <class Real>
 Real Line3<Real>::distance(const Vec3<Real>& point) const
 {
 	Vec3<Real> d = end - start;
-	Vec3<Real> northo = (point - start) % d;
-	Vec3<Real> n = d % northo;
-	Real l = n.normalize();
+	Real l = d.normalize();
 	return (l == Real(0))
 		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+		: ((point - start) % d).length();
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..5874b76 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -48,9 +48,14 @@ Real Ray3<Real>::distance(const Vec3<Real>& point) const
 	Vec3<Real> northo = (point - start) % direction;
 	Vec3<Real> n = direction % northo;
 	Real l = n.normalize();
-	return (l == Real(0))
-		? MATHLIB_NS::distance(start, point)
-		: MATHLIB_NS::abs(n * (point - start));
+	if (l == Real(0))
+	{
+		// points ahead of the start lie on the ray
+		return ((point - start) * direction > Real(0))
+			? Real(0)
+			: MATHLIB_NS::distance(start, point);
+	}
+	return MATHLIB_NS::abs(n * (point - start));
 }
 
 template <class Real>
-- 
2.43.0


From 3ca4e088fd8dbd191d8f393bf467d53dcc607a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 29/43] fix: Plane::project along a direction lands on the
 plane, not on its parallel through the origin

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From c9e6c620735a1e8e5f7c1581c30c5a09054992ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 30/43] fix: Frustum<double> decides containment in double
 precision

---
 libs/mathlib/include/impl/frustum.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..77497b2 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,9 +85,9 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
-        if (distance > 0.0f)
+        if (distance > Real(0))
         {
 			return false;
         }
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 9a426dc899ed7bf0945f8ad3a519e2086a7cb8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 31/43] fix: a degenerate Tri2 does not contain points beyond
 its ends

---
 libs/mathlib/include/impl/tri2.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libs/mathlib/include/impl/tri2.h b/libs/mathlib/include/impl/tri2.h
index 097852e..672c61b 100644
--- a/libs/mathlib/include/impl/tri2.h
+++ b/libs/mathlib/include/impl/tri2.h
@@ -44,6 +44,13 @@ bool Tri2<Real>::contains(const Vec2<Real> &p) const
     Real cross2 = Vec2<Real>::crossProduct(b, c, p);
     Real cross3 = Vec2<Real>::crossProduct(c, a, p);
 
+	// Degenerate triangle and a point on its line
+	if (cross1 == Real(0) && cross2 == Real(0) && cross3 == Real(0))
+	{
+		return p.x >= MATHLIB_NS::min(MATHLIB_NS::min(a.x, b.x), c.x) && p.x <= MATHLIB_NS::max(MATHLIB_NS::max(a.x, b.x), c.x)
+			&& p.y >= MATHLIB_NS::min(MATHLIB_NS::min(a.y, b.y), c.y) && p.y <= MATHLIB_NS::max(MATHLIB_NS::max(a.y, b.y), c.y);
+	}
+
     return (cross1 >= Real(0) && cross2 >= Real(0) && cross3 >= Real(0))
 		|| (cross1 <= Real(0) && cross2 <= Real(0) && cross3 <= Real(0));
 }
-- 
2.43.0


From cffbb9e59b25297933e0ef9ccb336c0f01b4282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:19 +0000
Subject: [PATCH 32/43] fix: GaussJordan::solve replaces the matrix by its
 inverse, as documented

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..958ce6e 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -202,9 +202,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -215,9 +215,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0


From c5dc1b9a63e59f93acd55fef1f888caf41d6f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 33/43] fix: GaussJordan<double> picks its pivots in double
 precision

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 958ce6e..d0a6408 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -155,9 +155,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From 45df49e8003eccd7bfab7cd858ac902222d4eb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 34/43] fix: TriDiagonal::solveCyclic reports singular systems
 instead of dividing by zero

---
 libs/mathlib/include/impl/linearequations.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index d0a6408..093b9eb 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -103,11 +103,16 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real den = Real(1) + z[0] + beta * z[n-1] / gamma;
+			result = den != Real(0); // Singular matrix otherwise
+			if (result)
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / den;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				// Now get the solution vector x
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From 75f67ccb06ce9b4b670e8c54d6cf759e19ba44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 35/43] fix: a closed Bezier spline through two points is
 smooth at both

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..2d2de86 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -620,8 +620,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// With two points both neighbours are the same
+	a[0]       = Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] = Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From ff588fcfa4fa229a5a358424c21efc7246ff24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 36/43] fix: BezierSegmentFwdDiff3f/d name the class that
 exists

---
 libs/mathlib/include/common.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/common.h b/libs/mathlib/include/common.h
index b63626b..8b46987 100644
--- a/libs/mathlib/include/common.h
+++ b/libs/mathlib/include/common.h
@@ -80,7 +80,7 @@ template <class Real> class Circle;
 template <class Real> class Sphere;
 template <class Real> class HermiteSplineSegment3;
 template <class Real> class BezierSegment3;
-template <class Real> class BezierSegmentFwdDiff3;
+template <class Real> class BezierSegment3FwdDiff;
 template <class Real> class SplineSolver3;
 template <class Real> class Frustum;
 
@@ -112,7 +112,7 @@ typedef Circle<float> Circlef;
 typedef Sphere<float> Spheref;
 typedef HermiteSplineSegment3<float> HermiteSplineSegment3f;
 typedef BezierSegment3<float> BezierSegment3f;
-typedef BezierSegmentFwdDiff3<float> BezierSegmentFwdDiff3f;
+typedef BezierSegment3FwdDiff<float> BezierSegmentFwdDiff3f;
 typedef SplineSolver3<float> SplineSolver3f;
 typedef Frustum<float> Frustumf;
 
@@ -144,7 +144,7 @@ typedef Circle<double> Circled;
 typedef Sphere<double> Sphered;
 typedef HermiteSplineSegment3<double> HermiteSplineSegment3d;
 typedef BezierSegment3<double> BezierSegment3d;
-typedef BezierSegmentFwdDiff3<double> BezierSegmentFwdDiff3d;
+typedef BezierSegment3FwdDiff<double> BezierSegmentFwdDiff3d;
 typedef SplineSolver3<double> SplineSolver3d;
 typedef Frustum<double> Frustumd;
 
-- 
2.43.0


From 362ac647e964d77ec21a4c65ee0e8ce42edbf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 37/43] fix: ColorRGB::toHSV keeps the hue below 360 when a
 tiny negative hue wraps

---
 libs/mathlib/include/impl/colorrgb.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/colorrgb.h b/libs/mathlib/include/impl/colorrgb.h
index 70787b1..0f1a0e0 100644
--- a/libs/mathlib/include/impl/colorrgb.h
+++ b/libs/mathlib/include/impl/colorrgb.h
@@ -237,7 +237,8 @@ ColorHSV<Real> ColorRGB<Real>::toHSV() const
         {
             h += Real(6);
         }
-        else if (h >= Real(6))
+
+        if (h >= Real(6)) // also when a tiny negative hue was rounded up
         {
             h -= Real(6);
         }
-- 
2.43.0


From 81ab1db8a44340fef550e19b85f60b33b46fafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:40 +0000
Subject: [PATCH 38/43] fix: Quat::log of a small rotation keeps its vector
 part instead of returning zero

---
 libs/mathlib/include/impl/quat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index e470e04..e0ee857 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -642,7 +642,9 @@ Quat<Real> Quat<Real>::log(const Quat &q)
 	}
 	else
 	{
-		ret.x = ret.y = ret.z = Real(0);
+		ret.x = q.x; // a / sin(a) tends to 1
+		ret.y = q.y;
+		ret.z = q.z;
 	}
 	return ret;
 }
-- 
2.43.0


From 14c737c5ac950b15634f3c894e0986e30a7c11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:11 +0000
Subject: [PATCH 39/43] fix: BezierSegment3::split wrote control points it
 still had to read when a half was the segment itself

---
 libs/mathlib/include/impl/spline3.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 2d2de86..1a25997 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -283,6 +283,14 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 {
 	assert(a >= Real(0) && a <= Real(1));
 
+	if (&start == this || &end == this)
+	{
+		// the control points must not change while they are read
+		const BezierSegment3 segment = *this;
+		segment.split(a, start, end);
+		return;
+	}
+
 	Real a2 = a * a;
 	Real a3 = a * a2;
 
-- 
2.43.0


From 0eddac33b322b970fe060ecf78193669ede15fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 40/43] fix: moving a box by one of its own corners moved the
 other corner by the corner already moved

---
 libs/mathlib/include/impl/aabb2.h  | 10 ++++++----
 libs/mathlib/include/impl/aabb3.h  | 10 ++++++----
 libs/mathlib/include/impl/caabb2.h |  3 ++-
 libs/mathlib/include/impl/caabb3.h |  3 ++-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index 92b0a81..1e751dd 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -204,16 +204,18 @@ AABB2<Real> AABB2<Real>::fromUnion(const AABB2<Real>& a, const AABB2<Real>& b)
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator+= (const Vec2<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec2<Real> offset = t; // t can be a corner of this box
+	inf += offset;
+    sup += offset;
 	return *this;
 }
 
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator-= (const Vec2<Real>& t)
 {
-	inf -= t;
-    sup -= t;
+	const Vec2<Real> offset = t; // t can be a corner of this box
+	inf -= offset;
+    sup -= offset;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 2951a51..5ec8501 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -216,16 +216,18 @@ AABB3<Real> AABB3<Real>::fromUnion(const AABB3<Real>& a, const AABB3<Real>& b)
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator+= (const Vec3<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec3<Real> offset = t; // t can be a corner of this box
+	inf += offset;
+    sup += offset;
 	return *this;
 }
 
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator-= (const Vec3<Real>& t)
 {
-    inf -= t;
-    sup -= t;
+	const Vec3<Real> offset = t; // t can be a corner of this box
+    inf -= offset;
+    sup -= offset;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/caabb2.h b/libs/mathlib/include/impl/caabb2.h
index fb9f8e8..57d03ac 100644
--- a/libs/mathlib/include/impl/caabb2.h
+++ b/libs/mathlib/include/impl/caabb2.h
@@ -34,8 +34,9 @@ CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& point)
 template <class Real>
 CAABB2<Real>& CAABB2<Real>::set(const Vec2<Real>& center, const Vec2<Real>& size)
 {
+	const Vec2<Real> half = size * Real(0.5); // center and size can be members of this box
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = half;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/caabb3.h b/libs/mathlib/include/impl/caabb3.h
index 02c7fd7..dfa0a48 100644
--- a/libs/mathlib/include/impl/caabb3.h
+++ b/libs/mathlib/include/impl/caabb3.h
@@ -34,8 +34,9 @@ CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& point)
 template <class Real>
 CAABB3<Real>& CAABB3<Real>::set(const Vec3<Real>& center, const Vec3<Real>& size)
 {
+	const Vec3<Real> half = size * Real(0.5); // center and size can be members of this box
 	this->center = center;
-	this->extents = size * Real(0.5);
+	this->extents = half;
 	return *this;
 }
 
-- 
2.43.0


From 56e5d069506e2658dafd8a704b81da17e1158e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 41/43] fix: setting a curve segment from its own points
 (reversing it) read points already overwritten

---
 libs/mathlib/include/impl/spline3.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 1a25997..20b230c 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -23,10 +23,8 @@ HermiteSplineSegment3<Real>::HermiteSplineSegment3(const Vec3<Real>& p1, const V
 template <class Real>
 void HermiteSplineSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p4, const Vec3<Real>& r1, const Vec3<Real>& r4)
 {
-	P1 = p1;
-	P4 = p4;
-	R1 = r1;
-	R4 = r4;
+	// the arguments can be points and tangents of this segment
+	*this = HermiteSplineSegment3(p1, p4, r1, r4);
 }
 
 template <class Real>
@@ -160,10 +158,8 @@ BezierSegment3<Real>::BezierSegment3(const Vec3<Real>& p1, const Vec3<Real>& p2,
 template <class Real>
 void BezierSegment3<Real>::set(const Vec3<Real>& p1, const Vec3<Real>& p2, const Vec3<Real>& p3, const Vec3<Real>& p4)
 {
-	P1 = p1;
-	P2 = p2;
-	P3 = p3;
-	P4 = p4;
+	// the arguments can be control points of this segment
+	*this = BezierSegment3(p1, p2, p3, p4);
 }
 
 template <class Real>
-- 
2.43.0


From 78f81900fb47cad196e9b6042c5e1231215e1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 42/43] fix: setting or scaling a matrix with its own columns
 read columns already overwritten

---
 libs/mathlib/include/impl/mat2.h  |  8 +++++---
 libs/mathlib/include/impl/mat3.h  | 12 +++++++-----
 libs/mathlib/include/impl/mat34.h | 24 +++++++++++++++---------
 libs/mathlib/include/impl/mat4.h  |  7 ++++---
 4 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 1ac39e8..fe8fc8a 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -200,8 +200,9 @@ Mat2<Real>& Mat2<Real>::set(const Mat2<Real>& m)
 template <class Real>
 Mat2<Real>& Mat2<Real>::set(const Vec2<Real>& x, const Vec2<Real>& y)
 {
+	const Vec2<Real> newY = y; // y can be a column of this matrix
 	this->x = x;
-	this->y = y;
+	this->y = newY;
 	return optimize();
 }
 
@@ -236,8 +237,9 @@ Mat2<Real>& Mat2<Real>::slerpMaxAngle(const Mat2& a, const Mat2& b, Real maxAngl
 template <class Real>
 Mat2<Real>& Mat2<Real>::scale(const Vec2<Real>& coefficients)
 {
-	x *= coefficients.x;
-	y *= coefficients.y;
+	const Vec2<Real> k = coefficients; // can be a column of this matrix
+	x *= k.x;
+	y *= k.y;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 8a42fc7..94f0b8a 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -95,9 +95,10 @@ Mat3<Real>& Mat3<Real>::set(const Quat<Real>& q)
 template <class Real>
 Mat3<Real>& Mat3<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3<Real>& z)
 {
+	const Vec3<Real> newY = y, newZ = z; // the arguments can be columns of this matrix
 	this->x = x;
-	this->y = y;
-	this->z = z;
+	this->y = newY;
+	this->z = newZ;
 	return optimize();
 }
 
@@ -412,9 +413,10 @@ bool Mat3<Real>::operator!=(const Mat3 &m) const
 template <class Real>
 Mat3<Real>& Mat3<Real>::scale(const Vec3<Real>& coefficients)
 {
-	x *= coefficients.x;
-	y *= coefficients.y;
-	z *= coefficients.z;
+	const Vec3<Real> k = coefficients; // can be a column of this matrix
+	x *= k.x;
+	y *= k.y;
+	z *= k.z;
 	return optimize();
 }
 
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index 9c11264..4d2fe04 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -64,8 +64,9 @@ Mat34<Real>& Mat34<Real>::set(const Mat34& m)
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Mat3<Real> &rs, const Vec3<Real> &t)
 {
+	const Vec3<Real> newT = t; // can be a column of this matrix
 	this->rs = rs;
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
@@ -73,8 +74,9 @@ template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &x, const Vec3<Real> &y,
                               const Vec3<Real> &z, const Vec3<Real> &t)
 {
+	const Vec3<Real> newT = t; // can be a column of this matrix
 	this->rs.set(x, y, z);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
@@ -89,24 +91,27 @@ Mat34<Real>& Mat34<Real>::set(Coord ecoord, const Vec3<Real>& exact, Coord acoor
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Vec3<Real> &axis, Real angle, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // can be a column of this matrix
 	this->rs.set(axis, angle);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(Coord axis, Real angle, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // can be a column of this matrix
 	this->rs.set(axis, angle);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
 template <class Real>
 Mat34<Real>& Mat34<Real>::set(const Quat<Real> &q, const Vec3<Real>& t)
 {
+	const Vec3<Real> newT = t; // can be a column of this matrix
 	this->rs.set(q);
-	this->t = t;
+	this->t = newT;
 	return *this;
 }
 
@@ -330,10 +335,11 @@ Mat34<Real>& Mat34<Real>::scale(const Vec3<Real>& coefficients)
 {
 	// r * v = scale * (rs * v + t)
 	//       = (scale * rs) * v + (scale * t)
-	rs.scale(coefficients);
-	t.x *= coefficients.x;
-	t.y *= coefficients.y;
-	t.z *= coefficients.z;
+	const Vec3<Real> k = coefficients; // can be a column of this matrix
+	rs.scale(k);
+	t.x *= k.x;
+	t.y *= k.y;
+	t.z *= k.z;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index f8aa7fc..c0ae7bf 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -140,10 +140,11 @@ Mat4<Real>& Mat4<Real>::set(const Vec3<Real>& x, const Vec3<Real>& y, const Vec3
 template <class Real>
 Mat4<Real>& Mat4<Real>::set(const Vec4<Real>& x, const Vec4<Real>& y, const Vec4<Real>& z, const Vec4<Real>& t)
 {
+	const Vec4<Real> newY = y, newZ = z, newT = t; // the arguments can be columns of this matrix
 	this->x.set(x);
-	this->y.set(y);
-	this->z.set(z);
-	this->t.set(t);
+	this->y.set(newY);
+	this->z.set(newZ);
+	this->t.set(newT);
 	return optimize();
 }
 
-- 
2.43.0


From 637e6f1bd6b61073033f1b028f07e93c99254a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 43/43] fix: setting a plane through the point its own normal
 holds used the new normal

---
 libs/mathlib/include/impl/plane.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 0ea12d5..9447cf2 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -39,8 +39,9 @@ Plane<Real>& Plane<Real>::set(const Vec3<Real>& normal, Real distance)
 template <class Real>
 Plane<Real>& Plane<Real>::set(const Vec3<Real>& point, const Vec3<Real>& normal)
 {
-    this->normal = normal.normalized();
-    this->d = this->normal * point;
+    const Vec3<Real> n = normal.normalized(); // point can be the normal of this plane
+    this->d = n * point;
+    this->normal = n;
     return *this;
 }
 
-- 
2.43.0

