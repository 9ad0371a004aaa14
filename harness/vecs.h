// Helpers to treat Vec2/Vec3/Vec4 uniformly in harnesses.
#pragma once
#include "mc.h"
#include <ostream>
#include "mathlib.h"

using namespace mc;
namespace ml = mathlib;
using mathlib::Coord;
using mathlib::Axis;
using mathlib::Vec2; using mathlib::Vec3; using mathlib::Vec4;
using mathlib::Mat2; using mathlib::Mat3; using mathlib::Mat4; using mathlib::Mat34; using mathlib::Quat;

#ifndef MC_REAL
#define MC_REAL float
#endif

template <class R> std::ostream& operator<<(std::ostream& s, const Vec2<R>& v) { return s << "(" << v.x << "," << v.y << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Vec3<R>& v) { return s << "(" << v.x << "," << v.y << "," << v.z << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Vec4<R>& v) { return s << "(" << v.x << "," << v.y << "," << v.z << "," << v.w << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Mat2<R>& m) { return s << "[" << m.x << m.y << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Mat3<R>& m) { return s << "[" << m.x << m.y << m.z << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Mat34<R>& m) { return s << "[" << m.rs.x << m.rs.y << m.rs.z << m.t << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Mat4<R>& m) { return s << "[" << m.x << m.y << m.z << m.t << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Quat<R>& q) { return s << "{" << q.x << "," << q.y << "," << q.z << ";" << q.w << "}"; }
inline std::ostream& operator<<(std::ostream& s, Coord c) { return s << "Coord" << (int)c; }
inline std::ostream& operator<<(std::ostream& s, Axis c) { return s << "Axis" << (int)c; }
inline std::ostream& operator<<(std::ostream& s, const E& e) { return s << (double)e.v; }

template <class R> Vec2<R> mk2(const R* p) { return Vec2<R>(p[0], p[1]); }
template <class R> Vec3<R> mk3(const R* p) { return Vec3<R>(p[0], p[1], p[2]); }
template <class R> Vec4<R> mk4(const R* p) { return Vec4<R>(p[0], p[1], p[2], p[3]); }

template <class R> R comp(const Vec2<R>& v, int i) { return i == 0 ? v.x : v.y; }
template <class R> R comp(const Vec3<R>& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
template <class R> R comp(const Vec4<R>& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }

template <class V> struct Dim;
template <class R> struct Dim<Vec2<R>> { enum { n = 2 }; typedef R Real; static Vec2<R> make(const R* p) { return mk2(p); } };
template <class R> struct Dim<Vec3<R>> { enum { n = 3 }; typedef R Real; static Vec3<R> make(const R* p) { return mk3(p); } };
template <class R> struct Dim<Vec4<R>> { enum { n = 4 }; typedef R Real; static Vec4<R> make(const R* p) { return mk4(p); } };

// small vector of oracle numbers
template <int N> struct EV
{
	E c[N];
	E& operator[](int i) { return c[i]; }
	const E& operator[](int i) const { return c[i]; }
};
template <int N> EV<N> operator+(const EV<N>& a, const EV<N>& b) { EV<N> r; for (int i = 0; i < N; ++i) r[i] = a[i] + b[i]; return r; }
template <int N> EV<N> operator-(const EV<N>& a, const EV<N>& b) { EV<N> r; for (int i = 0; i < N; ++i) r[i] = a[i] - b[i]; return r; }
template <int N> EV<N> operator*(const EV<N>& a, E k) { EV<N> r; for (int i = 0; i < N; ++i) r[i] = a[i] * k; return r; }
template <int N> EV<N> operator/(const EV<N>& a, E k) { EV<N> r; for (int i = 0; i < N; ++i) r[i] = a[i] / k; return r; }
template <int N> E dot(const EV<N>& a, const EV<N>& b) { E r; for (int i = 0; i < N; ++i) r += a[i] * b[i]; return r; }
inline EV<3> cross(const EV<3>& a, const EV<3>& b)
{
	EV<3> r;
	r[0] = a[1] * b[2] - a[2] * b[1];
	r[1] = a[2] * b[0] - a[0] * b[2];
	r[2] = a[0] * b[1] - a[1] * b[0];
	return r;
}
template <class R> EV<2> ev(const Vec2<R>& v) { EV<2> r; r[0] = E(v.x); r[1] = E(v.y); return r; }
template <class R> EV<3> ev(const Vec3<R>& v) { EV<3> r; r[0] = E(v.x); r[1] = E(v.y); r[2] = E(v.z); return r; }
template <class R> EV<4> ev(const Vec4<R>& v) { EV<4> r; r[0] = E(v.x); r[1] = E(v.y); r[2] = E(v.z); r[3] = E(v.w); return r; }
template <int N> std::ostream& operator<<(std::ostream& s, const EV<N>& v) { s << "<"; for (int i = 0; i < N; ++i) s << (i ? "," : "") << v[i]; return s << ">"; }

template <class V, int N> bool nearv(const V& got, const EV<N>& want, LD k = 32)
{
	for (int i = 0; i < N; ++i) if (!near(comp(got, i), want[i], k)) return false;
	return true;
}
// tolerance relative to the largest component (for rotations etc.)
template <class V, int N> bool closev(const V& got, const EV<N>& want, LD k = 64)
{
	LD m = 0;
	for (int i = 0; i < N; ++i) m = std::max(m, want[i].m);
	for (int i = 0; i < N; ++i)
	{
		LD g = comp(got, i);
		if (!(fabsl(g - want[i].v) <= k * eps<typename Dim<V>::Real>() * m + 64 * (LD)std::numeric_limits<typename Dim<V>::Real>::denorm_min())) return false;
	}
	return true;
}
template <class V> bool same(const V& a, const V& b)
{
	for (int i = 0; i < Dim<V>::n; ++i) if (!(comp(a, i) == comp(b, i))) return false;
	return true;
}

// angles: multiples of 15 degrees over two turns each way, plus a few odd ones
inline std::vector<LD> angle_grid(bool fine = false)
{
	const LD PI = acosl(-1.0L);
	std::vector<LD> r;
	int n = fine ? 48 : 24;
	for (int i = -2 * n; i <= 2 * n; i += (fine ? 1 : 1)) r.push_back(i * 2 * PI / n);
	for (LD x : { 0.001L, -0.001L, 0.02L, -0.037L, 1.0L, -1.0L, 2.5L, -2.9L, 3.1L, -3.1L, 7.0L, -20.0L, 1e-5L }) r.push_back(x);
	return r;
}
