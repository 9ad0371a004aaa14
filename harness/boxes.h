// Uniform access to the 2D and 3D geometry classes.
#pragma once
#include "mats.h"
using ml::AABB2; using ml::AABB3; using ml::CAABB2; using ml::CAABB3; using ml::Circle; using ml::Sphere; using ml::Ray2; using ml::Ray3; using ml::Line2; using ml::Line3; using ml::Plane; using ml::Tri2;
template <class R, int N> struct G;
template <class R> struct G<R, 2>
{
	enum { n = 2 };
	typedef Vec2<R> V; typedef AABB2<R> A; typedef CAABB2<R> C; typedef Circle<R> S; typedef Ray2<R> Ray; typedef Line2<R> Line;
	static V mk(const R* p) { return mk2(p); }
	static V fill(R x) { return V(x, x); }
	static S inner(const A& b) { return b.innerCircle(); } static S outer(const A& b) { return b.outerCircle(); } static R measure(const A& b) { return b.area(); }
	static S inner(const C& b) { return b.innerCircle(); } static S outer(const C& b) { return b.outerCircle(); } static R measure(const C& b) { return b.area(); }
	static C fromInfSup(const V& i, const V& s) { return C::fromInfSup(i, s); }
	static const char* name() { return "2"; }
};
template <class R> struct G<R, 3>
{
	enum { n = 3 };
	typedef Vec3<R> V; typedef AABB3<R> A; typedef CAABB3<R> C; typedef Sphere<R> S; typedef Ray3<R> Ray; typedef Line3<R> Line;
	static V mk(const R* p) { return mk3(p); }
	static V fill(R x) { return V(x, x, x); }
	static S inner(const A& b) { return b.innerSphere(); } static S outer(const A& b) { return b.outerSphere(); } static R measure(const A& b) { return b.volume(); }
	static S inner(const C& b) { return b.innerSphere(); } static S outer(const C& b) { return b.outerSphere(); } static R measure(const C& b) { return b.volume(); }
	static C fromInfSup(const V& i, const V& s) { return C::from(A(i, s)); }
	static const char* name() { return "3"; }
};
template <int N> struct OB { LD lo[N], hi[N]; }; // closed box
template <int N> std::ostream& operator<<(std::ostream& s, const OB<N>& b) { s << "box<"; for (int i = 0; i < N; ++i) s << (i ? ", " : "") << (double)b.lo[i] << ".." << (double)b.hi[i]; return s << ">"; }
template <class R> std::ostream& operator<<(std::ostream& s, const AABB2<R>& b) { return s << "[" << b.inf << " .. " << b.sup << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const AABB3<R>& b) { return s << "[" << b.inf << " .. " << b.sup << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const CAABB2<R>& b) { return s << "[" << b.center << " +- " << b.extents << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const CAABB3<R>& b) { return s << "[" << b.center << " +- " << b.extents << "]"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Circle<R>& b) { return s << "O(" << b.center << " r " << b.radius << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Sphere<R>& b) { return s << "O(" << b.center << " r " << b.radius << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Ray2<R>& b) { return s << "ray(" << b.start << " dir " << b.direction << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Ray3<R>& b) { return s << "ray(" << b.start << " dir " << b.direction << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Line2<R>& b) { return s << "line(" << b.start << " - " << b.end << ")"; }
template <class R> std::ostream& operator<<(std::ostream& s, const Line3<R>& b) { return s << "line(" << b.start << " - " << b.end << ")"; }

// long point lists: the extreme of every coordinate, in both directions, at every position of the list (long lists: at the positions
// around its ends, its middle and the powers of two)
template <class V, int N, class F> void longLists(F f)
{
	typedef typename V::Real R;
	std::vector<int> ns; for (int n = 4; n <= (thorough() ? 66 : 20); ++n) ns.push_back(n);
	for (int n : { 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 70000 }) if (n > ns.back()) ns.push_back(n);
	for (int n : ns)
	{
		std::vector<V> p(n); for (int i = 0; i < n; ++i) for (int c = 0; c < N; ++c) (&p[i].x)[c] = R((i * (7 + 4 * c)) % 13 * 0.5);
		std::vector<int> at; if (n <= 66) for (int i = 0; i < n; ++i) at.push_back(i); else { for (int b = 1; b < n; b *= 2) { at.push_back(b - 1); at.push_back(b); } at.push_back(n / 2 + 1); at.push_back(n - 2); at.push_back(n - 1); }
		if (n > 2000) at = { n - 1 };
		for (int i : at) for (int c = 0; c < N; ++c) for (R x : { R(-50), R(60) }) { R& y = (&p[i].x)[c]; R old = y; y = x; f(n, p.data()); y = old; }
	}
}
