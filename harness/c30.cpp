// C30: results may be stored over operands: for every operation that changes an object or fills a result passed by reference, and
// every way its operands can be that object or members of it, the outcome is the one for separate operands of equal value.
#include "mc.h"
#include "mathlib.h"
#include <memory>
using namespace mc;
using namespace mathlib;
typedef MC_REAL R;
typedef Vec2<R> V2; typedef Vec3<R> V3; typedef Vec4<R> V4; typedef Quat<R> Q;
typedef Mat2<R> M2; typedef Mat3<R> M3; typedef Mat34<R> M34; typedef Mat4<R> M4;
struct C8 { V3 v[8]; }; // the eight corners of a frustum

// --- the object members of every type -----------------------------------------------------------
template <class T> const void* id() { static char c; return &c; }
struct Part { const void* type; void* p; std::string name; };
typedef std::vector<Part> Parts;
template <class T> void part(Parts& l, T& o, const std::string& n);
#define LEAF(T) static void walk(Parts&, T&, const std::string&) {}
#define WALK(T, ...) static void walk(Parts& l, T& o, const std::string& n) { __VA_ARGS__; }
#define P(m) part(l, o.m, n + "." #m)
LEAF(V2) LEAF(V3) LEAF(V4) LEAF(Q) LEAF(ColorRGB<R>) LEAF(ColorRGBA<R>) LEAF(ColorHSV<R>) LEAF(C8)
WALK(M2, P(x), P(y)) WALK(M3, P(x), P(y), P(z)) WALK(M34, P(rs), P(t)) WALK(M4, P(x), P(y), P(z), P(t))
WALK(AABB2<R>, P(inf), P(sup)) WALK(AABB3<R>, P(inf), P(sup)) WALK(CAABB2<R>, P(center), P(extents)) WALK(CAABB3<R>, P(center), P(extents))
WALK(Circle<R>, P(center)) WALK(Sphere<R>, P(center)) WALK(Plane<R>, P(normal)) WALK(Line2<R>, P(start), P(end)) WALK(Line3<R>, P(start), P(end))
WALK(Ray2<R>, P(start), P(direction)) WALK(Ray3<R>, P(start), P(direction)) WALK(Tri2<R>, P(a), P(b), P(c))
#define PG(m) part(l, const_cast<V3&>(o.m()), n + "." #m "()")
WALK(HermiteSplineSegment3<R>, PG(p1), PG(p4), PG(r1), PG(r4)) WALK(BezierSegment3<R>, PG(p1), PG(p2), PG(p3), PG(p4))
WALK(Frustum<R>, part(l, *(C8*)o.corners, n + ".corners"), P(corners[0]), P(corners[3]), P(corners[7]), P(planes[0]), P(planes[5]))
template <class A, class B> struct Two { A a; B b; }; // two objects, either of which may be the target
template <class A, class B> void walk(Parts& l, Two<A, B>& o, const std::string& n) { P(a); P(b); }
template <class T> void part(Parts& l, T& o, const std::string& n) { l.push_back(Part{ id<T>(), &o, n }); walk(l, o, n); }

// --- what an observer sees -----------------------------------------------------------------------
struct Out
{
	R v[96]; int n = 0;
	Out& operator<<(R x) { v[n++] = x; return *this; }
	Out& operator<<(bool x) { v[n++] = R(x); return *this; }
	Out& operator<<(int x) { v[n++] = R(x); return *this; }
	const R* begin() const { return v; }
	const R* end() const { return v + n; }
	Out& operator<<(const V2& x) { return *this << x.x << x.y; }
	Out& operator<<(const V3& x) { return *this << x.x << x.y << x.z; }
	Out& operator<<(const V4& x) { return *this << x.x << x.y << x.z << x.w; }
	Out& operator<<(const Q& x) { return *this << x.x << x.y << x.z << x.w; }
	Out& operator<<(const M2& m) { return *this << m.x << m.y; }
	Out& operator<<(const M3& m) { return *this << m.x << m.y << m.z; }
	Out& operator<<(const M34& m) { return *this << m.rs << m.t; }
	Out& operator<<(const M4& m) { return *this << m.x << m.y << m.z << m.t; }
	Out& operator<<(const AABB2<R>& b) { return *this << b.inf << b.sup; }
	Out& operator<<(const AABB3<R>& b) { return *this << b.inf << b.sup; }
	Out& operator<<(const CAABB2<R>& b) { return *this << b.center << b.extents; }
	Out& operator<<(const CAABB3<R>& b) { return *this << b.center << b.extents; }
	Out& operator<<(const Circle<R>& b) { return *this << b.center << b.radius; }
	Out& operator<<(const Sphere<R>& b) { return *this << b.center << b.radius; }
	Out& operator<<(const Plane<R>& b) { return *this << b.normal << b.d; }
	Out& operator<<(const Line2<R>& b) { return *this << b.start << b.end; }
	Out& operator<<(const Line3<R>& b) { return *this << b.start << b.end; }
	Out& operator<<(const Ray2<R>& b) { return *this << b.start << b.direction; }
	Out& operator<<(const Ray3<R>& b) { return *this << b.start << b.direction; }
	Out& operator<<(const Tri2<R>& b) { return *this << b.a << b.b << b.c; }
	Out& operator<<(const Frustum<R>& f) { for (auto& c : f.corners) *this << c; for (auto& p : f.planes) *this << p; return *this; }
	Out& operator<<(const ColorRGB<R>& c) { return *this << c.r << c.g << c.b; }
	Out& operator<<(const ColorRGBA<R>& c) { return *this << c.r << c.g << c.b << c.a; }
	Out& operator<<(const ColorHSV<R>& c) { return *this << c.h << c.s << c.v; }
	Out& operator<<(const HermiteSplineSegment3<R>& b) { return *this << b.p1() << b.p4() << b.r1() << b.r4(); }
	Out& operator<<(const BezierSegment3<R>& b) { return *this << b.p1() << b.p2() << b.p3() << b.p4(); }
	Out& operator<<(const C8& c) { for (auto& x : c.v) *this << x; return *this; }
	template <class A, class B> Out& operator<<(const Two<A, B>& t) { return *this << t.a << t.b; }
};
static bool same(const Out& a, const Out& b)
{
	if (a.n != b.n) return false;
	if (!std::memcmp(a.v, b.v, a.n * sizeof(R))) return true;
	LD m = 1; for (R x : a) if (x == x && fabsl(x) < (LD)std::numeric_limits<R>::max()) m = std::max(m, fabsl(x));
	for (int i = 0; i < a.n; ++i)
	{
		R x = a.v[i], y = b.v[i];
		if (x == y || (x != x && y != y)) continue;
		if (!(fabsl((LD)x - y) <= 512 * eps<R>() * m)) return false;
	}
	return true;
}
static bool finite(const Out& a) { for (R x : a) if (!(fabsl(x) < 1e12L)) return false; return true; }

// --- building objects from numbers -----------------------------------------------------------------
static int MODE = 0; // 0: any elements, 1: rotations
static void make(V2& o, const R* p) { o = V2(p[0], p[1]); if (MODE) o = V2(std::cos(p[0]), std::sin(p[0])); }
static void make(V3& o, const R* p) { o = V3(p[0], p[1], p[2]); if (MODE) { o.z += R(0.1); o /= std::sqrt(o.x * o.x + o.y * o.y + o.z * o.z) == 0 ? R(1) : std::sqrt(o.x * o.x + o.y * o.y + o.z * o.z); } }
static void make(V4& o, const R* p) { o = V4(p[0], p[1], p[2], p[3]); }
static void make(Q& o, const R* p) { R n = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3]); if (n < R(1e-3)) { o = Q::One; return; } o.x = p[0] / n; o.y = p[1] / n; o.z = p[2] / n; o.w = p[3] / n; }
static void make(M2& o, const R* p) { if (MODE) o.set(p[0]); else o.set(V2(p[0], p[1]), V2(p[2], p[3])); }
static void make(M3& o, const R* p) { if (MODE) { Q q; make(q, p); o.set(q); } else o.set(V3(p[0], p[1], p[2]), V3(p[3], p[4], p[5]), V3(p[6], p[7], p[8])); }
static void make(M34& o, const R* p) { M3 m; make(m, p); o.set(m, V3(p[9], p[10], p[11])); }
static void make(M4& o, const R* p) { if (MODE) { M3 m; make(m, p); o.set(m, V3(p[12], p[13], p[14])); } else o.set(V4(p[0], p[1], p[2], p[3]), V4(p[4], p[5], p[6], p[7]), V4(p[8], p[9], p[10], p[11]), V4(p[12], p[13], p[14], p[15])); }
template <class B> void makeBox2(B& o, const R* p) { o.inf = V2(std::min(p[0], p[2]), std::min(p[1], p[3])); o.sup = V2(std::max(p[0], p[2]), std::max(p[1], p[3])); }
static void make(AABB2<R>& o, const R* p) { makeBox2(o, p); }
static void make(AABB3<R>& o, const R* p) { for (int i = 0; i < 3; ++i) { o.inf[Coord(i)] = std::min(p[i], p[i + 3]); o.sup[Coord(i)] = std::max(p[i], p[i + 3]); } }
static void make(CAABB2<R>& o, const R* p) { o.center = V2(p[0], p[1]); o.extents = V2(std::fabs(p[2]), std::fabs(p[3])); }
static void make(CAABB3<R>& o, const R* p) { o.center = V3(p[0], p[1], p[2]); o.extents = V3(std::fabs(p[3]), std::fabs(p[4]), std::fabs(p[5])); }
static void make(Circle<R>& o, const R* p) { o.center = V2(p[0], p[1]); o.radius = std::fabs(p[2]); }
static void make(Sphere<R>& o, const R* p) { o.center = V3(p[0], p[1], p[2]); o.radius = std::fabs(p[3]); }
static V3 unit(const R* p) { V3 v(p[0], p[1], p[2]); R n = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); return n < R(1e-3) ? V3(0, 0, 1) : v / n; }
static void make(Plane<R>& o, const R* p) { o.normal = unit(p); o.d = p[3]; }
static void make(Line2<R>& o, const R* p) { o.start = V2(p[0], p[1]); o.end = V2(p[2], p[3]); }
static void make(Line3<R>& o, const R* p) { o.start = V3(p[0], p[1], p[2]); o.end = V3(p[3], p[4], p[5]); }
static void make(Ray2<R>& o, const R* p) { o.start = V2(p[0], p[1]); R n = std::hypot(p[2], p[3]); o.direction = n < R(1e-3) ? V2(1, 0) : V2(p[2] / n, p[3] / n); }
static void make(Ray3<R>& o, const R* p) { o.start = V3(p[0], p[1], p[2]); o.direction = unit(p + 3); }
static void make(Tri2<R>& o, const R* p) { o.a = V2(p[0], p[1]); o.b = V2(p[2], p[3]); o.c = V2(p[4], p[5]); }
static void make(ColorRGB<R>& o, const R* p) { o.set(p[0], p[1], p[2]); }
static void make(ColorRGBA<R>& o, const R* p) { o.set(p[0], p[1], p[2], p[3]); }
static void make(ColorHSV<R>& o, const R* p) { o.set(std::fabs(p[0]) * 20, R(0.5), std::fabs(p[2])); o.s = std::fabs(p[1]) / 8; while (o.h >= 360) o.h /= 2; }
static void make(HermiteSplineSegment3<R>& o, const R* p) { o = HermiteSplineSegment3<R>(V3(p[0], p[1], p[2]), V3(p[3], p[4], p[5]), V3(p[6], p[7], p[8]), V3(p[9], p[10], p[11])); }
static void make(BezierSegment3<R>& o, const R* p) { o = BezierSegment3<R>(V3(p[0], p[1], p[2]), V3(p[3], p[4], p[5]), V3(p[6], p[7], p[8]), V3(p[9], p[10], p[11])); }
static void make(C8& o, const R* p) { for (int i = 0; i < 8; ++i) { R s = i < 4 ? 1 : R(4) + std::fabs(p[3]); o.v[i] = V3((i % 4 < 2 ? -s : s) + p[0], (i % 4 == 0 || i % 4 == 3 ? -s : s) + p[1], s + p[2]); } }
static void make(Frustum<R>& o, const R* p) { C8 c; make(c, p); o.set(c.v); }
template <class A, class B> void make(Two<A, B>& o, const R* p) { make(o.a, p); make(o.b, p + 5); }
// numbers an object of the type is made of
template <class T> struct Dim { enum { n = sizeof(T) / sizeof(R) }; };
template <> struct Dim<M2> { enum { n = 4 }; }; template <> struct Dim<M3> { enum { n = 9 }; }; template <> struct Dim<M34> { enum { n = 12 }; }; template <> struct Dim<M4> { enum { n = 16 }; };
template <> struct Dim<Frustum<R>> { enum { n = 4 }; }; template <> struct Dim<C8> { enum { n = 4 }; };
template <class A, class B> struct Dim<Two<A, B>> { enum { n = 5 + (int)Dim<B>::n }; };
// operands outside the object
template <class A> const std::vector<A>& pool()
{
	static const std::vector<A>* r[2];
	if (!r[MODE])
	{
		static const R p[2][16] = { { R(1.5), R(-0.5), 2, R(0.75), R(-1.25), R(0.5), R(0.25), 3, -2, 1, R(-0.75), R(1.75), R(0.125), R(-2.5), R(0.375), 1 },
			{ R(-0.25), 2, R(0.5), -1, R(1.5), R(-3), 1, R(0.625), R(2.25), R(-0.5), 4, R(0.875), R(-1.125), R(0.75), 1, R(-0.375) } };
		auto v = new std::vector<A>; for (auto& q : p) { A a; make(a, q); v->push_back(a); }
		r[MODE] = v;
	}
	return *r[MODE];
}

// --- operations ------------------------------------------------------------------------------------
template <class T> struct Op
{
	std::string name; int mode; int n;
	const void* types[4]; const void* (*pools[4])(int); void (*copies[4])(void*, const void*);
	void (*f)(); void (*run)(void (*)(), T&, Out&, const void* const*);
};
template <size_t... I> struct Seq {};
template <size_t N, size_t... I> struct Mk : Mk<N - 1, N - 1, I...> {};
template <size_t... I> struct Mk<0, I...> { typedef Seq<I...> type; };
template <class T, class... A, size_t... I> void call(void (*f)(T&, Out&, const A&...), T& o, Out& out, const void* const* a, Seq<I...>) { f(o, out, *(const A*)a[I]...); }
template <class T, class... A> void trampoline(void (*f)(), T& o, Out& out, const void* const* a) { call((void (*)(T&, Out&, const A&...))f, o, out, a, typename Mk<sizeof...(A)>::type()); }
template <class A> const void* pooled(int i) { return &pool<A>()[i]; }
template <class A> void copied(void* d, const void* s) { *(A*)d = *(const A*)s; }
template <class T> std::vector<Op<T>>& ops() { static std::vector<Op<T>> v; return v; }
template <class T, class... A> void op(const std::string& name, int mode, void (*f)(T&, Out&, const A&...))
{
	Op<T> o{ name, mode, sizeof...(A), { id<A>()... }, { pooled<A>... }, { copied<A>... }, (void (*)())f, trampoline<T, A...> };
	ops<T>().push_back(o);
}
// operations that are defined for rotations only
template <class T> bool rotation(const T&) { return true; }
static bool unitAt(R v, R w) { return std::fabs(v - w) < (sizeof(R) == 8 ? R(1e-9) : R(1e-6)); }
static bool rotation(const Q& q) { return unitAt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1); }
static bool rotation(const M2& m) { return unitAt(m.x * m.x, 1) && unitAt(m.y * m.y, 1) && unitAt(m.x % m.y, 1); }
static bool rotation(const M3& m) { return unitAt(m.x * m.x, 1) && unitAt(m.y * m.y, 1) && unitAt(m.x * m.y, 0) && unitAt((m.x % m.y) * m.z, 1) && unitAt(m.z * m.z, 1); }
static bool rotation(const M34& m) { return rotation(m.rs); }
struct alignas(64) Room { char c[1024]; };
static Room ROOM[4];

template <class T> struct Runner
{
	T o; Parts parts; Counter n;
	typedef std::array<signed char, 4> Choice; // per operand; >= 0: the object or a member of it, < 0: a separate value
	struct Call { const Call* before; size_t k; Choice c; };
	std::string start;
	Runner() { part(parts, o, "o"); }
	std::vector<std::vector<Choice>> choices; // of every operation, those in which an operand overlaps the target
	void prepare()
	{
		for (auto& p : ops<T>())
		{
			std::vector<Choice> r(1), c;
			for (int i = 0; i < p.n; ++i)
			{
				std::vector<Choice> q;
				for (auto b : r)
				{
					for (int j = 0; j < (int)parts.size(); ++j) if (parts[j].type == p.types[i]) { b[i] = (signed char)j; q.push_back(b); }
					for (int j = -1; j >= (p.n > 2 ? -1 : -2); --j) { b[i] = (signed char)j; q.push_back(b); }
				}
				r = q;
			}
			for (auto& b : r) { bool m = false; for (int i = 0; i < p.n; ++i) m = m || b[i] >= 0; if (m) c.push_back(b); }
			choices.push_back(c);
		}
	}
	std::string text(const Call* x)
	{
		if (!x) return start;
		const Op<T>& p = ops<T>()[x->k];
		std::string s = text(x->before) + "; " + p.name + "(";
		for (int i = 0; i < p.n; ++i) s += (i ? ", " : "") + (x->c[i] >= 0 ? parts[x->c[i]].name : "v" + std::to_string(-x->c[i]));
		return s + ")";
	}
	void apply(const Op<T>& p, const Choice& c, Out& out, bool separate)
	{
		const void* a[4];
		for (int i = 0; i < p.n; ++i)
		{
			a[i] = c[i] >= 0 ? parts[c[i]].p : p.pools[i](-c[i] - 1);
			if (separate) { p.copies[i](&ROOM[i], a[i]); a[i] = &ROOM[i]; }
		}
		p.run(p.f, o, out, a);
		out << o;
	}
	// all histories of up to depth calls whose operands overlap the target
	void explore(const T& from, int depth, const Call* before)
	{
		for (size_t k = 0; k < ops<T>().size(); ++k)
		{
			const Op<T>& p = ops<T>()[k];
			if (p.mode != 2 && (p.mode != MODE || (MODE && !rotation(from)))) continue;
			for (auto& c : choices[k])
			{
				const Call x = { before, k, c };
				Out want, have;
				o = from; apply(p, c, want, true); const T r = o;
				o = from; apply(p, c, have, false);
				++n.tr;
				if (!same(want, have)) { std::ostringstream s; s.precision(9); s << text(&x) << " gives"; for (R v : have) s << " " << v; s << " with separate operands"; for (R v : want) s << " " << v; report(p.name, s.str()); continue; }
				if (depth > 1 && finite(want)) explore(r, depth - 1, &x);
			}
		}
	}
};
template <class T> void run(const char* name, int mode, int deepMax)
{
	MODE = mode;
	bool any = false; for (auto& p : ops<T>()) any = any || p.mode == 2 || p.mode == mode;
	if (!any) return;
	Runner<T> r; r.prepare();
	section(std::string(name) + (mode ? ", unit" : ""));
	const int n = Dim<T>::n;
	std::vector<R> al = { R(-1.5), R(0.5), 2 };
	if (n <= 6) al.push_back(0);
	if (n <= 4) { al.push_back(1); al.push_back(R(-0.75)); }
	if (n > 9 || (n > 6 && !thorough())) al.resize(2);
	if (n > 12 && !thorough()) al.resize(1);
	auto from = [&](const R* p, int depth)
	{
		T t; make(t, p); state(); ++r.n.pa;
		r.start = "from"; for (int i = 0; i < n; ++i) { char b[32]; std::snprintf(b, sizeof b, " %.9g", (double)p[i]); r.start += b; }
		r.explore(t, depth, nullptr); sample([&](std::ostream& o) { o << r.start; });
	};
	auto one = [&](const R* p) { from(p, 1); };
	tuples(al, n, one);
	if (n <= 6 || thorough()) star<R>(n, one, thorough());
	section(std::string(name) + (mode ? ", unit" : "") + ", histories");
	static const R q[3][32] = {
		{ R(1.25), R(-0.625), R(2.3), R(0.45), R(-3.7), R(0.8125), R(1.1), R(-1.6), R(0.33), R(-0.9), R(1.9), R(-2.75), R(0.7), R(1.3), R(-0.15), R(1.1), R(0.5), R(-0.7), R(1.2), R(0.3), R(-1.4), R(0.9) },
		{ 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 1, 0, 1 },
		{ 0, R(0.5), 0, R(-0.5), 0, 0, 0, 0, 2, R(0.5), R(-1), 1, 2, R(-3), R(0.5), 1, R(0.5), R(-1), 2, 1, R(-2), 1 } };
	for (auto& p : q) from(p, thorough() && n <= 9 ? deepMax + 1 : deepMax);
}

#define OP0(T, name, A, ...) op(name, 0, +[](T& o, Out& out, const A& a) { (void)out; __VA_ARGS__; })
#define OPX(mode, T, name, A, ...) op(name, mode, +[](T& o, Out& out, const A& a) { (void)out; __VA_ARGS__; })
#define OPX2(mode, T, name, A, B, ...) op(name, mode, +[](T& o, Out& out, const A& a, const B& b) { (void)out; __VA_ARGS__; })
#define OPX3(mode, T, name, A, B, C, ...) op(name, mode, +[](T& o, Out& out, const A& a, const B& b, const C& c) { (void)out; __VA_ARGS__; })
#define OPX4(mode, T, name, A, B, C, D, ...) op(name, mode, +[](T& o, Out& out, const A& a, const B& b, const C& c, const D& d) { (void)out; __VA_ARGS__; })

// the operands a and b are separate or overlap the target o; the static multiply functions demand a destination of their own and are left out
static void define()
{
	const int ANY = 0, UNIT_ = 1, BOTH = 2;
	// vectors
	OPX(BOTH, V2, "Vec2::set", V2, o.set(a)); OPX(BOTH, V2, "Vec2::operator+=", V2, o += a); OPX(BOTH, V2, "Vec2::operator-=", V2, o -= a);
	OPX2(BOTH, V2, "Vec2::clerp", V2, V2, o.clerp(a, b, R(0.3))); OPX2(BOTH, V2, "Vec2::clerpMaxAngle", V2, V2, o.clerpMaxAngle(a, b, R(0.2)));
	OPX(BOTH, V3, "Vec3::set", V3, o.set(a)); OPX(BOTH, V3, "Vec3::operator+=", V3, o += a); OPX(BOTH, V3, "Vec3::operator-=", V3, o -= a); OPX(BOTH, V3, "Vec3::operator%=", V3, o %= a);
	OPX2(BOTH, V3, "Vec3::slerp", V3, V3, o.slerp(a, b, R(0.3))); OPX2(BOTH, V3, "Vec3::slerpMaxAngle", V3, V3, o.slerpMaxAngle(a, b, R(0.2)));
	OPX(BOTH, V4, "Vec4::set", V4, o.set(a)); OPX(BOTH, V4, "Vec4::operator+=", V4, o += a); OPX(BOTH, V4, "Vec4::operator-=", V4, o -= a);
	// vectors transformed in place
	OPX2(BOTH, V2, "Mat2::transform", M2, V2, a.transform(o, b)); OPX2(BOTH, V3, "Mat3::transform", M3, V3, a.transform(o, b)); OPX2(BOTH, V3, "Mat34::transform", M34, V3, a.transform(o, b));
	OPX2(BOTH, V3, "Mat4::transform", M4, V3, a.transform(o, b)); OPX2(BOTH, V3, "Mat4::transformVector", M4, V3, a.transformVector(o, b)); OPX2(BOTH, V4, "Mat4::transform(Vec4)", M4, V4, a.transform(o, b)); OPX2(BOTH, V4, "Mat4::transformVector(Vec4)", M4, V4, a.transformVector(o, b));
	// quaternions
	OPX(BOTH, Q, "Quat::set", Q, o.set(a)); OPX(BOTH, Q, "Quat::operator=", Q, o = a); OPX2(BOTH, Q, "Quat::lerp", Q, Q, o.lerp(a, b, R(0.3))); OPX2(BOTH, Q, "Quat::slerp", Q, Q, o.slerp(a, b, R(0.3)));
	OPX2(BOTH, Q, "Quat::slerpMaxAngle", Q, Q, o.slerpMaxAngle(a, b, R(0.2))); OPX2(BOTH, Q, "Quat::slerpNoInvert", Q, Q, o.slerpNoInvert(a, b, R(0.3)));
	OPX4(BOTH, Q, "Quat::set(from, to, a, b, weight)", Q, Q, Q, Q, o.set(a, b, c, d, R(0.3))); OPX3(BOTH, Q, "Quat::set(from, via, to)", Q, Q, Q, o.set(a, b, c));
	// matrices
	OPX(BOTH, M2, "Mat2::set", M2, o.set(a)); OPX2(BOTH, M2, "Mat2::set(x, y)", V2, V2, o.set(a, b)); OPX(BOTH, M2, "Mat2::operator*=", M2, o *= a); OPX(BOTH, M2, "Mat2::scale", V2, o.scale(a));
	OPX2(UNIT_, M2, "Mat2::slerp", M2, M2, o.slerp(a, b, R(0.3))); OPX2(UNIT_, M2, "Mat2::slerpMaxAngle", M2, M2, o.slerpMaxAngle(a, b, R(0.2))); 
	OPX(BOTH, M3, "Mat3::set", M3, o.set(a)); OPX3(BOTH, M3, "Mat3::set(x, y, z)", V3, V3, V3, o.set(a, b, c)); OPX(BOTH, M3, "Mat3::operator*=", M3, o *= a); OPX(BOTH, M3, "Mat3::scale", V3, o.scale(a));
	OPX2(UNIT_, M3, "Mat3::slerp", M3, M3, o.slerp(a, b, R(0.3))); OPX2(UNIT_, M3, "Mat3::slerpMaxAngle", M3, M3, o.slerpMaxAngle(a, b, R(0.2))); 
	OPX2(BOTH, M3, "Mat3::set(frame)", V3, V3, o.set(Coord::X, a, Coord::Z, b)); OPX2(BOTH, M3, "Mat3::set(frame)", V3, V3, o.set(Coord::Z, a, Coord::Y, b));
	OPX(UNIT_, M3, "Mat3::set(axis, angle)", V3, o.set(a, R(0.7))); OPX(BOTH, M3, "Mat3::rotate(Mat3)", M3, o.rotate(a)); OPX(BOTH, M3, "Mat3::rotatePre(Mat3)", M3, o.rotatePre(a));
	OPX(UNIT_, M3, "Mat3::rotate(axis, angle)", V3, o.rotate(a, R(0.7))); OPX(UNIT_, M3, "Mat3::rotatePre(axis, angle)", V3, o.rotatePre(a, R(0.7)));
	OPX(BOTH, M34, "Mat34::set", M34, o.set(a)); OPX2(BOTH, M34, "Mat34::set(rs, t)", M3, V3, o.set(a, b)); OPX(BOTH, M34, "Mat34::set(rs)", M3, o.set(a)); OPX4(BOTH, M34, "Mat34::set(x, y, z, t)", V3, V3, V3, V3, o.set(a, b, c, d));
	OPX2(BOTH, M34, "Mat34::set(frame)", V3, V3, o.set(Coord::X, a, Coord::Z, b)); OPX2(UNIT_, M34, "Mat34::set(axis, angle, t)", V3, V3, o.set(a, R(0.7), b)); OPX(BOTH, M34, "Mat34::set(coord, angle, t)", V3, o.set(Coord::Y, R(0.7), a));
	OPX2(BOTH, M34, "Mat34::set(quat, t)", Q, V3, o.set(a, b)); OPX2(UNIT_, M34, "Mat34::slerp", M34, M34, o.slerp(a, b, R(0.3))); OPX2(UNIT_, M34, "Mat34::slerpMaxAngle", M34, M34, o.slerpMaxAngle(a, b, R(0.2)));
	OPX(BOTH, M34, "Mat34::operator*=", M34, o *= a); OPX(BOTH, M34, "Mat34::operator*=(Mat3)", M3, o *= a); 
	OPX(UNIT_, M34, "Mat34::rotate(axis, angle)", V3, o.rotate(a, R(0.7))); OPX(UNIT_, M34, "Mat34::rotatePre(axis, angle)", V3, o.rotatePre(a, R(0.7)));
	OPX(BOTH, M34, "Mat34::translate", V3, o.translate(a)); OPX(BOTH, M34, "Mat34::translatePre", V3, o.translatePre(a)); OPX(BOTH, M34, "Mat34::scale", V3, o.scale(a)); OPX(BOTH, M34, "Mat34::scalePre", V3, o.scalePre(a));
	OPX(BOTH, M34, "Mat34::transform(Mat3)", M3, o.transform(a)); OPX(BOTH, M34, "Mat34::transform(Mat34)", M34, o.transform(a)); OPX(BOTH, M34, "Mat34::transformPre(Mat3)", M3, o.transformPre(a)); OPX(BOTH, M34, "Mat34::transformPre(Mat34)", M34, o.transformPre(a));
	OPX(BOTH, M34, "Mat3::set", M3, o.rs.set(a)); OPX(BOTH, M34, "Mat3::operator*=", M3, o.rs *= a); OPX(BOTH, M34, "Mat3::scale", V3, o.rs.scale(a)); OPX(BOTH, M34, "Vec3::operator*=(Mat3)", M3, o.t *= a);
	OPX(BOTH, M4, "Mat4::set", M4, o.set(a)); OPX4(BOTH, M4, "Mat4::set(x, y, z, t)", V4, V4, V4, V4, o.set(a, b, c, d));  
	OPX(BOTH, M4, "Mat4::transform", M4, o.transform(a)); OPX(BOTH, M4, "Mat4::transformPre", M4, o.transformPre(a));
	// boxes
	typedef AABB2<R> B2; typedef AABB3<R> B3; typedef CAABB2<R> K2; typedef CAABB3<R> K3;
	OP0(B2, "AABB2::set(point)", V2, o.set(a)); OPX2(ANY, B2, "AABB2::set(inf, sup)", V2, V2, o.set(V2::min(a, b), V2::max(a, b))); OP0(B2, "AABB2::add", V2, o.add(a)); OP0(B2, "AABB2::operator+=", V2, o += a); OP0(B2, "AABB2::operator-=", V2, o -= a);
	OP0(B3, "AABB3::set(point)", V3, o.set(a)); OPX2(ANY, B3, "AABB3::set(inf, sup)", V3, V3, o.set(V3::min(a, b), V3::max(a, b))); OP0(B3, "AABB3::add", V3, o.add(a)); OP0(B3, "AABB3::operator+=", V3, o += a); OP0(B3, "AABB3::operator-=", V3, o -= a);
	OP0(K2, "CAABB2::set(point)", V2, o.set(a)); OP0(K2, "CAABB2::add", V2, o.add(a)); OP0(K2, "CAABB2::operator+=", V2, o += a); OP0(K2, "CAABB2::operator-=", V2, o -= a);
	OP0(K3, "CAABB3::set(point)", V3, o.set(a)); OP0(K3, "CAABB3::add", V3, o.add(a)); OP0(K3, "CAABB3::operator+=", V3, o += a); OP0(K3, "CAABB3::operator-=", V3, o -= a);
	op("CAABB2::set(center, size)", 0, +[](K2& o, Out&, const V2& a, const V2& b) { if (b.x >= 0 && b.y >= 0) o.set(a, b); });
	op("CAABB3::set(center, size)", 0, +[](K3& o, Out&, const V3& a, const V3& b) { if (b.x >= 0 && b.y >= 0 && b.z >= 0) o.set(a, b); });
	// round shapes
	typedef Circle<R> C; typedef Sphere<R> S;
	OP0(C, "Circle::set", V2, o.set(a, R(1.5))); OP0(C, "Circle::operator+=", V2, o += a); OP0(C, "Circle::operator-=", V2, o -= a);
	OP0(S, "Sphere::set", V3, o.set(a, R(1.5))); OP0(S, "Sphere::operator+=", V3, o += a); OP0(S, "Sphere::operator-=", V3, o -= a);
	// planes
	typedef Plane<R> Pl;
	OP0(Pl, "Plane::set(plane, distance)", Pl, o.set(a, R(1.5))); OP0(Pl, "Plane::set(normal, distance)", V3, o.set(a, R(1.5))); OPX2(ANY, Pl, "Plane::set(point, normal)", V3, V3, o.set(a, b));
	OPX3(ANY, Pl, "Plane::setFromPointAndTangents", V3, V3, V3, o.setFromPointAndTangents(a, b, c)); OPX3(ANY, Pl, "Plane::set(a, b, c)", V3, V3, V3, o.set(a, b, c));
	OPX2(ANY, V3, "Plane::project", Pl, V3, out << a.project(o, b)); OPX3(ANY, V3, "Plane::project(direction)", Pl, V3, V3, out << a.project(o, b, c));
	// a hit written over the start of the ray or an end of the line it was computed from
#define HIT(T, name, member, A, B, call) op(name, 0, +[](T& o, Out& out, const A& a, const B& b) { R t = R(0.37); bool h = a.call(o.member, t, b); out << h; if (h) out << t; })
	typedef Ray3<R> Y3; typedef Line3<R> L3;
	HIT(Y3, "Plane::hits(Ray3)", start, Pl, Y3, hits); HIT(Y3, "Plane::intersects(Ray3)", start, Pl, Y3, intersects);
	HIT(L3, "Plane::hits(Line3)", start, Pl, L3, hits); HIT(L3, "Plane::hits(Line3)", end, Pl, L3, hits); HIT(L3, "Plane::intersects(Line3)", start, Pl, L3, intersects); HIT(L3, "Plane::intersects(Line3)", end, Pl, L3, intersects);
	op("Plane::hits(Line3, radius)", 0, +[](L3& o, Out& out, const Pl& a, const L3& b) { R t = R(0.37); bool h = a.hits(o.start, t, b, R(0.25)); out << h; if (h) out << t; });
	op("Plane::hits(Line3, radius)", 0, +[](L3& o, Out& out, const Pl& a, const L3& b) { R t = R(0.37); bool h = a.hits(o.end, t, b, R(0.25)); out << h; if (h) out << t; });
	HIT(L3, "Sphere::hits(Line3)", start, S, L3, hits); HIT(L3, "Sphere::hits(Line3)", end, S, L3, hits); HIT(L3, "Sphere::intersects(Line3)", start, S, L3, intersects); HIT(L3, "Sphere::intersects(Line3)", end, S, L3, intersects);
	// colours
	typedef ColorRGB<R> G; typedef ColorRGBA<R> GA; typedef ColorHSV<R> H;
	OP0(G, "ColorRGB::set", G, o.set(a)); OP0(G, "ColorRGB::operator+=", G, o += a); OP0(G, "ColorRGB::operator-=", G, o -= a); OPX2(ANY, G, "ColorRGB::interp", G, G, o.interp(a, b, R(0.3)));
	OP0(GA, "ColorRGBA::set", GA, o.set(a)); OP0(GA, "ColorRGBA::operator+=", GA, o += a); OP0(GA, "ColorRGBA::operator-=", GA, o -= a); OPX2(ANY, GA, "ColorRGBA::interp", GA, GA, o.interp(a, b, R(0.3)));
	OP0(H, "ColorHSV::set", H, o.set(a)); OPX2(ANY, H, "ColorHSV::interp", H, H, o.interp(a, b, R(0.3)));
	// curves
	typedef HermiteSplineSegment3<R> He; typedef BezierSegment3<R> Be; typedef Two<Be, Be> BB;
	OPX4(ANY, He, "HermiteSplineSegment3::set", V3, V3, V3, V3, o.set(a, b, c, d)); OPX4(ANY, Be, "BezierSegment3::set", V3, V3, V3, V3, o.set(a, b, c, d));
	OP0(BB, "BezierSegment3::split", Be, a.split(R(0.3), o.a, o.b)); OP0(BB, "BezierSegment3::split", Be, a.split(R(0.6), o.b, o.a));
	// frusta
	typedef Frustum<R> F;
	OP0(F, "Frustum::set", C8, o.set(a.v)); OPX2(ANY, F, "Frustum::set(Mat34)", M34, C8, o.set(a, b.v)); OPX2(ANY, F, "Frustum::set(Mat4)", M4, C8, o.set(a, b.v));
}
void explore()
{
	define();
	for (int mode = 0; mode < 2; ++mode)
	{
		run<V2>("Vec2", mode, 4); run<V3>("Vec3", mode, 3); run<V4>("Vec4", mode, 3); run<Q>("Quat", mode, 3);
		run<M2>("Mat2", mode, 2); run<M3>("Mat3", mode, 2); run<M34>("Mat34", mode, 2); run<M4>("Mat4", mode, 2);
		run<AABB2<R>>("AABB2", mode, 3); run<AABB3<R>>("AABB3", mode, 3); run<CAABB2<R>>("CAABB2", mode, 3); run<CAABB3<R>>("CAABB3", mode, 3); run<Circle<R>>("Circle", mode, 3); run<Sphere<R>>("Sphere", mode, 3);
		run<Plane<R>>("Plane", mode, 2); run<Ray3<R>>("Ray3", mode, 1); run<Line3<R>>("Line3", mode, 2);
		run<ColorRGB<R>>("ColorRGB", mode, 3); run<ColorRGBA<R>>("ColorRGBA", mode, 3); run<ColorHSV<R>>("ColorHSV", mode, 3);
		run<HermiteSplineSegment3<R>>("HermiteSplineSegment3", mode, 1); run<BezierSegment3<R>>("BezierSegment3", mode, 1); run<Two<BezierSegment3<R>, BezierSegment3<R>>>("two BezierSegment3", mode, 2); run<Frustum<R>>("Frustum", mode, 1);
	}
}
