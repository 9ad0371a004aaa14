// C21: Bezier and Hermite segments: points, tangents, basis functions, frames, splitting, length, forward differencing.
#include "vecs.h"
typedef MC_REAL R;
typedef Vec3<R> V; typedef ml::BezierSegment3<R> B; typedef ml::HermiteSplineSegment3<R> H; typedef ml::BezierSegment3FwdDiff<R> F;
template <class T> struct FwdOf; template <> struct FwdOf<float> { typedef ml::BezierSegmentFwdDiff3f type; }; template <> struct FwdOf<double> { typedef ml::BezierSegmentFwdDiff3d type; };
static std::ostream& operator<<(std::ostream& s, const B& b) { return s << "bezier" << b.p1() << b.p2() << b.p3() << b.p4(); }
struct P3 { LD c[3]; };
static P3 p3(const V& v) { return { { v.x, v.y, v.z } }; }
static P3 mix(const P3& a, const P3& b, LD t) { P3 r; for (int i = 0; i < 3; ++i) r.c[i] = a.c[i] * (1 - t) + b.c[i] * t; return r; }
static P3 sub(const P3& a, const P3& b, LD k) { P3 r; for (int i = 0; i < 3; ++i) r.c[i] = (a.c[i] - b.c[i]) * k; return r; }
static P3 crossp(const P3& a, const P3& b) { return { { a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0] } }; }
static LD len(const P3& a) { return sqrtl(a.c[0] * a.c[0] + a.c[1] * a.c[1] + a.c[2] * a.c[2]); }
struct Cas { P3 l[4], r[4], tan, acc; }; // de Casteljau
static Cas casteljau(const P3* p, LD t)
{
	Cas c; P3 a = mix(p[0], p[1], t), b = mix(p[1], p[2], t), d = mix(p[2], p[3], t), e = mix(a, b, t), f = mix(b, d, t), g = mix(e, f, t);
	c.l[0] = p[0]; c.l[1] = a; c.l[2] = e; c.l[3] = g; c.r[0] = g; c.r[1] = f; c.r[2] = d; c.r[3] = p[3];
	c.tan = sub(f, e, 3); P3 s1 = sub(b, a, 1), s2 = sub(d, b, 1); c.acc = sub(s2, s1, 6); return c;
}
static bool near3(const V& g, const P3& w, const LD* tol) { for (int i = 0; i < 3; ++i) if (!(fabsl(comp(g, i) - w.c[i]) <= tol[i])) return false; return true; }
static std::ostream& operator<<(std::ostream& s, const P3& p) { return s << "<" << (double)p.c[0] << "," << (double)p.c[1] << "," << (double)p.c[2] << ">"; }
static std::vector<R> ts() { std::vector<R> r; int n = thorough() ? 32 : 8; for (int i = 0; i <= n; ++i) r.push_back(R(i) / n); for (R x : { R(0.1), R(1) / 3, R(0.9), R(1e-3), R(1) - R(1e-3) }) r.push_back(x); return r; }
// on a coordinate axis: the binormal is exactly zero whatever the order of evaluation
static bool straight(const V* v) { for (int a = 0; a < 3; ++a) { bool ok = true; for (int i = 0; i < 4; ++i) for (int k = 0; k < 3; ++k) if (k != a && comp(v[i], k) != 0) ok = false; if (ok) return true; } return false; }
static void bezierAt(const V* v, const std::vector<R>& grid, const std::vector<int>& counts)
{
	state(); trace();
	const B b(v[0], v[1], v[2], v[3]); B s; s.set(v[0], v[1], v[2], v[3]);
	MC_CHECK(same(b.p1(), v[0]) && same(b.p2(), v[1]) && same(b.p3(), v[2]) && same(b.p4(), v[3]) && same(s.p1(), v[0]) && same(s.p2(), v[1]) && same(s.p3(), v[2]) && same(s.p4(), v[3]), "BezierSegment3 construction", b << s);
	P3 p[4] = { p3(v[0]), p3(v[1]), p3(v[2]), p3(v[3]) }; LD tol[3], big = 0; for (int i = 0; i < 3; ++i) { tol[i] = 0; for (auto& x : p) tol[i] = std::max(tol[i], fabsl(x.c[i])); big = std::max(big, tol[i]); tol[i] *= 32 * eps<R>(); }
	LD tt[3] = { tol[0] * 6, tol[1] * 6, tol[2] * 6 };
	MC_CHECK(near3(b.r1(), sub(p[1], p[0], 3), tol) && near3(b.r4(), sub(p[3], p[2], 3), tol), "BezierSegment3 end tangents", b << " got " << b.r1() << b.r4());
	for (R t : grid)
	{
		step(); Cas c = casteljau(p, t);
		V q = b.pointAt(t); MC_CHECK(near3(q, c.l[3], tol), "BezierSegment3::pointAt", b << " at " << t << " got " << q << " want " << c.l[3]);
		q = b.tangentAt(t); MC_CHECK(near3(q, c.tan, tt), "BezierSegment3::tangentAt", b << " at " << t << " got " << q << " want " << c.tan);
		B x, y; b.split(t, x, y); V got[8] = { x.p1(), x.p2(), x.p3(), x.p4(), y.p1(), y.p2(), y.p3(), y.p4() };
		bool ok = true; for (int i = 0; i < 4; ++i) ok = ok && near3(got[i], c.l[i], tol) && near3(got[4 + i], c.r[i], tol); MC_CHECK(ok, "BezierSegment3::split", b << " at " << t << " got " << x << " and " << y);
		{	// one half written back to the segment itself
			B s = b, o; s.split(t, s, o); V g1[8] = { s.p1(), s.p2(), s.p3(), s.p4(), o.p1(), o.p2(), o.p3(), o.p4() }; B z = b, q; z.split(t, q, z); V g2[8] = { q.p1(), q.p2(), q.p3(), q.p4(), z.p1(), z.p2(), z.p3(), z.p4() };
			ok = true; for (int i = 0; i < 8; ++i) ok = ok && same(g1[i], got[i]) && same(g2[i], got[i]); MC_CHECK(ok, "BezierSegment3::split into itself", b << " at " << t << " got " << s << o << " and " << q << z);
		}
		// frame: tangent direction second, binormal (tangent x second derivative) first
		LD lt = len(c.tan), la = len(c.acc); P3 bi = crossp(c.tan, c.acc); LD lb = len(bi), scale = 6 * big;
		Mat3<R> f; f.x = f.y = f.z = V(7, 7, 7); bool g = b.frenetFrameAt(f, t);
		if (lb > LD(0.01) * scale * scale && lt > LD(0.01) * scale)
		{
			LD fe = 4096 * eps<R>() * (1 + scale / lt) * (1 + scale * scale / lb); P3 n = crossp(bi, c.tan); ok = g;
			for (int i = 0; i < 3 && ok; ++i) ok = fabsl(comp(f.x, i) - bi.c[i] / lb) <= fe && fabsl(comp(f.y, i) - c.tan.c[i] / lt) <= fe && fabsl(comp(f.z, i) - n.c[i] / (lb * lt)) <= fe;
			MC_CHECK(ok, "BezierSegment3::frenetFrameAt", b << " at " << t << " got " << g << " " << f << " tangent " << c.tan << " binormal " << bi);
		}
		else if (straight(v)) MC_CHECK(!g, "BezierSegment3::frenetFrameAt of a straight curve", b << " at " << t); // no binormal
		else if (big == 0 || (same(v[0], v[1]) && same(v[1], v[2]) && same(v[2], v[3]) && t == 0)) MC_CHECK(!g, "BezierSegment3::frenetFrameAt of a point", b << " at " << t);
		(void)la;
	}
	for (int n : counts)
	{
		LD want = 0; P3 prev = p[0]; LD chord = 0;
		for (int i = 1; i <= n; ++i) { P3 q = casteljau(p, LD(i) / n).l[3]; want += len(sub(q, prev, 1)); prev = q; } (void)chord;
		R g = n == 10 ? b.length() : b.length(n); LD e = 32 * eps<R>() * big * 8 * n * n; // forward differences
		MC_CHECK(fabsl(g - want) <= e, "BezierSegment3::length", b << " in " << n << " steps got " << g << " want " << (double)want);
		typename FwdOf<R>::type fd(v[0], v[1], v[2], v[3], R(1) / n); LD ft[3];
		for (int i = 0; i <= n; ++i)
		{
			Cas c = casteljau(p, LD(i) / n); for (int k = 0; k < 3; ++k) ft[k] = tt[k] * (1 + i) * 2;
			MC_CHECK(near3(fd.currentPoint(), c.l[3], ft), "BezierSegment3FwdDiff point", b << " step " << i << " of " << n << " got " << fd.currentPoint() << " want " << c.l[3]);
			for (int k = 0; k < 3; ++k) ft[k] *= 4; MC_CHECK(near3(fd.currentTangent(), c.tan, ft), "BezierSegment3FwdDiff tangent", b << " step " << i << " of " << n << " got " << fd.currentTangent() << " want " << c.tan);
			fd.stepForward();
		}
	}
	sample([&](std::ostream& o) { o << b << " length " << b.length() << " middle " << b.pointAt(R(0.5)); });
}
static void bezier(const V* v)
{
	static const std::vector<R> grid = ts();
	static unsigned turn = 0; ++turn; std::vector<int> counts = { 1, 2, 3, 4, 7, 10, 32 }; if (turn % 128 == 1) for (int n : { 64, 100, 127, 128, 129, 255, 256, 257, 1000 }) counts.push_back(n);
	bezierAt(v, grid, counts);
}
static void hermiteAt(const V* v, const std::vector<R>& grid)
{
	state(); trace();
	const H h(v[0], v[1], v[2], v[3]); H s; s.set(v[0], v[1], v[2], v[3]);
	MC_CHECK(same(h.p1(), v[0]) && same(h.p4(), v[1]) && same(h.r1(), v[2]) && same(h.r4(), v[3]) && same(s.p1(), v[0]) && same(s.p4(), v[1]) && same(s.r1(), v[2]) && same(s.r4(), v[3]), "HermiteSplineSegment3 construction", v[0] << v[1] << v[2] << v[3]);
	P3 a = p3(v[0]), d = p3(v[1]), r1 = p3(v[2]), r4 = p3(v[3]), p[4] = { a, a, d, d }; LD tol[3], tt[3]; for (int i = 0; i < 3; ++i) { p[1].c[i] += r1.c[i] / 3; p[2].c[i] -= r4.c[i] / 3; tol[i] = 32 * eps<R>() * std::max(std::max(fabsl(a.c[i]), fabsl(d.c[i])), std::max(fabsl(r1.c[i]), fabsl(r4.c[i]))); tt[i] = tol[i] * 6; }
	for (R t : grid)
	{
		Cas c = casteljau(p, t); V q = h.pointAt(t); MC_CHECK(near3(q, c.l[3], tol), "HermiteSplineSegment3::pointAt", v[0] << v[1] << v[2] << v[3] << " at " << t << " got " << q << " want " << c.l[3]);
		q = h.tangentAt(t); MC_CHECK(near3(q, c.tan, tt), "HermiteSplineSegment3::tangentAt", v[0] << v[1] << v[2] << v[3] << " at " << t << " got " << q << " want " << c.tan);
	}
	sample([&](std::ostream& o) { o << v[0] << v[1] << v[2] << v[3] << " middle " << h.pointAt(R(0.5)); });
}
static void hermite(const V* v) { static const std::vector<R> grid = ts(); hermiteAt(v, grid); }
static void basis()
{
	section("basis functions");
	std::vector<R> all; for (int i = -64; i <= 128; ++i) { all.push_back(R(i) / R(100)); all.push_back(R(i) / 64); } for (R t : ladder<R>()) if (std::fabs(t) < 100) all.push_back(t);
	for (R t : all)
	{
		state(); trace();
		LD x = t, c = 1 - x, e = 64 * eps<R>() * (1 + fabsl(x)) * (1 + fabsl(x)) * (1 + fabsl(x));
		auto eq = [&](R g, LD w, const char* n) { MC_CHECK(fabsl(g - w) <= e, n, "at " << t << " got " << g << " want " << (double)w); };
		eq(B::hp1(t), c * c * c, "BezierSegment3::hp1"); eq(B::hp2(t), 3 * c * c * x, "BezierSegment3::hp2"); eq(B::hp3(t), 3 * c * x * x, "BezierSegment3::hp3"); eq(B::hp4(t), x * x * x, "BezierSegment3::hp4");
		eq(B::dhp1(t), -3 * c * c, "BezierSegment3::dhp1"); eq(B::dhp2(t), 3 * c * c - 6 * c * x, "BezierSegment3::dhp2"); eq(B::dhp3(t), 6 * c * x - 3 * x * x, "BezierSegment3::dhp3"); eq(B::dhp4(t), 3 * x * x, "BezierSegment3::dhp4");
		eq(H::hp1(t), 2 * x * x * x - 3 * x * x + 1, "HermiteSplineSegment3::hp1"); eq(H::hp4(t), 3 * x * x - 2 * x * x * x, "HermiteSplineSegment3::hp4"); eq(H::hr1(t), x * c * c, "HermiteSplineSegment3::hr1"); eq(H::hr4(t), -x * x * c, "HermiteSplineSegment3::hr4");
		eq(H::dhp1(t), 6 * x * x - 6 * x, "HermiteSplineSegment3::dhp1"); eq(H::dhp4(t), 6 * x - 6 * x * x, "HermiteSplineSegment3::dhp4"); eq(H::dhr1(t), c * c - 2 * x * c, "HermiteSplineSegment3::dhr1"); eq(H::dhr4(t), x * x - 2 * x * c, "HermiteSplineSegment3::dhr4");
		sample([&](std::ostream& o) { o << "t " << t; });
	}
}
// every coordinate and the parameter climb the ladder
static void ladders()
{
	section("Bezier ladders"); star<R>(13, [&](const R* p) { V v[4] = { mk3(p), mk3(p + 3), mk3(p + 6), mk3(p + 9) }; bezierAt(v, { between(std::fabs(p[12]), R(0), R(1)) }, { 3 }); });
	section("Hermite ladders"); star<R>(13, [&](const R* p) { V v[4] = { mk3(p), mk3(p + 3), mk3(p + 6), mk3(p + 9) }; hermiteAt(v, { between(std::fabs(p[12]), R(0), R(1)) }); });
}
static void all()
{
	if (UNIT() == 1) { basis(); ladders(); }
	std::vector<V> al = { V(0, 0, 0), V(1, 0, 0), V(R(-0.5), 2, R(0.1)), V(3, R(-1.25), -2), V(1, 1, 1), V(0, 0, 5), V(-7, R(0.3), 1) };
	if (deep()) for (V v : { V(2, 0, 0), V(R(0.01), R(-0.02), R(0.03)) }) al.push_back(v);
	std::vector<V> big = { V(1000, -2000, 500), V(-3000, 1, 20), V(0, 0, 0) };
	for (int a = 0; a < 3; ++a) { section(a == 0 ? "Bezier on x" : a == 1 ? "Bezier on y" : "Bezier on z"); std::vector<V> ln; for (R k : { R(0), R(1), R(-2), R(0.5), R(7) }) { V u(0, 0, 0); u.data()[a] = R(k * UNIT()); ln.push_back(u); } tuples(ln, 4, bezier); }
	if (UNIT() != 1) al.resize(5);
	for (auto& v : al) v *= (R)UNIT(); for (auto& v : big) v *= (R)UNIT();
	std::vector<V> tiny; for (auto& x : al) tiny.push_back(x / R(8192)); tiny.resize(5); if (UNIT() >= 1) { section("Bezier, tiny"); tuples(tiny, 4, bezier); }
	section("Bezier"); tuples(al, 4, bezier); if (UNIT() <= 1) { section("Bezier, large"); tuples(big, 4, bezier); }
	section("Hermite"); tuples(al, 4, hermite); section("Hermite, large"); tuples(big, 4, hermite);
}

void explore() { inUnits<R>(all); }
