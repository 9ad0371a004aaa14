// C17: 2-D triangles: the closed triangle for every vertex order, degenerate ones included.
#include "boxes.h"
typedef MC_REAL R;
typedef Vec2<R> V; typedef Tri2<R> T;
static std::ostream& operator<<(std::ostream& s, const T& t) { return s << "tri(" << t.a << t.b << t.c << ")"; }
static E cr(const V& a, const V& b, const V& c) { return (E(b.x) - E(a.x)) * (E(c.y) - E(a.y)) - (E(c.x) - E(a.x)) * (E(b.y) - E(a.y)); }
// 1 inside or on the boundary, 0 outside, -1 within rounding of the boundary
static int inside(const T& t, const V& p, bool exact)
{
	E e[3] = { cr(t.a, t.b, p), cr(t.b, t.c, p), cr(t.c, t.a, p) }; bool pos = false, neg = false;
	for (auto& x : e) { if (!exact && fabsl(x.v) <= 16 * eps<R>() * x.m) return -1; if (x.v > 0) pos = true; if (x.v < 0) neg = true; }
	if (pos && neg) return 0;
	if (pos || neg) return 1;
	// collinear: the segment spanned by the vertices
	auto in = [](R x, R a, R b, R c) { return x >= std::min(a, std::min(b, c)) && x <= std::max(a, std::max(b, c)); };
	return in(p.x, t.a.x, t.b.x, t.c.x) && in(p.y, t.a.y, t.b.y, t.c.y);
}
static void run(const char* name, const std::vector<R>& tv, const std::vector<R>& pv, bool exact)
{
	section(std::string("Tri2::") + name);
	std::vector<V> ts, ps; tuples(U(tv), 2, [&](const R* p) { ts.push_back(mk2(p)); }); tuples(U(pv), 2, [&](const R* p) { ps.push_back(mk2(p)); });
	auto one = [&](const V& a, const V& b, const V& c, const std::vector<V>& ps)
	{
		trace(); state();
		const T t = T::from(a, b, c); MC_CHECK(same(t.a, a) && same(t.b, b) && same(t.c, c), "Tri2::from", t);
		T m = t; MC_CHECK(m == t && !(m != t), "Tri2::operator==", t); for (int i = 0; i < 6; ++i) { m = t; (&m.a.x)[i] += u(R(1)); MC_CHECK(m != t && !(m == t), "Tri2::operator!=", t << m); }
		auto f = t.template cast<float>(); auto d = t.template cast<double>();
		MC_CHECK(f.a.x == (float)a.x && f.a.y == (float)a.y && f.b.x == (float)b.x && f.b.y == (float)b.y && f.c.x == (float)c.x && f.c.y == (float)c.y && d.a.x == (double)a.x && d.a.y == (double)a.y && d.b.x == (double)b.x && d.b.y == (double)b.y && d.c.x == (double)c.x && d.c.y == (double)c.y, "Tri2::cast", t);
		int n = 0;
		for (auto& p : ps) { int w = inside(t, p, exact); if (w < 0) continue; bool g = t.contains(p); n += g; MC_CHECK(g == !!w, "Tri2::contains", t << " " << p << " got " << g << " want " << w); }
		for (auto* p : { &t.a, &t.b, &t.c }) if (exact) MC_CHECK(t.contains(*p), "Tri2::contains its vertices", t << " " << *p);
		sample([&](std::ostream& o) { o << t << " contains " << n << " of " << ps.size(); });
	};
	for (auto& a : ts) for (auto& b : ts) for (auto& c : ts) one(a, b, c, ps);
	if (exact && std::string(name) == "grid")
	{	// the same far from the origin: a triangle is where its corners are (all numbers stay exact)
		section("Tri2::far from the origin");
		for (V o : { V(R(4096), R(4096)), V(R(-65536), R(32768)), V(0, R(524288)), V(R(1048576), R(-1048576)) })
		{
			o = V(u(o.x), u(o.y)); std::vector<V> qs; for (auto& p : ps) qs.push_back(p + o);
			for (size_t i = 0; i < ts.size(); ++i) for (size_t j = 0; j < i; ++j) for (size_t k = 0; k < j; ++k) { one(ts[i] + o, ts[j] + o, ts[k] + o, qs); one(ts[i] + o, ts[k] + o, ts[j] + o, qs); }
		}
	}
	if (exact || UNIT() != 1) return;
	section("Tri2::ladders");
	star<R>(8, [&](const R* p) { V a = mk2(p), b = mk2(p + 2), c = mk2(p + 4), in = a * R(0.3) + b * R(0.45) + c * R(0.25), out = a * R(1.2) - b * R(0.1) - c * R(0.1); one(a, b, c, { mk2(p + 6), in, out }); });
}
static void all()
{
	std::vector<R> pv; for (int i = deep() ? -12 : -5; i <= (deep() ? 18 : 9); ++i) pv.push_back(i / R(2));
	run("grid", deep() ? std::vector<R>{ -2, -1, 0, 1, 2, 3 } : std::vector<R>{ -1, 0, 1, 3 }, pv, true);
	run("far apart", { -1024, 0, R(0.03125), 512 }, { -2048, -1024, -512, -1, 0, R(0.015625), R(0.03125), R(0.0625), 256, 512, 513 }, sizeof(R) == 8);
	run("unrepresentable", { R(0.1), R(-0.7), R(3.3), R(0.3) }, { R(0.1), R(-0.7), R(3.3), R(0.2), R(1.1), R(-3), R(0.31), R(0.6) }, false);
}

void explore() { inUnits<R>(all); }
