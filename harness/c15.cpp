// C15: planes: construction, distance, projection, ray/segment/sphere queries, common point of three planes.
#include "boxes.h"
typedef MC_REAL R;
typedef Vec3<R> V;
typedef Plane<R> P;
static std::ostream& operator<<(std::ostream& s, const P& p) { return s << "plane(" << p.normal << " d " << p.d << ")"; }
static const std::string C = "Plane::";
static EV<3> unit(const EV<3>& n) { E l = esqrt(dot(n, n)); return n / l; }
static bool sameP(const P& a, const P& b) { return same(a.normal, b.normal) && a.d == b.d; }
// -1, 0, 1 or 2 = within rounding of 0
static int sgn(const E& e, bool exact, LD k = 32) { if (exact) return e.v > 0 ? 1 : e.v < 0 ? -1 : 0; return fabsl(e.v) <= k * eps<R>() * e.m ? 2 : e.v > 0 ? 1 : -1; }
struct Pl { P p; bool exact; };
static std::vector<Pl> planes(const std::vector<R>& nv, const std::vector<R>& dv)
{
	std::vector<Pl> r;
	tuples(U(nv), 3, [&](const R* n) {
		int nz = (n[0] != 0) + (n[1] != 0) + (n[2] != 0); if (!nz) return;
		for (R d : U(dv)) r.push_back({ P::from(mk3(n), d), nz == 1 });
	});
	return r;
}
static void construction()
{
	section(C + "construction");
	std::vector<R> nv = deep() ? std::vector<R>{ -2, -1, 0, R(0.25), 1, R(0.1), 30 } : std::vector<R>{ -1, 0, R(0.25), 1, 3 };
	std::vector<R> pv = deep() ? std::vector<R>{ -3, -1, 0, R(0.5), R(0.7), 2 } : std::vector<R>{ -1, 0, R(0.5), 2 };
	auto make = [&](R d, const R* n, const std::vector<R>& ms, const std::vector<V>& at)
	{
		state(); trace();
		V nn = mk3(n); P raw(nn, d); MC_CHECK(same(raw.normal, nn) && raw.d == d, C + "Plane(normal, d)", raw);
		const R* dp = static_cast<const P&>(raw).data(); MC_CHECK(dp[0] == n[0] && dp[1] == n[1] && dp[2] == n[2] && dp[3] == d && raw.data() == dp, C + "data", raw);
		P wr = raw; for (int i = 0; i < 4; ++i) wr.data()[i] = R(i + 1); MC_CHECK(wr.normal.x == 1 && wr.normal.y == 2 && wr.normal.z == 3 && wr.d == 4, C + "data writes", wr);
		auto f = raw.template cast<float>(); auto g = raw.template cast<double>(); bool ok = f.d == (float)d && g.d == (double)d; for (int i = 0; i < 3; ++i) ok = ok && comp(f.normal, i) == (float)n[i] && comp(g.normal, i) == (double)n[i]; MC_CHECK(ok, C + "cast", raw);
		if (n[0] == 0 && n[1] == 0 && n[2] == 0) return;
		EV<3> un = unit(ev(nn));
		P q; P& r = q.set(nn, d); MC_CHECK(nearv(q.normal, un) && q.d == d && &r == &q, C + "set(normal, d)", nn << " " << d << " got " << q << " want " << un);
		P fr = P::from(nn, d); MC_CHECK(nearv(fr.normal, un) && fr.d == d, C + "from(normal, d)", nn << " " << d << " got " << fr);
		for (R m : ms)
		{
			E wd = E(d) + E(m); P x = fr; P& r1 = x.move(m); MC_CHECK(same(x.normal, fr.normal) && near(x.d, wd) && &r1 == &x, C + "move", fr << " by " << m << " got " << x);
			x = fr.moved(m); MC_CHECK(same(x.normal, fr.normal) && near(x.d, wd), C + "moved", fr << " by " << m << " got " << x);
			x = P(V(7, 7, 7), R(77)); P& r2 = x.set(fr, m); MC_CHECK(same(x.normal, fr.normal) && near(x.d, wd) && &r2 == &x, C + "set(plane, distance)", fr << " by " << m << " got " << x);
			x = fr; x.set(x, m); MC_CHECK(same(x.normal, fr.normal) && near(x.d, wd), C + "set(itself, distance)", fr << " by " << m << " got " << x);
			x = P::from(fr, m); MC_CHECK(same(x.normal, fr.normal) && near(x.d, wd), C + "from(plane, distance)", fr << " by " << m << " got " << x);
		}
		P x = fr; P& r3 = x.flip(); V neg(-fr.normal.x, -fr.normal.y, -fr.normal.z); MC_CHECK(same(x.normal, neg) && x.d == -d && &r3 == &x, C + "flip", fr << " got " << x);
		x = fr.flipped(); MC_CHECK(same(x.normal, neg) && x.d == -d, C + "flipped", fr << " got " << x);
		for (int i = 0; i < 4; ++i) { x = fr; x.data()[i] += i == 3 ? u(R(1)) : R(1); MC_CHECK(!(x == fr) && x != fr && fr == fr && !(fr != fr), C + "operator==", fr << " " << x); }
		for (auto& p : at)
		{
			E wd = dot(un, ev(p));
			P a; P& r = a.set(p, nn); P b = P::from(p, nn);
			MC_CHECK(nearv(a.normal, un) && near(a.d, wd) && &r == &a, C + "set(point, normal)", p << " " << nn << " got " << a << " want d " << wd);
			MC_CHECK(nearv(b.normal, un) && near(b.d, wd), C + "from(point, normal)", p << " " << nn << " got " << b << " want d " << wd);
		}
		sample([&](std::ostream& o) { o << nn << " " << d << " -> " << fr; });
	};
	std::vector<V> pts; tuples(U(pv), 3, [&](const R* p) { pts.push_back(mk3(p)); });
	for (R d : U<R>({ 0, 1, R(-2.5), R(0.1), 1000 })) tuples(U(nv), 3, [&](const R* n) { make(d, n, U<R>({ 0, 1, R(-0.5), R(0.3) }), pts); });
	if (UNIT() == 1) { section(C + "construction, ladders"); star<R>(8, [&](const R* p) { make(p[3], p, { p[4] }, { mk3(p + 5) }); }); }
	section(C + "three points");
	size_t st = deep() ? 3 : 1;
	auto three = [&](V a, V b, V c, bool tangents)
	{
		state(); trace();
		EV<3> ea = ev(a), n = cross(ev(b) - ea, ev(c) - ea);
		LD m = 0; for (int x = 0; x < 3; ++x) m = std::max(m, n[x].m); E l2 = dot(n, n); if (sqrtl(l2.v) < LD(1e-3) * m || l2.v == 0) return;
		EV<3> un = unit(n); LD un_tol = 64 * eps<R>() * m / sqrtl(l2.v), big = 0; for (int x = 0; x < 3; ++x) big = std::max(big, fabsl(comp(a, x)));
		LD wd = un[0].v * a.x + un[1].v * a.y + un[2].v * a.z;
		auto good = [&](const P& p) { bool ok = fabsl(p.d - wd) <= un_tol * 3 * big + 32 * eps<R>() * big; for (int x = 0; x < 3; ++x) ok = ok && fabsl(comp(p.normal, x) - un[x].v) <= un_tol; return ok; };
		P p; P& r = p.set(a, b, c); MC_CHECK(good(p) && &r == &p, C + "set(a, b, c)", a << b << c << " got " << p << " want " << un << " d " << (double)wd);
		p = P::from(a, b, c); MC_CHECK(good(p), C + "from(a, b, c)", a << b << c << " got " << p << " want " << un);
		if (tangents) // point and two tangents
		{
			EV<3> n2 = cross(ev(b), ev(c)); E q2 = dot(n2, n2); LD m2 = 0; for (int x = 0; x < 3; ++x) m2 = std::max(m2, n2[x].m); if (q2.v == 0 || sqrtl(q2.v) < LD(1e-3) * m2) return;
			EV<3> u2 = unit(n2); un_tol = 64 * eps<R>() * m2 / sqrtl(q2.v); un = u2; wd = un[0].v * a.x + un[1].v * a.y + un[2].v * a.z;
			P& r = p.setFromPointAndTangents(a, b, c); MC_CHECK(good(p) && &r == &p, C + "setFromPointAndTangents", a << b << c << " got " << p << " want " << un);
			p = P::fromPointAndTangents(a, b, c); MC_CHECK(good(p), C + "fromPointAndTangents", a << b << c << " got " << p << " want " << un);
		}
		sample([&](std::ostream& o) { o << a << b << c << " -> " << p; });
	};
	for (size_t i = 0; i < pts.size(); i += st) for (size_t j = 0; j < pts.size(); ++j) for (size_t k = 0; k < pts.size(); k += st) three(pts[i], pts[j], pts[k], i % 3 == 0);
	if (UNIT() == 1) { section(C + "three points, ladders"); star<R>(9, [&](const R* p) { three(mk3(p), mk3(p + 3), mk3(p + 6), true); }); }
	MC_CHECK(sameP(P::XY, P(V(0, 0, 1), 0)) && sameP(P::YZ, P(V(1, 0, 0), 0)) && sameP(P::ZX, P(V(0, 1, 0), 0)), C + "constants", P::XY << P::YZ << P::ZX);
}
static void points()
{
	section(C + "points");
	std::vector<R> pv = deep() ? std::vector<R>{ -100, -3, -1, R(-0.5), 0, R(0.1), 1, 2, R(2.5) } : std::vector<R>{ -3, R(-0.5), 0, R(0.1), 1, R(2.5) };
	auto ps = planes(deep() ? std::vector<R>{ -1, 0, R(0.25), 1, 2, R(0.1) } : std::vector<R>{ -1, 0, R(0.25), 1, 2 }, { 0, 1, R(-2.5), R(0.3) });
	std::vector<V> dirs; tuples(deep() ? std::vector<R>{ -1, 0, R(0.25), 1, 3 } : std::vector<R>{ -1, 0, R(0.5), 2 }, 3, [&](const R* p) { dirs.push_back(mk3(p)); });
	for (auto& d : dirs) d *= (R)UNIT();
	std::vector<V> pts; tuples(U(pv), 3, [&](const R* p) { pts.push_back(mk3(p)); });
	auto point = [&](const Pl& pl, const V& x, const std::vector<R>& tols, const std::vector<V>& dirs, size_t i, size_t step)
	{
		state(); trace();
		const P p = pl.p; EV<3> n = ev(p.normal); E dist = dot(n, ev(x)) - E(p.d);
		R g = p.distance(x); MC_CHECK(near(g, dist), C + "distance", p << " " << x << " got " << g << " want " << dist);
		for (R tol : tols)
		{
			LD lim = fabsl(dist.v) - tol; bool exact = pl.exact && p.d != u(R(0.3)) && x.x != u(R(0.1)) && x.y != u(R(0.1)) && x.z != u(R(0.1)) && tol != u(R(0.001));
			if (exact || fabsl(lim) > 32 * eps<R>() * (dist.m + tol)) MC_CHECK(p.contains(x, tol) == (lim <= 0), C + "contains", p << " " << x << " tol " << tol << " distance " << dist);
		}
		EV<3> w = ev(x) - n * dist; V q(7, 8, 9); g = p.project(q, x); MC_CHECK(nearv(q, w) && near(g, dist), C + "project(point)", p << " " << x << " got " << q << " want " << w);
		q = x; p.project(q, q); MC_CHECK(nearv(q, w), C + "project(point) in place", p << " " << x << " got " << q << " want " << w);
		for (size_t j = i % step; j < dirs.size(); j += step)
		{
			const V& d = dirs[j]; E f = dot(ev(d), n); int s = sgn(f, pl.exact); if (s == 2) continue;
			V h(7, 8, 9); bool got = p.project(h, x, d); MC_CHECK(got == (s != 0), C + "project(point, direction) result", p << " " << x << " along " << d);
			if (!got || s == 0) continue;
			EV<3> w2 = ev(x) - ev(d) * (dist / f); MC_CHECK(nearv(h, w2), C + "project(point, direction)", p << " " << x << " along " << d << " got " << h << " want " << w2);
			h = x; p.project(h, h, d); MC_CHECK(nearv(h, w2), C + "project(point, direction) in place", p << " " << x << " along " << d << " got " << h << " want " << w2);
		}
		MC_CHECK(sameP(p, pl.p), C + "const functions leave it unchanged", p);
		sample([&](std::ostream& o) { o << p << " " << x << " distance " << p.distance(x); });
	};
	for (auto& pl : ps) for (size_t i = 0; i < pts.size(); ++i) point(pl, pts[i], U<R>({ 0, R(0.001), R(0.5), 1, 10 }), dirs, i, deep() ? 1 : 3);
	if (UNIT() == 1) { section(C + "points, ladders"); star<R>(11, [&](const R* p) { if (p[0] == 0 && p[1] == 0 && p[2] == 0) return; Pl pl = { P::from(mk3(p), p[3]), false }; point(pl, mk3(p + 4), { std::fabs(p[7]) }, { mk3(p + 8) }, 0, 1); }); }
}
static void rays()
{
	section(C + "rays");
	auto ps = planes(deep() ? std::vector<R>{ -1, 0, R(0.25), 1, 2 } : std::vector<R>{ -1, 0, R(0.5), 2 }, { 0, 1, R(-2.5) });
	std::vector<V> dirs, pts; tuples(deep() ? std::vector<R>{ -1, 0, R(0.25), 1, 3, R(-0.01) } : std::vector<R>{ -1, 0, R(0.5), 2 }, 3, [&](const R* p) { if (p[0] != 0 || p[1] != 0 || p[2] != 0) dirs.push_back(mk3(p)); }); for (auto& d : dirs) d *= (R)UNIT();
	tuples(deep() ? std::vector<R>{ -3, -1, 0, R(0.5), R(2.5) } : std::vector<R>{ R(-2.5), 0, 1, 3 }, 3, [&](const R* p) { pts.push_back(mk3(p)); });
	for (auto& x : pts) x *= (R)UNIT();
	auto cast = [&](const Pl& pl, const V& x, const V& d)
	{
		state(); trace();
		const P& p = pl.p; Ray3<R> ray = Ray3<R>::from(x, d);
		EV<3> n = ev(p.normal), dir = ev(ray.direction); E s = dot(n, ev(x)) - E(p.d), f = dot(n, dir); int ss = sgn(s, pl.exact), fs = sgn(f, pl.exact);
		if (ss == 2 || fs == 2) return;
		bool wh = fs < 0 && ss >= 0, wi = fs != 0 && ss * fs <= 0;
		V h1(7, 7, 7), h2(7, 7, 7); R t1 = -7, t2 = -7; bool gh = p.hits(h1, t1, ray), gi = p.intersects(h2, t2, ray);
		MC_CHECK(gh == wh, C + "hits(ray)", p << " " << ray << " got " << gh << " want " << wh);
		MC_CHECK(gi == wi, C + "intersects(ray)", p << " " << ray << " got " << gi << " want " << wi);
		if (!wi) return;
		E t = -s / f; EV<3> w = ev(x) + dir * t;
		if (gi) MC_CHECK(near(t2, t, 64) && nearv(h2, w, 64), C + "intersects(ray) point", p << " " << ray << " got " << t2 << " " << h2 << " want " << t << " " << w);
		if (gh && wh) MC_CHECK(near(t1, t, 64) && nearv(h1, w, 64), C + "hits(ray) point", p << " " << ray << " got " << t1 << " " << h1 << " want " << t << " " << w);
		sample([&](std::ostream& o) { o << p << " " << ray << " hits " << gh << " intersects " << gi << " t " << t2; });
	};
	for (auto& pl : ps) for (auto& x : pts) for (auto& d : dirs) cast(pl, x, d);
	if (UNIT() == 1) { section(C + "rays, ladders"); star<R>(10, [&](const R* p) { if (p[0] == 0 && p[1] == 0 && p[2] == 0) return; Pl pl = { P::from(mk3(p), p[3]), false }; V d = mk3(p + 7); if (p[7] == 0 && p[8] == 0 && p[9] == 0) return; cast(pl, mk3(p + 4), d); }); }
}
static void lines()
{
	section(C + "lines");
	auto ps = planes(deep() ? std::vector<R>{ -1, 0, R(0.25), 1, 2 } : std::vector<R>{ -1, 0, R(0.5) }, { 0, 1, R(-2.5) });
	std::vector<V> pts; tuples(deep() ? std::vector<R>{ -3, -1, 0, R(0.5), R(2.5) } : std::vector<R>{ R(-2.5), 0, 1, 3 }, 3, [&](const R* p) { pts.push_back(mk3(p)); });
	for (auto& x : pts) x *= (R)UNIT();
	auto segment = [&](const Pl& pl, const V& a, const V& b, const std::vector<R>& rs)
	{
		state(); trace();
		const P& p = pl.p; Line3<R> l = Line3<R>::from(a, b); EV<3> n = ev(p.normal);
		E s = dot(n, ev(a)) - E(p.d), e = dot(n, ev(b)) - E(p.d); int ss = sgn(s, pl.exact), es = sgn(e, pl.exact);
		auto point = [&](const char* site, R t, const V& h, E s, E e) {
			LD len = fabsl(s.v - e.v), t0 = s.v / (s.v - e.v), tol = 32 * eps<R>() * ((s.m + e.m) / len + 1); bool ok = fabsl(t - t0) <= tol && t >= -tol && t <= 1 + tol;
			for (int i = 0; i < 3; ++i) { LD x = comp(a, i), y = comp(b, i); ok = ok && fabsl(comp(h, i) - (x + (y - x) * t0)) <= tol * fabsl(y - x) + 8 * eps<R>() * (fabsl(x) + fabsl(y)); }
			MC_CHECK(ok, C + site, p << " " << l << " got " << t << " " << h << " want " << (double)t0);
		};
		V h(7, 7, 7); R t = -7; bool g;
		if (ss != 2 && es != 2)
		{
			bool wh = ss >= 0 && es < 0, wi = ss * es <= 0 && (ss || es);
			g = p.hits(h, t, l); MC_CHECK(g == wh, C + "hits(line)", p << " " << l << " got " << g << " want " << wh); if (g && wh) point("hits(line) point", t, h, s, e);
			h = V(7, 7, 7); t = -7; g = p.intersects(h, t, l); MC_CHECK(g == wi, C + "intersects(line)", p << " " << l << " got " << g << " want " << wi); if (g && wi) point("intersects(line) point", t, h, s, e);
		}
		for (R r : rs)
		{
			E s2 = s - E(r), e2 = e - E(r); int a2 = sgn(s2, pl.exact), b2 = sgn(e2, pl.exact); if (a2 == 2 || b2 == 2) continue;
			bool wh = a2 >= 0 && b2 < 0; h = V(7, 7, 7); t = -7; g = p.hits(h, t, l, r);
			MC_CHECK(g == wh, C + "hits(line, radius)", p << " " << l << " r " << r << " got " << g << " want " << wh); if (g && wh) point("hits(line, radius) point", t, h, s2, e2);
		}
		sample([&](std::ostream& o) { o << p << " " << l << " distances " << s << " " << e; });
	};
	for (auto& pl : ps) for (auto& a : pts) for (auto& b : pts) segment(pl, a, b, U<R>({ 0, R(0.5), 2 }));
	if (UNIT() == 1) { section(C + "lines, ladders"); star<R>(11, [&](const R* p) { if (p[0] == 0 && p[1] == 0 && p[2] == 0) return; Pl pl = { P::from(mk3(p), p[3]), false }; segment(pl, mk3(p + 4), mk3(p + 7), { std::fabs(p[10]) }); }); }
}
static void spheres()
{
	section(C + "spheres");
	auto ps = planes({ -1, 0, R(0.25), 1, 2 }, { 0, 1, R(-2.5), R(0.3) });
	std::vector<V> pts; tuples(deep() ? std::vector<R>{ -3, -1, R(-0.5), 0, R(0.1), R(0.5), 2, R(2.5) } : std::vector<R>{ -3, -1, 0, R(0.5), 2 }, 3, [&](const R* p) { pts.push_back(mk3(p)); });
	for (auto& x : pts) x *= (R)UNIT();
	auto ball = [&](const Pl& pl, const V& x, R r)
	{
		state(); trace();
		const P& p = pl.p; Sphere<R> sp(x, r); bool exact = pl.exact && p.d != u(R(0.3)) && r != u(R(0.1)) && x.x != u(R(0.1)) && x.y != u(R(0.1)) && x.z != u(R(0.1));
		E s = dot(ev(p.normal), ev(x)) - E(p.d); int s0 = sgn(s, exact), s1 = sgn(s - E(r), exact), s2 = sgn(s + E(r), exact);
		R d = -7;
		if (s1 != 2 && s2 != 2) { bool w = s1 <= 0 && s2 >= 0, g = p.intersects(d, sp); MC_CHECK(g == w, C + "intersects(sphere)", p << " " << sp << " got " << g << " want " << w); if (g && w) MC_CHECK(near(d, E(r) - s), C + "intersects(sphere) depth", p << " " << sp << " got " << d << " want " << E(r) - s); }
		d = -7;
		if (s1 != 2 && s0 != 2) { bool w = s1 <= 0 && s0 >= 0, g = p.hits(d, sp); MC_CHECK(g == w, C + "hits(sphere)", p << " " << sp << " got " << g << " want " << w); if (g && w) MC_CHECK(near(d, E(r) - s), C + "hits(sphere) depth", p << " " << sp << " got " << d << " want " << E(r) - s); }
		sample([&](std::ostream& o) { o << p << " " << sp << " distance " << s; });
	};
	for (auto& pl : ps) for (auto& x : pts) for (R r : U<R>({ 0, R(0.5), 1, 3, R(0.1), 20 })) ball(pl, x, r);
	if (UNIT() == 1) { section(C + "spheres, ladders"); star<R>(8, [&](const R* p) { if (p[0] == 0 && p[1] == 0 && p[2] == 0) return; Pl pl = { P::from(mk3(p), p[3]), false }; ball(pl, mk3(p + 4), std::fabs(p[7])); }); }
}
static void triples()
{
	section(C + "intersectAtSinglePoint");
	auto ps = planes({ -1, 0, 2 }, deep() ? std::vector<R>{ 0, 1, R(-2.5), R(0.3) } : std::vector<R>{ 0, R(-2.5) });
	auto odd = planes({ R(0.1), R(-0.3) }, { 1, R(0.7) }); ps.insert(ps.end(), odd.begin(), odd.end());
	auto three = [&](const Pl& A, const Pl& B, const Pl& D)
	{
		state(); trace();
		const P &a = A.p, &b = B.p, &c = D.p; EV<3> na = ev(a.normal), nb = ev(b.normal), nc = ev(c.normal);
		E det = dot(cross(na, nb), nc); LD err = 32 * eps<R>() * det.m; V p(7, 7, 7);
		bool g = P::intersectAtSinglePoint(p, a, b, c);
		if (fabsl(det.v) <= err) MC_CHECK(!g && p.x == 0 && p.y == 0 && p.z == 0, C + "intersectAtSinglePoint of dependent planes", a << b << c << " got " << p << " det " << det);
		else if (fabsl(det.v) > LD(0.001))
		{
			EV<3> w = (cross(nb, nc) * E(a.d) + cross(nc, na) * E(b.d) + cross(na, nb) * E(c.d)) / det;
			MC_CHECK(g && nearv(p, w), C + "intersectAtSinglePoint", a << b << c << " got " << g << " " << p << " want " << w);
		}
		sample([&](std::ostream& o) { o << a << b << c << " -> " << g << " " << p; });
	};
	for (auto& A : ps) for (auto& B : ps) for (auto& D : ps) three(A, B, D);
	if (UNIT() == 1) { section(C + "intersectAtSinglePoint, ladders"); star<R>(12, [&](const R* p) { if (p[0] == 0 && p[1] == 0 && p[2] == 0) return; Pl pl = { P::from(mk3(p), p[3]), false }; if ((p[4] == 0 && p[5] == 0 && p[6] == 0) || (p[8] == 0 && p[9] == 0 && p[10] == 0)) return; three(pl, Pl{ P::from(mk3(p + 4), p[7]), false }, Pl{ P::from(mk3(p + 8), p[11]), false }); }); }
}
void explore() { inUnits<R>([] { construction(); points(); rays(); lines(); spheres(); triples(); }); }
