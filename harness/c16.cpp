// C16: lines and rays: construction, length, points along them, distance of a point.
#include "boxes.h"
typedef MC_REAL R;
template <int N> const char* lname() { return N == 2 ? "Line2::" : "Line3::"; }
template <int N> const char* rayname() { return N == 2 ? "Ray2::" : "Ray3::"; }
template <int N> std::vector<typename G<R, N>::V> pts(const std::vector<R>& v) { std::vector<typename G<R, N>::V> r; tuples(v, N, [&](const R* p) { r.push_back(G<R, N>::mk(p)); }); return r; }
template <int N> E perp(const EV<N>& p, const EV<N>& a, const EV<N>& f) // distance of p from the infinite line a + s f
{
	EV<N> q = p - a; EV<3> q3, f3; for (int i = 0; i < N; ++i) { q3[i] = q[i]; f3[i] = f[i]; }
	EV<3> c = cross(q3, f3); LD v = 0, m = 0, l = 0, lm = 0;
	for (int i = 0; i < 3; ++i) { v += c[i].v * c[i].v; m += c[i].m * c[i].m; l += f3[i].v * f3[i].v; lm += f3[i].m * f3[i].m; }
	return E(sqrtl(v / l), sqrtl(m / l) * sqrtl(lm / l));
}
template <int N> void lines()
{
	typedef G<R, N> D; typedef typename D::V V; typedef typename D::Line L; const std::string P = lname<N>();
	section(P);
	std::vector<R> v = N == 2 ? std::vector<R>{ -3, -1, 0, R(0.3), 1, 2 } : deep() ? std::vector<R>{ -2, 0, R(0.3), 1 } : std::vector<R>{ -2, 0, R(0.3) };
	if (deep() && N == 2) { v.push_back(R(0.1)); v.push_back(R(50)); v.push_back(R(-7.7)); }
	v = U(v); auto ps = pts<N>(v); std::vector<R> ts = { 0, 1, R(0.5), R(0.25), R(0.3), -1, 2, R(10.5) };
	auto one = [&](const V& a, const V& b, const std::vector<R>& ts, const std::vector<V>& ps)
	{
		state(); trace();
		L l = L::from(a, b); EV<N> ea = ev(a), eb = ev(b), f = eb - ea; E l2 = dot(f, f);
		MC_CHECK(same(l.start, a) && same(l.end, b), P + "from", l);
		MC_CHECK(near(l.lengthSqr(), l2), P + "lengthSqr", l << " got " << l.lengthSqr() << " want " << l2);
		MC_CHECK(near(l.length(), esqrt(l2)), P + "length", l << " got " << l.length() << " want " << esqrt(l2));
		MC_CHECK(l.isNull() == same(a, b), P + "isNull", l);
		L m = l; MC_CHECK(m == l && !(m != l), P + "operator==", l); for (int i = 0; i < 2 * N; ++i) { m = l; (&m.start.x)[i] += u(R(1)); MC_CHECK(m != l && !(m == l), P + "operator!=", l << m); }
		auto c1 = l.template cast<float>(); auto c2 = l.template cast<double>(); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && comp(c1.start, i) == (float)comp(a, i) && comp(c1.end, i) == (float)comp(b, i) && comp(c2.start, i) == (double)comp(a, i) && comp(c2.end, i) == (double)comp(b, i); MC_CHECK(ok, P + "cast", l);
		for (R t : ts) { V p = l.pointAt(t); EV<N> w = ea + f * E(t); MC_CHECK(nearv(p, w), P + "pointAt", l << " at " << t << " got " << p << " want " << w); }
		for (auto& p : ps)
		{
			E w; if (l2.v == 0) { EV<N> q = ev(p) - ea; w = esqrt(dot(q, q)); } else w = perp<N>(ev(p), ea, f);
			R g = l.distance(p); MC_CHECK(near(g, w) && g >= 0, P + "distance", l << " " << p << " got " << g << " want " << w);
			step();
		}
		sample([&](std::ostream& o) { o << l << " length " << l.length(); });
	};
	for (auto& a : ps) for (auto& b : ps) one(a, b, ts, ps);
	for (auto& a : { ps[0], ps[ps.size() / 2], ps.back() }) for (auto& d : pts<N>(U<R>({ -2, -1, 0, 1, 2, 3 }))) one(a, a + d, { 0, R(0.5), 1 }, { ps[1], a, a - d }); // integral lengths
	if (UNIT() == 1) { section(P + "ladders"); star<R>(3 * N + 1, [&](const R* p) { one(D::mk(p), D::mk(p + N), { p[3 * N] }, { D::mk(p + 2 * N) }); }); }
}
template <int N> void rays()
{
	typedef G<R, N> D; typedef typename D::V V; typedef typename D::Ray Ray; const std::string P = rayname<N>();
	section(P);
	std::vector<R> v = N == 2 ? std::vector<R>{ -3, -1, 0, R(0.3), 1, 2 } : deep() ? std::vector<R>{ -2, 0, R(0.3), 1 } : std::vector<R>{ -2, 0, R(0.3) };
	std::vector<R> dv = N == 2 ? std::vector<R>{ -2, -1, 0, R(0.1), 1, 3 } : std::vector<R>{ -1, 0, R(0.5), 2 };
	v = U(v); dv = U(dv); auto ps = pts<N>(v); std::vector<R> ts = { 0, 1, R(0.5), R(0.3), -1, 2, R(10.5) };
	auto one = [&](const V& a, const V& d, const std::vector<R>& ts, const std::vector<V>& ps)
	{
		E d2 = dot(ev(d), ev(d)); if (d2.v == 0) return;
		state(); trace();
		Ray r = Ray::from(a, d); EV<N> u = ev(d) / esqrt(d2), ea = ev(a), f = ev(r.direction);
		MC_CHECK(same(r.start, a) && nearv(r.direction, u), P + "from", a << d << " got " << r << " want " << u);
		Ray m = r; MC_CHECK(m == r && !(m != r), P + "operator==", r); for (int i = 0; i < 2 * N; ++i) { m = r; (&m.start.x)[i] += i < N ? mc::u(R(1)) : R(1); MC_CHECK(m != r && !(m == r), P + "operator!=", r << m); }
		auto c1 = r.template cast<float>(); auto c2 = r.template cast<double>(); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && comp(c1.start, i) == (float)comp(a, i) && comp(c2.start, i) == (double)comp(a, i) && fabsl(comp(c1.direction, i) - u[i].v) <= 8 * FLT_EPSILON && fabsl(comp(c2.direction, i) - u[i].v) <= 8 * eps<R>(); MC_CHECK(ok, P + "cast", r << " " << c1 << " " << c2);
		for (R t : ts) { V p = r.pointAt(t); EV<N> w = ea + f * E(t); MC_CHECK(nearv(p, w), P + "pointAt", r << " at " << t << " got " << p << " want " << w); }
		for (auto& p : ps)
		{
			EV<N> q = ev(p) - ea; E along = dot(q, f), w = perp<N>(ev(p), ea, f), far = esqrt(dot(q, q)); LD tol = 64 * eps<R>() * (w.m + far.m);
			R g = r.distance(p);
			// points ahead of the start: the perpendicular; behind it, anything between the perpendicular and the distance to the start
			if (along.v > 32 * eps<R>() * along.m) MC_CHECK(fabsl(g - w.v) <= tol, P + "distance", r << " " << p << " got " << g << " want " << w);
			else MC_CHECK(g >= w.v - tol && g <= far.v + tol, P + "distance behind the start", r << " " << p << " got " << g << " want " << w << ".." << far);
			step();
		}
		// points on the ray itself
		for (int k : { 1, 2, 5 }) { V p = r.start; R* x = &p.x; for (int i = 0; i < N; ++i) x[i] += comp(d, i) * k; E far = esqrt(dot(ev(p) - ea, ev(p) - ea)); R g = r.distance(p); MC_CHECK(g >= 0 && g <= 64 * eps<R>() * (far.m), P + "distance of a point on the ray", r << " " << p << " got " << g); }
		sample([&](std::ostream& o) { o << r; });
	};
	for (auto& a : ps) for (auto& d : pts<N>(dv)) one(a, d, ts, ps);
	if (UNIT() == 1) { section(P + "ladders"); star<R>(3 * N + 1, [&](const R* p) { one(D::mk(p), D::mk(p + N), { p[3 * N] }, { D::mk(p + 2 * N) }); }); }
}
// the crossing of two infinite 2-D lines: parallel ones have none, otherwise both parameters give the same point
static void crossing()
{
	section("intersection(Vec2)");
	auto ps = pts<2>(U(deep() ? std::vector<R>{ -3, -1, 0, R(0.3), 2, R(10.5) } : std::vector<R>{ -3, 0, R(0.3), 2 }));
	auto one = [&](const Vec2<R>& f, const Vec2<R>& t, const Vec2<R>& a, const Vec2<R>& b)
	{
		state(); trace();
		R p = 77, q = 78; int n = ml::intersection(f, t, a, b, p, q);
		EV<2> u = ev(t) - ev(f), v = ev(b) - ev(a), w = ev(a) - ev(f);
		E det = u[0] * v[1] - u[1] * v[0];
		auto what = [&](std::ostream& o) -> std::ostream& { return o << f << "-" << t << " and " << a << "-" << b << " got " << n << " " << p << " " << q; };
		std::ostringstream os; if (fabsl(det.v) <= 16 * eps<R>() * det.m) { // parallel within rounding
			if (det.m == 0 || (same(f, t) || same(a, b))) { what(os); MC_CHECK(n == 0 && p == 0 && q == 0, "intersection of a point with a line", os.str()); }
			else if (n == 0) { what(os); MC_CHECK(p == 0 && q == 0, "intersection of parallel lines leaves the parameters 0", os.str()); }
			return; }
		what(os);
		MC_CHECK(n == 1, "intersection of lines that cross", os.str());
		E lam = (w[0] * v[1] - w[1] * v[0]) / det, gam = (w[0] * u[1] - w[1] * u[0]) / det;
		LD amp = det.m / fabsl(det.v);
		MC_CHECK(fabsl(p - lam.v) <= 64 * eps<R>() * (lam.m + fabsl(lam.v)) * amp && fabsl(q - gam.v) <= 64 * eps<R>() * (gam.m + fabsl(gam.v)) * amp, "intersection parameters", os.str() << " want " << (double)lam.v << " " << (double)gam.v);
	};
	for (auto& f : ps) for (auto& t : ps) for (auto& a : ps) for (auto& b : ps) one(f, t, a, b);
	if (UNIT() == 1) { section(std::string("intersection(Vec2) ") + "ladders"); star<R>(8, [&](const R* p) { one(mk2(p), mk2(p + 2), mk2(p + 4), mk2(p + 6)); }); }
	// exactly parallel integer lines
	auto is = pts<2>(U<R>({ -2, 0, 1, 3 }));
	for (auto& f : is) for (auto& t : is) for (auto& a : is) for (int k : { -2, 0, 1, 3 })
	{
		state(); trace(); Vec2<R> b = a + (t - f) * R(k); R p = 77, q = 78; int n = ml::intersection(f, t, a, b, p, q);
		MC_CHECK(n == 0 && p == 0 && q == 0, "intersection of parallel lines", f << "-" << t << " and " << a << "-" << b << " got " << n << " " << p << " " << q);
	}
}
void explore() { inUnits<R>([] { crossing(); lines<2>(); lines<3>(); rays<2>(); rays<3>(); }); }
