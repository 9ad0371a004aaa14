// C14: circles and spheres: containment, overlap, line entry, bounding of point sets, scaling and translation.
#include "boxes.h"
typedef MC_REAL R;
template <int N> using T = G<R, N>;
template <int N> struct OS { LD c[N], r; };
template <int N> const char* cls() { return N == 2 ? "Circle::" : "Sphere::"; }
static Line3<R> mkLine(const Vec2<R>& a, const Vec2<R>& b, R za, R zb) { return Line3<R>::from(Vec3<R>(a.x, a.y, za), Vec3<R>(b.x, b.y, zb)); }
static Line3<R> mkLine(const Vec3<R>& a, const Vec3<R>& b, R, R) { return Line3<R>::from(a, b); }
template <int N> void single()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::S S; const std::string P = cls<N>();
	section(P + "single");
	std::vector<R> cv = N == 2 ? std::vector<R>{ -3, -1, 0, R(0.5), 2, R(0.1) } : std::vector<R>{ -2, 0, R(0.5), R(0.1) }, rv = { 0, R(0.25), 1, R(2.5), 5, 100, R(0.1) }; cv = U(cv); rv = U(rv);
	std::vector<R> pv = N == 2 ? std::vector<R>{ -5, -4, -3, -1, 0, R(0.25), 1, 2, 3, 4, 6, 100 } : std::vector<R>{ -4, -3, -1, 0, R(0.25), 2, 4, 7 };
	std::vector<V> pts; tuples(U(pv), N, [&](const R* p) { pts.push_back(D::mk(p)); });
	auto one = [&](const R* c, R r, const std::vector<V>& pts, const std::vector<R>& ks)
	{
		state(); trace();
		V cc = D::mk(c); S s(cc, r); const S s0 = s; EV<N> ce = ev(cc); bool dyadic = pts.size() > 1 && r != u(R(0.1)); for (int i = 0; i < N; ++i) dyadic = dyadic && c[i] != u(R(0.1));
		S q; S& rq = q.set(cc, r); MC_CHECK(same(q.center, cc) && q.radius == r && &rq == &q && same(S::from(cc, r).center, cc) && S::from(cc, r).radius == r && same(s.center, cc) && s.radius == r, P + "construction", s << q);
		bool ld = true; const R* dp = static_cast<const S&>(s).data(); for (int i = 0; i < N; ++i) ld = ld && dp[i] == c[i]; MC_CHECK(ld && dp[N] == r && s.data() == dp, P + "data", s);
		q.data()[0] = 7; q.data()[N] = 9; MC_CHECK(q.center.x == 7 && q.radius == 9, P + "data writes", q);
		auto f = s.template cast<float>(); auto d = s.template cast<double>(); bool ok = f.radius == (float)r && d.radius == (double)r; for (int i = 0; i < N; ++i) ok = ok && comp(f.center, i) == (float)c[i] && comp(d.center, i) == (double)c[i]; MC_CHECK(ok, P + "cast", s);
		for (R k : ks)
		{
			q = s; S& r1 = (q *= k); MC_CHECK(same(q.center, cc) && near(q.radius, E(r) * E(k)) && &r1 == &q, P + "operator*=", s << " * " << k << " got " << q);
			q = s * k; MC_CHECK(same(q.center, cc) && near(q.radius, E(r) * E(k)), P + "operator*", s << " * " << k << " got " << q);
			if (k == 0) continue;
			q = s; S& r2 = (q /= k); MC_CHECK(same(q.center, cc) && near(q.radius, E(r) / E(k)) && &r2 == &q, P + "operator/=", s << " / " << k << " got " << q);
			q = s / k; MC_CHECK(same(q.center, cc) && near(q.radius, E(r) / E(k)), P + "operator/", s << " / " << k << " got " << q);
		}
		for (auto& p : pts)
		{
			EV<N> pe = ev(p);
			q = s; S& r1 = (q += p); MC_CHECK(nearv(q.center, ce + pe) && q.radius == r && &r1 == &q, P + "operator+=", s << " " << p << " got " << q);
			q = s + p; MC_CHECK(nearv(q.center, ce + pe) && q.radius == r, P + "operator+", s << " " << p << " got " << q);
			q = s; S& r2 = (q -= p); MC_CHECK(nearv(q.center, ce - pe) && q.radius == r && &r2 == &q, P + "operator-=", s << " " << p << " got " << q);
			q = s - p; MC_CHECK(nearv(q.center, ce - pe) && q.radius == r, P + "operator-", s << " " << p << " got " << q);
			LD d2 = 0; for (int i = 0; i < N; ++i) { LD x = (LD)comp(p, i) - c[i]; d2 += x * x; }
			if (dyadic || fabsl(d2 - (LD)r * r) > 32 * eps<R>() * (d2 + (LD)r * r)) MC_CHECK(s.contains(p) == (d2 <= (LD)r * r), P + "contains(point)", s << " " << p << " d2 " << (double)d2);
		}
		MC_CHECK(same(s.center, s0.center) && s.radius == s0.radius, P + "const functions leave it unchanged", s);
		sample([&](std::ostream& o) { o << s; });
	};
	const std::vector<R> ks = { R(0), R(1), R(2), R(0.5), R(3), R(0.1) };
	tuples(cv, N, [&](const R* c) { for (R r : rv) one(c, r, pts, ks); });
	if (UNIT() == 1) { section(P + "single, ladders"); star<R>(2 * N + 2, [&](const R* p) { one(p, std::fabs(p[2 * N]), { D::mk(p + N) }, { std::fabs(p[2 * N + 1]) }); }); }
	bool unit = S::One.radius == 1; for (int i = 0; i < N; ++i) unit = unit && comp(S::One.center, i) == 0; MC_CHECK(unit, P + "One", S::One);
}
template <int N> void pairs()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::S S; const std::string P = cls<N>();
	section(P + "pairs");
	std::vector<R> cv = N == 2 ? std::vector<R>{ -3, -1, 0, R(0.5), 4 } : std::vector<R>{ -3, 0, R(0.5), 4 }, rv = { 0, R(0.25), R(0.5), 1, 2, 5, 6 };
	if (deep()) { cv.push_back(1); cv.push_back(12); rv.push_back(R(2.5)); rv.push_back(13); } cv = U(cv); rv = U(rv);
	std::vector<S> ss; tuples(cv, N, [&](const R* c) { for (R r : rv) ss.push_back(S(D::mk(c), r)); });
	bool exact = true;
	auto pair = [&](const S& a, const S& b)
	{
		state(); trace();
		LD d2 = 0; bool eq = a.radius == b.radius; for (int i = 0; i < N; ++i) { LD x = (LD)comp(a.center, i) - comp(b.center, i); d2 += x * x; eq = eq && x == 0; }
		LD ra = a.radius, rb = b.radius, sum = ra + rb, diff = ra - rb, d = sqrtl(d2);
		bool meets = d2 <= sum * sum, cont = diff >= 0 && d2 <= diff * diff;
		MC_CHECK((a == b) == eq && (a != b) == !eq, P + "operator==", a << " " << b);
		if (!exact && (fabsl(d2 - sum * sum) <= 32 * eps<R>() * (d2 + sum * sum) || fabsl(d - fabsl(diff)) <= 32 * eps<R>() * (d + ra + rb))) return;
		MC_CHECK(a.contains(b) == cont, P + "contains(circle/sphere)", a << " " << b << " want " << cont);
		MC_CHECK(a.intersects(b) == meets, P + "intersects(circle/sphere)", a << " " << b << " want " << meets);
		V hit; R t = -7; bool g = a.intersects(hit, t, b);
		MC_CHECK(g == meets, P + "intersects(hit, t, circle/sphere)", a << " " << b << " want " << meets);
		if (g && meets)
		{
			MC_CHECK(fabsl(t - (sum - d)) <= 16 * eps<R>() * (sum + d), P + "intersects(circle/sphere) depth", a << " " << b << " got " << t << " want " << (double)(sum - d));
			bool ok = true; for (int i = 0; i < N; ++i) { LD w = comp(b.center, i) + (d > 0 ? ((LD)comp(a.center, i) - comp(b.center, i)) / d * rb : 0); ok = ok && fabsl(comp(hit, i) - w) <= 16 * eps<R>() * (fabsl(comp(b.center, i)) + rb); }
			MC_CHECK(ok, P + "intersects(circle/sphere) hit point", a << " " << b << " got " << hit);
		}
		sample([&](std::ostream& o) { o << a << " " << b << " meets " << meets << " contains " << cont; });
	};
	for (auto& a : ss) for (auto& b : ss) pair(a, b);
	if (UNIT() != 1) return;
	section(P + "pairs, ladders"); exact = false;
	star<R>(2 * N + 2, [&](const R* p) { for (R k : { R(1), R(0.02), R(30) }) { S a(D::mk(p), std::fabs(p[2 * N])), b(D::mk(p + N), k * std::fabs(p[2 * N + 1])); pair(a, b); pair(b, a); } });
}
template <int N> void lines()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::S S; const std::string P = cls<N>();
	section(P + "lines");
	std::vector<R> pv = N == 2 ? std::vector<R>{ -4, -2, -1, R(-0.5), 0, R(0.3), 1, 2, 3 } : std::vector<R>{ -3, -1, 0, R(0.3), 1, 2 }; std::vector<R> rv = { R(0.5), 1, 2, R(3.5) };
	if (deep()) { if (N == 2) for (R x : { R(-7), R(0.25), R(1.5), R(5), R(30) }) pv.push_back(x); else pv.push_back(5); rv.push_back(R(0)); rv.push_back(R(0.1)); rv.push_back(5); } pv = U(pv); rv = U(rv);
	R cs[][3] = { { 0, 0, 0 }, { 1, R(-0.5), 2 }, { R(0.7), R(0.7), R(0.7) } }; for (auto& c : cs) for (auto& x : c) x = u(x);
	std::vector<V> pts; tuples(pv, N, [&](const R* p) { pts.push_back(D::mk(p)); });
	auto one = [&](const R* c, const S& s, const V& a, const V& b)
	{
		const R r = s.radius;
		{
			state(); trace();
			E ft2, cf2, dt; for (int i = 0; i < N; ++i) { E f = E(comp(b, i)) - E(comp(a, i)), g = E(comp(a, i)) - E(c[i]); f.m = std::max(fabsl(f.v), f.m * 0); g.m = fabsl(g.v) + (fabsl(g.v) ? 0 : 0); ft2 += f * f; cf2 += g * g; dt += f * g; }
			if (ft2.v == 0) return; // no direction
			E disc = dt * dt - ft2 * (cf2 - E(r) * E(r)); LD k = 16 * eps<R>(), derr = k * (dt.m * dt.m + ft2.m * (cf2.m + (LD)r * r));
			int line = disc.v > derr ? 1 : disc.v < -derr ? 0 : -1;
			int axes = 0; LD sp = 0; for (int i = 0; i < N; ++i) { if (comp(a, i) != comp(b, i)) ++axes; }
			LD root = sqrtl(std::max(0.0L, disc.v)), rerr = root > 0 ? std::min(derr / root, sqrtl(derr)) : sqrtl(derr);
			LD x1 = (-dt.v - root) / ft2.v, x2 = (-dt.v + root) / ft2.v, xerr = (k * dt.m + rerr) / ft2.v + k * (fabsl(x1) + fabsl(x2));
			auto ge = [&](LD x, LD y) { return x >= y + xerr ? 1 : x < y - xerr ? 0 : -1; };
			auto both = [](int p, int q) { return p == 0 || q == 0 ? 0 : p == 1 && q == 1 ? 1 : -1; };
			int enters = both(line, both(ge(x1, 0), ge(1, x1))), meets = both(line, both(ge(x2, 0), ge(1, x1)));
			// touching along a coordinate axis with representable numbers is exact
			for (int z = 0; z < (N == 2 ? 2 : 1); ++z)
			{
				Line3<R> l = mkLine(a, b, z ? R(5) : R(0), z ? R(-3) : R(0)); V h1, h2; R t1 = -7, t2 = -7;
				bool g = s.hits(h1, t1, l), g2 = s.intersects(h2, t2, l), m = s.intersects(l);
				if (enters >= 0) { MC_CHECK(g == !!enters, P + "hits(line)", s << " " << l << " got " << g << " want " << enters << " x1 " << (double)x1); }
				if (enters >= 0) MC_CHECK(g2 == !!enters, P + "intersects(hit, t, line)", s << " " << l << " got " << g2 << " want " << enters << " x1 " << (double)x1);
				MC_CHECK(g == g2, P + "hits(line) and intersects(hit, t, line)", s << " " << l);
				if (meets >= 0) MC_CHECK(m == !!meets, P + "intersects(line)", s << " " << l << " got " << m << " want " << meets << " x " << (double)x1 << ".." << (double)x2);
				if (g && enters != 0)
				{
					MC_CHECK(fabsl(t1 - x1) <= xerr && fabsl(t2 - x1) <= xerr, P + "hits(line) parameter", s << " " << l << " got " << t1 << "," << t2 << " want " << (double)x1);
					bool ok = true; for (int i = 0; i < N; ++i) { LD w = comp(a, i) + ((LD)comp(b, i) - comp(a, i)) * x1, tol = xerr * fabsl((LD)comp(b, i) - comp(a, i)) + 8 * eps<R>() * (fabsl(comp(a, i)) + fabsl(comp(b, i))); ok = ok && fabsl(comp(h1, i) - w) <= tol && fabsl(comp(h2, i) - w) <= tol; }
					MC_CHECK(ok, P + "hits(line) point", s << " " << l << " got " << h1 << h2);
				}
				sample([&](std::ostream& o) { o << s << " " << l << " hits " << g << " meets " << m; });
			}
		}
	};
	for (auto& c : cs) for (R r : rv) { S s(D::mk(c), r); for (auto& a : pts) for (auto& b : pts) one(c, s, a, b); }
	if (UNIT() != 1) return;
	section(P + "lines, ladders");
	star<R>(3 * N + 1, [&](const R* p) {
		S s(D::mk(p), std::fabs(p[3 * N])); V a = D::mk(p + N), b = D::mk(p + 2 * N); one(p, s, a, b);
		R q[N]; for (int i = 0; i < N; ++i) q[i] = p[i] + s.radius * R(i == 0 ? 0.3 : i == 1 ? -0.5 : 0.2); b = D::mk(q); one(p, s, a, b); // towards a point inside
	});
}
template <int N> void lists()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::S S; const std::string P = cls<N>();
	section(P + "point lists");
	std::vector<R> v = N == 2 ? std::vector<R>{ -1, 0, R(2.5) } : std::vector<R>{ -1, R(0.1), R(7) }; v = U(v);
	std::vector<V> pts; tuples(v, N, [&](const R* p) { pts.push_back(D::mk(p)); });
	if (N == 3) { std::vector<V> q; for (size_t i = 0; i < pts.size(); i += 2) q.push_back(pts[i]); pts = q; }
	int maxn = UNIT() != 1 ? 3 : thorough() ? (N == 2 ? 6 : 5) : (N == 2 ? 5 : 3);
	auto check = [&](int n, const V* p)
	{
		state(); trace();
		LD lo[N], hi[N]; for (int i = 0; i < N; ++i) { lo[i] = hi[i] = comp(p[0], i); for (int j = 1; j < n; ++j) { lo[i] = std::min(lo[i], (LD)comp(p[j], i)); hi[i] = std::max(hi[i], (LD)comp(p[j], i)); } }
		LD big = 0; for (int i = 0; i < N; ++i) big = std::max(big, std::max(fabsl(lo[i]), fabsl(hi[i])));
		LD r2 = 0; for (int j = 0; j < n; ++j) { LD d = 0; for (int i = 0; i < N; ++i) { LD x = comp(p[j], i) - (lo[i] + hi[i]) / 2; d += x * x; } r2 = std::max(r2, d); }
		auto good = [&](const S& s) { bool ok = fabsl(s.radius - sqrtl(r2)) <= 16 * eps<R>() * (UNIT() == 1 ? std::max(10.0L, big) : 10 * UNIT()); for (int i = 0; i < N; ++i) ok = ok && fabsl(comp(s.center, i) - (lo[i] + hi[i]) / 2) <= 4 * eps<R>() * (fabsl(lo[i]) + fabsl(hi[i])); return ok; };
		S b; S& r = b.set(n, p); MC_CHECK(good(b) && &r == &b && good(S::from(n, p)), P + "set/from(points)", n << " points, got " << b << " want radius " << (double)sqrtl(r2));
		bool all = true; S wide = b * (1 + 32 * std::numeric_limits<R>::epsilon()); for (int j = 0; j < n; ++j) all = all && wide.contains(p[j]); MC_CHECK(all, P + "set(points) encloses them", n << " points, got " << b);
		for (int gap = 0; gap <= 2; ++gap)
		{
			int st = N + gap; std::vector<R> store(n * st + 8); R* buf = store.data(); for (auto& x : store) x = u(R(1e4)); for (int j = 0; j < n; ++j) { for (int i = 0; i < N; ++i) buf[j * st + i] = comp(p[j], i); for (int i = 0; i < gap; ++i) buf[j * st + N + i] = i ? u(R(-1e4)) : u(R(1e4)); }
			S c; S& rc = c.set(n, (const V*)buf, st * (int)sizeof(R)); MC_CHECK(good(c) && &rc == &c && good(S::from(n, (const V*)buf, st * (int)sizeof(R))), P + "set/from(points, stride)", n << " points, stride " << st << ", got " << c);
		}
		sample([&](std::ostream& s) { s << n << " points -> " << b; });
	};
	for (int n = 1; n <= maxn; ++n) tuples(pts, n, [&](const V* p) { check(n, p); });
	if (UNIT() != 1) return;
	section(P + "long point lists");
	longLists<V, N>([&](int n, const V* p) { check(n, p); });
	section(P + "point lists, ladders");
	star<R>(3 * N, [&](const R* p) { V q[3] = { D::mk(p), D::mk(p + N), D::mk(p + 2 * N) }; for (int n = 1; n <= 3; ++n) check(n, q); });
}
void explore()
{
	inUnits<R>([] { single<2>(); single<3>(); pairs<2>(); pairs<3>(); lines<2>(); lines<3>(); lists<2>(); lists<3>(); });
}
