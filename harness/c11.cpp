// C11: axis-aligned boxes (inf/sup) are closed boxes: accessors, containment, union, intersection, bounding of point sets, scaling and translation.
#include "boxes.h"
typedef MC_REAL R;
template <int N> using T = G<R, N>;
template <int N> OB<N> ob(const typename T<N>::A& b) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = comp(b.inf, i); o.hi[i] = comp(b.sup, i); } return o; }
template <int N> typename T<N>::A mkA(const OB<N>& o) { R a[N], b[N]; for (int i = 0; i < N; ++i) { a[i] = (R)o.lo[i]; b[i] = (R)o.hi[i]; } return typename T<N>::A(T<N>::mk(a), T<N>::mk(b)); }
template <int N> bool sameO(const OB<N>& a, const OB<N>& b) { for (int i = 0; i < N; ++i) if (!(a.lo[i] == b.lo[i] && a.hi[i] == b.hi[i])) return false; return true; }
template <int N> bool isBox(const typename T<N>::A& b, const OB<N>& o) { return sameO<N>(ob<N>(b), o); }
template <int N> bool nearBox(const typename T<N>::A& b, const OB<N>& o, LD k = 8)
{
	OB<N> g = ob<N>(b); LD m = 0; for (int i = 0; i < N; ++i) m = std::max(m, std::max(fabsl(o.lo[i]), fabsl(o.hi[i])));
	for (int i = 0; i < N; ++i) if (!(fabsl(g.lo[i] - o.lo[i]) <= k * eps<R>() * m && fabsl(g.hi[i] - o.hi[i]) <= k * eps<R>() * m)) return false;
	return true;
}
template <int N> std::vector<OB<N>> boxes(const std::vector<R>& v)
{
	std::vector<std::pair<R, R>> iv; for (R a : v) for (R b : v) if (a <= b) iv.push_back({ a, b });
	std::vector<OB<N>> r;
	tuples(iv, N, [&](const std::pair<R, R>* p) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = p[i].first; o.hi[i] = p[i].second; } r.push_back(o); });
	return r;
}
template <int N> OB<N> sorted(const R* p) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = std::min(p[i], p[N + i]); o.hi[i] = std::max(p[i], p[N + i]); } return o; }
template <int N> std::vector<R> lattice() { return U(N == 2 ? (deep() ? std::vector<R>{ -4, -2, -1, R(-0.5), 0, R(0.25), 1, 3, R(0.1), -100 } : std::vector<R>{ -2, -1, R(-0.5), 0, R(0.25), 1, 3 }) : (deep() ? std::vector<R>{ -2, -1, 0, R(0.5), 3 } : std::vector<R>{ -1, 0, R(0.5), 2 })); }

template <int N> void single()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::A A; typedef typename D::C C; typedef typename D::S S;
	const std::string P = std::string("AABB") + D::name() + "::";
	section(P + "single");
	auto lat = lattice<N>(); auto all = boxes<N>(lat);
	{ auto wild = boxes<N>(U<R>({ R(0.1), R(-3.3e-3), R(1e5), R(-7.7) })); all.insert(all.end(), wild.begin(), wild.end()); }
	std::vector<R> pv = lat; pv.push_back(u(R(0.75))); pv.push_back(u(R(-5))); if (N == 2) pv.push_back(u(std::nextafter(R(1), R(2))));
	std::vector<R> tv = { 0, 1, R(0.5), R(0.25), -1, 2 };
	std::vector<V> pts, ts; tuples(pv, N, [&](const R* p) { pts.push_back(D::mk(p)); }); tuples(tv, N, [&](const R* p) { ts.push_back(D::mk(p)); });
	auto one = [&](const OB<N>& o, const std::vector<V>& pts, const std::vector<V>& ts, const std::vector<R>& ks)
	{
		state(); trace();
		A b = mkA<N>(o); const A c0 = b;
		EV<N> ce, ex, sz; E meas(1), out2, in; bool null = true;
		for (int i = 0; i < N; ++i)
		{
			E lo(o.lo[i]), hi(o.hi[i]); ce[i] = (lo + hi) * E(0.5L); ex[i] = (hi - lo) * E(0.5L); sz[i] = hi - lo; meas *= sz[i]; out2 += ex[i] * ex[i];
			if (i == 0 || ex[i].v < in.v) in = ex[i]; if (o.lo[i] != o.hi[i]) null = false;
		}
		E out = esqrt(out2);
		MC_CHECK(nearv(b.center(), ce), P + "center", o << " got " << b.center());
		MC_CHECK(nearv(b.extents(), ex), P + "extents", o << " got " << b.extents());
		MC_CHECK(nearv(b.size(), sz), P + "size", o << " got " << b.size());
		MC_CHECK(near(D::measure(b), meas), P + "area/volume", o << " got " << D::measure(b));
		MC_CHECK(b.isNull() == null, P + "isNull", o);
		S ic = D::inner(b), oc = D::outer(b);
		MC_CHECK(nearv(ic.center, ce) && near(ic.radius, in), P + "inner circle/sphere", o << " got " << ic);
		MC_CHECK(nearv(oc.center, ce) && near(oc.radius, out), P + "outer circle/sphere", o << " got " << oc);
		for (auto& t : ts)
		{
			V p = b.pointAt(t); EV<N> w; for (int i = 0; i < N; ++i) w[i] = E(o.lo[i]) + (E(o.hi[i]) - E(o.lo[i])) * E(comp(t, i));
			MC_CHECK(nearv(p, w), P + "pointAt", o << " at " << t << " got " << p << " want " << w);
		}
		for (auto& p : pts)
		{
			bool in = true; for (int i = 0; i < N; ++i) in = in && comp(p, i) >= o.lo[i] && comp(p, i) <= o.hi[i];
			MC_CHECK(b.contains(p) == in, P + "contains(point)", o << " " << p << " want " << in);
			A g = b; A& r = g.add(p); OB<N> w = o; for (int i = 0; i < N; ++i) { w.lo[i] = std::min(w.lo[i], (LD)comp(p, i)); w.hi[i] = std::max(w.hi[i], (LD)comp(p, i)); }
			MC_CHECK(isBox<N>(g, w) && &r == &g, P + "add", o << " " << p << " got " << g << " want " << w);
			OB<N> tr = o, un = o; for (int i = 0; i < N; ++i) { tr.lo[i] += comp(p, i); tr.hi[i] += comp(p, i); un.lo[i] -= comp(p, i); un.hi[i] -= comp(p, i); }
			g = b; A& r2 = (g += p); MC_CHECK(nearBox<N>(g, tr) && &r2 == &g, P + "operator+=", o << " " << p << " got " << g);
			MC_CHECK(nearBox<N>(b + p, tr), P + "operator+", o << " " << p << " got " << b + p);
			g = b; A& r3 = (g -= p); MC_CHECK(nearBox<N>(g, un) && &r3 == &g, P + "operator-=", o << " " << p << " got " << g);
			MC_CHECK(nearBox<N>(b - p, un), P + "operator-", o << " " << p << " got " << b - p);
		}
		for (R k : ks)
		{
			OB<N> w, q; LD grow = 1; for (int i = 0; i < N; ++i) { LD c = (o.lo[i] + o.hi[i]) / 2, e = (o.hi[i] - o.lo[i]) / 2; w.lo[i] = c - e * k; w.hi[i] = c + e * k; if (k != 0) { q.lo[i] = c - e / k; q.hi[i] = c + e / k; } grow = std::max(grow, fabsl(c) / std::max(1e-9L * UNIT(), std::max(fabsl(w.lo[i]), fabsl(w.hi[i])))); }
			LD tol = 16 * std::min(grow, 1e6L);
			A g = b; A& r = g.scaleCentered(k); MC_CHECK(nearBox<N>(g, w, tol) && &r == &g, P + "scaleCentered", o << " * " << k << " got " << g << " want " << w);
			g = b; A& r2 = (g *= k); MC_CHECK(nearBox<N>(g, w, tol) && &r2 == &g, P + "operator*=", o << " * " << k << " got " << g);
			MC_CHECK(nearBox<N>(b * k, w, tol), P + "operator*", o << " * " << k << " got " << b * k);
			if (k == 0) continue;
			g = b; A& r3 = (g /= k); MC_CHECK(nearBox<N>(g, q, 64 + tol) && &r3 == &g, P + "operator/=", o << " / " << k << " got " << g << " want " << q);
			MC_CHECK(nearBox<N>(b / k, q, 64 + tol), P + "operator/", o << " / " << k << " got " << b / k);
		}
		C c = D::fromInfSup(b.inf, b.sup), c2; c2.set(b);
		MC_CHECK(nearv(c.center, ce) && nearv(c.extents, ex) && nearv(c2.center, ce) && nearv(c2.extents, ex), P + "to centre/extents box", o << " got " << c << " and " << c2);
		A back = A::from(c), back2; A& r = back2.set(c); OB<N> co; for (int i = 0; i < N; ++i) { co.lo[i] = (LD)comp(c.center, i) - comp(c.extents, i); co.hi[i] = (LD)comp(c.center, i) + comp(c.extents, i); }
		MC_CHECK(nearBox<N>(back, co, 8) && nearBox<N>(back2, co, 8) && &r == &back2, P + "from centre/extents box", c << " got " << back << " and " << back2);
		A s; s.set(b.inf, b.sup); MC_CHECK(isBox<N>(s, o) && isBox<N>(A::from(b.inf, b.sup), o), P + "set/from(inf, sup)", o << " got " << s);
		OB<N> po; for (int i = 0; i < N; ++i) po.lo[i] = po.hi[i] = o.lo[i];
		s.set(b.inf); MC_CHECK(isBox<N>(s, po) && isBox<N>(A::from(b.inf), po), P + "set/from(point)", b.inf << " got " << s);
		auto f = b.template cast<float>(); auto d = b.template cast<double>(); bool okc = true;
		for (int i = 0; i < N; ++i) okc = okc && comp(f.inf, i) == (float)o.lo[i] && comp(f.sup, i) == (float)o.hi[i] && comp(d.inf, i) == (double)o.lo[i] && comp(d.sup, i) == (double)o.hi[i];
		MC_CHECK(okc, P + "cast", o);
		MC_CHECK(isBox<N>(b, o) && b == c0, P + "const functions leave the box unchanged", o << " got " << b);
		sample([&](std::ostream& s) { s << o << " centre " << b.center() << " outer radius " << oc.radius; });
	};
	const std::vector<R> ks = { R(0), R(1), R(2), R(0.5), R(3), R(0.1), R(100) };
	for (auto& o : all) one(o, pts, ts, ks);
	if (UNIT() == 1) { section(P + "single, ladders"); star<R>(3 * N + 1, [&](const R* p) { one(sorted<N>(p), { D::mk(p + 2 * N) }, { D::mk(p + 2 * N) }, { std::fabs(p[3 * N]) }); }); }
	OB<N> unit, zero; for (int i = 0; i < N; ++i) { unit.lo[i] = -0.5L; unit.hi[i] = 0.5L; zero.lo[i] = zero.hi[i] = 0; }
	MC_CHECK(isBox<N>(A::One, unit) && isBox<N>(A::Zero, zero), P + "One/Zero", A::One << A::Zero);
}
template <int N> void pairs()
{
	typedef T<N> D; typedef typename D::A A;
	const std::string P = std::string("AABB") + D::name() + "::", sI = P + "intersects(box)", sC = P + "contains(box)", sU = P + "fromUnion", sN = P + "fromIntersection", sE = P + "operator==";
	section(P + "pairs");
	auto all = boxes<N>(lattice<N>()); std::vector<A> bs; for (auto& o : all) bs.push_back(mkA<N>(o));
	OB<N> zero; for (int i = 0; i < N; ++i) zero.lo[i] = zero.hi[i] = 0;
	auto pair = [&](const OB<N>& p, const OB<N>& q, const A& a, const A& b)
	{
		state(); trace();
		bool inter = true, cont = true, eq = true; OB<N> u, n;
		for (int i = 0; i < N; ++i)
		{
			inter = inter && p.lo[i] <= q.hi[i] && q.lo[i] <= p.hi[i]; cont = cont && p.lo[i] <= q.lo[i] && q.hi[i] <= p.hi[i]; eq = eq && p.lo[i] == q.lo[i] && p.hi[i] == q.hi[i];
			u.lo[i] = std::min(p.lo[i], q.lo[i]); u.hi[i] = std::max(p.hi[i], q.hi[i]); n.lo[i] = std::max(p.lo[i], q.lo[i]); n.hi[i] = std::min(p.hi[i], q.hi[i]);
		}
		MC_CHECK(a.intersects(b) == inter, sI, p << " " << q << " want " << inter);
		MC_CHECK(a.contains(b) == cont, sC, p << " " << q << " want " << cont);
		MC_CHECK((a == b) == eq && (a != b) == !eq, sE, p << " " << q << " want " << eq);
		A g = A::fromUnion(a, b); MC_CHECK(isBox<N>(g, u), sU, p << " " << q << " got " << g << " want " << u);
		g = A::fromIntersection(a, b); MC_CHECK(isBox<N>(g, inter ? n : zero), sN, p << " " << q << " got " << g << " want " << (inter ? n : zero));
		sample([&](std::ostream& s) { s << p << " " << q << " intersects " << inter << " contains " << cont; });
	};
	for (size_t x = 0; x < all.size(); ++x) for (size_t y = 0; y < all.size(); ++y) pair(all[x], all[y], bs[x], bs[y]);
	if (UNIT() == 1) star<R>(4 * N, [&](const R* v) { OB<N> p = sorted<N>(v), q = sorted<N>(v + 2 * N); A a = mkA<N>(p), b = mkA<N>(q); pair(p, q, a, b); pair(q, p, b, a); pair(p, p, a, a); });
	for (size_t x = 0; x < all.size(); x += 3) for (size_t y = 0; y < all.size(); y += 5)
	{
		state(); A g = bs[x]; g = A::fromUnion(g, bs[y]); A h = bs[y]; h = A::fromIntersection(bs[x], h);
		MC_CHECK(isBox<N>(g, ob<N>(A::fromUnion(bs[x], bs[y]))) && isBox<N>(h, ob<N>(A::fromIntersection(bs[x], bs[y]))), P + "assigned to an operand", all[x] << " " << all[y]);
	}
}
// containment of spheres in the 3D box
static void spheres()
{
	section("AABB3::contains(sphere)");
	auto all = boxes<3>(U<R>({ -2, 0, R(0.5), 2 }));
	for (auto& o : all)
	{
		AABB3<R> b = mkA<3>(o);
		tuples(U<R>({ -2, R(-0.5), 0, R(0.25), 1 }), 3, [&](const R* c) { for (R r : U<R>({ 0, R(0.25), R(0.5), 1, 2 })) {
			state(); trace(); bool in = true; for (int i = 0; i < 3; ++i) in = in && (LD)c[i] - r >= o.lo[i] && (LD)c[i] + r <= o.hi[i];
			Sphere<R> s(mk3(c), r); MC_CHECK(b.contains(s) == in, "AABB3::contains(sphere)", o << " " << s << " want " << in);
		} });
	}
	if (UNIT() == 1) star<R>(10, [&](const R* p) {
		OB<3> o = sorted<3>(p); AABB3<R> b = mkA<3>(o); for (R r : { std::fabs(p[9]), R(0.01) * std::fabs(p[9]) }) {
		state(); trace(); bool in = true, clear = true; for (int i = 0; i < 3; ++i) { LD l = (LD)p[6 + i] - r, h = (LD)p[6 + i] + r, m = 8 * eps<R>() * (fabsl(p[6 + i]) + r); in = in && l >= o.lo[i] && h <= o.hi[i]; clear = clear && fabsl(l - o.lo[i]) > m && fabsl(h - o.hi[i]) > m; }
		Sphere<R> s(mk3(p + 6), r); if (clear) MC_CHECK(b.contains(s) == in, "AABB3::contains(sphere)", o << " " << s << " want " << in); }
	});
}
// bounding boxes of all point lists up to a length, in every memory layout
template <int N> void lists()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::A A;
	const std::string P = std::string("AABB") + D::name() + "::";
	section(P + "point lists");
	std::vector<R> v = N == 2 ? std::vector<R>{ -1, 0, R(2.5) } : std::vector<R>{ -1, R(0.1) };
	if (N == 3) v.push_back(R(7)); v = U(v);
	std::vector<V> pts; tuples(v, N, [&](const R* p) { pts.push_back(D::mk(p)); });
	if (N == 3) { std::vector<V> q; for (size_t i = 0; i < pts.size(); i += 2) q.push_back(pts[i]); pts = q; }
	int maxn = UNIT() != 1 ? 3 : thorough() ? (N == 2 ? 6 : 4) : (N == 2 ? 5 : 3);
	auto check = [&](int n, const V* p)
	{
		state(); trace();
		OB<N> w; for (int i = 0; i < N; ++i) { w.lo[i] = w.hi[i] = comp(p[0], i); for (int j = 1; j < n; ++j) { w.lo[i] = std::min(w.lo[i], (LD)comp(p[j], i)); w.hi[i] = std::max(w.hi[i], (LD)comp(p[j], i)); } }
		A b; A& r = b.set(n, p); MC_CHECK(isBox<N>(b, w) && &r == &b && isBox<N>(A::from(n, p), w), P + "set/from(points)", n << " points, got " << b << " want " << w);
		for (int gap = 0; gap <= 2; ++gap)
		{
			int st = N + gap; std::vector<R> store(n * st + 8); R* buf = store.data(); for (auto& x : store) x = u(R(1e4)); R lim = u(R(-1e4)); for (int j = 0; j < n; ++j) { for (int i = 0; i < N; ++i) buf[j * st + i] = comp(p[j], i); for (int i = 0; i < gap; ++i) buf[j * st + N + i] = i ? lim : -lim; }
			A c; A& r2 = c.set(n, (const V*)buf, st * (int)sizeof(R)); MC_CHECK(isBox<N>(c, w) && &r2 == &c && isBox<N>(A::from(n, (const V*)buf, st * (int)sizeof(R)), w), P + "set/from(points, stride)", n << " points, stride " << st << ", got " << c << " want " << w);
		}
		A c; c.set(n, p, 0); OB<N> f; for (int i = 0; i < N; ++i) f.lo[i] = f.hi[i] = comp(p[0], i); MC_CHECK(isBox<N>(c, f), P + "set(points, stride 0)", n << " points got " << c);
		A d; d.set(p[0]); for (int j = 1; j < n; ++j) d.add(p[j]); MC_CHECK(isBox<N>(d, w), P + "add one by one", n << " points, got " << d << " want " << w);
		sample([&](std::ostream& s) { s << n << " points -> " << b; });
	};
	for (int n = 1; n <= maxn; ++n) tuples(pts, n, [&](const V* p) { check(n, p); });
	if (UNIT() != 1) return;
	section(P + "long point lists");
	longLists<V, N>([&](int n, const V* p) { check(n, p); });
	section(P + "point lists, ladders");
	star<R>(3 * N, [&](const R* p) { V q[3] = { D::mk(p), D::mk(p + N), D::mk(p + 2 * N) }; for (int n = 1; n <= 3; ++n) check(n, q); });
}
// all operation histories to a depth, against the reference box
template <int N> void histories()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::A A; typedef typename D::C C;
	const std::string P = std::string("AABB") + D::name() + "::histories";
	section(P);
	R q1[3] = { 2, -1, R(0.5) }, q2[3] = { -3, 0, 1 }, q3[3] = { R(0.25), 4, -2 }; V p1 = D::mk(q1), p2 = D::mk(q2), p3 = D::mk(q3);
	struct Op { const char* name; std::function<void(A&)> f; std::function<void(OB<N>&)> o; };
	auto scale = [](OB<N>& o, LD k) { for (int i = 0; i < N; ++i) { LD c = (o.lo[i] + o.hi[i]) / 2, e = (o.hi[i] - o.lo[i]) / 2 * k; o.lo[i] = c - e; o.hi[i] = c + e; } };
	auto grow = [](OB<N>& o, const V& p) { for (int i = 0; i < N; ++i) { o.lo[i] = std::min(o.lo[i], (LD)comp(p, i)); o.hi[i] = std::max(o.hi[i], (LD)comp(p, i)); } };
	auto mv = [](OB<N>& o, const V& p, int s) { for (int i = 0; i < N; ++i) { o.lo[i] += s * comp(p, i); o.hi[i] += s * comp(p, i); } };
	A other(T<N>::fill(-1), T<N>::fill(R(1.5)));
	std::vector<Op> ops = {
		{ "add p1", [=](A& a) { a.add(p1); }, [=](OB<N>& o) { grow(o, p1); } },
		{ "add p2", [=](A& a) { a.add(p2); }, [=](OB<N>& o) { grow(o, p2); } },
		{ "+= p3", [=](A& a) { a += p3; }, [=](OB<N>& o) { mv(o, p3, 1); } },
		{ "-= p1", [=](A& a) { a -= p1; }, [=](OB<N>& o) { mv(o, p1, -1); } },
		{ "*= 2", [=](A& a) { a *= 2; }, [=](OB<N>& o) { scale(o, 2); } },
		{ "/= 4", [=](A& a) { a /= 4; }, [=](OB<N>& o) { scale(o, 0.25L); } },
		{ "scaleCentered 0.5", [=](A& a) { a.scaleCentered(R(0.5)); }, [=](OB<N>& o) { scale(o, 0.5L); } },
		{ "via CAABB", [=](A& a) { C c; c.set(a); a.set(c); }, [=](OB<N>&) {} },
		{ "union", [=](A& a) { a = A::fromUnion(a, other); }, [=](OB<N>& o) { for (int i = 0; i < N; ++i) { o.lo[i] = std::min(o.lo[i], -1.0L); o.hi[i] = std::max(o.hi[i], 1.5L); } } },
		{ "intersection", [=](A& a) { a = A::fromIntersection(other, a); }, [=](OB<N>& o) { bool in = true; for (int i = 0; i < N; ++i) in = in && o.lo[i] <= 1.5L && o.hi[i] >= -1; for (int i = 0; i < N; ++i) { if (!in) o.lo[i] = o.hi[i] = 0; else { o.lo[i] = std::max(o.lo[i], -1.0L); o.hi[i] = std::min(o.hi[i], 1.5L); } } } },
		{ "= a + p2", [=](A& a) { a = a + p2; }, [=](OB<N>& o) { mv(o, p2, 1); } },
		{ "set sup corner", [=](A& a) { a.set(a.sup); }, [=](OB<N>& o) { for (int i = 0; i < N; ++i) o.lo[i] = o.hi[i]; } },
	};
	int depth = thorough() ? 6 : 5; std::string path;
	std::function<void(const A&, const OB<N>&, int)> go = [&](const A& a, const OB<N>& o, int d)
	{
		if (d == 0) { trace(); return; }
		for (auto& op : ops)
		{
			state(); A b = a; OB<N> w = o; op.f(b); op.o(w);
			size_t l = path.size(); path += op.name; path += "; ";
			// dyadic operands: every step is exact
			bool ok = nearBox<N>(b, w, 16); MC_CHECK(ok, P, path << " got " << b << " want " << w);
			sample([&](std::ostream& s) { s << path << " -> " << b; });
			if (ok) go(b, ob<N>(b), d - 1);
			path.resize(l);
		}
	};
	for (int k = 0; k < 2; ++k) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = k ? -1 - i : 0; o.hi[i] = k ? 2 : 0; } go(mkA<N>(o), o, depth); }
}
void explore()
{
	inUnits<R>([] { single<2>(); single<3>(); pairs<2>(); pairs<3>(); spheres(); lists<2>(); lists<3>(); }); histories<2>(); histories<3>();
}
