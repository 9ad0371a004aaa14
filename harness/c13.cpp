// C13: boxes stored as centre and extents are the same closed boxes as inf/sup ones: accessors, containment, intersection, bounding of point sets, scaling, conversion.
#include "boxes.h"
typedef MC_REAL R;
template <int N> using T = G<R, N>;
template <int N> OB<N> ob(const typename T<N>::C& b) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = (LD)comp(b.center, i) - comp(b.extents, i); o.hi[i] = (LD)comp(b.center, i) + comp(b.extents, i); } return o; }
template <int N> typename T<N>::C mkA(const OB<N>& o) { R a[N], b[N]; for (int i = 0; i < N; ++i) { a[i] = (R)((o.lo[i] + o.hi[i]) / 2); b[i] = (R)((o.hi[i] - o.lo[i]) / 2); } typename T<N>::C c; c.center = T<N>::mk(a); c.extents = T<N>::mk(b); return c; }
template <int N> bool sameO(const OB<N>& a, const OB<N>& b) { for (int i = 0; i < N; ++i) if (!(a.lo[i] == b.lo[i] && a.hi[i] == b.hi[i])) return false; return true; }
template <int N> bool isBox(const typename T<N>::C& b, const OB<N>& o) { return sameO<N>(ob<N>(b), o); }
template <int N> bool nearBox(const typename T<N>::C& b, const OB<N>& o, LD k = 8)
{
	OB<N> g = ob<N>(b); LD m = 0; for (int i = 0; i < N; ++i) m = std::max(m, std::max(fabsl(o.lo[i]), fabsl(o.hi[i])));
	for (int i = 0; i < N; ++i) if (!(fabsl(g.lo[i] - o.lo[i]) <= k * eps<R>() * m && fabsl(g.hi[i] - o.hi[i]) <= k * eps<R>() * m)) return false;
	return true;
}
template <int N> std::vector<OB<N>> boxes(const std::vector<R>& v)
{
	std::vector<std::pair<R, R>> iv; for (R a : v) for (R b : v) if (a <= b) iv.push_back({ a, b });
	std::vector<OB<N>> r;
	tuples(iv, N, [&](const std::pair<R, R>* p) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = p[i].first; o.hi[i] = p[i].second; } r.push_back(o); });
	return r;
}
template <int N> typename T<N>::C fromCE(const R* p) { R e[N]; for (int i = 0; i < N; ++i) e[i] = std::fabs(p[N + i]); typename T<N>::C c; c.center = T<N>::mk(p); c.extents = T<N>::mk(e); return c; }
template <int N> std::vector<R> lattice() { return U(N == 2 ? (deep() ? std::vector<R>{ -4, -2, -1, R(-0.5), 0, R(0.25), 1, 3, R(0.75), -100 } : std::vector<R>{ -2, -1, R(-0.5), 0, R(0.25), 1, 3 }) : (deep() ? std::vector<R>{ -2, -1, 0, R(0.5), 3 } : std::vector<R>{ -1, 0, R(0.5), 2 })); }

template <int N> void single()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::A A; typedef typename D::C C; typedef typename D::S S;
	const std::string P = std::string("CAABB") + D::name() + "::";
	section(P + "single");
	auto lat = lattice<N>(); auto all = boxes<N>(lat); size_t dyadic = all.size();
	{ auto wild = boxes<N>(U<R>({ R(0.1), R(-3.3e-3), R(1e5), R(-7.7) })); all.insert(all.end(), wild.begin(), wild.end()); }
	std::vector<R> pv = lat; pv.push_back(u(R(0.75))); pv.push_back(u(R(-5))); if (N == 2) pv.push_back(u(R(1.0009765625)));
	std::vector<R> tv = { 0, 1, R(0.5), R(0.25), -1, 2 };
	std::vector<V> pts, ts; tuples(pv, N, [&](const R* p) { pts.push_back(D::mk(p)); }); tuples(tv, N, [&](const R* p) { ts.push_back(D::mk(p)); });
	auto one = [&](const C& b, bool exact, const std::vector<V>& pts, const std::vector<V>& ts, const std::vector<R>& ks)
	{
		state(); trace();
		const C c0 = b; OB<N> o = ob<N>(b);
		EV<N> ce, ex, sz, lo, hi; E meas(1), out2, in; bool null = true;
		for (int i = 0; i < N; ++i)
		{
			ce[i] = E(comp(b.center, i)); ex[i] = E(comp(b.extents, i)); lo[i] = ce[i] - ex[i]; hi[i] = ce[i] + ex[i]; sz[i] = ex[i] * E(2); meas *= sz[i]; out2 += ex[i] * ex[i];
			if (i == 0 || ex[i].v < in.v) in = ex[i]; if (ex[i].v != 0) null = false;
		}
		E out = esqrt(out2);
		MC_CHECK(nearv(b.inf(), lo), P + "inf", b << " got " << b.inf());
		MC_CHECK(nearv(b.sup(), hi), P + "sup", b << " got " << b.sup());
		MC_CHECK(nearv(b.size(), sz), P + "size", b << " got " << b.size());
		MC_CHECK(near(D::measure(b), meas), P + "area/volume", b << " got " << D::measure(b));
		MC_CHECK(b.isNull() == null, P + "isNull", b);
		S ic = D::inner(b), oc = D::outer(b);
		MC_CHECK(nearv(ic.center, ce) && near(ic.radius, in), P + "inner circle/sphere", b << " got " << ic);
		MC_CHECK(nearv(oc.center, ce) && near(oc.radius, out), P + "outer circle/sphere", b << " got " << oc);
		for (auto& t : ts)
		{
			V p = b.pointAt(t); EV<N> w; for (int i = 0; i < N; ++i) w[i] = ce[i] + ex[i] * E(comp(t, i));
			MC_CHECK(nearv(p, w), P + "pointAt", b << " at " << t << " got " << p << " want " << w);
		}
		V size = b.extents * R(2);
		C s(b.center, size), s2; C& rs = s2.set(b.center, size); MC_CHECK(nearBox<N>(s, o, 4) && nearBox<N>(s2, o, 4) && nearBox<N>(C::from(b.center, size), o, 4) && &rs == &s2, P + "from centre and size", b << " got " << s << s2);
		OB<N> po; for (int i = 0; i < N; ++i) po.lo[i] = po.hi[i] = comp(b.center, i);
		s.set(b.center); MC_CHECK(isBox<N>(s, po) && isBox<N>(C::from(b.center), po), P + "set/from(point)", b.center << " got " << s);
		A box(b.inf(), b.sup()); OB<N> bo; for (int i = 0; i < N; ++i) { bo.lo[i] = comp(box.inf, i); bo.hi[i] = comp(box.sup, i); }
		C v = D::fromInfSup(box.inf, box.sup), v2; C& rv = v2.set(box); MC_CHECK(nearBox<N>(v, bo, 4) && nearBox<N>(v2, bo, 4) && &rv == &v2, P + "from inf/sup box", box << " got " << v << v2);
		auto f = b.template cast<float>(); auto d = b.template cast<double>(); bool okc = true;
		for (int i = 0; i < N; ++i) okc = okc && comp(f.center, i) == (float)comp(b.center, i) && comp(f.extents, i) == (float)comp(b.extents, i) && comp(d.center, i) == (double)comp(b.center, i) && comp(d.extents, i) == (double)comp(b.extents, i);
		MC_CHECK(okc, P + "cast", b);
		for (R k : ks)
		{
			EV<N> w = ex * E(k);
			C g = b; C& r = (g *= k); MC_CHECK(nearv(g.extents, w) && same(g.center, b.center) && &r == &g, P + "operator*=", b << " * " << k << " got " << g);
			g = b * k; MC_CHECK(nearv(g.extents, w) && same(g.center, b.center), P + "operator*", b << " * " << k << " got " << g);
			if (k == 0) continue;
			w = ex / E(k);
			g = b; C& r2 = (g /= k); MC_CHECK(nearv(g.extents, w) && same(g.center, b.center) && &r2 == &g, P + "operator/=", b << " / " << k << " got " << g);
			g = b / k; MC_CHECK(nearv(g.extents, w) && same(g.center, b.center), P + "operator/", b << " / " << k << " got " << g);
		}
		for (auto& p : pts)
		{
			EV<N> w = ce + ev(p);
			C g = b; C& r2 = (g += p); MC_CHECK(nearv(g.center, w) && same(g.extents, b.extents) && &r2 == &g, P + "operator+=", b << " " << p << " got " << g);
			g = b + p; MC_CHECK(nearv(g.center, w) && same(g.extents, b.extents), P + "operator+", b << " " << p << " got " << g);
			w = ce - ev(p);
			g = b; C& r3 = (g -= p); MC_CHECK(nearv(g.center, w) && same(g.extents, b.extents) && &r3 == &g, P + "operator-=", b << " " << p << " got " << g);
			g = b - p; MC_CHECK(nearv(g.center, w) && same(g.extents, b.extents), P + "operator-", b << " " << p << " got " << g);
			OB<N> u = o; bool inside = true, clear = exact; for (int i = 0; i < N; ++i) { LD x = comp(p, i); inside = inside && x >= o.lo[i] && x <= o.hi[i]; u.lo[i] = std::min(u.lo[i], x); u.hi[i] = std::max(u.hi[i], x); }
			g = b; C& r4 = g.add(p); MC_CHECK(nearBox<N>(g, u) && &r4 == &g, P + "add", b << " " << p << " got " << g << " want " << u);
			if (inside) MC_CHECK(nearBox<N>(g, o, 2), P + "add of an inner point", b << " " << p << " got " << g);
			if (!exact) { clear = true; for (int i = 0; i < N; ++i) { LD x = comp(p, i), m = 4 * eps<R>() * (fabsl((LD)comp(b.center, i)) + comp(b.extents, i)); clear = clear && fabsl(x - o.lo[i]) > m && fabsl(x - o.hi[i]) > m; } }
			if (clear) MC_CHECK(b.contains(p) == inside, P + "contains(point)", b << " " << p << " want " << inside);
		}
		MC_CHECK(same(b.center, c0.center) && same(b.extents, c0.extents) && b == c0, P + "const functions leave the box unchanged", b);
		sample([&](std::ostream& s) { s << b << " sup " << b.sup() << " outer radius " << oc.radius; });
	};
	const std::vector<R> ks = { R(0), R(1), R(2), R(0.5), R(3), R(0.1), R(100) };
	for (size_t i = 0; i < all.size(); ++i) one(mkA<N>(all[i]), i < dyadic, pts, ts, ks);
	if (UNIT() == 1) { section(P + "single, ladders"); star<R>(3 * N + 1, [&](const R* p) { one(fromCE<N>(p), false, { D::mk(p + 2 * N) }, { D::mk(p + 2 * N) }, { std::fabs(p[3 * N]) }); }); }
	OB<N> unit; for (int i = 0; i < N; ++i) { unit.lo[i] = -0.5L; unit.hi[i] = 0.5L; }
	MC_CHECK(isBox<N>(C::One, unit), P + "One", C::One);
}
template <int N> void pairs()
{
	typedef T<N> D; typedef typename D::C C;
	const std::string P = std::string("CAABB") + D::name() + "::", sI = P + "intersects(box)", sC = P + "contains(box)", sE = P + "operator==";
	section(P + "pairs");
	auto all = boxes<N>(lattice<N>()); std::vector<C> bs; for (auto& o : all) bs.push_back(mkA<N>(o));
	for (size_t x = 0; x < all.size(); ++x) for (size_t y = 0; y < all.size(); ++y)
	{
		state(); trace();
		const OB<N>&p = all[x], &q = all[y]; const C &a = bs[x], &b = bs[y];
		bool inter = true, cont = true, eq = true;
		for (int i = 0; i < N; ++i) { inter = inter && p.lo[i] <= q.hi[i] && q.lo[i] <= p.hi[i]; cont = cont && p.lo[i] <= q.lo[i] && q.hi[i] <= p.hi[i]; eq = eq && p.lo[i] == q.lo[i] && p.hi[i] == q.hi[i]; }
		MC_CHECK(a.intersects(b) == inter, sI, p << " " << q << " want " << inter);
		MC_CHECK(a.contains(b) == cont, sC, p << " " << q << " want " << cont);
		MC_CHECK((a == b) == eq && (a != b) == !eq, sE, p << " " << q << " want " << eq);
		sample([&](std::ostream& s) { s << p << " " << q << " intersects " << inter << " contains " << cont; });
	}
	if (UNIT() == 1) star<R>(4 * N, [&](const R* v) {
		C a = fromCE<N>(v), b = fromCE<N>(v + 2 * N); OB<N> p = ob<N>(a), q = ob<N>(b); state(2); trace();
		bool inter = true, ab = true, ba = true, clear = true, eq = true;
		for (int i = 0; i < N; ++i)
		{
			inter = inter && p.lo[i] <= q.hi[i] && q.lo[i] <= p.hi[i]; ab = ab && p.lo[i] <= q.lo[i] && q.hi[i] <= p.hi[i]; ba = ba && q.lo[i] <= p.lo[i] && p.hi[i] <= q.hi[i]; eq = eq && comp(a.center, i) == comp(b.center, i) && comp(a.extents, i) == comp(b.extents, i);
			LD m = 8 * eps<R>() * (fabsl((LD)comp(a.center, i)) + comp(a.extents, i) + fabsl((LD)comp(b.center, i)) + comp(b.extents, i));
			for (LD d : { p.lo[i] - q.lo[i], p.lo[i] - q.hi[i], p.hi[i] - q.lo[i], p.hi[i] - q.hi[i] }) clear = clear && fabsl(d) > m;
		}
		MC_CHECK((a == b) == eq && (a != b) == !eq && a == a && b == b, sE, a << " " << b << " want " << eq);
		if (!clear) return;
		MC_CHECK(a.intersects(b) == inter && b.intersects(a) == inter, sI, a << " " << b << " want " << inter);
		MC_CHECK(a.contains(b) == ab && b.contains(a) == ba, sC, a << " " << b << " want " << ab << ba);
	});
}
// containment of spheres in the 3D box
static void spheres()
{
	section("CAABB3::contains(sphere)");
	auto all = boxes<3>(U<R>({ -2, 0, R(0.5), 2 }));
	for (auto& o : all)
	{
		CAABB3<R> b = mkA<3>(o);
		tuples(U<R>({ -2, R(-0.5), 0, R(0.25), 1 }), 3, [&](const R* c) { for (R r : U<R>({ 0, R(0.25), R(0.5), 1, 2 })) {
			state(); trace(); bool in = true; for (int i = 0; i < 3; ++i) in = in && (LD)c[i] - r >= o.lo[i] && (LD)c[i] + r <= o.hi[i];
			Sphere<R> s(mk3(c), r); MC_CHECK(b.contains(s) == in, "CAABB3::contains(sphere)", o << " " << s << " want " << in);
		} });
	}
	if (UNIT() == 1) star<R>(10, [&](const R* p) {
		CAABB3<R> b = fromCE<3>(p); OB<3> o = ob<3>(b); for (R r : { std::fabs(p[9]), R(0.01) * std::fabs(p[9]) }) {
		state(); trace(); bool in = true, clear = true; for (int i = 0; i < 3; ++i) { LD l = (LD)p[6 + i] - r, h = (LD)p[6 + i] + r, m = 8 * eps<R>() * (fabsl(p[6 + i]) + r + fabsl(p[i]) + fabsl(p[3 + i])); in = in && l >= o.lo[i] && h <= o.hi[i]; clear = clear && fabsl(l - o.lo[i]) > m && fabsl(h - o.hi[i]) > m; }
		Sphere<R> s(mk3(p + 6), r); if (clear) MC_CHECK(b.contains(s) == in, "CAABB3::contains(sphere)", b << " " << s << " want " << in); }
	});
}
// bounding boxes of all point lists up to a length, in every memory layout
template <int N> void lists()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::C A;
	const std::string P = std::string("CAABB") + D::name() + "::";
	section(P + "point lists");
	std::vector<R> v = N == 2 ? std::vector<R>{ -1, 0, R(2.5) } : std::vector<R>{ -1, R(0.125) };
	if (N == 3) v.push_back(R(7)); v = U(v);
	std::vector<V> pts; tuples(v, N, [&](const R* p) { pts.push_back(D::mk(p)); });
	if (N == 3) { std::vector<V> q; for (size_t i = 0; i < pts.size(); i += 2) q.push_back(pts[i]); pts = q; }
	int maxn = UNIT() != 1 ? 3 : thorough() ? (N == 2 ? 6 : 4) : (N == 2 ? 5 : 3);
	bool exact = true;
	auto check = [&](int n, const V* p)
	{
		state(); trace(); auto isBox = [&](const A& g, const OB<N>& w) { return exact ? ::isBox<N>(g, w) : nearBox<N>(g, w, 4); };
		OB<N> w; for (int i = 0; i < N; ++i) { w.lo[i] = w.hi[i] = comp(p[0], i); for (int j = 1; j < n; ++j) { w.lo[i] = std::min(w.lo[i], (LD)comp(p[j], i)); w.hi[i] = std::max(w.hi[i], (LD)comp(p[j], i)); } }
		A b; A& r = b.set(n, p); MC_CHECK(isBox(b, w) && &r == &b && isBox(A::from(n, p), w), P + "set/from(points)", n << " points, got " << b << " want " << w);
		for (int gap = 0; gap <= 2; ++gap)
		{
			int st = N + gap; std::vector<R> store(n * st + 8); R* buf = store.data(); for (auto& x : store) x = u(R(1e4)); R lim = u(R(-1e4)); for (int j = 0; j < n; ++j) { for (int i = 0; i < N; ++i) buf[j * st + i] = comp(p[j], i); for (int i = 0; i < gap; ++i) buf[j * st + N + i] = i ? lim : -lim; }
			A c; A& r2 = c.set(n, (const V*)buf, st * (int)sizeof(R)); MC_CHECK(isBox(c, w) && &r2 == &c && isBox(A::from(n, (const V*)buf, st * (int)sizeof(R)), w), P + "set/from(points, stride)", n << " points, stride " << st << ", got " << c << " want " << w);
		}
		A c; c.set(n, p, 0); OB<N> f; for (int i = 0; i < N; ++i) f.lo[i] = f.hi[i] = comp(p[0], i); MC_CHECK(isBox(c, f), P + "set(points, stride 0)", n << " points got " << c);
		A d; d.set(p[0]); for (int j = 1; j < n; ++j) d.add(p[j]); MC_CHECK(isBox(d, w), P + "add one by one", n << " points, got " << d << " want " << w);
		sample([&](std::ostream& s) { s << n << " points -> " << b; });
	};
	for (int n = 1; n <= maxn; ++n) tuples(pts, n, [&](const V* p) { check(n, p); });
	if (UNIT() != 1) return;
	section(P + "long point lists");
	longLists<V, N>([&](int n, const V* p) { check(n, p); });
	section(P + "point lists, ladders"); exact = false;
	star<R>(3 * N, [&](const R* p) { V q[3] = { D::mk(p), D::mk(p + N), D::mk(p + 2 * N) }; for (int n = 1; n <= 3; ++n) check(n, q); });
}
// all operation histories to a depth, against the reference box
template <int N> void histories()
{
	typedef T<N> D; typedef typename D::V V; typedef typename D::C A; typedef typename D::A C;
	const std::string P = std::string("CAABB") + D::name() + "::histories";
	section(P);
	R q1[3] = { 2, -1, R(0.5) }, q2[3] = { -3, 0, 1 }, q3[3] = { R(0.25), 4, -2 }; V p1 = D::mk(q1), p2 = D::mk(q2), p3 = D::mk(q3);
	struct Op { const char* name; std::function<void(A&)> f; std::function<void(OB<N>&)> o; };
	auto scale = [](OB<N>& o, LD k) { for (int i = 0; i < N; ++i) { LD c = (o.lo[i] + o.hi[i]) / 2, e = (o.hi[i] - o.lo[i]) / 2 * k; o.lo[i] = c - e; o.hi[i] = c + e; } };
	auto grow = [](OB<N>& o, const V& p) { for (int i = 0; i < N; ++i) { o.lo[i] = std::min(o.lo[i], (LD)comp(p, i)); o.hi[i] = std::max(o.hi[i], (LD)comp(p, i)); } };
	auto mv = [](OB<N>& o, const V& p, int s) { for (int i = 0; i < N; ++i) { o.lo[i] += s * comp(p, i); o.hi[i] += s * comp(p, i); } };
		std::vector<Op> ops = {
		{ "add p1", [=](A& a) { a.add(p1); }, [=](OB<N>& o) { grow(o, p1); } },
		{ "add p2", [=](A& a) { a.add(p2); }, [=](OB<N>& o) { grow(o, p2); } },
		{ "+= p3", [=](A& a) { a += p3; }, [=](OB<N>& o) { mv(o, p3, 1); } },
		{ "-= p1", [=](A& a) { a -= p1; }, [=](OB<N>& o) { mv(o, p1, -1); } },
		{ "*= 2", [=](A& a) { a *= 2; }, [=](OB<N>& o) { scale(o, 2); } },
		{ "/= 4", [=](A& a) { a /= 4; }, [=](OB<N>& o) { scale(o, 0.25L); } },
		{ "= a / 2", [=](A& a) { a = a / 2; }, [=](OB<N>& o) { scale(o, 0.5L); } },
		{ "via inf/sup", [=](A& a) { C c; c.set(a); a.set(c); }, [=](OB<N>&) {} },
		{ "= a * 3", [=](A& a) { a = a * 3; }, [=](OB<N>& o) { scale(o, 3); } },
		{ "= a - p1", [=](A& a) { a = a - p1; }, [=](OB<N>& o) { mv(o, p1, -1); } },
		{ "= a + p2", [=](A& a) { a = a + p2; }, [=](OB<N>& o) { mv(o, p2, 1); } },
		{ "set sup corner", [=](A& a) { a.set(a.sup()); }, [=](OB<N>& o) { for (int i = 0; i < N; ++i) o.lo[i] = o.hi[i]; } },
	};
	int depth = thorough() ? 6 : 5; std::string path;
	std::function<void(const A&, const OB<N>&, int)> go = [&](const A& a, const OB<N>& o, int d)
	{
		if (d == 0) { trace(); return; }
		for (auto& op : ops)
		{
			state(); A b = a; OB<N> w = o; op.f(b); op.o(w);
			size_t l = path.size(); path += op.name; path += "; ";
			// dyadic operands: every step is exact
			bool ok = nearBox<N>(b, w, 16); MC_CHECK(ok, P, path << " got " << b << " want " << w);
			sample([&](std::ostream& s) { s << path << " -> " << b; });
			if (ok) go(b, ob<N>(b), d - 1);
			path.resize(l);
		}
	};
	for (int k = 0; k < 2; ++k) { OB<N> o; for (int i = 0; i < N; ++i) { o.lo[i] = k ? -1 - i : 0; o.hi[i] = k ? 2 : 0; } go(mkA<N>(o), o, depth); }
}
void explore()
{
	inUnits<R>([] { single<2>(); single<3>(); pairs<2>(); pairs<3>(); spheres(); lists<2>(); lists<3>(); }); histories<2>(); histories<3>();
}
