// C06: rotation matrices: every construction gives the right-handed rotation, rotate/rotatePre compose on the documented
// side, in place and pure, over sequences; frames built from an exact and an approximate axis; re-orthonormalisation.
#include "mats.h"
typedef MC_REAL R;
#define SITE(x) (std::string(MT<M>::name()) + x)

static const LD PI = acosl(-1.0L);
static std::vector<Vec3<R>> axes()
{
	std::vector<Vec3<R>> r;
	std::vector<R> c = thorough() ? std::vector<R>{ -3, -1, -0.5, 0, 0.25, 1, 2 } : std::vector<R>{ -2, -0.5, 0, 1 };
	tuples(c, 3, [&](const R* p) { if (p[0] != 0 || p[1] != 0 || p[2] != 0) r.push_back(mk3(p)); });
	r.push_back(Vec3<R>(R(1e-3), R(-2e-3), R(5e-4))); r.push_back(Vec3<R>(3000, 1000, -2000)); r.push_back(Vec3<R>(R(0.6), R(0.8), 0));
	r.push_back(Vec3<R>(1, R(0.001), 0));
	return r;
}
static std::vector<LD> wide_angles() { auto r = angle_grid(thorough()); for (R a : ladder<R>()) if (fabs(a) <= 1000) r.push_back(a); return r; }
static const Coord C3[] = { Coord::X, Coord::Y, Coord::Z };
static OM axisO(int n, const Vec3<R>& a, R ang) { return rotAxisO(n, a.x, a.y, a.z, ang); }
static Quat<R> quatOf(const Vec3<R>& a, R ang)
{
	LD l = sqrtl((LD)a.x * a.x + (LD)a.y * a.y + (LD)a.z * a.z), s = sinl((LD)ang / 2) / l;
	return Quat<R>(R(a.x * s), R(a.y * s), R(a.z * s), R(cosl((LD)ang / 2)));
}
static OM withT(OM o, const Vec3<R>& t) { o.a[0][3] = E(t.x); o.a[1][3] = E(t.y); o.a[2][3] = E(t.z); return o; }

// ---------------------------------------------------------------------------------------------- constructions
template <class M> struct Make;
template <> struct Make<Mat3<R>>
{
	typedef Mat3<R> M;
	static void tr(const M&, const Vec3<R>&, R, const std::vector<M>&) {}
	static void trc(Coord, R, const std::vector<M>&) {}
	static void trq(const Quat<R>&, const OM&, const std::vector<M>&) {}
};
static const Vec3<R> TV(1, R(-2.5), 40);
template <class M> static void eqo(const M& got, const OM& want, const char* what, const std::string& arg)
{
	MC_CHECK(nearm(got, want, 24), SITE(what), arg << " got " << got << " want " << want);
}
template <class M> static std::vector<M> dirty()
{
	std::vector<M> r;
	auto cat = catalogueM<M>();
	r.push_back(cat[0].first); r.push_back(cat[12 % cat.size()].first); r.push_back(cat[cat.size() - 1].first); r.push_back(cat[cat.size() / 2].first);
	return r;
}
static std::string str(const Vec3<R>& a, R g) { std::ostringstream s; s.precision(17); s << "axis=" << a << " angle=" << g; return s.str(); }
static std::string str(Coord a, R g) { std::ostringstream s; s.precision(17); s << "axis=" << a << " angle=" << g; return s.str(); }
static std::string str(const Quat<R>& q) { std::ostringstream s; s.precision(17); s << "q=" << q; return s.str(); }

static void extraT(const Mat3<R>&, const Vec3<R>&, R, const OM&) {}
static void extraT(const Mat34<R>& d, const Vec3<R>& a, R g, const OM& o)
{
	typedef Mat34<R> M; M m = d; m.set(a, g, TV); eqo(m, withT(o, TV), "::set(axis,angle,t)", str(a, g));
	eqo(M::from(a, g, TV), withT(o, TV), "::from(axis,angle,t)", str(a, g));
}
static void extraT(const Mat4<R>&, const Vec3<R>&, R, const OM&) {}
static void extraC(const Mat3<R>&, Coord, R, const OM&) {}
static void extraC(const Mat34<R>& d, Coord a, R g, const OM& o)
{
	typedef Mat34<R> M; M m = d; m.set(a, g, TV); eqo(m, withT(o, TV), "::set(coord,angle,t)", str(a, g));
	eqo(M::from(a, g, TV), withT(o, TV), "::from(coord,angle,t)", str(a, g));
}
static void extraC(const Mat4<R>&, Coord, R, const OM&) {}
static void extraQ(const Mat3<R>&, const Quat<R>&, const OM&) {}
template <class M> static void extraQ(const M& d, const Quat<R>& q, const OM& o)
{
	M m = d; m.set(q, TV); eqo(m, withT(o, TV), "::set(quat,t)", str(q));
	eqo(M::from(q, TV), withT(o, TV), "::from(quat,t)", str(q));
}

template <class M> static void about_coord(Coord c, R ang, const M& d)
{
	const int n = MT<M>::n;
	state(); trace();
	OM o = rotO(n, (int)c, ang);
	M m = d; M& r = m.set(c, ang); eqo(m, o, "::set(coord,angle)", str(c, ang)); MC_CHECK(&r == &m, SITE("::set returns *this"), "");
	eqo(M::from(c, ang), o, "::from(coord,angle)", str(c, ang));
	extraC(d, c, ang, o);
}
template <class M> static void about_axis(const Vec3<R>& a, R ang, const M& d)
{
	const int n = MT<M>::n;
	state(); trace();
	OM o = axisO(n, a, ang);
	M m = d; M& r = m.set(a, ang); eqo(m, o, "::set(axis,angle)", str(a, ang)); MC_CHECK(&r == &m, SITE("::set returns *this"), "");
	eqo(M::from(a, ang), o, "::from(axis,angle)", str(a, ang));
	extraT(d, a, ang, o);
	Quat<R> q = quatOf(a, ang); OM oq = quatO(n, q);
	m = d; M& r2 = m.set(q); eqo(m, oq, "::set(quat)", str(q)); MC_CHECK(&r2 == &m, SITE("::set(quat) returns *this"), "");
	eqo(M::from(q), oq, "::from(quat)", str(q));
	extraQ(d, q, oq);
	MC_CHECK(maxdiff(m, o) <= 32 * eps<R>(), SITE("::set(quat) equals set(axis,angle)"), str(a, ang) << " got " << m << " want " << o);
	sample([&](std::ostream& s) { s << MT<M>::name() << "(" << str(a, ang) << ") = " << m; });
}
template <class M> static void constructions()
{
	section(SITE(" constructions"));
	auto ds = dirty<M>(); size_t k = 0;
	for (LD al : wide_angles()) for (Coord c : C3) about_coord<M>(c, (R)al, ds[k++ % ds.size()]);
	for (LD al : angle_grid(thorough())) for (auto& a : axes()) about_axis<M>(a, (R)al, ds[k++ % ds.size()]);
	star<R>(4, [&](const R* p) { if (fabs(p[3]) <= 1000) about_axis<M>(mk3(p), p[3], ds[k++ % ds.size()]); });
}

// ---------------------------------------------------------------------------------------------- exact/approx frames
template <class M> static void frames()
{
	const int n = MT<M>::n;
	section(SITE(" frames"));
	std::vector<R> c = thorough() ? std::vector<R>{ -2, -1, 0, R(0.5), 1, 3 } : std::vector<R>{ -2, 0, 1, R(0.5) };
	auto ds = dirty<M>(); size_t k = 0;
	auto frame = [&](const R* p)
	{
		Vec3<R> ex = mk3(p), ap = mk3(p + 3);
		EV<3> u = ev(ex), v = ev(ap);
		LD lu = sqrtl(dot(u, u).v), lv = sqrtl(dot(v, v).v);
		EV<3> x = cross(u, v); LD lx = sqrtl(dot(x, x).v);
		bool degenerate = lu == 0 || lv == 0 || lx == 0;
		for (Coord e : C3) for (Coord a : C3)
		{
			if (e == a) continue;
			state(); trace();
			M m = ds[k++ % ds.size()]; M& r = m.set(e, ex, a, ap); MC_CHECK(&r == &m, SITE("::set(frame) returns *this"), "");
			if (degenerate)
			{
				if (lu == 0) MC_CHECK(nearm(m, OM::identity(n), 1), SITE("::set(frame) with a null exact axis is the identity"), "exact=" << ex << " approx=" << ap << " got " << m);
				continue;
			}
			LD sn = lx / (lu * lv); // conditioning
			int ei = (int)e, ai = (int)a, ti = 3 - ei - ai;
			EV<3> w0 = u / E(lu), w1;
			LD pr = dot(u, v).v / (lu * lu);
			LD l1 = 0; for (int i = 0; i < 3; ++i) { w1[i] = E(v[i].v - pr * u[i].v); l1 += w1[i].v * w1[i].v; }
			w1 = w1 / E(sqrtl(l1));
			EV<3> w2 = cross(w0, w1); if ((ei + 1) % 3 != ai) w2 = w2 * E(-1);
			OM o = OM::identity(n);
			for (int i = 0; i < 3; ++i) { o.a[i][ei] = w0[i]; o.a[i][ai] = w1[i]; o.a[i][ti] = w2[i]; }
			MC_CHECK(maxdiff(m, o) <= 24 * eps<R>() / sn, SITE("::set(exact,approx)"), "e=" << e << " exact=" << ex << " a=" << a << " approx=" << ap << " got " << m << " want " << o);
			MC_CHECK(closem(M::from(e, ex, a, ap), m), SITE("::from(exact,approx)"), "e=" << e << " exact=" << ex << " a=" << a << " approx=" << ap);
		}
	};
	tuples(c, 6, frame); star<R>(6, frame);
}

// ---------------------------------------------------------------------------------------------- composition
template <class M> struct ROp { std::string name; std::function<void(M&)> in; std::function<M(const M&)> pure; OM rot; bool pre; LD band; };
template <class M> struct HasPure { enum { v = 1 }; };
template <> struct HasPure<Mat34<R>> { enum { v = 0 }; };
template <bool> struct If {};
template <class M, class... A> std::function<M(const M&)> rotatedF(bool pre, If<true>, A... a) { return pre ? std::function<M(const M&)>([=](const M& m) { return m.rotatedPre(a...); }) : std::function<M(const M&)>([=](const M& m) { return m.rotated(a...); }); }
template <class M, class... A> std::function<M(const M&)> rotatedF(bool, If<false>, A...) { return nullptr; }
template <class M, class... A> void addOp(std::vector<ROp<M>>& v, const std::string& n, const OM& o, A... a)
{
	LD e = identErrO(o, 3), band = e > 0 && e < 0.0011L ? sqrtl(e) * 2 : 0; // within the identity tolerance the rotation may be skipped
	v.push_back({ "rotate " + n, [=](M& m) { m.rotate(a...); }, rotatedF<M>(false, If<(HasPure<M>::v)>(), a...), o, false, band });
	v.push_back({ "rotatePre " + n, [=](M& m) { m.rotatePre(a...); }, rotatedF<M>(true, If<(HasPure<M>::v)>(), a...), o, true, band });
}
template <class M> struct MatArg { static void add(std::vector<ROp<M>>&, const std::string&, const OM&, const Vec3<R>&, R) {} };
template <> struct MatArg<Mat3<R>> { static void add(std::vector<ROp<Mat3<R>>>& v, const std::string& n, const OM& o, const Vec3<R>&, R) { Mat3<R> m = MT<Mat3<R>>::make(o); addOp<Mat3<R>>(v, "mat3 " + n, om(m), m); } };
template <class M> static std::vector<ROp<M>> rops(const std::vector<Vec3<R>>& axs, const std::vector<LD>& angs)
{
	std::vector<ROp<M>> v; const int n = MT<M>::n;
	for (LD al : angs)
	{
		R g = (R)al;
		for (Coord c : C3) addOp<M>(v, str(c, g), rotO(n, (int)c, g), c, g);
		for (auto& a : axs)
		{
			addOp<M>(v, str(a, g), axisO(n, a, g), a, g);
			Quat<R> q = quatOf(a, g); addOp<M>(v, str(q), quatO(n, q), q);
			MatArg<M>::add(v, str(a, g), axisO(n, a, g), a, g);
		}
	}
	return v;
}
template <class M> static OM applyO(const ROp<M>& op, const OM& o) { return op.pre ? o * op.rot : op.rot * o; }
template <class M> static bool agrees(const M& m, const OM& w, LD band, LD k)
{
	LD big = 0; for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) big = std::max(big, w.a[i][j].m);
	LD d = maxdiff(m, w);
	return d <= (k * eps<R>() + band) * big;
}
template <class M> static void single()
{
	section(SITE(" rotate any matrix"));
	std::vector<LD> angs = { 0, PI / 2, -PI / 2, PI, 2 * PI, 0.7L, -2.2L, 0.1L, 0.001L, -0.015L, 5.0L };
	std::vector<Vec3<R>> axs = { Vec3<R>(1, 2, 3), Vec3<R>(-1, R(0.5), 0), Vec3<R>(0, 0, -2), Vec3<R>(0, 1, 0), Vec3<R>(R(-0.3), R(-0.4), R(0.5)) };
	if (thorough()) { axs = axes(); angs = angle_grid(); }
	auto ops = rops<M>(axs, angs);
	auto one = [](const std::pair<M, OM>& s, const ROp<M>& op)
	{
		state(); trace();
		M m = s.first; op.in(m); OM w = applyO(op, s.second);
		MC_CHECK(agrees(m, w, op.band, 24), SITE("::rotate"), op.name << " of " << s.first << " got " << m << " want " << w);
		if (op.pure)
		{
			M p = op.pure(s.first);
			MC_CHECK(agrees(p, w, op.band, 24), SITE("::rotated"), op.name << " of " << s.first << " got " << p << " want " << w);
		}
	};
	for (auto& s : catalogueM<M>()) for (auto& op : ops) one(s, op);
	// the whole ladder of angles on a few matrices, and matrices climbing the ladder under a few rotations
	auto cat = catalogueM<M>();
	for (auto& op : rops<M>({ Vec3<R>(1, 2, 3), Vec3<R>(R(-0.3), R(-0.4), R(0.5)) }, wide_angles())) for (size_t i = 1; i < cat.size(); i += 7) one(cat[i], op);
	auto few = rops<M>({ Vec3<R>(1, 2, 3), Vec3<R>(-1, R(0.5), R(0.1)) }, { 0.7L, -2.2L });
	star<R>(MT<M>::n * MT<M>::rows, [&](const R* p) { M m = fromRow<M>(p); std::pair<M, OM> s(m, om(m)); for (auto& op : few) one(s, op); }, thorough());
}
static void mat2()
{
	typedef Mat2<R> M;
	section("Mat2 rotations");
	auto cat = catalogueM<M>();
	auto angs = wide_angles(); for (LD x : angle_grid(true)) angs.push_back(x);
	for (LD al : angs)
	{
		R g = (R)al; OM o = rot2O(g);
		M m = cat[13].first; m.set(g); MC_CHECK(nearm(m, o, 8), "Mat2::set(angle)", g << " got " << m << " want " << o);
		MC_CHECK(closem(M::from(g), m), "Mat2::from(angle)", g);
		LD e = identErrO(o, 2), band = e > 0 && e < 0.0011L ? sqrtl(e) * 2 : 0;
		for (auto& s : cat)
		{
			state(); trace();
			M a = s.first; M& r = a.rotate(g); OM w = o * s.second, w2 = s.second * o;
			MC_CHECK(&r == &a, "Mat2::rotate returns *this", "");
			MC_CHECK(agrees(a, w, band, 16), "Mat2::rotate", g << " of " << s.first << " got " << a << " want " << w);
			a = s.first; a.rotatePre(g); MC_CHECK(agrees(a, w2, band, 16), "Mat2::rotatePre", g << " of " << s.first << " got " << a << " want " << w2);
			MC_CHECK(agrees(s.first.rotated(g), w, band, 16), "Mat2::rotated", g << " of " << s.first);
		}
	}
}
template <class M> static void sequences()
{
	section(SITE(" rotation sequences"));
	const int depth = thorough() ? 4 : 3;
	auto ops = rops<M>({ Vec3<R>(1, 1, 1), Vec3<R>(-2, 1, R(0.5)) }, thorough() ? std::vector<LD>{ PI / 2, 1.9L, -0.4L } : std::vector<LD>{ 2 * PI / 3, -0.4L });
	auto cat = catalogueM<M>();
	std::vector<std::pair<M, OM>> starts = { cat[0], cat[cat.size() - 3] };
	std::function<void(const M&, const OM&, int, const std::string&)> rec = [&](const M& m, const OM& o, int d, const std::string& h)
	{
		for (size_t i = 0; i < ops.size(); ++i)
		{
			auto& op = ops[i];
			M x = m; op.in(x); OM w = applyO(op, o);
			for (int a = 0; a < w.n; ++a) for (int b = 0; b < w.n; ++b) w.a[a][b].m = std::max(w.a[a][b].m / 3, fabsl(w.a[a][b].v)); // a rotation does not amplify errors
			state();
			LD big = 1; for (int a = 0; a < w.n; ++a) for (int b = 0; b < w.n; ++b) big = std::max(big, fabsl(w.a[a][b].v));
			MC_CHECK(maxdiff(x, w) <= 200 * eps<R>() * big * 4, SITE(" rotation history"), h << " ; " << op.name << " got " << x << " want " << w);
			if (d + 1 < depth) rec(x, w, d + 1, h + " ; " + op.name); else trace();
			sample([&](std::ostream& s) { s << h << " ; " << op.name << " -> " << x; });
		}
	};
	for (auto& s : starts) { std::ostringstream h; h << s.first; rec(s.first, s.second, 0, h.str()); }
}
// closure: the 24 rotations of the cube, by breadth-first search over quarter turns through every entry point
template <class M> static void cube()
{
	section(SITE(" cube group"));
	const int n = MT<M>::n;
	std::vector<ROp<M>> ops;
	for (Coord c : C3) for (int k = 1; k < 4; ++k)
	{
		R g = (R)(k * PI / 2); OM o = snapO(rotO(n, (int)c, k * PI / 2)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o.a[i][j] = E(roundl(o.a[i][j].v));
		addOp<M>(ops, str(c, g), o, c, g);
		Vec3<R> a(R(c == Coord::X), R(c == Coord::Y), R(c == Coord::Z)); addOp<M>(ops, str(-a, -g), o, -a, -g);
		Quat<R> q = quatOf(a, g); addOp<M>(ops, str(q), o, q);
	}
	std::map<std::vector<int>, M> seen; std::deque<std::pair<M, OM>> q;
	auto key = [&](const OM& o) { std::vector<int> k; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) k.push_back((int)roundl(o.a[i][j].v)); return k; };
	M one; one.setIdentity(); q.push_back({ one, OM::identity(n) }); seen[key(OM::identity(n))] = one;
	while (!q.empty())
	{
		auto cur = q.front(); q.pop_front(); state();
		for (auto& op : ops)
		{
			M x = cur.first; op.in(x); OM w = applyO(op, cur.second); trace();
			for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) w.a[a][b] = E(roundl(w.a[a][b].v));
			MC_CHECK(maxdiff(x, w) <= 64 * eps<R>(), SITE(" cube group"), op.name << " of " << cur.first << " got " << x << " want " << w);
			if (seen.insert({ key(w), x }).second) q.push_back({ x, w });
		}
	}
	MC_CHECK(seen.size() == 24, SITE(" cube group has 24 elements"), seen.size());
}

// ---------------------------------------------------------------------------------------------- orthonormalise
template <class M> static void ortho()
{
	section(SITE(" orthonormalise"));
	const int n = MT<M>::n;
	std::vector<OM> rots; for (LD g : angle_grid()) if (thorough() || fabsl(g) <= 3.2L) { for (int ax = 0; ax < 3; ++ax) rots.push_back(rotO(n, ax, g)); for (auto& a : axes()) rots.push_back(axisO(n, a, (R)g)); }
	std::vector<LD> drifts = { 0, 1e-6L, 1e-4L, 1e-2L, 0.05L };
	for (auto& r0 : rots) for (LD dr : drifts) for (int pat = 0; pat < (dr == 0 ? 1 : 10); ++pat)
	{
		OM o = r0;
		if (pat < 9) o.a[pat / 3][pat % 3].v += dr; else for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.a[i][j].v *= 1 + dr;
		if (n == 4) o = withT(o, TV);
		state(); trace();
		M m = MT<M>::make(o), b = m; M& rr = m.orthonormalise();
		MC_CHECK(&rr == &m, SITE("::orthonormalise returns *this"), "");
		OM g = om(m); OM l(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) l.a[i][j] = g.a[i][j];
		MC_CHECK(fabsl(detO(l).v - 1) <= 32 * eps<R>() && normalErrO(l, 3, 3) <= powl(32 * eps<R>(), 2) && orthoErrO(l, 3, 3) <= powl(32 * eps<R>(), 2), SITE("::orthonormalise gives a rotation"), b << " -> " << m);
		LD d = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) d = std::max(d, fabsl(l.a[i][j].v - r0.a[i][j].v));
		MC_CHECK(d <= 64 * eps<R>() + 6 * dr, SITE("::orthonormalise stays near the drifted rotation"), b << " -> " << m << " original " << r0);
		if (n == 4) for (int i = 0; i < 3; ++i) MC_CHECK(MT<M>::get(m, i, 3) == comp(TV, i), SITE("::orthonormalise keeps the translation"), b << " -> " << m);
		MC_CHECK(m.isOrthonormal(), SITE("::orthonormalise leaves an orthonormal matrix"), b << " -> " << m);
	}
}

void explore()
{
	ctx().bounds = "axes lattice x 15-degree angle grid; 4^6 frames x 6 coordinate pairs; catalogue x rotations; all rotation sequences to depth 3 (thorough 4); cube group closure; drift patterns";
	constructions<Mat3<R>>(); constructions<Mat34<R>>(); constructions<Mat4<R>>();
	frames<Mat3<R>>(); frames<Mat34<R>>(); frames<Mat4<R>>();
	single<Mat3<R>>(); single<Mat34<R>>(); single<Mat4<R>>(); mat2();
	sequences<Mat3<R>>(); sequences<Mat34<R>>(); sequences<Mat4<R>>();
	cube<Mat3<R>>(); cube<Mat34<R>>(); cube<Mat4<R>>();
	ortho<Mat3<R>>(); ortho<Mat4<R>>();
}
