// C07: affine transforms (Mat34, Mat4): translate / scale / rotate / transform, their Pre and pure forms, inversion and the
// local frame queries against a 4x4 matrix model, one by one on every matrix of the catalogue and over operation sequences.
#include "mats.h"
typedef MC_REAL R;
#define SITE(x) (std::string(MT<M>::name()) + x)
static const LD PI = acosl(-1.0L);

template <class M> struct Op { std::string name; std::function<void(M&)> in; std::function<M(const M&)> pure; OM mat; bool pre; bool nonuniform; };

template <class M> std::function<M(const M&)> none() { return nullptr; }
template <class M> void transOps(std::vector<Op<M>>& v, const Vec3<R>& t);
template <class T> std::string cat(const char* n, const T& t) { std::ostringstream s; s.precision(17); s << n << t; return s.str(); }

template <> void transOps(std::vector<Op<Mat34<R>>>& v, const Vec3<R>& t)
{
	typedef Mat34<R> M;
	v.push_back({ cat("translate", t), [=](M& m) { MC_CHECK(&m.translate(t) == &m, "Mat34::translate returns *this", ""); }, nullptr, transO(t.x, t.y, t.z), false, false });
	v.push_back({ cat("translatePre", t), [=](M& m) { MC_CHECK(&m.translatePre(t) == &m, "Mat34::translatePre returns *this", ""); }, nullptr, transO(t.x, t.y, t.z), true, false });
}
template <> void transOps(std::vector<Op<Mat4<R>>>& v, const Vec3<R>& t)
{
	typedef Mat4<R> M;
	v.push_back({ cat("translate", t), [=](M& m) { MC_CHECK(&m.translate(t) == &m, "Mat4::translate returns *this", ""); }, [=](const M& m) { return m.translated(t); }, transO(t.x, t.y, t.z), false, false });
	v.push_back({ cat("translatePre", t), [=](M& m) { MC_CHECK(&m.translatePre(t) == &m, "Mat4::translatePre returns *this", ""); }, [=](const M& m) { return m.translatedPre(t); }, transO(t.x, t.y, t.z), true, false });
}
static void scaleOps(std::vector<Op<Mat34<R>>>& v, const Vec3<R>& t)
{
	typedef Mat34<R> M; bool nu = !(t.x == t.y && t.y == t.z);
	v.push_back({ cat("scale", t), [=](M& m) { MC_CHECK(&m.scale(t) == &m, "Mat34::scale returns *this", ""); }, nullptr, scaleO(4, t.x, t.y, t.z), false, nu });
	v.push_back({ cat("scalePre", t), [=](M& m) { MC_CHECK(&m.scalePre(t) == &m, "Mat34::scalePre returns *this", ""); }, nullptr, scaleO(4, t.x, t.y, t.z), true, false });
}
static void scaleOps(std::vector<Op<Mat4<R>>>& v, const Vec3<R>& t)
{
	typedef Mat4<R> M; bool nu = !(t.x == t.y && t.y == t.z);
	v.push_back({ cat("scale", t), [=](M& m) { MC_CHECK(&m.scale(t) == &m, "Mat4::scale returns *this", ""); }, [=](const M& m) { return m.scaled(t); }, scaleO(4, t.x, t.y, t.z), false, nu });
	v.push_back({ cat("scalePre", t), [=](M& m) { MC_CHECK(&m.scalePre(t) == &m, "Mat4::scalePre returns *this", ""); }, [=](const M& m) { return m.scaledPre(t); }, scaleO(4, t.x, t.y, t.z), true, false });
}
static void rotOps(std::vector<Op<Mat34<R>>>& v, const Vec3<R>& a, R g)
{
	typedef Mat34<R> M;
	v.push_back({ cat("rotate", a), [=](M& m) { m.rotate(a, g); }, nullptr, rotAxisO(4, a.x, a.y, a.z, g), false, false });
	v.push_back({ cat("rotatePre", a), [=](M& m) { m.rotatePre(a, g); }, nullptr, rotAxisO(4, a.x, a.y, a.z, g), true, false });
}
static void rotOps(std::vector<Op<Mat4<R>>>& v, const Vec3<R>& a, R g)
{
	typedef Mat4<R> M;
	v.push_back({ cat("rotate", a), [=](M& m) { m.rotate(a, g); }, [=](const M& m) { return m.rotated(a, g); }, rotAxisO(4, a.x, a.y, a.z, g), false, false });
	v.push_back({ cat("rotatePre", a), [=](M& m) { m.rotatePre(a, g); }, [=](const M& m) { return m.rotatedPre(a, g); }, rotAxisO(4, a.x, a.y, a.z, g), true, false });
}
static void matOps(std::vector<Op<Mat34<R>>>& v, const OM& o)
{
	typedef Mat34<R> M; M k = MT<M>::make(o); OM e = om(k);
	v.push_back({ cat("transform", k), [=](M& m) { MC_CHECK(&m.transform(k) == &m, "Mat34::transform returns *this", ""); }, nullptr, e, false, false });
	v.push_back({ cat("transformPre", k), [=](M& m) { MC_CHECK(&m.transformPre(k) == &m, "Mat34::transformPre returns *this", ""); }, [=](const M& m) { return m * k; }, e, true, false });
	v.push_back({ cat("*=", k), [=](M& m) { m *= k; }, nullptr, e, true, false });
	Mat3<R> l = k.rs; OM el = e; for (int i = 0; i < 3; ++i) el.a[i][3] = E(0);
	v.push_back({ cat("transform ", l), [=](M& m) { MC_CHECK(&m.transform(l) == &m, "Mat34::transform(Mat3) returns *this", ""); }, nullptr, el, false, false });
	v.push_back({ cat("transformPre ", l), [=](M& m) { MC_CHECK(&m.transformPre(l) == &m, "Mat34::transformPre(Mat3) returns *this", ""); }, [=](const M& m) { return m * l; }, el, true, false });
	v.push_back({ cat("*= ", l), [=](M& m) { m *= l; }, nullptr, el, true, false });
}
static void matOps(std::vector<Op<Mat4<R>>>& v, const OM& o)
{
	typedef Mat4<R> M; M k = MT<M>::make(o); OM e = om(k);
	v.push_back({ cat("transform", k), [=](M& m) { MC_CHECK(&m.transform(k) == &m, "Mat4::transform returns *this", ""); }, [=](const M& m) { return m.transformed(k); }, e, false, false });
	v.push_back({ cat("transformPre", k), [=](M& m) { MC_CHECK(&m.transformPre(k) == &m, "Mat4::transformPre returns *this", ""); }, [=](const M& m) { return m.transformedPre(k); }, e, true, false });
}
static OM applyO(bool pre, const OM& k, const OM& o) { return pre ? o * k : k * o; }
// what the pinned non-uniform scale does: columns scaled, translation scaled by component
static OM pinnedScale(const OM& k, const OM& o) { OM r = o; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) r.a[i][j] = o.a[i][j] * k.a[j][j]; r.a[i][3] = o.a[i][3] * k.a[i][i]; } return r; }

static std::vector<OM> affineCatalogue() { return catalogue4(false); }
template <class M> static std::vector<std::pair<M, OM>> starts() { std::vector<std::pair<M, OM>> r; for (auto& o : affineCatalogue()) { M m = MT<M>::make(o); r.push_back({ m, om(m) }); } return r; }

// every point and direction of a small lattice is mapped as the model says
static const Vec3<R>* points(int& n) { static const Vec3<R> p[] = { Vec3<R>(0, 0, 0), Vec3<R>(1, 0, 0), Vec3<R>(0, 1, 0), Vec3<R>(0, 0, 1), Vec3<R>(R(-1.5), 2, R(0.25)) }; n = 5; return p; }
static void vec(const Mat34<R>&, const OM&, const std::string&, LD) {}
static void vec(const Mat4<R>& m, const OM& o, const std::string& h, LD k)
{
	int n; const Vec3<R>* p = points(n);
	for (int i = 0; i < n; ++i)
	{
		Vec3<R> r; m.transformVector(r, p[i]); EV<3> w; for (int a = 0; a < 3; ++a) { E s; for (int b = 0; b < 3; ++b) s += o.a[a][b] * E(comp(p[i], b)); w[a] = s; }
		MC_CHECK(closev(r, w, k), "Mat4::transformVector", h << " v=" << p[i] << " got " << r << " want " << w);
	}
}
template <class M> static void maps(const M& m, const OM& o, const std::string& h, LD k)
{
	int n; const Vec3<R>* p = points(n);
	for (int i = 0; i < n; ++i)
	{
		Vec3<R> r = m * p[i], q; m.transform(q, p[i]); EV<3> w;
		for (int a = 0; a < 3; ++a) { E s = o.a[a][3]; for (int b = 0; b < 3; ++b) s += o.a[a][b] * E(comp(p[i], b)); w[a] = s; }
		MC_CHECK(closev(r, w, k), SITE(" * point"), h << " v=" << p[i] << " got " << r << " want " << w);
		MC_CHECK(closev(q, w, k), SITE("::transform point"), h << " v=" << p[i] << " got " << q << " want " << w);
	}
	vec(m, o, h, k);
}
// the local frame
template <class M> static void frame(const M& m, const OM& o, const std::string& h, LD k)
{
	static const Coord C[] = { Coord::X, Coord::Y, Coord::Z };
	static const Axis A[] = { Axis::X, Axis::Y, Axis::Z, Axis::NX, Axis::NY, Axis::NZ };
	EV<3> t; for (int i = 0; i < 3; ++i) t[i] = o.a[i][3];
	for (int a = 0; a < 6; ++a)
	{
		EV<3> d; for (int i = 0; i < 3; ++i) d[i] = o.a[i][a % 3];
		LD l = sqrtl(dot(d, d).v), mx = 0; for (int i = 0; i < 3; ++i) mx = std::max(mx, d[i].m);
		if (l == 0 || l < 1e-3L * mx) continue;
		LD amp = mx / l; EV<3> u = d / E(l); for (int i = 0; i < 3; ++i) u[i] = E(u[i].v, amp);
		EV<3> nn = a < 3 ? u : u * E(-1);
		E dist = dot(nn, t); LD dm = 0; for (int i = 0; i < 3; ++i) dm += amp * t[i].m; dist.m = std::max(dist.m, dm);
		if (a < 3)
		{
			ml::Ray3<R> r = m.localAxis(C[a]);
			MC_CHECK(closev(r.start, t, k), SITE("::localAxis start"), h << " axis " << C[a] << " got " << r.start << " want " << t);
			MC_CHECK(closev(r.direction, u, k), SITE("::localAxis direction"), h << " axis " << C[a] << " got " << r.direction << " want " << u);
			ml::Plane<R> p = m.localPlane(C[a]);
			MC_CHECK(closev(p.normal, u, k), SITE("::localPlane(Coord) normal"), h << " axis " << C[a] << " got " << p.normal << " want " << u);
			MC_CHECK(near(p.d, dist, k), SITE("::localPlane(Coord) d"), h << " axis " << C[a] << " got " << p.d << " want " << dist);
		}
		ml::Plane<R> p = m.localPlane(A[a]);
		MC_CHECK(closev(p.normal, nn, k), SITE("::localPlane(Axis) normal"), h << " axis " << A[a] << " got " << p.normal << " want " << nn);
		MC_CHECK(near(p.d, dist, k), SITE("::localPlane(Axis) d"), h << " axis " << A[a] << " got " << p.d << " want " << dist);
	}
}

template <class M> static std::vector<Op<M>> allOps()
{
	std::vector<Op<M>> v;
	for (Vec3<R> t : { Vec3<R>(0, 0, 0), Vec3<R>(1, 0, 0), Vec3<R>(0, -2, 0), Vec3<R>(R(0.25), 3, -100), Vec3<R>(0, 0, R(0.5)) }) transOps<M>(v, t);
	for (Vec3<R> t : { Vec3<R>(1, 1, 1), Vec3<R>(2, 2, 2), Vec3<R>(-1, -1, -1), Vec3<R>(0, 0, 0), Vec3<R>(2, 1, 1), Vec3<R>(1, -1, 1), Vec3<R>(1, 1, R(0.5)), Vec3<R>(3, R(-0.5), 7), Vec3<R>(0, 1, 1) }) scaleOps(v, t);
	rotOps(v, Vec3<R>(1, 2, -1), R(0.7)); rotOps(v, Vec3<R>(0, 0, 1), R(-PI / 2)); rotOps(v, Vec3<R>(-1, 0, 3), R(2.9)); rotOps(v, Vec3<R>(0, 1, 0), R(0));
	auto cat = affineCatalogue();
	for (size_t i = 0; i < cat.size(); ++i) matOps(v, cat[i]);
	matOps(v, cat[0]);
	return v;
}
template <class M> static bool eqm(const M& m, const OM& w, LD k = 24)
{
	LD big = 0; for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) big = std::max(big, w.a[i][j].m);
	return maxdiff(m, w) <= k * eps<R>() * big;
}
template <class M> static void judge(const M& got, const Op<M>& op, const OM& w, const OM& o, const std::string& site, const std::string& h)
{
	bool ok = eqm(got, w);
	if (op.nonuniform && !ok && eqm(got, pinnedScale(op.mat, o))) { MC_CHECK(false, site + "-column-order", h << " got " << got << " want " << w); return; }
	MC_CHECK(ok, site, h << " " << op.name << " got " << got << " want " << w);
}
template <class M> static std::string verb(const Op<M>& op) { size_t i = op.name.find_first_of("([ "); return op.name.substr(0, i); }

// the operand is the target itself or a part of it
template <class M> static void ownT(const M&, const OM&, const std::string&, const std::function<void(const char*, const M&, const OM&)>&) {}
static void ownT(const Mat34<R>& s, const OM& o, const std::string& h, const std::function<void(const char*, const Mat34<R>&, const OM&)>& is)
{
	typedef Mat34<R> M; OM t = transO(s.t.x, s.t.y, s.t.z), l = om(M(s.rs)), k = scaleO(4, s.t.x, s.t.y, s.t.z);
	M m = s; m.translate(m.t); is("::translate(own translation)", m, t * o);
	m = s; m.translatePre(m.t); is("::translatePre(own translation)", m, o * t);
	m = s; m.scalePre(m.t); is("::scalePre(own translation)", m, o * k);
	m = s; m.transform(m.rs); is("::transform(own linear part)", m, l * o);
	m = s; m.transformPre(m.rs); is("::transformPre(own linear part)", m, o * l);
	m = s; m *= m; is("*= itself", m, o * o);
	m = s; m *= m.rs; is("*= own linear part", m, o * l);
}
template <class M> static void own(const M& s, const OM& o, const std::string& h)
{
	auto is = [&](const char* n, const M& m, const OM& w) { state(); trace(); MC_CHECK(eqm(m, w), SITE(n), h << " got " << m << " want " << w); };
	M m = s; m.transform(m); is("::transform(itself)", m, o * o);
	m = s; m.transformPre(m); is("::transformPre(itself)", m, o * o);
	ownT(s, o, h, std::function<void(const char*, const M&, const OM&)>(is));
}

template <class M> static void one(const std::pair<M, OM>& s, const Op<M>& op, const std::string& h0)
{
	state(); trace();
	std::ostringstream h; if (h0 == "ladder") { h.precision(17); h << "m=" << s.first; } else h << h0;
	M m = s.first; op.in(m); OM w = applyO(op.pre, op.mat, s.second);
	judge(m, op, w, s.second, SITE("::" + verb(op)), h.str());
	if (op.pure)
	{
		M p = op.pure(s.first);
		judge(p, op, w, s.second, SITE("::" + verb(op) + "d"), h.str());
	}
	sample([&](std::ostream& o) { o << h.str() << " " << op.name << " -> " << m; });
}
template <class M> static void single()
{
	section(SITE(" single operations"));
	auto ops = allOps<M>();
	for (auto& s : starts<M>())
	{
		std::ostringstream h; h.precision(17); h << "m=" << s.first;
		maps(s.first, s.second, h.str(), 24); frame(s.first, s.second, h.str(), 32); own(s.first, s.second, h.str());
		for (auto& op : ops) one(s, op, h.str());
	}
	// matrices within the tolerance of a special one: everything that multiplies no two matrices takes them as they are
	section(SITE(" close to a special matrix"));
	{
		std::vector<Op<M>> plain; transOps<M>(plain, Vec3<R>(R(0.25), 3, -4)); scaleOps(plain, Vec3<R>(2, 2, 2)); scaleOps(plain, Vec3<R>(3, R(-0.5), 7));
		for (auto& s : nearSpecial<M>())
		{
			if (MT<M>::rows == 4 && !(s.second.a[3][0].v == 0 && s.second.a[3][1].v == 0 && s.second.a[3][2].v == 0 && s.second.a[3][3].v == 1)) continue;
			maps(s.first, s.second, "ladder", 24); frame(s.first, s.second, "ladder", 32);
			for (auto& op : plain) one(s, op, "ladder");
		}
	}
	section(SITE(" ladders"));
	// matrices whose entries climb the ladder, under a few operations; operations whose arguments climb the ladder, on a few matrices
	std::vector<Op<M>> few; transOps<M>(few, Vec3<R>(R(0.25), 3, -4)); scaleOps(few, Vec3<R>(2, 2, 2)); scaleOps(few, Vec3<R>(3, R(-0.5), 7)); rotOps(few, Vec3<R>(1, 2, -1), R(0.7)); matOps(few, affineCatalogue()[affineCatalogue().size() - 1]);
	star<R>(12, [&](const R* p)
	{
		OM o = om(fromRow<Mat34<R>>(p)); M m = MT<M>::make(o); std::pair<M, OM> s(m, o);
		maps(m, o, "ladder", 24); frame(m, o, "ladder", 32); own(m, o, "ladder");
		for (auto& op : few) one(s, op, "ladder");
	}, thorough());
	auto st = starts<M>();
	star<R>(3, [&](const R* p)
	{
		std::vector<Op<M>> v; transOps<M>(v, mk3(p)); scaleOps(v, mk3(p));
		for (size_t i = 1; i < st.size(); i += 6) for (auto& op : v) one(st[i], op, "ladder");
	});
	for (R k : ladder<R>()) { std::vector<Op<M>> v; scaleOps(v, Vec3<R>(k, k, k)); for (size_t i = 1; i < st.size(); i += 3) for (auto& op : v) one(st[i], op, "ladder"); }
}

template <class M> static void sequences()
{
	section(SITE(" operation sequences"));
	const int depth = thorough() ? 5 : 4;
	std::vector<Op<M>> ops;
	transOps<M>(ops, Vec3<R>(1, -2, R(0.5))); transOps<M>(ops, Vec3<R>(0, 0, -1)); scaleOps(ops, Vec3<R>(2, 2, 2)); scaleOps(ops, Vec3<R>(1, -1, R(0.5)));
	rotOps(ops, Vec3<R>(1, 1, 1), R(2 * PI / 3)); rotOps(ops, Vec3<R>(2, 0, -1), R(0.9));
	auto cat = affineCatalogue(); matOps(ops, cat[20]); matOps(ops, cat[cat.size() - 3]);
	std::vector<Op<M>> use; for (auto& o : ops) if (!o.nonuniform) use.push_back(o);
	M (*dummy)(const M&) = nullptr; (void)dummy;
	OM zero(4); use.push_back({ "invert", [](M& m) { m.invert(); }, nullptr, zero, false, false });
	std::function<void(const M&, const OM&, int, const std::string&, LD)> rec = [&](const M& m, const OM& o, int d, const std::string& h, LD cond)
	{
		for (auto& op : use)
		{
			OM w; LD c = cond; bool inv = op.name == "invert";
			if (inv)
			{
				E dt = detO(o); if (fabsl(dt.v) < 1e-6L) continue;
				w = adjointO(o) / dt; LD a = 0, b = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { a = std::max(a, fabsl(o.a[i][j].v)); b = std::max(b, fabsl(w.a[i][j].v)); }
				c *= std::max(1.0L, a * b) * 8;
			}
			else w = applyO(op.pre, op.mat, o);
			if (c > 1e4L) continue;
			M x = m; op.in(x); state();
			LD big = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) big = std::max(big, fabsl(w.a[i][j].v));
			LD lim = 512 * eps<R>() * c * std::max(1.0L, big) * (d + 1);
			for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) w.a[i][j] = E(w.a[i][j].v);
			// an operation's rounding is bounded by the largest intermediate entry
			LD keep = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) keep = std::max(keep, fabsl(o.a[i][j].v));
			lim = std::max(lim, 512 * eps<R>() * c * keep);
			MC_CHECK(maxdiff(x, w) <= lim, SITE(" history"), h << " ; " << op.name << " got " << x << " want " << w);
			if (d + 1 < depth) rec(x, w, d + 1, h + " ; " + op.name, c);
			else
			{
				trace();
				int n; const Vec3<R>* p = points(n); Vec3<R> r = x * p[4];
				for (int a = 0; a < 3; ++a) { LD s = w.a[a][3].v; for (int b = 0; b < 3; ++b) s += w.a[a][b].v * comp(p[4], b); MC_CHECK(fabsl(comp(r, a) - s) <= lim * 8, SITE(" history * point"), h << " ; " << op.name << " got " << r); }
			}
			sample([&](std::ostream& s) { s << h << " ; " << op.name << " -> " << x; });
		}
	};
	for (size_t i : { (size_t)0, (size_t)17, (size_t)25, cat.size() - 1 })
	{
		M m = MT<M>::make(cat[i]); std::ostringstream h; h << m; rec(m, om(m), 0, h.str(), 1);
	}
}

void explore()
{
	ctx().bounds = "affine catalogue x all operations; all operation sequences to depth 4 (thorough 5) from 4 starting matrices";
	single<Mat34<R>>(); single<Mat4<R>>();
	sequences<Mat34<R>>(); sequences<Mat4<R>>();
}
