// C05: the cached matrix properties (normal / orthogonal / identity / TRS / initialised) never change a result, over
// whole histories of operations on one object.  Explicit-state search: state = (matrix value, cached flags).
#include "mats.h"
typedef MC_REAL R;
typedef ml::MatrixTolerance<R> Tol;

struct FL { bool normal, ortho, orthonormal, ident, trs, init; };
template <class M> FL flagsOf(const M& m) { return FL{ m.isNormal(), m.isOrthogonal(), m.isOrthonormal(), m.isIdentity(), true, m.isInitialized() }; }
static FL flagsOf(const Mat4<R>& m) { return FL{ m.isNormal(), m.isOrthogonal(), m.isOrthonormal(), m.isIdentity(), m.isTrs(), m.isInitialized() }; }
static std::ostream& operator<<(std::ostream& s, const FL& f) { return s << (f.init ? "" : "UNINIT ") << (f.normal ? "N" : "-") << (f.ortho ? "O" : "-") << (f.ident ? "I" : "-") << (f.trs ? "T" : "-"); }
static int pack(const FL& f) { return f.normal | f.ortho << 1 | f.ident << 2 | f.trs << 3 | f.init << 4 | f.orthonormal << 5; }

template <class M> struct Meas { LD ne, oe, ie; bool trs; };
template <class M> Meas<M> measure(const OM& o)
{
	Meas<M> r; r.trs = true;
	if (MT<M>::n == 4)
	{
		r.trs = o.a[3][0].v == 0 && o.a[3][1].v == 0 && o.a[3][2].v == 0 && o.a[3][3].v == 1;
		if (MT<M>::rows == 3) { r.ne = normalErrO(o, 3, 3); r.oe = orthoErrO(o, 3, 3); r.ie = identErrO(o, 3) ; LD t = 0; for (int i = 0; i < 3; ++i) t += fabsl(o.a[i][3].v); if (t != 0) r.ie = std::max(r.ie, 1e3L); }
		else if (r.trs) { r.ne = normalErrO(o, 3, 3); r.oe = orthoErrO(o, 3, 3); r.ie = identErrO(o, 4); }
		else { r.ne = normalErrO(o, 4, 4); r.oe = orthoErrO(o, 4, 3); r.ie = identErrO(o, 4); }
	}
	else { int n = MT<M>::n; r.ne = normalErrO(o, n, n); r.oe = orthoErrO(o, n, n); r.ie = identErrO(o, n); }
	return r;
}

#define SITE(x) (std::string(MT<M>::name()) + x)

// flags are never claimed wrongly
template <class M> void sound(const M& m, const Tol& t, const std::string& hist)
{
	Meas<M> k = measure<M>(om(m)); FL f = flagsOf(m);
	LD sl = 1.01L; // rounding of the error sums
	LD tiny = 1e-5L;
	MC_CHECK(!f.normal || k.ne <= t.normal * sl + tiny, SITE("::isNormal claimed for columns that are not unit"), hist << " m=" << m << " flags " << f << " error " << (double)k.ne);
	MC_CHECK(!f.ortho || k.oe <= t.orthogonal * sl + tiny, SITE("::isOrthogonal claimed for columns that are not orthogonal"), hist << " m=" << m << " flags " << f << " error " << (double)k.oe);
	MC_CHECK(!f.ident || k.ie <= t.identity * sl + tiny, SITE("::isIdentity claimed for a matrix that is not the identity"), hist << " m=" << m << " flags " << f << " error " << (double)k.ie);
	MC_CHECK(!f.trs || k.trs, SITE("::isTrs claimed for a projective matrix"), hist << " m=" << m);
	MC_CHECK(f.orthonormal == (f.normal && f.ortho), SITE("::isOrthonormal is isNormal and isOrthogonal"), hist << " m=" << m);
	MC_CHECK(f.init, SITE("::isInitialized after an assignment"), hist << " m=" << m);
	measures(m, om(m), hist);
}
// the error measures the thresholds are compared with are the sums of squared deviations, for every matrix
static bool affineFlag(const Mat4<R>& m) { return m.isTrs(); }
template <class M> bool affineFlag(const M&) { return true; }
template <class M> void measures(const M& m, const OM& o, const std::string& hist)
{
	const int n = MT<M>::n; LD g = 1; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) g = std::max(g, fabsl(o.a[i][j].v));
	if (g > 1e8L) return;
	bool trs = n == 4 && affineFlag(m); int k = trs ? 3 : n;
	LD ne = normalErrO(o, k, k), oe = orthoErrO(o, k, std::min(n, 3)), ie = identErrO(o, n), d = 16 * eps<R>() * n * g * g;
	auto close = [&](LD got, LD want, LD d) { return fabsl(got - want) <= 2 * d * 4 * sqrtl(want) + 16 * d * d + 64 * eps<R>() * want; };
	MC_CHECK(close(m.normalError(), ne, d), SITE("::normalError is the sum of squared deviations"), hist << " m=" << m << " got " << m.normalError() << " want " << (double)ne);
	MC_CHECK(close(m.orthogonalError(), oe, d), SITE("::orthogonalError is the sum of squared inner products"), hist << " m=" << m << " got " << m.orthogonalError() << " want " << (double)oe);
	MC_CHECK(close(m.identityError(), ie, 16 * eps<R>()), SITE("::identityError is the sum of squared differences"), hist << " m=" << m << " got " << m.identityError() << " want " << (double)ie);
}
static void measures(const Mat34<R>&, const OM&, const std::string&) {}
// and after an explicit (re-)evaluation they are claimed whenever they hold
template <class M> void complete(const M& m, const Tol& t, const std::string& hist)
{
	Meas<M> k = measure<M>(om(m)); FL f = flagsOf(m);
	LD sl = 0.99L, tiny = 1e-5L;
	bool n = k.ne <= t.normal * sl - tiny || (k.ne < 1e-9L && t.normal > 1e-4), o = k.oe <= t.orthogonal * sl - tiny || (k.oe < 1e-9L && t.orthogonal > 1e-4), i = k.ie <= t.identity * sl - tiny || (k.ie < 1e-9L && t.identity > 1e-4);
	MC_CHECK(!n || f.normal, SITE("::isNormal not recognised"), hist << " m=" << m << " flags " << f);
	MC_CHECK(!o || f.ortho, SITE("::isOrthogonal not recognised"), hist << " m=" << m << " flags " << f);
	MC_CHECK(!(n && o && i) || f.ident, SITE("::isIdentity not recognised"), hist << " m=" << m << " flags " << f);
	MC_CHECK(!k.trs || f.trs, SITE("::isTrs not recognised"), hist << " m=" << m << " flags " << f);
}
static const Tol DEF = { R(0.001), R(0.001), R(0.001) };

// ---- results computed from a matrix with a history equal those computed from a freshly set matrix of the same value
template <class M> struct Partner { std::vector<std::pair<M, OM>> list; };

template <class A, class M> void cmp(const A& got, const A& want, LD mag, const std::string& site, const std::string& hist, const M& m)
{
	bool ok = true;
	for (int i = 0; i < MT<A>::rows; ++i) for (int j = 0; j < MT<A>::n; ++j)
	{
		LD d = fabsl((LD)MT<A>::get(got, i, j) - (LD)MT<A>::get(want, i, j));
		if (!(d <= 256 * eps<R>() * mag)) ok = false;
	}
	MC_CHECK(ok, site, hist << " m=" << m << " got " << got << " fresh " << want);
}
static LD mag(const OM& o) { LD m = 1; for (int i = 0; i < o.n; ++i) for (int j = 0; j < o.n; ++j) m = std::max(m, fabsl(o.a[i][j].v)); return m; }

static void consumers(const Mat2<R>& m, const Mat2<R>& c, const std::string& h)
{
	typedef Mat2<R> M; LD g = mag(om(m));
	E d = detO(om(m)); if (fabsl(d.v) > 1e-3L) cmp(m.inversed(), c.inversed(), g * g * 16 / fabsl(d.v), SITE("::inversed depends on the history"), h, m);
	cmp(m.transposed(), c.transposed(), g, SITE("::transposed depends on the history"), h, m);
	M p = m, q = c; p.rotate(R(0.7)); q.rotate(R(0.7)); cmp(p, q, g, SITE("::rotate depends on the history"), h, m);
}
static void consumers(const Mat3<R>& m, const Mat3<R>& c, const std::string& h)
{
	typedef Mat3<R> M; LD g = mag(om(m));
	E d = detO(om(m));
	if (fabsl(d.v) > 1e-3L)
	{
		LD mg = 64 * g * g * g / fabsl(d.v);
		cmp(m.inversed(), c.inversed(), mg, SITE("::inversed depends on the history"), h, m);
		M p = m, q = c; p.invert(); q.invert(); cmp(p, q, mg, SITE("::invert depends on the history"), h, m); sound(p, DEF, h + " invert");
		cmp(p, m.inversed(), mg, SITE("::invert differs from inversed"), h, m);
	}
	M p = m, q = c; p.rotate(Vec3<R>(1, 2, 3), R(0.7)); q.rotate(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotate depends on the history"), h, m); sound(p, DEF, h + " rotate");
	p = m; q = c; p.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); q.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotatePre depends on the history"), h, m); sound(p, DEF, h + " rotatePre");
}
static void consumers(const Mat34<R>& m, const Mat34<R>& c, const std::string& h)
{
	typedef Mat34<R> M; LD g = mag(om(m));
	E d = detO(om(m));
	if (fabsl(d.v) > 1e-3L)
	{
		LD mg = 64 * g * g * g * g / fabsl(d.v);
		M p = m, q = c; p.invert(); q.invert(); cmp(p, q, mg, SITE("::invert depends on the history"), h, m); sound(p, DEF, h + " invert");
	}
	M p = m, q = c; p.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); q.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotatePre depends on the history"), h, m);
	p = m; q = c; p.rotate(Vec3<R>(1, 2, 3), R(0.7)); q.rotate(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotate depends on the history"), h, m); sound(p, DEF, h + " rotate");
}
static void consumers(const Mat4<R>& m, const Mat4<R>& c, const std::string& h)
{
	typedef Mat4<R> M; LD g = mag(om(m));
	E d = detO(om(m));
	if (fabsl(d.v) > 1e-3L)
	{
		LD mg = 64 * g * g * g * g / fabsl(d.v);
		cmp(m.inversed(), c.inversed(), mg, SITE("::inversed depends on the history"), h, m);
		M p = m, q = c; p.invert(); q.invert(); cmp(p, q, mg, SITE("::invert depends on the history"), h, m); sound(p, DEF, h + " invert");
		cmp(p, m.inversed(), mg, SITE("::invert differs from inversed"), h, m); sound(m.inversed(), DEF, h + " inversed");
	}
	M p = m, q = c; p.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); q.rotatePre(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotatePre depends on the history"), h, m); sound(p, DEF, h + " rotatePre");
	p = m; q = c; p.rotate(Vec3<R>(1, 2, 3), R(0.7)); q.rotate(Vec3<R>(1, 2, 3), R(0.7)); cmp(p, q, g, SITE("::rotate depends on the history"), h, m); sound(p, DEF, h + " rotate");
	cmp(m.rotated(Coord::Y, R(0.7)), c.rotated(Coord::Y, R(0.7)), g, SITE("::rotated depends on the history"), h, m);
}

template <class M> struct Op
{
	const char* name;
	std::function<bool(const OM&)> ok;      // is the operation meaningful on this value
	std::function<void(M&)> real;
	std::function<OM(const OM&)> model;
	bool reevaluates;                       // the operation re-evaluates the flags (they must then be complete)
};

static bool any(const OM&) { return true; }
static bool affine(const OM& o) { return o.n < 4 || (o.a[3][0].v == 0 && o.a[3][1].v == 0 && o.a[3][2].v == 0 && o.a[3][3].v == 1); }
static OM inverseO(const OM& o) { return adjointO(o) / detO(o); }
static bool regular(const OM& o) { return fabsl(detO(o).v) > 0.01L && mag(inverseO(o)) <= 16; }
static bool scaledRotation2(const OM& o) { return detO(o).v > 0.01L && fabsl(o.a[0][0].v - o.a[1][1].v) < 1e-6L && fabsl(o.a[0][1].v + o.a[1][0].v) < 1e-6L; }
static bool rotation3(const OM& o)
{
	OM p(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) p.a[i][j] = o.a[i][j];
	return affine(o) && normalErrO(p, 3, 3) < 1e-6L && orthoErrO(p, 3, 3) < 1e-6L && detO(p).v > 0;
}
static const R HALFPI = ml::Constants<R>::PI_OVER_2;

template <class M> void search(const std::vector<Op<M>>& ops, std::vector<std::pair<M, OM>> starts, const std::vector<std::pair<M, OM>>& partners, int depth, LD maxv, size_t max_states)
{
	struct Node { M m; OM o; int depth; std::string hist; };
	std::set<std::vector<long>> seen;
	std::deque<Node> queue;
	auto push = [&](const M& m, const OM& o, int d, const std::string& h) {
		std::vector<long> key;
		for (int i = 0; i < o.n; ++i) for (int j = 0; j < o.n; ++j) { if (fabsl(o.a[i][j].v) > maxv) return; key.push_back(lroundl(o.a[i][j].v * 1024)); }
		key.push_back(pack(flagsOf(m)));
		if (seen.size() >= max_states || !seen.insert(key).second) return;
		queue.push_back(Node{ m, o, d, h });
	};
	for (auto& s : starts) { sound(s.first, DEF, "start"); push(s.first, s.second, 0, "start"); }
	bool truncated = false;
	while (!queue.empty())
	{
		Node nd = queue.front(); queue.pop_front();
		state();
		M clean = MT<M>::make(om(nd.m));
		complete(clean, DEF, nd.hist + " fresh"); sound(clean, DEF, nd.hist + " fresh");
		consumers(nd.m, clean, nd.hist);
		for (auto& p : partners)
		{
			LD g = mag(nd.o) * mag(p.second) * 4;
			M x = nd.m * p.first; cmp(x, clean * p.first, g, SITE("*m depends on the history"), nd.hist, nd.m); sound(x, DEF, nd.hist + " *partner");
			M y = p.first * nd.m; cmp(y, p.first * clean, g, SITE("m* depends on the history"), nd.hist, nd.m); sound(y, DEF, nd.hist + " partner*");
		}
		// flags follow a copy
		M copy = nd.m; M set; set.set(nd.m);
		MC_CHECK(pack(flagsOf(copy)) == pack(flagsOf(nd.m)) && pack(flagsOf(set)) == pack(flagsOf(nd.m)) && samem(copy, nd.m) && samem(set, nd.m), SITE(" copy keeps value and flags"), nd.hist << " m=" << nd.m);
		M opt = nd.m; opt.optimize(); complete(opt, DEF, nd.hist + " optimize"); sound(opt, DEF, nd.hist + " optimize");
		MC_CHECK(samem(opt, nd.m), SITE("::optimize changes the value"), nd.hist << " m=" << nd.m);
		sample([&](std::ostream& s) { s << nd.hist << " -> " << nd.m << " " << flagsOf(nd.m); });
		for (auto& op : ops)
		{
			if (!op.ok(nd.o)) continue;
			M m = nd.m; op.real(m); OM o = snapO(op.model(nd.o));
			std::string h = nd.hist + " " + op.name;
			OM w = widenO(o, mag(nd.o) * mag(o) * 8);
			step(); trace();
			MC_CHECK(nearm(m, w, 512), SITE("::") + op.name + " wrong over a history", h << " got " << m << " " << flagsOf(m) << " want " << o);
			sound(m, DEF, h);
			if (op.reevaluates) complete(m, DEF, h);
			if (nd.depth < depth) push(m, o, nd.depth + 1, h);
		}
	}
	if (seen.size() >= max_states) truncated = true;
	MC_CHECK(!truncated, SITE(" state bound too small for the stated depth"), "raise max_states");
}

template <class M> std::vector<std::pair<M, OM>> pick(const std::vector<OM>& l)
{
	std::vector<std::pair<M, OM>> r;
	for (auto& o : l) { M m = MT<M>::make(o); r.push_back({ m, om(m) }); }
	return r;
}
static OM lin(int n, std::initializer_list<double> v)
{
	OM o = OM::identity(n); auto it = v.begin(); int d = n == 2 ? 2 : 3;
	for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.a[i][j] = E((LD)*it++);
	return o;
}
#define MULOP(T, nm, O) { OM g = snapO(O); T gm = MT<T>::make(g); ops.push_back({ nm, any, [gm](T& m) { MULPOST(m, gm); }, [g](const OM& o) { return o * g; }, false }); }

static void mat2(int depth)
{
	typedef Mat2<R> M; typedef std::vector<Op<M>> Ops; Ops ops;
	section("Mat2 histories");
#define MULPOST(m, g) m *= g
	MULOP(M, "*=quarter", rot2O(acosl(-1.0L) / 2)) MULOP(M, "*=mirror", lin(2, { -1, 0, 0, 1 })) MULOP(M, "*=diag", lin(2, { 2, 0, 0, 0.5 })) MULOP(M, "*=shear", lin(2, { 1, 1, 0, 1 })) MULOP(M, "*=unitshear", lin(2, { 1, 0.6, 0, 0.8 })) MULOP(M, "*=one", OM::identity(2))
#undef MULPOST
	ops.push_back({ "*=itself", [](const OM& o) { return mag(o) <= 3; }, [](M& m) { m *= m; }, [](const OM& o) { return o * o; }, false });
	for (R k : { R(2), R(0.5), R(-1), R(1), R(0) }) ops.push_back({ k == 2 ? "*=2" : k == 1 ? "*=1" : k == 0 ? "*=0" : k < 0 ? "*=-1" : "*=0.5", any, [k](M& m) { m *= k; }, [k](const OM& o) { return o * E(k); }, k != 1 });
	ops.push_back({ "/=2", any, [](M& m) { m /= R(2); }, [](const OM& o) { return o / E(2); }, true });
	ops.push_back({ "/=1", any, [](M& m) { m /= R(1); }, [](const OM& o) { return o; }, false });
	ops.push_back({ "rotate", any, [](M& m) { m.rotate(HALFPI); }, [](const OM& o) { return rot2O(acosl(-1.0L) / 2) * o; }, true });
	ops.push_back({ "rotatePre", any, [](M& m) { m.rotatePre(HALFPI); }, [](const OM& o) { return o * rot2O(acosl(-1.0L) / 2); }, true });
	ops.push_back({ "rotate0", any, [](M& m) { m.rotate(R(0)); }, [](const OM& o) { return o; }, true });
	ops.push_back({ "=rotated", any, [](M& m) { m = m.rotated(-HALFPI); }, [](const OM& o) { return rot2O(-acosl(-1.0L) / 2) * o; }, true });
	ops.push_back({ "scale", any, [](M& m) { m.scale(Vec2<R>(2, -1)); }, [](const OM& o) { return o * scaleO(2, 2, -1, 1); }, true });
	ops.push_back({ "=scaled", any, [](M& m) { m = m.scaled(Vec2<R>(R(0.5), 1)); }, [](const OM& o) { return o * scaleO(2, 0.5L, 1, 1); }, true });
	ops.push_back({ "scale0", any, [](M& m) { m.scale(Vec2<R>(0, 1)); }, [](const OM& o) { return o * scaleO(2, 0, 1, 1); }, true });
	ops.push_back({ "transpose", any, [](M& m) { m.transpose(); }, transposeO, true });
	ops.push_back({ "=transposed", any, [](M& m) { m = m.transposed(); }, transposeO, true });
	ops.push_back({ "=inversed", regular, [](M& m) { m = m.inversed(); }, inverseO, false });
	ops.push_back({ "=-", any, [](M& m) { m = -m; }, [](const OM& o) { return -o; }, true });
	ops.push_back({ "=cofactors", any, [](M& m) { m = m.cofactors(); }, cofactorsO, true });
	ops.push_back({ "=adjoint", any, [](M& m) { m = m.adjoint(); }, adjointO, true });
	for (int k : { 0, 1 }) for (R v : { R(0), R(1) }) { static const char* nm[2][16] = { { "data[0]=0, optimize", "data[1]=0, optimize", "data[2]=0, optimize", "data[3]=0, optimize" }, { "data[0]=1, optimize", "data[1]=1, optimize", "data[2]=1, optimize", "data[3]=1, optimize" } }; ops.push_back({ nm[v != 0][k], any, [k, v](M& m) { m.data()[k] = v; m.optimize(); }, [k, v](const OM& o) { OM r = o; r.a[k % 2][k / 2] = E(v); return r; }, true }); }
	ops.push_back({ "setIdentity", any, [](M& m) { m.setIdentity(); }, [](const OM&) { return OM::identity(2); }, true });
	ops.push_back({ "optimize", any, [](M& m) { m.optimize(); }, [](const OM& o) { return o; }, true });
	ops.push_back({ "orthonormalise", scaledRotation2, [](M& m) { m.orthonormalise(); }, [](const OM& o) { return o / esqrt(detO(o)); }, true });
	auto partners = pick<M>({ lin(2, { 2, 1, 1, 3 }), lin(2, { 0, -1, 1, 0 }), lin(2, { -1, 0, 0, 1 }), lin(2, { 1, 0, 0, 1 }), lin(2, { 1, 0.6, 0, 0.8 }), lin(2, { 0, 2, -2, 0 }) });
	auto starts = pick<M>({ lin(2, { 1, 0, 0, 1 }), lin(2, { 0, 0, 0, 0 }), lin(2, { 2, 1, 1, 3 }), lin(2, { 1, 0.6, 0, 0.8 }), lin(2, { 0, -1, 1, 0 }) });
	for (R k : { R(0), R(1), R(-1), R(2) }) starts.push_back({ M(k), om(M(k)) });
	starts.push_back({ M::One, om(M::One) }); starts.push_back({ M::Zero, om(M::Zero) });
	search(ops, starts, partners, depth, 9, 2000000);
}

static void mat3(int depth)
{
	typedef Mat3<R> M; std::vector<Op<M>> ops;
	section("Mat3 histories");
	const LD P = acosl(-1.0L);
#define MULPOST(m, g) m *= g
	MULOP(M, "*=quarterX", rotO(3, 0, P / 2)) MULOP(M, "*=mirror", lin(3, { -1, 0, 0, 0, 1, 0, 0, 0, 1 })) MULOP(M, "*=diag", lin(3, { 2, 0, 0, 0, 1, 0, 0, 0, 0.5 })) MULOP(M, "*=shear", lin(3, { 1, 0, 1, 0, 1, 0, 0, 0, 1 })) MULOP(M, "*=unitshear", lin(3, { 1, 0.6, 0, 0, 0.8, 0, 0, 0, 1 })) MULOP(M, "*=one", OM::identity(3))
#undef MULPOST
	ops.push_back({ "*=itself", [](const OM& o) { return mag(o) <= 3; }, [](M& m) { m *= m; }, [](const OM& o) { return o * o; }, false });
	ops.push_back({ "rotate(itself)", [](const OM& o) { return mag(o) <= 3; }, [](M& m) { m.rotate(m); }, [](const OM& o) { return o * o; }, false });
	for (R k : { R(2), R(0.5), R(-1), R(1), R(0) }) ops.push_back({ k == 2 ? "*=2" : k == 1 ? "*=1" : k == 0 ? "*=0" : k < 0 ? "*=-1" : "*=0.5", any, [k](M& m) { m *= k; }, [k](const OM& o) { return o * E(k); }, k != 1 });
	ops.push_back({ "/=2", any, [](M& m) { m /= R(2); }, [](const OM& o) { return o / E(2); }, true });
	for (int ax = 0; ax < 3; ++ax)
	{
		static const char* n1[] = { "rotateX", "rotateY", "rotateZ" }; static const char* n2[] = { "rotatePreX", "rotatePreY", "rotatePreZ" };
		ops.push_back({ n1[ax], any, [ax](M& m) { m.rotate((Coord)ax, HALFPI); }, [ax, P](const OM& o) { return rotO(3, ax, P / 2) * o; }, true });
		ops.push_back({ n2[ax], any, [ax](M& m) { m.rotatePre((Coord)ax, HALFPI); }, [ax, P](const OM& o) { return o * rotO(3, ax, P / 2); }, true });
	}
	ops.push_back({ "rotateAxis", any, [](M& m) { m.rotate(Vec3<R>(1, 1, 1), ml::Constants<R>::PI * R(2) / R(3)); }, [P](const OM& o) { return rotAxisO(3, 1, 1, 1, 2 * P / 3) * o; }, false });
	ops.push_back({ "rotateAxis0", any, [](M& m) { m.rotate(Vec3<R>(1, 1, 1), R(0)); }, [](const OM& o) { return o; }, false });
	ops.push_back({ "rotatePreAxis", any, [](M& m) { m.rotatePre(Vec3<R>(0, 1, 0), HALFPI); }, [P](const OM& o) { return o * rotO(3, 1, P / 2); }, false });
	ops.push_back({ "rotateQuat", any, [](M& m) { m.rotate(Quat<R>::from(Vec3<R>(0, 0, 1), -HALFPI)); }, [P](const OM& o) { return rotO(3, 2, -P / 2) * o; }, false });
	ops.push_back({ "=rotated", any, [](M& m) { m = m.rotated(Coord::Y, -HALFPI); }, [P](const OM& o) { return rotO(3, 1, -P / 2) * o; }, true });
	ops.push_back({ "=rotatedPre", any, [](M& m) { m = m.rotatedPre(Coord::X, -HALFPI); }, [P](const OM& o) { return o * rotO(3, 0, -P / 2); }, true });
	ops.push_back({ "scale", any, [](M& m) { m.scale(Vec3<R>(2, -1, 1)); }, [](const OM& o) { return o * scaleO(3, 2, -1, 1); }, true });
	ops.push_back({ "=scaled", any, [](M& m) { m = m.scaled(Vec3<R>(1, 1, R(0.5))); }, [](const OM& o) { return o * scaleO(3, 1, 1, 0.5L); }, true });
	ops.push_back({ "transpose", any, [](M& m) { m.transpose(); }, transposeO, true });
	ops.push_back({ "=transposed", any, [](M& m) { m = m.transposed(); }, transposeO, true });
	ops.push_back({ "=inversed", regular, [](M& m) { m = m.inversed(); }, inverseO, false });
	ops.push_back({ "invert", regular, [](M& m) { m.invert(); }, inverseO, false });
	ops.push_back({ "=-", any, [](M& m) { m = -m; }, [](const OM& o) { return -o; }, true });
	ops.push_back({ "=cofactors", any, [](M& m) { m = m.cofactors(); }, cofactorsO, true });
	ops.push_back({ "=adjoint", any, [](M& m) { m = m.adjoint(); }, adjointO, true });
	for (int k : { 0, 5 }) for (R v : { R(0), R(1) }) { static const char* nm[2][16] = { { "data[0]=0, optimize", "data[1]=0, optimize", "data[2]=0, optimize", "data[3]=0, optimize", "data[4]=0, optimize", "data[5]=0, optimize", "data[6]=0, optimize", "data[7]=0, optimize", "data[8]=0, optimize" }, { "data[0]=1, optimize", "data[1]=1, optimize", "data[2]=1, optimize", "data[3]=1, optimize", "data[4]=1, optimize", "data[5]=1, optimize", "data[6]=1, optimize", "data[7]=1, optimize", "data[8]=1, optimize" } }; ops.push_back({ nm[v != 0][k], any, [k, v](M& m) { m.data()[k] = v; m.optimize(); }, [k, v](const OM& o) { OM r = o; r.a[k % 3][k / 3] = E(v); return r; }, true }); }
	ops.push_back({ "setIdentity", any, [](M& m) { m.setIdentity(); }, [](const OM&) { return OM::identity(3); }, true });
	ops.push_back({ "optimize", any, [](M& m) { m.optimize(); }, [](const OM& o) { return o; }, true });
	ops.push_back({ "orthonormalise", rotation3, [](M& m) { m.orthonormalise(); }, [](const OM& o) { return o; }, true });
	auto partners = pick<M>({ lin(3, { 2, 1, 0, 1, 3, -1, 0, 1, 1 }), rotO(3, 1, P / 2), lin(3, { -1, 0, 0, 0, 1, 0, 0, 0, 1 }), OM::identity(3), lin(3, { 1, 0.6, 0, 0, 0.8, 0, 0, 0, 1 }), lin(3, { 0, 2, 0, -2, 0, 0, 0, 0, 3 }) });
	auto starts = pick<M>({ OM::identity(3), OM(3), lin(3, { 2, 1, 0, 1, 3, -1, 0, 1, 1 }), rotO(3, 2, P / 2), lin(3, { 1, 0.6, 0, 0, 0.8, 0, 0, 0, 1 }) });
	for (R k : { R(0), R(1), R(-1), R(2) }) starts.push_back({ M(k), om(M(k)) });
	starts.push_back({ M::One, om(M::One) }); starts.push_back({ M::Zero, om(M::Zero) });
	search(ops, starts, partners, depth, 9, 6000000);
}

static void mat34(int depth)
{
	typedef Mat34<R> M; std::vector<Op<M>> ops;
	section("Mat34 histories");
	const LD P = acosl(-1.0L);
	OM g1 = rotO(4, 0, P / 2); g1.a[1][3] = E(1);
	OM g2 = scaleO(4, 2, 1, 0.5L); g2.a[0][3] = E(-2);
	OM g3 = lin(4, { 1, 0.6, 0, 0, 0.8, 0, 0, 0, 1 });
#define MULPOST(m, g) m *= g
	MULOP(M, "*=rigid", g1) MULOP(M, "*=scaled", g2) MULOP(M, "*=unitshear", g3) MULOP(M, "*=one", OM::identity(4))
#undef MULPOST
	for (int which = 0; which < 3; ++which)
	{
		OM g = snapO(which == 0 ? g1 : which == 1 ? g2 : OM::identity(4)); M gm = MT<M>::make(g);
		static const char* nm[] = { "transform(rigid)", "transform(scaled)", "transform(one)" };
		ops.push_back({ nm[which], any, [gm](M& m) { m.transform(gm); }, [g](const OM& o) { return g * o; }, false });
	}
	Mat3<R> r3 = MT<Mat3<R>>::make(snapO(rotO(3, 2, P / 2)));
	ops.push_back({ "transform(Mat3)", any, [r3](M& m) { m.transform(r3); }, [P](const OM& o) { return rotO(4, 2, P / 2) * o; }, false });
	ops.push_back({ "transformPre(Mat3)", any, [r3](M& m) { m.transformPre(r3); }, [P](const OM& o) { return o * rotO(4, 2, P / 2); }, false });
	ops.push_back({ "rotate", any, [](M& m) { m.rotate(Coord::Y, HALFPI); }, [P](const OM& o) { return rotO(4, 1, P / 2) * o; }, false });
	ops.push_back({ "rotatePre", any, [](M& m) { m.rotatePre(Coord::Y, HALFPI); }, [P](const OM& o) { return o * rotO(4, 1, P / 2); }, false });
	ops.push_back({ "rotateAxis0", any, [](M& m) { m.rotate(Vec3<R>(1, 1, 1), R(0)); }, [](const OM& o) { return o; }, false });
	ops.push_back({ "translate", any, [](M& m) { m.translate(Vec3<R>(1, 0, -1)); }, [](const OM& o) { return transO(1, 0, -1) * o; }, false });
	ops.push_back({ "translateBack", any, [](M& m) { m.translate(Vec3<R>(-1, 0, 1)); }, [](const OM& o) { return transO(-1, 0, 1) * o; }, false });
	ops.push_back({ "translatePre", any, [](M& m) { m.translatePre(Vec3<R>(0, 1, 0)); }, [](const OM& o) { return o * transO(0, 1, 0); }, false });
	ops.push_back({ "scalePre", any, [](M& m) { m.scalePre(Vec3<R>(2, 1, -1)); }, [](const OM& o) { return o * scaleO(4, 2, 1, -1); }, false });
	ops.push_back({ "uniform scale", any, [](M& m) { m.scale(Vec3<R>(R(0.5), R(0.5), R(0.5))); }, [](const OM& o) { return scaleO(4, 0.5L, 0.5L, 0.5L) * o; }, false });
	ops.push_back({ "invert", regular, [](M& m) { m.invert(); }, inverseO, false });
	ops.push_back({ "=-", any, [](M& m) { m = -m; }, [](const OM& o) { OM r = -o; r.a[3][3] = E(1); return r; }, false });
	ops.push_back({ "transpose", any, [](M& m) { m.transpose(); }, [](const OM& o) { OM r = o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = o.a[j][i]; return r; }, false });
	ops.push_back({ "optimize", any, [](M& m) { m.optimize(); }, [](const OM& o) { return o; }, true });
	for (int k : { 4, 10 }) for (R v : { R(0), R(1) }) { static const char* nm[2][16] = { { "data[0]=0, optimize", "data[1]=0, optimize", "data[2]=0, optimize", "data[3]=0, optimize", "data[4]=0, optimize", "data[5]=0, optimize", "data[6]=0, optimize", "data[7]=0, optimize", "data[8]=0, optimize", "data[9]=0, optimize", "data[10]=0, optimize", "data[11]=0, optimize" }, { "data[0]=1, optimize", "data[1]=1, optimize", "data[2]=1, optimize", "data[3]=1, optimize", "data[4]=1, optimize", "data[5]=1, optimize", "data[6]=1, optimize", "data[7]=1, optimize", "data[8]=1, optimize", "data[9]=1, optimize", "data[10]=1, optimize", "data[11]=1, optimize" } }; ops.push_back({ nm[v != 0][k], any, [k, v](M& m) { m.data()[k] = v; m.optimize(); }, [k, v](const OM& o) { OM r = o; r.a[k % 3][k / 3] = E(v); return r; }, true }); }
	ops.push_back({ "setIdentity", any, [](M& m) { m.setIdentity(); }, [](const OM&) { return OM::identity(4); }, true });
	auto partners = pick<M>({ g1, g2, g3, OM::identity(4), transO(1, 2, 3) });
	auto starts = pick<M>({ OM::identity(4), lin(4, { 0, 0, 0, 0, 0, 0, 0, 0, 0 }), g1, g2, g3, transO(0, 0, 1) });
	for (R k : { R(0), R(1), R(-1), R(2) }) starts.push_back({ M(k), om(M(k)) });
	starts.push_back({ M::One, om(M::One) }); starts.push_back({ M::Zero, om(M::Zero) });
	search(ops, starts, partners, depth, 9, 6000000);
}

static void mat4(int depth)
{
	typedef Mat4<R> M; std::vector<Op<M>> ops;
	section("Mat4 histories");
	const LD P = acosl(-1.0L);
	OM g1 = rotO(4, 0, P / 2); g1.a[1][3] = E(1);
	OM g2 = scaleO(4, 2, 1, 0.5L); g2.a[0][3] = E(-2);
	OM g3 = lin(4, { 1, 0.6, 0, 0, 0.8, 0, 0, 0, 1 });
	OM g4(4); for (int i = 0; i < 4; ++i) g4.a[(i + 1) % 4][i] = E(1); // orthonormal, not affine
	OM g5 = OM::identity(4); g5.a[3][2] = E(1);                       // projective
	OM g6 = OM::identity(4); g6.a[3][3] = E(-1);
#define MULPOST(m, g) m.transformPre(g)
	MULOP(M, "*=rigid", g1) MULOP(M, "*=scaled", g2) MULOP(M, "*=unitshear", g3) MULOP(M, "*=cycle", g4) MULOP(M, "*=projective", g5) MULOP(M, "*=-w", g6) MULOP(M, "*=one", OM::identity(4))
#undef MULPOST
	for (int which = 0; which < 4; ++which)
	{
		OM g = snapO(which == 0 ? g1 : which == 1 ? g2 : which == 2 ? g4 : OM::identity(4)); M gm = MT<M>::make(g);
		static const char* nm[] = { "transform(rigid)", "transform(scaled)", "transform(cycle)", "transform(one)" };
		ops.push_back({ nm[which], any, [gm](M& m) { m.transform(gm); }, [g](const OM& o) { return g * o; }, false });
	}
	for (R k : { R(2), R(0.5), R(-1), R(1) }) ops.push_back({ k == 2 ? "*=2" : k == 1 ? "*=1" : k < 0 ? "*=-1" : "*=0.5", any, [k](M& m) { m *= k; }, [k](const OM& o) { return o * E(k); }, k != 1 });
	ops.push_back({ "/=2", any, [](M& m) { m /= R(2); }, [](const OM& o) { return o / E(2); }, true });
	ops.push_back({ "rotate", any, [](M& m) { m.rotate(Coord::Y, HALFPI); }, [P](const OM& o) { return rotO(4, 1, P / 2) * o; }, false });
	ops.push_back({ "rotatePre", any, [](M& m) { m.rotatePre(Coord::Z, HALFPI); }, [P](const OM& o) { return o * rotO(4, 2, P / 2); }, false });
	ops.push_back({ "=rotated", any, [](M& m) { m = m.rotated(Vec3<R>(0, 0, 2), HALFPI); }, [P](const OM& o) { return rotO(4, 2, P / 2) * o; }, false });
	ops.push_back({ "rotateAxis0", any, [](M& m) { m.rotate(Vec3<R>(1, 1, 1), R(0)); }, [](const OM& o) { return o; }, false });
	ops.push_back({ "translate", affine, [](M& m) { m.translate(Vec3<R>(1, 0, -1)); }, [](const OM& o) { return transO(1, 0, -1) * o; }, false });
	ops.push_back({ "translateBack", affine, [](M& m) { m.translate(Vec3<R>(-1, 0, 1)); }, [](const OM& o) { return transO(-1, 0, 1) * o; }, false });
	ops.push_back({ "=translated", affine, [](M& m) { m = m.translated(Vec3<R>(0, 2, 0)); }, [](const OM& o) { return transO(0, 2, 0) * o; }, true });
	ops.push_back({ "translatePre", affine, [](M& m) { m.translatePre(Vec3<R>(0, 1, 0)); }, [](const OM& o) { return o * transO(0, 1, 0); }, false });
	ops.push_back({ "scalePre", affine, [](M& m) { m.scalePre(Vec3<R>(2, 1, -1)); }, [](const OM& o) { return o * scaleO(4, 2, 1, -1); }, false });
	ops.push_back({ "=scaledPre", affine, [](M& m) { m = m.scaledPre(Vec3<R>(1, R(0.5), 1)); }, [](const OM& o) { return o * scaleO(4, 1, 0.5L, 1); }, true });
	ops.push_back({ "uniform scale", affine, [](M& m) { m.scale(Vec3<R>(R(0.5), R(0.5), R(0.5))); }, [](const OM& o) { return scaleO(4, 0.5L, 0.5L, 0.5L) * o; }, false });
	ops.push_back({ "invert", regular, [](M& m) { m.invert(); }, inverseO, false });
	ops.push_back({ "=inversed", regular, [](M& m) { m = m.inversed(); }, inverseO, false });
	ops.push_back({ "transpose", any, [](M& m) { m.transpose(); }, transposeO, true });
	ops.push_back({ "=transposed", any, [](M& m) { m = m.transposed(); }, transposeO, true });
	ops.push_back({ "=-", any, [](M& m) { m = -m; }, [](const OM& o) { return -o; }, true });
	ops.push_back({ "orthonormalise", rotation3, [](M& m) { m.orthonormalise(); }, [](const OM& o) { return o; }, true });
	ops.push_back({ "optimize", any, [](M& m) { m.optimize(); }, [](const OM& o) { return o; }, true });
	for (int k : { 3, 5 }) for (R v : { R(0), R(1) }) { static const char* nm[2][16] = { { "data[0]=0, optimize", "data[1]=0, optimize", "data[2]=0, optimize", "data[3]=0, optimize", "data[4]=0, optimize", "data[5]=0, optimize", "data[6]=0, optimize", "data[7]=0, optimize", "data[8]=0, optimize", "data[9]=0, optimize", "data[10]=0, optimize", "data[11]=0, optimize", "data[12]=0, optimize", "data[13]=0, optimize", "data[14]=0, optimize", "data[15]=0, optimize" }, { "data[0]=1, optimize", "data[1]=1, optimize", "data[2]=1, optimize", "data[3]=1, optimize", "data[4]=1, optimize", "data[5]=1, optimize", "data[6]=1, optimize", "data[7]=1, optimize", "data[8]=1, optimize", "data[9]=1, optimize", "data[10]=1, optimize", "data[11]=1, optimize", "data[12]=1, optimize", "data[13]=1, optimize", "data[14]=1, optimize", "data[15]=1, optimize" } }; ops.push_back({ nm[v != 0][k], any, [k, v](M& m) { m.data()[k] = v; m.optimize(); }, [k, v](const OM& o) { OM r = o; r.a[k % 4][k / 4] = E(v); return r; }, true }); }
	ops.push_back({ "setIdentity", any, [](M& m) { m.setIdentity(); }, [](const OM&) { return OM::identity(4); }, true });
	auto partners = pick<M>({ g1, g2, g3, g4, g5, OM::identity(4), transO(1, 2, 3) });
	auto starts = pick<M>({ OM::identity(4), OM(4), g1, g2, g3, g4, g5, g6, transO(0, 0, 1) });
	for (R k : { R(0), R(1), R(-1), R(2) }) starts.push_back({ M(k), om(M(k)) });
	starts.push_back({ M::One, om(M::One) }); starts.push_back({ M::Zero, om(M::Zero) });
	search(ops, starts, partners, depth, 9, 6000000);
}

// ---- the documented tolerance: inside the band a matrix may be taken for the ideal one, the error stays below the tolerance;
//      outside the band nothing is taken for anything.  optimize(&tolerance) uses the caller's thresholds.
template <class M> bool taken_for_identity(const M& m) { return m.isIdentity(); }
static bool taken_for_identity(const Mat34<R>& m) { return m.rs.isIdentity(); }
template <class M> void band()
{
	section(SITE(" tolerance band"));
	const int n = MT<M>::n, rows = MT<M>::rows;
	std::vector<OM> bases = { OM::identity(n) };
	if (n == 2) bases.push_back(rot2O(1.1L)); else { bases.push_back(rotAxisO(n, 1, 2, 3, 1.1L)); OM t = rotO(n, 2, 0.5L); if (n == 4) t.a[0][3] = E(3); bases.push_back(t); }
	std::vector<LD> ds = { 1e-5L, 0.002L, 0.005L, 0.01L, 0.0155L, 0.0165L, 0.02L, 0.022L, 0.025L, 0.03L, 0.032L, 0.035L, 0.05L, 0.2L };
	Tol tols[] = { { R(0.001), R(0.001), R(0.001) }, { R(0.1), R(0.1), R(0.1) }, { R(1e-5), R(1e-5), R(1e-5) }, { R(0.1), R(0.001), R(0.001) }, { R(0.001), R(0.1), R(0.001) }, { R(0.1), R(0.1), R(0.0001) }, { R(10), R(10), R(10) } };
	OM po = OM::identity(n); for (int i = 0; i < std::min(n, 3); ++i) for (int j = 0; j < n; ++j) po.a[i][j] = E((LD)((i * 5 + j * 3) % 7 - 2)); M p = MT<M>::make(po); po = om(p);
	for (auto& b : bases)
		for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) for (int i2 = 0; i2 < rows; ++i2) for (int j2 = 0; j2 < n; ++j2)
			for (LD d : ds) for (LD s : { 1.0L, -1.0L })
			{
				state();
				OM o = b; o.a[i][j].v += d * s; if (i2 != i || j2 != j) o.a[i2][j2].v += d;
				M m = MT<M>::make(o); o = om(m);
				sound(m, DEF, "set"); complete(m, DEF, "set");
				M x = m * p, y = p * m;
				LD ex = maxdiff(x, o * po), ey = maxdiff(y, po * o);
				// |error| of taking m for the identity is at most sqrt(tolerance) per entry, times the other factor
				LD lim = taken_for_identity(m) ? sqrtl(0.0011L) * mag(po) * 4 : 64 * eps<R>() * mag(po) * mag(o) * 4;
				MC_CHECK(ex <= lim && ey <= lim, SITE(" product within the tolerance"), "m=" << m << " p=" << p << " errors " << (double)ex << " " << (double)ey << " limit " << (double)lim);
				for (auto& t : tols)
				{
					M q = m; q.optimize(&t);
					sound(q, t, "optimize(tolerance)"); complete(q, t, "optimize(tolerance)");
					MC_CHECK(samem(q, m), SITE("::optimize changes the value"), "m=" << m);
				}
				trace();
				sample([&](std::ostream& s) { s << m << " " << flagsOf(m); });
			}
}

// matrices of every size of entry: soundness, completeness and measures
template <class M> void everySize()
{
	section(SITE(" entries of every size"));
	const int n = MT<M>::n, rows = MT<M>::rows;
	OM bases[3] = { OM::identity(n), OM::identity(n), OM::identity(n) };
	bases[1] = n == 2 ? rot2O(1.1L) : rotAxisO(n, 1, 2, 3, 1.1L);
	for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) bases[2].a[i][j] = E((LD)((i * 5 + j * 3) % 7 - 2) * 0.40625L);
	if (n == 4 && rows == 4) { bases[2].a[3][0] = bases[2].a[3][1] = bases[2].a[3][2] = E(0); bases[2].a[3][3] = E(1); }
	for (auto& b : bases)
		for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) for (R v : ladder<R>())
		{
			state();
			OM o = b; o.a[i][j] = E((LD)v); M m = MT<M>::make(o);
			sound(m, DEF, "set"); complete(m, DEF, "set");
			for (int k = 0; k < rows; ++k) if (k != i) { OM q = o; q.a[k][j] = E((LD)v * 0.5L); M m2 = MT<M>::make(q); sound(m2, DEF, "set"); complete(m2, DEF, "set"); }
			trace();
		}
}

// scaling by every size of coefficient, in place and pure
template <class M> void scalings()
{
	section(SITE(" scaling by every size"));
	enum { N = MT<M>::n }; typedef typename MT<M>::V V;
	OM bases[3] = { OM::identity(N), N == 2 ? rot2O(1.1L) : rotAxisO(N, 1, 2, 3, 1.1L), OM::identity(N) };
	for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) bases[2].a[i][j] = E((LD)((i * 5 + j * 3) % 7 - 2) * 0.40625L);
	for (auto& b : bases) star<R>(N, [&](const R* p)
	{
		state(); M m = MT<M>::make(b); OM o = om(m), w = o; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) w.a[i][j] = o.a[i][j] * E(p[j]);
		V c = Dim<V>::make(p); M q = m.scaled(c); M& r = m.scale(c); MC_CHECK(&r == &m, SITE("::scale returns *this"), m);
		for (const M* x : { (const M*)&m, (const M*)&q }) { MC_CHECK(nearm(*x, w, 16), x == &m ? SITE("::scale") : SITE("::scaled"), "m=" << MT<M>::make(b) << " by " << c << " got " << *x << " want " << w); LD big = 0; for (int i = 0; i < N; ++i) big = std::max(big, fabsl((LD)p[i])); if (big < 1000) sound(*x, DEF, "scale"); }
		trace();
	});
}

void explore()
{
	scalings<Mat2<R>>(); scalings<Mat3<R>>();
	everySize<Mat2<R>>(); everySize<Mat3<R>>(); everySize<Mat34<R>>(); everySize<Mat4<R>>();
	mat2(thorough() ? 6 : 4);
	mat3(thorough() ? 5 : 3);
	mat34(thorough() ? 5 : 3);
	mat4(thorough() ? 5 : 3);
	band<Mat2<R>>(); band<Mat3<R>>(); band<Mat34<R>>(); band<Mat4<R>>();
	section("default construction");
	state();
	MC_CHECK(!Mat2<R>().isInitialized() && !Mat3<R>().isInitialized() && !Mat4<R>().isInitialized() && !Mat34<R>().isInitialized(), "default constructed matrices are uninitialised", "");
	trace();
}
