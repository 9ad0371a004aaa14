// C03: matrix products, matrix-vector products, scalar products; in-place and pure forms agree, also when aliased
#include "mats.h"
typedef MC_REAL R;

#define NM(site, got, want) do { auto mc_g = (got); OM mc_w = (want); MC_CHECK(nearm(mc_g, mc_w), std::string(T::name()) + site, "a=" << a << " b=" << b << " got " << mc_g << " want " << mc_w); } while (0)
#define NV(site, got, want) do { auto mc_g = (got); auto mc_w = (want); MC_CHECK(nearv(mc_g, mc_w), std::string(T::name()) + site, "a=" << a << " v=" << v << " got " << mc_g << " want " << mc_w); } while (0)
#define OK(site, cond) MC_CHECK(cond, std::string(T::name()) + site, "a=" << a << " b=" << b)

// in-place products (this = this*b) and (this = b*this)
template <class M> struct InPlace;
template <> struct InPlace<Mat2<R>> {
	static bool post(Mat2<R>& m, const Mat2<R>& b) { m *= b; return true; }
	static bool pre(Mat2<R>&, const Mat2<R>&) { return false; } };
template <> struct InPlace<Mat3<R>> {
	static bool post(Mat3<R>& m, const Mat3<R>& b) { m *= b; return true; }
	static bool pre(Mat3<R>& m, const Mat3<R>& b) { m.rotate(b); return true; } };
template <> struct InPlace<Mat34<R>> {
	static bool post(Mat34<R>& m, const Mat34<R>& b) { m *= b; return true; }
	static bool pre(Mat34<R>& m, const Mat34<R>& b) { m.transform(b); return true; } };
template <> struct InPlace<Mat4<R>> {
	static bool post(Mat4<R>& m, const Mat4<R>& b) { m.transformPre(b); return true; }
	static bool pre(Mat4<R>& m, const Mat4<R>& b) { m.transform(b); return true; } };

static void extra(const Mat2<R>&, const Mat2<R>&, const OM&, const OM&) {}
static void extra(const Mat3<R>& a, const Mat3<R>& b, const OM& oa, const OM& ob)
{
	typedef MT<Mat3<R>> T;
	NM("::rotated(Mat3)", a.rotated(b), ob * oa);
	NM("::rotatedPre(Mat3)", a.rotatedPre(b), oa * ob);
	Mat3<R> m = a; Mat3<R>& r = m.rotatePre(b); NM("::rotatePre(Mat3)", m, oa * ob); OK("::rotatePre(Mat3) returns *this", &r == &m);
	m = a; Mat3<R>& q = m.rotate(b); OK("::rotate(Mat3) returns *this", &q == &m);
}
static void extra(const Mat34<R>& a, const Mat34<R>& b, const OM& oa, const OM& ob)
{
	typedef MT<Mat34<R>> T;
	Mat34<R> m = a; Mat34<R>& r = m.transformPre(b); NM("::transformPre(Mat34)", m, oa * ob); OK("::transformPre returns *this", &r == &m);
	// Mat34 x Mat3
	OM ol = om(Mat34<R>(b.rs));
	NM("*Mat3", a * b.rs, oa * ol);
	m = a; m *= b.rs; NM("*=Mat3", m, oa * ol);
	m = a; m.transformPre(b.rs); NM("::transformPre(Mat3)", m, oa * ol);
	m = a; m.transform(b.rs); NM("::transform(Mat3)", m, ol * oa);
	// with its own linear part
	m = a; OM os = om(Mat34<R>(a.rs));
	m.transformPre(m.rs); NM("::transformPre(own linear part)", m, oa * os);
	m = a; m *= m.rs; NM("*=(own linear part)", m, oa * os);
	m = a; m.transform(m.rs); NM("::transform(own linear part)", m, os * oa);
}
static void extra(const Mat4<R>& a, const Mat4<R>& b, const OM& oa, const OM& ob)
{
	typedef MT<Mat4<R>> T;
	NM("::transformed", a.transformed(b), ob * oa);
	NM("::transformedPre", a.transformedPre(b), oa * ob);
}

template <class M> void one_pair(const M& a, const M& b, const OM& oa, const OM& ob)
{
	typedef MT<M> T;
	state();
	OM w = oa * ob;
	NM("*", a * b, w);
	M d = b; M::multiply(d, a, b); NM("::multiply", d, w);
	d = M(R(1)); M::multiply(d, a, b); NM("::multiply(over identity)", d, w);
	M m = a; if (InPlace<M>::post(m, b)) NM("::in-place post-multiplication", m, w);
	m = b; if (InPlace<M>::pre(m, a)) NM("::in-place pre-multiplication", m, w);
	extra(a, b, oa, ob);
	OK("==", (a == b) == samem(a, b));
	OK("!=", (a != b) == !samem(a, b));
	trace();
	sample([&](std::ostream& s) { s << a << " x " << b; });
}
template <class M> void self(const M& a, const OM& oa)
{
	typedef MT<M> T;
	M b = a;
	state();
	OM w = oa * oa;
	M m = a; if (InPlace<M>::post(m, m)) NM("::in-place product with itself", m, w);
	m = a; if (InPlace<M>::pre(m, m)) NM("::in-place pre-product with itself", m, w);
	M c = a; m = c; OK("=copy", samem(m, a) && m == a && !(m != a));
	m = m; OK("=self", samem(m, a));
	m.set(m); OK("::set(self)", samem(m, a));
	NM("-", -a, -oa);
	trace();
}
template <class M> void scalars(const M& a, const OM& oa, const std::vector<R>& ks = { R(0), R(1), R(-1), R(2), R(0.5), R(-3), R(0.1), R(1000), R(1e-3) })
{
	typedef MT<M> T;
	for (R k : ks)
	{
		state();
		M b = M(k);
		NM("*k", a * k, oa * E(k));
		M m = a; M& r = (m *= k); NM("*=k", m, oa * E(k)); OK("*=k returns *this", &r == &m);
		if (k != 0)
		{
			NM("/k", a / k, oa / E(k));
			m = a; M& q = (m /= k); NM("/=k", m, oa / E(k)); OK("/=k returns *this", &q == &m);
		}
		else
			NM("/0 is zero", a / k, OM(MT<M>::n));
		trace();
	}
}
template <> void scalars<Mat34<R>>(const Mat34<R>&, const OM&, const std::vector<R>&) {}

template <class M> void equality()
{
	// == and != see every single entry
	typedef MT<M> T;
	section(std::string(T::name()) + " equality");
	for (auto& c : catalogueM<M>())
		for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j)
		{
			state();
			OM o = c.second; o.a[i][j].v += 0.5L + fabsl(o.a[i][j].v);
			M a = c.first, b = MT<M>::make(o);
			OK("== sees each entry", !(a == b) && (a != b) && !(b == a) && (b != a) && a == a && !(a != a) && b == b && !(b != b));
			trace();
		}
}

template <class M> void elementary()
{
	// bilinearity: products of single-entry matrices determine the product completely
	typedef MT<M> T;
	section(std::string(T::name()) + " elementary products");
	const int n = MT<M>::n, rows = MT<M>::rows;
	for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < rows; ++k) for (int l = 0; l < n; ++l)
		for (LD s : { 1.0L, -1.0L, 2.0L, 0.3L })
		{
			OM p(n), q(n); p.a[i][j] = E(s); q.a[k][l] = E(3.0L - s);
			M a = MT<M>::make(p), b = MT<M>::make(q);
			one_pair(a, b, om(a), om(b));
			// and perturbations of the identity by one entry (identity shortcuts)
			OM u = OM::identity(n), v = OM::identity(n); u.a[i][j].v += s; v.a[k][l].v += 3.0L - s;
			a = MT<M>::make(u); b = MT<M>::make(v);
			one_pair(a, b, om(a), om(b));
		}
}

static void vec_extra(const Mat2<R>& a, const OM& o, const Vec2<R>& v, const EV<2>& e)
{
	typedef MT<Mat2<R>> T;
	NV(" Vec*Mat", v * a, e * o); Vec2<R> u = v; Vec2<R>& r = (u *= a); NV(" Vec*=Mat", u, e * o); MC_CHECK(&r == &u, "Vec2*=Mat2 returns *this", "");
}
static void vec_extra(const Mat3<R>& a, const OM& o, const Vec3<R>& v, const EV<3>& e)
{
	typedef MT<Mat3<R>> T;
	NV(" Vec*Mat", v * a, e * o); Vec3<R> u = v; Vec3<R>& r = (u *= a); NV(" Vec*=Mat", u, e * o); MC_CHECK(&r == &u, "Vec3*=Mat3 returns *this", "");
}
static void vec_extra(const Mat4<R>& a, const OM& o, const Vec4<R>& v, const EV<4>& e)
{
	typedef MT<Mat4<R>> T;
	EV<4> e0 = e; e0[3] = E(0); // transformVector leaves the translation column out
	Vec4<R> d(9, 9, 9, 9); a.transformVector(d, v); NV("::transformVector(Vec4)", d, o * e0);
	d = v; a.transformVector(d, d); NV("::transformVector(Vec4) in place", d, o * e0);
}
template <class M> void one_vector(const M& a, const OM& o, const typename MT<M>::V& v)
{
	typedef MT<M> T; typedef typename T::V V; auto e = ev(v);
	state();
	auto w = o * e;
	NV(" Mat*Vec", a * v, w);
	V d(v); a.transform(d, v); NV("::transform", d, w);
	V u = v; a.transform(u, u); NV("::transform in place", u, w);
	vec_extra(a, o, v, e);
	trace();
}
template <class M> void one_point(const M& a, const OM& o, const Vec3<R>& v)
{
	typedef MT<M> T;
	state();
	EV<4> e; for (int i = 0; i < 3; ++i) e[i] = E(comp(v, i)); e[3] = E(1);
	EV<4> w4 = o * e; EV<3> w; for (int i = 0; i < 3; ++i) w[i] = w4[i];
	NV(" Mat*point", a * v, w);
	Vec3<R> d; a.transform(d, v); NV("::transform(Vec3)", d, w);
	d = v; a.transform(d, d); NV("::transform(Vec3) in place", d, w);
	trace();
}
static void one_direction(const Mat4<R>& a, const OM& o, const Vec3<R>& v)
{
	typedef MT<Mat4<R>> T;
	state();
	EV<4> f; for (int i = 0; i < 3; ++i) f[i] = E(comp(v, i)); f[3] = E(0);
	EV<4> d4 = o * f; EV<3> w; for (int i = 0; i < 3; ++i) w[i] = d4[i];
	Vec3<R> d; a.transformVector(d, v); NV("::transformVector(Vec3)", d, w);
	d = v; a.transformVector(d, d); NV("::transformVector(Vec3) in place", d, w);
	trace();
}
template <class M> void vectors(const std::vector<R>& vals)
{
	typedef MT<M> T; typedef typename T::V V; const int N = T::n;
	section(std::string(T::name()) + " times vector");
	auto cat = catalogueM<M>();
	tuples(vals, N, [&](const R* p) {
		V v = Dim<V>::make(p);
		for (auto& c : cat) one_vector(c.first, c.second, v);
		sample([&](std::ostream& s) { s << v << " through " << cat.size() << " matrices"; });
	});
}
template <class M> void points(const std::vector<R>& vals)
{
	// Mat34 / Mat4 applied to points (w = 1) and directions (w = 0)
	typedef MT<M> T;
	section(std::string(T::name()) + " times point");
	auto cat = catalogueM<M>();
	tuples(vals, 3, [&](const R* p) {
		Vec3<R> v = mk3(p);
		for (auto& c : cat) one_point(c.first, c.second, v);
	});
}
static void directions(const std::vector<R>& vals)
{
	typedef MT<Mat4<R>> T;
	section("Mat4 times direction");
	auto cat = catalogueM<Mat4<R>>();
	tuples(vals, 3, [&](const R* p) {
		Vec3<R> v = mk3(p);
		for (auto& c : cat) one_direction(c.first, c.second, v);
	});
}

template <class M> void products(int exhaustive_dim)
{
	typedef MT<M> T;
	auto cat = catalogueM<M>();
	section(std::string(T::name()) + " catalogue products");
	for (auto& p : cat) for (auto& q : cat) one_pair(p.first, q.first, p.second, q.second);
	section(std::string(T::name()) + " self products and scalars");
	for (auto& p : cat) { self(p.first, p.second); scalars(p.first, p.second); }
	elementary<M>();
	equality<M>();
}

// ---- every constructor and setter from columns puts them where they belong; [] reads and writes the named column
static Vec2<R> c2(const OM& o, int c) { return Vec2<R>((R)o.a[0][c].v, (R)o.a[1][c].v); }
static Vec3<R> c3(const OM& o, int c) { return Vec3<R>((R)o.a[0][c].v, (R)o.a[1][c].v, (R)o.a[2][c].v); }
static Vec4<R> c4(const OM& o, int c) { return Vec4<R>((R)o.a[0][c].v, (R)o.a[1][c].v, (R)o.a[2][c].v, (R)o.a[3][c].v); }
#define EL(site, got) do { auto mc_g = (got); state(); trace(); MC_CHECK(samem(mc_g, om_) && mc_g.isInitialized(), std::string(T::name()) + site, "columns " << o << " got " << mc_g); } while (0)
template <class M> bool samem(const M& m, const OM& o) { for (int i = 0; i < o.n; ++i) for (int j = 0; j < o.n; ++j) if (!(MT<M>::get(m, i, j) == (R)o.a[i][j].v)) return false; return true; }
template <class M> OM withT(const OM& o, LD x, LD y, LD z) { OM r = o; r.a[0][3] = E(x); r.a[1][3] = E(y); r.a[2][3] = E(z); for (int j = 0; j < 4; ++j) r.a[3][j] = E(j == 3); return r; }
static void access()
{
	std::vector<R> mark = { 1, 2, -3, 4, R(-5.5), 6, 7, R(0.8), 9, -10, 11, 12, 13, R(1.4), 15, 16 };
	auto list = [&](auto cat, int n) { std::vector<OM> l; for (auto& p : cat) l.push_back(p.second); OM o(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o.a[i][j] = E(mark[i + n * j]); l.push_back(o); return l; };
	{
		typedef Mat2<R> M; typedef MT<M> T; section("Mat2 element access");
		for (auto& o : list(catalogueM<M>(), 2))
		{
			const OM& om_ = o; Vec2<R> x = c2(o, 0), y = c2(o, 1); M m(9);
			EL("(x,y)", M(x, y)); EL("::from(x,y)", M::from(x, y)); EL("::set(x,y)", m.set(x, y)); EL("::set(x,y) target", m); M k; EL("::set(Mat2)", k.set(m)); EL("(Mat2)", M(m)); EL("=", (k.setIdentity(), k = m));
		}
	}
	{
		typedef Mat3<R> M; typedef MT<M> T; section("Mat3 element access");
		for (auto& o : list(catalogueM<M>(), 3))
		{
			const OM& om_ = o; Vec3<R> x = c3(o, 0), y = c3(o, 1), z = c3(o, 2); M m(9);
			EL("(x,y,z)", M(x, y, z)); EL("::from(x,y,z)", M::from(x, y, z)); EL("::set(x,y,z)", m.set(x, y, z)); EL("::set(x,y,z) target", m); M k; EL("::set(Mat3)", k.set(m)); EL("(Mat3)", M(m)); EL("=", (k.setIdentity(), k = m));
		}
	}
	Vec3<R> t(R(-7), R(0.25), R(31));
	for (auto& full : list(catalogueM<Mat4<R>>(), 4))
	{
		OM o = full; Vec3<R> x = c3(o, 0), y = c3(o, 1), z = c3(o, 2), tt = c3(o, 3); Mat3<R> l(x, y, z);
		OM a = withT<void>(o, tt.x, tt.y, tt.z), b = withT<void>(o, 0, 0, 0);
		{
			typedef Mat34<R> M; typedef MT<M> T; section("Mat34 element access");
			{ const OM& om_ = a; M m(9); EL("(x,y,z,t)", M(x, y, z, tt)); EL("::from(x,y,z,t)", M::from(x, y, z, tt)); EL("::set(x,y,z,t)", m.set(x, y, z, tt)); EL("::set(x,y,z,t) target", m); EL("(Mat3,t)", M(l, tt)); M k(8); EL("::set(Mat3,t)", k.set(l, tt)); M c; EL("::set(Mat34)", c.set(m)); EL("(Mat34)", M(m)); EL("=", (c.setIdentity(), c = m));
			  const M& cm = m; for (int i = 0; i < 3; ++i) MC_CHECK(same(cm[(Coord)i], c3(o, i)) && same(m[(Coord)i], c3(o, i)), "Mat34[]", m << " column " << i << " got " << cm[(Coord)i]);
			  for (int i = 0; i < 3; ++i) { M w = m; w[(Coord)i] = t; OM e = a; e.a[0][i] = E(t.x); e.a[1][i] = E(t.y); e.a[2][i] = E(t.z); MC_CHECK(samem(w, e), "Mat34[] writes the column", m << " column " << i << " got " << w); } }
			{ const OM& om_ = b; M m(9); EL("::set(x,y,z)", m.set(x, y, z)); M k(8); EL("::set(Mat3)", k.set(l)); EL("(Mat3)", M(l)); }
		}
		{
			typedef Mat4<R> M; typedef MT<M> T; section("Mat4 element access");
			{ const OM& om_ = a; M m(9); EL("(Vec3 x,y,z,t)", M(x, y, z, tt)); EL("::from(Vec3 x,y,z,t)", M::from(x, y, z, tt)); EL("::set(Vec3 x,y,z,t)", m.set(x, y, z, tt)); EL("::set(Vec3 x,y,z,t) target", m); EL("(Mat3,t)", M(l, tt)); M k(8); EL("::set(Mat3,t)", k.set(l, tt)); }
			{ const OM& om_ = b; M m(9); EL("(Vec3 x,y,z)", M(x, y, z)); EL("::from(Vec3 x,y,z)", M::from(x, y, z)); EL("::set(Vec3 x,y,z)", m.set(x, y, z)); EL("(Mat3)", M(l)); M k(8); EL("::set(Mat3)", k.set(l)); }
			{ const OM& om_ = o; Vec4<R> X = c4(o, 0), Y = c4(o, 1), Z = c4(o, 2), W = c4(o, 3); M m(9); EL("(x,y,z,t)", M(X, Y, Z, W)); EL("::from(x,y,z,t)", M::from(X, Y, Z, W)); EL("::set(x,y,z,t)", m.set(X, Y, Z, W)); EL("::set(x,y,z,t) target", m); M c; EL("::set(Mat4)", c.set(m)); EL("(Mat4)", M(m)); EL("=", (c.setIdentity(), c = m));
			  const M& cm = m; for (int i = 0; i < 3; ++i) MC_CHECK(same(cm[(Coord)i], c4(o, i)) && same(m[(Coord)i], c4(o, i)), "Mat4[]", m << " column " << i << " got " << cm[(Coord)i]);
			  for (int i = 0; i < 3; ++i) { M w = m; w[(Coord)i] = Vec4<R>(t.x, t.y, t.z, 5); OM e = o; e.a[0][i] = E(t.x); e.a[1][i] = E(t.y); e.a[2][i] = E(t.z); e.a[3][i] = E(5); MC_CHECK(samem(w, e), "Mat4[] writes the column", m << " column " << i << " got " << w); }
			  OM e = o; e.a[0][3] = e.a[1][3] = e.a[2][3] = E(0); e.a[3][3] = E(1); const OM& om2 = e; { const OM& om_ = om2; EL("(x,y,z)", M(X, Y, Z)); EL("::from(x,y,z)", M::from(X, Y, Z)); M d(4); EL("::set(x,y,z)", d.set(X, Y, Z)); } }
		}
		sample([&](std::ostream& s) { s << "columns of " << o; });
	}
}

// matrices and vectors whose entries climb the ladder one (or two) at a time
static void vec_ladders(const Mat34<R>& a, const OM& o, const R* v) { one_point(a, o, mk3(v)); }
static void vec_ladders(const Mat4<R>& a, const OM& o, const R* v) { one_point(a, o, mk3(v)); one_direction(a, o, mk3(v)); one_vector(a, o, mk4(v)); }
static void vec_ladders(const Mat3<R>& a, const OM& o, const R* v) { one_vector(a, o, mk3(v)); }
static void vec_ladders(const Mat2<R>& a, const OM& o, const R* v) { one_vector(a, o, mk2(v)); }
template <class M> static void ladders()
{
	const int n = MT<M>::n * MT<M>::rows;
	section(std::string(MT<M>::name()) + " product ladders");
	star<R>(2 * n, [&](const R* p) { M a = fromRow<M>(p), b = fromRow<M>(p + n); one_pair(a, b, om(a), om(b)); }, n < 10 || thorough());
	section(std::string(MT<M>::name()) + " scalar and self ladders");
	star<R>(n + 1, [&](const R* p) { M a = fromRow<M>(p); scalars(a, om(a), { p[n] }); self(a, om(a)); }, n < 10 || thorough());
	section(std::string(MT<M>::name()) + " vector ladders");
	star<R>(n + 4, [&](const R* p) { M a = fromRow<M>(p); vec_ladders(a, om(a), p + n); });
	section(std::string(MT<M>::name()) + " close to a special matrix");
	const R vs[][4] = { { 1, 2, 3, 1 }, { -40, 7, 0, 0 }, { R(0.5), -6, 90, 2 } };
	for (auto& c : nearSpecial<M>()) { state(); scalars(c.first, c.second, { R(2), R(-0.75), R(1) }); for (auto& v : vs) vec_ladders(c.first, c.second, v); }
}

void explore()
{
	access();
	ladders<Mat2<R>>(); ladders<Mat3<R>>(); ladders<Mat34<R>>(); ladders<Mat4<R>>();
	std::vector<R> v4 = { R(-3), R(0), R(1), R(0.7) }, v3 = { R(-3), R(-0.3), R(0), R(1), R(1000) };
	products<Mat2<R>>(2);
	products<Mat3<R>>(3);
	products<Mat34<R>>(4);
	products<Mat4<R>>(4);
	vectors<Mat2<R>>({ R(-1000), R(-3), R(-0.3), R(0), R(1), R(2.5), R(1e-3) });
	vectors<Mat3<R>>(v3);
	vectors<Mat4<R>>(v4);
	points<Mat34<R>>(v3);
	points<Mat4<R>>(v3);
	directions(v3);

	// every 2x2 matrix over a small integer set, all pairs
	std::vector<R> iv = thorough() ? std::vector<R>{ R(-2), R(-1), R(0), R(1), R(3) } : std::vector<R>{ R(-1), R(0), R(1), R(2) };
	std::vector<std::pair<Mat2<R>, OM>> all2;
	tuples(iv, 4, [&](const R* p) { Mat2<R> m(Vec2<R>(p[0], p[1]), Vec2<R>(p[2], p[3])); all2.push_back({ m, om(m) }); });
	section("Mat2 all pairs over small integers");
	for (auto& p : all2) for (auto& q : all2) one_pair(p.first, q.first, p.second, q.second);
	section("Mat2 all self products over small integers");
	for (auto& p : all2) { self(p.first, p.second); scalars(p.first, p.second); }
	// every 3x3 matrix over {-1,0,1}: against a catalogue and against itself
	section("Mat3 all matrices over {-1,0,1} against the catalogue");
	auto cat3 = catalogueM<Mat3<R>>();
	unsigned n = 0;
	tuples(std::vector<R>{ R(-1), R(0), R(1) }, 9, [&](const R* p) {
		Mat3<R> m(mk3(p), mk3(p + 3), mk3(p + 6)); OM o = om(m);
		self(m, o);
		size_t step = thorough() ? 1 : 13;
		for (size_t i = n++ % step; i < cat3.size(); i += step) { one_pair(m, cat3[i].first, o, cat3[i].second); if (thorough()) one_pair(cat3[i].first, m, cat3[i].second, o); }
	});
	if (thorough())
	{
		section("Mat3 all signed permutation and projection pairs");
		std::vector<std::pair<Mat3<R>, OM>> some;
		tuples(std::vector<R>{ R(-1), R(0), R(1) }, 9, [&](const R* p) {
			int nz = 0; for (int i = 0; i < 9; ++i) nz += p[i] != 0;
			if (nz > 3) return;
			Mat3<R> m(mk3(p), mk3(p + 3), mk3(p + 6)); some.push_back({ m, om(m) });
		});
		for (auto& p : some) for (auto& q : some) one_pair(p.first, q.first, p.second, q.second);
		section("Mat4 all matrices over {0,1} against the catalogue");
		auto cat4 = catalogueM<Mat4<R>>();
		unsigned k = 0;
		tuples(std::vector<R>{ R(0), R(1) }, 16, [&](const R* p) {
			Mat4<R> m(mk4(p), mk4(p + 4), mk4(p + 8), mk4(p + 12)); OM o = om(m);
			self(m, o);
			for (size_t i = k++ % 7; i < cat4.size(); i += 7) one_pair(m, cat4[i].first, o, cat4[i].second);
		});
	}
}
