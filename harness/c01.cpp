// C01: algebra of Vec2 / Vec3 / Vec4
#include "vecs.h"
typedef MC_REAL R;
// all tuples of the alphabet; together with the alphabets that are not scaled, also the ladders
template <class F> static void tuplesV(const std::vector<R>& v, size_t n, F f) { tuples(v, n, f); if (std::find(v.begin(), v.end(), R(1)) != v.end()) star<R>(n, f); }

static const Coord COORDS[4] = { Coord::X, Coord::Y, Coord::Z, Coord::W };

template <class V> R& at(V& v, int i);
template <> R& at(Vec2<R>& v, int i) { return i == 0 ? v.x : v.y; }
template <> R& at(Vec3<R>& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
template <> R& at(Vec4<R>& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }

#define EQ(site, got, want) do { auto mc_g = (got); auto mc_w = (want); MC_CHECK(nearv(mc_g, mc_w), site, "a=" << a << " b=" << b << " k=" << k << " got " << mc_g << " want " << mc_w); } while (0)
#define EQS(site, got, want) do { R mc_g = (got); E mc_w = (want); MC_CHECK(near(mc_g, mc_w), site, "a=" << a << " b=" << b << " k=" << k << " got " << mc_g << " want " << mc_w); } while (0)
#define OK(site, cond) MC_CHECK(cond, site, "a=" << a << " b=" << b << " k=" << k)

template <class V> void pair_ops(const V& a0, const V& b0)
{
	const int N = Dim<V>::n;
	const V a = a0, b = b0;
	const R k = 0;
	auto A = ev(a), B = ev(b);
	typedef decltype(A) EVN;
	EVN sum = A + B, dif = A - B, prod, mn, mx, neg;
	for (int i = 0; i < N; ++i)
	{
		prod[i] = A[i] * B[i];
		mn[i] = A[i].v < B[i].v ? A[i] : B[i];
		mx[i] = A[i].v > B[i].v ? A[i] : B[i];
		neg[i] = -A[i];
	}
	std::string n = "Vec" + std::to_string(N);
	bool eq = true;
	for (int i = 0; i < N; ++i) eq = eq && comp(a, i) == comp(b, i);
	static const std::string s_add = n + "::operator+", s_sub = n + "::operator-", s_neg = n + "::operator-()", s_dot = n + "::operator*(dot)",
		s_eq = n + "::operator==", s_ne = n + "::operator!=", s_prod = n + "::product", s_min = n + "::min", s_max = n + "::max",
		s_iadd = n + "::operator+=", s_isub = n + "::operator-=", s_arg = n + ": argument modified", s_self = n + ": self operand", s_set = n + "::set(v)";
	EQ(s_add, a + b, sum);
	EQ(s_sub, a - b, dif);
	EQ(s_neg, -a, neg);
	EQS(s_dot, a * b, dot(A, B));
	OK(s_eq, (a == b) == eq);
	OK(s_ne, (a != b) == !eq);
	EQ(s_prod, V::product(a, b), prod);
	EQ(s_min, V::min(a, b), mn);
	EQ(s_max, V::max(a, b), mx);
	V c = a;
	V& r1 = (c += b); EQ(s_iadd, c, sum); OK(s_iadd, &r1 == &c);
	c = a; V& r2 = (c -= b); EQ(s_isub, c, dif); OK(s_isub, &r2 == &c);
	c = a; c.set(b); OK(s_set, same(c, b));
	OK(s_arg, same(a, a0) && same(b, b0));
	c = a; c += c; EQ(s_self, c, A + A);
	c = a; c -= c; EQ(s_self, c, A - A);
	c = a; c.set(c); OK(s_self, same(c, a));
}

template <class V> void unary_ops(const V& a)
{
	const int N = Dim<V>::n;
	const V b = a;
	const R k = 0;
	auto A = ev(a);
	std::string n = "Vec" + std::to_string(N);
	static const std::string s_len = n + "::length", s_lensq = n + "::lengthSqr", s_null = n + "::isNull", s_copy = n + "::copy", s_data = n + "::data",
		s_moved = n + "::moved", s_setc = n + "::set(coord)", s_ctor = n + " constructors", s_cast = n + "::cast";
	EQS(s_len, a.length(), esqrt(dot(A, A)));
	EQS(s_lensq, a.lengthSqr(), dot(A, A));
	bool nul = true;
	for (int i = 0; i < N; ++i) nul = nul && comp(a, i) == 0;
	OK(s_null, a.isNull() == nul);
	OK(s_copy, same(a.copy(), a));
	V c = a;
	for (int i = 0; i < N; ++i) OK(s_data, a.data()[i] == comp(a, i) && c.data() + i == &at(c, i));
	for (int i = 0; i < N; ++i)
		for (R d : { R(0), R(1), R(-2.5), R(1000) })
		{
			auto M = A; M[i] = M[i] + E(d);
			EQ(s_moved, a.moved(COORDS[i], d), M);
			c = a; c.set(COORDS[i], d);
			for (int j = 0; j < N; ++j) OK(s_setc, comp(c, j) == (i == j ? d : comp(a, j)));
		}
	OK(s_copy, same(a, b));
	auto f = a.template cast<float>();
	auto g = a.template cast<double>();
	for (int i = 0; i < N; ++i) OK(s_cast, comp(f, i) == (float)comp(a, i) && comp(g, i) == (double)comp(a, i));
}

template <class V> void scalar_ops(const V& a, R k)
{
	const int N = Dim<V>::n;
	const V b = a;
	auto A = ev(a);
	std::string n = "Vec" + std::to_string(N);
	static const std::string s_mul = n + "::operator*(k)", s_div = n + "::operator/(k)", s_imul = n + "::operator*=(k)", s_idiv = n + "::operator/=(k)", s_al = n + ": own component as scalar";
	EQ(s_mul, a * k, A * E(k));
	V c = a; V& r = (c *= k); EQ(s_imul, c, A * E(k)); OK(s_imul, &r == &c);
	if (k != 0)
	{
		EQ(s_div, a / k, A / E(k));
		c = a; V& r2 = (c /= k); EQ(s_idiv, c, A / E(k)); OK(s_idiv, &r2 == &c);
	}
	for (int i = 0; i < N; ++i)
	{
		c = a; c *= at(c, i); EQ(s_al, c, A * A[i]);
		if (comp(a, i) != 0) { c = a; c /= at(c, i); EQ(s_al, c, A / A[i]); }
	}
}

template <class V> void coords_ops(const V& a) // Vec2, Vec3
{
	const int N = Dim<V>::n;
	const V b = a; const R k = 0;
	std::string n = "Vec" + std::to_string(N);
	static const std::string s_maj = n + "::majorCoord", s_min = n + "::minorCoord", s_idx = n + "::operator[]";
	R mx = 0, mn = std::numeric_limits<R>::max();
	for (int i = 0; i < N; ++i) { R f = std::fabs(comp(a, i)); if (f > mx) mx = f; if (f < mn) mn = f; }
	int M = (int)a.majorCoord(), m = (int)a.minorCoord();
	OK(s_maj, M >= 0 && M < N && std::fabs(comp(a, M)) == mx);
	OK(s_min, m >= 0 && m < N && std::fabs(comp(a, m)) == mn);
	V c = a;
	for (int i = 0; i < N; ++i)
	{
		OK(s_idx, a[COORDS[i]] == comp(a, i) && &c[COORDS[i]] == &at(c, i));
		c = a; c[COORDS[i]] = R(77);
		for (int j = 0; j < N; ++j) OK(s_idx, comp(c, j) == (i == j ? R(77) : comp(a, j)));
	}
}

template <class V> void sweep_pairs(const std::string& name, const std::vector<R>& vals)
{
	section(name);
	const int N = Dim<V>::n;
	tuples(vals, 2 * N, [&](const R* p) {
		state();
		V a = Dim<V>::make(p), b = Dim<V>::make(p + N);
		pair_ops(a, b);
		trace();
		sample([&](std::ostream& s) { s << "a=" << a << " b=" << b; });
	});
}

template <class V> void sweep_single(const std::string& name, const std::vector<R>& vals, const std::vector<R>& ks)
{
	section(name);
	const int N = Dim<V>::n;
	tuples(vals, N, [&](const R* p) {
		V a = Dim<V>::make(p);
		state();
		unary_ops(a);
		for (R k : ks) scalar_ops(a, k);
		trace();
		sample([&](std::ostream& s) { s << "a=" << a; });
	});
}

template <class V> void sweep_coords(const std::string& name, const std::vector<R>& vals)
{
	section(name);
	tuplesV(vals, Dim<V>::n, [&](const R* p) { state(); coords_ops(Dim<V>::make(p)); trace(); });
}

// the difference of two given points: its error is that of one rounding, however far away they lie
template <class V> static EV<Dim<V>::n> apart(const V& a, const V& b) { EV<Dim<V>::n> d; for (int i = 0; i < Dim<V>::n; ++i) d.c[i] = E((LD)comp(b, i) - (LD)comp(a, i)); return d; }
template <class V> static void distances()
{
	enum { N = Dim<V>::n }; const R k = 0;
	section(N == 2 ? "distances far from the origin, 2-D" : "distances far from the origin, 3-D");
	const R far[] = { 0, R(37.5), -1024, R(65536.25), R(-3e5), R(1e6) }, near_[] = { 0, R(1e-3), R(-0.0625), R(0.7), 3, -25 };
	for (R o : far) for (R o2 : far) tuples(std::vector<R>(near_, near_ + 6), N, [&](const R* p) { for (R q : near_) {
		state(); R x[3], y[3]; for (int i = 0; i < N; ++i) { R c = i == 1 ? o2 : o; x[i] = c + q; y[i] = c + p[i]; }
		V a = Dim<V>::make(x), b = Dim<V>::make(y); EV<N> d = apart(a, b);
		EQS("distanceSqr", ml::distanceSqr(a, b), dot(d, d)); EQS("distance", ml::distance(a, b), esqrt(dot(d, d))); V w = a - b; EQS("::length of a difference", w.length(), esqrt(dot(d, d))); EQS("::lengthSqr of a difference", w.lengthSqr(), dot(d, d));
		trace(); } });
}
static void cross3(const std::vector<R>& vals, const std::string& name)
{
	section(name);
	const R k = 0;
	tuplesV(vals, 6, [&](const R* p) {
		state();
		Vec3<R> a = mk3(p), b = mk3(p + 3);
		EV<3> x = cross(ev(a), ev(b));
		EQ("Vec3::operator%", a % b, x);
		Vec3<R> c = a; c %= b; EQ("Vec3::operator%=", c, x);
		c = a; c %= c; EQ("Vec3::operator%= self", c, cross(ev(a), ev(a)));
		EV<3> d = apart(a, b);
		EQS("distanceSqr(Vec3)", ml::distanceSqr(a, b), dot(d, d));
		EQS("distance(Vec3)", ml::distance(a, b), esqrt(dot(d, d)));
		trace();
	});
	tuplesV(vals, 3, [&](const R* p) {
		state();
		Vec3<R> a = mk3(p), b = a;
		for (int i = 0; i < 6; ++i)
		{
			R u[3] = { 0, 0, 0 }; u[i % 3] = i < 3 ? 1 : -1;
			EV<3> x = cross(ev(a), ev(mk3(u)));
			EQ("Vec3::operator%(Axis)", a % (Axis)i, x);
			Vec3<R> c = a; c %= (Axis)i; EQ("Vec3::operator%=(Axis)", c, x);
			if (i < 3)
			{
				EQ("Vec3::operator%(Coord)", a % (Coord)i, x);
				c = a; c %= (Coord)i; EQ("Vec3::operator%=(Coord)", c, x);
			}
		}
		trace();
	});
}

static void cross2(const std::vector<R>& vals, const std::string& name)
{
	section(name);
	const R k = 0;
	tuplesV(vals, 4, [&](const R* p) {
		state();
		Vec2<R> a = mk2(p), b = mk2(p + 2);
		EQS("Vec2::operator%", a % b, E(a.x) * E(b.y) - E(a.y) * E(b.x));
		EV<2> d = apart(a, b);
		EQS("distanceSqr(Vec2)", ml::distanceSqr(a, b), dot(d, d));
		EQS("distance(Vec2)", ml::distance(a, b), esqrt(dot(d, d)));
		trace();
	});
}

static void crossProduct2(const std::vector<R>& vals, const std::string& name)
{
	section(name);
	const R k = 0;
	tuplesV(vals, 6, [&](const R* p) {
		state();
		Vec2<R> a = mk2(p), b = mk2(p + 2), c = mk2(p + 4);
		EV<2> u = ev(b) - ev(a), v = ev(c) - ev(a);
		EQS("Vec2::crossProduct", Vec2<R>::crossProduct(a, b, c), u[0] * v[1] - u[1] * v[0]);
		trace();
	});
}

static void conversions(const std::vector<R>& vals)
{
	section("conversions");
	R k = 0;
	tuplesV(vals, 4, [&](const R* p) {
		state();
		Vec4<R> a = mk4(p), b = a;
		Vec3<R> v = mk3(p);
		R w = p[3];
		OK("Vec4::toVec3", same(a.toVec3(), v));
		OK("Vec4(Vec3,w)", same(Vec4<R>(v, w), a));
		OK("Vec4(Vec3)", same(Vec4<R>(v), Vec4<R>(v.x, v.y, v.z, 1)));
		Vec4<R> c(R(9));
		OK("Vec4(k)", c.x == 9 && c.y == 9 && c.z == 9 && c.w == 9);
		c.set(v, w); OK("Vec4::set(Vec3,w)", same(c, a));
		c.set(v); OK("Vec4::set(Vec3)", same(c, Vec4<R>(v.x, v.y, v.z, 0)));
		c.set(p[0], p[1], p[2], p[3]); OK("Vec4::set(x,y,z,w)", same(c, a));
		c.set(p[0], p[1], p[2]); OK("Vec4::set(x,y,z)", same(c, Vec4<R>(v.x, v.y, v.z, 0)));
		Vec3<R> u(p[3], p[0], p[1]);
		c = a; c += u; EV<4> s = ev(a); for (int i = 0; i < 3; ++i) s[i] = s[i] + E(comp(u, i)); EQ("Vec4::operator+=(Vec3)", c, s);
		c = a; c -= u; s = ev(a); for (int i = 0; i < 3; ++i) s[i] = s[i] - E(comp(u, i)); EQ("Vec4::operator-=(Vec3)", c, s);
		Vec3<R> d(R(9)); OK("Vec3(k)", d.x == 9 && d.y == 9 && d.z == 9);
		d.set(p[0], p[1], p[2]); OK("Vec3::set", same(d, v));
		Vec2<R> e(R(9)); OK("Vec2(k)", e.x == 9 && e.y == 9);
		e.set(p[0], p[1]); OK("Vec2::set", e.x == p[0] && e.y == p[1]);
		// dropping and re-inserting a coordinate
		Vec2<R> dz = v.toVec2(), dz2 = v.toVec2(Coord::Z), dx = v.toVec2(Coord::X), dy = v.toVec2(Coord::Y);
		OK("Vec3::toVec2(Z)", dz.x == v.x && dz.y == v.y && same(dz, dz2));
		OK("Vec3::toVec2(X)", dx.x == v.y && dx.y == v.z);
		OK("Vec3::toVec2(Y)", (dy.x == v.z && dy.y == v.x));
		OK("Vec3(Vec2,Z)", same(Vec3<R>(dz), Vec3<R>(v.x, v.y, 0)) && same(Vec3<R>(dz, Coord::Z), Vec3<R>(v.x, v.y, 0)));
		OK("Vec3(Vec2,X)", same(Vec3<R>(dx, Coord::X), Vec3<R>(0, v.y, v.z)));
		OK("Vec3(Vec2,Y)", same(Vec3<R>(dy, Coord::Y), Vec3<R>(v.x, 0, v.z)));
		Vec2<R> kz(v), kx(v, Coord::X), ky(v, Coord::Y);
		OK("Vec2(Vec3,Z)", kz.x == v.x && kz.y == v.y);
		OK("Vec2(Vec3,X)", kx.x == v.y && kx.y == v.z);
		OK("Vec2(Vec3,Y)", same(ky, dy));
		trace();
	});
}

static void constants()
{
	section("constants");
	state();
	R k = 0; int a = 0, b = 0;
	OK("Vec2 constants", same(Vec2<R>::Zero, Vec2<R>(0, 0)) && same(Vec2<R>::OneX, Vec2<R>(1, 0)) && same(Vec2<R>::OneY, Vec2<R>(0, 1)));
	OK("Vec3 constants", same(Vec3<R>::Zero, Vec3<R>(0, 0, 0)) && same(Vec3<R>::OneX, Vec3<R>(1, 0, 0)) && same(Vec3<R>::OneY, Vec3<R>(0, 1, 0)) && same(Vec3<R>::OneZ, Vec3<R>(0, 0, 1)));
	typedef Vec4<R> V;
	OK("Vec4 constants", same(V::Zero, V(0, 0, 0, 0)) && same(V::OneX, V(1, 0, 0, 1)) && same(V::OneY, V(0, 1, 0, 1)) && same(V::OneZ, V(0, 0, 1, 1)) && same(V::OneW, V(0, 0, 0, 1))
		&& same(V::OneXnw, V(1, 0, 0, 0)) && same(V::OneYnw, V(0, 1, 0, 0)) && same(V::OneZnw, V(0, 0, 1, 0)) && same(V(1, 2, 3), V(1, 2, 3, 1)));
	trace();
}

template <class V> static void ladders()
{
	enum { N = Dim<V>::n };
	section("Vec" + std::to_string((int)N) + " ladders");
	star<R>(2 * N, [&](const R* p) { state(); trace(); pair_ops(Dim<V>::make(p), Dim<V>::make(p + N)); });
	star<R>(N + 1, [&](const R* p) { state(); trace(); V a = Dim<V>::make(p); unary_ops(a); scalar_ops(a, p[N]); });
}

void explore()
{
	distances<Vec2<R>>(); distances<Vec3<R>>();
	const bool T = thorough();
	const R up = std::is_same<R, float>::value ? R(1ll << 36) : std::ldexp(R(1), 300);
	const R dn = 1 / up;
	const R near1 = std::nextafter(R(1), R(2));
	const std::vector<R> small = { 0, 1, -1, 2, -3, R(0.5) };
	const std::vector<R> mixed = { 0, 1, near1, R(-0.75), 1000, R(-1e-4), 3, R(-7e5) };
	const std::vector<R> wide = { 0, R(-0.0), 1, near1, -1, R(0.1), R(-2.75), 3, 1024, -65536, R(1e-5), R(-3e-7), R(1e6), R(-12345.678), R(7e8) };
	const std::vector<R> ks = { 0, 1, -1, 2, R(0.5), -3, R(0.1), 10, R(1e-4), -4096, R(0.2), R(1e5) };
	const std::vector<R> five = { 0, 1, R(-2.5), R(1e-3), 500 };

	for (int sc = 0; sc < 3; ++sc)
	{
		R f = sc == 0 ? R(1) : sc == 1 ? up : dn;
		std::string tag = std::string(sc == 0 ? "" : sc == 1 ? " x huge" : " x tiny");
		sweep_pairs<Vec2<R>>("Vec2 pairs small" + tag, scaled(small, f));
		sweep_pairs<Vec3<R>>("Vec3 pairs small" + tag, scaled(small, f));
		sweep_pairs<Vec4<R>>("Vec4 pairs small" + tag, scaled(T ? std::vector<R>{ 0, 1, -2, R(0.5), 3 } : std::vector<R>{ 0, 1, -2, R(0.5) }, f));
		sweep_single<Vec2<R>>("Vec2 single" + tag, scaled(mixed, f), ks);
		sweep_single<Vec3<R>>("Vec3 single" + tag, scaled(mixed, f), ks);
		sweep_single<Vec4<R>>("Vec4 single" + tag, scaled(mixed, f), ks);
		cross3(scaled(small, f), "Vec3 cross small" + tag);
		cross2(scaled(mixed, f), "Vec2 cross" + tag);
		crossProduct2(scaled(small, f), "Vec2 crossProduct" + tag);
		sweep_coords<Vec2<R>>("Vec2 coords" + tag, scaled(wide, f));
		sweep_coords<Vec3<R>>("Vec3 coords" + tag, scaled(wide, f));
	}
	sweep_pairs<Vec2<R>>("Vec2 pairs wide", wide);
	sweep_pairs<Vec3<R>>("Vec3 pairs mixed", mixed);
	sweep_pairs<Vec4<R>>("Vec4 pairs mixed", T ? std::vector<R>{ 0, 1, near1, R(-2.5), 1000, R(1e-4) } : std::vector<R>{ 1, near1, R(-2.5), 1000 });
	cross3(T ? std::vector<R>{ 0, 1, R(-0.75), 1000, R(-1e-4), 3, R(-7e5), near1, R(0.3), -2, R(64), R(1e3 + 0.5) } : mixed, "Vec3 cross mixed");
	crossProduct2(mixed, "Vec2 crossProduct mixed");
	sweep_single<Vec2<R>>("Vec2 single wide", wide, ks);
	sweep_single<Vec3<R>>("Vec3 single wide", wide, ks);
	sweep_single<Vec4<R>>("Vec4 single wide", five, ks);
	if (T) sweep_single<Vec4<R>>("Vec4 single all", wide, ks);
	if (T) sweep_pairs<Vec3<R>>("Vec3 pairs wide", { 0, 1, near1, R(-0.75), 1000, R(-1e-4), 3, R(-7e5), R(-0.0), R(0.3), -2 });
	conversions(mixed);
	constants();
	ladders<Vec2<R>>(); ladders<Vec3<R>>(); ladders<Vec4<R>>();
}
