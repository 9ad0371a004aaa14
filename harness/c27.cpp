// C27: conversions: rotations through every chain of representations, casts between float and double, data() layout, constants.
#include "mats.h"
typedef MC_REAL R;
typedef typename std::conditional<std::is_same<R, float>::value, double, float>::type O; // the other element type
typedef Vec3<R> V;

// ---- conversion graph -------------------------------------------------------------------------
enum Kind { KQ, KM3, KM34, KM4, KAA };
struct St { Kind k; Quat<R> q; Mat3<R> m; Mat34<R> n; Mat4<R> p; V ax; R ang; };
static const char* kname[] = { "Quat", "Mat3", "Mat34", "Mat4", "axis-angle" };
static std::ostream& operator<<(std::ostream& s, const St& a) { s << kname[a.k]; if (a.k == KQ) s << a.q; if (a.k == KM3) s << a.m; if (a.k == KM34) s << a.n; if (a.k == KM4) s << a.p; if (a.k == KAA) s << a.ax << "," << a.ang; return s; }
static OM linear(const St& s)
{
	OM r(3);
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
		if (s.k == KM3) r.a[i][j] = E(MT<Mat3<R>>::get(s.m, i, j)); else if (s.k == KM34) r.a[i][j] = E(MT<Mat34<R>>::get(s.n, i, j)); else if (s.k == KM4) r.a[i][j] = E(MT<Mat4<R>>::get(s.p, i, j));
	if (s.k == KQ) r = quatO(3, s.q);
	if (s.k == KAA) r = rotAxisO(3, s.ax.x, s.ax.y, s.ax.z, s.ang);
	return r;
}
struct Edge { const char* name; Kind from; bool lossy; std::function<St(const St&)> f; };
static const V T0(R(1.5), R(-2), R(0.25));
static bool iszero(const V& v) { return v.x == 0 && v.y == 0 && v.z == 0; }
static bool tnear(R a, R b) { return fabsl((LD)a - b) <= 2 * (LD)FLT_EPSILON * fabsl((LD)b); } // casts to float round
static std::vector<Edge> edges()
{
	std::vector<Edge> e;
	auto q = [](const Quat<R>& x) { St s; s.k = KQ; s.q = x; return s; };
	auto m = [](const Mat3<R>& x) { St s; s.k = KM3; s.m = x; return s; };
	auto n = [](const Mat34<R>& x, const V& t) { St s; s.k = KM34; s.n = x; MC_CHECK(tnear(x.t.x, t.x) && tnear(x.t.y, t.y) && tnear(x.t.z, t.z), "conversion keeps the translation", x); return s; };
	auto p = [](const Mat4<R>& x, const V& t) { St s; s.k = KM4; s.p = x; MC_CHECK(tnear(x.t.x, t.x) && tnear(x.t.y, t.y) && tnear(x.t.z, t.z) && x.t.w == 1 && x.x.w == 0 && x.y.w == 0 && x.z.w == 0, "conversion keeps the translation", x); return s; };
	const V z(R(0), R(0), R(0));
	e.push_back({ "Mat3::from(q)", KQ, false, [=](const St& s) { return m(Mat3<R>::from(s.q)); } });
	e.push_back({ "Mat3::set(q)", KQ, false, [=](const St& s) { Mat3<R> x(R(3)); x.set(s.q); return m(x); } });
	e.push_back({ "Mat34::from(q,t)", KQ, false, [=](const St& s) { return n(Mat34<R>::from(s.q, T0), T0); } });
	e.push_back({ "Mat34::set(q)", KQ, false, [=](const St& s) { Mat34<R> x(Mat3<R>(R(3)), T0); x.set(s.q); return n(x, z); } });
	e.push_back({ "Mat4::from(q,t)", KQ, false, [=](const St& s) { return p(Mat4<R>::from(s.q, T0), T0); } });
	e.push_back({ "Mat4::set(q)", KQ, false, [=](const St& s) { Mat4<R> x(Mat3<R>(R(3)), T0); x.set(s.q); return p(x, z); } });
	e.push_back({ "toAxisAngle", KQ, false, [=](const St& s) { St r; r.k = KAA; s.q.toAxisAngle(r.ax, r.ang); return r; } });
	e.push_back({ "-q", KQ, false, [=](const St& s) { return q(-s.q); } });
	e.push_back({ "Quat::from(q)", KQ, false, [=](const St& s) { return q(Quat<R>::from(s.q)); } });
	e.push_back({ "Quat(x,y,z,w)", KQ, false, [=](const St& s) { return q(Quat<R>(s.q.x, s.q.y, s.q.z, s.q.w)); } });
	e.push_back({ "inverse twice", KQ, false, [=](const St& s) { return q(s.q.inverse().inverse()); } });
	e.push_back({ "cast and back", KQ, true, [=](const St& s) { return q(s.q.template cast<O>().template cast<R>()); } });
	e.push_back({ "Quat::from(m3)", KM3, false, [=](const St& s) { return q(Quat<R>::from(s.m)); } });
	e.push_back({ "Quat::set(m3)", KM3, false, [=](const St& s) { Quat<R> x(R(1), R(2), R(3), R(4)); x.set(s.m); return q(x); } });
	e.push_back({ "Mat34(m3,t)", KM3, false, [=](const St& s) { return n(Mat34<R>(s.m, T0), T0); } });
	e.push_back({ "Mat34::set(m3)", KM3, false, [=](const St& s) { Mat34<R> x(Mat3<R>(R(3)), T0); x.set(s.m); return n(x, z); } });
	e.push_back({ "Mat4(m3,t)", KM3, false, [=](const St& s) { return p(Mat4<R>(s.m, T0), T0); } });
	e.push_back({ "Mat4::set(m3)", KM3, false, [=](const St& s) { Mat4<R> x(Mat3<R>(R(3)), T0); x.set(s.m); return p(x, z); } });
	e.push_back({ "transpose twice", KM3, false, [=](const St& s) { Mat3<R> x = s.m; x.transpose(); return m(x.transposed()); } });
	e.push_back({ "inverse twice", KM3, false, [=](const St& s) { Mat3<R> x = s.m; x.invert(); return m(x.inversed()); } });
	e.push_back({ "cast and back", KM3, true, [=](const St& s) { return m(s.m.template cast<O>().template cast<R>()); } });
	e.push_back({ "orthonormalised", KM3, false, [=](const St& s) { Mat3<R> x = s.m; x.orthonormalise(); return m(x); } });
	e.push_back({ "rs", KM34, false, [=](const St& s) { return m(s.n.rs); } });
	e.push_back({ "Mat4(rs,t)", KM34, false, [=](const St& s) { return p(Mat4<R>(s.n.rs, s.n.t), s.n.t); } });
	e.push_back({ "Mat34(columns)", KM34, false, [=](const St& s) { return n(Mat34<R>(s.n.rs.x, s.n.rs.y, s.n.rs.z, s.n.t), s.n.t); } });
	e.push_back({ "inverse twice", KM34, false, [=](const St& s) { Mat34<R> x = s.n; x.invert(); x.invert(); return n(x, x.t); } });
	e.push_back({ "cast and back", KM34, true, [=](const St& s) { return n(s.n.template cast<O>().template cast<R>(), s.n.t); } });
	e.push_back({ "Quat::from(m4)", KM4, false, [=](const St& s) { return q(Quat<R>::from(s.p)); } });
	e.push_back({ "Quat::set(m4)", KM4, false, [=](const St& s) { Quat<R> x(R(1), R(2), R(3), R(4)); x.set(s.p); return q(x); } });
	e.push_back({ "columns to Mat3", KM4, false, [=](const St& s) { return m(Mat3<R>(V(s.p.x.x, s.p.x.y, s.p.x.z), V(s.p.y.x, s.p.y.y, s.p.y.z), V(s.p.z.x, s.p.z.y, s.p.z.z))); } });
	e.push_back({ "Mat4::from(columns)", KM4, false, [=](const St& s) { V t(s.p.t.x, s.p.t.y, s.p.t.z); return p(Mat4<R>::from(s.p.x, s.p.y, s.p.z, s.p.t), t); } });
	e.push_back({ "inverse twice", KM4, false, [=](const St& s) { Mat4<R> x = s.p; x.invert(); x = x.inversed(); return p(x, V(x.t.x, x.t.y, x.t.z)); } });
	e.push_back({ "transpose twice", KM4, false, [=](const St& s) { Mat4<R> x = s.p; x.transpose(); x = x.transposed(); return p(x, V(s.p.t.x, s.p.t.y, s.p.t.z)); } });
	e.push_back({ "cast and back", KM4, true, [=](const St& s) { return p(s.p.template cast<O>().template cast<R>(), V(s.p.t.x, s.p.t.y, s.p.t.z)); } });
	e.push_back({ "Quat::from(a,w)", KAA, false, [=](const St& s) { return q(Quat<R>::from(s.ax, s.ang)); } });
	e.push_back({ "Mat3::from(a,w)", KAA, false, [=](const St& s) { return m(Mat3<R>::from(s.ax, s.ang)); } });
	e.push_back({ "Mat34::from(a,w,t)", KAA, false, [=](const St& s) { return n(Mat34<R>::from(s.ax, s.ang, T0), T0); } });
	e.push_back({ "Mat4::from(a,w)", KAA, false, [=](const St& s) { return p(Mat4<R>::from(s.ax, s.ang), z); } });
	return e;
}
static std::vector<Edge> ALL;
static void walk(const St& s, const OM& want, LD unit, int depth, std::string path, bool lossy)
{
	state();
	OM got = linear(s); LD worst = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { LD d = fabsl(got.a[i][j].v - want.a[i][j].v); if (!(d <= worst)) worst = d; }
	LD e = lossy ? std::max((LD)FLT_EPSILON, eps<R>()) : eps<R>();
	MC_CHECK(worst <= 24 * unit * e, "rotation survives " + path.substr(path.rfind(';') == std::string::npos ? 0 : path.rfind(';') + 1), path << " gives " << s << " off by " << (double)worst);
	sample([&](std::ostream& o) { o << path << " = " << s; });
	if (depth == 0) { trace(); return; }
	if (worst > 24 * unit * e) return;
	for (auto& x : ALL) if (x.from == s.k) { bool l = lossy || (x.lossy && std::is_same<R, double>::value); walk(x.f(s), want, unit * 1.6L, depth - 1, path + ";" + kname[s.k] + " -> " + x.name, l); }
}
// ---- casts ------------------------------------------------------------------------------------
template <class T> static Mat2<T> inverseOf(const Mat2<T>& m) { return m.inversed(); }
template <class M> static M inverseOf(M m) { m.invert(); return m; }
template <class M, class MO> static void castm(const M& m, LD slack = 4e-3L) // slack: how far a matrix within the tolerance may be off its inverse
{
	state(); trace(); MO c = m.template cast<O>(); M same_ = m.template cast<R>(); bool ok = true, id = true;
	for (int i = 0; i < MT<M>::n; ++i) for (int j = 0; j < MT<M>::n; ++j) { R v = MT<M>::get(m, i, j); ok = ok && MT<MO>::get(c, i, j) == (O)v; id = id && MT<M>::get(same_, i, j) == v; }
	MC_CHECK(ok && id, std::string(MT<M>::name()) + "::cast", m << " got " << c << same_);
	// what the matrix knows about itself must survive the cast: inverse and determinant of the cast are those of its elements
	OM o = om(c); MO inv = inverseOf(c); E d = detO(o);
	if (fabsl(d.v) > LD(1e-3) * d.m && d.v != 0) { OM pr = om(inv) * o; LD worst = 0, sc = 0; for (int i = 0; i < MT<M>::n; ++i) for (int j = 0; j < MT<M>::n; ++j) { worst = std::max(worst, fabsl(pr.a[i][j].v - (i == j))); sc = std::max(sc, pr.a[i][j].m); } MC_CHECK(worst <= slack || worst <= 4096 * eps<O>() * sc, std::string("inverse of a cast ") + MT<M>::name(), m << " cast " << c << " inverse " << inv); }
	MC_CHECK((c == m.template cast<O>()) && !(c != m.template cast<O>()), std::string(MT<M>::name()) + " casts compare equal", c);
}
template <class M, int COLS, int ROWS> static void datam(const M& m0)
{
	state(); trace(); M m = m0; const M& k = m; const R* d = m.data(); MC_CHECK((const void*)d == (const void*)k.data() && (const char*)d >= (const char*)&m && (const char*)(d + COLS * ROWS) <= (const char*)(&m + 1), std::string(MT<M>::name()) + "::data lies in the object", m);
	bool ok = true, contig = true;
	for (int c = 0; c < COLS; ++c) for (int r = 0; r < ROWS; ++r) ok = ok && d[c * ROWS + r] == MT<M>::get(m, r, c); (void)contig;
	MC_CHECK(ok, std::string(MT<M>::name()) + "::data order (x, y, z, t)", m);
	for (int i = 0; i < COLS * ROWS; ++i) m.data()[i] = R(i + 1);
	ok = true; for (int c = 0; c < COLS; ++c) for (int r = 0; r < ROWS; ++r) ok = ok && MT<M>::get(m, r, c) == c * ROWS + r + 1;
	MC_CHECK(ok, std::string(MT<M>::name()) + "::data writes", m);
}
template <class Q> static R qc(const Q& q, int i) { return i == 0 ? q.x : i == 1 ? q.y : i == 2 ? q.z : q.w; }
void explore()
{
	ALL = edges();
	section("conversion graph");
	{
		const LD PI = acosl(-1.0L); const LD axes[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0, 0, -1 }, { 1, 1, 0 }, { 0, -1, 1 }, { 1, 0, -1 }, { 1, 1, 1 }, { -1, 1, 1 }, { 1, 2, 3 }, { -3, 0.5L, 1 }, { 0.01L, 1, 0.02L }, { 1, -0.001L, 0 } };
		std::vector<LD> angs; for (int i = 1; i < 24; ++i) angs.push_back(i * PI / 12); for (LD x : { PI - 1e-3L, PI + 1e-3L, PI / 2 + 1e-3L, 0.05L, 1.0L, 2.5L }) angs.push_back(x); angs.push_back(0);
		int depth = thorough() ? 6 : 4;
		for (auto& a : axes) for (LD w : angs)
		{
			LD l = sqrtl(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); St s; s.k = KAA; s.ax = V(R(a[0] / l), R(a[1] / l), R(a[2] / l)); s.ang = R(w);
			LD c = w == 0 ? 1 : 1 / fabsl(sinl(w / 2)); // the angle is recovered from its cosine
			walk(s, rotAxisO(3, s.ax.x, s.ax.y, s.ax.z, s.ang), 1 + c, depth + (!thorough() && a[0] == 1 && a[1] == 2 ? 1 : 0), "start", false);
		}
	}
	section("conversion graph, ladders");
	star<R>(4, [&](const R* p) {
		const LD x = p[0], y = p[1], z = p[2], l = sqrtl(x * x + y * y + z * z); if (l == 0 || std::fabs(p[3]) > 6 || (p[3] != 0 && std::fabs(p[3]) < R(0.02))) return;
		St s; s.k = KAA; s.ax = V(R(x / l), R(y / l), R(z / l)); s.ang = p[3]; LD sn = fabsl(sinl(p[3] / LD(2))); LD c = p[3] == 0 ? 1 : 1 / sn; if (c > 100) return;
		walk(s, rotAxisO(3, s.ax.x, s.ax.y, s.ax.z, s.ang), 1 + c, 2, "start", false);
	});
	section("matrix casts, ladders");
	star<R>(4, [&](const R* p) { Mat2<R> m = fromRow<Mat2<R>>(p); castm<Mat2<R>, Mat2<O>>(m); datam<Mat2<R>, 2, 2>(m); });
	star<R>(9, [&](const R* p) { Mat3<R> m = fromRow<Mat3<R>>(p); castm<Mat3<R>, Mat3<O>>(m); datam<Mat3<R>, 3, 3>(m); });
	star<R>(12, [&](const R* p) { Mat34<R> m = fromRow<Mat34<R>>(p); castm<Mat34<R>, Mat34<O>>(m); datam<Mat34<R>, 4, 3>(m); });
	star<R>(16, [&](const R* p) { Mat4<R> m = fromRow<Mat4<R>>(p); castm<Mat4<R>, Mat4<O>>(m); datam<Mat4<R>, 4, 4>(m); });
	section("matrix casts");
	for (auto& m : catalogueM<Mat2<R>>()) castm<Mat2<R>, Mat2<O>>(m.first);
	for (auto& m : catalogueM<Mat3<R>>()) castm<Mat3<R>, Mat3<O>>(m.first);
	for (auto& m : catalogueM<Mat34<R>>()) castm<Mat34<R>, Mat34<O>>(m.first);
	for (auto& m : catalogueM<Mat4<R>>()) castm<Mat4<R>, Mat4<O>>(m.first);
	section("casts of matrices within the tolerance of a special one");
	for (auto& m : nearSpecial<Mat2<R>>()) castm<Mat2<R>, Mat2<O>>(m.first, 0.35L);
	for (auto& m : nearSpecial<Mat3<R>>()) castm<Mat3<R>, Mat3<O>>(m.first, 0.35L);
	for (auto& m : nearSpecial<Mat34<R>>()) castm<Mat34<R>, Mat34<O>>(m.first, 0.35L);
	for (auto& m : nearSpecial<Mat4<R>>()) castm<Mat4<R>, Mat4<O>>(m.first, 0.35L);
	section("matrix data");
	for (auto& m : catalogueM<Mat2<R>>()) datam<Mat2<R>, 2, 2>(m.first);
	for (auto& m : catalogueM<Mat3<R>>()) datam<Mat3<R>, 3, 3>(m.first);
	for (auto& m : catalogueM<Mat34<R>>()) datam<Mat34<R>, 4, 3>(m.first);
	for (auto& m : catalogueM<Mat4<R>>()) datam<Mat4<R>, 4, 4>(m.first);
	section("quaternion data and cast");
	tuplesS<R>({ R(0), R(1), R(-0.5), R(0.3) }, 4, [](const R* p) { state(); trace(); Quat<R> q(p[0], p[1], p[2], p[3], false); const Quat<R>& k = q; bool ok = q.data() == k.data(); auto f = q.template cast<float>(); auto d = q.template cast<double>();
		for (int i = 0; i < 4; ++i) ok = ok && q.data()[i] == p[i]; MC_CHECK(ok, "Quat::data", q);
		MC_CHECK(f.x == (float)p[0] && f.y == (float)p[1] && f.z == (float)p[2] && f.w == (float)p[3] && d.x == (double)p[0] && d.y == (double)p[1] && d.z == (double)p[2] && d.w == (double)p[3], "Quat::cast", q);
		for (int i = 0; i < 4; ++i) q.data()[i] = R(i + 1); MC_CHECK(q.x == 1 && q.y == 2 && q.z == 3 && q.w == 4, "Quat::data writes", q); });
	section("constants"); state(); trace();
	{
		auto is = [](const OM& o, R diag, int n) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (o.a[i][j].v != (i == j ? diag : 0)) return false; return true; };
		MC_CHECK(is(om(Mat2<R>::Zero), 0, 2) && is(om(Mat2<R>::One), 1, 2) && is(om(Mat3<R>::Zero), 0, 3) && is(om(Mat3<R>::One), 1, 3) && is(om(Mat4<R>::One), 1, 4) && is(om(Mat4<R>::Zero), 0, 4), "matrix constants", Mat3<R>::Zero << Mat3<R>::One << Mat4<R>::Zero);
		MC_CHECK(is(om(Mat34<R>::One), 1, 4) && is(om(Mat34<R>::Zero), 0, 3) && iszero(Mat34<R>::Zero.t), "Mat34 constants", Mat34<R>::Zero << Mat34<R>::One);
		MC_CHECK(Quat<R>::One.x == 0 && Quat<R>::One.y == 0 && Quat<R>::One.z == 0 && Quat<R>::One.w == 1, "Quat::One", Quat<R>::One);
		MC_CHECK(Mat3<R>::One.isIdentity() && Mat4<R>::One.isIdentity() && Mat34<R>::One.isIdentity() && Mat2<R>::One.isIdentity() && !Mat3<R>::Zero.isIdentity() && !Mat4<R>::Zero.isIdentity() && !Mat34<R>::Zero.isIdentity() && !Mat2<R>::Zero.isIdentity(), "matrix constants know what they are", "");
		Mat3<R> z3 = Mat3<R>::Zero; z3.invert(); Mat4<R> z4 = Mat4<R>::Zero; z4.invert(); MC_CHECK(is(om(z3), 0, 3) && is(om(z4), 0, 4), "inverse of the zero matrix", z3 << z4);
	}
}
