// C09: quaternions: Hamilton product, inverse, quotient, conversions to and from matrices and axis/angle, vector rotation,
// shortest rotation between two vectors, log/exp - over a lattice and over finite rotation groups closed by search.
#include "mats.h"
typedef MC_REAL R;
typedef Quat<R> Q;
static const LD PI = acosl(-1.0L);

struct EQ { E x, y, z, w; };
static EQ eq(const Q& q) { return { E(q.x), E(q.y), E(q.z), E(q.w) }; }
static EQ operator*(const EQ& a, const EQ& b)
{
	return { a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z,
	         a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z };
}
static EQ conj(const EQ& a) { return { -a.x, -a.y, -a.z, a.w }; }
static std::ostream& operator<<(std::ostream& s, const EQ& q) { return s << "{" << q.x << "," << q.y << "," << q.z << ";" << q.w << "}"; }
static bool nearq(const Q& g, const EQ& w, LD k = 16) { return near(g.x, w.x, k) && near(g.y, w.y, k) && near(g.z, w.z, k) && near(g.w, w.w, k); }
static bool closeq(const Q& g, const EQ& w, LD t) { return fabsl((LD)g.x - w.x.v) <= t && fabsl((LD)g.y - w.y.v) <= t && fabsl((LD)g.z - w.z.v) <= t && fabsl((LD)g.w - w.w.v) <= t; }
static EQ neg(const EQ& a) { return { -a.x, -a.y, -a.z, -a.w }; }
static bool closeRot(const Q& g, const EQ& w, LD t) { return closeq(g, w, t) || closeq(g, neg(w), t); } // q and -q are the same rotation
static bool sameq(const Q& a, const Q& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
static LD len(const EQ& a) { return sqrtl(a.x.v * a.x.v + a.y.v * a.y.v + a.z.v * a.z.v + a.w.v * a.w.v); }
static Q raw(R x, R y, R z, R w) { return Q(x, y, z, w, false); }
static Q unit(LD x, LD y, LD z, LD w) { LD l = sqrtl(x * x + y * y + z * z + w * w); return raw(R(x / l), R(y / l), R(z / l), R(w / l)); }
static Q axisAngle(LD x, LD y, LD z, LD a) { LD l = sqrtl(x * x + y * y + z * z), s = sinl(a / 2) / l; return raw(R(x * s), R(y * s), R(z * s), R(cosl(a / 2))); }
static const Coord C3[] = { Coord::X, Coord::Y, Coord::Z };

static std::vector<Q> units()
{
	std::vector<Q> r;
	std::vector<R> v = thorough() ? std::vector<R>{ -1, R(-0.5), 0, R(0.5), 1 } : std::vector<R>{ -1, 0, 1 };
	tuples(v, 4, [&](const R* p) { if (p[0] != 0 || p[1] != 0 || p[2] != 0 || p[3] != 0) r.push_back(unit(p[0], p[1], p[2], p[3])); });
	for (LD a : { 0.1L, 0.7L, 2.0L, 3.0L, 3.1L, -1.3L, 4.5L, 6.2L, 0.01L, -3.14L })
	{
		r.push_back(axisAngle(1, 2, 3, a)); r.push_back(axisAngle(-2, 0.3L, 1, a)); r.push_back(axisAngle(0, 0, 1, a)); r.push_back(axisAngle(1, 0, 0, a)); r.push_back(axisAngle(0, -1, 0, a));
	}
	return r;
}
// unit quaternions around general ones: each component in turn climbs the ladder before normalisation, then axis and angle do
static const std::vector<Q>& star_units()
{
	static const std::vector<Q> l = [] {
		std::vector<Q> r;
		star<R>(4, [&](const R* p) { r.push_back(unit(p[0], p[1], p[2], p[3])); }, thorough());
		star<R>(4, [&](const R* p) { if (fabs(p[3]) <= 10) r.push_back(axisAngle(p[0], p[1], p[2], p[3])); }, thorough());
		return r; }();
	return l;
}
static std::vector<Vec3<R>> vectors()
{
	std::vector<Vec3<R>> r; std::vector<R> v = { -2, 0, 1, R(0.25) };
	tuples(v, 3, [&](const R* p) { r.push_back(mk3(p)); });
	return r;
}

static void algebra()
{
	section("products");
	std::vector<Q> qs; std::vector<R> v = thorough() ? std::vector<R>{ -2, -1, 0, R(0.5), 3 } : std::vector<R>{ -2, 0, R(0.5), 1 };
	tuples(v, 4, [&](const R* p) { qs.push_back(raw(p[0], p[1], p[2], p[3])); });
	for (auto& q : units()) qs.push_back(q);
	auto single = [&](const Q& a)
	{
		EQ e = eq(a);
		MC_CHECK(nearq(a.inverse(), conj(e), 1), "Quat::inverse", a << " got " << a.inverse());
		MC_CHECK(nearq(-a, neg(e), 1), "Quat::operator-", a << " got " << -a);
		MC_CHECK(a == a && !(a != a), "Quat equality", a);
		Q n = a; Q& rn = n.normalize(); LD l = len(e);
		MC_CHECK(&rn == &n, "Quat::normalize returns *this", "");
		if (l > 0) MC_CHECK(closeq(n, { E(e.x.v / l), E(e.y.v / l), E(e.z.v / l), E(e.w.v / l) }, 8 * eps<R>()), "Quat::normalize", a << " got " << n);
		else MC_CHECK(sameq(n, raw(0, 0, 0, 1)), "Quat::normalize of zero", a << " got " << n);
		MC_CHECK(closeqq(Q(a.x, a.y, a.z, a.w), n), "Quat constructor normalises", a << " got " << Q(a.x, a.y, a.z, a.w));
		MC_CHECK(closeqq(Q(a.x, a.y, a.z, a.w, false), a), "Quat constructor without normalisation", a);
		Q c; MC_CHECK(&(c = a) == &c && sameq(c, a), "Quat::operator=", a); c.setIdentity(); MC_CHECK(sameq(c, raw(0, 0, 0, 1)), "Quat::setIdentity", c);
		c.set(a); MC_CHECK(sameq(c, a), "Quat::set(Quat)", a); MC_CHECK(closeqq(Q::from(a), a), "Quat::from(Quat)", a);
		MC_CHECK(sameq(a * Q::One, a) && sameq(Q::One * a, a), "Quat * One", a);
		for (auto& v3 : vectors())
		{
			EQ p = e * EQ{ E(v3.x), E(v3.y), E(v3.z), E(0) }; Vec3<R> g = a * v3;
			MC_CHECK(near(g.x, p.x, 16) && near(g.y, p.y, 16) && near(g.z, p.z, 16), "Quat * Vec3 is the vector part of the product", a << " * " << v3 << " got " << g);
		}
	};
	for (auto& a : qs) single(a);
	star<R>(4, [&](const R* p) { state(); trace(); single(raw(p[0], p[1], p[2], p[3])); });
	auto pair = [&](const Q& a, const Q& b)
	{
		state(); trace();
		EQ ea = eq(a), eb = eq(b); Q p = a * b;
		MC_CHECK(nearq(p, ea * eb), "Quat product", a << " * " << b << " got " << p << " want " << ea * eb);
		bool s = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
		MC_CHECK((a == b) == s && (a != b) == !s, "Quat equality", a << " and " << b);
		LD l2 = len(eb) * len(eb);
		if (l2 > 0)
		{
			EQ w = ea * conj(eb); w = { w.x / E(l2), w.y / E(l2), w.z / E(l2), w.w / E(l2) };
			Q g = a / b; MC_CHECK(nearq(g, w, 24), "Quat quotient", a << " / " << b << " got " << g << " want " << w);
		}
		sample([&](std::ostream& o) { o << a << " * " << b << " = " << p; });
	};
	for (auto& a : qs) for (auto& b : qs) pair(a, b);
	star<R>(8, [&](const R* p) { pair(raw(p[0], p[1], p[2], p[3]), raw(p[4], p[5], p[6], p[7])); });
}

// rotations of vectors, product homomorphism
static void rotation()
{
	section("rotation of vectors");
	auto vs = vectors(); bool few = false;
	auto turn = [&](const Q& q)
	{
		OM m = quatO(3, q); Mat3<R> m3; m3.set(q); Mat4<R> m4; m4.set(q);
		for (Coord c : C3)
		{
			EV<3> w; for (int i = 0; i < 3; ++i) w[i] = E(m.a[i][(int)c].v, 3.0L);
			MC_CHECK(nearv(q.rotated(c), w, 8), "Quat::rotated(Coord)", q << " " << c << " got " << q.rotated(c) << " want " << w);
		}
		for (auto& v : vs)
		{
			if (few && &v != &vs[vs.size() - 2]) continue;
			state(); trace();
			EV<3> w = m * ev(v); Vec3<R> g = q.rotated(v); LD vm = fabsl(v.x) + fabsl(v.y) + fabsl(v.z);
			MC_CHECK(closev(g, w, 16), "Quat::rotated(Vec3)", q << " " << v << " got " << g << " want " << w);
			MC_CHECK(closev(m3 * v, w, 16) && closev(m4 * v, w, 16), "Quat to matrix rotates the same way", q << " " << v);
			MC_CHECK(fabsl(sqrtl((LD)g.x * g.x + (LD)g.y * g.y + (LD)g.z * g.z) - sqrtl((LD)v.x * v.x + (LD)v.y * v.y + (LD)v.z * v.z)) <= 32 * eps<R>() * vm * 2, "Quat rotation keeps lengths", q << " " << v << " got " << g);
			// q v q^-1
			EQ s = eq(q) * EQ{ E(v.x), E(v.y), E(v.z), E(0) } * conj(eq(q));
			MC_CHECK(fabsl(g.x - s.x.v) + fabsl(g.y - s.y.v) + fabsl(g.z - s.z.v) <= 64 * eps<R>() * vm * 2, "Quat::rotated is q v q^-1", q << " " << v << " got " << g);
		}
	};
	for (auto& q : units()) turn(q);
	few = true; for (auto& q : star_units()) turn(q);
	few = false; for (auto& q : units()) { Q k = q; star<R>(3, [&](const R* p) { vs.assign(1, mk3(p)); turn(k); }, false); }
	section("homomorphism");
	auto us = units();
	for (auto& a : us) for (auto& b : us)
	{
		state(); trace();
		Vec3<R> v(1, R(-0.5), 2);
		Vec3<R> g = (a * b).rotated(v), h = a.rotated(b.rotated(v));
		MC_CHECK(fabsl((LD)g.x - h.x) + fabsl((LD)g.y - h.y) + fabsl((LD)g.z - h.z) <= 128 * eps<R>() * 3, "rotating by a product is rotating by the second factor, then the first", a << " * " << b << " got " << g << " and " << h);
		Vec3<R> u = (a / b).rotated(b.rotated(v)), k = a.rotated(v);
		MC_CHECK(fabsl((LD)u.x - k.x) + fabsl((LD)u.y - k.y) + fabsl((LD)u.z - k.z) <= 128 * eps<R>() * 3, "quotient undoes the divisor", a << " / " << b);
	}
}

static bool closeRot(const EQ& g, const EQ& w, LD t);
static void conversions()
{
	section("axis and angle");
	std::vector<Vec3<R>> axes; std::vector<R> c = thorough() ? std::vector<R>{ -3, -1, R(-0.5), 0, R(0.25), 1, 2 } : std::vector<R>{ -2, R(-0.5), 0, 1 };
	tuples(c, 3, [&](const R* p) { axes.push_back(mk3(p)); }); axes.push_back(Vec3<R>(R(1e-3), R(-2e-3), R(1e-3))); axes.push_back(Vec3<R>(500, -1000, 0));
	auto aa = [&](LD al, const Vec3<R>& ax)
	{
		state(); trace();
		R ang = (R)al; LD l = sqrtl((LD)ax.x * ax.x + (LD)ax.y * ax.y + (LD)ax.z * ax.z);
		Q q; Q& r = q.set(ax, ang); MC_CHECK(&r == &q, "Quat::set(axis,angle) returns *this", "");
		MC_CHECK(closeqq(Q::from(ax, ang), q), "Quat::from(axis,angle)", ax << " " << ang);
		if (l == 0) { MC_CHECK(sameq(q, raw(0, 0, 0, 1)), "Quat::set(null axis) is the identity", ang << " got " << q); return; }
		LD s = sinl((LD)ang / 2) / l; EQ w = { E(ax.x * s), E(ax.y * s), E(ax.z * s), E(cosl((LD)ang / 2)) };
		MC_CHECK(closeq(q, w, 8 * eps<R>()), "Quat::set(axis,angle)", "axis " << ax << " angle " << ang << " got " << q << " want " << w);
		// back again: the same rotation
		Vec3<R> a2; R g2; q.toAxisAngle(a2, g2);
		LD la = sqrtl((LD)a2.x * a2.x + (LD)a2.y * a2.y + (LD)a2.z * a2.z);
		MC_CHECK(fabsl(la - 1) <= 8 * eps<R>(), "Quat::toAxisAngle gives a unit axis", q << " got " << a2);
		MC_CHECK(g2 >= 0 && g2 <= 2 * PI + 1e-6L, "Quat::toAxisAngle angle range", q << " got " << g2);
		LD s2 = sinl((LD)g2 / 2); EQ back = { E(a2.x * s2), E(a2.y * s2), E(a2.z * s2), E(cosl((LD)g2 / 2)) };
		LD vl = sqrtl(w.x.v * w.x.v + w.y.v * w.y.v + w.z.v * w.z.v);
		LD tol = vl < 1.01e-3L ? 2.1e-3L : std::min(2.1e-3L, 16 * eps<R>() / vl) + 16 * eps<R>();
		MC_CHECK(closeRot(back, w, tol), "Quat::toAxisAngle", q << " got axis " << a2 << " angle " << g2);
		sample([&](std::ostream& o) { o << ax << " " << ang << " -> " << q << " -> " << a2 << " " << g2; });
	};
	for (LD al : angle_grid(true)) for (auto& ax : axes) aa(al, ax);
	star<R>(4, [&](const R* p) { if (fabs(p[3]) <= 1000) aa(p[3], mk3(p)); });
	section("axis and angle of products");
	{
		auto us = units(); for (LD a : angle_grid(true)) { us.push_back(axisAngle(1, 2, 3, a)); us.push_back(axisAngle(-1, 0.3L, 0.1L, a)); }
		for (auto& a : us) for (auto& b : us)
		{
			state(); trace();
			Q p = a.inverse() * b; EQ w = eq(p); Vec3<R> v; R g; p.toAxisAngle(v, g);
			LD s = sinl((LD)g / 2); EQ back = { E(v.x * s), E(v.y * s), E(v.z * s), E(cosl((LD)g / 2)) };
			LD vl = sqrtl(w.x.v * w.x.v + w.y.v * w.y.v + w.z.v * w.z.v), tol = vl < 1.1e-3L ? 2.2e-3L : std::min(2.2e-3L, 32 * eps<R>() / vl) + 16 * eps<R>();
			MC_CHECK(closeRot(back, w, tol), "Quat::toAxisAngle of a product", a << " and " << b << " product " << p << " got axis " << v << " angle " << g);
			MC_CHECK(fabsl(sqrtl((LD)v.x * v.x + (LD)v.y * v.y + (LD)v.z * v.z) - 1) <= 8 * eps<R>(), "Quat::toAxisAngle gives a unit axis", p << " got " << v);
		}
	}
	section("matrices");
	std::vector<std::pair<Q, OM>> rots;
	for (auto& q : units()) rots.push_back({ q, quatO(3, q) });
	for (LD a : angle_grid()) { for (int ax = 0; ax < 3; ++ax) rots.push_back({ axisAngle(ax == 0, ax == 1, ax == 2, a), rotO(3, ax, a) }); rots.push_back({ axisAngle(1, -1, 1, a), rotAxisO(3, 1, -1, 1, a) }); rots.push_back({ axisAngle(-0.2L, 3, 1, a), rotAxisO(3, -0.2L, 3, 1, a) }); }
	auto mats = [&](const std::pair<Q, OM>& r)
	{
		state(); trace();
		OM o4 = OM::identity(4); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o4.a[i][j] = r.second.a[i][j];
		o4.a[0][3] = E(7); o4.a[1][3] = E(-3); o4.a[2][3] = E(R(0.5));
		Mat3<R> m3 = MT<Mat3<R>>::make(r.second); Mat4<R> m4 = MT<Mat4<R>>::make(o4);
		Q a; a.set(m3); Q b; b.set(m4);
		MC_CHECK(closeRot(a, eq(r.first), 16 * eps<R>()), "Quat::set(Mat3)", m3 << " got " << a << " want " << r.first);
		MC_CHECK(closeRot(b, eq(r.first), 16 * eps<R>()), "Quat::set(Mat4)", m4 << " got " << b << " want " << r.first);
		MC_CHECK(closeqq(Q::from(m3), a) && closeqq(Q::from(m4), b), "Quat::from(matrix)", m3);
		Mat3<R> back; back.set(a); MC_CHECK(maxdiff(back, r.second) <= 32 * eps<R>(), "matrix to Quat to matrix", m3 << " got " << back);
	};
	for (auto& r : rots) mats(r);
	for (auto& q : star_units()) mats({ q, quatO(3, q) });
}
// overload used above: EQ "got"
static bool closeRot(const EQ& g, const EQ& w, LD t)
{
	auto c = [&](const EQ& p) { return fabsl(g.x.v - p.x.v) <= t && fabsl(g.y.v - p.y.v) <= t && fabsl(g.z.v - p.z.v) <= t && fabsl(g.w.v - p.w.v) <= t; };
	return c(w) || c(neg(w));
}

static void between()
{
	section("from one vector to another");
	std::vector<Vec3<R>> vs; std::vector<R> c = thorough() ? std::vector<R>{ -3, -1, 0, R(0.5), 1, 2 } : std::vector<R>{ -1, 0, R(0.5), 2 };
	tuples(c, 3, [&](const R* p) { if (p[0] != 0 || p[1] != 0 || p[2] != 0) vs.push_back(mk3(p)); });
	size_t n = vs.size(); for (size_t i = 0; i < n; i += 3) { vs.push_back(-vs[i]); vs.push_back(vs[i] + Vec3<R>(R(0.03), R(-0.02), R(0.01))); vs.push_back(-vs[i] + Vec3<R>(R(0.02), R(0.01), R(-0.02))); vs.push_back(vs[i] * R(1e-3)); }
	auto fromto = [&](const Vec3<R>& f, const Vec3<R>& t)
	{
		state(); trace();
		EV<3> u = ev(f), v = ev(t); LD lu = sqrtl(dot(u, u).v), lv = sqrtl(dot(v, v).v); EV<3> x = cross(u, v);
		LD co = dot(u, v).v / (lu * lv), sn = sqrtl(dot(x, x).v) / (lu * lv);
		Q q; Q& rr = q.set(f, t); MC_CHECK(&rr == &q, "Quat::set(from,to) returns *this", ""); MC_CHECK(closeqq(Q::from(f, t), q), "Quat::from(from,to)", f << " " << t);
		bool snap = fabsl(co) > 0.999989L; // nearly parallel directions are taken as parallel
		LD tol = snap ? 6e-3L : 64 * eps<R>() / sn;
		MC_CHECK(fabsl(len(eq(q)) - 1) <= 64 * eps<R>() / (snap ? 1 : sn), "Quat::set(from,to) is a unit quaternion", f << " -> " << t << " got " << q);
		OM m = quatO(3, q); EV<3> g = m * (u / E(lu)); LD d = 0; for (int i = 0; i < 3; ++i) d = std::max(d, fabsl(g[i].v - v[i].v / lv));
		MC_CHECK(d <= tol, "Quat::set(from,to) takes from to to", f << " -> " << t << " got " << q << " which maps to " << g);
		// the shortest way: angle equals the angle between the vectors
		LD half = sqrtl(std::max(0.0L, (1 + co) / 2));
		MC_CHECK(fabsl(fabsl(q.w) - half) <= tol, "Quat::set(from,to) takes the shortest way", f << " -> " << t << " got " << q << " want w " << (double)half);
		sample([&](std::ostream& o) { o << f << " -> " << t << " : " << q; });
	};
	for (auto& f : vs) for (auto& t : vs) fromto(f, t);
	star<R>(6, [&](const R* p) { fromto(mk3(p), mk3(p + 3)); });
}

static EQ logO(const EQ& q) { LD l = sqrtl(q.x.v * q.x.v + q.y.v * q.y.v + q.z.v * q.z.v), a = atan2l(l, q.w.v); LD k = l > 0 ? a / l : 0; return { E(q.x.v * k), E(q.y.v * k), E(q.z.v * k), E(0) }; }
static EQ expO(const EQ& q) { LD a = sqrtl(q.x.v * q.x.v + q.y.v * q.y.v + q.z.v * q.z.v), k = a > 0 ? sinl(a) / a : 1; return { E(q.x.v * k), E(q.y.v * k), E(q.z.v * k), E(cosl(a)) }; }
static LD vlen(const EQ& q) { return sqrtl(q.x.v * q.x.v + q.y.v * q.y.v + q.z.v * q.z.v); }
static void logexp()
{
	section("log and exp");
	auto us = units();
	auto lg = [&](const Q& q)
	{
		state(); trace();
		EQ e = eq(q); bool singular = vlen(e) < 0.05L && e.w.v < 0; // the logarithm of a full turn has no axis
		if (!singular)
		{
			Q l = Q::log(q); EQ w = logO(e); LD tol = 32 * eps<R>() / std::max((LD)0.05L, e.w.v < 0 ? vlen(e) * vlen(e) : 1.0L);
			MC_CHECK(closeq(l, w, tol), "Quat::log", q << " got " << l << " want " << w);
			Q b = Q::exp(l); MC_CHECK(closeq(b, e, 2 * tol + (vlen(e) < 1e-2L ? 1e-6L : 0)), "exp(log(q)) is q", q << " got " << b);
		}
	};
	for (auto& q : us) lg(q);
	for (auto& q : star_units()) lg(q);
	std::vector<R> v = { -2, R(-0.3), 0, R(0.001), 1, R(2.5) };
	auto ex = [&](const R* p)
	{
		if (fabs(p[0]) + fabs(p[1]) + fabs(p[2]) > 1000) return;
		state(); trace();
		Q l = raw(p[0], p[1], p[2], 0), g = Q::exp(l); EQ w = expO(eq(l));
		MC_CHECK(closeq(g, w, (16 + 4 * vlen(eq(l))) * eps<R>()), "Quat::exp", l << " got " << g << " want " << w);
		if (vlen(eq(l)) < 3.0L) { Q b = Q::log(g); LD a = vlen(eq(l)); MC_CHECK(closeq(b, eq(l), 64 * eps<R>() * (1 + a / std::max(0.01L, sinl(a) * sinl(a)))+ (a < 0.02L ? 32 * eps<R>() : 0)), "log(exp(v)) is v", l << " got " << b); }
	};
	tuples(v, 3, ex); star<R>(3, ex);
	section("interpolation control point");
	auto control = [&](const Q& f, const Q& t, const Q& via)
	{
		EQ a = conj(eq(via)) * eq(f), b = conj(eq(via)) * eq(t);
		if ((a.w.v < 0 && vlen(a) < 0.3L) || (b.w.v < 0 && vlen(b) < 0.3L)) return;
		state(); trace();
		EQ la = logO(a), lb = logO(b), s = { E((la.x.v + lb.x.v) * -0.25L), E((la.y.v + lb.y.v) * -0.25L), E((la.z.v + lb.z.v) * -0.25L), E(0) };
		EQ w = eq(via) * expO(s); Q g; g.set(f, via, t); LD tol = 512 * eps<R>();
		MC_CHECK(closeq(g, w, tol), "Quat::set(from,via,to)", f << " " << via << " " << t << " got " << g << " want " << w);
		MC_CHECK(closeqq(Q::from(f, via, t), g), "Quat::from(from,via,to)", f);
	};
	for (auto& f : us) for (auto& t : us) for (size_t k = 0; k < us.size(); k += thorough() ? 3 : 11) control(f, t, us[k]);
	for (auto& q : star_units()) { control(q, us[1], us[7]); control(us[2], q, us[5]); control(us[60], us[11], q); }
}
// finite groups closed by breadth-first search through product, quotient, inverse and matrix round trips
static void group(const std::vector<EQ>& gens, size_t order, const char* name)
{
	section(name);
	auto key = [](const EQ& q) { std::vector<long> k; for (LD v : { q.x.v, q.y.v, q.z.v, q.w.v }) k.push_back(lroundl(v * 1e6L)); return k; };
	struct Node { Q q; EQ e; }; std::map<std::vector<long>, Node> seen; std::deque<Node> queue;
	auto mk = [](const EQ& e) { return raw((R)e.x.v, (R)e.y.v, (R)e.z.v, (R)e.w.v); };
	Node one = { raw(0, 0, 0, 1), { E(0), E(0), E(0), E(1) } }; seen[key(one.e)] = one; queue.push_back(one);
	while (!queue.empty())
	{
		Node c = queue.front(); queue.pop_front(); state();
		for (auto& g : gens) for (int op = 0; op < 4; ++op)
		{
			trace(); EQ w; Q r; Q gq = mk(g);
			if (op == 0) { w = c.e * g; r = c.q * gq; } else if (op == 1) { w = g * c.e; r = gq * c.q; }
			else if (op == 2) { w = c.e * conj(g); r = c.q / gq; } else { w = conj(c.e); r = c.q.inverse(); }
			MC_CHECK(closeq(r, w, 64 * eps<R>()), std::string(name) + " step", "op " << op << " of " << c.q << " and " << gq << " got " << r << " want " << w);
			Mat3<R> m; m.set(r); Q back; back.set(m);
			MC_CHECK(closeRot(back, w, 128 * eps<R>()), std::string(name) + " matrix round trip", r << " got " << back);
			for (LD* p : { &w.x.v, &w.y.v, &w.z.v, &w.w.v }) (void)p;
			EQ clean = { E(w.x.v), E(w.y.v), E(w.z.v), E(w.w.v) };
			if (seen.size() <= order && !seen.count(key(clean))) { Node n = { r, clean }; seen[key(clean)] = n; queue.push_back(n); }
		}
	}
	MC_CHECK(seen.size() == order, std::string(name) + " closes", "found " << seen.size() << " of " << order);
	// full multiplication table on the found elements
	for (auto& a : seen) for (auto& b : seen)
	{
		state(); trace(); Q p = a.second.q * b.second.q; EQ w = a.second.e * b.second.e;
		MC_CHECK(closeq(p, w, 256 * eps<R>()), std::string(name) + " table", a.second.q << " * " << b.second.q << " got " << p);
	}
}

void explore()
{
	ctx().bounds = "quaternion lattice pairs; unit quaternions x vectors; axis lattice x 7.5-degree grid; all vector pairs of a lattice; binary octahedral (48) and icosahedral (120) groups";
	algebra(); rotation(); conversions(); between(); logexp();
	LD h = sqrtl(0.5L), phi = (1 + sqrtl(5.0L)) / 2;
	group({ { E(h), E(0), E(0), E(h) }, { E(0.5L), E(0.5L), E(0.5L), E(0.5L) } }, 48, "binary octahedral group");
	group({ { E(0.5L), E(0.5L), E(0.5L), E(0.5L) }, { E(0.5L / phi), E(0), E(0.5L), E(phi / 2) } }, 120, "binary icosahedral group");
}
