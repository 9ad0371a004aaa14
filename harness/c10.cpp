// C10: spherical interpolation of angles, vectors, quaternions and rotation matrices: great-circle path, end points, shortest
// way, angle limits; also with the target aliasing an operand.
#include "mats.h"
typedef MC_REAL R;
typedef Quat<R> Q;
static const LD PI = acosl(-1.0L);
static bool fine = false; // whole ladders of weights and limits, or a few of them
static const std::vector<R>& weights()
{
	static const std::vector<R> few = thorough() ? std::vector<R>{ 0, R(0.001), R(0.1), R(0.25), R(1) / 3, R(0.5), R(0.7), R(0.9), R(0.999), 1 } : std::vector<R>{ 0, R(0.1), R(0.25), R(0.5), R(0.8), 1 };
	static const std::vector<R> all = [] { std::vector<R> r; for (R w : ladder<R>()) if (w >= 0 && w <= 1) r.push_back(w); r.push_back(1 - R(1e-3)); r.push_back(1 - R(1e-6)); return r; }();
	return fine ? all : few;
}
static const std::vector<R>& limits()
{
	static const std::vector<R> few = { 0, R(0.01), R(0.3), R(1), R(1.5707964), R(2.5), R(3.15), R(10) };
	static const std::vector<R> all = [] { std::vector<R> r; for (R w : ladder<R>()) if (w >= 0) r.push_back(w); return r; }();
	return fine ? all : few;
}

// ------------------------------------------------------------------------------------------------ angles
static LD centred(LD d) { d = fmodl(d, 2 * PI); if (d > PI) d -= 2 * PI; if (d < -PI) d += 2 * PI; return d; }
static void angles()
{
	section("angles");
	std::vector<R> as; for (int i = -30; i <= 30; i += thorough() ? 1 : 2) as.push_back((R)(i * PI / 12)); for (R x : { R(0.001), R(-1), R(2.5), R(3.1), R(-3.1), R(100), R(-40) }) as.push_back(x);
	auto pair = [&](R f, R t)
	{
		LD d = centred((LD)t - f), tol = 8 * eps<R>() * (fabsl(f) + fabsl(t) + 7);
		bool tie = fabsl(fabsl(d) - PI) < tol * 2;
		auto ok = [&](LD got, LD frac, LD lim) { LD a = f + std::max(-lim, std::min(lim, d)) * frac; if (fabsl(got - a) <= tol) return true; if (!tie) return false; a = f + std::max(-lim, std::min(lim, -d)) * frac; return fabsl(got - a) <= tol; };
		for (R w : weights())
		{
			state(); trace(); R g = ml::clerp(f, t, w);
			MC_CHECK(ok(g, w, 100), "clerp", f << " -> " << t << " at " << w << " got " << g << " want " << (double)(f + d * w));
		}
		for (R m : limits())
		{
			state(); trace(); R ratio = -5, g = ml::clerpMaxAngle(f, t, m), h = ml::clerpMaxAngle(f, t, m, ratio);
			MC_CHECK(ok(g, 1, m), "clerpMaxAngle", f << " -> " << t << " max " << m << " got " << g << " want step " << (double)d);
			MC_CHECK(ok(h, 1, m), "clerpMaxAngle with ratio", f << " -> " << t << " max " << m << " got " << h << " and " << g);
			LD want = fabsl(d) <= m ? 1 : m / fabsl(d);
			if (fabsl(d) > tol * 4) MC_CHECK(fabsl(ratio - want) <= tol / fabsl(d) * 4, "clerpMaxAngle ratio", f << " -> " << t << " max " << m << " got " << ratio << " want " << (double)want);
			else MC_CHECK(ratio >= 0 && ratio <= 1, "clerpMaxAngle ratio range", f << " -> " << t << " max " << m << " got " << ratio);
			sample([&](std::ostream& s) { s << f << " -> " << t << " max " << m << " = " << g; });
		}
	};
	for (R f : as) for (R t : as) pair(f, t);
	star<R>(2, [&](const R* p) { if (fabs(p[0]) <= 1000 && fabs(p[1]) <= 1000) pair(p[0], p[1]); });
	fine = true; for (size_t k = 0; k + 3 < as.size(); k += 3) for (size_t l = 1; l < as.size(); l += 4) pair(as[k], as[l]);
	fine = false;
}
// ------------------------------------------------------------------------------------------------ Vec3
struct L3 { LD v[3]; };
static L3 l3(const Vec3<R>& v) { return { { v.x, v.y, v.z } }; }
static LD dotL(const L3& a, const L3& b) { return a.v[0] * b.v[0] + a.v[1] * b.v[1] + a.v[2] * b.v[2]; }
static LD lenL(const L3& a) { return sqrtl(dotL(a, a)); }
static void vec3()
{
	section("Vec3");
	std::vector<Vec3<R>> vs; std::vector<R> c = deep() ? std::vector<R>{ -3, -1, 0, R(0.5), 2 } : std::vector<R>{ -1, 0, R(0.5), 2 };
	tuples(c, 3, [&](const R* p) { vs.push_back(mk3(p)); });
	size_t n = vs.size();
	for (size_t i = 0; i < n; i += 2) { vs.push_back(vs[i] + Vec3<R>(R(0.02), R(-0.01), R(0.03))); vs.push_back(-vs[i] + Vec3<R>(R(0.02), R(0.05), R(-0.03))); vs.push_back(vs[i] * R(100)); }
	for (auto& v : vs) v *= (R)UNIT();
	auto pair = [&](const Vec3<R>& u, const Vec3<R>& v)
	{
		L3 a = l3(u), b = l3(v); LD la = lenL(a), lb = lenL(b), big = std::max(la, lb);
		L3 x = { { a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0] } };
		LD lx = lenL(x), si = la * lb > 0 ? lx / (la * lb) : 0, co = la * lb > 0 ? dotL(a, b) / (la * lb) : 1, ang = atan2l(si, co);
		// the point at angle th from u towards v with length l
		auto at = [&](LD th, LD l) { L3 p; L3 e; LD pr = dotL(a, b) / (la * la); LD s = 0; for (int i = 0; i < 3; ++i) { e.v[i] = b.v[i] - pr * a.v[i]; s += e.v[i] * e.v[i]; } s = sqrtl(s); for (int i = 0; i < 3; ++i) p.v[i] = l * (cosl(th) * a.v[i] / la + sinl(th) * (s > 0 ? e.v[i] / s : 0)); return p; };
		auto dist = [&](const Vec3<R>& g, const L3& w) { LD d = 0; for (int i = 0; i < 3; ++i) { LD e = fabsl(comp(g, i) - w.v[i]); if (!(e <= d)) d = e == e ? e : 1e30L; } return d; };
		bool opposite = co < 0 && si < 1e-3L, exactOpposite = co < 0 && lx == 0;
		for (R w : weights())
		{
			state(); trace();
			Vec3<R> g; Vec3<R>& r = g.slerp(u, v, w); MC_CHECK(&r == &g, "Vec3::slerp returns *this", "");
			Vec3<R> al = u; al.slerp(al, v, w); MC_CHECK(closevv(al, g), "Vec3::slerp into its start", u << " -> " << v << " at " << w << " got " << al << " and " << g);
			al = v; al.slerp(u, al, w); MC_CHECK(closevv(al, g), "Vec3::slerp into its end", u << " -> " << v << " at " << w << " got " << al << " and " << g);
			MC_CHECK(closevv(Vec3<R>::fromSlerp(u, v, w), g), "Vec3::fromSlerp", u << " -> " << v << " at " << w);
			LD l = la + (lb - la) * w;
			if (w == 0 || w == 1) { MC_CHECK(same(g, w == 0 ? u : v), "Vec3::slerp end points", u << " -> " << v << " at " << w << " got " << g); continue; }
			if (la == 0 || lb == 0 || (si < 0.0502L && co > 0))
			{
				L3 p; for (int i = 0; i < 3; ++i) p.v[i] = a.v[i] + (b.v[i] - a.v[i]) * w;
				LD tol = 16 * eps<R>() * big;
				if (la > 0 && lb > 0) { p = at(ang * w, l); tol += 0.014L * fabsl(lb - la) * (si / 0.05L) + 0.0014L * big * (si / 0.05L); } // nearly parallel vectors may be interpolated linearly
				MC_CHECK(dist(g, p) <= tol, "Vec3::slerp", u << " -> " << v << " at " << w << " got " << g);
				continue;
			}
			MC_CHECK(fabsl(lenL(l3(g)) - l) <= 32 * eps<R>() * big, "Vec3::slerp length", u << " -> " << v << " at " << w << " got " << g << " want length " << (double)l);
			if (exactOpposite) { MC_CHECK(fabsl(dotL(l3(g), a) / (la * l) - cosl(PI * w)) <= 64 * eps<R>() * big / l, "Vec3::slerp between opposite vectors", u << " -> " << v << " at " << w << " got " << g); continue; }
			if (opposite) continue;
			L3 p = at(ang * w, l);
			MC_CHECK(dist(g, p) <= 64 * eps<R>() * big / std::min(1.0L, si * 4), "Vec3::slerp", u << " -> " << v << " at " << w << " got " << g << " want " << (double)p.v[0] << "," << (double)p.v[1] << "," << (double)p.v[2]);
		}
		if (la == 0 || lb == 0) return;
		for (R m : limits())
		{
			state(); trace();
			Vec3<R> g; g.slerpMaxAngle(u, v, m);
			Vec3<R> al = u; al.slerpMaxAngle(al, v, m); MC_CHECK(closevv(al, g), "Vec3::slerpMaxAngle into its start", u << " -> " << v << " max " << m << " got " << al << " and " << g);
			al = v; al.slerpMaxAngle(u, al, m); MC_CHECK(closevv(al, g), "Vec3::slerpMaxAngle into its end", u << " -> " << v << " max " << m << " got " << al << " and " << g);
			MC_CHECK(closevv(Vec3<R>::fromSlerpMaxAngle(u, v, m), g), "Vec3::fromSlerpMaxAngle", u << " -> " << v);
			if (m == 0) { MC_CHECK(same(g, u), "Vec3::slerpMaxAngle by 0", u << " -> " << v << " got " << g); continue; }
			LD th = std::min(ang, (LD)m), ratio = ang > 0 ? th / ang : 1, l = la + (lb - la) * ratio;
			// parallel: any of the lengths on the way may result from rounding noise in a vanishing angle
			if (si < 1e-5L && co > 0 && m < R(1e-4)) continue;
			if (si < 1e-5L && co > 0) { MC_CHECK(dist(g, b) <= 2e-5L * big, "Vec3::slerpMaxAngle of parallel vectors", u << " -> " << v << " max " << m << " got " << g); continue; }
			LD tol = 64 * eps<R>() * big / std::min(1.0L, si);
			if (exactOpposite) { MC_CHECK(fabsl(dotL(l3(g), a) / (la * l) - cosl(th)) <= 64 * eps<R>() * big / l, "Vec3::slerpMaxAngle between opposite vectors", u << " -> " << v << " max " << m << " got " << g); continue; }
			if (opposite) continue;
			L3 p = at(th, l);
			MC_CHECK(dist(g, p) <= tol, "Vec3::slerpMaxAngle", u << " -> " << v << " max " << m << " got " << g << " want " << (double)p.v[0] << "," << (double)p.v[1] << "," << (double)p.v[2]);
			sample([&](std::ostream& s) { s << u << " -> " << v << " max " << m << " = " << g; });
		}
	};
	for (auto& u : vs) for (auto& v : vs) pair(u, v);
	if (UNIT() == 1) star<R>(6, [&](const R* p) { pair(mk3(p), mk3(p + 3)); });
	fine = true; for (size_t k = 1; k + 3 < vs.size(); k += vs.size() / 11) for (size_t l = 2; l < vs.size(); l += vs.size() / 13) pair(vs[k], vs[l]);
	fine = false;
}
// Vec2: the angle goes the short way round, the length is interpolated linearly
static void vec2()
{
	section("Vec2");
	typedef Vec2<R> V;
	std::vector<V> vs; std::vector<R> c = deep() ? std::vector<R>{ -3, -1, R(-0.2), 0, R(0.5), 2, 5 } : std::vector<R>{ -3, -1, 0, R(0.5), 2 };
	tuples(c, 2, [&](const R* p) { vs.push_back(mk2(p)); });
	for (int i = 0; i < 24; ++i) vs.push_back(V::fromAngle(R(i * 0.27 - 3.2), R(1 + i % 5)));
	for (auto& v : vs) v *= (R)UNIT();
	auto pair = [&](const V& u, const V& v)
	{
		LD la = hypotl(u.x, u.y), lb = hypotl(v.x, v.y), big = std::max(la, lb), au = la > 0 ? atan2l(u.y, u.x) : 0, d = centred((lb > 0 ? atan2l(v.y, v.x) : 0) - au);
		bool tie = fabsl(fabsl(d) - PI) < 1e-5L, null = la == 0 || lb == 0;
		LD tol = 64 * eps<R>() * (big + 1e-30L * UNIT());
		// the angle f*d away from u (either way when opposite), with length l
		auto ok = [&](const V& g, LD step, LD l, LD slack = 0) { // slack: the ratio of two rounded angles decides the length
			LD lg = hypotl(g.x, g.y); if (!(fabsl(lg - l) <= tol + slack)) return false;
			if (null) return true;
			for (int k = 0; k < (tie ? 2 : 1); ++k) { LD a = au + (k ? -step : step); if (hypotl(g.x - l * cosl(a), g.y - l * sinl(a)) <= tol * 4 + slack) return true; }
			return false; };
		for (R w : weights())
		{
			state(); trace();
			V g; V& r = g.clerp(u, v, w); MC_CHECK(&r == &g, "Vec2::clerp returns *this", "");
			V al = u; al.clerp(al, v, w); MC_CHECK(same(al, g), "Vec2::clerp into its start", u << " -> " << v << " at " << w << " got " << al << " and " << g);
			al = v; al.clerp(u, al, w); MC_CHECK(same(al, g), "Vec2::clerp into its end", u << " -> " << v << " at " << w << " got " << al << " and " << g);
			MC_CHECK(same(V::fromClerp(u, v, w), g), "Vec2::fromClerp", u << " -> " << v << " at " << w);
			if (w == 0 || w == 1) { MC_CHECK(same(g, w == 0 ? u : v), "Vec2::clerp end points", u << " -> " << v << " at " << w << " got " << g); continue; }
			MC_CHECK(ok(g, d * w, la + (lb - la) * w), "Vec2::clerp", u << " -> " << v << " at " << w << " got " << g);
		}
		for (R m : limits())
		{
			state(); trace();
			V g; V& r = g.clerpMaxAngle(u, v, m); MC_CHECK(&r == &g, "Vec2::clerpMaxAngle returns *this", "");
			V al = u; al.clerpMaxAngle(al, v, m); MC_CHECK(same(al, g), "Vec2::clerpMaxAngle into its start", u << " -> " << v << " max " << m << " got " << al << " and " << g);
			al = v; al.clerpMaxAngle(u, al, m); MC_CHECK(same(al, g), "Vec2::clerpMaxAngle into its end", u << " -> " << v << " max " << m << " got " << al << " and " << g);
			MC_CHECK(same(V::fromClerpMaxAngle(u, v, m), g), "Vec2::fromClerpMaxAngle", u << " -> " << v << " max " << m);
			if (m == 0) { MC_CHECK(same(g, u), "Vec2::clerpMaxAngle by 0", u << " -> " << v << " got " << g); continue; }
			if (null) continue;
			LD ratio = fabsl(d) > m ? m / fabsl(d) : 1;
			if (fabsl(d) < 1e-5L && m < R(1e-4)) continue;
			if (fabsl(d) < 1e-5L) { MC_CHECK(hypotl(g.x - v.x, g.y - v.y) <= 2e-5L * big, "Vec2::clerpMaxAngle of parallel vectors", u << " -> " << v << " max " << m << " got " << g); continue; }
			MC_CHECK(ok(g, d * ratio, la + (lb - la) * ratio, ratio < 1 ? fabsl(lb - la) * ratio * 16 * eps<R>() / fabsl(d) : 0), "Vec2::clerpMaxAngle", u << " -> " << v << " max " << m << " got " << g);
			sample([&](std::ostream& s) { s << u << " -> " << v << " max " << m << " = " << g; });
		}
	};
	for (auto& u : vs) for (auto& v : vs) pair(u, v);
	if (UNIT() == 1) star<R>(4, [&](const R* p) { pair(mk2(p), mk2(p + 2)); });
	fine = true; for (size_t k = 1; k + 3 < vs.size(); k += vs.size() / 11) for (size_t l = 2; l < vs.size(); l += vs.size() / 13) pair(vs[k], vs[l]);
	fine = false;
}
// ------------------------------------------------------------------------------------------------ quaternions
struct L4 { LD v[4]; };
static L4 l4(const Q& q) { return { { q.x, q.y, q.z, q.w } }; }
static LD dot4(const L4& a, const L4& b) { LD s = 0; for (int i = 0; i < 4; ++i) s += a.v[i] * b.v[i]; return s; }
static L4 slerpO(const L4& a, const L4& b, LD w) // along the great circle through a and b, no sign change
{
	LD d = dot4(a, b), s2 = 0; L4 e; for (int i = 0; i < 4; ++i) { e.v[i] = b.v[i] - d * a.v[i]; s2 += e.v[i] * e.v[i]; }
	LD s = sqrtl(s2), th = atan2l(s, d); L4 r; for (int i = 0; i < 4; ++i) r.v[i] = cosl(th * w) * a.v[i] + (s > 0 ? sinl(th * w) * e.v[i] / s : 0); return r;
}
static L4 negL(L4 a) { for (auto& x : a.v) x = -x; return a; }
static LD diff4(const Q& g, const L4& w) { LD d = 0; L4 h = l4(g); for (int i = 0; i < 4; ++i) { LD e = fabsl(h.v[i] - w.v[i]); if (!(e <= d)) d = e == e ? e : 1e30L; } return d; }
static bool sameq(const Q& a, const Q& b) { return a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w; }
static Q mk(LD x, LD y, LD z, LD w) { LD l = sqrtl(x * x + y * y + z * z + w * w); return Q(R(x / l), R(y / l), R(z / l), R(w / l), false); }
static const LD NL = 1.3e-3L; // nearby quaternions (dot >= 0.95) may be interpolated linearly and normalised
static std::vector<Q> units()
{
	std::vector<Q> r;
	std::vector<LD> v = thorough() ? std::vector<LD>{ -1, 0, 0.5L, 1 } : std::vector<LD>{ -1, 0, 1 };
	tuples(v, 4, [&](const LD* p) { if (p[0] != 0 || p[1] != 0 || p[2] != 0 || p[3] != 0) r.push_back(mk(p[0], p[1], p[2], p[3])); });
	for (LD a : { 0.01L, 0.3L, 0.55L, 0.65L, 1.9L, 3.0L, -0.4L, 5.0L }) { LD s = sinl(a / 2); r.push_back(mk(s, 0, 0, cosl(a / 2))); r.push_back(mk(s * 0.6L, -s * 0.8L, 0, cosl(a / 2))); }
	return r;
}
static void quats()
{
	section("Quat");
	auto us = units();
	auto pair = [&](const Q& f, const Q& t)
	{
		L4 a = l4(f), b = l4(t); LD d = dot4(a, b);
		bool tie = fabsl(d) < 1e-6L;
		L4 bs = d < 0 ? negL(b) : b; LD ad = fabsl(d);
		for (R w : weights())
		{
			state(); trace();
			Q g; Q& r = g.slerp(f, t, w); MC_CHECK(&r == &g, "Quat::slerp returns *this", "");
			MC_CHECK(closeqq(Q::fromSlerp(f, t, w), g), "Quat::fromSlerp", f << " -> " << t);
			Q al = f; al.slerp(al, t, w); MC_CHECK(closeqq(al, g), "Quat::slerp into its start", f << " -> " << t << " at " << w << " got " << al << " and " << g);
			al = t; al.slerp(f, al, w); MC_CHECK(closeqq(al, g), "Quat::slerp into its end", f << " -> " << t << " at " << w << " got " << al << " and " << g);
			LD ends = w == 0 || w == 1 ? 0 : 1;
			LD tol = (ad >= 0.94999L ? NL * ends : 0) + 32 * eps<R>();
			MC_CHECK(diff4(g, slerpO(a, bs, w)) <= tol || (tie && diff4(g, slerpO(a, negL(bs), w)) <= tol), "Quat::slerp", f << " -> " << t << " at " << w << " got " << g);
			LD l = sqrtl(dot4(l4(g), l4(g))); MC_CHECK(fabsl(l - 1) <= 32 * eps<R>(), "Quat::slerp gives a unit quaternion", f << " -> " << t << " at " << w << " got " << g);
			if (d > -0.99L)
			{
				Q h; h.slerpNoInvert(f, t, w); LD s2 = std::max(0.02L, 1 - d * d);
				LD tl = (d >= 0.94999L ? NL * ends : 0) + 32 * eps<R>() / s2;
				MC_CHECK(diff4(h, slerpO(a, b, w)) <= tl, "Quat::slerpNoInvert", f << " -> " << t << " at " << w << " got " << h);
				MC_CHECK(closeqq(Q::fromSlerpNoInvert(f, t, w), h), "Quat::fromSlerpNoInvert", f << " -> " << t);
				al = f; al.slerpNoInvert(al, t, w); MC_CHECK(closeqq(al, h), "Quat::slerpNoInvert into its start", f << " -> " << t << " at " << w);
				Q n; n.lerp(f, t, w); L4 p; LD s = 0; for (int i = 0; i < 4; ++i) { p.v[i] = a.v[i] + (b.v[i] - a.v[i]) * w; s += p.v[i] * p.v[i]; } s = sqrtl(s); for (auto& x : p.v) x /= s;
				MC_CHECK(diff4(n, p) <= 16 * eps<R>() / s, "Quat::lerp", f << " -> " << t << " at " << w << " got " << n);
				MC_CHECK(closeqq(Q::fromLerp(f, t, w), n), "Quat::fromLerp", f << " -> " << t);
			}
		}
		LD ang = 2 * atan2l(sqrtl(std::max(0.0L, 1 - d * d)), ad); if (ad > 0.9999L) { LD s = 0; for (int i = 0; i < 4; ++i) s += powl(bs.v[i] - a.v[i], 2); ang = 4 * asinl(sqrtl(s) / 2); }
		for (R m : limits())
		{
			state(); trace();
			Q g; Q& r = g.slerpMaxAngle(f, t, m); MC_CHECK(&r == &g, "Quat::slerpMaxAngle returns *this", "");
			MC_CHECK(closeqq(Q::fromSlerpMaxAngle(f, t, m), g), "Quat::fromSlerpMaxAngle", f << " -> " << t);
			Q al = f; al.slerpMaxAngle(al, t, m); MC_CHECK(closeqq(al, g), "Quat::slerpMaxAngle into its start", f << " -> " << t);
			al = t; al.slerpMaxAngle(f, al, m); MC_CHECK(closeqq(al, g), "Quat::slerpMaxAngle into its end", f << " -> " << t);
			LD w = ang > m ? m / ang : 1, tol = ang < 2.2e-3L ? 1.3e-3L : 64 * eps<R>() / std::min(1.0L, ang) + 8 * eps<R>(); // tiny angles may be taken as 0
			MC_CHECK(diff4(g, slerpO(a, bs, w)) <= tol || (tie && diff4(g, slerpO(a, negL(bs), w)) <= tol), "Quat::slerpMaxAngle", f << " -> " << t << " max " << m << " angle " << (double)ang << " got " << g);
			sample([&](std::ostream& s) { s << f << " -> " << t << " max " << m << " = " << g; });
		}
	};
	for (auto& f : us) for (auto& t : us) pair(f, t);
	star<R>(8, [&](const R* p) { pair(mk(p[0], p[1], p[2], p[3]), mk(p[4], p[5], p[6], p[7])); });
	fine = true; for (size_t k = 1; k < us.size(); k += us.size() / 9) for (size_t l = 2; l < us.size(); l += us.size() / 11) pair(us[k], us[l]);
	fine = false;
	section("Quat spherical quadrangle");
	auto quad = [&](size_t i, size_t j, size_t k, size_t l, R w)
	{
		L4 f = l4(us[i]), t = l4(us[j]), a = l4(us[k]), b = l4(us[l]);
		if (dot4(f, t) < -0.9L || dot4(a, b) < -0.9L) return;
		L4 p = slerpO(f, t, w), q = slerpO(a, b, w); if (dot4(p, q) < -0.9L) return;
		state(); trace();
		Q g; g.set(us[i], us[j], us[k], us[l], w); L4 want = slerpO(p, q, 2 * w * (1 - w));
		MC_CHECK(diff4(g, want) <= 8 * NL, "Quat::set(from,to,a,b,weight)", us[i] << us[j] << us[k] << us[l] << " at " << w << " got " << g);
		if (w == 0 || w == 1) MC_CHECK(diff4(g, want) <= 256 * eps<R>(), "Quat::set(from,to,a,b,weight) end points", us[i] << us[j] << us[k] << us[l] << " at " << w << " got " << g);
		MC_CHECK(closeqq(Q::from(us[i], us[j], us[k], us[l], w), g), "Quat::from(from,to,a,b,weight)", "");
		Q u, v, e; u.slerpNoInvert(us[i], us[j], w); v.slerpNoInvert(us[k], us[l], w); LD uv = dot4(l4(u), l4(v)); e.slerpNoInvert(u, v, 2 * w * (1 - w));
		if (fabsl(uv - 0.95L) > 1e-4L && uv > -0.9L) MC_CHECK(diff4(g, l4(e)) <= 1024 * eps<R>(), "Quat::set(from,to,a,b,weight) is the slerp of the two slerps", us[i] << us[j] << us[k] << us[l] << " at " << w << " got " << g << " want " << e);
	};
	for (size_t i = 0; i < us.size(); i += thorough() ? 5 : 7) for (size_t j = 1; j < us.size(); j += thorough() ? 6 : 9) for (size_t k = 2; k < us.size(); k += thorough() ? 7 : 11) for (size_t l = 3; l < us.size(); l += thorough() ? 7 : 13)
	{
		fine = (i + j + k + l) % 11 == 5;
		for (R w : weights()) quad(i, j, k, l, w);
	}
	fine = false;
}
// ------------------------------------------------------------------------------------------------ matrices
template <class M> struct MatOps;
template <> struct MatOps<Mat3<R>> { static Mat3<R> make(const OM& o, int) { return MT<Mat3<R>>::make(o); } };
template <> struct MatOps<Mat34<R>> { static Mat34<R> make(const OM& o, int k) { OM p = OM::identity(4); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) p.a[i][j] = o.a[i][j]; p.a[0][3] = E(k); p.a[2][3] = E(-3); return MT<Mat34<R>>::make(p); } };
template <class M> static void mats()
{
	const char* nm = MT<M>::name(); section(nm); fine = false;
	auto us = units(); const int n = MT<M>::n;
	auto want = [&](const L4& q) { OM m = OM::identity(n); struct { LD x, y, z, w; } s = { q.v[0], q.v[1], q.v[2], q.v[3] }; OM p = quatO(3, s); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = p.a[i][j]; return m; };
	for (size_t i = 0; i < us.size(); i += thorough() ? 1 : 2) for (size_t j = 0; j < us.size(); j += thorough() ? 1 : 3)
	{
		fine = i % 7 == 4 && j % 9 == 6;
		M a = MatOps<M>::make(quatO(3, us[i]), (int)i % 5), b = MatOps<M>::make(quatO(3, us[j]), (int)j % 3);
		L4 f = l4(us[i]), t = l4(us[j]); LD d = dot4(f, t), ad = fabsl(d); if (ad < 1e-5L) { state(); continue; }
		if (d < 0) t = negL(t);
		for (R w : weights())
		{
			state(); trace(); LD ends = w == 0 || w == 1 ? 0 : 1;
			M g; M& r = g.slerp(a, b, w); MC_CHECK(&r == &g, std::string(nm) + "::slerp returns *this", "");
			OM o = want(slerpO(f, t, w)); MC_CHECK(maxdiff(g, o) <= (ad >= 0.9499L ? 4 * NL * ends : 0) + 128 * eps<R>(), std::string(nm) + "::slerp", a << " -> " << b << " at " << w << " got " << g << " want " << o);
			MC_CHECK(closem(M::fromSlerp(a, b, w), g), std::string(nm) + "::fromSlerp", a << " -> " << b);
			M al = a; al.slerp(al, b, w); MC_CHECK(closem(al, g), std::string(nm) + "::slerp into its start", a << " -> " << b << " at " << w); al = b; al.slerp(a, al, w); MC_CHECK(closem(al, g), std::string(nm) + "::slerp into its end", a << " -> " << b << " at " << w);
		}
		LD ang = 2 * atan2l(sqrtl(std::max(0.0L, 1 - d * d)), ad);
		for (R m : limits())
		{
			state(); trace();
			M g; g.slerpMaxAngle(a, b, m); LD w = ang > m ? m / ang : 1;
			OM o = want(slerpO(f, t, w)); MC_CHECK(maxdiff(g, o) <= (ang < 0.01L ? 6e-3L : 256 * eps<R>() / std::min(1.0L, ang)), std::string(nm) + "::slerpMaxAngle", a << " -> " << b << " max " << m << " got " << g << " want " << o);
			MC_CHECK(closem(M::fromSlerpMaxAngle(a, b, m), g), std::string(nm) + "::fromSlerpMaxAngle", a << " -> " << b);
			M al = a; al.slerpMaxAngle(al, b, m); MC_CHECK(closem(al, g), std::string(nm) + "::slerpMaxAngle into its start", a << " -> " << b << " max " << m);
			sample([&](std::ostream& s) { s << a << " -> " << b << " max " << m << " = " << g; });
		}
	}
}
static void mat2()
{
	section("Mat2"); typedef Mat2<R> M;
	std::vector<LD> as; for (int i = -24; i <= 24; ++i) as.push_back(i * PI / 12 + 0.01L * (i % 3));
	for (LD x : as) for (LD y : as)
	{
		fine = int(x * 7) % 5 == 3;
		M a, b; a.set((R)x); b.set((R)y); LD d = centred((LD)(R)y - (R)x); if (fabsl(fabsl(d) - PI) < 1e-4L) continue;
		for (R w : weights()) { state(); trace(); M g; g.slerp(a, b, w); OM o = rot2O((R)x + d * w); MC_CHECK(maxdiff(g, o) <= 64 * eps<R>(), "Mat2::slerp", (double)x << " -> " << (double)y << " at " << w << " got " << g << " want " << o); MC_CHECK(closem(M::fromSlerp(a, b, w), g), "Mat2::fromSlerp", ""); M al = a; al.slerp(al, b, w); MC_CHECK(closem(al, g), "Mat2::slerp into its start", ""); }
		for (R m : limits()) { state(); trace(); M g; g.slerpMaxAngle(a, b, m); OM o = rot2O((R)x + std::max(-(LD)m, std::min((LD)m, d))); MC_CHECK(maxdiff(g, o) <= 64 * eps<R>(), "Mat2::slerpMaxAngle", (double)x << " -> " << (double)y << " max " << m << " got " << g << " want " << o); MC_CHECK(closem(M::fromSlerpMaxAngle(a, b, m), g), "Mat2::fromSlerpMaxAngle", ""); }
		R an = a.angle(); MC_CHECK(fabsl(centred((LD)an - (R)x)) <= 16 * eps<R>(), "Mat2::angle", (double)x << " got " << an);
	}
}
void explore()
{
	ctx().bounds = "angle pairs on a 15/30-degree lattice; all Vec3/quaternion lattice pairs x weights x angle limits; rotation matrix pairs";
	angles(); inUnits<R>([] { vec2(); vec3(); }); quats(); mats<Mat3<R>>(); mats<Mat34<R>>(); fine = false; mat2();
}
