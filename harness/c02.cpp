// C02: rotation, mirroring, polar form and normalisation of Vec2 / Vec3
#include "vecs.h"
typedef MC_REAL R;
// all tuples of the alphabet; together with the alphabets that are not scaled, also the ladders
template <class F> static void tuplesV(const std::vector<R>& v, size_t n, F f) { tuples(v, n, f); if (std::find(v.begin(), v.end(), R(1)) != v.end()) star<R>(n, f); }

#define EQ(site, got, want) do { auto mc_g = (got); auto mc_w = (want); MC_CHECK(closev(mc_g, mc_w), site, "v=" << v << " angle=" << (double)ang << " k=" << k << " got " << mc_g << " want " << mc_w); } while (0)
#define EX(site, got, want) do { auto mc_g = (got); auto mc_w = (want); MC_CHECK(same(mc_g, mc_w), site, "v=" << v << " k=" << k << " got " << mc_g << " want " << mc_w); } while (0)
#define OK(site, cond) MC_CHECK(cond, site, "v=" << v << " angle=" << (double)ang << " k=" << k)

// E with the magnitude of the whole vector (a rotation mixes all components)
template <int N> EV<N> widen(EV<N> v) { LD m = 0; for (int i = 0; i < N; ++i) m = std::max(m, v[i].m); for (int i = 0; i < N; ++i) v[i].m = m; return v; }

static void rotations(const std::vector<R>& vals, const std::vector<LD>& angles, const std::string& tag)
{
	R k = 0;
	section("Vec2 rotation" + tag);
	tuplesV(vals, 2, [&](const R* p) {
		Vec2<R> v = mk2(p);
		for (LD a0 : angles)
		{
			state();
			R a = (R)a0; LD ang = a;
			LD s = sinl(ang), c = cosl(ang);
			EV<2> w; w[0] = E(v.x) * E(c) - E(v.y) * E(s); w[1] = E(v.x) * E(s) + E(v.y) * E(c); 
			EV<2> base = widen(ev(v)); w[0].m = base[0].m * 2; w[1].m = base[0].m * 2;
			EQ("Vec2::rotated", v.rotated(a), w);
			Vec2<R> t = v; Vec2<R>& r = t.rotate(a); EQ("Vec2::rotate", t, w); OK("Vec2::rotate", &r == &t);
			trace();
		}
		LD ang = 0;
		state();
		EX("Vec2::rotated90", v.rotated90(), Vec2<R>(-v.y, v.x));
		EX("Vec2::rotated180", v.rotated180(), Vec2<R>(-v.x, -v.y));
		EX("Vec2::rotated270", v.rotated270(), Vec2<R>(v.y, -v.x));
		Vec2<R> t = v; t.rotate90(); EX("Vec2::rotate90", t, Vec2<R>(-v.y, v.x));
		t = v; t.rotate180(); EX("Vec2::rotate180", t, Vec2<R>(-v.x, -v.y));
		t = v; t.rotate270(); EX("Vec2::rotate270", t, Vec2<R>(v.y, -v.x));
		EX("Vec2::mirrored", v.mirrored(Coord::X), Vec2<R>(-v.x, v.y));
		EX("Vec2::mirrored", v.mirrored(Coord::Y), Vec2<R>(v.x, -v.y));
		t = v; t.mirror(Coord::X); EX("Vec2::mirror", t, Vec2<R>(-v.x, v.y));
		t = v; t.mirror(Coord::Y); EX("Vec2::mirror", t, Vec2<R>(v.x, -v.y));
		// polar form
		if (!v.isNull())
		{
			R an = v.angle();
			LD want = atan2l(v.y, v.x);
			OK("Vec2::angle", close(an, want, 8 * eps<R>() * 4));
			Vec2<R> q = Vec2<R>::fromAngle(an, v.length());
			EV<2> w = ev(v); w = widen(w); w[0].m *= 2; w[1].m *= 2;
			EQ("Vec2::fromAngle(angle,length)", q, w);
			t = Vec2<R>(5, 6); t.setAngle(an, v.length()); EQ("Vec2::setAngle", t, w);
		}
		trace();
		sample([&](std::ostream& s) { s << "v=" << v; });
	});
	section("Vec2 polar" + tag);
	for (R len : vals)
		for (LD a0 : angles)
		{
			state();
			R a = (R)a0; LD ang = a; Vec2<R> v(len, 0);
			EV<2> w; w[0] = E(cosl(ang) * len, fabsl((LD)len)); w[1] = E(sinl(ang) * len, fabsl((LD)len));
			EQ("Vec2::fromAngle", Vec2<R>::fromAngle(a, len), w);
			EV<2> u; u[0] = E(cosl(ang), 1.0L); u[1] = E(sinl(ang), 1.0L);
			EQ("Vec2::fromAngle(default)", Vec2<R>::fromAngle(a), u);
			Vec2<R> t(3, 4); t.setAngle(a); EQ("Vec2::setAngle(default)", t, u);
			t.setAngle(a, len); EQ("Vec2::setAngle(len)", t, w);
			trace();
		}
	section("Vec3 rotation" + tag);
	tuplesV(vals, 3, [&](const R* p) {
		Vec3<R> v = mk3(p);
		LD M = fabsl((LD)v.x) + fabsl((LD)v.y) + fabsl((LD)v.z);
		for (LD a0 : angles)
		{
			state();
			R a = (R)a0; LD ang = a;
			LD s = sinl(ang), c = cosl(ang);
			for (int ax = 0; ax < 3; ++ax)
			{
				int i = (ax + 1) % 3, j = (ax + 2) % 3;
				EV<3> w = ev(v);
				w[i] = E(comp(v, i) * c - comp(v, j) * s, M);
				w[j] = E(comp(v, i) * s + comp(v, j) * c, M);
				Vec3<R> g = v.rotated((Coord)ax, a);
				EQ("Vec3::rotated", g, w);
				Vec3<R> t = v; t.rotate((Coord)ax, a); EQ("Vec3::rotate", t, w);
				OK("Vec3::rotate keeps the axis component", comp(t, ax) == comp(v, ax) && comp(g, ax) == comp(v, ax));
			}
			trace();
		}
		LD ang = 0;
		for (int ax = 0; ax < 3; ++ax)
		{
			Vec3<R> w(ax == 0 ? -v.x : v.x, ax == 1 ? -v.y : v.y, ax == 2 ? -v.z : v.z);
			EX("Vec3::mirrored", v.mirrored((Coord)ax), w);
			Vec3<R> t = v; t.mirror((Coord)ax); EX("Vec3::mirror", t, w);
		}
		sample([&](std::ostream& s) { s << "v=" << v; });
	});
}

template <class V> void normalise(const std::vector<R>& vals, const std::string& tag)
{
	std::vector<R> ks = { R(1), R(2), R(0.5), R(-3), R(0), R(1000), R(0.1) }; if (vals.size() > 5) ks = rungs<R>();
	const int N = Dim<V>::n;
	section("Vec" + std::to_string(N) + " normalise" + tag);
	tuplesV(vals, N, [&](const R* p) {
		V v = Dim<V>::make(p);
		auto A = ev(v);
		E len = esqrt(dot(A, A));
		LD ang = 0;
		for (R k : ks)
		{
			state();
			V t = v;
			R l = t.normalize(k);
			V u = v.normalized(k);
			if (v.isNull())
			{
				OK("normalize of the null vector", l == 0 && t.isNull() && u.isNull());
			}
			else
			{
				OK("normalize returns the previous length", near(l, len));
				auto W = A * E(k) / len;
				EQ("normalize", t, W); EQ("normalized", u, W);
				OK("normalize length", close<R>((R)sqrtl((LD)(t * t)), fabsl((LD)k), 16 * eps<R>() * fabsl((LD)k)));
			}
			trace();
		}
		R k = 1;
		V t = v; t.normalize(); V u = v.normalized();
		if (!v.isNull()) { EQ("normalize default", t, A / len); EQ("normalized default", u, A / len); }
		sample([&](std::ostream& s) { s << "v=" << v; });
	});
}

// Histories: every word of length <= depth over the quarter-turn / mirror group is run in place on one object and
// compared with exact integer bookkeeping (explicit-state exploration of the group's orbit).
static void histories(int depth)
{
	section("Vec2 histories of quarter turns and mirrors");
	LD ang = 0; R k = 0;
	const R HPI = ml::Constants<R>::PI_OVER_2;
	std::set<std::pair<int,int>> seen;
	for (int sx : { 3, -1 }) for (int sy : { 2, 0 })
	{
		std::function<void(Vec2<R>, int, int, int)> rec = [&](Vec2<R> v, int x, int y, int d) {
			if (seen.insert({ x, y }).second) state();
			EV<2> w; w[0] = E((LD)x, 4.0L * (depth + 1)); w[1] = E((LD)y, 4.0L * (depth + 1));
			EQ("Vec2 history", v, w);
			if (d == 0) { trace(); return; }
			for (int op = 0; op < 8; ++op)
			{
				Vec2<R> t = v; int nx = x, ny = y;
				switch (op)
				{
				case 0: t.rotate90(); nx = -y; ny = x; break;
				case 1: t.rotate180(); nx = -x; ny = -y; break;
				case 2: t.rotate270(); nx = y; ny = -x; break;
				case 3: t.mirror(Coord::X); nx = -x; break;
				case 4: t.mirror(Coord::Y); ny = -y; break;
				case 5: t.rotate(HPI); nx = -y; ny = x; break;
				case 6: t.rotate(-HPI); nx = y; ny = -x; break;
				case 7: t = t.rotated(HPI * 2); nx = -x; ny = -y; break;
				}
				rec(t, nx, ny, d - 1);
			}
		};
		rec(Vec2<R>((R)sx, (R)sy), sx, sy, depth);
	}
	section("Vec3 histories of quarter turns and mirrors");
	std::set<std::array<int,3>> seen3;
	std::function<void(Vec3<R>, std::array<int,3>, int)> rec3 = [&](Vec3<R> v, std::array<int,3> m, int d) {
		if (seen3.insert(m).second) state();
		EV<3> w; for (int i = 0; i < 3; ++i) w[i] = E((LD)m[i], 4.0L * (depth + 1));
		EQ("Vec3 history", v, w);
		if (d == 0) { trace(); return; }
		for (int op = 0; op < 9; ++op)
		{
			Vec3<R> t = v; auto n = m; int ax = op % 3, i = (ax + 1) % 3, j = (ax + 2) % 3;
			if (op < 3) { t.rotate((Coord)ax, HPI); n[i] = -m[j]; n[j] = m[i]; }
			else if (op < 6) { t = t.rotated((Coord)ax, -HPI); n[i] = m[j]; n[j] = -m[i]; }
			else { t.mirror((Coord)ax); n[ax] = -m[ax]; }
			rec3(t, n, d - 1);
		}
	};
	rec3(Vec3<R>(1, 2, -3), { 1, 2, -3 }, depth - 1);
}

void explore()
{
	const bool T = thorough();
	const R up = std::is_same<R, float>::value ? R(1ll << 40) : std::ldexp(R(1), 300);
	const R dn = 1 / up;
	const std::vector<R> mixed = { 0, 1, R(-0.75), 1000, R(-1e-3), 3, R(-7e4) };
	const std::vector<R> five = { 0, 1, R(-2.5), R(0.125), 100 };
	auto angles = angle_grid(T), steep = angles;
	for (R a : ladder<R>()) if (fabs(a) <= 1000) angles.push_back(a);
	rotations(T ? std::vector<R>{ 0, 1, R(-0.75), 1000, R(-1e-3), 3, R(-7e4), R(0.3), -2, 12, R(-0.1) } : mixed, angles, "");
	rotations(scaled(five, up), steep, " x huge");
	rotations(scaled(five, dn), steep, " x tiny");
	std::vector<R> nv = T ? std::vector<R>{ 0, 1, -1, R(0.1), R(-2.75), 3, 1024, R(1e-5), R(-3e-4), R(1e6), R(-12345.678) } : std::vector<R>{ 0, 1, -1, R(0.1), R(-2.75), 3, 1024, R(1e-5), R(-12345.678) };
	normalise<Vec2<R>>(nv, ""); normalise<Vec3<R>>(nv, "");
	normalise<Vec2<R>>(scaled(five, up), " x huge"); normalise<Vec3<R>>(scaled(five, up), " x huge");
	normalise<Vec2<R>>(scaled(five, dn), " x tiny"); normalise<Vec3<R>>(scaled(five, dn), " x tiny");
	histories(T ? 7 : 5);
}
