// C28: the test matchers: exactly the values within the margin, component by component, and a faithful printout.
#include "vecs.h"
#include <iomanip>
#include <sstream>
#include <catch2/catch_test_macros.hpp>
#include <catch2/catch_tostring.hpp>
#include <catch2/matchers/catch_matchers_floating_point.hpp>
#include <catch2/internal/catch_enforce.hpp>
#include "mathlib_testlib.h"
typedef MC_REAL R;
using namespace ml;
// the components of every type, in the order they are printed
typedef std::vector<R*> PS;
static void add(PS& p, Vec2<R>& v) { p.push_back(&v.x); p.push_back(&v.y); }
static void add(PS& p, Vec3<R>& v) { p.push_back(&v.x); p.push_back(&v.y); p.push_back(&v.z); }
static void add(PS& p, Vec4<R>& v) { p.push_back(&v.x); p.push_back(&v.y); p.push_back(&v.z); p.push_back(&v.w); }
static PS at(Vec2<R>& v) { PS p; add(p, v); return p; }
static PS at(Vec3<R>& v) { PS p; add(p, v); return p; }
static PS at(Vec4<R>& v) { PS p; add(p, v); return p; }
static PS at(Quat<R>& v) { return { &v.x, &v.y, &v.z, &v.w }; }
static PS at(Mat2<R>& m) { PS p; add(p, m.x); add(p, m.y); return p; }
static PS at(Mat3<R>& m) { PS p; add(p, m.x); add(p, m.y); add(p, m.z); return p; }
static PS at(Mat4<R>& m) { PS p; add(p, m.x); add(p, m.y); add(p, m.z); add(p, m.t); return p; }
static PS at(Mat34<R>& m) { PS p = at(m.rs); add(p, m.t); return p; }
static PS at(ColorRGB<R>& c) { return { &c.r, &c.g, &c.b }; }
static PS at(ColorRGBA<R>& c) { return { &c.r, &c.g, &c.b, &c.a }; }
static PS at(ColorHSV<R>& c) { return { &c.h, &c.s, &c.v }; }
static PS at(AABB2<R>& b) { PS p; add(p, b.inf); add(p, b.sup); return p; }
static PS at(AABB3<R>& b) { PS p; add(p, b.inf); add(p, b.sup); return p; }
static PS at(CAABB2<R>& b) { PS p; add(p, b.center); add(p, b.extents); return p; }
static PS at(CAABB3<R>& b) { PS p; add(p, b.center); add(p, b.extents); return p; }
static PS at(Line2<R>& b) { PS p; add(p, b.start); add(p, b.end); return p; }
static PS at(Line3<R>& b) { PS p; add(p, b.start); add(p, b.end); return p; }
static PS at(Ray2<R>& b) { PS p; add(p, b.start); add(p, b.direction); return p; }
static PS at(Ray3<R>& b) { PS p; add(p, b.start); add(p, b.direction); return p; }
static PS at(Plane<R>& b) { PS p; add(p, b.normal); p.push_back(&b.d); return p; }
static PS at(Circle<R>& b) { PS p; add(p, b.center); p.push_back(&b.radius); return p; }
static PS at(Sphere<R>& b) { PS p; add(p, b.center); p.push_back(&b.radius); return p; }
static PS at(Frustum<R>& f) { PS p; for (int i = 0; i < 8; ++i) add(p, f.corners[i]); return p; }

// 1 within, 0 not, -1 within rounding of the margin
static int within(R a, R b, double m)
{
	if (std::isnan(a) || std::isnan(b)) return 0;
	if (a == b) return 1;
	if (std::isinf(a) || std::isinf(b)) return 0;
	LD d = fabsl((LD)a - (LD)b), slack = 4 * (LD)std::numeric_limits<double>::epsilon() * (fabsl((LD)a) + fabsl((LD)b) + m);
	return d < m - slack ? 1 : d > m + slack ? 0 : m == 0 ? 0 : -1;
}
static std::vector<double> numbers(const std::string& s)
{
	std::vector<double> r; const char* p = s.c_str();
	while (*p)
	{
		// the '-' between two groups is a separator, not a sign
		if (std::isdigit((unsigned char)*p) || ((*p == '-' || *p == '+') && std::isdigit((unsigned char)p[1]))) { char* e; r.push_back(strtod(p, &e)); p = e; }
		else ++p;
	}
	return r;
}
static const R INF = std::numeric_limits<R>::infinity(), QNAN = std::numeric_limits<R>::quiet_NaN();

template <class T> struct Checker
{
	std::string name; T target; PS tp; T m; PS mp; int n; std::vector<R> base;
	Checker(const char* nm) : name(nm), tp(at(target)), mp(at(m)), n((int)tp.size()) {}
	void fill(T&, const PS& p, const std::vector<R>& v) { for (int i = 0; i < n; ++i) *p[i] = v[i]; }
	void decide(const Catch::Matchers::MatcherBase<T>& w, double margin, const std::vector<R>& b)
	{
		step();
		int want = 1; for (int i = 0; i < n; ++i) { int k = within(*mp[i], b[i], margin); if (k == 0) { want = 0; break; } if (k < 0) want = -1; }
		if (want < 0) return;
		bool g = w.match(m);
		if (g != !!want) { std::ostringstream o; o.precision(17); o << "margin " << margin << " target"; for (R x : b) o << " " << x; o << " value"; for (R* x : mp) o << " " << *x; o << " got " << g << " want " << want; MC_CHECK(false, "WithinAbs(" + name + ")", o.str()); }
	}
	void matching()
	{
		section("WithinAbs(" + name + ")");
		std::vector<std::vector<R>> bases(4);
		for (int i = 0; i < n; ++i) { bases[0].push_back(R(i + 1)); bases[1].push_back(R(i % 2 ? -0.7 : 0.3) * (i + 1)); bases[2].push_back(0); bases[3].push_back(R(i % 3 == 0 ? 1e6 : i % 3 == 1 ? -1e-4 : 37.5) * (i + 1)); }
		std::vector<double> margins = { 0, 1e-6, 1e-3, 0.5, 8 };
		for (auto& b : bases) for (double margin : margins) for (int dflt = 0; dflt < (margin == 1e-3 ? 2 : 1); ++dflt)
		{
			fill(target, tp, b);
			auto w = dflt ? Matches::WithinAbs(target) : Matches::WithinAbs(target, margin);
			for (R* x : tp) *x = R(-12345); // the matcher keeps its own copy of the target
			// how far a component may be off
			auto dev = [&](R x) { std::vector<R> d = { x, R(x + margin * 0.5), R(x - margin * 0.5), R(x + margin * 0.998), R(x - margin * 0.998), R(x + margin * 1.002), R(x - margin * 1.002), R(x + 2 * margin + 1), R(x - 2 * margin - 1), R(-x), std::nextafter(x, INF), std::nextafter(x, -INF), QNAN, INF, -INF }; return d; };
			std::vector<std::vector<R>> D; for (R x : b) D.push_back(dev(x));
			int nd = (int)D[0].size();
			if (n <= (thorough() ? 4 : 3))
			{
				std::vector<int> ix(n, 0);
				for (bool more = true; more;)
				{
					for (int i = 0; i < n; ++i) *mp[i] = D[i][ix[i]];
					state(); decide(w, margin, b);
					int i = 0; while (i < n && ++ix[i] == nd) ix[i++] = 0; more = i < n;
				}
			}
			else for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) for (int di = 0; di < nd; ++di) for (int dj = 0; dj < nd; ++dj)
			{
				fill(m, mp, b); *mp[i] = D[i][di]; *mp[j] = D[j][dj];
				state(); decide(w, margin, b);
			}
			// all components off together, by small amounts that only add up to more than the margin
			for (int s : { -1, 1 }) { for (int i = 0; i < n; ++i) *mp[i] = R(b[i] + s * margin * 0.75); state(); decide(w, margin, b); for (int i = 0; i < n; ++i) *mp[i] = R(b[i] + (i % 2 ? s : -s) * margin * 0.75); state(); decide(w, margin, b); }
			// components exchanged
			for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { fill(m, mp, b); std::swap(*mp[i], *mp[j]); state(); decide(w, margin, b); }
			trace();
		}
		// every component of the target and the margin climb the ladder; one component is off by around the margin
		star<R>(n + 1, [&](const R* p) {
			std::vector<R> b(p, p + n); double margin = std::fabs(p[n]); fill(target, tp, b); auto w = Matches::WithinAbs(target, margin); for (R* x : tp) *x = R(-12345);
			fill(m, mp, b); state(); decide(w, margin, b);
			for (int i = 0; i < n; ++i) { for (R x : { R(b[i] + margin * 0.5), R(b[i] - margin * 0.5), R(b[i] + margin * 0.998), R(b[i] - margin * 0.998), R(b[i] + margin * 1.002), R(b[i] - margin * 1.002), R(b[i] + 2 * margin + 1), R(-b[i]) }) { *mp[i] = x; state(); decide(w, margin, b); } *mp[i] = b[i]; }
		}, false);
		// targets that are not finite
		for (int i = 0; i < n; ++i) for (R bad : { QNAN, INF, -INF })
		{
			auto b = bases[0]; b[i] = bad; fill(target, tp, b); auto w = Matches::WithinAbs(target, 0.5);
			for (R x : { QNAN, INF, -INF, R(0), bases[0][i] }) { fill(m, mp, b); *mp[i] = x; state(); decide(w, 0.5, b); }
		}
		for (double bad : { -1e-300, -1e-3, -1.0, (double)-INFINITY, (double)NAN })
		{
			state(); bool threw = false; try { fill(target, tp, bases[0]); auto w = Matches::WithinAbs(target, bad); } catch (const std::exception&) { threw = true; }
			MC_CHECK(threw, "WithinAbs(" + name + ") refuses a negative margin", bad);
		}
	}
	void printing()
	{
		section("print " + name);
		auto print = [&](const std::vector<R>& b)
		{
			state();
			fill(target, tp, b);
			std::string s = Catch::Detail::stringify(target); auto v = numbers(s);
			bool ok = (int)v.size() == n; for (int i = 0; ok && i < n; ++i) ok = fabsl((LD)v[i] - (LD)b[i]) <= 1e-4L * fabsl((LD)b[i]);
			MC_CHECK(ok, "stringify(" + name + ") lists every component in order", s);
			std::string d = Matches::WithinAbs(target, 0.25).describe(); auto dv = numbers(d);
			MC_CHECK(d.find(s) != std::string::npos && !dv.empty() && dv[0] == 0.25, "describe(" + name + ")", d);
			sample([&](std::ostream& o) { o << d; });
			trace();
		};
		for (R scale : { R(1), R(0.001), R(12345.678), R(-1), R(-3e-7) }) for (int zero = -1; zero < n; ++zero)
		{
			std::vector<R> b; for (int i = 0; i < n; ++i) b.push_back(i == zero ? R(0) : R((i % 4 == 3 ? -1 : 1) * (i + 1) * 1.0009765625) * scale);
			print(b);
		}
		star<R>(n, [&](const R* p) { print(std::vector<R>(p, p + n)); }, false);
	}
	void run() { matching(); printing(); }
};
#define RUN(T) { Checker<T<R>>* c = new Checker<T<R>>(#T); c->run(); delete c; }
void explore()
{
	RUN(Vec2) RUN(Vec3) RUN(Vec4) RUN(Quat) RUN(Mat2) RUN(Mat3) RUN(Mat34) RUN(Mat4) RUN(ColorRGB) RUN(ColorRGBA) RUN(ColorHSV)
	RUN(AABB2) RUN(AABB3) RUN(CAABB2) RUN(CAABB3) RUN(Line2) RUN(Line3) RUN(Ray2) RUN(Ray3) RUN(Plane) RUN(Circle) RUN(Sphere) RUN(Frustum)
}
