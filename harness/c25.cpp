// C25: scalar functions - modular reduction, clamping, inverse trigonometry, unit conversion
#include "vecs.h"
typedef MC_REAL R;
static const LD PI = acosl(-1.0L);

static std::vector<R> numbers(bool big)
{
	std::vector<R> v;
	for (int i = -60; i <= 60; ++i) v.push_back(R(i) / 4);
	for (int k = 1; k <= (big ? 120 : 60); ++k) { R x = std::ldexp(R(1), -k); v.push_back(x); v.push_back(-x); v.push_back(1 - x); v.push_back(-1 + x); }
	for (int k = 1; k <= 20; ++k) { R x = std::ldexp(R(1), k); v.push_back(x); v.push_back(-x); v.push_back(x + R(0.5)); v.push_back(-x - R(0.5)); }
	for (R x : { R(0.1), R(0.7), R(359.9), R(360), R(361), R(720.5), R(3.14159265), R(6.2831853), R(12.566), R(1e6) }) { v.push_back(x); v.push_back(-x); }
	v.push_back(std::numeric_limits<R>::denorm_min()); v.push_back(-std::numeric_limits<R>::denorm_min());
	v.push_back(std::numeric_limits<R>::min()); v.push_back(-std::numeric_limits<R>::min());
	v.push_back(R(-0.0));
	v.insert(v.end(), ladder<R>().begin(), ladder<R>().end());
	return v;
}

static void modular()
{
	section("fmod");
	auto xs = numbers(true);
	std::vector<R> ys = { 1, 2, 3, 6, 10, 360, R(0.1), R(0.5), R(2 * PI), R(PI), R(1e-3), 1024, R(1e6), R(7.25) };
	for (R y : ladder<R>()) if (y > 0) ys.push_back(y);
	// multiples and near-multiples of every modulus
	for (R y : ys)
	{
		std::vector<R> X = xs;
		for (int n = -12; n <= 12; ++n)
		{
			R m = n * y;
			X.push_back(m); X.push_back(std::nextafter(m, R(1e30))); X.push_back(std::nextafter(m, R(-1e30)));
			X.push_back(m + y / 2); X.push_back(std::nextafter(m + y / 2, R(1e30))); X.push_back(std::nextafter(m + y / 2, R(-1e30)));
		}
		for (R x : X)
		{
			state();
			LD q = floorl((LD)x / (LD)y);
			LD ex = fmodl((LD)x, (LD)y);           // exact: fmod is exact and long double holds both operands
			LD pos = ex < 0 ? ex + (LD)y : ex;
			(void)q;
			R f = ml::fmod(x, y), p = ml::fmodPositive(x, y), c = ml::fmodCentered(x, y);
			LD tol = 4 * eps<R>() * fabsl((LD)y);
			MC_CHECK((LD)f == ex, "fmod", "x=" << x << " y=" << y << " got " << f << " want " << (double)ex);
			MC_CHECK(p >= 0 && p < y, "fmodPositive range", "x=" << x << " y=" << y << " got " << p);
			LD d = fabsl((LD)p - pos); d = std::min(d, fabsl(d - (LD)y));
			MC_CHECK(d <= tol, "fmodPositive", "x=" << x << " y=" << y << " got " << p << " want " << (double)pos);
			MC_CHECK(c >= -y / 2 && c < y / 2, "fmodCentered range", "x=" << x << " y=" << y << " got " << c);
			LD e = fmodl((LD)c - (LD)x, (LD)y); e = std::min(fabsl(e), (LD)y - fabsl(e));
			MC_CHECK(e <= tol + 4 * eps<R>() * fabsl((LD)x), "fmodCentered congruence", "x=" << x << " y=" << y << " got " << c);
			trace();
			sample([&](std::ostream& s) { s << "x=" << x << " y=" << y << " fmodPositive=" << p << " fmodCentered=" << c; });
		}
		// fmod by a negative modulus keeps the sign of x
		for (R x : xs) { state(); MC_CHECK((LD)ml::fmod(x, -y) == fmodl((LD)x, -(LD)y), "fmod negative modulus", "x=" << x << " y=" << -y); trace(); }
	}
}

static void clamps()
{
	section("min/max/clip/abs");
	auto xs = numbers(false);
	for (R x : xs)
	{
		state();
		MC_CHECK(ml::abs(x) == std::fabs(x), "abs", "x=" << x << " got " << ml::abs(x));
		for (R y : xs)
		{
			R mn = ml::min(x, y), mx = ml::max(x, y);
			MC_CHECK(mn == std::min(x, y) && mx == std::max(x, y), "min/max", "x=" << x << " y=" << y << " got " << mn << "," << mx);
		}
		trace();
	}
	std::vector<R> few = { 0, 1, -1, R(0.5), 2, -3, R(1e6), R(-1e-6), R(7.5), R(-1e6) };
	few.insert(few.end(), rungs<R>().begin(), rungs<R>().end());
	for (R v : xs) for (R a : few) for (R b : few) if (a <= b)
	{
		state();
		R g = ml::clippedBetween(v, a, b), w = v < a ? a : v > b ? b : v;
		MC_CHECK(g == w, "clippedBetween", "value=" << v << " a=" << a << " b=" << b << " got " << g);
		trace();
	}
	for (int v = -40; v <= 40; ++v) for (int a = -12; a <= 12; ++a)
	{
		state();
		MC_CHECK(ml::min(v, a) == std::min(v, a) && ml::max(v, a) == std::max(v, a) && ml::abs(v) == std::abs(v), "int min/max/abs", v << " " << a);
		for (int b = a; b <= 12; ++b)
			MC_CHECK(ml::clippedBetween(v, a, b) == std::min(b, std::max(a, v)), "int clippedBetween", v << " " << a << " " << b);
		trace();
	}
}

static void trig()
{
	section("asin/acos/degrees");
	std::vector<R> v;
	int n = thorough() ? 20000 : 2000;
	for (int i = -n; i <= n; ++i) v.push_back(R(i) / n);
	for (R x : { R(1), R(-1) }) for (int k = 1; k <= 30; ++k) { v.push_back(x * (1 - std::ldexp(R(1), -k))); v.push_back(x * (1 + std::ldexp(R(1), -k))); }
	for (R x : { R(1.5), R(2), R(1000), R(1e30) }) { v.push_back(x); v.push_back(-x); }
	for (R x : v)
	{
		state();
		LD c = x > 1 ? 1 : x < -1 ? -1 : (LD)x;
		R s = ml::asin(x), a = ml::acos(x);
		MC_CHECK(close<R>(s, asinl(c), 4 * eps<R>()), "asin", "x=" << x << " got " << s);
		MC_CHECK(close<R>(a, acosl(c), 8 * eps<R>()), "acos", "x=" << x << " got " << a);
		trace();
	}
	for (R x : numbers(false))
	{
		state();
		R r = ml::degreeToRadian(x), d = ml::radianToDegree(x);
		MC_CHECK(close<R>(r, (LD)x * PI / 180, 8 * eps<R>() * fabsl((LD)x) + 1e-40L), "degreeToRadian", "x=" << x << " got " << r);
		MC_CHECK(close<R>(d, (LD)x * 180 / PI, 8 * eps<R>() * 60 * fabsl((LD)x) + 1e-38L), "radianToDegree", "x=" << x << " got " << d);
		trace();
	}
	section("constants and coordinate cycles");
	state();
	typedef ml::Constants<R> K;
	struct { R g; LD w; const char* n; } ks[] = { { K::PI, PI, "PI" }, { K::PI_TIMES_2, 2 * PI, "PI_TIMES_2" }, { K::PI_OVER_2, PI / 2, "PI_OVER_2" }, { K::PI_OVER_4, PI / 4, "PI_OVER_4" },
		{ K::PI_OVER_8, PI / 8, "PI_OVER_8" }, { K::PI_OVER_16, PI / 16, "PI_OVER_16" }, { K::PI_OVER_3, PI / 3, "PI_OVER_3" }, { K::PI_OVER_6, PI / 6, "PI_OVER_6" } };
	for (auto& k : ks) MC_CHECK(close<R>(k.g, k.w, 2 * eps<R>() * k.w), std::string("Constants::") + k.n, k.g);
	MC_CHECK(K::MIN_VALUE == std::numeric_limits<R>::min() && K::MAX_VALUE == std::numeric_limits<R>::max() && K::MAX_NEG_VALUE == -std::numeric_limits<R>::max(), "Constants limits", K::MIN_VALUE);
	MC_CHECK(ml::next2D(Coord::X) == Coord::Y && ml::next2D(Coord::Y) == Coord::X, "next2D", 0);
	MC_CHECK(ml::next3D(Coord::X) == Coord::Y && ml::next3D(Coord::Y) == Coord::Z && ml::next3D(Coord::Z) == Coord::X, "next3D", 0);
	MC_CHECK(ml::next2D(Coord::Z) == Coord::Undefined && ml::next2D(Coord::W) == Coord::Undefined && ml::next3D(Coord::W) == Coord::Undefined && ml::next2D(Coord::Undefined) == Coord::Undefined && ml::next3D(Coord::Undefined) == Coord::Undefined, "next2D/next3D undefined", 0);
	trace();
}

void explore() { modular(); clamps(); trig(); }
