// C24: easing curves, lerp, response curves
#include "vecs.h"
typedef MC_REAL R;
using ml::InterpolationMode;
using ml::ResponseCurveType;

static const LD PI = acosl(-1.0L);

struct Mode { const char* name; InterpolationMode mode; LD (*f)(LD); LD tol; };
static LD inout(LD (*in)(LD), LD t) { return t < 0.5L ? in(2 * t) / 2 : 1 - in(2 - 2 * t) / 2; }
static LD lin(LD t) { return t; }
static LD p2(LD t) { return t * t; } static LD p3(LD t) { return t * t * t; } static LD p4(LD t) { return t * t * t * t; } static LD p5(LD t) { return t * t * t * t * t; }
static LD sinIn(LD t) { return 1 - cosl(t * PI / 2); }
static LD expo(LD t) { return powl(2, t) - 1; }
static LD expIn(LD t) { return (powl(2, 10 * (t - 1)) - powl(2, -10)) / (1 - powl(2, -10)); }
static LD exp2In(LD t) { return t <= 0 ? 0 : powl(2, 20 * (t - 1)); }
static LD circIn(LD t) { return 1 - sqrtl(std::max(0.0L, 1 - t * t)); }
#define OUTOF(F) [](LD t) -> LD { return 1 - F(1 - t); }
#define INOUT(F) [](LD t) -> LD { return inout(F, t); }
static const Mode MODES[] = {
	{ "Linear", InterpolationMode::Linear, lin, 0 },
	{ "Parabolic", InterpolationMode::Parabolic, p2, 0 },
	{ "Cubic", InterpolationMode::Cubic, p3, 0 },
	{ "Exponential", InterpolationMode::Exponential, expo, 0 },
	{ "Cosine", InterpolationMode::Cosine, sinIn, 0 },
	{ "QuadraticIn", InterpolationMode::QuadraticIn, p2, 0 },
	{ "QuadraticOut", InterpolationMode::QuadraticOut, OUTOF(p2), 0 },
	{ "QuadraticInOut", InterpolationMode::QuadraticInOut, INOUT(p2), 0 },
	{ "CubicIn", InterpolationMode::CubicIn, p3, 0 },
	{ "CubicOut", InterpolationMode::CubicOut, OUTOF(p3), 0 },
	{ "CubicInOut", InterpolationMode::CubicInOut, INOUT(p3), 0 },
	{ "QuarticIn", InterpolationMode::QuarticIn, p4, 0 },
	{ "QuarticOut", InterpolationMode::QuarticOut, OUTOF(p4), 0 },
	{ "QuarticInOut", InterpolationMode::QuarticInOut, INOUT(p4), 0 },
	{ "QuinticIn", InterpolationMode::QuinticIn, p5, 0 },
	{ "QuinticOut", InterpolationMode::QuinticOut, OUTOF(p5), 0 },
	{ "QuinticInOut", InterpolationMode::QuinticInOut, INOUT(p5), 0 },
	{ "SinusoidalIn", InterpolationMode::SinusoidalIn, sinIn, 0 },
	{ "SinusoidalOut", InterpolationMode::SinusoidalOut, OUTOF(sinIn), 0 },
	{ "SinusoidalInOut", InterpolationMode::SinusoidalInOut, INOUT(sinIn), 0 },
	{ "ExponentialIn", InterpolationMode::ExponentialIn, expIn, 1e-5L },
	{ "ExponentialOut", InterpolationMode::ExponentialOut, OUTOF(expIn), 1e-5L },
	{ "ExponentialInOut", InterpolationMode::ExponentialInOut, INOUT(expIn), 1e-5L },
	{ "Exponential2In", InterpolationMode::Exponential2In, exp2In, 1e-5L },
	{ "Exponential2Out", InterpolationMode::Exponential2Out, OUTOF(exp2In), 1e-5L },
	{ "Exponential2InOut", InterpolationMode::Exponential2InOut, INOUT(exp2In), 1e-5L },
	{ "CircularIn", InterpolationMode::CircularIn, circIn, 0 },
	{ "CircularOut", InterpolationMode::CircularOut, OUTOF(circIn), 0 },
	{ "CircularInOut", InterpolationMode::CircularInOut, INOUT(circIn), 0 },
};

static std::vector<R> ts(int n)
{
	std::vector<R> t;
	for (int i = 0; i <= n; ++i) t.push_back(R(i) / R(n));
	for (R x : { R(0), R(0.5), R(1), R(0.25), R(0.75) })
	{
		t.push_back(std::nextafter(x, R(-9))); t.push_back(std::nextafter(x, R(9)));
		for (int k = 1; k <= 22; ++k) { t.push_back(x + std::ldexp(R(1), -k)); t.push_back(x - std::ldexp(R(1), -k)); }
	}
	for (R x : { R(-1), R(-0.5), R(-1000), R(1.5), R(2), R(1e6), R(0.1), R(0.3), R(1) / R(3), R(0.9) }) t.push_back(x);
	std::sort(t.begin(), t.end());
	t.erase(std::unique(t.begin(), t.end()), t.end());
	return t;
}

static void easing()
{
	auto T = ts(thorough() ? 200000 : 20000);
	for (auto& m : MODES)
	{
		section(std::string("interpolationRatio ") + m.name);
		std::string site = std::string("interpolationRatio(") + m.name + ")";
		const bool circ = std::strncmp(m.name, "Circular", 8) == 0;
		R prev = -1; R prevt = 0;
		for (R t : T)
		{
			state();
			R g = ml::interpolationRatio(t, m.mode);
			LD w = t <= 0 ? 0 : t >= 1 ? 1 : m.f(t);
			// the circular easings have an infinite slope at one end: sqrt amplifies rounding there
			LD tol = m.tol + (circ ? sqrtl(8 * eps<R>()) : 64 * eps<R>());
			if (circ && t > 0 && t < 1)
			{
				LD a = std::string(m.name) == "CircularIn" ? 1 - (LD)t * t : std::string(m.name) == "CircularOut" ? 1 - ((LD)t - 1) * ((LD)t - 1)
					: t < 0.5L ? 1 - 4 * (LD)t * t : 1 - (2 - 2 * (LD)t) * (2 - 2 * (LD)t);
				if (a > 1e-3L) tol = 64 * eps<R>() / sqrtl(a);
			}
			MC_CHECK(close<R>(g, w, tol), site, "t=" << t << " got " << g << " want " << (double)w);
			if (t <= 0) MC_CHECK(g == 0, site + " below 0", "t=" << t << " got " << g);
			if (t >= 1) MC_CHECK(g == 1, site + " above 1", "t=" << t << " got " << g);
			MC_CHECK(g >= -m.tol - 8 * eps<R>() && g <= 1 + m.tol + 8 * eps<R>(), site + " range", "t=" << t << " got " << g);
			MC_CHECK(g >= prev - m.tol - (circ ? 64 : 16) * eps<R>(), site + " monotone", "t=" << prevt << "->" << t << ": " << prev << "->" << g);
			prev = g; prevt = t;
			sample([&](std::ostream& s) { s << "t=" << t << " -> " << g; });
		}
		trace();
	}
}

static void lerps()
{
	section("lerp");
	const std::vector<R> vals = { 0, 1, -1, R(0.1), 100, R(-12345.5), R(1e6), R(-1e-3), 3 };
	std::vector<R> ratios = { 0, 1, R(0.5), R(0.25), R(0.1), R(0.9), R(1) / 3, R(0.999), R(-0.5), R(1.5), 2, R(1e-4) };
	auto one = [&](R a, R b, R t)
	{
		state();
		E w = E(a) + (E(b) - E(a)) * E(t);
		R g = ml::lerp(a, b, t);
		MC_CHECK(near(g, w), "lerp(Real)", "a=" << a << " b=" << b << " t=" << t << " got " << g << " want " << w);
		if (t == 0) MC_CHECK(g == a, "lerp(Real) at 0", "a=" << a << " b=" << b << " got " << g);
		for (auto& m : MODES)
		{
			LD r = t <= 0 ? 0 : t >= 1 ? 1 : m.f(t);
			R gm = ml::lerp(a, b, t, m.mode);
			LD want = (LD)a + ((LD)b - a) * r;
			LD tol = (fabsl((LD)a) + fabsl((LD)b)) * (m.tol * 2 + 512 * eps<R>() + (std::strncmp(m.name, "Circ", 4) == 0 ? 64 * eps<R>() * 30 : 0));
			MC_CHECK(close<R>(gm, want, tol), std::string("lerp(Real, mode ") + m.name + ")", "a=" << a << " b=" << b << " t=" << t << " got " << gm << " want " << (double)want);
		}
		trace();
	};
	for (R a : vals) for (R b : vals) for (R t : ratios) one(a, b, t);
	star<R>(3, [&](const R* p) { one(p[0], p[1], p[2]); one(p[0], p[1], between(std::fabs(p[2]), R(0), R(1))); });
	section("lerp vectors");
	const std::vector<R> v3 = { 0, 1, R(-2.5), R(100.25) };
	auto vectors = [&](const R* p, const std::vector<R>& ratios) {
		state();
		Vec3<R> a = mk3(p), b = mk3(p + 3);
		Vec2<R> c = mk2(p), d = mk2(p + 2);
		for (R t : ratios)
		{
			auto w3 = ev(a) + (ev(b) - ev(a)) * E(t);
			auto w2 = ev(c) + (ev(d) - ev(c)) * E(t);
			MC_CHECK(nearv(ml::lerp(a, b, t), w3), "lerp(Vec3)", "a=" << a << " b=" << b << " t=" << t << " got " << ml::lerp(a, b, t));
			MC_CHECK(nearv(ml::lerp(c, d, t), w2), "lerp(Vec2)", "a=" << c << " b=" << d << " t=" << t << " got " << ml::lerp(c, d, t));
			static const int some[] = { 2, 7, 11, 16, 19 };
			for (int i : some)
			{
				const Mode& m = MODES[i];
				LD r = t <= 0 ? 0 : t >= 1 ? 1 : m.f(t);
				EV<3> m3 = ev(a) + (ev(b) - ev(a)) * E(r, 1.0L); EV<2> m2 = ev(c) + (ev(d) - ev(c)) * E(r, 1.0L);
				MC_CHECK(closev(ml::lerp(a, b, t, m.mode), m3, 512), std::string("lerp(Vec3, mode ") + m.name + ")", "a=" << a << " b=" << b << " t=" << t);
				MC_CHECK(closev(ml::lerp(c, d, t, m.mode), m2, 512), std::string("lerp(Vec2, mode ") + m.name + ")", "a=" << c << " b=" << d << " t=" << t);
			}
		}
		trace();
	};
	tuples(v3, 6, [&](const R* p) { vectors(p, ratios); }); star<R>(7, [&](const R* p) { vectors(p, { p[6], between(std::fabs(p[6]), R(0), R(1)) }); });
	section("lerp int");
	auto ints = [&](int a, int b, R t, LD slack)
	{
		state();
		LD x = (LD)a + ((LD)b - a) * t;
		int g = ml::lerp(a, b, t);
		// the fractional part is dropped towards 'from'
		MC_CHECK(fabsl(g - x) < 1 + slack && (a <= b ? (g <= x + slack && g >= a) : (g >= x - slack && g <= a)), "lerp(int)", "a=" << a << " b=" << b << " t=" << t << " got " << g);
		LD y = (LD)a + ((LD)b - a) * ((LD)t * t * t);
		int gc = ml::lerp(a, b, t, InterpolationMode::Cubic);
		MC_CHECK(fabsl(gc - y) < 1.001L + slack, "lerp(int, mode)", "a=" << a << " b=" << b << " t=" << t << " got " << gc);
		if (t == 0) MC_CHECK(g == a, "lerp(int) at 0", "a=" << a << " b=" << b);
		if (t == 1) MC_CHECK(g == b, "lerp(int) at 1", "a=" << a << " b=" << b << " got " << g);
		trace();
	};
	for (int a : { 0, 1, -1, 7, -10, 100, 255, -1000, 30000 }) for (int b : { 0, 1, -1, 8, -11, 100, 256, 1000, -30000 }) for (int i = 0; i <= 64; ++i) ints(a, b, R(i) / 64, 0);
	star<R>(3, [&](const R* p) { R a = between(p[0] * 8, R(-1e5), R(1e5)), b = between(p[1] * 8, R(-1e5), R(1e5)); ints((int)a, (int)b, between(std::fabs(p[2]), R(0), R(1)), 8 * eps<R>() * (fabsl((LD)a) + fabsl((LD)b))); });
}

static LD curve(ResponseCurveType c, LD v)
{
	LD s = v < 0 ? -1 : 1, a = fabsl(v);
	switch (c)
	{
	case ResponseCurveType::Zero: return 0;
	case ResponseCurveType::Linear: return v;
	case ResponseCurveType::Parabolic: return s * a * a;
	case ResponseCurveType::Cubic: return v * v * v;
	case ResponseCurveType::Exponential: return s * (powl(2, a) - 1);
	default: return a >= 1 ? s : s * (1 - cosl(a * PI / 2));
	}
}

static void response()
{
	static const char* names[] = { "Zero", "Linear", "Parabolic", "Cubic", "Exponential", "Cosine" };
	auto T = ts(thorough() ? 20000 : 2000);
	std::vector<R> V;
	for (R t : T) if (t >= -1 && t <= 1) { V.push_back(t); V.push_back(-t); }
	for (R t : { R(1.0625), R(1.25), R(1.5), R(1.75), R(2), R(2.5), R(3), R(4) }) { V.push_back(t); V.push_back(-t); } // beyond full deflection
	std::sort(V.begin(), V.end()); V.erase(std::unique(V.begin(), V.end()), V.end());
	for (int c = 0; c < 6; ++c)
	{
		section(std::string("evaluate ") + names[c]);
		std::string site = std::string("evaluate(") + names[c] + ")";
		for (R th : { R(0), R(0.1), R(0.25), R(0.5), R(0.9), R(0.01), R(0.75) })
		{
			R prev = -std::numeric_limits<R>::max(), pv = 0;
			auto at = [&](R v, R th)
			{
				state();
				R g = ml::evaluate(v, th, (ResponseCurveType)c);
				LD x = fabsl((LD)v) <= (LD)th ? 0 : ((LD)v > 0 ? ((LD)v - th) / (1 - (LD)th) : ((LD)v + th) / (1 - (LD)th));
				LD w = curve((ResponseCurveType)c, x);
				LD tol = 64 * eps<R>() / (1 - (LD)th) * std::max(1.0L, fabsl(w)) * std::max(1.0L, fabsl(x)) + (c == 5 ? 1e-8L : 0);
				MC_CHECK(close<R>(g, w, tol), site, "value=" << v << " threshold=" << th << " got " << g << " want " << (double)w);
				R o = ml::evaluate(-v, th, (ResponseCurveType)c);
				MC_CHECK(close<R>(o, -(LD)g, 16 * eps<R>() * std::max(1.0L, fabsl(w))), site + " odd", "value=" << v << " threshold=" << th << " f(v)=" << g << " f(-v)=" << o);
				if (std::fabs(v) <= th) MC_CHECK(g == 0, site + " dead zone", "value=" << v << " threshold=" << th << " got " << g);
				MC_CHECK(g >= prev - (R)(32 * eps<R>() * std::max(1.0L, fabsl(w))), site + " monotone", "threshold=" << th << " f(" << pv << ")=" << prev << " f(" << v << ")=" << g);
				if (std::fabs(v) <= 1 || c == 5) MC_CHECK(g >= -1 - 8 * eps<R>() && g <= 1 + 8 * eps<R>(), site + " range", "value=" << v << " threshold=" << th << " got " << g);
				prev = g; pv = v;
				sample([&](std::ostream& s) { s << "value=" << v << " threshold=" << th << " -> " << g; });
			};
			for (R v : V) at(v, th);
			if (th == 0) { std::vector<R> L = ladder<R>(); std::sort(L.begin(), L.end()); for (R h : L) if (h > 0 && h < R(0.96)) { prev = -std::numeric_limits<R>::max(); for (R v : L) if (std::fabs(v) < 6) at(v, h); } }
			trace();
		}
	}
}

void explore()
{
	easing();
	lerps();
	response();
}
