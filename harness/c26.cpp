// C26: random helpers, with rand() replaced by an explored environment
#include "vecs.h"
typedef MC_REAL R;

// ---- environment: every answer rand() can give is chosen by the explorer -----------------------
static std::vector<int> answers; static size_t next_answer; static unsigned long long calls;
extern "C" int rand(void) noexcept
{
	++calls;
	if (answers.empty()) return 0;
	int r = answers[next_answer % answers.size()];
	++next_answer;
	return r;
}
static void env(std::initializer_list<int> a) { answers = a; next_answer = 0; }
static void env(int a) { answers.assign(1, a); next_answer = 0; }

static std::vector<int> special()
{
	std::vector<int> v;
	for (int i = 0; i < 300; ++i) { v.push_back(i); v.push_back(RAND_MAX - i); v.push_back(RAND_MAX / 2 + i - 150); v.push_back(RAND_MAX / 4 + i); v.push_back(RAND_MAX / 3 - i); }
	for (int k = 0; k < 31; ++k) { v.push_back(1 << k); v.push_back((1 << k) - 1); v.push_back(RAND_MAX - (1 << k)); }
	for (int k = 0; k <= 1000; ++k) v.push_back((int)((long long)RAND_MAX * k / 1000));
	if (thorough()) for (int k = 0; k <= 200000; ++k) v.push_back((int)((long long)RAND_MAX * k / 200000));
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
	while (v.front() < 0) v.erase(v.begin());
	return v;
}

// a thinner set of answers, for ranges that climb the ladder
static std::vector<int> few() { std::vector<int> v = { 0, 1, 2, RAND_MAX, RAND_MAX - 1, RAND_MAX - 2 }; for (int k = 1; k < 32; ++k) v.push_back((int)((long long)RAND_MAX * k / 32)); for (int k = 3; k < 31; k += 3) v.push_back(1 << k); return v; }
static void ints()
{
	section("int generators");
	auto S = special();
	auto one = [&](int n, const std::vector<int>& S)
	{
		std::set<int> seen, seenA;
		for (int a : S)
		{
			state();
			env(a); int r = ml::rand(n); seen.insert(r);
			MC_CHECK(r >= 0 && r < n, "rand(int)", "rand()=" << a << " n=" << n << " got " << r);
			if (n <= 1000000000)
			{
				env(a); r = ml::randAmplitude(n); seenA.insert(r);
				MC_CHECK(r >= -n && r < n, "randAmplitude(int)", "rand()=" << a << " n=" << n << " got " << r);
			}
			trace();
		}
		if (n <= 100)
		{
			MC_CHECK((int)seen.size() == n, "rand(int) reaches every value", "n=" << n << " reached " << seen.size());
			MC_CHECK((int)seenA.size() == 2 * n, "randAmplitude(int) reaches every value", "n=" << n << " reached " << seenA.size());
		}
	};
	for (int n : { 1, 2, 3, 7, 10, 100, 255, 1000, 65536, 1000000007 }) one(n, S);
	for (int n = 1; n < 400; ++n) one(n, S);
	auto between2 = [&](int from, int w)
	{
		int to = from + w; std::set<int> seen, seenA;
		for (int a : S)
		{
			state();
			env(a); int r = ml::randBetween(from, to); seen.insert(r);
			MC_CHECK(r >= from && r < to, "randBetween(int)", "rand()=" << a << " from=" << from << " to=" << to << " got " << r);
			if (from >= 0)
			{
				env(a); r = ml::randAmplitude(from, to); seenA.insert(r);
				MC_CHECK(std::abs(r) >= from && std::abs(r) <= to, "randAmplitude(int,int)", "rand()=" << a << " from=" << from << " to=" << to << " got " << r);
			}
			trace();
		}
		if (w <= 64) MC_CHECK((int)seen.size() == w, "randBetween(int) reaches every value", "from=" << from << " to=" << to << " reached " << seen.size());
		if (from >= 0 && w > 1) MC_CHECK(*seenA.begin() < 0 && *seenA.rbegin() > 0, "randAmplitude(int,int) has both signs", "from=" << from << " to=" << to);
	};
	for (int from : { 0, 1, -1, 10, -20, 1000 }) for (int w : { 1, 2, 3, 10, 64, 1000 }) between2(from, w);
	for (int from : { -1000000, -70000, -3000, -400, -77, -13, -6, -3, -2, 2, 3, 4, 5, 7, 16, 33, 64, 100, 127, 255, 500, 5000, 100000 }) for (int w : { 1, 2, 4, 5, 6, 7, 8, 9, 12, 15, 31, 100, 256, 70000 }) between2(from, w);
}

static void reals()
{
	section("real generators");
	auto S = special();
	const LD t = 4 * eps<R>();
	auto one = [&](R f, const std::vector<int>& S)
	{
		R lo = 9e9, hi = -9e9, alo = 9e9, ahi = -9e9;
		for (int a : S)
		{
			state();
			env(a); R r = ml::rand(f);
			MC_CHECK(r >= 0 && r <= (LD)f * (1 + t), "rand(Real)", "rand()=" << a << " f=" << f << " got " << r);
			MC_CHECK(close<R>(r, (LD)f * a / RAND_MAX, 16 * eps<R>() * f), "rand(Real) uniform", "rand()=" << a << " f=" << f << " got " << r);
			lo = std::min(lo, r); hi = std::max(hi, r);
			env(a); r = ml::randAmplitude(f);
			MC_CHECK(r >= -(LD)f * (1 + t) && r <= (LD)f * (1 + t), "randAmplitude(Real)", "rand()=" << a << " f=" << f << " got " << r);
			MC_CHECK(close<R>(r, (LD)f * (2.0L * a / RAND_MAX - 1), 16 * eps<R>() * f), "randAmplitude(Real) uniform", "rand()=" << a << " f=" << f << " got " << r);
			alo = std::min(alo, r); ahi = std::max(ahi, r);
			trace();
		}
		MC_CHECK(lo == 0 && close<R>(hi, f, 8 * eps<R>() * f), "rand(Real) spans its range", "f=" << f << " [" << lo << "," << hi << "]");
		MC_CHECK(close<R>(alo, -(LD)f, 8 * eps<R>() * f) && close<R>(ahi, f, 8 * eps<R>() * f), "randAmplitude(Real) spans its range", "f=" << f << " [" << alo << "," << ahi << "]");
	};
	for (R f : { R(1), R(0.5), R(10), R(360), R(1e6), R(1e-6), R(3.3) }) one(f, S);
	for (R f : ladder<R>()) if (f > 0) one(f, few());
	auto between2 = [&](R from, R w, const std::vector<int>& S)
	{
		R to = from + w; LD tol = t * 2 * (fabsl((LD)from) + fabsl((LD)to));
		R lo = 9e9, hi = -9e9; bool pos = false, neg = false;
		for (int a : S)
		{
			state();
			env(a); R r = ml::randBetween(from, to);
			MC_CHECK(r >= from - tol && r <= to + tol, "randBetween(Real)", "rand()=" << a << " from=" << from << " to=" << to << " got " << r);
			MC_CHECK(close<R>(r, (LD)from + ((LD)to - from) * a / RAND_MAX, tol * 8), "randBetween(Real) uniform", "rand()=" << a << " from=" << from << " to=" << to << " got " << r);
			lo = std::min(lo, r); hi = std::max(hi, r);
			if (from >= 0)
			{
				env(a); r = ml::randAmplitude(from, to);
				MC_CHECK(std::fabs(r) >= from - tol && std::fabs(r) <= to + tol, "randAmplitude(Real,Real)", "rand()=" << a << " from=" << from << " to=" << to << " got " << r);
				if (r < 0) neg = true; if (r > 0) pos = true;
			}
			trace();
		}
		MC_CHECK(close<R>(lo, from, tol * 4) && close<R>(hi, to, tol * 4), "randBetween(Real) spans its range", "from=" << from << " to=" << to << " [" << lo << "," << hi << "]");
		if (from >= 0) MC_CHECK(pos && neg, "randAmplitude(Real,Real) has both signs", "from=" << from << " to=" << to);
	};
	for (R from : { R(0), R(1), R(-1), R(0.25), R(10), R(-100.5) }) for (R w : { R(1), R(0.5), R(10), R(1000), R(1e-3) }) between2(from, w, S);
	star<R>(2, [&](const R* p) { if (p[0] + std::fabs(p[1]) != p[0]) between2(p[0], std::fabs(p[1]), few()); });
}

static void vectors()
{
	section("unit vectors and colours");
	std::vector<int> A = { 0, 1, RAND_MAX / 4, RAND_MAX / 2 - 1000000, RAND_MAX / 2 + 1000000, RAND_MAX / 2 + RAND_MAX / 3, RAND_MAX - 1, RAND_MAX, RAND_MAX / 2, RAND_MAX / 2 + 1, 12345, RAND_MAX / 3 };
	if (thorough()) for (int k = 0; k < 20; ++k) A.push_back((int)((long long)RAND_MAX * (2 * k + 1) / 41));
	std::set<int> quad, oct, cube[4]; // the corners of the colour cube that each kind of colour reaches
	auto corner = [](std::set<int>& out, R x, R y, R z) { int k = 0, i = 0; for (R c : { x, y, z }) { if (c > R(0.999)) k |= 1 << i; else if (!(c < R(0.001))) return; ++i; } out.insert(k); };
	for (int a : A) for (int b : A)
	{
		state();
		env({ a, b, 0, RAND_MAX, RAND_MAX, 7 });
		Vec2<R> v = Vec2<R>::randomUnitVector();
		MC_CHECK(close<R>(v.lengthSqr(), 1, 16 * eps<R>()), "Vec2::randomUnitVector length", "rand()=" << a << "," << b << " got " << v);
		quad.insert((v.x > 0) + 2 * (v.y > 0));
		for (int c : A)
		{
			state();
			env({ a, b, c, 0, RAND_MAX, RAND_MAX, 7 });
			Vec3<R> u = Vec3<R>::randomUnitVector();
			MC_CHECK(close<R>(u.lengthSqr(), 1, 16 * eps<R>()), "Vec3::randomUnitVector length", "rand()=" << a << "," << b << "," << c << " got " << u);
			oct.insert((u.x > 0) + 2 * (u.y > 0) + 4 * (u.z > 0));
			env({ a, b, c });
			auto rgb = ml::ColorRGB<R>::random();
			const R one = 1 + R(4 * eps<R>());
			MC_CHECK(rgb.r >= 0 && rgb.r <= one && rgb.g >= 0 && rgb.g <= one && rgb.b >= 0 && rgb.b <= one, "ColorRGB::random", a << "," << b << "," << c << " got " << rgb.r << "," << rgb.g << "," << rgb.b);
			env({ a, b, c });
			auto rgba = ml::ColorRGBA<R>::random(R(0.25));
			MC_CHECK(rgba.r >= 0 && rgba.r <= one && rgba.g >= 0 && rgba.g <= one && rgba.b >= 0 && rgba.b <= one && rgba.a == R(0.25), "ColorRGBA::random", a << "," << b << "," << c << " got " << rgba.r << "," << rgba.g << "," << rgba.b << "," << rgba.a);
			corner(cube[0], rgb.r, rgb.g, rgb.b); corner(cube[1], rgba.r, rgba.g, rgba.b);
			env({ a, b, c }); auto rgb2 = ml::ColorRGB<R>::random(); env({ a, b, c, 0, RAND_MAX, RAND_MAX, 7 }); Vec3<R> u2 = Vec3<R>::randomUnitVector();
			MC_CHECK(rgb2.r == rgb.r && rgb2.g == rgb.g && rgb2.b == rgb.b && same(u, u2), "equal generator outputs give equal results", a << "," << b << "," << c);
			for (R al : ladder<R>()) if (al >= 0 && al <= 1) { env({ a, b, c }); auto q = ml::ColorRGBA<R>::random(al); MC_CHECK(q.a == al && q.r == rgba.r && q.g == rgba.g && q.b == rgba.b, "ColorRGBA::random(alpha)", a << "," << b << "," << c << " alpha " << al << " got " << q.r << "," << q.g << "," << q.b << "," << q.a); }
			env({ a, b, c });
			auto rgba1 = ml::ColorRGBA<R>::random();
			corner(cube[2], rgba1.r, rgba1.g, rgba1.b);
			MC_CHECK(rgba1.a == 1, "ColorRGBA::random default alpha", rgba1.a);
			env({ a, b, c });
			auto hsv = ml::ColorHSV<R>::random();
			MC_CHECK(hsv.h >= 0 && hsv.h <= 360 * one && hsv.s >= 0 && hsv.s <= one && hsv.v >= 0 && hsv.v <= one, "ColorHSV::random", a << "," << b << "," << c << " got " << hsv.h << "," << hsv.s << "," << hsv.v);
			corner(cube[3], hsv.h / 360, hsv.s, hsv.v);
			trace();
			sample([&](std::ostream& s) { s << "rand()=" << a << "," << b << "," << c << " -> " << u; });
		}
	}
	MC_CHECK(quad.size() == 4, "Vec2::randomUnitVector reaches every quadrant", quad.size());
	MC_CHECK(oct.size() == 8, "Vec3::randomUnitVector reaches every octant", oct.size());
	static const char* cs[] = { "ColorRGB::random", "ColorRGBA::random(alpha)", "ColorRGBA::random", "ColorHSV::random" };
	for (int i = 0; i < 4; ++i) MC_CHECK(cube[i].size() == 8, std::string(cs[i]) + " reaches every corner of the colour cube", cube[i].size());
	// a generator that keeps answering with the midpoint for a while must only be retried, not returned as null
	for (int n = 1; n <= 12; ++n)
	{
		state();
		answers.assign(n, RAND_MAX / 2); answers.push_back(0); answers.push_back(1); answers.push_back(RAND_MAX); next_answer = 0;
		Vec2<R> v = Vec2<R>::randomUnitVector();
		MC_CHECK(close<R>(v.lengthSqr(), 1, 16 * eps<R>()), "Vec2::randomUnitVector retries null draws", n << " got " << v);
		next_answer = 0;
		Vec3<R> u = Vec3<R>::randomUnitVector();
		MC_CHECK(close<R>(u.lengthSqr(), 1, 16 * eps<R>()), "Vec3::randomUnitVector retries null draws", n << " got " << u);
		trace();
	}
}

void explore() { ints(); reals(); vectors(); }
