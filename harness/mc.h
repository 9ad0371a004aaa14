// Bounded-exhaustive / explicit-state exploration support.
// Every harness enumerates a finite space completely, runs the real mathlib code on each element
// and compares with an independent oracle.  Nothing here is random.
#pragma once

#include <cmath>
#include <cfloat>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <algorithm>
#include <array>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <deque>

#ifndef MC_EXIT
#define MC_EXIT std::_Exit // no destructors, no atexit handlers (coverage builds use std::exit)
#endif

namespace mc
{

typedef long double LD;

// ---------------------------------------------------------------------------------------------
// Run context
// ---------------------------------------------------------------------------------------------

struct Failure { std::string section; unsigned long long index; std::string site; std::string detail; bool known; };

struct Context
{
	std::string property;
	bool thorough = false;
	std::string out;             // evidence coverage fragment
	std::string replay_section;  // restrict reports to one case
	long long replay_index = -1;

	std::string section = "-";
	unsigned long long index = 0; // case number within the section

	unsigned long long states = 0, transitions = 0, traces = 0;
	std::map<std::string, std::array<unsigned long long, 3>> per_section; // states, transitions, traces
	std::vector<std::string> samples;
	std::map<std::string, int> samples_per_section;
	std::vector<Failure> failures;
	std::set<std::string> failed_sites;
	std::map<std::string, std::string> known;      // site -> text, for this property
	std::map<std::string, unsigned long long> known_hits;
	std::string bounds;
	char current[512] = "startup";
};

inline Context& ctx() { static Context c; return c; }

inline bool thorough() { return ctx().thorough; }

void finish_and_exit();

// the unit of length: harnesses explore the same alphabets in several units (powers of two, so that every coordinate stays as exact
// as before); U() converts a list of coordinates, u() one coordinate
inline long double& UNIT() { static long double u = 1; return u; }
template <class Real> std::vector<Real> U(std::vector<Real> v) { for (auto& x : v) x = Real(x * UNIT()); return v; }
template <class Real> Real u(Real x) { return Real(x * UNIT()); }
inline bool deep() { return thorough() && UNIT() == 1; }
template <class Real, class F> void inUnits(F f)
{
	f(); bool d = sizeof(Real) == 8;
	for (int k : { d ? -60 : -26, d ? 60 : 20 }) { UNIT() = std::ldexp(1.0L, k); f(); }
	UNIT() = 1;
}

inline void section(const std::string& what)
{
	Context& c = ctx();
	const std::string name = UNIT() == 1 ? what : what + (UNIT() < 1 ? ", small units" : ", large units");
	c.section = name;
	c.index = 0;
	std::snprintf(c.current, sizeof c.current, "%s", name.c_str());
	// a section that makes no progress for this long is reported as non-termination
	itimerval t; std::memset(&t, 0, sizeof t);
	t.it_value.tv_sec = c.thorough ? 6000 : 400;
	setitimer(ITIMER_REAL, &t, nullptr);
}

// a new distinct input / abstract state of the explored space
inline void state(unsigned long long n = 1)
{
	Context& c = ctx();
	c.states += n; c.per_section[c.section][0] += n;
	++c.index;
}

// Cheap variants used in inner loops
struct Counter
{
	unsigned long long st = 0, tr = 0, pa = 0;
	~Counter() { flush(); }
	void flush()
	{
		Context& c = ctx();
		c.states += st; c.transitions += tr; c.traces += pa;
		auto& a = c.per_section[c.section];
		a[0] += st; a[1] += tr; a[2] += pa;
		st = tr = pa = 0;
	}
};

inline void step(unsigned long long n = 1) { Context& c = ctx(); c.transitions += n; c.per_section[c.section][1] += n; }
inline void trace(unsigned long long n = 1) { Context& c = ctx(); c.traces += n; c.per_section[c.section][2] += n; }

template <class F> void sample(F f, int per_section = 3)
{
	Context& c = ctx();
	int& n = c.samples_per_section[c.section];
	if (n >= per_section || c.samples.size() >= 120) return;
	// spread the samples over the section: 2nd, 100th, 5000th case
	static const unsigned long long at[] = { 2, 100, 5000, 250000 };
	if (c.index < at[n < 4 ? n : 3]) return;
	++n;
	std::ostringstream s; s.precision(9);
	s << c.section << " #" << c.index << ": ";
	f(s);
	c.samples.push_back(s.str());
}

inline void report(const std::string& site, const std::string& detail)
{
	Context& c = ctx();
	if (c.replay_index >= 0 && !(c.section == c.replay_section && (long long)c.index == c.replay_index)) return;
	auto k = c.known.find(site);
	if (k != c.known.end()) { ++c.known_hits[site]; return; }
	if (c.failures.size() < 200 && (c.failed_sites.insert(site).second || c.failures.size() < 20))
		c.failures.push_back(Failure{ c.section, c.index, site, detail, false });
	static unsigned long long reports = 0;
	if (c.failed_sites.size() >= 40 || ++reports > 5000) finish_and_exit(); // the verdict is clear
}

#define MC_CHECK(cond, site, msg) \
	do { ++::mc::ctx().transitions; if (!(cond)) { std::ostringstream mc_s; mc_s.precision(17); mc_s << msg; ::mc::report(site, mc_s.str()); } } while (0)

// ---------------------------------------------------------------------------------------------
// Oracle numbers: long double value plus the magnitude the rounding errors scale with, so that the
// tolerance follows cancellation and does not depend on how an expression is arranged.
// ---------------------------------------------------------------------------------------------

struct E
{
	LD v, m;
	E() : v(0), m(0) {}
	E(LD x) : v(x), m(fabsl(x)) {}
	E(double x) : v(x), m(std::fabs(x)) {}
	E(float x) : v(x), m(std::fabs(x)) {}
	E(int x) : v(x), m(std::abs((double)x)) {}
	E(LD v_, LD m_) : v(v_), m(m_) {}
};
inline E operator+(E a, E b) { return E(a.v + b.v, a.m + b.m); }
inline E operator-(E a, E b) { return E(a.v - b.v, a.m + b.m); }
inline E operator-(E a) { return E(-a.v, a.m); }
inline E operator*(E a, E b) { return E(a.v * b.v, a.m * b.m); }
inline E operator/(E a, E b) { LD v = a.v / b.v; return E(v, (a.m + fabsl(v) * b.m) / fabsl(b.v)); }
inline E& operator+=(E& a, E b) { a = a + b; return a; }
inline E& operator-=(E& a, E b) { a = a - b; return a; }
inline E& operator*=(E& a, E b) { a = a * b; return a; }
inline E esqrt(E a)
{
	if (a.v <= 0) return E(0, sqrtl(a.m));
	LD v = sqrtl(a.v);
	return E(v, std::min(v + a.m / v, v + sqrtl(a.m)));
}
inline E eabs(E a) { return E(fabsl(a.v), a.m); }

template <class Real> inline LD eps() { return (LD)std::numeric_limits<Real>::epsilon(); }

template <class Real> inline bool near(Real got, const E& want, LD k = 32)
{
	if (!(got == got)) return false;
	LD d = fabsl((LD)got - want.v);
	return d <= k * eps<Real>() * want.m + 64 * (LD)std::numeric_limits<Real>::denorm_min();
}

template <class Real> inline bool close(Real got, LD want, LD abs_tol)
{
	if (!(got == got)) return false;
	return fabsl((LD)got - want) <= abs_tol;
}

// ---------------------------------------------------------------------------------------------
// Enumeration
// ---------------------------------------------------------------------------------------------

// all tuples of length N over values (f is called with const T*)
template <class T, class F> void tuples(const std::vector<T>& values, size_t n, F f)
{
	std::vector<size_t> idx(n, 0);
	std::vector<T> cur(n, values[0]);
	for (;;)
	{
		f((const T*)cur.data());
		size_t i = n;
		while (i > 0)
		{
			--i;
			if (++idx[i] < values.size()) { cur[i] = values[idx[i]]; break; }
			idx[i] = 0; cur[i] = values[0];
			if (i == 0) return;
		}
		if (n == 0) return;
	}
}

// A ladder of numbers that visits every stretch of the number line a condition could single out: both signs, tiny, around the usual
// constants, every quarter up to 8, and in decades above.
template <class T> const std::vector<T>& ladder()
{
	static const std::vector<T> r = [] {
		std::vector<T> p = { T(1e-7), T(1e-6), T(3e-5), T(2e-4), T(1e-3), T(0.004), T(0.011), T(0.027) }, q;
		const T step = thorough() ? T(0.01171875) : T(0.0546875);
		for (T x = T(0.05); x < T(2.2); x += step) p.push_back(x);
		for (T x = T(2.25); x < T(8.3); x += thorough() ? T(0.0625) : T(0.375)) p.push_back(x);
		for (T x : { T(1), T(2), T(3), T(0.5), T(9), T(10), T(12.5), T(20), T(33), T(45), T(52), T(60), T(90), T(100), T(127), T(180), T(255), T(360), T(700), T(1024), T(5e3), T(1e4), T(4e4), T(1.5e5), T(1e6), T(3e6) }) p.push_back(x);
		for (T x : { T(1), T(0.5), T(2) }) for (T d : { T(3e-3), T(2e-4), T(1e-5), T(6e-7) }) { p.push_back(x * (1 + d)); p.push_back(x * (1 - d)); } // next to the usual constants
		q.push_back(T(0)); for (T x : p) { q.push_back(x); q.push_back(-x); }
		return q;
	}();
	return r;
}
template <class T> const std::vector<T>& rungs() // every few rungs of the ladder
{
	static const std::vector<T> r = { T(0), T(1e-5), T(-1e-5), T(0.005), T(-0.005), T(0.12), T(-0.12), T(0.45), T(-0.45), T(0.94), T(-0.94), T(1), T(-1), T(1.7), T(-1.7), T(2.6), T(-2.6), T(4.75), T(-4.75), T(11), T(-11), T(70), T(-70), T(2e5), T(-2e5) };
	return r;
}
template <class T> T between(T v, T lo, T hi) { return v < lo ? lo : v > hi ? hi : v; }
// star-shaped exploration: around several base points, every coordinate climbs the whole ladder, and every pair of coordinates takes all pairs of rungs
template <class T, class F> void star(size_t n, F f, bool pairs = true, T lo = -std::numeric_limits<T>::max(), T hi = std::numeric_limits<T>::max())
{
	static const double base[3][16] = {
		{ 1.25, -0.625, 2.3, 0.45, -3.7, 0.8125, 5.1, -1.6, 0.33, -0.9, 1.9, -2.75, 0.7, 3.3, -0.15, 1.1 },
		{ -0.7, 1.4, 0.35, -2.2, 0.9, 4.6, -0.28, 1.05, -1.3, 2.9, -0.55, 0.17, -3.1, 0.62, 1.75, -0.83 },
		{ 0.15, 0.4, -0.22, 0.31, 0.11, -0.37, 0.27, 0.19, -0.45, 0.08, 0.36, -0.13, 0.24, 0.42, -0.17, 0.29 } };
	for (int b = 0; b < 3; ++b)
	{
		std::vector<T> p(n); for (size_t i = 0; i < n; ++i) p[i] = T(base[(b + i / 16) % 3][i % 16] * (1 + 0.07 * (i / 16)));
		for (size_t i = 0; i < n; ++i) if (p[i] < lo || p[i] > hi) { p[i] = -p[i]; if (p[i] < lo || p[i] > hi) p[i] = p[i] - std::floor(p[i]); if (p[i] < lo || p[i] > hi) p[i] = lo + (hi - lo) / 3; }
		for (size_t i = 0; i < n; ++i) { const T s = p[i]; for (T v : ladder<T>()) if (v >= lo && v <= hi) { p[i] = v; f((const T*)p.data()); } p[i] = s; }
		if (!pairs || (b && !thorough())) continue;
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j)
		{
			const T s = p[i], t = p[j];
			for (T v : rungs<T>()) if (v >= lo && v <= hi) for (T w : rungs<T>()) if (w >= lo && w <= hi) { p[i] = v; p[j] = w; f((const T*)p.data()); }
			p[i] = s; p[j] = t;
		}
	}
}
template <class T, class F> void tuplesS(const std::vector<T>& values, size_t n, F f) { tuples(values, n, f); if (UNIT() == 1) star<T>(n, f); }

template <class T> std::vector<T> scaled(const std::vector<T>& v, T s)
{
	std::vector<T> r;
	for (auto& x : v) r.push_back(x * s);
	return r;
}

template <class Real> std::string rname() { return std::is_same<Real, float>::value ? "f" : "d"; }

// ---------------------------------------------------------------------------------------------
// Output
// ---------------------------------------------------------------------------------------------

inline std::string json_escape(const std::string& s)
{
	std::string r;
	for (char ch : s)
	{
		if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
		else if (ch == '\n') r += "\\n";
		else if ((unsigned char)ch < 32) r += ' ';
		else r += ch;
	}
	return r;
}

inline void write_results()
{
	Context& c = ctx();
	FILE* f = std::fopen(c.out.c_str(), "w");
	if (!f) { std::perror(c.out.c_str()); MC_EXIT(2); }
	std::fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"traces\": %llu,\n", c.states, c.transitions, c.traces);
	std::fprintf(f, "\"bounds\": \"%s\",\n\"sections\": {", json_escape(c.bounds).c_str());
	bool first = true;
	for (auto& s : c.per_section)
	{
		std::fprintf(f, "%s\n \"%s\": {\"states\": %llu, \"traces\": %llu}", first ? "" : ",", json_escape(s.first).c_str(), s.second[0], s.second[2]);
		first = false;
	}
	std::fprintf(f, "},\n\"samples\": [");
	first = true;
	for (auto& s : c.samples) { std::fprintf(f, "%s\n \"%s\"", first ? "" : ",", json_escape(s).c_str()); first = false; }
	std::fprintf(f, "],\n\"known_hits\": {");
	first = true;
	for (auto& s : c.known_hits) { std::fprintf(f, "%s\"%s\": %llu", first ? "" : ",", json_escape(s.first).c_str(), s.second); first = false; }
	std::fprintf(f, "},\n\"failures\": [");
	first = true;
	for (auto& x : c.failures)
	{
		std::fprintf(f, "%s\n {\"section\": \"%s\", \"index\": %llu, \"site\": \"%s\", \"detail\": \"%s\"}", first ? "" : ",",
			json_escape(x.section).c_str(), x.index, json_escape(x.site).c_str(), json_escape(x.detail).c_str());
		first = false;
	}
	std::fprintf(f, "]}\n");
	std::fclose(f);
}

inline void finish_and_exit()
{
	write_results();
	MC_EXIT(ctx().failures.empty() ? 0 : 1);
}

inline void on_signal(int sig)
{
	// crash or non-termination of the code under test while exploring a case
	Context& c = ctx();
	static volatile int once = 0;
	if (once++) MC_EXIT(1);
	char buf[256];
	std::snprintf(buf, sizeof buf, "signal %d (%s) while running section %s, case #%llu", sig,
		sig == SIGALRM ? "did not terminate" : "crash", c.section.c_str(), c.index);
	c.failures.push_back(Failure{ c.section, c.index, sig == SIGALRM ? "hang" : "crash", buf, false });
	write_results();
	MC_EXIT(1);
}

} // namespace mc

void explore(); // defined by each harness

int main(int argc, char** argv)
{
	mc::Context& c = mc::ctx();
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--thorough") c.thorough = true;
		else if (a == "--property") c.property = argv[++i];
		else if (a == "--out") c.out = argv[++i];
		else if (a == "--known") { std::string k = argv[++i]; c.known[k] = k; }
		else if (a == "--replay") { c.replay_section = argv[++i]; c.replay_index = std::atoll(argv[++i]); }
	}
	for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM })
		std::signal(s, mc::on_signal);
	mc::section("-");
	explore();
	mc::finish_and_exit();
}
