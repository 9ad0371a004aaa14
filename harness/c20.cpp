// C20: spline solver: the control points make a C2 curve through the given points with the requested ends; memory discipline.
#include "vecs.h"
#include "alloc.h"
typedef MC_REAL R;
typedef Vec3<R> V; typedef ml::SplineSolver3<R> SS;
static std::string show(int n, const V* p) { std::ostringstream s; s.precision(9); for (int i = 0; i < n && i < 8; ++i) s << p[i]; if (n > 8) s << "... " << n << " points"; return s.str(); }
enum Kind { Natural, Clamped, Closed };
static void one(Kind kind, int n, const V* pts, const V& s, const V& e)
{
	state(); trace();
	const char* nm = kind == Natural ? "SplineSolver3::naturalBezierSpline" : kind == Clamped ? "SplineSolver3::bezierSpline" : "SplineSolver3::closedBezierSpline"; const std::string P = nm;
	int m = kind == Closed ? n : n - 1;
	std::vector<V> in(pts, pts + n);
	Arr<V> K(in), A(std::vector<V>(m + 2 * !MC_SMALL, V(R(777), 777, 777))), B(std::vector<V>(m + 2 * !MC_SMALL, V(R(777), 777, 777))); long l0 = live;
	bool g = kind == Natural ? SS::naturalBezierSpline(n, K.p, A.p, B.p) : kind == Clamped ? SS::bezierSpline(n, K.p, s, e, A.p, B.p) : SS::closedBezierSpline(n, K.p, A.p, B.p);
	MC_CHECK(live == l0, P + " leaks", show(n, pts));
	bool ok = true; for (int i = 0; i < n; ++i) ok = ok && same(K.p[i], in[i]); MC_CHECK(ok, P + " changes its input", show(n, pts));
	for (int i = m; i < A.n; ++i) MC_CHECK(A.p[i].x == 777 && A.p[i].z == 777 && B.p[i].x == 777 && B.p[i].z == 777, P + " writes beyond its output", show(n, pts));
	MC_CHECK(g, P + " result", show(n, pts)); if (!g) return;
	for (int c = 0; c < 3; ++c)
	{
		auto k = [&](int i) -> LD { return comp(pts[i % n], c); }; auto a = [&](int i) -> LD { return comp(A.p[i], c); }; auto b = [&](int i) -> LD { return comp(B.p[i], c); };
		LD big = 0; for (int i = 0; i < n; ++i) big = std::max(big, fabsl(k(i))); if (kind == Clamped) big = std::max(big, std::max(fabsl((LD)comp(s, c)), fabsl((LD)comp(e, c))));
		LD tol = 64 * eps<R>() * big; auto z = [&](LD x) { return fabsl(x) <= tol; };
		int first = kind == Closed ? 0 : 1;
		for (int i = first; i < m; ++i)
		{
			int q = (i + m - 1) % m;
			MC_CHECK(z(b(q) + a(i) - 2 * k(i)), P + " tangent continuity", show(n, pts) << " at point " << i << " got " << B.p[q] << A.p[i]);
			MC_CHECK(z(a(q) - 2 * b(q) - b(i) + 2 * a(i)), P + " curvature continuity", show(n, pts) << " at point " << i << " got " << A.p[q] << B.p[q] << A.p[i] << B.p[i]);
		}
		if (kind == Natural) MC_CHECK(z(k(0) - 2 * a(0) + b(0)) && z(a(m - 1) - 2 * b(m - 1) + k(n - 1)), P + " ends without curvature", show(n, pts) << " got " << A.p[0] << B.p[0] << " and " << A.p[m - 1] << B.p[m - 1]);
		if (kind == Natural && m == 1) MC_CHECK(z(3 * a(0) - 2 * k(0) - k(1)) && z(3 * b(0) - k(0) - 2 * k(1)), P + " straight segment", show(n, pts) << " got " << A.p[0] << B.p[0]);
		if (kind == Clamped) MC_CHECK(z(a(0) - comp(s, c)) && z(b(m - 1) - comp(e, c)), P + " end control points", show(n, pts) << s << e << " got " << A.p[0] << B.p[m - 1]);
	}
	sample([&](std::ostream& o) { o << show(n, pts) << " -> " << A.p[0] << B.p[0] << " .. " << A.p[m - 1] << B.p[m - 1]; });
}
void explore()
{
	bool th = thorough() && !MC_SMALL;
	std::vector<V> al = { V(0, 0, 0), V(1, 0, R(-0.5)), V(-2, 3, R(0.1)), V(10, R(-0.3), 4), V(1, 1, 1) };
	std::vector<V> ends = { V(0, 0, 0), V(2, -1, R(0.7)), V(-5, 4, 1) };
	const char* names[] = { "natural", "clamped", "closed" };
	for (int kind = 0; kind < 3; ++kind)
	{
		section(std::string(names[kind]) + " all sequences");
		int maxn = (th ? 8 : 6) - (kind == Clamped);
		for (int n = 2; n <= maxn; ++n) tuples(al, n, [&](const V* p) { if (kind != Clamped) one((Kind)kind, n, p, V(0, 0, 0), V(0, 0, 0)); else for (auto& s : ends) for (auto& e : ends) one(Clamped, n, p, s, e); });
		section(std::string(names[kind]) + " ladders");
		if (!MC_SMALL) for (int n = 2; n <= 5; ++n) { int ne = kind == Clamped ? 2 : 0; star<R>(3 * (n + ne), [&](const R* q) { std::vector<V> p; for (int i = 0; i < n + ne; ++i) p.push_back(mk3(q + 3 * i)); one((Kind)kind, n, p.data(), ne ? p[n] : V(0, 0, 0), ne ? p[n + 1] : V(0, 0, 0)); }); }
		section(std::string(names[kind]) + " long sequences");
		std::vector<int> ns; for (int n = 7; n <= (th ? 66 : 33); ++n) ns.push_back(n); if (!MC_SMALL) for (int n : { 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257, 258, 1000, 5000 }) if (n > ns.back() && (kind != Closed || n < 140)) ns.push_back(n); // the closed solver is cubic
		for (int n : ns) for (int pat = 0; pat < 6; ++pat) for (R sc : { R(1), R(1000), R(1) / 1024, std::ldexp(R(1), -40), std::ldexp(R(1), 40) })
		{
			std::vector<V> p; for (int i = 0; i < n; ++i)
				p.push_back(pat == 0 ? V(i * sc, (i % 2) * sc, 0) : pat == 1 ? al[(i * i) % 5] * sc : pat == 2 ? V(sc, sc, -sc) : pat == 3 ? V((i * 7) % n * sc, (i * 3) % 5 * sc, (i / 3) * sc) : pat == 4 ? V(i == n / 2 ? sc : R(0), i == 0 ? sc : R(0), i == n - 1 ? sc : R(0)) : V(std::sin(R(i)) * sc, std::cos(R(i)) * sc, R(0.1) * i * sc));
			one((Kind)kind, n, p.data(), ends[1] * sc, ends[2] * sc);
		}
	}
}
