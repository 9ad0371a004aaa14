// C19: linear solvers against exact integer arithmetic; memory discipline (exact-size buffers, no leaks, inputs untouched).
#include "vecs.h"
#include "alloc.h"
typedef MC_REAL R;
typedef long long I;
static const int MAXN = 8;
struct Exact { int n; bool singular; I det; I adj[MAXN][MAXN]; };
// fraction-free Gauss-Jordan elimination: adj = det * inverse
static Exact exact(int n, const I* a)
{
	I m[MAXN][2 * MAXN]; Exact e; e.n = n; for (int i = 0; i < n; ++i) for (int j = 0; j < 2 * n; ++j) m[i][j] = j < n ? a[i * n + j] : (j - n == i);
	I prev = 1; e.singular = false; I sign = 1;
	for (int k = 0; k < n; ++k)
	{
		int p = k; while (p < n && m[p][k] == 0) ++p;
		if (p == n) { e.singular = true; e.det = 0; return e; }
		if (p != k) { for (int j = 0; j < 2 * n; ++j) std::swap(m[p][j], m[k][j]); sign = -sign; }
		I piv = m[k][k];
		for (int i = 0; i < n; ++i) if (i != k) { I f = m[i][k]; for (int j = 0; j < 2 * n; ++j) m[i][j] = (piv * m[i][j] - f * m[k][j]) / prev; }
		prev = piv;
	}
	e.det = m[0][0]; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) e.adj[i][j] = m[i][j + n];
	(void)sign; return e;
}
static std::string show(int n, const I* a) { std::ostringstream s; for (int i = 0; i < n; ++i) { s << (i ? "; " : "["); for (int j = 0; j < n; ++j) s << (j ? " " : "") << a[i * n + j]; } s << "]"; return s.str(); }
static bool pow2(I x) { x = x < 0 ? -x : x; return x && !(x & (x - 1)); }

// ---- Gauss-Jordan -----------------------------------------------------------------------------------------------
// sa: power-of-two factor applied to the matrix, sb: to the right-hand sides
static void gauss(int n, const I* a, const Exact& e, int m, bool exactArith, R sa = 1, R sb = 1)
{
	state();
	std::vector<R> av(n * n), bv(n * m); for (int i = 0; i < n * n; ++i) av[i] = R(a[i]) * sa;
	std::vector<I> b(n * m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { b[i * m + j] = j == 0 ? (i % 3) * 2 - 1 : j == 1 ? i == n - 1 : 3 - i * j; bv[i * m + j] = R(b[i * m + j]) * sb; }
	Arr<R> A(av), B(bv); long l0 = live;
	bool g;
	if (m == 2 && (a[0] & 1)) g = ml::GaussJordan<R>::solve(A.p, n, (ml::Vec2<R>*)B.p); else if (m == 3 && (a[0] & 1)) g = ml::GaussJordan<R>::solve(A.p, n, (ml::Vec3<R>*)B.p); else g = ml::GaussJordan<R>::solve(A.p, n, B.p, m);
	MC_CHECK(live == l0, "GaussJordan::solve leaks", show(n, a) << " result " << g);
	if (e.singular) { if (exactArith) MC_CHECK(!g, "GaussJordan::solve of a singular matrix", show(n, a) << " scale " << sa); return; }
	MC_CHECK(g, "GaussJordan::solve of a regular matrix", show(n, a) << " scale " << sa << " det " << e.det);
	if (!g) return;
	LD amax = 0; for (int i = 0; i < n * n; ++i) amax = std::max(amax, fabsl((LD)a[i]));
	LD rowsum[MAXN]; for (int i = 0; i < n; ++i) { rowsum[i] = 0; for (int j = 0; j < n; ++j) rowsum[i] += fabsl((LD)e.adj[i][j] / e.det); }
	LD k = 32 * n * eps<R>();
	LD imax = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) imax = std::max(imax, fabsl((LD)e.adj[i][j] / e.det));
	bool ok = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD w = (LD)e.adj[i][j] / e.det, x = (LD)A.p[i * n + j] * sa; ok = ok && fabsl(x - w) <= k * rowsum[i] * amax * n * imax; }
	MC_CHECK(ok, "GaussJordan::solve inverse", show(n, a) << " scale " << sa << " got " << A.p[0] << " want " << (double)((LD)e.adj[0][0] / e.det));
	ok = true; R bad = 0; double want = 0;
	for (int j = 0; j < m; ++j)
	{
		LD w[MAXN], xmax = 0; for (int i = 0; i < n; ++i) { I s = 0; for (int q = 0; q < n; ++q) s += e.adj[i][q] * b[q * m + j]; w[i] = (LD)s / e.det; xmax = std::max(xmax, fabsl(w[i])); }
		for (int i = 0; i < n; ++i) { LD x = (LD)B.p[i * m + j] / sb * sa; if (!(fabsl(x - w[i]) <= k * rowsum[i] * amax * n * std::max(xmax, imax))) { ok = false; bad = (R)x; want = w[i]; } }
	}
	MC_CHECK(ok, "GaussJordan::solve solution", show(n, a) << " m " << m << " scale " << sa << " got " << bad << " want " << want);
	sample([&](std::ostream& o) { o << show(n, a) << " m " << m << " det " << e.det << " solved " << g; });
}
static void gaussAll(int n, const std::vector<I>& v, bool exactArith, std::vector<int> ms)
{
	std::ostringstream s; s << "GaussJordan " << n << "x" << n; section(s.str());
	tuples(v, n * n, [&](const I* a) { trace(); Exact e = exact(n, a); for (int m : ms) gauss(n, a, e, m, exactArith); });
}
static void gaussSpecial()
{
	section("GaussJordan permutations and scales");
	for (int n = 1; n <= (thorough() ? 7 : 6) - MC_SMALL; ++n)
	{
		std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
		do
		{
			for (int kind = 0; kind < 3; ++kind)
			{
				trace();
				std::vector<I> a(n * n, 0); for (int i = 0; i < n; ++i) { a[i * n + p[i]] = kind == 0 ? 1 : kind == 1 ? (i & 1 ? -2 : 4) : i + 1; if (kind == 2 && p[i] + 1 < n) a[i * n + p[i] + 1] = 1; }
				Exact e = exact(n, a.data());
				for (int x : { 0, -100, 100 }) gauss(n, a.data(), e, 2, false, std::ldexp(R(1), x), R(1));
				if (sizeof(R) == 8) for (int x : { -200, 200, -900 }) gauss(n, a.data(), e, 1, false, std::ldexp(R(1), x), std::ldexp(R(1), x));
			}
		} while (std::next_permutation(p.begin(), p.end()));
	}
	// singular by a zero row, a zero column or all zeros, whatever the rest
	for (int n = 1; n <= 5; ++n) for (int z = 0; z < n; ++z) for (int col = 0; col < 2; ++col) for (int kind = 0; kind < 4; ++kind)
	{
		trace(); std::vector<I> a(n * n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i * n + j] = (col ? j : i) == z ? 0 : kind == 0 ? 1 : kind == 1 ? i * 3 - j : kind == 2 ? (i == j) * 7 + 1 : (i * j + i + 2) % 5;
		Exact e = exact(n, a.data()); gauss(n, a.data(), e, 1, col == 0 || kind == 0);
	}
}
// ---- tridiagonal --------------------------------------------------------------------------------------------------
struct Tri { int n; const I *a, *b, *c; I alpha, beta; bool cyclic; };
static std::string show(const Tri& t) { std::ostringstream s; s << "lower ["; for (int i = 0; i + 1 < t.n; ++i) s << " " << t.a[i]; s << " ] diagonal ["; for (int i = 0; i < t.n; ++i) s << " " << t.b[i]; s << " ] upper ["; for (int i = 0; i + 1 < t.n; ++i) s << " " << t.c[i]; s << " ]"; if (t.cyclic) s << " corners " << t.alpha << " " << t.beta; return s.str(); }
// elimination without pivoting, in exact terms: smallest pivot, growth, whether every quotient is exactly representable
struct Elim { bool zero, exact; LD growth; };
static Elim eliminate(int n, const I* a, const LD* b, const I* c, bool dyadic)
{
	Elim e = { false, dyadic, 0 }; LD bet = b[0];
	auto p2 = [](LD x) { int ex; return fabsl(frexpl(x, &ex)) == 0.5L; };
	for (int j = 0;; ++j)
	{
		if (fabsl(bet) < 1e-13L) { e.zero = true; return e; }
		if (!p2(bet)) e.exact = false;
		if (j + 1 == n) return e;
		LD gam = c[j] / bet; e.growth = std::max(e.growth, fabsl(a[j] * gam)); bet = b[j + 1] - a[j] * gam;
	}
}
static void tri(const Tri& t, bool vec)
{
	state(); trace();
	int n = t.n; I m[MAXN * MAXN] = { 0 };
	for (int i = 0; i < n; ++i) { m[i * n + i] = t.b[i]; if (i + 1 < n) { m[(i + 1) * n + i] = t.a[i]; m[i * n + i + 1] = t.c[i]; } }
	if (t.cyclic && n > 2) { m[(n - 1) * n] += t.alpha; m[n - 1] += t.beta; }
	Exact e = exact(n, m);
	bool corner = t.cyclic && (t.alpha || t.beta);
	LD bb[MAXN], gr = 0; bool dyadic = true; for (int i = 0; i < n; ++i) bb[i] = t.b[i];
	Elim el;
	if (corner) { if (bb[0] != 0) { bb[n - 1] += (LD)t.alpha * t.beta / bb[0]; gr = fabsl((LD)t.alpha * t.beta / bb[0]); if (!pow2(t.b[0])) dyadic = false; bb[0] *= 2; } el = eliminate(n, t.a, bb, t.c, dyadic); }
	else el = eliminate(n, t.a, bb, t.c, true);
	I bi[MAXN]; std::vector<R> av, bv, cv, rv; for (int i = 0; i < n; ++i) { bi[i] = i == 0 ? 1 : i == 1 ? -2 : i == 2 ? 3 : 1 - i; bv.push_back(R(t.b[i])); rv.push_back(R(bi[i])); if (i + 1 < n) { av.push_back(R(t.a[i])); cv.push_back(R(t.c[i])); } }
	Arr<R> A(av), B(bv), C(cv), Rh(rv), U(std::vector<R>(n, R(777))); long l0 = live;
	const char* nm = t.cyclic ? "TriDiagonal::solveCyclic" : "TriDiagonal::solve";
	bool g = t.cyclic ? ml::TriDiagonal<R>::solveCyclic(A.p, B.p, C.p, R(t.alpha), R(t.beta), Rh.p, U.p, n) : ml::TriDiagonal<R>::solve(A.p, B.p, C.p, Rh.p, U.p, n);
	MC_CHECK(live == l0, std::string(nm) + " leaks", show(t));
	bool same = true; for (int i = 0; i < n; ++i) same = same && B.p[i] == bv[i] && Rh.p[i] == rv[i] && (i + 1 == n || (A.p[i] == av[i] && C.p[i] == cv[i])); MC_CHECK(same, std::string(nm) + " changes its input", show(t));
	bool decided = !el.zero || el.exact; // otherwise a zero pivot may be rounded to something else
	if (t.cyclic && n <= 2) { MC_CHECK(!g, std::string(nm) + " of fewer than 3 equations", show(t)); return; }
	if (e.singular) { if (el.exact) MC_CHECK(!g, std::string(nm) + " of a singular system", show(t) << " got " << U.p[0]); return; }
	if (!el.zero) MC_CHECK(g, std::string(nm) + " of a regular system", show(t));
	LD rowsum[MAXN], w[MAXN], xmax = 0, mmax = 0, imax = 0; for (int i = 0; i < n; ++i) { I s = 0; rowsum[i] = 0; for (int q = 0; q < n; ++q) { s += e.adj[i][q] * bi[q]; rowsum[i] += fabsl((LD)e.adj[i][q] / e.det); imax = std::max(imax, fabsl((LD)e.adj[i][q] / e.det)); mmax = std::max(mmax, fabsl((LD)m[i * n + q])); } w[i] = (LD)s / e.det; xmax = std::max(xmax, fabsl(w[i])); }
	LD k = 128 * n * eps<R>() * (mmax + el.growth + gr);
	if (corner) k *= 16 * (1 + el.growth) * (1 + mmax * imax);
	auto good = [&](LD x, int i, LD f) { return fabsl(x - w[i] * f) <= k * rowsum[i] * std::max(xmax, imax) * fabsl(f); };
	if (g && decided) { bool ok = true; for (int i = 0; i < n; ++i) ok = ok && good(U.p[i], i, 1); MC_CHECK(ok, std::string(nm) + " solution", show(t) << " got " << U.p[0] << "," << U.p[n - 1] << " want " << (double)w[0] << "," << (double)w[n - 1]); }
	if (vec && !t.cyclic)
	{
		std::vector<ml::Vec3<R>> r3; for (int i = 0; i < n; ++i) r3.push_back(ml::Vec3<R>(R(bi[i]), R(-2 * bi[i]), R(4 * bi[i])));
		Arr<ml::Vec3<R>> R3(r3), U3(std::vector<ml::Vec3<R>>(n, ml::Vec3<R>(7, 7, 7))); l0 = live;
		bool g3 = ml::TriDiagonal<R>::solve(A.p, B.p, C.p, R3.p, U3.p, n);
		MC_CHECK(live == l0, "TriDiagonal::solve(Vec3) leaks", show(t));
		MC_CHECK(g3 == g || !decided, "TriDiagonal::solve(Vec3) result", show(t) << " got " << g3);
		same = true; for (int i = 0; i < n; ++i) same = same && B.p[i] == bv[i] && R3.p[i] == r3[i] && (i + 1 == n || (A.p[i] == av[i] && C.p[i] == cv[i])); MC_CHECK(same, "TriDiagonal::solve(Vec3) changes its input", show(t));
		if (g3 && decided) { bool ok = true; for (int i = 0; i < n; ++i) ok = ok && good(U3.p[i].x, i, 1) && good(U3.p[i].y, i, -2) && good(U3.p[i].z, i, 4); MC_CHECK(ok, "TriDiagonal::solve(Vec3) solution", show(t) << " got " << U3.p[0] << " want " << (double)w[0]); }
	}
	sample([&](std::ostream& o) { o << show(t) << " solved " << g << " x0 " << U.p[0]; });
}
static void triAll(int n, const std::vector<I>& v, bool cyclic, const std::vector<I>* diag = 0)
{
	std::ostringstream s; s << (cyclic ? "solveCyclic " : "tridiagonal ") << n << (diag ? " dominant" : ""); section(s.str());
	if (!diag) { tuples(v, 3 * n - 2 + (cyclic ? 2 : 0), [&](const I* p) { Tri t = { n, p, p + n - 1, p + 2 * n - 1, cyclic ? p[3 * n - 2] : 0, cyclic ? p[3 * n - 1] : 0, cyclic }; tri(t, true); }); return; }
	tuples(*diag, n, [&](const I* b) { tuples(v, 3, [&](const I* p) { // off-diagonals in a repeating pattern
		I a[MAXN], c[MAXN]; for (int i = 0; i < n; ++i) { a[i] = p[i % 3]; c[i] = p[(i * 2 + 1) % 3]; }
		Tri t = { n, a, b, c, cyclic ? p[2] : 0, cyclic ? p[0] : 0, cyclic }; tri(t, true); }); });
}
// ---- systems beyond the reach of the exact arithmetic: diagonally dominant (rows permuted), built from a known solution
static void longSystems()
{
	auto val = [](int i, int k) { return I((i * (2 * k + 7) + k * 3) % 9 - 4); };
	section("GaussJordan long");
	std::vector<int> ns; for (int n = 7; n <= (MC_SMALL ? 12 : 40); ++n) ns.push_back(n); if (!MC_SMALL) for (int n : { 63, 64, 65, 100 }) ns.push_back(n); if (thorough() && !MC_SMALL) for (int n : { 127, 128, 129, 200, 257 }) ns.push_back(n);
	for (int n : ns) for (int perm = 0; perm < 4; ++perm) for (int m : { 1, 2, 3, 5, n }) for (int sc : { 0, -60, 60 })
	{
		if (sc && (perm != 2 || m != 2)) continue; if (n > 40 && m > 3 && perm) continue;
		state(); trace(); std::vector<I> a(n * n), x(n * m); std::vector<R> av(n * n), bv(n * m);
		for (int i = 0; i < n; ++i) { I s = 0; for (int j = 0; j < n; ++j) { a[i * n + j] = val(i + 2 * j, perm + 1) / (n > 20 ? 3 : 2); s += std::abs(a[i * n + j]); } a[i * n + i] = (s + 3) * (i % 3 == 1 ? -1 : 1); }
		auto row = [&](int i) { return perm == 0 ? i : perm == 1 ? n - 1 - i : perm == 2 ? (i + n / 2) % n : (i ^ 1) < n ? (i ^ 1) : i; };
		for (int i = 0; i < n * m; ++i) x[i] = val(i, 2);
		R f = std::ldexp(R(1), sc);
		for (int i = 0; i < n; ++i) { int r = row(i); for (int j = 0; j < n; ++j) av[i * n + j] = R(a[r * n + j]) * f; for (int c = 0; c < m; ++c) { I s = 0; for (int j = 0; j < n; ++j) s += a[r * n + j] * x[j * m + c]; bv[i * m + c] = R(s) * f; } }
		Arr<R> A(av), B(bv); long l0 = live; bool g = ml::GaussJordan<R>::solve(A.p, n, B.p, m);
		MC_CHECK(live == l0, "GaussJordan::solve leaks", n << " equations"); MC_CHECK(g, "GaussJordan::solve of a regular matrix", n << " equations, rows " << perm << " scale " << f); if (!g) continue;
		LD worst = 0; for (int i = 0; i < n * m; ++i) { LD e = fabsl(B.p[i] - (LD)x[i]); if (!(e <= worst)) worst = e == e ? e : 1e30L; }
		MC_CHECK(worst <= 64 * n * eps<R>() * 8, "GaussJordan::solve solution", n << " equations, " << m << " right-hand sides, rows " << perm << " scale " << f << " error " << (double)worst);
		// inverse of the permuted matrix: inverse * matrix = identity, row by row
		worst = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD s = i == j ? -1 : 0; for (int k = 0; k < n; ++k) s += (LD)A.p[i * n + k] * av[k * n + j]; if (!(fabsl(s) <= worst)) worst = s == s ? fabsl(s) : 1e30L; }
		MC_CHECK(worst <= 64 * n * eps<R>() * 8, "GaussJordan::solve inverse", n << " equations, rows " << perm << " scale " << f << " error " << (double)worst);
	}
	for (int cyc = 0; cyc < 2; ++cyc)
	{
		const std::string nm = cyc ? "TriDiagonal::solveCyclic" : "TriDiagonal::solve"; section(nm + " long");
		std::vector<int> ls; for (int n = 7; n <= 40; ++n) ls.push_back(n); if (!MC_SMALL) for (int n : { 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000 }) ls.push_back(n);
		for (int n : ls) for (int pat = 0; pat < 6; ++pat) for (int sc : { 0, -60, 60 })
		{
			state(); trace(); R f = std::ldexp(R(1), sc); std::vector<R> a, b, c, r; std::vector<ml::Vec3<R>> r3; std::vector<I> x(n); for (int i = 0; i < n; ++i) x[i] = val(i, pat % 4);
			I al = cyc ? 1 - pat % 3 : 0, be = cyc ? 2 - pat % 4 : 0;
			for (int i = 0; i < n; ++i)
			{
				I lo = pat == 0 ? 1 : pat == 1 ? -1 : pat == 2 ? i % 3 - 1 : pat == 3 ? (i == n / 2 ? 0 : 2) : pat == 4 ? val(i, 1) : 0, lo2 = 0, hi = pat == 0 ? 1 : pat == 1 ? -1 : pat == 2 ? (i + 1) % 3 - 1 : pat == 3 ? 1 : pat == 4 ? val(i, 3) : i % 2, d = (i % 5 == 3 ? -1 : 1) * (pat == 2 ? 4 : 11); (void)lo2;
				if (i + 1 < n) c.push_back(R(hi) * f); if (i) a.push_back(R(lo) * f); b.push_back(R(d) * f);
				I s = d * x[i] + (i ? lo * x[i - 1] : 0) + (i + 1 < n ? hi * x[i + 1] : 0) + (i == 0 ? be * x[n - 1] : 0) + (i == n - 1 ? al * x[0] : 0);
				r.push_back(R(s) * f); r3.push_back(ml::Vec3<R>(R(s), R(-s), R(2 * s)) * f);
			}
			Arr<R> A(a), B(b), C(c), Rh(r), U(std::vector<R>(n, R(777))); long l0 = live;
			bool g = cyc ? ml::TriDiagonal<R>::solveCyclic(A.p, B.p, C.p, R(al) * f, R(be) * f, Rh.p, U.p, n) : ml::TriDiagonal<R>::solve(A.p, B.p, C.p, Rh.p, U.p, n);
			MC_CHECK(live == l0, nm + " leaks", n << " equations"); MC_CHECK(g, nm + " of a regular system", n << " equations, pattern " << pat << " scale " << f); if (!g) continue;
			LD worst = 0; for (int i = 0; i < n; ++i) { LD e = fabsl(U.p[i] - (LD)x[i]); if (!(e <= worst)) worst = e == e ? e : 1e30L; }
			MC_CHECK(worst <= 512 * eps<R>() * 4, nm + " solution", n << " equations, pattern " << pat << " scale " << f << " error " << (double)worst);
			bool same = true; for (int i = 0; i < n; ++i) same = same && B.p[i] == b[i] && Rh.p[i] == r[i] && (i + 1 == n || (A.p[i] == a[i] && C.p[i] == c[i])); MC_CHECK(same, nm + " changes its input", n << " equations");
			if (cyc) continue;
			Arr<ml::Vec3<R>> R3(r3), U3(std::vector<ml::Vec3<R>>(n, ml::Vec3<R>(7, 7, 7))); l0 = live; g = ml::TriDiagonal<R>::solve(A.p, B.p, C.p, R3.p, U3.p, n);
			MC_CHECK(live == l0, "TriDiagonal::solve(Vec3) leaks", n << " equations"); MC_CHECK(g, "TriDiagonal::solve(Vec3) of a regular system", n << " equations, pattern " << pat); if (!g) continue;
			worst = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { LD e = fabsl((&U3.p[i].x)[k] - (LD)x[i] * (k == 0 ? 1 : k == 1 ? -1 : 2)); if (!(e <= worst)) worst = e == e ? e : 1e30L; }
			MC_CHECK(worst <= 512 * eps<R>() * 8, "TriDiagonal::solve(Vec3) solution", n << " equations, pattern " << pat << " error " << (double)worst);
		}
	}
}
// ---- systems whose coefficients climb the ladder one or two at a time, against a reference solution in higher precision
struct Dense { int n; LD m[MAXN][MAXN], inv[MAXN][MAXN], norm, inorm; bool ok; };
static Dense invert(int n, const LD* a)
{
	Dense d; d.n = n; LD m[MAXN][2 * MAXN]; d.norm = d.inorm = 0; d.ok = false;
	for (int i = 0; i < n; ++i) { LD r = 0; for (int j = 0; j < n; ++j) { d.m[i][j] = m[i][j] = a[i * n + j]; m[i][n + j] = i == j; r += fabsl(a[i * n + j]); } d.norm = std::max(d.norm, r); }
	for (int k = 0; k < n; ++k)
	{
		int p = k; for (int i = k; i < n; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i;
		if (m[p][k] == 0) return d;
		for (int j = 0; j < 2 * n; ++j) std::swap(m[p][j], m[k][j]);
		LD q = m[k][k]; for (int j = 0; j < 2 * n; ++j) m[k][j] /= q;
		for (int i = 0; i < n; ++i) if (i != k) { LD f = m[i][k]; for (int j = 0; j < 2 * n; ++j) m[i][j] -= f * m[k][j]; }
	}
	for (int i = 0; i < n; ++i) { LD r = 0; for (int j = 0; j < n; ++j) r += fabsl(d.inv[i][j] = m[i][n + j]); d.inorm = std::max(d.inorm, r); }
	d.ok = d.norm * d.inorm < 1e16L; return d;
}
static void ladderGauss(int n)
{
	std::ostringstream nm; nm << "GaussJordan " << n << "x" << n << " ladders"; section(nm.str());
	star<R>(n * n + n, [&](const R* p)
	{
		std::vector<LD> a(n * n); for (int i = 0; i < n * n; ++i) a[i] = p[i];
		state(); trace(); Dense d = invert(n, a.data()); LD kappa = d.norm * d.inorm; if (!d.ok || kappa > 1e4L) return;
		std::vector<R> b(n * 2); for (int i = 0; i < n; ++i) { b[i * 2] = p[n * n + i]; b[i * 2 + 1] = R(i + 1); }
		auto show = [&] { std::ostringstream o; o.precision(9); for (int i = 0; i < n * n; ++i) o << (i % n ? " " : i ? "; " : "[") << p[i]; o << "] ="; for (int i = 0; i < n; ++i) o << " " << p[n * n + i]; return o.str(); };
		for (int m = 1; m <= 2; ++m)
		{
			std::vector<R> bm(n * m); for (int i = 0; i < n; ++i) for (int c = 0; c < m; ++c) bm[i * m + c] = b[i * 2 + c];
			Arr<R> A(std::vector<R>(p, p + n * n)), B(bm); long l0 = live; bool g = ml::GaussJordan<R>::solve(A.p, n, B.p, m);
			MC_CHECK(live == l0, "GaussJordan::solve leaks", show()); MC_CHECK(g, "GaussJordan::solve of a regular matrix", show()); if (!g) return;
			LD k = 64 * n * n * eps<R>() * kappa; bool ok = true;
			for (int c = 0; c < m; ++c)
			{
				LD w[MAXN], big = 0; for (int i = 0; i < n; ++i) { w[i] = 0; LD s = 0; for (int j = 0; j < n; ++j) { w[i] += d.inv[i][j] * bm[j * m + c]; s += fabsl(d.inv[i][j] * bm[j * m + c]); } big = std::max(big, s); }
				for (int i = 0; i < n; ++i) ok = ok && fabsl(B.p[i * m + c] - w[i]) <= k * big;
			}
			MC_CHECK(ok, "GaussJordan::solve solution", show() << " got " << B.p[0]);
			ok = true; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ok = ok && fabsl(A.p[i * n + j] - d.inv[i][j]) <= k * d.inorm;
			MC_CHECK(ok, "GaussJordan::solve inverse", show() << " got " << A.p[0] << " want " << (double)d.inv[0][0]);
		}
	});
}
static void ladderTri(int n, bool cyclic)
{
	const std::string nm = cyclic ? "TriDiagonal::solveCyclic" : "TriDiagonal::solve"; { std::ostringstream o; o << nm << " " << n << " ladders"; section(o.str()); }
	star<R>(4 * n - 2 + 2 * cyclic, [&](const R* p0)
	{
		std::vector<R> q(p0, p0 + 4 * n - 2 + 2 * cyclic); for (int dom = 0; dom < 2; ++dom) // as they are, and with a diagonal that dominates unless it is the one that climbs
		{
		const R* p = q.data(); const R *a = p, *b = p + n - 1, *c = p + 2 * n - 1, *r = p + 3 * n - 2; R al = cyclic ? p[4 * n - 2] : 0, be = cyclic ? p[4 * n - 1] : 0;
		if (dom) { for (int i = 0; i < n; ++i) q[n - 1 + i] += (i & 1 ? -1 : 1) * R(13 + i); }
		std::vector<LD> m(n * n, 0); for (int i = 0; i < n; ++i) { m[i * n + i] = b[i]; if (i + 1 < n) { m[(i + 1) * n + i] = a[i]; m[i * n + i + 1] = c[i]; } }
		LD bb[MAXN]; for (int i = 0; i < n; ++i) bb[i] = b[i];
		if (cyclic) { m[(n - 1) * n] += al; m[n - 1] += be; if (b[0] == 0) continue; bb[n - 1] += (LD)al * be / b[0]; bb[0] *= 2; }
		state(); trace(); Dense d = invert(n, m.data()); if (!d.ok) continue;
		LD lu = 0, bet = bb[0], gam = 0; bool zero = bet == 0; for (int i = 0; i < n && !zero; ++i) { LD s = 0; if (i) { gam = c[i - 1] / bet; bet = bb[i] - a[i - 1] * gam; s = fabsl((LD)a[i - 1]) * (1 + fabsl(gam)); } if (i + 1 < n) s += fabsl((LD)c[i]); lu = std::max(lu, s + fabsl(bet)); zero = bet == 0; }
		if (zero) continue;
		LD kappa = lu * d.inorm;
		if (cyclic) { LD m2[MAXN * MAXN]; for (int i = 0; i < n * n; ++i) m2[i] = m[i]; m2[n - 1] -= be; m2[(n - 1) * n] -= al; for (int i = 0; i < n; ++i) m2[i * n + i] = bb[i]; Dense t = invert(n, m2); if (!t.ok) continue; kappa = std::max(1.0L, lu * t.inorm) * d.norm * d.inorm * (1 + (fabsl((LD)al) + fabsl((LD)be) + fabsl((LD)al * be / b[0])) / std::max(fabsl((LD)b[0]), 1e-9L)); }
		if (kappa > 1e4L) continue;
		auto show = [&] { std::ostringstream o; o.precision(9); for (size_t i = 0; i < q.size(); ++i) o << ((int)i == n - 1 || (int)i == 2 * n - 1 || (int)i == 3 * n - 2 || (int)i == 4 * n - 2 ? " | " : " ") << p[i]; return o.str(); };
		Arr<R> A(std::vector<R>(a, a + n - 1)), B(std::vector<R>(b, b + n)), C(std::vector<R>(c, c + n - 1)), Rh(std::vector<R>(r, r + n)), U(std::vector<R>(n, R(777))); long l0 = live;
		bool g = cyclic ? ml::TriDiagonal<R>::solveCyclic(A.p, B.p, C.p, al, be, Rh.p, U.p, n) : ml::TriDiagonal<R>::solve(A.p, B.p, C.p, Rh.p, U.p, n);
		MC_CHECK(live == l0, nm + " leaks", show()); MC_CHECK(g, nm + " of a regular system", show()); if (!g) continue;
		LD w[MAXN], big = 0; for (int i = 0; i < n; ++i) { w[i] = 0; LD s = 0; for (int j = 0; j < n; ++j) { w[i] += d.inv[i][j] * r[j]; s += fabsl(d.inv[i][j] * r[j]); } big = std::max(big, s); }
		LD k = 64 * n * eps<R>() * (1 + kappa); bool ok = true; for (int i = 0; i < n; ++i) ok = ok && fabsl(U.p[i] - w[i]) <= k * big;
		MC_CHECK(ok, nm + " solution", show() << " got " << U.p[0] << "," << U.p[n - 1] << " want " << (double)w[0] << "," << (double)w[n - 1] << " condition " << (double)kappa);
		if (cyclic) continue;
		std::vector<ml::Vec3<R>> r3; for (int i = 0; i < n; ++i) r3.push_back(ml::Vec3<R>(r[i], -2 * r[i], 4 * r[i]));
		Arr<ml::Vec3<R>> R3(r3), U3(std::vector<ml::Vec3<R>>(n, ml::Vec3<R>(7, 7, 7))); l0 = live; g = ml::TriDiagonal<R>::solve(A.p, B.p, C.p, R3.p, U3.p, n);
		MC_CHECK(live == l0, "TriDiagonal::solve(Vec3) leaks", show()); MC_CHECK(g, "TriDiagonal::solve(Vec3) of a regular system", show()); if (!g) continue;
		ok = true; for (int i = 0; i < n; ++i) ok = ok && fabsl(U3.p[i].x - w[i]) <= k * big && fabsl(U3.p[i].y + 2 * w[i]) <= 2 * k * big && fabsl(U3.p[i].z - 4 * w[i]) <= 4 * k * big;
		MC_CHECK(ok, "TriDiagonal::solve(Vec3) solution", show() << " got " << U3.p[0] << " want " << (double)w[0]);
		}
	});
}
void explore()
{
	if (!MC_SMALL) { for (int n = 1; n <= 4; ++n) ladderGauss(n); for (int n = 1; n <= 5; ++n) { ladderTri(n, false); if (n > 2) ladderTri(n, true); } }
	longSystems();
	bool th = thorough() && !MC_SMALL; // stray accesses do not depend on the larger alphabets
	gaussAll(1, { -3, -1, 0, 1, 2, 7 }, true, { 1, 2, 3 });
	gaussAll(2, { 0, 1, -1, 2, -4, 8 }, true, { 0, 1, 2, 3 });
	gaussAll(2, { 0, 3, -5, 7, 1, 100 }, false, { 1, 2, 3 });
	gaussAll(3, { 0, 1, -1 }, true, th ? std::vector<int>{ 1, 2, 3, 4 } : std::vector<int>{ 1, 3 });
	gaussAll(3, th ? std::vector<I>{ 0, 2, -1, 3, 5 } : std::vector<I>{ 0, 2, -3 }, false, { 2 });
	gaussAll(4, { 0, 1 }, false, { 1 });
	if (th) gaussAll(4, { -1, 0, 2 }, false, { 1 });
	gaussSpecial();
	std::vector<I> d = { 4, -5, 7 }, d2 = { 3, -4, 8 };
	triAll(1, { -3, -1, 0, 1, 2, 7 }, false); triAll(2, { -2, -1, 0, 1, 2, 3, 5 }, false); triAll(3, th ? std::vector<I>{ -2, -1, 0, 1, 2, 3 } : std::vector<I>{ -1, 0, 1, 2 }, false); triAll(4, th ? std::vector<I>{ -1, 0, 1, 2 } : std::vector<I>{ 0, 1, 2 }, false);
	if (th) triAll(5, { 0, 1, -2 }, false);
	for (int n = 2; n <= (th ? 8 : 6); ++n) triAll(n, { -1, 0, 1 }, false, &d2);
	triAll(1, { 0, 1, 3 }, true); triAll(2, { 0, 1, 3 }, true); triAll(3, th ? std::vector<I>{ -1, 0, 1, 2, 3 } : std::vector<I>{ -1, 0, 1, 2 }, true); triAll(4, th ? std::vector<I>{ 0, 1, 2 } : std::vector<I>{ 1, 2 }, true); if (th) triAll(4, { -1, 2, 1 }, true); if (!th) triAll(4, { 0, 1 }, true);
	for (int n = 3; n <= (th ? 8 : 6); ++n) triAll(n, { -1, 0, 1 }, true, &d);
}
