// C04: determinant, trace, transpose, cofactors, adjoint and inverse of Mat2 / Mat3 / Mat34 / Mat4
#include "mats.h"
typedef MC_REAL R;

#define NM(site, got, want) do { auto mc_g = (got); OM mc_w = (want); MC_CHECK(nearm(mc_g, mc_w, 64), std::string(T::name()) + site, "a=" << a << " got " << mc_g << " want " << mc_w); } while (0)
#define OK(site, cond) MC_CHECK(cond, std::string(T::name()) + site, "a=" << a)

// a * inv must be the identity: residual relative to |a||inv| (backward-stable form, independent of the algorithm)
template <class M> bool inverse_ok(const M& a, const M& inv, const OM& o, const OM& want, LD extra)
{
	const int n = MT<M>::n;
	OM g = om(inv), r = o * g;
	LD na = 0, ni = 0;
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { na = std::max(na, fabsl(o.a[i][j].v)); ni = std::max(ni, fabsl(want.a[i][j].v)); if (!(g.a[i][j].v == g.a[i][j].v)) return false; }
	// forward error bound through the magnitudes of the cofactor expansion
	for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < n; ++j)
		if (!(fabsl(g.a[i][j].v - want.a[i][j].v) <= 128 * eps<R>() * want.a[i][j].m + extra * ni)) return false;
	return true;
}

static Mat2<R> inv2(const Mat2<R>& a) { return a.inversed(); }
template <class M> struct HasInvert { enum { value = 1, inversed = 1, adj = 0, transposed = 1 }; };
template <> struct HasInvert<Mat2<R>> { enum { value = 0, inversed = 1, adj = 1, transposed = 1 }; };
template <> struct HasInvert<Mat3<R>> { enum { value = 1, inversed = 1, adj = 1, transposed = 1 }; };
template <> struct HasInvert<Mat34<R>> { enum { value = 1, inversed = 0, adj = 0, transposed = 0 }; };

template <bool> struct If {};
template <class M> void do_adj(const M& a, const OM& o, If<true>) { typedef MT<M> T; NM("::cofactors", a.cofactors(), cofactorsO(o)); NM("::adjoint", a.adjoint(), adjointO(o)); }
template <class M> void do_adj(const M&, const OM&, If<false>) {}
template <class M> void do_invert(const M& a, const OM& o, const OM& w, bool singular, LD extra, If<true>)
{
	typedef MT<M> T;
	M m = a; M& r = m.invert(); OK("::invert returns *this", &r == &m);
	if (singular) NM("::invert of a singular matrix is zero", m, w);
	else MC_CHECK(inverse_ok(a, m, o, w, extra), std::string(T::name()) + "::invert", "a=" << a << " got " << m << " want " << w);
	OK("::invert leaves an initialised matrix", m.isInitialized());
}
template <class M> void do_invert(const M&, const OM&, const OM&, bool, LD, If<false>) {}
template <class M> void do_inversed(const M& a, const OM& o, const OM& w, bool singular, LD extra, If<true>)
{
	typedef MT<M> T;
	M m = a.inversed();
	if (singular) NM("::inversed of a singular matrix is zero", m, w);
	else MC_CHECK(inverse_ok(a, m, o, w, extra), std::string(T::name()) + "::inversed", "a=" << a << " got " << m << " want " << w);
	OK("::inversed is initialised", m.isInitialized());
}
template <class M> void do_inversed(const M&, const OM&, const OM&, bool, LD, If<false>) {}
template <class M> void do_square(const M& a, const OM& o, const E& det)
{
	typedef MT<M> T;
	R d = a.determinant(), t = a.trace();
	MC_CHECK(near(d, det), std::string(T::name()) + "::determinant", "a=" << a << " got " << d << " want " << det);
	MC_CHECK(near(t, traceO(o)), std::string(T::name()) + "::trace", "a=" << a << " got " << t);
	MC_CHECK(samem(a.transposed(), MT<M>::make(transposeO(o))), std::string(T::name()) + "::transposed", "a=" << a << " got " << a.transposed());
	M m = a; M& r = m.transpose(); OK("::transpose", samem(m, MT<M>::make(transposeO(o)))); OK("::transpose returns *this", &r == &m);
	m.transpose(); OK("::transpose twice", samem(m, a));
}
static void do_square(const Mat34<R>& a, const OM& o, const E&)
{
	// transposing a Mat34 transposes its linear part and keeps the translation
	typedef MT<Mat34<R>> T;
	OM w = o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w.a[i][j] = o.a[j][i];
	Mat34<R> m = a; Mat34<R>& r = m.transpose(); OK("::transpose (linear part)", samem(m, MT<Mat34<R>>::make(w))); OK("::transpose returns *this", &r == &m);
}

// rounding: the matrix given to the library may be a rounded rotation; then the rigid shortcut is allowed to differ from
// the exact inverse by the orthonormality error of the input (about sqrt of the measured squared error)
template <class M> void one(const M& a, const OM& o)
{
	const int n = MT<M>::n;
	E det = detO(o);
	OM adj = adjointO(o);
	state();
	do_square(a, o, det);
	do_adj(a, o, If<HasInvert<M>::adj>());
	// integers and other exactly representable cases: det is exactly zero or far from rounding noise
	bool zero = det.v == 0 && det.m * eps<R>() < 1e-3L;
	bool solid = fabsl(det.v) > 4096 * eps<R>() * det.m;
	if (zero || solid)
	{
		OM w = zero ? OM(n) : adj / det;
		int ld = n == 4 && MT<M>::rows == 3 ? 3 : n;
		if (zero && MT<M>::rows == 3 && n == 4) w = OM::identity(4), w.a[0][0] = w.a[1][1] = w.a[2][2] = E(0);
		LD ne = std::max(normalErrO(o, 3 < n ? 3 : n, 3 < n ? 3 : n), orthoErrO(o, 3 < n ? 3 : n, 3 < n ? 3 : n));
		LD extra = ne < 0.00101L ? 8 * sqrtl(ne) : 0; // documented tolerance band
		bool exact_singular = zero;
		for (int i = 0; i < n && exact_singular; ++i) for (int j = 0; j < n; ++j) if (o.a[i][j].v * 1024 != floorl(o.a[i][j].v * 1024) || fabsl(o.a[i][j].v) > 64) exact_singular = false; // products stay exact
		if (zero && !exact_singular) return;
		do_invert(a, o, w, zero, extra, If<HasInvert<M>::value>());
		do_inversed(a, o, w, zero, extra, If<HasInvert<M>::inversed>());
	}
	trace();
	sample([&](std::ostream& s) { s << a << " det " << (double)det.v; });
}

template <class M> void catalogue_section()
{
	section(std::string(MT<M>::name()) + " catalogue");
	auto cat = catalogueM<M>();
	for (auto& c : cat) one(c.first, c.second);
	section(std::string(MT<M>::name()) + " catalogue products");
	for (auto& c : cat) for (auto& d : cat) { M m = c.first * d.first; one(m, om(m)); }
	// one changed entry at a time: every position takes part in every formula
	section(std::string(MT<M>::name()) + " one entry changed");
	for (auto& c : cat)
		for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j)
			for (LD v : { 0.0L, 1.0L, -2.0L, 0.25L })
			{ OM o = c.second; o.a[i][j] = E(v); M m = MT<M>::make(o); one(m, om(m)); }
}
template <class M> void near_section() { section(std::string(MT<M>::name()) + " close to a special matrix"); for (auto& c : nearSpecial<M>()) one(c.first, c.second); }
// the same matrices in small and large units, and with single rows or columns in other units: the inverse scales with them
template <class M> void units_section()
{
	section(std::string(MT<M>::name()) + " in other units");
	const int n = MT<M>::n, rows = MT<M>::rows;
	std::vector<int> ks = { -9, -5, 6, 12 }; if (sizeof(R) == 8) for (int k : { -40, 50 }) ks.push_back(k);
	auto cat = catalogueM<M>();
	for (auto& c : cat) for (int k : ks) for (int which = 0; which <= 2 * n; ++which)
	{
		OM o = c.second; LD s = ldexpl(1, k);
		for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j)
			if (which == 0 ? i < rows && j < n : which <= n ? i == which - 1 : j == which - 1 - n) o.a[i][j] = E(o.a[i][j].v * s);
		M m = MT<M>::make(o); one(m, om(m));
	}
}
template <class M> void unimodular(int depth)
{
	// every word of elementary row operations up to a depth: invertible integer matrices with determinant +-1
	typedef MT<M> T;
	section(std::string(T::name()) + " words of elementary operations");
	const int n = T::n, rows = T::rows;
	std::vector<OM> gen;
	for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j)
	{
		if (i == j) continue;
		OM e = OM::identity(n); e.a[i][j] = E(1); gen.push_back(e);
		e.a[i][j] = E(-2); gen.push_back(e);
	}
	for (int i = 0; i < std::min(rows, 3); ++i) { OM e = OM::identity(n); e.a[i][i] = E(-1); gen.push_back(e); e.a[i][i] = E(2); gen.push_back(e); }
	std::set<std::vector<long>> seen;
	std::deque<std::pair<OM, int>> q; q.push_back({ OM::identity(n), 0 });
	while (!q.empty())
	{
		OM o = q.front().first; int d = q.front().second; q.pop_front();
		M m = MT<M>::make(o); one(m, om(m));
		step(gen.size());
		if (d == depth) continue;
		for (auto& g : gen)
		{
			OM p = snapO(g * o);
			std::vector<long> key; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) key.push_back((long)p.a[i][j].v);
			if (seen.insert(key).second) q.push_back({ p, d + 1 });
		}
	}
}

// general matrices whose entries climb the ladder one or two at a time
template <class M> static void ladders()
{
	section(std::string(MT<M>::name()) + " ladders");
	star<R>(MT<M>::n * MT<M>::rows, [&](const R* p) { M a = fromRow<M>(p); one(a, om(a)); });
}

void explore()
{
	ladders<Mat2<R>>(); ladders<Mat3<R>>(); ladders<Mat34<R>>(); ladders<Mat4<R>>();
	near_section<Mat2<R>>(); near_section<Mat3<R>>(); near_section<Mat34<R>>(); near_section<Mat4<R>>();
	catalogue_section<Mat2<R>>();
	catalogue_section<Mat3<R>>();
	catalogue_section<Mat34<R>>();
	catalogue_section<Mat4<R>>();
	units_section<Mat2<R>>(); units_section<Mat3<R>>(); units_section<Mat34<R>>(); units_section<Mat4<R>>();
	unimodular<Mat2<R>>(thorough() ? 8 : 6);
	unimodular<Mat3<R>>(thorough() ? 5 : 3);
	unimodular<Mat34<R>>(thorough() ? 4 : 3);
	unimodular<Mat4<R>>(thorough() ? 4 : 3);

	section("Mat2 all matrices over small integers");
	tuples(std::vector<R>{ -5, -3, -2, -1, 0, 1, 2, 3, 7 }, 4, [&](const R* p) { Mat2<R> m(Vec2<R>(p[0], p[1]), Vec2<R>(p[2], p[3])); one(m, om(m)); });
	section("Mat3 all matrices over small integers");
	tuples(thorough() ? std::vector<R>{ -2, -1, 0, 1, 3 } : std::vector<R>{ -1, 0, 2 }, 9, [&](const R* p) { Mat3<R> m(mk3(p), mk3(p + 3), mk3(p + 6)); one(m, om(m)); });
	section("Mat4 all matrices over two values");
	tuples(std::vector<R>{ 0, 1 }, 16, [&](const R* p) { Mat4<R> m(mk4(p), mk4(p + 4), mk4(p + 8), mk4(p + 12)); one(m, om(m)); });
	if (thorough())
	{
		tuples(std::vector<R>{ -1, 2 }, 16, [&](const R* p) { Mat4<R> m(mk4(p), mk4(p + 4), mk4(p + 8), mk4(p + 12)); one(m, om(m)); });
		section("Mat34 all linear parts over {-1,0,2} with a translation");
		tuples(std::vector<R>{ -1, 0, 2 }, 9, [&](const R* p) { Mat34<R> m(mk3(p), mk3(p + 3), mk3(p + 6), Vec3<R>(1, -2, 5)); one(m, om(m)); });
	}
}
