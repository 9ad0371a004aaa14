// C08: transforming vectors, one by one, in arrays and in strided arrays (also in place and interleaved): every selected
// element gets matrix * element, nothing else is written, the matrix is untouched.
#include "mats.h"
typedef MC_REAL R;

// want = matrix applied to one vector, by entry point kind
enum Kind { POINT, DIRECTION };
template <class M, class V> struct Map;
template <class M> struct Map<M, Vec2<R>> { static EV<2> f(const OM& o, const Vec2<R>& v, Kind) { return o * ev(v); } };
template <> struct Map<Mat3<R>, Vec3<R>> { static EV<3> f(const OM& o, const Vec3<R>& v, Kind) { return o * ev(v); } };
template <class M> struct Map<M, Vec3<R>> { static EV<3> f(const OM& o, const Vec3<R>& v, Kind k)
{
	EV<3> w; for (int a = 0; a < 3; ++a) { E s; if (k == POINT) s = o.a[a][3]; for (int b = 0; b < 3; ++b) s += o.a[a][b] * E(comp(v, b)); w[a] = s; } return w;
} };
template <class M> struct Map<M, Vec4<R>> { static EV<4> f(const OM& o, const Vec4<R>& v, Kind k)
{
	EV<4> w; for (int a = 0; a < 4; ++a) { E s; if (k == POINT) s = o.a[a][3] * E(v.w); for (int b = 0; b < 3; ++b) s += o.a[a][b] * E(comp(v, b)); w[a] = s; } return w;
} };

template <class M, class V> struct Entry
{
	static void one(const M& m, V& d, const V& s, Kind) { m.transform(d, s); }
	static void arr(const M& m, V* d, const V* s, size_t n, Kind) { m.transform(d, s, n); }
	static void str(const M& m, V* d, const V* s, size_t n, size_t ds, size_t ss, Kind) { m.transform(d, s, n, ds, ss); }
};
template <class V> struct Entry<Mat4<R>, V>
{
	typedef Mat4<R> M;
	static void one(const M& m, V& d, const V& s, Kind k) { k == POINT ? m.transform(d, s) : m.transformVector(d, s); }
	static void arr(const M& m, V* d, const V* s, size_t n, Kind k) { k == POINT ? m.transform(d, s, n) : m.transformVector(d, s, n); }
	static void str(const M& m, V* d, const V* s, size_t n, size_t ds, size_t ss, Kind k) { k == POINT ? m.transform(d, s, n, ds, ss) : m.transformVector(d, s, n, ds, ss); }
};
static R value(size_t i) { static const R v[] = { R(0.5), -1, 3, R(-2.25), 0, 7, R(0.125), -40, 11, R(1e-3), -6 }; return v[(i * 7 + i / 11) % 11]; }
static R guard(size_t i) { return R(1000 + (i % 97)); }

template <class M, class V> struct Run
{
	enum { N = Dim<V>::n };
	const M& m; const OM& o; Kind k; std::string site;
	// memory: Reals; layout given in Reals
	void go(size_t count, size_t dbase, size_t sbase, size_t dstride, size_t sstride, int api, const char* what)
	{
		const size_t size = 4 + std::max(dbase + dstride * (count + 1), sbase + sstride * (count + 1)) + N + 8;
		std::vector<R> mem(size), before;
		for (size_t i = 0; i < size; ++i) mem[i] = guard(i);
		for (size_t e = 0; e < count; ++e) for (int c = 0; c < N; ++c) mem[sbase + e * sstride + c] = value(e * 5 + c + count);
		if (sstride == 0) for (int c = 0; c < N; ++c) mem[sbase + c] = value(c + count);
		before = mem;
		unsigned char raw[sizeof(M)]; std::memcpy(raw, &m, sizeof(M));
		V* d = (V*)&mem[dbase]; const V* s = (const V*)&mem[sbase];
		if (api == 0) for (size_t e = 0; e < count; ++e) Entry<M, V>::one(m, *(V*)&mem[dbase + e * dstride], *(const V*)&mem[sbase + e * sstride], k);
		else if (api == 1) Entry<M, V>::arr(m, d, s, count, k);
		else Entry<M, V>::str(m, d, s, count, dstride * sizeof(R), sstride * sizeof(R), k);
		state(); trace();
		MC_CHECK(std::memcmp(raw, &m, sizeof(M)) == 0, site + " leaves the matrix alone", what);
		std::vector<char> owned(size, 0);
		for (size_t e = 0; e < count; ++e)
		{
			if (dstride == 0 && e + 1 < count) continue;
			V sv = *(const V*)&before[sbase + e * sstride]; EV<N> w = Map<M, V>::f(o, sv, k);
			V got = *(const V*)&mem[dbase + e * dstride];
			MC_CHECK((nearv(got, w, 16)), site, what << " api " << api << " count " << count << " strides " << dstride << "," << sstride << " element " << e << " m=" << m << " v=" << sv << " got " << got << " want " << w);
			for (int c = 0; c < N; ++c) owned[dbase + e * dstride + c] = 1;
		}
		bool clean = true; size_t at = 0;
		for (size_t i = 0; i < size; ++i) if (!owned[i] && std::memcmp(&mem[i], &before[i], sizeof(R)) != 0) { clean = false; at = i; break; }
		MC_CHECK(clean, site + " writes only the selected elements", what << " api " << api << " count " << count << " strides " << dstride << "," << sstride << " word " << at << " (dest base " << dbase << ")");
	}
};

template <class M, class V> static void bulk(Kind k, const char* name)
{
	enum { N = Dim<V>::n };
	std::string site = std::string(MT<M>::name()) + name + (N == 4 ? "(Vec4)" : N == 3 ? "(Vec3)" : "(Vec2)");
	section(site);
	auto cat = catalogueM<M>();
	size_t maxc = thorough() ? 33 : 9, stepm = thorough() ? 1 : 4;
	for (size_t mi = 0; mi < cat.size(); mi += stepm)
	{
		const M m = cat[mi].first; const OM& o = cat[mi].second;
		Run<M, V> r = { m, o, k, site };
		for (size_t count = 0; count <= maxc; ++count)
		{
			size_t far = 4 + (N + 6) * (maxc + 2);
			for (int api = 0; api < 2; ++api) { r.go(count, 4, far, N, N, api, "disjoint"); r.go(count, 4, 4, N, N, api, "in place"); r.go(count, far, 4, N, N, api, "disjoint"); }
			for (size_t ds : { (size_t)N, (size_t)N + 1, (size_t)2 * N, (size_t)N + 5 })
			{
				for (size_t ss : { (size_t)0, (size_t)N, (size_t)N + 1, (size_t)2 * N, (size_t)N + 3 })
				{
					r.go(count, 4, far, ds, ss, 2, "strided"); r.go(count, far, 4, ds, ss, 2, "strided");
				}
				r.go(count, 4, 4, ds, ds, 2, "strided in place");
			}
			r.go(count, 4, far, 0, N, 2, "dest stride 0");
			r.go(count, 4 + N, 4, 2 * N, 2 * N, 2, "interleaved"); r.go(count, 4, 4 + N, 2 * N, 2 * N, 2, "interleaved"); r.go(count, 4 + N + 2, 4, 2 * N + 3, 2 * N + 3, 2, "interleaved");
		}
	}
	// every matrix with a small count, and long arrays around powers of two
	section(site + " long arrays and all matrices");
	for (size_t mi = 0; mi < cat.size(); ++mi)
	{
		const M m = cat[mi].first; const OM& o = cat[mi].second; Run<M, V> r = { m, o, k, site };
		bool few = mi % (thorough() ? 3 : 11) == 2;
		for (size_t count : { 1, 2, 3, 5, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4097, 65535, 65537 })
		{
			if (count > 3 && !few) break;
			if (count > 300 && mi != 2 && !(thorough() && count < 5000)) break;
			size_t far = 4 + (2 * N + 6) * (count + 2);
			r.go(count, 4, far, N, N, 1, "disjoint"); r.go(count, 4, 4, N, N, 1, "in place");
			r.go(count, far, 4, N + 1, N + 3, 2, "strided"); r.go(count, 4, far, N, N, 2, "strided without gaps"); r.go(count, 4, far, 2 * N, 0, 2, "strided"); r.go(count, 4, 4, N + 2, N + 2, 2, "strided in place"); r.go(count, 4, 4 + N, 2 * N, 2 * N, 2, "interleaved");
		}
	}
	// matrices and vectors climbing the ladder, through the single, array and strided forms
	enum { NM = MT<M>::n * MT<M>::rows };
	auto forms = [&](const M& m, const R* p)
	{
		OM o = om(m); V v = Dim<V>::make(p + NM); EV<N> w = Map<M, V>::f(o, v, k); state(); trace();
		V d, e[3], f[3], g[3]; Entry<M, V>::one(m, d, v, k); for (auto& x : g) x = v; V src[3] = { v, v, v };
		Entry<M, V>::arr(m, e, src, 3, k); Entry<M, V>::str(m, f, src, 3, sizeof(V), sizeof(V), k); Entry<M, V>::arr(m, g, g, 3, k);
		MC_CHECK(nearv(d, w, 16), site, "m=" << m << " v=" << v << " got " << d << " want " << w);
		for (int i = 0; i < 3; ++i) MC_CHECK(nearv(e[i], w, 16) && nearv(f[i], w, 16) && nearv(g[i], w, 16), site + " array forms", "m=" << m << " v=" << v << " got " << e[i] << f[i] << g[i] << " want " << w);
	};
	star<R>(NM + N, [&](const R* p) { forms(fromRow<M>(p), p); }, thorough());
	section(site + " matrices close to a special one");
	for (auto& c : nearSpecial<M>()) for (auto& v : { std::vector<R>{ 1, 2, 3, 1 }, { -40, 7, 0, 0 }, { R(0.5), -6, 90, 2 } }) { R p[NM + 4] = {}; for (int i = 0; i < N; ++i) p[NM + i] = v[i]; forms(c.first, p); }
	// every vector of a lattice through the single form, in place and not; two matrices in sequence in place
	std::vector<R> vals = { -3, -1, 0, R(0.5), 2 };
	for (size_t mi = 0; mi < cat.size(); ++mi)
	{
		const M& m = cat[mi].first; const OM& o = cat[mi].second;
		tuples(vals, N, [&](const R* p)
		{
			V v = Dim<V>::make(p); state(); trace();
			EV<N> w = Map<M, V>::f(o, v, k); V d = v, e = v;
			Entry<M, V>::one(m, d, v, k); Entry<M, V>::one(m, e, e, k);
			MC_CHECK(nearv(d, w, 16), site, "m=" << m << " v=" << v << " got " << d << " want " << w);
			MC_CHECK(same(d, e), site + " in place", "m=" << m << " v=" << v << " got " << e << " want " << d);
			MC_CHECK(same(v, Dim<V>::make(p)), site + " leaves the source alone", "m=" << m);
			const M& m2 = cat[(mi * 5 + 3) % cat.size()].first;
			Entry<M, V>::one(m2, e, e, k); EV<N> w2; { EV<N> t = w; V tv = d; w2 = Map<M, V>::f(cat[(mi * 5 + 3) % cat.size()].second, tv, k); (void)t; }
			MC_CHECK(nearv(e, w2, 16), site + " twice in place", "m=" << m << " then " << m2 << " v=" << v << " got " << e << " want " << w2);
			sample([&](std::ostream& s) { s << m << " v=" << v << " -> " << d; });
		});
	}
}
void explore()
{
	ctx().bounds = "catalogue matrices x counts 0..9 (thorough 0..33) x layouts (disjoint, in place, strided, interleaved, stride 0); 5^n vectors";
	bulk<Mat2<R>, Vec2<R>>(POINT, "::transform");
	bulk<Mat3<R>, Vec3<R>>(POINT, "::transform");
	bulk<Mat34<R>, Vec3<R>>(POINT, "::transform");
	bulk<Mat4<R>, Vec3<R>>(POINT, "::transform");
	bulk<Mat4<R>, Vec4<R>>(POINT, "::transform");
	bulk<Mat4<R>, Vec3<R>>(DIRECTION, "::transformVector");
	bulk<Mat4<R>, Vec4<R>>(DIRECTION, "::transformVector");
}
