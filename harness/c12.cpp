// C12: rays and line segments against axis-aligned boxes: hit decision, entry parameter and the parameter interval inside the box.
#include "boxes.h"
typedef MC_REAL R;
template <int N> using T = G<R, N>;
static bool pow2(R x) { int e; R m = std::frexp(std::fabs(x), &e); return x == 0 || m == R(0.5); }
struct Iv { bool out; LD in, ex; bool exact; }; // out: parallel to a slab and outside of it
template <int N> Iv interval(const OB<N>& b, const R* s, const LD* d)
{
	Iv r = { false, -1e30L, 1e30L, true };
	for (int i = 0; i < N; ++i)
	{
		if (d[i] == 0) { if (s[i] < b.lo[i] || s[i] > b.hi[i]) r.out = true; continue; }
		for (LD e : { b.lo[i] - s[i], b.hi[i] - s[i] }) if ((LD)(R)e != e) r.exact = false;
		LD t1 = (b.lo[i] - s[i]) / d[i], t2 = (b.hi[i] - s[i]) / d[i]; if (t1 > t2) std::swap(t1, t2);
		r.in = std::max(r.in, t1); r.ex = std::min(r.ex, t2);
	}
	return r;
}
// -1 unknown (within the rounding margin), 0 no, 1 yes
static int le(LD a, LD b, LD margin) { if (a <= b - margin) return 1; if (a > b + margin) return 0; return margin == 0 ? 1 : -1; }
static int both(int a, int b) { if (a == 0 || b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }

template <int N> void check(const OB<N>& o, const typename T<N>::A& b, const R* s, const R* dir)
{
	typedef T<N> D; typedef typename D::V V;
	static const std::string P = std::string("AABB") + D::name() + "::", hR = P + "hits(ray)", iR = P + "intersects(ray)", hL = P + "hits(line)", iL = P + "intersects(line)";
	bool null = true; for (int i = 0; i < N; ++i) null = null && dir[i] == 0; if (null) return;
	V sv = D::mk(s), dv = D::mk(dir);
	for (int form = 0; form < 2; ++form) // the direction as given, and normalised by Ray::from
	{
		state(); trace();
		typename D::Ray ray; if (form) ray = D::Ray::from(sv, dv); else { ray.start = sv; ray.direction = dv; }
		LD d[N]; bool exact = true; for (int i = 0; i < N; ++i) { d[i] = comp(ray.direction, i); exact = exact && pow2((R)d[i]); }
		Iv v = interval<N>(o, s, d); const LD tol = exact && v.exact ? 0 : 8 * eps<R>(), mg = tol * std::max(fabsl(v.in), fabsl(v.ex)); // every t has a relative error, so its sign is certain
		int meets = v.out ? 0 : both(le(v.in, v.ex, mg), le(0, v.ex, 0)), enters = both(meets, le(0, v.in, 0));
		for (R stale : { R(-7), R(0.37), R(1e9) }) { // whatever the result variables held before
		R t = stale, t1 = stale, t2 = stale; bool h = b.hits(t, ray);
		if (enters >= 0) MC_CHECK(h == !!enters, hR, o << " " << ray << " got " << h << " t " << t << " want " << enters << " in " << (double)v.in << " out " << (double)v.ex);
		if (h && enters != 0) MC_CHECK(fabsl(t - v.in) <= 8 * eps<R>() * fabsl(v.in), hR + " parameter", o << " " << ray << " got " << t << " want " << (double)v.in);
		bool x = b.intersects(t1, t2, ray);
		if (meets >= 0) MC_CHECK(x == !!meets, iR, o << " " << ray << " got " << x << " want " << meets << " in " << (double)v.in << " out " << (double)v.ex);
		if (x && meets != 0) MC_CHECK(fabsl(t1 - std::max(0.0L, v.in)) <= 8 * eps<R>() * fabsl(v.in) && fabsl(t2 - v.ex) <= 8 * eps<R>() * fabsl(v.ex), iR + " interval", o << " " << ray << " got " << t1 << ".." << t2 << " want " << (double)std::max(0.0L, v.in) << ".." << (double)v.ex);
		sample([&](std::ostream& st) { st << o << " " << ray << " hit " << h << " t " << t; });
		}
	}
	{
		state(); trace();
		typename D::Line line = D::Line::from(sv, sv + dv); LD d[N]; bool exact = true, zero = true; for (int i = 0; i < N; ++i) { R q = comp(line.end, i) - comp(line.start, i); d[i] = (LD)comp(line.end, i) - comp(line.start, i); exact = exact && pow2(q) && (LD)q == d[i]; zero = zero && d[i] == 0; }
		if (zero) return;
		Iv v = interval<N>(o, s, d); const LD tol = exact && v.exact ? 0 : 8 * eps<R>(), mg = tol * std::max(fabsl(v.in), fabsl(v.ex)); // every t has a relative error, so its sign is certain
		int meets = v.out ? 0 : both(both(le(v.in, v.ex, mg), le(0, v.ex, 0)), le(v.in, 1, tol * std::max(1.0L, fabsl(v.in)))), enters = both(meets, le(0, v.in, 0));
		for (R stale : { R(-7), R(0.37), R(1e9) }) {
		R t = stale, t1 = stale, t2 = stale; bool h = b.hits(t, line);
		if (enters >= 0) MC_CHECK(h == !!enters, hL, o << " " << line << " got " << h << " t " << t << " want " << enters << " in " << (double)v.in << " out " << (double)v.ex);
		if (h && enters != 0) MC_CHECK(fabsl(t - v.in) <= 8 * eps<R>() * fabsl(v.in), hL + " parameter", o << " " << line << " got " << t << " want " << (double)v.in);
		bool x = b.intersects(t1, t2, line);
		if (meets >= 0) MC_CHECK(x == !!meets, iL, o << " " << line << " got " << x << " want " << meets << " in " << (double)v.in << " out " << (double)v.ex);
		if (x && meets != 0) MC_CHECK(fabsl(t1 - std::max(0.0L, v.in)) <= 8 * eps<R>() * fabsl(v.in) && fabsl(t2 - std::min(1.0L, v.ex)) <= 8 * eps<R>() * fabsl(v.ex), iL + " interval", o << " " << line << " got " << t1 << ".." << t2 << " want " << (double)std::max(0.0L, v.in) << ".." << (double)std::min(1.0L, v.ex));
		sample([&](std::ostream& st) { st << o << " " << line << " hit " << h << " t " << t; });
		}
	}
}
template <int N> OB<N> bx(std::initializer_list<double> l) { OB<N> o; auto it = l.begin(); for (int i = 0; i < N; ++i) { o.lo[i] = u((R)*it++); o.hi[i] = u((R)*it++); } return o; }
static void run()
{
	typedef std::vector<R> VR;
	section("2D");
	{
		std::vector<OB<2>> bs = { bx<2>({ -1, 1, -1, 1 }), bx<2>({ 0, 2, -0.5, 3 }), bx<2>({ 1, 1, -2, 2 }), bx<2>({ -3, -1, 2, 2 }), bx<2>({ 1, 1, 1, 1 }), bx<2>({ -4, 4, -0.25, 0 }), bx<2>({ 0.1, 0.7, -0.3, 12.3 }), bx<2>({ -1000, 1000, -2000, 500 }) };
		VR c = deep() ? VR{ -8, -4, -3, -2, -1, R(-0.75), R(-0.5), 0, R(0.125), R(0.3), 1, R(1.5), 2, 3, 5, 600 } : VR{ -4, -3, -2, -1, R(-0.5), 0, R(0.3), 1, R(1.5), 2, 5 };
		VR d = deep() ? VR{ -600, -8, -4, -3, -2, -1, R(-0.5), R(-0.1), R(-0.0), 0, R(0.001), R(0.25), R(0.7), 1, 2, 3, 4, 8, 16 } : VR{ -8, -4, -3, -1, R(-0.5), R(-0.0), R(0.001), R(0.7), 1, 2, 3, 4 };
		for (auto& o : bs) { AABB2<R> b(Vec2<R>((R)o.lo[0], (R)o.lo[1]), Vec2<R>((R)o.hi[0], (R)o.hi[1])); tuples(U(c), 2, [&](const R* s) { tuples(U(d), 2, [&](const R* q) { check<2>(o, b, s, q); }); }); }
	}
	section("3D");
	{
		std::vector<OB<3>> bs = { bx<3>({ -1, 1, -1, 1, -1, 1 }), bx<3>({ 0, 2, -0.5, 3, -4, 1 }), bx<3>({ 1, 1, -2, 2, 0, 1 }), bx<3>({ -1, 2, 1, 1, 1, 1 }), bx<3>({ -4, 4, -0.25, 0, -1, 1 }), bx<3>({ 0.1, 0.7, -0.3, 12.3, -2, 0.5 }) };
		VR c = deep() ? VR{ -4, -2, -1, R(-0.5), 0, R(0.3), 1, 2, 5 } : VR{ -4, -1, R(0.25), 1, 2, R(5.5) };
		VR d = deep() ? VR{ -8, -3, -2, -1, R(-0.0), R(0.001), R(0.5), R(0.7), 1, 4, 8 } : VR{ -4, -1, R(-0.7), 0, 1, 2, 8 };
		for (auto& o : bs) { AABB3<R> b(Vec3<R>((R)o.lo[0], (R)o.lo[1], (R)o.lo[2]), Vec3<R>((R)o.hi[0], (R)o.hi[1], (R)o.hi[2])); tuples(U(c), 3, [&](const R* s) { tuples(U(d), 3, [&](const R* q) { check<3>(o, b, s, q); }); }); }
	}
}

// boxes, starts and directions climb the ladder one or two numbers at a time
template <int N> void ladders()
{
	section(N == 2 ? "2D ladders" : "3D ladders");
	star<R>(4 * N, [&](const R* p) {
		OB<N> o; R a[N], b[N]; for (int i = 0; i < N; ++i) { o.lo[i] = a[i] = std::min(p[i], p[N + i]); o.hi[i] = b[i] = std::max(p[i], p[N + i]); }
		typename T<N>::A box(T<N>::mk(a), T<N>::mk(b)); check<N>(o, box, p + 2 * N, p + 3 * N);
		// and towards a point near the box, so that most rays meet it
		R d[N]; for (int i = 0; i < N; ++i) d[i] = a[i] + (b[i] - a[i]) * R(i == 0 ? 0.3 : i == 1 ? 0.8 : 0.55) - p[2 * N + i]; check<N>(o, box, p + 2 * N, d);
	});
}
void explore() { ladders<2>(); ladders<3>(); inUnits<R>(run); }
