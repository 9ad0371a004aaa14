// C18: view frusta: outward planes through the corners, containment of points and spheres, overlap with spheres.
#include "boxes.h"
typedef MC_REAL R;
typedef Vec3<R> V; typedef ml::Frustum<R> F; typedef Mat34<R> M34; typedef Mat4<R> M4;
static const std::string P = "Frustum::";
struct Box8 { V c[8]; };
static std::ostream& operator<<(std::ostream& s, const Box8& b) { for (auto& v : b.c) s << v; return s; }
// corner order: near TR, BR, BL, TL then far TR, BR, BL, TL; looking down -z
static Box8 corners(R zn, R zf, R l, R r, R b, R t, R k) // k: far scale
{
	Box8 x; R nx[4] = { r, r, l, l }, ny[4] = { t, b, b, t };
	for (int i = 0; i < 4; ++i) { x.c[i] = V(u(nx[i]), u(ny[i]), u(zn)); x.c[4 + i] = V(u(nx[i] * k), u(ny[i] * k), u(zf)); }
	return x;
}
struct Pl { LD n[3], d; }; // outward
static Pl through(const V& a, const V& b, const V& c, const V& inside)
{
	LD u[3], v[3], n[3], s = 0, l = 0; for (int i = 0; i < 3; ++i) { u[i] = (LD)comp(b, i) - comp(a, i); v[i] = (LD)comp(c, i) - comp(a, i); }
	for (int i = 0; i < 3; ++i) { n[i] = u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3]; l += n[i] * n[i]; }
	l = sqrtl(l); Pl p; p.d = 0; for (int i = 0; i < 3; ++i) { p.n[i] = n[i] / l; s += p.n[i] * ((LD)comp(inside, i) - comp(a, i)); }
	if (s > 0) for (auto& x : p.n) x = -x;
	for (int i = 0; i < 3; ++i) p.d += p.n[i] * comp(a, i);
	return p;
}
static LD dist(const Pl& p, const V& x) { return p.n[0] * x.x + p.n[1] * x.y + p.n[2] * x.z - p.d; }
static void check(const F& f, const Box8& w, const std::vector<V>& pts, const std::vector<R>& radii, const std::string& how)
{
	state(); trace();
	V mid(0, 0, 0); LD big = 0, small = 1e30L; { LD m[3] = { 0, 0, 0 }; for (auto& c : w.c) for (int i = 0; i < 3; ++i) { m[i] += comp(c, i) / LD(8); big = std::max(big, fabsl(comp(c, i))); } mid = V((R)m[0], (R)m[1], (R)m[2]); }
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 8; ++j) if (i != j) { LD d = 0; for (int k = 0; k < 3; ++k) { LD x = (LD)comp(w.c[i], k) - comp(w.c[j], k); d += x * x; } small = std::min(small, sqrtl(d)); }
	static const int idx[6][4] = { { 4, 5, 6, 7 }, { 0, 1, 2, 3 }, { 3, 7, 6, 2 }, { 3, 4, 7, 0 }, { 1, 5, 4, 0 }, { 1, 6, 5, 2 } };
	Pl pl[6]; for (int i = 0; i < 6; ++i) pl[i] = through(w.c[idx[i][0]], w.c[idx[i][1]], w.c[idx[i][2]], mid);
	LD tol = 64 * eps<R>() * (big * big / small + big); // error of a plane distance near the frustum
	bool ok = true; for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) ok = ok && fabsl(comp(f.corners[i], k) - comp(w.c[i], k)) <= 8 * eps<R>() * 4 * big;
	MC_CHECK(ok, P + how + " corners", w << " got " << f.corners[0] << f.corners[6]);
	for (int i = 0; i < 6; ++i)
	{
		const auto& q = f.planes[i]; LD c = q.normal.x * pl[i].n[0] + q.normal.y * pl[i].n[1] + q.normal.z * pl[i].n[2], l = (LD)q.normal.x * q.normal.x + (LD)q.normal.y * q.normal.y + (LD)q.normal.z * q.normal.z;
		MC_CHECK(c > 1 - 1e-4L && fabsl(l - 1) <= 16 * eps<R>(), P + how + " outward unit normals", w << " plane " << i << " normal " << q.normal);
		for (int j = 0; j < 4; ++j) MC_CHECK(fabsl(q.distance(w.c[idx[i][j]])) <= tol, P + how + " planes through the corners", w << " plane " << i << " corner " << idx[i][j] << " distance " << q.distance(w.c[idx[i][j]]));
	}
	unsigned in = 0;
	for (auto& p : pts)
	{
		LD far = tol * (1 + (fabsl(p.x) + fabsl(p.y) + fabsl(p.z)) / big), m = -1e30L; for (auto& x : pl) m = std::max(m, dist(x, p));
		if (fabsl(m) > far) { bool g = f.contains(p); in += g; MC_CHECK(g == (m < 0), P + "contains(point)", how << w << " " << p << " got " << g << " outermost distance " << (double)m);
			for (R w4 : { R(1), R(0), R(-1), R(0.5), R(3) }) { bool g4 = f.contains(ml::Vec4<R>(p, w4)); MC_CHECK(g4 == (m < 0), P + "contains(Vec4)", how << w << " " << p << " with w " << w4 << " got " << g4); } }
		for (R r : radii)
		{
			Sphere<R> s(p, r); LD e = far + 8 * eps<R>() * r;
			if (fabsl(m + r) > e) { bool g = f.contains(s); MC_CHECK(g == (m < -r), P + "contains(sphere)", how << w << " " << s << " got " << g << " outermost distance " << (double)m); }
			// the overlap test is a bound: spheres that reach behind all six planes are reported, spheres wholly outside one plane are not
			if (fabsl(m - r) > e) { bool g = f.intersects(s); MC_CHECK(g == (m < r), P + "intersects(sphere)", how << w << " " << s << " got " << g << " outermost distance " << (double)m); }
		}
	}
	auto cf = f.template cast<float>(); auto cd = f.template cast<double>(); ok = true;
	for (int i = 0; i < 8; ++i) for (int k = 0; k < 3; ++k) ok = ok && comp(cf.corners[i], k) == (float)comp(f.corners[i], k) && comp(cd.corners[i], k) == (double)comp(f.corners[i], k);
	for (int i = 0; i < 6; ++i) { ok = ok && cf.planes[i].d == (float)f.planes[i].d && cd.planes[i].d == (double)f.planes[i].d; for (int k = 0; k < 3; ++k) ok = ok && comp(cf.planes[i].normal, k) == (float)comp(f.planes[i].normal, k) && comp(cd.planes[i].normal, k) == (double)comp(f.planes[i].normal, k); }
	MC_CHECK(ok, P + "cast", w);
	sample([&](std::ostream& o) { o << how << " " << w << " contains " << in << " of " << pts.size(); });
}
static void all()
{
	std::vector<Box8> all;
	for (R zn : { R(-1), R(-0.1), R(2) }) for (R zf : { R(-3), R(-10), R(-100) }) for (R s : { R(1), R(0.25) }) for (R k : { R(1), R(3), R(10), R(0.5) })
		for (int off = 0; off < 3; ++off) { R o = off == 0 ? R(0) : off == 1 ? R(0.75) * s : R(-2) * s; all.push_back(corners(zn, zf, -s + o, s + o, R(-0.5) * s + o / 2, s - o / 4, k)); }
	std::vector<R> radii = U<R>({ 0, R(0.25), 1, 4 });
	auto points = [&](const Box8& b) {
		// lattice spanning the frustum and its surroundings, in its own trilinear coordinates
		std::vector<V> r; std::vector<R> g = deep() ? std::vector<R>{ R(-1), R(-0.25), R(-0.01), R(0.01), R(0.3), R(0.5), R(0.75), R(0.99), R(1.01), R(1.5), 3 } : std::vector<R>{ R(-0.5), R(0.01), R(0.5), R(0.75), R(0.99), R(1.01), R(2) };
		tuples(g, 3, [&](const R* t) {
			R c[3]; for (int i = 0; i < 3; ++i) { auto v = [&](int k) { return (LD)comp(b.c[k], i); };
				LD n = (v(2) * (1 - t[0]) + v(1) * t[0]) * (1 - t[1]) + (v(3) * (1 - t[0]) + v(0) * t[0]) * t[1], f = (v(6) * (1 - t[0]) + v(5) * t[0]) * (1 - t[1]) + (v(7) * (1 - t[0]) + v(4) * t[0]) * t[1];
				c[i] = R(n * (1 - t[2]) + f * t[2]); }
			r.push_back(mk3(c)); });
		return r; };
	section(P + "set(corners)");
	for (auto& b : all) { F f; f.set(b.c); check(f, b, points(b), radii, "set(corners)"); F g(b.c); check(g, b, { V(0, 0, u(R(-2))) }, radii, "Frustum(corners)"); g = f; g.set(g.corners); check(g, b, { V(0, 0, u(R(-2))) }, radii, "set(own corners)"); }
	if (UNIT() == 1)
	{
		// near and far plane, left, right, bottom, top, far scale; a point in the frustum's own coordinates and a radius
		section(P + "ladders");
		star<R>(11, [&](const R* p) {
			R zn = std::max(p[0], p[1]), zf = std::min(p[0], p[1]), l = std::min(p[2], p[3]), r = std::max(p[2], p[3]), b = std::min(p[4], p[5]), t = std::max(p[4], p[5]), k = std::fabs(p[6]);
			R lo = std::min(std::min(zn - zf, std::min(R(1), k) * (r - l)), std::min(R(1), k) * (t - b)), hi = 0; for (R x : { zn, zf, l, r, b, t, l * k, r * k, b * k, t * k }) hi = std::max(hi, std::fabs(x));
			if (!(lo > 0) || hi > 300 * lo) return; // too thin to have well-defined planes
			Box8 w = corners(zn, zf, l, r, b, t, k); F f(w.c); R in[3] = { l + (r - l) * R(0.3), b + (t - b) * R(0.6), zn }; R q[3]; for (int i = 0; i < 3; ++i) q[i] = p[7 + i];
			check(f, w, { mk3(q), mk3(in), mk3(in) + mk3(q) * (lo / 100), V(in[0], in[1], (zn + zf) / 2) }, { std::fabs(p[10]), std::fabs(p[10]) * lo / 4 }, "ladder");
		});
		section(P + "transform ladders");
		star<R>(12, [&](const R* p) {
			const R q[9] = { R(0.8), R(-0.6), 0, R(0.48), R(0.64), R(-0.6), R(0.36), R(0.48), R(0.8) }; M34 m; m.rs.set(mk3(q), mk3(q + 3), mk3(q + 6)); m.t = mk3(p + 9); R* e = &m.rs.x.x; int bent = 0;
			static const R base[3][9] = { { R(1.25), R(-0.625), R(2.3), R(0.45), R(-3.7), R(0.8125), R(5.1), R(-1.6), R(0.33) }, { R(-0.7), R(1.4), R(0.35), R(-2.2), R(0.9), R(4.6), R(-0.28), R(1.05), R(-1.3) }, { R(0.15), R(0.4), R(-0.22), R(0.31), R(0.11), R(-0.37), R(0.27), R(0.19), R(-0.45) } };
			int best = 0, n = -1; for (int k = 0; k < 3; ++k) { int c = 0; for (int i = 0; i < 9; ++i) c += p[i] == base[k][i]; if (c > n) { n = c; best = k; } }
			for (int i = 0; i < 9; ++i) if (p[i] != base[best][i]) { if (std::fabs(p[i]) > 20) return; e[i] += p[i]; ++bent; }
			(void)bent; Box8 c = all[7], w; for (int k = 0; k < 8; ++k) { R x[3]; for (int i = 0; i < 3; ++i) x[i] = R((LD)comp(m.rs.x, i) * c.c[k].x + (LD)comp(m.rs.y, i) * c.c[k].y + (LD)comp(m.rs.z, i) * c.c[k].z + comp(m.t, i)); w.c[k] = mk3(x); }
			LD vol = 0, big = 0; { V a = w.c[1] - w.c[0], b = w.c[3] - w.c[0], d = w.c[4] - w.c[0]; vol = fabsl((LD)a.x * ((LD)b.y * d.z - (LD)b.z * d.y) + (LD)a.y * ((LD)b.z * d.x - (LD)b.x * d.z) + (LD)a.z * ((LD)b.x * d.y - (LD)b.y * d.x)); for (auto& v : w.c) for (int i = 0; i < 3; ++i) big = std::max(big, fabsl(comp(v, i))); }
			{ const V &x = m.rs.x, &y = m.rs.y, &z = m.rs.z; if ((LD)x.x * ((LD)y.y * z.z - (LD)y.z * z.y) - (LD)y.x * ((LD)x.y * z.z - (LD)x.z * z.y) + (LD)z.x * ((LD)x.y * y.z - (LD)x.z * y.y) <= 0) return; } // mirrored: the corner order is no longer the documented one
			if (vol < big * big * big / 500) return;
			F f; f.set(m, c.c); check(f, w, { w.c[0], (w.c[0] + w.c[6]) * R(0.5), w.c[0] * R(1.3) - w.c[6] * R(0.3) }, radii, "set(Mat34, corners)");
			M4 m4; m4.set(m.rs, m.t); f.set(m4, c.c); check(f, w, { w.c[0], (w.c[0] + w.c[6]) * R(0.5), w.c[0] * R(1.3) - w.c[6] * R(0.3) }, radii, "set(Mat4, corners)");
		});
	}
	std::vector<M34> ms;
	for (R ang : { R(0), R(0.5), R(2), R(-1.5707963267948966) }) for (V ax : { V(0, 0, 1), V(1, 0, 0), V(R(0.36), R(0.48), R(0.8)) }) for (R sc : { R(1), R(2), R(0.5) }) for (V t : { V(0, 0, 0), V(3, -4, R(0.5)) })
	{ Mat3<R> rot = Mat3<R>::from(ax, ang); M34 m; m.rs.set(rot.x * sc, rot.y * (sc * R(1.5)), rot.z * sc); m.t = t * (R)UNIT(); ms.push_back(m); }
	{ M34 m; m.rs.set(V(1, R(0.5), 0), V(0, 1, R(0.25)), V(0, 0, 1)); m.t = V(1, 2, 3) * (R)UNIT(); ms.push_back(m); }
	section(P + "set(transform, corners)");
	size_t st = deep() ? 1 : 3;
	for (size_t i = 0; i < all.size(); i += st) for (size_t j = 0; j < ms.size(); ++j)
	{
		const M34& m = ms[j]; Box8 w; for (int k = 0; k < 8; ++k) { R c[3]; for (int x = 0; x < 3; ++x) c[x] = R((LD)comp(m.rs.x, x) * all[i].c[k].x + (LD)comp(m.rs.y, x) * all[i].c[k].y + (LD)comp(m.rs.z, x) * all[i].c[k].z + comp(m.t, x)); w.c[k] = mk3(c); }
		auto ps = points(w); if (!deep()) { std::vector<V> q; for (size_t k = (i + j) % 5; k < ps.size(); k += 5) q.push_back(ps[k]); ps = q; }
		F f; f.set(m, all[i].c); check(f, w, ps, radii, "set(Mat34, corners)");
		M4 m4; m4.set(m.rs, m.t); F g; g.set(m4, all[i].c); check(g, w, ps, radii, "set(Mat4, corners)");
		F h(all[i].c); h.set(m, h.corners); check(h, w, { w.c[0] }, radii, "set(Mat34, own corners)");
		F h4(all[i].c); h4.set(m4, h4.corners); check(h4, w, { w.c[0] }, radii, "set(Mat4, own corners)");
	}
	if (UNIT() != 1) return;
	// decisions must not be coarser than Real
	section(P + "precision");
	Box8 cube = corners(1, -1, -1, 1, -1, 1, 1);
	F f(cube.c);
	for (int a = 0; a < 3; ++a) for (int s = -1; s <= 1; s += 2) for (int e = 3; e < std::numeric_limits<R>::digits - 4; ++e)
	{
		state(); trace();
		R d = std::ldexp(R(1), -e); R in[3] = { 0, 0, 0 }, out[3] = { 0, 0, 0 }; in[a] = s * (1 - d); out[a] = s * (1 + d);
		MC_CHECK(f.contains(mk3(in)) && !f.contains(mk3(out)), P + "contains(point) near a face", "axis " << a << " side " << s << " by 2^-" << e);
		R c[3] = { 0, 0, 0 }; c[a] = s * R(0.5); MC_CHECK(f.contains(Sphere<R>(mk3(c), R(0.5) - d)) && !f.contains(Sphere<R>(mk3(c), R(0.5) + d)), P + "contains(sphere) near a face", "axis " << a << " side " << s << " by 2^-" << e);
		c[a] = s * R(2); MC_CHECK(f.intersects(Sphere<R>(mk3(c), R(1) + d)) && !f.intersects(Sphere<R>(mk3(c), R(1) - d)), P + "intersects(sphere) near a face", "axis " << a << " side " << s << " by 2^-" << e);
	}
}

void explore() { inUnits<R>(::all); }
