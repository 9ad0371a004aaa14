// C22: RGB and RGBA colours: construction, arithmetic (alpha is kept), comparison, interpolation, conversion, data().
#include "vecs.h"
typedef MC_REAL R;
typedef ml::ColorRGB<R> C3; typedef ml::ColorRGBA<R> C4; typedef ml::ColorHSV<R> CH;
static std::ostream& operator<<(std::ostream& s, const C3& c) { return s << "rgb(" << c.r << "," << c.g << "," << c.b << ")"; }
static std::ostream& operator<<(std::ostream& s, const C4& c) { return s << "rgba(" << c.r << "," << c.g << "," << c.b << "," << c.a << ")"; }
// reference: plain array of channels; A = number of channels
template <class C> struct Tr;
template <> struct Tr<C3> { enum { n = 3 }; static C3 make(const R* p) { return C3(p[0], p[1], p[2]); } static R get(const C3& c, int i) { return i == 0 ? c.r : i == 1 ? c.g : c.b; } };
template <> struct Tr<C4> { enum { n = 4 }; static C4 make(const R* p) { return C4(p[0], p[1], p[2], p[3]); } static R get(const C4& c, int i) { return i == 0 ? c.r : i == 1 ? c.g : i == 2 ? c.b : c.a; } };
template <class C> static bool eq(const C& c, const R* p) { for (int i = 0; i < Tr<C>::n; ++i) if (!(Tr<C>::get(c, i) == p[i])) return false; return true; }
template <class C> static bool nearc(const C& c, const E* w, R alpha) { for (int i = 0; i < 3; ++i) if (!near(Tr<C>::get(c, i), w[i], 4)) return false; return Tr<C>::n == 3 || Tr<C>::get(c, Tr<C>::n - 1) == alpha; }

static bool dataok(C3& c, const R* p) { const C3& k = c; R* d = c.data(); const R* e = k.data(); return (const R*)d == e && d[0] == p[0] && d[1] == p[1] && d[2] == p[2]; }
static bool dataok(C4& c, const R* p) { const C4& k = c; R* d = c.data(); const R* e = k.data(); return (const R*)d == e && d[0] == p[0] && d[1] == p[1] && d[2] == p[2] && d[3] == p[3]; }
template <class C> static bool castok(const C& c)
{
	auto f = c.template cast<float>(); auto d = c.template cast<double>();
	bool ok = f.r == (float)c.r && f.g == (float)c.g && f.b == (float)c.b && d.r == (double)c.r && d.g == (double)c.g && d.b == (double)c.b; return ok;
}
static bool casta(const C4& c) { return c.template cast<float>().a == (float)c.a && c.template cast<double>().a == (double)c.a; }

template <class C> static void pair(const R* p, const R* q, const std::vector<R>& ts = { R(0), R(1), R(0.5), R(0.25), R(0.1), R(0.9), R(1) / 3, R(1e-4), R(1) - R(1e-4) })
{
	enum { N = Tr<C>::n };
	state(); trace();
	const C a = Tr<C>::make(p), b = Tr<C>::make(q);
	MC_CHECK(eq(a, p) && eq(b, q), "colour construction", a << b);
	E s[3], d[3]; for (int i = 0; i < 3; ++i) { s[i] = E(p[i]) + E(q[i]); d[i] = E(p[i]) - E(q[i]); }
	const R al = p[N - 1];
	C r = a + b; MC_CHECK(nearc(r, s, al), "colour +", a << " + " << b << " got " << r);
	r = a - b; MC_CHECK(nearc(r, d, al), "colour -", a << " - " << b << " got " << r);
	r = a; C* pr = &(r += b); MC_CHECK(nearc(r, s, al) && pr == &r, "colour +=", a << " += " << b << " got " << r);
	r = a; pr = &(r -= b); MC_CHECK(nearc(r, d, al) && pr == &r, "colour -=", a << " -= " << b << " got " << r);
	bool e = true; for (int i = 0; i < N; ++i) e = e && p[i] == q[i];
	MC_CHECK((a == b) == e && (a != b) == !e && (b == a) == e && (b != a) == !e, "colour == / !=", a << " vs " << b);
	R lo[4], hi[4];
	for (R t : ts)
	{
		E w[4]; bool ends = t == 0 || t == 1;
		for (int i = 0; i < N; ++i) { w[i] = E(p[i]) + (E(q[i]) - E(p[i])) * E(t); lo[i] = std::min(p[i], q[i]); hi[i] = std::max(p[i], q[i]); }
		auto ok = [&](const C& c) { for (int i = 0; i < N; ++i) { R g = Tr<C>::get(c, i); if (ends) { if (!(g == (t == 0 ? p[i] : q[i]))) return false; } else if (!near(g, w[i], 4)) return false; } return true; };
		C c = C::fromInterp(a, b, t); MC_CHECK(ok(c), "colour fromInterp", a << " -> " << b << " at " << t << " got " << c);
		C x(R(9)); pr = &x.interp(a, b, t); MC_CHECK(ok(x) && pr == &x, "colour interp", a << " -> " << b << " at " << t << " got " << x);
		C y = a; y.interp(y, b, t); C z = b; z.interp(a, z, t); MC_CHECK(ok(y) && ok(z), "colour interp in place", a << " -> " << b << " at " << t << " got " << y << z);
	}
	MC_CHECK(eq(a, p) && eq(b, q), "colour operands unchanged", a << b);
	sample([&](std::ostream& o) { o << a << " + " << b << " = " << a + b << ", midway " << C::fromInterp(a, b, R(0.5)); });
}
template <class C> static void one(const R* p, const std::vector<R>& ks = { R(0), R(1), R(2), R(-0.5), R(0.3), R(255) })
{
	enum { N = Tr<C>::n };
	state(); trace();
	C a = Tr<C>::make(p); const R al = p[N - 1];
	C s(R(9)); C* ps = &s.set(a); MC_CHECK(eq(s, p) && ps == &s, "colour set(c)", a << s);
	MC_CHECK(dataok(a, p), "colour data", a); R* d = a.data(); for (int i = 0; i < N; ++i) d[i] = p[N - 1 - i];
	bool ok = true; for (int i = 0; i < N; ++i) ok = ok && Tr<C>::get(a, i) == p[N - 1 - i]; MC_CHECK(ok, "colour data write", a); a = Tr<C>::make(p);
	MC_CHECK(castok(a), "colour cast", a);
	E n[3]; for (int i = 0; i < 3; ++i) n[i] = -E(p[i]); C r = -a; MC_CHECK(nearc(r, n, al), "colour unary -", a << " got " << r);
	for (R k : ks)
	{
		E w[3]; for (int i = 0; i < 3; ++i) w[i] = E(p[i]) * E(k);
		r = a * k; MC_CHECK(nearc(r, w, al), "colour * k", a << " * " << k << " got " << r);
		r = a; C* pr = &(r *= k); MC_CHECK(nearc(r, w, al) && pr == &r, "colour *= k", a << " *= " << k << " got " << r);
		if (k == 0) continue;
		for (int i = 0; i < 3; ++i) w[i] = E(p[i]) / E(k);
		r = a / k; MC_CHECK(nearc(r, w, al), "colour / k", a << " / " << k << " got " << r);
		r = a; pr = &(r /= k); MC_CHECK(nearc(r, w, al) && pr == &r, "colour /= k", a << " /= " << k << " got " << r);
	}
	MC_CHECK(eq(a, p), "colour operand unchanged", a);
}
// every history of in-place operations, compared with the same operations on plain channels (dyadic values, so exact)
template <class C> static void history(C c, std::array<double, 4> ref, int depth, std::string path)
{
	enum { N = Tr<C>::n };
	if (depth == 0) { trace(); return; }
	const R o1[4] = { R(0.5), R(-0.25), R(1), R(0.125) }, o2[4] = { R(0), R(2), R(0.75), R(-1) };
	const C c1 = Tr<C>::make(o1), c2 = Tr<C>::make(o2); static const char* names[] = { "+=c1 ", "-=c2 ", "*=0.5 ", "/=-0.25 ", "neg ", "interp(c1,.5) ", "+=self ", "set(c2) ", "interp(c2,self,.25) ", "*=2 " };
	for (int op = 0; op < 10; ++op)
	{
		C x = c; std::array<double, 4> m = ref;
		switch (op)
		{
		case 0: x += c1; for (int i = 0; i < 3; ++i) m[i] += o1[i]; break;
		case 1: x -= c2; for (int i = 0; i < 3; ++i) m[i] -= o2[i]; break;
		case 2: x *= R(0.5); for (int i = 0; i < 3; ++i) m[i] *= 0.5; break;
		case 3: x /= R(-0.25); for (int i = 0; i < 3; ++i) m[i] /= -0.25; break;
		case 4: x = -x; for (int i = 0; i < 3; ++i) m[i] = -m[i]; break;
		case 5: x.interp(x, c1, R(0.5)); for (int i = 0; i < N; ++i) m[i] = m[i] + (o1[i] - m[i]) * 0.5; break;
		case 6: x += x; for (int i = 0; i < 3; ++i) m[i] += m[i]; break;
		case 7: x.set(c2); for (int i = 0; i < N; ++i) m[i] = o2[i]; break;
		case 8: x.interp(c2, x, R(0.25)); for (int i = 0; i < N; ++i) m[i] = o2[i] + (m[i] - o2[i]) * 0.25; break;
		case 9: x *= R(2); for (int i = 0; i < 3; ++i) m[i] *= 2; break;
		}
		state(); bool ok = true; for (int i = 0; i < N; ++i) ok = ok && fabs((double)Tr<C>::get(x, i) - m[i]) <= 64 * (double)eps<R>() * (fabs(m[i]) + 8 * (1 << (2 * (6 - depth > 0 ? 6 - depth : 0))));
		MC_CHECK(ok, "colour history", path << names[op] << " got " << x);
		history<C>(x, m, depth - 1, path + names[op]);
	}
}
void explore()
{
	const std::vector<R> A = thorough() ? std::vector<R>{ R(0), R(1), R(0.5), R(0.2), R(-0.75), R(3) } : std::vector<R>{ R(0), R(1), R(0.3), R(-0.75), R(2) };
	const std::vector<R> Q = thorough() ? std::vector<R>{ R(0), R(1), R(0.3), R(-2) } : std::vector<R>{ R(0), R(1), R(0.3) };
	section("rgb pairs"); tuples<R>(A, 3, [&](const R* p) { std::array<R, 3> a = { p[0], p[1], p[2] }; tuples<R>(Q, 3, [&](const R* q) { pair<C3>(a.data(), q); }); });
	section("rgba pairs"); tuples<R>(Q, 4, [&](const R* p) { std::array<R, 4> a = { p[0], p[1], p[2], p[3] }; tuples<R>(Q, 4, [&](const R* q) { pair<C4>(a.data(), q); }); });
	section("single"); auto rgb = [&](const R* p) { C3 c(p[0], p[1], p[2]); C3 s(R(7)); s.set(p[0], p[1], p[2]); MC_CHECK(eq(s, p), "ColorRGB::set", s);
		for (R al : { R(0), R(1), R(0.25) }) { C4 x = c.toRGBA(al); MC_CHECK(x.r == p[0] && x.g == p[1] && x.b == p[2] && x.a == al, "ColorRGB::toRGBA", c << " got " << x); }
		C4 x = c.toRGBA(); MC_CHECK(x.a == 1 && x.r == p[0] && x.g == p[1] && x.b == p[2], "ColorRGB::toRGBA()", c << " got " << x);
		C4 y(p[0], p[1], p[2]); MC_CHECK(y == x, "ColorRGBA(r,g,b)", y); y.set(R(3), R(3), R(3), R(3)); y.set(p[0], p[1], p[2]); MC_CHECK(y == x, "ColorRGBA::set(r,g,b)", y); };
	auto rgba = [&](const R* p) { C4 c(p[0], p[1], p[2], p[3]); MC_CHECK(casta(c), "ColorRGBA::cast alpha", c); C4 s(R(7)); s.set(p[0], p[1], p[2], p[3]); MC_CHECK(eq(s, p), "ColorRGBA::set", s);
		C3 x = c.toRGB(); MC_CHECK(x.r == p[0] && x.g == p[1] && x.b == p[2], "ColorRGBA::toRGB", c << " got " << x); };
	tuples<R>(A, 3, [&](const R* p) { one<C3>(p); rgb(p); }); tuples<R>(A, 4, [&](const R* p) { one<C4>(p); rgba(p); });
	auto grey = [&](R k) { C3 a(k); MC_CHECK(a.r == k && a.g == k && a.b == k, "ColorRGB(k)", a); C4 b(k), c(k, R(0.25)); MC_CHECK(b.r == k && b.g == k && b.b == k && b.a == 1 && c.r == k && c.g == k && c.b == k && c.a == R(0.25), "ColorRGBA(k,a)", b << c); }; for (R k : A) grey(k);
	section("ladders");
	star<R>(4, [&](const R* p) { one<C3>(p, { p[3] }); rgb(p); grey(p[0]); C4 x = C3(p[0], p[1], p[2]).toRGBA(p[3]), y(p[0], p[3]); MC_CHECK(eq(x, p) && y.r == p[0] && y.g == p[0] && y.b == p[0] && y.a == p[3], "colour with alpha", x << y); });
	star<R>(5, [&](const R* p) { one<C4>(p, { p[4] }); rgba(p); });
	star<R>(7, [&](const R* p) { pair<C3>(p, p + 3, { p[6] }); R q[3] = { p[0], p[1], p[2] }; pair<C3>(p, q, { p[6] }); q[1] = p[4]; pair<C3>(p, q, { p[6] }); });
	star<R>(9, [&](const R* p) { pair<C4>(p, p + 4, { p[8] }); R q[4] = { p[0], p[1], p[2], p[3] }; pair<C4>(p, q, { p[8] }); q[3] = p[7]; pair<C4>(p, q, { p[8] }); });
	section("bytes");
	for (int i = 0; i < 256; ++i) for (int c = 0; c < 4; ++c) { state(); trace(); int v[4] = { 1, 2, 3, 4 }; v[c] = i; C3 a(v[0], v[1], v[2]); C4 b(v[0], v[1], v[2], v[3]), d(v[0], v[1], v[2]); R w[4]; for (int k = 0; k < 4; ++k) w[k] = R(v[k]) / R(255);
		auto nr = [](R g, R want) { return fabsl((LD)g - want) <= 2 * eps<R>() * want; };
		MC_CHECK(nr(a.r, w[0]) && nr(a.g, w[1]) && nr(a.b, w[2]) && nr(b.r, w[0]) && nr(b.g, w[1]) && nr(b.b, w[2]) && nr(b.a, w[3]) && nr(d.r, w[0]) && nr(d.g, w[1]) && nr(d.b, w[2]) && d.a == 1, "byte constructors", v[0] << "," << v[1] << "," << v[2] << "," << v[3] << " got " << a << b << d);
		MC_CHECK((i != 0 && i != 255) || C3(i, i, i) == C3(R(i / 255)), "byte range ends", i); }
	section("constants"); state(); trace();
	{
		const R w[5][3] = { { 0, 0, 0 }, { 1, 1, 1 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
		const C3* c3[5] = { &C3::Black, &C3::White, &C3::Red, &C3::Green, &C3::Blue }; const C4* c4[5] = { &C4::Black, &C4::White, &C4::Red, &C4::Green, &C4::Blue };
		for (int i = 0; i < 5; ++i) MC_CHECK(c3[i]->r == w[i][0] && c3[i]->g == w[i][1] && c3[i]->b == w[i][2] && c4[i]->r == w[i][0] && c4[i]->g == w[i][1] && c4[i]->b == w[i][2] && c4[i]->a == 1, "colour constants", i << *c3[i] << *c4[i]);
	}
	int depth = thorough() ? 6 : 4; R z[4] = { R(0.25), R(1), R(-0.5), R(0.5) }; std::array<double, 4> m = { { 0.25, 1, -0.5, 0.5 } };
	section("rgb histories"); history<C3>(C3(z[0], z[1], z[2]), m, depth, "");
	section("rgba histories"); history<C4>(C4(z[0], z[1], z[2], z[3]), m, depth, "");
}
