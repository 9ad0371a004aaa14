// C23: HSV: conversion to and from RGB, hue interpolation the short way round.
#include "vecs.h"
typedef MC_REAL R;
typedef ml::ColorRGB<R> C3; typedef ml::ColorRGBA<R> C4; typedef ml::ColorHSV<R> CH;
static std::ostream& operator<<(std::ostream& s, const C3& c) { return s << "rgb(" << c.r << "," << c.g << "," << c.b << ")"; }
static std::ostream& operator<<(std::ostream& s, const CH& c) { return s << "hsv(" << c.h << "," << c.s << "," << c.v << ")"; }
static LD wrap(LD x, LD y) { x = fmodl(x, y); return x < 0 ? x + y : x; }
// closed form of HSV -> RGB without sectors: channel n has hue offset 5,3,1 sixths
static LD chan(LD h, LD s, LD v, int n) { LD k = wrap(n + h / 60, 6), m = std::min(std::min(k, 4 - k), 1.0L); return v - v * s * std::max(0.0L, m); }
static void toRGB(const CH& c)
{
	C3 g = c.toRGB(); const int off[3] = { 5, 3, 1 }; R got[3] = { g.r, g.g, g.b };
	LD hm = 6 + fabsl(c.h) / 60, tol = 16 * eps<R>() * fabsl(c.v) * (1 + fabsl(c.s) * hm);
	for (int i = 0; i < 3; ++i) { LD w = chan(c.h, c.s, c.v, off[i]); MC_CHECK(got[i] == got[i] && fabsl(got[i] - w) <= tol, "ColorHSV::toRGB", c << " got " << g << " channel " << i << " want " << (double)w); }
	if (c.s >= 0 && c.s <= 1 && c.v >= 0) for (int i = 0; i < 3; ++i) MC_CHECK(got[i] >= -tol && got[i] <= c.v + tol, "ColorHSV::toRGB gamut", c << " got " << g);
	C4 a = c.toRGBA(), b = c.toRGBA(R(0.25)); MC_CHECK(a.r == g.r && a.g == g.g && a.b == g.b && a.a == 1 && b.r == g.r && b.g == g.g && b.b == g.b && b.a == R(0.25), "ColorHSV::toRGBA", c);
	sample([&](std::ostream& o) { o << c << " -> " << g; });
}
static void toHSV(R r, R g, R b, LD extra = 0)
{
	C3 c(r, g, b); CH h = c.toHSV(); R mx = std::max(std::max(r, g), b), mn = std::min(std::min(r, g), b);
	MC_CHECK(h.h >= 0 && h.h < 360, "ColorRGB::toHSV hue range", c << " got " << h);
	MC_CHECK(h.v == mx && h.s >= 0 && h.s <= 1, "ColorRGB::toHSV value/saturation range", c << " got " << h);
	if (mx == mn) { MC_CHECK(h.h == 0 && h.s == 0, "ColorRGB::toHSV of a grey", c << " got " << h); }
	else MC_CHECK(fabsl(h.s - ((LD)mx - mn) / mx) <= 4 * eps<R>() , "ColorRGB::toHSV saturation", c << " got " << h);
	// the closed form applied to the result gives the colour back; for saturated colours that determines the hue
	LD tol = 32 * eps<R>() * mx * 6; R w[3] = { r, g, b }; const int off[3] = { 5, 3, 1 };
	for (int i = 0; i < 3; ++i) MC_CHECK(fabsl(chan(h.h, h.s, h.v, off[i]) - w[i]) <= tol, "ColorRGB::toHSV", c << " got " << h);
	C3 back = h.toRGB(); MC_CHECK(fabsl(back.r - r) <= 2 * tol && fabsl(back.g - g) <= 2 * tol && fabsl(back.b - b) <= 2 * tol, "RGB -> HSV -> RGB", c << " via " << h << " got " << back);
	sample([&](std::ostream& o) { o << c << " -> " << h << " -> " << back; });
	(void)extra;
}
static void interp(const CH& a, const CH& b, R t)
{
	CH g = CH::fromInterp(a, b, t), x(R(9), R(9), R(9)); CH* px = &x.interp(a, b, t); CH y = a, z = b; y.interp(y, b, t); z.interp(a, z, t);
	MC_CHECK(g == x && px == &x && y == g && z == g, "ColorHSV interp forms agree", a << b << t << g << x << y << z);
	if (t == 0 || t == 1) { MC_CHECK(g == (t == 0 ? a : b), "ColorHSV interp ends", a << b << " at " << t << " got " << g); return; }
	LD d = (LD)b.h - a.h; LD tol = 16 * eps<R>() * (fabsl(a.h) + fabsl(b.h) + 360);
	if (d > 180) d -= 360; else if (d < -180) d += 360;
	LD want = wrap(a.h + d * t, 360), diff = fabsl(g.h - want); diff = std::min(diff, 360 - diff);
	bool ok = diff <= tol;
	if (!ok && fabsl(fabsl((LD)b.h - a.h) - 180) < tol) { LD w2 = wrap(a.h - d * t, 360); diff = fabsl(g.h - w2); diff = std::min(diff, 360 - diff); ok = diff <= tol; } // diametral: either way
	MC_CHECK(ok, "ColorHSV interp hue", a << " -> " << b << " at " << t << " got " << g.h << " want " << (double)want);
	MC_CHECK(g.h >= 0 && g.h < 360, "ColorHSV interp hue range", a << " -> " << b << " at " << t << " got " << g.h);
	MC_CHECK(near(g.s, E(a.s) + (E(b.s) - E(a.s)) * E(t), 4) && near(g.v, E(a.v) + (E(b.v) - E(a.v)) * E(t), 4), "ColorHSV interp s,v", a << " -> " << b << " at " << t << " got " << g);
	sample([&](std::ostream& o) { o << a << " -> " << b << " at " << t << " = " << g; });
}
void explore()
{
	section("8-bit rgb"); // every 8-bit colour
	{
		std::vector<int> L; for (int i = 0; i < 256; ++i) L.push_back(i);
		for (int r : L) for (int g : L) for (int b : L) { state(); trace(); toHSV(R(r) / 255, R(g) / 255, R(b) / 255); }
	}
	section("rgb corners"); // nearly grey, nearly primary, tiny differences, tiny and huge values
	{
		std::vector<R> A; for (R k : { R(0), R(1e-30), R(1e-3), R(0.25), R(0.5), R(1) / 3, R(1), R(2), R(1000) }) { A.push_back(k); if (k > 0) { A.push_back(std::nextafter(k, R(0))); A.push_back(std::nextafter(k, R(1e9))); A.push_back(k * (1 - 16 * eps<R>())); } }
		A.push_back(eps<R>()); A.push_back(eps<R>() / 4); A.push_back(eps<R>() / 64); A.push_back(eps<R>() * 64); A.push_back(R(0.7)); A.push_back(R(0.1));
		tuples<R>(A, 3, [&](const R* p) { state(); trace(); toHSV(p[0], p[1], p[2]); });
	}
	section("hsv to rgb");
	{
		std::vector<R> H; int per = thorough() ? 8 : 2; for (int i = -720 * per; i <= 1080 * per; ++i) { R h = R(i) / per; H.push_back(h); if (i % (60 * per) == 0) { H.push_back(std::nextafter(h, R(-1e9))); H.push_back(std::nextafter(h, R(1e9))); H.push_back(h - R(1e-4)); H.push_back(h + R(1e-4)); } }
		H.push_back(R(-1e-30)); H.push_back(R(-1e-6)); H.push_back(R(-1e-20)); H.push_back(R(1e-30)); H.push_back(R(3600)); H.push_back(R(-36000));
		const std::vector<R> S = thorough() ? std::vector<R>{ R(0), R(0.1), R(0.25), R(1) / 3, R(0.5), R(0.75), R(0.999), R(1) } : std::vector<R>{ R(0), R(0.25), R(1) / 3, R(0.75), R(1) };
		std::vector<R> W = S; W.push_back(R(4));
		for (R h : H) for (R s : S) for (R v : W) { state(); trace(); toRGB(CH(h, s, v)); }
		// round trip HSV -> RGB -> HSV keeps hue where there is one
		for (R h : H) for (R s : S) for (R v : W) if (h >= 0 && h < 360 && s >= R(0.1) && v > 0)
		{
			step(); CH a(h, s, v), b = a.toRGB().toHSV(); LD d = fabsl(a.h - b.h); d = std::min(d, 360 - d);
			MC_CHECK(d <= 360 * 16 * eps<R>() / s && fabsl(a.s - b.s) <= 16 * eps<R>() && fabsl(a.v - b.v) <= 4 * eps<R>() * v, "HSV -> RGB -> HSV", a << " got " << b);
		}
	}
	section("hsv interp");
	{
		std::vector<R> H; for (int i = 0; i < 360; i += thorough() ? 5 : 15) H.push_back(R(i)); for (R x : { R(1), R(359), R(179), R(181), R(0.1), R(359.9), std::nextafter(R(360), R(0)), R(1e-6), R(90.5), R(270.5) }) H.push_back(x);
		const std::vector<R> T = { R(0), R(1), R(0.5), R(0.25), R(0.1), R(0.9), R(1) / 3, R(1e-4), R(1) - R(1e-4) };
		for (R h : H) for (R k : H) for (R t : T) { state(); trace(); interp(CH(h, R(0.25), R(1)), CH(k, R(1), R(0.5)), t); interp(CH(h, R(1), R(0.2)), CH(k, R(0.1), R(0.2)), t); }
	}
	section("ladders");
	star<R>(3, [&](const R* p) { state(2); trace(); toRGB(CH(p[0], between(std::fabs(p[1]), R(0), R(1)), std::fabs(p[2]))); toHSV(std::fabs(p[0]), std::fabs(p[1]), std::fabs(p[2])); });
	star<R>(7, [&](const R* p) { state(); trace(); R h = ml::fmodPositive(p[0] * 60, R(360)), k = ml::fmodPositive(p[3] * 60, R(360)); interp(CH(h, p[1], p[2]), CH(k, p[4], p[5]), between(std::fabs(p[6]), R(0), R(1))); });
	section("hsv basics");
	{
		const std::vector<R> A = { R(0), R(1), R(0.25), R(300) };
		auto equal = [&](const R* a, const R* q) { state(); trace(); CH x(a[0], a[1], a[2]), y(q[0], q[1], q[2]); bool e = a[0] == q[0] && a[1] == q[1] && a[2] == q[2]; MC_CHECK((x == y) == e && (x != y) == !e, "ColorHSV == / !=", x << y); };
		auto basic = [&](const R* p) {
			CH x(p[0], p[1], p[2]); CH s(R(9), R(9), R(9)), u = s; CH* ps = &s.set(p[0], p[1], p[2]); CH* pu = &u.set(x); MC_CHECK(x.h == p[0] && x.s == p[1] && x.v == p[2] && s == x && u == x && ps == &s && pu == &u, "ColorHSV construction", x << s << u);
			const CH& k = x; MC_CHECK(x.data()[0] == p[0] && x.data()[1] == p[1] && x.data()[2] == p[2] && k.data() == x.data(), "ColorHSV::data", x); x.data()[1] = R(7); MC_CHECK(x.s == 7 && x.h == p[0] && x.v == p[2], "ColorHSV::data write", x); x.s = p[1];
			auto f = x.template cast<float>(); auto d = x.template cast<double>(); MC_CHECK(f.h == (float)p[0] && f.s == (float)p[1] && f.v == (float)p[2] && d.h == (double)p[0] && d.s == (double)p[1] && d.v == (double)p[2], "ColorHSV::cast", x);
			C4 a4(p[1], p[2], p[0] / 300, R(0.5)); CH v = a4.toHSV(), w = a4.toRGB().toHSV(); MC_CHECK(v == w, "ColorRGBA::toHSV", v << w); };
		tuples<R>(A, 3, [&](const R* p) { std::array<R, 3> a = { p[0], p[1], p[2] }; tuples<R>(A, 3, [&](const R* q) { equal(a.data(), q); }); basic(p); });
		star<R>(6, [&](const R* p) { basic(p); equal(p, p + 3); R q[3] = { p[0], p[1], p[2] }; equal(p, q); q[2] = p[5]; equal(p, q); });
		const CH* c[5] = { &CH::Black, &CH::White, &CH::Red, &CH::Green, &CH::Blue }; const C3* r[5] = { &C3::Black, &C3::White, &C3::Red, &C3::Green, &C3::Blue };
		for (int i = 0; i < 5; ++i) MC_CHECK(c[i]->toRGB() == *r[i] && r[i]->toHSV() == *c[i], "ColorHSV constants", i << *c[i]);
	}
}
