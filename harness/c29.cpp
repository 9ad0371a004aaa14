// C29: operations on distinct objects do not interfere: every history of two calls and every schedule with one switch (at every
// instruction of the first call, from a cold process and in a warm one) gives each call the result it has when it runs alone.
#include "mc.h"
#include <atomic>
#include <pthread.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ucontext.h>
#include "mathlib.h"
typedef MC_REAL R;
namespace ml = mathlib;
using namespace mathlib;

enum { V = 3, N = 18 }; // variants of the arguments, length of the arrays

struct In
{
	R k[6]; int n[3]; Coord c, d; Axis ax; InterpolationMode mode; ResponseCurveType curve;
	Vec2<R> a2, b2, c2, d2; Vec3<R> a3, b3, c3, d3, u3; Vec4<R> a4, b4; Quat<R> q, r, s, p;
	Mat2<R> m2, n2, r2, s2; Mat3<R> m3, n3, r3, s3; Mat34<R> m34, n34, r34, s34; Mat4<R> m4, n4, r4, s4;
	AABB2<R> e2, f2; AABB3<R> e3, f3; CAABB2<R> g2, h2; CAABB3<R> g3, h3; Circle<R> ci, cj; Sphere<R> si, sj;
	Plane<R> pa, pb, pc; Line2<R> l2; Line3<R> l3; Ray2<R> y2; Ray3<R> y3; Tri2<R> t2; Frustum<R> fr; Vec3<R> corners[8];
	ColorRGB<R> rgb, rgc; ColorRGBA<R> rga, rgd; ColorHSV<R> hsv, hsw;
	Vec2<R> v2[N]; Vec3<R> v3[N]; Vec4<R> v4[N];
	R ta[N], tb[N], tc[N], tr[N], ga[16], gb[16]; Vec3<R> tv[N];
	HermiteSplineSegment3<R> he; BezierSegment3<R> be;
};

struct Out
{
	enum { MAX = 160 };
	R v[MAX]; int n;
	Out() : n(0) { std::memset(v, 0, sizeof v); }
	bool operator==(const Out& b) const { return n == b.n && !std::memcmp(v, b.v, n * sizeof(R)); }
	Out& operator<<(R x) { v[n++] = x; return *this; }
	Out& operator<<(int x) { v[n++] = R(x); return *this; }
	Out& operator<<(bool x) { v[n++] = R(x); return *this; }
	Out& operator<<(Coord c) { v[n++] = R(int(c)); return *this; }
	Out& raw(const R* p, int m) { for (int i = 0; i < m; ++i) v[n++] = p[i]; return *this; }
	Out& operator<<(const Vec2<R>& x) { return raw(&x.x, 2); }
	Out& operator<<(const Vec3<R>& x) { return raw(&x.x, 3); }
	Out& operator<<(const Vec4<R>& x) { return raw(&x.x, 4); }
	Out& operator<<(const Quat<R>& x) { return raw(&x.x, 4); }
	Out& operator<<(const Mat2<R>& m) { return *this << m.x << m.y; }
	Out& operator<<(const Mat3<R>& m) { return *this << m.x << m.y << m.z; }
	Out& operator<<(const Mat34<R>& m) { return *this << m.rs << m.t; }
	Out& operator<<(const Mat4<R>& m) { return *this << m.x << m.y << m.z << m.t; }
	Out& operator<<(const AABB2<R>& b) { return *this << b.inf << b.sup; }
	Out& operator<<(const AABB3<R>& b) { return *this << b.inf << b.sup; }
	Out& operator<<(const CAABB2<R>& b) { return *this << b.center << b.extents; }
	Out& operator<<(const CAABB3<R>& b) { return *this << b.center << b.extents; }
	Out& operator<<(const Circle<R>& b) { return *this << b.center << b.radius; }
	Out& operator<<(const Sphere<R>& b) { return *this << b.center << b.radius; }
	Out& operator<<(const Plane<R>& b) { return *this << b.normal << b.d; }
	Out& operator<<(const Line2<R>& b) { return *this << b.start << b.end; }
	Out& operator<<(const Line3<R>& b) { return *this << b.start << b.end; }
	Out& operator<<(const Ray2<R>& b) { return *this << b.start << b.direction; }
	Out& operator<<(const Ray3<R>& b) { return *this << b.start << b.direction; }
	Out& operator<<(const Tri2<R>& b) { return *this << b.a << b.b << b.c; }
	Out& operator<<(const Frustum<R>& f) { for (auto& p : f.planes) *this << p; return *this; }
	Out& operator<<(const ColorRGB<R>& c) { return *this << c.r << c.g << c.b; }
	Out& operator<<(const ColorRGBA<R>& c) { return *this << c.r << c.g << c.b << c.a; }
	Out& operator<<(const ColorHSV<R>& c) { return *this << c.h << c.s << c.v; }
	Out& operator<<(const BezierSegment3<R>& b) { return *this << b.p1() << b.p2() << b.p3() << b.p4(); }
};

// built in a child process, so that the process the exploration starts from has never run library code
static void build(In& i, int v)
{
	static const R K[V][6] = { { R(.3), R(1.25), R(-2), R(.75), R(.5), R(2.5) }, { R(.6), R(-.5), R(3), R(.2), R(.25), R(1.5) }, { R(.15), R(2), R(.7), R(.9), R(.8), R(.4) } };
	std::memcpy(i.k, K[v], sizeof K[v]);
	const int J[V][3] = { { 2, 7, 5 }, { -3, 4, 200 }, { 5, 1, 31 } }; std::memcpy(i.n, J[v], sizeof J[v]);
	i.c = Coord(v % 3); i.d = Coord((v + 1) % 3); i.ax = Axis(2 * v % 6);
	const InterpolationMode M[V] = { InterpolationMode::CubicInOut, InterpolationMode::SinusoidalIn, InterpolationMode::ExponentialOut }; i.mode = M[v];
	const ResponseCurveType C[V] = { ResponseCurveType::Parabolic, ResponseCurveType::Cosine, ResponseCurveType::Exponential }; i.curve = C[v];
	const R x = R(v);
	i.a2 = Vec2<R>(1 + x, R(2.5) - 2 * x); i.b2 = Vec2<R>(R(-.5) - x, 3 + x * x); i.c2 = Vec2<R>(4 - x, R(-1.5) + x); i.d2 = Vec2<R>(R(.25) + x, R(-.75) - x);
	i.a3 = Vec3<R>(1 + x, R(2.5) - 2 * x, R(-1.25) + x * x); i.b3 = Vec3<R>(R(-.5) - x, 3 + x * x, R(.5)); i.c3 = Vec3<R>(4 - x, R(-1.5) + x, 2 - 3 * x);
	i.d3 = Vec3<R>(R(.25) + x, R(-.75) - x, 6 + x); i.u3 = Vec3<R>(2 - x, 1 + x, R(-2) + x).normalized();
	i.a4 = Vec4<R>(1 + x, -2 + 3 * x, R(.5) - x, R(2) + x); i.b4 = Vec4<R>(R(-3) + x, R(.25), 2 - x * x, R(-1) - x);
	i.q = Quat<R>(R(.5) + x, R(-.25), R(.75) - x, 1 + x); i.r = Quat<R>(R(-.5), 1 + x, R(.25), R(.5) - x * R(.25)); i.s = Quat<R>(R(.1), R(.2) + x, R(-.3), R(.9)); i.p = Quat<R>(R(.4), R(.3), R(.2) - x, R(.7));
	i.m2 = Mat2<R>(i.a2, i.b2); i.n2 = Mat2<R>(i.c2, i.d2); i.r2 = Mat2<R>::from(R(.4) + x); i.s2 = Mat2<R>::from(R(-1.1) - x / 2);
	i.m3 = Mat3<R>(i.a3, i.b3, i.c3); i.n3 = Mat3<R>(i.d3, i.a3 + i.u3, i.b3 * R(2)); i.r3 = Mat3<R>::from(i.q); i.s3 = Mat3<R>::from(i.r);
	i.m34 = Mat34<R>(i.m3, i.d3); i.n34 = Mat34<R>(i.n3, i.a3); i.r34 = Mat34<R>(i.r3, i.b3); i.s34 = Mat34<R>(i.s3, i.c3);
	i.m4 = Mat4<R>(i.a4, i.b4, Vec4<R>(R(.5), 1 + x, R(-.75), 2), Vec4<R>(3 - x, R(.25), 1, R(1.5))); i.n4 = Mat4<R>(i.n3, i.a3); i.r4 = Mat4<R>(i.r3, i.b3); i.s4 = Mat4<R>(i.s3, i.d3);
	i.e2 = AABB2<R>(Vec2<R>(-1 - x, -2), Vec2<R>(2, 3 + x)); i.f2 = AABB2<R>(Vec2<R>(R(-.5), -1 + x / 4), Vec2<R>(4 + x, R(2.5)));
	i.e3 = AABB3<R>(Vec3<R>(-1 - x, -2, -1), Vec3<R>(2, 3 + x, 4)); i.f3 = AABB3<R>(Vec3<R>(R(-.5), -1 + x / 4, 0), Vec3<R>(4 + x, R(2.5), 5 - x));
	i.g2 = CAABB2<R>(Vec2<R>(R(.5) + x, 1), Vec2<R>(2, 3 + x)); i.h2 = CAABB2<R>(Vec2<R>(R(1.5), 1 - x), Vec2<R>(1 + x, 1));
	i.g3 = CAABB3<R>(Vec3<R>(R(.5) + x, 1, -1), Vec3<R>(2, 3 + x, 2)); i.h3 = CAABB3<R>(Vec3<R>(R(1.5), 1 - x, 0), Vec3<R>(1 + x, 1, R(2.5)));
	i.ci = Circle<R>(Vec2<R>(1 + x, R(.5)), 2 + x); i.cj = Circle<R>(Vec2<R>(2, R(-.5) + x), R(1.5)); i.si = Sphere<R>(Vec3<R>(1 + x, R(.5), 0), 2 + x); i.sj = Sphere<R>(Vec3<R>(2, R(-.5) + x, R(.25)), R(1.5));
	i.pa = Plane<R>::from(i.u3, R(1.25) + x); i.pb = Plane<R>::from(i.d3.normalized(), R(-.5) + x); i.pc = Plane<R>::from(i.a3, i.b3, i.c3);
	i.l2 = Line2<R>::from(Vec2<R>(-3, R(-2.5) - x), Vec2<R>(4 + x, 3)); i.l3 = Line3<R>::from(Vec3<R>(-3, R(-2.5) - x, -4), Vec3<R>(4 + x, 3, 3));
	i.y2 = Ray2<R>::from(Vec2<R>(-3, R(-.5)), Vec2<R>(3, 1 + x).normalized()); i.y3 = Ray3<R>::from(Vec3<R>(-3, R(-.5), -1), Vec3<R>(3, 1 + x, 1).normalized());
	i.t2 = Tri2<R>::from(i.a2, i.b2, i.c2);
	const R w[8][3] = { { -1, -1, 1 }, { -1, 1, 1 }, { 1, 1, 1 }, { 1, -1, 1 }, { -5, -5, 5 }, { -5, 5, 5 }, { 5, 5, 5 }, { 5, -5, 5 } };
	for (int j = 0; j < 8; ++j) i.corners[j] = Vec3<R>(w[j][0] + x / 8, w[j][1], w[j][2] + x);
	i.fr.set(i.corners);
	i.rgb = ColorRGB<R>(R(.2) + x / 4, R(.6), R(.4) - x / 8); i.rgc = ColorRGB<R>(R(.9), R(.1) + x / 4, R(.3)); i.rga = ColorRGBA<R>(R(.7), R(.2) + x / 4, R(.4), R(.5) + x / 8); i.rgd = ColorRGBA<R>(R(.1) + x / 4, R(.2), R(.9), R(.25));
	i.hsv = ColorHSV<R>(40 + 100 * x, R(.5) + x / 8, R(.75)); i.hsw = ColorHSV<R>(200 - 50 * x, R(.25), R(.5) + x / 8);
	for (int j = 0; j < N; ++j)
	{
		i.v2[j] = Vec2<R>(R(j * (j - 3) % 11) + x, R(4 - j) * (1 + x)); i.v3[j] = Vec3<R>(R(j * (j - 3) % 11) + x, R(4 - j) * (1 + x), R(j % 3) - x); i.v4[j] = Vec4<R>(R(j) - x, R(j * j), 2 + x, R(1) + x * j);
		i.ta[j] = R(1) + x / 4; i.tb[j] = R(5 + j) + x; i.tc[j] = R(-1) + x / 2; i.tr[j] = R(j * j - 4) + x; i.tv[j] = Vec3<R>(R(j), R(3 - j) - x, R(j * j) + x);
	}
	for (int j = 0; j < 16; ++j) { i.ga[j] = R((j * 7 + 3 * v) % 11) - 4 + (j % 5 ? 0 : 9); i.gb[j] = R((j * 5 + v) % 7) - 2; }
	i.he.set(i.a3, i.b3, i.c3, i.d3); i.be.set(i.a3, i.b3, i.c3, i.d3);
}

// questions with a yes or no answer are asked about points all around the object, those inside first or last, so that whatever one
// call leaves behind meets an answer it can change; the objects of different variants lie far apart
static const R AROUND[14][3] = { { 1, 0, 0 }, { -1, 0, 0 }, { 0, 1, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0, 0, -1 }, { R(.5), R(.5), R(.5) }, { R(.5), R(.5), R(-.5) }, { R(.5), R(-.5), R(.5) }, { R(.5), R(-.5), R(-.5) }, { R(-.5), R(.5), R(.5) }, { R(-.5), R(.5), R(-.5) }, { R(-.5), R(-.5), R(.5) }, { R(-.5), R(-.5), R(-.5) } };
static Vec3<R> around(const Vec3<R>& c, int j, R k) { Vec3<R> p; p.x = c.x + AROUND[j][0] * k; p.y = c.y + AROUND[j][1] * k; p.z = c.z + AROUND[j][2] * k; return p; }
static Vec2<R> around(const Vec2<R>& c, int j, R k) { Vec2<R> p; p.x = c.x + AROUND[j][0] * k; p.y = c.y + AROUND[j][1] * k; return p; }
template <class P, class F> void probes(Out& o, const P& c, bool inFirst, F f)
{
	for (int k = 0; k < 2; ++k) { R size = (k == 0) == inFirst ? R(.4) : R(9); for (int j = 0; j < 14; ++j) { int m = (inFirst ? j : 13 - j); int b = f(around(c, m, size)) ? 1 : 0; o << b; } }
}
static Vec3<R> far3(const In& i) { Vec3<R> c; c.x = i.a3.x * 20; c.y = i.a3.y * 20; c.z = i.a3.z * 20; return c; }
static Vec2<R> far2(const In& i) { Vec2<R> c; c.x = i.a2.x * 20; c.y = i.a2.y * 20; return c; }
static Frustum<R> farFrustum(const In& i)
{
	const Vec3<R> c = far3(i); Vec3<R> w[8]; static const int X[8] = { 1, 1, -1, -1, 1, 1, -1, -1 }, Y[8] = { 1, -1, -1, 1, 1, -1, -1, 1 };
	for (int j = 0; j < 8; ++j) { R k = j < 4 ? R(1) : R(2); w[j].x = c.x + X[j] * k; w[j].y = c.y + Y[j] * k; w[j].z = c.z + (j < 4 ? R(1.5) : R(-1.5)); }
	return Frustum<R>(w);
}

struct Op { const char* cls; const char* name; void (*f)(const In&, Out&); };
static const Op OPS[] = {
#define OP(cls, name, ...) { cls, name, [](const In& i, Out& o) { __VA_ARGS__; } },
#include "c29_ops.h"
#undef OP
};
enum { NOPS = sizeof OPS / sizeof *OPS };

// ---------------------------------------------------------------------------------------------
struct Fail { int a, va, b, vb, k, kind; };
struct Shared
{
	In in[V];
	char pad[4096];
	Out ref[NOPS][V];
	unsigned steps[NOPS][V], hidden[NOPS][V], longest;
	std::atomic<unsigned long long> states, transitions, schedules; std::atomic<int> nfail, broken; Fail fail[256];
};
static Shared* S;
extern "C" char __executable_start, etext, __data_start, _end;
enum { HISTORY = 1, DENSE, COLD, DENSE_OTHER, COLD_OTHER, CRASH, ALONE, RELATED };

static void fail(int a, int va, int b, int vb, int k, int kind)
{
	int n = S->nfail++;
	if (n < 256) S->fail[n] = Fail{ a, va, b, vb, k, kind };
}

// the other thread: runs a list of calls when told to, to completion
struct Call { int op, v; };
struct Other
{
	const Call* list; int n; int kind; int a, va, k; // what for
	std::atomic<int> go, done; int tid;
};
static Other* T; // per process
static void runList()
{
	for (int j = 0; j < T->n; ++j)
	{
		const Call& c = T->list[j]; Out o; OPS[c.op].f(S->in[c.v], o);
		if (!(o == S->ref[c.op][c.v])) fail(c.op, c.v, T->a, T->va, T->k, T->kind);
	}
}
static inline void pause_(int& n) { if (++n > 2000) sched_yield(); else __builtin_ia32_pause(); }
static void* otherThread(void*)
{
	int seen = 0; T->tid = int(syscall(SYS_gettid));
	for (;;)
	{
		int n = 0;
		while (T->go.load(std::memory_order_acquire) == seen) pause_(n);
		seen = T->go.load(); if (seen < 0) return nullptr;
		runList();
		T->done.store(seen, std::memory_order_release);
	}
}
static pthread_t start() { T->go = 0; T->done = 0; pthread_t t; if (pthread_create(&t, nullptr, otherThread, nullptr)) { S->broken = 1; _exit(3); } return t; }
// the state of the other thread as the kernel sees it: 'S' when it sleeps in a lock
static char otherState()
{
	char path[64], buf[256]; std::snprintf(path, sizeof path, "/proc/self/task/%d/stat", T->tid);
	int f = open(path, O_RDONLY); if (f < 0) return '?';
	int n = int(read(f, buf, sizeof buf - 1)); close(f); if (n <= 0) return '?';
	buf[n] = 0; char* q = strrchr(buf, ')'); return q && q[1] ? q[2] : '?';
}
// let the other thread run its list; if it is blocked by what the paused call holds (a lock), go on and let it finish later
static void switchToOther()
{
	int want = ++T->go, n = 0, asleep = 0; timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	while (T->done.load(std::memory_order_acquire) != want)
	{
		pause_(n);
		if (n > 2100 && !(n & 63))
		{
			asleep = otherState() == 'S' ? asleep + 1 : 0; if (asleep >= 3) return;
			clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9 > .5) return;
		}
	}
}
static bool idle() { return T->done.load() == T->go.load(); }
static void finishOther() { int n = 0; while (!idle()) pause_(n); }

// single stepping: the trap flag raises SIGTRAP after every instruction of the call under test
struct Step { int mode; unsigned count, every, until; bool child; volatile bool on; Call one; unsigned forks; };
static Step* P;
static void trapOn() { asm volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static void trapOff() { asm volatile("pushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static void onTrap(int, siginfo_t*, void* uc_)
{
	if (!P->on) return;
	ucontext_t* uc = (ucontext_t*)uc_;
	char* ip = (char*)uc->uc_mcontext.gregs[REG_RIP];
	if (ip < &__executable_start || ip >= &etext) return; // inside the C library: not a switch point
	unsigned k = ++P->count;
	if (P->mode == 0 || k % P->every || k > P->until) return;
	if (P->mode == DENSE) { if (idle()) { T->k = int(k); ++P->forks; switchToOther(); } return; }
	// COLD: a child takes the switch here and finishes the call; the parent goes on to the next instruction
	++P->forks;
	pid_t c = fork();
	if (c == 0)
	{
		P->child = true; P->on = false; uc->uc_mcontext.gregs[REG_EFL] &= ~0x100;
		alarm(60); T->k = int(k);
		start(); switchToOther();
		P->one.op = int(k);
		return;
	}
	int st; if (c < 0 || waitpid(c, &st, 0) != c) { S->broken = 1; _exit(3); }
	if (!WIFEXITED(st) || WEXITSTATUS(st)) fail(T->a, T->va, T->list[0].op, T->list[0].v, int(k), CRASH);
}
static void __attribute__((noinline)) call(int op, int v, Out& o) { OPS[op].f(S->in[v], o); }
static void stepped(int op, int v, Out& o)
{
	P->on = true; trapOn();
	call(op, v, o);
	trapOff(); P->on = false;
}

// writes to memory that other threads can see: the pages of the executable's variables and of the operands are read-only meanwhile
static char *lo, *hi; 
static void onWrite(int, siginfo_t* si, void*)
{
	char* p = (char*)si->si_addr;
	bool own = (p >= lo && p < hi), in = (p >= (char*)S && p < S->pad + 4096);
	if (!own && !in) { signal(SIGSEGV, SIG_DFL); return; }
	++P->forks;
	char* page = (char*)((uintptr_t)p & ~uintptr_t(4095));
	mprotect(page, 4096, PROT_READ | PROT_WRITE);
}
static int inChild(const std::function<void()>& f, int limit = 120)
{
	fflush(nullptr);
	pid_t c = fork();
	if (c == 0) { for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM }) signal(s, SIG_DFL); alarm(limit); f(); _exit(0); }
	int st; if (c < 0 || waitpid(c, &st, 0) != c) MC_EXIT(2);
	return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st);
}
static void* shared(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) MC_EXIT(2); return p; }
static void* priv(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) MC_EXIT(2); return p; }

// all workers take their share of the calls; each runs in its own process
static void workers(const std::function<void(int op, int v)>& f)
{
	enum { W = 4 }; pid_t c[W];
	for (int w = 0; w < W; ++w)
	{
		fflush(nullptr); c[w] = fork();
		if (c[w] == 0)
		{
			for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM }) signal(s, SIG_DFL);
			for (int x = w; x < NOPS * V; x += W)
			{
				const int op = x / V, v = x % V; if (S->nfail > 40) break; // the verdict is clear
				int rc = inChild([&] { f(op, v); }, 300);
				if (rc) fail(op, v, op, v, rc, CRASH);
			}
			_exit(0);
		}
	}
	for (int w = 0; w < W; ++w) { int st; waitpid(c[w], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) MC_EXIT(2); }
}
static std::string nm(int op, int v) { return std::string(OPS[op].cls) + " " + OPS[op].name + " (arguments " + char('A' + v) + ")"; }
static void collect()
{
	if (S->broken) { std::fprintf(stderr, "could not create a process or thread\n"); MC_EXIT(2); }
	const char* what[] = { "", "after another call", "with the other thread running calls at every instruction", "with one switch to the other thread in a fresh process",
		"in the other thread, at every instruction of a paused call", "in the other thread, during a paused call in a fresh process", "crashed or did not end", "differs from run to run", "after the same call with one number of the operands changed" };
	for (int n = 0; n < S->nfail && n < 256; ++n)
	{
		const Fail& f = S->fail[n];
		mc::report(std::string(OPS[f.a].cls) + " " + OPS[f.a].name, nm(f.a, f.va) + ": result differs from running alone, " + what[f.kind] + "; other call " + nm(f.b, f.vb) + "; position " + std::to_string(f.k));
	}
	S->nfail = 0;
	mc::state(S->states.exchange(0)); mc::step(S->transitions.exchange(0)); mc::trace(S->schedules.exchange(0));
}

// the operands of variant v with one number (or one of the enumerators and counts) changed; false: nothing to change there
enum { WORDS = sizeof(In) / sizeof(R), KINDS = 4, FIELDS = 8, CHANGES = WORDS * KINDS + FIELDS * (V - 1) };
static bool change(In& i, int v, int k)
{
	std::memcpy((void*)&i, (const void*)&S->in[v], sizeof(In));
	if (k >= WORDS * KINDS)
	{
		k -= WORDS * KINDS; const In& j = S->in[(v + 1 + k / FIELDS) % V]; In b; std::memcpy((void*)&b, (const void*)&i, sizeof(In));
		switch (k % FIELDS) { case 0: i.n[0] = j.n[0]; break; case 1: i.n[1] = j.n[1]; break; case 2: i.n[2] = j.n[2]; break; case 3: i.c = j.c; break; case 4: i.d = j.d; break; case 5: i.ax = j.ax; break; case 6: i.mode = j.mode; break; case 7: i.curve = j.curve; }
		return std::memcmp((void*)&b, (void*)&i, sizeof(In)) != 0;
	}
	R x; char* at = (char*)&i + size_t(k / KINDS) * sizeof(R); std::memcpy(&x, at, sizeof x);
	if (!(std::fabs(x) > R(1e-30) && std::fabs(x) < R(1e6))) return false; // 0, a flag word or padding
	const R y = k % KINDS == 0 ? -x : k % KINDS == 1 ? x * R(.75) + R(.125) : x * (1 + std::ldexp(R(1), k % KINDS == 2 ? -13 : -20));
	std::memcpy(at, &y, sizeof y); return y != x;
}
// runs the changes k of a call one by one in a child process; a change that makes the operands invalid for the call (it crashes) is left out
template <class F> static void eachChange(int op, int v, F f)
{
	struct Progress { int next, inside; }; Progress* g = (Progress*)shared(sizeof(Progress)); g->next = 0; g->inside = 0;
	for (int tries = 0; tries < 64 && g->next < CHANGES; ++tries)
	{
		int rc = inChild([&] {
			int null = open("/dev/null", O_WRONLY); dup2(null, 2);
			static In i; unsigned long long n = 0;
			for (; g->next < CHANGES; ++g->next) if (change(i, v, g->next)) { ++n; if (!f(i, g->next, g->inside)) break; }
			S->states += n; S->transitions += 2 * n; S->schedules += n;
			g->next = CHANGES;
		}, 60);
		if (rc && !g->inside) { fail(op, v, op, v, g->next, CRASH); break; }
		if (rc) { ++g->next; g->inside = 0; }
	}
	munmap(g, sizeof(Progress));
}
// a call after the call with changed operands, and that one after a call with quite different operands
static void related(int op, int v)
{
	eachChange(op, v, [&](In& i, int k, int& inside) {
		static Out o, p;
		p.n = 0; call(op, (v + 1) % V, p);
		inside = 1; o.n = 0; OPS[op].f(i, o); inside = 0;
		p.n = 0; call(op, v, p);
		if (!(p == S->ref[op][v])) { fail(op, v, op, v, k, RELATED); return false; }
		return true;
	});
}
// both orders of two calls whose operands differ in one number, each pair with numbers of its own (whatever earlier calls left behind
// does not match them): both calls have the same results in both orders
static uint64_t hashOf(const Out& o)
{
	uint64_t h = 1469598103934665603ull; const unsigned char* p = (const unsigned char*)o.v;
	for (size_t j = 0; j < o.n * sizeof(R); ++j) h = (h ^ p[j]) * 1099511628211ull;
	return h | 1;
}
static void ownNumbers(In& i, int k)
{
	const R m = 1 + R(int((unsigned(k) * 2654435769u) >> 20) - 2048) / R(8192);
	for (int w = 0; w < WORDS; ++w) { R x; char* at = (char*)&i + w * sizeof(R); std::memcpy(&x, at, sizeof x); if (std::fabs(x) > R(1e-30) && std::fabs(x) < R(1e6)) { x *= m; std::memcpy(at, &x, sizeof x); } }
}
static void bothOrders(int op, int v)
{
	typedef uint64_t Pair[2]; Pair* h[4]; for (auto& x : h) x = (Pair*)shared(sizeof(Pair) * CHANGES); // hashes of the results: plain and changed operands
	static In base; static Out o;
	auto run = [&](In& i, int k, int which, Pair* r) { o.n = 0; OPS[op].f(which ? i : base, o); r[k][which] = hashOf(o); };
	auto prepare = [&](In& i, int k) { std::memcpy((void*)&base, (const void*)&S->in[v], sizeof(In)); ownNumbers(base, k); ownNumbers(i, k); };
	for (int order = 0; order < 2; ++order)
		eachChange(op, v, [&](In& i, int k, int& inside) { prepare(i, k); inside = 1; run(i, k, order, h[order]); run(i, k, !order, h[order]); inside = 0; return true; });
	for (int k = 0; k < CHANGES; ++k)
	{
		if (!h[0][k][0] || !h[0][k][1] || !h[1][k][0] || !h[1][k][1] || (h[0][k][0] == h[1][k][0] && h[0][k][1] == h[1][k][1])) continue;
		bool sure = true; // each call alone in a fresh process, twice
		for (int x = 2; x < 4; ++x) for (int which = 0; which < 2; ++which) sure = sure && !inChild([&] { static In i; change(i, v, k); prepare(i, k); run(i, k, which, h[x]); }, 60);
		sure = sure && h[2][k][0] == h[3][k][0] && h[2][k][1] == h[3][k][1];
		if (sure) { fail(op, v, op, v, k, RELATED); break; }
	}
	for (auto& x : h) munmap(x, sizeof(Pair) * CHANGES);
}

void explore()
{
	S = (Shared*)shared(sizeof(Shared)); T = (Other*)priv(sizeof(Other)); P = (Step*)priv(sizeof(Step));
	const bool deep = mc::thorough(); const size_t inBytes = (sizeof(In) * V + 4095) & ~size_t(4095);

	mc::section("alone: every call in a fresh process, twice");
	if (inChild([] { for (int v = 0; v < V; ++v) { new (&S->in[v]) In; build(S->in[v], v); } })) { mc::report("setup", "building the operands crashed"); return; }
	struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, nullptr);
	lo = (char*)(((uintptr_t)&__data_start) & ~uintptr_t(4095)); hi = (char*)(((uintptr_t)&_end + 4095) & ~uintptr_t(4095));

	workers([&](int op, int v) {
		call(op, v, S->ref[op][v]); S->states++;
		if (S->ref[op][v].n > Out::MAX) _exit(4);
	});
	// count the instructions and the writes to shared variables
	workers([&](int op, int v) {
		Out* o = (Out*)priv(sizeof(Out)); new (o) Out;
		P->mode = 0; P->every = 1; stepped(op, v, *o); S->steps[op][v] = P->count; S->transitions++;
		if (!(*o == S->ref[op][v])) fail(op, v, op, v, 0, ALONE);
	});
	workers([&](int op, int v) {
		Out* o = (Out*)priv(sizeof(Out)); new (o) Out;
		struct sigaction sw; std::memset(&sw, 0, sizeof sw); sw.sa_sigaction = onWrite; sw.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &sw, nullptr);
		P->forks = 0; const auto f = OPS[op].f; const In &in = S->in[v], &in2 = S->in[(v + 1) % V]; void* other = priv(sizeof(Out)); new (other) Out; unsigned* res = &S->hidden[op][v];
		mprotect(S, inBytes, PROT_READ); mprotect(lo, hi - lo, PROT_READ);
		f(in, *o);
		mprotect(S, inBytes, PROT_READ); mprotect(lo, hi - lo, PROT_READ);
		{ Out* x = (Out*)other; f(in2, *x); }
		mprotect(S, inBytes, PROT_READ); mprotect(lo, hi - lo, PROT_READ);
		{ Out* x = (Out*)other; x->n = 0; f(in, *x); }
		mprotect(lo, hi - lo, PROT_READ | PROT_WRITE); mprotect(S, inBytes, PROT_READ | PROT_WRITE);
		*res = P->forks; S->transitions++;
		if (!(*o == S->ref[op][v])) fail(op, v, op, v, 0, ALONE);
	});
	collect();
	unsigned long long total = 0, hidden = 0; for (int a = 0; a < NOPS; ++a) for (int v = 0; v < V; ++v) { total += S->steps[a][v]; if (S->hidden[a][v]) ++hidden; if (S->steps[a][v] > S->longest) S->longest = S->steps[a][v]; }
	if (!total) { std::fprintf(stderr, "single stepping does not work here\n"); MC_EXIT(2); }
	if (getenv("C29_STAT")) fprintf(stderr, "ops %d instructions %llu longest %u writers %llu\n", NOPS, total, S->longest, hidden);
	mc::ctx().samples.push_back(std::to_string(NOPS) + " operations x 3 arguments, " + std::to_string(total) + " instructions; calls that write variables other threads see: " + std::to_string(hidden));

	// every history of two calls
	mc::section("histories: every ordered pair of calls");
	workers([&](int op, int v) {
		Out first; call(op, v, first);
		for (int b = 0; b < NOPS; ++b) for (int w = 0; w < V; ++w)
		{
			Out o; call(b, w, o); if (!(o == S->ref[b][w])) fail(b, w, op, v, 1, HISTORY);
			Out p; call(op, v, p); if (!(p == S->ref[op][v])) fail(op, v, b, w, 2, HISTORY);
		}
		S->states += NOPS * V; S->transitions += 2 * NOPS * V; S->schedules += NOPS * V;
	});
	collect();

	// a call follows the same call with operands that differ in one number
	mc::section("histories: the same call with one number changed");
	workers(related);
	collect();
	workers(bothOrders);
	collect();

	// the other thread runs every call of the same class (thorough: of the library) at every instruction
	mc::section("schedules: other calls at every instruction");
	workers([&](int op, int v) {
		std::vector<Call> l;
		{
			for (int b = 0; b < NOPS; ++b) for (int w = 0; w < V; ++w)
				if (b != op && (deep || !std::strcmp(OPS[b].cls, OPS[op].cls))) l.push_back(Call{ b, (w + v + 1) % V });
			for (int w = 0; w < V; ++w) l.push_back(Call{ op, (v + w) % V }); // last: the same operation on the other arguments
			T->list = l.data(); T->n = int(l.size()); T->a = op; T->va = v; T->kind = DENSE_OTHER;
			Out* o = (Out*)priv(sizeof(Out)); new (o) Out;
			start(); P->mode = DENSE; P->count = 0; P->until = ~0u; P->forks = 0;
			const unsigned n = S->steps[op][v], cap = deep ? 20000 : 2500; P->every = n > cap ? (n + cap - 1) / cap : 1;
			stepped(op, v, *o); finishOther();
			if (!(*o == S->ref[op][v])) fail(op, v, op, (v + 1) % V, 0, DENSE);
			S->states += P->forks; S->transitions += P->forks * l.size() + 1; S->schedules++;
		}
	});
	collect();

	// one switch at every instruction, each in a process where the library has not run before, or only the calls of a prefix;
	// calls that write nothing another thread can see commute with every other call, so the quick tier explores fewer of their schedules
	mc::section("schedules: one switch, fresh process");
	std::vector<Call> writers;
	for (int b = 0; b < NOPS; ++b) for (int w = 0; w < V; ++w) if (S->hidden[b][w]) writers.push_back(Call{ b, w });
	for (int prefix = 0; prefix < 3; ++prefix) for (int second = 0; second < 3; ++second)
		workers([&](int op, int v) {
			const bool writer = S->hidden[op][v] != 0;
			if (!writer && (second == 2 || (!deep && (prefix || second || v == 2)))) return;
			std::vector<Call> l;
			if (second == 2) { for (auto& c : writers) if (c.op != op) l.push_back(Call{ c.op, (c.v + 1) % V }); if (l.empty()) return; }
			else l.push_back(Call{ op, (v + 1 - second) % V });
			T->list = l.data(); T->n = int(l.size()); T->a = op; T->va = v; T->kind = COLD_OTHER;
			Out* o = (Out*)priv(sizeof(Out)); new (o) Out;
			if (prefix) { Out before; call(op, (v + 1 - (prefix - 1)) % V, before); } // 1: the other arguments, 2: the same
			P->mode = COLD; P->count = 0; P->until = ~0u; P->forks = 0; P->child = false;
			const unsigned n = S->steps[op][v], cap = deep ? 5000 : writer ? 1000 : 150; P->every = n > cap ? (n + cap - 1) / cap : 1;
			stepped(op, v, *o);
			if (P->child) { finishOther(); if (!(*o == S->ref[op][v])) fail(op, v, l[0].op, l[0].v, P->one.op, COLD); _exit(0); }
			if (!(*o == S->ref[op][v])) fail(op, v, op, v, 0, ALONE);
			S->states += P->forks; S->transitions += 2 * P->forks; S->schedules += P->forks;
		});
	collect();
}
