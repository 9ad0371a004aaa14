// Oracle matrices (up to 4x4, entries with error magnitudes) and uniform access to the library's matrix classes.
#pragma once
#include "vecs.h"

struct OM
{
	int n; E a[4][4]; // a[row][col]
	OM(int n_ = 4) : n(n_) {}
	static OM identity(int n) { OM r(n); for (int i = 0; i < n; ++i) r.a[i][i] = E(1); return r; }
};
inline OM operator*(const OM& p, const OM& q)
{
	OM r(p.n);
	for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) { E s; for (int k = 0; k < p.n; ++k) s += p.a[i][k] * q.a[k][j]; r.a[i][j] = s; }
	return r;
}
inline OM operator*(const OM& p, E k) { OM r(p.n); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) r.a[i][j] = p.a[i][j] * k; return r; }
inline OM operator/(const OM& p, E k) { OM r(p.n); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) r.a[i][j] = p.a[i][j] / k; return r; }
inline OM operator-(const OM& p) { OM r(p.n); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) r.a[i][j] = -p.a[i][j]; return r; }
inline OM transposeO(const OM& p) { OM r(p.n); for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) r.a[i][j] = p.a[j][i]; return r; }
inline OM minorO(const OM& p, int r0, int c0)
{
	OM r(p.n - 1);
	for (int i = 0, ii = 0; i < p.n; ++i) { if (i == r0) continue; for (int j = 0, jj = 0; j < p.n; ++j) { if (j == c0) continue; r.a[ii][jj++] = p.a[i][j]; } ++ii; }
	return r;
}
inline E detO(const OM& p)
{
	if (p.n == 1) return p.a[0][0];
	if (p.n == 2) return p.a[0][0] * p.a[1][1] - p.a[0][1] * p.a[1][0];
	E s;
	for (int j = 0; j < p.n; ++j) { E t = p.a[0][j] * detO(minorO(p, 0, j)); if (j & 1) s = s - t; else s = s + t; }
	return s;
}
inline OM cofactorsO(const OM& p)
{
	OM r(p.n);
	for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) { E d = detO(minorO(p, i, j)); r.a[i][j] = ((i + j) & 1) ? -d : d; }
	return r;
}
inline OM adjointO(const OM& p) { return transposeO(cofactorsO(p)); }
inline E traceO(const OM& p) { E s; for (int i = 0; i < p.n; ++i) s += p.a[i][i]; return s; }
// same error magnitude for every entry (for operations that mix all of them)
inline OM widenO(OM p, LD at_least = 0)
{
	LD m = at_least;
	for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) m = std::max(m, p.a[i][j].m);
	for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) p.a[i][j].m = m;
	return p;
}
inline OM snapO(OM p) { for (int i = 0; i < p.n; ++i) for (int j = 0; j < p.n; ++j) p.a[i][j] = E(fabsl(p.a[i][j].v) < 1e-17L ? 0.0L : p.a[i][j].v); return p; }
template <int N> EV<N> operator*(const OM& p, const EV<N>& v) { EV<N> r; for (int i = 0; i < N; ++i) { E s; for (int k = 0; k < N; ++k) s += p.a[i][k] * v[k]; r[i] = s; } return r; }
template <int N> EV<N> operator*(const EV<N>& v, const OM& p) { EV<N> r; for (int j = 0; j < N; ++j) { E s; for (int k = 0; k < N; ++k) s += v[k] * p.a[k][j]; r[j] = s; } return r; }
inline std::ostream& operator<<(std::ostream& s, const OM& m)
{
	s << "[";
	for (int j = 0; j < m.n; ++j) { s << "("; for (int i = 0; i < m.n; ++i) s << (i ? "," : "") << (double)m.a[i][j].v; s << ")"; }
	return s << "]";
}

// rotation by ang about a coordinate axis / unit axis, n x n
inline OM rotO(int n, int ax, LD ang)
{
	OM r = OM::identity(n);
	int i = (ax + 1) % 3, j = (ax + 2) % 3;
	LD s = sinl(ang), c = cosl(ang);
	r.a[i][i] = E(c, 1.0L); r.a[j][j] = E(c, 1.0L); r.a[i][j] = E(-s, 1.0L); r.a[j][i] = E(s, 1.0L);
	return r;
}
inline OM rotAxisO(int n, LD x, LD y, LD z, LD ang)
{
	OM r = OM::identity(n);
	LD l = sqrtl(x * x + y * y + z * z);
	if (l == 0) return r;
	x /= l; y /= l; z /= l;
	LD s = sinl(ang), c = cosl(ang), u[3] = { x, y, z };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = E(u[i] * u[j] * (1 - c) + (i == j ? c : 0), 1.0L);
	r.a[0][1].v -= z * s; r.a[0][2].v += y * s; r.a[1][0].v += z * s; r.a[1][2].v -= x * s; r.a[2][0].v -= y * s; r.a[2][1].v += x * s;
	return r;
}
inline OM rot2O(LD ang)
{
	OM r(2); LD s = sinl(ang), c = cosl(ang);
	r.a[0][0] = r.a[1][1] = E(c, 1.0L); r.a[0][1] = E(-s, 1.0L); r.a[1][0] = E(s, 1.0L);
	return r;
}
template <class Q> OM quatO(int n, const Q& q)
{
	OM r = OM::identity(n);
	LD x = q.x, y = q.y, z = q.z, w = q.w;
	LD a[3][3] = { { 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y) },
	               { 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x) },
	               { 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y) } };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r.a[i][j] = E(a[i][j], 1.0L + 2 * (x * x + y * y + z * z + w * w));
	return r;
}
inline OM scaleO(int n, LD x, LD y, LD z) { OM r = OM::identity(n); r.a[0][0] = E(x); r.a[1][1] = E(y); if (n > 2) r.a[2][2] = E(z); return r; }
inline OM transO(LD x, LD y, LD z) { OM r = OM::identity(4); r.a[0][3] = E(x); r.a[1][3] = E(y); r.a[2][3] = E(z); return r; }

template <class M> struct MT;
template <class R> struct MT<Mat2<R>>
{
	typedef R Real; typedef Vec2<R> V; enum { n = 2, rows = 2 };
	static const char* name() { return "Mat2"; }
	static R get(const Mat2<R>& m, int r, int c) { return comp(c == 0 ? m.x : m.y, r); }
	static Mat2<R> make(const OM& o) { return Mat2<R>(Vec2<R>((R)o.a[0][0].v, (R)o.a[1][0].v), Vec2<R>((R)o.a[0][1].v, (R)o.a[1][1].v)); }
};
template <class R> struct MT<Mat3<R>>
{
	typedef R Real; typedef Vec3<R> V; enum { n = 3, rows = 3 };
	static const char* name() { return "Mat3"; }
	static R get(const Mat3<R>& m, int r, int c) { return comp(c == 0 ? m.x : c == 1 ? m.y : m.z, r); }
	static Vec3<R> col(const OM& o, int c) { return Vec3<R>((R)o.a[0][c].v, (R)o.a[1][c].v, (R)o.a[2][c].v); }
	static Mat3<R> make(const OM& o) { return Mat3<R>(col(o, 0), col(o, 1), col(o, 2)); }
};
template <class R> struct MT<Mat34<R>>
{
	typedef R Real; typedef Vec3<R> V; enum { n = 4, rows = 3 };
	static const char* name() { return "Mat34"; }
	static R get(const Mat34<R>& m, int r, int c) { if (r == 3) return R(c == 3); return c == 3 ? comp(m.t, r) : MT<Mat3<R>>::get(m.rs, r, c); }
	static Mat34<R> make(const OM& o) { typedef MT<Mat3<R>> T; return Mat34<R>(T::col(o, 0), T::col(o, 1), T::col(o, 2), T::col(o, 3)); }
};
template <class R> struct MT<Mat4<R>>
{
	typedef R Real; typedef Vec4<R> V; enum { n = 4, rows = 4 };
	static const char* name() { return "Mat4"; }
	static R get(const Mat4<R>& m, int r, int c) { return comp(c == 0 ? m.x : c == 1 ? m.y : c == 2 ? m.z : m.t, r); }
	static Vec4<R> col(const OM& o, int c) { return Vec4<R>((R)o.a[0][c].v, (R)o.a[1][c].v, (R)o.a[2][c].v, (R)o.a[3][c].v); }
	static Mat4<R> make(const OM& o) { return Mat4<R>(col(o, 0), col(o, 1), col(o, 2), col(o, 3)); }
};

template <class M> OM om(const M& m)
{
	OM r(MT<M>::n);
	for (int i = 0; i < r.n; ++i) for (int j = 0; j < r.n; ++j) r.a[i][j] = E(MT<M>::get(m, i, j));
	return r;
}
template <class M> bool nearm(const M& got, const OM& want, LD k = 32)
{
	for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j) if (!near(MT<M>::get(got, i, j), want.a[i][j], k)) return false;
	return true;
}
template <class M> LD maxdiff(const M& got, const OM& want)
{
	LD d = 0;
	for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j) { LD x = fabsl((LD)MT<M>::get(got, i, j) - want.a[i][j].v); if (!(x <= d)) d = x == x ? x : 1e30L; }
	return d;
}
template <class M> bool samem(const M& a, const M& b)
{
	for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j) if (!(MT<M>::get(a, i, j) == MT<M>::get(b, i, j))) return false;
	return true;
}

// Squared-error measures of a matrix, the way the cached properties are documented (tolerances apply to these).
inline LD normalErrO(const OM& p, int dim, int cols)
{
	LD s = 0;
	for (int j = 0; j < cols; ++j) { LD l = -1; for (int i = 0; i < dim; ++i) l += p.a[i][j].v * p.a[i][j].v; s += l * l; }
	return s;
}
inline LD orthoErrO(const OM& p, int dim, int cols)
{
	LD s = 0;
	for (int j = 0; j < cols; ++j) for (int k = j + 1; k < cols; ++k) { LD d = 0; for (int i = 0; i < dim; ++i) d += p.a[i][j].v * p.a[i][k].v; s += d * d; }
	return s;
}
inline LD identErrO(const OM& p, int dim)
{
	LD s = 0;
	for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { LD d = p.a[i][j].v - (i == j); s += d * d; }
	return s;
}

// A catalogue of n x n linear parts: exact special matrices, rotations, scalings, shears, singular and generic ones.
// Every entry is either exactly the identity or far outside the identity tolerance.
inline std::vector<OM> catalogue(int n)
{
	std::vector<OM> c;
	auto fill = [&](std::initializer_list<double> rows, LD k = 1) {
		OM m(n); auto it = rows.begin();
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double v = *it++; if (i < n && j < n) m.a[i][j] = E((LD)v * k); }
		c.push_back(m);
	};
	fill({ 1,0,0, 0,1,0, 0,0,1 });
	fill({ 0,0,0, 0,0,0, 0,0,0 });
	fill({ 1,0,0, 0,1,0, 0,0,1 }, -1);
	fill({ 2,0,0, 0,2,0, 0,0,2 });
	fill({ 2,0,0, 0,3,0, 0,0,5 });
	fill({ 1,0,0, 0,-1,0, 0,0,1 });
	fill({ 1,0,0, 0,1,0, 0,0,3 });
	fill({ 0,1,0, 1,0,0, 0,0,1 });
	fill({ 0,-1,0, 1,0,0, 0,0,1 });
	fill({ 0,0,1, 1,0,0, 0,1,0 });
	fill({ 1,0,0, 0,0,-1, 0,1,0 });
	fill({ 2,-1,3, 0,4,1, -2,5,1 });
	fill({ 1,2,3, 4,5,6, 7,8,10 });
	fill({ 0.1,-3.7,2.25, 1.3,0.7,-0.9, 5.5,0.01,-1.1 });
	fill({ 1,2,3, 2,4,6, 3,6,9 });            // rank 1
	fill({ 1,2,3, 4,5,6, 5,7,9 });            // rank 2 for n = 3
	fill({ 1,5,0, 0,1,0, 0,0,1 });            // shear
	fill({ 1,0,0, 0.5,1,0, -2,0,1 });
	fill({ 1,0.6,0, 0,0.8,0.6, 0,0,0.8 });    // unit columns, not orthogonal
	fill({ 0,2,0, -3,0,0, 0,0,0.5 });         // orthogonal columns, not unit
	fill({ 3,1,-2, -1,0.5,4, 2,2,1 }, 1000);
	fill({ 3,1,-2, -1,0.5,4, 2,2,1 }, 0.001);
	const LD PI = acosl(-1.0L);
	LD angles[] = { PI / 6, PI / 2, -2 * PI / 3, PI, 1.1L, -0.4L };
	for (LD a : angles)
	{
		if (n == 2) { c.push_back(rot2O(a)); c.push_back(rot2O(a) * E(2)); continue; }
		for (int ax = 0; ax < 3; ++ax) c.push_back(rotO(3, ax, a));
		c.push_back(rotAxisO(3, 1, 2, 3, a));
		c.push_back(rotAxisO(3, -2, 1, 0.5L, a) * E(1.5L));
	}
	for (auto& m : c) m = snapO(m);
	return c;
}
// affine (4x4) catalogue: linear parts with translations; full = also projective bottom rows
inline std::vector<OM> catalogue4(bool projective)
{
	std::vector<OM> c;
	std::vector<OM> l = catalogue(3);
	LD t[][3] = { { 0, 0, 0 }, { 1, -2, 3 }, { 0.25L, 100, -0.3L }, { 0, 0, 7 } };
	for (size_t i = 0; i < l.size(); ++i)
		for (int k = 0; k < 4; ++k)
		{
			if (k && (i % 3 != (size_t)k % 3) && i > 3) continue; // every linear part with two translations at least
			OM m = OM::identity(4);
			for (int a = 0; a < 3; ++a) { for (int b = 0; b < 3; ++b) m.a[a][b] = l[i].a[a][b]; m.a[a][3] = E(t[k][a]); }
			c.push_back(m);
			if (projective && (i + k) % 2 == 0)
			{
				OM p = m; p.a[3][0] = E(0.5L * (LD)(i % 3)); p.a[3][1] = E(-1.0L); p.a[3][2] = E(2.0L * k); p.a[3][3] = E((i % 2) ? 1.0L : -3.0L);
				c.push_back(p);
			}
		}
	if (projective)
	{
		OM z(4); c.push_back(z);
		OM m = OM::identity(4); m.a[3][3] = E(2); c.push_back(m);
		m = OM::identity(4); m.a[3][2] = E(1); c.push_back(m);
		OM p(4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) p.a[i][j] = E((LD)((i * 7 + j * 3 + i * j * j) % 11 - 4)); c.push_back(p);
		OM o(4); // orthonormal 4x4 that is not affine: cyclic permutation of all four axes
		for (int i = 0; i < 4; ++i) o.a[(i + 1) % 4][i] = E(1); c.push_back(o);
		LD h[4][4] = { { 1, 1, 1, 1 }, { 1, -1, 1, -1 }, { 1, 1, -1, -1 }, { 1, -1, -1, 1 } };
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) o.a[i][j] = E(h[i][j] / 2); c.push_back(o);
		// unit projective rows with zero t: orthonormal columns x y z
		m = OM::identity(4); m.a[3][3] = E(-1); c.push_back(m);
	}
	return c;
}
template <class M> std::vector<OM> catalogueFor()
{
	if (MT<M>::n == 4) return catalogue4(MT<M>::rows == 4);
	return catalogue(MT<M>::n);
}
// round the catalogue to the working precision so that oracle and library see the same numbers
template <class M> std::vector<std::pair<M, OM>> catalogueM()
{
	std::vector<std::pair<M, OM>> r;
	for (auto& o : catalogueFor<M>()) { M m = MT<M>::make(o); r.push_back({ m, om(m) }); }
	return r;
}
// matrices that differ a little from a special one (identity, rotation, quarter turn, mirror image), most of them by less than the tolerance
// within which a matrix counts as special: whatever does not rely on that tolerance must take them as they are
template <class M> std::vector<std::pair<M, OM>> nearSpecial()
{
	const int n = MT<M>::n, rows = MT<M>::rows; std::vector<OM> bases = { OM::identity(n) };
	if (n == 2) { bases.push_back(rot2O(1.1L)); OM q(2); q.a[0][1] = E(-1); q.a[1][0] = E(1); bases.push_back(q); }
	else
	{
		bases.push_back(rotAxisO(n, 1, 2, 3, 1.1L)); OM q = OM::identity(n); q.a[0][0] = q.a[1][1] = E(0); q.a[0][1] = E(-1); q.a[1][0] = E(1); bases.push_back(q); q.a[2][2] = E(-1); bases.push_back(q);
		if (n == 4) { OM t = OM::identity(4); t.a[0][3] = E(3); t.a[1][3] = E(-0.5L); t.a[2][3] = E(2); bases.push_back(t); OM r = rotAxisO(4, -1, 2, 0.5L, 2.3L); r.a[0][3] = E(1); r.a[1][3] = E(-2); r.a[2][3] = E(0.25L); bases.push_back(r); }
	}
	std::vector<std::pair<M, OM>> r;
	for (auto& b : bases) for (int i = 0; i < rows; ++i) for (int j = 0; j < n; ++j) for (LD d : { 1e-5L, 1e-3L, 0.0078125L, 0.015625L, 0.02L, 0.03L, 0.0625L }) for (LD s : { d, -d })
	{ OM o = b; o.a[i][j] = E(o.a[i][j].v + s); M m = MT<M>::make(o); r.push_back({ m, om(m) }); m.optimize(); r.push_back({ m, om(m) }); }
	return r;
}
// equal up to rounding: two entry points for one operation need not round alike
template <class M> bool closem(const M& a, const M& b, LD k = 16)
{
	LD g = 1; for (int i = 0; i < MT<M>::rows; ++i) for (int j = 0; j < MT<M>::n; ++j) g = std::max(g, fabsl((LD)MT<M>::get(a, i, j)));
	return maxdiff(a, om(b)) <= k * eps<typename MT<M>::Real>() * g;
}
template <class R> bool closeqq(const Quat<R>& a, const Quat<R>& b, LD k = 16)
{
	LD g = 1; for (R v : { a.x, a.y, a.z, a.w }) g = std::max(g, fabsl((LD)v));
	LD d = std::max(std::max(fabsl((LD)a.x - b.x), fabsl((LD)a.y - b.y)), std::max(fabsl((LD)a.z - b.z), fabsl((LD)a.w - b.w)));
	return a.x == a.x && d <= k * eps<R>() * g;
}
template <class V> bool closevv(const V& a, const V& b, LD k = 16)
{
	LD g = 0; for (int i = 0; i < Dim<V>::n; ++i) g = std::max(g, fabsl((LD)comp(a, i)));
	for (int i = 0; i < Dim<V>::n; ++i) if (!(fabsl((LD)comp(a, i) - (LD)comp(b, i)) <= k * eps<typename Dim<V>::Real>() * g)) return false;
	return true;
}
// the matrix with these entries, column by column (the affine row of a Mat34 is not stored)
template <class M> M fromRow(const typename MT<M>::Real* p) { OM o(MT<M>::n); for (int c = 0, k = 0; c < MT<M>::n; ++c) for (int r = 0; r < MT<M>::rows; ++r) o.a[r][c] = E(p[k++]); if (MT<M>::rows < MT<M>::n) o.a[3][3] = E(1); return MT<M>::make(o); }
