// Generators and references shared by the factorisation monitors.
#pragma once
#include "ref.h"
#include "LU.h"
namespace ref {
using namespace NS;
using vh::tr;
template<class M> struct Kd { static const char* n() { return "fixed"; } };
template<class T> struct Kd<SparseMatrix<T> > { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };

template<class M> struct Mk { static M make(size_t n, size_t m) { return M(n, m); } };
template<class T, Dimension A, Dimension B> struct Mk<FixedMatrix<T, A, B> > { static FixedMatrix<T, A, B> make(size_t, size_t) { return FixedMatrix<T, A, B>(); } };

template<class M> M from_ref(Rng& r, const Mat<typename Sc<typename M::value_type>::B>& a)
{
	typedef typename M::value_type T;
	M m = Mk<M>::make(a.r, a.c);
	std::vector<size_t> o(a.r * a.c);
	for (size_t i = 0; i < o.size(); ++i) o[i] = i;
	r.shuffle(o);
	for (size_t q : o) if (a.v[q] != typename Sc<T>::B(0)) m.set(q / a.c, q % a.c, Sc<T>::make((double)re_(a.v[q]), (double)im_(a.v[q])));
	return m;
}
// garbage in a matrix used as an output argument
template<class M> void dirty(Rng& r, M& m)
{
	typedef typename M::value_type T;
	int h = (int)r.below(4);
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.columns(); ++j)
		if (h == 1 || (h == 2 && r.chance(0.5))) m.set(i, j, gen_nz<T>(r, NORMAL) * (T)100);
		else if (h == 3) m.set(i, j, Sc<T>::make(std::numeric_limits<double>::quiet_NaN(), 0));
}
template<class B> B dy(Rng& r, double lim);
template<> inline ld dy<ld>(Rng& r, double lim) { return (ld)r.range(-(long)(lim * 8), (long)(lim * 8)) / 8; }
template<> inline cld dy<cld>(Rng& r, double lim) { ld a = dy<ld>(r, lim * 0.7), b = dy<ld>(r, lim * 0.7); return r.chance(0.3) ? cld(a, 0) : cld(a, b); }
template<class B> B unitpow(Rng& r);// modulus a power of two, the reciprocal is exact
template<> inline ld unitpow<ld>(Rng& r) { return (r.chance(0.5) ? 1.0L : -1.0L) * std::pow(2.0L, (ld)r.range(-2, 2)); }
template<> inline cld unitpow<cld>(Rng& r) { ld p = std::pow(2.0L, (ld)r.range(-2, 2)) * (r.chance(0.5) ? 1 : -1); return r.chance(0.5) ? cld(p, 0) : cld(0, p); }

inline std::vector<size_t> rand_perm(Rng& r, size_t n)
{
	std::vector<size_t> p(n);
	for (size_t i = 0; i < n; ++i) p[i] = i;
	int h = (int)r.below(4);
	if (h == 0) r.shuffle(p);
	else if (h == 1) std::reverse(p.begin(), p.end());
	else if (h == 2) std::rotate(p.begin(), p.begin() + r.below(n), p.end());
	else for (size_t z = r.below(3); z--;) std::swap(p[r.below(n)], p[r.below(n)]);
	return p;
}
inline bool odd(std::vector<size_t> p)
{
	bool o = false;
	for (size_t i = 0; i < p.size(); ++i) while (p[i] != i) { std::swap(p[i], p[p[i]]); o = !o; }
	return o;
}
// A = P^T L U whose elimination is exact in floating point and whose pivoting is unambiguous;
// zero_at: position of a zero pivot (n: none)
template<class B> Mat<B> exact_lu(Rng& r, size_t n, size_t zero_at, Mat<B>& L, Mat<B>& U, std::vector<size_t>& p)
{
	L = Mat<B>(n, n); U = Mat<B>(n, n);
	double d = r.pick({0.0, 0.3, 0.7, 1.0});
	for (size_t i = 0; i < n; ++i)
	{
		L(i, i) = B(1);
		for (size_t j = 0; j < i; ++j) if (r.chance(d)) L(i, j) = B((ld)r.range(-2, 2) / 4);
		U(i, i) = i == zero_at ? B(0) : unitpow<B>(r);
		for (size_t j = i + 1; j < n; ++j) if (r.chance(d)) U(i, j) = B((ld)r.range(-4, 4) / 2);
	}
	p = rand_perm(r, n);
	Mat<B> lu = L * U, a(n, n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(p[i], j) = lu(i, j);// row i of PA is row p[i] of A
	return a;
}
template<class T> Mat<typename Sc<T>::B> gen_square(Rng& r, size_t n)
{
	typedef typename Sc<T>::B B;
	Mat<B> a(n, n);
	int h = (int)r.below(9);
	Kind k = (Kind)r.below(WIDE);
	auto g = [&]() { return Sc<T>::big(gen<T>(r, k)); };
	switch (h)
	{
	case 0: for (auto& x : a.v) x = g(); break;
	case 1: { auto p = gen_pattern(r, n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (p[i * n + j] || i == j) a(i, j) = g(); break; }
	case 2: { auto p = rand_perm(r, n); for (size_t i = 0; i < n; ++i) a(i, p[i]) = Sc<T>::big(gen_nz<T>(r, k)); break; }
	case 3: { Mat<B> L, U; std::vector<size_t> p; a = exact_lu<B>(r, n, n, L, U, p); break; }
	case 4: { auto p = rand_perm(r, n); for (size_t i = 0; i < n; ++i) for (size_t j = i; j < n; ++j) a(p[i], j) = i == j ? Sc<T>::big(gen_nz<T>(r, k)) : g(); break; }
	case 5: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a(i, j) = g(); if (i == j) a(i, j) += B((ld)(10 * n)); } break;
	case 6: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = Sc<T>::big((T)(1 / (typename Sc<T>::R)(i + j + 1))); break;// nearly singular
	case 7: { // pivoting needed at every step: small diagonal, large cyclic subdiagonal
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a(i, j) = g(); if (i == (j + 1) % n) a(i, j) += B(50); if (i == j) a(i, j) = r.chance(0.5) ? B(0) : a(i, j); }
		break; }
	default: { // rank one plus diagonal, different scale per row
		std::vector<B> u(n), v(n); for (auto& x : u) x = g(); for (auto& x : v) x = g();
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a(i, j) = u[i] * v[j] + (i == j ? B(3) : B(0)); }
		for (size_t i = 0; i < n; ++i) { ld s = std::pow(2.0L, (ld)r.range(-4, 4)); for (size_t j = 0; j < n; ++j) a(i, j) *= s; }
		break; }
	}
	if (h == 5 || h == 1 || h == 6) grade<T>(r, a, 0.4);
	// what the matrix of T really contains
	for (auto& x : a.v) x = Sc<T>::big(Sc<T>::make((double)re_(x), (double)im_(x)));
	tr("class %d", h);
	return a;
}
// partial pivoting in extended precision; the smallest pivot before the last, and max |U|
template<class B> struct RefLU { ld minpiv, last, maxu; bool singular; B det; ld range; };// range: product of the pivots above one, or of the reciprocals of those below
template<class B> RefLU<B> ref_lu(Mat<B> a)
{
	size_t n = a.r; RefLU<B> s; s.minpiv = HUGE_VALL; s.maxu = 0; s.singular = false; s.det = B(1); s.last = 0; ld hi = 1, lo = 1; s.range = HUGE_VALL;
	for (auto& x : a.v) s.maxu = std::max(s.maxu, abs_(x));
	for (size_t k = 0; k < n; ++k)
	{
		size_t b = k;
		for (size_t i = k + 1; i < n; ++i) if (abs_(a(i, k)) > abs_(a(b, k))) b = i;
		if (b != k) { for (size_t j = 0; j < n; ++j) std::swap(a(b, j), a(k, j)); s.det = -s.det; }
		ld p = abs_(a(k, k)); s.det *= a(k, k); if (p > 1) hi *= p; else lo *= p;
		if (k + 1 < n) s.minpiv = std::min(s.minpiv, p); else s.last = p;
		if (p == 0) { s.singular = true; if (k + 1 < n) s.minpiv = 0; s.det = B(0); return s; }
		for (size_t i = k + 1; i < n; ++i) { B m = a(i, k) / a(k, k); for (size_t j = k; j < n; ++j) { a(i, j) -= m * a(k, j); s.maxu = std::max(s.maxu, abs_(a(i, j))); } }
	}
	s.range = std::max(hi, 1 / lo);
	return s;
}
template<class T> ld gam(size_t n) { return (Sc<T>::cplx ? 10 : 4) * (ld)(n + 3) * Sc<T>::eps(); }
template<class T> ld tiny_() { return (ld)std::numeric_limits<typename Sc<T>::R>::min() * 64; }
// the largest value met when a triangular matrix is inverted in extended precision
template<class B> ld tri_growth(const Mat<B>& a, bool lower)
{
	size_t n = a.r; ld mx = 0; auto up = [&](ld v) { if (!(v <= mx)) mx = v; };
	for (size_t c = 0; c < n; ++c)
	{
		std::vector<B> x(n, B(0));
		for (size_t q = 0; q < n; ++q)
		{
			size_t i = lower ? q : n - 1 - q; B s = i == c ? B(1) : B(0);
			if (lower) { for (size_t j = c; j < i; ++j) s -= a(i, j) * x[j]; } else for (size_t j = i + 1; j <= c; ++j) s -= a(i, j) * x[j];
			up(abs_(s)); x[i] = s / a(i, i); up(abs_(x[i]));
		}
	}
	return mx;
}
template<class T> ld half_range() { return std::sqrt((ld)std::numeric_limits<typename Sc<T>::R>::max()); }
template<class B> bool has_nonfinite(const Mat<B>& a) { for (auto& x : a.v) if (!finite_(x)) return true; return false; }
}
