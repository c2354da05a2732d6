// C15: constructors and classification predicates
#include "lu.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class M, class F> void expect(const M& m, size_t n, size_t k, const char* what, F f)
{
	typedef typename M::value_type T;
	const char* kind = Kd<M>::n();
	if (m.rows() != n || m.columns() != k) BAD(fmt("%s/shape", what).c_str(), "%s %zux%zu: result is %zux%zu", Sc<T>::name(), n, k, (size_t)m.rows(), (size_t)m.columns());
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j)
	{
		T e = f(i, j);
		if (!(m.at(i, j) == e)) BAD(what, "%s %zux%zu: entry %zu,%zu is %s, not %s", Sc<T>::name(), n, k, i, j, str(m.at(i, j)).c_str(), str(e).c_str());
	}
	count(fmt("%s:%s", kind, what).c_str());
}
template<template<class> class M, class T> void construct(Rng& r)
{
	typedef M<T> A; typedef typename Sc<T>::R R;
	const char* kind = Kd<A>::n();
	size_t n = gen_dim(r), k = r.chance(0.4) ? n : gen_dim(r);
	Kind kd = (Kind)r.below(KINDS);
	tr("%s %s %zux%zu", kind, Sc<T>::name(), n, k);
	label("eye");
	expect(Construct::eye<M, T>(n, k), n, k, "eye", [](size_t i, size_t j) { return i == j ? T(1) : T(0); });
	label("diag(v)");
	auto v = gen_vector<DynamicVector<T> >(r, n, kd);
	expect(Construct::diag<M, T>(v), n, n, "diag(v)", [&](size_t i, size_t j) { return i == j ? v.linear_at(i) : T(0); });
	FixedVector<T, 3> fv; for (size_t i = 0; i < 3; ++i) fv.linear_set(i, gen<T>(r, kd));
	expect(Construct::diag<M, T>(fv), 3, 3, "diag(fixed v)", [&](size_t i, size_t j) { return i == j ? fv.linear_at(i) : T(0); });
	label("diag(m)");
	A a = gen_matrix<A>(r, n, k, kd, r.chance(0.3)); auto before = raw(a);
	auto d = Construct::diag(a);
	if (d.size() != std::min(n, k)) BAD("diag(m)/size", "%zux%zu: %zu", n, k, (size_t)d.size());
	for (size_t i = 0; i < d.size(); ++i) if (d.linear_at(i) != a.at(i, i)) BAD("diag(m)", "%zux%zu: component %zu", n, k, i);
	std::vector<long> off;
	long w = (long)std::max(n, k) + 2;
	if (w < 8) for (long z = -w; z <= w; ++z) off.push_back(z); else for (int z = 0; z < 6; ++z) off.push_back(r.range(-w, w));
	if (r.chance(0.2)) { off.push_back(1000000); off.push_back(-1000000); off.push_back(2147483647); off.push_back(-2147483647 - 1); }
	for (long o : off)
	{
		tr(" k=%ld", o);
		label("tril");
		expect(Construct::tril(a, (int32)o), n, k, o < 0 ? "tril below" : o ? "tril above" : "tril", [&](size_t i, size_t j) { return (long)j - (long)i <= o ? (T)a.at(i, j) : T(0); });
		label("triu");
		expect(Construct::triu(a, (int32)o), n, k, o < 0 ? "triu below" : o ? "triu above" : "triu", [&](size_t i, size_t j) { return (long)j - (long)i >= o ? (T)a.at(i, j) : T(0); });
		if (o >= (long)k || -o >= (long)n) count("offset-beyond-matrix");
	}
	expect(Construct::tril(a), n, k, "tril default", [&](size_t i, size_t j) { return j <= i ? (T)a.at(i, j) : T(0); });
	expect(Construct::triu(a), n, k, "triu default", [&](size_t i, size_t j) { return j >= i ? (T)a.at(i, j) : T(0); });
	if (!same_bits(raw(a), before)) BAD("input changed", "%zux%zu", n, k);
	// Hilbert: judged by the defining identities
	size_t h = (size_t)r.range(1, 12);
	const size_t h0 = h;
	if (r.chance(0.0015)) h = (size_t)r.range(40, 160);
	label("hilbert");
	A H = Construct::hilbert<M, T>(h);
	if (H.rows() != h || H.columns() != h) BAD("hilbert/shape", "%zu", h);
	for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < h; ++j)
	{
		ld e = 1.0L / (ld)(i + j + 1);
		if (Sc<T>::integer) e = i + j == 0 ? 1 : 0;
		if (!(abs_(Sc<T>::big(H.at(i, j)) - typename Sc<T>::B(e)) <= 0.6L * Sc<T>::eps() * e)) BAD("hilbert", "%s n=%zu: entry %zu,%zu is %s", Sc<T>::name(), h, i, j, str(H.at(i, j)).c_str());
	}
	count(fmt("%s:hilbert", kind).c_str());
	h = h0;
	if (Sc<T>::integer && h > 7) h = 7;
	label("inv_hilbert");
	A V = Construct::inv_hilbert<M, T>(h);
	if (V.rows() != h || V.columns() != h) BAD("inv_hilbert/shape", "%zu", h);
	// exact inverse by its integer factors; in wide enough arithmetic the identity H V = I is checked, too
	typedef __int128 I;
	I lcm = 1; for (I z = 1; z <= 2 * (I)h - 1; ++z) { I x = lcm, y = z; while (y) { I t = x % y; x = y; y = t; } lcm = lcm / x * z; }
	bool wide = Sc<T>::integer || std::is_same<R, double>::value;
	std::vector<I> ex(h * h);
	for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < h; ++j) // p_i p_j / (i+j+1), p_i = prod_{k!=i} ... evaluated as (-1)^i (h+i)! / (i!^2 (h-i-1)!)
	{
		auto p = [&](size_t q) { I x = 1; for (size_t z = h - q; z <= h + q; ++z) x *= (I)z; I f = 1; for (size_t z = 2; z <= q; ++z) f *= (I)z; x /= f; x /= f; return q % 2 ? -x : x; };
		// (h+q)!/(h-q-1)! is the product of h-q .. h+q
		ex[i * h + j] = p(i) * p(j) / (I)(i + j + 1);
	}
	for (size_t i = 0; i < h; ++i) for (size_t j = 0; j < h; ++j)
	{
		I s = 0; for (size_t z = 0; z < h; ++z) s += ex[i * h + z] * (lcm / (I)(z + j + 1));
		if (s != (i == j ? lcm : 0)) BAD("reference", "inverse Hilbert reference is wrong for n=%zu", h);
		ld e = (ld)ex[i * h + j], g = re_(Sc<T>::big(V.at(i, j)));
		if (im_(Sc<T>::big(V.at(i, j))) != 0 || (wide && std::fabs(e) < 9e15L ? g != e : !(std::fabs(g - e) <= Sc<T>::eps() * std::fabs(e)))) BAD("inv_hilbert", "%s n=%zu: entry %zu,%zu is %s, not %.17Lg", Sc<T>::name(), h, i, j, str(V.at(i, j)).c_str(), e);
	}
	count(fmt("%s:inv_hilbert", kind).c_str());
	// initializer lists, ragged ones included
	T x[9]; for (auto& z : x) z = r.chance(0.2) ? T(0) : gen<T>(r, kd);
	auto list = [&](std::initializer_list<std::initializer_list<T> > l)
	{
		size_t m = 0; for (auto& q : l) m = std::max(m, q.size());
		auto f = [&](size_t i, size_t j) { auto& q = *(l.begin() + i); return j < q.size() ? *(q.begin() + j) : T(0); };
		label("initializer list");
		A t(l); expect(t, l.size(), m, "list", f);
		FixedMatrix<T, 4, 5> u(l);
		expect(u, 4, 5, "list", [&](size_t i, size_t j) { return i < l.size() && j < m ? f(i, j) : T(0); });
	};
	switch (r.below(8))
	{
	case 0: list({{x[0]}}); break;
	case 1: list({{x[0], x[1]}, {x[2], x[3]}}); break;
	case 2: list({{x[0]}, {x[1], x[2]}, {x[3], x[4], x[5]}}); break;
	case 3: list({{x[0], x[1], x[2]}, {x[3]}}); break;
	case 4: list({{x[0], x[1], x[2], x[3], x[4]}}); break;
	case 5: list({{x[0]}, {x[1]}, {x[2]}, {x[3]}}); break;
	case 6: list({std::initializer_list<T>(), {x[0], x[1]}, std::initializer_list<T>(), {x[2]}}); break;
	default: list({{x[0], x[1], x[2]}, {x[3], x[4], x[5]}, {x[6], x[7], x[8]}}); break;
	}
	distinct(hash_vals(before, hash2(n, k)));
	sample(sh->trace);
}

// ---------------------------------------------------------------- predicates
template<class B> B quarter(Rng& r, bool integer);
template<> inline ld quarter<ld>(Rng& r, bool integer) { return integer ? (ld)r.range(-3, 3) : (ld)r.range(-8, 8) / 4; }
template<> inline cld quarter<cld>(Rng& r, bool integer) { return cld(quarter<ld>(r, integer), r.chance(0.6) ? quarter<ld>(r, integer) : 0); }
template<class B> B phase(Rng& r);
template<> inline ld phase<ld>(Rng& r) { return r.chance(0.5) ? 1 : -1; }
template<> inline cld phase<cld>(Rng& r) { return r.pick({cld(1, 0), cld(-1, 0), cld(0, 1), cld(0, -1)}); }
template<class B> bool complex_orth(Mat<B>&, Rng&, size_t) { return false; }
template<> inline bool complex_orth<cld>(Mat<cld>& a, Rng& r, size_t n)
{
	if (n < 2) return false;
	a = Mat<cld>(n, n); for (size_t i = 0; i < n; ++i) a(i, i) = 1;
	size_t i = r.below(n - 1);
	a(i, i) = a(i + 1, i + 1) = cld(1.25L, 0); a(i, i + 1) = cld(0, 0.75L); a(i + 1, i) = cld(0, -0.75L);
	return true;
}
template<class B> Mat<B> special(Rng& r, size_t n, bool integer, ld small)
{
	Mat<B> a(n, n);
	auto q = [&]() { return r.chance(0.3) ? B(0) : quarter<B>(r, integer); };
	switch (r.below(9))
	{
	case 0: for (auto& x : a.v) x = q(); break;
	case 1: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) a(i, j) = a(j, i) = q(); break;// symmetric
	case 2: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { a(i, j) = q(); a(j, i) = conj_(a(i, j)); if (i == j) a(i, j) = B(re_(a(i, j))); } break;
	case 3: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { a(i, j) = q(); a(j, i) = -a(i, j); } break;
	case 4: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { a(i, j) = q(); a(j, i) = -conj_(a(i, j)); if (i == j) a(i, j) = a(i, j) - B(re_(a(i, j))); } break;
	case 5: case 6: { // orthogonal / unitary: phases times permutation, times reflections with exact entries
		auto p = rand_perm(r, n);
		for (size_t i = 0; i < n; ++i) a(i, p[i]) = phase<B>(r);
		if (!integer && n >= 4 && r.chance(0.6)) { Mat<B> h(n, n); std::vector<B> v(n, B(0)); for (size_t z = 0; z < 4; ++z) v[z] = phase<B>(r) * B(0.5L); r.shuffle(v);
			for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) h(i, j) = (i == j ? B(1) : B(0)) - B(2) * v[i] * conj_(v[j]); a = h * a; }
		if (!integer && r.chance(0.2)) complex_orth(a, r, n);
		break; }
	case 7: { // projection S D S^-1 with unimodular S
		Mat<B> d(n, n), s(n, n), t(n, n);
		for (size_t i = 0; i < n; ++i) { s(i, i) = t(i, i) = B(1); if (r.chance(0.5)) d(i, i) = B(1); }
		for (int z = 0; z < 2 && n > 1; ++z) { size_t i = r.below(n), j = r.below(n); if (i == j) continue; B f = quarter<B>(r, true); Mat<B> e(n, n), ei(n, n); for (size_t u = 0; u < n; ++u) e(u, u) = ei(u, u) = B(1); e(i, j) = f; ei(i, j) = -f; s = s * e; t = ei * t; }
		a = s * d * t; break; }
	default: // orthogonal projection
		if (n >= 4 && !integer) { std::vector<B> v(n, B(0)); for (size_t z = 0; z < 4; ++z) v[z] = phase<B>(r) * B(0.5L); r.shuffle(v); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = v[i] * conj_(v[j]); if (r.chance(0.5)) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = (i == j ? B(1) : B(0)) - a(i, j); }
		break;
	}
	// a single wrong entry
	if (r.chance(0.4)) { size_t i = r.below(n), j = r.below(n); B x = a(i, j); int h = (int)r.below(6); a(i, j) = h > 3 ? x + B(r.chance(0.5) ? small : -small) : h == 0 ? -x : h == 1 ? conj_(x) : h == 2 ? x + B(integer ? 1 : 0.25L) : B(0); }
	return a;
}
template<class B> Mat<B> neg(Mat<B> a) { for (auto& x : a.v) x = -x; return a; }
template<class B> Mat<B> eye_(size_t n) { Mat<B> a(n, n); for (size_t i = 0; i < n; ++i) a(i, i) = B(1); return a; }

template<class M> void mirrored(Rng& r, size_t n);
template<class M> void classify(Rng& r, size_t n, size_t k)
{
	if (n == k && r.chance(0.2)) { mirrored<M>(r, n); return; }
	typedef typename M::value_type T; typedef typename Sc<T>::B B;
	const char* kind = Kd<M>::n();
	const ld small = Sc<T>::integer ? 1.0L : std::ldexp(1.0L, Sc<T>::eps() > 1e-10L ? -8 : -20);
	Mat<B> a(n, k);
	if (n == k) a = special<B>(r, n, Sc<T>::integer, small); else { Mat<B> b = special<B>(r, std::max(n, k), Sc<T>::integer, small); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) a(i, j) = b(i, j); }
	M m = from_ref<M>(r, a); auto before = raw(m);
	tr("%s %s %zux%zu ", kind, Sc<T>::name(), n, k); for (auto& x : a.v) tr("%Lg,%Lg ", re_(x), im_(x));
	bool q = n == k;
	auto judge = [&](const char* what, bool got, bool want)
	{
		if (got != want) BAD(what, "%s %zux%zu: answered %d", Sc<T>::name(), n, k, (int)got);
		count(fmt("%s:%s=%d", kind, what, (int)want).c_str());
	};
	label("orthogonal"); judge("orthogonal", Check::matrixIsOrthogonal(m), q && (a * transp(a)).v == eye_<B>(n).v);
	label("unitary"); judge("unitary", Check::matrixIsUnitary(m), q && (a * transp(a, true)).v == eye_<B>(n).v);
	label("projection"); judge("projection", Check::matrixIsProjection(m), q && (a * a).v == a.v);
	label("symmetric"); judge("symmetric", Check::matrixIsSymmetric(m), q && transp(a).v == a.v);
	label("hermitian"); judge("hermitian", Check::matrixIsHermitian(m), q && transp(a, true).v == a.v);
	label("skew-symmetric"); judge("skew-symmetric", Check::matrixIsSkewSymmetric(m), q && transp(neg(a)).v == a.v);
	label("skew-hermitian"); judge("skew-hermitian", Check::matrixIsSkewHermitian(m), q && transp(neg(a), true).v == a.v);
	if (!same_bits(raw(m), before)) BAD("input changed", "%zux%zu", n, k);
	if (!q) count("non-square");
	distinct(hash_vals(before, hash2(n, hash_bytes(kind, 5))));
	sample(sh->trace);
}
// arbitrary values that mirror each other up to the last bit of one of them
template<class M> void mirrored(Rng& r, size_t n)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B; typedef typename S::R R;
	const char* kind = Kd<M>::n(); Mat<B> a(n, n); int h = (int)r.below(4); Kind kd = (Kind)r.below(KINDS);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j)
	{
		B x = r.chance(0.3) ? B(0) : S::big(gen<T>(r, kd)); if (i == j) x = h == 0 ? x : h == 1 ? B(re_(x)) : h == 2 ? B(0) : x - B(re_(x));
		a(i, j) = x; if (i != j) a(j, i) = h == 0 ? x : h == 1 ? conj_(x) : h == 2 ? -x : -conj_(x);
	}
	size_t i = r.below(n), j = r.below(n); bool off = r.chance(0.6);
	if (off)
	{
		double re = (double)re_(a(i, j)), im = (double)im_(a(i, j)); bool part = S::cplx && r.chance(0.5); R x = (R)(part ? im : re);
		x = S::integer ? (R)(x + 1) : (R)std::nextafter((R)x, (R)(r.chance(0.5) ? 1e30 : -1e30)); (part ? im : re) = (double)x;
		a(i, j) = S::big(S::make(re, im));
	}
	M m = from_ref<M>(r, a); tr("%s %s mirrored %zu: ", kind, S::name(), n); for (auto& x : a.v) tr("%Lg,%Lg ", re_(x), im_(x));
	auto judge = [&](const char* what, bool got, bool want)
	{
		if (got != want) BAD(what, "%s %zux%zu: answered %d, entry (%zu,%zu) %s", S::name(), n, n, (int)got, i, j, off ? "is off by its last bit" : "");
		count(fmt("mirrored:%s=%d", what, (int)want).c_str());
	};
	label("symmetric"); judge("symmetric", Check::matrixIsSymmetric(m), transp(a).v == a.v);
	label("hermitian"); judge("hermitian", Check::matrixIsHermitian(m), transp(a, true).v == a.v);
	label("skew-symmetric"); judge("skew-symmetric", Check::matrixIsSkewSymmetric(m), transp(neg(a)).v == a.v);
	label("skew-hermitian"); judge("skew-hermitian", Check::matrixIsSkewHermitian(m), transp(neg(a), true).v == a.v);
	distinct(hash_vals(raw(m), hash2(n, hash_bytes(kind, 5))));
}
template<class M> void classify_dyn(Rng& r)
{
	size_t n = (size_t)r.range(1, 7), k = r.chance(0.85) ? n : (size_t)r.range(1, 7);
	classify<M>(r, n, k);
}
template<class T, Dimension A, Dimension B> void fixed_eye()
{
	label("eye fixed");
	expect(Construct::eye<T, A, B>(), A, B, "eye", [](size_t i, size_t j) { return i == j ? T(1) : T(0); });
}
typedef VCD cd;
typedef VCF cf;
void part0(Rng&, int); void part1(Rng&, int); void part2(Rng&, int);
#if VH_IN(0)
void part0(Rng& r, int h)
{
	switch (h) { case 0: construct<DenseMatrix, double>(r); break; case 1: construct<SparseMatrix, double>(r); break; case 2: construct<DenseMatrix, float>(r); break; default: construct<SparseMatrix, int>(r); break; }
}
#endif
#if VH_IN(1)
void part1(Rng& r, int h)
{
	switch (h) { case 0: construct<DenseMatrix, cd>(r); break; case 1: construct<SparseMatrix, cf>(r); break; case 2: construct<SparseMatrix, cd>(r); break; default: construct<DenseMatrix, int>(r); break; }
}
#endif
#if VH_IN(2)
void part2(Rng& r, int h)
{
	switch (h)
	{
	case 0: classify_dyn<DenseMatrix<double> >(r); break;
	case 1: classify_dyn<SparseMatrix<double> >(r); break;
	case 2: classify_dyn<DenseMatrix<cd> >(r); break;
	case 3: classify_dyn<SparseMatrix<cd> >(r); break;
	case 4: classify_dyn<SparseMatrix<cf> >(r); break;
	case 5: classify_dyn<DenseMatrix<VI> >(r); break;
	case 6: classify_dyn<SparseMatrix<VF> >(r); break;
	case 7: classify<FixedMatrix<double, 3, 3> >(r, 3, 3); break;
	case 8: classify<FixedMatrix<cd, 2, 2> >(r, 2, 2); break;
	case 9: classify<FixedMatrix<VF, 4, 4> >(r, 4, 4); break;
	default: classify<FixedMatrix<cf, 4, 4> >(r, 4, 4); break;
	}
}
namespace vh { const char* property = "C15"; }
void vh::run_case(Rng& r, u64 idx)
{
	if (idx == 0) { fixed_eye<double, 1, 1>(); fixed_eye<double, 2, 5>(); fixed_eye<VF, 5, 2>(); fixed_eye<cd, 4, 4>(); fixed_eye<VI, 1, 3>(); }
	if (idx % 8 == 0) part0(r, (int)r.below(4)); else if (idx % 8 == 1) part1(r, (int)r.below(4)); else part2(r, (int)r.below(11));
}
#include "vh_main.h"
#endif
