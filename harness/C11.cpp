// C11: triangular solves, inverses, determinants
#include "lu.h"
#include "matrix/MatrixOperations.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class T> void factors(Rng& r, size_t n, Mat<typename Sc<T>::B>& l, Mat<typename Sc<T>::B>& u, bool unit, size_t& zl, size_t& zu)
{
	typedef Sc<T> S; typedef typename S::B B;
	double d = r.pick({0.0, 0.2, 0.5, 1.0}); Kind k = (Kind)r.below(WIDE);
	l = Mat<B>(n, n); u = Mat<B>(n, n);
	auto dg = [&]() { B x = S::big(gen_nz<T>(r, k)); return abs_(x) < 1e-2L ? B(1) : x; };
	for (size_t i = 0; i < n; ++i)
	{
		l(i, i) = unit ? B(1) : dg(); u(i, i) = dg();
		for (size_t j = 0; j < i; ++j) { if (r.chance(d)) l(i, j) = S::big(gen<T>(r, k)) / (r.chance(0.5) ? (ld)4 : (ld)1); if (r.chance(d)) u(j, i) = S::big(gen<T>(r, k)); }
	}
	grade<T>(r, l, 0.25); grade<T>(r, u, 0.25);
	if (r.chance(0.15)) for (size_t i = 0; i < n; ++i) { if (!unit) l(i, i) *= some_scale<T>(r, 0.5); u(i, i) *= some_scale<T>(r, 0.5); }
	zl = zu = n;
	if (r.chance(0.12)) { if (!unit && r.chance(0.5)) { zl = r.below(n); l(zl, zl) = B(0); } else { zu = r.chance(0.4) ? (r.chance(0.5) ? 0 : n - 1) : r.below(n); u(zu, zu) = B(0); } }
	for (auto* m : {&l, &u}) for (auto& x : m->v) x = S::big(S::make((double)re_(x), (double)im_(x)));
}
template<class M> void solve(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B; typedef DynamicVector<T> V;
	std::string ks = std::string("solve_lu/") + Kd<M>::n(); const char* kind = ks.c_str();
	size_t n = gen_dim(r, 12), zl, zu; Mat<B> l, u; factors<T>(r, n, l, u, r.chance(0.5), zl, zu);
	M L = from_ref<M>(r, l), U = from_ref<M>(r, u); V b = gen_vector<V>(r, n, (Kind)r.below(WIDE));
	if (r.chance(0.1)) b.fill((T)0); else if (r.chance(0.1)) { b.fill((T)0); b[r.below(n)] = (T)1; }
	auto bl = raw(L), bu = raw(U), bb = vraw(b);
	tr("%s %s n=%zu", kind, S::name(), n);
	label("solve_lu"); bool threw = false; V x(1);
	try { x = LU::serial::solve_lu(L, U, b); } catch (const SingularException&) { threw = true; }
	if (!same_bits(raw(L), bl) || !same_bits(raw(U), bu) || !same_bits(vraw(b), bb)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (threw != (zl < n || zu < n)) BAD("singular", "%s n=%zu: zero at L %zu U %zu, exception %d", S::name(), n, zl, zu, threw);
	if (threw) { count("solve_lu:singular"); return; }
	if (x.size() != n) BAD("size", "result of size %zu instead of %zu", x.size(), n);
	{// intermediate results beyond the range of the type
		std::vector<B> w(n); ld mx = 0;
		for (size_t i = 0; i < n; ++i) { B s = S::big(b.at(i)); for (size_t j = 0; j < i; ++j) { s -= l(i, j) * w[j]; if (!(abs_(s) <= mx)) mx = abs_(s); } w[i] = s / l(i, i); if (!(abs_(w[i]) <= mx)) mx = abs_(w[i]); }
		for (size_t i = n; i-- > 0;) { B s = w[i]; for (size_t j = i + 1; j < n; ++j) { s -= u(i, j) * w[j]; if (!(abs_(s) <= mx)) mx = abs_(s); } w[i] = s / u(i, i); if (!(abs_(w[i]) <= mx)) mx = abs_(w[i]); }
		if (!(mx < half_range<T>())) { count("solve_lu:beyond the range of the type"); return; }
	}
	// |L U x - b| <= g |L||U||x| (plus the rounding of y)
	std::vector<B> ux(n, B(0)), y(n, B(0)); std::vector<ld> ax(n, 0);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { ux[i] += u(i, j) * S::big(x.at(j)); ax[i] += abs_(u(i, j)) * abs_(S::big(x.at(j))); }
	for (size_t i = 0; i < n; ++i) { B s(0); ld a = 0; for (size_t j = 0; j < n; ++j) { s += l(i, j) * ux[j]; a += abs_(l(i, j)) * ax[j]; }
		if (!(abs_(s - S::big(b.at(i))) <= 3 * gam<T>(n) * a + tiny_<T>())) BAD("residual", "%s n=%zu: (L U x)(%zu) is off by %Lg, bound %Lg", S::name(), n, i, abs_(s - S::big(b.at(i))), 3 * gam<T>(n) * a); }
	count(fmt("%s:solved", kind).c_str());
	distinct(hash_vals(bl, hash_vals(bu, hash_vals(bb, hash_bytes(kind, strlen(kind))))));
}
template<class M> ld worst(const Mat<typename Sc<typename M::value_type>::B>& a, const M& X, ld& bound)
{// |A X - I| and |A||X|
	auto x = to_ref(X); auto p = a * x; auto q = absm(a) * absm(x); ld w = 0; bound = 0;
	for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.r; ++j) { ld d = abs_(p(i, j) - (i == j ? typename Sc<typename M::value_type>::B(1) : typename Sc<typename M::value_type>::B(0))); if (!(d <= w)) w = d; bound = std::max(bound, q(i, j)); }
	return w;
}
template<class M> void inv(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	std::string ks = std::string("inverse/") + Kd<M>::n(); const char* kind = ks.c_str();
	size_t n = gen_dim(r, 9); int h = (int)r.below(4); ld bd;
	tr("%s %s n=%zu kind %d", kind, S::name(), n, h);
	if (h <= 1)
	{
		Mat<B> a = gen_square<T>(r, n); bool sing = false;
		if (r.chance(0.15)) { Mat<B> eL, eU; std::vector<size_t> p; a = exact_lu<B>(r, n, r.below(n), eL, eU, p); sing = true; }
		M A = from_ref<M>(r, a); auto before = raw(A);
		RefLU<B> q = ref_lu(a);
		label("inverse(A)"); bool threw = false; M X = A;
		try { X = Operations::inverse(A); } catch (const SingularException&) { threw = true; }
		if (!same_bits(raw(A), before)) BAD("input changed", "%s n=%zu", S::name(), n);
		if (sing && !threw) BAD("singular", "%s n=%zu: singular matrix inverted", S::name(), n);
		if (threw) { ld need = 100 * n * S::eps() * q.maxu + 4 * S::eps(); if (q.minpiv > need && q.last > need) BAD("rejected", "%s n=%zu: pivots %Lg %Lg, reported singular", S::name(), n, q.minpiv, q.last); count("inverse:singular"); return; }
		if (X.rows() != n || X.columns() != n) BAD("shape", "wrong shape");
		ld w = worst(a, X, bd);
		// backward error of each column: g |L||U||X|, |L| <= 1
		auto xm = absm(to_ref(X)); ld mx = 0; for (auto& t : xm.v) mx = std::max(mx, t);
		ld bound = 8 * gam<T>(n) * (bd + (ld)n * n * q.maxu * mx);
		if (!(w <= bound)) BAD("A X = I", "%s n=%zu: off by %Lg, bound %Lg", S::name(), n, w, bound);
		count(fmt("%s:A", kind).c_str()); if (bound < 1e-3L) count("inverse:sharp-bound");
		distinct(hash_vals(before, hash_bytes(kind, strlen(kind))));
	}
	else
	{
		Mat<B> l, u; size_t zl, zu; factors<T>(r, n, l, u, true, zl, zu);
		M L = from_ref<M>(r, l), U = from_ref<M>(r, u); auto bl = raw(L), bu = raw(U);
		auto p = rand_perm(r, n); M P(n, n); for (size_t i = 0; i < n; ++i) P.set(i, p[i], (T)1);
		label(h == 2 ? "inverse(L,U)" : "inverse(L,U,P)"); bool threw = false; M X = L;
		try { X = h == 2 ? Operations::inverse(L, U) : Operations::inverse(L, U, P); } catch (const SingularException&) { threw = true; }
		if (!same_bits(raw(L), bl) || !same_bits(raw(U), bu)) BAD("input changed", "%s n=%zu", S::name(), n);
		if (threw != (zu < n)) BAD("singular", "%s n=%zu: zero at %zu, exception %d", S::name(), n, zu, threw);
		if (threw) { count("inverse:singular"); return; }
		Mat<B> a(n, n), lu = l * u;
		Mat<ld> abslu = absm(l) * absm(u), aa(n, n);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a(h == 2 ? i : p[i], j) = lu(i, j); aa(h == 2 ? i : p[i], j) = abslu(i, j); }
		auto x = to_ref(X); Mat<B> ax = a * x; Mat<ld> q = aa * absm(x);
		if (!(tri_growth(l, true) * tri_growth(u, false) * n < half_range<T>())) { count("inverse:beyond the range of the type"); return; }
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
		{
			ld d = abs_(ax(i, j) - (i == j ? B(1) : B(0)));
			if (!(d <= 4 * gam<T>(n) * q(i, j) + tiny_<T>())) BAD("P^T L U X = I", "%s n=%zu kind %d: (%zu,%zu) off by %Lg, bound %Lg", S::name(), n, h, i, j, d, 4 * gam<T>(n) * q(i, j));
		}
		count(fmt("%s:%s", kind, h == 2 ? "L,U" : "L,U,P").c_str());
		distinct(hash_vals(bl, hash_vals(bu, hash_bytes(kind, strlen(kind)) + h)));
	}
}
template<class T> T detof(const DenseMatrix<T>& m) { return Operations::determinant(m); }
template<class T> T detof(const SparseMatrix<T>& m) { return Operations::determinant(m); }
template<class T, Dimension A, Dimension B> T detof(const FixedMatrix<T, A, B>& m) { return Operations::determinant(m); }
template<class M> void det_nonsquare(Rng& r, size_t n)
{
	typedef typename M::value_type T; std::string ks = std::string("determinant/") + Kd<M>::n(); const char* kind = ks.c_str();
	size_t m = gen_dim(r, 6); if (n == m) ++m;
	M A = gen_matrix<M>(r, n, m, SMALLINT, true); label("determinant");
	if (detof(A) != (T)0) BAD("non-square", "%s %zux%zu: %s", Sc<T>::name(), n, m, str(detof(A)).c_str());
	count("determinant:non-square");
}
template<class M> void det(Rng& r, size_t n)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	std::string ks = std::string("determinant/") + Kd<M>::n(); const char* kind = ks.c_str();
	int h = (int)(n > 24 ? r.below(3) : r.below(6)); Mat<B> a; B exact(0); bool isexact = false, mustzero = false;
	tr("%s %s n=%zu kind %d", kind, S::name(), n, h);
	Mat<B> eL, eU; std::vector<size_t> p;
	if (h == 0) { a = exact_lu<B>(r, n, n, eL, eU, p); exact = odd(p) ? B(-1) : B(1); for (size_t i = 0; i < n; ++i) exact *= eU(i, i); isexact = true; }
	else if (h == 1) { a = exact_lu<B>(r, n, r.below(n), eL, eU, p); mustzero = true; }
	else if (h == 2) { a = Mat<B>(n, n); p = rand_perm(r, n); exact = odd(p) ? B(-1) : B(1); for (size_t i = 0; i < n; ++i) { a(i, p[i]) = unitpow<B>(r); exact *= a(i, p[i]); } isexact = true; }
	else if (h == 3) { a = Mat<B>(n, n); for (auto& x : a.v) x = S::big(gen<T>(r, SMALLINT)); }
	else a = gen_square<T>(r, n);
	if ((isexact || mustzero) && r.chance(0.25))
	{// rows scaled by powers of two, small and large determinants alike, as long as the products stay in range
		int cap = S::eps() > 1e-10L ? 6 : 20; ld e = 1; std::vector<ld> f(n); int side = (int)r.below(3) - 1;
		for (size_t i = 0; i < n; ++i) { f[i] = std::ldexp(1.0L, side ? side * (int)r.range(0, cap) : (int)r.range(-cap, cap)); e *= f[i]; if (!(e < half_range<T>() * 1e-6L && e > 1e6L / half_range<T>())) { e /= f[i]; f[i] = 1; } }
		// a diagonal or permutation pattern only, pivoting must stay unambiguous
		if (h == 2) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) *= f[i]; exact *= e; count("determinant:scaled"); }
		else { ld g = std::ldexp(1.0L, side * (int)r.range(0, std::max<int>(1, std::min<int>(cap, (S::eps() > 1e-10L ? 60 : 600) / (int)n)))); for (auto& x : a.v) x *= g; for (size_t i = 0; i < n; ++i) exact *= g; count("determinant:scaled"); }
	}
	M A = from_ref<M>(r, a); auto before = raw(A);
	label("determinant"); T d = detof(A);
	if (!same_bits(raw(A), before)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (mustzero) { if (d != (T)0) BAD("singular", "%s n=%zu: determinant %s of a singular matrix", S::name(), n, str(d).c_str()); count("determinant:singular"); }
	else if (isexact) { if (S::big(d) != exact) BAD("exact", "%s n=%zu: %s expected %Lg%+Lgi", S::name(), n, str(d).c_str(), re_(exact), im_(exact)); count(odd(p) ? "determinant:odd" : "determinant:even"); }
	else
	{
		RefLU<B> q = ref_lu(a);
		ld need = 100 * n * S::eps() * q.maxu + 4 * S::eps();
		if (!(q.range < half_range<T>())) { count("determinant:beyond the range of the type"); return; }
		if (q.minpiv <= need) { count("determinant:near-singular"); return; }// zero or a value at rounding level
		// first order bound: sum of |E_ij| |cofactor_ij|; cofactors from the pivots of minors
		ld bound = 0;
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
		{
			Mat<B> mm(n - 1, n - 1); for (size_t y = 0, yy = 0; y < n; ++y) if (y != i) { for (size_t x = 0, xx = 0; x < n; ++x) if (x != j) mm(yy, xx++) = a(y, x); ++yy; }
			bound += n > 1 ? abs_(ref_lu(mm).det) : 1;
		}
		bound = 4 * gam<T>(n) * (bound * n * q.maxu + abs_(q.det)) + tiny_<T>();
		if (!(abs_(S::big(d) - q.det) <= bound)) BAD("value", "%s n=%zu: %s expected %Lg%+Lgi, bound %Lg", S::name(), n, str(d).c_str(), re_(q.det), im_(q.det), bound);
		if (bound < 0.01L * abs_(q.det)) count("determinant:sharp"); else count("determinant:coarse");
	}
	count(fmt("%s:done", kind).c_str());
	distinct(hash_vals(before, hash_bytes(kind, strlen(kind))));
	sample(sh->trace);
}
void g1(Rng& r, u64 k); void g2(Rng& r, u64 k); void g3(Rng& r, u64 k);
#if VH_IN(0)
namespace vh { const char* property = "C11"; }
void vh::run_case(Rng& r, u64 idx) { if (idx % 3 == 0) g1(r, idx / 3); else if (idx % 3 == 1) g2(r, idx / 3); else g3(r, idx / 3); }
#include "vh_main.h"
#endif
#if VH_IN(1)
void g1(Rng& r, u64 k) { switch (k % 4) { case 0: solve<SparseMatrix<double> >(r); break; case 1: solve<DenseMatrix<double> >(r); break; case 2: solve<SparseMatrix<VCD > >(r); break; default: solve<DenseMatrix<VF> >(r); } }
#endif
#if VH_IN(2)
void g2(Rng& r, u64 k) { switch (k % 4) { case 0: inv<SparseMatrix<double> >(r); break; case 1: inv<DenseMatrix<double> >(r); break; case 2: inv<DenseMatrix<VCD > >(r); break; default: inv<SparseMatrix<VF> >(r); } }
#endif
#if VH_IN(3)
template<class T, size_t A, size_t B> static void nonsq() { FixedMatrix<T, A, B> m; for (size_t i = 0; i < A * B; ++i) m.linear_set(i, (T)(i + 1)); label("determinant fixed"); if (Operations::determinant(m) != (T)0) viol("determinant/fixed/non-square", "%zux%zu", A, B); count("determinant:non-square"); }
void g3(Rng& r, u64 k)
{
	size_t n = std::min<size_t>(60, gen_dim(r, 6));
	switch (k % 10)
	{
	case 0: case 1: det<DenseMatrix<double> >(r, n); break;
	case 2: case 3: det<SparseMatrix<double> >(r, n); break;
	case 4: det<DenseMatrix<VCD > >(r, n); break;
	case 5: det<SparseMatrix<VF> >(r, n); break;
	case 6: det<FixedMatrix<double, 3, 3> >(r, 3); break;
	case 7: det<FixedMatrix<VCD, 4, 4> >(r, 4); break;
	case 8: if (r.chance(0.5)) det<FixedMatrix<double, 2, 2> >(r, 2); else det<FixedMatrix<double, 1, 1> >(r, 1); break;
	default: if (r.chance(0.3)) { nonsq<double, 2, 3>(); nonsq<double, 4, 3>(); } else if (r.chance(0.5)) det_nonsquare<DenseMatrix<double> >(r, n); else det_nonsquare<SparseMatrix<double> >(r, n);
	}
}
#endif
