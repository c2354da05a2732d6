// C09: Cholesky factors exactly the positive definite matrices
#include "lu.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

// Hermitian reference matrices
template<class T> Mat<typename Sc<T>::B> herm(Rng& r, size_t n, int& cls, Mat<typename Sc<T>::B>* exact)
{
	typedef typename Sc<T>::B B;
	Mat<B> a(n, n), g(n, n);
	cls = (int)r.below(10);
	double d = r.pick({0.2, 0.5, 1.0});
	Kind k = (Kind)r.below(WIDE);
	auto v = [&]() { return Sc<T>::big(gen<T>(r, k)); };
	switch (cls)
	{
	case 0: // exact: dyadic factor with power of four diagonal
		for (size_t i = 0; i < n; ++i) { g(i, i) = B(std::pow(2.0L, (ld)r.range(-2, 2))); for (size_t j = 0; j < i; ++j) if (r.chance(d)) g(i, j) = dy<B>(r, 1); }
		if (exact) *exact = g;
		a = g * transp(g, true); break;
	case 1: // diagonally dominant
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (r.chance(d)) { a(i, j) = v(); a(j, i) = conj_(a(i, j)); }
		for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += abs_(a(i, j)); a(i, i) = B((ld)(typename Sc<T>::R)(s * 1.01L + 0.25L)); } break;
	case 2: // Gram matrix
	case 3:
		for (auto& x : g.v) if (r.chance(d)) x = v();
		a = g * transp(g, true);
		for (size_t i = 0; i < n; ++i) a(i, i) += B(cls == 2 ? 1 : 1e-2L); break;
	case 4: // Hilbert
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = B(1.0L / (ld)(i + j + 1)); break;
	case 5: // diagonal
		for (size_t i = 0; i < n; ++i) a(i, i) = B((ld)r.range(1, 99) / 8); break;
	case 6: // indefinite: positive definite with one negative direction
		for (auto& x : g.v) if (r.chance(d)) x = v();
		a = g * transp(g, true);
		{ std::vector<B> w(n); for (auto& x : w) x = v(); ld s = 0; for (size_t i = 0; i < n; ++i) { s += abs_(w[i]) * abs_(w[i]); }
		  ld t = 0; for (auto& x : a.v) t += abs_(x); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) -= w[i] * conj_(w[j]) * ((t + 1) / (s > 0 ? s : 1)); } break;
	case 7: // negative or zero diagonal entry
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (r.chance(d)) { a(i, j) = v(); a(j, i) = conj_(a(i, j)); }
		for (size_t i = 0; i < n; ++i) a(i, i) = B((ld)(60 * n));
		a(r.below(n), 0) += B(0);
		{ size_t z = r.below(n); a(z, z) = r.chance(0.5) ? B(0) : B(-(ld)r.range(1, 9)); } break;
	case 8: // exact semidefinite: dyadic factor with a zero column somewhere
		for (size_t i = 0; i < n; ++i) { g(i, i) = B(std::pow(2.0L, (ld)r.range(-1, 1))); for (size_t j = 0; j < i; ++j) if (r.chance(d)) g(i, j) = dy<B>(r, 1); }
		{ size_t z = r.below(n); for (size_t i = 0; i < n; ++i) g(i, z) = B(0); }
		a = g * transp(g, true); break;
	default: // off-diagonal too large
		for (size_t i = 0; i < n; ++i) a(i, i) = B((ld)r.range(1, 9));
		if (n > 1) { size_t i = r.range(1, (long)n - 1), j = r.below(i); B x = Sc<T>::big(Sc<T>::make(8, 3)); if (abs_(x) < 8) x = B(8); a(i, j) = x * B(3); a(j, i) = conj_(a(i, j)); } break;
	}
	if (cls == 1 || cls == 2) grade<T>(r, a, 0.4);
	for (auto& x : a.v) x = Sc<T>::big(Sc<T>::make((double)re_(x), (double)im_(x)));
	for (size_t i = 0; i < n; ++i) { a(i, i) = B(re_(a(i, i))); for (size_t j = 0; j < i; ++j) a(j, i) = conj_(a(i, j)); }
	return a;
}
// pivots of the Cholesky factorisation in extended precision; stops at the first non-positive one
template<class B> void ref_chol(const Mat<B>& a, ld& minpos, ld& firstbad)
{
	size_t n = a.r; Mat<B> l(n, n); minpos = HUGE_VALL; firstbad = 1;
	for (size_t j = 0; j < n; ++j)
	{
		B s = a(j, j); for (size_t k = 0; k < j; ++k) s -= l(j, k) * conj_(l(j, k));
		ld p = re_(s); if (!(p > 0)) { firstbad = p; return; }
		minpos = std::min(minpos, p); l(j, j) = B(std::sqrt(p));
		for (size_t i = j + 1; i < n; ++i) { B t = a(i, j); for (size_t k = 0; k < j; ++k) t -= l(i, k) * conj_(l(j, k)); l(i, j) = t / l(j, j); }
	}
}
template<class M> void chol(Rng& r, size_t n)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	const char* kind = Kd<M>::n(); const ld eps = S::eps();
	int cls; Mat<B> ex; Mat<B> a = herm<T>(r, n, cls, &ex);
	tr("%s %s n=%zu class %d", kind, S::name(), n, cls);
	M A = from_ref<M>(r, a); auto before = raw(A);
	M L = Mk<M>::make(n, n); dirty(r, L);
	int how = 0;
	label("cholesky");
	try { LU::serial::cholesky(A, L); } catch (const NotPositiveDefiniteException&) { how = 1; }
	if (!same_bits(raw(A), before)) BAD("input changed", "%s n=%zu", S::name(), n);
	ld minpos, bad, mx = 0, mind = HUGE_VALL; ref_chol(a, minpos, bad); for (auto& x : a.v) mx = std::max(mx, abs_(x));
	for (size_t i = 0; i < n; ++i) mind = std::min(mind, re_(a(i, i)));
	ld noise = 200 * (ld)n * n * eps * mx;
	if (how == 1)
	{
		if (bad > 0 && minpos > noise) BAD("rejected", "%s n=%zu: positive definite matrix (smallest pivot %Lg, largest entry %Lg) rejected", S::name(), n, minpos, mx);
		count(fmt("%s:rejected", kind).c_str());
		if (bad > 0) count("rejected:numerically-semidefinite");
		distinct(hash_vals(before, 3));
		return;
	}
	// clearly not positive definite: a non-positive diagonal entry, or a pivot well below zero after pivots well above it
	if (mind <= 0) BAD("accepted", "%s n=%zu: matrix with diagonal entry %Lg accepted", S::name(), n, mind);
	// (perturbations of the earlier pivots are amplified by at most max/pivot)
	if (bad < -noise * (1 + mx / minpos)) BAD("accepted", "%s n=%zu: indefinite matrix accepted (pivot %Lg)", S::name(), n, bad);
	if (cls == 8 && bad <= 0) BAD("accepted", "%s n=%zu: exactly semidefinite matrix accepted", S::name(), n);
	if (L.rows() != n || L.columns() != n) BAD("shape", "wrong shape");
	Mat<B> l = to_ref(L);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		if (j > i && l(i, j) != B(0)) BAD("upper", "%s n=%zu: L(%zu,%zu)=%s above the diagonal", S::name(), n, i, j, str(L.at(i, j)).c_str());
		if (i == j && !(re_(l(i, j)) > 0 && im_(l(i, j)) == 0)) BAD("diagonal", "%s n=%zu: L(%zu,%zu)=%s", S::name(), n, i, j, str(L.at(i, j)).c_str());
	}
	Mat<B> p = l * transp(l, true); Mat<ld> b = absm(l) * transp(absm(l));
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		ld d = abs_(p(i, j) - a(i, j));
		if (!(d <= gam<T>(n) * b(i, j) + tiny_<T>())) BAD("A=LL^H", "%s n=%zu class %d: (L L^H)(%zu,%zu) differs by %Lg, bound %Lg", S::name(), n, cls, i, j, d, gam<T>(n) * b(i, j));
	}
	if (cls == 0) { for (size_t i = 0; i < n * n; ++i) if (!(abs_(l.v[i] - ex.v[i]) <= 1e4L * gam<T>(n) * (1 + abs_(ex.v[i])) * std::ldexp(1.0L, (int)n))) BAD("factor", "%s n=%zu: entry %zu is not that of the factor", S::name(), n, i); count("known-factor"); }
	count(fmt("%s:factored", kind).c_str());
	if (S::cplx) { bool z = false; for (auto& x : a.v) if (im_(x) != 0) z = true; if (z) count("complex-content"); }
	distinct(hash_vals(before, hash_bytes(kind, strlen(kind))));
	sample(sh->trace);
}
namespace vh { const char* property = "C09"; }
static size_t dim(Rng& r) { return gen_dim(r, 9); }
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 12)
	{
	case 0: case 1: chol<DenseMatrix<double> >(r, dim(r)); break;
	case 2: chol<DenseMatrix<VF> >(r, dim(r)); break;
	case 3: chol<DenseMatrix<VCD > >(r, dim(r)); break;
	case 4: case 5: chol<SparseMatrix<double> >(r, dim(r)); break;
	case 6: chol<SparseMatrix<VCF > >(r, dim(r)); break;
	case 7: chol<SparseMatrix<VCD > >(r, dim(r)); break;
	case 8: chol<FixedMatrix<double, 3, 3> >(r, 3); break;
	case 9: chol<FixedMatrix<double, 5, 5> >(r, 5); break;
	case 10: chol<FixedMatrix<VCD, 4, 4> >(r, 4); break;
	default: chol<FixedMatrix<VF, 1, 1> >(r, 1); break;
	}
}
#include "vh_main.h"
