// C08: pivoted LU: P A = L U, structure, pivot parity, singularity
#include "lu.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class M> void lu_case(Rng& r, size_t n, bool other_shape_outputs)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	const char* kind = Kd<M>::n();
	const ld eps = S::eps();
	int mode = (int)r.below(10);
	Mat<B> eL, eU; std::vector<size_t> ep; size_t zero_at = n + 1; Mat<B> a;
	tr("%s %s n=%zu mode %d", kind, S::name(), n, mode);
	if (mode < 2) { zero_at = mode == 0 ? r.below(n) : n; a = exact_lu<B>(r, n, zero_at, eL, eU, ep); }
	else if (mode == 2) { a = gen_square<T>(r, n); size_t c = r.below(n); for (size_t i = 0; i < n; ++i) a(i, c) = B(0); }// zero column
	else a = gen_square<T>(r, n);
	M A = from_ref<M>(r, a);
	auto before = raw(A);
	size_t on = other_shape_outputs ? (size_t)r.range(1, (long)n + 2) : n;
	M L = Mk<M>::make(on, on), U = Mk<M>::make(on, on), P = Mk<M>::make(on, on);
	dirty(r, L); dirty(r, U); dirty(r, P);
	size_t piv = 12345; bool given = r.chance(0.9);
	bool threw = false;
	label("doolittle");
	try { LU::serial::doolittle(A, L, U, P, given ? &piv : nullptr); } catch (const SingularException&) { threw = true; }
	if (!same_bits(raw(A), before)) BAD("input changed", "%s n=%zu", S::name(), n);
	RefLU<B> q = ref_lu(a);
	if (threw)
	{
		ld need = 100 * n * eps * q.maxu + 4 * eps;
		if (n == 1 || q.minpiv > need) BAD("rejected", "%s n=%zu: regular matrix (smallest pivot %Lg, largest entry %Lg) reported singular", S::name(), n, q.minpiv, q.maxu);
		count(fmt("%s:singular", kind).c_str());
		distinct(hash_vals(before, 1));
		return;
	}
	// an exact zero pivot column before the last step
	if (zero_at + 1 < n) BAD("accepted", "%s n=%zu: zero pivot at step %zu not reported", S::name(), n, zero_at);
	if (mode == 2) { bool last = true; for (size_t c = 0; c + 1 < n && last; ++c) { bool z = true; for (size_t i = 0; i < n; ++i) if (a(i, c) != B(0)) z = false; if (z) last = false; } if (!last) BAD("accepted", "%s n=%zu: zero column not reported", S::name(), n); }
	if (L.rows() != n || L.columns() != n || U.rows() != n || U.columns() != n || P.rows() != n || P.columns() != n) BAD("shape", "outputs have the wrong shape");
	// P: a permutation
	std::vector<size_t> p(n, n); std::vector<char> used(n, 0);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		B x = S::big(P.at(i, j));
		if (x == B(0)) continue;
		if (x != B(1) || p[i] != n || used[j]) BAD("P", "%s n=%zu: P is no permutation", S::name(), n);
		p[i] = j; used[j] = 1;
	}
	for (size_t i = 0; i < n; ++i) if (p[i] == n) BAD("P", "%s n=%zu: row %zu of P is empty", S::name(), n, i);
	Mat<B> l = to_ref(L), u = to_ref(U);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		if (i == j && l(i, j) != B(1)) BAD("L diagonal", "%s n=%zu: L(%zu,%zu)=%s", S::name(), n, i, j, str(L.at(i, j)).c_str());
		if (j > i && l(i, j) != B(0)) BAD("L upper", "%s n=%zu: L(%zu,%zu)=%s", S::name(), n, i, j, str(L.at(i, j)).c_str());
		if (j < i && u(i, j) != B(0)) BAD("U lower", "%s n=%zu: U(%zu,%zu)=%s", S::name(), n, i, j, str(U.at(i, j)).c_str());
		if (!(abs_(l(i, j)) <= 1 + 8 * eps)) BAD("L modulus", "%s n=%zu: |L(%zu,%zu)|=%Lg", S::name(), n, i, j, abs_(l(i, j)));
	}
	Mat<B> lu = l * u; Mat<ld> bound = absm(l) * absm(u);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		ld d = abs_(lu(i, j) - a(p[i], j));
		if (!(d <= gam<T>(n) * bound(i, j) + tiny_<T>())) BAD("PA=LU", "%s n=%zu: (LU)(%zu,%zu) differs from (PA) by %Lg, bound %Lg", S::name(), n, i, j, d, gam<T>(n) * bound(i, j));
	}
	if (given && (piv % 2 == 1) != odd(p)) BAD("parity", "%s n=%zu: %zu pivots reported, permutation is %s", S::name(), n, piv, odd(p) ? "odd" : "even");
	if (zero_at == n)
	{// unambiguous and exact: the factors themselves
		for (size_t i = 0; i < n; ++i) if (p[i] != ep[i]) BAD("exact P", "%s n=%zu: row %zu", S::name(), n, i);
		for (size_t i = 0; i < n * n; ++i) if (l.v[i] != eL.v[i] || u.v[i] != eU.v[i]) BAD("exact LU", "%s n=%zu: entry %zu", S::name(), n, i);
		count("exact-factors");
	}
	if (odd(p)) count(fmt("%s:odd", kind).c_str());
	count(fmt("%s:factored", kind).c_str());
	bool id = true; for (size_t i = 0; i < n; ++i) if (p[i] != i) id = false;
	if (!id) count(fmt("%s:pivoted", kind).c_str());
	distinct(hash_vals(before, hash_bytes(kind, strlen(kind))));
	sample(sh->trace);
}
void g1(Rng& r, u64 k); void g2(Rng& r, u64 k); void g3(Rng& r, u64 k);
#if VH_IN(0)
namespace vh { const char* property = "C08"; }
void vh::run_case(Rng& r, u64 idx) { if (idx % 3 == 0) g1(r, idx / 3); else if (idx % 3 == 1) g2(r, idx / 3); else g3(r, idx / 3); }
#include "vh_main.h"
#endif
static inline size_t dim(Rng& r) { return r.chance(0.03) ? (size_t)r.range(20, 40) : gen_dim(r, 9); }
#if VH_IN(1)
void g1(Rng& r, u64 k) { switch (k % 4) { case 0: lu_case<DenseMatrix<double> >(r, dim(r), false); break; case 1: lu_case<DenseMatrix<VF> >(r, dim(r), false); break; case 2: lu_case<DenseMatrix<VCD > >(r, dim(r), false); break; default: lu_case<DenseMatrix<VCF > >(r, dim(r), false); } }
#endif
#if VH_IN(2)
void g2(Rng& r, u64 k) { bool o = r.chance(0.3); switch (k % 4) { case 0: lu_case<SparseMatrix<double> >(r, dim(r), o); break; case 1: lu_case<SparseMatrix<VF> >(r, dim(r), o); break; case 2: lu_case<SparseMatrix<VCD > >(r, dim(r), o); break; default: lu_case<SparseMatrix<VCF > >(r, dim(r), o); } }
#endif
#if VH_IN(3)
void g3(Rng& r, u64 k) { switch (k % 6) { case 0: lu_case<FixedMatrix<double, 3, 3> >(r, 3, false); break; case 1: lu_case<FixedMatrix<double, 1, 1> >(r, 1, false); break; case 2: lu_case<FixedMatrix<VCD, 4, 4> >(r, 4, false); break; case 3: lu_case<FixedMatrix<VF, 2, 2> >(r, 2, false); break; case 4: lu_case<FixedMatrix<double, 6, 6> >(r, 6, false); break; default: lu_case<FixedMatrix<double, 4, 4> >(r, 4, false); } }
#endif
