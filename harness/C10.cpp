// C10: incomplete LU on the pattern, approximate inverses of triangular factors
#include "lu.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class T> void ilu(Rng& r)
{
	typedef Sc<T> S; typedef typename S::B B; typedef SparseMatrix<T> M;
	const char* kind = "ilu0"; const ld eps = S::eps();
	size_t n = gen_dim(r, 11); Kind k = (Kind)r.below(WIDE);
	int cls = (int)r.below(8); double d = r.pick({0.1, 0.25, 0.5, 0.9});
	Mat<B> a(n, n);
	tr("ilu0 %s n=%zu class %d", S::name(), n, cls);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && r.chance(d)) a(i, j) = S::big(gen_nz<T>(r, k));
	if (cls == 1) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) a(i, j) = a(j, i) != B(0) ? S::big(gen_nz<T>(r, k)) : B(0);// symmetric pattern
	if (cls == 2) { size_t w = 1 + r.below(3); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((i > j ? i - j : j - i) > w) a(i, j) = B(0); }// band
	if (cls == 3) { for (auto& x : a.v) x = B(0); for (size_t i = 1; i < n; ++i) { a(0, i) = S::big(gen_nz<T>(r, k)); a(i, 0) = S::big(gen_nz<T>(r, k)); } }// arrow: maximal fill-in
	grade<T>(r, a, 0.25); bool weak = r.chance(0.3);
	for (size_t i = 0; i < n; ++i)
	{
		ld s = weak; for (size_t j = 0; j < n; ++j) if (j != i) s += abs_(a(i, j));
		if (cls < 5 || s == 0) a(i, i) = (r.chance(0.5) ? B(1) : B(-1)) * B((ld)(typename S::R)(s + 0.5L + (ld)r.below(4)));
		else a(i, i) = S::big(gen_nz<T>(r, k));
	}
	size_t hole = n; bool mustfail = false;
	if (cls == 7 && n > 1) { hole = r.below(n - 1); a(hole, hole) = B(0); // missing pivot that is needed when nothing above updates it: cut the column above
		for (size_t j = 0; j < hole; ++j) { a(hole, j) = B(0); }
		size_t i = r.range((long)hole + 1, (long)n - 1); a(i, hole) = S::big(gen_nz<T>(r, k)); mustfail = true;
		// the rows before the hole must not fail for another reason, the result is the same anyway
	}
	if (cls == 6 && n > 2)
	{// a pivot that vanishes exactly: rows 0 and 1 of an exact 2x2 block are dependent
		for (size_t j = 0; j < n; ++j) { a(0, j) = B(0); a(1, j) = B(0); }
		a(0, 0) = B(2); a(0, 1) = B(3); a(1, 0) = B(-4); a(1, 1) = B(-6); a(2, 1) = S::big(gen_nz<T>(r, k)); mustfail = true;
	}
	for (auto& x : a.v) x = S::big(S::make((double)re_(x), (double)im_(x)));
	M A = from_ref<M>(r, a); auto before = raw(A); size_t nz = A.filled_count();
	size_t on = r.chance(0.5) ? n : (size_t)r.range(1, (long)n + 3);
	M L(on, on), U(on, on); dirty(r, L); dirty(r, U);
	// reference on the pattern
	Mat<B> w = a; ld minpiv = HUGE_VALL, mx = 0; bool zero = false; for (auto& x : a.v) mx = std::max(mx, abs_(x));
	for (size_t i = 1; i < n && !zero; ++i) for (size_t q = 0; q < i; ++q) if (a(i, q) != B(0))
	{
		minpiv = std::min(minpiv, abs_(w(q, q)));
		if (w(q, q) == B(0)) { zero = true; break; }
		w(i, q) /= w(q, q); for (size_t j = q + 1; j < n; ++j) if (a(i, j) != B(0)) { w(i, j) -= w(i, q) * w(q, j); mx = std::max(mx, abs_(w(i, j))); }
	}
	const ld range = half_range<T>();
	label("ilu0"); bool threw = false;
	try { LU::serial::ilu0(A, L, U); } catch (const SingularException&) { threw = true; }
	if (!same_bits(raw(A), before)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (threw)
	{
		if (!zero && minpiv > 1000 * n * eps * (1 + mx) * (1 + mx / minpiv)) BAD("rejected", "%s n=%zu: smallest pivot %Lg (largest entry %Lg) reported singular", S::name(), n, minpiv, mx);
		count("ilu0:singular"); distinct(hash_vals(before, 5)); return;
	}
	if (mustfail) BAD("accepted", "%s n=%zu class %d: zero pivot accepted", S::name(), n, cls);
	if (L.rows() != n || L.columns() != n || U.rows() != n || U.columns() != n) BAD("shape", "wrong shape");
	if (!(mx < range) || minpiv * range < 1 || has_nonfinite(w)) { count("ilu0:beyond the range of the type"); return; }
	Mat<B> l = to_ref(L), u = to_ref(U); Mat<B> lu = l * u; Mat<ld> b = absm(l) * absm(u);
	size_t fill = 0;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		if (i == j && l(i, j) != B(1)) BAD("L diagonal", "%s n=%zu (%zu,%zu) is %s", S::name(), n, i, j, str(L.at(i, j)).c_str());
		if ((j > i && (l(i, j) != B(0) || L.has(i, j))) || (j < i && (u(i, j) != B(0) || U.has(i, j)))) BAD("triangle", "%s n=%zu entry on the wrong side (%zu,%zu)", S::name(), n, i, j);
		if (a(i, j) == B(0)) { if ((i != j && l(i, j) != B(0)) || u(i, j) != B(0)) BAD("pattern", "%s n=%zu: entry (%zu,%zu) outside of the pattern", S::name(), n, i, j); if (lu(i, j) != B(0)) ++fill; continue; }
		ld d = abs_(lu(i, j) - a(i, j));
		if (!(d <= gam<T>(n) * b(i, j) + tiny_<T>())) BAD("LU=A", "%s n=%zu: (LU)(%zu,%zu) differs by %Lg, bound %Lg", S::name(), n, i, j, d, gam<T>(n) * b(i, j));
	}
	if (L.filled_count() + U.filled_count() > nz + n) BAD("count", "%s n=%zu: more entries than the pattern", S::name(), n);
	if (fill) count("ilu0:dropped-fill-in");
	count(fmt("ilu0:class %d", cls).c_str());
	distinct(hash_vals(before, 9));
	sample(sh->trace);
}
template<class M> void ainv(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	std::string ks = std::string("ainv/") + Kd<M>::n(); const char* kind = ks.c_str();
	size_t n = gen_dim(r, 10); double d = r.pick({0.0, 0.2, 0.5, 1.0}); Kind k = (Kind)r.below(WIDE);
	Mat<B> l(n, n), u(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		l(i, i) = B(1); u(i, i) = S::big(gen_nz<T>(r, k)); if (abs_(u(i, i)) < 1e-3L) u(i, i) = B(1);
		for (size_t j = 0; j < i; ++j) { if (r.chance(d)) l(i, j) = S::big(gen<T>(r, k)) / (r.chance(0.5) ? (ld)8 : (ld)1); if (r.chance(d)) u(j, i) = S::big(gen<T>(r, k)); }
	}
	grade<T>(r, l, 0.25); grade<T>(r, u, 0.25); if (r.chance(0.15)) for (size_t i = 0; i < n; ++i) u(i, i) *= some_scale<T>(r, 0.5);
	size_t zero = n; if (r.chance(0.1)) { zero = r.below(n); u(zero, zero) = B(0); }
	for (auto* m : {&l, &u}) for (auto& x : m->v) x = S::big(S::make((double)re_(x), (double)im_(x)));
	M L = from_ref<M>(r, l), U = from_ref<M>(r, u), iL = Mk<M>::make(n, n), iU = Mk<M>::make(n, n);
	auto bl = raw(L), bu = raw(U);
	tr("%s %s n=%zu", kind, S::name(), n);
	label("ainv_lu"); bool threw = false;
	try { LU::serial::ainv_lu(L, U, iL, iU); } catch (const SingularException&) { threw = true; }
	if (!same_bits(raw(L), bl) || !same_bits(raw(U), bu)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (threw != (zero < n)) BAD("singular", "%s n=%zu: diagonal entry %zu is zero, exception %d", S::name(), n, zero, threw);
	if (threw) { count("ainv:singular"); return; }
	Mat<B> x = to_ref(iL), y = to_ref(iU);
	if (!(tri_growth(l, true) < half_range<T>()) || !(tri_growth(u, false) < half_range<T>())) { count("ainv:beyond the range of the type"); return; }
	Mat<B> lx = l * x, uy = u * y; Mat<ld> bx = absm(l) * absm(x), by = absm(u) * absm(y);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		if (j > i && x(i, j) != B(0)) BAD("invL", "%s n=%zu: entry (%zu,%zu) above the diagonal", S::name(), n, i, j);
		if (j < i && y(i, j) != B(0)) BAD("invU", "%s n=%zu: entry (%zu,%zu) below the diagonal", S::name(), n, i, j);
		B e = i == j ? B(1) : B(0);
		if (!(abs_(lx(i, j) - e) <= gam<T>(n) * bx(i, j) + tiny_<T>())) BAD("L invL", "%s n=%zu: (L invL)(%zu,%zu) is off by %Lg, bound %Lg", S::name(), n, i, j, abs_(lx(i, j) - e), gam<T>(n) * bx(i, j));
		if (!(abs_(uy(i, j) - e) <= gam<T>(n) * by(i, j) + tiny_<T>())) BAD("U invU", "%s n=%zu: (U invU)(%zu,%zu) is off by %Lg, bound %Lg", S::name(), n, i, j, abs_(uy(i, j) - e), gam<T>(n) * by(i, j));
	}
	count(fmt("%s:inverted", kind).c_str());
	distinct(hash_vals(bl, hash_vals(bu, hash_bytes(kind, strlen(kind)))));
}
namespace vh { const char* property = "C10"; }
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 8)
	{
	case 0: case 1: ilu<double>(r); break;
	case 2: ilu<VF>(r); break;
	case 3: ilu<VCD >(r); break;
	case 4: ainv<SparseMatrix<double> >(r); break;
	case 5: ainv<DenseMatrix<double> >(r); break;
	case 6: ainv<SparseMatrix<VCF > >(r); break;
	default: ainv<DenseMatrix<VF> >(r); break;
	}
}
#include "vh_main.h"
