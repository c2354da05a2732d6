// C04: reductions, predicates and equality describe the content exactly
#include "ref.h"
#include "huge.h"
using namespace NS;
using namespace ref;
using namespace vh;

template<class M> struct Kd { static const char* n() { return "fixed"; } };
template<class T> struct Kd<SparseMatrix<T> > { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };
template<class T, class DC> struct Kd<Vector<T, DC> > { static const char* n() { return std::is_same<DC, dynamic_container_t<T> >::value ? "vector" : "fixedvector"; } };

// content classes: where extreme values, zeros and special values sit matters
enum Cls { MIXED, ALLNEG, ALLPOS, NONNEG, NONPOS, CONST, LARGE, SMALLV, WITHNAN, WITHINF, CLSES };
template<class T> T val(Rng& r, Cls c, Kind k)
{
	typedef Sc<T> S;
	double lim = std::is_same<typename S::R, float>::value ? 1e30 : std::is_same<T, int>::value ? 1e6 : 1e290;
	switch (c)
	{
	case ALLNEG: { T t = gen_nz<T>(r, k); return S::make(-std::fabs((double)re_(S::big(t))) - (S::integer ? 1 : 0), 0); }
	case ALLPOS: { T t = gen_nz<T>(r, k); return S::make(std::fabs((double)re_(S::big(t))) + (S::integer ? 1 : 0), 0); }
	case NONNEG: return r.chance(0.3) ? (T)0 : S::make(std::fabs((double)re_(S::big(gen<T>(r, k)))), 0);
	case NONPOS: return r.chance(0.3) ? (T)0 : S::make(-std::fabs((double)re_(S::big(gen<T>(r, k)))), 0);
	case CONST: return S::make(3, 0);
	case LARGE: return S::make(r.uni(-lim, lim), S::cplx ? r.uni(-lim, lim) : 0);
	case SMALLV: return S::integer ? (T)r.range(-2, 2) : S::make(r.normal() * (1 / lim), 0);
	default: return gen<T>(r, k);
	}
}
template<class T> bool isnan_(const T& t) { auto b = Sc<T>::big(t); return std::isnan(re_(b)) || std::isnan(im_(b)); }
template<class T> bool isinf_(const T& t) { auto b = Sc<T>::big(t); return std::isinf(re_(b)) || std::isinf(im_(b)); }
template<class T> T special(Rng& r, bool nan)
{
	double x = nan ? std::numeric_limits<double>::quiet_NaN() : r.chance(0.5) ? HUGE_VAL : -HUGE_VAL;
	return Sc<T>::cplx ? (r.chance(0.5) ? Sc<T>::make(x, 1) : Sc<T>::make(1, x)) : Sc<T>::make(x, 0);
}
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class A, class T> struct Ops;// differences of naming and availability
template<class M> struct OrderedMatrix
{
	typedef typename M::value_type T;
	static void run(const M& A, const std::vector<T>& a, bool special_)
	{
		const char* kind = Kd<M>::n();
		T mx = a[0], mn = a[0]; ld s = 0, sa = 0; bool nan = false;
		for (auto& x : a) { if (x > mx) mx = x; if (x < mn) mn = x; s += (ld)x; sa += std::fabs((ld)x); nan |= isnan_(x); }
		if (!nan)
		{
			label("max"); if (A.max() != mx) BAD("max", "%s %zux%zu max %s expected %s", Sc<T>::name(), A.rows(), A.columns(), str(A.max()).c_str(), str(mx).c_str());
			label("min"); if (A.min() != mn) BAD("min", "%s %zux%zu min %s expected %s", Sc<T>::name(), A.rows(), A.columns(), str(A.min()).c_str(), str(mn).c_str());
			count(fmt("%s:minmax", kind).c_str());
		}
		if (!special_)
		{
			label("avg");
			ld e = Sc<T>::integer ? (ld)(T)((long)s / (long)a.size()) : s / a.size(), tol = Sc<T>::integer ? 0 : (a.size() + 4) * Sc<T>::eps() * sa / a.size() + (ld)std::numeric_limits<T>::min();
			if (!(std::fabs((ld)A.avg() - e) <= tol)) BAD("avg", "%s %zux%zu avg %s expected %Lg", Sc<T>::name(), A.rows(), A.columns(), str(A.avg()).c_str(), e);
		}
	}
};
template<class M, bool C> struct MaybeOrdered { static void run(const M& A, const std::vector<typename M::value_type>& a, bool s) { OrderedMatrix<M>::run(A, a, s); } };
template<class M> struct MaybeOrdered<M, true> { static void run(const M&, const std::vector<typename M::value_type>&, bool) {} };

template<class M> void check_matrix(Rng& r, const M& A, const std::vector<typename M::value_type>& a, size_t n, size_t m, bool special_)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B;
	const char* kind = Kd<M>::n();
	B s(0), t(0); ld sa = 0, ta = 0; bool zero = false, empty = true;
	for (size_t q = 0; q < a.size(); ++q) { s += S::big(a[q]); sa += abs_(S::big(a[q])); if (a[q] == (T)0) zero = true; else empty = false; }
	for (size_t i = 0; i < std::min(n, m); ++i) { t += S::big(a[i * m + i]); ta += abs_(S::big(a[i * m + i])); }
	const ld e = S::eps();
	if (!special_)
	{
		label("sum"); if (!(abs_(S::big(A.sum()) - s) <= (a.size() + 2) * e * sa)) BAD("sum", "%s %zux%zu sum %s expected %Lg%+Lgi", S::name(), n, m, str(A.sum()).c_str(), re_(s), im_(s));
		label("trace"); if (!(abs_(S::big(A.trace()) - t) <= (a.size() + 2) * e * ta)) BAD("trace", "%s %zux%zu trace %s expected %Lg%+Lgi", S::name(), n, m, str(A.trace()).c_str(), re_(t), im_(t));
	}
	label("has_zero"); if (A.has_zero() != zero) BAD("has_zero", "%s %zux%zu has_zero %d expected %d", S::name(), n, m, A.has_zero(), zero);
	label("empty"); if (A.empty() != empty) BAD("empty", "%s %zux%zu empty %d expected %d", S::name(), n, m, A.empty(), empty);
	count(fmt("%s:zero=%d,empty=%d", kind, zero, empty).c_str());
	MaybeOrdered<M, S::cplx>::run(A, a, special_);
	bool nan = false, inf = false; for (auto& x : a) { nan |= isnan_(x); inf |= isinf_(x); }
	label("has_nan"); if (A.has_nan() != nan) BAD("has_nan", "%s has_nan %d expected %d", Sc<T>::name(), A.has_nan(), nan);
	label("has_inf"); if (A.has_inf() != inf) BAD("has_inf", "%s has_inf %d expected %d", Sc<T>::name(), A.has_inf(), inf);
	count(fmt("%s:nan=%d,inf=%d", kind, nan, inf).c_str());
	// equality
	label("equal");
	bool self = true; for (auto& x : a) if (!(x == x)) self = false;
	M Bm = A;
	if ((A == Bm) != self || (A != Bm) == self || (Bm == A) != self) BAD("equal", "%s %zux%zu equality with its copy is %d expected %d", S::name(), n, m, A == Bm, self);
	for (int k = 0; k < 3; ++k)
	{
		size_t q = k == 0 ? 0 : k == 1 ? a.size() - 1 : r.below(a.size());
		M C = A; T o = a[q], nw = o;
		int how = (int)r.below(3);
		if (isnan_(o) || isinf_(o)) nw = (T)1;
		else if (how == 0 && !S::integer) { B b = S::big(o); double re = (double)re_(b), im = (double)im_(b); if (S::cplx && r.chance(0.5)) im = std::is_same<typename S::R, float>::value ? (double)std::nextafter((float)im, 1e38f) : std::nextafter(im, 1e308); else re = std::is_same<typename S::R, float>::value ? (double)std::nextafter((float)re, 1e38f) : std::nextafter(re, 1e308); nw = S::make(re, im); }
		else if (how == 1) nw = -o; else nw = (T)0;
		if (nw == o) nw = o + (T)1;
		if (nw == o) continue;
		C.set(q / m, q % m, nw);
		if (A == C || !(A != C) || C == A) BAD("unequal", "%s %zux%zu differs at %zu (%s vs %s) but compares equal", S::name(), n, m, q, str(o).c_str(), str(nw).c_str());
		count(fmt("%s:unequal", kind).c_str());
	}
	if (!same_bits(raw(A), a)) BAD("changed", "a reduction changed the matrix");
	distinct(hash_vals(a, hash2(n * 64 + m, hash_bytes(kind, strlen(kind)))));
}
template<class M> void fill(Rng& r, M& A, std::vector<typename M::value_type>& a, size_t n, size_t m, bool& sp)
{
	typedef typename M::value_type T;
	Kind k = (Kind)r.below(KINDS); Cls c = (Cls)r.below(CLSES);
	if (Sc<T>::integer && (c == WITHNAN || c == WITHINF)) c = ALLNEG;
	a.assign(n * m, (T)0);
	std::vector<char> p = r.chance(0.45) ? std::vector<char>(n * m, 1) : gen_pattern(r, n, m);
	if (r.chance(0.15)) { std::fill(p.begin(), p.end(), 1); p[r.below(p.size())] = 0; }// exactly one missing entry
	Scaled<T> scaled(r);
	for (size_t q = 0; q < a.size(); ++q) if (p[q]) a[q] = val<T>(r, c, k);
	sp = false;
	if (c == WITHNAN || c == WITHINF) { sp = true; for (size_t z = r.range(0, 2); z--;) a[r.below(a.size())] = special<T>(r, c == WITHNAN); if (r.chance(0.2)) a[r.chance(0.5) ? 0 : a.size() - 1] = special<T>(r, c == WITHNAN); if (r.chance(0.2)) a[r.below(a.size())] = special<T>(r, c != WITHNAN); }
	if (c == LARGE) sp = !Sc<T>::integer;// sums may overflow
	std::vector<size_t> o(n * m); for (size_t q = 0; q < o.size(); ++q) o[q] = q; r.shuffle(o);
	for (size_t q : o) A.linear_set(q, a[q]);
	tr("%s %s %zux%zu class %d", Kd<M>::n(), Sc<T>::name(), n, m, (int)c);
}
template<class M> void dyn(Rng& r)
{
	size_t n = gen_dim(r, 9), m = gen_dim(r, 9);
	M A(n, m); std::vector<typename M::value_type> a; bool sp;
	fill(r, A, a, n, m, sp);
	check_matrix(r, A, a, n, m, sp);
}
template<class T, size_t K1, size_t K2> void fix(Rng& r)
{
	FixedMatrix<T, K1, K2> A; std::vector<T> a; bool sp;
	fill(r, A, a, K1, K2, sp);
	check_matrix(r, A, a, K1, K2, sp);
}
template<class V> void check_vector(Rng& r, V& v, size_t n)
{
	typedef typename V::value_type T; typedef Sc<T> S; typedef typename S::B B;
	const char* kind = Kd<V>::n();
	Kind k = (Kind)r.below(KINDS); Cls c = (Cls)r.below(CLSES);
	if (S::integer && (c == WITHNAN || c == WITHINF || (c == LARGE && n > 1000))) c = ALLNEG;
	std::vector<T> a(n);
	Scaled<T> scaled(r);
	for (auto& x : a) x = val<T>(r, c, k);
	if (r.chance(0.3)) a[r.below(n)] = (T)0;
	bool sp = c == LARGE && !S::integer;
	if (c == WITHNAN || c == WITHINF) { sp = true; for (size_t z = r.range(0, 2); z--;) a[r.below(n)] = special<T>(r, c == WITHNAN); if (r.chance(0.2)) a[r.chance(0.5) ? 0 : n - 1] = special<T>(r, c == WITHNAN); }
	for (size_t i = 0; i < n; ++i) v.linear_set(i, a[i]);
	tr("%s %s %zu class %d", kind, S::name(), n, (int)c);
	B s(0); ld sa = 0; bool nan = false, inf = false, zero = false;
	for (auto& x : a) { s += S::big(x); sa += abs_(S::big(x)); nan |= isnan_(x); inf |= isinf_(x); zero |= x == (T)0; }
	const ld e = S::eps();
	const V& cv = v;
	if (!sp)
	{
		label("v.sum"); if (!(abs_(S::big(cv.sum()) - s) <= (n + 2) * e * sa)) BAD("sum", "%s size %zu sum %s expected %Lg%+Lgi", S::name(), n, str(cv.sum()).c_str(), re_(s), im_(s));
		label("v.avg");
		if (!S::integer && !(abs_(S::big(cv.avg()) - s / (ld)n) <= (n + 8) * e * sa / n + (ld)std::numeric_limits<typename get_complex_internal<T>::type>::min())) BAD("avg", "%s size %zu avg %s expected %Lg", S::name(), n, str(cv.avg()).c_str(), re_(s) / n);
		if (S::integer && (ld)re_(S::big(cv.avg())) != (ld)((long)re_(s) / (long)n)) BAD("avg", "%s size %zu avg %s expected %ld", S::name(), n, str(cv.avg()).c_str(), (long)re_(s) / (long)n);
	}
	if (!nan && !(S::cplx && sp))
	{
		// real: the values themselves; complex: magnitudes
		std::vector<ld> key; for (auto& x : a) key.push_back(S::cplx ? abs_(S::big(x)) : re_(S::big(x)));
		ld mx = *std::max_element(key.begin(), key.end()), mn = *std::min_element(key.begin(), key.end());
		ld tol = S::cplx ? 4 * e : 0;
		label("v.max"); auto g = S::big(cv.max());
		if (std::isinf(mx) ? re_(g) != mx : !(std::fabs(re_(g) - mx) <= tol * std::fabs(mx)) || im_(g) != 0) BAD("max", "%s size %zu max %s expected %Lg", S::name(), n, str(cv.max()).c_str(), mx);
		label("v.min"); g = S::big(cv.min());
		if (std::isinf(mn) ? re_(g) != mn : !(std::fabs(re_(g) - mn) <= tol * std::fabs(mn)) || im_(g) != 0) BAD("min", "%s size %zu min %s expected %Lg", S::name(), n, str(cv.min()).c_str(), mn);
		count(fmt("%s:minmax", kind).c_str());
	}
	label("v.hasZero"); if (cv.hasZero() != zero) BAD("hasZero", "%s size %zu hasZero %d expected %d", S::name(), n, cv.hasZero(), zero);
	count(fmt("%s:zero=%d", kind, zero).c_str());
	label("v.equal");
	V w = v; bool self = true; for (auto& x : a) if (!(x == x)) self = false;
	if ((cv == w) != self || (cv != w) == self) BAD("equal", "%s equality with the copy is %d", S::name(), cv == w);
	for (int z = 0; z < 3; ++z)
	{
		size_t q = z == 0 ? 0 : z == 1 ? n - 1 : r.below(n);
		T o = a[q], nw = r.chance(0.5) ? (T)-o : (T)(o + (T)1);
		if (isnan_(o) || isinf_(o)) nw = (T)2;
		if (nw == o) nw = (T)0; if (nw == o) nw = (T)1;
		V x = v; x.linear_set(q, nw);
		if (v == x || !(v != x) || x == v) BAD("unequal", "%s size %zu differs at %zu but compares equal", S::name(), n, q);
	}
	count(fmt("%s:nan=%d,inf=%d", kind, nan, inf).c_str());
	if (!same_bits(vraw(v), a)) BAD("changed", "a reduction changed the vector");
	distinct(hash_vals(a, hash2(n, hash_bytes(kind, strlen(kind)))));
}
template<class V> void check_special(const V& v)
{
	typedef typename V::value_type T; const char* kind = Kd<V>::n();
	bool nan = false, inf = false; for (auto& x : vraw(v)) { nan |= isnan_(x); inf |= isinf_(x); }
	label("v.hasNaN"); if (v.hasNaN() != nan) BAD("hasNaN", "%s hasNaN %d expected %d", Sc<T>::name(), v.hasNaN(), nan);
	label("v.hasInf"); if (v.hasInf() != inf) BAD("hasInf", "%s hasInf %d expected %d", Sc<T>::name(), v.hasInf(), inf);
	count("vector:special");
}
template<class T> void vec(Rng& r) { size_t n = r.chance(HUGE_CHANCE) ? Huge<double>::dim(r, true) : gen_dim(r, 20); DynamicVector<T> v(n); check_vector(r, v, n); check_special(v); }
template<class T, size_t N> void fvec(Rng& r) { FixedVector<T, N> v; check_vector(r, v, N); check_special(v); }
template<class T> void cvec(Rng& r) { size_t n = r.chance(HUGE_CHANCE) ? Huge<double>::dim(r, true) : gen_dim(r, 20); DynamicVector<T> v(n); check_vector(r, v, n); check_special(v); }

// sizes and counts beyond 16 bits
template<class T> void huge_case(Rng& r)
{
	const char* kind = "sparse/huge"; typedef Sc<T> S; typedef typename S::B B;
	auto H = Huge<T>::make(r); const auto& A = H.A;
	tr("huge %s %zux%zu, %zu entries", S::name(), H.n, H.m, H.e.size());
	B s(0), t(0); const bool zeros = H.e.size() < H.n * H.m; ld mx = zeros ? 0 : -1e9L, mn = zeros ? 0 : 1e9L;
	for (auto& q : H.e) { B b = S::big(q.second); s += b; if (q.first.first == q.first.second) t += b; mx = std::max(mx, re_(b)); mn = std::min(mn, re_(b)); }
	label("sum"); if (!(S::big(A.sum()) == s)) BAD("sum", "%zux%zu sum %s expected %Lg", H.n, H.m, str(A.sum()).c_str(), re_(s));
	label("trace"); if (!(S::big(A.trace()) == t)) BAD("trace", "%zux%zu trace %s expected %Lg", H.n, H.m, str(A.trace()).c_str(), re_(t));
	label("avg"); B av = s / (ld)(H.n * H.m); if (!S::integer && !(abs_(S::big(A.avg()) - av) <= 8 * S::eps() * abs_(av))) BAD("avg", "%zux%zu avg %s expected %Lg", H.n, H.m, str(A.avg()).c_str(), re_(av));
	label("has_zero"); if (A.has_zero() != zeros || A.has_nan() || A.has_inf() || A.empty() != H.e.empty()) BAD("predicates", "%zux%zu zero %d nan %d inf %d empty %d", H.n, H.m, A.has_zero(), A.has_nan(), A.has_inf(), A.empty());
	label("max"); if ((ld)A.max() != mx || (ld)A.min() != mn) BAD("minmax", "%zux%zu max %s min %s expected %Lg %Lg", H.n, H.m, str(A.max()).c_str(), str(A.min()).c_str(), mx, mn);
	{ label("nan"); auto p = H.position(r); auto C = H.A; C.set(p.first, p.second, std::numeric_limits<T>::quiet_NaN()); if (!C.has_nan()) BAD("has_nan", "%zux%zu NaN at %zu,%zu not seen", H.n, H.m, p.first, p.second); C.set(p.first, p.second, std::numeric_limits<T>::infinity()); if (C.has_nan() || !C.has_inf()) BAD("has_inf", "%zux%zu infinity at %zu,%zu not seen", H.n, H.m, p.first, p.second); }
	{
		label("equal"); auto C = H.A; auto p = H.position(r);
		if (!(C == A) || C != A) BAD("equal", "%zux%zu a copy differs", H.n, H.m);
		C.set(p.first, p.second, H.at(p) + (T)1); if (C == A || !(C != A)) BAD("unequal", "%zux%zu differs at %zu,%zu and compares equal", H.n, H.m, p.first, p.second);
	}
	if (const char* d = H.differs(r, H.A)) BAD("changed", "%s", d);
	count("sparse:huge"); distinct(hash2(hash2(H.n, H.m), H.e.size()));
}
void group1(Rng& r, u64 k); void group2(Rng& r, u64 k); void group3(Rng& r, u64 k);
#if VH_IN(0)
namespace vh { const char* property = "C04"; }
void vh::run_case(Rng& r, u64 idx)
{
	u64 k = idx / 4;
	switch (idx % 4)
	{
	case 0:
		if (r.chance(HUGE_CHANCE)) { if (r.chance(0.5)) huge_case<double>(r); else huge_case<VF>(r); return; }
		switch (k % 6) { case 0: vec<double>(r); break; case 1: vec<VF>(r); break; case 2: vec<VI>(r); break; case 3: cvec<VCD >(r); break; case 4: fvec<double, 5>(r); break; default: fvec<VF, 3>(r); break; }
		break;
	case 1: group1(r, k); break;
	case 2: group2(r, k); break;
	default: group3(r, k); break;
	}
	sample(sh->trace);
}
#include "vh_main.h"
#endif
#if VH_IN(1)
void group1(Rng& r, u64 k) { switch (k % 4) { case 0: dyn<SparseMatrix<VF> >(r); break; case 1: dyn<SparseMatrix<VI> >(r); break; case 2: dyn<SparseMatrix<VCD > >(r); break; default: dyn<SparseMatrix<double> >(r); break; } }
#endif
#if VH_IN(2)
void group2(Rng& r, u64 k) { switch (k % 4) { case 0: dyn<DenseMatrix<VF> >(r); break; case 1: dyn<DenseMatrix<VI> >(r); break; case 2: dyn<DenseMatrix<VCD > >(r); break; default: dyn<DenseMatrix<double> >(r); break; } }
#endif
#if VH_IN(3)
void group3(Rng& r, u64 k) { switch (k % 4) { case 0: fix<double, 3, 4>(r); break; case 1: fix<VI, 4, 2>(r); break; case 2: fix<VCD, 2, 3>(r); break; default: fix<VF, 5, 1>(r); break; } }
#endif
