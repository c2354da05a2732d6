// C03: matrix arithmetic == mathematical operation, in every representation
#include "ref.h"
#include "matrix/MatrixConverter.h"
#include "huge.h"
using namespace NS;
using namespace ref;
using namespace vh;

template<class M> struct Kd { static const char* n() { return "fixed"; } };
template<class T> struct Kd<SparseMatrix<T> > { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };

// the entries a sparse matrix stores are exactly its non-zero ones
template<class M> void wellformed(const M&, const char*) {}
template<class T> void wellformed(const SparseMatrix<T>& A, const char* op)
{
	size_t n = 0, it_n = 0, prev = (size_t)-1;
	for (size_t i = 0; i < A.rows(); ++i) for (size_t j = 0; j < A.columns(); ++j) n += A.at(i, j) != (T)0;
	for (auto it = A.begin(); it != A.end() && it_n <= A.size(); ++it)
	{
		size_t p = it.row() * A.columns() + it.column();
		const auto& c = it;
		if ((prev != (size_t)-1 && p <= prev) || *c != A.at(it.row(), it.column()) || *c == (T)0) { viol(fmt("sparse/%s/stored", op).c_str(), "stored entries are not the ascending non-zero positions (at %zu,%zu)", it.row(), it.column()); throw Stop(); }
		prev = p; ++it_n;
	}
	if (A.filled_count() != n || it_n != n || A.empty() != (n == 0)) { viol(fmt("sparse/%s/stored-count", op).c_str(), "%zu stored, %zu visited, %zu non-zero", A.filled_count(), it_n, n); throw Stop(); }
}
// E: expected, D: allowed absolute deviation
template<class M> void expect(const M& A, const Mat<typename Sc<typename M::value_type>::B>& E, const Mat<ld>& D, const char* op)
{
	typedef typename M::value_type T;
	const size_t n = E.r, m = E.c;
	if (A.rows() != n || A.columns() != m) { viol(fmt("%s/%s/shape", Kd<M>::n(), op).c_str(), "%s: %zux%zu expected %zux%zu", Sc<T>::name(), A.rows(), A.columns(), n, m); throw Stop(); }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j)
	{
		auto e = E(i, j);
		if (!(abs_(Sc<T>::big(A.at(i, j)) - e) <= D(i, j))) { viol(fmt("%s/%s/value", Kd<M>::n(), op).c_str(), "%s %zux%zu (%zu,%zu) = %s, expected %Lg%+Lgi, allowed deviation %Lg", Sc<T>::name(), n, m, i, j, str(A.at(i, j)).c_str(), re_(e), im_(e), D(i, j)); throw Stop(); }
	}
	wellformed(A, op);
	count(fmt("%s:%s", Kd<M>::n(), op).c_str());
	count("entries-compared", n * m);
}
// expression ex and tolerance tx in terms of i and j
#define EX(A, n, m, ex, tx, op) do { Mat<typename Sc<T>::B> E_(n, m); Mat<ld> D_(n, m); for (size_t i = 0; i < E_.r; ++i) for (size_t j = 0; j < E_.c; ++j) { E_(i, j) = ex; D_(i, j) = tx; } expect(A, E_, D_, op); } while (0)
template<class V> void expect_v(const V& v, const std::vector<typename Sc<typename V::value_type>::B>& E, const std::vector<ld>& D, const char* kind, const char* op)
{
	typedef typename V::value_type T;
	if (v.size() != E.size()) { viol(fmt("%s/%s/size", kind, op).c_str(), "size %zu expected %zu", v.size(), E.size()); throw Stop(); }
	for (size_t i = 0; i < E.size(); ++i)
	{
		auto e = E[i];
		if (!(abs_(Sc<T>::big(v.linear_at(i)) - e) <= D[i])) { viol(fmt("%s/%s/value", kind, op).c_str(), "%s size %zu [%zu] = %s expected %Lg%+Lgi allowed deviation %Lg", Sc<T>::name(), E.size(), i, str(v.linear_at(i)).c_str(), re_(e), im_(e), D[i]); throw Stop(); }
	}
	count(fmt("%s:%s", kind, op).c_str());
}
// reference product of a (or its transpose) with x, and the bound of its rounding
template<class B, class X> void ref_mul(const Mat<B>& a, const X& x, bool left, std::vector<B>& E, std::vector<ld>& D, ld e, ld ty)
{
	size_t n = left ? a.c : a.r, k = left ? a.r : a.c;
	E.assign(n, B(0)); D.assign(n, 0);
	for (size_t i = 0; i < n; ++i)
	{
		for (size_t j = 0; j < k; ++j) { B q = left ? a(j, i) : a(i, j); B y = Sc<typename X::value_type>::big(x.linear_at(j)); E[i] += q * y; D[i] += abs_(q) * abs_(y); }
		D[i] = 4 * (k + 3) * e * D[i] + ty * (k + 1);
	}
}
template<class T> ld tiny() { return Sc<T>::integer ? 0 : 16 * (ld)std::numeric_limits<typename get_complex_internal<T>::type>::min(); }

template<class T> struct MatOf { typedef Mat<typename Sc<T>::B> type; };

// swap exchanges the shapes as well
template<class M> void swap_shapes(Rng&, const M&) {}
template<class M> void swap_shapes_dyn(Rng& r, const M& A)
{
	typedef typename M::value_type T; const size_t n = A.rows(), m = A.columns(); auto a = to_ref(A);
	size_t p = n, q = m; switch (r.below(4)) { case 0: p = m; q = n; break; case 1: p = 1; q = n * m; break; case 2: p = n + 1; break; default: q = 1; p = n * m; }
	M C = A, D(p, q), F(p, q); for (size_t s = 0; s < 4; ++s) { size_t i = r.below(p), j = r.below(q); T x = (T)(1.0 + s); D.set(i, j, x); F.set(i, j, x); }
	auto f = to_ref(F); label("swap-shapes"); if (r.chance(0.5)) C.swap(D); else D.swap(C);
	EX((C), p, q, (f(i, j)), (0.0L), "swap of shapes"); EX((D), n, m, (a(i, j)), (0.0L), "swap of shapes");
	count("swapped-shapes");
}
template<class T> void swap_shapes(Rng& r, const DenseMatrix<T>& A) { swap_shapes_dyn(r, A); }
template<class T> void swap_shapes(Rng& r, const SparseMatrix<T>& A) { swap_shapes_dyn(r, A); }

// elementwise operations; A and B of the same type and shape
template<class M> void elementwise(Rng& r, M& A, M& B, Kind k)
{
	typedef typename M::value_type T;
	typedef Sc<T> S;
	const size_t n = A.rows(), m = A.columns();
	auto a = to_ref(A), b = to_ref(B);
	auto ra = raw(A), rb = raw(B);
	const ld e = S::eps(), ty = tiny<T>();
	auto one = [&](typename Sc<T>::B x) { return 2 * e * abs_(x) + ty; };
	auto kept = [&](const char* op) { if (!same_bits(raw(A), ra) || !same_bits(raw(B), rb)) { viol(fmt("%s/%s/operand-changed", Kd<M>::n(), op).c_str(), "an operand changed"); throw Stop(); } };
	auto add = [&](size_t i, size_t j) { return a(i, j) + b(i, j); };
	auto sub = [&](size_t i, size_t j) { return a(i, j) - b(i, j); };
	auto mul = [&](size_t i, size_t j) { return a(i, j) * b(i, j); };
	auto tadd = [&](size_t i, size_t j) { return one(add(i, j)) + (S::cplx ? 0 : 0); };
	auto tsub = [&](size_t i, size_t j) { return one(sub(i, j)); };
	auto tmul = [&](size_t i, size_t j) { return 8 * e * abs_(a(i, j)) * abs_(b(i, j)) + ty; };
	label("add"); EX((A + B), n, m, add(i, j), tadd(i, j), "A+B"); kept("A+B");
	label("sub"); EX((A - B), n, m, sub(i, j), tsub(i, j), "A-B"); kept("A-B");
	label("emul"); EX((A * B), n, m, mul(i, j), tmul(i, j), "A*B"); kept("A*B");
	label("neg"); EX((-A), n, m, (-a(i, j)), (0.0L), "-A"); kept("-A");
	{ M C = A; label("+="); M& q = (C += B); if (&q != &C) viol("compound/self-reference", "+= does not return its target"); EX((C), n, m, add(i, j), tadd(i, j), "A+=B"); kept("A+=B"); }
	{ M C = A; label("-="); M& q = (C -= B); if (&q != &C) viol("compound/self-reference", "-= does not return its target"); EX((C), n, m, sub(i, j), tsub(i, j), "A-=B"); kept("A-=B"); }
	{ M C = A; label("*="); M& q = (C *= B); if (&q != &C) viol("compound/self-reference", "*= does not return its target"); EX((C), n, m, mul(i, j), tmul(i, j), "A*=B"); kept("A*=B"); }
	{ M C = A; label("self+="); C += C; EX((C), n, m, (a(i, j) + a(i, j)), (one(a(i, j))), "A+=A"); }
	{ M C = A; label("self-="); C -= C; EX((C), n, m, (a(i, j) - a(i, j)), (0.0L), "A-=A"); }
	{ M C = A; label("self*="); C *= C; EX((C), n, m, (a(i, j) * a(i, j)), (8 * e * abs_(a(i, j)) * abs_(a(i, j)) + ty), "A*=A"); }
	{ label("A+A"); EX((A + A), n, m, (a(i, j) + a(i, j)), (one(a(i, j))), "A+A"); label("A-A"); EX((A - A), n, m, (a(i, j) - a(i, j)), (0.0L), "A-A"); kept("A-A"); }
	// scaling
	T f = r.chance(0.1) ? (T)0 : r.chance(0.2) ? (T)1 : r.chance(0.2) ? (T)-1 : gen_nz<T>(r, k);
	auto bf = S::big(f);
	auto sc = [&](size_t i, size_t j) { return a(i, j) * bf; };
	auto tsc = [&](size_t i, size_t j) { return 8 * e * abs_(a(i, j)) * abs_(bf) + ty; };
	label("scale"); EX((A * f), n, m, sc(i, j), tsc(i, j), "A*f"); kept("A*f"); EX((f * A), n, m, sc(i, j), tsc(i, j), "f*A"); kept("f*A");
	{ M C = A; M& q = (C *= f); if (&q != &C) viol("compound/self-reference", "*=f does not return its target"); EX((C), n, m, sc(i, j), tsc(i, j), "A*=f"); }
	{
		// scale factor is an element of the matrix itself
		M C = A; auto it = C.begin();
		size_t z = r.below(n * m + 1); while (z-- && it != C.end()) ++it;
		if (it == C.end()) it = C.begin();
		if (it != C.end())
		{
			T& x = *it; auto bx = S::big(x);
			label("scale-alias"); C *= x;
			EX((C), n, m, (a(i, j) * bx), (8 * e * abs_(a(i, j)) * abs_(bx) + ty), "A*=a_ij");
		}
	}
	// transposition and conjugation
	label("transpose");
	EX((A.transpose()), m, n, (a(j, i)), (0.0L), "transpose");
	EX((A.conjugate()), n, m, (conj_(a(i, j))), (0.0L), "conjugate");
	EX((A.adjugate()), m, n, (conj_(a(j, i))), (0.0L), "adjugate");
	kept("transpose");
	// swap and copies
	if (n * m < 20000) swap_shapes(r, A);
	{
		label("swap"); M C = A, D = B; C.swap(D);
		EX((C), n, m, (b(i, j)), (0.0L), "swap");
		EX((D), n, m, (a(i, j)), (0.0L), "swap");
		M E = std::move(C); EX((E), n, m, (b(i, j)), (0.0L), "move");
		M& al = E; E = al; EX((E), n, m, (b(i, j)), (0.0L), "self-assign");
	}
	distinct(hash_vals(ra, hash_vals(rb, hash2(n * 64 + m, hash_bytes(Kd<M>::n(), 4)))));
}
template<class M, class V> void products_v(const M& A, const V& x, const V& y, bool left)
{
	typedef typename M::value_type T; typedef Sc<T> S;
	auto a = to_ref(A); auto xs = vraw(x), ys = vraw(y);
	const ld e = S::eps(), ty = tiny<T>();
	label("mul-vector");
	std::vector<typename S::B> E; std::vector<ld> D;
	if (!left) { ref_mul(a, x, false, E, D, e, ty); expect_v(A.mul(x), E, D, Kd<M>::n(), "A.mul(x)"); }
	else { ref_mul(a, y, true, E, D, e, ty); expect_v(A.mul_left(y), E, D, Kd<M>::n(), "A.mul_left(y)"); }
	if (!same_bits(vraw(x), xs) || !same_bits(vraw(y), ys)) viol(fmt("%s/mul-vector/operand-changed", Kd<M>::n()).c_str(), "vector changed");
}
template<class M, class N> auto do_mul(const M& A, const N& B) -> decltype(A.mul(B)) { return A.mul(B); }
template<class M, class N> void product(const M& A, const N& B)
{
	typedef typename M::value_type T; typedef Sc<T> S;
	auto a = to_ref(A), b = to_ref(B); auto ra = raw(A); auto rb = raw(B);
	auto c = a * b; auto ca = absm(a) * absm(b);
	const ld e = S::eps(), ty = tiny<T>();
	label("mul");
	EX((do_mul(A, B)), A.rows(), B.columns(), (c(i, j)), (4 * (A.columns() + 3) * e * ca(i, j) + ty * (A.columns() + 1)), "A.mul(B)");
	if (!same_bits(raw(A), ra) || !same_bits(raw(B), rb)) viol(fmt("%s/mul/operand-changed", Kd<M>::n()).c_str(), "operand changed");
}
template<class M> void dynamic_case(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S;
	Scaled<T> scaled(r);
	Kind k = (Kind)r.below(KINDS);
	size_t n = gen_dim(r), m = gen_dim(r), l = gen_dim(r);
	if (r.chance(0.25)) m = n;
	if (n * m * std::max(n, std::max(m, l)) > 4000000) { if (r.chance(0.5)) n = std::min<size_t>(n, 9); else m = std::min<size_t>(m, 9); l = std::min<size_t>(l, 9); }
	tr("%s %s %zux%zux%zu kind %d", Kd<M>::n(), S::name(), n, m, l, (int)k);
	bool full = r.chance(0.2);
	M A = gen_matrix<M>(r, n, m, k, full), B = gen_matrix<M>(r, n, m, k, full), C = gen_matrix<M>(r, m, l, k);
	// exact cancellation and equal entries
	if (r.chance(0.3)) for (size_t q = 0; q < n * m; ++q) if (r.chance(0.4)) B.linear_set(q, r.chance(0.5) ? A.linear_at(q) : -A.linear_at(q));
	elementwise(r, A, B, k);
	product(A, C);
	if (n == m) { product(A, A); product(A, B); }
	product(A, A.transpose()); product(A.adjugate(), A);
	// products which cancel exactly: [A -A] pattern
	auto x = gen_vector<DynamicVector<T> >(r, m, k), y = gen_vector<DynamicVector<T> >(r, n, k);
	products_v(A, x, y, false); products_v(A, x, y, true);
	if (n >= 3 && m == 4) { FixedVector<T, 4> fx; for (size_t i = 0; i < 4; ++i) fx[i] = x[i]; products_v(A, fx, fx, false); }
	if (n == 4) { FixedVector<T, 4> fy; for (size_t i = 0; i < 4; ++i) fy[i] = y[i]; products_v(A, fy, fy, true); }
}
// Operations which only move entries keep every value, the special ones included
template<class T> T gen_any(Rng& r)
{
	typedef Sc<T> S; typedef typename S::R R;
	auto one = [&]() -> double
	{
		if (S::integer) return r.pick({0.0, 1.0, -1.0, 2147483647.0, -2147483647.0, (double)r.range(-99, 99)});
		const double mn = (double)std::numeric_limits<R>::min(), dn = (double)std::numeric_limits<R>::denorm_min(), mx = (double)std::numeric_limits<R>::max();
		const double s = r.pick({0.0, 1.0, dn, mn, mn / 4, mx, (double)std::numeric_limits<R>::epsilon(), mn * 1e6, mx / 1e6, (double)INFINITY, (double)NAN, r.normal()});
		return r.chance(0.5) ? s : -s;
	};
	return S::make(one(), one());
}
template<class M> void same_entries(const M& A, const Mat<typename M::value_type>& E, const char* op)
{
	if (A.rows() != E.r || A.columns() != E.c) { viol(fmt("%s/moves/shape", Kd<M>::n()).c_str(), "%s: %zux%zu expected %zux%zu", op, A.rows(), A.columns(), E.r, E.c); throw Stop(); }
	for (size_t i = 0; i < E.r; ++i) for (size_t j = 0; j < E.c; ++j) if (!same_bits(A.at(i, j), E(i, j))) { viol(fmt("%s/moves/%s", Kd<M>::n(), op).c_str(), "%s %s %zux%zu (%zu,%zu) = %s, expected %s", Sc<typename M::value_type>::name(), op, E.r, E.c, i, j, str(A.at(i, j)).c_str(), str(E(i, j)).c_str()); throw Stop(); }
	count(fmt("%s:moves-%s", Kd<M>::n(), op).c_str());
}
template<class M> void moves_of(const M& A, const Mat<typename M::value_type>& a)
{
	typedef typename M::value_type T;
	Mat<T> t(a.c, a.r), c(a.r, a.c), h(a.c, a.r);
	bool fin = true;
	for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j)
	{
		t(j, i) = a(i, j); c(i, j) = Sc<T>::cplx ? Sc<T>::make((double)re_(Sc<T>::big(a(i, j))), -(double)im_(Sc<T>::big(a(i, j)))) : a(i, j); h(j, i) = c(i, j);
		fin = fin && finite_(Sc<T>::big(a(i, j)));
	}
	same_entries(A, a, "copy"); same_entries(A.transpose(), t, "transpose"); same_entries(A.conjugate(), c, "conjugate"); same_entries(A.adjugate(), h, "adjugate");
	if (fin || !Sc<T>::cplx) { Mat<T> n(a.r, a.c); for (size_t i = 0; i < n.v.size(); ++i) n.v[i] = -a.v[i]; same_entries(-A, n, "negation"); }
}
template<class T> void moves_case(Rng& r)
{
	const size_t n = gen_dim(r, 6), m = gen_dim(r, 6);
	auto p = gen_pattern(r, n, m);
	Mat<T> a(n, m);
	DenseMatrix<T> D(n, m); SparseMatrix<T> S(n, m);
	for (size_t q = 0; q < n * m; ++q) if (p[q]) { a.v[q] = gen_any<T>(r); D.linear_set(q, a.v[q]); S.linear_set(q, a.v[q]); }
	tr("moves %s %zux%zu", Sc<T>::name(), n, m);
	label("moves");
	distinct(hash_vals(a.v, hash2(n, m)));
	moves_of(D, a); moves_of(S, a);
	same_entries(Convert::toSparseMatrix(D), a, "toSparse"); same_entries(Convert::toDenseMatrix(S), a, "toDense");
	FixedMatrix<T, 2, 3> F; Mat<T> f(2, 3);
	for (size_t q = 0; q < 6; ++q) { f.v[q] = gen_any<T>(r); F.linear_set(q, f.v[q]); }
	moves_of(F, f); same_entries(Convert::toSparseMatrix(F), f, "toSparse");
}
template<class T> void convert_case(Rng& r)
{
	if (r.chance(0.4)) { moves_case<T>(r); return; }
	Scaled<T> scaled(r);
	Kind k = (Kind)r.below(KINDS);
	size_t n = gen_dim(r), m = gen_dim(r);
	auto D = gen_matrix<DenseMatrix<T> >(r, n, m, k);
	auto Sm = gen_matrix<SparseMatrix<T> >(r, n, m, k);
	auto zero = [](size_t, size_t) { return 0.0L; };
	auto d = to_ref(D); auto s = to_ref(Sm); auto rd = raw(D); auto rs = raw(Sm);
	tr("convert %s %zux%zu", Sc<T>::name(), n, m);
	label("convert");
	auto DS = Convert::toSparseMatrix(D); EX((DS), n, m, (d(i, j)), (0.0L), "toSparse");
	auto SD = Convert::toDenseMatrix(Sm); EX((SD), n, m, (s(i, j)), (0.0L), "toDense");
	auto b1 = Convert::toDenseMatrix(DS); EX((b1), n, m, (d(i, j)), (0.0L), "toSparse-toDense");
	auto b2 = Convert::toSparseMatrix(SD); EX((b2), n, m, (s(i, j)), (0.0L), "toDense-toSparse");
	if (!(b2 == Sm)) viol("sparse/convert/equal", "round trip is not equal");
	if (!same_bits(raw(D), rd) || !same_bits(raw(Sm), rs)) viol("convert/operand-changed", "converted matrix changed");
	FixedMatrix<T, 3, 5> F; for (size_t i = 0; i < 15; ++i) F.linear_set(i, r.chance(0.6) ? gen<T>(r, k) : (T)0);
	auto f = to_ref(F);
	EX((Convert::toSparseMatrix(F)), 3, 5, (f(i, j)), (0.0L), "fixed-toSparse");
	// dense (+-*)= fixed
	DenseMatrix<T> G = gen_matrix<DenseMatrix<T> >(r, 3, 5, k); auto g = to_ref(G);
	ld e = Sc<T>::eps(), ty = tiny<T>();
	{ auto H = G; H += F; EX((H), 3, 5, (g(i, j) + f(i, j)), (2 * e * abs_(g(i, j) + f(i, j)) + ty), "dense+=fixed"); }
	{ auto H = G; H -= F; EX((H), 3, 5, (g(i, j) - f(i, j)), (2 * e * abs_(g(i, j) - f(i, j)) + ty), "dense-=fixed"); }
	{ auto H = G; H *= F; EX((H), 3, 5, (g(i, j) * f(i, j)), (8 * e * abs_(g(i, j)) * abs_(f(i, j)) + ty), "dense*=fixed"); }
}
template<class T, size_t K1, size_t K2, size_t K3> void fixed_case(Rng& r)
{
	Scaled<T> scaled(r);
	Kind k = (Kind)r.below(KINDS);
	tr("fixed %s %zux%zux%zu", Sc<T>::name(), K1, K2, K3);
	auto mk = [&](auto& A) { auto p = gen_pattern(r, A.rows(), A.columns()); for (size_t i = 0; i < A.size(); ++i) A.linear_set(i, p[i] ? gen_nz<T>(r, k) : (T)0); };
	FixedMatrix<T, K1, K2> A, B; mk(A); mk(B);
	FixedMatrix<T, K2, K3> C; mk(C);
	elementwise(r, A, B, k);
	product(A, C); product(A, A.transpose());
	auto x = gen_vector<DynamicVector<T> >(r, K2, k); auto y = gen_vector<DynamicVector<T> >(r, K1, k);
	FixedVector<T, K2> fx; for (size_t i = 0; i < K2; ++i) fx[i] = x[i];
	FixedVector<T, K1> fy; for (size_t i = 0; i < K1; ++i) fy[i] = y[i];
	auto a = to_ref(A); typedef Sc<T> S; ld e = S::eps(), ty = tiny<T>();
	label("mul-vector");
	std::vector<typename S::B> E; std::vector<ld> D;
	ref_mul(a, fx, false, E, D, e, ty); expect_v(A.mul(fx), E, D, "fixed", "A.mul(x)");
	ref_mul(a, fy, true, E, D, e, ty); expect_v(A.mul_left(fy), E, D, "fixed", "A.mul_left(y)");
}
// indices, sizes and counts beyond 16 bits
template<class T> void huge_case(Rng& r)
{
	typedef Huge<T> H; typedef typename H::P P; typedef std::map<P, T> E;
	auto A = H::make(r, 0.02), B = H::like(r, A);
	tr("huge %s %zux%zu, %zu and %zu entries", Sc<T>::name(), A.n, A.m, A.e.size(), B.e.size());
	auto is = [&](const SparseMatrix<T>& X, const H& x, const char* op) { const char* d = x.differs(r, X); if (d) { viol(fmt("sparse/huge/%s", op).c_str(), "%s %zux%zu: %s", Sc<T>::name(), A.n, A.m, d); throw Stop(); } count(fmt("sparse:huge-%s", op).c_str()); };
	auto join = [&](int s) { H x = A.map(A.n, A.m, [](E& e, P p, T v) { e[p] = v; }); for (auto& q : B.e) { T& t = x.e[q.first]; t = s > 0 ? t + q.second : t - q.second; } for (auto it = x.e.begin(); it != x.e.end();) if (it->second == (T)0) it = x.e.erase(it); else ++it; return x; };
	label("A+B"); is(A.A + B.A, join(1), "add"); label("A-B"); is(A.A - B.A, join(-1), "sub");
	label("A*B"); H p = A.map(A.n, A.m, [&](E& e, P q, T v) { e[q] = v * B.at(q); }); is(A.A * B.A, p, "emul");
	{ auto C = A.A; C += B.A; is(C, join(1), "add"); C = A.A; C -= B.A; is(C, join(-1), "sub"); C = A.A; C *= B.A; is(C, p, "emul"); C = A.A; C -= C; is(C, H(A.n, A.m), "self-sub"); }
	label("scale"); is(A.A * (T)3, A.map(A.n, A.m, [](E& e, P q, T v) { e[q] = v * (T)3; }), "scale");
	is(-A.A, A.map(A.n, A.m, [](E& e, P q, T v) { e[q] = -v; }), "negation");
	label("transpose"); is(A.A.transpose(), A.map(A.m, A.n, [](E& e, P q, T v) { e[P(q.second, q.first)] = v; }), "transpose");
	label("adjugate"); is(A.A.adjugate(), A.map(A.m, A.n, [](E& e, P q, T v) { e[P(q.second, q.first)] = Sc<T>::make((double)re_(Sc<T>::big(v)), -(double)im_(Sc<T>::big(v))); }), "adjugate");
	label("conjugate"); is(A.A.conjugate(), A.map(A.n, A.m, [](E& e, P q, T v) { e[q] = Sc<T>::make((double)re_(Sc<T>::big(v)), -(double)im_(Sc<T>::big(v))); }), "conjugate");
	DynamicVector<T> x(A.m), y(A.n);
	for (size_t i = 0; i < A.m; ++i) x.linear_set(i, (T)(double)(1 + (i * 7 + i / 65536) % 13));
	for (size_t i = 0; i < A.n; ++i) y.linear_set(i, (T)(double)(1 + (i * 5 + i / 65536) % 11));
	std::vector<T> ex(A.n, (T)0), ey(A.m, (T)0);
	for (auto& q : A.e) { ex[q.first.first] += q.second * x.at(q.first.second); ey[q.first.second] += q.second * y.at(q.first.first); }
	label("mul-vector"); auto u = A.A.mul(x), v = A.A.mul_left(y);
	if (u.size() != A.n || v.size() != A.m) { viol("sparse/huge/product-size", "%zux%zu: sizes %zu and %zu", A.n, A.m, u.size(), v.size()); throw Stop(); }
	for (size_t i = 0; i < A.n; ++i) if (!(u.at(i) == ex[i])) { viol("sparse/huge/A.mul(x)", "%zux%zu [%zu] = %s expected %s", A.n, A.m, i, str(u.at(i)).c_str(), str(ex[i]).c_str()); throw Stop(); }
	for (size_t i = 0; i < A.m; ++i) if (!(v.at(i) == ey[i])) { viol("sparse/huge/A.mul_left(y)", "%zux%zu [%zu] = %s expected %s", A.n, A.m, i, str(v.at(i)).c_str(), str(ey[i]).c_str()); throw Stop(); }
	count("sparse:huge-mul-vector", 2);
	is(A.A, A, "operand"); is(B.A, B, "operand");
	// a thin product: few results from a long inner dimension
	if (A.n <= 300 && A.m >= 65535 && A.e.size() <= 1000)
	{
		label("mul"); H G(A.n, A.n); H t = H::like(r, A);
		for (auto& q : A.e) for (auto& z : t.e) if (q.first.second == z.first.second) { T& w = G.e[P(q.first.first, z.first.first)]; w += q.second * z.second; }
		for (auto it = G.e.begin(); it != G.e.end();) if (it->second == (T)0) it = G.e.erase(it); else ++it;
		if (A.n <= 3) is(A.A.mul(t.A.transpose()), G, "mul");
	}
	distinct(hash2(hash2(A.n, A.m), A.e.size() * 64 + B.e.size()));
}
void group0(Rng& r, u64 k); void group1(Rng& r, u64 k); void group2(Rng& r, u64 k); void group3(Rng& r, u64 k); void group4(Rng& r, u64 k);
#if VH_IN(0)
namespace vh { const char* property = "C03"; }
void vh::run_case(Rng& r, u64 idx)
{
	u64 k = idx / 5;
	if (r.chance(HUGE_CHANCE)) { if (r.chance(0.5)) huge_case<double>(r); else huge_case<VCD >(r); return; }
	switch (idx % 5)
	{
	case 0: group0(r, k); break;
	case 1: group1(r, k); break;
	case 2: group2(r, k); break;
	case 3: group3(r, k); break;
	default: group4(r, k); break;
	}
	sample(sh->trace);
}
void group0(Rng& r, u64 k)
{
	switch (k % 4)
	{
	case 0: convert_case<double>(r); break;
	case 1: convert_case<VCF >(r); break;
	case 2: convert_case<VF>(r); break;
	default: convert_case<VI>(r); break;
	}
}
#include "vh_main.h"
#endif
#if VH_IN(1)
void group1(Rng& r, u64 k)
{
	switch (k % 4)
	{
	case 0: dynamic_case<SparseMatrix<VF> >(r); break;
	case 1: dynamic_case<SparseMatrix<VI> >(r); break;
	default: dynamic_case<SparseMatrix<double> >(r); break;
	}
}
#endif
#if VH_IN(2)
void group2(Rng& r, u64 k)
{
	if (k % 2) dynamic_case<SparseMatrix<VCD > >(r);
	else dynamic_case<DenseMatrix<VCF > >(r);
}
#endif
#if VH_IN(3)
void group3(Rng& r, u64 k)
{
	switch (k % 4)
	{
	case 0: dynamic_case<DenseMatrix<VF> >(r); break;
	case 1: dynamic_case<DenseMatrix<VI> >(r); break;
	default: dynamic_case<DenseMatrix<double> >(r); break;
	}
}
#endif
#if VH_IN(4)
void group4(Rng& r, u64 k)
{
	switch (k % 4)
	{
	case 0: fixed_case<double, 3, 4, 2>(r); break;
	case 1: fixed_case<VCD, 3, 3, 4>(r); break;
	case 2: fixed_case<VI, 4, 2, 5>(r); break;
	default: fixed_case<VF, 5, 1, 3>(r); break;
	}
}
#endif
