// C06: incompatible shapes are rejected with the documented exception, and without effect
#include "ref.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "Iterative.h"
#include "CG.h"
using namespace NS;
using namespace ref;
using namespace vh;

template<class M> struct Kd { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };

enum { VS = 1, MS = 2, MM = 4, MV = 8, SQ = 16, OUTM = 32, OTHER = 64, NONE = 128, ABRT = 256 };
static const char* nm(int e)
{
	switch (e) { case VS: return "VectorSizeMismatch"; case MS: return "MatrixSizeMismatch"; case MM: return "MatrixMulMismatch"; case MV: return "MatrixVectorMismatch"; case SQ: return "NotSquare"; case OUTM: return "InvalidOutputMatrix"; case NONE: return "accepted"; case ABRT: return "aborted"; default: return "other exception"; }
}
static int classify(const NSException& e)
{
	if (dynamic_cast<const VectorSizeMismatchException*>(&e)) return VS;
	if (dynamic_cast<const MatrixSizeMismatchException*>(&e)) return MS;
	if (dynamic_cast<const MatrixMulMismatchException*>(&e)) return MM;
	if (dynamic_cast<const MatrixVectorMismatchException*>(&e)) return MV;
	if (dynamic_cast<const NotSquareException*>(&e)) return SQ;
	if (dynamic_cast<const InvalidOutputMatrixException*>(&e)) return OUTM;
	return OTHER;
}
// several violated conditions may be reported in any order
static int g_res;
#define REJ(name, allowed, ...) do { label(name); g_res = NONE; \
	if (probe([&]() { try { __VA_ARGS__; } catch (const NSException& ex) { g_res = classify(ex); } catch (...) { g_res = OTHER; } }) != RETURNED) g_res = ABRT; \
	report(kind, name, g_res, allowed, sh_); } while (0)
static void report(const char* kind, const char* name, int got, int allowed, const std::string& shapes)
{
	NoCount nc;
	if (!(got & allowed)) viol(fmt("%s/%s:%s", kind, name, nm(got)).c_str(), "%s: %s, expected exception set %d", shapes.c_str(), nm(got), allowed);
	count(fmt("%s:%s", kind, name).c_str());
	count(fmt("rejected:%s", nm(got)).c_str());
}
template<class M> struct Snap
{
	const M& m; std::vector<typename M::value_type> v; size_t r, c;
	explicit Snap(const M& x) : m(x), v(raw(x)), r(x.rows()), c(x.columns()) {}
	bool ok() const { return m.rows() == r && m.columns() == c && same_bits(raw(m), v); }
};
template<class V> struct VSnap
{
	const V& m; std::vector<typename V::value_type> v;
	explicit VSnap(const V& x) : m(x), v(vraw(x)) {}
	bool ok() const { return m.size() == v.size() && same_bits(vraw(m), v); }
};
#define KEPT(s, what) do { if (!(s).ok()) { viol(fmt("%s/%s:changed", kind, what).c_str(), "%s: operand changed by a rejected operation", sh_.c_str()); throw Stop(); } } while (0)

template<class T> struct CGs
{
	template<class M> static void run(const M& A, const std::string& sh_, Rng& r)
	{
		const char* kind = Kd<M>::n(); size_t n = A.rows(), m = A.columns(); size_t it;
		typedef DynamicVector<T> V;
		V b = gen_vector<V>(r, n, SMALLINT), x = gen_vector<V>(r, m, SMALLINT), y = gen_vector<V>(r, n + 1 + r.below(3), SMALLINT), z = gen_vector<V>(r, n > 1 ? n - 1 : n + 2, SMALLINT);
		Snap<M> sa(A); VSnap<V> sb(b), sx(x), sy(y);
		if (n != m)
		{
			REJ("cg(non-square)", SQ, keep(CG::serial::cg(A, b, x, 5, 1e-6, &it)));
			M C(m, m); REJ("pcg(non-square)", SQ, keep(CG::serial::pcg(A, b, C, x, 5, 1e-6, &it)));
			M D(n, n); REJ("cg.jacobi(non-square)", SQ, CG::serial::jacobi(A, D));
		}
		else
		{
			REJ("cg(b)", VS | MV, keep(CG::serial::cg(A, y, x, 5, 1e-6, &it)));
			REJ("cg(b short)", VS | MV, keep(CG::serial::cg(A, z, x, 5, 1e-6, &it)));
			REJ("cg(x0)", VS | MV | MM, keep(CG::serial::cg(A, b, y, 5, 1e-6, &it)));
			REJ("cg(x0 short)", VS | MV | MM, keep(CG::serial::cg(A, b, z, 5, 1e-6, &it)));
			REJ("cg(b,x0)", VS | MV | MM, keep(CG::serial::cg(A, y, y, 5, 1e-6, &it)));
			M C(n, n); for (size_t i = 0; i < n; ++i) C.set(i, i, (T)1);
			REJ("pcg(b)", VS | MV, keep(CG::serial::pcg(A, y, C, x, 5, 1e-6, &it)));
			REJ("pcg(x0)", VS | MV | MM, keep(CG::serial::pcg(A, b, C, y, 5, 1e-6, &it)));
			M D(n + 1, n + 1), E(n, n + 2), F(n + 1, n);
			REJ("pcg(C size)", MS, keep(CG::serial::pcg(A, b, D, x, 5, 1e-6, &it)));
			REJ("pcg(C non-square)", SQ | MS, keep(CG::serial::pcg(A, b, E, x, 5, 1e-6, &it)));
			REJ("pcg(C non-square)", SQ | MS, keep(CG::serial::pcg(A, b, F, x, 5, 1e-6, &it)));
			REJ("cg.jacobi(size)", MS, CG::serial::jacobi(A, D));
			REJ("cg.jacobi(non-square out)", SQ | MS, CG::serial::jacobi(A, E));
		}
		KEPT(sa, "cg A"); KEPT(sb, "cg b"); KEPT(sx, "cg x0"); KEPT(sy, "cg y");
	}
};
template<class U> struct CGs<std::complex<U> > { template<class M> static void run(const M&, const std::string&, Rng&) {} };
template<class T> void sparse_only(Rng& r, const SparseMatrix<T>& A, const std::string& sh_)
{
	const char* kind = "sparse"; typedef SparseMatrix<T> M; size_t n = A.rows(), m = A.columns();
	Snap<M> sa(A);
	DynamicVector<Index> perm(n), perm2(n + 1 + r.below(3)), perm3(n > 1 ? n - 1 : n + 2);
	for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
	for (size_t i = 0; i < perm2.size(); ++i) perm2[i] = i;
	for (size_t i = 0; i < perm3.size(); ++i) perm3[i] = i;
	if (n != m)
	{
		REJ("cuthill_mckee", SQ, keep(cuthill_mckee(A)));
		REJ("r_cuthill_mckee", SQ, keep(r_cuthill_mckee(A)));
		REJ("permutate(non-square)", SQ | MM, keep(permutate(A, perm)));
		DynamicVector<Index> pm(m); for (size_t i = 0; i < m; ++i) pm[i] = i;
		REJ("permutate(non-square)", SQ | MM, keep(permutate(A, pm)));
		M L = gen_matrix<M>(r, 2, 2, SMALLINT), U = L; Snap<M> sl(L), su(U);
		REJ("ilu0", SQ, LU::serial::ilu0(A, L, U));
		KEPT(sl, "ilu0 L"); KEPT(su, "ilu0 U");
	}
	else
	{
		REJ("permutate(size)", MM | MV, keep(permutate(A, perm2)));
		REJ("permutate(size)", MM | MV, keep(permutate(A, perm3)));
	}
	DynamicVector<T> v = gen_vector<DynamicVector<T> >(r, n, SMALLINT); VSnap<DynamicVector<T> > sv(v);
	REJ("permutate(v)", VS, keep(permutate(v, perm2)));
	REJ("permutate(v)", VS, keep(permutate(v, perm3)));
	KEPT(sa, "reordering"); KEPT(sv, "permutate(v)");
}
template<class T> void sparse_only(Rng&, const DenseMatrix<T>&, const std::string&) {}
template<class T> void dense_only(Rng& r, const DenseMatrix<T>& A, const std::string& sh_)
{
	const char* kind = "dense"; typedef DenseMatrix<T> M; size_t n = A.rows();
	Snap<M> sa(A);
	M L = gen_matrix<M>(r, n, n, SMALLINT, true), U(n, n), P = L;
	M X = gen_matrix<M>(r, n + 1, n, SMALLINT, true), Y = gen_matrix<M>(r, n, n + 1, SMALLINT, true), Z = gen_matrix<M>(r, n + 2, n + 2, SMALLINT, true);
	Snap<M> sl(L), sp(P), sx(X), sy(Y), sz(Z);
	M* bad[3] = {&X, &Y, &Z};
	for (int i = 0; i < 3; ++i)
	{
		REJ("doolittle(L)", OUTM | MS, LU::serial::doolittle(A, *bad[i], U, P));
		REJ("doolittle(P)", OUTM | MS, LU::serial::doolittle(A, L, U, *bad[i]));
		KEPT(sl, "doolittle L"); KEPT(sp, "doolittle P"); KEPT(sa, "doolittle A"); KEPT(sx, "doolittle X"); KEPT(sy, "doolittle Y"); KEPT(sz, "doolittle Z");
	}
	// a fixed-size matrix of another shape
	FixedMatrix<T, 3, 2> F; Snap<FixedMatrix<T, 3, 2> > sf(F);
	M B = gen_matrix<M>(r, 2, 3, SMALLINT, true); Snap<M> sb(B);
	M* q = &B; REJ("A+=F", MS, *q += F); REJ("A-=F", MS, *q -= F); REJ("A*=F", MS, *q *= F);
	KEPT(sb, "A op= F"); KEPT(sf, "F");
}
template<class T> void dense_only(Rng&, const SparseMatrix<T>&, const std::string&) {}

template<class M> void pairs(Rng& r, size_t n, size_t m, size_t p, size_t q)
{
	typedef typename M::value_type T; typedef DynamicVector<T> V;
	const char* kind = Kd<M>::n();
	std::string sh_ = fmt("%s %zux%zu with %zux%zu", Sc<T>::name(), n, m, p, q);
	tr("%s %s", kind, sh_.c_str());
	Kind k = (Kind)r.below(KINDS);
	M A = gen_matrix<M>(r, n, m, k, r.chance(0.5)), B = gen_matrix<M>(r, p, q, k, r.chance(0.5));
	V v = gen_vector<V>(r, p, k), w = gen_vector<V>(r, n, k), x = gen_vector<V>(r, m, k), e(0);
	Snap<M> sa(A), sb(B); VSnap<V> sv(v), sw(w), sx(x);
	size_t it;
	M* pa = &A; V* pv = &v;
	if (n != p || m != q)
	{
		REJ("A+=B", MS, *pa += B); KEPT(sa, "A+=B"); KEPT(sb, "A+=B");
		REJ("A-=B", MS, *pa -= B); KEPT(sa, "A-=B"); KEPT(sb, "A-=B");
		REJ("A*=B", MS, *pa *= B); KEPT(sa, "A*=B"); KEPT(sb, "A*=B");
		REJ("A+B", MS, keep(A + B)); REJ("A-B", MS, keep(A - B)); REJ("A*B", MS, keep(A * B)); KEPT(sa, "A+B"); KEPT(sb, "A+B");
		bool eq = false; label("A==B"); g_res = NONE;
		probe([&]() { try { eq = A == B; } catch (const NSException& ex) { g_res = classify(ex); } });
		if (eq || !(g_res & (NONE | MS))) viol(fmt("%s/A==B", kind).c_str(), "%s: equal=%d outcome %s", sh_.c_str(), eq, nm(g_res));
		KEPT(sa, "A==B");
		// triangular factors of different size
		if (n != m) { REJ("solve_lu(L)", SQ | MS | MV, keep(LU::serial::solve_lu(A, B, w))); REJ("inverse(L,U)", SQ | MS, keep(Operations::inverse(A, B))); }
		else if (p != q) { REJ("solve_lu(U)", SQ | MS | MV, keep(LU::serial::solve_lu(A, B, w))); REJ("inverse(L,U)", SQ | MS, keep(Operations::inverse(A, B))); REJ("inverse(L,U,P)", SQ | MS, keep(Operations::inverse(A, A, B))); }
		else
		{
			REJ("solve_lu(L,U)", MS, keep(LU::serial::solve_lu(A, B, w)));
			REJ("inverse(L,U)", MS, keep(Operations::inverse(A, B)));
			REJ("inverse(L,U,P)", MS, keep(Operations::inverse(A, A, B)));
			REJ("inverse(L,U,P)", MS, keep(Operations::inverse(A, B, A)));
			M C(n, n); Snap<M> sc(C);
			REJ("ainv_lu(U)", MS, LU::serial::ainv_lu(A, B, C, C));
			REJ("ainv_lu(invL)", MS, M G(n, n); LU::serial::ainv_lu(A, A, B, G));
			REJ("ainv_lu(invU)", MS, M G(n, n); LU::serial::ainv_lu(A, A, G, B));
			REJ("cholesky(L)", OUTM | MS, LU::serial::cholesky(A, B));
			KEPT(sb, "ainv/cholesky output");
		}
		KEPT(sa, "A"); KEPT(sb, "B");
	}
	if (m != p)
	{
		REJ("A.mul(B)", MM, keep(A.mul(B))); KEPT(sa, "A.mul(B)"); KEPT(sb, "A.mul(B)");
		REJ("A.mul(v)", MM | MV, keep(A.mul(v))); KEPT(sa, "A.mul(v)"); KEPT(sv, "A.mul(v)");
	}
	if (n != p) { REJ("A.mul_left(v)", MM | MV, keep(A.mul_left(v))); KEPT(sa, "A.mul_left(v)"); KEPT(sv, "A.mul_left(v)"); }
	if (n != m)
	{
		if (n != m) { REJ("A.mul(A)", MM, keep(A.mul(A))); REJ("A.mul(w)", MM | MV, keep(A.mul(w))); REJ("A.mul_left(x)", MM | MV, keep(A.mul_left(x))); }
		M L = gen_matrix<M>(r, n, n, k), U = gen_matrix<M>(r, n, n, k), P = gen_matrix<M>(r, n, n, k);
		Snap<M> sl(L), su(U), sp(P);
		REJ("doolittle", SQ, LU::serial::doolittle(A, L, U, P));
		KEPT(sl, "doolittle L"); KEPT(sp, "doolittle P"); KEPT(su, "doolittle U");
		REJ("inverse", SQ, keep(Operations::inverse(A)));
		REJ("cholesky", SQ, LU::serial::cholesky(A, L)); KEPT(sl, "cholesky L");
		M N(n, m); REJ("cholesky", SQ, LU::serial::cholesky(A, N));
		REJ("jacobi", SQ, keep(Iterative::serial::jacobi(A, w, w, 5, 1e-6, &it)));
		REJ("jacobi", SQ, keep(Iterative::serial::jacobi(A, x, x, 5, 1e-6, &it)));
		REJ("jacobi", SQ | MV, keep(Iterative::serial::jacobi(A, w, x, 5, 1e-6, &it)));
		REJ("sor", SQ, keep(Iterative::serial::sor(A, w, w, 1.0, 5, 1e-6, &it)));
		REJ("sor", SQ | MV, keep(Iterative::serial::sor(A, w, x, 1.0, 5, 1e-6, &it)));
		REJ("ainv_lu(non-square)", SQ | MS, M G(n, n), H(n, n); LU::serial::ainv_lu(A, A, G, H));
		REJ("ainv_lu(non-square)", SQ | MS, M G(n, n); LU::serial::ainv_lu(L, L, A, G));
		REJ("ainv_lu(non-square)", SQ | MS, M G(n, n); LU::serial::ainv_lu(L, L, G, A));
		// only one of the factors is not square
		REJ("ainv_lu(L non-square)", SQ | MS, M G(n, n), H(n, n); LU::serial::ainv_lu(A, U, G, H));
		REJ("ainv_lu(U non-square)", SQ | MS, M G(n, n), H(n, n); LU::serial::ainv_lu(L, A, G, H));
		REJ("solve_lu(L non-square)", SQ | MS | MV, keep(LU::serial::solve_lu(A, U, w)));
		REJ("solve_lu(U non-square)", SQ | MS | MV, keep(LU::serial::solve_lu(L, A, w)));
		REJ("inverse(L non-square,U)", SQ | MS, keep(Operations::inverse(A, U)));
		REJ("inverse(L,U non-square)", SQ | MS, keep(Operations::inverse(L, A)));
		REJ("inverse(L non-square,U,P)", SQ | MS, keep(Operations::inverse(A, U, P)));
		REJ("inverse(L,U non-square,P)", SQ | MS, keep(Operations::inverse(L, A, P)));
		REJ("inverse(L,U,P non-square)", SQ | MS, keep(Operations::inverse(L, U, A)));
		KEPT(sl, "L"); KEPT(su, "U"); KEPT(sp, "P");
		KEPT(sa, "A"); KEPT(sw, "w"); KEPT(sx, "x");
	}
	else if (n != p)
	{
		REJ("solve_lu(b)", MV, keep(LU::serial::solve_lu(A, A, v)));
		REJ("jacobi(b)", MV, keep(Iterative::serial::jacobi(A, v, w, 5, 1e-6, &it)));
		REJ("jacobi(x0)", MV, keep(Iterative::serial::jacobi(A, w, v, 5, 1e-6, &it)));
		REJ("sor(b)", MV, keep(Iterative::serial::sor(A, v, w, 1.0, 5, 1e-6, &it)));
		REJ("sor(x0)", MV, keep(Iterative::serial::sor(A, w, v, 1.0, 5, 1e-6, &it)));
		REJ("sor(b,x0)", MV, keep(Iterative::serial::sor(A, v, v, 1.0, 5, 1e-6, &it)));
		KEPT(sa, "A"); KEPT(sv, "v"); KEPT(sw, "w");
	}
	if (n != p)
	{
		const char* mk = kind; kind = "vector";
		REJ("v+=w", VS, *pv += w); REJ("v-=w", VS, *pv -= w); REJ("v*=w", VS, *pv *= w); REJ("v/=w", VS, *pv /= w);
		KEPT(sv, "v op= w"); KEPT(sw, "v op= w");
		REJ("v+w", VS, keep(v + w)); REJ("v-w", VS, keep(v - w)); REJ("v*w", VS, keep(v * w)); REJ("v/w", VS, keep(v / w));
		REJ("v.dot(w)", VS, keep(v.dot(w))); REJ("v+=empty", VS, *pv += e); REJ("empty+=v", VS, e += v); REJ("v.dot(empty)", VS, keep(v.dot(e)));
		bool eq = false; g_res = NONE; label("v==w");
		probe([&]() { try { eq = v == w; } catch (const NSException& ex) { g_res = classify(ex); } });
		if (eq || !(g_res & (NONE | VS))) viol("vector/v==w", "%s: equal=%d outcome %s", sh_.c_str(), eq, nm(g_res));
		KEPT(sv, "v op w"); KEPT(sw, "v op w");
		kind = mk;
	}
	CGs<T>::run(A, sh_, r);
	sparse_only(r, A, sh_);
	if (n == m) dense_only(r, A, sh_);
	KEPT(sa, "A"); KEPT(sb, "B"); KEPT(sv, "v"); KEPT(sw, "w"); KEPT(sx, "x");
	distinct(hash2(hash2(n * 64 + m, p * 64 + q), hash_bytes(Sc<T>::name(), 4) + (kind[0] == 's')));
	if (n * m == p * q && n != p) count("same element count, other shape");
}
void group1(Rng& r, u64 t, size_t n, size_t m, size_t p, size_t q); void group2(Rng& r, u64 t, size_t n, size_t m, size_t p, size_t q);
#if VH_IN(0)
namespace vh { const char* property = "C06"; }
static const size_t B = 5;
void vh::run_case(Rng& r, u64 idx)
{
	u64 t = idx % 6, k = idx / 6; size_t n, m, p, q;
	if (k < B * B * B * B) { n = k % B + 1; m = k / B % B + 1; p = k / B / B % B + 1; q = k / B / B / B + 1; count("exhaustive-shapes"); }
	else
	{
		n = r.range(1, 14); m = r.chance(0.4) ? n : r.range(1, 14); p = r.range(1, 14); q = r.range(1, 14);
		int h = (int)r.below(5);
		if (h == 0) { p = m; q = n; }
		else if (h == 1) { p = n; q = m + 1; }
		else if (h == 2) { p = n + 1; q = m; }
		else if (h == 3) { p = 1; q = n * m > 40 ? 40 : n * m; }
	}
	if (t < 3) group1(r, t, n, m, p, q); else group2(r, t - 3, n, m, p, q);
	sample(sh->trace);
}
#include "vh_main.h"
#endif
#if VH_IN(1)
void group1(Rng& r, u64 t, size_t n, size_t m, size_t p, size_t q) { switch (t) { case 0: pairs<SparseMatrix<double> >(r, n, m, p, q); break; case 1: pairs<SparseMatrix<VF> >(r, n, m, p, q); break; default: pairs<SparseMatrix<VCD > >(r, n, m, p, q); } }
#endif
#if VH_IN(2)
void group2(Rng& r, u64 t, size_t n, size_t m, size_t p, size_t q) { switch (t) { case 0: pairs<DenseMatrix<double> >(r, n, m, p, q); break; case 1: pairs<DenseMatrix<VF> >(r, n, m, p, q); break; default: pairs<DenseMatrix<VCD > >(r, n, m, p, q); } }
#endif
