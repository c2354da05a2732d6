// Random programs over all modules of the library, used as workload under sanitizers (C28) and in
// concurrent threads (C29). Every result is inspected entry by entry: undefined values become visible,
// and all results are folded into one number per thread.
// The includer provides pr_op, pr_count, pr_distinct and defines PROGRAMS_WORLD and/or PROGRAMS_MESHES.
#pragma once
#include "vh.h"
#include "trimesh.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixCheck.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "OutputStream.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "export/VTKExporter.h"
#include "loader/MeshTriangleLoader.h"
#include "loader/MeshObjLoader.h"
using namespace NS; using namespace vh;

extern thread_local vh::u64 eaten;
namespace {
inline void fold(u64 b) { eaten = eaten * 0x9E3779B97F4A7C15ull + b; }
inline void eat(double x) { if (x > 0.5) fold(3); else if (x != x) { fold(5); return; } u64 b; memcpy(&b, &x, 8); fold(b); }
inline void eat(float x) { eat((double)x); }
inline void eat(const std::complex<double>& x) { eat(x.real()); eat(x.imag()); }
inline void eat(const std::complex<float>& x) { eat(x.real()); eat(x.imag()); }
inline void eat(bool b) { if (b) fold(7); else fold(11); }
inline void eat(size_t n) { if (n > 3) fold(13); fold(n); }
template<class T, class DC> void eat(const Vector<T, DC>& v) { for (Index i = 0; i < v.size(); ++i) eat(v.at(i)); }
template<class T, class DC> void eat(const BaseMatrix<T, DC>& m) { for (Index i = 0; i < m.rows(); ++i) for (Index j = 0; j < m.columns(); ++j) eat(m.at(i, j)); }
template<class T> void eat(const SparseMatrix<T>& m)
{
	for (auto it = m.begin(); it != m.end(); ++it) { eat(*it); eat((size_t)it.row()); eat((size_t)it.column()); }
	for (Index i = 0; i < m.rows(); ++i) { eat((size_t)m.row_filled_count(i)); for (auto it = m.row_begin(i); it != m.row_end(i); ++it) eat(*it); }
	for (Index j = 0; j < m.columns(); ++j) for (auto it = m.column_begin(j); it != m.column_end(j); it++) eat(*it);
}
#ifdef PROGRAMS_WORLD
template<class T> T num(Rng& r) { return (T)(r.chance(0.5) ? (double)r.range(-4, 4) : r.uni(-3, 3)); }
template<> inline std::complex<double> num(Rng& r) { return std::complex<double>(num<double>(r), r.chance(0.5) ? 0 : num<double>(r)); }
template<class T, bool real> struct Only
{// real numbers only
	template<class W> static void run(W& w, Rng& r)
	{
		auto &D = w.dense(), &E = w.dense(); auto &A = w.sparse(), &B = w.sparse(); auto &x = w.vec(), &y = w.vec();
		auto mi = (size_t)r.below(20); size_t st = 0; double eps = r.pick({1e-3, 1e-6, 10.0});
		switch (r.below(8))
		{
		case 0: w.op("cg"); if (r.chance(0.5)) w.put(CG::serial::cg(A, x, y, mi, eps, &st)); else w.put(CG::serial::cg(D, x, y, mi, eps)); eat(st); break;
		case 1: { w.op("pcg"); SparseMatrix<T> C(A.rows(), A.columns()); CG::serial::jacobi(A, C); w.put(CG::serial::pcg(A, x, C, y, mi, eps, &st)); break; }
		case 2: { w.op("pcg dense"); DenseMatrix<T> C(D.rows(), D.columns()); CG::serial::jacobi(D, C); w.put(CG::serial::pcg(D, x, C, y, mi, eps, &st)); break; }
		case 3: w.op("max"); eat(A.max()); eat(A.min()); eat(D.max()); eat(D.min()); break;
		case 4: w.op("vector max"); if (x.size()) { eat(x.max()); eat(x.min()); } break;
		case 5: w.op("pcg own"); w.put(CG::serial::pcg(A, x, B, y, mi, eps)); break;
		case 6: w.op("pcg own dense"); w.put(CG::serial::pcg(D, x, E, y, mi, eps)); break;
		default: { w.op("ainv pcg"); SparseMatrix<T> L(A.rows(), A.columns()), U(A.rows(), A.columns()), iL(A.rows(), A.columns()), iU(A.rows(), A.columns()); LU::serial::ilu0(A, L, U); LU::serial::ainv_lu(L, U, iL, iU); SparseMatrix<T> C = iU.mul(iL); w.put(CG::serial::pcg(A, x, C, y, mi, eps)); w.put(C); break; }
		}
	}
};
template<class T> struct Only<T, false> { template<class W> static void run(W& w, Rng&) { w.op("conj"); w.put(w.dense().conjugate()); w.put(w.sparse().adjugate()); } };

template<class T, bool real> struct World
{
	typedef DenseMatrix<T> D; typedef SparseMatrix<T> S; typedef DynamicVector<T> V;
	Rng& r; size_t n; std::vector<D> d; std::vector<S> s; std::vector<V> v; const char* what = "";
	std::vector<DynamicVector<Index> > perms;
	void op(const char* w) { what = w; pr_op(w); }
	size_t dim() { return r.chance(0.85) ? n : 1 + r.below(6); }
	D& dense() { return d[r.below(d.size())]; } S& sparse() { return s[r.below(s.size())]; } V& vec() { return v[r.below(v.size())]; }
	void put(const D& x) { eat(x); D& t = dense(); t = x; } void put(const S& x) { eat(x); S& t = sparse(); t = x; } void put(const V& x) { eat(x); V& t = vec(); t = x; }
	D rand_dense() { D x(dim(), dim()); for (Index i = 0; i < x.rows(); ++i) for (Index j = 0; j < x.columns(); ++j) if (r.chance(0.8)) x.set(i, j, num<T>(r)); return x; }
	S rand_sparse()
	{
		size_t R = dim(), C = dim(); S x(R, C, r.below(4)); int h = (int)r.below(4);
		for (size_t k = 0, c = r.below(R * C + 2); k < c; ++k) x.set(r.below(R), r.below(C), num<T>(r));
		if (h == 1) for (size_t i = 0; i < std::min(R, C); ++i) x.set(i, i, (T)(double)(5 + r.below(20)));// diagonally dominant
		if (h == 2) { x = S(R, R); for (size_t i = 0; i < R; ++i) { x.set(i, i, (T)8.0); if (i) { T q = (T)(double)r.range(-3, 3); x.set(i, i - 1, q); x.set(i - 1, i, q); } } }// symmetric positive definite
		return x;
	}
	V rand_vec() { V x(dim()); for (Index i = 0; i < x.size(); ++i) x.set(i, num<T>(r)); return x; }
	explicit World(Rng& r_) : r(r_), n(1 + r_.below(5))
	{
		for (int i = 0; i < 3; ++i) { d.push_back(rand_dense()); s.push_back(rand_sparse()); v.push_back(rand_vec()); }
		perms.push_back(DynamicVector<Index>(n)); for (Index i = 0; i < n; ++i) perms[0][i] = i;
	}
	void vectors()
	{
		V &a = vec(), &b = vec(); T f = num<T>(r);
		switch (r.below(14))
		{
		case 0: op("v+="); a += b; break; case 1: op("v-= f"); a -= f; a += f; break; case 2: op("v*="); a *= b; a *= f; break; case 3: op("v/="); a /= b; break;
		case 4: op("v+v"); put(a + b * f - a); break; case 5: op("v f"); put(f - a + f * b); break; case 6: op("dot"); eat(a.dot(b)); eat(a.mag()); eat(a.magSqr()); break;
		case 7: op("normalized"); put(a.normalized()); break;
		case 8: op("slices"); { if (!a.size()) break; const V c(a); size_t i = r.below(c.size()), j = i + 1 + r.below(c.size() - i); put(c.left(i)); put(c.right(i)); put(c.mid(i, j)); eat(c.has(i, j, f)); break; }
		case 9: op("v=="); eat(a == b); eat(a != b); break;
		case 10: op("fill"); a.fill(f); if (r.chance(0.5)) { eat(a.sum()); if (a.size()) eat(a.avg()); } break;
		case 11: op("v swap"); a.swap(b); eat(a.hasNaN() || a.hasInf() || a.hasZero()); break;
		case 12: op("v resize"); a.resize(dim()); eat(a); break;
		default: op("v ops"); { V c(a); c = std::move(a); a = c; a = a; if (!a.hasZero()) a.do_reciprocal(); put(-a); V e; e = a; for (auto x : e) eat(x); std::ostringstream o; o << e; eat(o.str().size()); break; }
		}
	}
	void denses()
	{
		D &a = dense(), &b = dense(); T f = num<T>(r); V& x = vec();
		switch (r.below(16))
		{
		case 0: op("d+="); a += b; break; case 1: op("d-="); a -= b; break; case 2: op("d*="); a *= b; a *= f; break; case 3: op("d+d"); put(a + b - a * f + (-b)); break;
		case 4: op("d*d"); put(a * b); put(f * b); break; case 5: op("d mul"); put(a.mul(b)); break; case 6: op("d mul v"); put(a.mul(x)); put(a.mul_left(x)); break;
		case 7: op("d transpose"); put(a.transpose()); put(a.conjugate()); put(a.adjugate()); break;
		case 8: op("d swap"); a.swap(b); a.swap(a); break;
		case 9: op("d set"); { size_t i = r.below(a.rows()), j = r.below(a.columns()); a.set(i, j, f); a.linear_set(r.below(a.size()), f); eat(a.linear_at(r.below(a.size()))); T q; if (a.has(i, j, q)) eat(q); auto it = a.begin(); it = a.set(it, f); it = a.erase(it); for (auto c = a.column_begin(j); c != a.column_end(j); ++c) eat(*c); for (auto c = a.row_begin(i); c != a.row_end(i); c++) *c = f; break; }
		case 10: op("d reductions"); eat(a.sum()); eat(a.avg()); eat(a.has_nan() || a.has_inf() || a.has_zero() || a.empty()); eat(a.trace()); break;
		case 11: op("d=="); eat(a == b); eat(a != b); break;
		case 12: op("d lu"); { D L(dim(), dim()), U(dim(), dim()), P(dim(), dim()); if (r.chance(0.8)) { L = D(a.rows(), a.columns()); U = L; P = L; } size_t pc = 0; LU::serial::doolittle(a, L, U, P, r.chance(0.5) ? &pc : nullptr); eat(pc); eat(L); eat(U); put(P); put(LU::serial::solve_lu(L, U, x)); put(Operations::inverse(L, U)); put(Operations::inverse(L, U, P)); break; }
		case 13: op("d inverse"); eat(Operations::determinant(a)); put(Operations::inverse(a)); break;
		case 14: op("d cholesky"); { D L(a.rows(), a.columns()); D m = r.chance(0.7) ? a.mul(a.adjugate()) : a; LU::serial::cholesky(m, L); put(L); break; }
		default: op("d checks"); eat(Check::matrixIsSymmetric(a)); eat(Check::matrixIsHermitian(a)); eat(Check::matrixIsSkewSymmetric(a)); eat(Check::matrixIsSkewHermitian(a)); eat(Check::matrixIsProjection(a)); eat(Check::matrixIsOrthogonal(a)); eat(Check::matrixIsUnitary(a)); break;
		}
	}
	void sparses()
	{
		S &a = sparse(), &b = sparse(); T f = num<T>(r); V& x = vec();
		switch (r.below(20))
		{
		case 0: op("s+="); a += b; break; case 1: op("s-="); a -= b; break; case 2: op("s*="); a *= b; a *= f; break; case 3: op("s+s"); put(a + b - a * f + (-b)); break;
		case 4: op("s*s"); put(a * b); put(f * b); break; case 5: op("s mul"); put(a.mul(b)); break; case 6: op("s mul v"); put(a.mul(x)); put(a.mul_left(x)); break;
		case 7: op("s transpose"); put(a.transpose()); put(a.conjugate()); put(a.adjugate()); break;
		case 8: op("s swap"); a.swap(b); a.swap(a); break;
		case 9: op("s set"); for (int k = 0; k < 5; ++k) { size_t i = r.below(a.rows()), j = r.below(a.columns()); a.set(i, j, r.chance(0.4) ? (T)0.0 : f); a.linear_set(r.below(a.size()), r.chance(0.5) ? (T)0.0 : f); eat(a.linear_at(r.below(a.size()))); eat(a.at(i, j)); T q; if (a.has(i, j, q)) eat(q); eat(a.has(j % a.rows(), i % a.columns())); } break;
		case 10: op("s erase"); { auto it = a.begin(); size_t k = 0; while (it != a.end() && k++ < 60) { if (r.chance(0.4)) it = a.erase(it); else if (r.chance(0.3)) { it = a.set(it, f); ++it; } else { *it = f; ++it; } } break; }
		case 11: op("s reductions"); eat(a.sum()); eat(a.avg()); eat(a.has_nan() || a.has_inf() || a.has_zero() || a.empty()); eat(a.trace()); eat((size_t)a.filled_count()); break;
		case 12: op("s=="); eat(a == b); eat(a != b); break;
		case 13: op("s lu"); { S L(dim(), dim()), U(dim(), dim()), P(dim(), dim()); if (r.chance(0.8)) { L = S(a.rows(), a.columns()); U = L; P = L; } size_t pc = 0; LU::serial::doolittle(a, L, U, P, r.chance(0.5) ? &pc : nullptr); eat(pc); eat(L); eat(U); put(P); put(LU::serial::solve_lu(L, U, x)); put(Operations::inverse(L, U)); put(Operations::inverse(L, U, P)); break; }
		case 14: op("s inverse"); eat(Operations::determinant(a)); put(Operations::inverse(a)); break;
		case 15: op("s cholesky"); { S L(a.rows(), a.columns()); S m = r.chance(0.7) ? a.mul(a.adjugate()) : a; LU::serial::cholesky(m, L); put(L); break; }
		case 16: op("ilu0"); { S L(a.rows(), a.columns()), U(a.rows(), a.columns()); if (r.chance(0.2)) L = b; LU::serial::ilu0(a, L, U); eat(L); eat(U); S iL(a.rows(), a.columns()), iU(a.rows(), a.columns()); LU::serial::ainv_lu(L, U, iL, iU); put(iL); put(iU); put(LU::serial::solve_lu(L, U, x)); break; }
		case 17: op("s checks"); eat(Check::matrixIsSymmetric(a)); eat(Check::matrixIsHermitian(a)); eat(Check::matrixIsSkewSymmetric(a)); eat(Check::matrixIsSkewHermitian(a)); eat(Check::matrixIsProjection(a)); eat(Check::matrixIsOrthogonal(a)); eat(Check::matrixIsUnitary(a)); break;
		case 18: op("s moves"); { S c(a); S e(std::move(c)); c = e; a = a; b = std::move(e); b = c; put(c); std::ostringstream o; o << c << dense(); eat(o.str().size()); break; }
		default: op("iterative"); { size_t st = 0, mi = r.below(15); if (r.chance(0.5)) put(Iterative::serial::jacobi(a, x, vec(), mi, 1e-4, &st)); else put(Iterative::serial::sor(a, x, vec(), r.uni(0.5, 1.6), mi, 1e-4, &st)); if (r.chance(0.3)) put(Iterative::serial::sor(dense(), x, vec(), 1.0, mi)); if (r.chance(0.3)) put(Iterative::serial::jacobi(dense(), x, vec(), mi)); eat(st); }
		}
	}
	void mixed()
	{
		D& a = dense(); S& b = sparse();
		switch (r.below(9))
		{
		case 0: op("convert"); put(Convert::toSparseMatrix(a)); put(Convert::toDenseMatrix(b)); break;
		case 1: op("cuthill"); { if (b.rows() != b.columns()) break; auto p = cuthill_mckee(b); for (Index i = 0; i < p.size(); ++i) eat((size_t)p[i]); perms.push_back(p); perms.push_back(r_cuthill_mckee(b)); break; }
		case 2: op("permutate"); { auto& p = r.pick(perms); if (p.size() == b.rows() && b.rows() == b.columns()) put(permutate(b, p)); for (auto& x : v) if (x.size() == p.size()) { put(permutate(x, inverse_permutation(p))); break; } put(permutation_matrix<T>(p)); break; }
		case 3: op("construct"); { size_t c = dim(); put(Construct::eye<DenseMatrix, T>(c, dim())); put(Construct::eye<SparseMatrix, T>(dim(), c)); V& x = vec(); if (x.size()) { put(Construct::diag<DenseMatrix, T>(x)); put(Construct::diag<SparseMatrix, T>(x)); } put(Construct::diag(a)); put(Construct::diag(b)); break; }
		case 4: op("triangles"); { int k = (int)r.range(-3, 3); put(Construct::tril(a, k)); put(Construct::triu(a, k)); put(Construct::tril(b, k)); put(Construct::triu(b, k)); break; }
		case 5: op("hilbert"); put(Construct::hilbert<DenseMatrix, T>(n)); put(Construct::inv_hilbert<DenseMatrix, T>(n)); put(Construct::hilbert<SparseMatrix, T>(n)); put(Construct::inv_hilbert<SparseMatrix, T>(n)); break;
		case 6: op("lists"); { D l{{num<T>(r), num<T>(r)}, {num<T>(r)}}; S k{{num<T>(r), (T)0.0}, {(T)0.0, num<T>(r)}, {num<T>(r)}}; V x{num<T>(r), num<T>(r)}; put(l); put(k); put(x); FixedMatrix<T, 2, 3> m{{num<T>(r), num<T>(r)}, {num<T>(r)}}; FixedVector<T, 3> y{num<T>(r)}; eat(m); eat(y); eat(m.mul(y)); eat(m.transpose().mul(m)); eat(m.mul_left(m.mul(y))); m += m; m *= m; m *= num<T>(r); eat(m == m); FixedMatrix<T, 3, 3> q = m.transpose().mul(m); for (Index z = 0; z < 3; ++z) q.set(z, z, q.at(z, z) + (T)7.0); eat(Operations::determinant(q)); FixedMatrix<T, 3, 3> L, U, P; LU::serial::doolittle(q, L, U, P); eat(L); eat(U); eat(LU::serial::solve_lu(L, U, y)); q.swap(L); break; }
		case 7: op("fresh"); put(rand_dense()); put(rand_sparse()); put(rand_vec()); break;
		default: Only<T, real>::run(*this, r);
		}
	}
	void run()
	{
		size_t steps = r.chance(0.1) ? 150 : 30;
		for (size_t k = 0; k < steps; ++k)
		{
			try { switch (r.below(8)) { case 0: vectors(); break; case 1: case 2: denses(); break; case 3: case 4: case 5: sparses(); break; default: mixed(); } }
			catch (const NSException& e) { eat(strlen(e.what())); pr_count("exceptions"); pr_count(fmt("exception:%s", what).c_str()); }
			// values must stay small enough to be meaningful
			for (auto& x : d) if (x.has_nan() || x.has_inf() || big(x.begin(), x.end())) x = rand_dense();
			for (auto& x : s) if (x.has_nan() || x.has_inf() || big(x.begin(), x.end())) x = rand_sparse();
			for (auto& x : v) { bool b = x.hasNaN() || x.hasInf(); if (!b) for (auto y : x) b = b || std::abs(y) > 1e6; if (b) x = rand_vec(); }
			pr_count("steps");
		}
		for (auto& x : s) eat(x); for (auto& x : d) eat(x); for (auto& x : v) eat(x);
		pr_distinct(hash2(eaten, r.s));
	}
	template<class I, class J> static bool big(I a, J e) { for (; a != e; ++a) { T x = *a; if (std::abs(x) > 1e6) return true; } return false; }
};
#endif
#ifdef PROGRAMS_MESHES
template<class T> struct Meshes
{
	typedef Mesh<T, 2> M; typedef std::string S;
	struct H { M m; int state; };// state: 0 bare, 1 neighbours, 2 prepared, 3 with degrees of freedom
	Rng& r; std::vector<H> h; const char* what = ""; S file;
	explicit Meshes(Rng& r_, const char* f = "m.vtu") : r(r_), file(f) {}
	void op(const char* w) { what = w; pr_op(w); }
	S text(int kind)
	{
		trimesh::Ref m = trimesh::random_ref(r, 8); S a, b;
		if (kind == 0) { a = fmt("%zu 2 0 0\n", m.p.size()); for (size_t i = 0; i < m.p.size(); ++i) a += fmt("%zu %g %g\n", i + 1, m.p[i][0], m.p[i][1]); b = fmt("%zu 3 0\n", m.t.size()); for (size_t i = 0; i < m.t.size(); ++i) b += fmt("%zu %zu %zu %zu\n", i + 1, m.t[i].v[0] + 1, m.t[i].v[1] + 1, m.t[i].v[2] + 1); }
		else { for (auto& p : m.p) a += fmt("v %g %g 0\n", p[0], p[1]); if (r.chance(0.3)) a += "vn 0 0 1\nvt 0 1\n"; for (auto& t : m.t) a += fmt("f %zu %zu %zu\n", t.v[0] + 1, t.v[1] + 1, t.v[2] + 1); }
		auto spoil = [&](S& s) { if (!r.chance(0.35) || s.empty()) return; for (int k = 0, c = (int)r.range(1, 3); k < c; ++k) { size_t i = r.below(s.size()); switch (r.below(5)) { case 0: s.resize(i + 1); break; case 1: s[i] = "0123456789 .-\n#/x"[r.below(17)]; break; case 2: s.insert(i, 1, "0123456789 .-\n#/x"[r.below(17)]); break; case 3: s.erase(i, r.range(1, 5)); break; default: s.erase(i, s.find('\n', i) - i); } if (s.empty()) s = " "; } };
		spoil(a); if (kind == 0) { spoil(b); return a + '\1' + b; }
		return a;
	}
	void add(M m, int st) { if (h.size() < 5) h.push_back({m, st}); else { size_t i = r.below(5); h[i].m = m; h[i].state = st; } }
	void look(H& x)
	{
		op("look"); const M& m = x.m;
		for (auto v : m.vertices()) { eat(v->Vertex); eat((size_t)v->Flags); eat((size_t)v->GlobalIndex); for (auto e : v->Elements) eat(e->Vertices[0] == v); }
		for (auto e : m.elements()) for (int k = 0; k < 3; ++k) { eat(e->Vertices[k]->Vertex); eat(e->Element[k]); if (x.state >= 1) { auto f = e->Neighbors[k]; eat(f->Elements[0] == e); eat(f->Elements[1] == nullptr); eat(f->Vertices[0]->Vertex); } }
		for (auto f : m.edges()) for (auto q : f->DOFVertices) eat(q->Vertex);
		if (x.state >= 2) for (auto e : m.elements())
		{
			auto& s = e->Element; eat(s.volume()); eat(s.center()); eat(s.outerRadius()); eat(s.diameter()); eat(s.determinant()); eat(s.matrix()); eat(s.inverseMatrix());
			for (int k = 0; k < 3; ++k) { eat(s.faceCenter(k)); eat(s.faceNormal(k)); } for (int k = 0; k < 2; ++k) eat(s.gradient(k)); eat(s.toGlobal(s.toLocal(s.center())));
			Simplex<T, 2> c(s); eat(c.volume()); c.prepare(); eat(c.volume());
		}
		if (x.state >= 3) for (auto e : m.elements()) for (auto v : e->DOFVertices) { eat(v->Vertex); eat((size_t)v->GlobalIndex); eat((size_t)v->Flags); }
	}
	template<int O> void solve(H& x)
	{
		op(O == 1 ? "linear system" : "quadratic system");
		M& m = x.m; typedef PolyShapeFunction<T, 2, O> SF; SF sf; GaussLegendreQuadrature<T, 2, (O == 1 ? 2 : 3)> q;
		if (x.state == 2) { SF::prepareMesh(m); share(x.m, 3); }
		size_t n = m.vertices().size(); SparseMatrix<T> A(n, n, n * 7); DynamicVector<T> b(n);
		for (auto e : m.elements())
		{
			if (e->DOFVertices.size() != SF::DOF) return;// other order
			for (Index i = 0; i < SF::DOF; ++i)
			{
				for (Index j = 0; j < SF::DOF; ++j)
				{
					T v = q.eval([&](const FixedVector<T, 2>& p) -> T { return e->Element.inverseMatrix().mul_left(sf.gradient(i, p)).dot(e->Element.inverseMatrix().mul_left(sf.gradient(j, p))); }, (T)0) * std::abs(e->Element.determinant());
					Index a = e->DOFVertices[i]->GlobalIndex, c = e->DOFVertices[j]->GlobalIndex; A.set(a, c, A.at(a, c) + v);
				}
				b[e->DOFVertices[i]->GlobalIndex] += q.eval([&](const FixedVector<T, 2>& p) -> T { return sf.value(i, p); }, (T)0);
			}
		}
		for (auto v : m.vertices()) if (v->Flags & MVF_StrongBoundary) { Index i = v->GlobalIndex; for (auto it = A.row_begin(i); it != A.row_end(i); ++it) *it = (T)0; A.set(i, i, (T)1); b[i] = 0; }
		eat(A); eat(b); DynamicVector<T> x0(n), u(n);
		try { u = Iterative::serial::sor(A, b, x0, 1.2, 30); eat(u); u = CG::serial::cg(A, b, x0, 30); eat(u); } catch (const NSException&) { pr_count("exceptions"); }
		if (r.chance(0.3)) try { SparseMatrix<T> L(n, n), U(n, n); LU::serial::ilu0(A, L, U); u = LU::serial::solve_lu(L, U, b); eat(u); } catch (const NSException&) { pr_count("exceptions"); }
		if (r.chance(0.5))
		{
			std::map<S, DynamicVector<T>*> pd, cd; pd["u"] = &u; DynamicVector<T> c(m.elements().size()); if (r.chance(0.5)) cd["c"] = &c;
			for (Index i = 0; i < u.size(); ++i) if (!(std::abs(u[i]) < 1e30)) u[i] = 0;
			VTKExporter<T, 2>::write(file.c_str(), m, pd, cd, (int)r.below(32) | (O == 2 ? VOO_IsQuadratic : 0)); pr_count("exported");
		}
	}
	static const void* id(const M& m) { return m.vertices().empty() ? nullptr : (const void*)m.vertices()[0]; }
	void share(const M& m, int st) { if (auto p = id(m)) for (auto& y : h) if (id(y.m) == p) y.state = st; }
	void step()
	{
		size_t c = r.below(h.empty() ? 4 : 13);
		if (c < 4) switch (c)
		{
		case 0: { op("cube"); FixedVector<Index, 2> n; n[0] = r.below(4); n[1] = r.below(5); FixedVector<T, 2> s, o; s[0] = 1; s[1] = (T)0.5; o[0] = o[1] = 3; add(HyperCube<T, 2>::generate(n, s, o), 1); return; }
		case 1: { op("load triangle"); S a = text(0); size_t p = a.find('\1'); M m = MeshTriangleLoader<T>::loadString(a.substr(0, p), a.substr(p + 1)); pr_count("triangle loaded"); add(m, 1); return; }
		case 2: { op("load obj"); M m = MeshObjLoader<T>::loadString(text(1)); pr_count("obj loaded"); add(m, 1); return; }
		default: { op("build"); auto m = trimesh::random_ref(r, 12); trimesh::Built<T> b; trimesh::add_vertices(b, m); for (auto& t : m.t) trimesh::add_element(b, t); if (r.chance(0.2)) { add(b.mesh, 0); return; } b.mesh.setupNeighbors(); if (r.chance(0.5)) b.mesh.setupNeighbors(); if (r.chance(0.7)) b.mesh.setupBoundaries(); add(b.mesh, 1); return; }
		}
		H& x = h[r.below(h.size())];
		switch (c)
		{
		case 4: op("copy"); { M y(x.m); M z; z = y; y = y; M w(std::move(y)); y = w; h.push_back({z, x.state}); if (h.size() > 5) h.erase(h.begin()); return; }
		case 5: op("assign"); { H& y = h[r.below(h.size())]; if (r.chance(0.5)) { y.m = x.m; y.state = x.state; } else if (&y != &x) { std::swap(x.m, y.m); std::swap(x.state, y.state); } return; }
		case 6: op("clear"); x.m.clear(); { const void* p = nullptr; (void)p; } for (auto& y : h) if (y.m.vertices().empty() && y.m.elements().empty()) y.state = 0; return;
		case 7: op("drop"); h.erase(h.begin() + r.below(h.size())); return;
		case 8: op("prepare"); if (x.state == 1) { x.m.setupBoundaries(); for (auto e : x.m.elements()) if (std::fabs(cross(e)) < 1e-3) return; x.m.prepare(); share(x.m, 2); } return;
		case 9: op("validate"); if (x.state >= 2) x.m.validate(); return;
		case 10: if (x.state >= 2 && x.m.vertices().size() < 80) solve<1>(x); return;
		case 11: if (x.state >= 2 && x.m.vertices().size() < 80) solve<2>(x); return;
		default: look(x);
		}
	}
	static double cross(const MeshElement<T, 2>* e) { auto &a = e->Vertices[0]->Vertex, &b = e->Vertices[1]->Vertex, &c = e->Vertices[2]->Vertex; return (double)((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])); }
	void run()
	{
		for (size_t k = 0; k < 25; ++k)
		{
			try { step(); } catch (const NSException& e) { eat(strlen(e.what())); pr_count("exceptions"); pr_count(fmt("exception:%s", what).c_str()); }
			pr_count("steps");
		}
		pr_distinct(hash2(eaten, r.s));
	}
};
#endif
}
