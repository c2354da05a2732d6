// C29: threads reading shared objects and threads owning their objects. ThreadSanitizer watches every access,
// the results of every operation of every thread are compared bit by bit with those of a sequential run.
#include "vh.h"
namespace {
inline void pr_op(const char*) {}
inline void pr_count(const char*) {}
inline void pr_distinct(vh::u64) {}
}
#define PROGRAMS_WORLD
#if VH_IN(3) || VH_IN(4) || VH_IN(5)
# define PROGRAMS_MESHES
#endif
#include "programs.h"
#include <thread>
#include <sched.h>
#include "Normal.h"
namespace c29 { typedef void Prog(Rng&, const char*); Prog prog_d, prog_f, prog_c, prog_md, prog_mf; void shared_d(Rng&); void shared_f(Rng&); void shared_c(Rng&); void mesh_d(Rng&); void mesh_f(Rng&); }

namespace {
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
inline u64 tick() { return __builtin_ia32_rdtsc(); }
inline void perturb(Rng& q) { switch (q.below(6)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0, n = (int)q.below(3000); i < n; ++i) {} break; default: break; } }
struct Event { u64 t; unsigned thread, op; };

// runs f(thread, step) for all steps on all threads (in an order of its own per thread), then once more sequentially
template<class F> void race(Rng& r, unsigned threads, const std::vector<unsigned>& ops, const char* const* names, F f)
{
	NoCount nc;
	const size_t n = ops.size();
	std::vector<std::vector<u64> > got(threads, std::vector<u64>(n, 0));
	std::vector<std::vector<Event> > log(threads); std::vector<u64> seeds(threads); std::vector<char> failed(threads, 0);
	for (unsigned t = 0; t < threads; ++t) { log[t].reserve(n); seeds[t] = r.next(); }
	std::atomic<unsigned> ready{0};
	int same_order = r.chance(0.5);
	std::vector<std::thread> th;
	for (unsigned t = 0; t < threads; ++t)
		th.emplace_back([&, t]
		{
			NoCount nc2; Rng q(seeds[t]);
			ready.fetch_add(1); while (ready.load() < threads) sched_yield();
			size_t shift = same_order ? 0 : q.below(n);
			for (size_t k = 0; k < n; ++k)
			{
				size_t s = (k + shift) % n; perturb(q);
				log[t].push_back(Event{tick(), t, (unsigned)s});
				eaten = 17;
				try { f(t, ops[s]); } catch (const NSException& e) { fold(strlen(e.what())); } catch (...) { failed[t] = 1; }
				got[t][s] = eaten;
			}
		});
	for (auto& x : th) x.join();
	std::vector<Event> all; for (auto& l : log) all.insert(all.end(), l.begin(), l.end());
	std::sort(all.begin(), all.end(), [](const Event& a, const Event& b) { return a.t < b.t; });
	u64 h = 0; size_t switches = 0; for (size_t i = 0; i < all.size(); ++i) { h = hash2(h, all[i].thread * 1000 + all[i].op); switches += i && all[i].thread != all[i - 1].thread; }
	distinct(h); count("operations", all.size()); count("switches", switches);
	if (switches >= threads) count("interleaved");
	for (unsigned t = 0; t < threads; ++t) if (failed[t]) BAD("exception", "thread %u ended with a foreign exception", t);
	for (size_t s = 0; s < n; ++s)
	{
		for (unsigned t = 0; t < threads; ++t)
		{
			eaten = 17; try { f(t, ops[s]); } catch (const NSException& e) { fold(strlen(e.what())); }
			if (got[t][s] != eaten) BAD(fmt("result:%s", names[ops[s]]).c_str(), "thread %u of %u got another result than the sequential run", t, threads);
		}
		count(names[ops[s]]);
	}
}
inline std::vector<unsigned> choose(Rng& r, size_t of, size_t n) { std::vector<unsigned> o; for (size_t i = 0; i < n; ++i) o.push_back((unsigned)r.below(of)); return o; }

template<class T, bool real> struct RealOps { template<class I> static void run(const I& in, int k)
{
	size_t st = 0; typedef DynamicVector<T> V; V u;
	switch (k)
	{
	case 0: eat(CG::serial::cg(in.A, in.x, in.y, 12, 1e-9, &st)); eat(st); break;
	case 1: { SparseMatrix<T> C(in.n, in.n); CG::serial::jacobi(in.A, C); eat(CG::serial::pcg(in.A, in.x, C, in.y, 12, 1e-9, &st)); eat(st); break; }
	case 2: eat(CG::serial::cg(in.D, in.x, in.y, 12, 1e-9)); break;
	case 3: eat(in.A.max()); eat(in.A.min()); eat(in.D.max()); eat(in.D.min()); eat(in.x.max()); eat(in.x.min()); break;
	default: eat(CG::serial::pcg(in.A, in.x, in.B, in.y, 8)); break;
	}
} };
template<class T> struct RealOps<T, false> { template<class I> static void run(const I& in, int) { eat(in.A.adjugate()); eat(in.D.adjugate()); } };

template<class T, bool real> struct Shared_
{
	size_t n; SparseMatrix<T> A, B, L, U; DenseMatrix<T> D, E; DynamicVector<T> x, y; FixedMatrix<T, 3, 3> F; FixedVector<T, 3> g; DynamicVector<Index> p;
	explicit Shared_(Rng& r) : n(2 + r.below(9)), A(n, n), B(n, n), L(n, n), U(n, n), D(n, n), E(n, n), x(n), y(n)
	{
		for (size_t i = 0; i < n; ++i)
		{
			A.set(i, i, (T)(double)(8 + r.below(5))); D.set(i, i, (T)(double)(9 + r.below(5)));
			if (i) { T q = (T)(double)r.range(-3, 3); A.set(i, i - 1, q); A.set(i - 1, i, q); }
			x.set(i, num<T>(r)); y.set(i, num<T>(r));
			for (size_t j = 0; j < n; ++j) { if (r.chance(0.4)) B.set(i, j, num<T>(r)); E.set(i, j, num<T>(r)); if (j < i) { T q = (T)(r.uni(-1, 1)); D.set(i, j, q); D.set(j, i, q); } }
		}
		for (Index i = 0; i < 3; ++i) { g[i] = num<T>(r); for (Index j = 0; j < 3; ++j) F.set(i, j, num<T>(r) + (i == j ? (T)9.0 : (T)0.0)); }
		LU::serial::ilu0(A, L, U); p = cuthill_mckee(A);
	}
	static const char* const* names()
	{
		static const char* const t[] = {"vectors", "vector reads", "dense arithmetic", "dense products", "dense reads", "dense lu", "dense cholesky", "dense inverse", "dense checks", "dense views", "sparse arithmetic", "sparse products",
			"sparse reads", "sparse lu", "sparse cholesky", "sparse inverse", "sparse checks", "sparse iteration", "ilu0", "solve_lu", "ainv", "reordering", "jacobi", "sor", "real 0", "real 1", "real 2", "real 3", "real 4",
			"conversion", "construction", "fixed", "output", "copies", "equality", "columns", "sparse reductions", "dense iteration"};
		return t;
	}
	static const size_t OPS = 38;
	void run(unsigned op) const
	{
		switch (op)
		{
		case 0: eat(x + y * (T)2.0 - x / (T)3.0); eat((T)1.0 - x); eat(-y); eat(x.dot(y)); eat(x.mag()); eat(x.normalized()); break;
		case 1: for (Index i = 0; i < n; ++i) { eat(x[i]); eat(x.linear_at(i)); } for (auto v : x) eat(v); eat(x.sum()); eat(x.left(n / 2)); eat(x.right(n / 2)); eat(x.mid(0, n)); eat(x.hasZero()); eat(x == y); break;
		case 2: eat(D + E); eat(D - E); eat(-D); eat(D * E); eat(D * (T)2.0); { DenseMatrix<T> t(D); t += E; t -= D; t *= E; eat(t); } break;
		case 3: eat(D.mul(E)); eat(D.mul(x)); eat(D.mul_left(x)); eat(D.transpose()); eat(D.conjugate()); break;
		case 4: for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) { eat(D.at(i, j)); eat(D.linear_at(i * n + j)); T q; eat(D.has(i, j, q)); } eat(D.sum()); eat(D.trace()); eat(D.avg()); eat(D.has_nan()); eat(D.empty()); break;
		case 5: { DenseMatrix<T> l(n, n), u(n, n), q(n, n); size_t pc = 0; LU::serial::doolittle(D, l, u, q, &pc); eat(l); eat(u); eat(q); eat(pc); eat(LU::serial::solve_lu(l, u, x)); break; }
		case 6: { DenseMatrix<T> l(n, n); LU::serial::cholesky(D, l); eat(l); break; }
		case 7: eat(Operations::determinant(D)); eat(Operations::inverse(D)); break;
		case 8: eat(Check::matrixIsSymmetric(D)); eat(Check::matrixIsHermitian(E)); eat(Check::matrixIsProjection(D)); eat(Check::matrixIsOrthogonal(E)); eat(Check::matrixIsUnitary(D)); break;
		case 9: eat(Construct::tril(D, 1)); eat(Construct::triu(D, -1)); eat(Construct::diag(D)); break;
		case 10: eat(A + B); eat(A - B); eat(-A); eat(A * B); eat(B * (T)3.0); { SparseMatrix<T> t(A); t += B; t -= A; t *= (T)2.0; eat(t); } break;
		case 11: eat(A.mul(B)); eat(A.mul(x)); eat(A.mul_left(x)); eat(B.transpose()); eat(B.conjugate()); break;
		case 12: for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) { eat(B.at(i, j)); eat(B.linear_at(i * n + j)); T q = T(); if (B.has(i, j, q)) eat(q); eat(B.has(i, j)); } break;
		case 13: { SparseMatrix<T> l(n, n), u(n, n), q(n, n); size_t pc = 0; LU::serial::doolittle(A, l, u, q, &pc); eat(l); eat(u); eat(q); eat(pc); break; }
		case 14: { SparseMatrix<T> l(n, n); LU::serial::cholesky(A, l); eat(l); break; }
		case 15: eat(Operations::determinant(A)); eat(Operations::inverse(A)); break;
		case 16: eat(Check::matrixIsSymmetric(A)); eat(Check::matrixIsHermitian(B)); eat(Check::matrixIsProjection(A)); eat(Check::matrixIsOrthogonal(B)); break;
		case 17: for (auto it = B.begin(); it != B.end(); ++it) { eat(*it); eat((size_t)it.column()); } for (Index i = 0; i < n; ++i) for (auto it = B.row_begin(i); it != B.row_end(i); it++) eat(*it); break;
		case 18: { SparseMatrix<T> l(n, n), u(n, n); LU::serial::ilu0(A, l, u); eat(l); eat(u); break; }
		case 19: eat(LU::serial::solve_lu(L, U, x)); break;
		case 20: { SparseMatrix<T> l(n, n), u(n, n); LU::serial::ainv_lu(L, U, l, u); eat(l); eat(u); break; }
		case 21: { auto q = cuthill_mckee(A); auto s = r_cuthill_mckee(B); for (Index i = 0; i < q.size(); ++i) { eat((size_t)q[i]); eat((size_t)s[i]); } eat(permutate(A, p)); eat(permutate(x, inverse_permutation(p))); eat(permutation_matrix<T>(p)); break; }
		case 22: { size_t st = 0; eat(Iterative::serial::jacobi(A, x, y, 8, 1e-9, &st)); eat(Iterative::serial::jacobi(D, x, y, 5)); eat(st); break; }
		case 23: { size_t st = 0; eat(Iterative::serial::sor(A, x, y, 1.1, 8, 1e-9, &st)); eat(Iterative::serial::sor(D, x, y, 1.0, 5)); eat(st); break; }
		case 24: case 25: case 26: case 27: case 28: RealOps<T, real>::run(*this, (int)op - 24); break;
		case 29: eat(Convert::toDenseMatrix(B)); eat(Convert::toSparseMatrix(E)); break;
		case 30: eat(Construct::diag<DenseMatrix, T>(x)); eat(Construct::diag<SparseMatrix, T>(y)); eat(Construct::eye<SparseMatrix, T>(n, n)); eat(Construct::hilbert<DenseMatrix, T>(4)); eat(Construct::inv_hilbert<SparseMatrix, T>(4)); break;
		case 31: eat(F.mul(F)); eat(F.mul(g)); eat(F.mul_left(g)); eat(F.transpose()); eat(Operations::determinant(F)); eat(F == F); { FixedMatrix<T, 3, 3> l, u, q; LU::serial::doolittle(F, l, u, q); eat(l); eat(u); } break;
		case 32: { std::ostringstream o; o << A << D << x << F << g << B; std::string s = o.str(); fold(hash_bytes(s.data(), s.size())); break; }
		case 33: { SparseMatrix<T> a(A), b; b = B; a.swap(b); eat(a); DenseMatrix<T> d(D), e; e = d; eat(e); DynamicVector<T> v(x); v.swap(v); eat(v); a.set(0, n - 1, (T)4.0); b.set(n - 1, 0, (T)0.0); eat(a); eat(b); break; }
		case 34: eat(A == B); eat(A != B); eat(D == E); eat(x == y); eat(x != y); { SparseMatrix<T> c(A); eat(c == A); } break;
		case 35: for (Index j = 0; j < n; ++j) { for (auto it = B.column_begin(j); it != B.column_end(j); ++it) eat(*it); for (auto it = D.column_begin(j); it != D.column_end(j); it++) eat(*it); eat((size_t)B.column_filled_count(j)); eat((size_t)A.row_filled_count(j)); } break;
		case 36: eat(B.sum()); eat(B.avg()); eat(B.trace()); eat(B.has_nan()); eat(B.has_inf()); eat(B.has_zero()); eat((size_t)B.filled_count()); eat(B.empty()); break;
		default: for (auto it = D.begin(); it != D.end(); ++it) eat(*it); for (Index i = 0; i < n; ++i) for (auto it = D.row_begin(i); it != D.row_end(i); ++it) eat(*it); break;
		}
	}
};
template<class T, bool real> void shared_readers(Rng& r)
{
	typedef Shared_<T, real> W; NoCount nc; const W w(r);
	unsigned threads = 2 + (unsigned)r.below(3);
	auto ops = choose(r, W::OPS, 10); std::string l; for (auto o : ops) l += std::string(W::names()[o]) + ", ";
	tr("shared matrices n=%zu, %u threads: %s", w.n, threads, l.c_str());
	race(r, threads, ops, W::names(), [&](unsigned, unsigned op) { w.run(op); });
	count("shared-matrices");
}
#if VH_IN(3) || VH_IN(4)
template<class T> struct SharedMesh
{
	typedef Mesh<T, 2> M; M m, bare; PolyShapeFunction<T, 2, 1> s1; PolyShapeFunction<T, 2, 2> s2; PolyShapeFunction<T, 1, 2> l2; PolyShapeFunction<T, 3, 1> t1; GaussLegendreQuadrature<T, 2, 3> q; GaussLegendreQuadrature<T, 1, 2> q1; int order;
	std::string node, ele, obj; DynamicVector<T> u;
	explicit SharedMesh(Rng& r)
	{
		trimesh::Ref f = trimesh::random_ref(r, 10); trimesh::Built<T> b; trimesh::add_vertices(b, f); for (auto& t : f.t) trimesh::add_element(b, t);
		m = b.mesh; m.setupNeighbors(); m.setupBoundaries(); m.prepare(); order = r.chance(0.5) ? 1 : 2; if (order == 1) PolyShapeFunction<T, 2, 1>::prepareMesh(m); else PolyShapeFunction<T, 2, 2>::prepareMesh(m);
		FixedVector<Index, 2> n; n[0] = 2; n[1] = 3; FixedVector<T, 2> s, o; s[0] = 1; s[1] = 2; o[0] = o[1] = 0; bare = HyperCube<T, 2>::generate(n, s, o);
		node = fmt("%zu 2 0 0\n", f.p.size()); for (size_t i = 0; i < f.p.size(); ++i) { node += fmt("%zu %g %g\n", i, f.p[i][0], f.p[i][1]); obj += fmt("v %g %g 0\n", f.p[i][0], f.p[i][1]); }
		ele = fmt("%zu 3 0\n", f.t.size()); for (size_t i = 0; i < f.t.size(); ++i) { ele += fmt("%zu %zu %zu %zu\n", i, f.t[i].v[0], f.t[i].v[1], f.t[i].v[2]); obj += fmt("f %zu %zu %zu\n", f.t[i].v[0] + 1, f.t[i].v[1] + 1, f.t[i].v[2] + 1); }
		u = DynamicVector<T>(m.vertices().size()); for (Index i = 0; i < u.size(); ++i) u[i] = (T)r.range(-5, 5);
	}
	static const char* const* names() { static const char* const t[] = {"mesh walk", "geometry", "shape functions", "quadrature", "handles", "validate", "assembly", "export", "triangle loader", "obj loader", "cube", "shape functions 1D 3D", "own mesh", "normal"}; return t; }
	static const size_t OPS = 14;
	static void walk(const M& m)
	{
		for (auto v : m.vertices()) { eat(v->Vertex); eat((size_t)v->Flags); eat((size_t)v->GlobalIndex); for (auto e : v->Elements) eat(e->Vertices[0] == v); }
		for (auto e : m.elements()) for (int k = 0; k < 3; ++k) { eat((size_t)e->Vertices[k]->GlobalIndex); auto f = e->Neighbors[k]; if (f) { eat(f->Elements[1] == nullptr); eat((size_t)f->Vertices[0]->GlobalIndex); } }
		for (auto f : m.edges()) eat(f->DOFVertices.size());
	}
	void run(unsigned op, unsigned thread) const
	{
		switch (op)
		{
		case 0: walk(m); break;
		case 1: for (auto e : m.elements()) { auto& s = e->Element; eat(s.volume()); eat(s.center()); eat(s.outerRadius()); eat(s.diameter()); eat(s.determinant()); eat(s.matrix()); eat(s.inverseMatrix()); for (int k = 0; k < 3; ++k) { eat(s.faceCenter(k)); eat(s.faceNormal(k)); } eat(s.gradient(1)); eat(s.toLocal(s.center())); eat(s.toGlobal(s.center())); } break;
		case 2: { FixedVector<T, 2> p; p[0] = (T)0.25; p[1] = (T)0.5; for (int i = 0; i < 3; ++i) { eat(s1.value(i, p)); eat(s1.gradient(i, p)); } for (int i = 0; i < 6; ++i) { eat(s2.value(i, p)); eat(s2.gradient(i, p)); eat(s2.gradient2(i, p)); } break; }
		case 3: eat(q.eval([&](const FixedVector<T, 2>& p) -> T { return p[0] * p[1] + s2.value(3, p); }, (T)1)); eat(q.eval_index([&](Index i, const FixedVector<T, 2>& p) -> T { return p[0] * (T)i; }, (T)0)); eat(q1.eval([&](const FixedVector<T, 1>& p) -> T { return p[0]; }, (T)0)); { GaussLegendreQuadrature<T, 2, 2> own; eat(own.eval([&](const FixedVector<T, 2>& p) -> T { return p[0]; }, (T)0)); } break;
		case 4: { M a(m); M b; b = a; M c(std::move(a)); a = c; c = M(); eat(b.vertices().size()); { M d(b); d = bare; } std::vector<M> l(3, b); l.pop_back(); eat(l[0].elements().size()); break; }
		case 5: m.validate(); { FixedVector<T, 2> z; (void)z; } break;
		case 6: { size_t n = m.vertices().size(); SparseMatrix<T> A(n, n); for (auto e : m.elements()) for (Index i = 0; i < e->DOFVertices.size(); ++i) for (Index j = 0; j < e->DOFVertices.size(); ++j) { T v = q.eval([&](const FixedVector<T, 2>& p) -> T { return order == 1 ? s1.value(i, p) * s1.value(j, p) : s2.value(i, p) * s2.value(j, p); }, (T)0) * std::abs(e->Element.determinant()); Index a = e->DOFVertices[i]->GlobalIndex, b = e->DOFVertices[j]->GlobalIndex; A.set(a, b, A.at(a, b) + v); } eat(A); break; }
		case 7: { std::map<std::string, DynamicVector<T>*> pd, cd; pd["u"] = const_cast<DynamicVector<T>*>(&u); std::string f = fmt("t%u.vtu", thread); VTKExporter<T, 2>::write(f, m, pd, cd, 0x1f | (order == 2 ? VOO_IsQuadratic : 0)); FILE* i = fopen(f.c_str(), "rb"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) fold(hash_bytes(b, n)); fclose(i); break; }
		case 8: { M x = MeshTriangleLoader<T>::loadString(node, ele); walk(x); break; }
		case 9: { M x = MeshObjLoader<T>::loadString(obj); walk(x); break; }
		case 10: { FixedVector<Index, 2> n; n[0] = 3; n[1] = 2; FixedVector<T, 2> s, o; s[0] = 1; s[1] = 2; o[0] = o[1] = 0; M x = HyperCube<T, 2>::generate(n, s, o); x.prepare(); PolyShapeFunction<T, 2, 2>::prepareMesh(x); x.validate(); walk(x); break; }
		case 11: { FixedVector<T, 1> a; a[0] = (T)0.3; for (int i = 0; i < 3; ++i) { eat(l2.value(i, a)); eat(l2.gradient(i, a)); } FixedVector<T, 3> b; b[0] = b[1] = b[2] = (T)0.2; for (int i = 0; i < 4; ++i) { eat(t1.value(i, b)); eat(t1.gradient(i, b)); } break; }
		case 12: { M x = MeshTriangleLoader<T>::loadString(node, ele); x.setupBoundaries(); x.prepare(); PolyShapeFunction<T, 2, 1>::prepareMesh(x); walk(x); M y(x); y.clear(); eat(y.vertices().size()); try { MeshTriangleLoader<T>::loadString(ele, node); } catch (const NSException&) { fold(1); } break; }
		default: { FixedVector<T, 3> a, b; a[0] = 1; a[1] = 2; a[2] = 3; b[0] = 0; b[1] = 1; b[2] = -1; std::array<FixedVector<T, 3>, 2> w = {{a, b}}; eat(Math::normal<T, 3>(w)); Simplex<T, 2> s(m.element(0)->Element); s.prepare(); eat(s.volume()); break; }
		}
	}
};
template<class T> void shared_mesh(Rng& r)
{
	typedef SharedMesh<T> W; unsigned threads = 2 + (unsigned)r.below(3);
	if (r.chance(0.25))
	{// one mesh, every thread has a handle of its own; the last one to let go releases the mesh
		typedef Mesh<T, 2> M; long before, after;
		{
			FixedVector<Index, 2> n; n[0] = 1 + r.below(3); n[1] = 1 + r.below(4); FixedVector<T, 2> s, o; s[0] = 1; s[1] = 2; o[0] = o[1] = 0;
			before = live_blocks.load();
			u64 want; std::vector<u64> got(threads, 0); int early = (int)r.below(3); std::vector<u64> seeds(threads); for (auto& x : seeds) x = r.next();
			M m = HyperCube<T, 2>::generate(n, s, o); m.prepare(); eaten = 1; W::walk(m); want = eaten;
			std::vector<M> h(threads, m); std::vector<std::thread> th; std::atomic<unsigned> ready{0};
			for (unsigned t = 0; t < threads; ++t) th.emplace_back([&, t] { Rng q(seeds[t]); ready.fetch_add(1); while (ready.load() < threads) sched_yield(); for (int k = 0; k < 6; ++k) { perturb(q); M c(h[t]); perturb(q); M d; d = c; if (q.chance(0.5)) h[t] = std::move(d); } eaten = 1; W::walk(h[t]); got[t] = eaten; perturb(q); h[t] = M(); });
			if (early == 0) m = M(); else if (early == 1) { M x = std::move(m); m = M(); }
			for (auto& x : th) x.join();
			for (unsigned t = 0; t < threads; ++t) if (got[t] != want) BAD("handles", "a thread saw another mesh through its handle");
		}
		after = live_blocks.load(); (void)after; (void)before;
		count("handle-races"); return;
	}
	NoCount nc; W w0(r); const W& w = w0;
	auto ops = choose(r, W::OPS, 7); std::string l; for (auto o : ops) l += std::string(W::names()[o]) + ", ";
	tr("shared mesh with %zu elements, %u threads: %s", (size_t)w.m.elements().size(), threads, l.c_str());
	race(r, threads, ops, W::names(), [&](unsigned t, unsigned op) { w.run(op, t); });
	count("shared-meshes");
}
#endif
}
#if VH_IN(0)
void c29::prog_d(Rng& r, const char*) { World<double, true> w(r); w.run(); }
void c29::shared_d(Rng& r) { shared_readers<double, true>(r); }
#endif
#if VH_IN(1)
void c29::prog_f(Rng& r, const char*) { World<VF, true> w(r); w.run(); }
void c29::shared_f(Rng& r) { shared_readers<VF, true>(r); }
#endif
#if VH_IN(2)
thread_local vh::u64 eaten = 0;
void c29::prog_c(Rng& r, const char*) { World<VCD, false> w(r); w.run(); }
void c29::shared_c(Rng& r) { shared_readers<VCD, false>(r); }
#endif
#if VH_IN(3)
void c29::prog_md(Rng& r, const char* f) { Meshes<double> w(r, f); w.run(); }
void c29::mesh_d(Rng& r) { shared_mesh<double>(r); }
#endif
#if VH_IN(4)
void c29::prog_mf(Rng& r, const char* f) { Meshes<VF> w(r, f); w.run(); }
void c29::mesh_f(Rng& r) { shared_mesh<VF>(r); }
#endif
#if VH_IN(5)
namespace vh { const char* property = "C29"; }
namespace {
void programs(Rng& r)
{
	static c29::Prog* const all[] = {c29::prog_d, c29::prog_f, c29::prog_c, c29::prog_md, c29::prog_mf};
	static const char* const names[] = {"program double", "program float", "program complex", "program mesh double", "program mesh float"};
	unsigned threads = 2 + (unsigned)r.below(3); NoCount nc; std::vector<unsigned> ops; std::vector<u64> seeds;
	bool same = r.chance(0.5); unsigned kind = (unsigned)r.below(5); u64 s = r.next();
	for (int k = 0; k < 2; ++k) ops.push_back(r.chance(0.5) ? kind : (unsigned)r.below(5));
	for (unsigned t = 0; t < threads; ++t) seeds.push_back(same ? s : r.next());
	tr("%u threads, programs %u %u, %s", threads, ops[0], ops[1], same ? "the same" : "different");
	race(r, threads, ops, names, [&](unsigned t, unsigned op) { Rng q(hash2(seeds[t], op)); all[op](q, fmt("p%u.vtu", t).c_str()); });
	count("own-objects");
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(10))
	{
	case 0: case 1: c29::shared_d(r); break; case 2: c29::shared_f(r); break; case 3: c29::shared_c(r); break;
	case 4: case 5: c29::mesh_d(r); break; case 6: c29::mesh_f(r); break;
	default: programs(r);
	}
}
#include "vh_main.h"
#endif
