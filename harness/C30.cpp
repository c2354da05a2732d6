// C30: the finite element pipeline from mesh to solution against an independent assembly in extended
// precision, exact polynomial solutions, and convergence orders.
#include "trimesh.h"
#include "ref.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "loader/MeshTriangleLoader.h"
using namespace NS; using namespace vh; using namespace trimesh;
namespace vh { const char* property = "C30"; }
namespace {
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
typedef std::function<ld(ld, ld)> Fn;

// splits elements and faces, keeps everything unfolded
void refine(Rng& r, Ref& m, size_t n)
{
	for (size_t s = 0; s < n; ++s)
	{
		size_t e = r.below(m.t.size()); Tri t = m.t[e];
		if (r.chance(0.5)) { size_t id = m.p.size(); std::array<double, 2> c = {{0, 0}}; for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) c[k] += m.p[t.v[i]][k] / 3; m.p.push_back(c); m.t[e] = Tri{{t.v[0], t.v[1], id}}; m.t.push_back(Tri{{t.v[1], t.v[2], id}}); m.t.push_back(Tri{{t.v[2], t.v[0], id}}); }
		else
		{
			size_t i = 0; double best = -1;// the longest face, to keep the angles reasonable
			for (size_t k = 0; k < 3; ++k) { auto &a = m.p[t.v[(k + 1) % 3]], &b = m.p[t.v[(k + 2) % 3]]; double l = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]); if (l > best) { best = l; i = k; } }
			size_t x = t.v[(i + 1) % 3], y = t.v[(i + 2) % 3], id = m.p.size(); double w = r.uni(0.4, 0.6);
			m.p.push_back({{m.p[x][0] * w + m.p[y][0] * (1 - w), m.p[x][1] * w + m.p[y][1] * (1 - w)}});
			for (size_t q = 0, c = m.t.size(); q < c; ++q)
			{
				Tri u = m.t[q]; int hx = -1, hy = -1; for (int k = 0; k < 3; ++k) { if (u.v[k] == x) hx = k; if (u.v[k] == y) hy = k; }
				if (hx < 0 || hy < 0) continue;
				Tri u1 = u, u2 = u; u1.v[hx] = id; u2.v[hy] = id; m.t[q] = u1; m.t.push_back(u2);
			}
		}
	}
}
Ref domain(Rng& r, bool fine)
{
	size_t nx = r.range(1, 5), ny = r.range(1, 5); if (r.chance(0.0015)) { nx = r.range(6, 16); ny = r.range(1, 16); } double hole = r.chance(0.25) ? 0.25 : 0;
	Ref m = r.chance(0.2) ? fan(r, r.range(3, 8), r.chance(0.6)) : grid(r, nx, ny, hole);
	compact(m);
	if (std::string(m.kind).compare(0, 4, "grid") == 0) { for (auto& p : m.p) { p[0] += r.uni(-0.2, 0.2); p[1] += r.uni(-0.2, 0.2); } }
	if (fine) refine(r, m, r.below(5));
	double s = r.pick({1.0, 1.0, 0.01, 37.0}), w = r.uni(0, 6.28), c = std::cos(w), d = std::sin(w), x0 = r.uni(-2, 2) * s, y0 = r.uni(-2, 2) * s;
	for (auto& p : m.p) { double x = p[0] * s * r.pick({1.0}), y = p[1] * s; p[0] = c * x - d * y + x0; p[1] = d * x + c * y + y0; }
	for (auto& t : m.t) { size_t k = r.below(3); std::rotate(t.v, t.v + k, t.v + 3); if (r.chance(0.5)) std::swap(t.v[0], t.v[1]); }
	r.shuffle(m.t);
	std::vector<size_t> o(m.p.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; r.shuffle(o);
	auto q = m.p; for (size_t i = 0; i < o.size(); ++i) m.p[o[i]] = q[i];
	for (auto& t : m.t) for (auto& v : t.v) v = o[v];
	return m;
}
template<class T> Mesh<T, 2> make(Rng& r, const Ref& m, const char*& how)
{
	Mesh<T, 2> M;
	if (r.chance(0.3))
	{
		how = "loaded"; std::string a = fmt("%zu 2 0 0\n", m.p.size()), b = fmt("%zu 3 0\n", m.t.size());
		for (size_t i = 0; i < m.p.size(); ++i) a += fmt("%zu %.17g %.17g\n", i, m.p[i][0], m.p[i][1]);
		for (size_t i = 0; i < m.t.size(); ++i) b += fmt("%zu %zu %zu %zu\n", i, m.t[i].v[0], m.t[i].v[1], m.t[i].v[2]);
		M = MeshTriangleLoader<T>::loadString(a, b);
	}
	else { how = "built"; Built<T> b; add_vertices(b, m); for (auto& t : m.t) add_element(b, t); M = b.mesh; M.setupNeighbors(); }
	M.setupBoundaries(); M.prepare();
	return M;
}
// ---- independent element matrices in extended precision
struct P2 { ld x, y; };
template<int O> void basis(const P2* v, ld l1, ld l2, std::vector<ld>& val, std::vector<P2>& grad)
{
	ld l0 = 1 - l1 - l2, det = (v[1].x - v[0].x) * (v[2].y - v[0].y) - (v[2].x - v[0].x) * (v[1].y - v[0].y);
	P2 g[3] = {{(v[1].y - v[2].y) / det, (v[2].x - v[1].x) / det}, {(v[2].y - v[0].y) / det, (v[0].x - v[2].x) / det}, {(v[0].y - v[1].y) / det, (v[1].x - v[0].x) / det}};
	ld l[3] = {l0, l1, l2}; val.clear(); grad.clear();
	if (O == 1) { for (int i = 0; i < 3; ++i) { val.push_back(l[i]); grad.push_back(g[i]); } return; }
	for (int i = 0; i < 3; ++i) { val.push_back(l[i] * (2 * l[i] - 1)); grad.push_back({(4 * l[i] - 1) * g[i].x, (4 * l[i] - 1) * g[i].y}); }
}
// quadratic functions of the face midpoints, found through the position of the node
void edge_fn(const P2* v, ld l1, ld l2, int a, int b, ld& val, P2& gr)
{
	ld l0 = 1 - l1 - l2, det = (v[1].x - v[0].x) * (v[2].y - v[0].y) - (v[2].x - v[0].x) * (v[1].y - v[0].y); ld l[3] = {l0, l1, l2};
	P2 g[3] = {{(v[1].y - v[2].y) / det, (v[2].x - v[1].x) / det}, {(v[2].y - v[0].y) / det, (v[0].x - v[2].x) / det}, {(v[0].y - v[1].y) / det, (v[1].x - v[0].x) / det}};
	val = 4 * l[a] * l[b]; gr = {4 * (l[a] * g[b].x + l[b] * g[a].x), 4 * (l[a] * g[b].y + l[b] * g[a].y)};
}
const ld D7[7][3] = {{1 / 3.0L, 1 / 3.0L, 0.225L}, {0.470142064105115089770441209513L, 0.470142064105115089770441209513L, 0.132394152788506180737950131250L}, {0.470142064105115089770441209513L, 0.059715871789769820459117580974L, 0.132394152788506180737950131250L}, {0.059715871789769820459117580974L, 0.470142064105115089770441209513L, 0.132394152788506180737950131250L},
	{0.101286507323456338800987361915L, 0.101286507323456338800987361915L, 0.125939180544827152595683945416L}, {0.101286507323456338800987361915L, 0.797426985353087322398025276170L, 0.125939180544827152595683945416L}, {0.797426985353087322398025276170L, 0.101286507323456338800987361915L, 0.125939180544827152595683945416L}};// degree 5

template<class T, int O> struct Problem
{
	typedef PolyShapeFunction<T, 2, O> SF; typedef FixedVector<T, 2> V2;
	Mesh<T, 2> mesh; SF sf; GaussLegendreQuadrature<T, 2, 3> q; size_t n;
	SparseMatrix<T> A, W; DynamicVector<T> b; std::vector<char> fixed; std::vector<ld> exact; ld scale = 0, eps = ref::Sc<T>::eps();
	Problem(const Mesh<T, 2>& m) : mesh(m), n(0) {}
	void assemble(const Fn& f, const Fn& u, bool mass = false)
	{
		label("prepareMesh"); SF::prepareMesh(mesh); n = mesh.vertices().size();
		label("assembly"); A = SparseMatrix<T>(n, n, n * 7); b = DynamicVector<T>(n); if (mass) W = SparseMatrix<T>(n, n, n * 7);
		for (auto e : mesh.elements())
		{
			if (e->DOFVertices.size() != (size_t)SF::DOF) BAD("degrees of freedom", "element with %zu nodes", e->DOFVertices.size());
			const auto& J = e->Element.inverseMatrix(); T det = std::abs(e->Element.determinant());
			for (Index i = 0; i < SF::DOF; ++i)
			{
				Index gi = e->DOFVertices[i]->GlobalIndex;
				for (Index j = 0; j < SF::DOF; ++j)
				{
					T v = q.eval([&](const V2& p) -> T { return J.mul_left(sf.gradient(i, p)).dot(J.mul_left(sf.gradient(j, p))); }, (T)0) * det;
					Index gj = e->DOFVertices[j]->GlobalIndex; A.set(gi, gj, A.at(gi, gj) + v);
					if (mass) W.set(gi, gj, W.at(gi, gj) + q.eval([&](const V2& p) -> T { return sf.value(i, p) * sf.value(j, p); }, (T)0) * det);
				}
				b[gi] += q.eval([&](const V2& p) -> T { V2 x = e->Element.toGlobal(p); return (T)f((ld)x[0], (ld)x[1]) * sf.value(i, p); }, (T)0) * det;
			}
		}
		fixed.assign(n, 0); exact.assign(n, 0); scale = 0;
		for (auto v : mesh.vertices())
		{
			Index i = v->GlobalIndex; if (i >= n) BAD("degrees of freedom", "number out of range");
			exact[i] = u((ld)v->Vertex[0], (ld)v->Vertex[1]); scale = std::max(scale, std::fabs(exact[i]));
			if (v->Flags & MVF_StrongBoundary) fixed[i] = 1;
		}
	}
	// conditions are imposed at the nodes on faces with one element, and only there
	void compare_boundary()
	{
		label("boundary nodes"); typedef const MeshVertex<T, 2>* V; std::map<std::pair<V, V>, int> faces; std::set<V> want;
		auto face = [](V a, V c) { return a < c ? std::make_pair(a, c) : std::make_pair(c, a); };
		for (auto e : mesh.elements()) for (int i = 0; i < 3; ++i) ++faces[face(e->Vertices[i], e->Vertices[(i + 1) % 3])];
		for (auto& x : faces) if (x.second == 1) { want.insert(x.first.first); want.insert(x.first.second); }
		if (O == 2) for (auto e : mesh.elements()) for (auto d : e->DOFVertices)
		{
			if (d == e->Vertices[0] || d == e->Vertices[1] || d == e->Vertices[2]) continue;
			int best = -1; ld bd = 1e300L; for (int i = 0; i < 3; ++i) { auto &x = e->Vertices[i]->Vertex, &y = e->Vertices[(i + 1) % 3]->Vertex; ld dx = ((ld)x[0] + (ld)y[0]) / 2 - (ld)d->Vertex[0], dy = ((ld)x[1] + (ld)y[1]) / 2 - (ld)d->Vertex[1]; if (dx * dx + dy * dy < bd) { bd = dx * dx + dy * dy; best = i; } }
			if (faces[face(e->Vertices[best], e->Vertices[(best + 1) % 3])] == 1) want.insert(d);
		}
		for (auto v : mesh.vertices())
			if ((want.count(v) != 0) != (fixed[v->GlobalIndex] != 0)) BAD("boundary nodes", "order %d, node %zu of %zu at (%g, %g) is%s fixed, but %s", O, (size_t)v->GlobalIndex, n, (double)v->Vertex[0], (double)v->Vertex[1], fixed[v->GlobalIndex] ? "" : " not", want.count(v) ? "on the boundary" : "inside of the domain");
		count("boundary-nodes", want.size());
	}
	// compares the global matrices with an independent assembly
	void compare_matrix(bool mass)
	{
		label("matrix"); std::map<std::pair<size_t, size_t>, ld> R, mag, RW; std::vector<ld> val; std::vector<P2> g;
		for (auto e : mesh.elements())
		{
			P2 v[3]; for (int i = 0; i < 3; ++i) v[i] = {(ld)e->Vertices[i]->Vertex[0], (ld)e->Vertices[i]->Vertex[1]};
			ld det = std::fabs((v[1].x - v[0].x) * (v[2].y - v[0].y) - (v[2].x - v[0].x) * (v[1].y - v[0].y));
			std::vector<size_t> id; std::vector<std::array<int, 2> > edge;
			for (int i = 0; i < 3; ++i) id.push_back(e->Vertices[i]->GlobalIndex);
			if (O == 2) for (size_t k = 0; k < e->DOFVertices.size(); ++k)
			{
				auto d = e->DOFVertices[k]; bool corner = false; for (int i = 0; i < 3; ++i) corner = corner || d == e->Vertices[i];
				if (corner) continue;
				int best = -1; ld bd = 1e300L; for (int i = 0; i < 3; ++i) { int a = (i + 1) % 3, c = (i + 2) % 3; ld dx = (v[a].x + v[c].x) / 2 - (ld)d->Vertex[0], dy = (v[a].y + v[c].y) / 2 - (ld)d->Vertex[1]; if (dx * dx + dy * dy < bd) { bd = dx * dx + dy * dy; best = i; } }
				id.push_back(d->GlobalIndex); edge.push_back({{(best + 1) % 3, (best + 2) % 3}});
			}
			for (auto& qp : D7)
			{
				basis<O>(v, qp[0], qp[1], val, g);
				if (O == 2) for (auto& ed : edge) { ld x; P2 y; edge_fn(v, qp[0], qp[1], ed[0], ed[1], x, y); val.push_back(x); g.push_back(y); }
				for (size_t i = 0; i < id.size(); ++i) for (size_t j = 0; j < id.size(); ++j) { ld c = (g[i].x * g[j].x + g[i].y * g[j].y) * qp[2] * det / 2; R[{id[i], id[j]}] += c; mag[{id[i], id[j]}] += std::fabs(c); if (mass) RW[{id[i], id[j]}] += val[i] * val[j] * qp[2] * det / 2; }
			}
		}
		ld cmax = 0; for (auto& x : mag) cmax = std::max(cmax, x.second);
		// elements far from the origin lose digits when their edges are formed
		ld ext = 0, h = 1e300L; for (auto v : mesh.vertices()) ext = std::max({ext, std::fabs((ld)v->Vertex[0]), std::fabs((ld)v->Vertex[1])});
		for (auto e : mesh.elements()) h = std::min(h, std::sqrt(std::fabs((ld)e->Element.determinant())));
		ld tol = (200 * eps + 1e-13L) * (1 + 10 * ext / h) * cmax;
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
		{
			auto it = R.find({i, j}); ld want = it == R.end() ? 0 : it->second, got = (ld)A.at(i, j);
			if (!(std::fabs(got - want) <= tol)) BAD("stiffness", "entry (%zu, %zu) of %zu is %.12Lg instead of %.12Lg", i, j, n, got, want);
			if (it == R.end() && A.has(i, j)) BAD("stiffness", "entry (%zu, %zu) couples nodes without a common element", i, j);
		}
		if (mass)
		{
			ld wmax = 0, area = 0, sum = 0; for (auto& x : RW) wmax = std::max(wmax, std::fabs(x.second));
			for (auto e : mesh.elements()) { P2 v[3]; for (int i = 0; i < 3; ++i) v[i] = {(ld)e->Vertices[i]->Vertex[0], (ld)e->Vertices[i]->Vertex[1]}; area += std::fabs((v[1].x - v[0].x) * (v[2].y - v[0].y) - (v[2].x - v[0].x) * (v[1].y - v[0].y)) / 2; }
			ld wtol = (200 * eps + 1e-13L) * (1 + 10 * ext / h) * wmax;
			for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
			{
				auto it = RW.find({i, j}); ld want = it == RW.end() ? 0 : it->second, got = (ld)W.at(i, j); sum += got;
				if (!(std::fabs(got - want) <= wtol)) BAD("mass", "entry (%zu, %zu) of %zu is %.12Lg instead of %.12Lg", i, j, n, got, want);
				if (it == RW.end() && W.has(i, j)) BAD("mass", "entry (%zu, %zu) couples nodes without a common element", i, j);
			}
			if (!(std::fabs(sum - area) <= (200 * eps + 1e-13L) * (1 + 10 * ext / h) * area * 4)) BAD("mass", "entries add up to %.12Lg, the area is %.12Lg", sum, area);
			count("mass-matrices");
		}
		count("matrices-compared");
	}
	SparseMatrix<T> dirichlet(DynamicVector<T>& rhs, bool symmetric)
	{
		label("boundary"); SparseMatrix<T> S(A); rhs = b;
		for (size_t i = 0; i < n; ++i)
		{
			if (!fixed[i]) continue;
			if (symmetric) for (auto it = A.column_begin(i); it != A.column_end(i); ++it) { Index k = it.row(); if (!fixed[k]) { rhs[k] -= *it * (T)exact[i]; S.set(k, i, (T)0); } }
			for (size_t j = 0; j < n; ++j) if (j != i && S.has(i, j)) S.set(i, j, (T)0);
			S.set(i, i, (T)1);
		}
		for (size_t i = 0; i < n; ++i) if (fixed[i]) rhs[i] = (T)exact[i];
		return S;
	}
};
static const char* const SOLVERS[] = {"sparse lu", "dense lu", "cholesky", "cg", "pcg jacobi", "pcg ilu", "sor", "reordered cg", "inverse", "dense cg", "gauss-seidel", "reordered lu"};
template<class T> DynamicVector<T> solve(Rng& r, const SparseMatrix<T>& S, const DynamicVector<T>& b, int k, bool& ok)
{
	label(SOLVERS[k]); const size_t n = b.size(); DynamicVector<T> x0(n); ok = true; const double eps = sizeof(T) == 4 ? 1e-5 : 1e-11;
	// start vectors of the iterations
	if (r.chance(0.3)) for (size_t i = 0; i < n; ++i) x0[i] = (T)r.uni(-1, 1);
	typedef SparseMatrix<T> M; typedef DenseMatrix<T> D;
	size_t st = 0;
	switch (k)
	{
	case 0: { M L(n, n), U(n, n), P(n, n); LU::serial::doolittle(S, L, U, P); return LU::serial::solve_lu(L, U, P.mul(b)); }
	case 1: { D A = Convert::toDenseMatrix(S), L(n, n), U(n, n), P(n, n); LU::serial::doolittle(A, L, U, P); return LU::serial::solve_lu(L, U, P.mul(b)); }
	case 2: { M L(n, n); LU::serial::cholesky(S, L); return LU::serial::solve_lu(L, L.transpose(), b); }
	case 3: { auto u = CG::serial::cg(S, b, x0, 4 * n + 20, eps, &st); if (st > 4 * n + 20) BAD("count", "%zu steps", st); return u; }
	case 4: { M C(n, n); CG::serial::jacobi(S, C); return CG::serial::pcg(S, b, C, x0, 4 * n + 20, eps); }
	case 5:
	{
		M L(n, n), U(n, n), iL(n, n), iU(n, n); LU::serial::ilu0(S, L, U);
		for (size_t i = 0; i < n; ++i) if (!(U.at(i, i) > (T)1e-3)) { ok = false; return x0; }
		LU::serial::ainv_lu(L, U, iL, iU); M C = iU.mul(iL); C += C.transpose(); C *= (T)0.5;
		return CG::serial::pcg(S, b, C, x0, 6 * n + 20, eps);
	}
	case 6: return Iterative::serial::sor(S, b, x0, r.uni(1, 1.7), 20000, eps * 0.01);
	case 7: { auto p = r.chance(0.5) ? cuthill_mckee(S) : r_cuthill_mckee(S); M R = permutate(S, p); auto u = CG::serial::cg(R, permutate(b, p), x0, 4 * n + 20, eps); return permutate(u, inverse_permutation(p)); }
	case 8: return Operations::inverse(S).mul(b);
	case 9: { D A = Convert::toDenseMatrix(S); return CG::serial::cg(A, b, x0, 4 * n + 20, eps); }
	case 10: return Iterative::serial::sor(S, b, x0, 1.0, 20000, eps * 0.01);
	default: { auto p = r_cuthill_mckee(S); M R = permutate(S, p), L(n, n), U(n, n), P(n, n); LU::serial::doolittle(R, L, U, P); return permutate(LU::serial::solve_lu(L, U, P.mul(permutate(b, p))), inverse_permutation(p)); }
	}
}
template<class T, int O> void patch(Rng& r)
{
	label("mesh"); Ref m = domain(r, sizeof(T) == 8); const char* how = "";
	tr("%s order %d %s: ", O == 1 ? "linear" : "quadratic", O, sizeof(T) == 4 ? "float" : "double"); trimesh::trace(m);
	Mesh<T, 2> M;
	if (r.chance(0.25)) { how = "cube"; FixedVector<Index, 2> c; c[0] = r.range(1, 5); c[1] = r.range(1, 5); if (r.chance(0.004)) { c[0] = r.range(1, 16); c[1] = r.range(6, 16); } FixedVector<T, 2> s, o; for (int k = 0; k < 2; ++k) { s[k] = (T)r.uni(0.5, 3); o[k] = (T)r.uni(-2, 2); } M = HyperCube<T, 2>::generate(c, s, o); M.prepare(); }
	else M = make<T>(r, m, how);
	// u = c0 + c1 x + c2 y (+ c3 x^2 + c4 x y + c5 y^2), -laplace u = f
	ld ext = 0; for (auto v : M.vertices()) ext = std::max({ext, std::fabs((ld)v->Vertex[0]), std::fabs((ld)v->Vertex[1])});
	ld c[6] = {0}; for (int i = 0; i < (O == 1 ? 3 : 6); ++i) c[i] = r.range(-4, 4) / std::pow(ext, i == 0 ? 0 : i < 3 ? 1 : 2);
	Fn u = [&](ld x, ld y) { return c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y; };
	Fn f = [&](ld, ld) { return -2 * (c[3] + c[5]); };
	Problem<T, O> p(M); bool mass = O == 1 && r.chance(0.4); p.assemble(f, u, mass); p.compare_boundary(); p.compare_matrix(mass);
	DynamicVector<T> rhs; size_t free = 0; for (char x : p.fixed) free += !x;
	DynamicVector<T> rs; SparseMatrix<T> S = p.dirichlet(rs, true), N = p.dirichlet(rhs, false);
	ld h = 1e300L; for (auto e : M.elements()) h = std::min(h, std::sqrt(std::fabs((ld)e->Element.determinant())));
	ld amp = 1 + ext / h; const ld tol = (sizeof(T) == 4 ? 3e-4L * amp : 1e-7L * amp) * (1 + p.scale);
	for (int s = 0; s < 3; ++s)
	{
		int k = (int)r.below(12); if (p.n > 90 && (k == 8 || k == 0 || k == 1)) k = 3; if (p.n > 200) k = r.pick({3, 4, 6, 7, 9, 10});
		bool nonsym = (k == 0 || k == 1 || k == 8) && r.chance(0.5); bool ok;
		tr("%s%s", SOLVERS[k], nonsym ? " (rows only)" : "");
		DynamicVector<T> x = solve<T>(r, nonsym ? N : S, nonsym ? rhs : rs, k, ok);
		if (!ok) { count("ilu-breakdown"); continue; }
		if (x.size() != p.n) BAD("size", "%s: solution of size %zu", SOLVERS[k], (size_t)x.size());
		for (size_t i = 0; i < p.n; ++i) if (!(std::fabs((ld)x[i] - p.exact[i]) <= tol)) BAD(fmt("solution:%s", SOLVERS[k]).c_str(), "order %d, node %zu of %zu: %.12Lg instead of %.12Lg (error %.3Lg, bound %.3Lg)", O, i, p.n, (ld)x[i], p.exact[i], (ld)x[i] - p.exact[i], tol);
		count(SOLVERS[k]); if (nonsym) count("rows-only");
		// the solution evaluated inside of elements
		auto e = M.element(r.below(M.elements().size())); FixedVector<T, 2> l; l[0] = (T)r.uni(0, 0.5); l[1] = (T)r.uni(0, 0.5); FixedVector<T, Problem<T, O>::SF::DOF> w; T v = 0;
		for (Index i = 0; i < Problem<T, O>::SF::DOF; ++i) v += x[e->DOFVertices[i]->GlobalIndex] * p.sf.value(i, l);
		auto g = e->Element.toGlobal(l); ld want = u((ld)g[0], (ld)g[1]);
		if (!(std::fabs((ld)v - want) <= 3 * tol)) BAD("interpolation", "order %d: %.12Lg instead of %.12Lg inside of an element", O, (ld)v, want);
	}
	if (mass && p.n <= 200)
	{// projection onto the ansatz space, and a reaction term with natural conditions on a part of the boundary
		label("projection"); DynamicVector<T> rw(p.n);
		for (auto e : M.elements()) { T det = std::abs(e->Element.determinant()); for (Index i = 0; i < Problem<T, O>::SF::DOF; ++i) rw[e->DOFVertices[i]->GlobalIndex] += p.q.eval([&](const FixedVector<T, 2>& l) -> T { auto g = e->Element.toGlobal(l); return (T)u((ld)g[0], (ld)g[1]) * p.sf.value(i, l); }, (T)0) * det; }
		ld lo = 1e300L, hi = 0; for (auto e : M.elements()) { ld d = std::fabs((ld)e->Element.determinant()); lo = std::min(lo, d); hi = std::max(hi, d); }
		int k = r.pick({1, 2, 3, 4, 7, 9, 11}); bool ok; tr("%s (projection)", SOLVERS[k]);
		// rows are scaled by the area of the domain, so that tolerances of the iterations keep their meaning
		SparseMatrix<T> Q(p.W); T sc = (T)1 / (T)hi; Q *= sc; rw *= sc;
		DynamicVector<T> x = solve<T>(r, Q, rw, k, ok);
		ld ptol = (k == 3 || k == 4 || k == 7 || k == 9 ? (sizeof(T) == 4 ? 2e-3L : 1e-8L) * hi / lo * 100 : tol) * (1 + p.scale) * hi / lo;
		for (size_t i = 0; i < p.n; ++i) if (!(std::fabs((ld)x[i] - p.exact[i]) <= ptol)) BAD("projection", "%s, order %d, node %zu of %zu: %.12Lg instead of %.12Lg (bound %.3Lg)", SOLVERS[k], O, i, p.n, (ld)x[i], p.exact[i], ptol);
		count("projections");
	}
	count(O == 1 ? "linear" : "quadratic"); count(how); if (free) count("free-nodes", free); else count("boundary-only"); count("nodes", p.n);
	distinct(hash(m));
}
template<class T, int O> ld l2error(Rng& r, const Mesh<T, 2>& M, const Fn& u, const Fn& f, int k, size_t& nn)
{
	Problem<T, O> p(M); p.assemble(f, u); DynamicVector<T> rhs; SparseMatrix<T> S = p.dirichlet(rhs, true); bool ok; nn = p.n;
	DynamicVector<T> x = solve<T>(r, S, rhs, k, ok); ld err = 0;
	for (auto e : M.elements())
		for (auto& qp : D7)
		{
			FixedVector<T, 2> l; l[0] = (T)qp[0]; l[1] = (T)qp[1]; ld v = 0; for (Index i = 0; i < Problem<T, O>::SF::DOF; ++i) v += (ld)x[e->DOFVertices[i]->GlobalIndex] * (ld)p.sf.value(i, l);
			auto g = e->Element.toGlobal(l); ld d = v - u((ld)g[0], (ld)g[1]); err += d * d * qp[2] / 2 * std::fabs((ld)e->Element.determinant());
		}
	return std::sqrt(err);
}
template<int O> void converge(Rng& r)
{
	label("convergence"); typedef double T; int kind = (int)r.below(3); double a = r.uni(0.6, 1.6), b = r.uni(0.6, 1.6), ph = r.uni(0, 3), ps = r.uni(0, 3);
	Fn u, f;
	if (kind == 0) { u = [=](ld x, ld y) { return std::sin(a * x + ph) * std::cos(b * y + ps); }; f = [=](ld x, ld y) { return (a * a + b * b) * std::sin(a * x + ph) * std::cos(b * y + ps); }; }
	else if (kind == 1) { u = [=](ld x, ld y) { return std::exp(0.5L * a * x - 0.4L * b * y); }; f = [=](ld x, ld y) { return -(0.25L * a * a + 0.16L * b * b) * std::exp(0.5L * a * x - 0.4L * b * y); }; }
	else { u = [=](ld x, ld y) { return x * x * x * a - y * y * y * y * b + x * x * y; }; f = [=](ld x, ld y) { return -(6 * x * a - 12 * y * y * b + 2 * y); }; }
	size_t n0 = O == 1 ? 4 : 3, levels = 2 + (thorough && r.chance(0.2)); FixedVector<T, 2> s, o; for (int k = 0; k < 2; ++k) { s[k] = r.uni(0.8, 2); o[k] = r.uni(-1, 1); }
	int solver = r.pick({3, 4, 5, 7}); size_t nx = n0 + r.below(2), ny = n0 + r.below(2); bool jitter = r.chance(0.4);
	tr("order %d, u %d (%g %g %g %g), %zux%zu cells of (%g, %g), offset (%g, %g), %s%s", O, kind, a, b, ph, ps, nx, ny, s[0], s[1], o[0], o[1], SOLVERS[solver], jitter ? ", deformed" : "");
	ld e[3] = {0, 0, 0}; size_t nn = 0;
	for (size_t l = 0; l < levels; ++l)
	{
		FixedVector<Index, 2> c; c[0] = nx << l; c[1] = ny << l; Mesh<T, 2> M = HyperCube<T, 2>::generate(c, s, o);
		if (jitter) for (auto v : M.vertices()) { double x = (v->Vertex[0] - o[0]) / s[0], y = (v->Vertex[1] - o[1]) / s[1]; if (x > 1e-9 && y > 1e-9 && x < 1 - 1e-9 && y < 1 - 1e-9) { v->Vertex[0] += 0.08 * s[0] * std::sin(3.1 * x) * std::sin(6.2 * y); v->Vertex[1] += 0.06 * s[1] * std::sin(6.2 * x) * std::sin(3.1 * y); } }
		M.prepare();
		if (jitter) for (auto q : M.elements()) for (int i = 0; i < 3; ++i) { q->Element[i] = q->Vertices[i]->Vertex; q->Element.prepare(); }
		e[l] = l2error<T, O>(r, M, u, f, solver, nn);
	}
	for (size_t l = 1; l < levels; ++l)
	{
		ld rate = std::log2(e[l - 1] / e[l]);
		if (!(rate >= O + 1 - 0.45L)) BAD("convergence", "order %d: error %.4Lg, then %.4Lg on the refined mesh, rate %.3Lf", O, e[l - 1], e[l], rate);
		sample(fmt("order %d: errors %.3Lg -> %.3Lg, rate %.2Lf", O, e[l - 1], e[l], rate));
	}
	count(O == 1 ? "rates:linear" : "rates:quadratic"); if (jitter) count("rates:deformed"); distinct(hash_bytes(&e, 32));
}
}
void vh::run_case(Rng& r, u64)
{
	try
	{
		switch (r.below(20))
		{
		case 0: converge<1>(r); break; case 1: converge<2>(r); break;
		case 2: case 3: patch<VF, 1>(r); break; case 4: case 5: patch<VF, 2>(r); break;
		case 6: case 7: case 8: case 9: case 10: case 11: case 12: patch<double, 1>(r); break;
		default: patch<double, 2>(r);
		}
	}
	catch (const NSException& e) { BAD(fmt("exception:%s", sh->label).c_str(), "%s", e.what()); }
}
#include "vh_main.h"
