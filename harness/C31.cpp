// C31: finite difference workflows: assembly into sparse matrices, boundary rows, every solver,
// time stepping in one space-time system, against polynomial solutions the stencils reproduce exactly.
#include "lu.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixConverter.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
#include "CG.h"
#include "Iterative.h"
using namespace NS; using namespace ref; using namespace vh;
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
namespace {
// one system: rows of the differential operator and identity rows on the boundary
template<class T> struct Sys
{
	typedef Sc<T> S; typedef typename S::B B;
	size_t n; SparseMatrix<T> A; DynamicVector<T> b; std::vector<B> u;// expected solution
	std::vector<std::map<size_t, B> > rows;// what was assembled
	std::vector<ld> scale;// sum of the moduli of each row
	ld cint, maxu;// max-norm stability constant, largest value
	bool spd; size_t lim;// most steps of conjugate gradients
	explicit Sys(size_t n_, size_t expected) : n(n_), A(n_, n_, expected), b(n_), u(n_, B(0)), rows(n_), scale(n_, 0), cint(1), maxu(0), spd(false), lim(6 * n_ + 30) {}
	void set(size_t i, size_t j, B v) { T t = S::make((double)re_(v), (double)im_(v)); A.set(i, j, t); rows[i][j] = S::big(t); }
	// right-hand side from the expected solution and the assembled rows, so that only the rounding of b remains
	void finish()
	{
		for (size_t i = 0; i < n; ++i) maxu = std::max(maxu, abs_(u[i]));
		for (size_t i = 0; i < n; ++i) { B s(0); for (auto& q : rows[i]) { s += q.second * u[q.first]; scale[i] += abs_(q.second); } b.set(i, S::make((double)re_(s), (double)im_(s))); }
		size_t c = 0; for (size_t i = 0; i < n; ++i) c += rows[i].size();
		if (A.filled_count() != c) BAD("filled count", "%zu entries instead of %zu", A.filled_count(), c);
		for (size_t i = 0; i < n; ++i)
		{
			auto q = rows[i].begin();
			for (auto it = A.row_begin(i); it != A.row_end(i); ++it, ++q) if (q == rows[i].end() || it.column() != q->first || S::big(*it) != q->second) BAD("assembly", "row %zu", i);
			if (q != rows[i].end()) BAD("assembly", "row %zu ends early", i);
		}
	}
};
const char* const SOLVERS[] = {"jacobi", "gauss-seidel", "sor", "sparse lu", "dense lu", "reordered lu", "inverse", "full-pattern ilu", "cg", "cholesky", "pcg jacobi", "pcg ilu", "dense sor", "dense inverse of factors"};
enum { NS_ALL = 14 };
struct Skip {};
template<class T> struct Spd { static DynamicVector<T> go(Sys<T>&, int, double, const DynamicVector<T>&, size_t&) { throw Skip(); } };
template<class T> DynamicVector<T> spd_solve(Sys<T>& q, int k, double tol, const DynamicVector<T>& x0, size_t& steps)
{
	typedef SparseMatrix<T> M; const size_t n = q.n, lim = q.lim;
	switch (k)
	{
	case 8: return CG::serial::cg(q.A, q.b, x0, lim, tol, &steps);
	case 10: { M C(n, n); CG::serial::jacobi(q.A, C); return CG::serial::pcg(q.A, q.b, C, x0, lim, tol, &steps); }
	default: { M L(n, n), U(n, n), iL(n, n), iU(n, n); LU::serial::ilu0(q.A, L, U); LU::serial::ainv_lu(L, U, iL, iU); M C = iU.mul(iL); C += C.transpose(); C *= (T)0.5; return CG::serial::pcg(q.A, q.b, C, x0, lim, tol, &steps); }
	}
}
template<> struct Spd<double> { static DynamicVector<double> go(Sys<double>& q, int k, double tol, const DynamicVector<double>& x0, size_t& steps) { return spd_solve(q, k, tol, x0, steps); } };
template<> struct Spd<float> { static DynamicVector<float> go(Sys<float>& q, int k, double tol, const DynamicVector<float>& x0, size_t& steps) { return spd_solve(q, k, tol, x0, steps); } };

// runs solver k and judges the result by its residual and by the known solution
template<class T> bool run(Rng& r, Sys<T>& q, int k, double w, const char* what, bool nofill, bool dominant)
{
	typedef Sc<T> S; typedef typename S::B B; typedef SparseMatrix<T> M; typedef DenseMatrix<T> D; typedef DynamicVector<T> V;
	const size_t n = q.n; const ld eps = S::eps();
	if (k >= 8 && k <= 11 && !q.spd) return false;
	if (k == 7 && !nofill) return false;
	if (k == 0 && !dominant) return false;
	V x0(n); if (r.chance(0.5)) for (size_t i = 0; i < n; ++i) x0[i] = S::make(r.uni(-1, 1) * (double)q.maxu, S::cplx ? r.uni(-1, 1) : 0);
	V x(1); size_t steps = 0, lim = 200000; double tol = (double)(std::max((ld)1e-9, 200 * n * eps) * std::max(q.maxu, (ld)1e-3)); ld itres = 0;
	label(SOLVERS[k]); auto ab = vraw(q.b); size_t fc = q.A.filled_count();
	switch (k)
	{
	case 0: x = Iterative::serial::jacobi(q.A, q.b, x0, lim, tol, &steps); break;
	case 1: x = Iterative::serial::sor(q.A, q.b, x0, 1.0, lim, tol, &steps); break;
	case 2: x = Iterative::serial::sor(q.A, q.b, x0, w, lim, tol, &steps); break;
	case 3: { M L(n, n), U(n, n), P(n, n); LU::serial::doolittle(q.A, L, U, P); x = LU::serial::solve_lu(L, U, P.mul(q.b)); break; }
	case 4: { D A = Convert::toDenseMatrix(q.A), L(n, n), U(n, n), P(n, n); LU::serial::doolittle(A, L, U, P); x = LU::serial::solve_lu(L, U, P.mul(q.b)); break; }
	case 5: { M Z = q.A; Z += q.A.transpose(); auto p = r.chance(0.5) ? cuthill_mckee(Z) : r_cuthill_mckee(Z); M R = permutate(q.A, p), L(n, n), U(n, n), P(n, n); LU::serial::doolittle(R, L, U, P); x = permutate(LU::serial::solve_lu(L, U, P.mul(permutate(q.b, p))), inverse_permutation(p)); break; }
	case 6: x = Operations::inverse(q.A).mul(q.b); break;
	case 7: { M L(n, n), U(n, n); LU::serial::ilu0(q.A, L, U); x = LU::serial::solve_lu(L, U, q.b); break; }
	case 9: { M L(n, n); LU::serial::cholesky(q.A, L); x = LU::serial::solve_lu(L, L.adjugate(), q.b); break; }
	case 12: { D A = Convert::toDenseMatrix(q.A); x = Iterative::serial::sor(A, q.b, x0, w, lim, tol, &steps); break; }
	case 13: { D A = Convert::toDenseMatrix(q.A), L(n, n), U(n, n), P(n, n); LU::serial::doolittle(A, L, U, P); D X = Operations::inverse(L, U, P); x = X.mul(q.b); break; }
	default: { ld f = 0; for (ld s : q.scale) f = std::max(f, s); tol *= (double)f; x = Spd<T>::go(q, k, tol, x0, steps); itres = tol; }
	}
	if (q.A.filled_count() != fc || !same_bits(vraw(q.b), ab)) BAD(fmt("%s/%s/input changed", what, SOLVERS[k]).c_str(), "n=%zu", n);
	if (x.size() != n) BAD(fmt("%s/%s/size", what, SOLVERS[k]).c_str(), "%zu instead of %zu", (size_t)x.size(), n);
	bool iterative = k <= 2 || k == 12;
	if (iterative && (steps == 0 || steps >= lim)) BAD(fmt("%s/%s/convergence", what, SOLVERS[k]).c_str(), "%s n=%zu w=%g: %zu sweeps", S::name(), n, w, steps);
	if (itres > 0 && steps >= q.lim) BAD(fmt("%s/%s/convergence", what, SOLVERS[k]).c_str(), "%s n=%zu: %zu steps", S::name(), n, steps);
	// max norm of the residual relative to the row, then the error by stability
	ld mx = q.maxu, worst = 0, err = 0; std::vector<B> v(n);
	for (size_t i = 0; i < n; ++i) { v[i] = S::big(x.at(i)); if (!finite_(v[i])) BAD(fmt("%s/%s/not finite", what, SOLVERS[k]).c_str(), "%s n=%zu", S::name(), n); mx = std::max(mx, abs_(v[i])); }
	ld sm = 0; for (ld s : q.scale) sm = std::max(sm, s);
	for (size_t i = 0; i < n; ++i)
	{
		B s = S::big(q.b.at(i)); for (auto& e : q.rows[i]) s -= e.second * v[e.first];
		worst = std::max(worst, abs_(s)); err = std::max(err, abs_(v[i] - q.u[i]));
		// iterations: |M - A| times the last step; factorizations: backward error
		ld bound = iterative ? 1.01L * q.scale[i] * (k == 2 || k == 12 ? (1 + std::fabs(1 / (ld)w - 1)) : 1) * tol + 20 * n * eps * q.scale[i] * mx : itres > 0 ? 1.01L * itres + 400 * (n + steps) * eps * sm * mx : 100 * n * eps * sm * mx * (k == 6 || k == 13 ? 4 * q.cint * sm : 1);
		if (!(abs_(s) <= bound)) BAD(fmt("%s/%s/residual", what, SOLVERS[k]).c_str(), "%s n=%zu w=%g row %zu: %Lg, bound %Lg", S::name(), n, w, i, abs_(s), bound);
	}
	ld eb = 1.05L * q.cint * (worst + 4 * eps * sm * q.maxu) + 4 * eps * mx;
	if (!(err <= eb)) BAD(fmt("%s/%s/solution", what, SOLVERS[k]).c_str(), "%s n=%zu w=%g: off by %Lg, bound %Lg", S::name(), n, w, err, eb);
	count(fmt("%s:%s", what, SOLVERS[k]).c_str());
	return true;
}
// stability in the max norm from the inverse in extended precision
template<class T> void stability(Sys<T>& q)
{
	typedef typename Sc<T>::B B; const size_t n = q.n; q.cint = 0;
	Mat<B> a(n, n); for (size_t i = 0; i < n; ++i) for (auto& e : q.rows[i]) a(i, e.first) = e.second;
	Mat<B> inv(n, n); for (size_t i = 0; i < n; ++i) inv(i, i) = B(1);
	for (size_t c = 0; c < n; ++c)
	{
		size_t p = c; for (size_t i = c + 1; i < n; ++i) if (abs_(a(i, c)) > abs_(a(p, c))) p = i;
		for (size_t j = 0; j < n; ++j) { std::swap(a(p, j), a(c, j)); std::swap(inv(p, j), inv(c, j)); }
		B d = a(c, c); for (size_t j = 0; j < n; ++j) { a(c, j) /= d; inv(c, j) /= d; }
		for (size_t i = 0; i < n; ++i) if (i != c && a(i, c) != B(0)) { B f = a(i, c); for (size_t j = 0; j < n; ++j) { a(i, j) -= f * a(c, j); inv(i, j) -= f * inv(c, j); } }
	}
	for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += abs_(inv(i, j)); q.cint = std::max(q.cint, s); }
}
template<class B> B coef(Rng& r); template<> ld coef<ld>(Rng& r) { return r.uni(-1, 1); } template<> cld coef<cld>(Rng& r) { return cld(r.uni(-1, 1), r.uni(-1, 1)); }
template<class B> struct Poly { B c[4][4]; B operator()(ld x, ld y) const { B s(0); ld px = 1; for (int i = 0; i < 4; ++i, px *= x) { ld py = 1; for (int j = 0; i + j < 4; ++j, py *= y) s += c[i][j] * px * py; } return s; } };
template<class B> Poly<B> poly(Rng& r) { Poly<B> p; for (auto& x : p.c) for (auto& y : x) y = r.chance(0.3) ? B(0) : coef<B>(r); return p; }

// Poisson, reaction and convection terms on a rectangle
template<class T> void stationary(Rng& r)
{
	typedef Sc<T> S; typedef typename S::B B;
	size_t nx = (size_t)r.range(2, 8), ny = r.chance(0.2) ? 2 : (size_t)r.range(2, 8); if (r.chance(0.01)) { nx = (size_t)r.range(8, 14); ny = (size_t)r.range(8, 14); }
	bool strip = r.chance(0.15); if (strip) { nx = (size_t)r.range(2, 30); ny = 2; }// one line of inner points
	if (r.chance(0.5)) std::swap(nx, ny);
	ld lx = r.uni(0.5, 2), ly = r.uni(0.5, 2), hx = lx / nx, hy = ly / ny;
	int kind = (int)r.below(S::cplx ? 4 : 3);// Poisson, reaction, upwind convection, Helmholtz with absorption
	bool reduced = kind < 2 && r.chance(0.5);// unknowns in the interior only
	static const char* const K[] = {"poisson", "reaction", "convection", "absorption"};
	B sigma = kind == 1 ? B((ld)r.uni(0, 30)) : B(0); if (kind == 3) sigma = S::big(S::make(r.uni(-5, 5), r.uni(20, 60)));
	ld vx = kind == 2 ? r.uni(-20, 20) : 0, vy = kind == 2 ? r.uni(-20, 20) : 0;
	ld rowscale = r.chance(0.5) ? 1 : r.chance(0.5) ? hx * hx : hx * hy;
	Poly<B> P = poly<B>(r); size_t XC = nx + 1, YC = ny + 1, n = reduced ? (nx - 1) * (ny - 1) : XC * YC;
	if (n == 0) return;
	tr("%s %s %zux%zu %s ", K[kind], S::name(), nx, ny, reduced ? "interior" : "all points");
	label("assembly");
	Sys<T> q(n, r.chance(0.5) ? 0 : (size_t)r.below(8 * n));
	auto inside = [&](size_t x, size_t y) { return x > 0 && y > 0 && x < nx && y < ny; };
	auto id = [&](size_t x, size_t y) { return reduced ? (y - 1) * (nx - 1) + x - 1 : y * XC + x; };
	struct En { size_t i, j; B v; }; std::vector<En> es;
	for (size_t y = 0; y < YC; ++y) for (size_t x = 0; x < XC; ++x)
	{
		if (!inside(x, y)) { if (!reduced) { es.push_back({id(x, y), id(x, y), B(1)}); q.u[id(x, y)] = P(x * hx, y * hy); } continue; }
		q.u[id(x, y)] = P(x * hx, y * hy);
		ld w = 1 / (hx * hx) + (vx > 0 ? vx / hx : 0), e = 1 / (hx * hx) + (vx < 0 ? -vx / hx : 0), s = 1 / (hy * hy) + (vy > 0 ? vy / hy : 0), m = 1 / (hy * hy) + (vy < 0 ? -vy / hy : 0);
		auto add = [&](size_t a, size_t b, ld v) { if (!reduced || inside(a, b)) es.push_back({id(x, y), id(a, b), B(-v * rowscale)}); };
		add(x, y - 1, s); add(x - 1, y, w);
		es.push_back({id(x, y), id(x, y), (B(w + e + s + m) + sigma) * rowscale});
		add(x + 1, y, e); add(x, y + 1, m);
	}
	if (reduced) for (auto& z : q.u) z = B(re_(z));
	if (r.chance(0.4)) r.shuffle(es);
	for (auto& e : es) { if (r.chance(0.1)) q.A.set(e.i, e.j, S::make(r.uni(-9, 9), 0)); q.set(e.i, e.j, e.v); }
	q.spd = reduced && !S::cplx;
	q.finish();
	// with zero boundary values or identity rows: |e| <= boundary residual + L^2/8 interior residual
	ld lm = std::min(lx, ly); q.cint = 1 + lm * lm / 8 / rowscale;
	if (kind == 2) { ld c = HUGE_VALL; for (int d = 0; d < 2; ++d) { ld v = std::fabs(d ? vy : vx), l = d ? ly : lx; c = std::min(c, v > 0 ? l / v : HUGE_VALL); } q.cint = 1 + c / rowscale; if (!(c < 1e3L)) return; }
	if (kind == 3) q.cint = 0;
	if (kind == 3)
	{
		if (n > 40) return;
		stability(q);
	}
	// every row is weakly diagonally dominant; Helmholtz only where the absorption outweighs
	bool dom = true; for (size_t i = 0; i < n; ++i) { ld s = 0, d = 0; for (auto& e : q.rows[i]) (e.first == i ? d : s) += abs_(e.second); if (s > d * 0.9999L && kind == 3) dom = false; }
	bool nofill = reduced && (nx == 2 || ny == 2);
	double w = kind == 3 || kind == 2 ? r.uni(0.5, 1.0) : r.uni(0.5, 1.8);
	int tried = 0, all = r.chance(0.05);
	for (int k = 0; k < NS_ALL; ++k)
	{
		if (!all && !r.chance(0.3)) continue;
		if (kind == 3 && !dom && (k <= 2 || k == 12)) continue;
		if ((k == 6 || k == 13 || k == 5) && n > 60 && !r.chance(0.1)) continue;
		tried += run(r, q, k, w, K[kind], nofill, true);
	}
	if (reduced && !S::cplx) { label("predicates"); if (!Check::matrixIsSymmetric(q.A) || !Check::matrixIsHermitian(q.A)) BAD(fmt("%s/symmetry", K[kind]).c_str(), "n=%zu", n); if (kind == 0 && n > 1 && Check::matrixIsSkewSymmetric(q.A)) BAD("skew", "n=%zu", n); }
	if (reduced) count("interior-only"); if (strip) count("strips");
	if (tried) distinct(hash_vals(vraw(q.b), hash2(n, kind)));
	sample(sh->trace);
}
// rough coefficients and fourth derivatives: conjugate gradients need more steps than there are unknowns
template<class T> void rough(Rng& r)
{
	typedef Sc<T> S; typedef typename S::B B;
	bool beam = r.chance(0.5); size_t nx = beam ? (size_t)r.range(1, 40) : (size_t)r.range(1, 7), ny = beam ? 1 : r.chance(0.3) ? 1 : (size_t)r.range(1, 7), n = nx * ny;
	const char* what = beam ? "beam" : "diffusion"; double decades = r.uni(0, S::eps() > 1e-10L ? 1.5 : 4);
	tr("%s %s %zux%zu ", what, S::name(), nx, ny); label("assembly");
	Sys<T> q(n, r.chance(0.5) ? 0 : (size_t)r.below(6 * n + 1));
	struct En { size_t i, j; B v; }; std::vector<En> es;
	auto id = [&](size_t x, size_t y) { return y * nx + x; };
	if (beam)
	{
		for (size_t i = 0; i < n; ++i) for (size_t j = i > 2 ? i - 2 : 0; j < n && j <= i + 2; ++j) { size_t d = i > j ? i - j : j - i; es.push_back({i, j, B(d == 0 ? 6 : d == 1 ? -4 : 1)}); }
		if (r.chance(0.5)) { ld f = r.uni(0, 20); for (auto& e : es) if (e.i == e.j) e.v += f; }// on an elastic foundation
	}
	else
	{
		auto c = [&]() { return std::round(std::pow(10.0L, (ld)(r.uni(-0.5, 0.5) * decades)) * 1024) / 1024 + 1.0L / 1024; };
		std::vector<ld> dg(n, 0);
		for (size_t y = 0; y < ny; ++y) for (size_t x = 0; x < nx; ++x)
		{
			if (x == 0) dg[id(x, y)] += c(); if (y == 0) dg[id(x, y)] += c();
			ld e = c(), m = c(); dg[id(x, y)] += e + m;
			if (x + 1 < nx) { dg[id(x + 1, y)] += e; es.push_back({id(x, y), id(x + 1, y), B(-e)}); es.push_back({id(x + 1, y), id(x, y), B(-e)}); }
			if (y + 1 < ny) { dg[id(x, y + 1)] += m; es.push_back({id(x, y), id(x, y + 1), B(-m)}); es.push_back({id(x, y + 1), id(x, y), B(-m)}); }
		}
		for (size_t i = 0; i < n; ++i) es.push_back({i, i, B(dg[i])});
	}
	if (r.chance(0.4)) r.shuffle(es);
	for (auto& e : es) q.set(e.i, e.j, e.v);
	bool smooth = r.chance(0.3); for (size_t i = 0; i < n; ++i) q.u[i] = smooth ? B(std::sin(3 * (ld)(i + 1) / (n + 1))) : B((ld)r.uni(-1, 1));
	q.spd = true; q.lim = 100000; q.finish(); stability(q);
	int tried = 0, all = r.chance(0.05);
	for (int k = 3; k < NS_ALL; ++k) if (k != 12 && (k != 7 || beam || nx == 1 || ny == 1) && (all || r.chance(k == 8 || k == 10 ? 0.7 : 0.25))) tried += run(r, q, k, 1, what, true, false);
	if (tried) distinct(hash_vals(vraw(q.b), hash2(n, beam)));
	sample(sh->trace);
}
// implicit Euler for the heat equation, all steps in one system
template<class T> void heat(Rng& r)
{
	typedef Sc<T> S; typedef typename S::B B;
	size_t nt = (size_t)r.range(1, 6), nx = (size_t)r.range(2, 5), ny = (size_t)r.range(2, 5); if (r.chance(0.01)) { nt = 8; nx = ny = 7; }
	ld ht = 1.0L / nt, hx = 1.0L / nx, hy = 1.0L / ny, k = r.uni(0.1, 1.5); size_t XC = nx + 1, YC = ny + 1, TC = nt + 1, n = XC * YC * TC;
	tr("heat %s %zux%zux%zu ", S::name(), nt, nx, ny); label("assembly");
	Sys<T> q(n, r.chance(0.5) ? 7 * n : (size_t)r.below(2 * n));
	auto id = [&](size_t t, size_t x, size_t y) { return (t * YC + y) * XC + x; };
	bool back = r.chance(0.3);
	std::vector<std::vector<B> > u(TC, std::vector<B>(XC * YC, B(0)));
	for (auto& z : u[0]) z = B(0); bool bump = r.chance(0.7);
	for (size_t y = 1; y < ny; ++y) for (size_t x = 1; x < nx; ++x) u[0][y * XC + x] = bump ? B(std::exp(10 * x * hx * (1 - x * hx) * y * hy * (1 - y * hy)) - 1) : B((ld)r.uni(0, 1));
	for (size_t tt = 0; tt < TC; ++tt)
	{
		size_t t = back ? TC - 1 - tt : tt;
		for (size_t y = 0; y < YC; ++y) for (size_t x = 0; x < XC; ++x)
		{
			size_t mid = id(t, x, y);
			if (t == 0 || x == 0 || y == 0 || x == nx || y == ny) { q.set(mid, mid, B(1)); continue; }
			q.set(mid, id(t - 1, x, y), B(-1 / ht)); q.set(mid, id(t, x, y - 1), B(-k / (hy * hy))); q.set(mid, id(t, x - 1, y), B(-k / (hx * hx)));
			q.set(mid, mid, B(2 * k * (1 / (hx * hx) + 1 / (hy * hy)) + 1 / ht));
			q.set(mid, id(t, x + 1, y), B(-k / (hx * hx))); q.set(mid, id(t, x, y + 1), B(-k / (hy * hy)));
		}
	}
	// the reference solves each step by Gauss-Seidel in extended precision, the rows are those that were assembled
	for (size_t i = 0; i < XC * YC; ++i) q.u[i] = u[0][i];
	for (size_t t = 1; t < TC; ++t)
	{
		for (size_t i = 0; i < XC * YC; ++i) { size_t x = i % XC, y = i / XC; q.u[t * XC * YC + i] = x == 0 || y == 0 || x == nx || y == ny ? B(0) : q.u[(t - 1) * XC * YC + i]; }
		for (int s = 0; s < 600; ++s) { ld d = 0; for (size_t y = 1; y < ny; ++y) for (size_t x = 1; x < nx; ++x) { size_t m = id(t, x, y); B z(0), dg(0); for (auto& e : q.rows[m]) if (e.first == m) dg = e.second; else z -= e.second * q.u[e.first]; z /= dg; d = std::max(d, abs_(z - q.u[m])); q.u[m] = z; } if (d < 1e-18L) break; }
	}
	q.cint = 2;// |e| <= initial and boundary residual + t_end * interior residual
	auto u0 = q.u; q.finish();
	// interior right-hand sides vanish up to rounding
	for (size_t i = 0; i < n; ++i) { size_t t = i / (XC * YC), x = i % XC, y = i / XC % YC; if (t && x && y && x < nx && y < ny) { if (abs_(S::big(q.b.at(i))) > 1e-12L * (q.scale[i] + 1) * (q.maxu + 1)) BAD("reference", "row %zu", i); q.b.set(i, (T)0); } }
	double w = r.uni(0.6, 1.2);
	bool all = r.chance(0.05);
	for (int z = 0; z < 8; ++z)
	{
		if (!all && !r.chance(0.35)) continue;
		if ((z == 5 || z == 6) && n > 100) continue;
		if (z >= 3 && z <= 6 && n > 260) continue;
		run(r, q, z, w, "heat", false, true);
	}
	// discrete maximum principle of the computed solution
	label("sor"); size_t st; auto x = Iterative::serial::sor(q.A, q.b, DynamicVector<T>(n), 1.0, 100000, sizeof(typename S::R) == 4 ? 1e-5 : 1e-11, &st);
	ld hi = 0; for (auto& z : u[0]) hi = std::max(hi, re_(z)); ld slack = sizeof(typename S::R) == 4 ? 1e-3L : 1e-8L;
	for (size_t t = 1; t < TC; ++t)
	{
		ld m = 0; for (size_t i = 0; i < XC * YC; ++i) { ld v = re_(S::big(x.at(t * XC * YC + i))); if (v < -slack * (1 + hi)) BAD("heat/minimum", "value %Lg", v); m = std::max(m, v); }
		if (m > hi + slack * (1 + hi)) BAD("heat/maximum", "step %zu: %Lg after %Lg", t, m, hi);
		hi = m;
	}
	count("heat:maximum principle"); distinct(hash_vals(vraw(q.b), hash2(n, 77)));
	sample(sh->trace);
}
// closed forms of the second difference
template<class M> void closed(Rng& r, size_t n)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B; const ld eps = S::eps();
	tr("closed %s %s n=%zu ", Kd<M>::n(), S::name(), n);
	M A = Mk<M>::make(n, n); std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) o[i] = i; if (r.chance(0.5)) r.shuffle(o);
	label("assembly"); T sc = (T)std::ldexp(1.0, (int)r.range(-2, 2));
	for (size_t i : o) { A.set(i, i, sc + sc); if (i) A.set(i, i - 1, -sc); if (i + 1 < n) A.set(i, i + 1, -sc); }
	ld s = re_(S::big(sc));
	label("determinant"); ld e = (ld)(n + 1) * std::pow(s, (ld)n);
	B d = S::big(Operations::determinant(A)); if (!(abs_(d - B(e)) <= 40 * n * n * eps * e)) BAD("closed/determinant", "%s n=%zu: %Lg instead of %Lg", S::name(), n, re_(d), e);
	label("inverse"); M X = Operations::inverse(A);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { ld f = (ld)(std::min(i, j) + 1) * (ld)(n - std::max(i, j)) / (ld)(n + 1) / s; if (!(abs_(S::big(X.at(i, j)) - B(f)) <= 60 * n * n * eps * (ld)(n + 1) / s)) BAD("closed/inverse", "%s n=%zu (%zu,%zu): %s instead of %Lg", S::name(), n, i, j, str(X.at(i, j)).c_str(), f); }
	label("cholesky"); M L = Mk<M>::make(n, n); LU::serial::cholesky(A, L);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		ld f = i == j ? std::sqrt(s * (ld)(i + 2) / (ld)(i + 1)) : i == j + 1 ? -std::sqrt(s * (ld)(j + 1) / (ld)(j + 2)) : 0;
		if (!(abs_(S::big(L.at(i, j)) - B(f)) <= 20 * n * eps * (1 + std::sqrt(s)))) BAD("closed/cholesky", "%s n=%zu (%zu,%zu): %s instead of %Lg", S::name(), n, i, j, str(L.at(i, j)).c_str(), f);
	}
	label("products"); M B2 = A.mul(A), C = A; C += A; C -= A; if (!(C == A)) BAD("closed/sum", "A + A - A differs");
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		size_t dd = i > j ? i - j : j - i; ld f = dd == 0 ? (i == 0) + (i + 1 == n) : 0; f = dd == 0 ? (n == 1 ? 4 : 6 - f) : dd == 1 ? -4 : dd == 2 ? 1 : 0;
		if (S::big(B2.at(i, j)) != B(f * s * s)) BAD("closed/square", "(%zu,%zu): %s instead of %Lg", i, j, str(B2.at(i, j)).c_str(), f * s * s);
	}
	count(fmt("closed:%s", Kd<M>::n()).c_str()); distinct(hash_vals(raw(A), hash_bytes(Kd<M>::n(), 5)));
}
}
void g1(Rng& r, u64 k); void g2(Rng& r, u64 k); void g3(Rng& r, u64 k);
#if VH_IN(0)
namespace vh { const char* property = "C31"; }
void vh::run_case(Rng& r, u64 i) { extend(60); if (i % 3 == 0) g1(r, i / 3); else if (i % 3 == 1) g2(r, i / 3); else g3(r, i / 3); }
#include "vh_main.h"
#endif
#if VH_IN(1)
void g1(Rng& r, u64 k) { if (k % 4 == 3) { if (k % 8 == 7) stationary<VF>(r); else rough<VF>(r); } else if (k % 4 == 2) rough<double>(r); else stationary<double>(r); }
#endif
#if VH_IN(2)
void g2(Rng& r, u64 k) { if (k % 2) stationary<VCD>(r); else closed<SparseMatrix<double> >(r, r.chance(0.05) ? (size_t)r.range(20, 60) : (size_t)r.range(1, 15)); }
#endif
#if VH_IN(3)
void g3(Rng& r, u64 k)
{
	switch (k % 6)
	{
	case 0: case 1: heat<double>(r); break;
	case 2: heat<VF>(r); break;
	case 3: closed<DenseMatrix<double> >(r, r.chance(0.05) ? (size_t)r.range(20, 60) : (size_t)r.range(1, 15)); break;
	case 4: closed<DenseMatrix<VCD> >(r, (size_t)r.range(1, 12)); break;
	default: closed<SparseMatrix<VF> >(r, (size_t)r.range(1, 12)); break;
	}
}
#endif
