// C12: Jacobi, Gauss-Seidel and SOR
#include "ref.h"
#include "Iterative.h"
using namespace NS;
using namespace ref;
using namespace vh;
template<class M> struct Kd { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class B> ld nrm2(const std::vector<B>& v) { ld s = 0; for (auto& x : v) s += abs_(x) * abs_(x); return std::sqrt(s); }
template<class B> std::vector<B> gauss(Mat<B> a, std::vector<B> b)
{
	size_t n = a.r;
	for (size_t k = 0; k < n; ++k)
	{
		size_t p = k; for (size_t i = k + 1; i < n; ++i) if (abs_(a(i, k)) > abs_(a(p, k))) p = i;
		for (size_t j = 0; j < n; ++j) std::swap(a(p, j), a(k, j)); std::swap(b[p], b[k]);
		for (size_t i = k + 1; i < n; ++i) { B m = a(i, k) / a(k, k); for (size_t j = k; j < n; ++j) a(i, j) -= m * a(k, j); b[i] -= m * b[k]; }
	}
	for (size_t i = n; i-- > 0;) { for (size_t j = i + 1; j < n; ++j) b[i] -= a(i, j) * b[j]; b[i] /= a(i, i); }
	return b;
}
template<class M> void iter(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename S::B B; typedef DynamicVector<T> V;
	const ld eps = S::eps();
	int method = (int)r.below(4);// 0 jacobi, 1 gauss-seidel, 2 under-relaxed, 3 over-relaxed (SPD)
	static const char* mn[] = {"jacobi", "gauss-seidel", "sor under", "sor over"};
	std::string ks = std::string(mn[method]) + "/" + Kd<M>::n(); const char* kind = ks.c_str();
	size_t n = gen_dim(r, 9); Kind k = (Kind)r.below(WIDE); double d = r.pick({0.0, 0.2, 0.5, 1.0});
	Mat<B> a(n, n); bool spd = method == 3;
	if (!spd)
	{
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j && r.chance(d)) a(i, j) = S::big(gen<T>(r, k));
		ld f = r.pick({1.05, 1.3, 2.0, 10.0}); grade<T>(r, a, 0.25); bool weak = r.chance(0.3);
		for (size_t i = 0; i < n; ++i) { ld s = weak; for (size_t j = 0; j < n; ++j) s += abs_(a(i, j)); if (s == 0) s = 1; B ph = S::big(S::make(r.chance(0.5) ? 1 : -1, 0)); if (S::cplx && r.chance(0.5)) ph = S::big(S::make(0.6, 0.8)); a(i, i) = ph * B(s * f); }
		if (r.chance(0.2)) for (size_t i = 0; i < n; ++i) { ld s = some_scale<T>(r, 0.5); for (size_t j = 0; j < n; ++j) a(i, j) *= s; }
	}
	else
	{
		Mat<B> g(n, n); for (auto& x : g.v) if (r.chance(d)) x = S::big(gen<T>(r, k));
		a = g * transp(g, true); ld t = 0; for (size_t i = 0; i < n; ++i) t = std::max(t, re_(a(i, i)));
		for (size_t i = 0; i < n; ++i) a(i, i) += B(t * 0.1L + 0.5L);
	}
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { a(i, j) = S::big(S::make((double)re_(a(i, j)), (double)im_(a(i, j)))); }
	if (spd) for (size_t i = 0; i < n; ++i) { a(i, i) = B(re_(a(i, i))); for (size_t j = 0; j < i; ++j) a(j, i) = conj_(a(i, j)); }
	double w = method < 2 ? 1.0 : method == 2 ? r.pick({0.3, 0.5, 0.8, 0.95, 1.0}) : r.pick({0.3, 1.0, 1.1, 1.5, 1.8, 1.9});
	size_t hole = n; if (r.chance(0.1)) { hole = r.below(n); a(hole, hole) = B(0); }
	M A(n, n); { std::vector<size_t> o(n * n); for (size_t q = 0; q < o.size(); ++q) o[q] = q; r.shuffle(o); for (size_t q : o) if (a.v[q] != B(0)) A.linear_set(q, S::make((double)re_(a.v[q]), (double)im_(a.v[q]))); }
	// right-hand side: general, or with an exactly known small integer solution
	V b = gen_vector<V>(r, n, k), x0 = r.chance(0.3) ? V(n) : gen_vector<V>(r, n, k);
	if (r.chance(0.05)) b.fill((T)0); else if (r.chance(0.2)) for (size_t i = 0; i < n; ++i) if (r.chance(0.5)) b[i] = (T)0;
	if (r.chance(0.2)) for (size_t i = 0; i < n; ++i) x0[i] *= (T)100;
	auto ab = raw(A); auto bb = vraw(b), xb = vraw(x0);
	tr("%s %s n=%zu w=%g", kind, S::name(), n, w);
	size_t cnt = 999999;
	auto solve = [&](size_t lim, double tol, size_t* st) -> V { return method == 0 ? Iterative::serial::jacobi(A, b, x0, lim, tol, st) : Iterative::serial::sor(A, b, x0, w, lim, tol, st); };
	label(method == 0 ? "jacobi" : "sor");
	if (hole < n)
	{
		bool threw = false; try { solve(50, 1e-6, &cnt); } catch (const MatrixHasZeroInDiagException&) { threw = true; }
		if (!threw) BAD("zero diagonal", "%s n=%zu: zero at %zu not reported", S::name(), n, hole);
		count("zero-diagonal"); return;
	}
	std::vector<B> bv; for (auto& x : bb) bv.push_back(S::big(x));
	std::vector<B> xs = gauss(a, bv); ld xn = nrm2(xs), x0n = 0; for (auto& x : xb) x0n = std::max(x0n, abs_(S::big(x)));
	double tol = (double)std::max((ld)(r.pick({1e-2, 1e-4, 1e-6, 1e-9})), 1e4L * n * eps) * (double)std::max(xn, (ld)1e-3) * 1.0;
	size_t lim = 30000;
	V x = solve(lim, tol, &cnt);
	if (x.size() != n) BAD("size", "%zu", x.size());
	if (!same_bits(raw(A), ab) || !same_bits(vraw(b), bb) || !same_bits(vraw(x0), xb)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (cnt >= lim || cnt == 0) BAD("no convergence", "%s n=%zu w=%g tolerance %g: count %zu", S::name(), n, w, tol, cnt);
	for (size_t i = 0; i < n; ++i) if (!finite_(S::big(x.at(i)))) BAD("not finite", "%s n=%zu", S::name(), n);
	// error: contraction bound in the maximum norm for dominant systems, residual bound for all
	ld rnd = 100 * n * eps * (xn + (ld)tol);
	std::vector<B> res = bv; ld nf = 0, an = 0;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		res[i] -= a(i, j) * S::big(x.at(j)); an = std::max(an, abs_(a(i, j)));
		// M - A with M = D (jacobi) or D/w + strict lower part
		B m = method == 0 ? (i == j ? B(0) : a(i, j)) : i == j ? a(i, j) * (1 / (ld)w - 1) : j > i ? a(i, j) : B(0);
		nf += abs_(m) * abs_(m);
	}
	nf = std::sqrt(nf);
	if (!(nrm2(res) <= (nf * tol) * 1.01L + 30 * n * eps * (an * n * (xn + (ld)tol) + nrm2(bv)))) BAD("residual", "%s n=%zu w=%g tol %g count %zu: residual %Lg, bound %Lg", S::name(), n, w, tol, cnt, nrm2(res), nf * tol);
	ld err = 0; for (size_t i = 0; i < n; ++i) err = std::max(err, abs_(S::big(x.at(i)) - xs[i]));
	if (!spd)
	{
		ld q = 0; for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) if (j != i) s += abs_(a(i, j)); q = std::max(q, s / abs_(a(i, i))); }
		q = std::fabs(1 - w) + w * q;
		if (!(err <= q / (1 - q) * tol * 1.01L + rnd / (1 - q))) BAD("error", "%s n=%zu w=%g tol %g: error %Lg, bound %Lg", S::name(), n, w, tol, err, q / (1 - q) * tol);
	}
	// sweep by sweep: limits 0..K reproduce the iterates x_0..x_K of the method
	size_t K = std::min<size_t>(cnt, 6 + r.below(6));
	std::vector<B> prev; for (auto& t : xb) prev.push_back(S::big(t));
	std::vector<size_t> ls; for (size_t l = 0; l <= K; ++l) ls.push_back(l);
	if (cnt > K + 1) { ls.push_back(cnt - 1); ls.push_back(cnt); }
	size_t last = 0;
	for (size_t l : ls)
	{
		size_t c = 999999; V xl = solve(l, tol, &c);
		if (c != l) BAD("count", "%s n=%zu: limit %zu (of %zu), reported %zu", S::name(), n, l, cnt, c);
		std::vector<B> cur; for (auto& t : vraw(xl)) cur.push_back(S::big(t));
		if (l == 0) { if (!same_bits(vraw(xl), xb)) BAD("limit 0", "%s n=%zu: not the initial guess", S::name(), n); }
		else if (l == last + 1)
		{
			ld step = 0;
			for (size_t i = 0; i < n; ++i)
			{
				B t = bv[i]; ld g = abs_(bv[i]);
				for (size_t j = 0; j < n; ++j) if (j != i) { const B& y = method != 0 && j < i ? cur[j] : prev[j]; t -= a(i, j) * y; g += abs_(a(i, j)) * abs_(y); }
				t /= a(i, i); g /= abs_(a(i, i));
				if (method != 0) { t = (ld)w * t + (1 - (ld)w) * prev[i]; g = w * g + (1 + w) * abs_(prev[i]); }
				ld dd = abs_(t - cur[i]); step += abs_(cur[i] - prev[i]) * abs_(cur[i] - prev[i]);
				if (!(dd <= (S::cplx ? 12 : 4) * (n + 4) * eps * g + 64 * n * (ld)std::numeric_limits<typename S::R>::min())) BAD("sweep", "%s n=%zu w=%g sweep %zu component %zu is off by %Lg, bound %Lg", S::name(), n, w, l, i, dd, (S::cplx ? 12 : 4) * (n + 4) * eps * g);
			}
			step = std::sqrt(step); ld slack = 20 * n * eps * (xn + x0n + tol);
			if (l < cnt && step < tol * 0.999L - slack) BAD("late stop", "%s n=%zu: step %Lg of sweep %zu is below the tolerance %g, ran %zu", S::name(), n, step, l, tol, cnt);
			if (l == cnt && step > tol * 1.001L + slack) BAD("early stop", "%s n=%zu: step %Lg of the last sweep %zu exceeds the tolerance %g", S::name(), n, step, l, tol);
			count("sweeps-replayed");
		}
		if (l == cnt && !same_bits(vraw(xl), vraw(x))) BAD("limit", "%s n=%zu: limit %zu gives another iterate than the unlimited run", S::name(), n, l);
		prev = cur; last = l;
	}
	// the exact solution as initial guess, where it is exactly representable
	if (!S::cplx || r.chance(0.5))
	{
		bool ok = true; V e = gen_vector<V>(r, n, SMALLINT), c(n);
		for (size_t i = 0; i < n && ok; ++i)
		{
			B s(0); for (size_t j = 0; j < n; ++j) s += a(i, j) * S::big(e.at(j));
			c[i] = S::make((double)re_(s), (double)im_(s)); if (S::big(c.at(i)) != s) ok = false;
			if (k != SMALLINT && k != DYADIC) ok = false;
		}
		if (ok && tol > 1e-9)
		{
			size_t st = 0; V y = method == 0 ? Iterative::serial::jacobi(A, c, e, 100, tol, &st) : Iterative::serial::sor(A, c, e, w, 100, tol, &st);
			ld dv = 0; for (size_t i = 0; i < n; ++i) dv = std::max(dv, abs_(S::big(y.at(i)) - S::big(e.at(i))));
			if (st != 1 || !(dv <= 200 * n * eps * 10)) BAD("exact guess", "%s n=%zu: %zu sweeps, deviation %Lg", S::name(), n, st, dv);
			count("exact-guess");
		}
	}
	if (r.chance(0.1)) { V y = method == 0 ? Iterative::serial::jacobi(A, b, x0, lim, tol) : Iterative::serial::sor(A, b, x0, w, lim, tol); if (!same_bits(vraw(y), vraw(x))) BAD("no count", "result depends on the count argument"); }
	count(fmt("%s:converged", kind).c_str());
	if (S::cplx) count("complex");
	distinct(hash_vals(ab, hash_vals(bb, hash_vals(xb, hash_bytes(kind, strlen(kind))))));
	sample(fmt("%s count %zu tol %g", sh->trace, cnt, tol));
}
namespace vh { const char* property = "C12"; }
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 7)
	{
	case 0: case 1: iter<SparseMatrix<double> >(r); break;
	case 2: iter<DenseMatrix<double> >(r); break;
	case 3: iter<SparseMatrix<VCD > >(r); break;
	case 4: iter<DenseMatrix<VCD > >(r); break;
	case 5: iter<SparseMatrix<VF> >(r); break;
	default: iter<DenseMatrix<VF> >(r); break;
	}
}
#include "vh_main.h"
