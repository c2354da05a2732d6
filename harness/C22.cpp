// C22: quadrature rules against exact integrals of polynomials on the unit line and triangle.
#include "ref.h"
#include "quadrature/Quadrature.h"
using namespace NS; using namespace vh; using namespace ref;
namespace vh { const char* property = "C22"; }
namespace {
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
ld fact(int n) { ld f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }

template<class T, Dimension K, Dimension O> void go(Rng& r)
{
	typedef typename Sc<T>::B B; const ld eps = Sc<T>::eps(), tol = 16 * eps + 8e-15L;
	const int degree = K == 1 ? 2 * (int)O - 1 : (int)O;
	const std::string key = fmt("%uD_%u", (unsigned)K, (unsigned)O);
	label(key.c_str()); tr("%s %s", key.c_str(), Sc<T>::name());
	typedef GaussLegendreQuadrature<T, K, O> Q; typedef FixedVector<T, K> P;
	GaussLegendreQuadratureFactory<T, K, O> fac;
	Q q0; Q q(q0); if (r.chance(0.3)) { Q z; q = z; count("copied"); }

	// a random polynomial
	struct Term { int a, b; ld c; }; std::vector<Term> poly;
	Kind kind = r.pick({SMALLINT, DYADIC, NORMAL});
	bool one = r.chance(0.3);
	std::vector<std::pair<int, int> > all; for (int a = 0; a <= degree; ++a) for (int b = 0; b <= (K == 1 ? 0 : degree - a); ++b) all.push_back({a, b});
	if (one) { auto t = r.pick(all); poly.push_back({t.first, t.second, 1}); }
	else for (auto t : all) if (r.chance(0.8)) poly.push_back({t.first, t.second, (ld)gen_real(r, kind)});
	ld exact = 0, mag = 0;
	for (auto& t : poly) { exact += K == 1 ? t.c / (t.a + 1) : t.c * fact(t.a) * fact(t.b) / fact(t.a + t.b + 2); mag += std::fabs(t.c); }
	typedef std::vector<P> Pts;
	auto f = [&](const P& x) -> T
	{
		B v(0); B X = Sc<T>::big(x[0]), Y = K == 1 ? B(0) : Sc<T>::big(x[K - 1]);
		for (auto& t : poly) { B m(t.c); for (int i = 0; i < t.a; ++i) m *= X; for (int i = 0; i < t.b; ++i) m *= Y; v += m; }
		return (T)v;
	};
	T start = r.chance(0.4) ? (T)0 : gen<T>(r, kind);
	Pts seen, seen_i; std::vector<size_t> idx;
	T v = r.chance(0.2) && start == (T)0 ? q.eval([&](const P& x) -> T { seen.push_back(x); return f(x); }) : q.eval([&](const P& x) -> T { seen.push_back(x); return f(x); }, start);
	T vi = q.eval_index([&](Index i, const P& x) -> T { seen_i.push_back(x); idx.push_back(i); return f(x); }, start);
	const auto& pts = fac.getQuadraturePoints(); const auto& w = fac.getQuadratureWeights();
	if (pts.size() != w.size() || pts.empty()) BAD((key + ":rule").c_str(), "%zu points, %zu weights", pts.size(), w.size());
	B ws(0); for (size_t i = 0; i < w.size(); ++i) ws += Sc<T>::big(w[i]);
	ld measure = K == 1 ? 1 : 0.5L;
	if (!(abs_(ws - B(measure)) <= tol)) BAD((key + ":weights").c_str(), "weights sum up to %.17Lg", re_(ws));
	for (auto& x : pts)
	{
		ld s = 0; for (size_t k = 0; k < K; ++k) { ld c = re_(Sc<T>::big(x[k])); s += c; if (!(c >= 0) || im_(Sc<T>::big(x[k])) != 0) BAD((key + ":points").c_str(), "coordinate %.17Lg", c); }
		if (!(s <= 1 + eps)) BAD((key + ":points").c_str(), "coordinate sum %.17Lg", s);
	}
	// every point once, index consistent
	if (seen.size() != pts.size() || seen_i.size() != pts.size()) BAD((key + ":calls").c_str(), "%zu, %zu calls for %zu points", seen.size(), seen_i.size(), pts.size());
	std::vector<char> got(pts.size(), 0);
	for (size_t c = 0; c < idx.size(); ++c)
	{
		if (idx[c] >= pts.size() || got[idx[c]]) BAD((key + ":index").c_str(), "index %zu", idx[c]);
		got[idx[c]] = 1;
		for (size_t k = 0; k < K; ++k) if (!(seen_i[c][k] == pts[idx[c]][k])) BAD((key + ":index").c_str(), "index %zu comes with another point", idx[c]);
	}
	for (auto& x : pts) { size_t n = 0; for (auto& y : seen) { bool eq = true; for (size_t k = 0; k < K; ++k) eq = eq && x[k] == y[k]; n += eq; } if (n != 1) BAD((key + ":calls").c_str(), "a point is evaluated %zu times", n); }
	for (size_t a = 0; a < pts.size(); ++a) for (size_t b = 0; b < a; ++b) { bool eq = true; for (size_t k = 0; k < K; ++k) eq = eq && pts[a][k] == pts[b][k]; if (eq) BAD((key + ":points").c_str(), "points %zu and %zu are equal", a, b); }
	// exactness
	ld bound = tol * (mag + 1) * 4 + 4 * eps * abs_(Sc<T>::big(start));
	B e = Sc<T>::big(start) + B(exact);
	for (T x : {v, vi})
		if (!(abs_(Sc<T>::big(x) - e) <= bound)) BAD((key + ":exactness").c_str(), "%s instead of %.17Lg (start %s, degree %d)", str(x).c_str(), re_(e), str(start).c_str(), degree);
	count((key + ":integrals").c_str()); if (start != (T)0) count("start-values");
	count("points-seen", seen.size() + seen_i.size());
	// arbitrary functions: the sum over the points of the rule, also with composite results
	ld a0 = r.uni(-2, 2), a1 = r.uni(-2, 2);
	auto g = [&](const P& x, size_t j) -> T { B X = Sc<T>::big(x[0]), Y = K == 1 ? B(0) : Sc<T>::big(x[K - 1]); return (T)std::exp(a0 * X + a1 * Y * B((ld)j) + B((ld)j)); };
	auto refsum = [&](T st, size_t j, ld& m) { B s = Sc<T>::big(st); m = abs_(s); for (size_t i = 0; i < pts.size(); ++i) { B t = Sc<T>::big(w[i]) * Sc<T>::big(g(pts[i], j)); s += t; m += abs_(t); } return s; };
	auto cmp = [&](const char* what, T x, T st, size_t j) { ld m; B s = refsum(st, j, m); if (!(abs_(Sc<T>::big(x) - s) <= 16 * eps * m)) BAD((key + ":" + what).c_str(), "component %zu: %s instead of %.17Lg", j, str(x).c_str(), re_(s)); };
	switch (r.below(4))
	{
	case 0: { T x = q.eval([&](const P& p) -> T { return g(p, 1); }, start); cmp("sum", x, start, 1); count("scalar-results"); break; }
	case 1:
	{
		size_t n = r.range(1, 5); DynamicVector<T> st(n); for (size_t j = 0; j < n; ++j) st[j] = gen<T>(r, kind);
		auto fn = [&](const P& p) { DynamicVector<T> u(n); for (size_t j = 0; j < n; ++j) u[j] = g(p, j); return u; };
		DynamicVector<T> x = q.eval(fn, st), y = q.eval_index([&](Index, const P& p) { return fn(p); }, st);
		if (x.size() != n || y.size() != n) BAD((key + ":vector").c_str(), "%zu components", x.size());
		for (size_t j = 0; j < n; ++j) { cmp("vector", x[j], st[j], j); cmp("vector", y[j], st[j], j); }
		count("vector-results"); break;
	}
	case 2:
	{
		FixedVector<T, 3> st; for (size_t j = 0; j < 3; ++j) st[j] = gen<T>(r, kind);
		FixedVector<T, 3> x = q.eval([&](const P& p) { FixedVector<T, 3> u; for (size_t j = 0; j < 3; ++j) u[j] = g(p, j); return u; }, st);
		for (size_t j = 0; j < 3; ++j) cmp("fixed vector", x[j], st[j], j);
		count("fixed-vector-results"); break;
	}
	default:
	{
		DenseMatrix<T> st(2, 3); for (size_t j = 0; j < 6; ++j) st.set(j / 3, j % 3, gen<T>(r, kind));
		DenseMatrix<T> x = q.eval([&](const P& p) { DenseMatrix<T> u(2, 3); for (size_t j = 0; j < 6; ++j) u.set(j / 3, j % 3, g(p, j)); return u; }, st);
		for (size_t j = 0; j < 6; ++j) cmp("matrix", x.at(j / 3, j % 3), st.at(j / 3, j % 3), j);
		count("matrix-results"); break;
	}
	}
	std::vector<double> h; for (auto& t : poly) { h.push_back(t.a * 8 + t.b); h.push_back((double)t.c); }
	distinct(hash2(hash_bytes(h.data(), h.size() * 8), hash2((u64)K * 10 + O, hash_bytes(Sc<T>::name(), 5))));
	sample(fmt("%s %s degree %d: integral %.12Lg, start %s", key.c_str(), Sc<T>::name(), degree, exact, str(start).c_str()));
}
template<class T> void any(Rng& r)
{
	switch (r.below(6))
	{
	case 0: go<T, 1, 1>(r); break; case 1: go<T, 1, 2>(r); break; case 2: go<T, 1, 3>(r); break;
	case 3: go<T, 2, 1>(r); break; case 4: go<T, 2, 2>(r); break; default: go<T, 2, 3>(r); break;
	}
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(3)) { case 0: any<VF>(r); break; case 1: any<double>(r); break; default: any<VCD >(r); break; }
}
#include "vh_main.h"
