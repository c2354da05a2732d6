// C20: shape functions against the Lagrange basis obtained by inverting the Vandermonde matrix.
#include "ref.h"
#include "sf/PolyShapeFunction.h"
using namespace NS; using namespace vh; using namespace ref;
namespace vh { const char* property = "C20"; }
namespace {
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)

struct Mono { int e[3]; };
struct Space { int K, O; std::vector<Mono> m; std::vector<std::array<ld, 3> > n; Mat<ld> c; /* c(a,t): coefficient of term t in function a */ };

Space make(int K, int O)
{
	Space s; s.K = K; s.O = O;
	typedef std::array<ld, 3> P; const ld h = 0.5L, t = 1 / 3.0L, u = 2 / 3.0L;
	if (K == 1) { s.m = {{{0}}, {{1}}}; s.n = {P{{0}}, P{{1}}}; if (O == 2) { s.m.push_back({{2}}); s.n.push_back(P{{h}}); } }
	else if (K == 2)
	{
		s.m = {{{0, 0}}, {{1, 0}}, {{0, 1}}}; s.n = {P{{0, 0}}, P{{1, 0}}, P{{0, 1}}};
		if (O >= 2) for (Mono x : {Mono{{1, 1}}, Mono{{2, 0}}, Mono{{0, 2}}}) s.m.push_back(x);
		if (O == 2) for (P x : {P{{h, 0}}, P{{h, h}}, P{{0, h}}}) s.n.push_back(x);
		if (O == 3)
		{
			for (Mono x : {Mono{{2, 1}}, Mono{{1, 2}}, Mono{{3, 0}}, Mono{{0, 3}}}) s.m.push_back(x);
			for (P x : {P{{t, 0}}, P{{u, 0}}, P{{u, t}}, P{{t, u}}, P{{0, u}}, P{{0, t}}, P{{t, t}}}) s.n.push_back(x);
		}
	}
	else
	{
		s.m = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}; s.n = {P{{0, 0, 0}}, P{{1, 0, 0}}, P{{0, 1, 0}}, P{{0, 0, 1}}};
		if (O == 2)
		{
			for (Mono x : {Mono{{1, 1, 0}}, Mono{{1, 0, 1}}, Mono{{0, 1, 1}}, Mono{{2, 0, 0}}, Mono{{0, 2, 0}}, Mono{{0, 0, 2}}}) s.m.push_back(x);
			for (P x : {P{{h, 0, 0}}, P{{h, h, 0}}, P{{0, h, 0}}, P{{h, 0, h}}, P{{0, 0, h}}, P{{0, h, h}}}) s.n.push_back(x);
		}
	}
	return s;
}
ld mono(const Mono& m, int K, const ld* p, int d1 = -1, int d2 = -1)
{// value or derivative with respect to d1 (and d2)
	Mono q = m; ld f = 1;
	for (int d : {d1, d2}) if (d >= 0) { f *= q.e[d]; if (q.e[d] == 0) return 0; --q.e[d]; }
	for (int k = 0; k < K; ++k) for (int i = 0; i < q.e[k]; ++i) f *= p[k];
	return f;
}
void invert(Space& s)
{// Gauss-Jordan on V(j,t) = mono_t(node_j); c = V^-T
	size_t n = s.n.size(); Mat<ld> v(n, 2 * n);
	for (size_t j = 0; j < n; ++j) { for (size_t t = 0; t < n; ++t) v(j, t) = mono(s.m[t], s.K, s.n[j].data()); v(j, n + j) = 1; }
	for (size_t k = 0; k < n; ++k)
	{
		size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(v(i, k)) > std::fabs(v(p, k))) p = i;
		for (size_t j = 0; j < 2 * n; ++j) std::swap(v(k, j), v(p, j));
		ld d = v(k, k); for (size_t j = 0; j < 2 * n; ++j) v(k, j) /= d;
		for (size_t i = 0; i < n; ++i) if (i != k) { ld f = v(i, k); for (size_t j = 0; j < 2 * n; ++j) v(i, j) -= f * v(k, j); }
	}
	s.c = Mat<ld>(n, n);
	for (size_t a = 0; a < n; ++a) for (size_t t = 0; t < n; ++t) { ld q = v(t, n + a), h = std::round(2 * q) / 2; if (std::fabs(q - h) > 1e-10L) abort(); s.c(a, t) = h; }// all coefficients are multiples of 1/2
}
const Space& space(int K, int O)
{
	static std::map<int, Space> all; NoCount nc;
	auto it = all.find(K * 10 + O); if (it != all.end()) return it->second;
	Space s = make(K, O); invert(s); return all[K * 10 + O] = s;
}

template<class T, Dimension K, Dimension O> void go(Rng& r)
{
	typedef PolyShapePolicy<T, K, O> Pol; typedef PolyShapeFunction<T, K, O> F;
	const Space& s = space((int)K, (int)O); const size_t n = s.n.size(); const ld eps = Sc<T>::eps();
	label(fmt("%uD order %u", (unsigned)K, (unsigned)O).c_str());
	const std::string key = fmt("%uD_%u", (unsigned)K, (unsigned)O);
	constexpr auto dof = Pol::DOF;
	if ((size_t)dof != n) BAD((key + ":dof").c_str(), "%zu functions, expected %zu", (size_t)dof, n);
	const F f; const Pol pol;
	FixedVector<T, K> x; int at = -1; const char* where;
	switch (r.below(6))
	{
	case 0: case 1: at = (int)r.below(n); for (size_t k = 0; k < K; ++k) x[k] = (T)s.n[at][k]; where = "node"; break;
	case 2: { double left = 1; for (size_t k = 0; k < K; ++k) { double v = r.uni() * left; x[k] = (T)v; left -= v; } where = "inside"; break; }
	case 3: { double left = 1; size_t z = r.below(K + 1); for (size_t k = 0; k < K; ++k) { double v = k == z ? 0 : (z == K && k == K - 1) ? left : r.uni() * left; x[k] = (T)v; left -= v; } where = "face"; break; }
	case 4: for (size_t k = 0; k < K; ++k) x[k] = (T)r.uni(-3, 3); where = "beyond"; break;
	default: for (size_t k = 0; k < K; ++k) x[k] = (T)gen_real(r, r.chance(0.3) ? WIDE : SMALLINT); where = "beyond"; break;
	}
	ld p[3] = {}; for (size_t k = 0; k < K; ++k) p[k] = (ld)x[k];
	tr("%s %s (%.17Lg,%.17Lg,%.17Lg)", Sc<T>::name(), where, p[0], p[1], p[2]);
	distinct(hash2((u64)K * 10 + O, hash2(sizeof(T), hash_bytes(p, 1 * 10) ^ mix(hash_bytes(p + 1, 10)) ^ mix(mix(hash_bytes(p + 2, 10))))));
	count((key + ":" + where).c_str());

	// weights of the terms: unit, one term only, arbitrary
	FixedVector<T, Pol::DOF> w; std::vector<ld> wr(n); bool unit = false;
	switch (r.below(4))
	{
	case 0: unit = true; for (size_t t = 0; t < n; ++t) w[t] = 1; break;
	case 1: { size_t one = r.below(n); for (size_t t = 0; t < n; ++t) w[t] = t == one ? (T)1 : (T)0; break; }
	default: { Kind k = (Kind)r.below(3); for (size_t t = 0; t < n; ++t) w[t] = gen<T>(r, k); break; }
	}
	for (size_t t = 0; t < n; ++t) wr[t] = (ld)w[t];

	auto judge = [&](const char* what, size_t a, ld got, bool weighted, int d1, int d2)
	{
		ld e = 0, m = 0;
		for (size_t t = 0; t < n; ++t) { ld q = s.c(a, t) * mono(s.m[t], (int)K, p, d1, d2) * (weighted ? wr[t] : 1); e += q; m += std::fabs(q); }
		if (!(std::fabs(got - e) <= 16 * eps * m + 1e-300L)) BAD((key + ":" + what).c_str(), "function %zu, direction %d: %.17Lg instead of %.17Lg (terms up to %.3Lg)%s", a, d1, got, e, m, weighted ? " [weighted]" : "");
		count("values-judged");
	};
	if (r.chance(0.02))
	{// components beyond the basis
		size_t a = r.pick({n, n + 1, 2 * n, (size_t)-1, (size_t)1 << 40}); int h = (int)r.below(3);
		Outcome o = probe([&] { if (h == 0) keep(f.value(a, x)); else if (h == 1) keep(f.gradient(a, x)); else if (O > 1) keep(f.gradient2(a, x)); else abort(); });
		if (o != ABORTED) BAD((key + ":component range").c_str(), "component %zu of %zu is evaluated", a, n);
		count("component-beyond");
	}
	ld sum = 0, sabs = 0; std::vector<T> vals(n); FixedVector<T, K> gs;
	std::vector<ld> gsum(K, 0), g2sum(K, 0), gabs(K, 0), g2abs(K, 0);
	for (size_t a = 0; a < n; ++a)
	{
		T v = r.chance(0.5) ? f.value(a, x) : pol.value(a, x); vals[a] = v;
		judge("value", a, v, false, -1, -1);
		if (at >= 0)
		{
			ld d = a == (size_t)at ? 1 : 0, m = 0; for (size_t t = 0; t < n; ++t) m += std::fabs(s.c(a, t) * mono(s.m[t], (int)K, p));
			if (!(std::fabs((ld)v - d) <= 40 * eps * (m + 1))) BAD((key + ":nodal").c_str(), "function %zu is %.17Lg at node %d", a, (ld)v, at);
			count("nodal-values");
		}
		sum += v; for (size_t t = 0; t < n; ++t) sabs += std::fabs(s.c(a, t) * mono(s.m[t], (int)K, p));
		auto g = f.gradient(a, x); auto g2 = f.gradient2(a, x);
		auto wg = f.gradient(a, x, w), wg2 = f.gradient2(a, x, w); T wv = f.value(a, x, w);
		judge("value", a, wv, true, -1, -1);
		for (int k = 0; k < (int)K; ++k)
		{
			judge("gradient", a, g[k], false, k, -1); judge("second derivative", a, g2[k], false, k, k);
			judge("gradient", a, wg[k], true, k, -1); judge("second derivative", a, wg2[k], true, k, k);
			gsum[k] += g[k]; g2sum[k] += g2[k];
			for (size_t t = 0; t < n; ++t) { gabs[k] += std::fabs(s.c(a, t) * mono(s.m[t], (int)K, p, k)); g2abs[k] += std::fabs(s.c(a, t) * mono(s.m[t], (int)K, p, k, k)); }
			if (unit && !(wg[k] == g[k] && wg2[k] == g2[k])) BAD((key + ":unit weights").c_str(), "derivatives of function %zu differ from the plain ones", a);
		}
		if (unit && !(wv == v)) BAD((key + ":unit weights").c_str(), "value of function %zu differs from the plain one", a);
	}
	if (unit) count("unit-weights"); else count("weights");
	if (!(std::fabs(sum - 1) <= 20 * eps * (sabs + 1))) BAD((key + ":partition of unity").c_str(), "sum %.17Lg", sum);
	for (size_t k = 0; k < K; ++k)
		if (!(std::fabs(gsum[k]) <= 20 * eps * (gabs[k] + 1)) || !(std::fabs(g2sum[k]) <= 20 * eps * (g2abs[k] + 1))) BAD((key + ":partition of unity").c_str(), "derivatives sum up to %.17Lg, %.17Lg", gsum[k], g2sum[k]);
	// reproduction of a random polynomial of the order
	std::vector<ld> c(n); for (auto& q : c) q = (ld)gen_real(r, SMALLINT);
	ld exact = 0, got = 0, mag = 0;
	for (size_t t = 0; t < n; ++t) { exact += c[t] * mono(s.m[t], (int)K, p); }
	for (size_t a = 0; a < n; ++a)
	{
		ld q = 0; for (size_t t = 0; t < n; ++t) q += c[t] * mono(s.m[t], (int)K, s.n[a].data());
		got += q * vals[a]; ld m = 0; for (size_t t = 0; t < n; ++t) m += std::fabs(s.c(a, t) * mono(s.m[t], (int)K, p)); mag += std::fabs(q) * m;
	}
	if (!(std::fabs(got - exact) <= 30 * eps * (mag + 1))) BAD((key + ":reproduction").c_str(), "polynomial is %.17Lg, interpolant %.17Lg", exact, got);
	count("polynomials-reproduced");
	sample(fmt("%s %s at %s", key.c_str(), Sc<T>::name(), where));
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(14))
	{
	case 0: go<double, 1, 1>(r); break; case 1: go<double, 1, 2>(r); break; case 2: go<double, 2, 1>(r); break; case 3: go<double, 2, 2>(r); break;
	case 4: case 13: go<double, 2, 3>(r); break; case 5: go<double, 3, 1>(r); break; case 6: go<double, 3, 2>(r); break;
	case 7: go<VF, 1, 2>(r); break; case 8: go<VF, 2, 1>(r); break; case 9: go<VF, 2, 2>(r); break; case 10: go<VF, 2, 3>(r); break;
	case 11: go<VF, 3, 2>(r); break; default: r.chance(0.5) ? go<VF, 1, 1>(r) : go<VF, 3, 1>(r); break;
	}
}
#include "vh_main.h"
