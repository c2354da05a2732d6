// C16: triangle geometry and normals
#include "ref.h"
#include "Simplex.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", Sc<T>::name(), what).c_str(), __VA_ARGS__); throw Stop(); } while (0)
struct P { ld x, y; };
static P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
static P operator*(ld s, P a) { return {s * a.x, s * a.y}; }
static ld dot(P a, P b) { return a.x * b.x + a.y * b.y; }
static ld cr(P a, P b) { return a.x * b.y - a.y * b.x; }
static ld len(P a) { return std::sqrt(dot(a, a)); }
template<class V> P big(const V& v) { return {(ld)v[0], (ld)v[1]}; }

template<class T> void check(Rng& r, const Triangle<T>& t, const char* how)
{
	typedef FixedVector<T, 2> V;
	const ld eps = Sc<T>::eps();
	P v[3] = {big(t[0]), big(t[1]), big(t[2])};
	P a = v[1] - v[0], b = v[2] - v[0];
	ld D = cr(a, b), kap = (std::fabs(a.x * b.y) + std::fabs(a.y * b.x)) / std::fabs(D);
	ld big_ = 0; for (P p : v) big_ = std::max(big_, std::max(std::fabs(p.x), std::fabs(p.y)));
	ld e1 = 16 * eps * kap;// relative error of the determinant
	auto near = [&](const char* what, ld g, ld e, ld tol) { if (!(std::fabs(g - e) <= tol)) BAD(what, "%s: %.12Lg instead of %.12Lg, tolerance %Lg", how, g, e, tol); };
	label("matrix");
	const auto& M = t.matrix();
	ld m[4] = {a.x, b.x, a.y, b.y}; ld mm = 0; for (ld x : m) mm = std::max(mm, std::fabs(x));
	for (int i = 0; i < 4; ++i) near("matrix", (ld)M.at(i / 2, i % 2), m[i], eps * std::fabs(m[i]));
	near("determinant", (ld)t.determinant(), D, e1 * std::fabs(D));
	near("volume", (ld)t.volume(), std::fabs(D) / 2, 2 * e1 * std::fabs(D));
	if (!(t.volume() > 0)) BAD("volume", "%s: not positive", how);
	near("unitVolume", (ld)Triangle<T>::unitVolume(), 0.5L, 0);
	label("inverse");
	const auto& I = t.inverseMatrix();
	ld inv[4] = {b.y / D, -b.x / D, -a.y / D, a.x / D};
	for (int i = 0; i < 4; ++i) near("inverse", (ld)I.at(i / 2, i % 2), inv[i], 2 * e1 * std::fabs(inv[i]));
	label("gradient");
	P g[3] = {1 / D * P{v[1].y - v[2].y, v[2].x - v[1].x}, 1 / D * P{v[2].y - v[0].y, v[0].x - v[2].x}, 1 / D * P{v[0].y - v[1].y, v[1].x - v[0].x}};
	for (size_t i = 0; i < 3; ++i) { auto q = t.gradient(i); near("gradient", (ld)q[0], g[i].x, 2 * e1 * std::fabs(g[i].x)); near("gradient", (ld)q[1], g[i].y, 2 * e1 * std::fabs(g[i].y)); }
	// circumcentre: relative to the first vertex
	label("center");
	ld aa = dot(a, a), bb = dot(b, b);
	P c = 1 / (2 * D) * P{b.y * aa - a.y * bb, a.x * bb - b.x * aa};
	ld ce = 30 * eps * kap * ((std::fabs(b.y) + std::fabs(b.x)) * aa + (std::fabs(a.y) + std::fabs(a.x)) * bb) / std::fabs(2 * D) + 4 * eps * big_;
	auto z = t.center();
	near("center", (ld)z[0], v[0].x + c.x, ce); near("center", (ld)z[1], v[0].y + c.y, ce);
	near("outerRadius", (ld)t.outerRadius(), len(c), 3 * ce + 4 * eps * (big_ + len(c)));
	if (ce < 1e-3L * len(c)) for (P p : v) { ld d = len(big(z) - p); if (!(std::fabs(d - len(c)) <= 4 * ce + 8 * eps * len(c))) BAD("center/equidistant", "%s", how); count("equidistant"); }
	label("diameter");
	ld dm = std::max(std::max(len(v[0] - v[1]), len(v[1] - v[2])), len(v[2] - v[0]));
	near("diameter", (ld)t.diameter(), dm, 8 * eps * dm);
	label("faces");
	for (size_t i = 0; i < 3; ++i)
	{
		P f0 = v[(i + 1) % 3], f1 = v[(i + 2) % 3], fc = 0.5L * (f0 + f1), e = f1 - f0;
		auto q = t.faceCenter(i);
		near("faceCenter", (ld)q[0], fc.x, 2 * eps * big_); near("faceCenter", (ld)q[1], fc.y, 2 * eps * big_);
		auto n = t.faceNormal(i); P N = big(n);
		near("faceNormal/length", len(N), 1, 8 * eps);
		near("faceNormal/orthogonal", dot(N, e), 0, 8 * eps * len(e));
		ld h = std::fabs(D) / len(e);// height above the face
		if (h > 60 * eps * (big_ + dm)) { if (!(dot(N, v[i] - f0) < 0)) BAD("faceNormal/outward", "%s: normal of face %zu points inwards, D=%Lg", how, i, D); count("outward-normals"); }
	}
	// maps
	label("maps");
	for (int k = 0; k < 4; ++k)
	{
		ld l0 = (ld)(T)r.uni(-1, 2), l1 = (ld)(T)r.uni(-1, 2);
		if (k == 0) { int q = (int)r.below(3); l0 = q == 1; l1 = q == 2; }
		V l; l[0] = (T)l0; l[1] = (T)l1;
		P x = v[0] + l0 * a + l1 * b;
		auto G = t.toGlobal(l); ld ge = 6 * eps * (big_ + mm * (std::fabs(l0) + std::fabs(l1)));
		near("toGlobal", (ld)G[0], x.x, ge); near("toGlobal", (ld)G[1], x.y, ge);
		P y = big(G) - v[0]; ld L0 = cr(y, b) / D, L1 = cr(a, y) / D;
		auto L = t.toLocal(G);
		ld le = 30 * eps * kap * (std::fabs(inv[0]) + std::fabs(inv[1]) + std::fabs(inv[2]) + std::fabs(inv[3])) * (std::fabs(y.x) + std::fabs(y.y) + 0 * big_) + eps;
		near("toLocal", (ld)L[0], L0, le); near("toLocal", (ld)L[1], L1, le);
		ld imax = std::fabs(inv[0]) + std::fabs(inv[1]) + std::fabs(inv[2]) + std::fabs(inv[3]);
		near("inverse maps", (ld)L[0], l0, le + imax * 2 * ge); near("inverse maps", (ld)L[1], l1, le + imax * 2 * ge);
		// barycentric coordinates from the gradients
		for (size_t i = 0; i < 3; ++i) { ld lam = (i == 0) + dot(g[i], y), w = i == 0 ? 1 - (ld)L[0] - (ld)L[1] : (ld)L[i - 1]; near("barycentric", w, lam, 3 * le + 8 * eps); }
		count("points-mapped");
	}
	count(D > 0 ? "counter-clockwise" : "clockwise");
	if (kap > 50) count("thin");
	if (big_ > 100 * dm) count("far-from-origin");
}
template<class T> void tri(Rng& r)
{
	const ld eps = Sc<T>::eps();
	Triangle<T> t;
	P v[3]; ld D = 0;
	double s = std::pow(2.0, (double)r.range(-4, 6)), off = r.chance(0.5) ? 0 : s * std::pow(10.0, r.uni(0, std::is_same<T, float>::value ? 2 : 6));
	double ox = off * r.uni(-1, 1), oy = off * r.uni(-1, 1);
	int cls = (int)r.below(6); double thin = std::is_same<T, float>::value ? 1e-2 : 1e-5;
	for (int tries = 0; tries < 50; ++tries)
	{
		double c[6];
		for (auto& x : c) x = cls == 0 ? (double)r.range(-6, 6) : r.uni(-1, 1);
		if (cls == 1) { double f = std::pow(thin, r.uni()); c[4] = c[0] + (c[2] - c[0]) * r.uni(-0.5, 1.5) + f * r.uni(-1, 1); double q = (c[4] - c[0]) / (c[2] - c[0]); c[5] = c[1] + (c[3] - c[1]) * q + f * r.uni(-1, 1); }
		if (cls == 2) { c[2] = c[0]; c[5] = c[1]; }// right angle, axis parallel
		if (cls == 3) { double q = r.uni(0, 6.283), w = r.chance(0.5) ? 2.0943951 : -2.0943951; for (int i = 0; i < 3; ++i) { c[2 * i] = std::cos(q + i * w); c[2 * i + 1] = std::sin(q + i * w); } }
		for (int i = 0; i < 3; ++i) { t[i][0] = (T)(c[2 * i] * s + ox); t[i][1] = (T)(c[2 * i + 1] * s + oy); v[i] = big(t[i]); }
		D = cr(v[1] - v[0], v[2] - v[0]);
		P a = v[1] - v[0], b = v[2] - v[0];
		if (std::fabs(D) > 2e-3L * 0 + 400 * eps * (std::fabs(a.x * b.y) + std::fabs(a.y * b.x)) && std::max(std::fabs(a.x), std::fabs(a.y)) > 1e-3L * s && std::fabs(D) > 64 * eps && std::fabs(D) / len(a) > 64 * eps) break;
		D = 0;
	}
	if (D == 0) { count("degenerate-skipped"); return; }
	tr("%s (%.9Lg,%.9Lg) (%.9Lg,%.9Lg) (%.9Lg,%.9Lg)", Sc<T>::name(), v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y);
	if (r.chance(0.3)) { t = {{t[0][0], t[0][1]}, {t[1][0], t[1][1]}, {t[2][0], t[2][1]}}; count("from-list"); }
	label("prepare");
	t.prepare();
	check(r, t, "new");
	{ Triangle<T> c(t); check(r, c, "copy"); }
	if (r.chance(0.5))
	{// moved and prepared again
		Triangle<T> c(t); P d = {r.uni(-1, 1) * s * 0.25, r.uni(-1, 1) * s * 0.25}; size_t i = r.below(3);
		c[i][0] = (T)(v[i].x + d.x); c[i][1] = (T)(v[i].y + d.y);
		P w[3] = {big(c[0]), big(c[1]), big(c[2])}; P a = w[1] - w[0], b = w[2] - w[0]; ld E = cr(a, b);
		if (std::fabs(E) > 400 * eps * (std::fabs(a.x * b.y) + std::fabs(a.y * b.x)) && std::max(std::fabs(a.x), std::fabs(a.y)) > 1e-3L * s && std::fabs(E) > 64 * eps && std::fabs(E) / len(a) > 64 * eps)
		{ label("prepare"); c.prepare(); check(r, c, "prepared again"); count("prepared-again"); }
		check(r, t, "original of the copy");
	}
	// relabelling keeps what belongs to the triangle
	{
		size_t p[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
		Triangle<T> c; for (size_t i = 0; i < 3; ++i) c[i] = t[p[i]];
		P a = v[p[1]] - v[p[0]], b = v[p[2]] - v[p[0]];
		if (std::fabs(D) > 400 * eps * (std::fabs(a.x * b.y) + std::fabs(a.y * b.x)) && std::max(std::fabs(a.x), std::fabs(a.y)) > 1e-3L * s && std::fabs(D) / len(a) > 64 * eps) { c.prepare(); check(r, c, "relabelled"); }
	}
	double h[6] = {(double)v[0].x, (double)v[0].y, (double)v[1].x, (double)v[1].y, (double)v[2].x, (double)v[2].y};
	distinct(hash_bytes(h, sizeof h));
	sample(sh->trace);
}
static ld det(std::vector<std::vector<ld> > a)
{
	size_t n = a.size(); ld d = 1;
	for (size_t k = 0; k < n; ++k)
	{
		size_t p = k; for (size_t i = k; i < n; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
		if (a[p][k] == 0) return 0;
		if (p != k) { std::swap(a[p], a[k]); d = -d; }
		d *= a[k][k];
		for (size_t i = k + 1; i < n; ++i) { ld m = a[i][k] / a[k][k]; for (size_t j = k; j < n; ++j) a[i][j] -= m * a[k][j]; }
	}
	return d;
}
template<class T, Dimension K> void normal_(Rng& r)
{
	const ld eps = Sc<T>::eps();
	std::array<FixedVector<T, K>, K - 1> v; std::vector<std::vector<ld> > w(K - 1, std::vector<ld>(K));
	int cls = (int)r.below(4); ld prod = 1;
	for (size_t i = 0; i < K - 1; ++i)
	{
		ld s;
		do { s = 0; for (size_t j = 0; j < K; ++j) { double x = cls == 0 ? (double)r.range(-3, 3) : cls == 1 ? (r.chance(0.6) ? 0.0 : (double)r.range(-2, 2)) : r.uni(-4, 4); v[i].linear_set(j, (T)x); w[i][j] = (ld)(T)x; s += w[i][j] * w[i][j]; } } while (s < 0.5L);
		prod *= std::sqrt(s);
	}
	std::vector<ld> n(K); ld s = 0;
	for (size_t i = 0; i < K; ++i)
	{
		std::vector<std::vector<ld> > m;
		for (size_t j = 0; j < K - 1; ++j) { std::vector<ld> q; for (size_t k = 0; k < K; ++k) if (k != i) q.push_back(w[j][k]); m.push_back(q); }
		n[i] = det(m) * (i % 2 ? -1 : 1); s += n[i] * n[i];
	}
	s = std::sqrt(s);
	if (s < 1e-2L * prod) { count("dependent-skipped"); return; }
	tr("%s normal in %d dimensions", Sc<T>::name(), (int)K); for (auto& q : w) { tr(";"); for (ld x : q) tr(" %Lg", x); }
	label("normal");
	auto got = Math::normal(v);
	ld tol = 40 * K * K * eps * prod / s, l = 0;
	for (size_t i = 0; i < K; ++i) { ld x = (ld)got.linear_at(i); l += x * x; if (!(std::fabs(x - n[i] / s) <= tol)) BAD("normal", "K=%d: component %zu is %Lg instead of %Lg", (int)K, i, x, n[i] / s); }
	if (!(std::fabs(std::sqrt(l) - 1) <= 8 * K * eps)) BAD("normal/length", "K=%d: length %Lg", (int)K, std::sqrt(l));
	for (size_t i = 0; i < K - 1; ++i) { ld d = 0, q = 0; for (size_t j = 0; j < K; ++j) { d += w[i][j] * (ld)got.linear_at(j); q += w[i][j] * w[i][j]; } if (!(std::fabs(d) <= std::sqrt(q) * tol * 2)) BAD("normal/orthogonal", "K=%d vector %zu: %Lg", (int)K, i, d); }
	count(fmt("normal:%d", (int)K).c_str());
	distinct(hash_bytes(w[0].data(), 0) ^ hash2((u64)(n[0] * 1e6L), (u64)(n[1] * 1e6L)));
}
namespace vh { const char* property = "C16"; }
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 10)
	{
	case 0: normal_<double, 2>(r); break;
	case 1: r.chance(0.5) ? normal_<double, 3>(r) : normal_<VF, 3>(r); break;
	case 2: r.chance(0.5) ? normal_<double, 4>(r) : normal_<VF, 4>(r); break;
	case 3: r.chance(0.5) ? normal_<double, 5>(r) : normal_<double, 6>(r); break;
	case 4: case 5: tri<VF>(r); break;
	default: tri<double>(r); break;
	}
}
#include "vh_main.h"
