// C05: vector algebra, slicing, traversal
#include "ref.h"
#include "huge.h"
using namespace NS;
using namespace ref;
using namespace vh;
namespace vh { const char* property = "C05"; }
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class V> struct Kd { static const char* n() { return "fixed"; } static const bool dyn = false; };
template<class T> struct Kd<DynamicVector<T> > { static const char* n() { return "dynamic"; } static const bool dyn = true; };

template<class V> void expect(const V& v, const std::vector<typename Sc<typename V::value_type>::B>& E, const std::vector<ld>& D, const char* op)
{
	typedef typename V::value_type T; const char* kind = Kd<V>::n();
	if (v.size() != E.size()) BAD((std::string(op) + "/size").c_str(), "%s size %zu expected %zu", Sc<T>::name(), v.size(), E.size());
	for (size_t i = 0; i < E.size(); ++i)
	{
		auto e = E[i]; auto g = Sc<T>::big(v.linear_at(i));
		if (!(abs_(g - e) <= D[i])) BAD((std::string(op) + "/value").c_str(), "%s size %zu [%zu] = %s expected %Lg%+Lgi (deviation allowed %Lg)", Sc<T>::name(), E.size(), i, str(v.linear_at(i)).c_str(), re_(e), im_(e), D[i]);
	}
	count(fmt("%s:%s", kind, op).c_str()); count("entries-compared", E.size());
}
#define EX(V_, ex, tx, op) do { std::vector<B> E_(n); std::vector<ld> D_(n); for (size_t i = 0; i < n; ++i) { E_[i] = ex; D_[i] = tx; } label(op); expect(V_, E_, D_, op); keep_(op); } while (0)

template<class B> B quot(const B& a, const B& b, bool integer) { return integer ? B((ld)((long)re_(a) / (long)re_(b))) : a / b; }
template<class V, bool cp> struct Norms { static void run(Rng&, const V&, const std::vector<typename V::value_type>&) {} };
template<class V> struct Norms<V, true>
{
	static void run(Rng&, const V& v, const std::vector<typename V::value_type>& a)
	{
		typedef typename V::value_type T; typedef Sc<T> S; const char* kind = Kd<V>::n();
		const size_t n = a.size(); const ld e = S::eps();
		ld s = 0; for (auto& x : a) { auto b = S::big(x); s += re_(b) * re_(b) + im_(b) * im_(b); }
		label("magSqr"); auto m2 = S::big(v.magSqr()); auto m = S::big(v.mag());
		ld ty = (ld)std::numeric_limits<typename get_complex_internal<T>::type>::min();
		if (!(abs_(m2 - typename S::B(s)) <= (n + 6) * 2 * e * s + n * ty)) BAD("magSqr", "%s size %zu magSqr %s expected %Lg", S::name(), n, str(v.magSqr()).c_str(), s);
		if (!(abs_(m - typename S::B(std::sqrt(s))) <= (n + 8) * 2 * e * std::sqrt(s) + std::sqrt(n * ty))) BAD("mag", "%s size %zu mag %s expected %Lg", S::name(), n, str(v.mag()).c_str(), std::sqrt(s));
		if (re_(m) < 0 || im_(m) != 0) BAD("mag/sign", "magnitude %s is not a non-negative number", str(v.mag()).c_str());
		bool zero = true; for (auto& x : a) zero &= x == (T)0;
		if (zero != (m == typename S::B(0)) && (zero || s * e > n * ty)) BAD("mag/zero", "magnitude zero %d but content zero %d", (int)(m == typename S::B(0)), zero);
		if (s > 0 && s * e > n * ty)// otherwise squares underflow
		{
			label("normalized"); V u = v.normalized();
			ld t = 0;
			for (size_t i = 0; i < n; ++i)
			{
				auto b = S::big(u.at(i)); t += re_(b) * re_(b) + im_(b) * im_(b);
				if (!(abs_(b - S::big(a[i]) / std::sqrt(s)) <= (n + 12) * 4 * e * (abs_(S::big(a[i])) / std::sqrt(s)) + 4 * ty)) BAD("normalized/value", "%s size %zu [%zu] = %s", S::name(), n, i, str(u.at(i)).c_str());
			}
			if (!(std::fabs(t - 1) <= (n + 16) * 8 * e)) BAD("normalized/length", "%s size %zu length^2 %Lg", S::name(), n, t);
			count(fmt("%s:normalized", kind).c_str());
		}
		count(fmt("%s:mag", kind).c_str());
	}
};
template<class V> void slice(const V& got, const std::vector<typename V::value_type>& exp, size_t full, const char* op, size_t i, size_t j)
{
	typedef typename V::value_type T; const char* kind = Kd<V>::n();
	std::vector<T> e = exp;
	if (!Kd<V>::dyn) e.resize(full, (T)0);// a fixed vector keeps its size, the rest is zero
	if (got.size() != e.size()) BAD(op, "%s of size %zu at %zu,%zu has size %zu expected %zu", op, full, i, j, got.size(), e.size());
	for (size_t q = 0; q < e.size(); ++q) if (!same_bits(got.at(q), e[q])) BAD(op, "%s of size %zu at %zu,%zu: [%zu] = %s expected %s", op, full, i, j, q, str(got.at(q)).c_str(), str(e[q]).c_str());
	count(fmt("%s:%s", kind, op).c_str());
}
template<class V> void all(Rng& r, V& v, V& w, Kind k)
{
	typedef typename V::value_type T; typedef Sc<T> S; typedef typename S::B B;
	const char* kind = Kd<V>::n();
	const size_t n = v.size(); const ld e = S::eps();
	const ld ty = S::integer ? 0 : 8 * (ld)std::numeric_limits<typename get_complex_internal<T>::type>::min();
	std::vector<T> a = vraw(v), b = vraw(w);
	tr("%s %s size %zu", kind, S::name(), n);
	auto A = [&](size_t i) { return S::big(a[i]); }; auto Bb = [&](size_t i) { return S::big(b[i]); };
	auto keep_ = [&](const char* op) { if (!same_bits(vraw(v), a) || !same_bits(vraw(w), b)) BAD((std::string(op) + "/operand-changed").c_str(), "an operand changed"); };
	T f = r.chance(0.2) ? (T)1 : r.chance(0.2) ? (T)-1 : gen_nz<T>(r, k == WIDE ? NORMAL : k);
	B F = S::big(f);
	// with vectors
	EX(v + w, A(i) + Bb(i), 2 * e * abs_(A(i) + Bb(i)) + ty, "v+w");
	EX(v - w, A(i) - Bb(i), 2 * e * abs_(A(i) - Bb(i)) + ty, "v-w");
	EX(v * w, A(i) * Bb(i), 8 * e * abs_(A(i)) * abs_(Bb(i)) + ty, "v*w");
	EX(-v, -A(i), 0, "-v");
	// with scalars on either side
	EX(v + f, A(i) + F, 2 * e * abs_(A(i) + F) + ty, "v+f");
	EX(f + v, A(i) + F, 2 * e * abs_(A(i) + F) + ty, "f+v");
	EX(v - f, A(i) - F, 2 * e * abs_(A(i) - F) + ty, "v-f");
	EX(f - v, F - A(i), 2 * e * abs_(F - A(i)) + ty, "f-v");
	EX(v * f, A(i) * F, 8 * e * abs_(A(i)) * abs_(F) + ty, "v*f");
	EX(f * v, A(i) * F, 8 * e * abs_(A(i)) * abs_(F) + ty, "f*v");
	EX(v / f, quot(A(i), F, S::integer), 16 * e * abs_(A(i)) / abs_(F) + ty, "v/f");
	bool nz = true; for (auto& x : b) if (x == (T)0) nz = false;
	if (nz)
	{
		EX(v / w, quot(A(i), Bb(i), S::integer), 16 * e * abs_(A(i)) / abs_(Bb(i)) + ty, "v/w");
		EX(f / w, quot(F, Bb(i), S::integer), 16 * e * abs_(F) / abs_(Bb(i)) + ty, "f/w");
		V c = w; c.do_reciprocal(); EX(c, quot(B(1), Bb(i), S::integer), 16 * e / abs_(Bb(i)) + ty, "reciprocal");
		c = v; c /= w; EX(c, quot(A(i), Bb(i), S::integer), 16 * e * abs_(A(i)) / abs_(Bb(i)) + ty, "v/=w");
		c = w; c /= c; EX(c, quot(Bb(i), Bb(i), S::integer), 16 * e, "w/=w");
	}
	{ V c = v; V& q = (c += w); if (&q != &c) BAD("compound", "+= does not return its target"); EX(c, A(i) + Bb(i), 2 * e * abs_(A(i) + Bb(i)) + ty, "v+=w"); }
	{ V c = v; V& q = (c -= w); if (&q != &c) BAD("compound", "-= does not return its target"); EX(c, A(i) - Bb(i), 2 * e * abs_(A(i) - Bb(i)) + ty, "v-=w"); }
	{ V c = v; V& q = (c *= w); if (&q != &c) BAD("compound", "*= does not return its target"); EX(c, A(i) * Bb(i), 8 * e * abs_(A(i)) * abs_(Bb(i)) + ty, "v*=w"); }
	{ V c = v; c += f; EX(c, A(i) + F, 2 * e * abs_(A(i) + F) + ty, "v+=f"); c = v; c -= f; EX(c, A(i) - F, 2 * e * abs_(A(i) - F) + ty, "v-=f"); c = v; c *= f; EX(c, A(i) * F, 8 * e * abs_(A(i)) * abs_(F) + ty, "v*=f"); c = v; c /= f; EX(c, quot(A(i), F, S::integer), 16 * e * abs_(A(i)) / abs_(F) + ty, "v/=f"); }
	{ V c = v; c += c; EX(c, A(i) + A(i), 2 * e * abs_(A(i) + A(i)) + ty, "v+=v"); c = v; c -= c; EX(c, A(i) - A(i), 0, "v-=v"); c = v; c *= c; EX(c, A(i) * A(i), 8 * e * abs_(A(i)) * abs_(A(i)) + ty, "v*=v"); }
	{
		// the scalar is an element of the vector
		size_t q = r.below(n); B X = A(q); V c = v; c += c[q]; EX(c, A(i) + X, 2 * e * abs_(A(i) + X) + ty, "v+=v_i"); c = v; c -= c[q]; EX(c, A(i) - X, 2 * e * abs_(A(i) - X) + ty, "v-=v_i");
		c = v; c *= c[q]; EX(c, A(i) * X, 8 * e * abs_(A(i)) * abs_(X) + ty, "v*=v_i");
		if (X != B(0)) { c = v; c /= c[q]; EX(c, quot(A(i), X, S::integer), 16 * e * abs_(A(i)) / abs_(X) + ty, "v/=v_i"); }
		c = v; c.fill(c[q]); EX(c, X, 0, "fill");
	}
	// dot product (bilinear) and norms
	{
		label("dot"); B s(0), s2(0); ld sa = 0, sb = 0; for (size_t i = 0; i < n; ++i) { s += A(i) * Bb(i); sa += abs_(A(i)) * abs_(Bb(i)); s2 += A(i) * A(i); sb += abs_(A(i)) * abs_(A(i)); }
		if (!(abs_(S::big(v.dot(w)) - s) <= 4 * (n + 4) * e * sa + n * ty)) BAD("dot", "%s size %zu dot %s expected %Lg%+Lgi", S::name(), n, str(v.dot(w)).c_str(), re_(s), im_(s));
		if (!(abs_(S::big(v.dot(v)) - s2) <= 4 * (n + 4) * e * sb + n * ty)) BAD("dot-self", "%s size %zu v.v %s expected %Lg%+Lgi", S::name(), n, str(v.dot(v)).c_str(), re_(s2), im_(s2));
		count(fmt("%s:dot", kind).c_str());
	}
	Norms<V, !S::integer>::run(r, v, a);
	{ V z = v; z.fill((T)0); Norms<V, !S::integer>::run(r, z, std::vector<T>(n, (T)0)); }
	// slices: every index when small
	for (size_t i = n > 1000 ? n - (size_t)r.range(1, 8) : 0; i < n; ++i)
	{
		label("left"); slice(v.left(i), std::vector<T>(a.begin(), a.begin() + i + 1), n, "left", i, 0);
		label("right"); slice(v.right(i), std::vector<T>(a.begin() + i, a.end()), n, "right", i, 0);
		label("mid");
		for (size_t q = 0; q < 3; ++q)
		{
			size_t j = q == 0 ? n : q == 1 ? i + 1 : i + 1 + r.below(n + 3), last = std::min(j, n);
			slice(v.mid(i, j), std::vector<T>(a.begin() + i, a.begin() + last), n, "mid", i, j);
		}
	}
	// range search
	for (int z = 0; z < 6; ++z)
	{
		label("has"); size_t s = r.below(n + 2), t = r.below(n + 3); T x = r.chance(0.7) ? a[r.below(n)] : gen<T>(r, k);
		bool exp = false; for (size_t i = s; i < t && i < n; ++i) exp |= a[i] == x;
		if (v.has(s, t, x) != exp) BAD("has", "%s size %zu has(%zu,%zu,%s) = %d", S::name(), n, s, t, str(x).c_str(), !exp);
		count(fmt("%s:has=%d", kind, exp).c_str());
	}
	// traversal
	{
		label("traverse"); std::vector<T> g; const V& cv = v;
		for (auto x : cv) { g.push_back(x); if (g.size() > n) break; }
		if (!same_bits(g, a)) BAD("traverse", "%s size %zu range-for visits %zu entries or other values", S::name(), n, g.size());
		g.clear();
		auto it = v.begin();
		for (; it != v.end() && g.size() <= n; it++) { if (!it.isValid()) BAD("traverse", "iterator invalid inside"); g.push_back(*it); }
		if (!same_bits(g, a) || it.isValid()) BAD("traverse", "%s size %zu post increment visits other entries", S::name(), n);
		for (size_t i = 0; i < n; ++i) if (!same_bits(v[i], a[i]) || !same_bits(cv[i], a[i]) || !same_bits(cv.at(i), a[i]) || !same_bits(cv.linear_at(i), a[i])) BAD("access", "access [%zu] differs", i);
		count(fmt("%s:traverse", kind).c_str());
	}
	// writes hit exactly one entry
	for (int z = 0; z < 3; ++z)
	{
		size_t q = r.below(n); T x = gen<T>(r, k); V c = v; label("set");
		if (z == 0) c.set(q, x); else if (z == 1) c.linear_set(q, x); else c[q] = x;
		auto ea = a; ea[q] = x; if (!same_bits(vraw(c), ea)) BAD("set", "%s size %zu setting [%zu] changed something else", S::name(), n, q);
	}
	// comparison
	{
		label("compare"); bool eq = true, nan = false; for (size_t i = 0; i < n; ++i) { eq = eq && a[i] == b[i]; nan = nan || a[i] != a[i]; }
		if ((v == w) != eq || (v != w) == eq) BAD("compare", "%s size %zu comparison", S::name(), n);
		V c(v); if (n && !nan) { size_t q = r.below(n); T x = gen<T>(r, k); c[q] = x; bool same = x == a[q]; if ((v == c) != same || (c != v) == same) BAD("compare", "%s size %zu comparison after setting [%zu]", S::name(), n, q); }
	}
	// copies, swap
	{ V c(v), d(w); label("swap"); c.swap(d); if (!same_bits(vraw(c), b) || !same_bits(vraw(d), a)) BAD("swap", "%s size %zu swap", S::name(), n); V m(std::move(c)); if (!same_bits(vraw(m), b)) BAD("move", "move changed content"); V& al = m; m = al; if (!same_bits(vraw(m), b)) BAD("self-assign", "self assignment"); }
	distinct(hash_vals(a, hash_vals(b, hash2(n, hash_bytes(kind, 3)))));
}
// squares, reciprocals and complex quotients of scaled values stay inside the range
template<class T> struct Scaled5
{
	explicit Scaled5(Rng& r)
	{
		typedef Sc<T> S; const bool f = std::is_same<typename S::R, float>::value;
		if (S::integer || r.chance(0.6)) return;
		value_scale() = f ? (S::cplx ? r.pick({1e-10, 1e-6, 1e8}) : r.pick({1e-20, 1e-12, 1e-8, 1e8})) : S::cplx ? r.pick({1e-130, 1e-100, 1e-30, 1e-12, 1e40, 1e130}) : r.pick({1e-280, 1e-130, 1e-40, 1e-16, 1e40, 1e140});
	}
	~Scaled5() { value_scale() = 1; }
};
template<class T> void dyn(Rng& r)
{
	Scaled5<T> scaled(r);
	const char* kind = "dynamic"; typedef Sc<T> S;
	Kind k = (Kind)r.below(KINDS); size_t n = r.chance(HUGE_CHANCE) ? Huge<double>::dim(r, true) : r.chance(0.05) ? 64 : gen_dim(r, 10);
	auto v = gen_vector<DynamicVector<T> >(r, n, k), w = gen_vector<DynamicVector<T> >(r, n, k);
	if (r.chance(0.3)) for (size_t i = 0; i < n; ++i) if (r.chance(0.4)) w[i] = v[i];
	if (r.chance(0.6)) for (size_t i = 0; i < n; ++i) if (w[i] == (T)0) w[i] = (T)1;
	all(r, v, w, k);
	// construction, resize, swap of different sizes
	label("resize");
	DynamicVector<T> z(n); for (size_t i = 0; i < n; ++i) if (z[i] != (T)0) BAD("construct", "new vector is not zero at %zu", i);
	if (z.size() != n) BAD("construct", "size");
	DynamicVector<T> q = v; std::vector<T> m = vraw(v);
	for (int s = 0; s < 6; ++s)
	{
		size_t nn = r.chance(0.2) ? 0 : gen_dim(r, 30); q.resize(nn); m.resize(nn, (T)0);
		if (!same_bits(vraw(q), m) || q.size() != nn) BAD("resize", "%s resize to %zu lost or invented content", S::name(), nn);
		for (size_t i = 0; i < nn; ++i) if (r.chance(0.3)) { T x = gen<T>(r, k); q[i] = x; m[i] = x; }
		count("dynamic:resize");
		size_t seen = 0; for (auto x : q) { keep(x); ++seen; } if (seen != nn) BAD("traverse", "traversal of %zu entries visits %zu", nn, seen);
	}
	q.swap(z); if (!same_bits(vraw(z), m) || q.size() != n) BAD("swap", "swap of different sizes");
	DynamicVector<T> il = {(T)1, (T)2, (T)3, (T)0, (T)5}; T e5[] = {(T)1, (T)2, (T)3, (T)0, (T)5};
	if (il.size() != 5) BAD("initlist", "size %zu", il.size()); for (size_t i = 0; i < 5; ++i) if (il[i] != e5[i]) BAD("initlist", "[%zu]", i);
}
template<class T, size_t N> void fixd(Rng& r)
{
	Scaled5<T> scaled(r);
	const char* kind = "fixed";
	Kind k = (Kind)r.below(KINDS); FixedVector<T, N> v, w;
	for (size_t i = 0; i < N; ++i) if (v[i] != (T)0) BAD("construct", "new vector is not zero");
	for (size_t i = 0; i < N; ++i) { v[i] = gen<T>(r, k); w[i] = gen<T>(r, k); if (r.chance(0.2)) w[i] = v[i]; }
	if (r.chance(0.6)) for (size_t i = 0; i < N; ++i) if (w[i] == (T)0) w[i] = (T)1;
	all(r, v, w, k);
	FixedVector<T, N> one = {(T)7}; for (size_t i = 0; i < N; ++i) if (one[i] != (i == 0 ? (T)7 : (T)0)) BAD("initlist", "missing entries are not zero");
}
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 10)
	{
	case 0: dyn<VF>(r); break;
	case 1: dyn<VI>(r); break;
	case 2: dyn<VCD >(r); break;
	case 3: dyn<VCF >(r); break;
	case 4: fixd<double, 1>(r); break;
	case 5: fixd<double, 3>(r); break;
	case 6: fixd<VF, 4>(r); break;
	case 7: fixd<VCD, 5>(r); break;
	default: dyn<double>(r); break;
	}
	sample(sh->trace);
}
#include "vh_main.h"
