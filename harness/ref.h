// Independent reference arithmetic (long double) and value generators.
#pragma once
#include "vh.h"
#include "Vector.h"
#include "matrix/Matrix.h"

namespace ref {
using vh::ld;
using vh::Rng;
typedef std::complex<ld> cld;
using NS::Index;

template<class T> struct Sc
{
	typedef T R;
	typedef ld B;// reference scalar
	static constexpr bool cplx = false;
	static constexpr bool integer = std::is_integral<T>::value;
	static const char* name() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : std::is_same<T, long double>::value ? "ldouble" : "int"; }
	static B big(const T& t) { return (B)t; }
	static ld eps() { return integer ? 0 : (ld)std::numeric_limits<T>::epsilon(); }
	static T make(double re, double) { return (T)re; }
};
template<class U> struct Sc<std::complex<U> >
{
	typedef U R;
	typedef cld B;
	static constexpr bool cplx = true;
	static constexpr bool integer = false;
	static const char* name() { return std::is_same<U, float>::value ? "cfloat" : "cdouble"; }
	static B big(const std::complex<U>& t) { return B((ld)t.real(), (ld)t.imag()); }
	static ld eps() { return (ld)std::numeric_limits<U>::epsilon(); }
	static std::complex<U> make(double re, double im) { return std::complex<U>((U)re, (U)im); }
};

inline ld conj_(const ld& x) { return x; }
inline cld conj_(const cld& x) { return std::conj(x); }
inline ld abs_(const ld& x) { return std::fabs(x); }
inline ld abs_(const cld& x) { return std::abs(x); }
inline ld re_(const ld& x) { return x; }
inline ld re_(const cld& x) { return x.real(); }
inline ld im_(const ld&) { return 0; }
inline ld im_(const cld& x) { return x.imag(); }
inline bool finite_(const ld& x) { return std::isfinite(x); }
inline bool finite_(const cld& x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }
// like abs, but never smaller because of rounding and NaN-proof comparisons: !(x <= y)
template<class B> ld one_norm_abs(const B& x) { return std::fabs(re_(x)) + std::fabs(im_(x)); }

template<class T> std::string str(const T& t)
{
	auto b = Sc<T>::big(t);
	if (Sc<T>::cplx) return vh::fmt("(%.17Lg,%.17Lg)", re_(b), im_(b));
	return vh::fmt("%.17Lg", re_(b));
}

template<class B> struct Mat
{
	size_t r, c;
	std::vector<B> v;
	Mat(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), v(r_ * c_, B(0)) {}
	B& operator()(size_t i, size_t j) { return v[i * c + j]; }
	const B& operator()(size_t i, size_t j) const { return v[i * c + j]; }
};
template<class B> Mat<B> operator*(const Mat<B>& a, const Mat<B>& b)
{
	Mat<B> m(a.r, b.c);
	for (size_t i = 0; i < a.r; ++i) for (size_t k = 0; k < a.c; ++k) { B x = a(i, k); if (x != B(0)) for (size_t j = 0; j < b.c; ++j) m(i, j) += x * b(k, j); }
	return m;
}
template<class B> Mat<ld> absm(const Mat<B>& a) { Mat<ld> m(a.r, a.c); for (size_t i = 0; i < a.v.size(); ++i) m.v[i] = abs_(a.v[i]); return m; }
template<class B> Mat<B> transp(const Mat<B>& a, bool cj = false)
{
	Mat<B> m(a.c, a.r);
	for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) m(j, i) = cj ? conj_(a(i, j)) : a(i, j);
	return m;
}

template<class M> auto to_ref(const M& m) -> Mat<typename Sc<typename M::value_type>::B>
{
	typedef typename M::value_type T;
	Mat<typename Sc<T>::B> x(m.rows(), m.columns());
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.columns(); ++j) x(i, j) = Sc<T>::big(m.at(i, j));
	return x;
}
template<class M> auto raw(const M& m) -> std::vector<typename M::value_type>
{
	std::vector<typename M::value_type> x;
	for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.columns(); ++j) x.push_back(m.at(i, j));
	return x;
}
template<class V> auto vraw(const V& m) -> std::vector<typename V::value_type>
{
	std::vector<typename V::value_type> x;
	for (size_t i = 0; i < m.size(); ++i) x.push_back(m.linear_at(i));
	return x;
}
// bitwise comparable (NaN safe) equality
template<class T> bool same_bits(const T& a, const T& b)
{
	auto x = Sc<T>::big(a), y = Sc<T>::big(b);
	auto eq = [](ld p, ld q) { return (std::isnan(p) && std::isnan(q)) || p == q; };
	return eq(re_(x), re_(y)) && eq(im_(x), im_(y));
}
template<class T> bool same_bits(const std::vector<T>& a, const std::vector<T>& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!same_bits(a[i], b[i])) return false;
	return true;
}
template<class T> vh::u64 hash_vals(const std::vector<T>& a, vh::u64 h = 7)
{
	for (auto& t : a) { double p[2] = {(double)re_(Sc<T>::big(t)), (double)im_(Sc<T>::big(t))}; h = vh::hash2(h, vh::hash_bytes(p, sizeof p)); }
	return h;
}

// entries of very different size off the diagonal: what treats small values as zero becomes visible
template<class T> void grade(Rng& r, Mat<typename Sc<T>::B>& m, double chance)
{
	if (!r.chance(chance)) return;
	const long e = Sc<T>::eps() > 1e-10L ? 18 : 45; double d = r.pick({0.2, 0.6, 1.0});
	for (size_t i = 0; i < m.r; ++i) for (size_t j = 0; j < m.c; ++j) if (i != j && r.chance(d)) m(i, j) *= std::ldexp(1.0L, (int)-r.range(1, e));
}
// a power of two, mostly one
template<class T> ld some_scale(Rng& r, double chance) { long e = Sc<T>::eps() > 1e-10L ? 8 : 24; return r.chance(chance) ? std::ldexp(1.0L, (int)r.range(-e, e)) : 1.0L; }

enum Kind { SMALLINT, DYADIC, NORMAL, WIDE, KINDS };
inline double gen_real(Rng& r, Kind k)
{
	switch (k)
	{
	case SMALLINT: return (double)r.range(-9, 9);
	case DYADIC: return (double)r.range(-64, 64) / 16.0;
	case NORMAL: return r.normal();
	default: return r.normal() * std::pow(10.0, (double)r.range(-6, 6));
	}
}
// factor applied to all generated values of a case, to reach magnitudes near both ends of the range
inline double& value_scale() { static double s = 1; return s; }
template<class T> double pick_scale(Rng& r)
{
	typedef typename Sc<T>::R R;
	if (Sc<T>::integer || r.chance(0.6)) return 1;
	return std::is_same<R, float>::value ? r.pick({1e-30, 1e-20, 1e-10, 1e-10, 1e8}) : r.pick({1e-290, 1e-200, 1e-100, 1e-30, 1e-15, 1e15, 1e100});
}
// scale for the lifetime of the object
template<class T> struct Scaled
{
	explicit Scaled(Rng& r) { value_scale() = pick_scale<T>(r); }
	~Scaled() { value_scale() = 1; }
};
template<class T> T gen(Rng& r, Kind k)
{
	if (Sc<T>::integer) k = SMALLINT;
	double a = gen_real(r, k), b = gen_real(r, k);
	if (!Sc<T>::integer) { a *= value_scale(); b *= value_scale(); }
	if (Sc<T>::cplx && r.chance(0.2)) { if (r.chance(0.5)) a = 0; else b = 0; }
	return Sc<T>::make(a, b);
}
template<class T> T gen_nz(Rng& r, Kind k)
{
	for (;;) { T t = gen<T>(r, k); if (t != (T)0) return t; }
}
inline size_t gen_dim(Rng& r, size_t big = 12)
{
	double u = r.uni();
#ifdef NDEBUG // far beyond the usual sizes, only in the optimized flavor
	if (u > 0.9997) { size_t k = r.pick({8, 15, 30}), n = r.pick({32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 1000, 1024}); return std::max<size_t>(big, std::min(n, k * big)); }
#endif
	if (u < 0.12) return 1;
	if (u < 0.6) return (size_t)r.range(2, 5);
	if (u < 0.97) return (size_t)r.range(2, (long)big);
	if (u > 0.998) return (size_t)r.range((long)big, 6 * (long)big);
	return (size_t)r.range((long)big, 2 * (long)big);
}
// random density pattern with empty rows and columns
inline std::vector<char> gen_pattern(Rng& r, size_t n, size_t m)
{
	std::vector<char> p(n * m, 0);
	double d = r.pick({0.0, 0.1, 0.3, 0.5, 0.8, 1.0});
	std::vector<char> er(n, 0), ec(m, 0);
	if (r.chance(0.5)) for (auto& x : er) x = r.chance(0.3);
	if (r.chance(0.5)) for (auto& x : ec) x = r.chance(0.3);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) p[i * m + j] = !er[i] && !ec[j] && r.chance(d);
	return p;
}
template<class M> M gen_matrix(Rng& r, size_t n, size_t m, Kind k, bool full = false)
{
	typedef typename M::value_type T;
	M a(n, m);
	auto p = gen_pattern(r, n, m);
	std::vector<size_t> o(n * m);
	for (size_t i = 0; i < o.size(); ++i) o[i] = i;
	r.shuffle(o);
	for (size_t q : o) if (full || p[q]) a.set(q / m, q % m, gen_nz<T>(r, k));
	return a;
}
template<class V> V gen_vector(Rng& r, size_t n, Kind k)
{
	typedef typename V::value_type T;
	V v(n);
	for (size_t i = 0; i < n; ++i) v.linear_set(i, gen<T>(r, k));
	return v;
}
}
