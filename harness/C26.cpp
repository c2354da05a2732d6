// C26: elementary math helpers against 128 bit integers and extended precision.
#include <type_traits>
#include "ref.h"
#include "Types.h"
#include "Utils.h"
using namespace NS; using namespace vh; using namespace ref;
namespace vh { const char* property = "C26"; }
namespace {
typedef __int128 i128; typedef unsigned __int128 u128;
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
template<class T> const char* iname() { static const std::string s = fmt("%sint%u", std::is_signed<T>::value ? "" : "u", (unsigned)sizeof(T) * 8); return s.c_str(); }
template<class T> u128 tmax() { return (u128)std::numeric_limits<T>::max(); }
template<class T> T any_int(Rng& r)
{
	switch (r.below(5))
	{
	case 0: return (T)r.next();
	case 1: return (T)(std::numeric_limits<T>::max() - (T)r.below(4));
	case 2: return (T)(std::numeric_limits<T>::min() + (T)r.below(4));
	case 3: return (T)((T)1 << r.below(sizeof(T) * 8 - 1));
	default: return (T)r.range(std::is_signed<T>::value ? -20 : 0, 20);
	}
}
// binomial with the intermediate products of the usual recurrence; false if something does not fit
template<class T> bool fits(u128 n, u128 k, u128& v)
{
	if (k > n - k) k = n - k;
	v = 1;
	for (u128 i = 1; i <= k; ++i)
	{
		u128 f = n - k + i;
		if (v > tmax<T>() || f > tmax<T>() || v * f > tmax<T>()) return false;
		v = v * f / i;
	}
	return true;
}
template<class T> void check_binom(u64 n, u64 k)
{
	typedef typename std::make_unsigned<T>::type K;
	u128 want = 0;
	if (k > n) { count("binom:zero"); }
	else { if (!fits<T>(n, k, want)) return; count(k == 0 || k == n ? "binom:edges" : "binom:inner"); }
	T got = Math::binom((T)n, (K)k);
	if ((i128)got != (i128)want) BAD("binom", "%s: C(%llu, %llu) = %lld instead of %llu", iname<T>(), (unsigned long long)n, (unsigned long long)k, (long long)got, (unsigned long long)want);
}
template<class T> void check_sign(T k)
{
	i128 v = k; int want = (v % 2 == 0) ? 1 : -1;
	auto got = Math::sign_pow(k);
	if ((int)got != want) BAD("sign_pow", "%s: (-1)^%lld = %d", iname<T>(), (long long)k, (int)got);
	count(v < 0 ? "sign_pow:negative" : "sign_pow");
}
template<class T> void check_factorial()
{
	u128 f = 1;
	for (unsigned k = 0; ; ++k)
	{
		if (k) f *= k;
		if (f > tmax<T>()) break;
		T got = Math::factorial((T)k);
		if ((u128)got != f) BAD("factorial", "%s: %u! = %lld instead of %llu", iname<T>(), k, (long long)got, (unsigned long long)f);
		count("factorial");
	}
}
template<class T> void check_minmax(T a, T b, const char* what)
{
	T mn = t_min(a, b), mx = t_max(a, b);
	bool le = a <= b;
	if (!(mn == (le ? a : b)) || !(mx == (le ? b : a))) BAD("minmax", "%s: wrong minimum or maximum of %s and %s", what, fmt("%.20Lg", (ld)a).c_str(), fmt("%.20Lg", (ld)b).c_str());
	count("minmax");
}
template<class T> void ints(Rng& r, bool exhaustive)
{
	label(iname<T>()); tr("%s", iname<T>());
	if (exhaustive)
	{
		check_factorial<T>();
		if (sizeof(T) <= 2) for (long k = (long)std::numeric_limits<T>::min(); k <= (long)std::numeric_limits<T>::max(); ++k) check_sign<T>((T)k);
		long top = sizeof(T) == 1 ? (long)std::numeric_limits<T>::max() : 150, kt = sizeof(T) == 1 ? (long)std::numeric_limits<typename std::make_unsigned<T>::type>::max() : 160;
		for (long n = 0; n <= top; ++n) for (long k = 0; k <= kt; ++k) check_binom<T>(n, k);
		if (sizeof(T) == 1) for (long a = (long)std::numeric_limits<T>::min(); a <= (long)std::numeric_limits<T>::max(); ++a) for (long b = (long)std::numeric_limits<T>::min(); b <= (long)std::numeric_limits<T>::max(); ++b) check_minmax<T>((T)a, (T)b, iname<T>());
		count("exhaustive"); return;
	}
	for (int i = 0; i < 20; ++i)
	{
		check_sign<T>(any_int<T>(r));
		check_minmax<T>(any_int<T>(r), any_int<T>(r), iname<T>());
		T e = any_int<T>(r); check_minmax<T>(e, e, iname<T>());
		// binomials with large n and few factors, from either side
		u64 n = (u64)any_int<T>(r) & (u64)std::numeric_limits<T>::max(), k = r.below(6);
		if (r.chance(0.5)) n = (u64)(std::pow((double)tmax<T>(), 1.0 / (1 + r.below(5))) * r.uni(0.5, 1.5)); if ((u128)n > tmax<T>()) n = (u64)tmax<T>();
		if (r.chance(0.5) && n >= k) k = n - k;
		check_binom<T>(n, k); if (n >= 1000000) count("binom:large");
		distinct(hash2(hash2(n, k), sizeof(T) * 2 + std::is_signed<T>::value));
		typedef typename std::make_unsigned<T>::type K;
		u64 kk = (u64)(K)r.next(); u64 nn = r.chance(0.5) ? (u64)r.below(100) : (u64)any_int<T>(r) & (u64)std::numeric_limits<T>::max(); if (kk > nn) check_binom<T>(nn, kk);
	}
}

template<class T> void reals(Rng& r)
{
	typedef typename Sc<T>::B B; const ld eps = Sc<T>::eps();
	label(Sc<T>::name()); tr("%s", Sc<T>::name());
	for (int i = 0; i < 10; ++i)
	{
		T n = r.chance(0.4) ? (T)(int)r.range(-12, 40) : r.chance(0.5) ? (T)(gen<T>(r, SMALLINT) * (T)0.5) : gen<T>(r, r.pick({SMALLINT, DYADIC, NORMAL}));
		unsigned k = (unsigned)r.below(r.chance(0.2) ? 30 : 9);
		B want(1); ld mag = 1; bool ok = true;
		for (unsigned j = 0; j < k; ++j)
		{
			B f = Sc<T>::big(n) - B((ld)j); want *= f / B((ld)(j + 1)); mag *= abs_(f) / (j + 1);
			ok = ok && mag < 1e25L && (mag > 1e-25L || mag == 0);
		}
		if (!ok) continue;
		T got = Math::binom(n, (uint32)k);
		ld err = abs_(Sc<T>::big(got) - want), bound = (8 * k + 2) * eps * mag;
		if (!(err <= bound)) BAD("binom:real", "%s: C(%.17Lg, %u) = %.17Lg instead of %.17Lg", Sc<T>::name(), re_(Sc<T>::big(n)), k, re_(Sc<T>::big(got)), re_(want));
		if (k == 0 && !(got == (T)1)) BAD("binom:real", "C(n, 0) is not 1");
		if (mag == 0) count("binom:real zero"); else count(re_(Sc<T>::big(n)) < 0 ? "binom:real negative" : "binom:real");
		distinct(hash2(hash_bytes(&n, sizeof(T) > 10 && std::is_same<T, long double>::value ? 10 : sizeof(T)), k));
	}
}
// long double against products in 128 bit rationals: numerators and denominators are small integers
void long_reals(Rng& r)
{
	label("long double"); const ld eps = std::numeric_limits<ld>::epsilon();
	for (int i = 0; i < 10; ++i)
	{
		long n2 = r.range(-40, 60); unsigned k = (unsigned)r.below(10); __float128 want = 1; 
		for (unsigned j = 0; j < k; ++j) want *= (__float128)(n2 - 2 * (long)j) / (__float128)(2 * (j + 1));
		ld got = Math::binom((ld)n2 / 2, (uint32)k); __float128 d = (__float128)got - want, b = (8 * k + 2) * eps * (want < 0 ? -want : want);
		if (!((d < 0 ? -d : d) <= b)) BAD("binom:long double", "C(%ld/2, %u) = %.21Lg instead of %.21Lg", n2, k, got, (ld)want);
		count("binom:long double");
	}
}
template<class T> void check_real(Rng& r)
{
	label("real helpers"); const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(), big = std::numeric_limits<T>::max(), tiny = std::numeric_limits<T>::denorm_min();
	std::vector<T> v = {(T)0, (T)-0.0, (T)1, (T)-1, inf, -inf, nan, big, -big, tiny, -tiny};
	for (int i = 0; i < 6; ++i) v.push_back((T)gen_real(r, NORMAL));
	for (T x : v)
	{
		bool n = x != x, f = !n && (x == inf || x == -inf);
		if ((bool)complex_isnan(x) != n) BAD("isnan", "%.9Lg", (ld)x);
		if ((bool)complex_isinf(x) != f) BAD("isinf", "%.9Lg", (ld)x);
		T c = complex_conj(x), a = complex_abs(x);
		if (memcmp(&c, &x, std::is_same<T, long double>::value ? 10 : sizeof(T))) BAD("conj", "conj(%.9Lg) = %.9Lg", (ld)x, (ld)c);
		if (memcmp(&a, &x, std::is_same<T, long double>::value ? 10 : sizeof(T))) BAD("ordering-key", "complex_abs(%.9Lg) = %.9Lg", (ld)x, (ld)a);
		if (sqrt_allowed(x) != (x >= (T)0)) BAD("sqrt_allowed", "%.9Lg", (ld)x);
		for (T y : v) if (y == y && x == x) check_minmax<T>(x, y, "real");
		count(n ? "real:nan" : f ? "real:inf" : "real:finite");
		typedef std::complex<T> C;
		for (T y : v)
		{
			C z(x, y); bool zn = n || y != y, zf = f || y == inf || y == -inf;
			if ((complex_isnan(z) != C(0)) != zn) BAD("isnan:complex", "(%.9Lg, %.9Lg)", (ld)x, (ld)y);
			if ((complex_isinf(z) != C(0)) != zf) BAD("isinf:complex", "(%.9Lg, %.9Lg)", (ld)x, (ld)y);
			C cz = complex_conj(z); T cr = cz.real(), ci = cz.imag(), my = -y;
			if (!zn && (!(cr == x) || !(ci == my) || std::signbit(ci) == std::signbit(y))) BAD("conj:complex", "conj(%.9Lg, %.9Lg) = (%.9Lg, %.9Lg)", (ld)x, (ld)y, (ld)cr, (ld)ci);
			if (!sqrt_allowed(z)) BAD("sqrt_allowed:complex", "(%.9Lg, %.9Lg)", (ld)x, (ld)y);
			if (!zn && !zf)
			{
				ld want = std::hypot((ld)x, (ld)y); if (want > (ld)big || (want != 0 && want < 16 * (ld)std::numeric_limits<T>::min())) continue;
				auto m = complex_abs(z); ld mr = std::real(m), mi = std::imag(m);
				if (!(std::fabs(mr - want) <= 4 * (ld)std::numeric_limits<T>::epsilon() * want) || mi != 0) BAD("ordering-key:complex", "|(%.9Lg, %.9Lg)| = %.9Lg", (ld)x, (ld)y, mr);
			}
			count(zn ? "complex:nan" : zf ? "complex:inf" : "complex:finite");
		}
	}
}
template<class T, bool c, bool n, class I> void trait(const char* what)
{
	if ((bool)is_complex<T>::value != c) BAD("is_complex", "%s", what);
	if ((bool)is_number<T>::value != n) BAD("is_number", "%s", what);
	if (!std::is_same<typename get_complex_internal<T>::type, I>::value) BAD("get_complex_internal", "%s", what);
	count("traits");
}
void traits()
{
	struct Foo {};
	trait<int, false, true, int>("int"); trait<float, false, true, float>("float"); trait<double, false, true, double>("double"); trait<long double, false, true, long double>("long double");
	trait<uint8, false, true, uint8>("uint8"); trait<int64, false, true, int64>("int64"); trait<bool, false, true, bool>("bool");
	trait<std::complex<float>, true, true, float>("complex<float>"); trait<std::complex<double>, true, true, double>("complex<double>"); trait<std::complex<long double>, true, true, long double>("complex<long double>");
	trait<Foo, false, false, Foo>("class"); trait<int*, false, false, int*>("pointer");
	if (!is_complex<const std::complex<double> >::value || !is_number<const double>::value || !is_number<volatile std::complex<float> >::value) BAD("is_complex", "cv qualified");
}
}
void vh::run_case(Rng& r, u64 idx)
{
	if (idx < 8) switch (idx)
	{
	case 0: return ints<VS8>(r, true); case 1: return ints<VU8>(r, true); case 2: return ints<VS16>(r, true); case 3: return ints<VU16>(r, true);
	case 4: return ints<int32>(r, true); case 5: return ints<uint32>(r, true); case 6: return ints<VS64>(r, true); default: return ints<VU64>(r, true);
	}
	if (idx == 8) return traits();
	switch (r.below(16))
	{
	case 0: return ints<VS8>(r, false); case 1: return ints<VU8>(r, false); case 2: return ints<VS16>(r, false); case 3: return ints<VU16>(r, false);
	case 4: return ints<int32>(r, false); case 5: return ints<uint32>(r, false); case 6: return ints<VS64>(r, false); case 7: return ints<VU64>(r, false);
	case 8: case 9: return reals<VF>(r); case 10: case 11: return reals<double>(r); case 12: return reals<VCD>(r); case 13: return reals<VCF>(r);
	case 14: if (r.chance(0.5)) long_reals(r); return check_real<VF>(r); default: return check_real<double>(r);
	}
}
#include "vh_main.h"
