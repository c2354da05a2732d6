// C07: element access beyond the dimensions is stopped by the library's assertion
#include "ref.h"
using namespace NS;
using namespace ref;
using namespace vh;

template<class M> struct Kd { static const char* n() { return "fixed"; } };
template<class T> struct Kd<SparseMatrix<T> > { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };
template<class T, class DC> struct Kd<Vector<T, DC> > { static const char* n() { return std::is_same<DC, dynamic_container_t<T> >::value ? "vector" : "fixedvector"; } };

static volatile size_t sink;
template<class T> static void use(const T& t) { unsigned char c[sizeof(T)]; memcpy(c, &t, sizeof c); sink += c[0]; }

static std::vector<size_t> beyond(Rng& r, size_t n)
{
	std::vector<size_t> v = {n, n + 1, n + 2 + r.below(40), 2 * n, 2 * n + 1, n * n + n, (size_t)1 << 31, ((size_t)1 << 32) + (n ? r.below(n) : 0), ((size_t)1 << 62) + r.below(9), (size_t)1 << 63, ~(size_t)0, ~(size_t)0 - r.below(20)};
	std::vector<size_t> w;
	for (size_t x : v) if (x >= n) w.push_back(x);
	return w;
}
// rows/columns whose linear position wraps around or stays inside of the storage
static size_t wrap(Rng& r, size_t cols, size_t off) { return (size_t)((((unsigned __int128)1 << 64) + cols - 1) / cols) + off; }

#define STOPPED(name, in, ...) do { label(name); Outcome o_ = probe([&]() { __VA_ARGS__; }); \
	if (o_ != ABORTED) { viol(fmt("%s/%s:%s", kind, name, o_ == RETURNED ? "returned" : o_ == THREW ? "threw" : "memory-fault").c_str(), "%s: index %s is beyond the dimensions, access %s", sh_.c_str(), std::string(in).c_str(), o_ == RETURNED ? "returned" : o_ == THREW ? "threw" : "faulted"); } \
	++stopped; } while (0)
#define ALLOWED(name, in, ...) do { label(name); Outcome o_ = probe([&]() { __VA_ARGS__; }); \
	if (o_ != RETURNED) { viol(fmt("%s/%s:valid-stopped", kind, name).c_str(), "%s: index %s is valid, access was stopped", sh_.c_str(), std::string(in).c_str()); throw Stop(); } ++allowed; } while (0)

template<class M> void two(M& A, size_t i, size_t j, const std::string& sh_, u64& stopped)
{
	typedef typename M::value_type T; const char* kind = Kd<M>::n(); const M& C = A;
	std::string in = fmt("(%zu,%zu)", i, j);
	STOPPED("at", in, use(C.at(i, j)));
	STOPPED("set", in, A.set(i, j, (T)7));
	STOPPED("set zero", in, A.set(i, j, (T)0));
	STOPPED("has", in, use(C.has(i, j)));
	T v = (T)0; STOPPED("has value", in, use(C.has(i, j, v)));
}
template<class M> void walkers(Rng& r, M& A, size_t n, size_t m, const std::string& sh_, u64& stopped)
{
	const char* kind = Kd<M>::n(); const M& C = A;
	for (size_t i : beyond(r, n)) { STOPPED("row_begin", fmt("%zu", i), use(A.row_begin(i).row())); STOPPED("row_begin const", fmt("%zu", i), use(C.row_begin(i).row())); STOPPED("row_cbegin", fmt("%zu", i), use(C.row_cbegin(i).row())); }
	for (size_t i : beyond(r, m)) { STOPPED("column_begin", fmt("%zu", i), use(A.column_begin(i).row())); STOPPED("column_begin const", fmt("%zu", i), use(C.column_begin(i).row())); STOPPED("column_cbegin", fmt("%zu", i), use(C.column_cbegin(i).row())); }
}
// out-of-range rows and columns of a sparse matrix are empty walks
template<class T> void walkers(Rng&, SparseMatrix<T>&, size_t, size_t, const std::string&, u64&) {}
template<class M> void matrix(Rng& r, M& A, size_t n, size_t m)
{
	typedef typename M::value_type T; const char* kind = Kd<M>::n(); const M& C = A;
	u64 stopped = 0, allowed = 0;
	std::string sh_ = fmt("%s %zux%zu", Sc<T>::name(), n, m);
	auto p = gen_pattern(r, n, m);
	bool full = r.chance(0.4);
	for (size_t q = 0; q < n * m; ++q) if (full || p[q]) A.linear_set(q, gen_nz<T>(r, SMALLINT));
	std::vector<T> a = raw(A);
	tr("%s %s", kind, sh_.c_str());
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j)
		if (n * m < 30 || r.chance(0.2))
		{
			T v = (T)0, w = a[i * m + j];
			ALLOWED("at", fmt("(%zu,%zu)", i, j), v = C.at(i, j)); ALLOWED("set", fmt("(%zu,%zu)", i, j), A.set(i, j, w)); ALLOWED("has", fmt("(%zu,%zu)", i, j), use(C.has(i, j)));
			ALLOWED("linear_at", fmt("%zu", i * m + j), v = C.linear_at(i * m + j)); ALLOWED("linear_set", fmt("%zu", i * m + j), A.linear_set(i * m + j, w));
		}
	// column beyond, row valid: the linear position is inside of the storage except in the last row
	for (size_t j : beyond(r, m)) two(A, r.below(n), j, sh_, stopped);
	for (size_t i = 0; i < n; ++i) two(A, i, m, sh_, stopped);
	// row beyond, column valid
	for (size_t i : beyond(r, n)) two(A, i, r.below(m), sh_, stopped);
	for (size_t j = 0; j < m; ++j) two(A, n, j, sh_, stopped);
	// both beyond
	for (size_t i : beyond(r, n)) two(A, i, r.pick(beyond(r, m)), sh_, stopped);
	// wrapped around
	if (m > 1) { two(A, wrap(r, m, 0), 0, sh_, stopped); two(A, wrap(r, m, r.below(n)), r.below(m), sh_, stopped); two(A, ~(size_t)0, m, sh_, stopped); two(A, (size_t)0 - 1, r.below(m), sh_, stopped); }
	two(A, r.below(n), (size_t)0 - m * r.below(n) - 1, sh_, stopped);
	two(A, n - 1, (size_t)0 - 1, sh_, stopped);
	if (n > 1) two(A, 1, (size_t)0 - m, sh_, stopped);
	for (size_t l : beyond(r, n * m))
	{
		STOPPED("linear_at", fmt("%zu", l), use(C.linear_at(l))); STOPPED("linear_set", fmt("%zu", l), A.linear_set(l, (T)7));
		STOPPED("linear_set zero", fmt("%zu", l), A.linear_set(l, (T)0));
	}
	walkers(r, A, n, m, sh_, stopped);
	if (A.rows() != n || A.columns() != m || !same_bits(raw(A), a)) viol(fmt("%s/changed", kind).c_str(), "%s: a stopped access changed the matrix", sh_.c_str());
	if (r.chance(0.01) && !VH_ASAN)
	{
		size_t i = n + r.below(3), j = r.below(m);
		int st = in_child([&]() { use(C.at(i, j)); });
		if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) viol(fmt("%s/process", kind).c_str(), "%s: access at (%zu,%zu) did not end the process (wait status %x)", sh_.c_str(), i, j, st);
		count("process-ended");
	}
	count(fmt("%s:stopped", kind).c_str(), stopped); count(fmt("%s:allowed", kind).c_str(), allowed);
	distinct(hash_vals(a, hash2(n * 64 + m, hash_bytes(kind, strlen(kind)))));
}
template<class V> void vec(Rng& r, V& v, size_t n)
{
	typedef typename V::value_type T; const char* kind = Kd<V>::n(); const V& c = v;
	u64 stopped = 0, allowed = 0;
	std::string sh_ = fmt("%s size %zu", Sc<T>::name(), n);
	tr("%s %s", kind, sh_.c_str());
	for (size_t i = 0; i < n; ++i) v.linear_set(i, gen<T>(r, SMALLINT));
	std::vector<T> a = vraw(v);
	for (size_t i = 0; i < n; ++i)
	{
		T w = a[i]; std::string in = fmt("%zu", i);
		ALLOWED("at", in, use(c.at(i))); ALLOWED("set", in, v.set(i, w)); ALLOWED("[]", in, v[i] = w); ALLOWED("[] const", in, use(c[i])); ALLOWED("linear_at", in, use(c.linear_at(i))); ALLOWED("linear_set", in, v.linear_set(i, w));
	}
	for (size_t i : beyond(r, n))
	{
		std::string in = fmt("%zu", i);
		STOPPED("at", in, use(c.at(i))); STOPPED("set", in, v.set(i, (T)7)); STOPPED("[]", in, v[i] = (T)7); STOPPED("[] const", in, use(c[i])); STOPPED("linear_at", in, use(c.linear_at(i))); STOPPED("linear_set", in, v.linear_set(i, (T)7));
	}
	// slices up to or from an element that does not exist
	for (size_t i : beyond(r, n)) if (i <= n * n + 50 || i >= (size_t)1 << 62)
	{
		std::string in = fmt("%zu", i);
		STOPPED("left", in, { auto q = c.left(i); sink += q.size(); }); STOPPED("right", in, { auto q = c.right(i); sink += q.size(); });
	}
	for (size_t i = 0; i < n; ++i) { std::string in = fmt("%zu", i); ALLOWED("left", in, { auto q = c.left(i); sink += q.size(); }); ALLOWED("right", in, { auto q = c.right(i); sink += q.size(); }); }
	STOPPED("*end", "end", use(*c.end()));
	{ auto it = c.begin(); for (size_t i = 0; i < n; ++i) ++it; STOPPED("*(begin+n)", "begin+n", use(*it)); ++it; STOPPED("*(begin+n+1)", "begin+n+1", use(*it)); }
	if (c.size() != n || !same_bits(vraw(v), a)) viol(fmt("%s/changed", kind).c_str(), "%s: a stopped access changed the vector", sh_.c_str());
	if (r.chance(0.01) && !VH_ASAN)
	{
		int st = in_child([&]() { use(c.at(n)); });
		if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) viol(fmt("%s/process", kind).c_str(), "%s: access at %zu did not end the process (wait status %x)", sh_.c_str(), n, st);
		count("process-ended");
	}
	count(fmt("%s:stopped", kind).c_str(), stopped); count(fmt("%s:allowed", kind).c_str(), allowed);
	distinct(hash_vals(a, hash2(n, hash_bytes(kind, strlen(kind)))));
}
// lists with more elements than a fixed size container has
template<class T, size_t K1, size_t K2> void fix_lists(Rng& r)
{
	typedef FixedMatrix<T, K1, K2> M; const char* kind = "fixed"; u64 stopped = 0, allowed = 0;
	static_assert(K1 <= 6 && K2 <= 5, "lists below are too short");
	std::string sh_ = fmt("%s %zux%zu", Sc<T>::name(), K1, K2);
	T t = gen<T>(r, SMALLINT);
	struct S { T g0[8]; typename std::aligned_storage<sizeof(M), alignof(M)>::type a; T g1[64]; } s;
	for (T& g : s.g0) g = (T)5; for (T& g : s.g1) g = (T)5;
	STOPPED("list with too many rows", "7 rows", new (&s.a) M({{t}, {t}, {t}, {t}, {t}, {t}, {t}}));
	STOPPED("list with too many columns", "6 columns", new (&s.a) M({{t, t, t, t, t, t}}));
	if (K1 > 1) STOPPED("list with too many columns", "6 columns in the last row", new (&s.a) M({{t}, {t, t, t, t, t, t}}));
	ALLOWED("list", "1x1", new (&s.a) M({{t}}); reinterpret_cast<M*>(&s.a)->~M());
	for (T& g : s.g0) if (!(g == (T)5)) viol("fixed/list:memory", "%s: the list was written in front of the matrix", sh_.c_str());
	for (T& g : s.g1) if (!(g == (T)5)) viol("fixed/list:memory", "%s: the list was written behind the matrix", sh_.c_str());
	count("fixed:list-stopped", stopped); count("fixed:list-allowed", allowed);
}
template<class T, size_t N> void fv_lists(Rng& r)
{
	typedef FixedVector<T, N> V; const char* kind = "fixedvector"; u64 stopped = 0, allowed = 0;
	static_assert(N <= 4, "lists below are too short");
	std::string sh_ = fmt("%s size %zu", Sc<T>::name(), N);
	T t = gen<T>(r, SMALLINT);
	struct S { T g0[8]; typename std::aligned_storage<sizeof(V), alignof(V)>::type a; T g1[64]; } s;
	for (T& g : s.g0) g = (T)5; for (T& g : s.g1) g = (T)5;
	STOPPED("list", "5 elements", new (&s.a) V({t, t, t, t, t}));
	STOPPED("list", "9 elements", new (&s.a) V({t, t, t, t, t, t, t, t, t}));
	ALLOWED("list", "1 element", new (&s.a) V({t}); reinterpret_cast<V*>(&s.a)->~V());
	for (T& g : s.g0) if (!(g == (T)5)) viol("fixedvector/list:memory", "%s: the list was written in front of the vector", sh_.c_str());
	for (T& g : s.g1) if (!(g == (T)5)) viol("fixedvector/list:memory", "%s: the list was written behind the vector", sh_.c_str());
	count("fixedvector:list-stopped", stopped); count("fixedvector:list-allowed", allowed);
}
template<class M> void dyn(Rng& r) { size_t n = gen_dim(r, 8), m = gen_dim(r, 8); M A(n, m); matrix(r, A, n, m); }
template<class T, size_t K1, size_t K2> void fix(Rng& r) { struct { T g0[8]; FixedMatrix<T, K1, K2> A; T g1[8]; } s; matrix(r, s.A, K1, K2); fix_lists<T, K1, K2>(r); }
template<class T> void dv(Rng& r) { size_t n = r.chance(0.15) ? 0 : gen_dim(r, 20); DynamicVector<T> v(n); vec(r, v, n); }
template<class T, size_t N> void fv(Rng& r) { FixedVector<T, N> v; vec(r, v, N); fv_lists<T, N>(r); }
namespace vh { const char* property = "C07"; }
void vh::run_case(Rng& r, u64 idx)
{
	u64 k = idx / 4;
	switch (idx % 4)
	{
	case 0: switch (k % 3) { case 0: dyn<SparseMatrix<double> >(r); break; case 1: dyn<SparseMatrix<VI> >(r); break; default: dyn<SparseMatrix<VCF > >(r); } break;
	case 1: switch (k % 3) { case 0: dyn<DenseMatrix<double> >(r); break; case 1: dyn<DenseMatrix<VI> >(r); break; default: dyn<DenseMatrix<VCF > >(r); } break;
	case 2: switch (k % 4) { case 0: fix<double, 3, 4>(r); break; case 1: fix<VF, 2, 2>(r); break; case 2: fix<VCD, 1, 5>(r); break; default: fix<VI, 6, 1>(r); } break;
	default: switch (k % 6) { case 0: dv<double>(r); break; case 1: dv<VF>(r); break; case 2: dv<VCD >(r); break; case 3: fv<double, 3>(r); break; case 4: fv<VF, 1>(r); break; default: fv<VCF, 4>(r); } break;
	}
	sample(sh->trace);
}
#include "vh_main.h"
