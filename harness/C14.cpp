// C14: bandwidth reordering and permutations
#include "lu.h"
#include "matrix/MatrixOrder.h"
#include "huge.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(key, ...) do { viol(key, __VA_ARGS__); throw Stop(); } while (0)
typedef std::vector<char> Pat;// n*n, symmetric

static bool is_perm(const std::vector<size_t>& v, size_t n)
{
	std::vector<char> s(n, 0);
	if (v.size() != n) return false;
	for (size_t x : v) { if (x >= n || s[x]) return false; s[x] = 1; }
	return true;
}
static std::string show(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += fmt("%zu ", x); return s; }
static std::vector<size_t> list(const DynamicVector<Index>& v) { std::vector<size_t> r; for (size_t i = 0; i < v.size(); ++i) r.push_back((size_t)v.linear_at(i)); return r; }

// empty string: `o` numbers the graph breadth first, per component, by ascending degree
static std::string judge(const Pat& p, size_t n, const std::vector<size_t>& o, const std::vector<size_t>& deg)
{
	std::vector<size_t> comp(n, n);
	for (size_t s = 0; s < n; ++s) if (comp[s] == n)
	{
		std::vector<size_t> st(1, s); comp[s] = s;
		while (!st.empty()) { size_t x = st.back(); st.pop_back(); for (size_t y = 0; y < n; ++y) if (p[x * n + y] && comp[y] == n) { comp[y] = s; st.push_back(y); } }
	}
	std::vector<char> done(n, 0);
	size_t pos = 0;
	while (pos < n)
	{
		size_t s = o[pos], size = 0;
		for (size_t y = 0; y < n; ++y) if (comp[y] == comp[s]) { ++size; if (done[y]) return fmt("component of node %zu is not contiguous (position %zu)", s, pos); if (deg[y] < deg[s]) return fmt("component starts at node %zu of degree %zu, but node %zu has degree %zu", s, deg[s], y, deg[y]); }
		size_t end = pos + 1; done[s] = 1;
		for (size_t q = pos; q < end; ++q)
		{
			size_t x = o[q]; std::vector<size_t> nb;
			for (size_t y = 0; y < n; ++y) if (y != x && p[x * n + y] && !done[y]) nb.push_back(y);
			for (size_t k = 0; k < nb.size(); ++k)
			{
				if (end + k >= n) return "too short";
				size_t y = o[end + k];
				if (std::find(nb.begin(), nb.end(), y) == nb.end() || done[y]) return fmt("position %zu holds node %zu, which is no unnumbered neighbour of node %zu", end + k, y, x);
				if (k && deg[o[end + k - 1]] > deg[y]) return fmt("neighbours of node %zu are not numbered by ascending degree at position %zu", x, end + k);
				done[y] = 1;
			}
			end += nb.size();
		}
		if (end != pos + size) return fmt("component of node %zu has %zu nodes, %zu numbered", s, size, end - pos);
		pos = end;
	}
	return "";
}
template<class T> SparseMatrix<T> build(Rng& r, const Pat& p, size_t n)
{
	SparseMatrix<T> m(n, n);
	std::vector<size_t> o(n * n); for (size_t i = 0; i < o.size(); ++i) o[i] = i;
	if (r.chance(0.7)) r.shuffle(o);
	for (size_t q : o) if (p[q]) m.set(q / n, q % n, gen_nz<T>(r, SMALLINT));
	if (r.chance(0.3)) // entries that come and go must not count
		for (int z = 0; z < 3; ++z) { size_t q = r.below(n * n); if (!p[q]) { m.set(q / n, q % n, gen_nz<T>(r, SMALLINT)); m.set(q / n, q % n, T(0)); } }
	return m;
}
template<class T> void order(Rng& r, const Pat& p, size_t n)
{
	SparseMatrix<T> m = build<T>(r, p, n);
	auto before = raw(m);
	label("cuthill_mckee");
	auto o = list(cuthill_mckee(m));
	label("r_cuthill_mckee");
	auto ro = list(r_cuthill_mckee(m));
	if (!same_bits(raw(m), before)) BAD("input changed", "n=%zu", n);
	if (!is_perm(o, n)) BAD("no permutation", "%s n=%zu: %s", Sc<T>::name(), n, show(o).c_str());
	if (!is_perm(ro, n)) BAD("no permutation/reverse", "%s n=%zu: %s", Sc<T>::name(), n, show(ro).c_str());
	for (size_t i = 0; i < n; ++i) if (ro[i] != o[n - 1 - i]) BAD("mirror", "n=%zu: reverse ordering %s is not the mirror of %s", n, show(ro).c_str(), show(o).c_str());
	// degree: filled entries of the row; with or without the diagonal entry
	std::vector<size_t> d1(n, 0), d2(n, 0); bool diag = false, nodiag = false, empty = false; size_t comps = 0;
	for (size_t i = 0; i < n; ++i)
	{
		for (size_t j = 0; j < n; ++j) if (p[i * n + j]) { ++d1[i]; if (i != j) ++d2[i]; }
		(p[i * n + i] ? diag : nodiag) = true; if (!d1[i]) empty = true; if (!d2[i]) ++comps;
	}
	std::string e = judge(p, n, o, d1);
	if (!e.empty() && diag && nodiag && judge(p, n, o, d2).empty()) { e = ""; count("degree-without-diagonal"); }
	if (!e.empty()) BAD("ordering", "%s n=%zu ordering %s: %s", Sc<T>::name(), n, show(o).c_str(), e.c_str());
	count("orderings");
	if (empty) count("empty-rows");
	if (comps > 1) count("isolated-nodes");
	distinct(hash2(hash_bytes(p.data(), p.size()), n));
}
template<class T> void perm(Rng& r, const Pat& p, size_t n)
{
	SparseMatrix<T> m = build<T>(r, p, n);
	if (r.chance(0.3)) for (int z = 0; z < 4; ++z) m.set(r.below(n), r.below(n), gen_nz<T>(r, SMALLINT));// unsymmetric
	std::vector<size_t> q; bool own = r.chance(0.4);
	DynamicVector<Index> pv(n);
	if (own) { pv = r.chance(0.5) ? cuthill_mckee(m) : r_cuthill_mckee(m); q = list(pv); if (!is_perm(q, n)) { own = false; } }
	if (!own) { q = rand_perm(r, n); for (size_t i = 0; i < n; ++i) pv.set(i, q[i]); }
	auto a = to_ref(m); auto before = raw(m);
	auto x = gen_vector<DynamicVector<T> >(r, n, SMALLINT);
	auto xb = vraw(x);
	const char* tn = Sc<T>::name();
	tr("%s n=%zu perm %s", tn, n, show(q).c_str());
	label("permutate(m)");
	SparseMatrix<T> pm = permutate(m, pv);
	if (pm.rows() != n || pm.columns() != n) BAD("permutate(m)/shape", "n=%zu", n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (Sc<T>::big(pm.at(i, j)) != a(q[i], q[j])) BAD("permutate(m)", "%s n=%zu: entry %zu,%zu is %s instead of entry %zu,%zu", tn, n, i, j, str(pm.at(i, j)).c_str(), q[i], q[j]);
	label("permutate(v)");
	auto px = permutate(x, pv);
	if (px.size() != n) BAD("permutate(v)/size", "n=%zu", n);
	for (size_t i = 0; i < n; ++i) if (px.linear_at(i) != xb[q[i]]) BAD("permutate(v)", "%s n=%zu: component %zu is not component %zu", tn, n, i, q[i]);
	label("permutation_matrix");
	auto P = permutation_matrix<T>(pv);
	if (P.rows() != n || P.columns() != n) BAD("permutation_matrix/shape", "n=%zu", n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (P.at(i, j) != (q[i] == j ? T(1) : T(0))) BAD("permutation_matrix", "%s n=%zu: entry %zu,%zu is %s", tn, n, i, j, str(P.at(i, j)).c_str());
	label("P*v");
	auto p2 = P.mul(x);
	if (!same_bits(vraw(p2), vraw(px))) BAD("P*v", "%s n=%zu: permutation matrix and permutated vector differ", tn, n);
	auto PmPt = to_ref(P) * a * transp(to_ref(P));
	if (PmPt.v != to_ref(pm).v) BAD("P*m*P^T", "%s n=%zu", tn, n);
	label("inverse_permutation");
	auto iv = inverse_permutation(pv); auto il = list(iv);
	if (!is_perm(il, n)) BAD("inverse_permutation/no permutation", "n=%zu: %s", n, show(il).c_str());
	for (size_t i = 0; i < n; ++i) if (il[q[i]] != i || q[il[i]] != i) BAD("inverse_permutation", "n=%zu: %s", n, show(il).c_str());
	label("undo");
	if (!same_bits(raw(permutate(pm, iv)), before)) BAD("undo/m", "%s n=%zu", tn, n);
	if (!same_bits(vraw(permutate(px, iv)), xb)) BAD("undo/v", "%s n=%zu", tn, n);
	label("system");
	auto b = m.mul(x); auto pb = permutate(b, pv);
	auto b2 = pm.mul(px);
	if (!same_bits(vraw(pb), vraw(b2))) BAD("system", "%s n=%zu: (PAP^T)(Px) differs from P(Ax)", tn, n);
	if (!same_bits(raw(m), before) || !same_bits(vraw(x), xb) || list(pv) != q) BAD("input changed", "n=%zu", n);
	if (own) count("own-permutations");
	count("permutations");
	{ bool inv = true; for (size_t i = 0; i < n; ++i) if (q[q[i]] != i) inv = false; if (!inv) count("non-involutions"); }
	// products of filled entries keep the number of filled entries
	size_t f0 = 0, f1 = 0; for (auto& z : a.v) f0 += z != typename Sc<T>::B(0);
	for (auto it = pm.begin(); it != pm.end(); ++it) f1 += *it != T(0);
	if (f0 != f1) BAD("entries", "n=%zu: %zu entries before, %zu after", n, f0, f1);
	distinct(hash2(hash_vals(before), hash_bytes(q.data(), q.size() * sizeof(size_t))));
	sample(sh->trace);
}
static Pat random_pattern(Rng& r, size_t& n)
{
	int h = (int)r.below(9);
	n = r.chance(0.15) ? (size_t)r.range(20, 45) : (size_t)r.range(2, 16);
	size_t w = 1;
#ifdef NDEBUG // far beyond the usual sizes, only in the optimized flavor
	if (r.chance(0.0005)) n = (size_t)r.range(46, 400);
#endif
	if (h == 3) { w = (size_t)r.range(1, 6); size_t k = (size_t)r.range(1, 6); if (n > 45) { w = (size_t)r.range(7, 20); k = n / w; } n = w * k; }
	Pat q(n * n, 0);
	auto edge = [&](size_t a, size_t b) { q[a * n + b] = q[b * n + a] = 1; };
	switch (h)
	{
	case 0: { double d = r.pick({0.05, 0.1, 0.2, 0.5, 0.9}); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (r.chance(d)) edge(i, j); break; }
	case 1: for (size_t i = 1; i < n; ++i) edge(i, i - 1); break;
	case 2: for (size_t i = 1; i < n; ++i) edge(i, r.below(i)); break;
	case 3: for (size_t i = 0; i < n; ++i) { if (i % w) edge(i, i - 1); if (i >= w) edge(i, i - w); } break;
	case 4: for (size_t i = 1; i < n; ++i) edge(0, i); break;
	case 5: { size_t c = (size_t)r.range(1, 4); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (i % c == j % c && r.chance(0.5)) edge(i, j); break; }
	case 6: for (size_t i = 0; i < n; ++i) edge(i, (i + 1) % n); break;
	case 7: for (size_t i = 0; i < n / 2; ++i) for (size_t j = n / 2; j < n; ++j) if (r.chance(0.7)) edge(i, j); break;
	default: for (size_t i = 1; i < n; ++i) if (r.chance(0.6)) { edge(i, r.below(i)); if (r.chance(0.3)) edge(i, r.below(i)); } break;
	}
	int dg = (int)r.below(3);
	for (size_t i = 0; i < n; ++i) q[i * n + i] = dg == 0 ? 0 : dg == 1 ? 1 : r.chance(0.5);
	// relabel
	auto o = rand_perm(r, n); Pat t(n * n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) t[o[i] * n + o[j]] = q[i * n + j];
	return t;
}
namespace vh { const char* property = "C14"; }
// permutations of more than 65536 indices
template<class T> void huge_perm(Rng& r)
{
	size_t n = Huge<T>::dim(r, true);
	auto q = rand_perm(r, n); DynamicVector<Index> pv(n); DynamicVector<T> x(n);
	std::vector<size_t> inv(n);
	for (size_t i = 0; i < n; ++i) { pv.set(i, q[i]); inv[q[i]] = i; x.set(i, (T)(double)(i % 65521)); }
	tr("huge permutation of %zu", n);
	label("permutate(v)"); auto px = permutate(x, pv);
	if (px.size() != n) BAD("huge/permutate(v)", "n=%zu size %zu", n, px.size());
	for (size_t i = 0; i < n; ++i) if (!(px.at(i) == x.at(q[i]))) BAD("huge/permutate(v)", "n=%zu component %zu", n, i);
	label("inverse_permutation"); auto iv = inverse_permutation(pv);
	if (iv.size() != n) BAD("huge/inverse_permutation", "n=%zu size %zu", n, iv.size());
	for (size_t i = 0; i < n; ++i) if (iv.at(i) != inv[i]) BAD("huge/inverse_permutation", "n=%zu entry %zu is %zu", n, i, (size_t)iv.at(i));
	if (!same_bits(vraw(permutate(px, iv)), vraw(x))) BAD("huge/undo", "n=%zu", n);
	count("huge-permutations"); distinct(hash2(n, hash_bytes(q.data(), 80)));
}
void vh::run_case(Rng& r, u64 idx)
{
	size_t n = 0; Pat p; u64 k = idx; bool all = false;
	for (size_t m = 1; m <= 5 && !all; ++m)
	{
		u64 c = 1ull << (m * (m + 1) / 2);
		if (k < c) { n = m; p.assign(n * n, 0); size_t b = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j, ++b) p[i * n + j] = p[j * n + i] = (k >> b) & 1; all = true; }
		else k -= c;
	}
	if (!all && k < (1u << 15)) { n = 6; p.assign(36, 0); size_t b = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j, ++b) p[i * n + j] = p[j * n + i] = (k >> b) & 1; all = true; }
	if (all) { count("exhaustive-patterns"); tr("pattern %llu of size %zu", (unsigned long long)k, n); order<double>(r, p, n); if (idx % 16 == 0) perm<double>(r, p, n); return; }
	if (r.chance(HUGE_CHANCE)) { if (r.chance(0.5)) huge_perm<double>(r); else huge_perm<VF>(r); return; }
	p = random_pattern(r, n);
	tr("n=%zu ", n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) if (p[i * n + j]) tr("%zu-%zu ", i, j);
	switch (r.below(4))
	{
	case 0: order<VF>(r, p, n); perm<VF>(r, p, n); break;
	case 1: order<VCD >(r, p, n); perm<VCD >(r, p, n); break;
	case 2: order<VI>(r, p, n); perm<VI>(r, p, n); break;
	default: order<double>(r, p, n); perm<double>(r, p, n); break;
	}
}
#include "vh_main.h"
