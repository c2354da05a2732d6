// C02: iteration visits every entry once, in order, and edits through iterators stick
#include "ref.h"
#include "huge.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
using namespace NS;
using namespace ref;
using namespace vh;
namespace vh { const char* property = "C02"; }

template<class T> struct Ent { size_t i, j; T v; };
template<class T> bool same(const std::vector<Ent<T> >& a, const std::vector<Ent<T> >& b)
{
	if (a.size() != b.size()) return false;
	for (size_t k = 0; k < a.size(); ++k) if (a[k].i != b[k].i || a[k].j != b[k].j || !same_bits(a[k].v, b[k].v)) return false;
	return true;
}
template<class T> std::string show(const std::vector<Ent<T> >& a)
{
	std::string s = fmt("%zu entries:", a.size());
	for (size_t k = 0; k < a.size() && k < 20; ++k) s += fmt(" (%zu,%zu)=%s", a[k].i, a[k].j, str(a[k].v).c_str());
	return s;
}
// walks [b,e) in one of several ways
template<class T, class It> std::vector<Ent<T> > walk(It b, It e, size_t limit, int how, const char* key)
{
	std::vector<Ent<T> > r;
	auto it = b; auto end = e;
	while (how & 1 ? it != end : !(it == end))
	{
		if (r.size() > limit) { viol(key, "iteration does not end after %zu entries", r.size()); throw Stop(); }
		if (!it.isValid()) { viol(key, "iterator inside the range is not valid"); throw Stop(); }
		const auto& cit = it; const auto prev = it;
		if (!(prev == it) || prev != it || (it == b) != r.empty() || (it != b) == r.empty()) viol(key, "iterators at the same or different positions do not compare so");
		T v = how & 2 ? (T)*it : *cit;
		size_t i = it.row(), j = it.column();
		if (how & 4) { auto old = it++; if (old.row() != i || old.column() != j || !same_bits((T)*old, v)) viol(key, "post increment does not return the previous position"); }
		else { auto& x = ++it; if (&x != &it) viol(key, "pre increment does not return itself"); }
		if (prev == it || !(prev != it)) viol(key, "iterator equals the one of the next position");
		if (prev.row() != i || prev.column() != j) viol(key, "incrementing moves copies of the iterator");
		r.push_back({i, j, v});
	}
	if (it.isValid()) viol(key, "end iterator is valid");
	// end stays end, whatever is done with it
	auto z = it; ++z;
	if (z != end) viol(key, "incrementing the end leaves it");
	return r;
}

template<class M> struct Traits { static const bool sparse = false; };
template<class T> struct Traits<SparseMatrix<T> > { static const bool sparse = true; };

template<class M> void verify(Rng& r, M& A, const std::vector<typename M::value_type>& m, size_t n, size_t c, const char* kind, const char* after)
{
	typedef typename M::value_type T;
	const bool sp = Traits<M>::sparse;
	std::vector<Ent<T> > all;
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < c; ++j) if (!sp || m[i * c + j] != (T)0) all.push_back({i, j, m[i * c + j]});
	const M& C = A;
	auto cmp = [&](const char* which, const std::vector<Ent<T> >& got, const std::vector<Ent<T> >& exp)
	{
		count("walks"); count("entries-visited", got.size());
		if (!same(got, exp)) { viol(fmt("%s/%s/%s", kind, which, after).c_str(), "%s %zux%zu: got %s expected %s", Sc<T>::name(), n, c, show(got).c_str(), show(exp).c_str()); throw Stop(); }
	};
	label("walk"); size_t L = n * c + 1;
	std::string key = fmt("%s/protocol/%s", kind, after);
	int h = (int)r.below(8);
	cmp("full", walk<T>(A.begin(), A.end(), L, h, key.c_str()), all);
	cmp("full-const", walk<T>(C.begin(), C.end(), L, (int)r.below(8), key.c_str()), all);
	cmp("full-c", walk<T>(A.cbegin(), A.cend(), L, (int)r.below(8), key.c_str()), all);
	for (size_t i = 0; i < n; ++i)
	{
		std::vector<Ent<T> > e; for (auto& x : all) if (x.i == i) e.push_back(x);
		cmp("row", walk<T>(A.row_begin(i), A.row_end(i), c + 1, (int)r.below(8), key.c_str()), e);
		cmp("row-const", walk<T>(C.row_begin(i), C.row_end(i), c + 1, (int)r.below(8), key.c_str()), e);
		cmp("row-c", walk<T>(A.row_cbegin(i), A.row_cend(i), c + 1, (int)r.below(8), key.c_str()), e);
	}
	for (size_t j = 0; j < c; ++j)
	{
		std::vector<Ent<T> > e; for (auto& x : all) if (x.j == j) e.push_back(x);
		cmp("column", walk<T>(A.column_begin(j), A.column_end(j), n + 1, (int)r.below(8), key.c_str()), e);
		cmp("column-const", walk<T>(C.column_begin(j), C.column_end(j), n + 1, (int)r.below(8), key.c_str()), e);
		cmp("column-c", walk<T>(A.column_cbegin(j), A.column_cend(j), n + 1, (int)r.below(8), key.c_str()), e);
	}
	distinct(hash_vals(m, hash2(n * 100 + c, hash_bytes(kind, strlen(kind)))));
}
// reading back: exactly the expected content, everywhere
template<class M> void content(const M& A, const std::vector<typename M::value_type>& m, const char* kind, const char* after)
{
	auto g = raw(A);
	for (size_t q = 0; q < m.size(); ++q)
		if (!same_bits(g[q], m[q])) { viol(fmt("%s/content/%s", kind, after).c_str(), "position %zu,%zu reads %s expected %s", q / A.columns(), q % A.columns(), str(g[q]).c_str(), str(m[q]).c_str()); throw Stop(); }
	for (size_t i = 0; i < A.rows(); ++i) for (size_t j = 0; j < A.columns(); ++j)
	{
		typedef typename M::value_type T; const T w = m[i * A.columns() + j]; T v = (T)1;
		if (A.has(i, j) != (w != (T)0) || A.has(i, j, v) != (w != (T)0) || !same_bits(v, w)) { viol(fmt("%s/has/%s", kind, after).c_str(), "has(%zu,%zu) is %d, the entry %s", i, j, (int)A.has(i, j), str(w).c_str()); throw Stop(); }
	}
	count("positions-compared", m.size());
}

// the position the erase/set call has to return
template<class T> size_t next_pos(const std::vector<T>& m, size_t q)
{
	for (++q; q < m.size(); ++q) if (m[q] != (T)0) return q;
	return m.size();
}
template<class It> size_t pos_of(const It& it, size_t n, size_t c) { return it.isValid() ? it.row() * c + it.column() : n * c; }

template<class M> void edits(Rng& r, M& A, std::vector<typename M::value_type>& m, size_t n, size_t c, const char* kind, Kind vk)
{
	typedef typename M::value_type T;
	const bool sp = Traits<M>::sparse;
	size_t steps = (size_t)r.range(1, 6);
	for (size_t s = 0; s < steps; ++s)
	{
		// entries an iterator can stand on
		std::vector<size_t> cand; for (size_t q = 0; q < m.size(); ++q) if (!sp || m[q] != (T)0) cand.push_back(q);
		long op = r.range(0, 6);
		const char* name = "?";
		if (cand.empty()) op = 6;
		size_t q = cand.empty() ? 0 : r.chance(0.3) ? cand.back() : r.chance(0.2) ? cand[0] : r.pick(cand);
		auto goto_q = [&]() { auto it = A.begin(); size_t g = 0; while (pos_of(it, n, c) != q) { ++it; if (++g > n * c) { viol(fmt("%s/unreachable", kind).c_str(), "entry %zu,%zu is not reached by iteration", q / c, q % c); throw Stop(); } } return it; };
		T v = gen_nz<T>(r, vk);
		int path = (int)r.below(3);// reach the entry by full, row or column iteration
		switch (op)
		{
		case 0:
			name = "write-through"; label(name); tr("write %zu,%zu path %d", q / c, q % c, path);
			if (path == 0) { auto it = goto_q(); *it = v; }
			else if (path == 1) { auto it = A.row_begin(q / c); auto e = A.row_end(q / c); while (it != e && it.column() != q % c) ++it; if (it == e) { viol(fmt("%s/unreachable", kind).c_str(), "row iteration misses %zu,%zu", q / c, q % c); throw Stop(); } *it = v; }
			else { auto it = A.column_begin(q % c); auto e = A.column_end(q % c); while (it != e && it.row() != q / c) ++it; if (it == e) { viol(fmt("%s/unreachable", kind).c_str(), "column iteration misses %zu,%zu", q / c, q % c); throw Stop(); } *it = v; }
			m[q] = v;
			break;
		case 1: case 2:
		{
			name = op == 1 ? "erase" : "set-zero"; label(name); tr("%s %zu,%zu path %d", name, q / c, q % c, path);
			auto go = [&](typename M::iterator it)
			{
				auto nx = op == 1 ? A.erase(it) : A.set(it, (T)0);
				m[q] = (T)0;
				if (sp)
				{
					size_t e = next_pos(m, q);
					if (pos_of(nx, n, c) != e) { viol(fmt("%s/%s/next", kind, name).c_str(), "%zux%zu removing %zu,%zu returned position %zu expected %zu (size %zu = end)", n, c, q / c, q % c, pos_of(nx, n, c), e, n * c); throw Stop(); }
					count("next-positions-checked");
					if (e < m.size() && !same_bits((T)*nx, m[e])) { viol(fmt("%s/%s/next-value", kind, name).c_str(), "returned iterator reads %s", str((T)*nx).c_str()); throw Stop(); }
					// walking on from there visits the rest
					std::vector<Ent<T> > rest; for (size_t z = e; z < m.size(); ++z) if (m[z] != (T)0) rest.push_back({z / c, z % c, m[z]});
					auto got = walk<T>(nx, A.end(), n * c + 1, (int)r.below(8), fmt("%s/%s/protocol", kind, name).c_str());
					if (!same(got, rest)) { viol(fmt("%s/%s/continue", kind, name).c_str(), "continuing after the removal: %s expected %s", show(got).c_str(), show(rest).c_str()); throw Stop(); }
				}
			};
			if (path == 0) go(goto_q());
			else if (path == 1) { auto it = A.row_begin(q / c); while (it.isValid() && it.column() != q % c) ++it; go(it); }
			else { auto it = A.column_begin(q % c); while (it.isValid() && it.row() != q / c) ++it; go(it); }
			break;
		}
		case 3:
		{
			name = "set-iterator"; label(name); tr("set %zu,%zu", q / c, q % c);
			auto nx = A.set(goto_q(), v);
			m[q] = v;
			if (pos_of(nx, n, c) != q || !same_bits((T)*nx, v)) { viol(fmt("%s/set-iterator/position", kind).c_str(), "set(it) returned position %zu", pos_of(nx, n, c)); throw Stop(); }
			break;
		}
		case 4:
		{
			// the idiom: one pass, removing some, changing some, keeping the rest
			name = "filter-loop"; label(name); tr("filter");
			std::vector<char> act(m.size()); for (auto& a : act) a = (char)r.below(4);
			if (r.chance(0.2)) std::fill(act.begin(), act.end(), 0);
			size_t g = 0; size_t last = (size_t)-1;
			for (auto it = A.begin(); it != A.end();)
			{
				size_t p = pos_of(it, n, c);
				if (++g > n * c + 1) { viol(fmt("%s/filter-loop/hang", kind).c_str(), "loop does not end"); throw Stop(); }
				if (last != (size_t)-1 && p <= last) { viol(fmt("%s/filter-loop/order", kind).c_str(), "position %zu after %zu", p, last); throw Stop(); }
				last = p;
				if (act[p] == 0) { m[p] = (T)0; if (sp) { it = A.erase(it); } else { it = A.erase(it); ++it; } }
				else if (act[p] == 1) { m[p] = v; it = A.set(it, v); ++it; }
				else if (act[p] == 2) { m[p] = v; *it = v; ++it; }
				else it++;
			}
			// every candidate must have been met
			break;
		}
		case 5:
		{
			name = "row-column-write"; label(name);
			size_t i = r.below(n), j = r.below(c);
			if (r.chance(0.5)) { tr("row %zu", i); for (auto it = A.row_begin(i); it != A.row_end(i); ++it) { m[it.row() * c + it.column()] = v; *it = v; } for (size_t z = 0; z < c; ++z) if ((!sp || m[i * c + z] != (T)0) && !same_bits(m[i * c + z], v)) viol(fmt("%s/row/visit", kind).c_str(), "row loop missed %zu,%zu", i, z); }
			else { tr("column %zu", j); for (auto it = A.column_begin(j); it != A.column_end(j); ++it) { m[it.row() * c + it.column()] = v; *it = v; } for (size_t z = 0; z < n; ++z) if ((!sp || m[z * c + j] != (T)0) && !same_bits(m[z * c + j], v)) viol(fmt("%s/column/visit", kind).c_str(), "column loop missed %zu,%zu", z, j); }
			break;
		}
		default:
		{
			// edits at the end iterator are without effect
			name = "end-edit"; label(name); tr("end");
			auto e = A.end();
			A.set(e, v);
			if (A.erase(e) != A.end()) viol(fmt("%s/end-edit", kind).c_str(), "erase(end) is not the end");
			// and the matrix can be filled again
			for (size_t z = r.below(5); z--;) { size_t w = r.below(m.size()); tr("fill %zu", w); T x = gen_nz<T>(r, vk); A.set(w / c, w % c, x); m[w] = x; }
			break;
		}
		}
		count((std::string(kind) + ":" + name).c_str());
		content(A, m, kind, name);
		verify(r, A, m, n, c, kind, name);
	}
}

template<class M> void dynamic_case(Rng& r, const char* kind)
{
	typedef typename M::value_type T;
	size_t n = gen_dim(r, 8), c = gen_dim(r, 8);
	Kind vk = (Kind)r.below(KINDS);
	M A(n, c);
	auto p = gen_pattern(r, n, c);
	std::vector<T> m(n * c, (T)0);
	std::vector<size_t> o(n * c); for (size_t q = 0; q < o.size(); ++q) o[q] = q;
	r.shuffle(o);
	for (size_t q : o) if (p[q]) { m[q] = gen_nz<T>(r, vk); A.set(q / c, q % c, m[q]); }
	tr("%s %s %zux%zu", kind, Sc<T>::name(), n, c);
	verify(r, A, m, n, c, kind, "build");
	edits(r, A, m, n, c, kind, vk);
	sample(sh->trace);
}
template<class T, size_t K1, size_t K2> void fixed_case(Rng& r)
{
	typedef FixedMatrix<T, K1, K2> M;
	Kind vk = (Kind)r.below(KINDS);
	M A;
	std::vector<T> m(K1 * K2, (T)0);
	for (size_t q = 0; q < m.size(); ++q) if (r.chance(0.7)) { m[q] = gen_nz<T>(r, vk); A.set(q / K2, q % K2, m[q]); }
	tr("fixed %s %zux%zu", Sc<T>::name(), K1, K2);
	verify(r, A, m, K1, K2, "fixed", "build");
	edits(r, A, m, K1, K2, "fixed", vk);
}
// every pattern of small shapes: iteration and every single erase / zeroing at every entry
static const int shapes[][2] = {{1,1},{1,2},{2,1},{2,2},{1,3},{3,1},{2,3},{3,2},{1,5},{5,1},{3,3},{2,4},{4,2}};
static u64 ex_total() { u64 t = 0; for (auto& s : shapes) t += 1ull << (s[0] * s[1]); return t; }
void exhaustive(Rng& r, u64 idx)
{
	for (auto& s : shapes)
	{
		size_t n = s[0], c = s[1], k = n * c;
		if (idx >= (1ull << k)) { idx -= 1ull << k; continue; }
		std::vector<double> base(k, 0.0);
		for (size_t q = 0; q < k; ++q) if (idx >> q & 1) base[q] = (double)(q + 1);
		auto mk = [&]() { SparseMatrix<double> A(n, c); for (size_t q = 0; q < k; ++q) if (base[q] != 0) A.set(q / c, q % c, base[q]); return A; };
		tr("exhaustive %zux%zu %llx", n, c, (unsigned long long)idx);
		{ auto A = mk(); verify(r, A, base, n, c, "sparse", "exhaustive"); }
		for (size_t q = 0; q < k; ++q)
			for (int e = 0; e < 3 && base[q] != 0; ++e)
			{
				auto A = mk(); auto m = base; m[q] = 0;
				typename SparseMatrix<double>::iterator it = A.begin();
				if (e == 0) while (pos_of(it, n, c) != q) ++it;
				else if (e == 1) { auto b = A.row_begin(q / c); while (b.column() != q % c) ++b; it = b; }
				else { auto b = A.column_begin(q % c); while (b.row() != q / c) ++b; it = b; }
				auto nx = r.chance(0.5) ? A.erase(it) : A.set(it, 0.0);
				if (pos_of(nx, n, c) != next_pos(m, q)) { viol("sparse/exhaustive/next", "removing %zu,%zu returned %zu expected %zu", q / c, q % c, pos_of(nx, n, c), next_pos(m, q)); throw Stop(); }
				content(A, m, "sparse", "exhaustive");
				verify(r, A, m, n, c, "sparse", "exhaustive-erase");
				count("sparse:exhaustive-erase");
			}
		return;
	}
}
// indices, sizes and counts beyond 16 bits
template<class T> void huge_case(Rng& r)
{
	auto H = Huge<T>::make(r, 0.05);
	tr("huge %s %zux%zu, %zu entries", Sc<T>::name(), H.n, H.m, H.e.size());
	auto look = [&](const char* op) { label(op); const char* d = H.differs(r, H.A); if (d) { viol(fmt("sparse/huge/%s", op).c_str(), "%s %zux%zu after %s: %s", Sc<T>::name(), H.n, H.m, op, d); throw Stop(); } count(fmt("huge:%s", op).c_str()); };
	look("walk");
	{ label("write"); long k = 0; for (auto it = H.A.begin(); it != H.A.end(); ++it) *it = (T)(double)(1 + k++ % 90); k = 0; for (auto& q : H.e) q.second = (T)(double)(1 + k++ % 90); look("write"); }
	for (int c = 0; c < 4 && !H.e.empty(); ++c)
	{
		size_t q = r.chance(0.3) ? H.e.size() - 1 : r.below(H.e.size());
		auto x = H.e.begin(); std::advance(x, q);
		const size_t i = x->first.first, j = x->first.second;
		auto it = H.A.begin();
		if (r.chance(0.4)) { for (size_t k = 0; k < q; ++k) ++it; }
		else if (r.chance(0.5)) { auto b = H.A.row_begin(i); while (b != H.A.row_end(i) && b.column() != j) ++b; it = b; }
		else { auto b = H.A.column_begin(j); while (b != H.A.column_end(j) && b.row() != i) ++b; it = b; }
		if (!it.isValid() || it.row() != i || it.column() != j) { viol("sparse/huge/find", "%zux%zu iterator does not reach %zu,%zu", H.n, H.m, i, j); throw Stop(); }
		x = H.e.erase(x);
		auto nx = r.chance(0.5) ? H.A.erase(it) : H.A.set(it, (T)0);
		if (x == H.e.end() ? nx.isValid() : !nx.isValid() || nx.row() != x->first.first || nx.column() != x->first.second) { viol("sparse/huge/next", "%zux%zu erasing %zu,%zu does not return the entry after it", H.n, H.m, i, j); throw Stop(); }
		look("erase");
	}
	distinct(hash2(hash2(H.n, H.m), H.e.size()));
}
// a dense matrix of more than 65536 positions
template<class T> void huge_dense(Rng& r)
{
	size_t n = r.pick({1, 2, 257, 300, 65537, 70000}), m = n < 3 ? (size_t)r.pick({65537, 70000}) : n < 1000 ? (size_t)r.range(256, 300) : (size_t)1;
	DenseMatrix<T> A(n, m); tr("huge dense %zux%zu", n, m);
	auto f = [&](size_t i, size_t j) { return (T)(double)(1 + (i * 31 + j * 17 + (i * m + j) / 65536) % 97); };
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) { if ((i + j) % 2) A.set(i, j, f(i, j)); else A.linear_set(i * m + j, f(i, j)); }
	label("huge-dense"); size_t k = 0;
	for (auto it = A.begin(); it != A.end(); ++it, ++k) if (k >= n * m || it.row() != k / m || it.column() != k % m || !(*it == f(k / m, k % m))) { viol("dense/huge/walk", "%zux%zu entry %zu", n, m, k); throw Stop(); }
	if (k != n * m || A.size() != k || A.rows() != n || A.columns() != m) { viol("dense/huge/count", "%zux%zu: %zu visited", n, m, k); throw Stop(); }
	size_t i = r.chance(0.5) ? n - 1 : r.below(n), j = r.chance(0.5) ? m - 1 : r.below(m); k = 0;
	for (auto it = A.row_begin(i); it != A.row_end(i); ++it, ++k) if (k >= m || it.row() != i || it.column() != k || !(*it == f(i, k))) { viol("dense/huge/row", "%zux%zu row %zu entry %zu", n, m, i, k); throw Stop(); }
	if (k != m) viol("dense/huge/row", "%zux%zu row %zu has %zu entries", n, m, i, k);
	k = 0;
	for (auto it = A.column_begin(j); it != A.column_end(j); ++it, ++k) if (k >= n || it.row() != k || it.column() != j || !(*it == f(k, j))) { viol("dense/huge/column", "%zux%zu column %zu entry %zu", n, m, j, k); throw Stop(); }
	if (k != n) viol("dense/huge/column", "%zux%zu column %zu has %zu entries", n, m, j, k);
	for (int z = 0; z < 20; ++z) { size_t a = r.below(n), b = r.below(m); if (!(A.at(a, b) == f(a, b)) || !(A.linear_at(a * m + b) == f(a, b))) viol("dense/huge/element", "%zux%zu %zu,%zu", n, m, a, b); }
	count("huge:dense"); distinct(hash2(n, m));
}
void vh::run_case(Rng& r, u64 idx)
{
	static const u64 ex = ex_total();
	if (idx < ex) { exhaustive(r, idx); return; }
	if (r.chance(HUGE_CHANCE)) { switch (r.below(4)) { case 0: huge_case<VI>(r); break; case 1: huge_case<VCF >(r); break; case 2: huge_dense<double>(r); break; default: huge_case<double>(r); } return; }
	switch (r.below(12))
	{
	case 0: dynamic_case<SparseMatrix<VF> >(r, "sparse"); break;
	case 1: dynamic_case<SparseMatrix<VI> >(r, "sparse"); break;
	case 2: dynamic_case<SparseMatrix<VCD > >(r, "sparse"); break;
	case 3: dynamic_case<DenseMatrix<double> >(r, "dense"); break;
	case 4: dynamic_case<DenseMatrix<VI> >(r, "dense"); break;
	case 5: dynamic_case<DenseMatrix<VCF > >(r, "dense"); break;
	case 6: fixed_case<double, 3, 4>(r); fixed_case<double, 4, 3>(r); fixed_case<VI, 1, 1>(r); break;
	case 7: fixed_case<VCD, 2, 5>(r); fixed_case<VF, 5, 1>(r); fixed_case<VF, 1, 6>(r); break;
	default: dynamic_case<SparseMatrix<double> >(r, "sparse"); break;
	}
}
#include "vh_main.h"
