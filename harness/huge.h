// Sparse matrices far larger than memory for their dense form, with a few entries.
#pragma once
#include "ref.h"
#include "matrix/SparseMatrix.h"
#include <map>
namespace ref {
using namespace NS;
template<class T> struct Huge
{
	typedef std::pair<size_t, size_t> P;
	size_t n, m; std::map<P, T> e; SparseMatrix<T> A;
	static size_t dim(vh::Rng& r, bool big) { vh::extend(200); return big ? r.pick({65535, 65536, 65537, 70000, 100000}) : r.pick({1, 2, 3, 7, 300, 65536, 80000}); }
	Huge(size_t n_, size_t m_) : n(n_), m(m_), A(n_, m_) {}
	static Huge make(vh::Rng& r, double full = 0.15)
	{
		bool tall = r.chance(0.5); size_t a = dim(r, true), b = dim(r, false);
		if (r.chance(full)) { size_t q = (size_t)r.range(257, 300); Huge h(q, q); h.dense(r); return h; }
		Huge h(tall ? a : b, tall ? b : a); size_t k = (size_t)r.range(0, 25);
		while (k--) h.set(h.position(r), gen_nz<T>(r, SMALLINT));
		return h;
	}
	// more stored entries than 16 bits count
	void dense(vh::Rng& r) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (!r.chance(0.001)) set(P(i, j), (T)(double)(1 + (i * 7 + j * 3) % 50)); }
	// random entries, some of them at the positions of x
	static Huge like(vh::Rng& r, const Huge& x)
	{
		Huge h(x.n, x.m);
		for (auto& q : x.e) if (r.chance(x.e.size() > 1000 ? 0.01 : 0.5)) h.set(q.first, r.chance(0.5) ? q.second : r.chance(0.5) ? -q.second : gen_nz<T>(r, SMALLINT));
		size_t k = (size_t)r.range(0, 15); while (k--) h.set(h.position(r), gen_nz<T>(r, SMALLINT));
		return h;
	}
	// the matrix f gives from the entries
	template<class F> Huge map(size_t n_, size_t m_, F f) const { Huge h(n_, m_); for (auto& q : e) f(h.e, q.first, q.second); for (auto it = h.e.begin(); it != h.e.end();) if (it->second == (T)0) it = h.e.erase(it); else ++it; return h; }
	P position(vh::Rng& r) const
	{
		if (!e.empty() && r.chance(0.3)) { auto it = e.begin(); std::advance(it, r.below(e.size())); return r.chance(0.5) ? it->first : P(it->first.first, r.below(m)); }
		auto one = [&](size_t d) { return r.chance(0.3) ? d - 1 : r.chance(0.2) ? (size_t)0 : r.chance(0.3) ? std::min<size_t>(d - 1, (size_t)r.range(65533, 65538)) : r.below(d); };
		size_t i = one(n), j = one(m); return P(i, j);
	}
	void set(P p, T v) { A.set(p.first, p.second, v); if (v == (T)0) e.erase(p); else e[p] = v; }
	T at(P p) const { auto it = e.find(p); return it == e.end() ? (T)0 : it->second; }
	// nullptr, or what differs
	const char* differs(vh::Rng& r, const SparseMatrix<T>& B) const
	{
		if (B.rows() != n || B.columns() != m || B.size() != n * m) return "shape";
		if (B.filled_count() != e.size() || B.empty() != e.empty()) return "count";
		auto x = e.begin();
		for (auto it = B.begin(); it != B.end(); ++it, ++x) { if (x == e.end()) return "more entries"; if (it.row() != x->first.first || it.column() != x->first.second) return "order"; if (!(*it == x->second)) return "value"; }
		if (x != e.end()) return "fewer entries";
		for (int k = 0; k < 20; ++k)
		{
			P p = position(r); T v = (T)3;
			if (!(B.at(p.first, p.second) == at(p)) || !(B.linear_at(p.first * m + p.second) == at(p))) return "element";
			if (B.has(p.first, p.second) != (e.count(p) != 0) || B.has(p.first, p.second, v) != (e.count(p) != 0) || !(v == at(p))) return "has";
			if (k >= 3) continue;
			size_t rc = 0, cc = 0; for (auto& q : e) { rc += q.first.first == p.first; cc += q.first.second == p.second; }
			if (B.row_filled_count(p.first) != rc) return "row count";
			if (B.column_filled_count(p.second) != cc) return "column count";
			for (auto it = B.row_begin(p.first); it != B.row_end(p.first); ++it) { if (it.row() != p.first || !(*it == at(P(p.first, it.column()))) || !rc--) return "row iteration"; }
			if (rc) return "row iteration ends early";
			for (auto it = B.column_begin(p.second); it != B.column_end(p.second); ++it) { if (it.column() != p.second || !(*it == at(P(it.row(), p.second))) || !cc--) return "column iteration"; }
			if (cc) return "column iteration ends early";
		}
		return nullptr;
	}
};
}
