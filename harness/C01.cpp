// C01: sparse matrix == plain two-dimensional array after every edit
#include "ref.h"
#include "matrix/SparseMatrix.h"
#include "huge.h"
using namespace NS;
using namespace ref;
using namespace vh;
namespace vh { const char* property = "C01"; }

template<class T> struct Model
{
	size_t r, c;
	std::vector<T> v;
	Model(size_t r_, size_t c_) : r(r_), c(c_), v(r_ * c_, (T)0) {}
	T& at(size_t i, size_t j) { return v[i * c + j]; }
	size_t filled() const { size_t n = 0; for (auto& x : v) n += x != (T)0; return n; }
};

template<class T> void check(Rng& r, const SparseMatrix<T>& A, Model<T>& M, const char* op, bool deep)
{
	typedef Sc<T> S;
	std::string k = std::string("sparse/") + op + "/";
	if (A.rows() != M.r || A.columns() != M.c || A.size() != M.r * M.c)
	{
		viol((k + "shape").c_str(), "%s shape %zux%zu size %zu expected %zux%zu", S::name(), A.rows(), A.columns(), A.size(), M.r, M.c);
		throw Stop();
	}
	size_t n = 0;
	std::vector<size_t> rc(M.r, 0), cc(M.c, 0);
	for (size_t i = 0; i < M.r; ++i)
		for (size_t j = 0; j < M.c; ++j)
		{
			T e = M.at(i, j), g = A.at(i, j), l = A.linear_at(i * M.c + j), hv = (T)77;
			bool nz = e != (T)0, h = A.has(i, j), h2 = A.has(i, j, hv);
			if (nz) { ++n; ++rc[i]; ++cc[j]; }
			if (!(g == e) || !(l == e)) { viol((k + "value").c_str(), "%s %zux%zu at(%zu,%zu)=%s linear=%s expected %s", S::name(), M.r, M.c, i, j, str(g).c_str(), str(l).c_str(), str(e).c_str()); throw Stop(); }
			if (h != nz || h2 != nz) { viol((k + "has").c_str(), "%s %zux%zu has(%zu,%zu)=%d/%d value %s", S::name(), M.r, M.c, i, j, h, h2, str(e).c_str()); throw Stop(); }
			if (!(hv == e)) { viol((k + "has-value").c_str(), "%s has(%zu,%zu) returned value %s expected %s", S::name(), i, j, str(hv).c_str(), str(e).c_str()); throw Stop(); }
		}
	count("positions-compared", M.r * M.c);
	if (A.filled_count() != n || A.empty() != (n == 0)) { viol((k + "count").c_str(), "%s filled %zu empty %d, expected %zu", S::name(), A.filled_count(), A.empty(), n); throw Stop(); }
	for (size_t i = 0; i < M.r; ++i) if (A.row_filled_count(i) != rc[i]) { viol((k + "row-count").c_str(), "%s row %zu count %zu expected %zu", S::name(), i, A.row_filled_count(i), rc[i]); throw Stop(); }
	for (size_t i = 0; i < M.c; ++i) if (A.column_filled_count(i) != cc[i]) { viol((k + "column-count").c_str(), "%s column %zu count %zu expected %zu", S::name(), i, A.column_filled_count(i), cc[i]); throw Stop(); }
	if (deep)
	{
		// the same content built in another order is equal, and any single difference is not
		SparseMatrix<T> B(M.r, M.c, r.below(2) * 3);
		std::vector<size_t> o(M.r * M.c);
		for (size_t i = 0; i < o.size(); ++i) o[i] = i;
		r.shuffle(o);
		for (size_t q : o) { if (r.chance(0.1)) { B.linear_set(q, (T)5); if (r.chance(0.5)) B.linear_set(q, (T)0); } B.set(q / M.c, q % M.c, M.v[q]); }
		if (!(A == B) || A != B || !(B == A) || B != A) { viol((k + "equal").c_str(), "%s same content compares unequal", S::name()); throw Stop(); }
		size_t q = r.below(o.size());
		T old = M.v[q], nw = old != (T)0 && r.chance(0.5) ? (T)0 : (T)(old + (T)1 == old ? old + old : old + (T)1);
		B.linear_set(q, nw);
		if (A == B || !(A != B) || B == A) { viol((k + "unequal").c_str(), "%s different content at %zu compares equal (%s vs %s)", S::name(), q, str(old).c_str(), str(nw).c_str()); throw Stop(); }
		if (M.r != M.c)
		{
			SparseMatrix<T> C(M.c, M.r);
			if (A == C || !(A != C)) { viol((k + "shape-equal").c_str(), "%s different shapes compare equal", S::name()); throw Stop(); }
		}
		else
		{
			SparseMatrix<T> C(M.r + 1, M.c); for (size_t z = 0; z < M.v.size(); ++z) C.set(z / M.c, z % M.c, M.v[z]);
			if (A == C || C == A) { viol((k + "shape-equal").c_str(), "%s different shapes compare equal", S::name()); throw Stop(); }
		}
		count("equality-checks");
	}
	u64 h = hash2(M.r, M.c);
	distinct(hash_vals(M.v, hash2(h, hash_bytes(S::name(), 3))));
}

template<class T> typename SparseMatrix<T>::iterator nth(SparseMatrix<T>& A, size_t n)
{
	auto it = A.begin();
	while (n--) ++it;
	return it;
}

template<class T> void history(Rng& r)
{
	typedef Sc<T> S;
	Scaled<T> scaled(r);
	const Kind kind = (Kind)r.below(KINDS);
	size_t n = gen_dim(r, thorough ? 14 : 9), m = gen_dim(r, thorough ? 14 : 9);
	SparseMatrix<T> A(n, m, r.below(2) * 4);
	Model<T> M(n, m);
	SparseMatrix<T> B(gen_dim(r, 6), gen_dim(r, 6));
	Model<T> N(B.rows(), B.columns());
	tr("%s %zux%zu second %zux%zu", S::name(), n, m, N.r, N.c);
	// second matrix with some content
	for (size_t i = 0; i < N.v.size(); ++i) if (r.chance(0.4)) { T v = gen_nz<T>(r, kind); B.linear_set(i, v); N.v[i] = v; }
	check(r, B, N, "init", true);
	size_t ops = (size_t)r.range(5, thorough ? 120 : 60);
	auto too_big = [&](Model<T>& x) { for (auto& v : x.v) if (S::integer ? abs_(S::big(v)) > 1e4L : (abs_(S::big(v)) > 1e12L)) return true; return false; };
	double pset = r.uni(0.1, 0.7);
	for (size_t o = 0; o < ops; ++o)
	{
		const char* name = "?";
		n = M.r; m = M.c;
		size_t i = r.below(n), j = r.below(m);
		// prefers borders: first/last row and column, where offsets matter
		if (r.chance(0.3)) i = r.chance(0.5) ? 0 : n - 1;
		if (r.chance(0.3)) j = r.chance(0.5) ? 0 : m - 1;
		size_t filled = M.filled();
		long op = r.chance(pset) ? (long)r.below(3) : r.range(3, 23);
		if (op >= 12 && too_big(M)) op = 9;
		switch (op)
		{
		case 0: case 1: { name = "set"; label(name); T v = gen_nz<T>(r, kind); tr("set %zu %zu %s", i, j, str(v).c_str()); A.set(i, j, v); M.at(i, j) = v; break; }
		case 2: { name = "linear_set"; label(name); T v = r.chance(0.3) ? (T)0 : gen_nz<T>(r, kind); tr("lset %zu %s", i * m + j, str(v).c_str()); A.linear_set(i * m + j, v); M.at(i, j) = v; break; }
		case 3: case 4: { name = "set-zero"; label(name); tr("set0 %zu %zu", i, j); A.set(i, j, r.chance(0.5) ? (T)0 : -(T)0); M.at(i, j) = (T)0; break; }
		case 5: case 6:
		{
			name = "erase-iterator"; label(name);
			if (!filled) { auto it = A.erase(A.end()); if (it != A.end()) viol("sparse/erase-end", "erase(end) is not end"); break; }
			auto it = nth(A, r.below(filled));
			tr("erase @%zu,%zu", it.row(), it.column());
			M.at(it.row(), it.column()) = (T)0;
			A.erase(it);
			break;
		}
		case 7:
		{
			name = "set-iterator"; label(name);
			T v = r.chance(0.3) ? (T)0 : gen_nz<T>(r, kind);
			if (!filled) { A.set(A.end(), v); break; }
			auto it = nth(A, r.below(filled));
			tr("setit @%zu,%zu %s", it.row(), it.column(), str(v).c_str());
			M.at(it.row(), it.column()) = v;
			A.set(it, v);
			break;
		}
		case 8:
		{
			name = "write-through"; label(name);
			if (!filled) break;
			int w = (int)r.below(3);
			T v = gen_nz<T>(r, kind);
			if (w == 0) { auto it = nth(A, r.below(filled)); tr("*it @%zu,%zu=%s", it.row(), it.column(), str(v).c_str()); M.at(it.row(), it.column()) = v; *it = v; }
			else if (w == 1) { auto it = A.row_begin(i); auto e = A.row_end(i); size_t g = 0; while (it != e && ++g <= m) { tr("*rit @%zu,%zu", it.row(), it.column()); M.at(it.row(), it.column()) = v; *it = v; ++it; if (r.chance(0.4)) break; } }
			else { auto it = A.column_begin(j); auto e = A.column_end(j); size_t g = 0; while (it != e && ++g <= n) { tr("*cit @%zu,%zu", it.row(), it.column()); M.at(it.row(), it.column()) = v; *it = v; ++it; if (r.chance(0.4)) break; } }
			break;
		}
		case 9: { name = "scale"; label(name); T f = r.chance(0.15) ? (T)0 : S::integer ? (T)r.pick({-1, 1}) : S::make(r.pick({-1.0, 0.5, 0.25, 1.0, 0.75}), 0); tr("*= %s", str(f).c_str()); A *= f; for (auto& x : M.v) x *= f; break; }
		case 10: { name = "clear-row"; label(name); tr("clrow %zu", i); for (size_t q = 0; q < m; ++q) { A.set(i, q, (T)0); M.at(i, q) = (T)0; } break; }
		case 11: { name = "clear-column"; label(name); tr("clcol %zu", j); for (size_t q = 0; q < n; ++q) { A.set(q, j, (T)0); M.at(q, j) = (T)0; } break; }
		case 12: { name = "fill-row"; label(name); tr("fillrow %zu", i); bool rev = r.chance(0.5); for (size_t q = 0; q < m; ++q) { size_t z = rev ? m - 1 - q : q; T v = gen_nz<T>(r, kind); A.set(i, z, v); M.at(i, z) = v; } break; }
		case 13: case 14: case 15:
		{
			auto C = gen_matrix<SparseMatrix<T> >(r, n, m, kind);
			auto c = raw(C);
			bool cancel = r.chance(0.4);// some entries cancel exactly
			if (cancel) for (size_t q = 0; q < c.size(); ++q) if (r.chance(0.5)) { c[q] = op == 13 ? (T)-M.v[q] : M.v[q]; C.linear_set(q, c[q]); }
			bool form = r.chance(0.4);
			if (op == 13) { name = "add"; label(name); tr("+="); if (form) A = A + C; else A += C; for (size_t q = 0; q < c.size(); ++q) M.v[q] = M.v[q] + c[q]; }
			else if (op == 14) { name = "sub"; label(name); tr("-="); if (form) A = A - C; else A -= C; for (size_t q = 0; q < c.size(); ++q) M.v[q] = M.v[q] - c[q]; }
			else { name = "elementwise-mul"; label(name); tr(".*="); if (form) A = A * C; else A *= C; for (size_t q = 0; q < c.size(); ++q) M.v[q] = M.v[q] * c[q]; }
			if (!same_bits(raw(C), c)) viol((std::string("sparse/") + name + "/operand").c_str(), "right operand changed");
			break;
		}
		case 16: { name = "self-add"; label(name); tr("A+=A"); A += A; for (auto& x : M.v) x = x + x; break; }
		case 17: { name = "self-sub"; label(name); tr("A-=A"); if (r.chance(0.4)) { A -= A; for (auto& x : M.v) x = (T)0; } break; }
		case 18: { name = "self-mul"; label(name); tr("A*=A"); if (r.chance(0.5)) { A *= A; for (auto& x : M.v) x = x * x; } break; }
		case 19: { name = "copy"; label(name); tr("copy"); SparseMatrix<T> C(A); Model<T> cm = M; C.set(i, j, (T)3); cm.at(i, j) = (T)3; check(r, A, M, "copy-source", false); check(r, C, cm, "copy", false); if (r.chance(0.5)) { A = C; M = cm; } SparseMatrix<T>& ref_ = A; A = ref_; break; }
		case 20: { name = "swap"; label(name); tr("swap"); if (r.chance(0.5)) A.swap(B); else B.swap(A); std::swap(M, N); break; }
		case 21: { name = "assign-other"; label(name); tr("assign"); if (r.chance(0.5)) { A = B; M = N; } else { SparseMatrix<T> C(B); A = std::move(C); M = N; } break; }
		case 22: { name = "transpose"; label(name); tr("transpose"); A = A.transpose(); Model<T> t(M.c, M.r); for (size_t a = 0; a < M.r; ++a) for (size_t b = 0; b < M.c; ++b) t.at(b, a) = M.at(a, b); M = t; break; }
		default:
		{
			name = "underflow-scale"; label(name);
			if (S::integer) break;
			T f = S::make(std::is_same<typename S::R, float>::value ? 1e-30 : 1e-200, 0);
			tr("*= %s", str(f).c_str());
			if (r.chance(0.5)) { A *= f; for (auto& x : M.v) x *= f; }
			else { A = A * f; for (auto& x : M.v) x = x * f; }
			break;
		}
		}
		count((std::string("op:") + name).c_str());
		check(r, A, M, name, r.chance(0.2));
		if (r.chance(0.1)) check(r, B, N, "bystander", false);
	}
	sample(fmt("%s ", S::name()) + std::string(sh->trace, std::min<u64>(sh->trace_len, 700)));
}

// every pattern of every small shape x every single edit at every position
static const int shapes[][2] = {{1,1},{1,2},{2,1},{2,2},{1,3},{3,1},{2,3},{3,2},{1,4},{4,1},{3,3},{2,4},{4,2}};
static u64 exhaustive_total() { u64 t = 0; for (auto& s : shapes) t += 1ull << (s[0] * s[1]); return t; }
void exhaustive(Rng& r, u64 idx)
{
	typedef double T;
	for (auto& s : shapes)
	{
		size_t n = s[0], m = s[1], k = n * m;
		if (idx >= (1ull << k)) { idx -= 1ull << k; continue; }
		Model<T> base(n, m);
		for (size_t q = 0; q < k; ++q) if (idx >> q & 1) base.v[q] = (T)(q + 1);
		std::vector<size_t> o(k);
		for (size_t q = 0; q < k; ++q) o[q] = q;
		tr("exhaustive %zux%zu pattern %llx", n, m, (unsigned long long)idx);
		for (size_t q = 0; q < k; ++q)
			for (int e = 0; e < 4; ++e)
			{
				SparseMatrix<T> A(n, m);
				r.shuffle(o);
				for (size_t z : o) if (base.v[z] != 0) A.set(z / m, z % m, base.v[z]);
				Model<T> M = base;
				tr("edit %d at %zu", e, q);
				if (e == 0) { A.set(q / m, q % m, 50); M.v[q] = 50; }
				else if (e == 1) { A.set(q / m, q % m, 0); M.v[q] = 0; }
				else
				{
					if (M.v[q] == 0) continue;
					auto it = A.begin();
					size_t g = 0;
					while (it != A.end() && !(it.row() == q / m && it.column() == q % m) && ++g <= k) ++it;
					if (e == 2) { A.erase(it); M.v[q] = 0; }
					else { A.set(it, 60); M.v[q] = 60; }
				}
				check(r, A, M, "exhaustive", false);
				count("op:exhaustive-single-edit");
			}
		return;
	}
}

// indices and counts beyond 16 bits
template<class T> void huge_history(Rng& r)
{
	auto H = Huge<T>::make(r); auto K = Huge<T>::make(r);
	tr("huge %s %zux%zu, %zu entries", Sc<T>::name(), H.n, H.m, H.e.size());
	auto look = [&](const char* op) { label(op); const char* d = H.differs(r, H.A); if (!d) d = K.differs(r, K.A); if (d) { viol(fmt("sparse/huge/%s", op).c_str(), "%s %zux%zu after %s: %s", Sc<T>::name(), H.n, H.m, op, d); throw Stop(); } count(fmt("huge:%s", op).c_str()); };
	look("init");
	size_t ops = (size_t)r.range(3, 20);
	while (ops--)
	{
		auto p = H.position(r); T v = r.chance(0.3) ? (T)0 : gen_nz<T>(r, SMALLINT);
		tr("%zu,%zu=%s", p.first, p.second, str(v).c_str());
		switch (r.below(8))
		{
		case 0: case 1: H.set(p, v); look("set"); break;
		case 2: label("linear_set"); H.A.linear_set(p.first * H.m + p.second, v); if (v == (T)0) H.e.erase(p); else H.e[p] = v; look("linear_set"); break;
		case 3: case 4:
		{
			if (H.e.empty()) break;
			size_t q = r.below(H.e.size()); if (r.chance(0.3)) q = H.e.size() - 1;
			auto x = H.e.begin(); std::advance(x, q); auto it = nth(H.A, q);
			label("erase"); if (r.chance(0.5) || v == (T)0) { if (r.chance(0.5)) H.A.erase(it); else H.A.set(it, (T)0); H.e.erase(x); } else { H.A.set(it, v); x->second = v; }
			look("iterator-edit"); break;
		}
		case 5: { label("copy"); SparseMatrix<T> C(H.A); if (!(C == H.A) || C != H.A) { viol("sparse/huge/equal", "a copy differs"); throw Stop(); } T o = H.at(p) == v ? v + (T)1 : v; C.set(p.first, p.second, o); if (C == H.A || !(C != H.A)) { viol("sparse/huge/unequal", "differs at %zu,%zu and compares equal", p.first, p.second); throw Stop(); } C.set(p.first, p.second, H.at(p)); H.A = C; look("copy"); break; }
		case 6: { label("swap"); H.A.swap(K.A); std::swap(H.n, K.n); std::swap(H.m, K.m); H.e.swap(K.e); look("swap"); break; }
		default: { label("scale"); H.A *= (T)2; bool big = false; for (auto& x : H.e) { x.second *= (T)2; big |= abs_(Sc<T>::big(x.second)) > 1e5L; } look("scale"); if (big) return; break; }
		}
	}
	distinct(hash2(hash2(H.n, H.m), H.e.size()));
}
void vh::run_case(Rng& r, u64 idx)
{
	static const u64 ex = exhaustive_total();
	if (idx < ex) { exhaustive(r, idx); return; }
	if (r.chance(HUGE_CHANCE)) { switch (r.below(3)) { case 0: huge_history<VI>(r); break; case 1: huge_history<VCF >(r); break; default: huge_history<double>(r); } return; }
	switch (r.below(12))
	{
	case 0: history<VF>(r); break;
	case 1: case 2: history<VI>(r); break;
	case 3: case 4: history<VCD >(r); break;
	case 5: history<VCF >(r); break;
	case 6: history<VLD>(r); break;
	default: history<double>(r); break;
	}
}
#include "vh_main.h"
