// C27: the stream operators; every printed text is parsed back and compared with the content.
#include "ref.h"
#include <sstream>
#include <iomanip>
#include "OutputStream.h"
using namespace NS; using namespace vh; using namespace ref;
namespace vh { const char* property = "C27"; }
namespace {
#define BAD(...) do { viol(__VA_ARGS__); throw Stop(); } while (0)
std::vector<std::string> split(const std::string& s) { std::vector<std::string> r; std::istringstream in(s); std::string w; while (in >> w) r.push_back(w); return r; }

// stream settings used by the library under test and by the oracle for single scalars
struct Fmt { int precision; int style; void operator()(std::ostream& o) const { o << std::setprecision(precision); if (style == 1) o << std::scientific; if (style == 2) o << std::showpos; if (style == 3) o << std::fixed; } };
template<class T> std::string scalar(const T& v, const Fmt& f) { std::ostringstream o; f(o); o << v; return o.str(); }
template<class T> bool readback(const std::string& s, T& v) { std::istringstream in(s); in >> v; return !in.fail() && in.peek() == EOF; }

template<class T> void entry(const std::string& w, const T& v, const Fmt& f, const char* key, size_t i, size_t j)
{
	std::string want = scalar(v, f);
	if (w != want) BAD(key, "entry (%zu, %zu) is printed as '%s' instead of '%s'", i, j, w.c_str(), want.c_str());
	if (f.style != 3 && f.precision >= 17)// printed precisely enough to be read back
	{
		T x; if (!readback(w, x) || !(x == v)) BAD(key, "entry (%zu, %zu) cannot be read back from '%s'", i, j, w.c_str());
		count("read-back");
	}
}
// prints the object among other output, returns the text between the markers
template<class O> std::string print(const O& o, const Fmt& f, const char* key, Rng& r)
{
	std::ostringstream s; f(s);
	std::ostream* ret;
	bool twice = r.chance(0.2);
	s << "<<"; ret = &(s << o); *ret << ">>"; if (twice) s << o << "!";
	if (ret != &s) BAD(key, "another stream is returned");
	std::string t = s.str();
	size_t e = t.find(">>");
	if (t.compare(0, 2, "<<") != 0 || e == std::string::npos) BAD(key, "text around the object is lost: %.200s", t.c_str());
	std::string x = t.substr(2, e - 2);
	if (twice && t != "<<" + x + ">>" + x + "!") BAD(key, "printed again the text differs");
	if (!s.good() || s.precision() != f.precision) BAD(key, "stream state changed");
	return x;
}
void brackets(std::vector<std::string>& t, const std::string& text, const char* key)
{
	if (text.size() < 3 || text.compare(0, 2, "[ ") != 0 || text[text.size() - 1] != ']') BAD(key, "not bracketed: %.200s", text.c_str());
	t = split(text); if (t.size() < 2 || t[0] != "[" || t[t.size() - 1] != "]") BAD(key, "not bracketed: %.200s", text.c_str());
	t.erase(t.begin()); t.pop_back();
}
template<class T, class V> void vec(Rng& r, const V& v, const Fmt& f, const char* key)
{
	label(key); V before(v);
	std::string text = print(v, f, key, r); std::vector<std::string> t; brackets(t, text, key);
	if (t.size() != v.size()) BAD(key, "%zu entries are printed for %zu: %.200s", t.size(), (size_t)v.size(), text.c_str());
	for (Index i = 0; i < v.size(); ++i) { entry(t[i], (T)v.at(i), f, key, i, 0); if (!(v.at(i) == before.at(i)))  BAD(key, "entry %zu changed", (size_t)i); }
	count(key); distinct(hash_bytes(text.data(), text.size()));
}
template<class T, class M> void full(Rng& r, const M& m, const Fmt& f, const char* key)
{
	label(key); M before(m);
	std::string text = print(m, f, key, r); std::vector<std::string> t; brackets(t, text, key);
	size_t p = 0; const size_t R = m.rows(), C = m.columns();
	for (size_t i = 0; i < R; ++i)
	{
		if (i) { if (p >= t.size() || t[p] != "|") BAD(key, "row %zu is not separated: %.300s", i, text.c_str()); ++p; }
		for (size_t j = 0; j < C; ++j) { if (p >= t.size()) BAD(key, "text ends early: %.300s", text.c_str()); entry(t[p++], (T)m.at(i, j), f, key, i, j); }
	}
	if (p != t.size()) BAD(key, "more than all entries are printed: %.300s", text.c_str());
	for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!(m.at(i, j) == before.at(i, j)))  BAD(key, "entry (%zu, %zu) changed", i, j);
	count(key); if (R == 1) count("one-row"); distinct(hash_bytes(text.data(), text.size()));
}
template<class T> void sparse(Rng& r, const Fmt& f, Kind kind)
{
	const char* key = "sparse"; label(key);
	size_t R = 1 + r.below(7), C = 1 + r.below(7);
	// positions of several digits
	const bool wide = r.chance(0.05); if (wide) { R = 1 + r.below(200); C = 1 + r.below(2000); if (r.chance(0.02)) { R = 65000 + r.below(40000); C = 70000 + r.below(9000000); } if (r.chance(0.5)) std::swap(R, C); if (R > 200000) std::swap(R, C); count("sparse:wide"); }
	SparseMatrix<T> m(R, C); std::map<std::pair<size_t, size_t>, T> ref;
	size_t n = wide ? 1 + r.below(30) : r.chance(0.2) ? 0 : r.chance(0.2) ? R * C * 2 : r.below(R * C + 1);
	for (size_t k = 0; k < n; ++k)
	{
		size_t i = r.below(R), j = r.below(C); T v = r.chance(0.15) ? (T)0 : gen<T>(r, kind);
		m.set(i, j, v); if (v == (T)0) ref.erase({i, j}); else ref[{i, j}] = v;
	}
	if (r.chance(0.15) && !ref.empty()) { size_t k = r.below(ref.size()); auto q = ref.begin(); std::advance(q, k); auto it = m.begin(); for (size_t s = 0; s < k; ++s) ++it; *it = (T)0; q->second = (T)0; count("stored-zero"); }
	SparseMatrix<T> before(m);
	std::string text = print(m, f, key, r);
	// "[ (r, c; v) (r, c; v) ]"
	size_t p = 0; auto expect = [&](const char* s) { size_t l = strlen(s); if (text.compare(p, l, s) != 0) BAD(key, "'%s' expected at %zu: %.300s", s, p, text.c_str()); p += l; };
	expect("[ "); auto it = ref.begin();
	while (p < text.size() && text[p] == '(')
	{
		char* e; size_t i = strtoul(text.c_str() + p + 1, &e, 10); p = e - text.c_str(); expect(", ");
		size_t j = strtoul(text.c_str() + p, &e, 10); p = e - text.c_str(); expect("; ");
		size_t q = text.find(") ", p); if (q == std::string::npos) BAD(key, "entry not closed: %.300s", text.c_str());
		std::string w = text.substr(p, q - p); p = q; expect(") ");
		if (it == ref.end()) BAD(key, "(%zu, %zu) is printed but not stored", i, j);
		if (it->first != std::make_pair(i, j)) BAD(key, "(%zu, %zu) is printed instead of (%zu, %zu): %.300s", i, j, it->first.first, it->first.second, text.c_str());
		entry(w, it->second, f, key, i, j); ++it;
	}
	expect("]"); if (p != text.size()) BAD(key, "text behind the end: %.300s", text.c_str());
	if (it != ref.end()) BAD(key, "(%zu, %zu) is stored but not printed", it->first.first, it->first.second);
	if (!(m == before) || m.filled_count() != ref.size()) BAD(key, "matrix changed by printing");
	count(ref.empty() ? "sparse:empty" : ref.size() == R * C ? "sparse:full" : "sparse"); distinct(hash_bytes(text.data(), text.size()));
}
template<class T, size_t R, size_t C> void fixed(Rng& r, const Fmt& f, Kind kind)
{
	FixedMatrix<T, R, C> m; for (Index i = 0; i < R; ++i) for (Index j = 0; j < C; ++j) m.set(i, j, r.chance(0.2) ? (T)0 : gen<T>(r, kind));
	full<T>(r, m, f, "fixed matrix");
}
template<class T, size_t N> void fvec(Rng& r, const Fmt& f, Kind kind)
{
	FixedVector<T, N> v; for (Index i = 0; i < N; ++i) v.set(i, gen<T>(r, kind));
	vec<T>(r, v, f, "fixed vector");
}
template<class T> void go(Rng& r, bool integral)
{
	Fmt f; f.precision = r.chance(0.4) ? 6 : r.chance(0.7) ? 17 : (int)r.range(1, 20); f.style = r.chance(0.6) ? 0 : (int)r.below(4);
	Kind kind = integral ? SMALLINT : r.pick({SMALLINT, DYADIC, NORMAL});
	tr("precision %d style %d kind %d", f.precision, f.style, (int)kind);
	switch (r.below(7))
	{
	case 0: { size_t n = r.chance(0.1) ? 0 : r.chance(0.02) ? r.below(300) : r.below(12); DynamicVector<T> v(n); for (Index i = 0; i < n; ++i) v.set(i, gen<T>(r, kind)); vec<T>(r, v, f, "vector"); if (n == 0) count("empty vector"); break; }
	case 1: switch (r.below(4)) { case 0: fvec<T, 1>(r, f, kind); break; case 1: fvec<T, 2>(r, f, kind); break; case 2: fvec<T, 3>(r, f, kind); break; default: fvec<T, 7>(r, f, kind); } break;
	case 2: case 3: { size_t R = 1 + r.below(r.chance(0.03) ? 40 : 6), C = 1 + r.below(r.chance(0.03) ? 40 : 6); DenseMatrix<T> m(R, C); for (Index i = 0; i < R; ++i) for (Index j = 0; j < C; ++j) m.set(i, j, r.chance(0.2) ? (T)0 : gen<T>(r, kind)); full<T>(r, m, f, "dense matrix"); break; }
	case 4: switch (r.below(5)) { case 0: fixed<T, 1, 1>(r, f, kind); break; case 1: fixed<T, 2, 3>(r, f, kind); break; case 2: fixed<T, 3, 1>(r, f, kind); break; case 3: fixed<T, 1, 4>(r, f, kind); break; default: fixed<T, 4, 4>(r, f, kind); } break;
	default: { Fmt g = f; if (g.style == 2) g.style = 0; sparse<T>(r, g, kind); }
	}
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(6))
	{
	case 0: case 1: go<double>(r, false); break; case 2: go<VF>(r, false); break; case 3: go<VCD >(r, false); break;
	case 4: go<VCF >(r, false); break;
	default: { Fmt f = {6, 0}; size_t n = r.below(9); DynamicVector<VI> v(n); for (Index i = 0; i < n; ++i) v.set(i, (int)r.range(-1000000, 1000000)); vec<VI>(r, v, f, "int vector"); if (!n) count("empty vector"); break; }
	}
}
#include "vh_main.h"
