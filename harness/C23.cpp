// C23: Triangle-format loader against an independent strict parser
#include "trimesh.h"
#include "ref.h"
#include "loader/MeshTriangleLoader.h"
#include <sys/stat.h>
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)
namespace vh { const char* property = "C23"; }
namespace {
typedef std::string S;
// ---- independent parser. MAYBE: not specified, both outcomes are fine (but a loaded mesh must agree if it can be read)
enum Verdict { VALID, MALFORMED, MAYBE };
template<class T> struct Model { Verdict v = VALID; bool zero = false; std::vector<std::array<T, 2> > p; std::vector<std::array<size_t, 3> > t; const char* why = ""; };
bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
std::vector<std::vector<S> > rows(const S& s)
{
	std::vector<std::vector<S> > R; size_t i = 0;
	while (i < s.size())
	{
		size_t e = s.find('\n', i); if (e == S::npos) e = s.size();
		S l = s.substr(i, e - i); i = e + 1;
		size_t h = l.find('#'); if (h != S::npos) l.resize(h);
		std::vector<S> t; size_t k = 0;
		while (k < l.size()) { while (k < l.size() && ws(l[k])) ++k; size_t b = k; while (k < l.size() && !ws(l[k])) ++k; if (k > b) t.push_back(l.substr(b, k - b)); }
		if (!t.empty()) R.push_back(t);
	}
	return R;
}
bool digits(const S& s, size_t b, size_t e) { if (b >= e) return false; for (size_t i = b; i < e; ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }
// natural number; false if malformed; maybe is set for values which only wrap-around arithmetic could accept
bool natural(const S& s, uint64_t& v, bool& maybe)
{
	size_t b = 0; bool neg = false; if (!s.empty() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; b = 1; }
	if (!digits(s, b, s.size())) return false;
	v = 0; bool big = false; for (size_t i = b; i < s.size(); ++i) { if (v > (UINT64_MAX - 9) / 10) big = true; v = v * 10 + (s[i] - '0'); }
	if (neg && (v != 0 || big)) { if (s.size() > 12) maybe = true; v = UINT64_MAX; return false; }
	if (big) { v = UINT64_MAX; return false; }
	return true;
}
template<class T> bool real(const S& s, T& v, bool& maybe)
{
	size_t b = 0; if (!s.empty() && (s[0] == '+' || s[0] == '-')) b = 1;
	size_t i = b, n = 0; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++n; }
	if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) { ++i; ++n; } }
	if (!n) return false;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (!digits(s, i, s.size())) return false; i = s.size(); }
	if (i != s.size()) return false;
	long double q = strtold(s.c_str(), nullptr);
	v = sizeof(T) == 4 ? (T)strtof(s.c_str(), nullptr) : (T)strtod(s.c_str(), nullptr);
	ld a = std::fabs(q);
	if (a > (ld)std::numeric_limits<T>::max()) { if (a < 1.01L * (ld)std::numeric_limits<T>::max()) maybe = true; return false; }
	if (a != 0 && a < (ld)std::numeric_limits<T>::min()) maybe = true;
	if (q == 0 && s.find_first_of("123456789") != S::npos && s.find_first_of("123456789") < s.find_first_of("eE")) maybe = true;
	return true;
}
template<class T> Model<T> parse(const S& node, const S& ele)
{
	Model<T> m; bool maybe = false; bool odd = false;
	auto fail = [&](const char* w) { m.v = maybe ? MAYBE : MALFORMED; m.why = w; return m; };
	auto extras = [&](const std::vector<S>& t, size_t from) { for (size_t i = from; i < t.size(); ++i) { double d; bool z = false; if (!real<double>(t[i], d, z)) odd = true; } };
	auto R = rows(node); uint64_t n = 0, d = 0;
	if (R.empty()) return fail("no node header");
	if (!natural(R[0][0], n, maybe) || n == 0) return fail("node count");
	if (R[0].size() < 2 || !natural(R[0][1], d, maybe) || d != 2) return fail("dimension");
	extras(R[0], 2);
	for (size_t i = 1; i < R.size(); ++i)
	{
		uint64_t x; if (!natural(R[i][0], x, maybe)) return fail("node number");
		if (i == 1) { if (x > 1) return fail("first node number"); m.zero = x == 0; }
		if (x != i - (m.zero ? 1 : 0)) return fail("node number");
		if (i > n) return fail("too many nodes");
		std::array<T, 2> c; for (int k = 0; k < 2; ++k) if (R[i].size() < 2u + k || !real<T>(R[i][1 + k], c[k], maybe)) return fail("coordinate");
		extras(R[i], 3); m.p.push_back(c);
	}
	if (m.p.size() != n) return fail("too few nodes");
	R = rows(ele);
	if (R.empty()) return fail("no element header");
	if (!natural(R[0][0], n, maybe) || n == 0) return fail("element count");
	if (R[0].size() < 2 || !natural(R[0][1], d, maybe) || d != 3) return fail("corners");
	extras(R[0], 2);
	for (size_t i = 1; i < R.size(); ++i)
	{
		uint64_t x; if (!natural(R[i][0], x, maybe)) return fail("element number");
		if (x != i - (m.zero ? 1 : 0)) return fail("element number");
		if (i > n) return fail("too many elements");
		std::array<size_t, 3> c; for (int k = 0; k < 3; ++k)
		{
			if (R[i].size() < 2u + k || !natural(R[i][1 + k], x, maybe)) return fail("corner");
			if (x < (m.zero ? 0 : 1) || x - (m.zero ? 0 : 1) >= m.p.size()) return fail("corner beyond the nodes");
			c[k] = x - (m.zero ? 0 : 1);
		}
		if (c[0] == c[1] || c[1] == c[2] || c[0] == c[2]) return fail("repeated corner");
		extras(R[i], 4); m.t.push_back(c);
	}
	if (m.t.size() != n) return fail("too few elements");
	std::map<std::set<size_t>, int> same; std::map<std::pair<size_t, size_t>, int> face;
	for (auto& c : m.t)
	{
		if (++same[{c[0], c[1], c[2]}] > 1) { maybe = true; m.why = "element twice"; }
		for (int k = 0; k < 3; ++k) ++face[mk(c[(k + 1) % 3], c[(k + 2) % 3])];
	}
	for (auto& f : face) if (f.second > 2) { if (m.why[0]) maybe = true; return fail("overfull face"); }
	if (maybe || odd) m.v = MAYBE;
	return m;
}
template<class T> bool equal(const Mesh<T, 2>& M, const Model<T>& m, S& why)
{
	auto no = [&](const S& w) { why = w; return false; };
	if (M.vertices().size() != m.p.size()) return no(fmt("%zu vertices instead of %zu", M.vertices().size(), m.p.size()));
	if (M.elements().size() != m.t.size()) return no(fmt("%zu elements instead of %zu", M.elements().size(), m.t.size()));
	std::vector<std::vector<size_t> > uses(m.p.size()); for (size_t e = 0; e < m.t.size(); ++e) for (auto c : m.t[e]) uses[c].push_back(e);
	for (size_t i = 0; i < m.p.size(); ++i)
	{
		auto v = M.vertex(i); if (!v || v->GlobalIndex != i) return no(fmt("number of vertex %zu", i));
		for (int k = 0; k < 2; ++k) if (!(v->Vertex[k] == m.p[i][k])) return no(fmt("coordinate %d of vertex %zu is %.17g instead of %.17g", k, i, (double)v->Vertex[k], (double)m.p[i][k]));
		std::multiset<const void*> have(v->Elements.begin(), v->Elements.end()), want;
		for (size_t e : uses[i]) want.insert(M.element(e));
		if (have != want) return no(fmt("elements of vertex %zu", i));
	}
	std::map<Edge, std::vector<std::pair<size_t, int> > > F;
	for (size_t e = 0; e < m.t.size(); ++e) for (int k = 0; k < 3; ++k)
	{
		auto q = M.element(e);
		if (q->Vertices[k] != M.vertex(m.t[e][k])) return no(fmt("corner %d of element %zu", k, e));
		for (int c = 0; c < 2; ++c) if (!(q->Element[k][c] == m.p[m.t[e][k]][c])) return no(fmt("coordinates of element %zu", e));
		F[mk(m.t[e][(k + 1) % 3], m.t[e][(k + 2) % 3])].push_back({e, k});
	}
	if (M.edges().size() != F.size()) return no(fmt("%zu faces instead of %zu", M.edges().size(), F.size()));
	for (auto& f : F)
	{
		auto g = M.element(f.second[0].first)->Neighbors[f.second[0].second];
		if (!g || !g->Vertices[0] || !g->Vertices[1] || mk(g->Vertices[0]->GlobalIndex, g->Vertices[1]->GlobalIndex) != f.first) return no("face");
		std::multiset<const void*> have, want; for (auto p : g->Elements) if (p) have.insert(p);
		for (auto& p : f.second) { want.insert(M.element(p.first)); if (M.element(p.first)->Neighbors[p.second] != g) return no("neighbour"); }
		if (have != want) return no("elements of a face");
	}
	return true;
}
// ---- generation
S number(Rng& r, double v, bool exact)
{
	switch (r.below(exact ? 3 : 6))
	{
	case 0: return fmt("%.17g", v);
	case 1: return fmt("%.16e", v);
	case 2: { S s = fmt("%.20g", v); return v >= 0 && r.chance(0.5) ? "+" + s : s; }
	case 3: { S s = fmt("%.3f", v); if (s.compare(0, 2, "0.") == 0) s = s.substr(1); return s; }
	case 4: return fmt("%d.", (int)v);
	default: return fmt("%.4E", v);
	}
}
struct Gen
{
	Rng& r; S eol; int sp; double junk;
	Gen(Rng& r_) : r(r_), eol(r.chance(0.25) ? "\r\n" : "\n"), sp((int)r.below(3)), junk(r.pick({0.0, 0.0, 0.3})) {}
	S gap() { switch (sp) { case 0: return " "; case 1: return S(r.range(1, 4), ' '); default: { S s; for (size_t i = 0, n = r.range(1, 3); i < n; ++i) s += r.pick({' ', '\t', '\v', '\f'}); return s; } } }
	S comment() { return S("#") + r.pick({"", " generated", " 1 2 3", "# 4 5", " \"x\" \x80\xff", "3 0.5 0.5"}); }
	void fill(S& o) { while (r.chance(junk)) { if (r.chance(0.5)) o += r.chance(0.5) ? gap() : S(); if (r.chance(0.6)) o += comment(); o += eol; } }
	void row(S& o, const std::vector<S>& t) { fill(o); if (r.chance(0.3)) o += gap(); for (size_t i = 0; i < t.size(); ++i) { if (i) o += gap(); o += t[i]; } if (r.chance(0.3)) o += gap(); if (r.chance(junk)) { o += comment(); } o += eol; }
};
template<class T> void generate(Rng& r, S& node, S& ele, size_t big)
{
	Ref m = random_ref(r, big); if (r.chance(0.5)) for (auto& p : m.p) for (auto& c : p) c = c * r.pick({1.0, 0.1, 1e-3, 1e5}) + r.pick({0.0, 0.0, 7.77});
	if (r.chance(0.15)) m.p.push_back({{1, 2}});// isolated vertex
	Gen g(r); size_t base = r.chance(0.5) ? 0 : 1; bool exact = r.chance(0.6);
	int na = (int)r.below(3), mark = (int)r.below(2);
	auto I = [&](size_t i) { S s = std::to_string(i); if (r.chance(0.03)) s = "0" + s; if (r.chance(0.03)) s = "+" + s; return s; };
	g.row(node, {I(m.p.size()), "2", std::to_string(na), std::to_string(mark)});
	for (size_t i = 0; i < m.p.size(); ++i)
	{
		std::vector<S> t = {I(i + base), number(r, m.p[i][0], exact), number(r, m.p[i][1], exact)};
		for (int k = 0; k < na; ++k) t.push_back(number(r, r.normal(), exact)); if (mark) t.push_back(std::to_string(r.below(3)));
		g.row(node, t);
	}
	int ea = (int)r.below(2);
	std::vector<S> h = {I(m.t.size()), "3"}; if (ea || r.chance(0.7)) h.push_back(std::to_string(ea));
	g.row(ele, h);
	for (size_t e = 0; e < m.t.size(); ++e)
	{
		std::vector<S> t = {I(e + base)}; for (size_t v : m.t[e].v) t.push_back(I(v + base)); if (ea) t.push_back(number(r, r.normal(), false));
		g.row(ele, t);
	}
	for (S* s : {&node, &ele}) { g.fill(*s); if (r.chance(0.3)) while (!s->empty() && (s->back() == '\n' || s->back() == '\r')) s->pop_back(); }
}
// one mutation of a text
const char* mutate(Rng& r, S& s)
{
	if (s.empty()) { s = r.pick({"1", "x", "\n", "#"}); return "new"; }
	auto lines = [&] { std::vector<size_t> b = {0}; for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '\n') b.push_back(i + 1); return b; };
	auto tokens = [&] { std::vector<std::pair<size_t, size_t> > t; size_t k = 0; while (k < s.size()) { while (k < s.size() && isspace((unsigned char)s[k])) ++k; size_t b = k; while (k < s.size() && !isspace((unsigned char)s[k])) ++k; if (k > b) t.push_back({b, k - b}); } return t; };
	auto line_end = [&](size_t b) { size_t e = s.find('\n', b); return e == S::npos ? s.size() : e + 1; };
	switch (r.below(12))
	{
	case 0: s.resize(r.below(s.size())); return "truncated";
	case 1: { auto L = lines(); size_t b = r.pick(L); s.erase(b, line_end(b) - b); return "line deleted"; }
	case 2: { auto L = lines(); size_t b = r.pick(L); S l = s.substr(b, line_end(b) - b); size_t at = r.chance(0.5) ? b : r.pick(L); s.insert(at, l); return "line repeated"; }
	case 3: { auto L = lines(); if (L.size() < 2) return "none"; size_t k = r.below(L.size() - 1), b = L[k], c = L[k + 1], e = line_end(c); S x = s.substr(b, c - b), y = s.substr(c, e - c); s.replace(b, e - b, y + x); return "lines exchanged"; }
	case 4: { auto t = tokens(); if (t.empty()) return "none"; auto q = r.pick(t); s.erase(q.first, q.second); return "token deleted"; }
	case 5: { auto t = tokens(); if (t.empty()) return "none"; auto q = r.chance(0.4) ? t[r.below(std::min<size_t>(t.size(), 6))] : r.pick(t); s.replace(q.first, q.second, r.pick({"0", "1", "2", "3", "-1", "4", "x", "1.5", "1e3", "nan", "inf", "-", "+", ".", "1e", "0x1", "18446744073709551615", "18446744073709551616", "99999999999", "4294967296", "2147483648", "1e400", "1,5", "3#", "--1", "1;"})); return "token replaced"; }
	case 6: { auto t = tokens(); if (t.empty()) return "none"; auto q = r.pick(t); S k = s.substr(q.first, q.second); unsigned long v = strtoul(k.c_str(), nullptr, 10); s.replace(q.first, q.second, std::to_string((long)(v + (r.chance(0.5) ? 1 : -1)))); return "token changed by one"; }
	case 7: { size_t i = r.below(s.size()); s[i] = (char)r.below(256); return "byte changed"; }
	case 8: { size_t i = r.below(s.size()); s.insert(i, 1, r.pick({' ', '\n', '\t', '0', '1', '-', '.', 'e', '#', 'a', '\0', '\r'})); return "byte inserted"; }
	case 9: { size_t i = r.below(s.size()); s.erase(i, r.range(1, 4)); return "bytes deleted"; }
	case 10: { auto t = tokens(); if (t.size() < 2) return "none"; size_t k = r.below(t.size() - 1); S x = s.substr(t[k].first, t[k].second), y = s.substr(t[k + 1].first, t[k + 1].second); s.replace(t[k + 1].first, t[k + 1].second, x); s.replace(t[k].first, t[k].second, y); return "tokens exchanged"; }
	default: { S x; for (size_t i = 0, n = r.below(200); i < n; ++i) x += r.chance(0.6) ? r.pick({'0', '1', '2', ' ', '\n', '#', '.', '-'}) : (char)r.below(256); if (r.chance(0.5)) s = x; else s.insert(r.below(s.size()), x); return "garbage"; }
	}
}
template<class T> void check(const S& node, const S& ele, const char* how, bool files, Rng& r)
{
	typedef MeshTriangleLoader<T> L;
	Model<T> m; { NoCount nc; m = parse<T>(node, ele); }
	bool threw = false, fault = false; S why; bool eq = false;
	label(files ? "loadFile" : "loadString");
	try
	{
		Mesh<T, 2> M;
		if (files)
		{
			FILE* f = fopen("t.node", "wb"); fwrite(node.data(), 1, node.size(), f); fclose(f);
			f = fopen("t.ele", "wb"); fwrite(ele.data(), 1, ele.size(), f); fclose(f);
			const char *a = "t.node", *b = "t.ele"; Mesh<T, 2> X;
			if (r.chance(0.15))
			{
				fault = true;
				switch (r.below(5)) { case 0: a = "missing.node"; break; case 1: b = "missing.ele"; break; case 2: a = b = ""; break; case 3: mkdir("adir", 0755); a = "adir"; break; default: mkdir("adir", 0755); b = "adir"; break; }
				tr("loadFile(%s,%s)", a, b);
			}
			M = L::loadFile(a, b);
		}
		else M = L::loadString(node, ele);
		label("judge");
		eq = equal(M, m, why);
		if (!fault && eq && m.v == VALID)
		{// usable
			bool used = true; for (size_t i = 0; i < m.p.size(); ++i) used = used && !M.vertex(i)->Elements.empty();
			M.setupBoundaries(); M.prepare(); bool vol = true; for (auto e : M.elements()) vol = vol && std::fabs((ld)e->Element.volume()) > 1e-3L;
			if (used && vol) { M.validate(); count("validated"); }
		}
	}
	catch (const MeshException&) { threw = true; }
	if (fault) { if (!threw) BAD("missing file", "no exception"); count("missing-file"); return; }
	auto show = [&] { return fmt("node file <<%.600s>> element file <<%.400s>>", node.c_str(), ele.c_str()); };
	if (m.v == VALID)
	{
		if (threw) BAD(fmt("rejected:%s", how).c_str(), "well-formed input raises an exception; %s", show().c_str());
		if (!eq) BAD(fmt("content:%s", how).c_str(), "%s; %s", why.c_str(), show().c_str());
		count("loaded"); if (m.zero) count("zero-based"); else count("one-based");
	}
	else if (m.v == MALFORMED)
	{
		if (!threw) BAD(fmt("accepted:%s", m.why).c_str(), "malformed input (%s) is loaded; %s", m.why, show().c_str());
		count(fmt("rejected:%s", m.why).c_str());
	}
	else { if (!threw && m.t.size() && !m.why[0] && !eq) BAD("content of a doubtful file", "%s; %s", why.c_str(), show().c_str()); count("unspecified"); }
	distinct(hash2(hash_bytes(node.data(), node.size()), hash_bytes(ele.data(), ele.size())));
}
template<class T> void go(Rng& r)
{
	S node, ele; { NoCount nc; generate<T>(r, node, ele, r.chance(HUGE_CHANCE * 0.4) ? HUGE_MESH : r.chance(0.1) ? 60 : 12); }
	node.reserve(node.size() + 1000); ele.reserve(ele.size() + 1000);
	sample(fmt("node file %.300s ... element file %.200s", node.c_str(), ele.c_str()));
	tr("%zu+%zu bytes", node.size(), ele.size());
	check<T>(node, ele, "generated", r.chance(0.15), r);
	for (int k = 0, n = 4; k < n; ++k)
	{
		S a = node, b = ele; const char* how = "";
		for (size_t z = 0, c = r.chance(0.75) ? 1 : 2; z < c; ++z) { NoCount nc; how = mutate(r, r.chance(0.5) ? a : b); }
		tr("%s", how); count(fmt("mutation:%s", how).c_str());
		check<T>(a, b, how, r.chance(0.03), r);
	}
}
}
void vh::run_case(Rng& r, u64) { if (r.chance(0.4)) go<VF>(r); else go<double>(r); }
#include "vh_main.h"
