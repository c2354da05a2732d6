// C24: OBJ loader against the generating model, and hostile texts
#include "trimesh.h"
#include "ref.h"
#include "loader/MeshObjLoader.h"
#include <sys/stat.h>
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)
namespace vh { const char* property = "C24"; }
namespace {
typedef std::string S;
struct Corner { size_t v; long t, n; size_t group; bool operator<(const Corner& o) const { return std::tie(group, v, t, n) < std::tie(o.group, o.v, o.t, o.n); } };
struct Model { std::vector<std::array<double, 3> > p; std::vector<std::array<Corner, 3> > t; size_t groups; };// triangles of the first shape

S number(Rng& r, double v)
{
	S s;
	switch (r.below(7))
	{
	case 0: s = fmt("%.9g", v); break;
	case 1: s = fmt("%f", v); break;
	case 2: s = fmt("%.12e", v); break;
	case 3: s = fmt("%.8E", v); break;
	case 4: s = fmt("%.1f", v); if (s.size() > 2 && s.substr(s.size() - 2) == ".0") s.resize(s.size() - 1); break;
	case 5: s = fmt("%.17g", v); break;
	default: s = fmt("%.4f", v); if (s.compare(0, 2, "0.") == 0) s = s.substr(1); else if (s.compare(0, 3, "-0.") == 0) s = "-" + s.substr(2); break;
	}
	if (s[0] != '-' && r.chance(0.1)) s = "+" + s;
	return s;
}
struct Writer
{
	Rng& r; S o, eol; double junk, ind; bool tabs;
	Writer(Rng& r_) : r(r_), eol(r.pick({"\n", "\n", "\r\n", "\r"})), junk(r.pick({0.0, 0.1, 0.3})), ind(r.pick({0.0, 0.3})), tabs(r.chance(0.3)) {}
	S gap() { S s; do s += tabs && r.chance(0.5) ? '\t' : ' '; while (r.chance(ind)); return s; }
	void noise()
	{
		while (r.chance(junk)) switch (r.below(9))
		{
		case 0: o += eol; break;
		case 1: o += "# a comment, v 1 2 3" + eol; break;
		case 2: o += "  \t" + eol; break;
		case 3: o += r.pick({"s 1", "s off", "vp 0.1 0.2", "l 1 2", "p 1", "unknown 1 2 3", "lod 2", "shadow_obj x"}) + eol; break;
		case 4: o += "#" + eol; break;
		case 5: o += r.pick({"t crease 2/1/0 0 1 2.5", "t c 0/0/1 abc", "t x 1/1/1 1 0.5 y", "t e 0/0/0"}) + eol; break;
		case 6: o += "mtllib " + S(r.pick({"m.mtl", "missing.mtl"})) + eol; break;
		case 7: o += " # indented" + eol; break;
		default: o += "vn 0 0 1" + eol; ++vn; break;
		}
	}
	size_t vn = 0, vt = 0;
	void line(const S& s, bool quiet = false) { if (!quiet) noise(); if (r.chance(ind)) o += gap(); o += s; if (r.chance(ind)) o += gap(); o += eol; }
};
void generate(Rng& r, S& text, Model& m, size_t big, S* orphan)
{
	Ref q = random_ref(r, big); Writer w(r);
	m.p.clear(); m.t.clear(); m.groups = 1;
	double sc = r.pick({1.0, 1.0, 0.01, 37.5}), off = r.pick({0.0, 0.0, -5.5});
	for (auto& p : q.p) { double z = r.chance(0.5) ? 0 : (double)r.range(-20, 20) / 8; m.p.push_back({{p[0] * sc + off, p[1] * sc - off, z}}); }
	for (auto& p : m.p) for (auto& c : p) c = (double)(float)c;
	size_t nv = 0; int form = (int)r.below(5); bool norm = form == 2 || form == 3 || form == 4, tex = form == 1 || form == 3 || form == 4, per = r.chance(0.3);
	bool inter = r.chance(0.3);// vertices next to the faces that use them
	if (r.chance(0.3)) w.line(r.pick({"o object", "g group", "o", "g a b", "o a_name_which_is_rather_long_and_has_no_end"}));
	auto put_v = [&](size_t i)
	{
		S l = "v"; for (int k = 0; k < 3; ++k) { S s = number(r, m.p[i][k]); m.p[i][k] = strtod(s.c_str(), nullptr); l += w.gap() + s; } if (r.chance(0.1)) l += " 1.0";
		w.line(l); ++nv;
		if (norm && r.chance(0.7)) { w.line("vn" + w.gap() + "0 0" + w.gap() + "1"); ++w.vn; }
		if (tex && r.chance(0.7)) { w.line("vt" + w.gap() + number(r, r.uni()) + w.gap() + number(r, r.uni())); ++w.vt; }
	};
	if (!inter) for (size_t i = 0; i < q.p.size(); ++i) put_v(i);
	if (norm && !w.vn) { w.line("vn 0 0 -1"); ++w.vn; } if (tex && !w.vt) { w.line("vt 0 0"); ++w.vt; }
	// faces: triangles, or neighbouring triangles joined into polygons (fans from the first corner)
	std::vector<std::vector<size_t> > poly; std::vector<char> used(q.t.size(), 0);
	for (size_t e = 0; e < q.t.size(); ++e)
	{
		if (used[e]) continue; used[e] = 1;
		std::vector<size_t> f(q.t[e].v, q.t[e].v + 3);
		while (big != HUGE_MESH && r.chance(0.35))
		{// another triangle with the first and the last corner
			bool ok = false; for (size_t z = e + 1; z < q.t.size() && !ok; ++z) if (!used[z]) { std::set<size_t> s(q.t[z].v, q.t[z].v + 3); if (s.count(f[0]) && s.count(f.back())) { s.erase(f[0]); s.erase(f.back()); size_t x = *s.begin(); if (std::find(f.begin(), f.end(), x) == f.end()) { f.push_back(x); used[z] = 1; ok = true; } } }
			if (!ok) break;
		}
		poly.push_back(f);
	}
	size_t split = r.chance(0.3) ? r.below(poly.size()) : poly.size();// where a second shape starts
	size_t cur = 0;
	bool mats = r.chance(0.25); if (mats) w.line("mtllib m.mtl");
	std::map<size_t, size_t> idx;
	if (!inter) for (size_t i = 0; i < q.p.size(); ++i) idx[i] = i;
	bool second = false; size_t tri_in_first = 0; std::string mat = "";
	for (size_t z = 0; z < poly.size(); ++z)
	{
		auto& f = poly[z];
		if (inter) for (size_t x : f) if (!idx.count(x)) { put_v(x); idx[x] = nv - 1; }
		if (z == split && z > 0) { w.line(r.pick({"g second", "o second", "g default", "o x", "g a b c"})); second = true; ++cur; }
		else if (!second && z == 0 && r.chance(0.2)) w.line(r.pick({"g first", "o first", "g"}));
		if (mats && r.chance(0.3)) { S n = r.pick({"red", "blue", "undefined", "red"}); w.line("usemtl " + n); S key = n == "undefined" ? "" : n; if (key != mat) { mat = key; ++cur; if (!second && z > 0) ++m.groups; } }
		w.noise(); S l = "f"; std::vector<Corner> c;
		for (size_t x : f)
		{
			size_t i = idx[x]; Corner k = {x, -1, -1, cur}; auto ix = [&](size_t id, size_t n) { return r.chance(0.2) ? fmt("%ld", (long)id - (long)n) : fmt("%zu", id + 1); };
			S s = ix(i, nv);
			size_t a = w.vt ? (per ? r.below(w.vt) : i % w.vt) : 0, b = w.vn ? (per ? r.below(w.vn) : i % w.vn) : 0;
			int fm = form; if (fm == 4) fm = (int)r.below(4);
			if (fm == 1) { s += "/" + ix(a, w.vt); k.t = (long)a; }
			if (fm == 2) { s += "//" + ix(b, w.vn); k.n = (long)b; }
			if (fm == 3) { s += "/" + ix(a, w.vt) + "/" + ix(b, w.vn); k.t = (long)a; k.n = (long)b; }
			l += w.gap() + s; c.push_back(k);
		}
		w.line(l, true);
		if (!second) { for (size_t k = 2; k < c.size(); ++k) { m.t.push_back({{c[0], c[k - 1], c[k]}}); ++tri_in_first; } if (c.size() > 3) count("polygons"); }
	}
	if (second) count("second-shape-ignored");
	if (m.groups > 1) count("several-materials");
	if (orphan)
	{// the same text with one corner naming a vertex that is never defined
		size_t b = 0, pick = r.below(poly.size()), n = 0; S& o = w.o;
		for (size_t i = 0; i < o.size();)
		{
			size_t e = o.find_first_of("\r\n", i); if (e == S::npos) e = o.size();
			size_t k = o.find_first_not_of(" \t", i);
			if (k < e && o[k] == 'f' && (o[k + 1] == ' ' || o[k + 1] == '\t') && n++ == pick) { b = k; break; }
			i = e + 1;
		}
		std::vector<std::pair<size_t, size_t> > tk; size_t e = o.find_first_of("\r\n", b); if (e == S::npos) e = o.size();
		for (size_t k = b + 1; k < e;) { while (k < e && (o[k] == ' ' || o[k] == '\t')) ++k; size_t s = k; while (k < e && o[k] != ' ' && o[k] != '\t') ++k; if (k > s) { size_t sl = std::min(o.find('/', s), k); tk.push_back({s, sl - s}); } }
		auto t = r.pick(tk); *orphan = o; orphan->replace(t.first, t.second, r.chance(0.6) ? fmt("%zu", q.p.size() + 1 + (r.chance(0.5) ? 0 : r.below(1000000000))) : fmt("-%zu", q.p.size() + 1 + (r.chance(0.5) ? 0 : r.below(1000000000))));
	}
	text = w.o; if (r.chance(0.2)) while (!text.empty() && (text.back() == '\n' || text.back() == '\r')) text.pop_back();
	count(w.eol == "\n" ? "lf" : w.eol == "\r" ? "cr" : "crlf"); static const char* fn[] = {"v", "v/vt", "v//vn", "v/vt/vn", "mixed"}; count(fmt("form:%s", fn[form]).c_str());
}
template<class T, Index Y, Index X> bool equal(const Mesh<T, 2>& M, const Model& m, S& why)
{
	auto no = [&](const S& w) { why = w; return false; };
	if (M.elements().size() != m.t.size()) return no(fmt("%zu triangles instead of %zu", M.elements().size(), m.t.size()));
	std::map<Corner, const void*> vert; std::map<const void*, size_t> back; std::set<const void*> all;
	for (size_t i = 0; i < M.vertices().size(); ++i) { if (!M.vertex(i) || M.vertex(i)->GlobalIndex != i) return no("vertex numbers"); all.insert(M.vertex(i)); }
	for (size_t e = 0; e < m.t.size(); ++e)
	{
		auto q = M.element(e); bool fit = false;
		for (int rot = 0; rot < 3 && !fit; ++rot)
		{
			fit = true;
			for (int k = 0; k < 3 && fit; ++k)
			{
				auto v = q->Vertices[(k + rot) % 3]; if (!v || !all.count(v)) return no("foreign vertex"); const Index ax[2] = {X, Y};
				for (int c = 0; c < 2; ++c)
				{
					double w = m.p[m.t[e][k].v][ax[c]]; ref::ld d = ref::abs_(ref::Sc<T>::big(v->Vertex[c]) - (typename ref::Sc<T>::B)(ref::ld)w);
					if (!(d <= 4e-7L * std::fabs((ref::ld)w) + 1e-9L)) fit = false;
					if (!(q->Element[(k + rot) % 3][c] == v->Vertex[c])) return no("simplex coordinates");
				}
			}
			if (fit) for (int k = 0; k < 3; ++k)
			{
				auto v = q->Vertices[(k + rot) % 3]; auto it = vert.insert({m.t[e][k], v});
				if (it.first->second != v) return no(fmt("triangle %zu: corner %d is another vertex than the same corner before", e, k));
				auto b = back.insert({v, m.t[e][k].v}); if (b.first->second != m.t[e][k].v) return no(fmt("triangle %zu: two vertices of the file share one mesh vertex", e));
			}
		}
		if (!fit) return no(fmt("triangle %zu has other coordinates", e));
	}
	if (back.size() != all.size()) return no(fmt("%zu of %zu vertices are used by no triangle", all.size() - back.size(), all.size()));
	// connectivity
	std::map<std::pair<size_t, size_t>, int> F; for (auto e : M.elements()) for (int k = 0; k < 3; ++k) { ++F[mk(e->Vertices[(k + 1) % 3]->GlobalIndex, e->Vertices[(k + 2) % 3]->GlobalIndex)]; if (!e->Neighbors[k]) return no("missing face"); }
	if (F.size() != M.edges().size()) return no("number of faces");
	for (auto f : M.edges()) { auto it = F.find(mk(f->Vertices[0]->GlobalIndex, f->Vertices[1]->GlobalIndex)); if (it == F.end() || (f->Elements[1] ? 2 : 1) != it->second) return no("face"); }
	return true;
}
void write(const char* n, const S& s) { FILE* f = fopen(n, "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
void mutate(Rng& r, S& s)
{
	if (s.empty()) { s = "f 1 2 3\n"; return; }
	auto starts = [&] { std::vector<size_t> b = {0}; for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == '\n' || s[i] == '\r') b.push_back(i + 1); return b; };
	auto end = [&](size_t b) { size_t e = s.find_first_of("\n\r", b); return e == S::npos ? s.size() : e + 1; };
	auto token = [&](size_t& b, size_t& n) { std::vector<std::pair<size_t, size_t> > t; for (size_t k = 0; k < s.size();) { while (k < s.size() && (isspace((unsigned char)s[k]) || s[k] == '/')) ++k; size_t x = k; while (k < s.size() && !isspace((unsigned char)s[k]) && s[k] != '/') ++k; if (k > x) t.push_back({x, k - x}); } if (t.empty()) return false; auto q = r.pick(t); b = q.first; n = q.second; return true; };
	size_t b, n;
	switch (r.below(14))
	{
	case 0: s.resize(r.below(s.size())); break;
	case 1: { auto L = starts(); b = r.pick(L); s.erase(b, end(b) - b); break; }
	case 2: { auto L = starts(); b = r.pick(L); S l = s.substr(b, end(b) - b); s.insert(r.pick(L), l); break; }
	case 3: case 4: if (token(b, n)) s.replace(b, n, r.pick({"0", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967297", "99999999999999999999", "1e400", "1e-400", "1e99999999999", "nan", "inf", "", "/", "//", "1/", "1//", "1/2/", "/1", "1/1/1/1", "x", "f", "v", "vn", "g", "o", "t", "usemtl", "mtllib", "#", "-", "+", ".", "e", "1e", "1e+", "-.", "+.5e1", "1.e1", "1..2"})); break;
	case 5: { size_t i = r.below(s.size()); s[i] = (char)r.below(256); break; }
	case 6: s.insert(r.below(s.size()), 1, r.pick({' ', '\n', '\t', '\r', '0', '/', '-', '.', 'f', '\0', '\xff'})); break;
	case 7: s.erase(r.below(s.size()), r.range(1, 6)); break;
	case 8: { auto L = starts(); s.insert(r.pick(L), S(r.pick({"f", "f ", "f 1", "f 1 2", "f 1 1 1", "f 1 2 3", "f -1 -2 -3", "f 1 2 3 1 2 3", "v", "v 1", "v 1 2", "vn", "vt 1", "g", "g ", "o", "o ", "t", "t ", "t a", "t a 1", "t a 1/1", "t a 1/1/1", "t a 3/3/3 1", "t a -1/0/0", "t a 9999999/0/0", "t a 0/0/99", "usemtl", "usemtl ", "usemtl red", "mtllib", "mtllib ", "mtllib missing", "mtllib m.mtl", "mtllib h.mtl", "s", "\\", "f 1\\"})) + r.pick({"\n", "\r", "\r\n", ""})); break; }
	case 9: { auto L = starts(); S x; for (size_t i = 0, c = r.pick({10, 300, 4094, 4095, 4096, 5000, 9000}); i < c; ++i) x += (char)('a' + i % 26); s.insert(r.pick(L), S(r.pick({"g ", "o ", "usemtl ", "mtllib ", "t ", "t a 0/0/1 ", "newmtl ", "f ", "v "})) + x + "\n"); count("long-names"); break; }
	case 10: { auto L = starts(); S x = "f"; for (size_t i = 0, c = r.range(4, 40); i < c; ++i) x += fmt(" %ld", r.range(-4, 12)); s.insert(r.pick(L), x + "\n"); break; }
	case 11: { S x; for (size_t i = 0, c = r.below(150); i < c; ++i) x += r.chance(0.7) ? r.pick({'0', '1', '2', ' ', '\n', '/', '-', 'f', 'v', 'g', 't', '\t'}) : (char)r.below(256); if (r.chance(0.3)) s = x; else s.insert(r.below(s.size()), x); break; }
	case 12: { auto L = starts(); if (L.size() > 2) { size_t k = r.below(L.size() - 1), a = L[k], c = L[k + 1], e = end(c); S x = s.substr(a, c - a), y = s.substr(c, e - c); s.replace(a, e - a, y + x); } break; }
	default: if (token(b, n)) { long v = strtol(s.substr(b, n).c_str(), nullptr, 10); if (v < 1000000 && v > -1000000) s.replace(b, n, fmt("%ld", v + (r.chance(0.5) ? 1 : -1))); } break;
	}
}
S mtl(Rng& r)
{
	S s; for (int i = 0; i < 3; ++i) { s += S("newmtl ") + r.pick({"red", "blue", "green"}) + "\n"; for (int k = 0; k < 5; ++k) s += S(r.pick({"Ka 1 0 0", "Kd 0.5 0.5", "Ks", "Kt 1 1 1", "Ni 1.5", "Ke 0 0 0", "Ns 10", "illum 2", "illum", "d 0.5", "Tr 0.1", "map_Ka a.png", "map_Kd b", "map_Ks", "map_Ns x", "map_bump y", "map_d z", "bump q", "disp w", "unknown value", "unknown", "\tKa 1 1 1", "# comment"})) + r.pick({"\n", "\r\n", " \n"}); }
	for (int i = 0, n = (int)r.below(4); i < n; ++i) mutate(r, s);
	return s;
}
template<class M> void walk(const M& m)
{// every link of a mesh loaded from doubtful input is usable
	double s = 0; std::set<const void*> v(m.vertices().begin(), m.vertices().end()), e(m.elements().begin(), m.elements().end());
	for (size_t i = 0; i < m.vertices().size(); ++i) { auto q = m.vertex(i); if (q->GlobalIndex != i) BAD("doubtful input", "vertex %zu has the number %zu", i, (size_t)q->GlobalIndex); for (auto x : q->Elements) if (!e.count(x)) BAD("doubtful input", "vertex %zu has a foreign element", i); s += std::abs(q->Vertex[0]); }
	for (auto x : m.elements()) for (int k = 0; k < 3; ++k) { if (!v.count(x->Vertices[k])) BAD("doubtful input", "element with a foreign vertex"); if (x->Neighbors[k]) s += (double)x->Neighbors[k]->DOFVertices.size(); }
	for (auto f : m.edges()) for (auto x : f->Elements) if (x && !e.count(x)) BAD("doubtful input", "face with a foreign element");
	keep(s);
}
template<class T, Index Y, Index X> void go(Rng& r)
{
	typedef MeshObjLoader<T, Y, X> L; S text, orphan; Model m;
	{ NoCount nc; generate(r, text, m, r.chance(HUGE_CHANCE * 0.4) ? HUGE_MESH : r.chance(0.1) ? 60 : 12, &orphan); write("m.mtl", "newmtl red\nKd 1 0 0\nnewmtl blue\nKd 0 0 1\n"); }
	tr("axes %d,%d: %.3000s", (int)X, (int)Y, text.c_str()); sample(fmt("axes %d,%d: %.500s", (int)X, (int)Y, text.c_str()));
	bool file = r.chance(0.2); S why; bool threw = false;
	label(file ? "loadFile" : "loadString");
	try
	{
		if (file) { { NoCount nc; write("x.obj", text); } Mesh<T, 2> M = L::loadFile("x.obj"); if (!equal<T, Y, X>(M, m, why)) BAD("content of a file", "%s", why.c_str()); count("files"); }
		else { Mesh<T, 2> M = L::loadString(text); if (!equal<T, Y, X>(M, m, why)) BAD("content", "%s", why.c_str()); }
		count("loaded"); count(fmt("axes:%d%d", (int)X, (int)Y).c_str());
	}
	catch (const MeshException&) { threw = true; }
	if (threw) BAD("rejected", "well-formed text raises an exception: %.1500s", text.c_str());
	distinct(hash_bytes(text.data(), text.size()));
	label("undefined vertex"); threw = false;
	try { L::loadString(orphan); } catch (const MeshException&) { threw = true; }
	// only the first shape is loaded, but undefined vertices are found in all of them
	if (!threw) BAD("undefined vertex accepted", "%.1500s", orphan.c_str());
	count("undefined-vertex-rejected");
	if (r.chance(0.1)) { threw = false; label("missing file"); try { L::loadFile(r.pick({"nowhere.obj", "", "no/such/file.obj"})); } catch (const MeshException&) { threw = true; } if (!threw) BAD("missing file", "no exception"); count("missing-file"); }
	// hostile input
	for (int k = 0; k < 4; ++k)
	{
		S a = text; { NoCount nc; for (size_t z = 0, c = r.range(1, 4); z < c; ++z) mutate(r, a); if (r.chance(0.3)) { write("h.mtl", mtl(r)); a = S("mtllib h.mtl\nusemtl red\n") + a; } }
		label("hostile"); tr("hostile: %.3000s", a.c_str());
		try
		{
			Mesh<T, 2> M;
			if (r.chance(0.1)) { { NoCount nc; write("x.obj", a); } M = L::loadFile("x.obj"); } else M = L::loadString(a);
			walk(M); count("hostile-loaded");
		}
		catch (const MeshException&) { count("hostile-rejected"); }
		distinct(hash_bytes(a.data(), a.size()));
	}
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(6))
	{
	case 0: go<VF, 1, 0>(r); break; case 1: go<double, 2, 0>(r); break; case 2: go<double, 2, 1>(r); break;
	case 3: go<double, 0, 1>(r); break; case 4: go<VCD, 1, 0>(r); break; default: go<double, 1, 0>(r); break;
	}
}
#include "vh_main.h"
