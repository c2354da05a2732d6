// C25: exported VTK files are parsed back and compared with mesh and data
#include "trimesh.h"
#include "ref.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)
namespace vh { const char* property = "C25"; }
namespace {
typedef std::string S;
struct Node { S tag; std::map<S, S> at; std::vector<Node> kids; S text; };
struct Xml
{
	const S& s; size_t i = 0; explicit Xml(const S& s_) : s(s_) {}
	[[noreturn]] void bad(const char* w) { viol("not well-formed", "%s at byte %zu: %.200s", w, i, s.substr(i > 60 ? i - 60 : 0, 120).c_str()); throw Stop(); }
	void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
	S name() { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == ':' || s[i] == '-' || s[i] == '.')) ++i; if (b == i) bad("name"); return s.substr(b, i - b); }
	std::map<S, S> attrs() { std::map<S, S> a; for (;;) { size_t b = i; ws(); if (i >= s.size()) bad("end"); if (s[i] == '>' || s[i] == '/' || s[i] == '?') return a; if (b == i) bad("space"); S n = name(); ws(); if (s[i] != '=') bad("="); ++i; ws(); char q = s[i]; if (q != '"' && q != '\'') bad("quote"); size_t e = s.find(q, ++i); if (e == S::npos) bad("quote"); S v = s.substr(i, e - i); if (v.find('<') != S::npos) bad("< in value"); if (!a.insert({n, v}).second) bad("attribute twice"); i = e + 1; } }
	Node element()
	{
		Node n; if (s[i] != '<') bad("<"); ++i; n.tag = name(); n.at = attrs();
		if (s[i] == '/') { ++i; if (s[i] != '>') bad(">"); ++i; return n; }
		if (s[i] != '>') bad(">"); ++i;
		for (;;)
		{
			size_t e = s.find('<', i); if (e == S::npos) bad("end inside an element"); n.text += s.substr(i, e - i); i = e;
			if (s[i + 1] == '/') { i += 2; if (name() != n.tag) bad("closing tag"); ws(); if (s[i] != '>') bad(">"); ++i; return n; }
			n.kids.push_back(element());
		}
	}
	Node document() { if (s.compare(0, 5, "<?xml")) bad("declaration"); i = 5; attrs(); if (s.compare(i, 2, "?>")) bad("declaration"); i += 2; ws(); Node n = element(); ws(); if (i != s.size()) bad("content after the root"); return n; }
};
const Node& child(const Node& n, const char* t) { const Node* f = nullptr; for (auto& k : n.kids) if (k.tag == t) { if (f) BAD("structure", "<%s> twice", t); f = &k; } if (!f) BAD("structure", "no <%s> in <%s>", t, n.tag.c_str()); return *f; }
S attr(const Node& n, const char* a) { auto it = n.at.find(a); if (it == n.at.end()) BAD("structure", "<%s> has no attribute %s", n.tag.c_str(), a); return it->second; }
std::vector<double> numbers(const Node& n)
{
	std::vector<double> v; const char* p = n.text.c_str();
	if (!n.kids.empty()) BAD("structure", "elements inside a data array");
	for (;;) { while (isspace((unsigned char)*p)) ++p; if (!*p) return v; char* e; double d = strtod(p, &e); if (e == p || (*e && !isspace((unsigned char)*e))) BAD("data array", "%.40s is no number", p); v.push_back(d); p = e; }
}
struct Arr { const Node* n; std::vector<double> v; size_t comps; };
std::map<S, Arr> arrays(const Node& n, size_t tuples, const char* what)
{
	std::map<S, Arr> m;
	for (auto& k : n.kids)
	{
		if (k.tag != "DataArray") BAD("structure", "<%s> in <%s>", k.tag.c_str(), n.tag.c_str());
		S name = attr(k, "Name"), type = attr(k, "type"); if (attr(k, "format") != "ascii") BAD("structure", "format");
		static const std::set<S> types = {"Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float32", "Float64"}; if (!types.count(type)) BAD("structure", "type %s", type.c_str());
		Arr a = {&k, numbers(k), k.at.count("NumberOfComponents") ? (size_t)strtoul(k.at.at("NumberOfComponents").c_str(), nullptr, 10) : 1};
		if (a.v.size() != a.comps * tuples) BAD("counts", "%s array %s has %zu values for %zu tuples of %zu components", what, name.c_str(), a.v.size(), tuples, a.comps);
		if (!m.insert({name, a}).second) BAD("structure", "%s array %s twice", what, name.c_str());
	}
	return m;
}
bool close(double got, ld want) { return std::fabs((ld)got - want) <= 1e-5L * std::fabs(want) + 1e-300L; }

template<class T, int O> void go(Rng& r)
{
	label("build");
	Ref m; Built<T> b; Mesh<T, 2> mesh; bool huge = r.chance(HUGE_CHANCE * 0.3), cube = huge || r.chance(0.15);
	if (cube)
	{
		FixedVector<T, 2> sz, off; for (int k = 0; k < 2; ++k) { sz[k] = (T)r.uni(0.5, 3); off[k] = (T)r.uni(-2, 2); }
		FixedVector<Index, 2> c; c[0] = r.range(1, 5); c[1] = r.range(1, 5); if (r.chance(0.001)) { c[0] = r.range(6, 40); c[1] = r.range(1, 40); }
		if (huge) { extend(200); c[0] = r.range(180, 265); c[1] = r.range(180, 265); count("huge-grids"); }
		mesh = HyperCube<T, 2>::generate(c, sz, off); tr("cube %zu %zu", (size_t)c[0], (size_t)c[1]); count("hyper-cubes");
	}
	else
	{
		m = random_ref(r); if (r.chance(0.5)) { double s = r.pick({0.01, 1.37, 1e4}), x = r.uni(-3, 3); for (auto& p : m.p) { p[0] = p[0] * s + x; p[1] = p[1] * s - x; } }
		trimesh::trace(m); add_vertices(b, m); for (auto& t : m.t) add_element(b, t); mesh = b.mesh; mesh.setupNeighbors();
	}
	if (r.chance(0.7)) { mesh.setupBoundaries(); count("boundaries"); }
	mesh.prepare(); PolyShapeFunction<T, 2, O>::prepareMesh(mesh);
	size_t np = mesh.vertices().size(), nc = mesh.elements().size();
	int opt = 0; for (int o : {VOO_ElementDeterminant, VOO_ElementMatrix, VOO_ElementGradient, VOO_VertexBoundaryLabel, VOO_VertexImplicitLabel}) if (r.chance(0.5)) opt |= o;
	if (r.chance(0.1)) opt = 0; if (r.chance(0.1)) opt = 0x1f;
	if (O == 2) opt |= VOO_IsQuadratic;
	std::map<S, DynamicVector<T>*> pd, cd; std::vector<std::unique_ptr<DynamicVector<T> > > own;
	static const std::vector<S> names = {"u", "Solution", "error_1", "a b", "z", "Z", "x.y", "T0", "flux-x", "residual"};
	auto fill = [&](std::map<S, DynamicVector<T>*>& d, size_t n)
	{
		for (size_t k = r.below(4); k > 0; --k)
		{
			std::unique_ptr<DynamicVector<T> > v(new DynamicVector<T>(n)); int h = (int)r.below(3);
			for (size_t i = 0; i < n; ++i) (*v)[i] = (T)(h == 0 ? (double)r.range(-5, 5) : h == 1 ? r.normal() : r.normal() * std::pow(10.0, (double)r.range(-9, 9)));
			S nm = r.pick(names); if (d.count(nm)) continue; d[nm] = v.get(); own.push_back(std::move(v));
		}
	};
	fill(pd, np); fill(cd, nc);
	tr("order %d options 0x%x point arrays %zu cell arrays %zu", O, (unsigned)opt, pd.size(), cd.size());
	if (r.chance(0.3)) { FILE* f = fopen("out.vtu", "wb"); for (int i = 0; i < 100000; ++i) fputc('x', f); fclose(f); count("overwritten"); }
	label("write");
	if (opt == 0 && r.chance(0.5)) VTKExporter<T, 2>::write("out.vtu", mesh, pd, cd); else VTKExporter<T, 2>::write("out.vtu", mesh, pd, cd, opt);
	label("parse"); S text;
	{ FILE* f = fopen("out.vtu", "rb"); if (!f) BAD("no file", "not written"); char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f))) text.append(buf, n); fclose(f); }
	Node root = Xml(text).document();
	if (root.tag != "VTKFile" || attr(root, "type") != "UnstructuredGrid") BAD("structure", "root <%s>", root.tag.c_str());
	const Node& piece = child(child(root, "UnstructuredGrid"), "Piece");
	if (attr(piece, "NumberOfPoints") != std::to_string(np) || attr(piece, "NumberOfCells") != std::to_string(nc)) BAD("counts", "%s points, %s cells instead of %zu, %zu", attr(piece, "NumberOfPoints").c_str(), attr(piece, "NumberOfCells").c_str(), np, nc);
	// points
	const Node& pts = child(child(piece, "Points"), "DataArray"); auto x = numbers(pts);
	if (attr(pts, "NumberOfComponents") != "3" || x.size() != 3 * np) BAD("counts", "%zu coordinates of %zu points", x.size(), np);
	for (size_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) { ld w = k < 2 ? (ld)mesh.vertex(i)->Vertex[k] : 0; if (!close(x[3 * i + k], w)) BAD("coordinates", "coordinate %d of point %zu is %g instead of %Lg", k, i, x[3 * i + k], w); }
	// cells
	const size_t dof = O == 2 ? 6 : 3; const double type = O == 2 ? 22 : 5;
	const Node& cells = child(piece, "Cells"); std::map<S, std::vector<double> > c; for (auto& k : cells.kids) if (!c.insert({attr(k, "Name"), numbers(k)}).second) BAD("structure", "cell array twice");
	if (c.size() != 3 || !c.count("connectivity") || !c.count("offsets") || !c.count("types")) BAD("structure", "%zu cell arrays", c.size());
	auto &con = c["connectivity"], &off = c["offsets"], &ty = c["types"];
	if (con.size() != nc * dof || off.size() != nc || ty.size() != nc) BAD("counts", "%zu connectivity entries, %zu offsets, %zu types of %zu cells", con.size(), off.size(), ty.size(), nc);
	for (size_t e = 0; e < nc; ++e)
	{
		if (off[e] != (double)((e + 1) * dof)) BAD("offsets", "offset %zu is %g", e, off[e]);
		if (ty[e] != type) BAD("types", "type of cell %zu is %g", e, ty[e]);
		for (size_t k = 0; k < dof; ++k) { if (!(con[e * dof + k] >= 0 && con[e * dof + k] < np)) BAD("connectivity", "point %g", con[e * dof + k]); if (mesh.vertex((size_t)con[e * dof + k]) != mesh.element(e)->DOFVertices[k]) BAD("connectivity", "point %zu of cell %zu is %g", k, e, con[e * dof + k]); }
		// geometry: corners of the simplex, then the midpoints of its sides in VTK order
		for (size_t k = 0; k < dof; ++k) for (int d = 0; d < 2; ++d)
		{
			auto& s = mesh.element(e)->Element; ld w = k < 3 ? (ld)s[k][d] : ((ld)s[k - 3][d] + (ld)s[(k - 2) % 3][d]) / 2, sc = std::fabs((ld)s[0][d]) + std::fabs((ld)s[1][d]) + std::fabs((ld)s[2][d]);
			if (!(std::fabs((ld)x[3 * (size_t)con[e * dof + k] + d] - w) <= 1e-5L * sc + 1e-300L)) BAD("cell geometry", "point %zu of cell %zu", k, e);
		}
	}
	// data
	const Node &P = child(piece, "PointData"), &C = child(piece, "CellData");
	auto pa = arrays(P, np, "point"), ca = arrays(C, nc, "cell");
	if (!pd.empty() || P.at.count("Scalars")) { if (!pa.count(attr(P, "Scalars")) || !pd.count(attr(P, "Scalars"))) BAD("scalars", "active scalars %s do not exist", attr(P, "Scalars").c_str()); }
	size_t wp = pd.size() + !!(opt & VOO_VertexBoundaryLabel) + !!(opt & VOO_VertexImplicitLabel), wc = cd.size() + !!(opt & VOO_ElementDeterminant) + !!(opt & VOO_ElementMatrix) + !!(opt & VOO_ElementGradient);
	if (pa.size() != wp || ca.size() != wc) BAD("arrays", "%zu point and %zu cell arrays instead of %zu, %zu", pa.size(), ca.size(), wp, wc);
	auto same = [&](std::map<S, Arr>& a, std::map<S, DynamicVector<T>*>& d, const char* w)
	{
		for (auto& q : d)
		{
			auto it = a.find(q.first); if (it == a.end()) BAD("arrays", "%s array %s is missing", w, q.first.c_str());
			if (it->second.v.size() != q.second->size()) BAD("counts", "%s array %s", w, q.first.c_str());
			for (size_t i = 0; i < q.second->size(); ++i) if (!close(it->second.v[i], (ld)(*q.second)[i])) BAD("data", "entry %zu of the %s array %s is %g instead of %g", i, w, q.first.c_str(), it->second.v[i], (double)(*q.second)[i]);
			count(fmt("%s-arrays", w).c_str());
		}
	};
	same(pa, pd, "point"); same(ca, cd, "cell");
	auto get = [&](std::map<S, Arr>& a, const char* n, size_t comps) -> Arr& { auto it = a.find(n); if (it == a.end()) BAD("arrays", "%s is missing", n); if (it->second.comps != comps) BAD("counts", "%s has %zu components", n, it->second.comps); count(n); return it->second; };
	if (opt & VOO_VertexBoundaryLabel) { auto& a = get(pa, "BoundaryLabel", 1); for (size_t i = 0; i < np; ++i) if (a.v[i] != ((mesh.vertex(i)->Flags & MVF_StrongBoundary) ? 1 : 0)) BAD("labels", "boundary label of point %zu is %g", i, a.v[i]); }
	if (opt & VOO_VertexImplicitLabel) { auto& a = get(pa, "ImplicitLabel", 1); for (size_t i = 0; i < np; ++i) if (a.v[i] != ((mesh.vertex(i)->Flags & MVF_Implicit) ? 1 : 0)) BAD("labels", "implicit label of point %zu is %g", i, a.v[i]); }
	if (opt & VOO_ElementDeterminant) { auto& a = get(ca, "ElementDeterminant", 1); for (size_t e = 0; e < nc; ++e) if (!close(a.v[e], (ld)mesh.element(e)->Element.determinant())) BAD("determinant", "cell %zu", e); }
	if (opt & VOO_ElementMatrix) { auto& a = get(ca, "ElementMatrix", 4); for (size_t e = 0; e < nc; ++e) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) if (!close(a.v[4 * e + 2 * i + j], (ld)mesh.element(e)->Element.matrix().at(i, j))) BAD("element matrix", "entry %d,%d of cell %zu", i, j, e); }
	if (opt & VOO_ElementGradient) { auto& a = get(ca, "ElementGradient", 2); for (size_t e = 0; e < nc; ++e) { auto g = mesh.element(e)->Element.gradient(0); for (int k = 0; k < 2; ++k) if (!close(a.v[2 * e + k], (ld)g[k])) BAD("element gradient", "component %d of cell %zu", k, e); } }
	count(O == 2 ? "quadratic" : "linear"); if (pd.empty() && cd.empty()) count("no-data"); if ((opt & 0x1f) == 0) count("no-options"); if ((opt & 0x1f) == 0x1f) count("all-options");
	count("bytes-parsed", text.size());
	distinct(hash_bytes(text.data(), text.size())); sample(fmt("order %d, %zu points, %zu cells, options 0x%x, %zu point and %zu cell arrays", O, np, nc, (unsigned)opt, pd.size(), cd.size()));
}
}
void vh::run_case(Rng& r, u64)
{
	switch (r.below(4)) { case 0: go<VF, 1>(r); break; case 1: go<double, 1>(r); break; case 2: go<VF, 2>(r); break; default: go<double, 2>(r); break; }
}
#include "vh_main.h"
