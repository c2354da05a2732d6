// C21: degree-of-freedom layout of prepared meshes
#include "trimesh.h"
#include "ref.h"
#include "sf/PolyShapeFunction.h"
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)

template<class T, Dimension O> void go(Rng& r)
{
	typedef PolyShapeFunction<T, 2, O> F;
	const ld eps = std::numeric_limits<T>::epsilon();
	Ref m = random_ref(r, r.chance(HUGE_CHANCE) ? HUGE_MESH : 30);
	if (r.chance(0.3)) { double s = r.pick({0.1, 3.3, 17.0}), dx = r.uni(-9, 9), dy = r.uni(-9, 9); for (auto& p : m.p) { p[0] = p[0] * s + dx; p[1] = p[1] * s + dy; } count("general-coordinates"); }
	// exactly representable in T
	for (auto& p : m.p) for (auto& c : p) c = (double)(T)c;
	tr("order %d", (int)O); trimesh::trace(m);
	Built<T> b; std::vector<unsigned> fl(m.p.size(), 0);
	add_vertices(b, m);
	for (size_t i = 0; i < m.p.size(); ++i) if (r.chance(0.1)) fl[i] = b.v[i]->Flags = MVF_Implicit;
	for (auto& t : m.t) add_element(b, t);
	b.mesh.setupNeighbors();
	auto FC = faces(m); const size_t nv = m.p.size(), ne = m.t.size(), nf = FC.size();
	int when = (int)r.below(3);// boundaries before, after, never
	bool prep_before = r.chance(0.5);
	if (when == 0) b.mesh.setupBoundaries();
	if (prep_before) b.mesh.prepare();
	label("prepareMesh");
	{ Mesh<T, 2> h = b.mesh; if (r.chance(0.3)) { F::prepareMesh(h); count("through-another-handle"); } else if (r.chance(0.5)) PolyShapePolicy<T, 2, O>::prepareMesh(b.mesh); else F::prepareMesh(b.mesh); }
	if (!prep_before) b.mesh.prepare();
	if (when == 1) b.mesh.setupBoundaries();
	label("judge");
	if (when != 2) for (auto& f : FC) if (f.second.size() == 1) { fl[f.first.first] |= MVF_StrongBoundary; fl[f.first.second] |= MVF_StrongBoundary; }

	const auto& M = b.mesh;
	size_t want = nv + (O == 2 ? nf : 0);
	if (M.vertices().size() != want || M.elements().size() != ne || M.edges().size() != nf) BAD("sizes", "%s: %zu vertices, %zu elements, %zu edges instead of %zu, %zu, %zu", m.kind, M.vertices().size(), M.elements().size(), M.edges().size(), want, ne, nf);
	std::set<const void*> ptrs;
	std::vector<std::vector<size_t> > uses(nv); for (size_t e = 0; e < ne; ++e) for (size_t k : m.t[e].v) uses[k].push_back(e);
	for (size_t i = 0; i < want; ++i)
	{
		auto v = M.vertex(i);
		if (!v || v->GlobalIndex != i || !ptrs.insert(v).second) BAD("global index", "vertex %zu has the number %zu", i, v ? (size_t)v->GlobalIndex : 0);
		if (i < nv)
		{
			if (v != b.v[i] || (double)v->Vertex[0] != m.p[i][0] || (double)v->Vertex[1] != m.p[i][1]) BAD("vertex changed", "vertex %zu", i);
			if (v->Flags != fl[i]) BAD("vertex flags", "vertex %zu has the flags %u instead of %u", i, (unsigned)v->Flags, fl[i]);
			std::multiset<MeshElement<T, 2>*> have(v->Elements.begin(), v->Elements.end()), w;
			for (size_t e : uses[i]) w.insert(b.e[e]);
			if (have != w) BAD("vertex elements", "vertex %zu lists %zu elements instead of %zu", i, have.size(), w.size());
		}
	}
	// elements
	std::map<Edge, MeshVertex<T, 2>*> mid; std::map<MeshVertex<T, 2>*, Edge> rev;
	static const int ends[3][2] = {{0, 1}, {1, 2}, {2, 0}};
	for (size_t e = 0; e < ne; ++e)
	{
		auto q = b.e[e]; const auto& D = q->DOFVertices;
		if (D.size() != (O == 2 ? 6u : 3u)) BAD("element size", "%s: element %zu has %zu degrees of freedom", m.kind, e, D.size());
		for (size_t k = 0; k < 3; ++k)
		{
			if (q->Vertices[k] != b.v[m.t[e].v[k]] || D[k] != q->Vertices[k]) BAD("element vertices", "%s: element %zu, vertex %zu", m.kind, e, k);
			for (int c = 0; c < 2; ++c) if ((double)q->Element[k][c] != m.p[m.t[e].v[k]][c]) BAD("element vertices", "%s: coordinates of element %zu", m.kind, e);
		}
		if (O == 2) for (int k = 0; k < 3; ++k)
		{
			size_t x = m.t[e].v[ends[k][0]], y = m.t[e].v[ends[k][1]]; auto v = D[3 + k];
			if (!v || !ptrs.count(v) || v->GlobalIndex < nv) BAD("midpoint", "%s: degree of freedom %d of element %zu is no new vertex", m.kind, 3 + k, e);
			for (int c = 0; c < 2; ++c)
			{
				ld w = ((ld)m.p[x][c] + m.p[y][c]) / 2;
				if (!(std::fabs((ld)v->Vertex[c] - w) <= eps * (std::fabs((ld)m.p[x][c]) + std::fabs((ld)m.p[y][c])))) BAD("midpoint position", "%s: degree of freedom %d of element %zu is at %.17Lg instead of %.17Lg", m.kind, 3 + k, e, (ld)v->Vertex[c], w);
			}
			auto ed = mk(x, y); auto it = mid.find(ed);
			if (it == mid.end()) { if (!rev.insert({v, ed}).second) BAD("midpoint of two edges", "%s: element %zu", m.kind, e); mid[ed] = v; }
			else if (it->second != v) BAD("midpoint not shared", "%s: edge %zu-%zu has several midpoints", m.kind, x, y);
			else count("shared-midpoints");
		}
	}
	if (O == 2) for (auto& f : FC)
	{
		auto v = mid[f.first]; std::multiset<MeshElement<T, 2>*> have(v->Elements.begin(), v->Elements.end()), w;
		for (auto& p : f.second) w.insert(b.e[p.first]);
		if (have != w) BAD("midpoint elements", "%s: midpoint of %zu-%zu lists %zu elements instead of %zu", m.kind, f.first.first, f.first.second, have.size(), w.size());
		unsigned wf = MVF_Implicit | (f.second.size() == 1 ? MVF_StrongBoundary : 0);
		if (v->Flags != wf) BAD("midpoint flags", "%s: midpoint of %zu-%zu has the flags %u instead of %u", m.kind, f.first.first, f.first.second, (unsigned)v->Flags, wf);
		count(f.second.size() == 1 ? "boundary-midpoints" : "inner-midpoints");
		if (f.second.size() == 2 && (fl[f.first.first] & MVF_StrongBoundary) && (fl[f.first.second] & MVF_StrongBoundary)) count("inner-edge-between-boundary-vertices");
	}
	// edges
	for (auto g : M.edges())
	{
		if (!g || !g->Vertices[0] || !g->Vertices[1]) BAD("edge", "no vertices");
		auto ed = mk(g->Vertices[0]->GlobalIndex, g->Vertices[1]->GlobalIndex); auto it = FC.find(ed);
		if (it == FC.end()) BAD("edge", "%zu-%zu is no edge", ed.first, ed.second);
		if (g->DOFVertices.size() != (O == 2 ? 3u : 2u)) BAD("edge size", "%s: edge %zu-%zu has %zu degrees of freedom", m.kind, ed.first, ed.second, g->DOFVertices.size());
		for (int k = 0; k < 2; ++k) if (g->DOFVertices[k] != g->Vertices[k]) BAD("edge vertices", "%s: edge %zu-%zu", m.kind, ed.first, ed.second);
		if (O == 2 && g->DOFVertices[2] != mid[ed]) BAD("edge midpoint", "%s: edge %zu-%zu", m.kind, ed.first, ed.second);
		for (auto& p : it->second) if (b.e[p.first]->Neighbors[p.second] != g) BAD("edge neighbour", "%s: edge %zu-%zu", m.kind, ed.first, ed.second);
	}
	// the degrees of freedom are the nodes of the shape functions
	F f;
	for (int z = 0; z < 3; ++z)
	{
		auto q = b.e[r.below(ne)]; const auto& D = q->DOFVertices;
		FixedVector<T, 2> x; x[0] = (T)r.uni(); x[1] = (T)(r.uni() * (1 - (double)x[0]));
		auto g = q->Element.toGlobal(x); ld scale = 0, s[2] = {};
		for (size_t i = 0; i < D.size(); ++i) { T v = f.value(i, x); for (int c = 0; c < 2; ++c) { s[c] += (ld)v * (ld)D[i]->Vertex[c]; scale = std::max(scale, std::fabs((ld)D[i]->Vertex[c])); } }
		for (int c = 0; c < 2; ++c) if (!(std::fabs(s[c] - (ld)g[c]) <= 60 * eps * (scale + 1))) BAD("node order", "%s: interpolated coordinates %.10Lg instead of %.10Lg", m.kind, s[c], (ld)g[c]);
		count("points-interpolated");
	}
	label("validate");
	try { M.validate(); } catch (const MeshException&) { BAD("validate", "%s: prepared mesh of order %d rejected", m.kind, (int)O); }
	count(O == 2 ? "quadratic" : "linear");
	if (O == 2)
	{// a foreign element at a midpoint
		auto it = mid.begin(); std::advance(it, r.below(mid.size())); auto v = it->second; MeshElement<T, 2>* o = nullptr;
		size_t s = r.below(ne); for (size_t z = 0; z < ne && !o; ++z) { auto c = b.e[(s + z) % ne]; if (std::find(v->Elements.begin(), v->Elements.end(), c) == v->Elements.end()) o = c; }
		if (o)
		{
			bool threw = false; v->Elements.push_back(o);
			try { M.validate(); } catch (const MalformedVertexElementConnectionException&) { threw = true; } catch (const MeshException&) {}
			if (!threw) BAD("validate/foreign element", "%s: accepted", m.kind);
			v->Elements.pop_back(); count("foreign-element-rejected");
		}
		size_t g = v->GlobalIndex; v->GlobalIndex = g + 1; bool threw = false;
		try { M.validate(); } catch (const InvalidVertexIndexException&) { threw = true; } catch (const MeshException&) {}
		if (!threw) BAD("validate/index", "%s: accepted", m.kind);
		v->GlobalIndex = g;
	}
	count(m.kind); count(when == 0 ? "boundaries-first" : when == 1 ? "boundaries-last" : "boundaries-never");
	distinct(hash2(trimesh::hash(m), O)); sample(sh->trace);
}
namespace vh { const char* property = "C21"; }
void vh::run_case(Rng& r, u64)
{
	switch (r.below(6)) { case 0: go<double, 1>(r); break; case 1: go<VF, 1>(r); break; case 2: go<VF, 2>(r); break; default: go<double, 2>(r); break; }
}
#include "vh_main.h"
