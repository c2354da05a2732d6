// C17: connectivity, boundaries and validation
#include "trimesh.h"
#include "ref.h"
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)

template<class T> void judge(const Built<T>& b, const Ref& m, const std::set<size_t>& flagged, bool bounds)
{
	const auto& M = b.mesh;
	auto F = faces(m);
	if (M.vertices().size() != m.p.size() || M.elements().size() != m.t.size()) BAD("sizes", "%zu vertices, %zu elements", M.vertices().size(), M.elements().size());
	std::vector<std::vector<size_t> > uses(m.p.size()); for (size_t e = 0; e < m.t.size(); ++e) for (size_t k : m.t[e].v) uses[k].push_back(e);
	for (size_t i = 0; i < m.p.size(); ++i)
	{
		auto v = M.vertex(i);
		if (v != b.v[i] || v->GlobalIndex != i) BAD("vertex", "vertex %zu has the index %zu", i, (size_t)v->GlobalIndex);
		if (v->Vertex[0] != (T)m.p[i][0] || v->Vertex[1] != (T)m.p[i][1]) BAD("vertex", "coordinates of vertex %zu changed", i);
		std::multiset<MeshElement<T, 2>*> have(v->Elements.begin(), v->Elements.end()), want;
		for (size_t e : uses[i]) want.insert(b.e[e]);
		if (have != want) BAD("back references", "vertex %zu lists %zu elements instead of %zu", i, have.size(), want.size());
	}
	for (size_t e = 0; e < m.t.size(); ++e) for (size_t k = 0; k < 3; ++k)
	{
		if (M.element(e) != b.e[e] || b.e[e]->Vertices[k] != b.v[m.t[e].v[k]]) BAD("element", "element %zu", e);
		auto q = b.e[e]->Element[k];
		if (q[0] != (T)m.p[m.t[e].v[k]][0] || q[1] != (T)m.p[m.t[e].v[k]][1]) BAD("element", "coordinates of element %zu", e);
	}
	if (M.edges().size() != F.size()) BAD("faces", "%s: %zu faces instead of %zu", m.kind, M.edges().size(), F.size());
	std::set<Edge> seen; size_t inner = 0;
	for (size_t i = 0; i < F.size(); ++i)
	{
		auto g = M.edge(i);
		if (g != M.edges()[i] || !g->Vertices[0] || !g->Vertices[1]) BAD("face", "face %zu without vertices", i);
		size_t x = g->Vertices[0]->GlobalIndex, y = g->Vertices[1]->GlobalIndex;
		if (x >= b.v.size() || y >= b.v.size() || b.v[x] != g->Vertices[0] || b.v[y] != g->Vertices[1]) BAD("face", "face %zu has foreign vertices", i);
		Edge k = mk(x, y); auto it = F.find(k);
		if (it == F.end()) BAD("face", "%s: face %zu joins the vertices %zu and %zu, which share no element", m.kind, i, x, y);
		if (!seen.insert(k).second) BAD("face twice", "%s: %zu-%zu", m.kind, x, y);
		if (!g->Elements[0]) BAD("face element", "%s: %zu-%zu has no first element", m.kind, x, y);
		std::multiset<MeshElement<T, 2>*> have, want;
		for (auto p : g->Elements) if (p) have.insert(p);
		for (auto& p : it->second) want.insert(b.e[p.first]);
		if (have != want) BAD("face element", "%s: face %zu-%zu has %zu elements instead of %zu or others", m.kind, x, y, have.size(), want.size());
		for (auto& p : it->second) if (b.e[p.first]->Neighbors[p.second] != g) BAD("neighbour", "%s: face %zu-%zu is not registered in element %zu opposite its vertex %zu", m.kind, x, y, p.first, p.second);
		if (it->second.size() == 2) ++inner;
	}
	std::vector<char> border(m.p.size()); for (auto& f : F) if (f.second.size() == 1) border[f.first.first] = border[f.first.second] = 1;
	for (size_t i = 0; i < m.p.size(); ++i)
	{
		bool bd = border[i];
		unsigned want = (flagged.count(i) ? MVF_Implicit : 0) | (bounds && bd ? MVF_StrongBoundary : 0);
		if (b.v[i]->Flags != want) BAD("flags", "%s: vertex %zu has the flags %u instead of %u", m.kind, i, (unsigned)b.v[i]->Flags, want);
		if (bounds) count(bd ? "boundary-vertices" : "inner-vertices");
	}
	count("inner-faces", inner); count("boundary-faces", F.size() - inner);
}
enum Ex { NONE, INDEX, ISOLATED, VERTEX_ELEMENT, INCOMPLETE, ZERO, NEIGHBOUR, OTHER_MESH };
static const char* exname[] = {"none", "InvalidVertexIndex", "IsolatedVertex", "MalformedVertexElementConnection", "IncompleteElement", "ZeroVolumeSimplex", "MalformedElementNeighborConnection", "another mesh exception"};
template<class T> Ex validate(const Mesh<T, 2>& m)
{
	label("validate");
	try { m.validate(); return NONE; }
	catch (const InvalidVertexIndexException&) { return INDEX; }
	catch (const IsolatedVertexException&) { return ISOLATED; }
	catch (const MalformedVertexElementConnectionException&) { return VERTEX_ELEMENT; }
	catch (const IncompleteElementException&) { return INCOMPLETE; }
	catch (const ZeroVolumeSimplexException&) { return ZERO; }
	catch (const MalformedElementNeighborConnectionException&) { return NEIGHBOUR; }
	catch (const MeshException&) { return OTHER_MESH; }
}
template<class T> void corrupt(Rng& r, Built<T>& b, const Ref& m)
{
	size_t nv = b.v.size(), ne = b.e.size();
	auto& M = b.mesh;
	auto expect = [&](const char* what, std::initializer_list<Ex> ok)
	{
		Ex e = validate(M);
		if (std::find(ok.begin(), ok.end(), e) == ok.end()) BAD(fmt("validate/%s", what).c_str(), "%s: %s, expected %s", m.kind, exname[e], exname[*ok.begin()]);
		count(fmt("rejected:%s", what).c_str());
	};
	for (int h = 0; h < 11; ++h)
	{
		size_t i = r.below(nv), e = r.below(ne), k = r.below(3);
		if (r.chance(0.3)) { i = r.chance(0.5) ? 0 : nv - 1; e = r.chance(0.5) ? 0 : ne - 1; }
		auto v = b.v[i]; auto s = b.e[e];
		switch (h)
		{
		case 0: { auto o = v->GlobalIndex; v->GlobalIndex = r.chance(0.5) ? o + 1 : o + nv; expect("index", {INDEX}); v->GlobalIndex = o; break; }
		case 1: if (nv > 1) { size_t j = (i + 1 + r.below(nv - 1)) % nv; std::swap(v->GlobalIndex, b.v[j]->GlobalIndex); expect("indices swapped", {INDEX}); std::swap(v->GlobalIndex, b.v[j]->GlobalIndex); } break;
		case 2: { auto o = v->Elements; v->Elements.clear(); expect("isolated", {ISOLATED}); v->Elements = o; break; }
		case 3: { MeshElement<T, 2>* f = nullptr; for (size_t z = 0; z < ne; ++z) { auto c = b.e[(e + z) % ne]; if (c->Vertices[0] != v && c->Vertices[1] != v && c->Vertices[2] != v) { f = c; break; } }
			if (f) { size_t p = r.below(v->Elements.size() + 1); v->Elements.insert(v->Elements.begin() + p, f); expect("foreign element", {VERTEX_ELEMENT}); v->Elements.erase(v->Elements.begin() + p); } break; }
		case 4: { auto o = s->Vertices[k]; s->Vertices[k] = nullptr; auto l = o->Elements;
			if (l.size() > 1) { o->Elements.erase(std::find(o->Elements.begin(), o->Elements.end(), s)); expect("missing vertex", {INCOMPLETE}); count("missing-vertex-only"); }
			else expect("missing vertex", {INCOMPLETE, VERTEX_ELEMENT});
			o->Elements = l; s->Vertices[k] = o; break; }
		case 5: { auto o = v->Vertex; v->Vertex[r.below(2)] += (T)(r.chance(0.5) ? 0.5 : -2); expect("stale coordinates", {INCOMPLETE}); v->Vertex = o; break; }
		case 6: { auto o = s->Element[k]; s->Element[k][r.below(2)] += (T)(r.chance(0.5) ? 0.25 : -8); expect("stale element", {INCOMPLETE}); s->Element[k] = o; break; }
		case 7: { auto o = s->Neighbors[k]; s->Neighbors[k] = nullptr; expect("missing neighbour", {NEIGHBOUR}); s->Neighbors[k] = o; break; }
		case 8: { // collapse one element: its vertex 0 is moved onto another of its vertices, consistently everywhere
			auto a = s->Vertices[0], c = s->Vertices[1 + r.below(2)]; if (r.chance(0.5)) std::swap(a, c);
			auto o = a->Vertex; a->Vertex = c->Vertex;
			for (auto q : a->Elements) for (size_t z = 0; z < 3; ++z) q->Element[z] = q->Vertices[z]->Vertex;
			M.prepare(); expect("zero volume", {ZERO});
			a->Vertex = o; for (auto q : a->Elements) for (size_t z = 0; z < 3; ++z) q->Element[z] = q->Vertices[z]->Vertex;
			M.prepare(); break; }
		case 9: { auto o = s->Vertices[k]; size_t j = r.below(nv); if (b.v[j] != s->Vertices[0] && b.v[j] != s->Vertices[1] && b.v[j] != s->Vertices[2]) { s->Vertices[k] = b.v[j]; expect("exchanged vertex", {VERTEX_ELEMENT, INCOMPLETE}); s->Vertices[k] = o; } break; }
		default: { auto x = new MeshVertex<T, 2>(v->Vertex); M.addVertex(x); expect("isolated added", {ISOLATED}); return; }
		}
		Ex f = validate(M);
		if (f != NONE) BAD("validate/restored", "%s: %s after restoring corruption %d", m.kind, exname[f], h);
	}
}
template<class T> void mesh_case(Rng& r)
{
	Ref m = random_ref(r, r.chance(HUGE_CHANCE) ? HUGE_MESH : 30); trimesh::trace(m);
	Built<T> b; std::set<size_t> flagged;
	label("build");
	if (r.chance(0.3)) { b.mesh.reserveVertices(m.p.size()); b.mesh.reserveElements(m.t.size()); }
	add_vertices(b, m);
	for (size_t i = 0; i < m.p.size(); ++i) if (r.chance(0.2)) { flagged.insert(i); b.v[i]->Flags = MVF_Implicit; }
	for (auto& t : m.t) add_element(b, t);
	label("setupNeighbors"); b.mesh.setupNeighbors();
	judge(b, m, flagged, false);
	label("setupBoundaries"); b.mesh.setupBoundaries();
	judge(b, m, flagged, true);
	label("prepare"); b.mesh.prepare();
	for (size_t e = 0; e < b.e.size(); ++e) { ld a = 0.5L * std::fabs(area2(m, m.t[e])); if (!(std::fabs((ld)b.e[e]->Element.volume() - a) <= 1e-3L * a + 1e-3L)) BAD("prepare", "element %zu has the volume %Lg instead of %Lg", e, (ld)b.e[e]->Element.volume(), a); }
	Ex x = validate(b.mesh);
	if (x != NONE) BAD("validate/correct mesh", "%s rejected: %s", m.kind, exname[x]);
	count("accepted");
	if (r.chance(0.3)) { label("again"); b.mesh.setupNeighbors(); b.mesh.setupBoundaries(); judge(b, m, flagged, true); count("set-up-again"); }
	corrupt(r, b, m);
	count(m.kind);
	distinct(trimesh::hash(m));
	sample(sh->trace);
}
// new vertices, faces and elements carry nothing, whatever the memory held before
template<class T> void fresh(Rng& r)
{
	alignas(64) unsigned char buf[sizeof(MeshElement<T, 2>) + sizeof(MeshVertex<T, 2>) + sizeof(MeshEdge<T, 2>)];
	auto poison = [&] { memset(buf, (int)r.range(1, 255), sizeof buf); };
	label("fresh");
	poison(); { auto v = new (buf) MeshVertex<T, 2>(); if (v->Flags || v->GlobalIndex || !v->Elements.empty() || v->Vertex[0] != (T)0 || v->Vertex[1] != (T)0) BAD("fresh", "a new vertex has flags %u, index %zu", (unsigned)v->Flags, (size_t)v->GlobalIndex); v->~MeshVertex<T, 2>(); }
	FixedVector<T, 2> x; x[0] = (T)r.normal(); x[1] = (T)r.normal();
	poison(); { auto v = new (buf) MeshVertex<T, 2>(x); if (v->Flags || v->GlobalIndex || !v->Elements.empty() || v->Vertex[0] != x[0] || v->Vertex[1] != x[1]) BAD("fresh", "a new vertex has flags %u, index %zu", (unsigned)v->Flags, (size_t)v->GlobalIndex); v->~MeshVertex<T, 2>(); }
	poison(); { auto f = new (buf) MeshEdge<T, 2>(); if (f->Vertices[0] || f->Vertices[1] || f->Elements[0] || f->Elements[1] || !f->DOFVertices.empty()) BAD("fresh", "a new face is connected"); f->~MeshEdge<T, 2>(); }
	poison(); { auto e = new (buf) MeshElement<T, 2>(); for (int k = 0; k < 3; ++k) { if (e->Vertices[k] || e->Neighbors[k]) BAD("fresh", "a new element is connected"); for (int c = 0; c < 2; ++c) if (e->Element[k][c] != (T)0) BAD("fresh", "a new element has coordinates"); } if (!e->DOFVertices.empty()) BAD("fresh", "a new element has degrees of freedom"); e->~MeshElement<T, 2>(); }
	count("fresh-objects");
}
template<class T> void crowded(Rng& r)
{
	fresh<T>(r);
	Ref m = random_ref(r, 12); auto F = faces(m);
	// one more element, or two, on a face, at a random place in the order
	auto it = F.begin(); std::advance(it, r.below(F.size()));
	size_t add = it->second.size() == 2 ? 1 + r.below(2) : 2;
	for (size_t z = 0; z < add; ++z) { size_t id = m.p.size(); m.p.push_back({{100.0 + z, 50.0}}); Tri t{{it->first.first, it->first.second, id}}; r.shuffle(*(std::array<size_t, 3>*)t.v); m.t.insert(m.t.begin() + r.below(m.t.size() + 1), t); }
	trimesh::trace(m);
	Built<T> b; add_vertices(b, m); for (auto& t : m.t) add_element(b, t);
	label("setupNeighbors"); bool threw = false;
	try { b.mesh.setupNeighbors(); } catch (const TooManySharedFacesException&) { threw = true; }
	if (!threw) BAD("too many shared faces", "face %zu-%zu of %zu elements accepted", it->first.first, it->first.second, it->second.size() + add);
	count("crowded-face");
	distinct(trimesh::hash(m));
}
namespace vh { const char* property = "C17"; }
void vh::run_case(Rng& r, u64 idx)
{
	if (idx % 6 == 5) idx & 1 ? crowded<double>(r) : crowded<VF>(r);
	else if (idx % 6 == 4) mesh_case<VF>(r);
	else mesh_case<double>(r);
}
#include "vh_main.h"
