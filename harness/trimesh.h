// Reference triangulations (plain arrays) and their transfer into meshes.
#pragma once
#include "vh.h"
#include "mesh/Mesh.h"
namespace trimesh {
using namespace NS;
using vh::Rng; using vh::ld; using vh::tr;
struct Tri { size_t v[3]; };
struct Ref { std::vector<std::array<double, 2> > p; std::vector<Tri> t; const char* kind; };

inline double area2(const Ref& m, const Tri& t)
{
	auto &a = m.p[t.v[0]], &b = m.p[t.v[1]], &c = m.p[t.v[2]];
	return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
typedef std::pair<size_t, size_t> Edge;
inline Edge mk(size_t a, size_t b) { return a < b ? Edge(a, b) : Edge(b, a); }
// faces -> (element, local index of the opposite vertex)
inline std::map<Edge, std::vector<std::pair<size_t, size_t> > > faces(const Ref& m)
{
	std::map<Edge, std::vector<std::pair<size_t, size_t> > > f;
	for (size_t e = 0; e < m.t.size(); ++e) for (size_t i = 0; i < 3; ++i) f[mk(m.t[e].v[(i + 1) % 3], m.t[e].v[(i + 2) % 3])].push_back({e, i});
	return f;
}
// grid nx x ny with integer coordinates (times h), random diagonals, optional holes
inline Ref grid(Rng& r, size_t nx, size_t ny, double hole, double h = 1)
{
	Ref m; m.kind = hole > 0 ? "grid with holes" : "grid";
	for (size_t j = 0; j <= ny; ++j) for (size_t i = 0; i <= nx; ++i) m.p.push_back({{i * h, j * h}});
	for (size_t j = 0; j < ny; ++j) for (size_t i = 0; i < nx; ++i)
	{
		size_t a = j * (nx + 1) + i, b = a + 1, c = a + nx + 1, d = c + 1;
		bool x = r.chance(0.5); Tri t1 = x ? Tri{{a, b, d}} : Tri{{a, b, c}}, t2 = x ? Tri{{a, d, c}} : Tri{{b, d, c}};
		if (!r.chance(hole)) m.t.push_back(t1);
		if (!r.chance(hole)) m.t.push_back(t2);
	}
	if (m.t.empty()) m.t.push_back(Tri{{0, 1, nx + 1}});
	return m;
}
// keeps only used vertices
inline void compact(Ref& m)
{
	std::vector<size_t> id(m.p.size(), (size_t)-1); Ref n; n.kind = m.kind;
	for (auto& t : m.t) for (auto& v : t.v) { if (id[v] == (size_t)-1) { id[v] = n.p.size(); n.p.push_back(m.p[v]); } v = id[v]; }
	n.t = m.t; m = n;
}
inline Ref grown(Rng& r, size_t n)
{// repeated splitting of elements and faces and attaching to the boundary
	Ref m; m.kind = "grown"; m.p = {{{0, 0}}, {{64, 0}}, {{0, 64}}}; m.t = {Tri{{0, 1, 2}}};
	while (m.t.size() < n)
	{
		size_t e = r.below(m.t.size()); Tri t = m.t[e]; double a = std::fabs(area2(m, t));
		int h = (int)r.below(3);
		if (h == 0 && a > 1)
		{// 1 -> 3
			std::array<double, 2> c = {{0, 0}}; double w[3] = {2, 1, 1}; std::swap(w[0], w[r.below(3)]);
			for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) c[k] += m.p[t.v[i]][k] * w[i] / 4;
			size_t id = m.p.size(); m.p.push_back(c);
			m.t[e] = Tri{{t.v[0], t.v[1], id}}; m.t.push_back(Tri{{t.v[1], t.v[2], id}}); m.t.push_back(Tri{{t.v[2], t.v[0], id}});
		}
		else if (h == 1 && a > 1)
		{// split a face in both elements
			size_t i = r.below(3); size_t x = t.v[(i + 1) % 3], y = t.v[(i + 2) % 3], id = m.p.size();
			m.p.push_back({{(m.p[x][0] + m.p[y][0]) / 2, (m.p[x][1] + m.p[y][1]) / 2}});
			for (size_t q = 0, c = m.t.size(); q < c; ++q)
			{
				Tri u = m.t[q]; int hx = -1, hy = -1; for (int k = 0; k < 3; ++k) { if (u.v[k] == x) hx = k; if (u.v[k] == y) hy = k; }
				if (hx < 0 || hy < 0) continue;
				Tri u1 = u, u2 = u; u1.v[hx] = id; u2.v[hy] = id; m.t[q] = u1; m.t.push_back(u2);
			}
		}
		else
		{// a new element on a boundary face: topology only matters, geometry may overlap
			auto f = faces(m); std::vector<Edge> b; for (auto& q : f) if (q.second.size() == 1) b.push_back(q.first);
			if (b.empty()) continue;
			Edge g = r.pick(b); size_t id = m.p.size();
			auto x = m.p[g.first], y = m.p[g.second]; double nx = y[1] - x[1], ny = x[0] - y[0]; if (r.chance(0.5)) { nx = -nx; ny = -ny; }
			m.p.push_back({{(x[0] + y[0]) / 2 + nx / 2, (x[1] + y[1]) / 2 + ny / 2}}); m.t.push_back(Tri{{g.first, g.second, id}});
		}
	}
	return m;
}
inline Ref fan(Rng& r, size_t n, bool closed)
{
	Ref m; m.kind = closed ? "closed fan" : "fan"; m.p.push_back({{0, 0}});
	for (size_t i = 0; i < n; ++i) { double w = 6.2831853 * i / (closed ? n : n + 3); m.p.push_back({{8 * std::cos(w), 8 * std::sin(w)}}); }
	for (size_t i = 0; i + 1 < n; ++i) m.t.push_back(Tri{{0, i + 1, i + 2}});
	if (closed) m.t.push_back(Tri{{0, n, 1}});
	(void)r;
	return m;
}
inline void append(Ref& a, const Ref& b, double dx)
{
	size_t o = a.p.size();
	for (auto q : b.p) { q[0] += dx; a.p.push_back(q); }
	for (auto t : b.t) { for (auto& v : t.v) v += o; a.t.push_back(t); }
}
// vertex, element and face numbers beyond 16 bits
const size_t HUGE_MESH = 1000000;
inline Ref random_ref(Rng& r, size_t big = 30)
{
	Ref m;
#ifdef NDEBUG // far beyond the usual sizes, only in the optimized flavor
	const bool wide = r.chance(0.0004);
#else
	const bool wide = false;
#endif
	if (big == HUGE_MESH) { vh::extend(200); if (r.chance(0.3)) m = grid(r, r.range(32768, 35000), 1, 0); else { m = grid(r, r.range(256, 270), r.range(256, 265), r.chance(0.5) ? 0 : 0.001); } }
	else if (wide) switch (r.below(5))
	{
	case 0: m = grid(r, r.range(6, 25), r.range(6, 25), r.chance(0.5) ? 0 : 0.2); break;
	case 1: m = grown(r, r.range(40, 250)); break;
	case 2: m = fan(r, r.range(10, 150), true); break;
	case 3: m = grid(r, r.range(100, 300), 1, 0); break;
	default: m = grid(r, 2, r.range(30, 140), 0.1); break;
	}
	else switch (r.below(8))
	{
	case 0: m = grid(r, r.range(1, 5), r.range(1, 5), 0); break;
	case 1: m = grid(r, r.range(1, 5), r.range(1, 5), 0.3); break;
	case 2: case 3: m = grown(r, r.range(1, (long)big)); break;
	case 4: m = fan(r, r.chance(0.05) ? r.range(10, 40) : r.range(2, 9), false); break;
	case 5: m = fan(r, r.chance(0.05) ? r.range(10, 40) : r.range(3, 9), true); break;
	case 6: m = grown(r, r.range(1, 8)); append(m, grid(r, r.range(1, 3), r.range(1, 2), 0.2), 300); m.kind = "several components"; break;
	default: { // two triangles touching in one vertex, a strip, a single triangle
		if (r.chance(0.3)) { m.kind = "bow tie"; m.p = {{{0, 0}}, {{1, 1}}, {{1, -1}}, {{-1, 1}}, {{-1, -1}}}; m.t = {Tri{{0, 1, 2}}, Tri{{0, 3, 4}}}; }
		else if (r.chance(0.5)) m = grid(r, r.range(1, 12), 1, 0);
		else { m.kind = "single"; m.p = {{{0, 0}}, {{3, 1}}, {{1, 4}}}; m.t = {Tri{{0, 1, 2}}}; }
		break; }
	}
	compact(m);
	// orientation, order of the vertices of an element, of the elements and of the vertices
	for (auto& t : m.t) { size_t k = r.below(3); std::rotate(t.v, t.v + k, t.v + 3); if (r.chance(0.5)) std::swap(t.v[0], t.v[1]); }
	if (r.chance(0.7)) r.shuffle(m.t);
	if (r.chance(0.7))
	{
		std::vector<size_t> o(m.p.size()); for (size_t i = 0; i < o.size(); ++i) o[i] = i; r.shuffle(o);
		auto q = m.p; for (size_t i = 0; i < o.size(); ++i) m.p[o[i]] = q[i];
		for (auto& t : m.t) for (auto& v : t.v) v = o[v];
	}
	return m;
}
template<class T> struct Built { Mesh<T, 2> mesh; std::vector<MeshVertex<T, 2>*> v; std::vector<MeshElement<T, 2>*> e; };
template<class T> void add_vertices(Built<T>& b, const Ref& m)
{
	for (auto& p : m.p) { FixedVector<T, 2> x; x[0] = (T)p[0]; x[1] = (T)p[1]; auto v = new MeshVertex<T, 2>(x); b.mesh.addVertex(v); b.v.push_back(v); }
}
template<class T> void add_element(Built<T>& b, const Tri& t)
{
	auto e = new MeshElement<T, 2>(); for (size_t i = 0; i < 3; ++i) e->Vertices[i] = b.v[t.v[i]];
	b.mesh.addElement(e); b.e.push_back(e);
}
inline void trace(const Ref& m)
{
	tr("%s: %zu vertices, elements ", m.kind, m.p.size());
	for (auto& t : m.t) tr("%zu-%zu-%zu ", t.v[0], t.v[1], t.v[2]);
}
inline vh::u64 hash(const Ref& m) { return vh::hash2(vh::hash_bytes(m.t.data(), m.t.size() * sizeof(Tri)), vh::hash_bytes(m.p.data(), m.p.size() * 16)); }
}
