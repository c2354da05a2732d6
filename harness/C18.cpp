// C18: the rectangle generator
#include "ref.h"
#include "mesh/HyperCube.h"
using namespace NS;
using namespace ref;
using namespace vh;
#define BAD(what, ...) do { viol(fmt("%s/%s", Sc<T>::name(), what).c_str(), __VA_ARGS__); throw Stop(); } while (0)

template<class T> void cube(Rng& r, size_t nx, size_t ny, int cls)
{
	const ld eps = Sc<T>::eps();
	FixedVector<Dimension, 2> n; n[0] = nx; n[1] = ny;
	FixedVector<T, 2> size, off;
	for (int i = 0; i < 2; ++i)
	{
		size[i] = (T)(cls == 0 ? 1.0 : cls == 1 ? (double)r.range(1, 40) : std::pow(2.0, r.uni(-4, 8)));
		off[i] = (T)(cls == 0 ? 0.0 : cls == 1 ? (double)r.range(-20, 20) : r.chance(0.3) ? 0.0 : r.uni(-1, 1) * std::pow(10.0, r.uni(-2, 2)));
	}
	tr("%s %zux%zu size %.9Lg,%.9Lg offset %.9Lg,%.9Lg", Sc<T>::name(), nx, ny, (ld)size[0], (ld)size[1], (ld)off[0], (ld)off[1]);
	label("generate");
	if (nx == 0 || ny == 0)
	{
		bool threw = false;
		try { HyperCube<T, 2>::generate(n, size, off); } catch (const InvalidElementCountException&) { threw = true; }
		if (!threw) BAD("zero cells", "%zux%zu accepted", nx, ny);
		count("zero-cells-rejected");
		distinct(hash2(nx, ny));
		return;
	}
	Mesh<T, 2> m = HyperCube<T, 2>::generate(n, size, off);
	label("judge");
	size_t nv = (nx + 1) * (ny + 1), ne = 2 * nx * ny;
	if (m.vertices().size() != nv || m.elements().size() != ne) BAD("counts", "%zux%zu: %zu vertices, %zu elements", nx, ny, m.vertices().size(), m.elements().size());
	ld h[2] = {(ld)size[0] / nx, (ld)size[1] / ny};
	size_t cells[2] = {nx, ny};
	std::vector<char> seen(nv, 0); std::map<const MeshVertex<T, 2>*, size_t> id;
	for (size_t i = 0; i < nv; ++i)
	{
		auto v = m.vertex(i); size_t g[2];
		if (v->GlobalIndex != i) BAD("index", "vertex %zu has the index %zu", i, (size_t)v->GlobalIndex);
		for (int k = 0; k < 2; ++k)
		{
			ld x = ((ld)v->Vertex[k] - (ld)off[k]) / h[k], q = std::round(x), tol = 6 * eps * (std::fabs((ld)off[k]) + 2 * (ld)size[k]);
			if (!(q >= 0 && q <= cells[k]) || !(std::fabs((ld)v->Vertex[k] - (ld)off[k] - q * h[k]) <= tol)) BAD("grid point", "%zux%zu: vertex %zu has the coordinate %.12Lg in direction %d, no grid coordinate", nx, ny, i, (ld)v->Vertex[k], k);
			g[k] = (size_t)q;
		}
		size_t s = g[1] * (nx + 1) + g[0];
		if (seen[s]) BAD("grid point twice", "%zux%zu: %zu,%zu", nx, ny, g[0], g[1]);
		seen[s] = 1; id[v] = s;
		bool bd = g[0] == 0 || g[0] == nx || g[1] == 0 || g[1] == ny;
		if (v->Flags != (bd ? (uint32)MVF_StrongBoundary : 0u)) BAD("flags", "%zux%zu: grid point %zu,%zu has the flags %u", nx, ny, g[0], g[1], (unsigned)v->Flags);
		count(bd ? "boundary-points" : "inner-points");
	}
	std::vector<std::vector<std::set<size_t> > > cell(nx * ny); int orient = 0; ld area = 0;
	std::map<std::pair<size_t, size_t>, std::vector<std::pair<size_t, size_t> > > faces;
	for (size_t e = 0; e < ne; ++e)
	{
		auto s = m.element(e); std::set<size_t> q; size_t mx = nx, my = ny, bx = 0, by = 0; ld p[3][2]; size_t vid[3];
		for (size_t k = 0; k < 3; ++k)
		{
			auto it = id.find(s->Vertices[k]); if (it == id.end()) BAD("element vertex", "element %zu has a foreign vertex", e);
			size_t z = it->second; vid[k] = z; q.insert(z); size_t x = z % (nx + 1), y = z / (nx + 1);
			mx = std::min(mx, x); bx = std::max(bx, x); my = std::min(my, y); by = std::max(by, y);
			p[k][0] = (ld)x; p[k][1] = (ld)y;
			if (!(s->Element[k] == s->Vertices[k]->Vertex)) BAD("element coordinates", "element %zu", e);
		}
		if (q.size() != 3 || bx != mx + 1 || by != my + 1) BAD("cell", "%zux%zu: element %zu does not lie in one cell", nx, ny, e);
		cell[my * nx + mx].push_back(q);
		ld d = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0]);
		if (e == 0) orient = d > 0 ? 1 : -1;
		if (!((d > 0 ? 1 : -1) == orient)) BAD("orientation", "%zux%zu: element %zu is oriented unlike element 0", nx, ny, e);
		for (size_t k = 0; k < 3; ++k) { size_t a = vid[(k + 1) % 3], b = vid[(k + 2) % 3]; faces[{std::min(a, b), std::max(a, b)}].push_back({e, k}); }
	}
	for (auto& c : cell)
	{
		if (c.size() != 2) BAD("cell", "%zux%zu: a cell of %zu elements", nx, ny, c.size());
		std::set<size_t> u = c[0]; u.insert(c[1].begin(), c[1].end());
		std::vector<size_t> both; for (size_t z : c[0]) if (c[1].count(z)) both.push_back(z);
		// two triangles of a cell cover it exactly if they share a diagonal
		if (u.size() != 4 || both.size() != 2 || both[0] / (nx + 1) == both[1] / (nx + 1) || both[0] % (nx + 1) == both[1] % (nx + 1)) BAD("cell", "%zux%zu: the elements of a cell overlap", nx, ny);
	}
	if (m.edges().size() != faces.size() || faces.size() != 3 * nx * ny + nx + ny) BAD("faces", "%zux%zu: %zu faces instead of %zu", nx, ny, m.edges().size(), 3 * nx * ny + nx + ny);
	for (auto& f : faces)
	{
		if (f.second.size() > 2) BAD("conforming", "face of %zu elements", f.second.size());
		MeshEdge<T, 2>* g = nullptr;
		for (auto& q : f.second) { auto z = m.element(q.first)->Neighbors[q.second]; if (!z || (g && g != z)) BAD("neighbours", "%zux%zu: elements of one face disagree", nx, ny); g = z; }
		std::set<MeshElement<T, 2>*> have, want; for (auto z : g->Elements) if (z) have.insert(z); for (auto& q : f.second) want.insert(m.element(q.first));
		if (have != want) BAD("neighbours", "%zux%zu: face with other elements", nx, ny);
	}
	std::map<const MeshVertex<T, 2>*, size_t> uses; for (size_t e = 0; e < ne; ++e) for (size_t k = 0; k < 3; ++k) ++uses[m.element(e)->Vertices[k]];
	for (size_t i = 0; i < nv; ++i)
	{
		auto v = m.vertex(i); size_t c = uses[v];
		if (v->Elements.size() != c) BAD("back references", "vertex %zu lists %zu elements instead of %zu", i, v->Elements.size(), c);
	}
	label("prepare"); m.prepare();
	for (size_t e = 0; e < ne; ++e) area += (ld)m.element(e)->Element.volume();
	ld A = (ld)size[0] * (ld)size[1];
	ld kx = std::fabs((ld)off[0]) / h[0] + nx, ky = std::fabs((ld)off[1]) / h[1] + ny;
	if (!(std::fabs(area - A) <= 40 * eps * (kx + ky) * A)) BAD("area", "%zux%zu: areas sum to %.12Lg instead of %.12Lg", nx, ny, area, A);
	label("validate");
	if (h[0] * h[1] > 8 * eps * (1 + kx + ky) && h[0] > 64 * eps && h[1] > 64 * eps)
	{
		try { m.validate(); } catch (const MeshException&) { BAD("validate", "%zux%zu: generated mesh is not valid", nx, ny); }
		count("validated");
	}
	std::vector<uint32> fl; for (auto v : m.vertices()) fl.push_back(v->Flags);
	m.setupBoundaries();
	for (size_t i = 0; i < nv; ++i) if (m.vertex(i)->Flags != fl[i]) BAD("setupBoundaries", "%zux%zu: boundary detection disagrees with the generator at vertex %zu", nx, ny, i);
	if (nx != ny) count("non-square-grids");
	if (nx == 1 || ny == 1) count("single-rows");
	if (nx == 1 && ny == 1) count("single-cell");
	count("grids");
	double q[6] = {(double)nx, (double)ny, (double)size[0], (double)size[1], (double)off[0], (double)off[1]};
	distinct(hash_bytes(q, sizeof q));
	sample(sh->trace);
}
namespace vh { const char* property = "C18"; }
void vh::run_case(Rng& r, u64 idx)
{
	size_t nx, ny; int cls = (int)r.below(3);
	if (idx < 13 * 13) { nx = idx / 13; ny = idx % 13; cls = (int)(idx % 3); }
	else if (r.chance(HUGE_CHANCE)) { extend(200); bool strip = r.chance(0.3); nx = strip ? (size_t)r.range(32766, 35000) : (size_t)r.range(256, 290); ny = strip ? (size_t)1 : (size_t)r.range(150, 270); if (r.chance(0.5)) std::swap(nx, ny); count("huge-grids"); }
	else { size_t b = r.chance(0.02) ? 40 : 9; nx = r.below(b); ny = r.below(b); if (r.chance(0.1)) nx = 1; if (r.chance(0.1)) ny = 1; if (r.chance(0.05)) { nx = r.range(30, r.chance(0.1) ? 400 : 90); ny = r.range(1, 2); if (r.chance(0.5)) std::swap(nx, ny); } }
	if (r.chance(0.35)) cube<VF>(r, nx, ny, cls); else cube<double>(r, nx, ny, cls);
}
#include "vh_main.h"
