// C19: mesh handles share one mesh and release everything exactly once
#include "trimesh.h"
#include "sf/PolyShapeFunction.h"
#include <thread>
using namespace NS;
using namespace vh;
using namespace trimesh;
#define BAD(what, ...) do { viol(what, __VA_ARGS__); throw Stop(); } while (0)
typedef Mesh<double, 2> M;

struct Content { size_t v, e, f; double mark; std::vector<double> xs; bool prepared; };// what a shared mesh contains
struct Slot { std::unique_ptr<M> h; std::shared_ptr<Content> c; };// c empty: moved from
struct World
{
	std::vector<Slot> s;
	void check(const char* op)
	{
		for (size_t i = 0; i < s.size(); ++i)
		{
			if (!s[i].h || !s[i].c) continue;
			const M& m = *s[i].h; const Content& c = *s[i].c;
			if (m.vertices().size() != c.v || m.elements().size() != c.e || m.edges().size() != c.f) BAD("content", "after %s handle %zu shows %zu/%zu/%zu instead of %zu/%zu/%zu vertices, elements, faces", op, i, m.vertices().size(), m.elements().size(), m.edges().size(), c.v, c.e, c.f);
			for (size_t k = 0; k < c.v; ++k) { auto v = m.vertex(k); if (v->GlobalIndex != k || v->Vertex[0] != c.xs[k]) BAD("vertex", "after %s vertex %zu of handle %zu changed", op, k, i); for (auto e : v->Elements) { bool in = false; for (auto q : e->Vertices) in |= q == v; for (auto q : e->DOFVertices) in |= q == v; if (!in) BAD("back", "back reference of vertex %zu after %s", k, op); } }
			for (size_t k = 0; k < c.e; ++k) { auto e = m.element(k); for (auto v : e->Vertices) if (m.vertex(v->GlobalIndex) != v) BAD("element", "after %s element %zu of handle %zu", op, k, i); }
			for (size_t k = 0; k < c.f; ++k) { auto f = m.edge(k); if (!f->Elements[0]) BAD("face", "after %s", op); for (auto v : f->Vertices) if (m.vertex(v->GlobalIndex) != v) BAD("face", "after %s face %zu of handle %zu", op, k, i); }
			for (size_t j = 0; j < i; ++j)
				if (s[j].h && s[j].c)
				{
					bool shared = s[j].c == s[i].c, same = &s[j].h->vertices() == &m.vertices();
					if (shared != same) BAD("sharing", "after %s the handles %zu and %zu %s one mesh", op, j, i, shared ? "do not share" : "share");
				}
		}
	}
	// runs f, which removes the last use of what `c` describes if nobody else does
	template<class F> void dropping(const char* op, const std::shared_ptr<Content>& c, size_t users_after, F f)
	{
		long min_free = 0;
		if (c && users_after == 0) { min_free = 1 + (long)c->v + (long)c->e + (long)c->f; }
		long a = live_blocks.load(); f(); long b = live_blocks.load();
#if !VH_TSAN
		if (users_after == 0 && c) { if (a - b < min_free) BAD("release", "%s: last handle of a mesh of %ld objects disappears, %ld blocks released", op, min_free, a - b); count("last-handle-drops"); }
		else if (a != b) BAD("early release", "%s: %ld blocks released although the mesh is in use or there is none", op, a - b);
		else if (c) count("shared-handle-drops");
#endif
	}
	size_t users(const std::shared_ptr<Content>& c, size_t except) { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) if (i != except && s[i].h && s[i].c && s[i].c == c) ++n; return n; }
};
static void fill(Rng& r, M& m, Content& c)
{// strip of triangles
	if (c.prepared) return;// nodes are added once
	size_t n = (size_t)r.range(r.chance(0.4) ? 0 : 1, 6); size_t o = c.v;
	for (size_t k = 0; k < n + 2; ++k) { c.xs.push_back(c.mark + (double)(o + k)); FixedVector<double, 2> x; x[0] = c.mark + (double)(o + k); x[1] = (double)(k % 2); m.addVertex(new MeshVertex<double, 2>(x)); }
	for (size_t k = 0; k < n; ++k) { auto e = new MeshElement<double, 2>(); for (size_t z = 0; z < 3; ++z) e->Vertices[z] = m.vertex(o + k + z); m.addElement(e); }
	c.v += n + 2; c.e += n;
	if (c.e && r.chance(0.7)) { m.setupNeighbors(); c.f = 0; std::set<Edge> f; for (size_t k = 0; k < c.e; ++k) { auto e = m.element(k); for (size_t z = 0; z < 3; ++z) f.insert(mk(e->Vertices[z]->GlobalIndex, e->Vertices[(z + 1) % 3]->GlobalIndex)); } c.f = f.size();
	if (r.chance(0.3))
	{// further nodes, owned by the mesh as well

		PolyShapeFunction<double, 2, 2>::prepareMesh(m);
		c.prepared = true; c.v = m.vertices().size(); count("prepared");
		for (size_t k = c.xs.size(); k < c.v; ++k) c.xs.push_back(m.vertex(k)->Vertex[0]);
	}
	}
}
static M by_value(M m) { return m; }
namespace vh { const char* property = "C19"; }
void vh::run_case(Rng& r, u64 idx)
{
	World w; w.s.resize((size_t)r.range(2, 5));
	size_t steps = (size_t)r.range(5, idx % 5 ? 25 : 80); double mark = 0; std::string hist; size_t idle = 0;
	for (size_t st = 0; st < steps; ++st)
	{
		size_t i = r.below(w.s.size()), j = r.below(w.s.size()); Slot &a = w.s[i], &b = w.s[j];
		int op = (int)r.below(12); const char* name = "none"; bool src = b.h && b.c;
		auto say = [&](const char* n) { name = n; tr("%s %zu,%zu", n, i, j); label(n); hist += fmt("%s %zu,%zu;", n, i, j); };
		switch (op)
		{
		case 0: if (!a.h) { say("construct"); a.h.reset(new M()); a.c = std::make_shared<Content>(Content{0, 0, 0, mark += 1000, {}, false}); } break;
		case 1: if (!a.h && src) { say("copy-construct"); long x = live_blocks.load(); (void)x; a.h.reset(new M(*b.h)); a.c = b.c; } break;
		case 2: if (!a.h && src) { say("move-construct"); a.h.reset(new M(std::move(*b.h))); a.c = b.c; b.c.reset(); } break;
		case 3: if (a.h && src) { say(i == j ? "self-assign" : "copy-assign"); auto old = a.c; auto nw = b.c; size_t u = w.users(old, i); if (nw == old && old) ++u; M& bh = *b.h;
			w.dropping(name, old, u, [&]() { *a.h = bh; }); a.c = nw; if (i != j && nw == old) count("assign-same-mesh"); } break;
		case 4: if (a.h && src) { say(i == j ? "self-move" : "move-assign"); auto old = a.c; auto nw = b.c; size_t u = i == j ? 1 : w.users(old, i); M& bh = *b.h;
			w.dropping(name, old, u, [&]() { *a.h = std::move(bh); }); a.c = nw; if (i != j) b.c.reset(); if (i == j) a.c = nw; } break;
		case 5: if (a.h && a.c) { say("clear"); Content o = *a.c; long x = live_blocks.load(); a.h->clear(); long y = live_blocks.load();
#if !VH_TSAN
			if (x - y < (long)(o.v + o.e + o.f)) BAD("clear/release", "%ld blocks released for %zu objects", x - y, o.v + o.e + o.f);
#endif
			a.c->v = a.c->e = a.c->f = 0; a.c->xs.clear(); a.c->prepared = false; if (!a.h->vertices().empty() || !a.h->elements().empty() || !a.h->edges().empty()) BAD("clear/left", "something is left after clear of %zu vertices, %zu elements, %zu faces", o.v, o.e, o.f); if (!o.e) count("clear-without-elements"); count(w.users(a.c, i) ? "clear-shared" : "clear-own"); } break;
		case 6: case 7: if (a.h && a.c && a.c->v < 40) { say("fill"); fill(r, *a.h, *a.c); } break;
		case 8: if (a.h) { say("destroy"); auto old = a.c; size_t u = w.users(old, i); bool mv = !old;
			{ M* p = a.h.release(); if (mv) { delete p; count("destroy-moved-from"); } else { long x = live_blocks.load(); (void)x; std::unique_ptr<M> q(p); auto c = old; a.c.reset(); 
				// the handle itself is one more block
				long before = live_blocks.load(); q.reset(); long after = live_blocks.load();
#if !VH_TSAN
				long least = 1 + (u ? 0 : 1 + (long)(c->v + c->e + c->f)); if (u ? before - after != 1 : before - after < least) BAD("destroy/release", "%ld blocks released, %zu handles left", before - after, u);
#endif
				count(u ? "destroy-shared" : "destroy-last"); } }
			a.c.reset(); } break;
		case 9: if (src) { say("by-value"); M t = by_value(*b.h); if (&t.vertices() != &b.h->vertices()) BAD("by value", "another mesh"); } break;
		case 10: if (src && a.h && i != j) { say("swap"); std::swap(*a.h, *b.h); std::swap(a.c, b.c); } break;
		default: if (src) { say("vector"); std::vector<M> v; size_t n = r.chance(0.02) ? (size_t)r.range(250, 300) : r.chance(0.0005) ? 65600 : (size_t)r.range(1, 9); for (size_t k = 0; k < n; ++k) v.push_back(*b.h); v.erase(v.begin()); for (auto& x : v) if (x.vertices().size() != b.c->v) BAD("vector", "another mesh"); count("vector-of-handles"); } break;
		}
		if (!strcmp(name, "none")) { if (++idle < 5000) --st; continue; }
		w.check(name);
		count(name);
	}
	// remaining handles disappear in random order; the balance of allocations is compared by the frame
	std::vector<size_t> o; for (size_t i = 0; i < w.s.size(); ++i) o.push_back(i); r.shuffle(o);
	label("destroy all");
	for (size_t i : o) { w.s[i].h.reset(); w.s[i].c.reset(); w.check("destroy all"); }
	distinct(hash_bytes(hist.data(), hist.size()));
	sample(hist.substr(0, 400));
}
#include "vh_main.h"
