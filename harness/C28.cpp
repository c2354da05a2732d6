// C28: random programs over all modules; the sanitizers, the allocation balance and memcheck judge.
#include "vh.h"
namespace {
inline void pr_op(const char* w) { vh::label(w); vh::count(w); vh::tr("%s", w); }
inline void pr_count(const char* w) { vh::count(w); }
inline void pr_distinct(vh::u64 h) { vh::distinct(h); }
}
#if VH_IN(0) || VH_IN(1) || VH_IN(2)
# define PROGRAMS_WORLD
#endif
#if VH_IN(3) || VH_IN(4)
# define PROGRAMS_MESHES
#endif
#include "programs.h"
namespace c28 { void real_float(Rng&); void real_double(Rng&); void cplx(Rng&); void meshes_f(Rng&); void meshes_d(Rng&); }
#if VH_IN(0)
thread_local vh::u64 eaten = 0;
#endif
#if VH_IN(0)
void c28::real_double(Rng& r) { World<double, true> w(r); w.run(); }
#endif
#if VH_IN(1)
void c28::real_float(Rng& r) { World<VF, true> w(r); w.run(); }
#endif
#if VH_IN(2)
void c28::cplx(Rng& r) { World<VCD, false> w(r); w.run(); }
#endif
#if VH_IN(3)
void c28::meshes_d(Rng& r) { Meshes<double> w(r); w.run(); }
#endif
#if VH_IN(4)
namespace vh { const char* property = "C28"; }
void c28::meshes_f(Rng& r) { Meshes<VF> w(r); w.run(); }
void vh::run_case(Rng& r, u64)
{
	switch (r.below(8))
	{
	case 0: case 1: c28::real_double(r); break; case 2: c28::real_float(r); break; case 3: case 4: c28::cplx(r); break;
	case 5: c28::meshes_f(r); break; default: c28::meshes_d(r);
	}
}
#include "vh_main.h"
#endif
