// C13: conjugate gradients, preconditioned conjugate gradients, diagonal preconditioner
#include "ref.h"
#include "CG.h"
using namespace NS;
using namespace ref;
using namespace vh;
template<class M> struct Kd { static const char* n() { return "fixed"; } };
template<class T> struct Kd<SparseMatrix<T> > { static const char* n() { return "sparse"; } };
template<class T> struct Kd<DenseMatrix<T> > { static const char* n() { return "dense"; } };
template<class M> struct Mk { static M mat(size_t n) { return M(n, n); } static DynamicVector<typename M::value_type> vec(size_t n) { return DynamicVector<typename M::value_type>(n); } typedef DynamicVector<typename M::value_type> V; };
template<class T, Dimension A> struct Mk<FixedMatrix<T, A, A> > { static FixedMatrix<T, A, A> mat(size_t) { return FixedMatrix<T, A, A>(); } static FixedVector<T, A> vec(size_t) { return FixedVector<T, A>(); } typedef FixedVector<T, A> V; };
#define BAD(what, ...) do { viol(fmt("%s/%s", kind, what).c_str(), __VA_ARGS__); throw Stop(); } while (0)
typedef std::vector<ld> vec;
static ld dot(const vec& a, const vec& b) { ld s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
static ld nrm(const vec& a) { return std::sqrt(dot(a, a)); }
static vec mulv(const Mat<ld>& a, const vec& x) { vec y(a.r, 0); for (size_t i = 0; i < a.r; ++i) for (size_t j = 0; j < a.c; ++j) y[i] += a(i, j) * x[j]; return y; }
static Mat<ld> inverse(Mat<ld> a)
{
	size_t n = a.r; Mat<ld> b(n, n); for (size_t i = 0; i < n; ++i) b(i, i) = 1;
	for (size_t k = 0; k < n; ++k)
	{
		ld p = a(k, k); for (size_t j = 0; j < n; ++j) { a(k, j) /= p; b(k, j) /= p; }
		for (size_t i = 0; i < n; ++i) if (i != k) { ld m = a(i, k); if (m != 0) for (size_t j = 0; j < n; ++j) { a(i, j) -= m * a(k, j); b(i, j) -= m * b(k, j); } }
	}
	return b;
}
// random orthogonal matrix times a spectrum
static Mat<ld> with_spectrum(Rng& r, size_t n, const vec& ev)
{
	Mat<ld> q(n, n); for (size_t i = 0; i < n; ++i) q(i, i) = 1;
	for (size_t z = 0; z < 3; ++z)
	{
		vec h(n); for (auto& x : h) x = r.normal(); ld s = dot(h, h); if (s < 1e-6L) continue;
		Mat<ld> p(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { ld t = 0; for (size_t k = 0; k < n; ++k) t += q(i, k) * h[k]; p(i, j) = q(i, j) - 2 * t * h[j] / s; }
		q = p;
	}
	Mat<ld> e(n, n); for (size_t i = 0; i < n; ++i) e(i, i) = ev[i];
	return q * e * transp(q);
}
template<class M> void cgc(Rng& r, size_t n)
{
	typedef typename M::value_type T; typedef Sc<T> S; typedef typename Mk<M>::V V;
	const ld eps = S::eps();
	int pre = (int)r.below(5);// 0,1: none, 2: inverse diagonal, 3: inverse of A, 4: other SPD
	std::string ks = std::string(pre < 2 ? "cg/" : pre == 2 ? "pcg diag/" : pre == 3 ? "pcg exact/" : "pcg spd/") + Kd<M>::n(); const char* kind = ks.c_str();
	Mat<ld> a(n, n); size_t distinct_ev = n; int cls = (int)r.below(5); Kind k = (Kind)r.below(WIDE);
	ld scale = std::pow(2.0L, (ld)(r.chance(0.8) ? r.range(-6, 6) : S::eps() > 1e-10L ? r.range(-10, 10) : r.range(-24, 24)));
	if (cls == 0) { distinct_ev = r.range(1, (long)std::min<size_t>(n, 3)); vec ev(n), c(distinct_ev); for (auto& x : c) x = 1 + r.uni(0, 30); for (size_t i = 0; i < n; ++i) ev[i] = c[i % distinct_ev]; a = with_spectrum(r, n, ev); }
	else if (cls == 1) { for (size_t i = 0; i < n; ++i) { a(i, i) = 2; if (i + 1 < n) a(i, i + 1) = a(i + 1, i) = -1; } }
	else if (cls == 2) { vec ev(n); for (auto& x : ev) x = r.uni(1, 50); a = with_spectrum(r, n, ev); }
	else if (cls == 3) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) if (r.chance(0.4)) a(i, j) = a(j, i) = (ld)gen_real(r, k); if (r.chance(0.3)) { grade<T>(r, a, 1); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) a(j, i) = a(i, j); } for (size_t i = 0; i < n; ++i) { ld s = 1; for (size_t j = 0; j < n; ++j) s += std::fabs(a(i, j)); a(i, i) = s; } }
	else { for (size_t i = 0; i < n; ++i) a(i, i) = (ld)r.range(1, 8); distinct_ev = n; }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { a(i, j) = (ld)(T)(a(i, j) * scale); a(j, i) = a(i, j); }
	M A = Mk<M>::mat(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (a(i, j) != 0) A.set(i, j, (T)a(i, j));
	Mat<ld> ai = inverse(a), c(n, n);
	ld na = 0, nai = 0; for (size_t i = 0; i < n; ++i) { ld s = 0, t = 0; for (size_t j = 0; j < n; ++j) { s += std::fabs(a(i, j)); t += std::fabs(ai(i, j)); } na = std::max(na, s); nai = std::max(nai, t); }
	ld cond = na * nai;
	if (pre == 2) for (size_t i = 0; i < n; ++i) c(i, i) = 1 / a(i, i);
	else if (pre == 3) c = ai;
	else if (pre == 4) { for (size_t i = 0; i < n; ++i) { c(i, i) = 1 + r.uni(0, 3); if (i + 1 < n) c(i, i + 1) = c(i + 1, i) = -0.4L; } }
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { c(i, j) = (ld)(T)c(i, j); c(j, i) = c(i, j); }
	M C = Mk<M>::mat(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (c(i, j) != 0) C.set(i, j, (T)c(i, j));
	if (pre == 2 && r.chance(0.7)) { M D = Mk<M>::mat(n); label("CG::jacobi"); CG::serial::jacobi(A, D); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j ? !(std::fabs((ld)D.at(i, j) - 1 / a(i, i)) <= eps * std::fabs(1 / a(i, i))) : D.at(i, j) != (T)0) BAD("jacobi", "entry (%zu,%zu)", i, j); C = D; c = to_ref(C); count("diagonal-preconditioner"); }
	V b = Mk<M>::vec(n), x0 = Mk<M>::vec(n);
	for (size_t i = 0; i < n; ++i) b.set(i, gen<T>(r, k));
	if (r.chance(0.7)) for (size_t i = 0; i < n; ++i) x0.set(i, gen<T>(r, k));
	if (r.chance(0.05)) b.fill((T)0);
	auto ab = raw(A), cb = raw(C); auto bb = vraw(b), xb = vraw(x0);
	tr("%s %s n=%zu class %d scale %Lg", kind, S::name(), n, cls, scale);
	auto solve = [&](size_t lim, double tol, size_t* st) -> V { label(pre < 2 ? "cg" : "pcg"); return pre < 2 ? CG::serial::cg(A, b, x0, lim, tol, st) : CG::serial::pcg(A, b, C, x0, lim, tol, st); };
	vec bv, xv; for (auto& t : bb) bv.push_back(t); for (auto& t : xb) xv.push_back(t);
	vec xs = mulv(ai, bv), r0 = bv; { vec t = mulv(a, xv); for (size_t i = 0; i < n; ++i) r0[i] -= t[i]; }
	ld xm = std::max(nrm(xs), nrm(xv));
	ld floor_ = 40 * n * eps * (na * xm + nrm(bv));// attainable residual
	ld tolw = std::max((ld)r.pick({1e-2, 1e-4, 1e-6, 1e-8, 1e-12}) * nrm(r0), 3 * std::sqrt(cond) * floor_);
	if (!(tolw > 0)) tolw = 1e-6L;
	double tol = (double)tolw; size_t cnt = 999999, lim = 10 * n + 50;
	V x = solve(lim, tol, &cnt);
	if (!same_bits(raw(A), ab) || !same_bits(raw(C), cb) || !same_bits(vraw(b), bb) || !same_bits(vraw(x0), xb)) BAD("input changed", "%s n=%zu", S::name(), n);
	if (x.size() != n) BAD("size", "%zu", x.size());
	auto resid = [&](const V& y) { vec q; for (size_t i = 0; i < n; ++i) q.push_back((ld)y.at(i)); vec t = mulv(a, q), s = bv; for (size_t i = 0; i < n; ++i) s[i] -= t[i]; return s; };
	auto finite = [&](const V& y) { for (size_t i = 0; i < n; ++i) if (!std::isfinite((double)y.at(i))) return false; return true; };
	if (!finite(x)) BAD("not finite", "%s n=%zu class %d count %zu", S::name(), n, cls, cnt);
	ld rn = nrm(resid(x));
	if (!(rn <= tolw * 1.01L + floor_ * (cnt + 2))) BAD("residual", "%s n=%zu class %d count %zu: residual %Lg, tolerance %g", S::name(), n, cls, cnt, rn, tol);
	size_t steps = pre == 3 ? 1 : pre < 2 ? distinct_ev : n;
	// rounding may cost extra steps when the spectrum is wide
	size_t slack = pre == 3 || (cond < 1000 && steps <= 6) ? 1 : 3 + n;
	if (S::eps() > 1e-10L) slack += n / 3 + (cond > 100 ? n : 0);
	if (cnt > steps + slack) BAD("too many steps", "%s n=%zu class %d: %zu steps instead of %zu, condition %Lg", S::name(), n, cls, cnt, steps, cond);
	if (nrm(r0) > tolw * 1.001L + floor_ && cnt == 0) BAD("no step", "initial residual %Lg, tolerance %g, no step", nrm(r0), tol);
	if (nrm(r0) < tolw * 0.999L - floor_ && (cnt != 0 || !same_bits(vraw(x), xb))) BAD("exact guess", "%s n=%zu: initial residual %Lg below the tolerance %g, %zu steps", S::name(), n, nrm(r0), tol, cnt);
	if (nrm(r0) < tolw) count("guess-accepted");
	// step by step
	std::vector<vec> rs; ld laste = HUGE_VALL; size_t K = std::min<size_t>(cnt, 8);
	for (size_t l = 0; l <= K; ++l)
	{
		size_t st = 999999; V y = solve(l, tol, &st);
		if (st != l) BAD("count", "%s n=%zu: limit %zu of %zu, reported %zu", S::name(), n, l, cnt, st);
		if (l == 0 && !same_bits(vraw(y), xb)) BAD("limit 0", "not the initial guess");
		if (!finite(y)) BAD("not finite", "%s n=%zu limit %zu", S::name(), n, l);
		vec q = resid(y); ld s = nrm(q);
		if (l < cnt && s < tolw * 0.99L - floor_ * (l + 2)) BAD("late stop", "%s n=%zu: residual %Lg after %zu steps, tolerance %g, ran %zu", S::name(), n, s, l, tol, cnt);
		if (l == cnt && !same_bits(vraw(y), vraw(x))) BAD("limit", "limit equal to the count gives another result");
		// energy norm of the error decreases
		vec e = mulv(ai, q); ld en = std::sqrt(std::max<ld>(0, dot(e, q)));
		ld noise = floor_ * (l + 2) * std::sqrt(nai) * 10;
		if (en > laste * (1 + 1e3L * n * eps) + noise) BAD("energy", "%s n=%zu class %d: energy of the error grows from %Lg to %Lg in step %zu", S::name(), n, cls, laste, en, l);
		laste = en;
		// orthogonality of consecutive residuals in the inner product of the preconditioner
		vec z = pre < 2 ? q : mulv(c, q);
		for (size_t j = 0; j < rs.size(); ++j)
		{
			ld m = std::fabs(dot(rs[j], z)), bound = nrm(rs[j]) * nrm(z);
			ld amp = (ld)(1 + l) * cond * 200 * n * eps * std::pow(4.0L, (ld)(l - j));
			ld abs0 = nrm(z) * floor_ * (l + 2) * 20 + nrm(rs[j]) * floor_ * (l + 2) * 20 * (pre < 2 ? 1 : nrm(z) / std::max(nrm(q), (ld)1e-300));
			if (amp < 0.05L && l <= 3) { if (!(m <= bound * amp * 20 + abs0)) BAD("orthogonality", "%s n=%zu class %d cond %Lg: residuals %zu and %zu: %Lg of %Lg", S::name(), n, cls, cond, j, l, m, bound); count("orthogonal-pairs"); }
		}
		rs.push_back(q);
		count("steps-replayed");
	}
	if (r.chance(0.15) && n > 2)
	{// a wide spectrum: rounding makes more steps necessary than there are unknowns, the tolerance is met nevertheless
		ld top = std::pow(10.0L, (ld)r.uni(1, S::eps() > 1e-10L ? 2.3 : 5)); vec ev(n); for (auto& v : ev) v = std::pow(top, (ld)r.uni(0, 1)); ev[0] = 1; ev[1] = top;
		Mat<ld> w = with_spectrum(r, n, ev); M W = Mk<M>::mat(n), J = Mk<M>::mat(n);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { w(i, j) = w(j, i) = (ld)(T)w(i, j); W.set(i, j, (T)w(i, j)); W.set(j, i, (T)w(i, j)); }
		for (size_t i = 0; i < n; ++i) J.set(i, i, (T)(1 / w(i, i)));
		ld fl = 40 * n * eps * (top * n * (nrm(mulv(inverse(w), bv)) + nrm(xv)) + nrm(bv)); double t = (double)(30 * fl);
		if (fl > 0)
		{
			size_t st = 0; V y = pre < 2 ? CG::serial::cg(W, b, x0, 100000, t, &st) : CG::serial::pcg(W, b, J, x0, 100000, t, &st);
			if (!finite(y)) BAD("not finite", "%s n=%zu: wide spectrum", S::name(), n);
			vec q; for (size_t i = 0; i < n; ++i) q.push_back((ld)y.at(i)); vec z = mulv(w, q); for (size_t i = 0; i < n; ++i) z[i] = bv[i] - z[i];
			if (!(nrm(z) <= (ld)t * 1.01L + fl * (1 + st / 40))) BAD("wide spectrum", "%s n=%zu condition %Lg: residual %Lg after %zu steps, tolerance %g", S::name(), n, top, nrm(z), st, t);
			count("wide-spectrum"); if (st > n) count("more-steps-than-unknowns");
		}
	}
	if (r.chance(0.2))
	{// unattainable tolerance: every result up to the limit is finite and the limit is kept
		size_t st = 999999, L = r.range(1, 3 * (long)n + 4); V y = solve(L, 0.0, &st);
		if (!finite(y)) BAD("not finite", "%s n=%zu class %d: tolerance 0, limit %zu", S::name(), n, cls, L);
		if (st > L) BAD("limit exceeded", "%zu > %zu", st, L);
		count("tolerance-zero");
	}
	if (r.chance(0.1)) { V y = pre < 2 ? CG::serial::cg(A, b, x0, lim, tol) : CG::serial::pcg(A, b, C, x0, lim, tol); if (!same_bits(vraw(y), vraw(x))) BAD("no count", "result depends on the count argument"); }
	// an exactly representable solution as guess
	{
		V e = Mk<M>::vec(n), c2 = Mk<M>::vec(n); bool ok = true;
		for (size_t i = 0; i < n; ++i) e.set(i, gen<T>(r, SMALLINT));
		for (size_t i = 0; i < n; ++i) { ld s = 0; for (size_t j = 0; j < n; ++j) s += a(i, j) * (ld)e.at(j); c2.set(i, (T)s); if ((ld)c2.at(i) != s) ok = false; }
		if (ok && (cls == 1 || cls == 4))
		{
			size_t st = 999; V y = pre < 2 ? CG::serial::cg(A, c2, e, 100, 0.0, &st) : CG::serial::pcg(A, c2, C, e, 100, 0.0, &st);
			if (st != 0 || !same_bits(vraw(y), vraw(e))) BAD("exact guess", "%s n=%zu: %zu steps from the exact solution", S::name(), n, st);
			count("exact-guess");
		}
	}
	count(fmt("%s:converged", kind).c_str());
	distinct(hash_vals(ab, hash_vals(bb, hash_vals(xb, hash_bytes(kind, strlen(kind))))));
	sample(fmt("%s count %zu tol %g", sh->trace, cnt, tol));
}
template<class M> void precond(Rng& r)
{
	typedef typename M::value_type T; typedef Sc<T> S; const char* kind = "CG::jacobi";
	size_t n = gen_dim(r, 9); M A = gen_matrix<M>(r, n, n, (Kind)r.below(WIDE)); size_t hole = n; if (r.chance(0.3)) hole = r.below(n);
	for (size_t i = 0; i < n; ++i) { T v = gen_nz<T>(r, NORMAL); if (abs_(S::big(v)) < 1e-3L) v = (T)1; v *= (T)some_scale<T>(r, 0.3); A.set(i, i, i == hole ? (T)0 : v); }
	auto ab = raw(A); M C(n, n); bool threw = false; label("CG::jacobi");
	try { CG::serial::jacobi(A, C); } catch (const SingularException&) { threw = true; }
	if (threw != (hole < n)) BAD("zero", "%s n=%zu hole %zu exception %d", S::name(), n, hole, threw);
	if (!same_bits(raw(A), ab)) BAD("input changed", "");
	if (!threw) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j)
	{
		auto e = i == j ? typename S::B(1) / S::big(A.at(i, i)) : typename S::B(0);
		if (!(abs_(S::big(C.at(i, j)) - e) <= 4 * S::eps() * abs_(e))) BAD("entry", "%s (%zu,%zu): %s", S::name(), i, j, str(C.at(i, j)).c_str());
	}
	count(threw ? "preconditioner:zero-diagonal" : "preconditioner:built");
}
namespace vh { const char* property = "C13"; }
void vh::run_case(Rng& r, u64 idx)
{
	switch (idx % 8)
	{
	case 0: case 1: case 2: cgc<SparseMatrix<double> >(r, gen_dim(r, 12)); break;
	case 3: case 4: cgc<DenseMatrix<double> >(r, gen_dim(r, 12)); break;
	case 5: cgc<SparseMatrix<VF> >(r, gen_dim(r, 8)); break;
	case 6: switch (idx / 8 % 3) { case 0: precond<SparseMatrix<double> >(r); break; case 1: precond<DenseMatrix<VF> >(r); break; default: precond<DenseMatrix<double> >(r); } break;
	default: cgc<DenseMatrix<VF> >(r, gen_dim(r, 8)); break;
	}
}
#include "vh_main.h"
