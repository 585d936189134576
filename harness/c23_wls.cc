// C23: every short history of additions, merges, copies, clears and solves on two least-squares accumulators, against
// the exact normal equations of the measurements added since the last clear.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/wls.h>
#if PART == 4 || PART == 5
#include <TooN/Lapack_Cholesky.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#endif
#undef abort
#include "gens.hh"
using namespace TooN; using std::string; using std::vector; using mc::Ctx; typedef long double LD;
struct Model { int n; QM C, v; Model(int k) : n(k), C(k, k), v(k, 1) {}
	void clear() { C = QM(n, n); v = QM(n, 1); }
	void rows(const QM& J, const QM& m, const QM& W) { C = C + J.T() * W * J; v = v + J.T() * W * m; } // J is rows x n
	void prior(const QM& m) { C = C + m; } };
// values of the measurements: all exactly representable, so that the accumulated sums are exact
static double jv(int s, int i, int j) { static const double D[] = {1, 3, -2, 0.5, 2, -1, 4, 1.5, -3, 0, 2.5, -0.5}; return D[(s * 7 + i * 5 + j * 3) % 12]; }
static QM J_(int s, int r, int c) { QM q(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) q(i, j) = jv(s, i, j); return q; }
static QM W_(int r, int s) { QM q(r, r); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) q(i, j) = i == j ? 2 + s + i : 0.5; return q; }
static const double WT[] = {1, 0.25, 2, 0};
// an operand of a given static shape whose storage is one of: plain, transposed layout, view inside a bigger object
template<int N, class P, class F> void vec(int lay, const QM& q, F f) { int n = q.r;
	if (lay == 0) { Vector<N, P> v(n); for (int i = 0; i < n; ++i) v[i] = (P)(LD)q(i, 0); f(v); }
	else if (lay == 1) { Matrix<N, 2, P> m(n, 2); m = Zeros; for (int i = 0; i < n; ++i) m(i, 1) = (P)(LD)q(i, 0); f(m.T()[1]); }
	else { Vector<Dynamic, P> b(n + 2); b = Ones * 9; for (int i = 0; i < n; ++i) b[i + 1] = (P)(LD)q(i, 0); if constexpr (N >= 0) f(b.template slice<1, N>()); else f(b.slice(1, n)); } }
template<int R, int C, class P, class F> void mat(int lay, const QM& q, F f) { int r = q.r, c = q.c;
	if (lay == 0) { Matrix<R, C, P> m(r, c); fromQ(m, q); f(m); }
	else if (lay == 1) { Matrix<R, C, P, ColMajor> m(r, c); fromQ(m, q); const auto& cm = m; f(cm); }
	else { Matrix<Dynamic, Dynamic, P> b(r + 2, c + 1); b = Ones(r + 2, c + 1) * 9; auto s = b.slice(1, 1, r, c); fromQ(s, q); if constexpr (R >= 0 && C >= 0) f(b.template slice<1, 1, R, C>()); else if constexpr (R >= 0) f(b.template slice<1, 1, R, C>(1, 1, r, c)); else if constexpr (C >= 0) f(b.template slice<1, 1, R, C>(1, 1, r, c)); else f(s); } }
template<int S, class P, template<int, class> class D> struct Run {
	typedef WLS<S, P, D> A; Ctx& c; int n, lay; bool dyn; bool strict; A a, b; Model ma, mb; A* t[2]; Model* m[2]; int cur = 0; string log;
	static constexpr int DY(int k) { return k; }
	Run(Ctx& c_, int n_, int l, bool st) : c(c_), n(n_), lay(l), strict(st), a(n_), b(n_), ma(n_), mb(n_) { t[0] = &a; t[1] = &b; m[0] = &ma; m[1] = &mb; }
	static constexpr int K1 = S < 0 ? Dynamic : 1, K2 = S < 0 ? Dynamic : 2;
	enum { OPS = 23 };
	bool op(int o) { A& w = *t[cur]; Model& q = *m[cur]; A& w2 = *t[!cur]; Model& q2 = *m[!cur]; QM one = QM::id(1); static const char* nm[] = {"prior", "prior vector", "prior matrix", "mJ", "mJ weight 1/4", "mJ weight 0", "mJ float J", "vector mJ weight 2", "vector mJ", "mJ columns invcov", "mJ rows invcov", "sparse mJ", "sparse mJ last", "sparse rows 1", "sparse rows 2", "sparse rows two blocks", "sparse rows two blocks reversed", "clear", "solve", "merge other", "merge self", "copy to other", "switch"}; c.log(nm[o]);
		switch (o) {
		case 0: w.add_prior(P(0.5)); q.prior(QM::id(n) * 0.5Q); break;
		case 1: { QM p = J_(1, n, 1), d(n, n); for (int i = 0; i < n; ++i) d(i, i) = p(i, 0) = qabs(p(i, 0)) + 1; vec<S, P>(lay, p, [&](const auto& v) { w.add_prior(v); }); q.prior(d); break; }
		case 2: { QM p = W_(n, 1); mat<S, S, P>(lay, p, [&](const auto& v) { w.add_prior(v); }); q.prior(p); break; }
		case 3: case 4: case 5: { QM j = J_(o, 1, n); P mm = P(o == 3 ? 1.5 : -2); double wt = o == 3 ? 1 : WT[o == 4 ? 1 : 3]; vec<S, P>(lay, j.T(), [&](const auto& v) { if (o == 3) w.add_mJ(mm, v); else w.add_mJ(mm, v, P(wt)); }); q.rows(j, one * Q(mm), one * Q(wt)); break; }
		case 6: { QM j = J_(8, 1, n); vec<S, float>(lay, j.T(), [&](const auto& v) { w.add_mJ(P(3), v, P(2)); }); q.rows(j, one * 3, one * 2); break; }
		case 7: case 8: { int r = o == 7 ? 2 : 3; QM j = J_(o, r, n), mm = J_(4, r, 1); Q wt = o == 7 ? 2 : 1; auto go = [&](const auto& v, const auto& jj) { if (o == 7) w.add_mJ(v, jj, P(2)); else w.add_mJ(v, jj); };
			if (o == 7) vec<2, P>(lay, mm, [&](const auto& v) { mat<2, S, P>(lay, j, [&](const auto& jj) { go(v, jj); }); }); else vec<Dynamic, P>(lay, mm, [&](const auto& v) { mat<Dynamic, S, P>(lay, j, [&](const auto& jj) { go(v, jj); }); });
			q.rows(j, mm, QM::id(r) * wt); break; }
		case 9: { QM j = J_(9, 2, n), mm = J_(3, 2, 1), W = W_(2, 0); vec<2, P>(lay, mm, [&](const auto& v) { mat<S, 2, P>(lay, j.T(), [&](const auto& jj) { mat<2, 2, P>(lay, W, [&](const auto& ww) { w.add_mJ(v, jj, ww); }); }); }); q.rows(j, mm, W); break; }
		case 10: { QM j = J_(10, 3, n), mm = J_(2, 3, 1), W = W_(3, 1); vec<3, P>(lay, mm, [&](const auto& v) { mat<3, S, P>(lay, j, [&](const auto& jj) { mat<3, 3, P>(lay, W, [&](const auto& ww) { w.add_mJ_rows(v, jj, ww); }); }); }); q.rows(j, mm, W); break; }
		case 11: case 12: { int k = o == 11 ? 1 : std::min(2, n), at = o == 11 ? 0 : n - k; QM j = J_(o, 1, k), full(1, n); for (int i = 0; i < k; ++i) full(0, at + i) = j(0, i); P mm = P(o == 11 ? 2 : -1.5); double wt = o == 11 ? 1 : 2; if (o == 11) vec<1, P>(lay, j.T(), [&](const auto& v) { w.add_sparse_mJ(mm, v, at); }); else vec<Dynamic, P>(lay, j.T(), [&](const auto& v) { w.add_sparse_mJ(mm, v, at, P(2)); }); q.rows(full, one * Q(mm), one * Q(wt)); break; }
		case 13: case 14: { int k = o == 13 ? 1 : std::min(2, n), at = o == 13 ? n - 1 : 0; QM j = J_(o, 2, k), full(2, n), mm = J_(5, 2, 1), W = W_(2, 2); for (int r = 0; r < 2; ++r) for (int i = 0; i < k; ++i) full(r, at + i) = j(r, i); if (o == 13) vec<2, P>(lay, mm, [&](const auto& v) { mat<2, 1, P>(lay, j, [&](const auto& jj) { mat<2, 2, P>(lay, W, [&](const auto& ww) { w.add_sparse_mJ_rows(v, jj, at, ww); }); }); }); else vec<2, P>(lay, mm, [&](const auto& v) { mat<2, Dynamic, P>(lay, j, [&](const auto& jj) { mat<2, 2, P>(lay, W, [&](const auto& ww) { w.add_sparse_mJ_rows(v, jj, at, ww); }); }); }); q.rows(full, mm, W); break; }
		case 15: case 16: { if (n < 2) return false; int k1 = 1, k2 = n - 1, a1 = o == 15 ? 0 : n - 1, a2 = o == 15 ? 1 : 0; QM j1 = J_(o, 2, k1), j2 = J_(o + 1, 2, k2), full(2, n), mm = J_(6, 2, 1), W = W_(2, 1); for (int r = 0; r < 2; ++r) { for (int i = 0; i < k1; ++i) full(r, a1 + i) += j1(r, i); for (int i = 0; i < k2; ++i) full(r, a2 + i) += j2(r, i); }
			vec<2, P>(lay, mm, [&](const auto& v) { mat<2, 1, P>(lay, j1, [&](const auto& x1) { mat<2, Dynamic, P>(lay, j2, [&](const auto& x2) { mat<2, 2, P>(0, W, [&](const auto& ww) { w.add_sparse_mJ_rows(v, x1, a1, x2, a2, ww); }); }); }); }); q.rows(full, mm, W); break; }
		case 17: w.clear(); q.clear(); break;
		case 18: solve(w, q); break;
		case 19: w += w2; q.C = q.C + q2.C; q.v = q.v + q2.v; break;
		case 20: w += w; q.C = q.C * 2; q.v = q.v * 2; break;
		case 21: { A cp(w); w2 = cp; q2 = q; break; }
		case 22: cur = !cur; break;
		}
		check(a, ma, false); check(b, mb, false); return true; }
	void check(const A& w, const Model& q, bool full) { Q tol = 64 * Q(std::numeric_limits<P>::epsilon()) * (q.C.maxabs() + 1), tv = 64 * Q(std::numeric_limits<P>::epsilon()) * (q.v.maxabs() + 1);
		const A& cw = w; const auto& C = cw.get_C_inv(); const auto& v = cw.get_vector(); if (C.num_rows() != n || C.num_cols() != n || v.size() != n) c.fail("shape", "shape of the accumulated matrix or vector");
		for (int i = 0; i < n; ++i) { for (int j = full ? 0 : i; j < n; ++j) c.checkf(qabs(Q(C(i, j)) - q.C(i, j)) <= tol, "information", [&] { return "information matrix element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(C(i, j)) + ", of the measurements " + qs(q.C(i, j)); }); c.checkf(qabs(Q(v[i]) - q.v(i, 0)) <= tv, "vector", [&] { return "information vector element " + mc::str(i) + " is " + mc::str(v[i]) + ", of the measurements " + qs(q.v(i, 0)); }); } }
	void solve(A& w, const Model& q) { w.compute(); check(w, q, true); const auto& mu = w.get_mu(); if (mu.size() != n) c.fail("shape", "get_mu"); Elim e(q.C); Q eps = std::numeric_limits<P>::epsilon();
		if (e.ok) { Q cond = q.C.inf() * e.inv.inf(); if (cond * eps > 1e-3Q) return; QM x = e.inv * q.v; Q tol = 200 * eps * cond * (x.maxabs() + e.inv.maxabs() * q.v.maxabs()); c.outcome("unique"); for (int i = 0; i < n; ++i) c.checkf(qabs(Q(mu[i]) - x(i, 0)) <= tol, "solution", [&] { return "solution element " + mc::str(i) + " is " + mc::str(mu[i]) + ", minimiser " + qs(x(i, 0)) + " (information " + qms(q.C) + ", vector " + qms(q.v) + ")"; }); }
		else if (strict && q.C.maxabs() > 0) { c.outcome("many minimisers"); QM x(n, 1); for (int i = 0; i < n; ++i) x(i, 0) = mu[i]; QM r = q.C * x - q.v; PInv pi(q.C); Q cond = q.C.inf() * pi.p.inf(), tol = 400 * eps * cond * (q.v.maxabs() + q.C.maxabs() * x.maxabs()); c.checkf(r.maxabs() <= tol, "solution of a singular system", [&] { return "solution " + qms(x) + " of the singular system " + qms(q.C) + " x = " + qms(q.v) + " is not a minimiser"; }); }
	}
};
template<int S, class P, template<int, class> class D> void histories(Ctx& c, int n, bool strict, int lays) { int lay = c.pick(lays); Run<S, P, D> r(c, n, lay, strict); r.check(r.a, r.ma, true); r.check(r.b, r.mb, true); uint64_t h = mc::mix(lay, n * 1000 + S); c.logf("size %d layout %d:", n, lay);
	for (int d = 0; d < c.depth; ++d) { int o = c.pick(Run<S, P, D>::OPS); if (!r.op(o)) throw mc::Prune(); c.step(); h = mc::mix(h, o); c.state(h); }
	r.solve(r.a, r.ma); r.solve(r.b, r.mb); r.solve(r.a, r.ma); }

#if PART == 6
// every pattern of zeros, and for few elements every sign pattern, of one addition, at every place and size of its blocks
static QM pat(Ctx& c, int s, int r, int n) { uint64_t h = s * 100 + r * 10 + n; QM q = J_(s, r, n); int k = r * n; for (int i = 0; i < k; ++i) { Q& x = q(i / n, i % n); if (x == 0) x = 1.25Q; int v = c.pick(k <= 4 ? 3 : 2); h = mc::mix(h, v); x = v == 0 ? x : v == 1 ? Q(0) : -x; } c.state(h); return q; }
template<int S, class P> void single(Ctx& c, int n) { typedef Run<S, P, Cholesky> R; R r(c, n, 0, false); auto& w = r.a; Model& q = r.ma; QM one = QM::id(1); int pr = c.pick(2); if (pr) { QM p = W_(n, 1); mat<S, S, P>(0, p, [&](const auto& v) { w.add_prior(v); }); q.prior(p); }
	int k = c.pick(9); static const char* nm[] = {"mJ", "vector mJ", "mJ columns invcov", "mJ rows invcov", "sparse mJ", "sparse rows", "sparse rows two blocks", "prior vector", "prior matrix"}; c.logf("size %d %s:", n, nm[k]); c.note(nm[k]); c.step();
	auto wt = [&] { return WT[c.pick(4)]; }; auto mv = [&](int rows) { QM m = J_(4, rows, 1); int z = c.pick(rows + 1); for (int i = 0; i < rows; ++i) if (m(i, 0) == 0 || i + 1 == z) m(i, 0) = i + 1 == z ? Q(0) : Q(1); return m; }; auto inv = [&](int rows) { QM W = W_(rows, 1); int z = c.pick(3); for (int i = 0; i < rows; ++i) for (int j = 0; j < rows; ++j) if (i != j ? z == 1 : z == 2 && i == 0) W(i, j) = 0; if (z == 2) for (int i = 1; i < rows; ++i) W(0, i) = W(i, 0) = 0; return W; };
	switch (k) {
	case 0: { QM j = pat(c, 1, 1, n); P m = c.flip() ? P(0) : P(1.5); double t = wt(); vec<S, P>(0, j.T(), [&](const auto& v) { w.add_mJ(m, v, P(t)); }); q.rows(j, one * Q(m), one * Q(t)); break; }
	case 1: { if (n > 4) throw mc::Prune(); QM j = pat(c, 2, 2, n), m = mv(2); double t = wt(); vec<2, P>(0, m, [&](const auto& v) { mat<2, S, P>(0, j, [&](const auto& jj) { w.add_mJ(v, jj, P(t)); }); }); q.rows(j, m, QM::id(2) * Q(t)); break; }
	case 2: case 3: { if (n > 4) throw mc::Prune(); QM j = pat(c, 3, 2, n), m = mv(2), W = inv(2); vec<2, P>(0, m, [&](const auto& v) { mat<2, 2, P>(0, W, [&](const auto& ww) { if (k == 2) mat<S, 2, P>(0, j.T(), [&](const auto& jj) { w.add_mJ(v, jj, ww); }); else mat<2, S, P>(0, j, [&](const auto& jj) { w.add_mJ_rows(v, jj, ww); }); }); }); q.rows(j, m, W); break; }
	case 4: { int b = 1 + c.pick(n), at = c.pick(n - b + 1); QM j = pat(c, 4, 1, b), full(1, n); for (int i = 0; i < b; ++i) full(0, at + i) = j(0, i); P m = c.flip() ? P(0) : P(-2); double t = wt(); int dyn = c.pick(2); auto go = [&](const auto& v) { w.add_sparse_mJ(m, v, at, P(t)); }; if (dyn) vec<Dynamic, P>(0, j.T(), go); else if (b == 1) vec<1, P>(0, j.T(), go); else if (b == 2) vec<2, P>(0, j.T(), go); else if (b == 3) vec<3, P>(0, j.T(), go); else throw mc::Prune(); q.rows(full, one * Q(m), one * Q(t)); break; }
	case 5: { int b = 1 + c.pick(std::min(n, 3)), at = c.pick(n - b + 1); QM j = pat(c, 5, 2, b), full(2, n), m = mv(2), W = inv(2); for (int x = 0; x < 2; ++x) for (int i = 0; i < b; ++i) full(x, at + i) = j(x, i); int dyn = c.pick(2); auto go = [&](const auto& jj) { vec<2, P>(0, m, [&](const auto& v) { mat<2, 2, P>(0, W, [&](const auto& ww) { w.add_sparse_mJ_rows(v, jj, at, ww); }); }); }; if (dyn) mat<2, Dynamic, P>(0, j, go); else if (b == 1) mat<2, 1, P>(0, j, go); else if (b == 2) mat<2, 2, P>(0, j, go); else mat<2, 3, P>(0, j, go); q.rows(full, m, W); break; }
	case 6: { if (n < 2) throw mc::Prune(); int b1 = 1 + c.pick(std::min(n, 2)), b2 = 1 + c.pick(std::min(n, 2)), a1 = c.pick(n - b1 + 1), a2 = c.pick(n - b2 + 1), rows = 1 + c.pick(2); if (rows * (b1 + b2) > 6) throw mc::Prune(); QM j1 = pat(c, 6, rows, b1), j2 = pat(c, 9, rows, b2), full(rows, n), m = mv(rows), W = inv(rows); for (int x = 0; x < rows; ++x) { for (int i = 0; i < b1; ++i) full(x, a1 + i) += j1(x, i); for (int i = 0; i < b2; ++i) full(x, a2 + i) += j2(x, i); }
		vec<Dynamic, P>(0, m, [&](const auto& v) { mat<Dynamic, Dynamic, P>(0, j1, [&](const auto& x1) { mat<Dynamic, Dynamic, P>(0, j2, [&](const auto& x2) { mat<Dynamic, Dynamic, P>(0, W, [&](const auto& ww) { w.add_sparse_mJ_rows(v, x1, a1, x2, a2, ww); }); }); }); }); q.rows(full, m, W); break; }
	case 7: { QM p = pat(c, 1, n, 1), d(n, n); for (int i = 0; i < n; ++i) d(i, i) = p(i, 0); vec<S, P>(0, p, [&](const auto& v) { w.add_prior(v); }); q.prior(d); break; }
	case 8: { int k2 = n * (n + 1) / 2; if (k2 > 6) throw mc::Prune(); QM u = pat(c, 2, 1, k2), p(n, n); for (int i = 0, t = 0; i < n; ++i) for (int j = i; j < n; ++j, ++t) p(i, j) = p(j, i) = u(0, t); mat<S, S, P>(0, p, [&](const auto& v) { w.add_prior(v); }); q.prior(p); break; }
	}
	r.check(w, q, false); bool pd = true; QM L = q.C; for (int i = 0; i < n; ++i) { if (L(i, i) <= 0) { pd = false; break; } for (int a = i + 1; a < n; ++a) { Q f = L(a, i) / L(i, i); for (int b = 0; b < n; ++b) L(a, b) -= f * L(i, b); } } if (pd) r.solve(w, q); else { w.compute(); r.check(w, q, true); } c.outcome(nm[k]); }
#endif

void mc_register() {
#if PART == 1
	mc::scenario("static 2, double", [](Ctx& c) { histories<2, double, Cholesky>(c, 2, false, 3); }, 3, 4); 
#elif PART == 2
	mc::scenario("run-time size, double", [](Ctx& c) { histories<Dynamic, double, Cholesky>(c, c.of({1, 2, 3}), false, 3); }, 3, 4);
#elif PART == 3
	mc::scenario("static 3, float", [](Ctx& c) { histories<3, float, Cholesky>(c, 3, false, 2); }, 3, 4); mc::scenario("static 1, long double", [](Ctx& c) { histories<1, long double, Cholesky>(c, 1, false, 2); }, 2, 3);
#elif PART == 4
	mc::scenario("singular value decomposition", [](Ctx& c) { histories<2, double, SQSVD>(c, 2, true, 1); }, 3, 4); mc::scenario("eigen decomposition, run-time size", [](Ctx& c) { histories<Dynamic, double, SymEigen>(c, 3, true, 1); }, 3, 4);
#elif PART == 5
	mc::scenario("eigen decomposition", [](Ctx& c) { histories<3, double, SymEigen>(c, 3, true, 1); }, 3, 4); mc::scenario("Lapack_Cholesky", [](Ctx& c) { histories<3, double, Lapack_Cholesky>(c, 3, false, 1); }, 3, 4);
#elif PART == 6
	mc::scenario("one addition, run-time size", [](Ctx& c) { single<Dynamic, double>(c, 1 + c.pick(c.depth)); }, 4, 5); mc::scenario("one addition, static 3", [](Ctx& c) { single<3, double>(c, 3); }, 0, 0); mc::scenario("one addition, static 4, float", [](Ctx& c) { single<4, float>(c, 4); }, 0, 0);
#endif
}
MC_MAIN()
