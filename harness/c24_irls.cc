// C24: every weighting scheme over a grid of residuals and scales against its documented formulae, and every short history
// of robust additions, merges, clears and solves against the weighted normal equations and the sum of the objectives.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/irls.h>
#undef abort
#include "gens.hh"
using namespace TooN; using std::string; using std::vector; using mc::Ctx; typedef long double LD;
enum { I1, I2, LIN, I3 };
static const char* SN[] = {"RobustI", "RobustII", "ILinear", "RobustIII"};
// the documented weight w(x), w(x) + x w'(x) and the integral of x w(x) from 0
static LD W(int s, LD x, LD sd) { LD a = fabsl(x), g = sd * sd, u = 1 + x * x / g; return s == I1 ? 1 / (sd + a) : s == I2 ? 1 / (g + x * x) : s == LIN ? 1 : 1 / (u * u); }
static LD TS(int s, LD x, LD sd) { LD a = fabsl(x), g = sd * sd, u = 1 + x * x / g; return s == I1 ? sd / ((sd + a) * (sd + a)) : s == I2 ? (g - x * x) / ((g + x * x) * (g + x * x)) : s == LIN ? 1 : (1 - 3 * x * x / g) / (u * u * u); }
static LD OB(int s, LD x, LD sd) { LD a = fabsl(x), g = sd * sd; return s == I1 ? a - sd * log1pl(a / sd) : s == I2 ? log1pl(x * x / g) / 2 : s == LIN ? x * x / 2 : x * x / (2 * (1 + x * x / g)); }
template<class P> LD eps() { return std::max<LD>(std::numeric_limits<P>::epsilon(), std::numeric_limits<double>::epsilon()); }
template<class P> void near(Ctx& c, const char* k, const string& w, LD got, LD want, LD scale) { c.checkf(fabsl(got - want) <= 16 * eps<P>() * (fabsl(want) + scale), k, [&] { return w + " is " + mc::str((double)got) + ", documented " + mc::str((double)want); }); }
template<class P, template<class> class R> void scheme(Ctx& c, int s) { int e = c.pick(49), neg = c.pick(2), sde = c.pick(13); P x = e == 0 ? P(0) : P(std::pow(10., (e - 25) / 8.)); if (neg) x = -x; P sd = P(std::pow(10., (sde - 6) / 4.)); c.step(); c.state(mc::mix(s * 100 + sizeof(P), (e * 2 + neg) * 20 + sde)); string n = string(SN[s]) + " with scale " + mc::str((double)sd) + " for residual " + mc::str((double)x); c.log(n);
	R<P> r; r.set_sd(sd); LD X = x, S = sd; near<P>(c, "reweight", n + ": reweight", r.reweight(x), W(s, X, S), 0); near<P>(c, "true_scale", n + ": true_scale", r.true_scale(x), TS(s, X, S), 4 * W(s, X, S)); near<P>(c, "objective", n + ": objective", r.objective(x), OB(s, X, S), s == I1 ? fabsl(X) + S : s == I2 ? 1 : 0);
	R<P> q; q.set_sd(sd * 3); q.set_sd(sd); c.check(q.reweight(x) == r.reweight(x) && q.objective(x) == r.objective(x), "set_sd", "a scale that was changed back"); }
template<int S, class P, template<class> class R> struct Run { typedef IRLS<S, P, R> A; Ctx& c; int s, n; A a, b; A* t[2]; struct Model { QM C, v, T; LD res = 0; int cnt = 0; } m[2]; int cur = 0; P sd; LD big = 1; static const int OPS = 11;
	static A mk(int n) { if constexpr (S > 0) return A(); else return A(n); }
	Run(Ctx& c_, int s_, int n_, P sd_) : c(c_), s(s_), n(n_), a(n_), b(n_), sd(sd_) { t[0] = &a; t[1] = &b; for (auto& x : m) x.C = QM(n, n), x.v = QM(n, 1), x.T = QM(n, n); a.set_sd(sd); b.set_sd(sd); }
	void add(P x, const QM& j, int lay) { A& w = *t[cur]; Model& q = m[cur]; LD wt = W(s, x, sd), ts = TS(s, x, sd); if (lay == 0) { Vector<S, P> v(n); for (int i = 0; i < n; ++i) v[i] = (P)(LD)j(i, 0); w.add_mJ(x, v); } else { Matrix<S, 3, P> M(n, 3); M = Zeros; for (int i = 0; i < n; ++i) M(i, 1) = (P)(LD)j(i, 0); w.add_mJ(x, M.T()[1]); }
		for (int i = 0; i < n; ++i) { q.v(i, 0) += Q(x) * j(i, 0) * wt; for (int k = 0; k < n; ++k) { q.C(i, k) += j(i, 0) * j(k, 0) * wt; q.T(i, k) += j(i, 0) * j(k, 0) * ts; } } q.res += OB(s, x, sd); ++q.cnt; big = std::max(big, fabsl(OB(s, x, sd)) + fabsl(x) + (LD)sd); big = std::max(big, 16 * wt * (1 + fabsl(x))); }
	QM J(int k) { QM q(n, 1); static const double D[] = {1, 3, -2, 0.5, 2, -1, 4, 1.5, -3}; for (int i = 0; i < n; ++i) q(i, 0) = D[(k * 2 + i) % 9]; return q; }
	void op(int o) { A& w = *t[cur]; Model& q = m[cur]; A& w2 = *t[!cur]; Model& q2 = m[!cur]; static const char* nm[] = {"add 0", "add small", "add -small", "add 1.5", "add -2", "add large", "clear", "solve", "merge other", "merge self", "switch"}; c.log(nm[o]);
		switch (o) { case 0: add(0, J(0), 0); break; case 1: add(P(sd / 4), J(1), 1); break; case 2: add(P(-sd / 8), J(2), 0); break; case 3: add(P(1.5), J(3), 0); break; case 4: add(-2, J(4), 1); break; case 5: add(P(40), J(5), 0); break;
		case 6: w.clear(); q = Model{QM(n, n), QM(n, 1), QM(n, n)}; break; case 7: solve(w, q); break; case 8: w += w2; q.C = q.C + q2.C; q.v = q.v + q2.v; q.T = q.T + q2.T; q.res += q2.res; q.cnt += q2.cnt; break; case 9: w += w; q.C = q.C * 2; q.v = q.v * 2; q.T = q.T * 2; q.res *= 2; q.cnt *= 2; break; case 10: cur = !cur; break; }
		check(a, m[0], false); check(b, m[1], false); }
	void cmp(const char* k, LD got, Q want, int cnt) { LD tol = 64 * eps<P>() * big * (cnt + 1); c.checkf(fabsl(got - (LD)want) <= tol, k, [&] { return string(k) + " is " + mc::str((double)got) + ", of the measurements " + qs(want); }); }
	void check(A& w, const Model& q, bool full) { for (int i = 0; i < n; ++i) { cmp("information vector", w.get_vector()[i], q.v(i, 0), q.cnt); for (int j = 0; j < n; ++j) { if (full || j >= i) cmp("information matrix", w.get_C_inv()(i, j), q.C(i, j), q.cnt); cmp("true information matrix", w.get_true_C_inv()(i, j), q.T(i, j), q.cnt); } } cmp("residual", w.get_residual(), q.res, q.cnt); c.check(w.get_true_C_inv().num_rows() == n && w.get_C_inv().num_cols() == n, "shape", "matrices"); }
	void solve(A& w, const Model& q) { w.compute(); check(w, q, true); Elim e(q.C); if (!e.ok) return; Q cond = q.C.inf() * e.inv.inf(); if (cond * (Q)eps<P>() > 1e-3Q) return; c.outcome("solved"); QM x = e.inv * q.v; for (int i = 0; i < n; ++i) c.checkf(qabs(Q(w.get_mu()[i]) - x(i, 0)) <= 400 * (Q)eps<P>() * cond * (x.maxabs() + e.inv.maxabs() * q.v.maxabs()) * (q.cnt + 1), "solution", [&] { return "solution element " + mc::str(i) + " is " + mc::str(w.get_mu()[i]) + ", minimiser " + qs(x(i, 0)); }); } };
template<int S, class P, template<class> class R> void histories(Ctx& c, int s, int n) { P sd = c.of({0.5, 2.0}); Run<S, P, R> r(c, s, n, sd); uint64_t h = mc::mix(s * 50 + n, (int)(sd * 2) + sizeof(P) * 100 + S); c.logf("%s size %d scale %g:", SN[s], n, (double)sd); r.check(r.a, r.m[0], true); r.check(r.b, r.m[1], true); for (int d = 0; d < c.depth; ++d) { int o = c.pick(r.OPS); r.op(o); c.step(); h = mc::mix(h, o); c.state(h); } r.solve(r.a, r.m[0]); r.solve(r.b, r.m[1]); }
void mc_register() {
#if PART == 1
	mc::scenario("RobustI", [](Ctx& c) { if (c.flip()) scheme<double, RobustI>(c, I1); else scheme<float, RobustI>(c, I1); }); mc::scenario("RobustII", [](Ctx& c) { if (c.flip()) scheme<double, RobustII>(c, I2); else scheme<float, RobustII>(c, I2); });
	mc::scenario("ILinear", [](Ctx& c) { if (c.flip()) scheme<double, ILinear>(c, LIN); else scheme<float, ILinear>(c, LIN); }); mc::scenario("RobustIII", [](Ctx& c) { if (c.flip()) scheme<double, RobustIII>(c, I3); else scheme<float, RobustIII>(c, I3); });
	mc::scenario("histories RobustI", [](Ctx& c) { histories<2, double, RobustI>(c, I1, 2); }, 4, 5);
#elif PART == 2
	mc::scenario("histories RobustII", [](Ctx& c) { histories<2, double, RobustII>(c, I2, 2); }, 4, 5); mc::scenario("histories ILinear", [](Ctx& c) { histories<3, double, ILinear>(c, LIN, 3); }, 4, 5);
#elif PART == 3
	mc::scenario("histories RobustIII", [](Ctx& c) { histories<2, double, RobustIII>(c, I3, 2); }, 4, 5); mc::scenario("histories RobustII run-time size", [](Ctx& c) { histories<Dynamic, double, RobustII>(c, I2, c.of({1, 3})); }, 3, 4);
#elif PART == 4
	mc::scenario("histories RobustI float", [](Ctx& c) { histories<2, float, RobustI>(c, I1, 2); }, 4, 5); mc::scenario("histories RobustI run-time size", [](Ctx& c) { histories<Dynamic, double, RobustI>(c, I1, 2); }, 3, 4);
#endif
}
MC_MAIN()
