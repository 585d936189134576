// C25: the simplex minimiser driven by an objective whose every answer is chosen by the explorer (relative to the values
// seen so far), against the documented reflect/expand/contract/shrink rule; and complete runs on families of functions.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/optimization/downhill_simplex.h>
#undef abort
#include "mc.hh"
using namespace TooN; using std::string; using std::vector; using mc::Ctx; typedef long double LD; typedef vector<LD> Pt;
static LD dist(const Pt& a, const Pt& b) { LD s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrtl(s); }
static string ps(const Pt& p) { string s = "("; for (auto x : p) s += mc::str((double)x) + " "; s.back() = ')'; return s; }
struct Oracle { Ctx* c; vector<Pt> pts; vector<LD> val; vector<LD> cur; int budget = 1 << 30, ext = 0; std::function<LD(const Pt&)> real; // cur: values of the present simplex, for choosing the next answer
	LD ask(const Pt& p) { for (size_t i = pts.size(); i--;) if (pts[i] == p) { pts.push_back(p); val.push_back(val[i]); return val[i]; }
		LD v; if (real) v = real(p); else { vector<LD> s = cur; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); int k = c->pick(2 * (int)s.size() + 1); if (budget-- <= 0) throw mc::Prune(); if (s.empty()) v = 0; else if (k & 1) v = s[k / 2]; else if (k == 0) v = s[0] - 4; else if (k / 2 == (int)s.size()) v = s.back() + 4; else v = (s[k / 2 - 1] + s[k / 2]) / 2; cur.push_back(v); ++ext; }
		pts.push_back(p); val.push_back(v); return v; } };
template<class P> struct Fn { Oracle& o; template<int N, class Q_, class B> P operator()(const Vector<N, Q_, B>& v) const { Pt p; for (int i = 0; i < v.size(); ++i) p.push_back(v[i]); return (P)o.ask(p); } };
template<int N, class P> struct Run { typedef DownhillSimplex<N, P> D; Ctx& c; Oracle& o; int n; D& d; LD eps, tol;
	struct St { vector<Pt> x; vector<LD> f; int best, worst; };
	St st() { St s; for (int i = 0; i <= n; ++i) { Pt p; for (int j = 0; j < n; ++j) p.push_back(d.get_simplex()[i][j]); s.x.push_back(p); s.f.push_back(d.get_values()[i]); } s.best = d.get_best(); s.worst = d.get_worst(); return s; }
	Run(Ctx& c_, Oracle& o_, int n_, D& d_) : c(c_), o(o_), n(n_), d(d_) { eps = std::numeric_limits<P>::epsilon(); }
	void consistent(const St& s) { c.check(d.get_simplex().num_rows() == n + 1 && d.get_simplex().num_cols() == n && d.get_values().size() == n + 1, "shape", "simplex"); c.check(s.best >= 0 && s.best <= n && s.worst >= 0 && s.worst <= n, "index", "best or worst");
		for (int i = 0; i <= n; ++i) { c.check(s.f[s.best] <= s.f[i], "best", "get_best is not the best vertex"); c.check(s.f[s.worst] >= s.f[i], "worst", "get_worst is not the worst vertex"); bool ok = false, seen = false; for (size_t k = 0; k < o.pts.size() && !ok; ++k) if (o.pts[k] == s.x[i]) { seen = true; ok = (P)o.val[k] == (P)s.f[i]; } c.checkf(ok, "value at vertex", [&] { return "vertex " + mc::str(i) + " at " + ps(s.x[i]) + " has stored value " + mc::str((double)s.f[i]) + (seen ? ", not the objective there" : ", but the objective was never evaluated there"); }); }
		LD span = dist(s.x[s.best], s.x[s.worst]), scale = 0; for (auto x : s.x[s.best]) scale += x * x; scale = sqrtl(scale); LD rel = (LD)d.epsilon * scale, ab = d.zero_epsilon; bool f = d.finished(); auto near = [&](LD a, LD b) { return fabsl(a - b) <= 16 * eps * b; }; if (!near(span, rel) && !near(span, ab)) c.checkf(f == (span < rel || span < ab), "finished", [&] { return "finished() is " + mc::str(f) + " with a span of " + mc::str((double)span) + " and scale " + mc::str((double)scale); }); }
	bool at(const Pt& p, const Pt& q, LD size) { return dist(p, q) <= 64 * eps * size; }
	Pt lin(LD a, const Pt& x, LD b, const Pt& y) { Pt r(n); for (int i = 0; i < n; ++i) r[i] = a * x[i] + b * y[i]; return r; }
	// the values at the point the rule asks for, or a failure if the objective was not evaluated there
	LD value(const Pt& p, size_t from, LD size, const char* w) { size_t b = from; for (size_t k = from; k < o.pts.size(); ++k) if (dist(o.pts[k], p) <= dist(o.pts[b], p)) b = k; if (b < o.pts.size() && at(o.pts[b], p, size)) return o.val[b]; c.fail("point of the rule", string(w) + " point " + ps(p) + " of the documented rule was not evaluated"); return 0; }
	void iterate(bool raw) { St s = st(); size_t from = o.pts.size(); o.cur = s.f; LD size = 1e-300L; for (auto& p : s.x) for (auto x : p) size = std::max(size, fabsl(x)); size *= (1 + d.alpha) * (1 + d.rho) * (1 + d.gamma) * 4; bool go = true; if (raw) d.find_next_point(Fn<P>{o}); else { go = d.iterate(Fn<P>{o}); c.check(go == !d.finished(), "iterate result", "iterate does not return whether it is unfinished"); } St t = st(); consistent(t);
		// a simplex so flat that rounding blurs its vertices: the rule cannot be told from its neighbours
		LD edge = INFINITY; for (int i = 0; i <= n; ++i) for (int j = 0; j < i; ++j) edge = std::min(edge, dist(s.x[i], s.x[j])); if (edge < 4096 * eps * size) { c.outcome("blurred"); c.check(t.f[t.best] <= s.f[s.best], "best value", "the best value increases"); return; }
		Pt x0(n); for (int i = 0; i <= n; ++i) if (i != s.worst) for (int j = 0; j < n; ++j) x0[j] += s.x[i][j]; for (auto& x : x0) x /= n; LD best = s.f[s.best], worst = s.f[s.worst], second = -INFINITY; for (int i = 0; i <= n; ++i) if (i != s.worst) second = std::max(second, s.f[i]);
		Pt v = lin(1, x0, -1, s.x[s.worst]), xr = lin(1, x0, d.alpha, v), xe = lin(1, x0, (LD)d.rho * d.alpha, v), xc = lin(1, x0, d.gamma, v); LD fr = value(xr, from, size, "reflected"); vector<Pt> allowed{xr}; auto repl = [&](const Pt& p, LD f, const char* w) { for (int i = 0; i <= n; ++i) if (i != s.worst) c.check(t.x[i] == s.x[i] && t.f[i] == s.f[i], "other vertices", "a vertex other than the worst changes"); c.checkf(at(t.x[s.worst], p, size) && (P)t.f[s.worst] == (P)f, "replaced vertex", [&] { return string(w) + ": the worst vertex becomes " + ps(t.x[s.worst]) + ", the rule puts it at " + ps(p); }); };
		auto shrink = [&] { c.outcome("shrink"); for (int i = 0; i <= n; ++i) { Pt q = i == s.best ? s.x[i] : lin(1, s.x[s.best], d.sigma, lin(1, s.x[i], -1, s.x[s.best])); allowed.push_back(q); c.checkf(i == s.best ? t.x[i] == q && t.f[i] == s.f[i] : at(t.x[i], q, size), "shrink", [&] { return "shrink moves vertex " + mc::str(i) + " to " + ps(t.x[i]) + ", the rule puts it at " + ps(q); }); } };
		if (fr < best) { allowed.push_back(xe); LD fe = value(xe, from, size, "expanded"); if (fe < fr) { c.outcome("expand"); repl(xe, fe, "expansion"); } else { c.outcome("reflect (best)"); if (fe == fr && at(t.x[s.worst], xe, size)) repl(xe, fe, "expansion"); else repl(xr, fr, "reflection"); } }
		else if (fr < second) { c.outcome("reflect"); repl(xr, fr, "reflection"); }
		else if (fr < worst) { allowed.push_back(xc); LD fc = value(xc, from, size, "contracted"); bool moved = false; for (int i = 0; i <= n; ++i) if (i != s.worst && i != s.best && t.x[i] != s.x[i]) moved = true; bool tie = fc == fr; if (fc < fr || (tie && !moved && at(t.x[s.worst], xc, size))) { c.outcome("contract"); repl(xc, fc, "contraction"); } else shrink(); }
		else shrink();
		for (size_t k = from; k < o.pts.size(); ++k) { bool ok = false; for (auto& a : allowed) ok |= at(o.pts[k], a, size); c.checkf(ok, "evaluated points", [&] { return "the objective is evaluated at " + ps(o.pts[k]) + ", which the rule never asks for"; }); }
		c.check(t.f[t.best] <= s.f[s.best], "best value", "the best value increases"); }
	void restart(P spread) { St s = st(); o.cur = s.f; d.restart(Fn<P>{o}, spread); St t = st(); consistent(t); bool kept = false; LD size = 1e-300L; for (auto x : s.x[s.best]) size = std::max(size, fabsl(x)); size += fabsl((LD)spread); for (int i = 0; i <= n; ++i) { kept |= t.x[i] == s.x[s.best]; Pt w = s.x[s.best]; if (i < n) w[i] += spread; c.checkf(at(t.x[i], w, size), "restart", [&] { return "restart puts vertex " + mc::str(i) + " at " + ps(t.x[i]) + " instead of " + ps(w); }); } c.check(kept, "restart", "restart loses the best point"); c.check(t.f[t.best] <= s.f[s.best], "best value", "restart increases the best value"); }
	void start(const Pt& x, LD spread) { St t = st(); consistent(t); for (int i = 0; i <= n; ++i) { Pt w = x; if (i < n) w[i] += spread; for (auto& e : w) e = (P)e; c.check(t.x[i] == w, "start", "initial simplex"); } }
};
template<int N, class P> void adversary(Ctx& c, int n, bool coef) { Oracle o; o.c = &c; o.budget = c.depth; int sp = c.pick(3), at = c.pick(2); P spread = sp == 0 ? P(1) : sp == 1 ? P(-0.5) : P(4); Pt x0(n); Vector<N> v(n); for (int i = 0; i < n; ++i) v[i] = x0[i] = at ? 3 + i : 0; typedef DownhillSimplex<N, P> D; uint64_t h = mc::mix(n * 100 + N, sp * 2 + at); c.logf("dimension %d spread %g at %g;", n, (double)spread, (double)x0[0]);
	D d(Fn<P>{o}, v, spread); if (coef) { static const double A[] = {1, 0.5, 1, 1.5}, R[] = {2, 2, 3, 1.5}, G[] = {0.5, 0.5, 0.25, -0.5}, S[] = {0.5, 0.25, 0.75, 0.5}; int k = c.pick(4); h = mc::mix(h, k); d.alpha = A[k]; d.rho = R[k]; d.gamma = G[k]; d.sigma = S[k]; } Run<N, P> r(c, o, n, d); r.start(x0, spread);
	for (int it = 0; it < 100; ++it) { int w = c.pick(it ? 3 : 2); c.step(); if (w == 2) { r.restart(spread / 2); c.log("restart"); break; } int e0 = o.ext; r.iterate(w == 0); string f; for (int i = 0; i <= n; ++i) f += mc::str(d.get_values()[i]) + " "; c.log(f); h = mc::mix(mc::hash_str(f), h); c.state(h); if (o.budget <= 0) break; } }
template<int N, class P> void whole(Ctx& c, int n) { int fn = c.pick(9), at = c.pick(5), sp = c.pick(5); static const double S[] = {1, 0.1, 10, -2, 1e-3}, X[] = {0, 1, -3, 50, 0.01}; Oracle o; o.c = &c; long calls = 0;
	o.real = [&](const Pt& p) -> LD { if (++calls > 400000) c.fail("termination", "the minimisation does not terminate"); LD s = 0; switch (fn) { case 0: for (auto x : p) s += x * x; break; case 1: for (size_t i = 0; i < p.size(); ++i) s += powl(10, i) * (p[i] - 1) * (p[i] - 1); break; case 2: for (auto x : p) s += fabsl(x - 2); break; case 3: s = 7; break; case 4: for (auto x : p) s += floorl(x); s = fabsl(s); break; case 5: for (auto x : p) s += sinl(x) + x * x / 50; break; case 6: if (p.size() < 2) s = powl(p[0], 4); else { s = powl(1 - p[0], 2) + 100 * powl(p[1] - p[0] * p[0], 2); for (size_t i = 2; i < p.size(); ++i) s += p[i] * p[i]; } break; case 7: for (auto x : p) s = std::max(s, fabsl(x)); break; case 8: for (auto x : p) { if (x < 0.25) return INFINITY; s += x; } break; } return (P)s; };
	c.logf("function %d dimension %d start %g spread %g", fn, n, X[at], S[sp]); c.state(((fn * 5 + at) * 5 + sp) * 10 + n + sizeof(P) * 10000); Vector<N> v(n); for (int i = 0; i < n; ++i) v[i] = (P)X[at]; DownhillSimplex<N, P> d(Fn<P>{o}, v, P(S[sp])); Run<N, P> r(c, o, n, d); LD start = d.get_values()[d.get_best()]; auto wipe = [&] { auto s = r.st(); o.pts = s.x; o.val = s.f; };
	for (int round = 0; round < 2; ++round) { int it = 0; for (;; ++it) { if (it > 20000) c.fail("termination", "20000 iterations without an end"); LD b = d.get_values()[d.get_best()]; c.step(); if (it < 60) r.iterate(false); else if (!d.iterate(Fn<P>{o})) { break; } c.check(d.get_values()[d.get_best()] <= b, "best value", "the best value increases"); if (d.finished()) break; if (it >= 60) wipe(); } r.consistent(r.st()); wipe(); if (!round) r.restart(P(S[sp]) / 2); } c.check(d.get_values()[d.get_best()] <= start, "result", "worse than the start"); }
void mc_register() {
#if PART == 1
	mc::scenario("one dimension", [](Ctx& c) { adversary<1, double>(c, 1, false); }, 6, 8); mc::scenario("one dimension, other coefficients", [](Ctx& c) { adversary<1, double>(c, 1, true); }, 5, 7);
	mc::scenario("two dimensions", [](Ctx& c) { adversary<2, double>(c, 2, false); }, 5, 8);
#elif PART == 2
	mc::scenario("two dimensions, other coefficients", [](Ctx& c) { adversary<2, double>(c, 2, true); }, 5, 7); mc::scenario("run-time size, one and two dimensions", [](Ctx& c) { adversary<-1, double>(c, 1 + c.pick(2), false); }, 5, 7); mc::scenario("three dimensions", [](Ctx& c) { adversary<3, double>(c, 3, false); }, 5, 7);
#elif PART == 3
	mc::scenario("two dimensions, float", [](Ctx& c) { adversary<2, float>(c, 2, false); }, 5, 7); mc::scenario("run-time size, four dimensions", [](Ctx& c) { adversary<-1, double>(c, 4, false); }, 5, 7); mc::scenario("run-time size, float", [](Ctx& c) { adversary<-1, float>(c, 3, false); }, 5, 6);
#elif PART == 4
	mc::scenario("whole runs", [](Ctx& c) { int n = c.pick(3); if (n == 0) whole<1, double>(c, 1); else if (n == 1) whole<2, double>(c, 2); else whole<-1, double>(c, 4); }); mc::scenario("whole runs, float", [](Ctx& c) { if (c.flip()) whole<2, float>(c, 2); else whole<-1, float>(c, 3); });
#endif
}
MC_MAIN()
