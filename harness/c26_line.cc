// C26: bracketing, golden section, Brent and conjugate gradients against objectives whose every answer (rank among the values
// seen, or NaN beyond a point) and every gradient is chosen by the explorer; and complete runs on families of functions.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/conjugate_gradient.h>
#undef abort
#include "mc.hh"
using namespace TooN; using std::string; using std::vector; using mc::Ctx; typedef long double LD;
// an objective on a line: each new point gets a value of any rank among those known
template<class P> struct Line { Ctx* c; int budget; int tail = 0; vector<std::pair<P, P>> v; P nan_from = INFINITY; bool nans = false; long calls = 0, fresh = 0; bool up = false; std::function<void(P)> before; std::function<P(P)> real;
	P known(P x) const { for (auto& e : v) if (e.first == x) return e.second; return NAN; } bool has(P x) const { for (auto& e : v) if (e.first == x) return true; return false; }
	P ask(P x) { ++calls; if (calls > 20000) c->fail("termination", "20000 evaluations without an end"); if (before) before(x); if (has(x)) return known(x); ++fresh; if (real) { v.push_back({x, real(x)}); return v.back().second; }
		if (x >= nan_from) { v.push_back({x, P(NAN)}); return NAN; }
		vector<P> s; P top = -INFINITY; for (auto& e : v) if (e.second == e.second) { s.push_back(e.second); top = std::max(top, e.first); } std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); int k, m = 2 * (int)s.size() + 1; bool cannan = nans && x > top;
		if (budget-- > 0) { c->step(); k = c->pick(m + cannan); } else k = tail == 0 ? m - 1 : tail == 1 ? 1 : fresh % 2 ? m - 1 : 1; // no more choices: worse than all, or as good as the best, or both in turn
		if (k == m) { nan_from = x; c->outcome("NaN"); v.push_back({x, P(NAN)}); return NAN; }
		P r = s.empty() ? P(0) : k & 1 ? s[k / 2] : k == 0 ? s[0] - 4 : k / 2 == (int)s.size() ? s.back() + 4 : (s[k / 2 - 1] + s[k / 2]) / 2; v.push_back({x, r}); return r; } };
template<class P> struct LF { Line<P>* l; P operator()(P x) const { return l->ask(x); } };
// the tightest interval around a best point known; if several points tie, the widest such
template<class P> bool around(const vector<std::pair<P, P>>& v, P lo, P hi, P& l, P& r, P& best, P& at) { best = INFINITY; int n = 0; for (auto& e : v) best = std::min(best, e.second); l = hi; r = lo; at = 0; for (auto& e : v) if (e.second == best) { P a = lo, b = hi; for (auto& f : v) { if (f.first < e.first) a = std::max(a, f.first); if (f.first > e.first) b = std::min(b, f.first); } l = std::min(l, a); r = std::max(r, b); at = e.first; ++n; } return n > 1; }
template<class P, class L> bool tight(const vector<std::pair<P, P>>& v, P lo, P hi, P best, P& w, L ok) { w = INFINITY; bool good = false; for (auto& e : v) if (e.second == best) { P a = lo, b = hi; for (auto& f : v) { if (f.first < e.first) a = std::max(a, f.first); if (f.first > e.first) b = std::min(b, f.first); } w = std::min(w, b - a); good |= ok(a, b, b - a); } return good; }
template<class P> void search(Ctx& c, bool brent, std::function<P(P)> real = {}, P want = NAN) { static const double B[][3] = {{-1, 0, 1}, {0, 1, 4}, {-3, -2.5, 0}, {0, 0.381966011250105, 1}, {0, 0.618033988749895, 1}, {100, 101, 103}, {-1000, 1, 2}, {-1e-3, 0, 3e-3}};
	int b = c.pick(8), mi = c.pick(4), ti = c.pick(3); int maxit = mi == 0 ? 1 : mi == 1 ? 3 : mi == 2 ? 8 : 400; P eps = std::numeric_limits<P>::epsilon(), tol = ti == 0 ? std::sqrt(eps) : ti == 1 ? P(0.01) : P(0.2), zeps = ti == 1 ? P(1e-3) : eps; Line<P> L; L.c = &c; L.budget = c.depth; L.real = real; if (!real) { L.tail = c.pick(3); if (L.tail) maxit = std::min(maxit, 40); } P lo = B[b][0], x = B[b][1], hi = B[b][2], fx = real ? real(x) : P(0); if (real && !(lo < want && want < hi && fx <= real(lo) && fx <= real(hi))) throw mc::Prune(); L.v.push_back({x, fx}); int form = c.pick(ti == 0 ? 2 : 1); c.logf("[%g %g %g] at most %d tolerance %g form %d tail %d;", (double)lo, (double)x, (double)hi, maxit, (double)tol, form, L.tail);
	auto limit = [&](P l, P r) { LD m = std::max(fabsl(l), fabsl(r)); return brent ? LD(tol) * (fabsl(l) + fabsl(r)) + zeps : 2 * LD(tol) * m; };
	auto key = [&] { string s; for (auto& e : L.v) s += mc::str((double)e.first) + ":" + mc::str((double)e.second) + " "; return s; };
	L.before = [&](P p) { P l, r, best, at; bool tied = around(L.v, lo, hi, l, r, best, at); c.checkf(p >= l && p <= r, "evaluates inside", [&] { return "evaluates at " + mc::str((double)p) + " outside [" + mc::str((double)l) + ", " + mc::str((double)r) + "], the tightest bracket known"; }); P w = r - l; c.checkf(L.fresh == 0 || tied || (!brent && b != 0 && b != 3 && b != 4) || w >= limit(l, r) / 16 || w <= 8 * eps * std::max(fabsl(l), fabsl(r)), "stops", [&] { return "goes on with a bracket of width " + mc::str((double)w); }); c.check(L.calls <= maxit + 1, "maximum iterations", "more evaluations than the maximum number of iterations"); };
	Vector<2, P> m = brent ? form == 0 ? brent_line_search(lo, x, hi, fx, LF<P>{&L}, maxit, tol, zeps) : brent_line_search(lo, x, hi, fx, LF<P>{&L}, maxit) : form == 0 ? golden_section_search(lo, x, hi, fx, LF<P>{&L}, maxit, tol) : golden_section_search(lo, x, hi, fx, LF<P>{&L}, maxit);
	P l, r, best, at, w; around(L.v, lo, hi, l, r, best, at); bool conv = tight(L.v, lo, hi, best, w, [&](P a, P b, P d) { return d <= limit(a, b) * (1 + 16 * eps); }); c.state(mc::mix(mc::hash_str(key()), b * 100 + mi * 10 + ti + brent * 1000));
	c.checkf(m[0] >= lo && m[0] <= hi, "inside", [&] { return "result " + mc::str((double)m[0]) + " outside the bracket"; }); c.checkf(L.has(m[0]) && L.known(m[0]) == m[1], "value", [&] { return "reports " + mc::str((double)m[1]) + " at " + mc::str((double)m[0]) + ", which is not the objective there"; }); c.checkf(m[1] == best, "best", [&] { return "reports " + mc::str((double)m[1]) + " although " + mc::str((double)best) + " was seen"; });
	bool full = L.calls >= maxit; c.outcome(full ? "maximum reached" : "tolerance reached"); P ml = lo, mr = hi; for (auto& f : L.v) { if (f.first < m[0]) ml = std::max(ml, f.first); if (f.first > m[0]) mr = std::min(mr, f.first); } if (!full) c.checkf(conv, "tolerance", [&] { return "stops after " + mc::str(L.calls) + " of " + mc::str(maxit) + " with a bracket of width " + mc::str((double)w) + ": " + key(); });
	if (real && !full) c.checkf(fabsl(m[0] - want) <= limit(l, r) + LD(std::sqrt(eps)) * 8 * std::max(P(1), P(fabsl(want))), "minimum", [&] { return "finds " + mc::str((double)m[0]) + " instead of " + mc::str((double)want); }); }
template<class P> void families(Ctx& c, bool brent) { int f = c.pick(6), m = c.pick(5); static const double M[] = {0.3, 0, -0.75, 2, 101.5}; P x0 = M[m]; c.logf("function %d minimum %g", f, (double)x0); std::function<P(P)> g; switch (f) { case 0: g = [x0](P x) { return (x - x0) * (x - x0); }; break; case 1: g = [x0](P x) { return std::fabs(x - x0); }; break; case 2: g = [x0](P x) { return 3 + (x - x0) * (x - x0) + std::fabs((x - x0) * (x - x0) * (x - x0)); }; break; case 3: g = [x0](P x) { P d = x - x0; return std::exp(d / 4) - d / 4; }; break; case 4: g = [x0](P x) { P d = x - x0; return d < 0 ? -d : 10 * d; }; break; case 5: g = [x0](P x) { return std::sqrt(std::fabs(x - x0)); }; break; } search<P>(c, brent, g, x0); }
template<class P> void bracket(Ctx& c) { Line<P> L; L.c = &c; L.budget = c.depth; int li = c.pick(3), zi = c.pick(3); P lam = li == 0 ? P(1) : li == 1 ? P(0.125) : P(100), zeps = zi == 0 ? P(1e-20) : zi == 1 ? P(1e-3) : P(0.1); P a_val = 0; L.v.push_back({0, a_val}); L.nans = true; c.logf("initial step %g, smallest %g;", (double)lam, (double)zeps); L.before = [&](P x) { c.check(x >= 0, "forward", "evaluates behind the start"); };
	Matrix<3, 2, P> r = Internal::bracket_minimum_forward(a_val, LF<P>{&L}, lam, zeps); string key; P best = INFINITY, small = INFINITY; for (auto& e : L.v) { key += mc::str((double)e.first) + ":" + mc::str((double)e.second) + " "; if (e.second == e.second) best = std::min(best, e.second); if (e.first > 0) small = std::min(small, e.first); } c.state(mc::mix(mc::hash_str(key), li * 3 + zi)); auto shown = [&] { return "[" + mc::str((double)r[0][0]) + " " + mc::str((double)r[1][0]) + " " + mc::str((double)r[2][0]) + "] after " + key; };
	if (r[0][0] == 0 && r[1][0] == 0 && r[2][0] == 0) { c.outcome("no bracket"); c.checkf(best >= a_val, "no bracket", [&] { return "gives up although a lower point was seen: " + key; }); c.checkf(small < zeps, "no bracket", [&] { return "gives up at " + mc::str((double)small) + " before the smallest step"; }); return; }
	for (int i = 0; i < 3; ++i) c.checkf(L.has(r[i][0]) && L.known(r[i][0]) == r[i][1], "values", [&] { return "value " + mc::str((double)r[i][1]) + " is not the objective at " + mc::str((double)r[i][0]) + ": " + shown(); }); c.checkf(r[0][0] >= 0 && r[0][0] < r[1][0] && (r[1][0] < r[2][0] || (r[1][0] == r[2][0] && L.nan_from < INFINITY)), "order", [&] { return "not in order: " + shown(); });
	if (r[1][1] <= r[2][1]) { c.outcome("bracket"); c.checkf(r[1][1] < r[0][1] && r[1][1] == best, "bracket", [&] { return "the middle is not the lowest point seen: " + shown(); }); } else { c.outcome("edge"); c.checkf(std::isfinite((double)L.nan_from) && r[2][1] == best && r[1][1] < r[0][1], "edge", [&] { return "no bracket, though no invalid region was met: " + shown(); }); } }
// ---- conjugate gradients
template<int N, class P> struct Obj { Ctx* c; int budget; vector<std::pair<Vector<N, P>, P>> v; long calls = 0; int tail = 0; std::function<P(const Vector<N, P>&)> real; int edge = -1; 
	int find(const Vector<N, P>& x) const { for (size_t i = 0; i < v.size(); ++i) { bool e = true; for (int j = 0; j < x.size(); ++j) e &= v[i].first[j] == x[j]; if (e) return i; } return -1; }
	P ask(const Vector<N, P>& x) { if (++calls > 200000) c->fail("termination", "200000 evaluations without an end"); if (real) return real(x); int i = find(x); if (i >= 0) return v[i].second; vector<P> s; for (auto& e : v) s.push_back(e.second); std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end()); if (s.size() > 3) s.resize(3); int k, m = 2 * (int)s.size() + 1; if (budget-- > 0) { c->step(); k = c->pick(m); } else k = tail == 0 || calls % 16 == 0 ? m - 1 : tail == 1 ? 1 : calls % 2 ? m - 1 : 1; P r = s.empty() ? P(0) : k & 1 ? s[k / 2] : k == 0 ? s[0] - 4 : k / 2 == (int)s.size() ? s.back() + 4 : (s[k / 2 - 1] + s[k / 2]) / 2; v.push_back({x, r}); return r; } };
template<int N, class P> struct OF { Obj<N, P>* o; P operator()(const Vector<N, P>& x) const { return o->ask(x); } };
template<int N, class P> bool same(const Vector<N, P>& a, const Vector<N, P>& b) { for (int i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) return false; return true; }
template<int N, class P> string vs(const Vector<N, P>& v) { string s = "("; for (int i = 0; i < v.size(); ++i) s += mc::str((double)v[i]) + " "; s.back() = ')'; return s; }
template<int N, class P, class F, class D> bool step(Ctx& c, ConjugateGradient<N, P>& g, const F& f, const D& d, std::function<P(const Vector<N, P>&)> value, int part) { Vector<N, P> x = g.x, h = g.h, gr = g.g; P y = g.y; int it = g.iterations; P eps = std::numeric_limits<P>::epsilon(); c.check(same<N, P>(g.minus_h, -g.h), "minus h", "minus_h is not -h"); bool go;
	if (part) { g.find_next_point(f); go = !g.finished(); } else go = g.iterate(f, d);
	c.checkf(g.y <= y, "improves", [&] { return "the value goes from " + mc::str((double)y) + " to " + mc::str((double)g.y); }); P at = value(g.x); c.checkf(at == g.y, "value", [&] { return "reports " + mc::str((double)g.y) + " at " + vs(g.x) + ", where the objective is " + mc::str((double)at); }); c.check(same(g.old_x, x) && g.old_y == y, "old point", "old_x or old_y is not the previous point"); c.check(g.iterations == it + 1, "iterations", "not one more");
	LD t = 0, hh = 0; for (int i = 0; i < x.size(); ++i) { t += ((LD)x[i] - g.x[i]) * h[i]; hh += (LD)h[i] * h[i]; } if (hh > 0 && std::isfinite((double)hh)) { t /= hh; LD nx = 0; for (int i = 0; i < x.size(); ++i) nx = std::max(nx, fabsl(x[i])); c.checkf(t >= 0, "direction", [&] { return string("moves along +h"); }); for (int i = 0; i < x.size(); ++i) c.checkf(fabsl(x[i] - t * h[i] - g.x[i]) <= 64 * eps * (nx + fabsl(t * h[i])), "direction", [&] { return "moves from " + vs(x) + " to " + vs(g.x) + ", not along h=" + vs(h); }); }
	LD l = 2 * fabsl((LD)g.y - y), r = (LD)g.tolerance * (fabsl((LD)g.y) + fabsl((LD)y) + g.epsilon); if (fabsl(l - r) > 16 * eps * r) c.checkf(go == !(it + 1 > g.max_iterations || l <= r), "finished", [&] { return "finished() is " + mc::str(!go) + " after values " + mc::str((double)y) + ", " + mc::str((double)g.y); });
	if (part && go) { g.update_vectors_PR(d(g.x)); } if (go) { Vector<N, P> ng = d(g.x); c.check(same(g.g, ng) && same(g.old_g, gr) && same(g.old_h, h), "gradients", "g, old_g or old_h"); LD gg = 0, og = 0, oo = 0, ab = 0; for (int i = 0; i < x.size(); ++i) { gg += (LD)ng[i] * ng[i]; og += (LD)ng[i] * gr[i]; oo += (LD)gr[i] * gr[i]; ab += fabsl((LD)ng[i] * gr[i]); } if (oo > 0) { LD ga = (gg - og) / oo, e = 64 * eps * (gg + ab) / oo; for (int i = 0; i < x.size(); ++i) c.checkf(fabsl(g.h[i] - (ng[i] + ga * h[i])) <= 8 * eps * (fabsl(ng[i]) + fabsl(ga * h[i])) + e * fabsl(h[i]), "update", [&] { return "h becomes " + vs(g.h) + " for gradients " + vs(gr) + ", " + vs(ng) + " and h " + vs(h); }); } c.check(same<N, P>(g.minus_h, -g.h), "minus h", "minus_h is not -h"); }
	else c.check(same(g.g, gr) && same(g.h, h), "not updated", "g or h changes in the last iteration"); return go; }
template<int N, class P> void adversary(Ctx& c, int n) { Obj<N, P> o; o.c = &c; o.budget = c.depth; o.tail = c.pick(3); Vector<N, P> x0(n); for (int i = 0; i < n; ++i) x0[i] = 1 + i; int dcount = 0; vector<std::pair<Vector<N, P>, int>> ds; auto grad = [&](const Vector<N, P>& x) { int k = -1; for (auto& e : ds) if (same(e.first, x)) k = e.second; if (k < 0) { k = dcount < 2 ? c.pick(4) : 0; ++dcount; ds.push_back({x, k}); } Vector<N, P> r(n); for (int i = 0; i < n; ++i) r[i] = k == 0 ? P(1) : k == 1 ? P(-0.5) * (i + 1) : k == 2 ? P(i == 0 ? 3 : 0) : P(0); return r; }; OF<N, P> f{&o};
	int ctor = c.pick(2); ConjugateGradient<N, P> g = ctor ? ConjugateGradient<N, P>(x0, f, grad) : ConjugateGradient<N, P>(x0, f, grad(x0)); c.check(same(g.x, x0) && g.y == o.ask(x0) && same(g.g, grad(x0)) && same(g.h, g.g) && g.iterations == 0, "start", "initial state"); int ti = c.pick(3); g.linesearch_max_iterations = ti == 0 ? 3 : ti == 1 ? 1 : 30; if (ti == 0) { g.tolerance = P(0.1); g.linesearch_tolerance = P(0.1); } if (ti == 1) g.max_iterations = 2; g.bracket_epsilon = P(0.01); c.logf("dimension %d constructor %d options %d tail %d;", n, ctor, ti, o.tail); int part = c.pick(2); bool go = true; for (int it = 0; go && it < 4; ++it) { go = step<N, P>(c, g, f, grad, [&](const Vector<N, P>& x) { int i = o.find(x); if (i < 0) c.fail("value", "the reported point " + vs(x) + " was never evaluated"); return o.v[i].second; }, part); c.log(mc::str((double)g.y)); string k; for (auto& e : o.v) k += mc::str((double)e.second) + " "; c.state(mc::mix(mc::hash_str(k), n * 100 + ti * 10 + it)); } c.outcome(go ? "continues" : "finished"); }
template<int N, class P> void whole(Ctx& c, int n) { int fn = c.pick(9), st = c.pick(4), sc = c.pick(3); LD eps = std::numeric_limits<P>::epsilon(), S = sc == 0 ? 1 : sc == 1 ? 1.0L / 3 : 50; Obj<N, P> o; o.c = &c; LD min = NAN; auto q = [n](int i, int j) -> LD { return i == j ? 2 + i : 0.5L / (1 + abs(i - j)); };
	auto value = [=](const Vector<N, P>& x) -> P { LD s = 0; switch (fn) { case 0: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) s += q(i, j) * (x[i] - 1) * (x[j] - 1) / 2; break; case 1: for (int i = 0; i < n; ++i) s += (x[i] - 1.5L) * (x[i] - 1.5L) / (1 + i); s += 7; break; case 2: for (int i = 0; i < n; ++i) s += fabsl(x[i] + 2); break; case 3: if (n == 1) s = powl(x[0] - 1, 4); else { s = powl(1 - x[0], 2) + 100 * powl(x[1] - (LD)x[0] * x[0], 2); for (int i = 2; i < n; ++i) s += (LD)x[i] * x[i]; } break; case 4: for (int i = 0; i < n; ++i) { if (x[i] >= 4) return NAN; s += -logl(4 - x[i]) - x[i] * 2; } break; case 5: for (int i = 0; i < n; ++i) s += std::max(0.0L, 1 - (LD)x[i]); break; case 6: for (int i = 0; i < n; ++i) { if (x[i] > 5) return NAN; s -= x[i]; } break; case 7: s = -3; break; case 8: for (int i = 0; i < n; ++i) s += sinl(x[i]) + (LD)x[i] * x[i] / 40; break; } return P(S * s); };
	auto grad = [=](const Vector<N, P>& x) { Vector<N, P> r(n); for (int i = 0; i < n; ++i) { LD s = 0; switch (fn) { case 0: for (int j = 0; j < n; ++j) s += q(i, j) * (x[j] - 1); break; case 1: s = 2 * (x[i] - 1.5L) / (1 + i); break; case 2: s = x[i] > -2 ? 1 : x[i] < -2 ? -1 : 0; break; case 3: if (n == 1) s = 4 * powl(x[0] - 1, 3); else if (i == 0) s = -2 * (1 - x[0]) - 400 * (x[1] - (LD)x[0] * x[0]) * x[0]; else if (i == 1) s = 200 * (x[1] - (LD)x[0] * x[0]); else s = 2 * x[i]; break; case 4: s = 1 / (4 - (LD)x[i]) - 2; break; case 5: s = x[i] < 1 ? -1 : 0; break; case 6: s = -1; break; case 7: s = i + 1; break; case 8: s = cosl(x[i]) + x[i] / 20; break; } r[i] = P(S * s); } return r; };
	switch (fn) { case 0: min = 0; break; case 1: min = 7 * S; break; case 4: min = n * S * (-logl(0.5L) - 7); break; case 3: min = 0; break; case 5: min = 0; break; case 7: min = -3 * S; break; } // (2, 8: not smooth or not unimodal)
	o.real = value; Vector<N, P> x0(n); for (int i = 0; i < n; ++i) x0[i] = st == 0 ? P(0) : st == 1 ? P(i + 1) : st == 2 ? P(-1.5) : P(3.25 - i); c.logf("function %d times %g dimension %d start %d precision %d", fn, (double)S, n, st, (int)sizeof(P)); c.state(((fn * 4 + st) * 3 + sc) * 1000 + n * 100 + sizeof(P) + (N == n ? 50 : 0)); if (value(x0) != value(x0)) throw mc::Prune(); OF<N, P> f{&o}; ConjugateGradient<N, P> g(x0, f, grad); c.check(g.max_iterations == 100 * n, "defaults", "maximum iterations is not 100 times the dimension"); int it = 0; for (bool go = true; go; ++it) { c.step(); go = step<N, P>(c, g, f, grad, value, 0); c.check(it <= g.max_iterations + 1, "termination", "goes on after the maximum number of iterations"); }
	c.outcome(it > g.max_iterations ? "maximum" : "converged"); if (min == min && (fn != 3 || (sizeof(P) >= 8 && it <= g.max_iterations)) && fn != 5) { LD y0 = fabsl((LD)value(x0) - min), e = (fn <= 1 ? 1e3L : 1e4L) * sqrtl(eps) * (fabsl(min) + y0 / 100 + S * sqrtl(eps)); c.checkf(g.y - min <= e + 16 * eps * fabsl(min), "minimum", [&] { return "reaches " + mc::str((double)g.y) + ", the minimum is " + mc::str((double)min) + ", in " + mc::str(it) + " iterations"; }); } if (fn == 5) c.checkf(g.y <= value(x0), "minimum", [&] { return string("worse"); }); }
void mc_register() {
#if PART == 1
	mc::scenario("golden section", [](Ctx& c) { search<double>(c, false); }, 4, 5); mc::scenario("golden section, float", [](Ctx& c) { search<float>(c, false); }, 3, 5); mc::scenario("golden section families", [](Ctx& c) { families<double>(c, false); }); mc::scenario("golden section families, float", [](Ctx& c) { families<float>(c, false); }); mc::scenario("golden section families, long double", [](Ctx& c) { families<long double>(c, false); });
#elif PART == 2
	mc::scenario("Brent", [](Ctx& c) { search<double>(c, true); }, 4, 5); mc::scenario("Brent, float", [](Ctx& c) { search<float>(c, true); }, 3, 5); mc::scenario("Brent families", [](Ctx& c) { families<double>(c, true); }); mc::scenario("Brent families, float", [](Ctx& c) { families<float>(c, true); }); mc::scenario("Brent families, long double", [](Ctx& c) { families<long double>(c, true); });
#elif PART == 3
	mc::scenario("bracket", [](Ctx& c) { bracket<double>(c); }, 6, 8); mc::scenario("bracket, float", [](Ctx& c) { bracket<float>(c); }, 5, 7);
	mc::scenario("conjugate gradient, 1 dimension", [](Ctx& c) { adversary<1, double>(c, 1); }, 4, 6);
#elif PART == 4
	mc::scenario("conjugate gradient, 2 dimensions", [](Ctx& c) { adversary<2, double>(c, 2); }, 4, 6); mc::scenario("conjugate gradient, run-time size, float", [](Ctx& c) { adversary<Dynamic, float>(c, 2); }, 4, 5);
#elif PART == 5
	mc::scenario("whole runs", [](Ctx& c) { int n = c.pick(4); if (n == 0) whole<1, double>(c, 1); else if (n == 1) whole<2, double>(c, 2); else if (n == 2) whole<3, double>(c, 3); else whole<Dynamic, double>(c, 4); }); mc::scenario("whole runs, float", [](Ctx& c) { if (c.flip()) whole<2, float>(c, 2); else whole<Dynamic, float>(c, 3); });
#endif
}
MC_MAIN()
