// C27: numerical gradients and Hessians against analytic derivatives, over an enumerated family of functions, points and
// storage kinds; every point at which the function is evaluated is monitored.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/functions/derivatives.h>
#undef abort
#include "mc.hh"
using std::string; using std::vector; using mc::Ctx; typedef long double LD;
// second-order forward differentiation in n variables
struct J { int n; LD v; vector<LD> g; vector<LD> h; J(int n_ = 0, LD x = 0) : n(n_), v(x), g(n_), h(n_ * n_) {} LD& H(int i, int j) { return h[i * n + j]; } LD H(int i, int j) const { return h[i * n + j]; } };
static J operator+(J a, const J& b) { a.v += b.v; for (int i = 0; i < a.n; ++i) a.g[i] += b.g[i]; for (size_t i = 0; i < a.h.size(); ++i) a.h[i] += b.h[i]; return a; }
static J operator*(const J& a, const J& b) { J r(a.n, a.v * b.v); for (int i = 0; i < a.n; ++i) { r.g[i] = a.v * b.g[i] + b.v * a.g[i]; for (int j = 0; j < a.n; ++j) r.H(i, j) = a.v * b.H(i, j) + b.v * a.H(i, j) + a.g[i] * b.g[j] + a.g[j] * b.g[i]; } return r; }
static J operator*(LD k, const J& a) { return J(a.n, k) * a; }
static J chain(const J& a, LD f, LD d, LD dd) { J r(a.n, f); for (int i = 0; i < a.n; ++i) { r.g[i] = d * a.g[i]; for (int j = 0; j < a.n; ++j) r.H(i, j) = d * a.H(i, j) + dd * a.g[i] * a.g[j]; } return r; }
static J exp_(const J& a) { LD e = expl(a.v); return chain(a, e, e, e); } static LD exp_(LD a) { return expl(a); } static J sin_(const J& a) { return chain(a, sinl(a.v), cosl(a.v), -sinl(a.v)); } static LD sin_(LD a) { return sinl(a); }
static J rat(const J& a) { LD q = 1 + a.v * a.v; return chain(a, 1 / q, -2 * a.v / (q * q), (6 * a.v * a.v - 2) / (q * q * q)); } static LD rat(LD a) { return 1 / (1 + a * a); } static J hyp(const J& a) { LD q = sqrtl(1 + a.v * a.v); return chain(a, q, a.v / q, 1 / (q * q * q)); } static LD hyp(LD a) { return sqrtl(1 + a * a); }
static LD con(int, LD x, LD) { return x; } static J con(int n, LD x, const J&) { return J(n, x); }
struct F { int kind = 0; vector<int> co; // polynomial: coefficient per monomial; otherwise a closed form
	template<class T> T operator()(const vector<T>& x) const { int n = x.size(); T r = con(n, 0, x[0]); auto add = [&](LD k, const T& t) { r = r + k * t; };
		switch (kind) { case 0: { size_t k = 0; auto c = [&] { return k < co.size() ? co[k++] : 0; }; r = con(n, c(), x[0]); for (int i = 0; i < n; ++i) add(c(), x[i]); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) add(c(), x[i] * x[j]); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) for (int l = j; l < n; ++l) add(c(), x[i] * x[j] * x[l]); break; }
			case 1: { T s = 0.5L * x[0]; for (int i = 1; i < n; ++i) s = s + (0.25L * (i + 1)) * x[i]; r = exp_(0.01L * s); break; } case 2: r = con(n, 1, x[0]); for (int i = 0; i < n; ++i) r = r * sin_((1 + i * 0.5L) * x[i] + con(n, i, x[0])); break; case 3: for (int i = 0; i < n; ++i) add(i + 1, rat(x[i] + con(n, 0.5L, x[0]))); break; case 4: { T s = x[0] * x[n - 1]; for (int i = 0; i < n; ++i) s = s + x[i]; r = hyp(s); break; } case 5: for (int i = 0; i < n; ++i) add(1, sin_(x[i] * x[(i + 1) % n])); break; case 6: { T s = x[0]; for (int i = 1; i < n; ++i) s = s * x[i]; r = s * s + sin_(s); break; } case 7: for (int i = 0; i < n; ++i) { T p = x[i]; for (int k = 0; k <= i; ++k) p = p * x[(i + 1) % n]; add(1, p); } break; }
		return r; } };
struct Seen { vector<vector<LD>> pts; };
template<class P> struct Fun { const F* f; Seen* s; bool mark = false; template<int N, class Q, class B> P operator()(const TooN::Vector<N, Q, B>& v) const { vector<LD> x(v.size()); for (int i = 0; i < v.size(); ++i) x[i] = v[i]; s->pts.push_back(x); return P((*f)(x)); } };
template<int N, class P, class V> void check(Ctx& c, const F& f, V& v, int which) { int n = v.size(); vector<J> jx; vector<LD> x0; LD eps = std::numeric_limits<P>::epsilon(); for (int i = 0; i < n; ++i) { J j(n, v[i]); j.g[i] = 1; jx.push_back(j); x0.push_back(v[i]); } J a = f(jx); Seen s; Fun<P> fun{&f, &s}; auto h0 = [&](int i) { return std::max(fabsl(x0[i]) * 1e-3L, 1e-3L); };
	auto where = [&] { string t = "at ("; for (auto x : x0) t += mc::str((double)x) + " "; t.back() = ')'; return t; }; LD F0 = 0;
	// evaluations: each moves one coordinate (gradient) or at most two (Hessian), symmetrically, within the documented step
	auto evals = [&](int most) { c.check(!s.pts.empty() && s.pts.size() <= 1700u * (n + n * n), "evaluations", "number of evaluations"); for (auto& p : s.pts) { int moved = 0; for (int i = 0; i < n; ++i) { moved += p[i] != x0[i]; LD H = h0(i); if (most == 2) for (int j = 0; j < n; ++j) H = std::max(H, h0(j)); c.checkf(fabsl(p[i] - x0[i]) <= H * (1 + 1e-6L) + 4 * eps * fabsl(x0[i]), "near", [&] { return "evaluates " + mc::str((double)(p[i] - x0[i])) + " away in coordinate " + mc::str(i) + " " + where(); }); } c.checkf(moved <= most, "coordinates", [&] { return "an evaluation moves " + mc::str(moved) + " coordinates " + where(); }); F0 = std::max(F0, fabsl(f(p))); } for (int i = 0; i < n; ++i) c.check((LD)v[i] == x0[i], "unmodified", "the point is modified"); s.pts.clear(); };
	auto close = [&](LD got, LD want, LD err, LD noise, const char* w, int i, int j) { LD e = fabsl(got - want);  c.checkf(e <= 30 * err + noise, w, [&] { return string(w) + " (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str((double)got) + ", analytically " + mc::str((double)want) + ", reported error " + mc::str((double)err) + " " + where(); }); };
	if (which == 0) { auto e = TooN::numerical_gradient_with_errors(fun, v); evals(1); c.check(e.num_rows() == n && e.num_cols() == 2, "shape", "gradient with errors"); auto g = TooN::numerical_gradient(fun, v); evals(1); c.check(g.size() == n, "shape", "gradient"); for (int i = 0; i < n; ++i) { LD noise = 4096 * eps * (F0 / h0(i) + fabsl(a.g[i]) * (1 + fabsl(x0[i]) / h0(i))); close(e[i][0], a.g[i], e[i][1], noise, "gradient", i, 0); c.check(e[i][1] >= 0 && std::isfinite((double)e[i][1]), "error", "reported error is not a number"); c.check(g[i] == e[i][0], "gradient", "the gradient differs from the gradient with errors"); } }
	else { auto e = TooN::numerical_hessian_with_errors(fun, v); evals(2); auto h = TooN::numerical_hessian(fun, v); evals(2); c.check(e.first.num_rows() == n && e.first.num_cols() == n && e.second.num_rows() == n && e.second.num_cols() == n && h.num_rows() == n && h.num_cols() == n, "shape", "Hessian"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD hh = std::min(h0(i), h0(j)), noise = 16384 * eps * (F0 / hh / hh + fabsl(a.H(i, j)) * (1 + fabsl(x0[i]) / h0(i))); close(e.first[i][j], a.H(i, j), e.second[i][j], noise, "Hessian", i, j); c.check(e.second[i][j] >= 0 && std::isfinite((double)e.second[i][j]), "error", "reported error is not a number"); c.check(h[i][j] == e.first[i][j] && h[i][j] == h[j][i], "Hessian", "the Hessian differs from the Hessian with errors or is not symmetric"); } } }
static const double VAL[] = {0, 1, -0.5, 3, 1000, 1e-3, -2.25, -40};
template<int N, class P> void run(Ctx& c, int n, const F& f, vector<double> x) { int which = c.pick(2), kind; if (f.kind) kind = c.pick(4); else { kind = 0; for (auto k : f.co) kind = kind * 3 + k + 5; kind %= 4; } string d = "kind " + mc::str(f.kind) + " ("; for (auto k : f.co) d += mc::str(k) + " "; d += ") at ("; for (auto e : x) d += mc::str(e) + " "; c.log(d + ")"); c.state(mc::mix(mc::hash_str(d), which * 4 + kind + sizeof(P) * 100 + (N + 1) * 1000)); c.outcome(which ? "Hessian" : "gradient");
	if (kind == 0) { TooN::Vector<N, P> v(n); for (int i = 0; i < n; ++i) v[i] = P(x[i]); check<N, P>(c, f, v, which); } else if (kind == 1) { TooN::Vector<TooN::Dynamic, P> v(n); for (int i = 0; i < n; ++i) v[i] = P(x[i]); check<-1, P>(c, f, v, which); } else if (kind == 2) { TooN::Matrix<TooN::Dynamic, TooN::Dynamic, P> m(n, 3); m = TooN::Zeros; auto t = m.T(); auto v = t[1]; for (int i = 0; i < n; ++i) v[i] = P(x[i]); check<-1, P>(c, f, v, which); } else { TooN::Vector<N + 2, P> w; w = TooN::Ones; auto v = w.template slice<1, N>(); for (int i = 0; i < n; ++i) v[i] = P(x[i]); check<N, P>(c, f, v, which); } }
template<int N, class P> void poly(Ctx& c, int terms, int nval, bool all) { F f; vector<double> x; for (int i = 0; i < N; ++i) x.push_back(VAL[c.pick(nval)]); if (all) for (int i = 0; i < terms; ++i) f.co.push_back((int)c.pick(3) - 1); else { int a = c.pick(terms), b = c.pick(terms); f.co.assign(terms, 0); f.co[a] += 2; f.co[b] -= 3; } run<N, P>(c, N, f, x); }
template<int N, class P> void forms(Ctx& c, int nval) { F f; f.kind = 1 + c.pick(7); vector<double> x; for (int i = 0; i < N; ++i) { double e = VAL[c.pick(nval)]; if ((f.kind >= 5 && f.kind <= 6 && fabs(e) > 3) || (f.kind == 2 && fabs(e) > 40)) throw mc::Prune(); /* not smooth at the scale of the steps */ x.push_back(e); } run<N, P>(c, N, f, x); }
void mc_register() {
#if PART == 1
	mc::scenario("quadratic polynomials in 1 variable", [](Ctx& c) { poly<1, double>(c, 4, 8, true); }); mc::scenario("functions of 1 variable", [](Ctx& c) { forms<1, double>(c, 8); }); mc::scenario("quadratic polynomials in 2 variables", [](Ctx& c) { poly<2, double>(c, 6, 3, true); });
#elif PART == 2
	mc::scenario("cubic monomial pairs in 2 variables", [](Ctx& c) { poly<2, double>(c, 10, c.of({6}), false); }); mc::scenario("functions of 2 variables", [](Ctx& c) { forms<2, double>(c, 7); });
#elif PART == 3
	mc::scenario("cubic monomial pairs in 3 variables", [](Ctx& c) { poly<3, double>(c, 20, 2 + (c.depth > 1), false); }, 1, 2); mc::scenario("functions of 3 variables", [](Ctx& c) { forms<3, double>(c, 5); }); mc::scenario("functions of 4 variables", [](Ctx& c) { forms<4, double>(c, 3); });
#elif PART == 4
	mc::scenario("float", [](Ctx& c) { if (c.flip()) poly<2, float>(c, 6, 3, false); else forms<2, float>(c, 5); }); mc::scenario("float, 3 variables", [](Ctx& c) { forms<3, float>(c, 4); }); mc::scenario("long double", [](Ctx& c) { if (c.flip()) poly<2, long double>(c, 6, 3, false); else forms<2, long double>(c, 5); });
#endif
}
MC_MAIN()
