// C33: forward automatic differentiation through the library. Every value is compared with the reference and
// every derivative with the differential of the operation, in quadruple precision.
// fadbad::F comes from the stand-in in mc/fadbad (same interface).
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/functions/fadbad.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/Cholesky.h>
#include <TooN/QR.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/wls.h>
#undef abort
#include "lie.hh"
using fadbad::F; using std::string; using std::vector; using mc::Ctx;
// a matrix with its derivatives with respect to n variables
struct DQ { QM v; vector<QM> d; DQ() {} DQ(const QM& m, int n) : v(m), d(n, QM(m.r, m.c)) {} };
#define EACH_D for (size_t k = 0; k < r.d.size(); ++k)
static DQ operator*(const DQ& a, const DQ& b) { DQ r(a.v * b.v, (int)a.d.size()); EACH_D r.d[k] = a.d[k] * b.v + a.v * b.d[k]; return r; }
static DQ operator+(const DQ& a, const DQ& b) { DQ r(a.v + b.v, (int)a.d.size()); EACH_D r.d[k] = a.d[k] + b.d[k]; return r; }
static DQ operator-(const DQ& a, const DQ& b) { DQ r(a.v - b.v, (int)a.d.size()); EACH_D r.d[k] = a.d[k] - b.d[k]; return r; }
static DQ operator*(const DQ& a, Q s) { DQ r(a.v * s, (int)a.d.size()); EACH_D r.d[k] = a.d[k] * s; return r; }
static DQ tr(const DQ& a) { DQ r(a.v.T(), (int)a.d.size()); EACH_D r.d[k] = a.d[k].T(); return r; }
static DQ inv(const DQ& a) { QM i = Elim(a.v).inv; DQ r(i, (int)a.d.size()); EACH_D r.d[k] = i * a.d[k] * i * Q(-1); return r; }
static DQ sub(const DQ& a, int r0, int c0, int nr, int nc) { auto f = [&](const QM& m) { QM o(nr, nc); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) o(i, j) = m(r0 + i, c0 + j); return o; }; DQ r(f(a.v), (int)a.d.size()); EACH_D r.d[k] = f(a.d[k]); return r; }
static DQ scale(const DQ& a, const DQ& s) { DQ r(a.v * s.v(0, 0), (int)a.d.size()); EACH_D r.d[k] = a.d[k] * s.v(0, 0) + a.v * s.d[k](0, 0); return r; } // times a 1x1
static DQ fun(const DQ& a, Q val, Q slope) { DQ r(a.v, (int)a.d.size()); r.v(0, 0) = val; EACH_D r.d[k](0, 0) = a.d[k](0, 0) * slope; return r; } // of a 1x1
template<class M> DQ fromM(const M& m, int n) { DQ r(QM(m.num_rows(), m.num_cols()), n); for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) { r.v(i, j) = m(i, j).val(); EACH_D r.d[k](i, j) = m(i, j).deriv(k); } return r; }
template<class V> DQ fromV(const V& v, int n) { DQ r(QM(v.size(), 1), n); for (int i = 0; i < v.size(); ++i) { r.v(i, 0) = v[i].val(); EACH_D r.d[k](i, 0) = v[i].deriv(k); } return r; }
template<class S> DQ fromS(const S& s, int n) { DQ r(QM(1, 1), n); r.v(0, 0) = s.val(); EACH_D r.d[k](0, 0) = s.deriv(k); return r; }
template<class P, unsigned D> F<P, D> toF(Q v, const vector<Q>& d) { F<P, D> x; x = (P)(LD)v; bool dep = false; for (Q q : d) dep |= q != 0; if (!dep) return x; if constexpr (D == 0) x.diff(0, (unsigned)d.size()); else x.diff(0); for (size_t k = 0; k < d.size(); ++k) x.d((unsigned)k) = (P)(LD)d[k]; return x; }
template<class P, unsigned D> void setF(F<P, D>& x, Q v, const vector<Q>& d) { x = toF<P, D>(v, d); }
template<class M> void toM(M& m, const DQ& q) { typedef melem_t<M> T; for (int i = 0; i < q.v.r; ++i) for (int j = 0; j < q.v.c; ++j) { vector<Q> d; for (auto& x : q.d) d.push_back(x(i, j)); setF(m(i, j), q.v(i, j), d); } }
template<class V> void toV(V&& m, const DQ& q) { for (int i = 0; i < q.v.r; ++i) { vector<Q> d; for (auto& x : q.d) d.push_back(x(i, 0)); setF(m[i], q.v(i, 0), d); } }
static Q big(const DQ& a) { Q m = a.v.maxabs(); for (auto& x : a.d) m = qmax(m, x.maxabs()); return m; }
struct Chk { Ctx& c; string nm; void operator()(const string& f, const DQ& X, const DQ& w, Q tol) const {
	c.checkf(X.v.r == w.v.r && X.v.c == w.v.c, f, [&] { return f + " (" + nm + "): wrong shape"; });
	for (int i = 0; i < w.v.r; ++i) for (int j = 0; j < w.v.c; ++j) { c.checkf(qabs(X.v(i, j) - w.v(i, j)) <= tol, f, [&] { return f + " (" + nm + "): element " + std::to_string(i) + "," + std::to_string(j) + " is " + qs(X.v(i, j)) + ", expected " + qs(w.v(i, j)); });
		for (size_t k = 0; k < w.d.size(); ++k) c.checkf(qabs(X.d[k](i, j) - w.d[k](i, j)) <= tol, f + " derivative", [&] { return f + " (" + nm + "): derivative " + std::to_string(k) + " of element " + std::to_string(i) + "," + std::to_string(j) + " is " + qs(X.d[k](i, j)) + ", expected " + qs(w.d[k](i, j)); }); } } };
template<class P> Q eps_() { return std::numeric_limits<P>::epsilon(); }
static string ts(const string& s, int a, int b = 0, int d = 0) { return s + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(d); }
static Q dn(int i, int j, int s) { return gens::dense_q(i, j, s) / 4; }

#if PART == 1
// seeding of vectors and extraction of values and derivatives
template<class P, int N, unsigned D> void seedst(Ctx& c) { int vk = c.pick(VK), start = c.pick((int)D + 2); c.step(); vec_kind<P, N>(vk, N, [&](auto& v, const string& nm) {
	for (int i = 0; i < N; ++i) v[i] = (P)(LD)dn(i, 1, 2); auto w = make_fad_vector<D>(v, start); c.checkf(w.size() == N, "size", [&] { return ts("make_fad_vector size", w.size()); });
	for (int i = 0; i < N; ++i) { c.check(w[i].val() == v[i], "make_fad_vector value", nm.c_str()); for (unsigned k = 0; k < D; ++k) c.checkf(w[i].deriv(k) == (start + i == (int)k ? P(1) : P(0)), "make_fad_vector derivative", [&] { return "make_fad_vector<" + std::to_string(D) + "> of a " + nm + " vector, start " + std::to_string(start) + ": derivative " + std::to_string(k) + " of element " + std::to_string(i); }); }
	auto g = get_value(w); for (int i = 0; i < N; ++i) c.check(g[i] == v[i], "get_value", nm.c_str());
	auto J = get_jacobian(w); c.check(J.num_rows() == N && J.num_cols() == (int)D, "get_jacobian size", nm.c_str()); for (int i = 0; i < N; ++i) for (int k = 0; k < (int)D; ++k) c.checkf(J(i, k) == (start + i == k ? P(1) : P(0)), "get_jacobian", [&] { return ts("get_jacobian element", i, k); });
	if (!start) { auto w0 = make_fad_vector<D>(v); for (int i = 0; i < N; ++i) for (unsigned k = 0; k < D; ++k) c.check(w0[i].deriv(k) == (i == (int)k ? P(1) : P(0)), "make_fad_vector derivative", "no start"); } }); }
template<class P, int N> void seeddyn(Ctx& c, int n) { int vk = c.pick(VK), size = c.pick(6), start = c.pick(6), form = c.pick(3); if (form == 0 && start) throw mc::Prune(); if (form < 2 && size) throw mc::Prune(); c.step(); vec_kind<P, N>(vk, n, [&](auto& v, const string& nm) {
	for (int i = 0; i < n; ++i) v[i] = (P)(LD)dn(i, 1, 2); int m = form < 2 ? n : size; auto w = form == 0 ? make_fad_vector(v) : form == 1 ? make_fad_vector(v, start) : make_fad_vector(v, start, size);
	c.check(w.size() == n, "size", "make_fad_vector"); int mx = 0; for (int i = 0; i < n; ++i) { int s = start + i < m ? m : 0; mx = std::max(mx, s); c.check(w[i].val() == v[i], "make_fad_vector value", nm.c_str()); c.checkf((int)w[i].size() == s, "make_fad_vector count", [&] { return ts("element, derivatives, expected:", i, w[i].size(), s); }); for (int k = 0; k < m; ++k) c.checkf(w[i].deriv(k) == (start + i == k ? P(1) : P(0)), "make_fad_vector derivative", [&] { return nm + ts(": form, start, size", form, start, m) + ts(": derivative of element", k, i); }); }
	auto g = get_value(w); c.check(g.size() == n, "get_value", "size"); for (int i = 0; i < n; ++i) c.check(g[i] == v[i], "get_value", nm.c_str());
	auto J = get_jacobian(w); c.checkf(J.num_rows() == n && J.num_cols() == mx, "get_jacobian size", [&] { return ts("get_jacobian is", J.num_rows(), J.num_cols(), mx); }); for (int i = 0; i < n; ++i) for (int k = 0; k < mx; ++k) c.checkf(J(i, k) == (start + i == k ? P(1) : P(0)), "get_jacobian", [&] { return ts("get_jacobian element", i, k); }); }); }
// arbitrary derivatives; elements chosen by a mask depend on nothing
template<class P, int N, unsigned D> void extract(Ctx& c, int n) { int nd = D ? (int)D : 1 + c.pick(4), vk = c.pick(VK), mask = c.pick(1 << n); c.step(); vec_kind<F<P, D>, N>(vk, n, [&](auto& v, const string& nm) {
	DQ q(QM(n, 1), nd); for (int i = 0; i < n; ++i) { q.v(i, 0) = dn(i, 0, 5); for (int k = 0; k < nd; ++k) q.d[k](i, 0) = mask >> i & 1 ? Q(0) : dn(i, k, 7) + 10; } toV(v, q); int cols = D ? (int)D : mask == (1 << n) - 1 ? 0 : nd;
	auto g = get_value(v); for (int i = 0; i < n; ++i) c.checkf(g[i] == (P)(LD)q.v(i, 0), "get_value", [&] { return "get_value of a " + nm + " vector"; });
	auto J = get_jacobian(v); c.checkf(J.num_rows() == n && J.num_cols() == cols, "get_jacobian size", [&] { return "get_jacobian of a " + nm + ts(" vector is", J.num_rows(), J.num_cols()) + ts(", expected", n, cols); });
	for (int k = 0; k < nd; ++k) { auto dv = get_derivative(v, k); c.check(dv.size() == n, "get_derivative", "size"); for (int i = 0; i < n; ++i) { c.checkf(dv[i] == (P)(LD)q.d[k](i, 0), "get_derivative", [&] { return "get_derivative of a " + nm + ts(" vector: variable, element", k, i); }); if (k < cols) c.checkf(J(i, k) == (P)(LD)q.d[k](i, 0), "get_jacobian", [&] { return "get_jacobian of a " + nm + ts(" vector: element", i, k); }); } } }); }
template<class P, int R, int C, unsigned D> void extractm(Ctx& c, int r, int cc) { int nd = D ? (int)D : 2, mk = c.pick(MK), mask = c.pick(4); c.step(); mat_kind<F<P, D>, R, C>(mk, r, cc, [&](auto& m, const string& nm) {
	DQ q(QM(r, cc), nd); for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) { q.v(i, j) = dn(i, j, 5); for (int k = 0; k < nd; ++k) q.d[k](i, j) = mask >> (i + j) % 2 & 1 ? Q(0) : dn(i + k, j, 7) + 10; } toM(m, q);
	for (int k = 0; k < nd; ++k) { auto d = get_derivative(m, k); c.check(d.num_rows() == r && d.num_cols() == cc, "get_derivative", "matrix size"); for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j) c.checkf(d(i, j) == (P)(LD)q.d[k](i, j), "get_derivative", [&] { return "get_derivative of a " + nm + ts(" matrix: variable, element", k, i, j); }); } }); }
template<class P> void part1(const string& t) {
	mc::scenario("seeded vectors, fixed count, " + t, [](Ctx& c) { switch (c.pick(8)) { case 0: seedst<P, 3, 3>(c); break; case 1: seedst<P, 3, 6>(c); break; case 2: seedst<P, 1, 1>(c); break; case 3: seedst<P, 2, 5>(c); break; case 4: seedst<P, 4, 2>(c); break; case 5: seedst<P, 4, 4>(c); break; case 6: seedst<P, 1, 4>(c); break; case 7: seedst<P, 2, 1>(c); } });
	mc::scenario("seeded vectors, run-time count, " + t, [](Ctx& c) { switch (c.pick(6)) { case 0: seeddyn<P, 1>(c, 1); break; case 1: seeddyn<P, 2>(c, 2); break; case 2: seeddyn<P, 3>(c, 3); break; case 3: seeddyn<P, 4>(c, 4); break; case 4: seeddyn<P, Dynamic>(c, 0); break; case 5: seeddyn<P, Dynamic>(c, 3); } });
	mc::scenario("extraction from vectors, " + t, [](Ctx& c) { switch (c.pick(7)) { case 0: extract<P, 3, 3>(c, 3); break; case 1: extract<P, 2, 4>(c, 2); break; case 2: extract<P, 3, 0>(c, 3); break; case 3: extract<P, 1, 0>(c, 1); break; case 4: extract<P, Dynamic, 0>(c, 0); break; case 5: extract<P, 4, 1>(c, 4); break; case 6: extract<P, Dynamic, 2>(c, 5); } });
	mc::scenario("extraction from matrices, " + t, [](Ctx& c) { switch (c.pick(5)) { case 0: extractm<P, 2, 3, 3>(c, 2, 3); break; case 1: extractm<P, 3, 3, 0>(c, 3, 3); break; case 2: extractm<P, 1, 2, 2>(c, 1, 2); break; case 3: extractm<P, Dynamic, Dynamic, 2>(c, 3, 2); break; case 4: extractm<P, Dynamic, Dynamic, 0>(c, 0, 2); } });
}
#elif PART <= 5
// ---- groups: SO2, SO3, SE2, SE3 over the differentiating type
template<template<class> class G> struct Gr;
template<> struct Gr<SO2> { enum { D = 2, K = 1, T = 0 }; static const char* name() { return "SO2"; } template<class P, unsigned N> static auto seed(int s) { return make_fad_so2<P, N>(s); } template<class P> static auto seed(int s, int n) { return make_fad_so2<P>(s, n); } template<class P> static auto seed0() { return make_fad_so2<P>(); } template<class P, unsigned N> static auto left(const SO2<P>& g, int s) { return make_left_fad_so2<P, N>(g, s); } template<class P> static auto left(const SO2<P>& g, int s, int n) { return make_left_fad_so2<P>(g, s, n); } template<class P> static auto left0(const SO2<P>& g) { return make_left_fad_so2(g); } };
template<> struct Gr<SO3> { enum { D = 3, K = 3, T = 0 }; static const char* name() { return "SO3"; } template<class P, unsigned N> static auto seed(int s) { return make_fad_so3<P, N>(s); } template<class P> static auto seed(int s, int n) { return make_fad_so3<P>(s, n); } template<class P> static auto seed0() { return make_fad_so3<P>(); } template<class P, unsigned N> static auto left(const SO3<P>& g, int s) { return make_left_fad_so3<P, N>(g, s); } template<class P> static auto left(const SO3<P>& g, int s, int n) { return make_left_fad_so3<P>(g, s, n); } template<class P> static auto left0(const SO3<P>& g) { return make_left_fad_so3(g); } };
template<> struct Gr<SE2> { enum { D = 2, K = 3, T = 1 }; static const char* name() { return "SE2"; } template<class P, unsigned N> static auto seed(int s) { return make_fad_se2<P, N>(s); } template<class P> static auto seed(int s, int n) { return make_fad_se2<P>(s, n); } template<class P> static auto seed0() { return make_fad_se2<P>(); } template<class P, unsigned N> static auto left(const SE2<P>& g, int s) { return make_left_fad_se2<P, N>(g, s); } template<class P> static auto left(const SE2<P>& g, int s, int n) { return make_left_fad_se2<P>(g, s, n); } template<class P> static auto left0(const SE2<P>& g) { return make_left_fad_se2(g); } };
template<> struct Gr<SE3> { enum { D = 3, K = 6, T = 1 }; static const char* name() { return "SE3"; } template<class P, unsigned N> static auto seed(int s) { return make_fad_se3<P, N>(s); } template<class P> static auto seed(int s, int n) { return make_fad_se3<P>(s, n); } template<class P> static auto seed0() { return make_fad_se3<P>(); } template<class P, unsigned N> static auto left(const SE3<P>& g, int s) { return make_left_fad_se3<P, N>(g, s); } template<class P> static auto left(const SE3<P>& g, int s, int n) { return make_left_fad_se3<P>(g, s, n); } template<class P> static auto left0(const SE3<P>& g) { return make_left_fad_se3(g); } };
// homogeneous matrix (always D+1) of an element, over plain or differentiating types
template<class X> Q vof(const X& x) { return x; } template<class P, unsigned N> Q vof(const F<P, N>& x) { return x.val(); } template<class X> Q dof(const X&, int) { return 0; } template<class P, unsigned N> Q dof(const F<P, N>& x, int k) { return x.deriv(k); }
template<int D, int T, class G> DQ homd(const G& g, int n) { DQ r(QM::id(D + 1), n); auto put = [&](int i, int j, auto& x) { r.v(i, j) = vof(x); EACH_D r.d[k](i, j) = dof(x, (int)k); };
	if constexpr (T) { const auto& R = g.get_rotation().get_matrix(); for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) put(i, j, R(i, j)); put(i, D, g.get_translation()[i]); } } else { const auto& R = g.get_matrix(); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) put(i, j, R(i, j)); } return r; }
template<template<class> class G> QM gensel(int i) { enum { D = Gr<G>::D }; return gen(D, Gr<G>::T ? i : D + i); }
// constant elements of a group
enum { NE = 8 };
template<template<class> class G, class P> G<P> elt(int k) { enum { D = Gr<G>::D, K = Gr<G>::K, T = Gr<G>::T }; static const double ang[] = {0, 1.5707963267948966, 1e-5, -2.5, 3.1415926, 0.7, 0.02, 1.1};
	static const double ax[][3] = {{0, 0, 1}, {0, 0, 1}, {1, 0, 0}, {.6, 0, .8}, {0, -1, 0}, {.48, .6, .64}, {-.6, .8, 0}, {.36, -.48, .8}}; static const double tr_[][3] = {{0, 0, 0}, {1, 2, -3}, {0, 0, 4}, {-.5, .25, 8}, {3, 0, 1}, {.1, .2, .3}, {100, -20, 3}, {0, 0, 0}};
	Vector<K, P> v = Zeros; if (T) for (int i = 0; i < D; ++i) v[i] = (P)tr_[k][i]; if (D == 2) v[K - 1] = (P)ang[k]; else for (int i = 0; i < 3; ++i) v[(K - 3 + i) % K] = (P)(ang[k] * ax[k][i]);
	if constexpr (K == 1) return G<P>(v[0]); else return G<P>(v); }
template<template<class> class G, class X> void same(const Chk& k, const string& f, const X& g, const DQ& w, Q tol) { k(f, homd<Gr<G>::D, Gr<G>::T>(g, (int)w.d.size()), w, tol); }
template<template<class> class G> DQ leftref(const QM& M, int start, int n) { DQ r(M, n); for (int i = 0; i < Gr<G>::K; ++i) r.d[start + i] = gensel<G>(i) * M; return r; }
#if PART == 2
template<template<class> class G, class P> void seeds(Ctx& c) { enum { K = Gr<G>::K, D = Gr<G>::D }; c.step(); string nm = Gr<G>::name(); Chk k{c, nm}; Q e = eps_<P>(); QM I = QM::id(D + 1); int e_ = c.pick(NE + 1), form = c.pick(4);
	auto go = [&](int start, int n, auto seed, auto left) { c.logf("%s start %d of %d, element %d", Gr<G>::name(), start, n, e_); if (e_ == NE) { auto g = seed(); same<G>(k, "variable at the identity", g, leftref<G>(I, start, n), 2 * e); } else { auto m = elt<G, P>(e_); QM M = homd<D, Gr<G>::T>(m, 0).v; auto g = left(m); DQ w = leftref<G>(M, start, n); same<G>(k, "left perturbation", g, w, 8 * e * big(w)); } };
	switch (form) {
	case 0: go(0, K, [] { return Gr<G>::template seed<P, (unsigned)K>(0); }, [](auto& m) { return Gr<G>::template left<P, (unsigned)K>(m, 0); }); break;
	case 1: { int s = c.pick(4); go(s, K + 3, [&] { return Gr<G>::template seed<P, (unsigned)K + 3>(s); }, [&](auto& m) { return Gr<G>::template left<P, (unsigned)K + 3>(m, s); }); break; }
	case 2: { int n = K + c.pick(4), s = c.pick(n - K + 1); go(s, n, [&] { return Gr<G>::template seed<P>(s, n); }, [&](auto& m) { return Gr<G>::template left<P>(m, s, n); }); break; }
	case 3: go(0, K, [] { return Gr<G>::template seed0<P>(); }, [](auto& m) { return Gr<G>::left0(m); }); break; } }
#endif
// an action on points and vectors, compositions and inverses of a variable element
template<template<class> class G, class P, unsigned N> auto variable(int e, int n) { auto m = elt<G, P>(e); if constexpr (N == 0) return Gr<G>::template left<P>(m, n - Gr<G>::K, n); else return Gr<G>::template left<P, N>(m, n - Gr<G>::K); }
#if PART == 3
template<template<class> class G, class P, unsigned N> void acts(Ctx& c) { enum { K = Gr<G>::K, D = Gr<G>::D, T = Gr<G>::T }; int n = N ? (int)N : K + 1; typedef F<P, N> X; int e1 = c.pick(NE), op = c.pick(14), e2 = c.pick(NE); c.step(); c.logf("%s element %d operation %d element %d", Gr<G>::name(), e1, op, e2);
	auto g = variable<G, P, N>(e1, n); auto h = elt<G, P>(e2); QM M = homd<D, T>(elt<G, P>(e1), 0).v, H = homd<D, T>(h, 0).v; DQ A = leftref<G>(M, n - K, n), B(H, n); Q t = 40 * eps_<P>() * (1 + big(A)) * (1 + H.maxabs()); Chk k{c, Gr<G>::name()};
	QM p(D + 1, 1); for (int i = 0; i < D; ++i) p(i, 0) = dn(i, e2, 3); p(D, 0) = 1; DQ pc(p, n), pv(p, n); for (int i = 0; i < D; ++i) for (int j = 0; j < n; ++j) pv.d[j](i, 0) = dn(i, j, 9); Vector<D, P> v; for (int i = 0; i < D; ++i) v[i] = (P)(LD)p(i, 0); Vector<D, X> vx; toV(vx, sub(pv, 0, 0, D, 1)); Q tp = t * (1 + big(pv)) * 4; DQ ph = pc, pvh = pv;
	switch (op) {
	case 0: k("element times a constant point", fromV(g * v, n), sub(A * pc, 0, 0, D, 1), tp); break; case 1: k("element times a variable point", fromV(g * vx, n), sub(A * pv, 0, 0, D, 1), tp); break;
	case 2: k("constant element times a variable point", fromV(h * vx, n), sub(B * pv, 0, 0, D, 1), tp); break; case 3: same<G>(k, "element times constant element", g * h, A * B, t); break; case 4: same<G>(k, "constant element times element", h * g, B * A, t); break;
	case 5: same<G>(k, "element times element", g * g, A * A, t * (1 + big(A))); break; case 6: same<G>(k, "inverse", g.inverse(), inv(A), t * (1 + big(A))); break; case 7: same<G>(k, "inverse times element", g.inverse() * h, inv(A) * B, t * (1 + big(A))); break;
	case 8: { auto x = g; x *= g; same<G>(k, "in-place product", x, A * A, t * (1 + big(A))); break; }
	case 9: if constexpr (T) { auto w = g * (h * vx); k("element times constant element times a variable point", fromV(w, n), sub(A * (B * pv), 0, 0, D, 1), tp * (1 + H.maxabs())); } break;
	case 10: if constexpr (T) { const auto& r = g.get_rotation(); auto w = r * vx; DQ R = A; for (int i = 0; i < D; ++i) { R.v(i, D) = 0; for (auto& x : R.d) x(i, D) = 0; } k("rotation part times a variable point", fromV(w, n), sub(R * pv, 0, 0, D, 1), tp); } break;
	case 11: { Matrix<D, 2, X> m; for (int j = 0; j < 2; ++j) for (int i = 0; i < D; ++i) m(i, j) = vx[i] * X(P(j + 1)); if constexpr (!T) { DQ q = sub(pv, 0, 0, D, 1), s = q * 2; DQ Ar = sub(A, 0, 0, D, D); auto w = g * m; DQ f = fromM(w, n); k("rotation times a matrix", sub(f, 0, 0, D, 1), Ar * q, tp); k("rotation times a matrix", sub(f, 0, 1, D, 1), Ar * s, tp * 2); } break; }
	case 12: if constexpr (T) { Matrix<D + 1, 2, X> m = Zeros; toV(m.T()[0].ref(), pv); for (int i = 0; i <= D; ++i) m(i, 1) = m(i, 0) * X(P(2)); auto w = g * m; DQ f = fromM(w, n); k("element times a homogeneous matrix", sub(f, 0, 0, D + 1, 1), A * pv, tp); k("element times a homogeneous matrix", sub(f, 0, 1, D + 1, 1), A * pv * 2, tp * 2); } break;
	case 13: if constexpr (T) { Vector<D + 1, X> u; toV(u, pv); k("element times a homogeneous vector", fromV(g * u, n), A * pv, tp); k("homogeneous vector times an element", fromV(u * g, n), tr(A) * pv, tp); } else { k("variable vector times a rotation", fromV(vx * g, n), tr(sub(A, 0, 0, D, D)) * sub(pv, 0, 0, D, 1), tp); } break;
	} }
#elif PART == 4
// all words of operations on two elements that depend on the variables
template<template<class> class G, class P, unsigned N> void words(Ctx& c) { enum { K = Gr<G>::K, D = Gr<G>::D, T = Gr<G>::T }; int n = N ? (int)N : K; auto g = variable<G, P, N>(c.of({1, 3, 5}), n); auto h = g; DQ A = homd<D, T>(g, n), B = A; Chk k{c, Gr<G>::name()}; Q tol = 0; uint64_t st = mc::hash_str(Gr<G>::name());
	int len = c.depth; for (int i = 0; i < len; ++i) { int l = c.pick(9); st = mc::mix(st, l); c.state(st); c.step(); c.logf("letter %d", l); auto m = ::elt<G, P>(l % 2 ? 7 : 3); DQ M(homd<D, T>(m, 0).v, n); Q s = (1 + big(A)) * (1 + big(B)) * (1 + big(M));
		switch (l) { case 0: g = g * m; A = A * M; break; case 1: g = m * g; A = M * A; break; case 2: g = g.inverse(); A = inv(A); break; case 3: g *= h; A = A * B; break; case 4: h = g * h; B = A * B; break; case 5: std::swap(g, h); std::swap(A, B); break; case 6: g *= g; A = A * A; break; case 7: h = h.inverse() * g; B = inv(B) * A; break; case 8: g = h; A = B; break; }
		tol = (tol * 4 + 40 * eps_<P>()) ; if (s > 1e12Q) return; same<G>(k, "first element", g, A, tol * s * s); same<G>(k, "second element", h, B, tol * s * s); }
	QM p(D + 1, 1); for (int i = 0; i < D; ++i) p(i, 0) = dn(i, 1, 3); p(D, 0) = 1; Vector<D, P> v; for (int i = 0; i < D; ++i) v[i] = (P)(LD)p(i, 0); Q s = (1 + big(A)) * 16; k("point", fromV(g * v, n), sub(A * DQ(p, n), 0, 0, D, 1), tol * s * s); }
#elif PART == 5
// exponential at any tangent vector, logarithm, against the exponential of the block matrix [[A, G],[0, A]]
static DQ dexp(int D, int off, const QM& v) { QM A = QM(D + 1, D + 1); for (int i = 0; i < v.r; ++i) A = A + gen(D, off + i) * v(i, 0); int m = D + 1; DQ r(qexpm(A), v.r); for (int k = 0; k < v.r; ++k) { QM B(2 * m, 2 * m), g = gen(D, off + k); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { B(i, j) = B(m + i, m + j) = A(i, j); B(i, m + j) = g(i, j); } QM E = qexpm(B); for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) r.d[k](i, j) = E(i, m + j); } return r; }
// the coefficients of the exponential are truncated series near 0, and 1-cos cancels
static Q near(double a) { return a < 1e-4 ? 1e-8Q : a < 0.02 ? 1e-9Q : Q(0); }
template<template<class> class G, class P, unsigned N> void expo(Ctx& c) { enum { K = Gr<G>::K, D = Gr<G>::D, T = Gr<G>::T }; static const double an[] = {0, 1e-9, 5e-5, 0.99e-4, 1.01e-4, 0.99e-3, 1.01e-3, 0.01, 0.3, 0.78, 0.79, 1, 1.57, 1.58, 2, 2.3, 2.4, 3, 3.1, 4, 6.2, 10}; static const int ax[] = {0, 1, 5, 9, 11, 13, 15};
	int a = c.pick(22), x = c.pick(D == 3 ? 7 : 2), t = T ? c.pick(4) : 0; c.step(); QM v(K, 1); static const double tt[][3] = {{0, 0, 0}, {1, -2, .5}, {.125, 0, 0}, {30, 20, -10}}; if (T) for (int i = 0; i < D; ++i) v(i, 0) = tt[t][i]; if (D == 2) v(K - 1, 0) = (P)(x ? -an[a] : an[a]); else { QM u = axis(ax[x]); for (int i = 0; i < 3; ++i) v((K - 3 + i) % K, 0) = (P)((LD)u(i, 0) * an[a]); }
	c.logf("%s exp at angle %g", Gr<G>::name(), an[a]); c.state(mc::mix(mc::hash_str(Gr<G>::name()), a * 100 + x * 10 + t)); int n = K; Vector<K, P> pv; for (int i = 0; i < K; ++i) pv[i] = (P)(LD)v(i, 0); typedef F<P, N> X; Vector<K, X> xv; if constexpr (N == 0) xv = make_fad_vector(pv); else xv = make_fad_vector<N>(pv);
	Chk k{c, string(Gr<G>::name()) + " of " + qms(v.T())}; DQ w = dexp(D, T ? 0 : D, v); auto check = [&](auto& g, const string& f) { same<G>(k, f, g, w, 3000 * eps_<P>() * (1 + big(w)) * (1 + Q(an[a])) + near(an[a]) * (1 + big(w))); };
	if constexpr (K == 1) { G<X> g(xv[0]); check(g, "constructor"); auto h = G<X>::exp(xv[0]); check(h, "exp"); }
	else { G<X> g(xv); check(g, "constructor"); auto h = G<X>::exp(xv); check(h, "exp");
		if constexpr (D == 3) if (an[a] < 3.05) { auto l = g.ln(); DQ L = fromV(l, n), I(v, n); for (int i = 0; i < K; ++i) I.d[i](i, 0) = 1; k("ln of exp", L, I, (an[a] > 2.9 ? 100 : 1) * 1e5Q * eps_<P>() * (1 + big(w)) * (1 + v.maxabs()) + near(an[a]) * (1 + v.maxabs())); } } }
#endif
#else
// ---- linear algebra over the differentiating type
template<class P, unsigned N, int R, int C, class L = RowMajor> Matrix<R, C, F<P, N>, L> mk(const DQ& q) { Matrix<R, C, F<P, N>, L> m(q.v.r, q.v.c); toM(m, q); return m; }
template<class P, unsigned N, int R> Vector<R, F<P, N>> mkv(const DQ& q) { Vector<R, F<P, N>> m(q.v.r); toV(m, q); return m; }
static DQ dq(Ctx& c, int r, int q, int n, int vs, int ds) { DQ m(QM(r, q), n); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { m.v(i, j) = dn(i, j, vs) + (i == j ? 3 : 0); for (int k = 0; k < n; ++k) m.d[k](i, j) = (i + j + k + ds) % 3 ? dn(i + 2 * k, j, ds) : Q(0); } return m; }
static QM cross(const QM& a) { QM m(3, 3); m(0, 1) = -a(2, 0); m(0, 2) = a(1, 0); m(1, 0) = a(2, 0); m(1, 2) = -a(0, 0); m(2, 0) = -a(1, 0); m(2, 1) = a(0, 0); return m; }
static DQ el(const DQ& a, int i, int j = 0) { return sub(a, i, j, 1, 1); }
static DQ rec(const DQ& s) { return fun(s, 1 / s.v(0, 0), -1 / (s.v(0, 0) * s.v(0, 0))); }
static DQ root(const DQ& s) { Q r = qsqrt(s.v(0, 0)); return fun(s, r, 1 / (2 * r)); }
#if PART == 6
template<class P, unsigned N, int R> void arith(Ctx& c, int nd) { int n = 3, vs = c.pick(8), ds = c.pick(6), lay = c.pick(2), which = c.pick(5); c.step(); c.state(mc::mix(mc::mix(vs * 10 + ds, which), R * 10 + N)); DQ A = dq(c, n, n, nd, vs, ds), B = dq(c, n, n, nd, vs + 3, ds + 1), a = dq(c, n, 1, nd, vs + 1, ds), b = dq(c, n, 1, nd, vs + 5, ds + 2), s = dq(c, 1, 1, nd, vs, ds + 1); typedef F<P, N> X;
	auto run = [&](auto m, auto m2) { Vector<R, X> v = mkv<P, N, R>(a), w = mkv<P, N, R>(b); X x = toF<P, N>(s.v(0, 0), [&] { vector<Q> d; for (auto& q : s.d) d.push_back(q(0, 0)); return d; }()); Chk k{c, "run"}; Q e = 200 * eps_<P>() * (1 + big(A)) * (1 + big(B)) * (1 + big(a)); DQ z = DQ(QM(n, 1), nd); Vector<R, P> pv(n); for (int i = 0; i < n; ++i) pv[i] = P(i + 2); DQ PV(toQv(pv), nd); Matrix<R, R, P> pm(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) pm(i, j) = P(2 * i - j); DQ PM(toQ(pm), nd);
		switch (which) {
		case 0: k("vector sum", fromV(v + w, nd), a + b, e); k("vector difference", fromV(v - w, nd), a - b, e); k("negated vector", fromV(-v, nd), a * -1, e); k("dot product", fromS(v * w, nd), tr(a) * b, e * 4); k("scalar times vector", fromV(x * v, nd), scale(a, s), e); k("vector times scalar", fromV(v * x, nd), scale(a, s), e); if (s.v(0, 0) != 0) k("vector over scalar", fromV(v / x, nd), scale(a, rec(s)), e * (1 + 1 / (s.v(0, 0) * s.v(0, 0)))); k("vector times constant", fromV(v * P(3), nd), a * 3, e); k("constant times vector", fromV(P(3) * v, nd), a * 3, e); k("vector over constant", fromV(v / P(4), nd), a * .25Q, e);
			{ auto u = v; u += w; k("+=", fromV(u, nd), a + b, e); u -= v; k("-=", fromV(u, nd), b, e); u *= x; k("*=", fromV(u, nd), scale(b, s), e * 4); u = v; u *= P(2); u /= P(8); k("/=", fromV(u, nd), a * .25Q, e); u = pv; k("= constant vector", fromV(u, nd), PV, e); } break;
		case 1: k("matrix sum", fromM(m + m2, nd), A + B, e); k("matrix difference", fromM(m - m2, nd), A - B, e); k("negated matrix", fromM(-m, nd), A * -1, e); k("matrix product", fromM(m * m2, nd), A * B, e * 9); k("transposed product", fromM(m.T() * m2, nd), tr(A) * B, e * 9); k("matrix times vector", fromV(m * v, nd), A * a, e * 9); k("vector times matrix", fromV(v * m, nd), tr(A) * a, e * 9); k("scalar times matrix", fromM(x * m, nd), scale(A, s), e * 4); k("matrix times constant", fromM(m * P(3), nd), A * 3, e); if (s.v(0, 0) != 0) k("matrix over scalar", fromM(m / x, nd), scale(A, rec(s)), e * (1 + 1 / (s.v(0, 0) * s.v(0, 0))));
			{ auto u = m; u += m2; k("matrix +=", fromM(u, nd), A + B, e); u -= m; k("matrix -=", fromM(u, nd), B, e); u *= P(2); k("matrix *=", fromM(u, nd), B * 2, e); u = Identity; k("= Identity", fromM(u, nd), DQ(QM::id(n), nd), e); u = m; u += Identity * P(2); k("+= 2 Identity", fromM(u, nd), A + DQ(QM::id(n) * 2, nd), e); } break;
		case 2: k("variable plus constant vector", fromV(v + pv, nd), a + PV, e); k("constant minus variable vector", fromV(pv - v, nd), PV - a, e); k("dot with constant", fromS(v * pv, nd), tr(a) * PV, e * 9); k("constant dot", fromS(pv * v, nd), tr(a) * PV, e * 9); k("constant matrix times variable vector", fromV(pm * v, nd), PM * a, e * 9); k("variable matrix times constant vector", fromV(m * pv, nd), A * PV, e * 9); k("variable times constant matrix", fromM(m * pm, nd), A * PM, e * 20); k("constant times variable matrix", fromM(pm * m, nd), PM * A, e * 20); k("variable plus constant matrix", fromM(m + pm, nd), A + PM, e); { auto u = v; u += pv; k("+= constant vector", fromV(u, nd), a + PV, e); auto y = m; y -= pm; k("-= constant matrix", fromM(y, nd), A - PM, e); } break;
		case 3: { k("norm_sq", fromS(norm_sq(v), nd), tr(a) * a, e * 4); DQ q = tr(a) * a; if (q.v(0, 0) > 0) { DQ r = root(q); k("norm", fromS(norm(v), nd), r, e * 4); k("unit", fromV(unit(v), nd), scale(a, rec(r)), e * 40 * (1 + 1 / q.v(0, 0))); auto u = v; normalize(u); k("normalize", fromV(u, nd), scale(a, rec(r)), e * 40 * (1 + 1 / q.v(0, 0))); }
			if constexpr (R > 0) k("cross product", fromV(v ^ w, nd), [&] { DQ r(cross(a.v) * b.v, nd); EACH_D r.d[k] = cross(a.d[k]) * b.v + cross(a.v) * b.d[k]; return r; }(), e * 4); k("outer product", fromM(v.as_col() * w.as_row(), nd), a * tr(b), e * 4); k("diagonal matrix times matrix", fromM(v.as_diagonal() * m, nd), [&] { DQ r = A; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { r.v(i, j) = a.v(i, 0) * A.v(i, j); EACH_D r.d[k](i, j) = a.d[k](i, 0) * A.v(i, j) + a.v(i, 0) * A.d[k](i, j); } return r; }(), e * 4);
			k("elementwise product", fromV(diagmult(v, w), nd), [&] { DQ r = a; for (int i = 0; i < n; ++i) { r.v(i, 0) = a.v(i, 0) * b.v(i, 0); EACH_D r.d[k](i, 0) = a.d[k](i, 0) * b.v(i, 0) + a.v(i, 0) * b.d[k](i, 0); } return r; }(), e * 4); DQ t = el(A, 0, 0) + el(A, 1, 1) + el(A, 2, 2); k("trace", fromS(trace(m), nd), t, e * 4); if (a.v(2, 0) != 0) { Q z = 1 + 1 / (a.v(2, 0) * a.v(2, 0)); auto pr = project(v); k("project", fromV(pr, nd), scale(sub(a, 0, 0, 2, 1), rec(el(a, 2))), e * z); } auto up = unproject(v); k("unproject", fromV(up, nd), [&] { DQ r(QM(4, 1), nd); for (int i = 0; i < 3; ++i) { r.v(i, 0) = a.v(i, 0); EACH_D r.d[k](i, 0) = a.d[k](i, 0); } r.v(3, 0) = 1; return r; }(), e); break; }
		case 4: { k("slice", fromV(v.slice(1, 2), nd), sub(a, 1, 0, 2, 1), 0); k("sub-matrix", fromM(m.slice(0, 1, 2, 2), nd), sub(A, 0, 1, 2, 2), 0); k("column", fromV(m.T()[1], nd), sub(A, 0, 1, 3, 1), 0); auto u = m; u[1] = v; u.T()[2] = w; DQ r = A; for (int j = 0; j < n; ++j) { r.v(1, j) = a.v(j, 0); EACH_D r.d[k](1, j) = a.d[k](j, 0); } for (int i = 0; i < n; ++i) { r.v(i, 2) = b.v(i, 0); EACH_D r.d[k](i, 2) = b.d[k](i, 0); } k("row and column assignment", fromM(u, nd), r, 0); Vector<3, X> mv = makeVector(v[0], w[1], x); k("makeVector", el(fromV(mv, nd), 1), el(b, 1), 0); k("makeVector", el(fromV(mv, nd), 2), s, 0); auto y = m; swap(y, m2); k("swap", fromM(y, nd), B, 0); k("copy", fromM(decltype(m)(m), nd), A, 0); Vector<R, P> g = get_value(v); k("get_value", DQ(toQv(g), 0), DQ(a.v, 0), 0); break; }
		} };
	if (lay) run(mk<P, N, R, R, ColMajor>(A), mk<P, N, R, R, ColMajor>(B)); else run(mk<P, N, R, R>(A), mk<P, N, R, R>(B)); }
#else
// solvers and decompositions
template<class P, unsigned N, int S> void solve(Ctx& c, int n, int nd) { int vs = c.pick(10), ds = c.pick(5), which = c.pick(8); c.step(); c.state(mc::mix(mc::mix(vs * 10 + ds, which), S * 100 + n * 10 + N)); DQ A = dq(c, n, n, nd, vs, ds), b = dq(c, n, 1, nd, vs + 5, ds + 2), B = dq(c, n, 2, nd, vs + 2, ds + 3); if (vs % 2) { for (int j = 0; j < n; ++j) { std::swap(A.v(0, j), A.v(n - 1, j)); for (auto& d : A.d) std::swap(d(0, j), d(n - 1, j)); } } typedef F<P, N> X;
	Elim E(A.v); if (!E.ok || A.v.inf() * E.inv.inf() > 300) return; Q cond = A.v.inf() * E.inv.inf(); Chk k{c, "solve " + std::to_string(n)}; Q e = 300 * eps_<P>() * cond * cond * (1 + big(A)) * (1 + big(b)) * (1 + big(inv(A))); auto m = mk<P, N, S, S>(A); auto v = mkv<P, N, S>(b);
	switch (which) {
	case 0: k("gaussian_elimination", fromV(gaussian_elimination(m, v), nd), inv(A) * b, e); { Matrix<S, 2, X> M = mk<P, N, S, 2>(B); k("gaussian_elimination of a matrix", fromM(gaussian_elimination(m, M), nd), inv(A) * B, e * (1 + big(B))); } break;
	case 1: { Matrix<Dynamic, Dynamic, X> g(n, 2 * n); g.slice(0, 0, n, n) = m; g.slice(0, n, n, n) = Identity; gauss_jordan(g); k("gauss_jordan", fromM(g.slice(0, n, n, n), nd), inv(A), e); break; }
	case 2: { DQ d(QM(1, 1), nd); d.v(0, 0) = E.det; for (int q = 0; q < nd; ++q) { QM t = E.inv * A.d[q]; Q s = 0; for (int i = 0; i < n; ++i) s += t(i, i); d.d[q](0, 0) = E.det * s; } k("determinant", fromS(determinant(m), nd), d, e * (1 + qabs(E.det))); k("determinant_gaussian_elimination", fromS(determinant_gaussian_elimination(m), nd), d, e * (1 + qabs(E.det))); break; }
	case 3: { DQ S2 = tr(A) * A; Q e2 = e * cond * cond * (1 + big(A)) * (1 + big(inv(A))); Cholesky<S, X> ch(mk<P, N, S, S>(S2)); k("Cholesky backsub", fromV(ch.backsub(v), nd), inv(S2) * b, e2); Matrix<S, 2, X> M = mk<P, N, S, 2>(B); k("Cholesky backsub of a matrix", fromM(ch.backsub(M), nd), inv(S2) * B, e2 * (1 + big(B))); k("Cholesky inverse", fromM(ch.get_inverse(), nd), inv(S2), e2); Q dt = E.det * E.det; DQ d(QM(1, 1), nd); d.v(0, 0) = dt; for (int q = 0; q < nd; ++q) { QM t = E.inv * A.d[q]; Q s = 0; for (int i = 0; i < n; ++i) s += t(i, i); d.d[q](0, 0) = dt * 2 * s; } k("Cholesky determinant", fromS(ch.determinant(), nd), d, e2 * (1 + dt)); k("Cholesky L L^T", [&] { DQ L = fromM(ch.get_L(), nd); return L * tr(L); }(), S2, e2); k("Cholesky L D L^T", [&] { DQ L = fromM(ch.get_unscaled_L(), nd), D = fromM(ch.get_D(), nd); return L * D * tr(L); }(), S2, e2); k("Cholesky mahalanobis", fromS(ch.mahalanobis(v), nd), tr(b) * inv(S2) * b, e2 * (1 + big(b))); break; }
	case 4: { QR<S, S, X> q(m); DQ Qm = fromM(q.get_Q(), nd), Rm = fromM(q.get_R(), nd); k("QR product", Qm * Rm, A, e); k("QR orthogonality", tr(Qm) * Qm, DQ(QM::id(n), nd), e); DQ z = Rm; bool lower = true; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { lower &= qabs(z.v(i, j)) <= e; for (auto& d : z.d) lower &= qabs(d(i, j)) <= e; } c.check(lower, "QR triangle", "R is not triangular"); break; }
	case 5: if constexpr (S > 0 && std::is_same<P, double>::value) { GR_SVD<S, S, X> sv(m); k("GR_SVD backsub", fromV(sv.backsub(v), nd), inv(A) * b, e * 1e5Q); k("GR_SVD pseudo-inverse", fromM(sv.get_pinv(), nd), inv(A), e * 1e5Q); } break;
	case 6: if constexpr (S > 0) { DQ S2 = tr(A) * A; Q e2 = e * cond * cond * (1 + big(A)) * (1 + big(inv(A))); WLS<S, X, Cholesky> w; for (int i = 0; i < n; ++i) { Vector<S, X> J = m[i]; w.add_mJ(v[i], J); } w.compute(); k("WLS information", fromM(w.get_C_inv(), nd), S2, e2); k("WLS estimate", fromV(w.get_mu(), nd), inv(A) * b, e2 * 4); } break;
	case 7: if constexpr (S == 2 || S == 3) { DQ S2 = A + tr(A); SymRef sr(S2.v); bool apart = true; for (int i = 0; i + 1 < n; ++i) apart &= sr.w[i + 1] - sr.w[i] > 0.5Q; if (!apart) return; SymEigen<S, X> se(mk<P, N, S, S>(S2)); DQ ev(QM(n, 1), nd); for (int i = 0; i < n; ++i) { ev.v(i, 0) = sr.w[i]; for (int q = 0; q < nd; ++q) { Q s = 0; for (int r = 0; r < n; ++r) for (int t = 0; t < n; ++t) s += sr.V(r, i) * S2.d[q](r, t) * sr.V(t, i); ev.d[q](i, 0) = s; } } k("SymEigen eigenvalues", fromV(se.get_evalues(), nd), ev, 1e6Q * eps_<P>() * (1 + big(S2))); } break;
	} }
#endif
#endif
void mc_register() {
#if PART == 1
	part1<double>("double"); part1<float>("float");
#elif PART == 2
	mc::scenario("seeded groups", [](Ctx& c) { switch (c.pick(4)) { case 0: seeds<SO2, double>(c); break; case 1: seeds<SO3, double>(c); break; case 2: seeds<SE2, double>(c); break; case 3: seeds<SE3, double>(c); } });
	mc::scenario("seeded groups, float", [](Ctx& c) { switch (c.pick(4)) { case 0: seeds<SO2, float>(c); break; case 1: seeds<SO3, float>(c); break; case 2: seeds<SE2, float>(c); break; case 3: seeds<SE3, float>(c); } });
#elif PART == 3
	mc::scenario("actions, fixed count", [](Ctx& c) { switch (c.pick(4)) { case 0: acts<SO2, double, 2>(c); break; case 1: acts<SO3, double, 3>(c); break; case 2: acts<SE2, double, 4>(c); break; case 3: acts<SE3, double, 6>(c); } });
	mc::scenario("actions, run-time count", [](Ctx& c) { switch (c.pick(4)) { case 0: acts<SO2, double, 0>(c); break; case 1: acts<SO3, double, 0>(c); break; case 2: acts<SE2, double, 0>(c); break; case 3: acts<SE3, double, 0>(c); } });
	mc::scenario("actions, float", [](Ctx& c) { switch (c.pick(4)) { case 0: acts<SO2, float, 1>(c); break; case 1: acts<SO3, float, 3>(c); break; case 2: acts<SE2, float, 3>(c); break; case 3: acts<SE3, float, 6>(c); } });
#elif PART == 4
	mc::scenario("words of SO2", words<SO2, double, 1>, 4, 5); mc::scenario("words of SO3", words<SO3, double, 3>, 4, 5); mc::scenario("words of SE2", words<SE2, double, 3>, 4, 5); mc::scenario("words of SE3", words<SE3, double, 6>, 4, 5); mc::scenario("words of SE3, run-time count", words<SE3, double, 0>, 3, 4); mc::scenario("words of SE2, float", words<SE2, float, 3>, 3, 4);
#elif PART == 5
	mc::scenario("SO2 exp", expo<SO2, double, 1>); mc::scenario("SO3 exp", expo<SO3, double, 3>); mc::scenario("SE2 exp", expo<SE2, double, 3>); mc::scenario("SE3 exp", expo<SE3, double, 6>); mc::scenario("SE3 exp, run-time count", expo<SE3, double, 0>);
#elif PART == 6
	mc::scenario("arithmetic, fixed", [](Ctx& c) { arith<double, 2, 3>(c, 2); }); mc::scenario("arithmetic, run-time count", [](Ctx& c) { arith<double, 0, 3>(c, 2); }); mc::scenario("arithmetic, run-time size", [](Ctx& c) { arith<double, 2, Dynamic>(c, 2); }); mc::scenario("arithmetic, float", [](Ctx& c) { arith<float, 2, 3>(c, 2); });
#else
	mc::scenario("solvers 2x2", [](Ctx& c) { solve<double, 2, 2>(c, 2, 2); }); mc::scenario("solvers 3x3", [](Ctx& c) { solve<double, 2, 3>(c, 3, 2); }); mc::scenario("solvers 3x3, run-time count", [](Ctx& c) { solve<double, 0, 3>(c, 3, 2); }); mc::scenario("solvers, run-time size", [](Ctx& c) { solve<double, 2, Dynamic>(c, 1 + c.pick(5), 2); }); mc::scenario("solvers 3x3, float", [](Ctx& c) { solve<float, 2, 3>(c, 3, 2); });
#endif
}
MC_MAIN()
