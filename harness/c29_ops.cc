// C29: operations on shared objects (only reading) and on disjoint parts of one object; compiled with thread instrumentation.
#include "toon_env.hh"
#include "c29_api.hh"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/functions/derivatives.h>
#undef abort
using namespace TooN;
namespace {
struct Put { Res& v; void operator()(double x) { v.push_back(x); } void operator()(const std::string& s) { for (char c : s) v.push_back(c); } template<int N, class P, class B> void operator()(const Vector<N, P, B>& x) { for (int i = 0; i < x.size(); ++i) v.push_back(x[i]); } template<int R, int C, class P, class B> void operator()(const Matrix<R, C, P, B>& x) { for (int i = 0; i < x.num_rows(); ++i) for (int j = 0; j < x.num_cols(); ++j) v.push_back(x(i, j)); }
	template<class G> void g2(const G& g) { (*this)(g.get_rotation().get_matrix()); (*this)(g.get_translation()); } };
template<int R, int C, class B> void mset(Matrix<R, C, double, B>& m) { for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) m(i, j) = (i * 3 + j * 5) % 7 - 2 + (i == j ? 6.5 : 0); }
Matrix<3> spd() { Matrix<3> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m(i, j) = i == j ? 5 + i : 1 + 0.5 * (i + j); return m; }
Matrix<3> gen() { Matrix<3> m; mset(m); return m; }
Matrix<> dyn() { Matrix<> m(3, 3); mset(m); return m; }
Vector<> vdyn() { Vector<> v(3); for (int i = 0; i < 3; ++i) v[i] = 1.5 * i - 1; return v; }
}
struct World { Vector<3> v, w; Vector<> vd; Vector<Resizable> vr; Matrix<3> m, s; Matrix<> md; Matrix<3, 3, double, ColMajor> mc; Vector<3, float> vf; Matrix<3, 3, float> mf; Vector<300> big; DiagonalMatrix<3> dg; LU<3> lu; LU<> lud; SymEigen<3> se; Cholesky<3> ch; Cholesky<> chd; Lapack_Cholesky<3> lc; WLS<3> wls; IRLS<3, double, RobustI> irls; SO2<> so2; SO3<> so3; SE2<> se2; SE3<> se3; SIM2<> sim2; SIM3<> sim3; SL<3> sl;
	World() : v(makeVector(1., -2, 0.5)), w(makeVector(0.3, 0.1, 2)), vd(vdyn()), vr(vdyn()), m(gen()), s(spd()), md(dyn()), mc(gen()), vf(v), mf(m), big(Ones), dg(makeVector(1., 2, 3)), lu(gen()), lud(dyn()), se(spd()), ch(spd()), chd(Matrix<>(spd())), lc(spd()), wls(3), irls(3), so2(0.4), so3(makeVector(0.3, 0.2, -0.5)), se2(SE2<>::exp(makeVector(0.4, 0.2, 1.))), se3(SE3<>::exp(makeVector(0.4, 0.2, 1., 0.3, -1, 0.2))), sim2(SIM2<>::exp(makeVector(0.4, 0.2, 1., 0.3))), sim3(SIM3<>::exp(makeVector(0.4, 0.2, 1., 0.3, -1, 0.2, 0.1))), sl(makeVector(.1, .2, .3, .1, 0, .2, .1, .3)) { wls.add_prior(1.); wls.add_mJ(2, v); wls.compute(); irls.add_prior(1.); irls.add_mJ(2, v); irls.compute(); } };
namespace {
struct SharedOp { const char* name; void (*f)(const World&, Put&); };
double sq(const Vector<3>& x) { return x * x + x[0]; }
#define OP(n, ...) {n, [](const World& W, Put& o) { __VA_ARGS__; }},
const SharedOp shared_ops[] = {
OP("v*w", o(W.v * W.w)) OP("v+w", Vector<3> r = W.v + W.w; o(r)) OP("v-w", Vector<> r(W.vd - W.w); o(r)) OP("v^w", o(W.v ^ W.w)) OP("element", o(W.v[1])) OP("slice", o(W.v.slice<0, 2>())) OP("run-time slice", o(W.vd.slice(1, 2))) OP("as_row", o(W.v.as_row())) OP("as_diagonal", o(W.v.as_diagonal() * W.m)) OP("copy", Vector<3> r = W.v; Vector<> q = W.vd; Vector<Resizable> z = W.vr; o(r); o(q); o(z)) OP("copy large", Vector<300> r(W.big); o(r * W.big)) OP("matrix copies", Matrix<> a(W.md); Matrix<3> b(W.m); Matrix<> q = W.mc; o(a); o(b); o(q)) OP("m*v", o(W.m * W.v)) OP("v*m", o(W.vd * W.md)) OP("m*m", o(W.m * W.mc)) OP("md*md", o(W.md * W.md)) OP("float", o(W.mf * W.vf)) OP("transpose", o(W.m.T() * W.md)) OP("row", o(W.m[1])) OP("matrix slice", o(W.md.slice(0, 1, 2, 2))) OP("diagonal_slice", o(W.m.diagonal_slice())) OP("diagonal times", o(W.dg * W.v); o(W.dg * W.m)) OP("equal", o(W.m == W.md); o(W.v == W.vd)) OP("outer", o(W.v.as_col() * W.w.as_row())) OP("norms", o(norm(W.v)); o(norm_1(W.v)); o(norm_inf(W.md)); o(norm_fro(W.m))) OP("unit", o(unit(W.v))) OP("project", o(project(W.v)); o(unproject(W.v))) OP("max", o(max_value(W.v)); o(min_value(W.m))) OP("trace", o(trace(W.m))) OP("determinant", o(determinant(W.m)); o(determinant(W.md))) OP("exp", o(exp(W.s))) OP("log", o(log(W.s))) OP("sqrt", o(sqrt(W.s))) OP("print", std::ostringstream s; s << W.v << W.m; o(s.str())) OP("identity", Matrix<3> r = W.m + Identity * 2; o(r); r = Identity; o(r); r -= Identity; o(r)) OP("zeros", Vector<3> r = Zeros; o(r); r += Ones; o(r); Vector<> q(Zeros(2)); o(q); q = W.vd.slice(0, 2) + Ones; o(q)) OP("isfinite", o(isfinite(W.v)); o(isnan(W.m[0])))
OP("LU", o(W.lu.get_lu()); o(W.lu.determinant()); o(W.lud.determinant())) OP("LU of shared", LU<3> l(W.m); o(l.backsub(W.v)); o(l.get_inverse())) OP("SVD of shared", SVD<3> l(W.m); o(l.backsub(W.v)); o(l.get_pinv())) OP("QR of shared", QR<3> q(W.m); o(q.get_R()); o(q.get_Q())) OP("eigen", o(W.se.backsub(W.v)); o(W.se.get_evalues()); o(W.se.get_pinv()); o(W.se.is_posdef()); o(W.se.get_determinant())) OP("eigen roots", o(W.se.get_sqrtm()); o(W.se.get_isqrtm())) OP("eigen of shared", SymEigen<3> e(W.s); o(e.get_evalues()); SymEigen<> f(W.s); o(f.get_evectors())) OP("cholesky backsub", o(W.ch.backsub(W.v)); o(W.chd.backsub(W.vd)); o(W.ch.backsub(W.m))) OP("cholesky", Cholesky<3> k(W.ch); o(k.get_inverse()); o(W.ch.get_L()); o(W.ch.get_D()); o(W.chd.get_unscaled_L()); o(W.ch.rank()); o(W.ch.mahalanobis(W.v))) OP("cholesky of shared", Cholesky<3> k(W.s); o(k.backsub(W.v)); Cholesky<> q((Matrix<>(W.s))); o(q.backsub(W.vd))) OP("lapack cholesky", o(W.lc.backsub(W.v)); o(W.lc.get_L()); o(W.lc.rank())) OP("lapack cholesky inverse", o(W.lc.get_inverse()); o(W.lc.determinant()); o(W.lc.mahalanobis(W.v)); o(W.lc.backsub(W.m))) OP("gaussian", o(gaussian_elimination(W.m, W.v))) OP("gauss_jordan", Matrix<3, 6> g; g.slice<0, 0, 3, 3>() = W.m; g.slice<0, 3, 3, 3>() = Identity; gauss_jordan(g); o(g)) OP("wls", o(W.wls.get_mu()); o(W.wls.get_C_inv()); o(W.wls.get_vector()); o(W.wls.get_decomposition().backsub(W.v))) OP("wls merge", WLS<3> a(3); a.add_prior(1.); a += W.wls; a.compute(); o(a.get_mu())) OP("irls", o(W.irls.get_mu()); o(W.irls.get_true_C_inv()))
OP("so2", o((W.so2 * W.so2).get_matrix()); o(W.so2.ln()); o(W.so2.inverse().get_matrix()); o(W.so2 * W.v.slice<0, 2>())) OP("so3", o((W.so3 * W.so3).get_matrix()); o(W.so3.ln()); o(W.so3.inverse().get_matrix()); o(W.so3 * W.v); o(W.v * W.so3); o(W.so3.adjoint(W.v))) OP("so3 exp", o(SO3<>::exp(W.v).get_matrix()); o(SO3<>::generator(1)); o(SO3<>::generator_field(2, W.v))) OP("se2", o.g2(W.se2 * W.se2); o(W.se2.ln()); o.g2(W.se2.inverse()); o(W.se2 * W.v); o(SE2<>::generator(1))) OP("se2 exp", o.g2(SE2<>::exp(W.v))) OP("se3", o.g2(W.se3 * W.se3); o(W.se3.ln()); o.g2(W.se3.inverse()); o(W.se3 * W.v)) OP("se3 adjoint", Vector<6> u = Ones; o(W.se3.adjoint(u)); o(W.se3.trinvadjoint(u)); o(W.se3 * unproject(W.v)); o(SE3<>::generator_field(4, unproject(W.v)))) OP("se3 exp", Vector<6> u = Ones * 0.3; o.g2(SE3<>::exp(u))) OP("sim2", o.g2(W.sim2 * W.sim2); o(W.sim2.ln()); o.g2(W.sim2.inverse()); o(SIM2<>::generator(3))) OP("sim3", o.g2(W.sim3 * W.sim3); o(W.sim3.ln()); o.g2(W.sim3.inverse()); o(W.sim3 * W.v)) OP("sim3 exp", Vector<7> u = Ones * 0.3; o.g2(SIM3<>::exp(u))) OP("sl", o((W.sl * W.sl).get_matrix()); o(W.sl.inverse().get_matrix()); o(W.sl * W.v); o(SL<3>::generator(5))) OP("sl exp", Vector<8> u = Ones * 0.1; o(SL<3>::exp(u).get_matrix())) OP("group copies", SE3<> a(W.se3); SIM3<> b(W.sim3); SL<3> q(W.sl); o.g2(a); o.g2(b); o(q.get_matrix())) OP("print groups", std::ostringstream s; s << W.se3 << W.so3 << W.sim3; o(s.str())) OP("derivatives", o(numerical_gradient(sq, W.v)); o(numerical_hessian(sq, W.v)))
};
const int NSH = sizeof shared_ops / sizeof *shared_ops;
}
World* c29_world() { return new World; } void c29_free(World* w) { delete w; }
int c29_shared_ops() { return NSH; } const char* c29_shared_name(int i) { return shared_ops[i].name; } void c29_shared(const World& w, int i, Res& r) { Put p{r}; shared_ops[i].f(w, p); }
// ---- disjoint parts
struct Whole { Matrix<4> m; Matrix<> md; Matrix<4, 4, double, ColMajor> mc; Vector<8> v; Vector<> vd; Vector<Resizable> vr; Vector<8, float> vf; Vector<8, short> vs; double raw[16]; Whole() : md(4, 4), vd(8), vr(8) { mset(m); md = m; mc = m; for (int i = 0; i < 8; ++i) { v[i] = vd[i] = vr[i] = i - 2.5; vf[i] = i; vs[i] = i; } for (int i = 0; i < 16; ++i) raw[i] = i; } };
namespace {
enum { VW = 20, MW = 18 }; const char* const vwn[VW] = {"=", "+=", "-= sum", "*=", "/=", "= Zeros", "= Ones", "+= Ones", "element", "swap elements", "normalize", "Fill", ">>", "self +=", "copy of itself", "= product", "assign from slice", "negate", "iterator-like loop", "= larger expression"}; const char* const mwn[MW] = {"=", "+=", "-= sum", "*=", "/=", "= Identity", "= Zeros", "+= Identity", "row", "column", "Symmetrize", "Fill", ">>", "self product", "diagonal", "gauss_jordan", "transpose assign", "element"};
template<class V> void vwrite(V&& v, int w) { const int n = v.size(); typedef std::decay_t<decltype(v[0])> P; Vector<Dynamic, P> u(n); for (int i = 0; i < n; ++i) u[i] = P(3 + i * i); switch (w) { case 0: v = u; break; case 1: v += u; break; case 2: v -= u + u; break; case 3: v *= P(2); break; case 4: v /= P(2); break; case 5: v = Zeros; break; case 6: v = Ones; break; case 7: v += Ones; break; case 8: v[n - 1] = P(9); break; case 9: { using std::swap; swap(v[0], v[n - 1]); break; } case 10: if constexpr (!std::is_integral<P>::value) { Vector<Dynamic, P> k(v); normalize(k); v = k; } break; case 11: if (n == 4) Fill(v) = P(1), P(2), P(3), P(4); else if (n == 2) Fill(v) = P(5), P(6); break; case 12: { std::istringstream s("1 2 3 4 5 6 7 8"); s >> v; break; } case 13: v += v; break; case 14: { auto k = v; v = k; break; } case 15: { Matrix<Dynamic, Dynamic, P> m(n, n); m = Identity; v = m * u; break; } case 16: v = u.slice(0, n); break; case 17: v = -u; break; case 18: for (int i = 0; i < n; ++i) v[i] += P(i); break; case 19: v = u + v + u; break; } }
template<class M> void mwrite(M&& m, int w) { const int r = m.num_rows(), c = m.num_cols(); Matrix<> u(r, c); mset(u); switch (w) { case 0: m = u; break; case 1: m += u; break; case 2: m -= u + u; break; case 3: m *= 2; break; case 4: m /= 2; break; case 5: if (r == c) m = Identity; break; case 6: m = Zeros; break; case 7: if (r == c) m += Identity * 2; break; case 8: m[r - 1] = u[0]; break; case 9: m.T()[c - 1] = u.T()[0]; break; case 10: if (r == c) Symmetrize(m); break; case 11: if (r == 2 && c == 2) Fill(m) = 1, 2, 3, 4; break; case 12: { std::istringstream s("1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16"); s >> m; break; } case 13: if (r == c) { Matrix<> k = m * u; m = k; } break; case 14: m.diagonal_slice() = Ones; break; case 15: if (r < c) { Matrix<> k(m); gauss_jordan(k); m = k; } break; case 16: m.T() = u.T(); break; case 17: m(r - 1, c - 1) = 3; m[0][0] = 2; break; } }
struct Kind { const char* name; bool mat; void (*f)(Whole&, int part, int w); };
#define KV(n, e) {n, false, [](Whole& W, int p, int w) { auto v = e; vwrite(v, w); }},
#define KM(n, e) {n, true, [](Whole& W, int p, int w) { auto m = e; mwrite(m, w); }},
const Kind kinds_[] = { KV("a vector (halves)", W.v.slice(p * 4, 4)) {"a vector (static halves)", false, [](Whole& W, int p, int w) { if (p) { auto v = W.v.slice<4, 4>(); vwrite(v, w); } else { auto v = W.v.slice<0, 4>(); vwrite(v, w); } }}, KV("a run-time sized vector (halves)", W.vd.slice(p * 4, 4)) KV("a resizable vector (halves)", W.vr.slice(p * 4, 4)) KV("a float vector (odd split)", W.vf.slice(p * 3, p ? 5 : 3)) KV("a short vector (odd split)", W.vs.slice(p * 3, p ? 5 : 3)) KV("a matrix (rows)", W.m[1 + p]) KV("a matrix (columns)", W.m.T()[1 + p]) KV("a run-time sized matrix (columns)", W.md.T()[2 - p]) KV("a column major matrix (rows)", W.mc[p]) KV("a matrix (diagonal and a row part)", W.md.slice(0, 2 * p, 2, 2).diagonal_slice()) KV("an array (interleaved)", wrapMatrix(W.raw + 8, 4, 2).T()[p])
KM("a matrix (upper and lower half)", W.m.slice(2 * p, 0, 2, 4)) KM("a matrix (left and right half)", W.m.slice(0, 2 * p, 4, 2)) KM("a run-time sized matrix (quarters)", W.md.slice(2 * p, 2 * p, 2, 2)) KM("a column major matrix (quarters)", W.mc.slice(2 * p, 2 - 2 * p, 2, 2)) KM("a transposed matrix (halves)", W.md.T().slice(2 * p, 0, 2, 4)) KM("an array (wrapped halves)", wrapMatrix(W.raw + 8 * p, 2, 4)) };
const int NK = sizeof kinds_ / sizeof *kinds_;
}
Whole* c29_whole(int) { return new Whole; } void c29_free(Whole* w) { delete w; } int c29_kinds() { return NK; } const char* c29_kind_name(int k) { return kinds_[k].name; } int c29_writers(int k) { return kinds_[k].mat ? MW : VW; } const char* c29_writer_name(int k, int w) { return kinds_[k].mat ? mwn[w] : vwn[w]; } void c29_write(Whole& W, int k, int p, int w) { kinds_[k].f(W, p, w); }
void c29_dump(const Whole& W, Res& r) { Put o{r}; o(W.m); o(W.md); o(W.mc); o(W.v); o(W.vd); o(W.vr); o(W.vf); o(W.vs); for (double x : W.raw) o(x); }
