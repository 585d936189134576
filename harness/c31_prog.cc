// C31: one broad program over the whole library, compiled once per documented option set (namespace TooN renamed per variant by
// the build, so that all variants live in one process). run<k>(choices) executes the program the explorer chose.
#include <signal.h>
#include "toon_env.hh"
#include "c31_api.hh"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/named_elements.h>
#include <TooN/functions/derivatives.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/internal/planar_complex.hh>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds;
TOON_MAKE_NAMED_ELEMENT_VECTOR(Named3, x, y, z)
namespace {
typedef c31::Ch Ch;
struct Out { std::vector<double>& v; std::vector<std::string>& lab; std::string cur;
	void num(double x) { v.push_back(x); lab.push_back(cur); } void put(double x) { num(x); } void put(float x) { num(x); } void put(int x) { num(x); } void put(long double x) { num((double)x); } void put(bool x) { num(x); } void put(size_t x) { num(x); } template<class P> void put(const std::complex<P>& c) { num(c.real()); num(c.imag()); }
	template<int N, class P, class B> void put(const Vector<N, P, B>& x) { num(x.size()); for (int i = 0; i < x.size(); ++i) put(x[i]); } template<int R, int C, class P, class B> void put(const Matrix<R, C, P, B>& x) { num(x.num_rows()); for (int i = 0; i < x.num_rows(); ++i) for (int j = 0; j < x.num_cols(); ++j) put(x(i, j)); }
	template<class P> void put(const SO2<P>& g) { put(g.get_matrix()); } template<class P> void put(const SO3<P>& g) { put(g.get_matrix()); } template<class P> void put(const SE2<P>& g) { put(g.get_rotation()); put(g.get_translation()); } template<class P> void put(const SE3<P>& g) { put(g.get_rotation()); put(g.get_translation()); } template<class P> void put(const SIM2<P>& g) { put(g.get_rotation()); put(g.get_translation()); put(g.get_scale()); } template<class P> void put(const SIM3<P>& g) { put(g.get_rotation()); put(g.get_translation()); put(g.get_scale()); } template<int N, class P> void put(const SL<N, P>& g) { put(g.get_matrix()); }
	template<class T> void operator()(const char* l, const T& t) { cur = l; put(t); } };
template<class V> void vfill(V& v, int s) { typedef elem_t<V> E; for (int i = 0; i < v.size(); ++i) v[i] = E((i * 5 + s * 3) % 7 - 2) + (std::is_integral<E>::value ? E(0) : E(s) / E(8)); }
template<class M> void mfill(M& m, int s) { typedef melem_t<M> E; for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) m(i, j) = E((i * 3 + j * 5 + s) % 7 - 2) + (i == j ? E(6 + s) : E(0)); }
// ---- vectors of two kinds
template<class T> void vectors(Ch& c, Out& o) { int k = c.pick(VK), l = c.pick(VK), s = c.pick(2); vec_kind<T, 3>(k, 3, [&](auto& a, const string&) { vfill(a, s); vec_kind<T, 3>(l, 3, [&](auto& b, const string&) { typedef std::remove_reference_t<decltype(a)> A; typedef std::remove_reference_t<decltype(b)> B; if constexpr (!vclash<A, B>) { vfill(b, s + 1); o("a+b", a + b); o("a-b", a - b); o("dot", a * b); o("outer", a.as_col() * b.as_row()); o("diagmult", diagmult(a, b)); if constexpr (A::SizeParameter == 3 && B::SizeParameter == 3) o("cross", a ^ b); o("equal", a == b); { Vector<Dynamic, T> x(a); x += b; o("+=", x); } { Vector<Resizable, T> x; x = a; x = b; o("resizable", x); x = a + b; o("resizable sum", x); x.resize(5); x[3] = x[4] = T(1); o("resized", x); x.resize(2); o("shrunk", x); } { Vector<3, T> x = a; o("static", x); x = x + b; o("aliased", x); using std::swap; Vector<3, T> y = b; swap(x, y); o("swap", x); } a = b; o("assigned", a); a += a; o("self +=", a); a = -b; o("negated", a); a *= T(3); o("*=", a); b = Zeros; o("zeros", b); b += Ones; o("ones", b); o("slice", a.slice(1, 2)); o("sum with ones", a + Ones); } }); });
	vec_kind<T, 3>(k, 3, [&](auto& a, const string&) { vfill(a, s); o("scaled", a * T(2)); o("norm_sq", norm_sq(a)); o("project", project(a)); o("unproject", unproject(a)); o("skew", cross_product_matrix(a)); o("norm_1", norm_1(a)); o("norm_inf", norm_inf(a)); o("max", max_value(a)); o("min", min_value(a)); o("diag", a.as_diagonal() * Vector<3, T>(Ones)); if constexpr (!std::is_integral<T>::value) { o("norm", norm(a)); o("unit", unit(a)); o("divided", a / T(3)); Vector<3, T> nn(a); normalize(nn); o("normalize", nn); } o("isfinite", isfinite(a)); Fill(a) = T(1), T(2), T(3); o("fill", a); std::ostringstream st; st << a; std::istringstream in(st.str()); Vector<3, T> r; in >> r; o("read back", r); }); }
template<class T, int R, int C> void matrices(Ch& c, Out& o) { int k = c.pick(MK), l = c.pick(MK), s = c.pick(2); mat_kind<T, R, C>(k, R, C, [&](auto& a, const string&) { mfill(a, s); { mat_kind<T, R, C>(l, R, C, [&](auto& b, const string&) { mfill(b, s + 1); o("a+b", a + b); o("a-b", a - b); o("equal", a == b); { Matrix<Dynamic, Dynamic, T> x(a); x -= b; o("-=", x); } a = b; o("assigned", a); a += b; o("+=", a); a *= T(2); o("*=", a); b = Zeros; o("zeros", b); if constexpr (R == C) { b = Identity; o("identity", b); b += Identity * T(2); o("+= identity", b); } b[0] = a[1]; o("row", b); b.T()[0] = a.T()[1]; o("column", b); }); } mfill(a, s); { mat_kind<T, C, 2>(l, C, 2, [&](auto& b, const string&) { mfill(b, s); o("product", a * b); Matrix<R, 2, T> x; x = a * b; o("stored product", x); }); } });
	mat_kind<T, R, C>(k, R, C, [&](auto& a, const string&) { mfill(a, s); o("transpose", a.T()); Vector<C, T> v; vfill(v, s); Vector<R, T> u; vfill(u, s); o("m*v", a * v); o("u*m", u * a); o("diagmult", diagmult(u, a)); o("diagmult 2", diagmult(a, v)); o("diagonal product", DiagonalMatrix<R, T>(u) * a); o("diagonal slice", a.diagonal_slice()); o("norm_1", norm_1(a)); o("norm_inf", norm_inf(a)); o("max", max_value(a)); if constexpr (R == C) { o("trace", trace(a)); Symmetrize(a); o("symmetrize", a); } Matrix<R, C, T> f; Matrix<2, 2, T> d = Data(T(1), T(2), T(3), T(4)); o("data", d); o("slice", a.slice(0, 1, 2, 1)); std::ostringstream st; st << a; std::istringstream in(st.str()); in >> f; o("read back", f); o("unary", -a); o("halved", a / T(2)); }); }
template<class T> void nomatrix(Out& o) { o("zeros", Vector<Dynamic, T>(Zeros(3))); o("empty", Vector<Dynamic, T>(0)); o("empty 2", Vector<Resizable, T>()); o("empty matrix", Matrix<Dynamic, Dynamic, T>(0, 0)); o("empty rows", Matrix<Dynamic, 3, T>(0, 3)); { Vector<Resizable, T> v(0); v.resize(3); vfill(v, 1); v.resize(0); o("resized to nothing", v); v.resize(2); vfill(v, 2); o("and back", v); } o("ones", Vector<3, T>(Ones * T(4))); o("identity", Matrix<3, 3, T>(Identity)); o("identity n", Matrix<Dynamic, Dynamic, T>(Identity(2))); o("makeVector", makeVector<T>(T(1), T(2), T(3))); o("big", Vector<300, T>(Ones)); o("big matrix", Matrix<20, 20, T>(Identity)[7]); { Vector<300, T> a; vfill(a, 1); Vector<300, T> b(a); b += a; a = b; o("big sum", a); } { Matrix<20, 20, T> a; mfill(a, 1); Matrix<20, 20, T> b(a); o("big product", (a * b)[3]); } { T d[6] = {1, 2, 3, 4, 5, 6}; auto v = wrapVector<3>(d); auto m = wrapMatrix<2, 3>(d); o("wrap", v); o("wrap matrix", m); v = m[1]; o("through wrap", m); Matrix<2, 3, T, ColMajor> q = m; o("converted layout", q); } }
// ---- decompositions of families of matrices
static double ent(int f, int n, int i, int j) { switch (f) { case 0: return i == j ? 4 + i : 1. / (1 + i + j); case 1: return (i + 1.) * (j + 1.); case 2: return 0; case 3: return i == j ? 1 : 0; case 4: return (i + 1) % n == j ? i + 1 : 0; case 5: return i * 3 - j * 2 + (i == j ? 7 : 0) + 0.5 * i * j; case 6: return i == j ? (i % 2 ? -2 - i : 3 + i) : 1 + (i + j) % 2; default: return i > j ? 0 : 1 + i + j; } } enum { NF = 8 };
template<class P, int N, class M> void square(Ch& c, Out& o, M& m, int f, bool sym, bool spd, bool sing, int what, bool dyn) { const int n = m.num_rows(); Vector<N, P> b(n); vfill(b, 1); Matrix<N, 2, P> B(n, 2); mfill(B, 2);
	switch (what) { case 0: { o("determinant", determinant(m)); o("determinant_gauss", determinant_gaussian_elimination(m)); break; }
	case 1: { LU<N, P> d(m); o("LU info", d.get_info()); o("LU det", d.determinant()); if (!sing) { o("LU backsub", d.backsub(b)); o("LU backsub m", d.backsub(B)); o("LU inverse", d.get_inverse()); } break; }
	case 2: { SVD<N, N, P> d(m); o("SVD diagonal", d.get_diagonal()); o("SVD pinv", d.get_pinv(P(1e4))); o("SVD backsub", d.backsub(b, P(1e4))); o("SVD U", d.get_U()); o("SVD VT", d.get_VT()); o("SVD rank", d.rank(P(1e4))); break; }
	case 3: if (sym) { SymEigen<N, P> d(m); o("eigenvalues", d.get_evalues()); o("eigenvectors", d.get_evectors()); o("eigen pinv", d.get_pinv(1e4)); o("eigen det", d.get_determinant()); o("eigen backsub", d.backsub(b)); o("posdef", d.is_posdef()); if (spd) { o("sqrtm", d.get_sqrtm()); o("isqrtm", d.get_isqrtm(1e4)); } } break;
	case 4: if (sym) { Cholesky<N, P> d(m); o("cholesky rank", d.rank()); o("cholesky det", d.determinant()); if (!sing) { o("cholesky backsub", d.backsub(b)); o("cholesky inverse", d.get_inverse()); o("L", d.get_unscaled_L()); o("D", d.get_D()); o("mahalanobis", d.mahalanobis(b)); } if (spd) { o("get_L", d.get_L()); Lapack_Cholesky<N, P> l(m); o("lapack L", l.get_L()); o("lapack backsub", l.backsub(b)); o("lapack inverse", l.get_inverse()); o("lapack rank", l.rank()); } } break;
	case 5: { QR<N, N, P> d(m); o("QR R", d.get_R()); o("QR Q", d.get_Q()); QR_Lapack<N, N, P> l(m, false); o("QR_Lapack R", l.get_R()); o("QR_Lapack Q", l.get_Q()); QR_Lapack<N, N, P> p(m, true); o("pivoted R", p.get_R()); o("P", Vector<Dynamic, int>(p.get_P())); break; }
	case 6: if (!sing) { o("gaussian", gaussian_elimination(Matrix<N, N, P>(m), b)); if constexpr (N > 0) { Matrix<N, 2 * N, P> g; g.template slice<0, 0, N, N>() = m; g.template slice<0, N, N, N>() = Identity; gauss_jordan(g); o("gauss_jordan", g); } } break;
	case 7: if constexpr (N > 0) { GR_SVD<N, N, P> d(m); o("GR diagonal", d.get_diagonal()); o("GR pinv", d.get_pinv(P(1e4))); o("GR U", d.get_U()); o("GR V", d.get_V()); } break; case 8: { Matrix<N, N, P> s = m * P(0.125); o("exp", exp(s)); if (sym && spd) { o("sqrt", sqrt(s)); o("log", log(s)); } break; } } }
template<class P> void decomposition(Ch& c, Out& o) { int f = c.pick(NF), n = 1 + c.pick(4), what = c.pick(9), kind = c.pick(3); bool sym = f == 0 || f == 1 || f == 2 || f == 3 || f == 6, spd = f == 0 || f == 3, sing = (f == 1 && n > 1) || f == 2; auto go = [&](auto N_) { constexpr int N = decltype(N_)::value; auto fill = [&](auto& m) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = P(ent(f, n, i, j)); }; if (kind == 0) { Matrix<N, N, P> m; fill(m); square<P, N>(c, o, m, f, sym, spd, sing, what, false); } else if (kind == 1) { Matrix<Dynamic, Dynamic, P> m(n, n); fill(m); square<P, Dynamic>(c, o, m, f, sym, spd, sing, what, true); } else { Matrix<N, N, P, ColMajor> m; fill(m); square<P, N>(c, o, m, f, sym, spd, sing, what, false); } };
	switch (n) { case 1: go(std::integral_constant<int, 1>()); break; case 2: go(std::integral_constant<int, 2>()); break; case 3: go(std::integral_constant<int, 3>()); break; case 4: go(std::integral_constant<int, 4>()); break; } }
template<class P, int R, int C> void rect(Ch& c, Out& o) { int f = c.pick(NF), k = c.pick(MK); mat_kind<P, R, C>(k, R, C, [&](auto& m, const string&) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m(i, j) = P(ent(f, C, i, j)); Vector<R, P> b; vfill(b, 2); { SVD<R, C, P> d(m); o("SVD diagonal", d.get_diagonal()); o("SVD pinv", d.get_pinv(P(1e4))); o("backsub", d.backsub(b, P(1e4))); o("U", d.get_U()); o("VT", d.get_VT()); } { SVD<Dynamic, Dynamic, P> d(m); o("SVD pinv", d.get_pinv(P(1e4))); } if constexpr (R <= C) { QR<R, C, P> d(m); o("R", d.get_R()); o("Q", d.get_Q()); QR_Lapack<R, C, P> q(m, true); o("lapack R", q.get_R()); o("lapack Q", q.get_Q()); } { Matrix<R, C, P> s = m; GR_SVD<R, C, P> g(s); o("GR pinv", g.get_pinv(P(1e4))); } }); }
// ---- transformations
template<class P> void groups(Ch& c, Out& o) { int a = c.pick(6), b = c.pick(6), g = c.pick(8); static const double ang[] = {0, 1e-9, 0.3, -1.2, 3.1, 5e-4}; Vector<3, P> w = makeVector<P>(P(ang[a]), P(-ang[a] / 2), P(ang[b])), t = makeVector<P>(P(1), P(b - 2.5), P(a)); Vector<2, P> t2 = makeVector<P>(P(1), P(b - 2.5));
	switch (g) { case 0: { SO2<P> x{P(ang[a])}, y = SO2<P>::exp(P(ang[b])); o("so2", x * y); o("inverse", x.inverse()); o("ln", y.ln()); x *= y; o("*=", x); o("generator", SO2<P>::generator()); o("vector", x * t2); SO2<P> q; o("default", q); q = x.get_matrix(); o("from matrix", q); break; }
	case 1: { SO3<P> x(w), y = SO3<P>::exp(t); o("so3", x * y); o("inverse", x.inverse()); o("ln", x.ln()); o("ln 2", (x * y).ln()); x *= y; o("*=", x); o("adjoint", x.adjoint(t)); o("vector", x * t); o("row", t * x); o("matrix", x * Matrix<3, 3, P>(Identity)); for (int i = 0; i < 3; ++i) { o("generator", SO3<P>::generator(i)); o("generator field", SO3<P>::generator_field(i, t)); } SO3<P> z; o("default", z); z = y.get_matrix(); o("from matrix", z); SO3<P> v(unit(w + Ones * P(2)), unit(t)); o("two vectors", v); break; }
	case 2: { SE2<P> x(SO2<P>(P(ang[a])), t2), y = SE2<P>::exp(w); o("se2", x * y); o("inverse", x.inverse()); o("ln", x.ln()); x *= y; o("*=", x); o("adjoint", x.adjoint(w)); o("vector", x * t); o("point", x * t2); o("matrix", x * Matrix<3, 3, P>(Identity)); o("mat", x.adjoint(Matrix<3, 3, P>(Identity))); for (int i = 0; i < 3; ++i) o("generator", SE2<P>::generator(i)); SE2<P> z; o("default", z); break; }
	case 3: { Vector<6, P> v; v.template slice<0, 3>() = t; v.template slice<3, 3>() = w; SE3<P> x(SO3<P>(w), t), y = SE3<P>::exp(v); o("se3", x * y); o("inverse", y.inverse()); o("ln", y.ln()); x *= y; o("*=", x); x.left_multiply_by(y); o("left", x); o("adjoint", x.adjoint(v)); o("trinv", x.trinvadjoint(v)); o("adjoint m", y.adjoint(Matrix<6, 6, P>(Identity))); o("trinv m", y.trinvadjoint(Matrix<6, 6, P>(Identity))); Vector<4, P> h = unproject(t); o("vector", x * h); o("row", h * x); o("point", x * t); o("matrix", x * Matrix<4, 4, P>(Identity)); for (int i = 0; i < 6; ++i) o("field", SE3<P>::generator_field(i, h)); SE3<P> z; o("default", z); o("rotation product", y.get_rotation() * x); break; }
	case 4: { Vector<4, P> v = makeVector<P>(P(1), P(-2), P(ang[a]), P(ang[b] / 2)); SIM2<P> x(SO2<P>(P(ang[b])), t2, P(1.5)), y = SIM2<P>::exp(v); o("sim2", x * y); o("inverse", x.inverse()); o("ln", y.ln()); x *= y; o("*=", x); o("vector", x * t); o("point", x * t2); o("adjoint", x.adjoint(v)); SIM2<P> z; o("default", z); for (int i = 0; i < 4; ++i) { o("generator", SIM2<P>::generator(i));  } break; }
	case 5: { Vector<7, P> v; v.template slice<0, 3>() = t; v.template slice<3, 3>() = w; v[6] = P(ang[b] / 3); SIM3<P> x(SO3<P>(w), t, P(0.5)), y = SIM3<P>::exp(v); o("sim3", x * y); o("inverse", y.inverse()); o("ln", y.ln()); x *= y; o("*=", x); Vector<4, P> h = unproject(t); o("vector", x * h); o("point", x * t); o("adjoint", x.adjoint(v)); o("trinv", x.trinvadjoint(v)); SIM3<P> z; o("default", z); for (int i = 0; i < 7; ++i) o("field", SIM3<P>::generator_field(i, h)); o("se3 product", SE3<P>(SO3<P>(w), t) * Vector<3, P>(t)); break; }
	case 6: { Vector<8, P> v; for (int i = 0; i < 8; ++i) v[i] = P(ang[a] / 8 + (i * b % 3) / 8.); SL<3, P> x(v), y = SL<3, P>::exp(v * P(0.5)); o("sl3", x * y); o("inverse", x.inverse()); x *= y; o("*=", x); o("vector", x * t); o("row", t * x); for (int i = 0; i < 8; ++i) o("generator", SL<3, P>::generator(i)); SL<3, P> z; o("default", z); SL<3, P> u(y.get_matrix() * P(2)); o("from matrix", u); break; }
	case 7: { SE3<P> x(SO3<P>(w), t); std::ostringstream s; s.precision(21); s << x << SO3<P>(w) << SE2<P>(SO2<P>(P(ang[a])), t2) << SIM3<P>(SO3<P>(w), t, P(2)); std::istringstream in(s.str()); SE3<P> p; SO3<P> q; SE2<P> r; SIM3<P> u; in >> p >> q >> r >> u; o("read", p); o("read so3", q); o("read se2", r); o("read sim3", u); o("ok", !in.fail()); break; } } }
// ---- estimation and minimisation
template<class P> P rosen(const Vector<2, P>& v) { P a = 1 - v[0], b = v[1] - v[0] * v[0]; return a * a + 10 * b * b; }
template<int N, class P> void estimation(Ch& c, Out& o, int n) { int s = c.pick(6), prior = c.pick(2); Vector<N, P> J(n), K(n); vfill(J, s); vfill(K, s + 2); { WLS<N, P> w(n); if (prior) w.add_prior(P(0.5)); for (int i = 0; i < n + 1; ++i) { Vector<N, P> q(n); vfill(q, s + i); q[i % n] += P(5); w.add_mJ(P(i), q, P(1 + i)); } w.add_mJ(P(2), J); Matrix<2, N, P> rows(2, n); rows[0] = J; rows[1] = K; w.add_mJ_rows(makeVector<P>(P(1), P(2)), rows, Matrix<2, 2, P>(Identity)); o("C_inv diag", w.get_C_inv().diagonal_slice()); w.compute(); o("mu", w.get_mu()); WLS<N, P> z(n); z.clear(); z.add_prior(P(1)); z += w; z.compute(); o("merged", z.get_mu()); o("vector", z.get_vector()); }
	{ WLS<N, P, SQSVD> w(n); if (prior) w.add_prior(Vector<N, P>(Ones(n))); w.add_mJ(P(3), J); w.add_mJ(P(1), K); w.compute(); o("svd mu", w.get_mu()); }
	if constexpr (N > 0) { IRLS<N, P, RobustI> w(n); w.set_sd(P(1.5)); w.add_prior(P(1)); w.add_mJ(P(2), J); w.add_mJ(P(-7), K); w.compute(); o("irls", w.get_mu()); IRLS<N, P, ILinear> l(n); l.set_sd(P(2)); l.add_prior(P(1)); l.add_mJ(P(3), J); l.compute(); o("irls linear", l.get_mu()); } }
static double line(double x) { return (x - 1.3) * (x - 1.3) + 0.1 * x; }
void minimisation(Ch& c, Out& o) { int w = c.pick(6), s = c.pick(5); Vector<2, double> st = makeVector<double>(s - 2., 1.5 - s); switch (w) { case 0: { DownhillSimplex<2, double> d(rosen<double>, st, 1); for (int i = 0; i < 60; ++i) d.iterate(rosen<double>); o("simplex", d.get_simplex()[d.get_best()]); o("values", d.get_values()); break; } case 1: { auto gr = [](const Vector<2, double>& v) { Vector<2, double> g; double b = v[1] - v[0] * v[0]; g[0] = -2 * (1 - v[0]) - 40 * b * v[0]; g[1] = 20 * b; return g; }; ConjugateGradient<2, double> d(st, rosen<double>, gr(st)); for (int i = 0; i < 10 && d.iterate(rosen<double>, gr); ++i) ; o("cg", d.x); o("cg value", d.y); break; } case 2: o("brent", brent_line_search(-3., s * 0.25, 5., line(s * 0.25), line, 60, 1e-10)); break; case 3: o("golden", golden_section_search(-3., s * 0.25, 5., line(s * 0.25), line, 60, 1e-10)); break; case 4: o("gradient", numerical_gradient(rosen<double>, st)); o("hessian", numerical_hessian(rosen<double>, st)); o("with errors", numerical_gradient_with_errors(rosen<double>, st)); break; case 5: { auto f = [](const Vector<Dynamic, double>& v) { return v * v + v[0]; }; DownhillSimplex<Dynamic, double> d(f, Vector<Dynamic, double>(st)); for (int i = 0; i < 30; ++i) d.iterate(f); o("simplex", d.get_simplex()[d.get_best()]); break; } } }
void misc(Ch& c, Out& o) { int s = c.pick(4); Named3<double> a = makeVector<double>(1. + s, 2., 3.), b; b.x = 4; b.y = 5; b.z = s; o("named", a + b); b = a; o("assigned", b); swap(a.x, a.y); o("swapped", a); Vector<3, std::complex<double>> z; for (int i = 0; i < 3; ++i) z[i] = std::complex<double>(i, s); o("complex", z * z); o("complex sum", z + z); Matrix<2, 2, std::complex<float>> m; m(0, 0) = m(1, 1) = 2; m(0, 1) = m(1, 0) = std::complex<float>(0, s); o("complex product", m * m); double re[3] = {1, 2, 3}, im[3] = {0, 1, double(s)}; Vector<3, std::complex<double>, ReferencePlanarComplex> p(std::make_pair(re, im)); o("planar", p); o("planar sum", p + z); Vector<3, unsigned char> u; for (int i = 0; i < 3; ++i) u[i] = i + s; o("bytes", (int)(u * u)); Vector<5, short> sh; for (int i = 0; i < 5; ++i) sh[i] = i * s; Vector<5, short> s2(sh); o("shorts", (int)s2[4]); Vector<3, char> ch = Zeros; o("chars", (int)ch[2]); o("negated identity", Matrix<3, 3, double>(-Identity * 0.1)); o("negated ones", Vector<3, double>(-Ones * (0.1 * s))); }
// contents of new objects: all elements, all owning kinds
template<class T> void fresh(c31::Init& f) { auto one = [&](auto& v, const char* n) { for (int i = 0; i < v.size(); ++i) f.add(n, double(v[i]), std::is_integral<T>::value); }; auto mat = [&](auto& m, const char* n) { for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) f.add(n, double(m(i, j)), std::is_integral<T>::value); }; { Vector<3, T> v; one(v, "static"); } { Vector<Dynamic, T> v(5); one(v, "run-time sized"); } { Vector<Resizable, T> v(4); one(v, "resizable"); } { Vector<300, T> v; one(v, "large static"); } { Matrix<2, 3, T> m; mat(m, "static matrix"); } { Matrix<Dynamic, Dynamic, T> m(3, 2); mat(m, "run-time sized matrix"); } { Matrix<20, 20, T> m; mat(m, "large static matrix"); } { Matrix<2, Dynamic, T, ColMajor> m(2, 3); mat(m, "mixed matrix"); } { DiagonalMatrix<Dynamic, T> d(3); auto s = d.diagonal_slice(); one(s, "diagonal"); } { Vector<1, T> v; one(v, "one element"); } { Vector<Resizable, T> v(2); v[0] = v[1] = T(3); v.resize(5); for (int i = 2; i < 5; ++i) f.add("grown resizable", double(v[i]), std::is_integral<T>::value); v.resize(1); v.resize(40); for (int i = 1; i < 40; ++i) f.add("regrown resizable", double(v[i]), std::is_integral<T>::value); } { Named3<T> v; one(v, "named element"); } { Vector<Dynamic, T> v(3), w(v), u[2] = {Vector<Dynamic, T>(2), Vector<Dynamic, T>(1)}; one(u[1], "array of vectors"); } { Matrix<Dynamic, Dynamic, T, ColMajor> m(0, 3); mat(m, "empty matrix"); } { Matrix<1, 1, T> m; mat(m, "one element matrix"); } { SL<3, double> g; (void)g; } { Vector<Dynamic, T> v(0); one(v, "empty"); } }
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(c31_run_, VARIANT)(c31::Ch& c, std::vector<double>& v, std::vector<std::string>& lab) { Out o{v, lab, ""}; switch (c.group) {
	case 0: vectors<double>(c, o); break; case 1: vectors<int>(c, o); break; case 2: matrices<double, 2, 3>(c, o); break; case 3: matrices<double, 3, 3>(c, o); break; case 4: { switch (c.pick(5)) { case 0: nomatrix<double>(o); break; case 1: nomatrix<float>(o); break; case 2: nomatrix<int>(o); break; case 3: nomatrix<long double>(o); break; case 4: misc(c, o); } break; }
	case 5: decomposition<double>(c, o); break; case 6: if (c.pick(2)) rect<double, 2, 3>(c, o); else rect<double, 3, 2>(c, o); break; case 7: if (c.pick(2)) groups<double>(c, o); else groups<float>(c, o); break; case 8: switch (c.pick(4)) { case 0: estimation<2, double>(c, o, 2); break; case 1: estimation<Dynamic, double>(c, o, 3); break; case 2: estimation<3, double>(c, o, 3); break; case 3: minimisation(c, o); } break; case 9: decomposition<float>(c, o); break; } }
void CAT(c31_fresh_, VARIANT)(c31::Init& f, int t) { switch (t) { case 0: fresh<double>(f); break; case 1: fresh<float>(f); break; case 2: fresh<int>(f); break; case 3: fresh<long double>(f); break; case 4: fresh<short>(f); break; } }
