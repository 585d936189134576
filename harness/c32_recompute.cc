// C32: decomposition objects recomputed, copied and queried in any order against freshly built ones; instances of different
// size kinds and layouts against each other.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#undef abort
using namespace TooN; using mc::Ctx; typedef std::string Str; typedef std::vector<double> Ans;
template<int R, int C, class P, class B> void put(Ans& a, const Matrix<R, C, P, B>& m) { a.push_back(m.num_rows()); for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) a.push_back(m(i, j)); }
template<int N, class P, class B> void put(Ans& a, const Vector<N, P, B>& v) { a.push_back(v.size()); for (int i = 0; i < v.size(); ++i) a.push_back(v[i]); }
inline void put(Ans& a, double x) { a.push_back(x); }
static bool near(const Ans& a, const Ans& b, double tol) { if (a.size() != b.size()) return false; double m = 0; for (double x : b) if (std::isfinite(x)) m = std::max(m, std::abs(x)); for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue; if (!std::isfinite(a[i]) || !std::isfinite(b[i]) || std::abs(a[i] - b[i]) > tol * m) return false; } return true; }
static Str show(const Ans& a) { std::ostringstream o; o.precision(10); for (double x : a) o << x << " "; return o.str(); }
// ---- matrices: 0-2 symmetric positive definite, 3 indefinite symmetric, 4 singular (exactly), 5 zero, 6 identity scaled, 7 unsymmetric
enum { NM = 8 };
static double entry(int k, int n, int i, int j) { int s = i + j, d = std::abs(i - j); switch (k) { case 0: return i == j ? 4 + i : 1. / (1 + s); case 1: return i == j ? 300 + 50 * i * i : (i * j % 3 - 1) * 20 + s; case 2: return i == j ? 0.5 + 0.25 * (n - i) : 0.125 * (d == 1); case 3: return i == j ? (i % 2 ? -2 - i : 3 + i) : 1 + s % 2; case 4: return (i + 1.) * (j + 1.); case 5: return 0; case 6: return i == j ? 2 : 0; default: return i * 3 - j * 2 + (i == j ? 7 : 0) + 0.5 * i * j; } }
enum { NL = 5 };
// the matrix in one of several layouts; after f returns the storage is overwritten and released
template<int N, int M, class P, class F> void input(int k, int l, int n, int m, F f) { auto fill = [&](auto&& x) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x(i, j) = P(entry(k, std::max(n, m), i, j)); }; auto trash = [&](auto&& x) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) x(i, j) = P(-777); };
	switch (l) { case 0: { Matrix<N, M, P> x(n, m); fill(x); f(x); trash(x); break; } case 1: { Matrix<N, M, P, ColMajor> x(n, m); fill(x); f(x); trash(x); break; } case 2: { Matrix<N, M, P> x(n, m); auto q = Matrix<M, N, P>(m, n); fill(q.T()); f(q.T()); trash(q.T()); break; } case 3: { Matrix<Dynamic, Dynamic, P> q(n + 1, m + 2); fill(q.slice(1, 1, n, m)); Matrix<N, M, P, Reference::RowMajor>* z = 0; (void)z; Matrix<N, M, P> x(n, m); x = q.slice(1, 1, n, m); f(x); trash(x); break; } case 4: { std::vector<P> s(n * m); Matrix<N, M, P, Reference::ColMajor> x(s.data(), n, m); fill(x); f(x); trash(x); break; } } }
template<int N, class P> Vector<N, P> rv(int n) { Vector<N, P> v(n); for (int i = 0; i < n; ++i) v[i] = P(i * i - 1.5 * i + 1); return v; }
template<int N, class P> Matrix<N, 2, P> rm(int n) { Matrix<N, 2, P> v(n, 2); for (int i = 0; i < n; ++i) { v(i, 0) = P(2 - i); v(i, 1) = P(0.5 * i + (i == 1)); } return v; }
// ---- one adaptor per decomposition: NQ queries, NU of which have a unique answer and come first
template<int N, class P> struct ALU { typedef LU<N, P> D; typedef P T; enum { NQ = 6, NU = 5, R = N, C = N }; static const bool rec = true; static Str nm() { return "LU"; } static D make() { Matrix<N, N, P> z(3, 3); z = Identity; return D(z); } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return k != 4 && k != 5; }
	static Ans ask(D& d, int q) { Ans a; switch (q) { case 0: put(a, d.backsub(rv<N, P>(d.get_lu().num_rows()))); break; case 1: put(a, d.backsub(rm<N, P>(d.get_lu().num_rows()))); break; case 2: put(a, d.get_inverse()); break; case 3: put(a, d.determinant()); break; case 4: put(a, d.get_info()); break; case 5: put(a, d.get_lu()); break; } return a; } };
template<int Rr, int Cc, class P, class DD> struct ASVD { typedef DD D; typedef P T; enum { NQ = 11, NU = 8, R = Rr, C = Cc }; static const bool rec = true; static Str nm() { return "SVD"; } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return true; }
	static Ans ask(D& d, int q) { Ans a; const int r = d.get_U().num_rows(); P cd = sizeof(P) == 4 ? P(1e4) : P(1e9); switch (q) { case 0: put(a, d.backsub(rv<Rr, P>(r), cd)); break; case 1: put(a, d.backsub(rm<Rr, P>(r), cd)); break; case 2: put(a, d.get_pinv(cd)); break; case 3: put(a, d.rank(cd)); break; case 4: put(a, d.get_diagonal()); break; case 5: put(a, d.determinant()); break; case 6: put(a, d.rank(P(2.5))); break; case 7: put(a, d.get_pinv(P(2.5))); break; case 8: put(a, d.get_U()); break; case 9: put(a, d.get_VT()); break; case 10: if constexpr (Rr != Dynamic && Cc != Dynamic) { Vector<(Rr < Cc ? Rr : Cc)> v; d.get_inv_diag(v, cd); put(a, v); } else put(a, d.get_diagonal()); } return a; } };
template<int N, class P> struct AEig { typedef SymEigen<N, P> D; typedef P T; enum { NQ = 11, NU = 10, R = N, C = N }; static const bool rec = true; static Str nm() { return "SymEigen"; } static bool defined(int k, int q) { return k != 7; } static bool uniq(int k) { return true; }
	static Ans ask(D& d, int q) { Ans a; const D& e = d; const int n = e.get_evalues().size(); double cd = sizeof(P) == 4 ? 1e4 : 1e9; bool neg = e.get_evalues()[0] < -1e-3; switch (q) { case 0: if (std::isfinite((double)e.get_determinant()) && std::abs(e.get_determinant()) > 1e-3) put(a, e.backsub(rv<N, P>(n))); break; case 1: if (std::abs(e.get_determinant()) > 1e-3) put(a, e.backsub(rm<N, P>(n))); break; case 2: put(a, e.get_pinv(cd)); break; case 3: put(a, e.get_inv_diag(cd)); break; case 4: put(a, e.get_evalues()); break; case 5: put(a, std::abs(e.get_determinant()) > 1e-3 && e.is_posdef()); break; case 6: put(a, e.is_negdef()); break; case 7: put(a, std::abs(e.get_determinant()) > 1e-3 ? e.get_determinant() : P(0)); break; case 8: if (!neg) put(a, e.get_sqrtm()); break; case 9: if (!neg && std::abs(e.get_determinant()) > 1e-3) put(a, e.get_isqrtm(cd)); break; case 10: put(a, e.get_evectors()); } return a; } };
template<int N, class P> struct AChol { typedef Cholesky<N, P> D; typedef P T; enum { NQ = 9, NU = 9, R = N, C = N }; static const bool rec = true; static Str nm() { return "Cholesky"; } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return k != 7; }
	static Ans ask(D& d, int q) { Ans a; const D& e = d; const int n = e.get_L().num_rows(); if (q == 8) { put(a, d.rank()); return a; } bool full = e.rank() == n; switch (q) { case 0: if (full) put(a, e.backsub(rv<N, P>(n))); break; case 1: if (full) put(a, e.backsub(rm<N, P>(n))); break; case 2: if (full) put(a, d.get_inverse()); break; case 3: put(a, d.determinant()); break; case 4: if (full) put(a, e.mahalanobis(rv<N, P>(n))); break; case 5: put(a, e.get_unscaled_L()); break; case 6: put(a, e.get_D()); break; case 7: put(a, e.get_L()); } return a; } };
template<int N, class P> struct ALC { typedef Lapack_Cholesky<N, P> D; typedef P T; enum { NQ = 7, NU = 7, R = N, C = N }; static const bool rec = true; static Str nm() { return "Lapack_Cholesky"; } static bool defined(int k, int q) { return q == 0 || k < 3 || k == 6; } static bool uniq(int k) { return k != 7; }
	static Ans ask(D& d, int q) { Ans a; const D& e = d; const int n = e.get_L().num_rows(); switch (q) { case 0: put(a, e.rank()); break; case 1: put(a, e.backsub(rv<N, P>(n))); break; case 2: put(a, e.backsub(rm<N, P>(n))); break; case 3: put(a, e.mahalanobis(rv<N, P>(n))); break; case 4: put(a, e.get_L()); break; case 5: put(a, e.determinant()); break; case 6: put(a, e.get_inverse()); } return a; } };
template<int Rr, int Cc, class P> struct AQR { typedef QR<Rr, Cc, P> D; typedef P T; enum { NQ = 2, NU = 2, R = Rr, C = Cc }; static const bool rec = false; static Str nm() { return "QR"; } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return k != 4 && k != 5; } static Ans ask(D& d, int q) { Ans a; if (q == 0) put(a, d.get_R()); else put(a, d.get_Q()); return a; } };
template<int Rr, int Cc, class P, bool PV> struct AQL { typedef QR_Lapack<Rr, Cc, P> D; typedef P T; enum { NQ = 3, NU = 3, R = Rr, C = Cc }; static const bool rec = false; static Str nm() { return "QR_Lapack"; } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return k != 4 && k != 5; } static Ans ask(D& d, int q) { Ans a; if (q == 0) put(a, d.get_R()); else if (q == 1) put(a, d.get_Q()); else { auto& p = d.get_P(); for (int i = 0; i < p.size(); ++i) put(a, (double)p[i]); } return a; } };
template<int Rr, int Cc, class P> struct AGR { typedef GR_SVD<Rr, Cc, P> D; typedef P T; enum { NQ = 8, NU = 8, R = Rr, C = Cc }; static const bool rec = false; static Str nm() { return "GR_SVD"; } static bool defined(int k, int q) { return true; } static bool uniq(int k) { return true; } static Ans ask(D& d, int q) { Ans a; P cd = sizeof(P) == 4 ? P(1e4) : P(1e9); switch (q) { case 0: put(a, d.backsub(rv<Rr, P>(Rr), cd)); break; case 1: put(a, d.backsub(rm<Rr, P>(Rr), cd)); break; case 2: put(a, d.get_pinv(cd)); break; case 3: put(a, d.get_diagonal()); break; case 4: put(a, d.get_U()); break; case 5: put(a, d.get_V()); break; case 6: put(a, d.get_largest_singular_value()); put(a, d.get_smallest_singular_value()); break; case 7: put(a, d.get_smallest_singular_value_index()); } return a; } };
template<class A> struct IsPV { static const bool v = false; }; template<int R, int C, class P> struct IsPV<AQL<R, C, P, true>> { static const bool v = true; };
template<class A, class M> typename A::D build(const M& m) { if constexpr (IsPV<A>::v) return typename A::D(m, true); else return typename A::D(m); }
// answers of freshly built objects, one object per question
template<class A> const Ans& fresh(int k, int q, int n, int m) { static std::map<int, Ans> memo; int key = ((k * 20 + q) * 10 + n) * 10 + m; auto it = memo.find(key); if (it != memo.end()) return it->second; Ans a; input<A::R, A::C, typename A::T>(k, 0, n, m, [&](const auto& x) { auto d = build<A>(x); a = A::ask(d, q); }); return memo[key] = a; }
template<class A> void ask(Ctx& c, typename A::D& d, int k, int q, int n, int m, const char* who) { if (!A::defined(k, q)) return; c.step(); Ans a = A::ask(d, q); const Ans& w = fresh<A>(k, q, n, m); double tol = sizeof(typename A::T) == 4 ? 2e-4 : 1e-9; c.checkf(near(a, w, tol), "stale answer", [&] { return A::nm() + ": query " + mc::str(q) + " of " + who + " holding matrix " + mc::str(k) + " answers " + show(a) + ", a freshly built object answers " + show(w); }); }
// two objects; compute, copy, assign, swap and query in any order
template<class A, int n, int m> void histories(Ctx& c) { typedef typename A::D D; typedef typename A::T P; std::unique_ptr<D> o[2]; int h[2] = {0, 3}; const int ks[] = {0, 1, 3, 4, 7, 5, 2, 6}; const int nk = c.depth > 2 ? 8 : 6; if (!A::defined(7, 0)) h[1] = 3; for (int i = 0; i < 2; ++i) input<A::R, A::C, P>(h[i], i, n, m, [&](const auto& x) { o[i].reset(new D(build<A>(x))); }); uint64_t hs = 5; int moves = nk * 2 * 2 + 5 + A::NQ * 2;
	for (int s = 0; s < c.depth; ++s) { int op = c.pick(moves); hs = mc::mix(hs, op); c.step(); c.logf("%d", op); if (op < nk * 4) { int t = op & 1, k = ks[op / 4], l = (op >> 1 & 1) ? 1 + (op / 4 + s) % 4 : 0; if (A::nm() == "SymEigen" && k == 7) throw mc::Prune(); h[t] = k; input<A::R, A::C, P>(k, l, n, m, [&](const auto& x) { if constexpr (A::rec) o[t]->compute(x); else *o[t] = build<A>(x); }); }
		else if (op < nk * 4 + 5) { switch (op - nk * 4) { case 0: *o[0] = *o[1]; h[0] = h[1]; break; case 1: *o[1] = *o[0]; h[1] = h[0]; break; case 2: o[0].reset(new D(*o[1])); h[0] = h[1]; break; case 3: { D& r = *o[0]; *o[0] = r; break; } case 4: { std::unique_ptr<D> z(new D(std::move(*o[1]))); o[1] = std::move(o[0]); o[0] = std::move(z); std::swap(h[0], h[1]); } } }
		else { int q = op - nk * 4 - 5, t = q / A::NQ; ask<A>(c, *o[t], h[t], q % A::NQ, n, m, t ? "the second object" : "the first object"); } c.state(hs); }
	int ord = c.pick(2); for (int t = 0; t < 2; ++t) for (int i = 0; i < A::NQ; ++i) ask<A>(c, *o[t], h[t], ord ? A::NQ - 1 - i : i, n, m, t ? "the second object" : "the first object"); }
// every layout of the input, and the other size kind
template<class A, class B, int n, int m> void agree(Ctx& c) { int k = c.pick(NM), l = c.pick(NL), q = c.pick(A::NQ), how = c.pick(A::rec ? 3 : 1); typedef typename A::T P; if (!A::defined(k, q)) throw mc::Prune(); c.step(); c.state(((k * NL + l) * A::NQ + q) * 3 + how); double tol = sizeof(P) == 4 ? 2e-3 : 1e-8; const Ans& w = fresh<A>(k, q, n, m); Ans a;
	input<A::R, A::C, P>(k, l, n, m, [&](const auto& x) { if (how == 0) { auto d = build<A>(x); a = A::ask(d, q); } else if constexpr (A::rec) { std::unique_ptr<typename A::D> d; input<A::R, A::C, P>(how == 1 ? 1 : 3, 0, n, m, [&](const auto& y) { d.reset(new typename A::D(y)); }); A::ask(*d, q); d->compute(x); a = A::ask(*d, q); } });
	c.checkf(near(a, w, tol), "layout", [&] { return A::nm() + ": query " + mc::str(q) + " of matrix " + mc::str(k) + " stored in layout " + mc::str(l) + " answers " + show(a) + ", row-major " + show(w); });
	if (q < A::NU && A::uniq(k)) { Ans b; input<B::R, B::C, P>(k, l, n, m, [&](const auto& x) { auto d = build<B>(x); b = B::ask(d, q); }); c.checkf(near(b, w, tol), "size kind", [&] { return A::nm() + ": query " + mc::str(q) + " of matrix " + mc::str(k) + " answers " + show(w) + " in one instance and " + show(b) + " in the other (fixed or run-time sized)"; }); } }
template<class A, class B, int n, int m> void both(const Str& s, int dq = 3, int dt = 4) { mc::scenario(A::nm() + " " + s + " histories", histories<A, n, m>, dq, dt); mc::scenario(A::nm() + " " + s + " run-time sized histories", histories<B, n, m>, dq - 1, dt - 1); mc::scenario(A::nm() + " " + s + " layouts", agree<A, B, n, m>); mc::scenario(A::nm() + " " + s + " run-time sized layouts", agree<B, A, n, m>); }
enum { X = Dynamic };
template<int R, int C, class P> using S_ = ASVD<R, C, P, SVD<R, C, P>>;
template<int N, class P> struct SQ : ASVD<N, N, P, SQSVD<N, P>> {};
void mc_register() {
#if PART == 1
	both<ALU<3, double>, ALU<X, double>, 3, 3>("3x3"); both<ALU<2, float>, ALU<X, float>, 2, 2>("float 2x2", 2, 3); both<ALU<4, double>, ALU<X, double>, 4, 4>("4x4", 2, 3);
#elif PART == 2
	both<S_<3, 3, double>, S_<X, X, double>, 3, 3>("3x3", 2, 3); both<S_<3, 2, double>, S_<X, X, double>, 3, 2>("3x2", 3, 4); both<S_<2, 3, double>, S_<X, X, double>, 2, 3>("2x3", 3, 4);
#elif PART == 3
	both<S_<3, 2, double>, S_<3, X, double>, 3, 2>("3xN", 2, 3); both<S_<2, 4, double>, S_<X, 4, double>, 2, 4>("Nx4", 2, 3); both<S_<4, 4, float>, S_<X, X, float>, 4, 4>("float 4x4", 2, 3); both<SQ<3, double>, SQ<X, double>, 3, 3>("square 3x3", 3, 4);
#elif PART == 4
	both<AEig<3, double>, AEig<X, double>, 3, 3>("3x3", 3, 4); both<AEig<2, double>, AEig<X, double>, 2, 2>("2x2", 3, 4); both<AEig<4, double>, AEig<X, double>, 4, 4>("4x4", 2, 3); both<AEig<3, float>, AEig<X, float>, 3, 3>("float 3x3", 2, 3);
#elif PART == 5
	both<AChol<3, double>, AChol<X, double>, 3, 3>("3x3", 3, 4); both<AChol<2, float>, AChol<X, float>, 2, 2>("float 2x2", 2, 3); both<AChol<4, long double>, AChol<X, long double>, 4, 4>("long double 4x4", 2, 3); both<ALC<3, double>, ALC<X, double>, 3, 3>("3x3", 3, 4); both<ALC<2, float>, ALC<X, float>, 2, 2>("float 2x2", 2, 3);
#elif PART == 6
	both<AQR<3, 3, double>, AQR<X, X, double>, 3, 3>("3x3", 3, 4); both<AQR<2, 3, double>, AQR<X, X, double>, 2, 3>("2x3", 3, 4); both<AQL<3, 3, double, false>, AQL<X, X, double, false>, 3, 3>("3x3", 3, 4); both<AQL<3, 3, double, true>, AQL<X, X, double, true>, 3, 3>("pivoted 3x3", 3, 4); both<AQL<2, 3, double, true>, AQL<X, X, double, true>, 2, 3>("pivoted 2x3", 3, 4); both<AQR<2, 2, float>, AQR<X, X, float>, 2, 2>("float 2x2", 2, 3);
	mc::scenario("GR_SVD 3x3 histories", histories<AGR<3, 3, double>, 3, 3>, 3, 3); mc::scenario("GR_SVD 3x3 layouts", agree<AGR<3, 3, double>, AGR<3, 3, double>, 3, 3>); mc::scenario("GR_SVD 4x2 histories", histories<AGR<4, 2, double>, 4, 2>, 2, 3); mc::scenario("GR_SVD 4x2 layouts", agree<AGR<4, 2, double>, AGR<4, 2, double>, 4, 2>); mc::scenario("GR_SVD 2x3 histories", histories<AGR<2, 3, float>, 2, 3>, 2, 3);
#endif
}
MC_MAIN()
