// C12: determinants by every route on all small matrices, permutations and sizes around the algorithm switch, against the
// exact determinant computed in quadruple precision with full pivoting.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/determinant.h>
#ifdef TOON_USE_LAPACK
#include <TooN/LU.h>
#endif
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
// backward-error bound: n^2 perturbed elements times the largest cofactor
static Q bound(const QM& A, double eps) { int n = A.r; Q big = 0; if (n <= 5) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { QM m(n - 1, n - 1); for (int a = 0, x = 0; a < n; ++a) if (a != i) { for (int b = 0, y = 0; b < n; ++b) if (b != j) m(x, y++) = A(a, b); ++x; } big = qmax(big, n == 1 ? Q(1) : qabs(Elim(m).det)); } return Q(eps) * 40 * n * n * (1 << n) * A.maxabs() * big; }
	Elim e(A); return Q(eps) * 400 * n * qabs(e.det) * (e.ok ? A.inf() * e.inv.inf() : Q(1)) + (e.ok ? Q(0) : Q(1)); }
template<class P> struct DT { Ctx& c; const QM& A; Q det, tol; void operator()(const string& f, P got) { c.checkf(qabs(Q(got) - det) <= tol, f, [&] { return f + " of " + qms(A) + " is " + mc::str(got) + ", exact " + qs(det); }); } };
template<class P, class M> void routes(DT<P>& t, const M& m, const string& nm) {
	t("determinant(" + nm + ")", determinant(m)); t("determinant_gaussian_elimination(" + nm + ")", determinant_gaussian_elimination(m));
#ifdef TOON_USE_LAPACK
	if constexpr (!std::is_same<P, LD>::value) { t("determinant_LU(" + nm + ")", determinant_LU(m)); LU<Dynamic, P> lu(m); t("LU<>(" + nm + ").determinant", lu.determinant()); t("LU<>(" + nm + ").determinant again", lu.determinant()); if constexpr (Dim<const M>::Rows > 0 && Dim<const M>::Cols > 0) { LU<Dim<const M>::Rows, P> ls(m); t("LU(" + nm + ").determinant", ls.determinant()); } }
#endif
}
template<class P, int N> void one(Ctx& c, QM A) { // static (when N>0) and run-time owners
	for (auto& e : A.a) e = (P)(LD)e; int n = A.r; Elim e(A); DT<P> t{c, A, e.ok ? e.det : Q(0), bound(A, std::numeric_limits<P>::epsilon())}; c.step(2); c.outcome(e.ok ? (e.det > 0 ? "positive" : "negative") : "singular");
	{ Matrix<Dynamic, Dynamic, P> m(n, n); fromQ(m, A); const auto& cm = m; routes<P>(t, cm, "run-time"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == A(i, j), "input modified"); }
	if constexpr (N > 0) { Matrix<N, N, P> m; fromQ(m, A); routes<P>(t, m, "static"); }
}
template<class P, int N> void kind(Ctx& c, QM A, int k) { for (auto& e : A.a) e = (P)(LD)e; int n = A.r; Elim e(A); DT<P> t{c, A, e.ok ? e.det : Q(0), bound(A, std::numeric_limits<P>::epsilon())}; c.step(); mat_kind<P, N, N>(k, n, n, [&](auto& m, const string& nm) { fromQ(m, A); routes<P>(t, m, nm); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == A(i, j), "input modified"); }); }
static const vector<double> A7{0, 1, -1, 2, -3, 0.5, 1e-20}, A4{0, 1, -2, 3}, A3{0, 1, -2}, A2{0, 1};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
template<class P, int N> void allof(Ctx& c, const vector<double>& al) { uint64_t h = N; QM A = gens::all(c, N, N, al, h); ST(1); one<P, N>(c, A); }
template<class P, int N> void permof(Ctx& c) { uint64_t h = N; QM A = gens::permuted(c, N, 4, h); ST(2); one<P, N>(c, A); }
// n x n: a cyclic shift by s with distinct signs, and the same with one repeated row (singular)
static void large(Ctx& c) { int n = c.of({6, 7, 12, 33, 34, 35, 36, 40}), s = c.pick(5), z = c.pick(3); uint64_t h = n; QM A(n, n); for (int i = 0; i < n; ++i) { A(i, (i + s) % n) = i % 3 ? 1 : -1; if (z == 1 && i) A(i, (i + s + n - 1) % n) = 0.5Q; } int fl = c.pick(2); if (fl) for (int j = 0; j < n; ++j) std::swap(A(0, j), A(n / 2, j)); bool sing = z == 2; if (sing) for (int j = 0; j < n; ++j) A(n - 1, j) = A(0, j); ST(((s * 3 + z) * 2 + fl)); Elim e(A); c.step(2); c.outcome(sing ? "singular" : e.det > 0 ? "positive" : "negative");
	DT<double> t{c, A, sing ? Q(0) : e.det, Q(1e-10)}; Matrix<> m(n, n); fromQ(m, A); routes<double>(t, m, "run-time"); Matrix<Dynamic, Dynamic, double, ColMajor> mc_(n, n); fromQ(mc_, A); routes<double>(t, mc_, "run-time colmajor"); }
void mc_register() {
#if PART == 1
	mc::scenario("all 1x1, 2x2", [](Ctx& c) { if (c.flip()) allof<double, 2>(c, A7); else allof<double, 1>(c, A7); }); mc::scenario("all 3x3", [](Ctx& c) { allof<double, 3>(c, A3); }); mc::scenario("all 3x3 over four values", [](Ctx& c) { allof<double, 3>(c, A4); }, -1, 0); mc::scenario("binary 4x4", [](Ctx& c) { allof<double, 4>(c, A2); });
#elif PART == 2
	mc::scenario("permuted 3x3", permof<double, 3>); mc::scenario("permuted 4x4", permof<double, 4>); mc::scenario("permuted 5x5", permof<double, 5>); mc::scenario("permuted 6x6", permof<double, 6>, -1, 0); mc::scenario("large", large);
#elif PART == 3
	mc::scenario("float", [](Ctx& c) { switch (c.pick(3)) { case 0: allof<float, 2>(c, A7); break; case 1: allof<float, 3>(c, A3); break; case 2: permof<float, 4>(c); } });
#ifndef TOON_USE_LAPACK
 mc::scenario("long double", [](Ctx& c) { switch (c.pick(3)) { case 0: allof<LD, 2>(c, A7); break; case 1: allof<LD, 3>(c, A3); break; case 2: permof<LD, 4>(c); } });
#endif
#elif PART == 4
	mc::scenario("kinds 2x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = gens::all(c, 2, 2, A4, h); ST(3); kind<double, 2>(c, A, k); });
#elif PART == 5
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = gens::permuted(c, 3, 4, h); ST(4); kind<double, 3>(c, A, k); }); mc::scenario("kinds 1x1", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = gens::all(c, 1, 1, A7, h); ST(4); kind<double, 1>(c, A, k); });
#endif
}
MC_MAIN()
