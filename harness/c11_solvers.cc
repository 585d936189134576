// C11: every linear solver on all small matrices over an alphabet (with pivot-forcing tiny elements and permutations),
// against exact solutions computed in quadruple precision with full pivoting; tolerance proportional to conditioning.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
template<class P> struct Sys { Ctx& c; QM A; Elim e; Q cond, tol; bool usable;
	Sys(Ctx& c, const QM& A) : c(c), A(A), e(A), cond(0), tol(0), usable(false) { if (e.ok) { cond = A.inf() * e.inv.inf(); tol = Q(std::numeric_limits<P>::epsilon()) * 60 * (A.r + 2) * cond; usable = tol < 0.05Q; } }
	void cmp(const string& f, const QM& X, const QM& want, Q extra = 1) { if (X.r != want.r || X.c != want.c) c.fail(f, f + ": wrong shape"); for (int j = 0; j < X.c; ++j) { Q m = 0; for (int i = 0; i < X.r; ++i) m = qmax(m, qabs(want(i, j))); for (int i = 0; i < X.r; ++i) c.checkf(qabs(X(i, j) - want(i, j)) <= tol * extra * m, f, [&] { return f + " for A=" + qms(A) + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + qs(X(i, j)) + ", exact " + qs(want(i, j)) + ", condition " + qs(cond); }); } }
	void same(const string& f, const QM& X, const QM& w) { for (size_t i = 0; i < X.a.size(); ++i) c.checkf(X.a[i] == w.a[i], "input modified", [&] { return f + " modified its input"; }); } };
template<class M> M& put(M& m, const QM& q) { fromQ(m, q); return m; }
template<class P> void round_to(QM& m) { for (auto& e : m.a) e = (P)(LD)e; }
static QM rhs(int n, int q, int seed) { return gens::dense(n, q, seed); }
// all call forms of the eliminators with owning operands; N<0: run-time sizes only
template<class P, int N> void eliminate(Ctx& c, QM A) {
	round_to<P>(A); Sys<P> s(c, A); int n = A.r; if (!s.usable) { c.outcome("singular or too ill-conditioned"); return; } c.outcome("solved"); c.step(6);
	QM B = rhs(n, 3, 1), b = rhs(n, 1, 2), I = QM::id(n); QM X = s.e.inv * B, x = s.e.inv * b;
	{ Matrix<Dynamic, Dynamic, P> a(n, n), bb(n, 3), ii(n, n); Vector<Dynamic, P> v(n); put(a, A); put(bb, B); put(ii, I); for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0); const auto& ca = a; const auto& cb = bb; const auto& cv = v;
		s.cmp("gaussian_elimination(A,v) run-time", toQv(gaussian_elimination(ca, cv)), x); s.cmp("gaussian_elimination(A,B) run-time", toQ(gaussian_elimination(ca, cb)), X); s.cmp("gaussian_elimination(A,I) run-time", toQ(gaussian_elimination(ca, ii)), s.e.inv); s.same("gaussian_elimination", toQ(a), A); s.same("gaussian_elimination", toQ(bb), B); s.same("gaussian_elimination", toQv(v), b); }
	if constexpr (N > 0) { Matrix<N, N, P> a; Matrix<N, 3, P> bb; Matrix<Dynamic, 3, P> bd(n, 3); Matrix<N, Dynamic, P> be(n, 3); Matrix<Dynamic, Dynamic, P> ad(n, n); Vector<N, P> v; put(a, A); put(ad, A); put(bb, B); put(bd, B); put(be, B); for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0);
		s.cmp("gaussian_elimination(A,v)", toQv(gaussian_elimination(a, v)), x); s.cmp("gaussian_elimination(A,B)", toQ(gaussian_elimination(a, bb)), X); s.cmp("gaussian_elimination(A,B run-time rows)", toQ(gaussian_elimination(a, bd)), X); s.cmp("gaussian_elimination(A,B run-time columns)", toQ(gaussian_elimination(a, be)), X); s.cmp("gaussian_elimination(A run-time,B)", toQ(gaussian_elimination(ad, bb)), X); s.same("gaussian_elimination", toQ(a), A); s.same("gaussian_elimination", toQv(v), b);
		if constexpr (N == 2 && std::is_same<P, double>::value) s.cmp("inv", toQ(inv(a)), s.e.inv); }
}
template<class P, int N, int K> void jordan(Ctx& c, QM A, int kind) { // [A|B] in every storage kind
	round_to<P>(A); Sys<P> s(c, A); int n = A.r; if (!s.usable) return; c.step();
	QM B = K == n ? QM::id(n) : rhs(n, K, 3), X = s.e.inv * B;
	mat_kind<P, N, (N < 0 ? -2 : N + K)>(kind, n, n + K, [&](auto& m, const string& nm) { for (int i = 0; i < n; ++i) for (int j = 0; j < n + K; ++j) m(i, j) = (P)(LD)(j < n ? A(i, j) : B(i, j - n)); gauss_jordan(m); QM g(n, K); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.checkf(m(i, j) == (i == j), "gauss_jordan left half", [&] { return "gauss_jordan(" + nm + "): element (" + mc::str(i) + "," + mc::str(j) + ") of the left half is " + mc::str(m(i, j)); }); for (int i = 0; i < n; ++i) for (int j = 0; j < K; ++j) g(i, j) = m(i, n + j); s.cmp("gauss_jordan(" + nm + ")", g, X, 4); });
}
template<class P, int S, class M> void lu_one(Ctx& c, Sys<P>& s, const M& m, const string& nm) {
	int n = s.A.r; LU<S, P> lu(m); QM f(toQ(lu.get_lu())); c.checkf(lu.get_info() == 0, "LU info", [&] { return "get_info() is " + mc::str(lu.get_info()) + " for a non-singular matrix"; });
	if (f.r != n || f.c != n) c.fail("LU factors", "get_lu has the wrong shape");
	// the factors, read row-major: lower triangle with diagonal times unit upper triangle is the matrix with its columns permuted
	QM L(n, n), U = QM::id(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (j <= i ? L : U)(i, j) = f(i, j); QM R = L * U; vector<bool> used(n); Q tol = Q(std::numeric_limits<P>::epsilon()) * 60 * n * s.A.maxabs() * (1 << n);
	for (int j = 0; j < n; ++j) { int hit = -1; for (int k = 0; k < n && hit < 0; ++k) if (!used[k]) { bool ok = true; for (int i = 0; i < n; ++i) ok = ok && qabs(R(i, j) - s.A(i, k)) <= tol; if (ok) hit = k; } c.checkf(hit >= 0, "LU factors", [&] { return "LU(" + nm + ") of " + qms(s.A) + ": column " + mc::str(j) + " of the product of the factors " + qms(R) + " is no column of the matrix"; }); used[hit] = true; }
	QM B = rhs(n, 3, 1), b = rhs(n, 1, 2), X = s.e.inv * B, x = s.e.inv * b; Matrix<Dynamic, Dynamic, P> bd(n, 3); put(bd, B); Matrix<Dynamic, 3, P, ColMajor> bc(n, 3); put(bc, B); Vector<Dynamic, P> v(n); for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0);
	s.cmp("LU(" + nm + ").backsub(vector)", toQv(lu.backsub(v)), x); s.cmp("LU(" + nm + ").backsub(run-time matrix)", toQ(lu.backsub(bd)), X); s.cmp("LU(" + nm + ").backsub(colmajor matrix)", toQ(lu.backsub(bc)), X); s.cmp("LU(" + nm + ").get_inverse", toQ(lu.get_inverse()), s.e.inv); s.cmp("LU(" + nm + ").backsub again", toQv(lu.backsub(v)), x); s.same("LU backsub", toQ(bd), B);
	Q det = lu.determinant(); s.c.checkf(qabs(det - s.e.det) <= s.tol * 4 * qabs(s.e.det), "LU determinant", [&] { return "LU(" + nm + ").determinant of " + qms(s.A) + " is " + qs(det) + ", exact " + qs(s.e.det); });
	if constexpr (S > 0) { Matrix<S, 3, P> bb; put(bb, B); s.cmp("LU(" + nm + ").backsub(matrix)", toQ(lu.backsub(bb)), X); Matrix<S, 1, P> b1; put(b1, b); s.cmp("LU(" + nm + ").backsub(one column)", toQ(lu.backsub(b1)), x); Matrix<S, S, P> mi; put(mi, QM::id(n)); s.cmp("LU(" + nm + ").backsub(I)", toQ(lu.backsub(mi)), s.e.inv); Vector<S, P> sv; for (int i = 0; i < n; ++i) sv[i] = (P)(LD)b(i, 0); s.cmp("LU(" + nm + ").backsub(static vector)", toQv(lu.backsub(sv)), x); }
}
template<class P, int N> void lu_owned(Ctx& c, QM A) { round_to<P>(A); Sys<P> s(c, A); int n = A.r; if (!s.usable) { c.outcome("singular or too ill-conditioned"); return; } c.outcome("solved"); c.step(8); Matrix<Dynamic, Dynamic, P> d(n, n); put(d, A); lu_one<P, Dynamic>(c, s, d, "run-time"); s.same("LU", toQ(d), A); if constexpr (N > 0) { Matrix<N, N, P> m; put(m, A); lu_one<P, N>(c, s, m, "static"); } }
template<class P, int N> void lu_kinds(Ctx& c, QM A, int kind, int vk) { round_to<P>(A); Sys<P> s(c, A); int n = A.r; if (!s.usable) return; c.step(4);
	mat_kind<P, N, N>(kind, n, n, [&](auto& m, const string& nm) { put(m, A); LU<N, P> lu(m); LU<Dynamic, P> ld(m); QM b = rhs(n, 1, 5), x = s.e.inv * b; s.cmp("LU(" + nm + ").get_inverse", toQ(lu.get_inverse()), s.e.inv); s.cmp("LU<>(" + nm + ").get_inverse", toQ(ld.get_inverse()), s.e.inv);
		vec_kind<P, N>(vk, n, [&](auto& v, const string& vn) { for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0); s.cmp("LU.backsub(" + vn + ")", toQv(lu.backsub(v)), x); s.cmp("LU<>.backsub(" + vn + ")", toQv(ld.backsub(v)), x); s.same("LU.backsub", toQv(v), b); });
		mat_kind<P, N, 2>(kind, n, 2, [&](auto& w, const string& wn) { QM B = rhs(n, 2, 7); put(w, B); s.cmp("LU.backsub(" + wn + ")", toQ(lu.backsub(w)), s.e.inv * B); s.cmp("LU<>.backsub(" + wn + ")", toQ(ld.backsub(w)), s.e.inv * B); s.same("LU.backsub", toQ(w), B); }); s.same("LU", toQ(m), A); });
}
static const vector<double> A5{0, 1, -2, 3, 1e-20}, A4{0, 1, -2, 1e-9}, A3{0, 1, -2}, A2{0, 1};
#define ST(h, x) c.state(mc::mix(h, x))
template<class P> QM fam(Ctx& c, int n, int f, uint64_t& h) { switch (f) { case 0: return gens::all(c, n, n, A5, h); case 1: return gens::all(c, n, n, A3, h); case 2: return gens::permuted(c, n, 4, h); case 4: { int s = c.pick(24); h = mc::mix(h, s); return gens::dense(n, n, s); } case 5: return gens::all(c, n, n, A4, h); default: return gens::all(c, n, n, A2, h); } }
template<class P, int N, int F, bool L> void run(Ctx& c) { uint64_t h = N * 100 + F; int n = N; QM A = fam<P>(c, n, F, h); c.logf("A=%s", qms(A).c_str()); ST(h, L); if constexpr (L) lu_owned<P, N>(c, A); else { eliminate<P, N>(c, A); jordan<P, -2, N>(c, A, 2); jordan<P, -2, 1>(c, A, 3); } }
template<class P, int F, bool L> void rund(Ctx& c, int n) { uint64_t h = n * 100 + F + 7777; QM A = fam<P>(c, n, F, h); c.logf("A=%s", qms(A).c_str()); ST(h, L); if constexpr (L) lu_owned<P, -2>(c, A); else { eliminate<P, -2>(c, A); jordan<P, -2, 2>(c, A, c.flip() ? 2 : 9); } }
void mc_register() {
#if PART == 1
	mc::scenario("elimination 1x1, 2x2", [](Ctx& c) { if (c.flip()) run<double, 2, 0, false>(c); else run<double, 1, 0, false>(c); }); mc::scenario("elimination 3x3", run<double, 3, 1, false>);
#elif PART == 2
	mc::scenario("elimination 3x3 permuted", run<double, 3, 2, false>); mc::scenario("elimination 4x4 permuted", run<double, 4, 2, false>); mc::scenario("elimination run-time binary 4x4", [](Ctx& c) { rund<double, 3, false>(c, 4); }, -1, 0); mc::scenario("elimination run-time permuted", [](Ctx& c) { rund<double, 2, false>(c, 5 + c.pick(c.depth)); }, 1, 3); mc::scenario("elimination run-time dense", [](Ctx& c) { rund<double, 4, false>(c, 2 + c.pick(c.depth)); }, 10, 20); mc::scenario("elimination run-time 3x3 with tiny elements", [](Ctx& c) { rund<double, 5, false>(c, 3); }, -1, 0);
#elif PART == 3
	mc::scenario("elimination long double", [](Ctx& c) { if (c.flip()) run<LD, 2, 0, false>(c); else run<LD, 3, 2, false>(c); }); mc::scenario("elimination float", [](Ctx& c) { if (c.flip()) run<float, 2, 0, false>(c); else run<float, 3, 2, false>(c); });
#elif PART == 4
	mc::scenario("gauss_jordan kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = fam<double>(c, 3, 2, h); ST(h, 5); jordan<double, 3, 3>(c, A, k); }); mc::scenario("gauss_jordan kinds 2x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k + 50; QM A = fam<double>(c, 2, 0, h); ST(h, 6); jordan<double, 2, 1>(c, A, k); }); mc::scenario("gauss_jordan run-time", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k + 90; QM A = fam<double>(c, 4, 2, h); ST(h, 6); jordan<double, -2, 0>(c, A, k); jordan<double, -2, 5>(c, A, k); });
#elif PART == 5
	mc::scenario("LU 1x1, 2x2", [](Ctx& c) { if (c.flip()) run<double, 2, 0, true>(c); else run<double, 1, 0, true>(c); }); mc::scenario("LU 3x3", run<double, 3, 1, true>);
#elif PART == 6
	mc::scenario("LU 4x4 permuted", run<double, 4, 2, true>); mc::scenario("LU run-time binary 4x4", [](Ctx& c) { rund<double, 3, true>(c, 4); }, -1, 0); mc::scenario("LU run-time permuted", [](Ctx& c) { rund<double, 2, true>(c, 5 + c.pick(c.depth)); }, 1, 3); mc::scenario("LU run-time dense", [](Ctx& c) { rund<double, 4, true>(c, 2 + c.pick(c.depth)); }, 10, 20); mc::scenario("LU run-time 3x3 with tiny elements", [](Ctx& c) { rund<double, 5, true>(c, 3); }, -1, 0); mc::scenario("LU float", [](Ctx& c) { if (c.flip()) run<float, 2, 0, true>(c); else run<float, 3, 2, true>(c); });
#elif PART == 7
	mc::scenario("LU kinds 2x2", [](Ctx& c) { int k = c.pick(MK), v = c.pick(VK); uint64_t h = k * 9 + v; QM A = fam<double>(c, 2, 2, h); ST(h, 7); lu_kinds<double, 2>(c, A, k, v); });
#elif PART == 8
	mc::scenario("LU kinds 3x3", [](Ctx& c) { int k = c.pick(MK), v = c.pick(VK); uint64_t h = k * 9 + v; QM A = fam<double>(c, 3, 2, h); ST(h, 8); lu_kinds<double, 3>(c, A, k, v); });
#endif
}
MC_MAIN()
