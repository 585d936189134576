// C14: both QR decompositions on all small matrices (triangular, singular, with zero columns) and storage kinds.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
template<class P, class D, class PV> void verify(Ctx& c, const QM& A, D& d, const string& nm, PV perm, bool pivoted) {
	int r = A.r, q = A.c; Q eps = std::numeric_limits<P>::epsilon(); QM R = toQ(d.get_R()), Qm = toQ(d.get_Q()); auto where = [&] { return nm + " of " + qms(A) + ": "; };
	c.checkf(R.r == r && R.c == q && Qm.r == r && Qm.c == r, "shape", [&] { return where() + "Q is " + mc::str(Qm.r) + "x" + mc::str(Qm.c) + ", R is " + mc::str(R.r) + "x" + mc::str(R.c); });
	QM I = Qm.T() * Qm, J = Qm * Qm.T(); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) c.checkf(qabs(I(i, j) - (i == j)) <= eps * 40 * (r + 2) && qabs(J(i, j) - (i == j)) <= eps * 40 * (r + 2), "Q orthonormal", [&] { return where() + "Q is not orthonormal: " + qms(Qm); });
	for (int i = 0; i < r; ++i) for (int j = 0; j < i && j < q; ++j) c.checkf(R(i, j) == 0, "R triangular", [&] { return where() + "R is " + qms(R); });
	QM X = Qm * R; vector<bool> used(q); for (int j = 0; j < q; ++j) { int s = perm(j); c.checkf(s >= 0 && s < q && !used[s], "permutation", [&] { return where() + "the reported column order is not a permutation"; }); used[s] = true; for (int i = 0; i < r; ++i) c.checkf(qabs(X(i, j) - A(i, s)) <= eps * 40 * (r + 2) * A.maxabs(), "Q*R", [&] { return where() + "Q*R = " + qms(X) + ", Q = " + qms(Qm) + ", R = " + qms(R); }); }
	if (pivoted) for (int i = 1; i < r && i < q; ++i) c.checkf(qabs(R(i, i)) <= qabs(R(i - 1, i - 1)) + eps * 40 * (r + 2) * A.maxabs(), "diagonal order", [&] { return where() + "the diagonal of R grows: " + qms(R); });
}
template<class P, int R, int C, class M> void both(Ctx& c, const QM& A, const M& m, const string& nm) {
	{ QR<R, C, P> d(m); verify<P>(c, A, d, "QR " + nm, [](int j) { return j; }, false); }
	if constexpr (!std::is_same<P, LD>::value) for (int p = 0; p < 2; ++p) { QR_Lapack<R, C, P> d(m, p); auto& v = d.get_P(); verify<P>(c, A, d, (p ? "pivoting QR_Lapack " : "QR_Lapack ") + nm, [&](int j) { return p ? v[j] : j; }, p); if (!p) for (int j = 0; j < v.size(); ++j) c.check(v[j] == j, "permutation", "without pivoting get_P must be the identity"); }
	for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) c.check(Q(m(i, j)) == A(i, j), "input modified");
}
template<class P> void rnd(QM& A) { for (auto& x : A.a) x = (P)(LD)x; }
template<class P, int R, int C> void owned(Ctx& c, QM A) { rnd<P>(A); c.step(3); { Matrix<Dynamic, Dynamic, P> m(A.r, A.c); fromQ(m, A); both<P, Dynamic, Dynamic>(c, A, m, "run-time"); } if constexpr (R > 0) { Matrix<R, C, P> m; fromQ(m, A); both<P, R, C>(c, A, m, "static"); } }
template<class P, int R, int C> void kind(Ctx& c, QM A, int k) { rnd<P>(A); c.step(3); mat_kind<P, R, C>(k, A.r, A.c, [&](auto& m, const string& nm) { fromQ(m, A); both<P, (R > 0 ? R : Dynamic), (C > 0 ? C : Dynamic)>(c, A, m, nm); if constexpr (R > 0) both<P, Dynamic, Dynamic>(c, A, m, nm + " in run-time"); }); }
static const vector<double> A5{0, 1, -2, 1e-9, 3}, A3{0, 1, -2}, A2{0, 1};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
template<int R, int C> void all(Ctx& c, const vector<double>& al) { uint64_t h = R * 10 + C; QM A = gens::all(c, R, C, al, h); ST(1); owned<double, R, C>(c, A); }
// structured: dense, upper triangular, lower triangular, with columns zeroed / duplicated, badly scaled
static QM family(Ctx& c, int r, int q, uint64_t& h) { int s = c.pick(6), f = c.pick(7), z = c.pick(q); h = mc::mix(h, (s * 7 + f) * 20 + z); QM A = gens::dense(r, q, s); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { Q& x = A(i, j); if (f == 1 && i > j) x = 0; if (f == 2 && i < j) x = 0; if (f == 3 && j == z) x = 0; if (f == 4 && j == z) x = A(i, 0); if (f == 5 && i > j) x *= 1e-12Q; if (f == 6) x *= Q(1) / (1 << (3 * ((i + j + z) % 8))); } return A; }
void mc_register() {
#if PART == 1
	mc::scenario("all 2x2", [](Ctx& c) { all<2, 2>(c, A5); }); mc::scenario("all 3x3", [](Ctx& c) { all<3, 3>(c, A3); }); mc::scenario("all 1x1", [](Ctx& c) { all<1, 1>(c, A5); });
#elif PART == 2
	mc::scenario("all 2x3", [](Ctx& c) { all<2, 3>(c, A3); }); mc::scenario("all 1x3", [](Ctx& c) { all<1, 3>(c, A5); }); mc::scenario("binary 3x4", [](Ctx& c) { all<3, 4>(c, A2); }); mc::scenario("all 3x4", [](Ctx& c) { all<3, 4>(c, A3); }, -1, 0);
#elif PART == 3
	mc::scenario("families", [](Ctx& c) { int r = 1 + c.pick(c.depth), q = r + c.pick(3); uint64_t h = r * 30 + q; QM A = family(c, r, q, h); ST(2); owned<double, -2, -2>(c, A); }, 7, 12); mc::scenario("families 4x4", [](Ctx& c) { uint64_t h = 9; QM A = family(c, 4, 4, h); ST(3); owned<double, 4, 4>(c, A); });
#elif PART == 4
	mc::scenario("float", [](Ctx& c) { uint64_t h = 4; QM A = c.flip() ? gens::all(c, 2, 2, A5, h) : family(c, 3, 4, h); ST(A.c); if (A.r == 2) owned<float, 2, 2>(c, A); else owned<float, 3, 4>(c, A); }); mc::scenario("long double", [](Ctx& c) { uint64_t h = 5; QM A = c.flip() ? gens::all(c, 2, 2, A5, h) : family(c, 3, 4, h); ST(A.c); if (A.r == 2) owned<LD, 2, 2>(c, A); else owned<LD, 3, 4>(c, A); });
#elif PART == 5
	mc::scenario("kinds 2x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = gens::all(c, 2, 2, A3, h); ST(6); kind<double, 2, 2>(c, A, k); });
#elif PART == 6
	mc::scenario("kinds 2x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k + 100; QM A = family(c, 2, 3, h); ST(7); kind<double, 2, 3>(c, A, k); });
#elif PART == 7
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k + 200; QM A = family(c, 3, 3, h); ST(8); kind<double, 3, 3>(c, A, k); });
#endif
}
MC_MAIN()
