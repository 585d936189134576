// C15: every singular value decomposition on all small matrices of all shapes and ranks and storage kinds, against the defining
// equations and the Moore-Penrose inverse computed in quadruple precision.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds;
struct Ref { QM A; PInv pi; Q norm, cond; Ref(const QM& A) : A(A), pi(A), norm(A.fro()), cond(norm * pi.p.fro()) {} };
template<class P> struct T { Ctx& c; const Ref& R; string nm; Q eps = std::numeric_limits<P>::epsilon(); Q k() const { return eps * 60 * (R.A.r + R.A.c); }
	void mat(const string& f, const QM& X, const QM& w, Q tol) { c.checkf(X.r == w.r && X.c == w.c, f, [&] { return f + " (" + nm + "): wrong shape"; }); for (int i = 0; i < X.r; ++i) for (int j = 0; j < X.c; ++j) c.checkf(qabs(X(i, j) - w(i, j)) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(R.A) + " is " + qms(X) + ", expected " + qms(w); }); }
	void num(const string& f, Q got, Q want, Q tol) { c.checkf(qabs(got - want) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(R.A) + " is " + qs(got) + ", expected " + qs(want); }); }
	void orth(const string& f, const QM& X) { mat(f, X.T() * X, QM::id(X.c), k()); }
	Q ptol() const { return k() * 2 * qmax(R.cond, 1) * R.pi.p.fro(); } };
static QM rhs(int n, int q, int s) { return gens::dense(n, q, s); }
template<class P, class D> void solves(T<P>& t, D& d, P cond, int r, bool deflt) { // pseudo-inverse and back-substitution
	QM b = rhs(r, 1, 2), B = rhs(r, 3, 1); Vector<Dynamic, P> v(r); for (int i = 0; i < r; ++i) v[i] = (P)(long double)b(i, 0); Matrix<Dynamic, 3, P, ColMajor> m(r, 3); fromQ(m, B); Q pt = t.ptol();
	t.mat("get_pinv", toQ(d.get_pinv(cond)), t.R.pi.p, pt); t.mat("backsub(vector)", toQv(d.backsub(v, cond)), t.R.pi.p * b, pt * 10 * r); t.mat("backsub(matrix)", toQ(d.backsub(m, cond)), t.R.pi.p * B, pt * 10 * r);
	if (deflt) { t.mat("get_pinv()", toQ(d.get_pinv()), t.R.pi.p, pt); t.mat("backsub(vector) again", toQv(d.backsub(v)), t.R.pi.p * b, pt * 10 * r); t.mat("backsub(matrix) again", toQ(d.backsub(m)), t.R.pi.p * B, pt * 10 * r); } }
template<class P, class D> void svd(Ctx& c, const Ref& R, D& d, const string& nm) {
	T<P> t{c, R, nm}; int r = R.A.r, q = R.A.c, k = std::min(r, q); QM U = toQ(d.get_U()), V = toQ(d.get_VT()); auto& s = d.get_diagonal();
	c.checkf(U.r == r && U.c == k && V.r == k && V.c == q && s.size() == k, "shape", [&] { return nm + ": factor shapes"; }); t.orth("U^T U", U); t.orth("V^T V", V.T());
	QM S(k, k); for (int i = 0; i < k; ++i) { S(i, i) = s[i]; c.checkf(s[i] >= 0, "negative singular value", [&] { return nm + " of " + qms(R.A); }); if (i) c.checkf(s[i] <= s[i - 1], "order", [&] { return nm + " of " + qms(R.A) + ": singular values not in descending order"; }); }
	t.mat("U D V^T", U * S * V, R.A, t.k() * qmax(R.norm, 1e-300Q)); bool dbl = sizeof(P) == 8; P cond = dbl ? P(1e9) : P(2e4); if (R.cond * 4 > Q(cond)) return;
	c.checkf(d.rank(cond) == R.pi.rank, "rank", [&] { return "rank (" + nm + ") of " + qms(R.A) + " is " + mc::str(d.rank(cond)) + ", exact " + mc::str(R.pi.rank); }); if (dbl) c.checkf(d.rank() == R.pi.rank, "rank", [&] { return "rank() (" + nm + ") of " + qms(R.A) + " is " + mc::str(d.rank()) + ", exact " + mc::str(R.pi.rank); });
	solves<P>(t, d, cond, r, dbl); Q pr = 1; for (int i = 0; i < k; ++i) pr *= s[i]; t.num("determinant", d.determinant(), pr, t.k() * qabs(pr)); if (r == q) { Q dt = qabs(Elim(R.A).det); Q bound = t.k() * 4; for (int i = 0; i < k; ++i) bound *= i + 1 < k ? qmax(R.norm, 1) : 1; t.num("|determinant|", d.determinant(), dt, bound * qmax(R.norm, 1)); }
}
template<class P, int M, int N, bool WU, bool WV, class X> void grsvd(Ctx& c, const Ref& R, const X& m, const string& nm, bool reorder) {
	T<P> t{c, R, "GR_SVD " + nm + (reorder ? " reordered" : "")}; GR_SVD<M, N, P, WU, WV> d(m); if (reorder) d.reorder(); auto& s = d.get_diagonal(); P lo = s[0], hi = s[0]; int li = 0; for (int i = 0; i < N; ++i) { c.checkf(s[i] >= 0, "negative singular value", [&] { return t.nm + " of " + qms(R.A); }); if (s[i] < lo) { lo = s[i]; li = i; } if (s[i] > hi) hi = s[i]; if (reorder && i) c.checkf(s[i] <= s[i - 1], "order", [&] { return t.nm + " of " + qms(R.A); }); }
	c.check(d.get_largest_singular_value() == hi, "get_largest_singular_value"); c.check(d.get_smallest_singular_value() == lo, "get_smallest_singular_value"); c.check(s[d.get_smallest_singular_value_index()] == lo && d.get_smallest_singular_value_index() == li, "get_smallest_singular_value_index");
	// singular values without vectors: sums of squares of A and of A^T A
	Q f2 = 0, f4 = 0; for (int i = 0; i < N; ++i) { Q z = Q(s[i]) * s[i]; f2 += z; f4 += z * z; } QM G = R.A.T() * R.A; Q g = G.fro(); t.num("sum of squared singular values", f2, R.norm * R.norm, t.k() * 2 * R.norm * R.norm); t.num("sum of fourth powers of singular values", f4, g * g, t.k() * 4 * g * g);
	if constexpr (WU) { QM U = toQ(d.get_U()); if (M >= N) t.orth("U^T U", U); else t.orth("U U^T", U.T()); }
	if constexpr (WV) { QM V = toQ(d.get_V()); t.orth("V^T V", V); t.orth("V V^T", V.T()); }
	if constexpr (!WU) { bool th = false; try { d.get_U(); } catch (int) { th = true; } c.check(th, "get_U", "get_U must throw when U was not wanted"); }
	if constexpr (!WV) { bool th = false; try { d.get_V(); } catch (int) { th = true; } c.check(th, "get_V", "get_V must throw when V was not wanted"); }
	if constexpr (WU && WV) { QM S(N, N); for (int i = 0; i < N; ++i) S(i, i) = s[i]; t.mat("U D V^T", toQ(d.get_U()) * S * toQ(d.get_V()).T(), R.A, t.k() * qmax(R.norm, 1e-300Q)); bool dbl = sizeof(P) == 8; P cond = dbl ? P(1e9) : P(2e4); if (R.cond * 4 <= Q(cond)) { solves<P>(t, d, cond, M, dbl);
		Vector<N, P> iv; d.get_inv_diag(iv, cond); for (int i = 0; i < N; ++i) { bool neg = !(Q(s[i]) * cond > Q(hi)); t.num("get_inv_diag", iv[i], neg ? Q(0) : 1 / Q(s[i]), neg ? Q(0) : 4 * t.eps / Q(s[i])); } } }
}
template<class P> QM rnd(QM A) { for (auto& x : A.a) x = (P)(long double)x; return A; }
template<class P, int M, int N> void owned(Ctx& c, QM A0) {
	Ref R(rnd<P>(A0)); int r = A0.r, q = A0.c; c.step(4); c.outcome("rank " + mc::str(R.pi.rank)); Matrix<Dynamic, Dynamic, P> m(r, q); fromQ(m, A0); { SVD<Dynamic, Dynamic, P> d(m); svd<P>(c, R, d, "SVD<>"); SVD<Dynamic, Dynamic, P> e(r, q); e.compute(m); svd<P>(c, R, e, "SVD<> computed"); }
	if constexpr (M > 0) { Matrix<M, N, P> s; fromQ(s, A0); { SVD<M, N, P> d(s); svd<P>(c, R, d, "SVD"); SVD<M, Dynamic, P> g(s); svd<P>(c, R, g, "SVD<M,Dynamic>"); SVD<Dynamic, N, P> h(m); svd<P>(c, R, h, "SVD<Dynamic,N>"); } if constexpr (M == N) { SQSVD<M, P> d(s); svd<P>(c, R, d, "SQSVD"); } grsvd<P, M, N, true, true>(c, R, s, "static", c.flip()); }
	for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) c.check(m(i, j) == (P)(long double)R.A(i, j), "input modified");
}
template<class P, int M, int N> void parts_(Ctx& c, QM A0) { Ref R(rnd<P>(A0)); Matrix<M, N, P> s; fromQ(s, A0); c.step(); bool ro = c.flip(); switch (c.pick(4)) { case 0: grsvd<P, M, N, true, true>(c, R, s, "both", ro); break; case 1: grsvd<P, M, N, false, true>(c, R, s, "V only", ro); break; case 2: grsvd<P, M, N, true, false>(c, R, s, "U only", ro); break; case 3: grsvd<P, M, N, false, false>(c, R, s, "values only", ro); } }
template<class P, int M, int N> void kind(Ctx& c, QM A0, int k) { Ref R(rnd<P>(A0)); int r = A0.r, q = A0.c; c.step(3); mat_kind<P, M, N>(k, r, q, [&](auto& m, const string& nm) { typedef std::remove_reference_t<decltype(m)> X; fromQ(m, A0); { SVD<M, N, P> d(m); svd<P>(c, R, d, "SVD of " + nm); } { SVD<Dynamic, Dynamic, P> d(m); svd<P>(c, R, d, "SVD<> of " + nm); } if constexpr (Dim<X>::Rows == M && Dim<X>::Cols == N) grsvd<P, M, N, true, true>(c, R, m, nm, false); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) c.check(Q(m(i, j)) == R.A(i, j), "input modified");
	{ SVD<M, N, P> d(m); int vk = c.pick(VK + MK); QM b = rhs(r, 1, 2), B = rhs(r, 2, 4); T<P> t{c, R, "SVD"}; Q pt = t.ptol() * 10 * r; if (vk < VK) vec_kind<P, M>(vk, r, [&](auto& v, const string& n) { for (int i = 0; i < r; ++i) v[i] = (P)(long double)b(i, 0); t.mat("backsub(" + n + ")", toQv(d.backsub(v)), R.pi.p * b, pt); }); else mat_kind<P, M, 2>(vk - VK, r, 2, [&](auto& w, const string& n) { fromQ(w, B); t.mat("backsub(" + n + ")", toQ(d.backsub(w)), R.pi.p * B, pt); }); } }); }
// singular values a, b, e at prescribed ratios on both sides of the negligibility threshold
static void threshold(Ctx& c) { double cd = c.of({1e9, 1e3, 10.0}); int i = c.pick(5), j = c.pick(5), p = c.pick(3), rot = c.pick(2); double rat[] = {1.01, 0.99, 100, 0.01, 0}; double big = c.of({1.0, 1e-3, 512.0}); QM D(3, 3); double v[3] = {big, big / cd * rat[i], big / cd * rat[j]}; for (int k = 0; k < 3; ++k) D(k, k) = v[(k + p) % 3]; if (rot) { QM H(3, 3); int w[3] = {1, 2, 2}; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H(a, b) = (a == b) - Q(2 * w[a] * w[b]) / 9; D = H * D; }
	if (cd == 1e9 && rot && false) return; int want = 0; for (double x : v) want += x * cd > v[0] * (1 + 1e-12) || (x == v[0]); if (v[1] > v[0] || v[2] > v[0]) throw mc::Prune(); c.step(); c.state((((i * 5 + j) * 3 + p) * 2 + rot) * 100 + (int)std::log10(cd) + (int)big % 7 * 10);
	Matrix<3> m; fromQ(m, D); SVD<3> d(m); GR_SVD<3> g(m); c.checkf(d.rank(cd) == want, "rank", [&] { return "rank(" + mc::str(cd) + ") of " + qms(D) + " is " + mc::str(d.rank(cd)) + ", expected " + mc::str(want); });
	Matrix<3> ps = d.get_pinv(cd), pg = g.get_pinv(cd); Vector<3> iv; d.get_inv_diag(iv, cd); int nz = 0; for (int k = 0; k < 3; ++k) nz += iv[k] != 0; c.check(nz == want, "get_inv_diag", "wrong number of retained singular values"); QM K(3, 3), sv = toQv(d.get_diagonal()); for (int k = 0; k < 3; ++k) if (iv[k] != 0) K(k, k) = sv(k, 0);
	QM Ak = toQ(d.get_U()) * K * toQ(d.get_VT()); for (auto* q : {&ps, &pg}) { QM X = toQ(*q), Y = X * toQ(m) * X; Q tol = 1e-12Q * X.maxabs() * 9 * (want > 1 ? Q(cd) * 1e-3Q + 100 : 100); for (size_t a = 0; a < X.a.size(); ++a) c.checkf(qabs(X.a[a] - Y.a[a]) <= tol, "pinv", [&] { return "X A X != X for the pseudo-inverse of " + qms(D); }); Q tr = 0; QM XA = X * toQ(m); for (int k = 0; k < 3; ++k) tr += XA(k, k); c.checkf(qabs(tr - want) < 1e-3Q, "pinv rank", [&] { return "the pseudo-inverse of " + qms(D) + " retains " + qs(tr) + " values, expected " + mc::str(want); }); } }
static const vector<double> A4{0, 1, -2, 3}, A3{0, 1, -2}, A2{0, 1};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
template<class P, int M, int N> void all(Ctx& c, const vector<double>& al) { uint64_t h = M * 10 + N; QM A = gens::all(c, M, N, al, h); ST(1); owned<P, M, N>(c, A); }
template<class P, int M, int N> void allgr(Ctx& c, const vector<double>& al) { uint64_t h = M * 10 + N; QM A = gens::all(c, M, N, al, h); ST(2); Ref R(A); Matrix<M, N, P> s; fromQ(s, A); c.step(); grsvd<P, M, N, true, true>(c, R, s, "static", false); }
static QM family(Ctx& c, int r, int q, uint64_t& h) { int s = c.pick(5), f = c.pick(7), z = c.pick(q); h = mc::mix(h, (s * 7 + f) * 20 + z); QM A = gens::dense(r, q, s); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { Q& x = A(i, j); if (f == 1 && i > j) x = 0; if (f == 2 && (i + z) % q != j) x = 0; if (f == 3 && j == z) x = 0; if (f == 4 && j == z) x = A(i, 0); if (f == 5) x = (i + 1) * (j % 3 + 1); if (f == 6) x *= Q(1) / (1 << (2 * ((i + j + z) % 6))); } return A; }
void mc_register() {
#if PART == 1
	mc::scenario("all 1x1, 2x2", [](Ctx& c) { if (c.flip()) all<double, 2, 2>(c, A4); else all<double, 1, 1>(c, A4); }); mc::scenario("all 2x3", [](Ctx& c) { all<double, 2, 3>(c, A3); });
#elif PART == 2
	mc::scenario("all 3x2", [](Ctx& c) { all<double, 3, 2>(c, A3); }); mc::scenario("all 1x3", [](Ctx& c) { all<double, 1, 3>(c, A4); });
#elif PART == 3
	mc::scenario("binary 3x3", [](Ctx& c) { all<double, 3, 3>(c, A2); }); mc::scenario("all 3x3", [](Ctx& c) { all<double, 3, 3>(c, A3); }, -1, 0); mc::scenario("all 3x1", [](Ctx& c) { all<double, 3, 1>(c, A4); });
#elif PART == 4
	mc::scenario("native 3x3", [](Ctx& c) { allgr<double, 3, 3>(c, A3); }); mc::scenario("native 4x2", [](Ctx& c) { allgr<double, 4, 2>(c, A2); }); mc::scenario("native binary 4x4", [](Ctx& c) { allgr<double, 4, 4>(c, A2); }, -1, 0); mc::scenario("native 2x4", [](Ctx& c) { allgr<double, 2, 4>(c, A3); }); mc::scenario("thresholds", threshold);
#elif PART == 5
	mc::scenario("native parts 3x3", [](Ctx& c) { uint64_t h = 5; QM A = family(c, 3, 3, h); ST(5); parts_<double, 3, 3>(c, A); }); mc::scenario("native parts 4x3", [](Ctx& c) { uint64_t h = 6; QM A = family(c, 4, 3, h); ST(6); parts_<double, 4, 3>(c, A); });
#elif PART == 6
	mc::scenario("families run-time", [](Ctx& c) { int r = 1 + c.pick(c.depth), q = 1 + c.pick(c.depth); uint64_t h = r * 30 + q; QM A = family(c, r, q, h); ST(7); owned<double, -2, -2>(c, A); }, 5, 8); mc::scenario("families 4x4", [](Ctx& c) { uint64_t h = 8; QM A = family(c, 4, 4, h); ST(8); owned<double, 4, 4>(c, A); });
#elif PART == 7
	mc::scenario("float", [](Ctx& c) { switch (c.pick(2)) { case 0: all<float, 2, 2>(c, A4); break; case 1: { uint64_t h = 9; QM A = family(c, 3, 2, h); ST(9); owned<float, 3, 2>(c, A); } } });
#elif PART == 8
	mc::scenario("kinds 2x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 2, 3, h); ST(10); kind<double, 2, 3>(c, A, k); });
#elif PART == 9
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 3, 3, h); ST(11); kind<double, 3, 3>(c, A, k); });
#elif PART == 10
	mc::scenario("kinds 3x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 3, 2, h); ST(12); kind<double, 3, 2>(c, A, k); });
#endif
}
MC_MAIN()
