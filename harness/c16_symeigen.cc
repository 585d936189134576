// C16: symmetric eigen-decomposition of all small symmetric matrices, nearly repeated and badly scaled ones, in every storage
// kind, against its defining equations and quadruple-precision functions of the matrix.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/SymEigen.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
struct Ref { QM A; SymRef e; Q norm, lo, det = 1; PInv pi; int rank = 0; Q cond; Ref(const QM& A_, bool sc = true) : A(A_), e(A_), norm(0), lo(-1), pi(A_) { for (Q w : e.w) { norm = qmax(norm, qabs(w)); } for (Q w : e.w) { rank += qabs(w) > 1e-25Q * norm; if (qabs(w) > 1e-25Q * norm && (lo < 0 || qabs(w) < lo)) lo = qabs(w); det *= w; } cond = lo > 0 ? norm / lo : Q(1); if (rank != pi.rank) cond = 1e30Q; } };
template<class P> struct T { Ctx& c; const Ref& R; string nm; Q eps = std::numeric_limits<P>::epsilon(); Q k() const { return eps * 64 * (R.A.r + 1); }
	void mat(const string& f, const QM& X, const QM& w, Q tol) { c.checkf(X.r == w.r && X.c == w.c, f, [&] { return f + " (" + nm + "): wrong shape"; }); for (int i = 0; i < X.r; ++i) for (int j = 0; j < X.c; ++j) c.checkf(qabs(X(i, j) - w(i, j)) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(R.A) + " is " + qms(X) + ", expected " + qms(w); }); }
	void num(const string& f, Q got, Q want, Q tol) { c.checkf(qabs(got - want) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(R.A) + " is " + qs(got) + ", expected " + qs(want); }); } };
template<class P, class D> void queries(Ctx& c, const Ref& R, const D& d, const string& nm, bool rhsk = false) {
	T<P> t{c, R, nm}; int n = R.A.r; QM E = toQ(d.get_evectors()), W = toQv(d.get_evalues()); Q N = R.norm; for (int i = 0; i < n; ++i) { c.checkf(W(i, 0) == W(i, 0), "eigenvalue", [&] { return nm + " of " + qms(R.A) + ": NaN eigenvalue"; }); if (i) c.checkf(W(i, 0) >= W(i - 1, 0), "order", [&] { return nm + " of " + qms(R.A) + ": eigenvalues not ascending: " + qms(W); }); }
	t.mat("E E^T", E * E.T(), QM::id(n), t.k()); QM D_(n, n); for (int i = 0; i < n; ++i) D_(i, i) = W(i, 0); t.mat("E^T D E", E.T() * D_ * E, R.A, t.k() * N); for (int i = 0; i < n; ++i) t.num("eigenvalue", W(i, 0), R.e.w[i], t.k() * N);
	Q pr = 1; for (int i = 0; i < n; ++i) pr *= W(i, 0); if (qabs(pr) == 0 || (qabs(pr) > 1e-290Q && qabs(pr) < 1e290Q)) { if (sizeof(P) == 8 || (qabs(pr) > 1e-30Q && qabs(pr) < 1e30Q)) t.num("get_determinant", d.get_determinant(), pr, t.k() * qabs(pr)); }
	bool clear = R.lo > 2 * t.k() * N && R.rank == n; bool pd = R.e.w[0] > 0, nd = R.e.w[n - 1] < 0; if (clear || N == 0 || (R.e.w[0] < -2 * t.k() * N)) c.checkf(d.is_posdef() == (N > 0 && clear && pd), "is_posdef", [&] { return "is_posdef (" + nm + ") of " + qms(R.A) + " is wrong"; }); if (clear || N == 0 || R.e.w[n - 1] > 2 * t.k() * N) c.checkf(d.is_negdef() == (N > 0 && clear && nd), "is_negdef", [&] { return "is_negdef (" + nm + ") of " + qms(R.A) + " is wrong"; });
	double cd = sizeof(P) == 8 ? 1e9 : 2e4; QM b = gens::dense(n, 1, 2), B = gens::dense(n, 3, 1);
	if (R.cond * 4 < Q(cd) && (R.rank == n || N == 0 || 4 * t.k() * cd < 1)) { Q pt = t.k() * 4 * R.cond * (R.lo > 0 ? 1 / R.lo : Q(0)); QM X = R.pi.p; if (sizeof(P) == 8) t.mat("get_pinv()", toQ(d.get_pinv()), X, pt); t.mat("get_pinv", toQ(d.get_pinv(cd)), X, pt);
		auto iv = d.get_inv_diag(cd); for (int i = 0; i < n; ++i) { bool neg = qabs(R.e.w[i]) <= 1e-25Q * N; t.num("get_inv_diag", iv[i], neg ? Q(0) : 1 / R.e.w[i], neg ? Q(0) : pt); }
		if (sizeof(P) == 8 || R.rank == n) { Vector<Dynamic, P> v(n); for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0); Matrix<Dynamic, 3, P, ColMajor> m(n, 3); fromQ(m, B); t.mat("backsub(vector)", toQv(d.backsub(v)), X * b, pt * 10 * n); t.mat("backsub(matrix)", toQ(d.backsub(m)), X * B, pt * 10 * n); } }
	bool psd = true; for (Q w : R.e.w) if (w < -1e-25Q * N) psd = false;
	if (psd) { QM S = toQ(d.get_sqrtm()); Q sn = qsqrt(N); t.mat("sqrtm symmetric", S, S.T(), t.k() * sn * 2); t.mat("sqrtm^T sqrtm", S.T() * S, R.A, t.k() * 2 * N); Q lam = R.rank == n && R.lo > 0 ? qsqrt(R.lo) : qsqrt(t.k() * N); if (N > 0) t.mat("sqrtm", S, R.e.fun([](Q w) { return qsqrt(w); }), R.rank == n ? t.k() * 4 * N / lam : 4 * lam);
		if (R.rank == n && qsqrt(R.cond) * 4 < Q(cd) && t.k() * R.cond * 4 < 0.1Q) { QM C = toQ(d.get_isqrtm(cd)); if (sizeof(P) == 8) { QM C2 = toQ(d.get_isqrtm()); t.mat("isqrtm()", C2, C, 0); } Q il = 1 / qsqrt(R.lo); t.mat("isqrtm", C, R.e.fun([](Q w) { return 1 / qsqrt(w); }), t.k() * 4 * R.cond * il); } else if (N == 0) t.mat("isqrtm", toQ(d.get_isqrtm()), QM(n, n), 0);
		else if (R.rank < n && qsqrt(R.cond) < 30 && sizeof(P) == 8) { QM C = toQ(d.get_isqrtm(300)); Q il = 1 / qsqrt(R.lo); t.mat("isqrtm(300)", C, R.e.fun([&](Q w) { return w <= 1e-25Q * N ? Q(0) : 1 / qsqrt(w); }), t.k() * 4 * R.cond * il); } }
}
template<class P, int S, class M> void one(Ctx& c, const Ref& R, const M& m, const string& nm, int how) { int n = R.A.r; typedef SymEigen<S, P> E; if (how == 0) { E e(m); queries<P>(c, R, e, nm); return; }
	E e = [&] { if constexpr (S > 0) { if (how == 1) return E(); else return E(n); } else return E(n); }(); if (how == 2) { Matrix<S, S, P> o(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o(i, j) = P(i == j ? 2 : 1); e.compute(o); e.get_evalues()[0] += 1; e.get_evectors()[0][0] += 3; } e.compute(m); queries<P>(c, R, e, nm + " computed"); E f(e); queries<P>(c, R, f, nm + " copied"); }
template<class P> QM rnd(QM A) { for (auto& x : A.a) x = (P)(LD)x; return A; }
template<class P, int N> void owned(Ctx& c, const QM& A0) { Ref R(rnd<P>(A0)); int n = A0.r; c.step(2); c.outcome("rank " + mc::str(R.rank)); { Matrix<Dynamic, Dynamic, P> m(n, n); fromQ(m, A0); one<P, Dynamic>(c, R, m, "run-time", c.pick(3)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == R.A(i, j), "input modified"); } if constexpr (N > 0) { Matrix<N, N, P> m; fromQ(m, A0); one<P, N>(c, R, m, "static", c.pick(3)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == R.A(i, j), "input modified"); } }
template<class P, int N> void kind(Ctx& c, const QM& A0, int k) { Ref R(rnd<P>(A0)); c.step(2); mat_kind<P, N, N>(k, N, N, [&](auto& m, const string& nm) { typedef std::remove_reference_t<decltype(m)> M; fromQ(m, A0); if constexpr (Dim<M>::Rows == N && Dim<M>::Cols == N) one<P, N>(c, R, m, nm, c.pick(3)); one<P, Dynamic>(c, R, m, nm + " run-time", c.pick(2) * 2); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.check(Q(m(i, j)) == R.A(i, j), "input modified");
	Matrix<N, N, P> o; fromQ(o, A0); SymEigen<N, P> d(o); if (R.cond > 1000) return; T<P> t{c, R, "backsub"}; Q pt = t.k() * 40 * N * R.cond * (R.lo > 0 ? 1 / R.lo : Q(0)); int vk = c.pick(VK + MK); QM b = gens::dense(N, 1, 2), B = gens::dense(N, 2, 4); if (vk < VK) vec_kind<P, N>(vk, N, [&](auto& v, const string& n) { for (int i = 0; i < N; ++i) v[i] = (P)(LD)b(i, 0); t.mat("backsub(" + n + ")", toQv(d.backsub(v)), R.pi.p * b, pt); }); else mat_kind<P, N, 2>(vk - VK, N, 2, [&](auto& w, const string& n) { fromQ(w, B); t.mat("backsub(" + n + ")", toQ(d.backsub(w)), R.pi.p * B, pt); }); }); }
// eigenvalues at chosen distances from each other, in two bases, at chosen overall scales
template<class P, int N> void near_(Ctx& c) { bool f = sizeof(P) == 4; double gaps[] = {0, 1, 1e-2, 1e-4, 1e-6, 1e-8, 1e-11, 1e-15, -1, -1e-7}; double sc = f ? c.of({1.0, 1e-6, 1e5}) : c.of({1.0, 1e-9, 1e6, 1e-60, 1e70}); int rot = c.pick(4); uint64_t h = (uint64_t)std::lround(std::log10(sc) * 4 + 1000) * 4 + rot; double base = c.of({1.0, 0.0}); h = mc::mix(h, (uint64_t)base); QM D(N, N); for (int i = 0; i < N; ++i) { int g = i == 0 ? 0 : c.pick(f ? 6 : 10); h = mc::mix(h, g); D(i, i) = (i ? D(i - 1, i - 1) : Q(base)) + gaps[g]; }
	if (rot == 1) { QM H = QM::id(N); Q w[6] = {1, 2, 2, 1, 3, 1}, s = 0; for (int i = 0; i < N; ++i) s += w[i] * w[i]; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) H(i, j) -= 2 * w[i] * w[j] / s; D = H * D * H; } if (rot == 2) { QM H = QM::id(N); H(0, 0) = H(1, 1) = Q(3) / 5; H(0, 1) = Q(4) / 5; H(1, 0) = -H(0, 1); D = H * D * H.T(); } if (rot == 3) { QM E(N, N); for (int i = 0; i < N; ++i) E(i, (i + 1) % N) = 1; D = E * D * E.T(); for (int i = 0; i + 1 < N; ++i) { D(i, i + 1) += 1e-9Q; D(i + 1, i) += 1e-9Q; } }
	for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) D(i, j) = D(j, i) = (D(i, j) + D(j, i)) / 2; D = D * Q(sc); c.state(mc::mix(h, N)); c.logf("A=%s", qms(D).c_str()); owned<P, N>(c, D); }
static void threshold(Ctx& c) { double cd = c.of({1e9, 1e3, 10.0}); int i = c.pick(5), j = c.pick(5), s1 = c.pick(2), s2 = c.pick(2), s3 = c.pick(2); double rat[] = {1.01, 0.99, 100, 0.01, 0}; double v[3] = {s3 ? 8. : -8., 8 / cd * rat[i] * (s1 ? 1 : -1), 8 / cd * rat[j] * (s2 ? 1 : -1)}; int want = 0; for (double x : v) want += std::fabs(x) * cd > 8 || std::fabs(x) == 8; for (double x : v) if (std::fabs(x) > 8) throw mc::Prune(); c.step(); c.state((((i * 5 + j) * 2 + s1) * 2 + s2) * 2 + s3 + 1000 * (int)std::log10(cd));
	auto go = [&](auto& d) { auto iv = d.get_inv_diag(cd); int nz = 0; for (int k = 0; k < 3; ++k) { nz += iv[k] != 0; if (iv[k] != 0) c.check(std::fabs(iv[k] * d.get_evalues()[k] - 1) < 1e-12, "get_inv_diag"); } c.checkf(nz == want, "get_inv_diag", [&] { return "get_inv_diag(" + mc::str(cd) + ") of diag(" + mc::str(v[0]) + "," + mc::str(v[1]) + "," + mc::str(v[2]) + ") retains " + mc::str(nz) + ", expected " + mc::str(want); }); QM X = toQ(d.get_pinv(cd)); for (int k = 0; k < 3; ++k) { double w = std::fabs(v[k]) * cd > 8 || std::fabs(v[k]) == 8 ? 1 / v[k] : 0; c.checkf(std::fabs((double)X(k, k) - w) <= 1e-9 * std::fabs(w), "get_pinv", [&] { return "pseudo-inverse element"; }); } };
	Matrix<3> m = Zeros; for (int k = 0; k < 3; ++k) m(k, k) = v[k]; SymEigen<3> a(m); go(a); SymEigen<> b(m); go(b); if (v[0] > 0 && v[1] >= 0 && v[2] >= 0) { double c2 = std::sqrt(cd); auto iq = [&](auto& d) { QM X = toQ(d.get_isqrtm(c2)); for (int k = 0; k < 3; ++k) { double w = std::sqrt(v[k]) * c2 > std::sqrt(8.) || k == 0 ? 1 / std::sqrt(v[k]) : 0; c.checkf(std::fabs((double)X(k, k) - w) <= 1e-9 * std::fabs(w), "get_isqrtm", [&] { return "isqrtm(" + mc::str(c2) + ") of diag(8," + mc::str(v[1]) + "," + mc::str(v[2]) + "): element " + mc::str(k) + " is " + mc::str((double)X(k, k)) + ", expected " + mc::str(w); }); } }; iq(a); iq(b); } }
static const vector<double> S7{0, 1, -2, 3, 0.25, 9, 1e-6}, S5{0, 1, -1, 2, 0.5}, S4{0, 1, 2, -1}, S3{0, 1, -1};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
static QM family(Ctx& c, int n, uint64_t& h) { int s = c.pick(8), k = c.pick(5); h = mc::mix(h, s * 5 + k); QM G = gens::dense(n, n, s); if (k == 0) return G + G.T(); if (k == 1) return G.T() * G; QM D = QM::id(n); if (k == 2) { for (int i = 0; i < n; ++i) D(i, i) = Q(1) / (1 << (3 * i % 13)); return D * (G.T() * G + QM::id(n)) * D; } if (k == 3) { D(0, 0) = 0; return G.T() * D * G; } return (G.T() * G + QM::id(n) * Q(4)) * Q(-1); }
void mc_register() {
#if PART == 1
	mc::scenario("symmetric 1x1, 2x2", [](Ctx& c) { uint64_t h = 1; int n = 1 + c.pick(2); QM A = gens::sym(c, n, S7, h); ST(n); if (n == 1) owned<double, 1>(c, A); else owned<double, 2>(c, A); }); mc::scenario("symmetric 3x3", [](Ctx& c) { uint64_t h = 2; QM A = gens::sym(c, 3, c.depth ? S5 : S4, h); ST(3); owned<double, 3>(c, A); }, 0, 1);
#elif PART == 2
	mc::scenario("near repeated 2x2", near_<double, 2>); mc::scenario("near repeated 3x3", near_<double, 3>); mc::scenario("near repeated 4x4", near_<double, 4>, -1, 0);
#elif PART == 3
	mc::scenario("symmetric 4x4", [](Ctx& c) { uint64_t h = 3; QM A = gens::sym(c, 4, vector<double>{0, 1}, h); ST(4); owned<double, 4>(c, A); }); mc::scenario("run-time sizes", [](Ctx& c) { int n = 1 + c.pick(c.depth); uint64_t h = n; QM A = family(c, n, h); ST(5); owned<double, -2>(c, A); }, 8, 14); mc::scenario("families 2x2, 3x3, 5x5", [](Ctx& c) { int w = c.pick(3); uint64_t h = w; QM A = family(c, w == 0 ? 2 : w == 1 ? 3 : 5, h); ST(9); switch (w) { case 0: owned<double, 2>(c, A); break; case 1: owned<double, 3>(c, A); break; case 2: owned<double, 5>(c, A); } });
#elif PART == 4
	mc::scenario("float", [](Ctx& c) { uint64_t h = 8; int n = 2 + c.pick(2); QM A = n == 2 ? gens::sym(c, 2, S4, h) : gens::sym(c, 3, S3, h); ST(8); if (n == 2) owned<float, 2>(c, A); else owned<float, 3>(c, A); }); mc::scenario("float near 2x2", near_<float, 2>); mc::scenario("float near 3x3", near_<float, 3>);
#elif PART == 5
	mc::scenario("kinds 2x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 2, h); ST(10); kind<double, 2>(c, A, k); });
#elif PART == 6
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 3, h); ST(11); kind<double, 3>(c, A, k); });
#elif PART == 7
	mc::scenario("kinds 4x4", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 4, h); ST(12); kind<double, 4>(c, A, k); }); mc::scenario("thresholds", threshold);
#endif
}
MC_MAIN()
