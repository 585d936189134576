// C13: both Cholesky decompositions on all small symmetric matrices (definite, semi-definite, indefinite) and storage kinds,
// against exact factors, determinants, solutions and definiteness in quadruple precision.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
struct Exact { int n, first_bad = -1; bool bad_zero = false, dyadic = true, pd = true; QM L, D; Q growth = 1, det = 1, cond = 0; QM inv; // LDL^T of the leading part
	Exact(const QM& A) : n(A.r), L(QM::id(A.r)), D(A.r, A.r) { QM U(n, n); bool allnz = true;
		for (int k = 0; k < n; ++k) { Q d = A(k, k); for (int j = 0; j < k; ++j) d -= L(k, j) * L(k, j) * D(j, j); D(k, k) = d; if (qabs(d) < 1e-25Q * (A.maxabs() + 1)) D(k, k) = d = 0; if (d <= 0 && first_bad < 0) { first_bad = k; bad_zero = d == 0; pd = false; } if (d == 0) { allnz = false; det = 0; break; } int e; if (first_bad < 0 && std::frexp((double)d, &e) != 0.5) dyadic = false; det *= d; for (int i = k + 1; i < n; ++i) { Q v = A(i, k); for (int j = 0; j < k; ++j) v -= L(i, j) * L(k, j) * D(j, j); L(i, k) = v / d; } }
		full = allnz; if (allnz) { QM g(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) g(i, j) += qabs(L(i, k)) * qabs(D(k, k)) * qabs(L(j, k)); growth = g.maxabs() / A.maxabs(); Elim e(A); inv = e.inv; cond = A.inf() * inv.inf(); } }
	bool full; };
template<class P> struct T { Ctx& c; const QM& A; Exact& e; Q eps; string nm;
	void mat(const string& f, const QM& X, const QM& w, Q tol) { if (X.r != w.r || X.c != w.c) c.fail(f, f + ": wrong shape"); for (int i = 0; i < X.r; ++i) for (int j = 0; j < X.c; ++j) c.checkf(qabs(X(i, j) - w(i, j)) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(A) + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + qs(X(i, j)) + ", exact " + qs(w(i, j)); }); }
	void solve(const string& f, const QM& X, const QM& w) { for (int j = 0; j < X.c; ++j) { QM x(X.r, 1), y(X.r, 1); for (int i = 0; i < X.r; ++i) { x(i, 0) = X(i, j); y(i, 0) = w(i, j); } mat(f, x, y, eps * 60 * (A.r + 2) * e.cond * e.growth * y.maxabs()); } }
	void num(const string& f, Q got, Q want, Q tol) { c.checkf(qabs(got - want) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(A) + " is " + qs(got) + ", exact " + qs(want); }); }
	void rank(const string& f, int got, int want) { c.checkf(got == want, f, [&] { return f + " (" + nm + ") of " + qms(A) + " is " + mc::str(got) + ", expected " + mc::str(want); }); } };
static QM rhs(int n, int q, int s) { return gens::dense(n, q, s); }
template<class P, int S, class CH> void common(T<P>& t, CH& ch, int vk) { // queries of a decomposition of a matrix with non-zero minors
	int n = t.A.r; Ctx& c = t.c; QM b = rhs(n, 1, 2), x = t.e.inv * b, B = rhs(n, 3, 1), X = t.e.inv * B; Q cnd = t.eps * 60 * (n + 2) * t.e.cond * t.e.growth;
	Vector<Dynamic, P> v(n); for (int i = 0; i < n; ++i) v[i] = (P)(LD)b(i, 0); Matrix<Dynamic, 3, P> m(n, 3); fromQ(m, B); Matrix<Dynamic, Dynamic, P, ColMajor> mc_(n, 3); fromQ(mc_, B);
	t.solve("backsub(vector)", toQv(ch.backsub(v)), x); t.solve("backsub(matrix)", toQ(ch.backsub(m)), X); t.solve("backsub(colmajor matrix)", toQ(ch.backsub(mc_)), X); t.solve("get_inverse", toQ(ch.get_inverse()), t.e.inv);
	Q mh = (b.T() * x)(0, 0); t.num("mahalanobis", ch.mahalanobis(v), mh, cnd * b.maxabs() * x.maxabs() * n); t.num("determinant", ch.determinant(), t.e.det, cnd * qabs(t.e.det)); t.rank("rank", ch.rank(), n);
	if (vk >= 0) { constexpr int N = S > 0 ? S : -2; vec_kind<P, N>(vk, n, [&](auto& w, const string& k) { for (int i = 0; i < n; ++i) w[i] = (P)(LD)b(i, 0); t.solve("backsub(" + k + ")", toQv(ch.backsub(w)), x); t.num("mahalanobis(" + k + ")", ch.mahalanobis(w), mh, cnd * b.maxabs() * x.maxabs() * n); });
		for (int k = 0; k < MK; ++k) mat_kind<P, N, (N < 0 ? -2 : 2)>(k, n, 2, [&](auto& w, const string& kn) { QM B2 = rhs(n, 2, 6); fromQ(w, B2); t.solve("backsub(" + kn + ")", toQ(ch.backsub(w)), t.e.inv * B2); }); }
}
template<class P, int S, class M> void toon(Ctx& c, const QM& A, Exact& e, const M& m, const string& nm, int vk, int how) {
	int n = A.r; T<P> t{c, A, e, Q(std::numeric_limits<P>::epsilon()), "Cholesky, " + nm}; typedef Cholesky<S, P> CH;
	auto go = [&](CH& ch) { if (!e.full) { if (e.bad_zero && e.dyadic) { t.rank("rank", ch.rank(), e.first_bad); t.num("determinant", ch.determinant(), 0, 0); } return; }
		if (t.eps * 60 * (n + 2) * e.cond * e.growth > 0.05Q) return; Q ft = t.eps * 8 * (n + 2) * e.growth * A.maxabs(); QM L = toQ(ch.get_unscaled_L()), D = toQ(ch.get_D()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (i == j) c.check(L(i, j) == 1, "L shape", "unit diagonal"); if (j > i) c.check(L(i, j) == 0, "L shape", "upper part"); if (i != j) c.check(D(i, j) == 0, "D shape", "off-diagonal"); } t.mat("L*D*L^T", L * D * L.T(), A, ft);
		if (e.pd) { QM G = toQ(ch.get_L()); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (j > i) c.check(G(i, j) == 0, "get_L shape"); else if (i == j) c.check(G(i, j) > 0, "get_L diagonal"); t.mat("get_L get_L^T", G * G.T(), A, ft * 2); } common<P, S>(t, ch, vk); };
	if (how == 0) { CH ch(m); go(ch); } else { CH ch = [&] { if constexpr (S > 0) return CH(); else return CH(n); }(); if (how == 2) { Matrix<S, S, P> o(n, n); o = Identity; for (int i = 0; i < n; ++i) o(i, 0) = o(0, i) = P(i ? 0.25 : 4); ch.compute(o); } ch.compute(m); go(ch); if (how == 2) { CH cp(ch); go(cp); } }
}
template<class P, int S, class M> void lapack(Ctx& c, const QM& A, Exact& e, const M& m, const string& nm, int vk, int how) {
	int n = A.r; T<P> t{c, A, e, Q(std::numeric_limits<P>::epsilon()), "Lapack_Cholesky, " + nm}; typedef Lapack_Cholesky<S, P> CH;
	auto go = [&](CH& ch) { if (!e.pd) { if (!e.bad_zero) t.rank("rank", ch.rank(), e.first_bad); return; } if (t.eps * 60 * (n + 2) * e.cond * e.growth > 0.05Q) return; QM G = toQ(ch.get_L()); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) c.check(G(i, j) == 0, "get_L shape"); t.mat("get_L get_L^T", G * G.T(), A, t.eps * 8 * (n + 2) * A.maxabs()); common<P, S>(t, ch, vk); };
	if (how == 0) { CH ch(m); go(ch); } else { CH ch = [&] { if constexpr (S > 0) return CH(); else return CH(n); }(); if (how == 2) { Matrix<S, S, P> o(n, n); o = Identity; o(0, n - 1) = o(n - 1, 0) = P(0.5); ch.compute(o); } ch.compute(m); go(ch); }
}
template<class P, int N> void owned(Ctx& c, QM A, bool garbage) { int n = A.r; for (auto& x : A.a) x = (P)(LD)x; Exact e(A); c.step(4); c.outcome(e.pd ? "definite" : !e.full ? "singular minor" : "indefinite"); QM G = A; if (garbage) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) G(i, j) = 77 + i + j; string nm = garbage ? "upper half ignored" : "";
	{ Matrix<Dynamic, Dynamic, P> m(n, n); fromQ(m, G); toon<P, Dynamic>(c, A, e, m, "run-time " + nm, -1, c.pick(3)); if constexpr (!std::is_same<P, LD>::value) lapack<P, Dynamic>(c, A, e, m, "run-time " + nm, -1, 0); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == G(i, j), "input modified"); }
	if constexpr (N > 0) { Matrix<N, N, P> m; fromQ(m, G); toon<P, N>(c, A, e, m, "static " + nm, -1, 0); if constexpr (!std::is_same<P, LD>::value) lapack<P, N>(c, A, e, m, "static " + nm, -1, c.pick(3)); } }
template<class P, int N> void kind(Ctx& c, QM A, int k, int vk) { for (auto& x : A.a) x = (P)(LD)x; Exact e(A); int n = N, how = c.pick(3); c.step(2); if (!e.pd) return; mat_kind<P, N, N>(k, n, n, [&](auto& m, const string& nm) { typedef std::remove_reference_t<decltype(m)> M; fromQ(m, A); if constexpr (Dim<M>::Rows == N && Dim<M>::Cols == N) { toon<P, N>(c, A, e, m, nm, vk, how); lapack<P, N>(c, A, e, m, nm, vk, how); } else if constexpr (Dim<M>::Rows == Dynamic && Dim<M>::Cols == Dynamic) { toon<P, Dynamic>(c, A, e, m, nm, vk, how); lapack<P, Dynamic>(c, A, e, m, nm, vk, how); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.check(Q(m(i, j)) == A(i, j), "input modified"); }); }
static const vector<double> S5{0, 1, -1, 2, 4}, S3{0, 1, -1}, S7{0, 1, -2, 3, 0.25, 9, 1e-6}, S4{0, 1, 2, -1};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
static QM gram(Ctx& c, int n, const vector<double>& al, uint64_t& h) { QM G = gens::all(c, n, n, al, h); int k = c.pick(3); h = mc::mix(h, k); return G.T() * G + QM::id(n) * (k == 0 ? Q(0) : k == 1 ? Q(1) / 1024 : Q(1)); }
static QM spd(Ctx& c, int n, uint64_t& h) { int s = c.pick(20), k = c.pick(3); h = mc::mix(h, s * 3 + k); QM G = gens::dense(n, n, s), D = QM::id(n); if (k == 2) for (int i = 0; i < n; ++i) D(i, i) = Q(1) / (1 << (3 * i % 13)); return D * (G.T() * G + QM::id(n) * (k == 0 ? Q(1) / 4 : Q(8))) * D; }
void mc_register() {
#if PART == 1
	mc::scenario("symmetric 1x1, 2x2", [](Ctx& c) { uint64_t h = 1; int n = 1 + c.pick(2), g = c.pick(2); QM A = gens::sym(c, n, S7, h); ST(n * 2 + g); if (n == 1) owned<double, 1>(c, A, g); else owned<double, 2>(c, A, g); }); mc::scenario("symmetric 3x3", [](Ctx& c) { uint64_t h = 2; QM A = gens::sym(c, 3, c.depth ? S5 : S4, h); ST(3); owned<double, 3>(c, A, false); }, 0, 1); mc::scenario("symmetric 3x3 lower half", [](Ctx& c) { uint64_t h = 3; QM A = gens::sym(c, 3, S3, h); ST(3); owned<double, 3>(c, A, true); });
#elif PART == 2
	mc::scenario("Gram 3x3", [](Ctx& c) { uint64_t h = 4; QM A = gram(c, 3, c.depth ? S3 : vector<double>{0, 1}, h); ST(4); owned<double, 3>(c, A, false); }, 0, 1); mc::scenario("definite 4x4", [](Ctx& c) { uint64_t h = 5; QM A = spd(c, 4, h); ST(5); owned<double, 4>(c, A, c.flip()); }); mc::scenario("definite run-time", [](Ctx& c) { uint64_t h = 6; QM A = spd(c, 5 + c.pick(c.depth), h); ST(6); owned<double, -2>(c, A, c.flip()); }, 6, 12); mc::scenario("symmetric run-time 4x4", [](Ctx& c) { uint64_t h = 7; QM A = gens::sym(c, 4, S3, h); ST(7); owned<double, -2>(c, A, false); }, -1, 0);
#elif PART == 3
	mc::scenario("float", [](Ctx& c) { uint64_t h = 8; int n = 2 + c.pick(2); QM A = n == 2 ? gens::sym(c, 2, S7, h) : gens::sym(c, 3, S3, h); ST(8); if (n == 2) owned<float, 2>(c, A, false); else owned<float, 3>(c, A, true); });
#elif PART == 4
	mc::scenario("long double", [](Ctx& c) { uint64_t h = 9; int n = 2 + c.pick(2); QM A = n == 2 ? gens::sym(c, 2, S7, h) : gens::sym(c, 3, S3, h); ST(9); if (n == 2) owned<LD, 2>(c, A, false); else owned<LD, 3>(c, A, true); });
#elif PART == 5
	mc::scenario("kinds 2x2", [](Ctx& c) { int k = c.pick(MK), v = c.pick(VK); uint64_t h = k * 9 + v; QM A = gens::sym(c, 2, S4, h); ST(10); kind<double, 2>(c, A, k, v); });
#elif PART == 6
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK), v = c.pick(VK); uint64_t h = k * 9 + v; QM A = spd(c, 3, h); ST(11); kind<double, 3>(c, A, k, v); });
#endif
}
MC_MAIN()
