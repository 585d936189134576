// C17: matrix exponential, principal square root and logarithm on complete grids of small matrices, scales and storage kinds,
// against the defining equations and quadruple-precision functions of the matrix; non-termination is caught by the explorer's horizon.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
// principal square root by the (quadratically convergent) Newton/Denman-Beavers pair in quadruple precision; ok=false when the spectrum does not admit it
struct Root { QM S, SI; bool ok = false; Q kap = 0; Root(const QM& A) { int n = A.r; QM X = A, Y = QM::id(n); for (int i = 0; i < 60; ++i) { Elim a(X), b(Y); if (!a.ok || !b.ok) return; QM X2 = (X + b.inv) * Q(0.5), Y2 = (Y + a.inv) * Q(0.5); Q d = (X2 - X).maxabs(); X = X2; Y = Y2; if (!(X.maxabs() < 1e30Q) || !(Y.maxabs() < 1e30Q)) return; if (d <= 1e-30Q * X.maxabs()) { S = X; SI = Y; QM R = S * S - A; kap = S.inf() * SI.inf(); ok = i < 22 && R.maxabs() <= 1e-24Q * kap * A.maxabs(); return; } } } };
struct Log { QM L; bool ok = false; Q kap = 1; int k = 0; Log(QM A) { int n = A.r; for (; (A - QM::id(n)).inf() > 0.01Q; ++k) { if (k > 40) return; Root r(A); if (!r.ok) return; kap = qmax(kap, r.kap); A = r.S; } QM X = A - QM::id(n), F = X; L = X; for (int i = 2; i < 60; ++i) { F = F * X * Q(-1); L = L + F * (Q(1) / i); } Q f = 1; for (int i = 0; i < k; ++i) f *= 2; L = L * f; ok = true; } };
// exponential together with a forward error bound for scaling and squaring in arithmetic of precision eps
struct Exp { QM E; Q bound; Exp(const QM& A, Q eps) { int s = 0; Q n = A.inf(); while (n > 1) { n /= 2; ++s; } Q f = 1; for (int i = 0; i < s; ++i) f /= 2; QM X = qexpm(A * f); Q d = eps * 30 * (A.r + 2); for (int i = 0; i < s; ++i) { Q x = X.inf(); d = 2 * x * d + d * d + eps * 4 * (A.r + 1) * x * x; X = X * X; } E = X; bound = d; } };
template<class P> struct T { Ctx& c; const QM& A; string nm; Q eps = std::numeric_limits<P>::epsilon();
	void mat(const string& f, const QM& X, const QM& w, Q tol) { c.checkf(X.r == w.r && X.c == w.c, f, [&] { return f + " (" + nm + "): wrong shape"; }); for (int i = 0; i < X.r; ++i) for (int j = 0; j < X.c; ++j) c.checkf(qabs(X(i, j) - w(i, j)) <= tol, f, [&] { return f + " (" + nm + ") of " + qms(A) + " is " + qms(X) + ", expected " + qms(w) + " to " + qs(tol); }); } };
template<class P, class M> void expo(Ctx& c, const QM& A, const M& m, const string& nm) { T<P> t{c, A, nm}; Exp e(A, t.eps); if (!(e.E.maxabs() < (sizeof(P) == 4 ? 1e30Q : 1e250Q)) || !(e.bound < 1e300Q)) return; t.mat("exp", toQ(TooN::exp(m)), e.E, e.bound + 10 * (LD)std::numeric_limits<P>::min()); }
template<class P, class M> void rootlog(Ctx& c, const QM& A, const M& m, const string& nm, bool lg = true) { T<P> t{c, A, nm}; int n = A.r; Root r(A); if (!r.ok || r.kap > 1000 || t.eps * r.kap * r.kap * 2000 > 0.01Q) { c.outcome("not admitted"); return; } c.outcome("admitted"); Q k = t.eps * 200 * (n + 1);
	QM S = toQ(TooN::sqrt(m)); t.mat("sqrt(M) squared", S * S, A, k * r.kap * r.kap * qmax(A.inf(), r.S.inf() * r.S.inf())); t.mat("sqrt", S, r.S, t.eps * 2000 * r.kap * r.kap * r.S.inf()); if (!lg) return;
	Log l(A); if (!l.ok || l.kap > 1000) return; QM L = toQ(TooN::log(m)); Q ln = qmax(l.L.inf(), t.eps); t.mat("log", L, l.L, t.eps * 2000 * l.kap * l.kap * qmax(ln, Q(1))); QM E = qexpm(L); t.mat("exp(log(M))", E, A, t.eps * 2000 * l.kap * l.kap * qmax(ln, Q(1)) * qmax(A.inf(), r.S.inf() * r.S.inf())); }
template<class P> QM rnd(QM A) { for (auto& x : A.a) x = (P)(LD)x; return A; }
template<class P, class M> void untouched(Ctx& c, const QM& A, const M& m) { for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) c.check(Q(m(i, j)) == A(i, j), "input modified"); }
template<class P, int N> void owned(Ctx& c, const QM& A0, bool lg = true) { QM A = rnd<P>(A0); int n = A.r; c.step(3); if constexpr (N > 0) { Matrix<N, N, P> m; fromQ(m, A); expo<P>(c, A, m, "static"); rootlog<P>(c, A, m, "static", lg); untouched<P>(c, A, m); } else { Matrix<Dynamic, Dynamic, P> m(n, n); fromQ(m, A); expo<P>(c, A, m, "run-time"); rootlog<P>(c, A, m, "run-time", lg); untouched<P>(c, A, m); } }
template<class P, int N> void kind(Ctx& c, const QM& A0, int k) { QM A = rnd<P>(A0); c.step(3); mat_kind<P, N, N>(k, N, N, [&](auto& m, const string& nm) { fromQ(m, A); expo<P>(c, A, m, nm); rootlog<P>(c, A, m, nm); untouched<P>(c, A, m); }); }
static const vector<double> A7{0, 1, -1, 2, -2, 0.5, 3}, A3{0, 1, -1}, A4{0, 1, -1, 2};
#define ST(x) c.state(mc::mix(h, x)); c.logf("A=%s", qms(A).c_str())
static Q scale(Ctx& c, uint64_t& h, bool f = false) { int k = c.pick(f ? 7 : 13); h = mc::mix(h, k); static const double s[] = {1, 1.0 / 8, 1e-6, 30, 1e-12, 1e-15, 1e4, 0.7, 1e8, 1e-60, 300, 1e12, 3e9}; return s[k]; }
// families: diag + nilpotent, rotations, similarity-transformed spectra
static QM family(Ctx& c, int n, uint64_t& h) { int f = c.pick(8), s = c.pick(5), z = c.pick(n); h = mc::mix(h, (f * 5 + s) * 9 + z); QM A(n, n), D = gens::dense(n, n, s) * Q(0.25); switch (f) { case 0: for (int i = 0; i < n; ++i) A(i, i) = Q(1) + i * s; if (n > 1) A(0, n - 1) = z; break; case 1: for (int i = 0; i + 1 < n; ++i) A(i, i + 1) = 1 + s; break; case 2: A = QM::id(n); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) A(i, j) = Q(s + 1) / 2; break; case 3: A = D.T() * D + QM::id(n) * Q(0.5); break; case 4: A = D - D.T() + QM::id(n) * Q(z + 1); break; case 5: A = D; break; case 6: A = D - D.T(); break; case 7: for (int i = 0; i < n; ++i) A(i, (i + 1) % n) = 1 + (i == z) * s; A = A + QM::id(n) * Q(2 * (s + 1)); break; } return A; }
void mc_register() {
#if PART == 1
	mc::scenario("all 1x1, 2x2", [](Ctx& c) { uint64_t h = 1; int n = 1 + c.pick(2); QM A = gens::all(c, n, n, A7, h); ST(n); if (n == 1) owned<double, 1>(c, A); else owned<double, 2>(c, A); });
#elif PART == 2
	mc::scenario("all 3x3", [](Ctx& c) { uint64_t h = 2; QM A = gens::all(c, 3, 3, c.depth ? A3 : vector<double>{0, 1}, h); int d = c.pick(3); h = mc::mix(h, d); A = A + QM::id(3) * Q(d); ST(3); owned<double, 3>(c, A); }, 0, 1);
#elif PART == 3
	mc::scenario("families", [](Ctx& c) { int n = 1 + c.pick(c.depth); uint64_t h = n; QM A = family(c, n, h); Q s = scale(c, h); A = A * s; ST(4); switch (n) { case 2: owned<double, 2>(c, A); break; case 3: owned<double, 3>(c, A); break; case 4: owned<double, 4>(c, A); break; } owned<double, -2>(c, A); }, 5, 7);
#elif PART == 4
	mc::scenario("near identity", [](Ctx& c) { int n = 2 + c.pick(2); uint64_t h = n; QM A = family(c, n, h); Q s = scale(c, h); A = A * s; Q nm = A.inf(); if (nm > 0.9Q) throw mc::Prune(); A = A + QM::id(n); ST(5); if (n == 2) owned<double, 2>(c, A); else owned<double, 3>(c, A); });
#elif PART == 5
	mc::scenario("float families", [](Ctx& c) { int n = 2 + c.pick(2); uint64_t h = n; QM A = family(c, n, h); Q s = scale(c, h, true); A = A * s; ST(6); if (n == 2) owned<float, 2>(c, A); else owned<float, 3>(c, A); }); mc::scenario("float 2x2", [](Ctx& c) { uint64_t h = 7; QM A = gens::all(c, 2, 2, A4, h); ST(7); owned<float, 2>(c, A); });
#elif PART == 6
	mc::scenario("long double 2x2", [](Ctx& c) { uint64_t h = 7; QM A = gens::all(c, 2, 2, A4, h); ST(8); owned<LD, 2>(c, A); }); mc::scenario("rotations", [](Ctx& c) { int i = c.pick(61), j = c.pick(12), d = c.pick(2); uint64_t h = (i * 12 + j) * 2 + d; Q th = Q(i - 30) / 10; double ss[] = {1, 1e-3, 1e-8, 2, 50, 0.5, 1e-1, 3, 1e5, 0.25, 10, 1e-5}; QM G(2, 2); G(0, 1) = th; G(1, 0) = -th; QM A = qexpm(G) * Q(ss[j]); if (d) A(0, 0) *= 1.5; ST(9); owned<double, 2>(c, A); });
#elif PART == 7
	mc::scenario("kinds 2x2", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 2, h); Q s = scale(c, h, true); A = A * s; ST(10); kind<double, 2>(c, A, k); });
#elif PART == 8
	mc::scenario("kinds 3x3", [](Ctx& c) { int k = c.pick(MK); uint64_t h = k; QM A = family(c, 3, h); ST(11); kind<double, 3>(c, A, k); });
#endif
}
MC_MAIN()
