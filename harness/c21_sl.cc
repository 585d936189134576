// C21: the group of matrices of determinant one: exp/ln over parameter grids, words of products and inverses, construction from
// matrices, actions and generators in dimensions 2 to 5.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/sl.h>
#undef abort
#include "lie.hh"
template<class P> Q eps_() { return precision<P>(); }
template<int N> QM slgen(int i) { QM g(N, N); if (i < N - 1) { g(i, i) = 1; g(i + 1, i + 1) = -1; return g; } i -= N - 1; const int H = N * (N - 1) / 2; bool sym = i < H; if (!sym) i -= H; int k = 0; for (int r = 0; r < N; ++r) for (int c = r + 1; c < N; ++c, ++k) if (k == i) { g(r, c) = sym ? 1 : -1; g(c, r) = 1; } return g; }
template<int N> QM slalg(const QM& v) { QM m(N, N); for (int i = 0; i < N * N - 1; ++i) m = m + slgen<N>(i) * v(i, 0); return m; }
template<class P> Q cond(const QM& X) { return X.fro() * Elim(X).inv.fro(); }
template<int N, class P> void expln(Ctx& c, const QM& v0, int kind = -1) { enum { K = N * N - 1 }; QM v = rnd<P>(v0), A = slalg<N>(v), W = qexpm(A); c.step(2); Cmp t{c, "SL<" + mc::str(int(N)) + "> of " + qms(v)}; Q e = eps_<P>(), k = e * 100 * qmax(1, A.fro()) * qmax(1, qexpm(col({A.fro()}))(0, 0)) , m = W.fro(), q = Elim(W).inv.fro(); Vector<K, P> x = vec<P, K>(v); if (kind >= 0) { vec_kind<P, K>(kind, K, [&](auto& y, const string& n) { for (int i = 0; i < K; ++i) y[i] = x[i]; SL<N, P> g = SL<N, P>::exp(y), h(y); t.mat("exp of kind", toQ(g.get_matrix()), W, k); t.mat("construction of kind", toQ(h.get_matrix()), W, k); for (int i = 0; i < K; ++i) c.check(Q(y[i]) == Q(x[i]), "argument changed"); }); return; }
	SL<N, P> g(x), h = SL<N, P>::exp(x); QM X = toQ(g.get_matrix()); t.mat("exp", X, W, k); t.mat("construction from a vector", toQ(h.get_matrix()), W, k); t.num("determinant", Elim(X).det, 1, k * q * N); t.mat("inverse", toQ(g.inverse().get_matrix()), Elim(X).inv, e * 100 * q * q * m); if (A.fro() < 1.2Q) { QM l = toQv(g.ln()); t.mat("ln(exp(v))", l, v, e * 3000); c.outcome("near"); } }
template<int N> QM grid(int i, int a, int j, int b) { static const double t[] = {0, 0.25, -0.5, 1, 1e-9, -2.5}; QM v(N * N - 1, 1); v(i, 0) += t[a]; v(j, 0) += t[b] * 0.75; return v; }
template<int N, class P> void pairs(Ctx& c) { enum { K = N * N - 1 }; int i = c.pick(K), j = c.pick(K), a = c.pick(6), b = c.pick(6); c.state((((i * 30 + j) * 6 + a) * 6 + b) * 10 + N + (sizeof(P) == 4 ? 5 : 0)); expln<N, P>(c, grid<N>(i, a, j, b)); }
template<int N, class P> void dense(Ctx& c) { enum { K = N * N - 1 }; int s = c.pick(8), f = c.pick(9); static const double sc[] = {0, 1e-300, 1e-9, 1e-4, 0.01, 0.05, 0.2, 1, 2}; QM v(K, 1); for (int i = 0; i < K; ++i) v(i, 0) = gens::dense_q(i, s, 3) * sc[f] / 8; int kk = c.pick(VK + 1) - 1; c.state(((s * 9 + f) * 10 + kk + 1) * 10 + N + 5000000); expln<N, P>(c, v, kk); }
static QM wv(int K, int k) { QM v(K, 1); for (int i = 0; i < K; ++i) v(i, 0) = gens::dense_q(i, k, 3) * (k == 1 ? 0.01 : 0.1); return v; }
template<int N, class P> void words(Ctx& c) { enum { K = N * N - 1, NE = 4 }; Q e = eps_<P>() * 60, ex = e, ey = e * 10; typedef SL<N, P> G; static QM H[NE]; if (!H[0].r) for (int i = 0; i < NE; ++i) H[i] = qexpm(slalg<N>(rnd<P>(wv(K, i)))); auto el = [&](int i) { return G(vec<P, K>(wv(K, i))); }; G x, y = el(3); QM X = QM::id(N), Y = H[3]; uint64_t h = N; string w; auto mul = [&](const QM& A, Q ea, const QM& B, Q eb) { return A.fro() * eb + B.fro() * ea + e * A.fro() * B.fro(); };
	for (int d = 0; d < c.depth; ++d) { int o = c.pick(9 + NE); h = mc::mix(h, o); c.step(); w += " " + mc::str(o); c.logf("op %d", o); Cmp t{c, "word" + w}; switch (o) { case 0: ex = mul(X, ex, Y, ey); x = x * y; X = X * Y; break; case 1: ex = mul(X, ex, Y, ey); x *= y; X = X * Y; break; case 2: { QM V = Elim(X).inv; ex = V.fro() * V.fro() * (ex + e * X.fro()); x = x.inverse(); X = V; break; } case 3: { G z = x; x = y; y = z; std::swap(X, Y); std::swap(ex, ey); break; } case 4: ex = mul(X, ex, X, ex); x *= x; X = X * X; break; case 5: { ex = X.fro() * Elim(X).inv.fro() * ex * 2 + e * X.fro(); Matrix<N, N, P> m = x.get_matrix(); m *= (P)3; x = G(m); break; } case 6: y = x; Y = X; ey = ex; break; case 7: { ex = X.fro() * Elim(X).inv.fro() * ex * 2 + e * X.fro(); Matrix<Dynamic, Dynamic, P, ColMajor> m(x.get_matrix()); m /= (P)5; x = G(m); break; } case 8: { ex = mul(X, ex, Y, ey); x = y * x; X = Y * X; break; } default: ex = mul(H[o - 9], eps_<P>() * 300, X, ex); x = el(o - 9) * x; X = H[o - 9] * X; }
		if (ex > 1e-2Q) throw mc::Prune(); t.mat("product", toQ(x.get_matrix()), X, ex); t.mat("other element", toQ(y.get_matrix()), Y, ey); c.state(mc::mix(mc::mix(h, d), mc::hash_str(qms(rnd<float>(X))))); }
	Cmp t{c, "word" + w}; for (int s = 0; s < 2; ++s) { QM p = point(N, s); Vector<N, P> v = vec<P, N>(p); t.mat("g*v", toQv(x * v), X * p, ex * 100); t.mat("v*g", toQv(v * x), X.T() * p, ex * 100); } }
template<int N, class P> void act(Ctx& c) { int f = c.pick(VK + 2 * MK); enum { K = N * N - 1 }; SL<N, P> g(vec<P, K>(wv(K, 2))); QM X = toQ(g.get_matrix()); c.step(); c.state(f * 10 + N); Q k = eps_<P>() * 5000; Cmp t{c, ""}; if (f < VK) vec_kind<P, N>(f, N, [&](auto& v, const string& n) { t.nm = n; for (int s = 0; s < 3; ++s) { QM p = point(N, s); for (int i = 0; i < N; ++i) v[i] = (P)(LD)p(i, 0); t.mat("g*v", toQv(g * v), X * p, k); t.mat("v*g", toQv(v * g), X.T() * p, k); } });
	else if (f < VK + MK) mat_kind<P, N, 2>(f - VK, N, 2, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(N, 2, 2); fromQ(m, M); t.mat("g*M", toQ(g * m), X * M, k); }); else mat_kind<P, 2, N>(f - VK - MK, 2, N, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(2, N, 3); fromQ(m, M); t.mat("M*g", toQ(m * g), M * X, k); }); }
template<int N, class P> void fromm(Ctx& c) { int s = c.pick(10), sc = c.pick(5), neg = c.pick(N % 2 ? 2 : 1), k = c.pick(MK); static const Q t[] = {1, 3, 1e-6Q, 1e6Q, 0.125Q}; QM M = gens::dense(N, N, s) + QM::id(N) * 6; if (s == 8) M = QM::id(N); if (s == 9) { M = QM(N, N); for (int i = 0; i < N; ++i) M(i, (i + 1) % N) = N % 2 == 0 && i == 0 ? -1 : 1; } if (s == 7) for (int i = 0; i < N; ++i) M(i, i) = 0.5Q; Q d = Elim(M).det; if (qabs(d) < 1e-3Q) return; if (d < 0) { if (N % 2 == 0) for (int j = 0; j < N; ++j) M(0, j) = -M(0, j); else M = M * -1; } M = rnd<P>(M * t[sc] * (neg ? -1 : 1)); d = Elim(M).det; Q r = expl(logl(fabsl((LD)d)) / N); for (int i = 0; i < 3; ++i) { Q p = 1; for (int j = 0; j < N; ++j) p *= r; r = r * (1 + (qabs(d) - p) / (p * N)); } if (d < 0) r = -r; QM W = M * (1 / r); c.step(); c.state((((s * 5 + sc) * 2 + neg) * 12 + k) * 10 + N + 20000000); c.outcome(neg ? "negative" : "positive");
	mat_kind<P, N, N>(k, N, N, [&](auto& m, const string& n) { fromQ(m, M); Cmp t{c, n + " " + qms(M)}; SL<N, P> g(m); t.mat("construction from a matrix", toQ(g.get_matrix()), W, eps_<P>() * 100 * W.fro() * cond<P>(W)); t.num("determinant", Elim(toQ(g.get_matrix())).det, 1, eps_<P>() * 300 * cond<P>(W)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.check(Q(m(i, j)) == M(i, j), "input modified"); }); }
template<int N, class P> void gens_(Ctx& c) { int i = c.pick(N * N - 1); c.step(); c.state(i * 10 + N + 30000000); Cmp t{c, mc::str(i)}; t.mat("generator", toQ(SL<N, P>::generator(i)), slgen<N>(i), 0); c.check(SL<N, P>::size == N && SL<N, P>::dim == N * N - 1, "size and dim"); t.mat("default", toQ(SL<N, P>().get_matrix()), QM::id(N), 0); }
// products of elements of two precisions
template<int N, class PA, class PB> void two(Ctx& c) { enum { K = N * N - 1 }; int i = c.pick(4), j = c.pick(4); c.step(); c.state(i * 4 + j + 1000 * N + 100000 * sizeof(PA) + 10000000 * sizeof(PB)); SL<N, PA> a(vec<PA, K>(wv(K, i))); SL<N, PB> b(vec<PB, K>(wv(K, j))); typedef decltype(PA() * PB()) PW; QM X = toQ(a.get_matrix()), Y = toQ(b.get_matrix()); Cmp t{c, mc::str((int)sizeof(PA)) + "/" + mc::str((int)sizeof(PB)) + " bytes"}; Q e = 40 * std::numeric_limits<PW>::epsilon() * (1 + X.fro()) * (1 + Y.fro());
	auto r = a * b; static_assert(std::is_same<decltype(r), SL<N, PW>>::value, "precision of the product"); t.mat("a*b", toQ(r.get_matrix()), X * Y, e); t.mat("a after a*b", toQ(a.get_matrix()), X, 0); if constexpr (std::is_same<PW, PA>::value) { SL<N, PA> x = a; x *= b; t.mat("a*=b", toQ(x.get_matrix()), X * Y, e); }
	Vector<N, PB> p = vec<PB, N>(point(N, j)); auto y = a * p; auto z = p * a; static_assert(std::is_same<typename std::decay<decltype(y[0])>::type, PW>::value, "precision of the action"); t.mat("a*v", toQv(y), X * toQv(p), e * 20); t.mat("v*a", toQv(z), X.T() * toQv(p), e * 20); }
template<int N> void mixed(Ctx& c) { switch (c.pick(6)) { case 0: two<N, float, double>(c); break; case 1: two<N, double, float>(c); break; case 2: two<N, float, LD>(c); break; case 3: two<N, LD, float>(c); break; case 4: two<N, double, LD>(c); break; case 5: two<N, LD, double>(c); } }
void mc_register() {
#if PART == 1
	mc::scenario("pairs of parameters, 2", pairs<2, double>); mc::scenario("pairs of parameters, 3", pairs<3, double>);
#elif PART == 2
	mc::scenario("pairs of parameters, 4", pairs<4, double>);
#elif PART == 3
	mc::scenario("dense parameters, 2", dense<2, double>); mc::scenario("dense parameters, 3", dense<3, double>); mc::scenario("dense parameters, 4", dense<4, double>); mc::scenario("dense parameters, 5", dense<5, double>);
#elif PART == 4
	mc::scenario("words, 3", words<3, double>, 4, 5); mc::scenario("words, 2", words<2, double>, 4, 5);
#elif PART == 5
	mc::scenario("words, 4", words<4, double>, 3, 4); mc::scenario("words, 5", words<5, double>, 2, 3);
#elif PART == 6
	mc::scenario("from matrices, 2", fromm<2, double>); mc::scenario("from matrices, 3", fromm<3, double>); mc::scenario("from matrices, 4", fromm<4, double>); mc::scenario("from matrices, 5", fromm<5, double>); mc::scenario("float from matrices, 3", fromm<3, float>);
#elif PART == 7
	mc::scenario("actions, 2", act<2, double>); mc::scenario("actions, 3", act<3, double>); mc::scenario("actions, 4", act<4, double>); mc::scenario("generators, 2", gens_<2, double>); mc::scenario("generators, 3", gens_<3, double>); mc::scenario("generators, 4", gens_<4, float>); mc::scenario("generators, 5", gens_<5, double>); mc::scenario("generators, 6", gens_<6, double>);
#elif PART == 8
	mc::scenario("float pairs, 2", pairs<2, float>); mc::scenario("float pairs, 3", pairs<3, float>); mc::scenario("float dense, 4", dense<4, float>); mc::scenario("float words, 3", words<3, float>, 3, 4); mc::scenario("float actions, 3", act<3, float>);
#elif PART == 9
	mc::scenario("two precisions, 2", mixed<2>); mc::scenario("two precisions, 3", mixed<3>); mc::scenario("two precisions, 4", mixed<4>); mc::scenario("long double pairs, 2", pairs<2, LD>); mc::scenario("long double pairs, 3", pairs<3, LD>); mc::scenario("long double dense, 4", dense<4, LD>); mc::scenario("long double words, 3", words<3, LD>, 3, 4); mc::scenario("long double actions, 3", act<3, LD>); mc::scenario("long double from matrices, 3", fromm<3, LD>); mc::scenario("long double from matrices, 2", fromm<2, LD>);
#endif
}
MC_MAIN()
