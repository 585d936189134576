// C22: generators, generator fields and adjoints of every transformation group against G A G^-1 in homogeneous matrices.
#include "groups.hh"
#include <TooN/sl.h>
#undef abort
template<class G> struct Ex { static QM hom(const G& g) { return groups::hom(g); } };
template<class G> G word(Ctx& c, QM& X, int len) { typedef typename Tr<G>::T P; enum { K = Tr<G>::K }; G x; uint64_t h = Tr<G>::D * 8 + K; for (int d = 0; d < len; ++d) { int o = c.pick(NE + 2); h = mc::mix(h, o); if (o < NE) x = x * G(vec<P, K>(elt<G>(o))); else if (o == NE) x = x.inverse(); else x *= x; c.step(); c.state(mc::mix(h, d)); } X = hom(x); if (X.fro() > 1e4Q || Elim(X).inv.fro() > 1e4Q) throw mc::Prune(); return x; }
template<class G, class V> auto tia(const G& g, const V& v) -> decltype(g.trinvadjoint(v)) { return g.trinvadjoint(v); }
template<class G> constexpr bool has_tia = Tr<G>::D == 3;
template<class G> QM Ad(const QM& X) { enum { D = Tr<G>::D, K = Tr<G>::K }; QM V = Elim(X).inv, A(K, K); for (int i = 0; i < K; ++i) { QM B = X * gen(D, i) * V; for (int j = 0; j < D; ++j) A(j, i) = B(j, D); if (D == 2) A(2, i) = B(1, 0); else for (int j = 0; j < 3; ++j) A(3 + j, i) = B((j + 2) % 3, (j + 1) % 3); if (Tr<G>::SC) A(K - 1, i) = B(0, 0); } return A; }
template<class G> void adj(Ctx& c) { typedef typename Tr<G>::T P; enum { D = Tr<G>::D, K = Tr<G>::K }; QM X; G g = word<G>(c, X, c.depth); QM A = Ad<G>(X), C = Elim(A).inv.T(); Q k = eps<G>() * 200 * A.fro() * A.fro(), kc = eps<G>() * 200 * C.fro() * C.fro(); Cmp t{c, qms(X)}; Vector<K, P> b[K + 2];
	for (int s = 0; s < K + 2; ++s) { QM v(K, 1); if (s < K) v(s, 0) = 1; else for (int i = 0; i < K; ++i) v(i, 0) = gens::dense_q(i, s, 3); Vector<K, P> x = vec<P, K>(v), r = g.adjoint(x); b[s] = r; QM R = toQv(r); t.mat("adjoint", R, A * v, k * qmax(1, nrm(v))); if constexpr (has_tia<G>) { t.mat("trinvadjoint", toQv(g.trinvadjoint(x)), C * v, kc * qmax(1, nrm(v))); } }
	if constexpr (has_tia<G>) for (int i = 0; i < K; ++i) { Vector<K, P> e = Zeros; e[i] = 1; Vector<K, P> a = g.trinvadjoint(e); for (int j = 0; j < K; ++j) { Q d = 0; for (int l = 0; l < K; ++l) d += Q(a[l]) * Q(b[j][l]); t.num("duality", d, i == j, (k + kc) * 2 + eps<G>() * 200 * A.fro() * C.fro()); } }
	QM v(K, 1); for (int i = 0; i < K; ++i) v(i, 0) = gens::dense_q(i, 1, 3) * 0.05Q; Vector<K, P> x = vec<P, K>(v); G l = G::exp(g.adjoint(x)), r = g * G::exp(x) * g.inverse(); Q y = sizeof(P) == 4 ? 3000 : 300; t.mat("exp(adjoint(v))", hom(l), hom(r), eps<G>() * y * X.fro() * X.fro() * Elim(X).inv.fro() * (1 + A.fro())); 
	Matrix<K, K, P> m; QM M = gens::dense(K, K, 1); fromQ(m, M); t.mat("adjoint of a matrix", toQ(g.adjoint(m)), A * M * A.T(), eps<G>() * 3000 * A.fro() * A.fro() * A.fro()); if constexpr (has_tia<G>) t.mat("trinvadjoint of a matrix", toQ(g.trinvadjoint(m)), C * M * C.T(), eps<G>() * 3000 * C.fro() * C.fro() * C.fro()); }
template<class G> void kinds2(Ctx& c) { typedef typename Tr<G>::T P; enum { D = Tr<G>::D, K = Tr<G>::K }; int i = c.pick(NE), k = c.pick(VK + MK); G g(vec<P, K>(elt<G>(i))); QM X = hom(g), A = Ad<G>(X), C = Elim(A).inv.T(); Q tl = eps<G>() * 1e4Q * A.fro() * C.fro(); c.step(); c.state(i * 50 + k + 5000 * K); Cmp t{c, ""};
	if (k < VK) vec_kind<P, K>(k, K, [&](auto& v, const string& n) { if constexpr (has_tia<G> || std::remove_reference_t<decltype(v)>::SizeParameter == K) { t.nm = n; for (int s = 0; s < 3; ++s) { QM p(K, 1); for (int i = 0; i < K; ++i) p(i, 0) = gens::dense_q(i, s, 3); for (int i = 0; i < K; ++i) v[i] = (P)(LD)p(i, 0); t.mat("adjoint", toQv(g.adjoint(v)), A * p, tl); if constexpr (has_tia<G>) t.mat("trinvadjoint", toQv(g.trinvadjoint(v)), C * p, tl); for (int i = 0; i < K; ++i) c.check(Q(v[i]) == Q((P)(LD)p(i, 0)), "argument changed"); v = g.adjoint(v); t.mat("v = adjoint(v)", toQv(v), A * p, tl); } } });
	else mat_kind<P, K, K>(k - VK, K, K, [&](auto& m, const string& n) { typedef Dim<std::remove_reference_t<decltype(m)>> Y; if constexpr (has_tia<G> || (Y::Rows == K && Y::Cols == K)) { t.nm = n; QM M = gens::dense(K, K, 4); fromQ(m, M); t.mat("adjoint of a matrix", toQ(g.adjoint(m)), A * M * A.T(), tl * 10); if constexpr (has_tia<G>) t.mat("trinvadjoint of a matrix", toQ(g.trinvadjoint(m)), C * M * C.T(), tl * 10); m = g.adjoint(m); t.mat("m = adjoint(m)", toQ(m), A * M * A.T(), tl * 10); } }); }
template<class G> void genr(Ctx& c) { typedef typename Tr<G>::T P; enum { D = Tr<G>::D, K = Tr<G>::K }; int i = c.pick(K); c.step(); c.state(i + 100 * K + 7777777); Cmp t{c, mc::str(i)}; QM W = gen(D, i); t.mat("generator", toQ(G::generator(i)), W, 0); Q h = sizeof(P) == 4 ? 1e-3Q : 1e-5Q; QM v(K, 1); v(i, 0) = h; v = rnd<P>(v); h = v(i, 0); QM d = (hom(G::exp(vec<P, K>(v))) - hom(G::exp(vec<P, K>(v * -1)))) * (1 / (2 * h)); t.mat("derivative of exp", d, W, h * h + eps<G>() / h * 4);
	if constexpr (D == 3) for (int k = 0; k < VK; ++k) vec_kind<P, 4>(k, 4, [&](auto& x, const string& n) { if constexpr (std::remove_reference_t<decltype(x)>::SizeParameter == 4) { t.nm = n + " " + mc::str(i); for (int s = 0; s < 5; ++s) { QM p = point(4, s); if (s == 4) { p = QM(4, 1); p(3, 0) = 1; } for (int j = 0; j < 4; ++j) x[j] = (P)(LD)p(j, 0); t.mat("generator_field", toQv(G::generator_field(i, x)), W * p, eps<G>() * 10); } } }); }
template<class P> void so(Ctx& c) { int i = c.pick(3), k = c.pick(VK), a = c.pick(6); Cmp t{c, mc::str(i)}; c.step(); c.state(i * 100 + k * 10 + a); QM W(3, 3); W((i + 1) % 3, (i + 2) % 3) = -1; W((i + 2) % 3, (i + 1) % 3) = 1; t.mat("SO3 generator", toQ(SO3<P>::generator(i)), W, 0); QM J(2, 2); J(0, 1) = -1; J(1, 0) = 1; t.mat("SO2 generator", toQ(SO2<P>::generator()), J, 0); P h = P(sizeof(P) == 4 ? 1e-3 : 1e-5); Vector<3, P> v = Zeros; v[i] = h; t.mat("SO3 derivative of exp", (toQ(SO3<P>::exp(v).get_matrix()) - toQ(SO3<P>::exp(-v).get_matrix())) * (1 / (2 * Q(h))), W, Q(h) * h + precision<P>() / Q(h) * 4); t.mat("SO2 derivative of exp", (toQ(SO2<P>::exp(h).get_matrix()) - toQ(SO2<P>::exp(-h).get_matrix())) * (1 / (2 * Q(h))), J, Q(h) * h + precision<P>() / Q(h) * 4);
	static const double th[] = {0, 1, 3.1, 1e-5, 2, 0.5}; QM w = rnd<P>(axis(a * 2 + 3) * Q(th[a])), R = rot3(w); SO3<P> g(vec<P, 3>(w)); vec_kind<P, 3>(k, 3, [&](auto& x, const string& n) { t.nm = n; for (int s = 0; s < 4; ++s) { QM p = point(3, s); for (int j = 0; j < 3; ++j) x[j] = (P)(LD)p(j, 0); if constexpr (std::remove_reference_t<decltype(x)>::SizeParameter == 3) t.mat("SO3 generator_field", toQv(SO3<P>::generator_field(i, x)), W * p, 0); t.mat("SO3 adjoint", toQv(g.adjoint(x)), R * p, precision<P>() * 200.Q); Vector<3, P> y = x; t.mat("SO3 exp(adjoint(v))", toQ(SO3<P>::exp(g.adjoint(y)).get_matrix()), toQ((g * SO3<P>::exp(y) * g.inverse()).get_matrix()), precision<P>() * 1000.Q); } }); }
template<int N> void slg(Ctx& c) { enum { K = N * N - 1 }; int i = c.pick(K); c.step(); c.state(i + 1000 * N + 99999); Cmp t{c, mc::str(i)}; double h = 1e-5; Vector<K> v = Zeros; v[i] = h; QM W = toQ(SL<N>::generator(i)); t.mat("SL derivative of exp", (toQ(SL<N>::exp(v).get_matrix()) - toQ(SL<N>::exp(-v).get_matrix())) * (1 / (2 * Q(h))), W, 1e-9Q); Q tr = 0; for (int k = 0; k < N; ++k) tr += W(k, k); t.num("trace", tr, 0, 0); }
void mc_register() {
#if PART == 1
	mc::scenario("SE3 adjoint", adj<SE3<>>, 4, 5);
#elif PART == 2
	mc::scenario("SIM3 adjoint", adj<SIM3<>>, 4, 5);
#elif PART == 3
	mc::scenario("SE2 adjoint", adj<SE2<>>, 4, 6); mc::scenario("SIM2 adjoint", adj<SIM2<>>, 4, 6);
#elif PART == 4
	mc::scenario("SE3 kinds", kinds2<SE3<>>); mc::scenario("SE2 kinds", kinds2<SE2<>>); 
#elif PART == 5
	mc::scenario("SIM3 kinds", kinds2<SIM3<>>); mc::scenario("SIM2 kinds", kinds2<SIM2<>>);
#elif PART == 6
	mc::scenario("SE3 generators", genr<SE3<>>); mc::scenario("SE2 generators", genr<SE2<>>); mc::scenario("SIM3 generators", genr<SIM3<>>); mc::scenario("SIM2 generators", genr<SIM2<>>); mc::scenario("float SE3 generators", genr<SE3<float>>); mc::scenario("float SIM3 generators", genr<SIM3<float>>); mc::scenario("float SE2 generators", genr<SE2<float>>); mc::scenario("rotations", so<double>); mc::scenario("float rotations", so<float>); mc::scenario("SL2", slg<2>); mc::scenario("SL3", slg<3>); mc::scenario("SL4", slg<4>);
#elif PART == 7
	mc::scenario("float SE3 adjoint", adj<SE3<float>>, 3, 4); mc::scenario("float SIM3 adjoint", adj<SIM3<float>>, 3, 4); mc::scenario("float SE2 adjoint", adj<SE2<float>>, 3, 4); mc::scenario("float SIM2 adjoint", adj<SIM2<float>>, 3, 4);
#elif PART == 8
	mc::scenario("long double SE3 adjoint", adj<SE3<LD>>, 3, 4); mc::scenario("long double SIM3 adjoint", adj<SIM3<LD>>, 3, 4); mc::scenario("long double SE2 adjoint", adj<SE2<LD>>, 3, 4); mc::scenario("long double SIM2 adjoint", adj<SIM2<LD>>, 3, 4);
#endif
}
MC_MAIN()
