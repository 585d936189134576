// C19: rigid motions of the plane and of space against homogeneous matrices.
#include "groups.hh"
#if PART == 8
// elements of two precisions: every product, in-place product and action both ways, to the accuracy of the less precise operand
template<class T> struct prec_ {}; template<template<class> class G, class P> struct prec_<G<P>> { typedef P type; };
template<class G> struct dim_ { enum { D = 2, T = 0, K = 1 }; }; template<class P> struct dim_<SO3<P>> { enum { D = 3, T = 0, K = 3 }; }; template<class P> struct dim_<SE2<P>> { enum { D = 2, T = 1, K = 3 }; }; template<class P> struct dim_<SE3<P>> { enum { D = 3, T = 1, K = 6 }; }; template<class P> struct dim_<SIM2<P>> { enum { D = 2, T = 1, K = 4 }; }; template<class P> struct dim_<SIM3<P>> { enum { D = 3, T = 1, K = 7 }; };
template<class G> G make_(int k) { enum { D = dim_<G>::D, K = dim_<G>::K, T = dim_<G>::T }; typedef typename prec_<G>::type P; QM v = tangent<SIM3<LD>>((LD[]){1.5L, 0.L, -2.8L, 1e-5L, 3.L, 0.7L}[k], k, (int[]){1, 5, 2, 1, 0, 5}[k], (LD[]){0, 0.6L, -0.4L, 0.1L, 1e-7L, 0.25L}[k]); Vector<K, P> w; if constexpr (K == 1) return G((P)(LD)v(5, 0)); else { for (int i = 0; i < K; ++i) w[i] = (P)(LD)(D == 3 ? v(T ? i : 3 + i, 0) : i < 2 ? v(i, 0) : i == 2 ? v(5, 0) : v(6, 0)); return G(w); } }
template<class G> QM hm(const G& g) { enum { D = dim_<G>::D, T = dim_<G>::T }; if constexpr (T) return hom(g); else { QM m = QM::id(D + 1); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) m(i, j) = g.get_matrix()(i, j); return m; } }
template<class A, class B> void two(Ctx& c, bool inplace) { enum { D = dim_<A>::D, T = dim_<A>::T, N = T ? D + 1 : D }; typedef typename prec_<A>::type PA; typedef typename prec_<B>::type PB; typedef decltype(PA() * PB()) PW; int i = c.pick(6), j = c.pick(6); c.step(); c.state(mc::mix(i * 6 + j, sizeof(PA) * 100 + sizeof(PB)) + dim_<A>::K * 1000 + T * 50); A a = make_<A>(i); B b = make_<B>(j); QM X = hm(a), Y = hm(b); Q e = 40 * qmax(std::numeric_limits<PW>::epsilon(), 0) * (1 + X.fro()) * (1 + Y.fro()); Cmp t{c, mc::str((int)sizeof(PA)) + "/" + mc::str((int)sizeof(PB)) + " bytes, elements " + mc::str(i) + " " + mc::str(j)};
	auto r = a * b; static_assert(std::is_same<typename prec_<decltype(r)>::type, PW>::value, "precision of the product"); t.mat("a*b", hm(r), X * Y, e);
	if constexpr (dim_<A>::K != 7 && dim_<A>::K != 4) { A x = a; x *= b; t.mat("a*=b", hm(x), X * Y, 40 * qmax(std::numeric_limits<PA>::epsilon(), std::numeric_limits<PW>::epsilon()) * (1 + X.fro()) * (1 + Y.fro())); t.mat("b after a*=b", hm(b), Y, 0); }
	Vector<D, PB> p; QM q(D + 1, 1); for (int k = 0; k < D; ++k) { p[k] = PB(LD(k + 1 + j) / 3); q(k, 0) = Q(p[k]); } q(D, 0) = 1; QM w = X * q, z(D, 1); for (int k = 0; k < D; ++k) z(k, 0) = w(k, 0); auto y = a * p; static_assert(std::is_same<typename std::decay<decltype(y[0])>::type, PW>::value, "precision of the action"); t.mat("a*point", toQv(y), z, e * 20);
	Matrix<N, 2, PB> m; for (int k = 0; k < N; ++k) for (int l = 0; l < 2; ++l) m(k, l) = PB(LD(k - l + j) / 7); QM H = X; if (!T) { H = QM(D, D); for (int k = 0; k < D; ++k) for (int l = 0; l < D; ++l) H(k, l) = X(k, l); } auto am = a * m; t.mat("a*M", toQ(am), H * toQ(m), e * 20); auto ma = m.T() * a; t.mat("M*a", toQ(ma), toQ(m).T() * H, e * 20); static_assert(std::is_same<typename std::decay<decltype(am(0, 0))>::type, PW>::value && std::is_same<typename std::decay<decltype(ma(0, 0))>::type, PW>::value, "precision of the products");
	Vector<N, PB> hv = m.T()[1]; t.mat("a*v", toQv(a * hv), H * toQv(hv), e * 20); t.mat("v*a", toQv(hv * a), H.T() * toQv(hv), e * 20); }
template<template<class> class G> void mixed(Ctx& c) { switch (c.pick(9)) { case 0: two<G<float>, G<double>>(c, 1); break; case 1: two<G<double>, G<float>>(c, 1); break; case 2: two<G<float>, G<long double>>(c, 1); break; case 3: two<G<long double>, G<float>>(c, 1); break; case 4: two<G<double>, G<long double>>(c, 1); break; case 5: two<G<long double>, G<double>>(c, 1); break; case 6: two<G<float>, G<float>>(c, 1); break; case 7: two<G<double>, G<double>>(c, 1); break; case 8: two<G<long double>, G<long double>>(c, 1); } }
#endif
void mc_register() {
#if PART == 1
	mc::scenario("SE3 exp and ln", grid_angles<SE3<>>); mc::scenario("SE3 exp and ln, decades", fine<SE3<>>, 110, 400);
#elif PART == 2
	mc::scenario("SE2 exp and ln", grid_angles<SE2<>>); mc::scenario("SE2 exp and ln, decades", fine<SE2<>>, 110, 400); mc::scenario("SE2 words", words<SE2<>>, 4, 5);
#elif PART == 3
	mc::scenario("SE3 words", words<SE3<>>, 4, 5);
#elif PART == 4
	mc::scenario("SE3 actions", act<SE3<>>); mc::scenario("SE2 actions", act<SE2<>>);
#elif PART == 5
	mc::scenario("SE3 parts", construct<SE3<>>); mc::scenario("SE2 parts", construct<SE2<>>); mc::scenario("SE3 kinds", kinds_<SE3<>>); mc::scenario("SE2 kinds", kinds_<SE2<>>);
#elif PART == 6
	mc::scenario("float SE3 exp and ln", grid_angles<SE3<float>>); mc::scenario("float SE2 exp and ln", grid_angles<SE2<float>>); mc::scenario("float SE3 words", words<SE3<float>>, 3, 4); mc::scenario("float SE2 words", words<SE2<float>>, 3, 4);
#elif PART == 7
	mc::scenario("float SE3 actions", act<SE3<float>>); mc::scenario("float SE2 actions", act<SE2<float>>); mc::scenario("float SE3 parts", construct<SE3<float>>); mc::scenario("float SE2 parts", construct<SE2<float>>);
#elif PART == 8
	mc::scenario("two precisions, SO2", mixed<SO2>); mc::scenario("two precisions, SO3", mixed<SO3>); mc::scenario("two precisions, SE2", mixed<SE2>); mc::scenario("two precisions, SE3", mixed<SE3>); mc::scenario("two precisions, SIM2", mixed<SIM2>); mc::scenario("two precisions, SIM3", mixed<SIM3>);
#elif PART == 9
	mc::scenario("long double SE3 exp and ln", grid_angles<SE3<LD>>); mc::scenario("long double SE2 exp and ln", grid_angles<SE2<LD>>); mc::scenario("long double SE3 words", words<SE3<LD>>, 3, 4); mc::scenario("long double SE2 words", words<SE2<LD>>, 3, 4); mc::scenario("long double SE3 actions", act<SE3<LD>>); mc::scenario("long double SE2 parts", construct<SE2<LD>>);
#endif
}
MC_MAIN()
