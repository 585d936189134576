// C28: named-element vectors against plain vectors over histories and every operation; planar complex vectors against
// ordinary complex vectors.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/internal/planar_complex.hh>
#include <TooN/named_elements.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/se2.h>
#include <TooN/sl.h>
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/SVD.h>
#include <TooN/wls.h>
#include <TooN/gaussian_elimination.h>
#undef abort
#include <sstream>
#include "mc.hh"
TOON_MAKE_NAMED_ELEMENT_VECTOR(V1, a)
TOON_MAKE_NAMED_ELEMENT_VECTOR(V2, x, y)
TOON_MAKE_NAMED_ELEMENT_VECTOR(V3, alpha, beta, gam)
TOON_MAKE_NAMED_ELEMENT_VECTOR(V4, z, y, x, w)
TOON_MAKE_NAMED_ELEMENT_VECTOR(V7, p, q, r, s, t, u, v)
using mc::Ctx; using TooN::Dynamic; using TooN::Matrix; using TooN::Vector; typedef std::string Str; template<class T> using Vec = std::vector<T>;
template<class P> P name(V1<P>& v, int) { return v.a; } template<class P> P name(V2<P>& v, int i) { return i == 0 ? v.x : v.y; } template<class P> P name(V3<P>& v, int i) { return i == 0 ? v.alpha : i == 1 ? v.beta : v.gam; } template<class P> P name(V4<P>& v, int i) { return i == 0 ? v.z : i == 1 ? v.y : i == 2 ? v.x : v.w; } template<class P> P name(V7<P>& v, int i) { return i == 0 ? v.p : i == 1 ? v.q : i == 2 ? v.r : i == 3 ? v.s : i == 4 ? v.t : i == 5 ? v.u : v.v; }
template<class P> void setname(V1<P>& v, int, P e) { v.a = e; } template<class P> void setname(V2<P>& v, int i, P e) { (i == 0 ? v.x : v.y) = e; } template<class P> void setname(V3<P>& v, int i, P e) { (i == 0 ? v.alpha : i == 1 ? v.beta : v.gam) = e; } template<class P> void setname(V4<P>& v, int i, P e) { (i == 0 ? v.z : i == 1 ? v.y : i == 2 ? v.x : v.w) = e; } template<class P> void setname(V7<P>& v, int i, P e) { (i == 0 ? v.p : i == 1 ? v.q : i == 2 ? v.r : i == 3 ? v.s : i == 4 ? v.t : i == 5 ? v.u : v.v) = e; }
template<class T> Str es(const T& t) { std::ostringstream s; s << std::setprecision(20) << t; return s.str(); }
template<int N, class P, class B> void gwrite(Vector<N, P, B>& v, P e) { v[v.size() - 1] = e; } // through a generic interface
template<class NV, int N, class P> void histories(Ctx& c) { typedef Vector<N, P> V; NV a, b; Vec<P> m[2]; m[0].resize(N); m[1].resize(N); NV* o[2] = {&a, &b}; for (int i = 0; i < N; ++i) { a[i] = m[0][i] = P(i + 1); b[i] = m[1][i] = P(10 * i - 3); } uint64_t h = N + 100 * sizeof(P) + (std::is_integral<P>::value ? 77 : 0); c.check(sizeof(NV) == N * sizeof(P), "size", "a named vector has extra storage");
	auto cmp = [&] { for (int k = 0; k < 2; ++k) { NV& v = *o[k]; const NV& cv = v; c.check(v.size() == N && V::SizeParameter == N, "size", "size"); for (int i = 0; i < N; ++i) c.checkf(v[i] == m[k][i] && cv[i] == m[k][i] && name(v, i) == m[k][i] && (&v[0])[i] == m[k][i], "element", [&] { return Str(k ? "second" : "first") + " vector: element " + mc::str(i) + " is " + es(v[i]) + ", by name " + es(name(v, i)) + ", should be " + es(m[k][i]); }); } };
	cmp(); for (int step = 0; step < c.depth; ++step) { int op = c.pick(29), t = op < 20 ? c.pick(2) : 0; h = mc::mix(h, op * 2 + t); c.step(); NV& v = *o[t]; NV& w = *o[1 - t]; Vec<P>&x = m[t], &y = m[1 - t]; V pl; for (int i = 0; i < N; ++i) pl[i] = P(7 - i * i); c.logf("%d.%d", op, t);
		switch (op) { case 0: v = pl; for (int i = 0; i < N; ++i) x[i] = pl[i]; break; case 1: v = w; x = y; break; case 2: { Vector<Dynamic, P> d(N); for (int i = 0; i < N; ++i) d[i] = x[i] = P(3 * i + step); v = d; break; } case 3: v[N - 1] = x[N - 1] = P(40 + step); break; case 4: for (int i = 0; i < N; ++i) { setname(v, i, P(50 + i + step)); x[i] = P(50 + i + step); } break; case 5: { int i = step % N; setname(v, i, P(-60)); x[i] = P(-60); break; }
			case 6: v += w; for (int i = 0; i < N; ++i) x[i] += y[i]; break; case 7: v -= pl; for (int i = 0; i < N; ++i) x[i] -= pl[i]; break; case 8: v *= P(2); for (auto& e : x) e *= P(2); break; case 9: v = TooN::Zeros; for (auto& e : x) e = P(0); break; case 10: v = TooN::Ones * P(3); for (auto& e : x) e = P(3); break; case 11: v = v + w; for (int i = 0; i < N; ++i) x[i] += y[i]; break; case 12: { auto s = v.template slice<0, 1>(); s[0] = x[0] = P(-70); break; } case 13: { auto s = v.slice(N - 1, 1); s[0] = x[N - 1] = P(-71); break; } case 14: { Matrix<2, N, P> mm; for (int i = 0; i < N; ++i) { mm(0, i) = P(0); mm(1, i) = x[i] = P(i * 2 - 1); } v = mm[1]; break; } case 15: { Matrix<N, 2, P> mm; for (int i = 0; i < N; ++i) { mm(i, 0) = P(0); mm(i, 1) = x[i] = P(i * 2 + 5); } v = mm.T()[1]; break; } case 16: gwrite(v, P(81)); x[N - 1] = P(81); break; case 17: { NV n(v); n[0] = P(99); v = n; x[0] = P(99); break; } case 18: v = -w; for (int i = 0; i < N; ++i) x[i] = -y[i]; break; case 19: { V p2 = v; p2[0] = P(12); v = p2; x[0] = P(12); break; }
			case 20: std::swap(a, b); std::swap(m[0], m[1]); break; case 21: { NV n(std::move(a)); a = b; m[0] = m[1]; b = n; NV k = n; for (int i = 0; i < N; ++i) m[1][i] = k[i]; break; } case 22: { NV n = pl; for (int i = 0; i < N; ++i) c.check(name(n, i) == pl[i], "construct", "from a plain vector"); a = n; for (int i = 0; i < N; ++i) m[0][i] = pl[i]; break; } case 23: { NV n; for (int i = 0; i < N; ++i) (&n[0])[i] = m[0][i]; c.check(n == a && !(n != a), "compare", "equal vectors"); break; } case 24: { NV n = TooN::Zeros; for (int i = 0; i < N; ++i) c.check(n[i] == P(0) && name(n, i) == P(0), "construct", "from Zeros"); b = n; for (auto& e : m[1]) e = P(0); break; } case 25: { NV n(TooN::Ones); for (int i = 0; i < N; ++i) c.check(name(n, i) == P(1), "construct", "from Ones"); a = n; for (auto& e : m[0]) e = P(1); break; } case 26: { if constexpr (N == 1) TooN::Fill(a) = P(4); else if constexpr (N == 2) TooN::Fill(a) = P(4), P(5); else if constexpr (N == 3) TooN::Fill(a) = P(4), P(5), P(6); else if constexpr (N == 4) TooN::Fill(a) = P(4), P(5), P(6), P(7); else TooN::Fill(a) = P(4), P(5), P(6), P(7), P(8), P(9), P(10); for (int i = 0; i < N; ++i) m[0][i] = P(4 + i); break; } case 27: { std::istringstream is(es(b)); NV n; is >> n; c.check(!is.fail() && n == b, "stream", "round trip"); a = n; m[0] = m[1]; break; } case 28: { NV n(a + b); for (int i = 0; i < N; ++i) { P e = m[0][i] + m[1][i]; c.check(name(n, i) == e, "construct", "from a sum"); m[0][i] = e; } a = n; break; } }
		cmp(); c.state(h); } }
struct Rec { Vec<Str> out; template<class T> void operator()(const char* n, const T& t) { out.push_back(Str(n) + ": " + es(t)); } };
// every operation taking a vector, applied to v (of any kind), with partner u
template<int N, class P, bool Cplx, class V, class U> void operations(V& v, U& u, Rec& r) { Matrix<N, N, P> m; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m(i, j) = P(i == j ? 5 + i : i - 2 * j); Matrix<2, N, P> k = m.template slice<0, 0, (N > 1 ? 1 : 1), N>().num_rows() ? Matrix<2, N, P>(TooN::Zeros) : Matrix<2, N, P>(TooN::Zeros); k[1] = m[N - 1]; Matrix<Dynamic, Dynamic, P> dm = m;
	r("self", v); r("size", v.size()); r("element", v[N - 1]); r("copy", Vector<N, P>(v)); r("dynamic copy", Vector<Dynamic, P>(v)); r("sum", v + u); r("sum 2", u + v); r("difference", v - u); r("difference 2", u - v); r("negative", -v); r("scaled", v * P(3)); r("scaled 2", P(3) * v); r("divided", v / P(2)); r("dot", v * u); r("dot 2", u * v); r("product", m * v); r("product 2", v * m); r("product 3", k * v); r("dynamic product", dm * v); r("dynamic product 2", v * dm); r("diagmult", TooN::diagmult(v, u)); r("diagmult matrix", TooN::diagmult(v, m)); r("equal", v == u); r("unequal", v != u); r("equal 2", u == v); r("slice", v.template slice<0, 1>()); r("slice 2", v.slice(0, N)); r("slice 3", v.template slice<N - 1, 1>()); if constexpr (!Cplx) { r("Ones", v + TooN::Ones); r("Ones 2", TooN::Ones * P(2) - v); } r("nested", (v + u) * (v - u)); { Vector<N, P> w = v; w += v; r("+=", w); w -= u; r("-=", w); w = v; r("=", w); } { Vector<N, P> w = u; Matrix<N, N, P> q = m; q[0] = v; r("row", q); q.T()[N - 1] = v; r("column", q); w.slice(0, N) = v; r("into a slice", w); } { const V& cv = v; r("const", cv[0]); r("const slice", cv.slice(0, N)); r("const sum", cv + cv); } { TooN::DiagonalMatrix<N, P> d(v); r("diagonal", d * u); r("diagonal 2", m * d); }
	if constexpr (!Cplx) { if constexpr (N > 1) if (v[N - 1] != 0) { r("project", TooN::project(v)); } r("unproject", TooN::unproject(v)); r("row matrix", v.as_row()); r("column matrix", v.as_col()); r("outer", v.as_col() * u.as_row()); r("diagonal view", v.as_diagonal() * u); r("diagonal view 2", m * v.as_diagonal()); r("norm_1", TooN::norm_1(v)); r("norm_inf", TooN::norm_inf(v)); r("min", TooN::min_value(v)); r("max", TooN::max_value(v)); r("min element", TooN::min_element(v).first); r("max element", TooN::max_element(v).second); if constexpr (N == 3) { r("cross", v ^ u); r("cross 2", u ^ v); r("cross matrix", TooN::cross_product_matrix(v)); }
		if constexpr (std::is_floating_point<P>::value) { r("norm", TooN::norm(v)); r("norm_sq", TooN::norm_sq(v)); r("norm_fro", TooN::norm_2(v)); if (TooN::norm_sq(v) > 0) r("unit", TooN::unit(v)); r("LU", TooN::LU<N, P>(m).backsub(v)); r("SVD", TooN::SVD<N, N, P>(m).backsub(v)); r("Cholesky", TooN::Cholesky<N, P>(m * m.T()).backsub(v)); { TooN::WLS<N, P> w; w.add_prior(P(1)); w.add_mJ(P(2), v, P(1)); w.add_mJ(P(2), u, P(3)); w.compute(); r("WLS", w.get_mu()); } if constexpr (N == 1) { } if constexpr (N == 2) { r("SO2", TooN::SO2<P>(P(0.5)) * v); r("SO2 2", v * TooN::SO2<P>(P(0.5))); r("SE2", TooN::SE2<P>(TooN::makeVector(P(1), P(2), P(0.5))) * v); } if constexpr (N == 3) { r("SO3", TooN::SO3<P>(v)); TooN::SO3<P> g(TooN::makeVector(P(0.1), P(0.2), P(0.3))); r("SO3 *", g * v); r("* SO3", v * g); if (v * u >= 0) r("SO3 between", TooN::SO3<P>(v, u * P(1))); r("SO3 adjoint", g.adjoint(v)); r("SO3 exp", TooN::SO3<P>::exp(v)); r("SO3 generator", TooN::SO3<P>::generator_field(1, v)); TooN::SE3<P> e(g, TooN::makeVector(P(1), P(2), P(3))); r("SE3 *", e * v); r("SE3 translation", TooN::SE3<P>(g, v)); r("SL", TooN::SL<3, P>(m) * v); r("SE2 homogeneous", TooN::SE2<P>(TooN::makeVector(P(1), P(2), P(0.5))) * v); } if constexpr (N == 4) { TooN::SE3<P> e(TooN::makeVector(P(1), P(2), P(3), P(0.1), P(0.2), P(0.3))); r("SE3 * homogeneous", e * v); r("homogeneous * SE3", v * e); } } } }
static const int VALS[] = {0, 1, -2, 3};
template<class NV, int N, class P, int NVAL> void equivalence(Ctx& c) { NV v, u2; Vector<N, P> pv, u; for (int i = 0; i < N; ++i) v[i] = pv[i] = P(VALS[i < 4 ? c.pick(NVAL) : i % 4]); for (int i = 0; i < N; ++i) u[i] = u2[i] = P(VALS[i < 2 ? c.pick(NVAL) : (i + 1) % 4]); c.state(mc::mix(mc::hash_str(es(v) + es(u)), N * 100 + sizeof(P) + std::is_integral<P>::value * 7)); c.log(es(v) + " with " + es(u)); Rec a, b, d, e; operations<N, P, false>(pv, u, a); operations<N, P, false>(v, u, b); operations<N, P, false>(v, u2, d); operations<N, P, false>(pv, u2, e); c.check(a.out.size() == b.out.size(), "list", "operations"); for (size_t i = 0; i < a.out.size(); ++i) { c.checkf(a.out[i] == b.out[i], "operation", [&] { return "plain gives " + a.out[i] + ", named " + b.out[i]; }); c.checkf(a.out[i] == d.out[i], "operation", [&] { return "plain gives " + a.out[i] + ", two named " + d.out[i]; }); c.checkf(a.out[i] == e.out[i], "operation", [&] { return "plain gives " + a.out[i] + ", with named on the right " + e.out[i]; }); } }
template<class P, int N> void planar(Ctx& c, int nval) { typedef std::complex<P> C; int kind = c.pick(4); P mem[4 * N + 4]; for (auto& e : mem) e = P(91); P *re = mem + 1, *im = mem + (kind & 1 ? 2 * N + 3 : N + 2); Vector<N, C> pv, u; for (int i = 0; i < N; ++i) { int k = i < 2 ? c.pick(nval * nval) : i * 3; re[i] = P(VALS[k % nval]); im[i] = P(VALS[k / nval % nval]); pv[i] = C(re[i], im[i]); u[i] = C(P(i + 1), P(2 - i)); } c.log(es(pv)); c.state(mc::mix(mc::hash_str(es(pv)), N * 100 + sizeof(P) + kind * 1000)); Rec a, b, d, e;
	Vec<P> before(mem, mem + 4 * N + 4); operations<N, C, true>(pv, u, a); auto compare = [&](const char* w) { for (size_t i = 0; i < a.out.size(); ++i) c.checkf(i < b.out.size() && a.out[i] == b.out[i], "operation", [&] { return "ordinary gives " + a.out[i] + ", " + w + " " + b.out[i]; }); b.out.clear(); };
	if (kind < 2) { Vector<N, C, TooN::ReferencePlanarComplex> v(std::make_pair(re, im)); operations<N, C, true>(v, u, b); compare("planar"); operations<N, C, true>(v, pv, b); Rec f; operations<N, C, true>(pv, pv, f); a = f; compare("planar with itself"); operations<N, C, true>(pv, v, b); compare("planar on the right"); operations<N, C, true>(v, v, b); compare("planar twice"); re[0] = P(17); im[N - 1] = P(-18); c.check(v[0].real() == P(17) && v[N - 1].imag() == P(-18), "aliases", "a write to the arrays is not seen"); auto w = v; im[0] = P(5); c.check(w[0] == C(P(17), P(5)), "aliases", "a copy of the view does not see a write"); for (int i = 0; i < N; ++i) for (int n = 1; n + i <= N; ++n) { auto s = v.slice(i, n); auto t = s.slice(0, n); for (int j = 0; j < n; ++j) c.check(s[j] == C(re[i + j], im[i + j]) && t[j] == s[j], "slice", "element of a slice"); } }
	else { const P *cr = re, *ci = im; Vector<Dynamic, C, TooN::ReferencePlanarComplex> v = kind == 2 ? Vector<Dynamic, C, TooN::ReferencePlanarComplex>(std::make_pair(re, im), N) : Vector<Dynamic, C, TooN::ReferencePlanarComplex>(std::make_pair(cr, ci), N); operations<N, C, true>(v, u, b); compare("dynamic planar"); for (int i = 0; i < N; ++i) for (int n = 1; n + i <= N; ++n) { auto s = v.slice(i, n); for (int j = 0; j < n; ++j) c.check(s[j] == C(re[i + j], im[i + j]), "slice", "element of a slice"); } re[N - 1] = P(17); c.check(v[N - 1] == C(P(17), im[N - 1]), "aliases", "a write to the arrays is not seen"); re[N - 1] = before[re + N - 1 - mem]; }
	if (kind >= 2) c.check(Vec<P>(mem, mem + 4 * N + 4) == before, "memory", "the arrays or their surroundings are modified"); }
void mc_register() {
#if PART == 1
	mc::scenario("histories of 3 names", [](Ctx& c) { histories<V3<>, 3, double>(c); }, 3, 4); mc::scenario("histories of 1 name", [](Ctx& c) { histories<V1<>, 1, double>(c); }, 3, 3); mc::scenario("histories of 7 names", [](Ctx& c) { histories<V7<>, 7, double>(c); }, 2, 3); mc::scenario("histories of 2 names, float", [](Ctx& c) { histories<V2<float>, 2, float>(c); }, 2, 3); mc::scenario("histories of 4 names, int", [](Ctx& c) { histories<V4<int>, 4, int>(c); }, 2, 3);
#elif PART == 2
	mc::scenario("operations on 3 names", [](Ctx& c) { equivalence<V3<>, 3, double, 4>(c); }); mc::scenario("operations on 2 names", [](Ctx& c) { equivalence<V2<>, 2, double, 4>(c); });
#elif PART == 3
	mc::scenario("operations on 4 names", [](Ctx& c) { equivalence<V4<>, 4, double, 4>(c); }); mc::scenario("operations on 1 name", [](Ctx& c) { equivalence<V1<>, 1, double, 4>(c); });
#elif PART == 4
	mc::scenario("operations on 3 names, float", [](Ctx& c) { equivalence<V3<float>, 3, float, 3>(c); }); mc::scenario("operations on 2 names, int", [](Ctx& c) { equivalence<V2<int>, 2, int, 4>(c); });
#elif PART == 5
	mc::scenario("planar 3", [](Ctx& c) { planar<double, 3>(c, 4); }); mc::scenario("planar 1", [](Ctx& c) { planar<double, 1>(c, 4); }); mc::scenario("planar 2, float", [](Ctx& c) { planar<float, 2>(c, 4); });
#endif
}
MC_MAIN()
