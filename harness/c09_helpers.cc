// C09: norms, normalisation, projection, trace and structural helpers on all small vectors and matrices over an element
// alphabet, for every storage kind, against the definitions written out as loops.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
static bool near(LD a, LD b, LD eps) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); if (std::isinf(a) || std::isinf(b)) return a == b; return std::fabs(a - b) <= 40 * eps * std::max<LD>(std::fabs(b), 1e-30L); }
template<class P> struct Chk { Ctx& c; string k;
	void s(const char* f, P got, LD want) { c.checkf(near((LD)got, want, std::numeric_limits<P>::is_integer ? 0 : std::numeric_limits<P>::epsilon()), f, [&] { return string(f) + " of a " + k + " is " + mc::str(got) + ", expected " + mc::str(want); }); }
	void b(const char* f, bool got, bool want) { c.checkf(got == want, f, [&] { return string(f) + " of a " + k + " is " + mc::str(got); }); }
	template<class V, class W> void v(const char* f, const V& x, int n, W w) { if (x.size() != n) c.fail(f, string(f) + " of a " + k + " has size " + mc::str(x.size())); for (int i = 0; i < n; ++i) { LD e = w(i); c.checkf(near(x[i], e, std::numeric_limits<P>::is_integer ? 0 : std::numeric_limits<P>::epsilon()), f, [&] { return string(f) + " of a " + k + ": element " + mc::str(i) + " is " + mc::str(x[i]) + ", expected " + mc::str(e); }); } }
	template<class M, class W> void m(const char* f, const M& x, int r, int q, W w) { if (x.num_rows() != r || x.num_cols() != q) c.fail(f, string(f) + " of a " + k + " has shape " + mc::str(x.num_rows()) + "x" + mc::str(x.num_cols())); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { LD e = w(i, j); c.checkf(near(x(i, j), e, std::numeric_limits<P>::is_integer ? 0 : std::numeric_limits<P>::epsilon()), f, [&] { return string(f) + " of a " + k + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(x(i, j)) + ", expected " + mc::str(e); }); } } };
template<class M> using rtype = void;
template<class V> struct IsOwned : std::false_type {}; template<int N, class P> struct IsOwned<Vector<N, P>> : std::true_type {};
template<class P> vector<P> alphabet(bool big) { return big ? vector<P>{P(0), P(-3), P(4), P(1), P(-12)} : vector<P>{P(0), P(-2), P(5)}; }
template<class P, int N> void vec(Ctx& c, int n, bool big) {
	const int k = c.pick(VK); auto al = alphabet<P>(big); vector<P> x(n); uint64_t h = 77; for (int i = 0; i < n; ++i) { x[i] = c.of(al); h = mc::mix(h, (uint64_t)(long)x[i]); }
	vec_kind<P, N>(k, n, [&](auto& v, const string& nm) { typedef std::remove_reference_t<decltype(v)> V; c.step(9); c.state(mc::mix(h, mc::hash_str(nm + typeid(P).name()) + n)); c.logf("%s vector of %d", nm.c_str(), n); for (int i = 0; i < n; ++i) v[i] = x[i];
		const V& cv = v; Chk<P> t{c, nm + " vector"}; LD s2 = 0, s1 = 0, mx = 0; for (P e : x) { s2 += (LD)e * e; s1 += std::fabs((LD)e); mx = std::max(mx, std::fabs((LD)e)); }
		t.s("norm_sq", norm_sq(cv), s2); t.s("norm_1", norm_1(cv), s1); t.s("norm_inf", norm_inf(cv), mx);
		if constexpr (std::is_floating_point<P>::value) { LD nr = sqrtl(s2); t.s("norm", norm(cv), nr); t.s("norm_2", norm_2(cv), nr); t.b("isnan", isnan(cv), false); t.b("isfinite", isfinite(cv), true);
			if (s2 > 0) { t.v("unit", unit(cv), n, [&](int i) { return x[i] / nr; }); auto own = unit(cv); t.s("norm(unit)", norm(own), 1); }
			if constexpr (V::SizeParameter != 0) if (n > 0 && x[n - 1] != 0) { auto p = project(cv); t.v("project", p, n - 1, [&](int i) { return (LD)x[i] / x[n - 1]; }); } }
		{ auto u = unproject(cv); t.v("unproject", u, n + 1, [&](int i) { return i < n ? x[i] : P(1); }); }
		if constexpr (!clash<V::SizeParameter, 3>) if (n == 3) { auto m = cross_product_matrix(cv); t.m("cross_product_matrix", m, 3, 3, [&](int i, int j) { return i == j ? P(0) : j == (i + 1) % 3 ? -x[(i + 2) % 3] : x[(i + 1) % 3]; }); }
		t.v("argument afterwards", cv, n, [&](int i) { return x[i]; });
		if constexpr (std::is_floating_point<P>::value) if (s2 > 0) { if constexpr (IsOwned<std::remove_const_t<V>>::value) normalize(v); else normalize(v.as_slice()); t.v("normalize", v, n, [&](int i) { return x[i] / sqrtl(s2); }); }
		Fill(v, P(9)); t.v("Fill", v, n, [](int) { return P(9); }); });
}
template<class P, int N> void special(Ctx& c, int n) { // non-finite elements
	int k = c.pick(VK); typedef std::numeric_limits<P> L; vector<P> al{P(1), L::quiet_NaN(), L::infinity(), -L::infinity(), L::max(), L::denorm_min(), -L::signaling_NaN()}; vector<int> x(n); bool nan = false, inf = false; uint64_t h = 5; for (int i = 0; i < n; ++i) { x[i] = c.pick(7); h = mc::mix(h, x[i]); nan |= x[i] == 1 || x[i] == 6; inf |= x[i] == 2 || x[i] == 3; }
	vec_kind<P, N>(k, n, [&](auto& v, const string& nm) { c.step(2); c.state(mc::mix(h, mc::hash_str(nm + typeid(P).name()) + n)); for (int i = 0; i < n; ++i) v[i] = al[x[i]]; Chk<P> t{c, nm + " vector"}; const auto& cv = v; t.b("isnan", isnan(cv), nan); t.b("isfinite", isfinite(cv), !nan && !inf); });
}
template<class P, int R, int C> void special_m(Ctx& c, int r, int q) { int k = c.pick(MK), i = c.pick(r), j = c.pick(q), w = c.pick(4); typedef std::numeric_limits<P> L; P val = w == 0 ? P(2) : w == 1 ? L::quiet_NaN() : w == 2 ? L::infinity() : -L::max(); mat_kind<P, R, C>(k, r, q, [&](auto& m, const string& nm) { c.step(); c.state(mc::mix(mc::hash_str(nm), ((i * 9 + j) * 9 + w) * 1000 + r * 30 + q)); for (int a = 0; a < r; ++a) for (int b = 0; b < q; ++b) m(a, b) = P(a - b); m(i, j) = val; Chk<P> t{c, nm + " matrix"}; const auto& cm = m; t.b("isnan", isnan(m), w == 1); }); }
template<class P, int R, int C> void mat(Ctx& c, int r, int q, int mode) { // mode 0: all values over the alphabet; 1: patterns
	const int k = c.pick(MK); vector<P> x(r * q); uint64_t h = mode; auto al = alphabet<P>(false);
	if (mode == 0) for (auto& e : x) { e = c.of(al); h = mc::mix(h, (uint64_t)(long)e); }
	else { int p = c.pick(r * q + 3); h = mc::mix(h, p + 99); for (int i = 0; i < r * q; ++i) x[i] = p < r * q ? P(i == p ? -7 : 0) : p == r * q ? P((i * 5 + 2) % 11 - 5) : p == r * q + 1 ? P(-1 - i) : P(i % 3 ? 2 : -3); }
	mat_kind<P, R, C>(k, r, q, [&](auto& m, const string& nm) { typedef std::remove_reference_t<decltype(m)> M; constexpr int MR = Dim<M>::Rows, MC = Dim<M>::Cols; c.step(8); c.state(mc::mix(h, mc::hash_str(nm + typeid(P).name()) + r * 100 + q)); c.logf("%s matrix %dx%d", nm.c_str(), r, q);
		auto X = [&](int i, int j) { return x[i * q + j]; }; for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) m(i, j) = X(i, j);
		Chk<P> t{c, nm + " matrix"}; LD f = 0, ni = 0, n1 = 0; for (P e : x) f += (LD)e * e; for (int i = 0; i < r; ++i) { LD s = 0; for (int j = 0; j < q; ++j) s += std::fabs((LD)X(i, j)); ni = std::max(ni, s); } for (int j = 0; j < q; ++j) { LD s = 0; for (int i = 0; i < r; ++i) s += std::fabs((LD)X(i, j)); n1 = std::max(n1, s); }
		if constexpr (std::is_floating_point<P>::value) { t.s("norm_fro", norm_fro(m), sqrtl(f)); t.b("isnan", isnan(m), false); }
		t.s("norm_inf", norm_inf(m), ni); t.s("norm_1", norm_1(m), n1);
		if constexpr (!clash<MR, MC>) if (r == q) { LD tr = 0; for (int i = 0; i < r; ++i) tr += X(i, i); t.s("trace", trace(m), tr); }
		if constexpr (std::is_floating_point<P>::value && MR != 1) { bool ok = r > 1; for (int j = 0; j < q; ++j) ok = ok && X(r - 1, j) != 0; if (ok) { auto p = project(m); t.m("project", p, r - 1, q, [&](int i, int j) { return (LD)X(i, j) / X(r - 1, j); }); } }
		{ auto u = unproject(m); t.m("unproject", u, r + 1, q, [&](int i, int j) { return i < r ? X(i, j) : P(1); }); }
		if constexpr (std::is_same<P, double>::value && !clash<MR, 2> && !clash<MC, 2>) if (r == 2 && q == 2) { LD d = (LD)x[0] * x[3] - (LD)x[1] * x[2]; if (d != 0) { Matrix<2> z = inv(m); t.m("inv", z, 2, 2, [&](int i, int j) { return (i == j ? x[3 - 3 * i] : -X(i, j)) / d; }); } }
		t.m("argument afterwards", m, r, q, X);
		if constexpr (!clash<MR, MC>) if (r == q) { Symmetrize(m); t.m("Symmetrize", m, r, q, [&](int i, int j) { return P((X(i, j) + X(j, i)) / 2); }); if constexpr (std::numeric_limits<P>::is_integer) {} }
		Fill(m, P(9)); t.m("Fill", m, r, q, [](int, int) { return P(9); }); });
}
void mc_register() {
#if PART == 1
	mc::scenario("vectors of 1", [](Ctx& c) { vec<double, 1>(c, 1, true); }); mc::scenario("vectors of 2", [](Ctx& c) { vec<double, 2>(c, 2, true); }); mc::scenario("vectors of 3", [](Ctx& c) { vec<double, 3>(c, 3, true); }); mc::scenario("vectors of 4", [](Ctx& c) { vec<double, 4>(c, 4, true); });
	mc::scenario("run-time vectors", [](Ctx& c) { vec<double, -2>(c, c.pick(c.depth + 1), false); }, 7, 9);
#elif PART == 2
	mc::scenario("float vectors", [](Ctx& c) { vec<float, 3>(c, 3, true); }); mc::scenario("long double vectors", [](Ctx& c) { vec<LD, 3>(c, 3, true); }); mc::scenario("int vectors", [](Ctx& c) { vec<int, 3>(c, 3, true); });
	mc::scenario("non-finite vectors", [](Ctx& c) { special<double, 3>(c, 3); }); mc::scenario("non-finite run-time vectors", [](Ctx& c) { special<float, -2>(c, c.pick(5)); });
#elif PART == 3
	mc::scenario("matrices 1x1", [](Ctx& c) { mat<double, 1, 1>(c, 1, 1, 0); }); mc::scenario("matrices 2x2", [](Ctx& c) { mat<double, 2, 2>(c, 2, 2, 0); });
#elif PART == 4
	mc::scenario("matrices 2x3", [](Ctx& c) { mat<double, 2, 3>(c, 2, 3, 0); }); mc::scenario("matrices 3x1", [](Ctx& c) { mat<double, 3, 1>(c, 3, 1, 0); });
#elif PART == 5
	mc::scenario("matrices 3x3", [](Ctx& c) { mat<double, 3, 3>(c, 3, 3, 1); }); mc::scenario("matrices 1x3", [](Ctx& c) { mat<double, 1, 3>(c, 1, 3, 0); });
#elif PART == 6
	mc::scenario("run-time matrices", [](Ctx& c) { mat<double, -2, -2>(c, 1 + c.pick(5), 1 + c.pick(5), 1); }); mc::scenario("run-time 3x3", [](Ctx& c) { mat<double, -2, -2>(c, 3, 3, 0); }, -1, 0); mc::scenario("float matrices", [](Ctx& c) { mat<float, 2, 2>(c, 2, 2, 0); });
#elif PART == 7
	mc::scenario("int matrices", [](Ctx& c) { mat<int, 2, 2>(c, 2, 2, 0); }); mc::scenario("long double matrices", [](Ctx& c) { mat<LD, -2, -2>(c, 1 + c.pick(3), 1 + c.pick(3), 1); });
	mc::scenario("NaN matrices", [](Ctx& c) { special_m<double, 3, 2>(c, 3, 2); }); mc::scenario("NaN run-time matrices", [](Ctx& c) { special_m<float, -2, -2>(c, 1 + c.pick(4), 1 + c.pick(4)); });
#endif
}
MC_MAIN()
