// C05: every constant (scaled, divided, negated, sized) through every combining operator onto every kind of target,
// against the explicit elements.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds; typedef std::complex<double> Cd;
template<class T> T el(int i) { static const int D[] = {3, -2, 5, 7, -4, 6, 1, -8, 9, 2, -5, 4}; return T(D[i % 12]); }
// what a constant means: every element gets `all`, the leading diagonal gets `diag` on top
struct Meaning { double all, diag; string name; double at(int i, int j) const { return all + (i == j ? diag : 0); } };
template<class A, class B> bool same(const A& a, const B& b) { return a == b; }
template<class M, class W> void eqm(Ctx& c, const M& m, int r, int q, W w, const string& op) {
	if (m.num_rows() != r || m.num_cols() != q) c.fail("shape", op);
	for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) c.checkf(m(i, j) == w(i, j), "value", [&] { return op + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(m(i, j)) + ", expected " + mc::str(w(i, j)); });
}
template<class V, class W> void eqv(Ctx& c, const V& v, int n, W w, const string& op) {
	if (v.size() != n) c.fail("shape", op);
	for (int i = 0; i < n; ++i) c.checkf(v[i] == w(i), "value", [&] { return op + ": element " + mc::str(i) + " is " + mc::str(v[i]) + ", expected " + mc::str(w(i)); });
}
template<class O> struct IsZero : std::false_type {}; template<> struct IsZero<Operator<Internal::Zero>> : std::true_type {}; template<> struct IsZero<Operator<Internal::SizedZero>> : std::true_type {}; template<> struct IsZero<Operator<Internal::RCZero>> : std::true_type {};
template<class T, class M, class O> void mat_ops(Ctx& c, M& m, int r, int q, const O& k, const Meaning& e) {
	c.step(12); auto A = [&](int i, int j) { return el<T>(i * q + j); }; auto set = [&] { for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) m(i, j) = A(i, j); };
	string n = e.name; auto cst = [&](int i, int j) { return T(e.at(i, j)); };
	typedef decltype(T() + T()) S; (void)sizeof(S);
	set(); m = k; eqm(c, m, r, q, cst, "m = " + n);
	if constexpr (!IsZero<O>::value) {
		typedef decltype(T() + double()) D; const M& cm = m; set();
		auto D_ = [&](int i, int j) { return D(A(i, j)); };
		eqm(c, cm + k, r, q, [&](int i, int j) { return D_(i, j) + e.at(i, j); }, "m + " + n); eqm(c, k + cm, r, q, [&](int i, int j) { return D_(i, j) + e.at(i, j); }, n + " + m");
		eqm(c, cm - k, r, q, [&](int i, int j) { return D_(i, j) - e.at(i, j); }, "m - " + n); eqm(c, k - cm, r, q, [&](int i, int j) { return e.at(i, j) - D_(i, j); }, n + " - m");
		eqm(c, m, r, q, A, "operand afterwards");
		if (std::is_same<T, D>::value || (e.all == std::floor(e.all) && e.diag == std::floor(e.diag))) {
			set(); m += k; eqm(c, m, r, q, [&](int i, int j) { return T(A(i, j) + cst(i, j)); }, "m += " + n); m -= k; m -= k; eqm(c, m, r, q, [&](int i, int j) { return T(A(i, j) - cst(i, j)); }, "m -= " + n);
			set(); m = m + k; eqm(c, m, r, q, [&](int i, int j) { return T(A(i, j) + cst(i, j)); }, "m = m + " + n); set(); m = k - m; eqm(c, m, r, q, [&](int i, int j) { return T(cst(i, j) - A(i, j)); }, "m = " + n + " - m");
		}
	} else { set(); bool nz = false; for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) if (A(i, j) != T(0)) nz = true; c.check((m != k) == nz, "value", "m != Zeros"); m = k; c.check(!(m != k), "value", "m != Zeros after m = Zeros"); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) { m(i, j) = T(1); c.check(m != k, "value", "m != Zeros, one element set"); m(i, j) = T(0); } }
}
template<class T, class V, class O> void vec_ops(Ctx& c, V& v, int n, const O& k, const Meaning& e) {
	c.step(12); auto A = [&](int i) { return el<T>(i + 2); }; auto set = [&] { for (int i = 0; i < n; ++i) v[i] = A(i); }; T k1 = T(e.all); auto cst = [&](int) { return k1; };
	set(); v = k; eqv(c, v, n, cst, "v = " + e.name);
	if constexpr (!IsZero<O>::value) {
		typedef decltype(T() + double()) D; const V& cv = v; set(); double x = e.all;
		eqv(c, cv + k, n, [&](int i) { return D(A(i)) + x; }, "v + " + e.name); eqv(c, k + cv, n, [&](int i) { return D(A(i)) + x; }, e.name + " + v"); eqv(c, cv - k, n, [&](int i) { return D(A(i)) - x; }, "v - " + e.name); eqv(c, k - cv, n, [&](int i) { return x - D(A(i)); }, e.name + " - v");
		eqv(c, v, n, A, "operand afterwards");
		if (std::is_same<T, D>::value || x == std::floor(x)) { set(); v += k; eqv(c, v, n, [&](int i) { return T(A(i) + k1); }, "v += " + e.name); v -= k; v -= k; eqv(c, v, n, [&](int i) { return T(A(i) - k1); }, "v -= " + e.name); set(); v = v - k; eqv(c, v, n, [&](int i) { return T(A(i) - k1); }, "v = v - " + e.name); }
	} else { set(); bool nz = false; for (int i = 0; i < n; ++i) if (A(i) != T(0)) nz = true; c.check((v != k) == nz, "value", "v != Zeros"); v = k; c.check(!(v != k), "value", "v != Zeros after v = Zeros"); for (int i = 0; i < n; ++i) { v[i] = T(1); c.check(v != k, "value", "v != Zeros, one element set"); v[i] = T(0); } }
}
// f(constant, meaning): the unsized constants
enum { NS = 15, NI = 12 };
template<class F> void scalars(int k, F f) {
	switch (k) {
	case 0: f(Zeros, Meaning{0, 0, "Zeros"}); break; case 1: f(Ones, Meaning{1, 0, "Ones"}); break; case 2: f(Ones * 3, Meaning{3, 0, "Ones*3"}); break; case 3: f(-2 * Ones, Meaning{-2, 0, "-2*Ones"}); break;
	case 4: f(Ones * 0.5, Meaning{0.5, 0, "Ones*0.5"}); break; case 5: f(2.25 * Ones, Meaning{2.25, 0, "2.25*Ones"}); break; case 6: f(Ones / 2.0, Meaning{0.5, 0, "Ones/2.0"}); break; case 7: f(Ones * 3 / 2.0, Meaning{1.5, 0, "Ones*3/2.0"}); break;
	case 8: f(Ones * 6 / 2, Meaning{3, 0, "Ones*6/2"}); break; case 9: f(-Ones, Meaning{-1, 0, "-Ones"}); break; case 10: f(-(Ones * 3), Meaning{-3, 0, "-(Ones*3)"}); break; case 11: f(Ones * 2 * 0.25, Meaning{0.5, 0, "Ones*2*0.25"}); break; case 12: f(0.5 * (Ones * 3), Meaning{1.5, 0, "0.5*(Ones*3)"}); break;
	case 13: f(Ones * 1.5 / 2, Meaning{0.75, 0, "Ones*1.5/2"}); break; case 14: f(Ones * 0, Meaning{0, 0, "Ones*0"}); break;
	}
}
template<class F> void identities(int k, F f) {
	switch (k) {
	case 0: f(Identity, Meaning{0, 1, "Identity"}); break; case 1: f(Identity * 3, Meaning{0, 3, "Identity*3"}); break; case 2: f(-2 * Identity, Meaning{0, -2, "-2*Identity"}); break; case 3: f(Identity * 0.5, Meaning{0, 0.5, "Identity*0.5"}); break; case 4: f(2.25 * Identity, Meaning{0, 2.25, "2.25*Identity"}); break;
	case 5: f(Identity / 2.0, Meaning{0, 0.5, "Identity/2.0"}); break; case 6: f(Identity * 3 / 2.0, Meaning{0, 1.5, "Identity*3/2.0"}); break; case 7: f(Identity * 6 / 2, Meaning{0, 3, "Identity*6/2"}); break; case 8: f(-Identity, Meaning{0, -1, "-Identity"}); break; case 9: f(-(Identity * 3), Meaning{0, -3, "-(Identity*3)"}); break; case 10: f(0.5 * (Identity * 3), Meaning{0, 1.5, "0.5*(Identity*3)"}); break; case 11: f(Identity * 1.5 / 2, Meaning{0, 0.75, "Identity*1.5/2"}); break;
	}
}
template<class T, int N> void vecs(Ctx& c, int n) {
	int k = c.pick(VK), s = c.pick(NS); vec_kind<T, N>(k, n, [&](auto& v, const string& nm) { scalars(s, [&](const auto& o, const Meaning& e) { c.log(nm + " " + e.name); c.state(mc::mix(mc::hash_str(nm + e.name + typeid(T).name()), n)); vec_ops<T>(c, v, n, o, e); }); });
}
template<class T, int R, int C> void mats(Ctx& c, int r, int q) {
	int k = c.pick(MK), s = c.pick(NS + (r == q ? NI : 0)); mat_kind<T, R, C>(k, r, q, [&](auto& m, const string& nm) { auto go = [&](const auto& o, const Meaning& e) { c.log(nm + " " + e.name); c.state(mc::mix(mc::hash_str(nm + e.name + typeid(T).name()), r * 100 + q)); mat_ops<T>(c, m, r, q, o, e); };
		if (s < NS) scalars(s, go); else if constexpr (!clash<R, C>) identities(s - NS, go); });
}
// sized constants create (and resize) objects; construction from unsized ones keeps the static size
template<class T> void sized(Ctx& c) {
	int n = c.of({0, 1, 2, 5, 130}), r = c.of({0, 1, 2, 12}), q = c.of({0, 1, 3, 12}), w = c.pick(10); c.step(6); c.state(mc::mix(mc::hash_str(typeid(T).name()), ((n * 20 + r) * 20 + q) * 20 + w)); c.logf("sized form %d, n=%d %dx%d", w, n, r, q);
	auto vec = [&](const auto& o, double e) { Vector<Dynamic, T> v(o); eqv(c, v, n, [&](int) { return T(e); }, "Vector<>(sized)"); for (int from = 0; from < 3; ++from) { Vector<Resizable, T> z(from * 3); z = o; eqv(c, z, n, [&](int) { return T(e); }, "resizable = sized"); } Vector<Resizable, T> y(o); eqv(c, y, n, [&](int) { return T(e); }, "Vector<Resizable>(sized)"); v = Zeros; v = o; eqv(c, v, n, [&](int) { return T(e); }, "vector = sized"); };
	auto mat = [&](const auto& o, int r, int q, double all, double diag) { auto e = [&](int i, int j) { return T(all + (i == j ? diag : 0)); }; Matrix<Dynamic, Dynamic, T> a(o); eqm(c, a, r, q, e, "Matrix<>(sized)"); Matrix<Dynamic, Dynamic, T, ColMajor> b(o); eqm(c, b, r, q, e, "Matrix<ColMajor>(sized)"); Matrix<Dynamic, Dynamic, T> d(r, q); d = o; eqm(c, d, r, q, e, "matrix = sized"); };
	switch (w) {
	case 0: vec(Zeros(n), 0); mat(Zeros(r, q), r, q, 0, 0); mat(Zeros(r), r, r, 0, 0); break;
	case 1: vec(Ones(n), 1); mat(Ones(r, q), r, q, 1, 0); mat(Ones(r), r, r, 1, 0); break;
	case 2: vec(Ones(n) * 3, 3); mat(Ones(r, q) * 3, r, q, 3, 0); mat(3 * Ones(r), r, r, 3, 0); break;
	case 3: vec(-4 * Ones(n), -4); mat(-4 * Ones(r, q), r, q, -4, 0); mat((Ones * -4)(r), r, r, -4, 0); break;
	case 4: vec((Ones * 2.0)(n), 2); mat((Ones * 2.0)(r, q), r, q, 2, 0); mat(Identity(r), r, r, 0, 1); break;
	case 5: vec(-Ones(n), -1); mat(-Ones(r, q), r, q, -1, 0); mat(Identity(r) * 3, r, r, 0, 3); break;
	case 6: vec(Ones(n) * 6 / 2.0, 3); mat(Ones(r, q) * 6 / 2.0, r, q, 3, 0); mat(-2 * Identity(r), r, r, 0, -2); break;
	case 7: vec(Ones(n) / 0.5, 2); mat((Identity * 3)(r), r, r, 0, 3); mat((0.5 * Identity)(r) * 4, r, r, 0, 2); break;
	case 8: mat(-Identity(r), r, r, 0, -1); mat(Identity(r) / 0.25, r, r, 0, 4); break;
	case 9: { Vector<3, T> v(Ones); eqv(c, v, 3, [](int) { return T(1); }, "Vector<3>(Ones)"); Vector<4, T> z = Zeros; eqv(c, z, 4, [](int) { return T(0); }, "Vector<4> = Zeros"); Matrix<3, 3, T> m = Identity; eqm(c, m, 3, 3, [](int i, int j) { return T(i == j); }, "Matrix<3> = Identity"); Matrix<2, 3, T> o(Ones * 4); eqm(c, o, 2, 3, [](int, int) { return T(4); }, "Matrix<2,3>(Ones*4)"); Matrix<2, 3, T, ColMajor> p = Zeros; eqm(c, p, 2, 3, [](int, int) { return T(0); }, "ColMajor = Zeros"); Matrix<4, 4, T> i2 = Identity * 2; eqm(c, i2, 4, 4, [](int i, int j) { return T(2 * (i == j)); }, "Matrix<4> = Identity*2"); Matrix<3, Dynamic, T> h(Ones(3, q)); eqm(c, h, 3, q, [](int, int) { return T(1); }, "Matrix<3,Dynamic>(Ones(3,q))"); break; }
	}
}
// views: nothing outside the view changes
template<class P> void on_view(Ctx& c) {
	int r0 = c.pick(3), c0 = c.pick(3), r = c.pick(5 - r0), q = c.pick(6 - c0), tr = c.pick(2), w = c.pick(NS + (r == q ? NI : 0)), op = c.pick(3); c.step(3); c.state(mc::mix(mc::hash_str(typeid(P).name()), ((((r0 * 5 + c0) * 9 + r) * 9 + q) * 2 + tr) * 100 + w * 3 + op));
	P m; Matrix<4, 5> before; for (int i = 0; i < 4; ++i) for (int j = 0; j < 5; ++j) m(i, j) = before(i, j) = el<double>(i * 5 + j);
	auto go = [&](const auto& k, const Meaning& e) { c.logf("slice(%d,%d,%d,%d)%s op %d %s", r0, c0, r, q, tr ? ".T()" : "", op, e.name.c_str());
		auto apply = [&](auto&& v) { if (op == 0) v = k; else if constexpr (!IsZero<std::decay_t<decltype(k)>>::value) { if (op == 1) v += k; else v -= k; } };
		if (tr) apply(m.slice(r0, c0, r, q).T()); else apply(m.slice(r0, c0, r, q)); bool none = IsZero<std::decay_t<decltype(k)>>::value && op;
		eqm(c, m, 4, 5, [&](int i, int j) { bool in = i >= r0 && i < r0 + r && j >= c0 && j < c0 + q; double b = before(i, j), x = e.at(i - r0, j - c0); return !in || none ? b : op == 0 ? x : op == 1 ? b + x : b - x; }, "view of a 4x5 matrix with " + e.name); };
	if (w < NS) scalars(w, go); else identities(w - NS, go);
}
static void row_view(Ctx& c) {
	int i = c.pick(3), s0 = c.pick(4), n = c.pick(5 - s0), w = c.pick(NS), op = c.pick(3), col = c.pick(2); Matrix<4, 4> m; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) m(a, b) = el<double>(a * 4 + b); Matrix<4, 4> be = m; c.step(2); c.state(((i * 5 + s0) * 5 + n) * 200 + w * 6 + op * 2 + col);
	scalars(w, [&](const auto& k, const Meaning& e) { c.logf("%s %d slice(%d,%d) op %d %s", col ? "column" : "row", i, s0, n, op, e.name.c_str()); constexpr bool Z = IsZero<std::decay_t<decltype(k)>>::value;
		auto apply = [&](auto&& v) { if (op == 0) v = k; else if constexpr (!Z) { if (op == 1) v += k; else v -= k; } }; if (col) apply(m.T()[i].slice(s0, n)); else apply(m[i].slice(s0, n));
		eqm(c, m, 4, 4, [&](int a, int b) { int y = col ? a : b, x = col ? b : a; bool in = x == i && y >= s0 && y < s0 + n; return !in || (Z && op) ? be(a, b) : op == 0 ? e.all : op == 1 ? be(a, b) + e.all : be(a, b) - e.all; }, "row/column view with " + e.name); });
}
// complex targets: the forms the language itself allows (complex op int does not exist in C++)
static void complex_targets(Ctx& c) {
	int w = c.pick(7), lay = c.pick(3); c.step(10); c.state(w * 3 + lay); c.logf("complex constant %d layout %d", w, lay); auto A = [](int i, int j) { return Cd(i + 2, j - 5 * i); };
	auto run = [&](auto& m, const auto& k, Cd all, Cd diag, bool addable) { int n = m.num_rows(); auto e = [&](int i, int j) { return all + (i == j ? diag : Cd()); }; auto set = [&] { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = A(i, j); };
		constexpr bool Z = IsZero<std::decay_t<decltype(k)>>::value; constexpr bool I = std::is_same<std::decay_t<decltype(k)>, Operator<Internal::Scalars<Internal::One>>>::value; set(); m = k; eqm(c, m, n, n, e, "complex m = constant");
		if constexpr (!Z) { set(); m += k; eqm(c, m, n, n, [&](int i, int j) { return A(i, j) + e(i, j); }, "complex m += constant"); m -= k; m -= k; eqm(c, m, n, n, [&](int i, int j) { return A(i, j) - e(i, j); }, "complex m -= constant");
			if constexpr (!I) { set(); eqm(c, m + k, n, n, [&](int i, int j) { return A(i, j) + e(i, j); }, "complex m + constant"); eqm(c, k + m, n, n, [&](int i, int j) { return A(i, j) + e(i, j); }, "constant + complex m"); eqm(c, m - k, n, n, [&](int i, int j) { return A(i, j) - e(i, j); }, "complex m - constant"); eqm(c, k - m, n, n, [&](int i, int j) { return e(i, j) - A(i, j); }, "constant - complex m"); } } (void)addable;
		if constexpr (!std::is_same<std::decay_t<decltype(k)>, Operator<Internal::Identity<Internal::One>>>::value && !std::is_same<std::decay_t<decltype(k)>, Operator<Internal::Identity<double>>>::value && !std::is_same<std::decay_t<decltype(k)>, Operator<Internal::Identity<Cd>>>::value) { Vector<3, Cd> v; for (int i = 0; i < 3; ++i) v[i] = A(i, 1); if constexpr (!Z) { v += k; eqv(c, v, 3, [&](int i) { return A(i, 1) + all; }, "complex v += constant"); v -= k; v -= k; eqv(c, v, 3, [&](int i) { return A(i, 1) - all; }, "complex v -= constant"); } v = k; eqv(c, v, 3, [&](int) { return all; }, "complex v = constant"); } };
	auto go = [&](const auto& k, Cd all, Cd diag) { if (lay == 0) { Matrix<3, 3, Cd> m; run(m, k, all, diag, true); } else if (lay == 1) { Matrix<Dynamic, Dynamic, Cd, ColMajor> m(3, 3); run(m, k, all, diag, true); } else { Matrix<5, 4, Cd> p; auto m = p.template slice<1, 1, 3, 3>(); run(m, k, all, diag, true); } };
	switch (w) { case 0: go(Zeros, 0, 0); break; case 1: go(Ones, 1, 0); break; case 2: go(Ones * -2.5, -2.5, 0); break; case 3: go(Ones * Cd(1, 2), Cd(1, 2), 0); break; case 4: go(Identity, 0, 1); break; case 5: go(Identity * 0.5, 0, 0.5); break; case 6: go(Cd(3, -1) * Identity, 0, Cd(3, -1)); break; }
}
void mc_register() {
#if PART == 1
	mc::scenario("vectors double", [](Ctx& c) { vecs<double, 3>(c, 3); }); mc::scenario("vectors double size 0", [](Ctx& c) { vecs<double, 0>(c, 0); });
	mc::scenario("vectors int", [](Ctx& c) { vecs<int, 3>(c, 3); });
#elif PART == 2
	mc::scenario("vectors dynamic sizes", [](Ctx& c) { vecs<double, -2>(c, c.of({0, 1, 2, 4, 9, 17, 130})); }); mc::scenario("vectors float", [](Ctx& c) { vecs<float, 1>(c, 1); }); mc::scenario("vectors long double", [](Ctx& c) { vecs<long double, 2>(c, 2); }); mc::scenario("row and column views", row_view);
#elif PART == 3
	mc::scenario("matrices double 3x3", [](Ctx& c) { mats<double, 3, 3>(c, 3, 3); });
#elif PART == 4
	mc::scenario("matrices int 2x2", [](Ctx& c) { mats<int, 2, 2>(c, 2, 2); });
#elif PART == 5
	mc::scenario("matrices double 2x3", [](Ctx& c) { mats<double, 2, 3>(c, 2, 3); }); mc::scenario("matrices dynamic shapes", [](Ctx& c) { int r = c.of({0, 1, 2, 4, 12}); mats<double, -2, -2>(c, r, c.flip() ? r : c.of({0, 1, 3, 12})); });
#elif PART == 6
	mc::scenario("matrices float 1x1", [](Ctx& c) { mats<float, 1, 1>(c, 1, 1); }); mc::scenario("matrices float dynamic", [](Ctx& c) { mats<float, -2, -2>(c, 3, 3); });
#elif PART == 7
	mc::scenario("complex targets", complex_targets); mc::scenario("sized double", sized<double>); mc::scenario("sized int", sized<int>); mc::scenario("sized float", sized<float>);
#elif PART == 8
	mc::scenario("views rowmajor", on_view<Matrix<4, 5>>); mc::scenario("views colmajor", on_view<Matrix<4, 5, double, ColMajor>>);
#endif
}
MC_MAIN()
