// C07: every list-style initialisation, list length, shape, layout, view and element type: the k-th value is the k-th
// element, row by row, and nothing else changes.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds; typedef std::complex<double> Cd;
template<class T> T val(int k) { return T((k * 7 + 3) % 101) - T(k % 2 ? 60 : 0); }
template<> Cd val<Cd>(int k) { return Cd(k + 1.25, -2 * k); }
template<> double val<double>(int k) { return (k * 7 + 3) % 101 - (k % 2 ? 60 : 0) + 0.5 + std::ldexp(1., -40); }
template<class M, class W> void eqm(Ctx& c, const M& m, int r, int q, W w, const string& op) {
	if (m.num_rows() != r || m.num_cols() != q) c.fail("shape", op + ": shape " + mc::str(m.num_rows()) + "x" + mc::str(m.num_cols()));
	for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) c.checkf(m(i, j) == w(i, j), "value", [&] { return op + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(m(i, j)) + ", expected " + mc::str(w(i, j)); });
}
template<class V, class W> void eqv(Ctx& c, const V& v, int n, W w, const string& op) {
	if (v.size() != n) c.fail("shape", op + ": size " + mc::str(v.size()));
	for (int i = 0; i < n; ++i) c.checkf(v[i] == w(i), "value", [&] { return op + ": element " + mc::str(i) + " is " + mc::str(v[i]) + ", expected " + mc::str(w(i)); });
}
// comma chain of n values; all fillers stay alive until the last one is destroyed, as in a full expression
template<int N, int MAX, class T, class F> void chain(F&& f, int n, int& done) { if constexpr (N < MAX) { if (N < n) { auto g = (f, val<T>(N)); ++done; chain<N + 1, MAX, T>(g, n, done); } } }
template<int MAX, class T, class X> void fill(X& x, int n) { if (n == 0) return; int d = 1; auto s = Fill(x); auto f = (s = val<T>(0)); chain<1, MAX, T>(f, n, d); }
template<class T, int N, int MAX> void fill_vec(Ctx& c, int n) {
	int k = c.pick(VK); if (n == 0) throw mc::Prune(); vec_kind<T, N>(k, n, [&](auto& v, const string& nm) { c.step(n); c.logf("Fill %s of %d", nm.c_str(), n); c.state(mc::mix(mc::hash_str(nm + typeid(T).name()), n)); fill<(N >= 0 ? N : MAX), T>(v, n); eqv(c, v, n, [](int i) { return val<T>(i); }, "Fill(" + nm + " vector)"); });
}
template<class T, int R, int C, int MAX> void fill_mat(Ctx& c, int r, int q) {
	int k = c.pick(MK); mat_kind<T, R, C>(k, r, q, [&](auto& m, const string& nm) { c.step(r * q); c.logf("Fill %s of %dx%d", nm.c_str(), r, q); c.state(mc::mix(mc::hash_str(nm + typeid(T).name()), r * 100 + q)); fill<(R >= 0 ? R * C : MAX), T>(m, r * q); eqm(c, m, r, q, [&](int i, int j) { return val<T>(i * q + j); }, "Fill(" + nm + " matrix)"); });
}
template<class P> void fill_view(Ctx& c) { // slices of a 5x6 matrix: shape, place, transposition
	int r = c.pick(5), q = c.pick(6), r0 = c.pick(5 - r), c0 = c.pick(6 - q), tr = c.pick(2); ++r; ++q; if (r * q > 16) throw mc::Prune(); P m; Matrix<5, 6> b; for (int i = 0; i < 5; ++i) for (int j = 0; j < 6; ++j) m(i, j) = b(i, j) = 1000 + i * 6 + j;
	c.logf("Fill slice(%d,%d,%d,%d)%s", r0, c0, r, q, tr ? ".T()" : ""); c.step(r * q); c.state(((((r * 7 + q) * 7 + r0) * 7 + c0) * 2 + tr) * 2 + std::is_same<P, Matrix<5, 6>>::value);
	if (tr) { auto s = m.slice(r0, c0, r, q).T(); fill<16, double>(s, r * q); } else { auto s = m.slice(r0, c0, r, q); fill<16, double>(s, r * q); }
	eqm(c, m, 5, 6, [&](int i, int j) { int a = i - r0, e = j - c0; return a < 0 || a >= r || e < 0 || e >= q ? b(i, j) : val<double>(tr ? e * r + a : a * q + e); }, "Fill of a slice");
}
static void fill_row(Ctx& c) {
	int i = c.pick(4), s = c.pick(5), n = 1 + c.pick(5 - s), col = c.pick(2); Matrix<5, 5> m; for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) m(a, b) = a * 5 + b + 1000; c.step(n); c.state(((i * 5 + s) * 6 + n) * 2 + col);
	if (col) { auto v = m.T()[i].slice(s, n); fill<5, double>(v, n); } else { auto v = m[i].slice(s, n); fill<5, double>(v, n); }
	eqm(c, m, 5, 5, [&](int a, int b) { int y = col ? a : b, x = col ? b : a; return x == i && y >= s && y < s + n ? val<double>(y - s) : a * 5 + b + 1000; }, "Fill of a row or column view");
}
// Data(...)
template<class T, size_t... I> auto data_(std::index_sequence<I...>) { return Data(val<T>(I)...); }
template<int N, class T> auto data() { return data_<T>(std::make_index_sequence<N>()); }
template<int N> void data_vec(Ctx& c) {
	auto run = [&](auto t, auto u) { typedef decltype(t) S; typedef decltype(u) T; auto w = [](int i) { return T(val<S>(i)); }; c.step(5); auto d = data<N, S>();
		Vector<N, T> a(d); eqv(c, a, N, w, "Vector<N>(Data)"); a = Ones; a = d; eqv(c, a, N, w, "Vector<N> = Data"); Vector<Dynamic, T> b(N); b = d; eqv(c, b, N, w, "Vector<> = Data"); Vector<Resizable, T> e(N); e = d; eqv(c, e, N, w, "Vector<Resizable> = Data");
		Vector<N + 2, T> g = Ones * 5; g.template slice<1, N>() = d; eqv(c, g, N + 2, [&](int i) { return i >= 1 && i <= N ? w(i - 1) : T(5); }, "slice = Data"); Matrix<N, 2, T> h = Ones * 5; h.T()[1] = d; eqm(c, h, N, 2, [&](int i, int j) { return j == 1 ? w(i) : T(5); }, "column = Data"); };
	c.state(N); c.logf("Data of %d", N); run(double(), double()); run(int(), double()); run(double(), float()); run(int(), int());
}
template<int R, int C> void data_mat(Ctx& c) {
	auto run = [&](auto t, auto u) { typedef decltype(t) S; typedef decltype(u) T; auto w = [](int i, int j) { return T(val<S>(i * C + j)); }; c.step(8); auto d = data<R * C, S>();
		Matrix<R, C, T> a(d); eqm(c, a, R, C, w, "Matrix(Data)"); Matrix<R, C, T, ColMajor> b(d); eqm(c, b, R, C, w, "Matrix<ColMajor>(Data)"); a = Ones; a = d; eqm(c, a, R, C, w, "Matrix = Data"); Matrix<Dynamic, Dynamic, T> e(R, C); e = d; eqm(c, e, R, C, w, "Matrix<> = Data"); Matrix<Dynamic, Dynamic, T, ColMajor> f(R, C); f = d; eqm(c, f, R, C, w, "Matrix<Dynamic,Dynamic,ColMajor> = Data"); Matrix<R, Dynamic, T> g(R, C); g = d; eqm(c, g, R, C, w, "Matrix<R,Dynamic> = Data");
		Matrix<C, R, T> h; h.T() = d; eqm(c, h.T(), R, C, w, "m.T() = Data"); Matrix<R + 2, C + 1, T> k = Ones * 5; k.template slice<1, 1, R, C>() = d; eqm(c, k, R + 2, C + 1, [&](int i, int j) { return i >= 1 && i <= R && j >= 1 ? w(i - 1, j - 1) : T(5); }, "static slice = Data"); k = Ones * 5; k.slice(0, 1, R, C) = d; eqm(c, k, R + 2, C + 1, [&](int i, int j) { return i < R && j >= 1 ? w(i, j - 1) : T(5); }, "slice = Data"); };
	c.state(10000 + R * 100 + C); c.logf("Data of %dx%d", R, C); run(double(), double()); run(int(), float()); run(Cd(), Cd());
}
// makeVector and brace lists
template<int N, class T, size_t... I> void lists_(Ctx& c, std::index_sequence<I...>) {
	auto w = [](int i) { return val<T>(i); }; c.step(6); c.logf("lists of %d", N); c.state(mc::mix(mc::hash_str(typeid(T).name()), N));
	{ if constexpr (N > 1) { Vector<N, T> v({val<T>(I)...}); eqv(c, v, N, w, "Vector<N>({...})"); } if constexpr (N > 1) { Vector<N, T> u = {{val<T>(I)...}}; eqv(c, u, N, w, "Vector<N> = {{...}}"); } const T arr[N] = {val<T>(I)...}; Vector<N, T> x(arr); eqv(c, x, N, w, "Vector<N>(array)"); for (int i = 0; i < N; ++i) x[i] = T(0); for (int i = 0; i < N; ++i) c.check(arr[i] == val<T>(i), "value", "array afterwards"); }
	{ Vector<Dynamic, T> v = {val<T>(I)...}; eqv(c, v, N, w, "Vector<> = {...}"); Vector<Resizable, T> u = {val<T>(I)...}; eqv(c, u, N, w, "Vector<Resizable> = {...}"); Vector<Resizable, T> y({val<T>(I)...}); eqv(c, y, N, w, "Vector<Resizable>({...})"); y.resize(2); y = v; eqv(c, y, N, w, "resizable reassigned"); }
	if constexpr (N <= 30) { auto m = makeVector(val<T>(I)...); static_assert(std::is_same<decltype(m), Vector<N, T>>::value, "makeVector type"); eqv(c, m, N, w, "makeVector"); Vector<Dynamic, T> d(makeVector(val<T>(I)...)); eqv(c, d, N, w, "Vector<>(makeVector)"); }
	if constexpr (N <= 30 && std::is_same<T, double>::value) { auto m = makeVector(double(val<int>(I))...); eqv(c, m, N, [](int i) { return val<int>(i); }, "makeVector of doubles"); }
}
template<int N, class T> void lists(Ctx& c) { lists_<N, T>(c, std::make_index_sequence<N>()); }
template<template<int> class F, size_t... I> void upto_(Ctx& c, int n, std::index_sequence<I...>) { (void)std::initializer_list<int>{(n == (int)I ? (F<I + 1>::run(c), 0) : 0)...}; }
template<int N> struct DV { static void run(Ctx& c) { data_vec<N>(c); } }; template<int N> struct LD { static void run(Ctx& c) { lists<N, double>(c); } }; template<int N> struct LI { static void run(Ctx& c) { lists<N, int>(c); } }; template<int N> struct LC { static void run(Ctx& c) { lists<N, Cd>(c); } }; template<int N> struct LF { static void run(Ctx& c) { lists<N, float>(c); } };
template<int N> struct D100 { static void run(Ctx& c) { auto w = [](int i) { return val<double>(i); }; auto d = data<N, double>(); Vector<N> v(d); eqv(c, v, N, w, "Vector(Data)"); Vector<Dynamic> u(N); u = d; eqv(c, u, N, w, "Vector<> = Data"); Vector<N> x(data<N, int>()); eqv(c, x, N, [](int i) { return val<int>(i); }, "Vector(Data of int)"); c.step(3); c.state(20000 + N); c.logf("Data of %d", N); } };
void mc_register() {
#if PART == 1
	mc::scenario("Fill vectors double", [](Ctx& c) { switch (c.pick(4)) { case 0: fill_vec<double, 1, 1>(c, 1); break; case 1: fill_vec<double, 2, 2>(c, 2); break; case 2: fill_vec<double, 3, 3>(c, 3); break; case 3: fill_vec<double, 7, 7>(c, 7); } });
	mc::scenario("Fill vectors run-time sizes", [](Ctx& c) { fill_vec<double, -2, 16>(c, 1 + c.pick(16)); }); mc::scenario("Fill vectors int", [](Ctx& c) { fill_vec<int, 3, 3>(c, 3); }); mc::scenario("Fill vectors complex", [](Ctx& c) { fill_vec<Cd, 2, 2>(c, 2); });
	mc::scenario("Fill row and column views", fill_row);
#elif PART == 2
	mc::scenario("Fill matrices double", [](Ctx& c) { switch (c.pick(5)) { case 0: fill_mat<double, 1, 1, 0>(c, 1, 1); break; case 1: fill_mat<double, 1, 3, 0>(c, 1, 3); break; case 2: fill_mat<double, 3, 1, 0>(c, 3, 1); break; case 3: fill_mat<double, 2, 3, 0>(c, 2, 3); break; case 4: fill_mat<double, 3, 2, 0>(c, 3, 2); break; } });
#elif PART == 3
	mc::scenario("Fill matrices run-time shapes", [](Ctx& c) { int r = 1 + c.pick(6), q = 1 + c.pick(6); if (r * q > 20) throw mc::Prune(); fill_mat<double, -2, -2, 20>(c, r, q); }); mc::scenario("Fill matrices float", [](Ctx& c) { fill_mat<float, 4, 4, 0>(c, 4, 4); }); mc::scenario("Fill matrices complex", [](Ctx& c) { fill_mat<Cd, 2, 2, 0>(c, 2, 2); });
#elif PART == 4
	mc::scenario("Fill slices rowmajor", fill_view<Matrix<5, 6>>); mc::scenario("Fill slices colmajor", fill_view<Matrix<5, 6, double, ColMajor>>);
#elif PART == 5
	mc::scenario("Data vectors", [](Ctx& c) { upto_<DV>(c, c.pick(8), std::make_index_sequence<8>()); }); mc::scenario("Data long", [](Ctx& c) { upto_<D100>(c, c.pick(100), std::make_index_sequence<100>()); });
#elif PART == 6
	mc::scenario("Data matrices", [](Ctx& c) { switch (c.pick(10)) { case 0: data_mat<1, 1>(c); break; case 1: data_mat<1, 2>(c); break; case 2: data_mat<2, 1>(c); break; case 3: data_mat<1, 4>(c); break; case 4: data_mat<4, 1>(c); break; case 5: data_mat<2, 2>(c); break; case 6: data_mat<2, 3>(c); break; case 7: data_mat<3, 2>(c); break; case 8: data_mat<4, 5>(c); break; case 9: data_mat<6, 6>(c); } });
#elif PART == 7
	mc::scenario("lists double", [](Ctx& c) { upto_<LD>(c, c.pick(30), std::make_index_sequence<30>()); });
	mc::scenario("lists int", [](Ctx& c) { upto_<LI>(c, c.pick(30), std::make_index_sequence<30>()); });
#elif PART == 8
	mc::scenario("lists complex", [](Ctx& c) { upto_<LC>(c, c.pick(12), std::make_index_sequence<12>()); }); mc::scenario("lists float", [](Ctx& c) { upto_<LF>(c, c.pick(12), std::make_index_sequence<12>()); });
	mc::scenario("empty list", [](Ctx& c) { c.step(); c.state(1); Vector<Dynamic> v = std::initializer_list<double>{}; c.check(v.size() == 0, "shape", "empty list"); Vector<Resizable> u = std::initializer_list<double>{}; c.check(u.size() == 0, "shape", "empty list"); Vector<Resizable> big(std::initializer_list<double>{1, 2, 3}); big = u; c.check(big.size() == 0, "shape", "assigned empty"); });
#endif
}
MC_MAIN()
