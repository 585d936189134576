// C06: every operation of a diagonal matrix against the same operation on the full matrix, for every kind of diagonal
// matrix (owned, wrapped, view of a vector of any layout) and every kind of other operand.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds; typedef std::complex<double> Cd;
// fractions, and a one that uses the last bits of its type: a rounding to another type on the way shows
template<class T> T val(int k) { return T(k); }
template<> Cd val<Cd>(int k) { return Cd(k * 0.5, k % 3 - 1); }
template<> double val<double>(int k) { return k * 0.5; }
template<> float val<float>(int k) { return k * 0.25f; }
template<class T> T one() { return T(1); }
template<> double one<double>() { return 1 + std::ldexp(1., -40); }
template<> float one<float>() { return 1 + std::ldexp(1.f, -20); }
template<class T> T el(int pat, int i, int salt) { static const int D[] = {3, -2, 5, 7, -4, 6, 1, -8, 9, 2, -5, 4}; return pat == 0 ? val<T>(D[(i * 5 + salt) % 12]) : i == pat - 1 ? one<T>() : T(0); }
template<class M, class W> void eqm(Ctx& c, const M& m, int r, int q, W w, const char* op) {
	if (m.num_rows() != r || m.num_cols() != q) c.fail("shape", op);
	for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) c.checkf(m(i, j) == w(i, j), "value", [&] { return string(op) + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(m(i, j)) + ", expected " + mc::str(w(i, j)); });
}
template<class V, class W> void eqv(Ctx& c, const V& v, int n, W w, const char* op) {
	if (v.size() != n) c.fail("shape", op);
	for (int i = 0; i < n; ++i) c.checkf(v[i] == w(i), "value", [&] { return string(op) + ": element " + mc::str(i) + " is " + mc::str(v[i]) + ", expected " + mc::str(w(i)); });
}
// f(diagonal matrix with diagonal a, name)
enum { DK = 9 };
template<class T, int N, class F> void diag_kind(int k, const vector<T>& a, F f) {
	int n = a.size(); vector<T> mem(a); mem.resize(n + 1);
	switch (k) {
	case 0: if constexpr (N >= 0) { DiagonalMatrix<N, T> d; for (int i = 0; i < n; ++i) d[i] = a[i]; f(d, string("static")); } break;
	case 1: { Vector<Dynamic, T> v(n); for (int i = 0; i < n; ++i) v[i] = a[i]; DiagonalMatrix<Dynamic, T> d(v); f(d, string("dynamic from vector")); break; }
	case 2: if constexpr (N >= 0) { Vector<N, T> v; for (int i = 0; i < n; ++i) v[i] = a[i]; auto d = v.as_diagonal(); f(d, string("view of static vector")); } break;
	case 3: { Matrix<Dynamic, Dynamic, T> m(n, 3); for (int i = 0; i < n; ++i) m(i, 1) = a[i]; auto d = m.T()[1].as_diagonal(); f(d, string("view of matrix column")); break; }
	case 4: if constexpr (N >= 0) { DiagonalMatrix<N, T, Reference> d(mem.data()); f(d, string("wrapped static")); } break;
	case 5: { DiagonalMatrix<Dynamic, T, Reference> d(mem.data(), n); f(d, string("wrapped dynamic")); break; }
	case 6: if constexpr (N >= 0) { Matrix<N, N + 1, T, ColMajor> m; auto s = m.diagonal_slice(); for (int i = 0; i < n; ++i) s[i] = a[i]; auto d = s.as_diagonal(); f(d, string("view of a diagonal slice")); } break;
	case 7: { Vector<Resizable, T> v(n); for (int i = 0; i < n; ++i) v[i] = a[i]; auto d = v.as_diagonal(); f(d, string("view of resizable vector")); break; }
	case 8: { DiagonalMatrix<Dynamic, T> d(n); for (int i = 0; i < n; ++i) d[i] = a[i]; DiagonalMatrix<Dynamic, T> e(d); f(e, string("copy of dynamic")); break; }
	}
}
template<class T, class U, int N> void with_vec(Ctx& c, int n, vector<int> dk, vector<int> vk) {
	int k = c.of(dk), o = c.of(vk), pa = c.pick(n + 1), pb = c.pick(n + 1); vector<T> a(n); vector<U> b(n); for (int i = 0; i < n; ++i) { a[i] = el<T>(pa, i, 1); b[i] = el<U>(pb, i, 6); }
	diag_kind<T, N>(k, a, [&](auto& d, const string& nd) { vec_kind<U, N>(o, n, [&](auto& v, const string& nv) {
		c.step(4); c.logf("%s, %s, size %d patterns %d %d", nd.c_str(), nv.c_str(), n, pa, pb); c.state(mc::mix(mc::hash_str(nd + nv + typeid(T).name() + typeid(U).name()), (n * 100 + pa) * 100 + pb)); for (int i = 0; i < n; ++i) v[i] = b[i]; const auto& cd = d; const auto& cv = v;
		auto p = cd * cv; typedef decltype(T() * U()) P; if (!std::is_same<std::decay_t<decltype(p[0])>, P>::value) c.fail("promotion", "diagonal * vector"); eqv(c, p, n, [&](int i) { return a[i] * b[i]; }, "diagonal * vector"); eqv(c, cv * cd, n, [&](int i) { return b[i] * a[i]; }, "vector * diagonal");
		eqv(c, v, n, [&](int i) { return b[i]; }, "vector afterwards"); for (int i = 0; i < n; ++i) c.check(d[i] == a[i] && cd[i] == a[i], "value", "diagonal afterwards");
		if constexpr (std::is_same<P, U>::value) { v = d * v; eqv(c, v, n, [&](int i) { return a[i] * b[i]; }, "v = d*v"); v = v * d; eqv(c, v, n, [&](int i) { return a[i] * b[i] * a[i]; }, "v = v*d"); }
	}); });
}
template<class T, class U, int R, int C> void with_mat(Ctx& c, int r, int q, vector<int> dk, vector<int> mk) {
	int k = c.of(dk), o = c.of(mk), pb = c.pick(r * q + 1), pa = c.pick(std::max(r, q) + 1); vector<T> a(std::max(r, q)); for (int i = 0; i < (int)a.size(); ++i) a[i] = el<T>(pa, i, 1); vector<T> al(a.begin(), a.begin() + r), ar(a.begin(), a.begin() + q);
	mat_kind<U, R, C>(o, r, q, [&](auto& m, const string& nm) {
		auto B = [&](int i, int j) { return el<U>(pb, i * q + j, 6); }; auto set = [&] { for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) m(i, j) = B(i, j); }; set(); const auto& cm = m; c.step(4); typedef decltype(T() * U()) P;
		diag_kind<T, R>(k, al, [&](auto& d, const string& nd) { c.logf("%s, %s, %dx%d patterns %d %d", nd.c_str(), nm.c_str(), r, q, pa, pb); c.state(mc::mix(mc::hash_str(nd + nm + typeid(T).name() + typeid(U).name()), ((r * 10 + q) * 100 + pa) * 100 + pb)); const auto& cd = d;
			auto x = cd * cm; if (!std::is_same<std::decay_t<decltype(x(0, 0))>, P>::value) c.fail("promotion", "diagonal * matrix"); eqm(c, x, r, q, [&](int i, int j) { return a[i] * B(i, j); }, "diagonal * matrix"); eqm(c, m, r, q, B, "matrix afterwards");
			if constexpr (std::is_same<P, U>::value) { m = d * m; eqm(c, m, r, q, [&](int i, int j) { return a[i] * B(i, j); }, "m = d*m"); set(); } });
		diag_kind<T, C>(k, ar, [&](auto& d, const string&) { const auto& cd = d; eqm(c, cm * cd, r, q, [&](int i, int j) { return B(i, j) * a[j]; }, "matrix * diagonal"); for (int i = 0; i < q; ++i) c.check(cd[i] == a[i], "value", "diagonal afterwards"); if constexpr (std::is_same<P, U>::value) { m = m * d; eqm(c, m, r, q, [&](int i, int j) { return B(i, j) * a[j]; }, "m = m*d"); set(); } });
		if (r == q) if constexpr (!clash<R, C>) diag_kind<T, R>(k, al, [&](auto& d, const string&) { const auto& cd = d; auto D = [&](int i, int j) { return i == j ? U(a[i]) : U(0); }; m = cd; eqm(c, m, r, r, D, "matrix = diagonal"); set(); m = -cd; eqm(c, m, r, r, [&](int i, int j) { return -D(i, j); }, "matrix = -diagonal"); if constexpr (R >= 0) { Matrix<R, R, U> z(cd); eqm(c, z, r, r, D, "Matrix(diagonal)"); Matrix<R, R, U, ColMajor> y = cd; eqm(c, y, r, r, D, "Matrix<ColMajor>(diagonal)"); } });
	});
}
template<class T, class U, int N> void with_diag(Ctx& c, int n) {
	int k = c.pick(DK), o = c.pick(DK), pa = c.pick(n + 1), pb = c.pick(n + 1); vector<T> a(n); vector<U> b(n); for (int i = 0; i < n; ++i) { a[i] = el<T>(pa, i, 1); b[i] = el<U>(pb, i, 6); }
	diag_kind<T, N>(k, a, [&](auto& d, const string& nd) { diag_kind<U, N>(o, b, [&](auto& e, const string& ne) { c.step(3); c.logf("%s, %s", nd.c_str(), ne.c_str()); c.state(mc::mix(mc::hash_str(nd + ne + typeid(T).name() + typeid(U).name()), (n * 100 + pa) * 100 + pb)); const auto& cd = d; const auto& ce = e;
		auto p = cd * ce; for (int i = 0; i < n; ++i) c.check(p[i] == a[i] * b[i], "value", "diagonal * diagonal"); c.check(p.my_vector.size() == n, "shape", "diagonal * diagonal");
		auto x = -cd; c.check(x.my_vector.size() == n, "shape", "-diagonal"); for (int i = 0; i < n; ++i) c.check(x[i] == -a[i], "value", "-diagonal");
		auto s = cd.diagonal_slice(); eqv(c, s, n, [&](int i) { return a[i]; }, "diagonal_slice() const"); d.diagonal_slice() = e.my_vector; for (int i = 0; i < n; ++i) c.check(cd[i] == T(b[i]), "value", "diagonal_slice() = vector"); for (int i = 0; i < n; ++i) d[i] = a[i];
		for (int i = 0; i < n; ++i) { d[i] = T(77); for (int j = 0; j < n; ++j) c.check(cd[j] == (j == i ? T(77) : a[j]), "value", "writing an element"); d[i] = a[i]; }
		if (!pa) { auto inv = cd.inverse(); c.check(inv.my_vector.size() == n, "shape", "inverse"); for (int i = 0; i < n; ++i) c.check(inv[i] == T(1) / a[i], "value", "inverse"); for (int i = 0; i < n; ++i) c.check(cd[i] == a[i], "value", "diagonal after inverse"); } }); });
}
static void made(Ctx& c) { // construction from vectors and constants
	int w = c.pick(5), n = c.of({0, 1, 3, 7, 140}); c.step(); c.state(w * 200 + n); c.logf("form %d n=%d", w, n); Vector<> v(n); for (int i = 0; i < n; ++i) v[i] = i + 2;
	auto eq = [&](const auto& d, int n, auto f, const char* op) { c.check(d.my_vector.size() == n, "shape", op); for (int i = 0; i < n; ++i) c.check(d[i] == f(i), "value", op); };
	switch (w) {
	case 0: { DiagonalMatrix<> d(v); eq(d, n, [](int i) { return i + 2.; }, "from vector"); v = Zeros; eq(d, n, [](int i) { return i + 2.; }, "is a copy"); DiagonalMatrix<> e(d); d.my_vector = Zeros; eq(e, n, [](int i) { return i + 2.; }, "copy"); DiagonalMatrix<Dynamic, float> f(e.my_vector); eq(f, n, [](int i) { return i + 2.; }, "float from double"); d = e; eq(d, n, [](int i) { return i + 2.; }, "assigned"); break; }
	case 1: { DiagonalMatrix<> d((Ones(n))); eq(d, n, [](int) { return 1.; }, "Ones(n)"); DiagonalMatrix<> e(Ones(n) * 3); eq(e, n, [](int) { return 3.; }, "Ones(n)*3"); DiagonalMatrix<> f((Zeros(n))); eq(f, n, [](int) { return 0.; }, "Zeros(n)"); break; }
	case 2: { DiagonalMatrix<3> d(Ones), e(Zeros), f = Ones * 2.5; eq(d, 3, [](int) { return 1.; }, "Ones"); eq(e, 3, [](int) { return 0.; }, "Zeros"); eq(f, 3, [](int) { return 2.5; }, "Ones*2.5"); d = Zeros; eq(d, 3, [](int) { return 0.; }, "= Zeros"); break; }
	case 3: { DiagonalMatrix<3> d(makeVector(1, 2, 3)); Matrix<> m(3, 3); m = Ones; m = d; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check(m(i, j) == (i == j) * (i + 1), "value", "dynamic = static diagonal"); Matrix<5> b = Ones; b.slice<1, 1, 3, 3>() = d; for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { bool in = i > 0 && i < 4 && j > 0 && j < 4; c.check(b(i, j) == (in ? (i == j) * i : 1), "value", "slice = diagonal"); } b.slice(0, 2, 3, 3).T() = d; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) c.check(b(i, j + 2) == (i == j) * (i + 1), "value", "transposed slice = diagonal"); break; }
	case 4: { Vector<3> a = makeVector(1, 2, 3), b = makeVector(4, 5, 6); auto d = a.as_diagonal(); d[1] = 9; c.check(a[1] == 9, "value", "write through as_diagonal"); a[2] = -1; c.check(d[2] == -1, "value", "as_diagonal sees the vector"); d = b.as_diagonal(); c.check(a == b, "value", "assignment through as_diagonal"); const Vector<3>& cb = b; Vector<3> p = cb.as_diagonal() * b; c.check(p[0] == 16 && p[1] == 25 && p[2] == 36, "value", "const as_diagonal"); break; }
	}
}
static vector<int> all(int n) { vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
void mc_register() {
#if PART == 1
	mc::scenario("vectors size 3", [](Ctx& c) { with_vec<double, double, 3>(c, 3, all(DK), {0, 1, 2, 5, 7}); }); mc::scenario("construction", made);
#elif PART == 2
	mc::scenario("vectors int/double", [](Ctx& c) { with_vec<int, double, 2>(c, 2, {0, 1, 2, 5}, {0, 1, 5}); }); mc::scenario("vectors double/int", [](Ctx& c) { with_vec<double, int, 2>(c, 2, {0, 1, 2, 5}, {0, 1, 5}); }); mc::scenario("vectors complex", [](Ctx& c) { with_vec<Cd, double, 2>(c, 2, {0, 1, 3}, {0, 1}); }); mc::scenario("vectors float size 1", [](Ctx& c) { with_vec<float, float, 1>(c, 1, {0, 1, 2}, {0, 1}); }); mc::scenario("vectors dynamic sizes", [](Ctx& c) { with_vec<double, double, -2>(c, c.of({0, 1, 2, 5, 12}), all(DK), {1, 2, 5}); });
#elif PART == 3
	mc::scenario("matrices 3x3", [](Ctx& c) { with_mat<double, double, 3, 3>(c, 3, 3, {0, 1, 2, 3, 6}, {0, 1, 2, 6, 7, 9}); });
#elif PART == 4
	mc::scenario("matrices 2x3", [](Ctx& c) { with_mat<double, double, 2, 3>(c, 2, 3, {0, 1, 5, 7}, {0, 1, 3, 4, 5, 8, 10, 11}); });
#elif PART == 5
	mc::scenario("matrices dynamic shapes", [](Ctx& c) { int r = c.of({0, 1, 2, 4, 6}); with_mat<double, double, -2, -2>(c, r, c.of({0, 1, 3, 4}), all(DK), {2, 3, 7, 9}); }); mc::scenario("matrices int/double", [](Ctx& c) { with_mat<int, double, 2, 2>(c, 2, 2, {0, 2}, {0, 3, 8}); }); mc::scenario("matrices double/int", [](Ctx& c) { with_mat<double, int, 2, 2>(c, 2, 2, {0, 1}, {0, 7}); }); mc::scenario("matrices float 1x1", [](Ctx& c) { with_mat<float, float, 1, 1>(c, 1, 1, {0, 1}, {0, 1, 2}); });
#elif PART == 6
	mc::scenario("diagonal pairs size 3", [](Ctx& c) { with_diag<double, double, 3>(c, 3); });
#elif PART == 7
	mc::scenario("diagonal pairs mixed", [](Ctx& c) { with_diag<double, float, -2>(c, c.of({0, 1, 2, 5})); }); mc::scenario("diagonal pairs int", [](Ctx& c) { with_diag<int, int, 2>(c, 2); });
#endif
}
MC_MAIN()
