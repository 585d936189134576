// C03: every request with every in-range and out-of-range argument (including the extremes of int) on every
// kind of object: misuse must stop the program there, valid use must not.  Runs under ASan/UBSan, so an
// access outside the object before the stop is also seen.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/Cholesky.h>
#include <TooN/SymEigen.h>
#include <TooN/gauss_jordan.h>
#include <TooN/determinant.h>
#include <TooN/functions/derivatives.h>
#undef abort
using namespace TooN; using mc::Ctx; using std::string; using std::vector;
static const int BIG = INT_MAX, SMALL = INT_MIN;
static volatile double sink;
template<class F> void expect(Ctx& c, bool valid, const string& what, F f) {
	bool stopped = false; c.log(what + (valid ? " (valid)" : " (misuse)")); c.note(what); c.step(); c.state(mc::hash_str(what) + valid);
	try { f(); } catch (mc::LibAbort&) { stopped = true; }
	c.outcome(stopped ? "stopped" : "accepted");
	c.checkf(valid != stopped, valid ? "valid-use-stopped" : "misuse-not-stopped", [&] { return what; });
}
// expected stop inside a destructor
template<class F> void expect_jump(Ctx& c, bool valid, const string& what, F f) {
	volatile bool stopped = false; c.log(what); c.note(what); c.step(); c.state(mc::hash_str(what) + valid); jmp_buf j;
	if (!setjmp(j)) { mc::abort_jump() = &j; f(); } else stopped = true;
	mc::abort_jump() = 0; c.outcome(stopped ? "stopped" : "accepted");
	c.checkf(valid != stopped, valid ? "valid-use-stopped" : "misuse-not-stopped", [&] { return what; });
}
static vector<int> around(int n) { vector<int> v{SMALL, SMALL + 1, -2, -1}; for (int i = 0; i <= n + 2; ++i) v.push_back(i); v.push_back(BIG - 1); v.push_back(BIG); return v; }
static vector<int> small_around(int n) { vector<int> v{SMALL, -1}; for (int i = 0; i <= n + 1; ++i) v.push_back(i); v.push_back(BIG); return v; }
static bool in(int i, int n) { return i >= 0 && i < n; }
static bool sl(int s, int l, int n) { return s >= 0 && l >= 0 && (long)s + l <= n; }
static string I(int i) { return i == BIG ? "INT_MAX" : i == BIG - 1 ? "INT_MAX-1" : i == SMALL ? "INT_MIN" : i == SMALL + 1 ? "INT_MIN+1" : std::to_string(i); }
// an object of the chosen kind, exactly sized storage, elements 1,2,...
template<class V> void num(V& v) { for (int i = 0; i < v.size(); ++i) v[i] = i + 1; }
template<class M> void numm(M& m) { for (int i = 0; i < m.num_rows(); ++i) for (int j = 0; j < m.num_cols(); ++j) m(i, j) = (i == j ? 5 : 0) + i + 2 * j + 1; }
template<class F> void with_vec(Ctx& c, int maxn, F f) {
	switch (c.pick(8)) {
	case 0: { Vector<1> v; num(v); f(v, string("Vector<1>")); break; }
	case 1: { Vector<3> v; num(v); f(v, string("Vector<3>")); break; }
	case 2: { Vector<> v(c.pick(maxn + 1)); num(v); f(v, "Vector<>(" + I(v.size()) + ")"); break; }
	case 3: { Vector<Resizable> v(c.pick(maxn + 1)); num(v); f(v, "Vector<Resizable>(" + I(v.size()) + ")"); break; }
	case 4: { int n = c.pick(maxn + 1); std::unique_ptr<double[]> p(new double[n + 1]); auto v = wrapVector(p.get(), n); num(v); f(v, "wrapVector(" + I(n) + ")"); break; }
	case 5: { int n = c.pick(maxn + 1); Matrix<> m(n, 2); m = Zeros; if (1) { auto v = m.T()[1]; num(v); f(v, "column of size " + I(n)); } break; }
	case 6: { Matrix<3, 2> m; m = Zeros; auto v = m.T()[1]; num(v); f(v, string("column of Matrix<3,2>")); break; }
	case 7: { Matrix<2, 3> m; m = Zeros; const Matrix<2, 3>& cm = m; auto x = m[1]; num(x); auto v = cm[1]; f(v, string("row of const Matrix<2,3>")); break; }
	}
}
template<class F> void with_mat(Ctx& c, F f) {
	auto sz = [&](int& r, int& k) { static const int S[][2] = {{0, 0}, {1, 1}, {1, 3}, {2, 2}, {2, 3}, {3, 2}, {0, 2}, {2, 0}}; int i = c.pick(8); r = S[i][0]; k = S[i][1]; };
	int r, k;
	switch (c.pick(9)) {
	case 0: { Matrix<2, 3> m; numm(m); f(m, string("Matrix<2,3>")); break; }
	case 1: { Matrix<3, 2, double, ColMajor> m; numm(m); f(m, string("Matrix<3,2,ColMajor>")); break; }
	case 2: { sz(r, k); Matrix<> m(r, k); numm(m); f(m, "Matrix<>(" + I(r) + "," + I(k) + ")"); break; }
	case 3: { sz(r, k); Matrix<Dynamic, Dynamic, double, ColMajor> m(r, k); numm(m); f(m, "Matrix<ColMajor>(" + I(r) + "," + I(k) + ")"); break; }
	case 4: { sz(r, k); if (r != 2) throw mc::Prune(); Matrix<2, Dynamic> m(r, k); numm(m); f(m, "Matrix<2,Dynamic>(" + I(k) + ")"); break; }
	case 5: { sz(r, k); if (k != 2) throw mc::Prune(); Matrix<Dynamic, 2, double, ColMajor> m(r, k); numm(m); f(m, "Matrix<Dynamic,2,ColMajor>(" + I(r) + ")"); break; }
	case 6: { sz(r, k); Matrix<> m(r + 1, k + 2); m = Zeros; auto v = m.slice(1, 1, r, k); numm(v); f(v, "slice(" + I(r) + "," + I(k) + ")"); break; }
	case 7: { Matrix<2, 3> m; numm(m); auto v = m.T(); f(v, string("Matrix<2,3>.T()")); break; }
	case 8: { Matrix<2> m; numm(m); f(m, string("Matrix<2>")); break; }
	}
}
template<int A, int B> constexpr bool clash = A >= 0 && B >= 0 && A != B;
template<class M> struct Dim; template<int R, int C, class P, class B> struct Dim<Matrix<R, C, P, B>> { static const int Rows = R, Cols = C; };
template<class M> struct Dim<const M> : Dim<M> {};

#if PART == 1
static void vec_requests() {
	mc::scenario("element of a vector", [](Ctx& c) { with_vec(c, 3, [&](auto& v, const string& n) { int i = c.of(around(v.size())); bool ok = in(i, v.size()); const auto& cv = v;
		expect(c, ok, n + "[" + I(i) + "]", [&] { sink = v[i]; }); expect(c, ok, "const " + n + "[" + I(i) + "]", [&] { sink = cv[i]; }); }); });
	mc::scenario("slice of a vector", [](Ctx& c) { with_vec(c, 3, [&](auto& v, const string& n) { int s = c.of(around(v.size())), l = c.of(around(v.size())); bool ok = sl(s, l, v.size()); const auto& cv = v; string w = n + ".slice(" + I(s) + "," + I(l) + ")";
		expect(c, ok, w, [&] { auto x = v.slice(s, l); if (x.size() != l) c.fail("size", w); if (l) sink = x[l - 1]; }); expect(c, ok, "const " + w, [&] { auto x = cv.slice(s, l); if (x.size() != l) c.fail("size", w); if (l) sink = x[l - 1]; }); }); });
	mc::scenario("slice of a slice", [](Ctx& c) { with_vec(c, 3, [&](auto& v, const string& n) { int a = c.pick(v.size() + 1), b = c.pick(v.size() - a + 1); auto w0 = v.slice(a, b); int s = c.of(small_around(b)), l = c.of(small_around(b)); string w = n + ".slice(" + I(a) + "," + I(b) + ").slice(" + I(s) + "," + I(l) + ")";
		expect(c, sl(s, l, b), w, [&] { auto x = w0.slice(s, l); if (l) sink = x[l - 1]; });
		int i = c.of(small_around(b)); expect(c, in(i, b), n + ".slice(" + I(a) + "," + I(b) + ")[" + I(i) + "]", [&] { sink = w0[i]; }); }); });
	mc::scenario("slice of a vector with fixed and run-time arguments", [](Ctx& c) { with_vec(c, 3, [&](auto& v, const string& n) {
		typedef std::remove_const_t<std::remove_reference_t<decltype(v)>> V; int s = c.of(small_around(v.size())), l = c.of(small_around(v.size())), N = v.size(); string a = ">(" + I(s) + "," + I(l) + ")";
		expect(c, s == 0 && sl(0, l, N), n + ".slice<0,Dynamic" + a, [&] { v.template slice<0, Dynamic>(s, l); });
		expect(c, s == 1 && sl(1, l, N), n + ".slice<1,Dynamic" + a, [&] { v.template slice<1, Dynamic>(s, l); });
		expect(c, l == 1 && sl(s, 1, N), n + ".slice<Dynamic,1" + a, [&] { v.template slice<Dynamic, 1>(s, l); });
		expect(c, s == 0 && l == 1 && N >= 1, n + ".slice<0,1" + a, [&] { v.template slice<0, 1>(s, l); });
		if constexpr (V::SizeParameter < 0 || V::SizeParameter >= 3) {
			expect(c, l == 2 && sl(s, 2, N), n + ".slice<Dynamic,2" + a, [&] { v.template slice<Dynamic, 2>(s, l); });
			expect(c, s == 2 && sl(2, l, N), n + ".slice<2,Dynamic" + a, [&] { v.template slice<2, Dynamic>(s, l); });
			expect(c, s == 1 && l == 2 && N >= 3, n + ".slice<1,2" + a, [&] { v.template slice<1, 2>(s, l); });
			expect(c, N >= 3, n + ".slice<1,2>()", [&] { v.template slice<1, 2>(); }); expect(c, N >= 3, n + ".slice<0,3>()", [&] { v.template slice<0, 3>(); });
		}
		expect(c, N >= 1, n + ".slice<0,1>()", [&] { v.template slice<0, 1>(); });
	}); });
}
#endif
#if PART == 2
static void mat_requests() {
	mc::scenario("element and row of a matrix", [](Ctx& c) { with_mat(c, [&](auto& m, const string& n) { int R = m.num_rows(), C = m.num_cols(), i = c.of(around(R)); const auto& cm = m; string a = n + "[" + I(i) + "]";
		expect(c, in(i, R), a, [&] { auto x = m[i]; if (C) sink = x[C - 1]; }); expect(c, in(i, R), "const " + a, [&] { auto x = cm[i]; if (C) sink = x[C - 1]; });
		int j = c.of(around(C)); bool ok = in(i, R) && in(j, C); string b = "(" + I(i) + "," + I(j) + ")";
		expect(c, ok, n + b, [&] { sink = m(i, j); }); expect(c, ok, "const " + n + b, [&] { sink = cm(i, j); });
		expect(c, ok, n + "[pair" + b + "]", [&] { sink = m[std::make_pair(i, j)]; }); expect(c, ok, "const " + n + "[pair" + b + "]", [&] { sink = cm[std::make_pair(i, j)]; });
		expect(c, ok, n + "[][]" + b, [&] { sink = m[i][j]; }); expect(c, ok, "const " + n + "[][]" + b, [&] { sink = cm[i][j]; });
		expect(c, ok, n + ".T()" + b, [&] { sink = m.T()(j, i); }); expect(c, ok, n + ".T()[][]" + b, [&] { sink = m.T()[j][i]; }); }); });
	mc::scenario("slice of a matrix", [](Ctx& c) { with_mat(c, [&](auto& m, const string& n) { int R = m.num_rows(), C = m.num_cols(), r = c.of(small_around(R)), rl = c.of(small_around(R)), q = c.of(small_around(C)), ql = c.of(small_around(C)); bool ok = sl(r, rl, R) && sl(q, ql, C); const auto& cm = m; string w = n + ".slice(" + I(r) + "," + I(q) + "," + I(rl) + "," + I(ql) + ")";
		expect(c, ok, w, [&] { auto x = m.slice(r, q, rl, ql); if (x.num_rows() != rl || x.num_cols() != ql) c.fail("size", w); if (rl && ql) sink = x(rl - 1, ql - 1); });
		expect(c, ok, "const " + w, [&] { auto x = cm.slice(r, q, rl, ql); if (x.num_rows() != rl || x.num_cols() != ql) c.fail("size", w); if (rl && ql) sink = x(rl - 1, ql - 1); }); }); });
	mc::scenario("slice of a matrix with fixed and run-time arguments", [](Ctx& c) { with_mat(c, [&](auto& m, const string& n) {
		typedef std::remove_const_t<std::remove_reference_t<decltype(m)>> M; int R = m.num_rows(), C = m.num_cols(); int r = c.of({-1, 0, 1, 2}), rl = c.of({-1, 0, 1, 2}), q = c.of({-1, 0, 1, 2}), ql = c.of({-1, 0, 1, 2}); string a = ">(" + I(r) + "," + I(q) + "," + I(rl) + "," + I(ql) + ")";
		if constexpr ((Dim<M>::Rows < 0 || Dim<M>::Rows >= 2) && (Dim<M>::Cols < 0 || Dim<M>::Cols >= 2)) {
			expect(c, r == 0 && q == 1 && rl == 2 && ql == 1 && R >= 2 && C >= 2, n + ".slice<0,1,2,1" + a, [&] { m.template slice<0, 1, 2, 1>(r, q, rl, ql); });
			expect(c, r == 1 && sl(r, rl, R) && ql == 1 && sl(q, ql, C), n + ".slice<1,Dynamic,Dynamic,1" + a, [&] { m.template slice<1, Dynamic, Dynamic, 1>(r, q, rl, ql); });
			expect(c, rl == 2 && sl(r, rl, R) && q == 1 && sl(q, ql, C), n + ".slice<Dynamic,1,2,Dynamic" + a, [&] { m.template slice<Dynamic, 1, 2, Dynamic>(r, q, rl, ql); });
			expect(c, R >= 2 && C >= 2, n + ".slice<0,1,2,1>()", [&] { m.template slice<0, 1, 2, 1>(); });
		}
	}); });
}
#endif
#define VV(OP, EXPR) expect(c, ok, na + " " OP " " + nb, [&] { EXPR; })
#if PART == 3
static void vec_ops() {
	mc::scenario("two vectors of any two sizes", [](Ctx& c) { with_vec(c, 3, [&](auto& a, const string& na) { with_vec(c, 3, [&](auto& b, const string& nb) {
		typedef std::remove_const_t<std::remove_reference_t<decltype(a)>> A; typedef std::remove_const_t<std::remove_reference_t<decltype(b)>> B;
		if constexpr (!clash<A::SizeParameter, B::SizeParameter>) {
			bool ok = a.size() == b.size();
			VV("+", auto x = a + b; if (x.size() != a.size()) c.fail("size", "+")); VV("-", auto x = a - b; if (x.size() != a.size()) c.fail("size", "-"));
			VV("*", sink = a * b); VV("diagmult", auto x = diagmult(a, b); (void)x); VV("==", sink = a == b); VV("!=", sink = a != b);
			VV("as_diagonal *", auto x = a.as_diagonal() * b; (void)x); VV("* as_diagonal", auto x = a * b.as_diagonal(); (void)x);
			VV("diag*diag", auto x = a.as_diagonal() * b.as_diagonal(); (void)x);
			expect(c, true, na + " outer " + nb, [&] { auto x = a.as_col() * b.as_row(); if (x.num_rows() != a.size() || x.num_cols() != b.size()) c.fail("size", "outer"); });
			if constexpr (!std::is_const<std::remove_reference_t<decltype(a[0])>>::value) {
				VV("+=", a += b); VV("-=", a -= b);
				if (A::SizeParameter != Resizable) { VV("=", a = b); }
				if constexpr (!std::is_const<std::remove_reference_t<decltype(b[0])>>::value && A::SizeParameter != Resizable && B::SizeParameter != Resizable) if (!std::is_same<A, Vector<>>::value || !std::is_same<B, Vector<>>::value) { VV("swap", swap(a, b)); }
			}
		}
	}); }); });
	mc::scenario("fixed-size vector from any vector", [](Ctx& c) { with_vec(c, 4, [&](auto& a, const string& na) { typedef std::remove_const_t<std::remove_reference_t<decltype(a)>> A;
		if constexpr (!clash<A::SizeParameter, 3>) { expect(c, a.size() == 3, "Vector<3>(" + na + ")", [&] { Vector<3> x(a); sink = x[2]; }); expect(c, a.size() == 3, "Vector<3,float> = " + na, [&] { Vector<3, float> x; x = a; sink = x[2]; });
			if constexpr (!std::is_const<std::remove_reference_t<decltype(a[0])>>::value) expect(c, a.size() == 3, "cross_product_matrix(" + na + ")", [&] { auto x = cross_product_matrix(a); (void)x; }); }
		expect(c, true, "Vector<Resizable> = " + na, [&] { Vector<Resizable> x(2); x = a; if (x.size() != a.size()) c.fail("size", "resizable assignment"); }); }); });
}
#endif
#if PART == 4
static void mat_ops() {
	mc::scenario("two matrices of any two shapes", [](Ctx& c) { with_mat(c, [&](auto& a, const string& na) { with_mat(c, [&](auto& b, const string& nb) {
		typedef std::remove_reference_t<decltype(a)> A; typedef std::remove_reference_t<decltype(b)> B; typedef Dim<A> DA; typedef Dim<B> DB;
		if constexpr (!clash<DA::Rows, DB::Rows> && !clash<DA::Cols, DB::Cols>) {
			bool ok = a.num_rows() == b.num_rows() && a.num_cols() == b.num_cols();
			VV("+", auto x = a + b; (void)x); VV("-", auto x = a - b; (void)x); VV("==", sink = a == b); VV("!=", sink = a != b);
			VV("+=", a += b); VV("-=", a -= b); VV("=", a = b);
		}
		if constexpr (!clash<DA::Cols, DB::Rows>) { bool ok = a.num_cols() == b.num_rows(); VV("*", auto x = a * b; if (x.num_rows() != a.num_rows() || x.num_cols() != b.num_cols()) c.fail("size", "*")); }
		if constexpr (!clash<DA::Cols, DB::Cols>) { bool ok = a.num_cols() == b.num_cols(); VV("* T", auto x = a * b.T(); (void)x); }
	}); }); });
	mc::scenario("fixed-size matrix from any matrix", [](Ctx& c) { with_mat(c, [&](auto& a, const string& na) { typedef std::remove_reference_t<decltype(a)> A; typedef Dim<A> DA;
		bool ok = a.num_rows() == 2 && a.num_cols() == 3;
		if constexpr (!clash<DA::Rows, 2> && !clash<DA::Cols, 3>) {
			expect(c, ok, "Matrix<2,3>(" + na + ")", [&] { Matrix<2, 3> x(a); sink = x(1, 2); }); expect(c, ok, "Matrix<2,3,float,ColMajor> = " + na, [&] { Matrix<2, 3, float, ColMajor> x; x = a; sink = x(1, 2); }); }
		if constexpr (!clash<DA::Rows, 2>) expect(c, a.num_rows() == 2, "Matrix<2,Dynamic>(" + na + ")", [&] { Matrix<2, Dynamic> x(a); (void)x; });
		if constexpr (!clash<DA::Cols, 3>) expect(c, a.num_cols() == 3, "Matrix<Dynamic,3>(" + na + ")", [&] { Matrix<Dynamic, 3> x(a); (void)x; });
		if constexpr (!clash<DA::Rows, DA::Cols>) { bool sq = a.num_rows() == a.num_cols(); Matrix<> k(a);
			expect(c, sq, na + " = Identity", [&] { a = Identity; }); a = k; expect(c, sq, na + " += Identity", [&] { a += Identity; }); a = k; expect(c, sq, na + " + Identity", [&] { auto x = a + Identity; (void)x; }); expect(c, sq, na + " - Identity*2", [&] { auto x = a - Identity * 2; (void)x; }); expect(c, sq, "Identity - " + na, [&] { auto x = Identity * 1.0 - a; (void)x; });
			expect(c, sq, na + " -= Identity", [&] { a -= Identity; }); a = k; expect(c, sq, na + " -= Identity*2", [&] { a -= Identity * 2; }); a = k; expect(c, sq, na + " += Identity*2", [&] { a += Identity * 2; }); a = k; expect(c, sq, na + " - Identity", [&] { auto x = a - Identity; (void)x; }); expect(c, sq, "Identity + " + na, [&] { auto x = Identity + a; (void)x; }); expect(c, sq, na + " = Identity*3", [&] { a = Identity * 3; }); a = k; expect(c, sq, na + " = -Identity", [&] { a = -Identity; }); a = k;
			for (int z = a.num_rows() - 1; z <= a.num_rows() + 1; ++z) if (z >= 0) { Vector<> zv(z); zv = Ones; bool zq = sq && z == a.num_rows(); expect(c, zq, na + " = DiagonalMatrix<>(" + I(z) + ")", [&] { a = DiagonalMatrix<>(zv); }); a = k; }
			if constexpr (!clash<DA::Rows, 2> && !clash<DA::Cols, 2>) { Vector<2> zv = makeVector(1, 2); expect(c, sq && a.num_rows() == 2, na + " = DiagonalMatrix<2>", [&] { a = DiagonalMatrix<2>(zv); }); a = k; }
			a = k; expect(c, sq, "trace " + na, [&] { sink = trace(a); }); expect(c, sq, "Symmetrize " + na, [&] { Symmetrize(a); }); a = k;
			if (a.num_rows() && a.num_cols()) { expect(c, sq, "exp " + na, [&] { auto x = exp(a); (void)x; }); expect(c, sq, "sqrt " + na, [&] { Matrix<> z(a.num_rows(), a.num_cols()); z = Zeros; for (int i = 0; i < std::min(a.num_rows(), a.num_cols()); ++i) z(i, i) = 1; auto x = TooN::sqrt(z); (void)x; }); }
		}
	}); });
	mc::scenario("matrix and vector of any sizes", [](Ctx& c) { with_mat(c, [&](auto& a, const string& na) { with_vec(c, 3, [&](auto& b, const string& nb) {
		typedef std::remove_reference_t<decltype(a)> A; typedef std::remove_const_t<std::remove_reference_t<decltype(b)>> B; typedef Dim<A> D;
		if constexpr (!clash<D::Cols, B::SizeParameter>) { bool ok = a.num_cols() == b.size(); VV("* v", auto x = a * b; if (x.size() != a.num_rows()) c.fail("size", "m*v")); VV("diagmult v", auto x = diagmult(a, b); (void)x); VV("* diag", auto x = a * b.as_diagonal(); (void)x); }
		if constexpr (!clash<D::Rows, B::SizeParameter>) { bool ok = a.num_rows() == b.size(); expect(c, ok, nb + " v * " + na, [&] { auto x = b * a; if (x.size() != a.num_cols()) c.fail("size", "v*m"); }); expect(c, ok, nb + " v diagmult " + na, [&] { auto x = diagmult(b, a); (void)x; }); expect(c, ok, nb + " diag * " + na, [&] { auto x = b.as_diagonal() * a; (void)x; }); }
		if constexpr (!clash<D::Cols, B::SizeParameter>) { bool ok = a.num_cols() == b.size(); if (a.num_rows()) { VV("row =", a[0] = b); VV("row +=", a[0] += b); } }
	}); }); });
}
#endif
#if PART == 5
static void fills() {
	mc::scenario("over- and under-filled run-time-sized vector", [](Ctx& c) { int n = c.pick(6), k = 1 + c.pick(7), kind = c.pick(3); string w = "Fill of " + I(k) + " values into " + I(n);
		auto go = [&](auto& v) { expect_jump(c, k == n, w, [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; case 5: Fill(v) = 1, 2, 3, 4, 5; break; case 6: Fill(v) = 1, 2, 3, 4, 5, 6; break; case 7: Fill(v) = 1, 2, 3, 4, 5, 6, 7; break; } }); };
		if (kind == 0) { Vector<> v(n); go(v); } else if (kind == 1) { Vector<Resizable> v(n); go(v); } else { Matrix<> m(n, 2); m = Zeros; auto v = m.T()[1]; go(v); } });
	mc::scenario("over- and under-filled run-time-sized matrix", [](Ctx& c) { int r = 1 + c.pick(3), q = 1 + c.pick(3), k = 1 + c.pick(10), kind = c.pick(3); string w = "Fill of " + I(k) + " values into " + I(r) + "x" + I(q);
		auto go = [&](auto& v) { expect_jump(c, k == r * q, w, [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; case 5: Fill(v) = 1, 2, 3, 4, 5; break; case 6: Fill(v) = 1, 2, 3, 4, 5, 6; break; case 7: Fill(v) = 1, 2, 3, 4, 5, 6, 7; break; case 8: Fill(v) = 1, 2, 3, 4, 5, 6, 7, 8; break; case 9: Fill(v) = 1, 2, 3, 4, 5, 6, 7, 8, 9; break; case 10: Fill(v) = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10; break; } }); };
		if (kind == 0) { Matrix<> v(r, q); go(v); } else if (kind == 1) { Matrix<Dynamic, Dynamic, double, ColMajor> v(r, q); go(v); } else { Matrix<> m(r + 1, q + 1); auto v = m.slice(1, 1, r, q); go(v); } });
	mc::scenario("under-filled fixed-size objects", [](Ctx& c) { int k = 1 + c.pick(4); { Vector<4> v; expect_jump(c, k == 4, "Fill of " + I(k) + " into Vector<4>", [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; } }); }
		{ Matrix<2> v; expect_jump(c, k == 4, "Fill of " + I(k) + " into Matrix<2>", [&] { switch (k) { case 1: Fill(v) = 1; break; case 2: Fill(v) = 1, 2; break; case 3: Fill(v) = 1, 2, 3; break; case 4: Fill(v) = 1, 2, 3, 4; break; } }); } });
	mc::scenario("Data of the wrong length", [](Ctx& c) { int n = c.pick(6), r = c.pick(4), q = c.pick(4); Vector<> v(n); Vector<Resizable> rv(n); Matrix<> m(r, q); Matrix<Dynamic, Dynamic, double, ColMajor> mc_(r, q);
		expect(c, n == 4, "Data(4) into Vector<>(" + I(n) + ")", [&] { v = Data(1., 2., 3., 4.); }); expect(c, n == 1, "Data(1) into Vector<>(" + I(n) + ")", [&] { v = Data(1.); });
		expect(c, r * q == 4, "Data(4) into Matrix<>(" + I(r) + "," + I(q) + ")", [&] { m = Data(1., 2., 3., 4.); }); expect(c, r * q == 6, "Data(6) into Matrix<ColMajor>(" + I(r) + "," + I(q) + ")", [&] { mc_ = Data(1., 2., 3., 4., 5., 6.); });
		if (r == 2) { Matrix<2, Dynamic> x(2, q); expect(c, q == 2, "Data(4) into Matrix<2,Dynamic>(" + I(q) + ")", [&] { x = Data(1., 2., 3., 4.); }); } });
}
#endif
#if PART == 6
static void functions() {
	mc::scenario("solver and decomposition arguments", [](Ctx& c) {
		int r = 1 + c.pick(3), q = 1 + c.pick(3), k = 1 + c.pick(3); Matrix<> a(r, q), rhs(k, 2); numm(a); rhs = Ones(k, 2); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) a(i, j) = i == j ? 4 : (i + j == 1 ? 1 : 0); Vector<> b(k); b = Ones; string n = I(r) + "x" + I(q), nb = " with right-hand side of " + I(k); bool sq = r == q;
		expect(c, sq && k == r, "gaussian_elimination(" + n + ")" + nb, [&] { auto x = gaussian_elimination(a, b); sink = x[0]; });
		expect(c, sq && k == r, "gaussian_elimination(" + n + ") matrix" + nb, [&] { auto x = gaussian_elimination(a, rhs); sink = x[0][0]; });
		expect(c, sq, "determinant(" + n + ")", [&] { sink = determinant(a); });
		expect(c, sq, "determinant_gaussian_elimination(" + n + ")", [&] { sink = determinant_gaussian_elimination(a); });
		if (sq) { Cholesky<> ch(a); expect(c, k == r, "Cholesky(" + n + ").backsub" + nb, [&] { auto x = ch.backsub(b); sink = x[0]; }); expect(c, k == r, "Cholesky(" + n + ").backsub matrix" + nb, [&] { auto x = ch.backsub(rhs); sink = x[0][0]; }); expect(c, k == r, "Cholesky(" + n + ").mahalanobis" + nb, [&] { sink = ch.mahalanobis(b); });
			SymEigen<> se(a); expect(c, k == r, "SymEigen(" + n + ").backsub" + nb, [&] { auto x = se.backsub(b); sink = x[0]; });
			LU<> lu(a); expect(c, k == r, "LU(" + n + ").backsub" + nb, [&] { auto x = lu.backsub(b); sink = x[0]; }); expect(c, k == r, "LU(" + n + ").backsub matrix" + nb, [&] { auto x = lu.backsub(rhs); sink = x[0][0]; }); }
		expect(c, sq, "Cholesky(" + n + ")", [&] { Cholesky<> x(a); (void)x; }); expect(c, sq, "SymEigen(" + n + ")", [&] { SymEigen<> x(a); (void)x; });
		expect(c, sq, "LU(" + n + ")", [&] { LU<> x(a); (void)x; });
		SVD<> svd(a); expect(c, k == r, "SVD(" + n + ").backsub" + nb, [&] { auto x = svd.backsub(b); sink = x[0]; });
		expect(c, k == r, "SVD(" + n + ").backsub matrix" + nb, [&] { auto x = svd.backsub(rhs); sink = x[0][0]; });
	});
}
#endif
void mc_register() {
#if PART == 1
	vec_requests();
#elif PART == 2
	mat_requests();
#elif PART == 3
	vec_ops();
#elif PART == 4
	mat_ops();
#elif PART == 5
	fills();
#else
	functions();
#endif
}
MC_MAIN()
