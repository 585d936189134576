// C04: every arithmetic operation on every pair of operand kinds, on all pairs of unit-basis operands (which
// determines a bilinear operation completely) and on dense integer-valued operands, against plain loops.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds; typedef std::complex<double> Cd;
template<class T> struct Mat { int r, c; vector<T> x; Mat(int r_, int c_) : r(r_), c(c_), x(r_ * c_) {} T& operator()(int i, int j) { return x[i * c + j]; } const T& operator()(int i, int j) const { return x[i * c + j]; } };
template<class T> T val(int k) { return T(k); }
template<> Cd val<Cd>(int k) { return Cd(k * 0.5, k % 3 - 1); }
template<> double val<double>(int k) { return k * 0.5; }
template<> float val<float>(int k) { return k * 0.25f; }
// the one of a one-hot pattern uses the last bits of its type, so that a rounding to a smaller type on the way shows
template<class T> T one() { return T(1); }
template<> double one<double>() { return 1 + std::ldexp(1., -40); }
template<> float one<float>() { return 1 + std::ldexp(1.f, -20); }
template<> Cd one<Cd>() { return Cd(1 + std::ldexp(1., -40), 0); }
// pattern 0: dense, pattern 1+i: one-hot at i
template<class T> T elem(int pat, int i, int salt) { static const int D[] = {3, -2, 5, 7, -4, 6, 1, -8, 9, 2, -5, 4, 8, -1, -6, 10}; return pat == 0 ? val<T>(D[(i * 5 + salt) % 16]) : (i == pat - 1 ? one<T>() : T(0)); }
template<class V, class T> void eqv(Ctx& c, const V& v, const vector<T>& w, const char* op) { if (v.size() != (int)w.size()) c.fail("shape", string(op) + ": size " + mc::str(v.size())); for (int i = 0; i < v.size(); ++i) c.checkf(v[i] == w[i], "value", [&] { return string(op) + ": element " + mc::str(i) + " is " + mc::str(v[i]) + ", expected " + mc::str(w[i]); }); }
template<class M, class T> void eqm(Ctx& c, const M& m, const Mat<T>& w, const char* op) { if (m.num_rows() != w.r || m.num_cols() != w.c) c.fail("shape", string(op) + ": shape " + mc::str(m.num_rows()) + "x" + mc::str(m.num_cols())); for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) c.checkf(m(i, j) == w(i, j), "value", [&] { return string(op) + ": element (" + mc::str(i) + "," + mc::str(j) + ") is " + mc::str(m(i, j)) + ", expected " + mc::str(w(i, j)); }); }
template<class X, class T> void typ(Ctx& c, const char* op) { if (!std::is_same<std::decay_t<X>, T>::value) c.fail("promotion", string(op) + ": element type of the result is not that of the element operation"); }
template<class A, class B> auto Sum(A a, B b) { return a + b; }

template<class T, class U, int N> void vec_pair(Ctx& c, vector<int> ka, vector<int> kb, int n) {
	int a_ = c.of(ka), b_ = c.of(kb), pa = c.pick(n + 1), pb = c.pick(n + 1);
	vec_kind<T, N>(a_, n, [&](auto& a, const string& na) { vec_kind<U, N>(b_, n, [&](auto& b, const string& nb) {
		c.logf("%s, %s, size %d patterns %d %d", na.c_str(), nb.c_str(), n, pa, pb); c.step(20); c.state(mc::mix(mc::hash_str(na + "|" + nb + typeid(T).name() + typeid(U).name()), n * 10000 + pa * 100 + pb));
		vector<T> A(n); vector<U> B(n); for (int i = 0; i < n; ++i) { a[i] = A[i] = elem<T>(pa, i, 0); b[i] = B[i] = elem<U>(pb, i, 7); }
		const auto& ca = a; const auto& cb = b;
		typedef decltype(T() + U()) S; typedef decltype(T() * U()) P; vector<S> s(n), d(n); vector<P> m(n); P dot = 0; for (int i = 0; i < n; ++i) { s[i] = A[i] + B[i]; d[i] = A[i] - B[i]; m[i] = A[i] * B[i]; dot += A[i] * B[i]; }
		eqv(c, ca + cb, s, "v+w"); eqv(c, ca - cb, d, "v-w"); eqv(c, diagmult(ca, cb), m, "diagmult(v,w)"); c.check(ca * cb == dot, "value", "v*w (dot)");
		auto sum = ca + cb; auto pro = diagmult(ca, cb); typ<decltype(sum[0]), S>(c, "v+w"); typ<decltype(pro[0]), P>(c, "diagmult"); typ<decltype(ca * cb), P>(c, "dot"); auto dif = ca - cb; typ<decltype(dif[0]), S>(c, "v-w");
		{ Mat<P> o(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o(i, j) = A[i] * B[j]; eqm(c, ca.as_col() * cb.as_row(), o, "outer product"); eqm(c, ca.as_row() * cb.as_col(), [&] { Mat<P> x(1, 1); x(0, 0) = dot; return x; }(), "row * column"); }
		bool eq = true; for (int i = 0; i < n; ++i) if (!(A[i] == B[i])) eq = false; c.check((ca == cb) == eq, "value", "=="); c.check((ca != cb) == !eq, "value", "!=");
		eqv(c, a, A, "left operand afterwards"); eqv(c, b, B, "right operand afterwards");
		if constexpr (std::is_same<P, T>::value) {
			a += b; for (int i = 0; i < n; ++i) A[i] += B[i]; eqv(c, a, A, "+="); a -= b; a -= b; for (int i = 0; i < n; ++i) A[i] -= B[i] + B[i]; eqv(c, a, A, "-=");
			a = b; for (int i = 0; i < n; ++i) A[i] = B[i]; eqv(c, a, A, "="); c.check(a == b, "value", "== after assignment"); c.check(!(a != b), "value", "!= after assignment"); eqv(c, b, B, "right operand of compound assignment");
			for (int i = 0; i < n; ++i) { a[i] += T(1); c.check(!(a == b) && a != b, "value", "==/!= with a single different element"); a[i] = B[i]; }
		}
	}); });
}
template<class T, int N> void vec_one(Ctx& c, int n, bool resz = true) {
	int k = c.pick(VK), p = c.pick(n + 1), sc = c.pick(3); T s = T(sc == 0 ? 2 : sc == 1 ? -4 : 1);
	vec_kind<T, N>(k, n, [&](auto& v, const string& nm) {
		c.log(nm); c.step(15); c.state(mc::mix(mc::hash_str(nm + typeid(T).name()), n * 1000 + p * 10 + sc));
		vector<T> A(n); auto set = [&] { for (int i = 0; i < n; ++i) v[i] = A[i] = elem<T>(p, i, 3) * T(4); }; set(); const auto& cv = v;
		vector<T> w(n); for (int i = 0; i < n; ++i) w[i] = -A[i]; eqv(c, -cv, w, "-v"); for (int i = 0; i < n; ++i) w[i] = A[i] * s; eqv(c, cv * s, w, "v*s"); for (int i = 0; i < n; ++i) w[i] = s * A[i]; eqv(c, s * cv, w, "s*v"); for (int i = 0; i < n; ++i) w[i] = A[i] / s; eqv(c, cv / s, w, "v/s"); eqv(c, v, A, "operand afterwards");
		v *= s; for (int i = 0; i < n; ++i) w[i] = A[i] * s; eqv(c, v, w, "*="); set(); v /= s; for (int i = 0; i < n; ++i) w[i] = A[i] / s; eqv(c, v, w, "/="); set();
		v = v + v; for (int i = 0; i < n; ++i) w[i] = A[i] + A[i]; eqv(c, v, w, "v=v+v"); set(); v += v; eqv(c, v, w, "v+=v"); v = v * T(2); for (int i = 0; i < n; ++i) w[i] = w[i] * T(2); eqv(c, v, w, "v=v*2"); v -= v; for (int i = 0; i < n; ++i) w[i] = 0; eqv(c, v, w, "v-=v"); set();
		v = -v; for (int i = 0; i < n; ++i) w[i] = -A[i]; eqv(c, v, w, "v=-v"); set(); v = diagmult(v, v); for (int i = 0; i < n; ++i) w[i] = A[i] * A[i]; eqv(c, v, w, "v=diagmult(v,v)"); set();
		if (n && p == 0) { T s0 = A[0], s1 = A[n - 1]; v *= v[0]; for (int i = 0; i < n; ++i) w[i] = A[i] * s0; eqv(c, v, w, "v*=v[0]"); set(); v = v * v[n - 1]; for (int i = 0; i < n; ++i) w[i] = A[i] * s1; eqv(c, v, w, "v=v*v[last]"); set(); v /= v[0]; for (int i = 0; i < n; ++i) w[i] = A[i] / s0; eqv(c, v, w, "v/=v[0]"); set(); }
		if constexpr (N == 3) if (n == 3) { if constexpr (std::decay_t<decltype(v)>::SizeParameter == 3) { for (int q = 0; q <= 3; ++q) { Vector<3, T> u; vector<T> U(3); for (int i = 0; i < 3; ++i) u[i] = U[i] = elem<T>(q, i, 9); vector<T> x{A[1] * U[2] - A[2] * U[1], A[2] * U[0] - A[0] * U[2], A[0] * U[1] - A[1] * U[0]}; eqv(c, cv ^ u, x, "v^u"); for (auto& e : x) e = -e; eqv(c, u ^ cv, x, "u^v"); }
			v = v ^ v; vector<T> z(3); eqv(c, v, z, "v=v^v"); set(); } }
		if constexpr (std::is_same<T, int>::value) { vector<double> dw(n); for (int i = 0; i < n; ++i) dw[i] = A[i] * 0.5; eqv(c, cv * 0.5, dw, "int v*0.5"); eqv(c, 0.5 * cv, dw, "0.5*int v"); eqv(c, cv / 2.0, dw, "int v/2.0"); }
		if constexpr (std::is_same<T, double>::value) { for (int i = 0; i < n; ++i) w[i] = A[i] * 2; eqv(c, cv * 2, w, "v*2 (int scalar)"); eqv(c, 2 * cv, w, "2*v (int scalar)"); for (int i = 0; i < n; ++i) w[i] = A[i] / 8; eqv(c, cv / 8, w, "v/8 (int scalar)"); eqv(c, cv * 0.125f, w, "v*float"); }
		if constexpr (std::is_same<T, float>::value) { auto x = cv * 2.0; typ<decltype(x[0]), double>(c, "float v * double"); auto y = cv / 2; typ<decltype(y[0]), float>(c, "float v / int"); }
	});
}
template<class T, class U, int R, int C> void mat_pair(Ctx& c, vector<int> ka, vector<int> kb, int r, int q) {
	int a_ = c.of(ka), b_ = c.of(kb), pa = c.pick(r * q + 1), pb = c.pick(r * q + 1);
	mat_kind<T, R, C>(a_, r, q, [&](auto& a, const string& na) { mat_kind<U, R, C>(b_, r, q, [&](auto& b, const string& nb) {
		c.logf("%s, %s, %dx%d patterns %d %d", na.c_str(), nb.c_str(), r, q, pa, pb); c.step(20); c.state(mc::mix(mc::hash_str(na + "|" + nb + typeid(T).name() + typeid(U).name()), ((r * 10 + q) * 100 + pa) * 100 + pb));
		Mat<T> A(r, q); Mat<U> B(r, q);
#define ALL for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j)
		ALL { a(i, j) = A(i, j) = elem<T>(pa, i * q + j, 0); b(i, j) = B(i, j) = elem<U>(pb, i * q + j, 5); }
		const auto& ca = a; const auto& cb = b; typedef decltype(T() + U()) S; typedef decltype(T() * U()) P;
		Mat<S> s(r, q), d(r, q); ALL { s(i, j) = A(i, j) + B(i, j); d(i, j) = A(i, j) - B(i, j); }
		auto sum = ca + cb; eqm(c, sum, s, "m+n"); typ<decltype(sum(0, 0)), S>(c, "m+n"); auto dif = ca - cb; eqm(c, dif, d, "m-n"); typ<decltype(dif(0, 0)), S>(c, "m-n");
		Mat<P> abt(r, r), atb(q, q); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) for (int k = 0; k < q; ++k) abt(i, j) += A(i, k) * B(j, k); for (int i = 0; i < q; ++i) for (int j = 0; j < q; ++j) for (int k = 0; k < r; ++k) atb(i, j) += A(k, i) * B(k, j);
		auto pr = ca * cb.T(); eqm(c, pr, abt, "m*n.T()"); typ<decltype(pr(0, 0)), P>(c, "m*n.T()"); eqm(c, ca.T() * cb, atb, "m.T()*n");
		if (r == q) if constexpr (!clash<R, C>) { Mat<P> ab(r, r); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) for (int k = 0; k < r; ++k) ab(i, j) += A(i, k) * B(k, j); eqm(c, ca * cb, ab, "m*n");
			if constexpr (std::is_same<P, T>::value) { a = a * b; eqm(c, a, ab, "m=m*n"); ALL a(i, j) = A(i, j); if constexpr (std::is_same<T, U>::value) { b = a * b; eqm(c, b, ab, "n=m*n"); ALL b(i, j) = B(i, j); } } }
		bool eq = A.x.size() == 0; eq = true; ALL if (!(A(i, j) == B(i, j))) eq = false; c.check((ca == cb) == eq, "value", "=="); c.check((ca != cb) == !eq, "value", "!=");
		eqm(c, a, A, "left operand afterwards"); eqm(c, b, B, "right operand afterwards");
		if constexpr (std::is_same<P, T>::value) {
			a += b; ALL A(i, j) += B(i, j); eqm(c, a, A, "+="); a -= b; a -= b; ALL A(i, j) -= B(i, j) + B(i, j); eqm(c, a, A, "-="); a = b; ALL A(i, j) = B(i, j); eqm(c, a, A, "="); c.check(a == b && !(a != b), "value", "== after assignment"); eqm(c, b, B, "right operand of compound assignment");
			ALL { a(i, j) += T(1); c.check(!(a == b) && a != b, "value", "==/!= with a single different element"); a(i, j) = B(i, j); }
		}
	}); });
}
template<class T, int R, int C> void mat_one(Ctx& c, int r, int q) {
	int k = c.pick(MK), p = c.pick(r * q + 1), sc = c.pick(3); T s = T(sc == 0 ? 2 : sc == 1 ? -4 : 1);
	mat_kind<T, R, C>(k, r, q, [&](auto& m, const string& nm) {
		c.log(nm); c.step(15); c.state(mc::mix(mc::hash_str(nm + typeid(T).name()), (r * 10 + q) * 1000 + p * 10 + sc)); Mat<T> A(r, q), w(r, q); auto set = [&] { ALL m(i, j) = A(i, j) = elem<T>(p, i * q + j, 3) * T(4); }; set(); const auto& cm = m;
		ALL w(i, j) = -A(i, j); eqm(c, -cm, w, "-m"); ALL w(i, j) = A(i, j) * s; eqm(c, cm * s, w, "m*s"); ALL w(i, j) = s * A(i, j); eqm(c, s * cm, w, "s*m"); ALL w(i, j) = A(i, j) / s; eqm(c, cm / s, w, "m/s"); eqm(c, m, A, "operand afterwards");
		m *= s; ALL w(i, j) = A(i, j) * s; eqm(c, m, w, "*="); set(); m /= s; ALL w(i, j) = A(i, j) / s; eqm(c, m, w, "/="); set(); m = m + m; ALL w(i, j) = A(i, j) + A(i, j); eqm(c, m, w, "m=m+m"); set(); m += m; eqm(c, m, w, "m+=m"); m -= m; ALL w(i, j) = 0; eqm(c, m, w, "m-=m"); set(); m = -m; ALL w(i, j) = -A(i, j); eqm(c, m, w, "m=-m"); set();
		if (r == q) { if constexpr (!clash<R, C>) { ALL w(i, j) = 0; for (int x = 0; x < r; ++x) ALL w(i, j) += A(i, x) * A(x, j); m = m * m; eqm(c, m, w, "m=m*m"); set(); ALL { w(i, j) = 0; for (int x = 0; x < r; ++x) w(i, j) += A(x, i) * A(x, j); } m = m.T() * m; eqm(c, m, w, "m=m.T()*m"); set(); ALL w(i, j) = A(i, j) + A(j, i); m = m + m.T(); eqm(c, m, w, "m=m+m.T()"); set(); } }
		if (r * q && p == 0) { T s0 = A(0, 0); m *= m(0, 0); ALL w(i, j) = A(i, j) * s0; eqm(c, m, w, "m*=m(0,0)"); set(); m /= m(0, 0); ALL w(i, j) = A(i, j) / s0; eqm(c, m, w, "m/=m(0,0)"); set(); }
		if constexpr (std::is_same<T, int>::value) { Mat<double> dw(r, q); ALL dw(i, j) = A(i, j) * 0.5; eqm(c, cm * 0.5, dw, "int m*0.5"); eqm(c, 0.5 * cm, dw, "0.5*int m"); eqm(c, cm / 2.0, dw, "int m/2.0"); }
		if constexpr (std::is_same<T, double>::value) { ALL w(i, j) = A(i, j) * 2; eqm(c, cm * 2, w, "m*2 (int scalar)"); eqm(c, 2 * cm, w, "2*m (int scalar)"); }
	});
}
template<class T, class U, int R, int C> void mat_vec(Ctx& c, vector<int> ka, vector<int> kb, int r, int q) {
	int a_ = c.of(ka), b_ = c.of(kb), pa = c.pick(r * q + 1), pb = c.pick(std::max(r, q) + 1);
	mat_kind<T, R, C>(a_, r, q, [&](auto& a, const string& na) { Mat<T> A(r, q); ALL a(i, j) = A(i, j) = elem<T>(pa, i * q + j, 0); const auto& ca = a; typedef decltype(T() * U()) P; c.step(8); c.state(mc::mix(mc::hash_str(na + typeid(T).name() + typeid(U).name()), ((r * 10 + q) * 100 + pa) * 1000 + pb * 10 + b_)); c.logf("%s %dx%d, vector kind %d", na.c_str(), r, q, b_);
		vec_kind<U, C>(b_, q, [&](auto& v, const string&) { vector<U> V(q); for (int i = 0; i < q; ++i) v[i] = V[i] = elem<U>(pb, i, 4); const auto& cv = v; vector<P> w(r); ALL w[i] += A(i, j) * V[j]; auto x = ca * cv; eqv(c, x, w, "m*v"); typ<decltype(x[0]), P>(c, "m*v");
			Mat<P> d(r, q); ALL d(i, j) = A(i, j) * V[j]; auto dm = diagmult(ca, cv); eqm(c, dm, d, "diagmult(m,v)"); typ<decltype(dm(0, 0)), P>(c, "diagmult(m,v)"); eqm(c, a, A, "matrix afterwards"); eqv(c, v, V, "vector afterwards"); if constexpr (!clash<R, C> && std::is_same<P, U>::value) if (r == q) { v = a * v; eqv(c, v, w, "v=m*v"); } });
		vec_kind<U, R>(b_, r, [&](auto& v, const string&) { vector<U> V(r); for (int i = 0; i < r; ++i) v[i] = V[i] = elem<U>(pb, i, 4); const auto& cv = v; vector<P> w(q); ALL w[j] += V[i] * A(i, j); auto x = cv * ca; eqv(c, x, w, "v*m"); typ<decltype(x[0]), P>(c, "v*m");
			Mat<P> d(r, q); ALL d(i, j) = V[i] * A(i, j); auto dm = diagmult(cv, ca); eqm(c, dm, d, "diagmult(v,m)"); typ<decltype(dm(0, 0)), P>(c, "diagmult(v,m)"); eqm(c, a, A, "matrix afterwards"); eqv(c, v, V, "vector afterwards"); if constexpr (!clash<R, C> && std::is_same<P, U>::value) if (r == q) { v = v * a; eqv(c, v, w, "v=v*m"); } });
	});
}
static vector<int> all(int n) { vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; return v; }
void mc_register() {
	vector<int> few{1, 2, 5}, mfew{2, 3, 7};
#if PART == 1
	mc::scenario("vector pairs double size 3", [](Ctx& c) { vec_pair<double, double, 3>(c, all(VK), {0, 1, 5, 7}, 3); });
#elif PART == 2
	mc::scenario("single vector int", [](Ctx& c) { vec_one<int, 3>(c, 3); });
	mc::scenario("single vector double", [](Ctx& c) { vec_one<double, 3>(c, 3); });
	mc::scenario("single vector float", [](Ctx& c) { vec_one<float, 2>(c, 2); });
	mc::scenario("single vector complex", [](Ctx& c) { vec_one<Cd, 3>(c, 3); });
#elif PART == 3
	mc::scenario("single vector size 1", [](Ctx& c) { vec_one<double, 1>(c, 1); });
	mc::scenario("single vector size 12", [](Ctx& c) { vec_one<double, 12>(c, 12); });
	mc::scenario("vector pairs dynamic sizes", [=](Ctx& c) { vec_pair<double, double, -2>(c, few, few, c.of({0, 1, 2, 4, 11})); });
	mc::scenario("vector pairs int/double", [=](Ctx& c) { vec_pair<int, double, 3>(c, {0, 1, 5}, {0, 1, 5}, 3); });
	mc::scenario("vector pairs double/int", [=](Ctx& c) { vec_pair<double, int, 3>(c, {0, 1, 5}, {0, 1, 5}, 3); });
#elif PART == 4
	mc::scenario("vector pairs float/double", [=](Ctx& c) { vec_pair<float, double, 3>(c, {0, 1, 5}, {0, 1, 5}, 3); });
	mc::scenario("vector pairs int", [=](Ctx& c) { vec_pair<int, int, 3>(c, {0, 1, 5}, {0, 1, 5}, 3); });
	mc::scenario("vector pairs complex", [=](Ctx& c) { vec_pair<Cd, Cd, 2>(c, {0, 1, 5}, {0, 1, 5}, 2); });
	mc::scenario("vector pairs complex/double", [=](Ctx& c) { vec_pair<Cd, double, 2>(c, {0, 1, 5}, {0, 1, 5}, 2); });
#elif PART == 5
	mc::scenario("matrix pairs double 2x3 a", [](Ctx& c) { mat_pair<double, double, 2, 3>(c, {0, 1, 2, 3, 4, 5}, {0, 3, 7, 8}, 2, 3); });
#elif PART == 6
	mc::scenario("matrix pairs double 2x2", [](Ctx& c) { mat_pair<double, double, 2, 2>(c, {0, 1, 3, 6}, {0, 1, 2, 8}, 2, 2); });
#elif PART == 7
	mc::scenario("matrix pairs double 2x3 b", [](Ctx& c) { mat_pair<double, double, 2, 3>(c, {6, 7, 8, 9, 10, 11}, {1, 2, 6, 9}, 2, 3); });
#elif PART == 8
	mc::scenario("matrix pairs dynamic shapes", [=](Ctx& c) { int r = c.of({0, 1, 2, 3, 4}), q = c.of({0, 1, 2, 3, 4}); mat_pair<double, double, -2, -2>(c, mfew, mfew, r, q); });
	mc::scenario("matrix pairs int/double", [=](Ctx& c) { mat_pair<int, double, 2, 2>(c, {0, 1, 7}, {0, 2}, 2, 2); });
#elif PART == 9
	mc::scenario("matrix pairs float/double", [=](Ctx& c) { mat_pair<float, double, 2, 2>(c, {0, 3}, {0, 9}, 2, 2); });
	mc::scenario("matrix pairs int", [=](Ctx& c) { mat_pair<int, int, 2, 2>(c, {0, 3}, {0, 9}, 2, 2); });
	mc::scenario("matrix pairs complex", [=](Ctx& c) { mat_pair<Cd, Cd, 2, 2>(c, {0, 3, 8}, {0, 9}, 2, 2); });
#elif PART == 10
	mc::scenario("single matrix double 2x3", [](Ctx& c) { mat_one<double, 2, 3>(c, 2, 3); });
	mc::scenario("single matrix int 3x3", [](Ctx& c) { mat_one<int, 3, 3>(c, 3, 3); });
#elif PART == 11
	mc::scenario("single matrix complex 2x2", [](Ctx& c) { mat_one<Cd, 2, 2>(c, 2, 2); });
	mc::scenario("single matrix float 1x3", [](Ctx& c) { mat_one<float, 1, 3>(c, 1, 3); });
	mc::scenario("single matrix double 4x4", [](Ctx& c) { mat_one<double, 4, 4>(c, 4, 4); });
#elif PART == 12
	mc::scenario("matrix and vector 2x3", [](Ctx& c) { mat_vec<double, double, 2, 3>(c, all(MK), {0, 1, 2, 4, 5}, 2, 3); });
#elif PART == 13
	mc::scenario("matrix and vector 3x3", [](Ctx& c) { mat_vec<double, double, 3, 3>(c, {0, 1, 2, 3, 7, 8}, {0, 1, 2, 6, 8}, 3, 3); });
#elif PART == 14
	mc::scenario("matrix and vector dynamic shapes", [=](Ctx& c) { int r = c.of({0, 1, 2, 4}), q = c.of({0, 1, 3, 5}); mat_vec<double, double, -2, -2>(c, mfew, few, r, q); });
#elif PART == 15
	mc::scenario("matrix and vector int/double", [=](Ctx& c) { mat_vec<int, double, 2, 2>(c, {0, 1, 7}, {0, 1, 5}, 2, 2); });
	mc::scenario("matrix and vector double/float", [=](Ctx& c) { mat_vec<double, float, 2, 3>(c, {0, 7}, {0, 5}, 2, 3); });
	mc::scenario("matrix and vector complex", [=](Ctx& c) { mat_vec<Cd, Cd, 2, 2>(c, {0, 3}, {0, 5}, 2, 2); });
#endif
}
MC_MAIN()
