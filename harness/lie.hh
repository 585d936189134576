// Reference transformation groups as homogeneous matrices in quadruple precision, grids of tangent vectors and helpers.
#ifndef LIE_HH
#define LIE_HH
#include "kinds.hh"
#include "gens.hh"
using namespace TooN; using namespace kinds; typedef long double LD;
namespace lie {
// the classes compute sines, cosines and roots of the determinant in double whatever their precision
template<class P> Q precision() { return qmax(std::numeric_limits<P>::epsilon(), std::numeric_limits<double>::epsilon()); }
template<class V> QM qv(const V& v) { return toQv(v); }
inline QM col(std::vector<Q> v) { QM m(v.size(), 1); for (size_t i = 0; i < v.size(); ++i) m(i, 0) = v[i]; return m; }
inline Q dot(const QM& a, const QM& b) { Q s = 0; for (size_t i = 0; i < a.a.size(); ++i) s += a.a[i] * b.a[i]; return s; }
inline Q nrm(const QM& a) { return a.fro(); }
inline QM so2g() { QM g(3, 3); g(0, 1) = -1; g(1, 0) = 1; return g; }
// generators in homogeneous form: D spatial dimensions, translations first, then rotations, then scale
inline QM gen(int D, int i) { QM g(D + 1, D + 1); if (i < D) { g(i, D) = 1; return g; } int r = i - D; if (D == 2) { if (r == 0) { g(0, 1) = -1; g(1, 0) = 1; return g; } } else if (r < 3) { g((r + 1) % 3, (r + 2) % 3) = -1; g((r + 2) % 3, (r + 1) % 3) = 1; return g; } for (int k = 0; k < D; ++k) g(k, k) = 1; return g; }
inline QM alg(int D, const QM& v) { QM m(D + 1, D + 1); for (int i = 0; i < v.r; ++i) m = m + gen(D, i) * v(i, 0); return m; }
inline QM rot3(const QM& w) { QM g(3, 3); for (int i = 0; i < 3; ++i) { g((i + 1) % 3, (i + 2) % 3) -= w(i, 0); g((i + 2) % 3, (i + 1) % 3) += w(i, 0); } return qexpm(g); }
inline QM rot2(Q t) { QM g(2, 2); g(0, 1) = -t; g(1, 0) = t; return qexpm(g); }
static const Q PI = 3.14159265358979323846264338327950288Q;
// angles: zero, tiny, both sides of every threshold in the code, ordinary, around pi, beyond
inline const std::vector<Q>& angles() { static std::vector<Q> a; if (a.empty()) { for (Q x : {0.Q, 1e-300Q, 1e-160Q, 1e-20Q, 1e-12Q, 1e-9Q, 3e-8Q, 0.99e-6Q, 1.01e-6Q, 0.99e-5Q, 1.01e-5Q, 3e-5Q, 0.99e-4Q, 1.01e-4Q, 3e-4Q, 0.99e-3Q, 1.01e-3Q, 0.01Q, 0.1Q, 0.5Q, 1.Q, 2.Q, 3.Q}) a.push_back(x); for (Q x : {PI / 4 - 1e-7Q, PI / 4 + 1e-7Q, PI / 3, PI / 2, 2 * PI / 3, 3 * PI / 4 - 1e-7Q, 3 * PI / 4 + 1e-7Q, PI - 0.1Q, PI - 1e-3Q, PI - 1e-5Q, PI - 1e-7Q, PI - 1e-9Q, PI - 1e-12Q}) a.push_back(x); } return a; }
inline const std::vector<Q>& big() { static std::vector<Q> a{PI, PI + 1e-7Q, 4, 3 * PI / 2, 2 * PI - 1e-3Q, 2 * PI - 1e-6Q, 2 * PI, 2 * PI + 1e-6Q, 7, 10, 31.5Q}; return a; }
inline QM axis(int k) { static const double t[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {1, 1, 0}, {1, 0, -1}, {0, 1, 1}, {1, 1, 1}, {-1, 1, 1}, {1, -2, 2}, {-3, 1, 2}, {1e-6, 1, 0}, {0, 1e-9, 1}, {5, 3, -1}}; QM v = col({t[k][0], t[k][1], t[k][2]}); return v * (1 / nrm(v)); }
static const int AXES = 16;
template<class P> QM rnd(QM a) { for (auto& x : a.a) x = (P)(LD)x; return a; }
template<class P, int N> Vector<N, P> vec(const QM& a) { Vector<N, P> v(a.r); for (int i = 0; i < a.r; ++i) v[i] = (P)(LD)a(i, 0); return v; }
struct Cmp { mc::Ctx& c; string nm; void mat(const string& f, const QM& X, const QM& w, Q tol) { c.checkf(X.r == w.r && X.c == w.c, f, [&] { return f + " (" + nm + "): wrong shape"; }); for (size_t i = 0; i < X.a.size(); ++i) c.checkf(qabs(X.a[i] - w.a[i]) <= tol, f, [&] { return f + " (" + nm + ") is " + qms(X) + ", expected " + qms(w) + " to " + qs(tol); }); }
	void num(const string& f, Q x, Q w, Q tol) { c.checkf(qabs(x - w) <= tol, f, [&] { return f + " (" + nm + ") is " + qs(x) + ", expected " + qs(w) + " to " + qs(tol); }); } };
inline QM point(int n, int s) { QM p(n, 1); for (int i = 0; i < n; ++i) p(i, 0) = gens::dense_q(i, s, 3) / 4; return p; }
}
using namespace lie;
#endif
