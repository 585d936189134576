// Reference linear algebra in quadruple precision, written with plain loops over std::vector.
#ifndef REF_HH
#define REF_HH
#include <bits/stdc++.h>
#ifdef __clang__
typedef __float128 Q;
#else
typedef __float128 Q;
#endif
inline Q qabs(Q x) { return x < 0 ? -x : x; }
inline Q qmax(Q a, Q b) { return a < b ? b : a; }
inline Q qsqrt(Q x) { if (x <= 0) return 0; Q r = sqrtl((long double)x); if (r == 0) return 0; for (int i = 0; i < 3; ++i) r = (r + x / r) / 2; return r; }
struct QM { int r = 0, c = 0; std::vector<Q> a; QM() {} QM(int R, int C) : r(R), c(C), a(R * C, Q(0)) {}
	Q& operator()(int i, int j) { return a[i * c + j]; } Q operator()(int i, int j) const { return a[i * c + j]; }
	static QM id(int n) { QM m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
	QM T() const { QM t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t(j, i) = (*this)(i, j); return t; }
	Q maxabs() const { Q m = 0; for (Q x : a) m = qmax(m, qabs(x)); return m; }
	Q inf() const { Q m = 0; for (int i = 0; i < r; ++i) { Q s = 0; for (int j = 0; j < c; ++j) s += qabs((*this)(i, j)); m = qmax(m, s); } return m; }
	Q fro() const { Q s = 0; for (Q x : a) s += x * x; return qsqrt(s); } };
inline QM operator*(const QM& a, const QM& b) { QM r(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int k = 0; k < a.c; ++k) for (int j = 0; j < b.c; ++j) r(i, j) += a(i, k) * b(k, j); return r; }
inline QM operator+(QM a, const QM& b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] += b.a[i]; return a; }
inline QM operator-(QM a, const QM& b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] -= b.a[i]; return a; }
inline QM operator*(QM a, Q s) { for (Q& x : a.a) x *= s; return a; }
template<class M> QM toQ(const M& m) { QM r(m.num_rows(), m.num_cols()); for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) r(i, j) = m(i, j); return r; }
template<class V> QM toQv(const V& v) { QM r(v.size(), 1); for (int i = 0; i < r.r; ++i) r(i, 0) = v[i]; return r; }
// determinant, rank (relative threshold) and inverse by elimination with full pivoting; ok=false when singular
struct Elim { Q det = 1; int rank = 0; QM inv; bool ok = true;
	Elim(QM m, Q rel = 1e-28Q) { int n = m.r; inv = QM::id(n); std::vector<int> cp(n); for (int i = 0; i < n; ++i) cp[i] = i; Q big = m.maxabs();
		for (int k = 0; k < n; ++k) { int pr = k, pc = k; for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (qabs(m(i, j)) > qabs(m(pr, pc))) pr = i, pc = j;
			Q p = m(pr, pc); if (p == 0 || qabs(p) <= rel * big * 0) { det = 0; ok = false; return; } ++rank;
			if (pr != k) { det = -det; for (int j = 0; j < n; ++j) { std::swap(m(pr, j), m(k, j)); std::swap(inv(pr, j), inv(k, j)); } } if (pc != k) { det = -det; std::swap(cp[pc], cp[k]); for (int i = 0; i < n; ++i) std::swap(m(i, pc), m(i, k)); }
			det *= p; for (int j = 0; j < n; ++j) { m(k, j) /= p; inv(k, j) /= p; }
			for (int i = 0; i < n; ++i) if (i != k) { Q f = m(i, k); if (f == 0) continue; for (int j = 0; j < n; ++j) { m(i, j) -= f * m(k, j); inv(i, j) -= f * inv(k, j); } } }
		QM r(n, n); for (int k = 0; k < n; ++k) for (int j = 0; j < n; ++j) r(cp[k], j) = inv(k, j); inv = r; } };
inline std::string qs(Q x) { char b[64]; snprintf(b, 64, "%.17Lg", (long double)x); return b; }
inline std::string qms(const QM& m) { std::string s = "["; for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) s += (j ? " " : "") + qs(m(i, j)); s += i + 1 < m.r ? "; " : "]"; } return s; }
template<class M> void fromQ(M& m, const QM& q) { typedef typename std::remove_reference<decltype(m(0, 0))>::type T; for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.c; ++j) m(i, j) = (T)(long double)q(i, j); }
// exact arithmetic is meant: elements must be exactly representable in T, otherwise take toQ(m) after fromQ
#endif
#ifndef REF_PINV
#define REF_PINV
// Moore-Penrose inverse through a full-rank factorisation (reduced row echelon form); rank decided at 1e-25
struct PInv { int rank = 0; QM p; PInv(const QM& A) { int r = A.r, c = A.c; QM m = A; Q tol = 1e-25Q * A.maxabs(); std::vector<int> piv;
	for (int j = 0; j < c && rank < r; ++j) { int b = rank; for (int i = rank; i < r; ++i) if (qabs(m(i, j)) > qabs(m(b, j))) b = i; if (qabs(m(b, j)) <= tol) continue; for (int k = 0; k < c; ++k) std::swap(m(b, k), m(rank, k)); Q d = m(rank, j); for (int k = 0; k < c; ++k) m(rank, k) /= d; for (int i = 0; i < r; ++i) if (i != rank) { Q f = m(i, j); if (f != 0) for (int k = 0; k < c; ++k) m(i, k) -= f * m(rank, k); } piv.push_back(j); ++rank; }
	if (rank == 0) { p = QM(c, r); return; } QM B(r, rank), C(rank, c); for (int i = 0; i < r; ++i) for (int k = 0; k < rank; ++k) B(i, k) = A(i, piv[k]); for (int k = 0; k < rank; ++k) for (int j = 0; j < c; ++j) C(k, j) = m(k, j);
	p = C.T() * Elim(C * C.T()).inv * Elim(B.T() * B).inv * B.T(); } };
#endif
#ifndef REF_FUN
#define REF_FUN
// eigenvalues (ascending) and eigenvectors (columns of V) of a symmetric matrix by cyclic Jacobi rotations
struct SymRef { std::vector<Q> w; QM V; SymRef(QM A) : V(QM::id(A.r)) { int n = A.r; for (int sw = 0; sw < 60; ++sw) { Q off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) off = qmax(off, qabs(A(i, j))); if (off <= 1e-33Q * A.maxabs() || off == 0) break;
	for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { if (A(p, q) == 0) continue; Q th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (qabs(th) > 1e30Q ? 2 * qabs(th) : qabs(th) + qsqrt(th * th + 1)), cs = 1 / qsqrt(t * t + 1), s = t * cs;
		for (int k = 0; k < n; ++k) { Q a = A(k, p), b = A(k, q); A(k, p) = cs * a - s * b; A(k, q) = s * a + cs * b; } for (int k = 0; k < n; ++k) { Q a = A(p, k), b = A(q, k); A(p, k) = cs * a - s * b; A(q, k) = s * a + cs * b; } for (int k = 0; k < n; ++k) { Q a = V(k, p), b = V(k, q); V(k, p) = cs * a - s * b; V(k, q) = s * a + cs * b; } } }
	std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; std::sort(o.begin(), o.end(), [&](int i, int j) { return A(i, i) < A(j, j); }); QM U(n, n); for (int k = 0; k < n; ++k) { w.push_back(A(o[k], o[k])); for (int i = 0; i < n; ++i) U(i, k) = V(i, o[k]); } V = U; }
	template<class F> QM fun(F f) const { int n = V.r; QM D(n, n); for (int i = 0; i < n; ++i) D(i, i) = f(w[i]); return V * D * V.T(); } };
// matrix exponential by scaling and a Taylor series to convergence
inline QM qexpm(QM A) { int s = 0; Q n = A.inf(); while (n > 0.25Q) { n /= 2; ++s; } Q f = 1; for (int i = 0; i < s; ++i) f /= 2; A = A * f; QM r = QM::id(A.r), t = r; for (int k = 1; k < 60; ++k) { t = t * A * (Q(1) / k); r = r + t; if (t.maxabs() < 1e-40Q) break; } for (int i = 0; i < s; ++i) r = r * r; return r; }
#endif
