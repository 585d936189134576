// A stand-in for FADBAD++'s forward differentiation type (FADBAD++ is not installed here): the part of
// the documented interface of fadbad::F that TooN/functions/fadbad.h and programs over it use.
// F<T,N> carries a value and N first derivatives; F<T> (N == 0) carries a run-time number of them,
// none until it depends on a variable.
#ifndef VERIF_FADIFF_H
#define VERIF_FADIFF_H
#include <cmath>
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <type_traits>
namespace fadbad {
inline void user_assert(bool ok, const char* what) { if (!ok) { std::fprintf(stderr, "FADBAD: %s\n", what); std::abort(); } }
template<class T> struct Op { typedef T Base; };
template<typename T, unsigned int N = 0> class F;
template<typename T, unsigned int N> struct Op<F<T, N> > { typedef typename Op<T>::Base Base; };

template<typename T, unsigned int N> class Store { T d_[N]; bool dep;
public: Store() : d_(), dep(false) {} unsigned size() const { return N; } bool depend() const { return dep; } void set_depend(unsigned) { if (!dep) for (unsigned i = 0; i < N; ++i) d_[i] = T(0); dep = true; }
	T& at(unsigned i) { user_assert(i < N, "index out of bounds"); return d_[i]; } T get(unsigned i) const { user_assert(i < N, "index out of bounds"); return dep ? d_[i] : T(0); } void check(unsigned) const {} };
template<typename T> class Store<T, 0> { std::vector<T> d_;
public: unsigned size() const { return (unsigned)d_.size(); } bool depend() const { return !d_.empty(); } void set_depend(unsigned n) { if (d_.empty()) d_.assign(n, T(0)); }
	T& at(unsigned i) { user_assert(i < d_.size(), "index out of bounds"); return d_[i]; } T get(unsigned i) const { if (d_.empty()) return T(0); user_assert(i < d_.size(), "index out of bounds"); return d_[i]; }
	void check(unsigned n) const { user_assert(d_.empty() || d_.size() == n, "combining variables with different numbers of derivatives"); } };

template<typename T, unsigned int N> class F {
	T v; Store<T, N> s;
public:
	typedef typename Op<T>::Base Base; typedef T UnderlyingType;
	F() : v() {} template<class U> F(const U& x) : v(x) {} F(const F&) = default; F(F&&) = default; F& operator=(const F&) = default; F& operator=(F&&) = default;
	template<class U> F& operator=(const U& x) { v = x; s = Store<T, N>(); return *this; }
	unsigned int size() const { return s.size(); } bool depend() const { return s.depend(); } void setDepend(const F& o) { s.set_depend(o.size()); } void setDepend(const F& a, const F& b) { if (a.depend() && b.depend()) a.s.check(b.size()); s.set_depend(a.depend() ? a.size() : b.size()); }
	const T& val() const { return v; } T& x() { return v; }
	T deriv(unsigned int i) const { return s.get(i); } T& d(unsigned int i) { return s.at(i); } T operator[](unsigned int i) const { return s.get(i); } T& operator[](unsigned int i) { return s.at(i); }
	T& diff(unsigned int i) { static_assert(N > 0, "diff(index) needs a fixed number of variables"); user_assert(i < N, "index out of bounds"); s = Store<T, N>(); s.set_depend(N); s.at(i) = T(1); return s.at(i); }
	T& diff(unsigned int i, unsigned int n) { static_assert(N == 0, "diff(index, count) needs a run-time number of variables"); user_assert(i < n && n < 1000000, "index out of bounds"); s = Store<T, N>(); s.set_depend(n); s.at(i) = T(1); return s.at(i); }
	F& operator+=(const F& o) { return *this = *this + o; } F& operator-=(const F& o) { return *this = *this - o; } F& operator*=(const F& o) { return *this = *this * o; } F& operator/=(const F& o) { return *this = *this / o; }
	// a function of one or two variables with the given value and partial derivatives
	static F make(const T& val, const F& a, const T& da) { F r(val); if (a.depend()) { r.setDepend(a); for (unsigned i = 0; i < a.size(); ++i) r.d(i) = da * a.deriv(i); } return r; }
	static F make(const T& val, const F& a, const T& da, const F& b, const T& db) { if (!b.depend()) return make(val, a, da); if (!a.depend()) return make(val, b, db); F r(val); r.setDepend(a, b); for (unsigned i = 0; i < r.size(); ++i) r.d(i) = da * a.deriv(i) + db * b.deriv(i); return r; }
};
#define FB template<typename T, unsigned int N> inline
#define BASE const typename Op<T>::Base&
FB F<T, N> operator+(const F<T, N>& a, const F<T, N>& b) { return F<T, N>::make(a.val() + b.val(), a, T(1), b, T(1)); } FB F<T, N> operator+(BASE a, const F<T, N>& b) { return F<T, N>::make(a + b.val(), b, T(1)); } FB F<T, N> operator+(const F<T, N>& a, BASE b) { return F<T, N>::make(a.val() + b, a, T(1)); }
FB F<T, N> operator-(const F<T, N>& a, const F<T, N>& b) { return F<T, N>::make(a.val() - b.val(), a, T(1), b, T(-1)); } FB F<T, N> operator-(BASE a, const F<T, N>& b) { return F<T, N>::make(a - b.val(), b, T(-1)); } FB F<T, N> operator-(const F<T, N>& a, BASE b) { return F<T, N>::make(a.val() - b, a, T(1)); }
FB F<T, N> operator*(const F<T, N>& a, const F<T, N>& b) { return F<T, N>::make(a.val() * b.val(), a, b.val(), b, a.val()); } FB F<T, N> operator*(BASE a, const F<T, N>& b) { return F<T, N>::make(a * b.val(), b, T(a)); } FB F<T, N> operator*(const F<T, N>& a, BASE b) { return F<T, N>::make(a.val() * b, a, T(b)); }
FB F<T, N> operator/(const F<T, N>& a, const F<T, N>& b) { T q = a.val() / b.val(); return F<T, N>::make(q, a, T(1) / b.val(), b, -q / b.val()); } FB F<T, N> operator/(BASE a, const F<T, N>& b) { T q = a / b.val(); return F<T, N>::make(q, b, -q / b.val()); } FB F<T, N> operator/(const F<T, N>& a, BASE b) { return F<T, N>::make(a.val() / b, a, T(1) / b); }
FB F<T, N> operator-(const F<T, N>& a) { return F<T, N>::make(-a.val(), a, T(-1)); } FB F<T, N> operator+(const F<T, N>& a) { return a; }
#define CMP(op) FB bool operator op(const F<T, N>& a, const F<T, N>& b) { return a.val() op b.val(); } FB bool operator op(BASE a, const F<T, N>& b) { return a op b.val(); } FB bool operator op(const F<T, N>& a, BASE b) { return a.val() op b; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
#define FUN(name, value, slope) FB F<T, N> name(const F<T, N>& a) { using std::sin; using std::cos; using std::tan; using std::exp; using std::log; using std::sqrt; using std::asin; using std::acos; using std::atan; const T x = a.val(), y = value; (void)y; return F<T, N>::make(y, a, slope); }
FUN(sqr, x * x, 2 * x) FUN(exp, exp(x), y) FUN(log, log(x), 1 / x) FUN(sqrt, sqrt(x), 1 / (2 * y)) FUN(sin, sin(x), cos(x)) FUN(cos, cos(x), -sin(x)) FUN(tan, tan(x), 1 + y * y) FUN(asin, asin(x), 1 / sqrt(1 - x * x)) FUN(acos, acos(x), -1 / sqrt(1 - x * x)) FUN(atan, atan(x), 1 / (1 + x * x))
#undef FUN
FB F<T, N> pow(const F<T, N>& a, const F<T, N>& b) { using std::pow; using std::log; T p = pow(a.val(), b.val()); return F<T, N>::make(p, a, b.val() * pow(a.val(), b.val() - 1), b, p * log(a.val())); } FB F<T, N> pow(const F<T, N>& a, BASE b) { using std::pow; return F<T, N>::make(pow(a.val(), b), a, b * pow(a.val(), b - 1)); } FB F<T, N> pow(BASE a, const F<T, N>& b) { using std::pow; using std::log; T p = pow(a, b.val()); return F<T, N>::make(p, b, p * log(a)); }
#undef FB
#undef BASE
}
#endif
