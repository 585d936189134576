// C30: every allocation point of every operation made to fail (by the explorer), in histories, with element types that
// themselves own memory: exception reaches the caller, nothing leaks or is released twice, bystanders keep their values,
// survivors can be assigned and destroyed.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/GR_SVD.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/determinant.h>
#include <TooN/helpers.h>
#include <TooN/se3.h>
#include <TooN/sl.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/optimization/conjugate_gradient.h>
#undef abort
#include "mc.hh"
using namespace TooN; using mc::Ctx; typedef std::string Str;
// ---- allocator: records every block; while armed asks the explorer at each allocation whether it fails
namespace al { struct Head { long kind, rec; }; static int n = 0; static bool on = false; static Ctx* armed = 0; static long count = 0, failed = 0; static const char* error = 0;
	struct Pause { bool o; Ctx* a; Pause() : o(on), a(armed) { on = false; armed = 0; } ~Pause() { on = o; armed = a; } };
	static void* get(size_t sz, int k) { if (on && armed) { Ctx* c = armed; bool f; { Pause p; f = ++count < 300 && c->dev(2); } if (f) { ++failed; throw std::bad_alloc(); } } Head* p = (Head*)malloc(sz + sizeof(Head)); p->kind = k; p->rec = on; n += on; return p + 1; }
	static void put(void* p, int k) { if (!p) return; Head* h = (Head*)p - 1; if (h->rec) { --n; if (h->kind != k) error = "a block is released with the wrong form of delete"; } free(h); } }
void* operator new(size_t n) { return al::get(n, 0); } void* operator new[](size_t n) { return al::get(n, 1); } void operator delete(void* p) noexcept { al::put(p, 0); } void operator delete[](void* p) noexcept { al::put(p, 1); } void operator delete(void* p, size_t) noexcept { al::put(p, 0); } void operator delete[](void* p, size_t) noexcept { al::put(p, 1); }
// ---- an element type owning memory: every construction may fail
static long live = 0;
template<int PAD> struct Num { double* p; char pad[PAD]; Num() : p(new double(0)) { ++live; } Num(double x) : p(new double(x)) { ++live; } Num(int x) : p(new double(x)) { ++live; } Num(const Num& o) : p(new double(*o.p)) { ++live; } ~Num() { --live; delete p; p = 0; } Num& operator=(const Num& o) { double* q = new double(*o.p); delete p; p = q; return *this; }
	Num& operator+=(const Num& o) { return *this = *this + o; } Num& operator-=(const Num& o) { return *this = *this - o; } Num& operator*=(const Num& o) { return *this = *this * o; } Num& operator/=(const Num& o) { return *this = *this / o; }
	friend Num operator+(const Num& a, const Num& b) { return Num(*a.p + *b.p); } friend Num operator-(const Num& a, const Num& b) { return Num(*a.p - *b.p); } friend Num operator*(const Num& a, const Num& b) { return Num(*a.p * *b.p); } friend Num operator/(const Num& a, const Num& b) { return Num(*a.p / *b.p); } friend Num operator-(const Num& a) { return Num(-*a.p); } friend bool operator==(const Num& a, const Num& b) { return *a.p == *b.p; } friend bool operator!=(const Num& a, const Num& b) { return *a.p != *b.p; } friend bool operator<(const Num& a, const Num& b) { return *a.p < *b.p; } friend bool operator>(const Num& a, const Num& b) { return *a.p > *b.p; } friend bool operator<=(const Num& a, const Num& b) { return *a.p <= *b.p; } friend bool operator>=(const Num& a, const Num& b) { return *a.p >= *b.p; } friend Num sqrt(const Num& a) { return Num(std::sqrt(*a.p)); } friend Num abs(const Num& a) { return Num(std::abs(*a.p)); } friend Num fabs(const Num& a) { return Num(std::abs(*a.p)); } friend std::istream& operator>>(std::istream& i, Num& a) { return i >> *a.p; } friend std::ostream& operator<<(std::ostream& i, const Num& a) { return i << *a.p; } };
namespace std { template<int P> class numeric_limits<Num<P>> { public: static const bool is_specialized = true, is_integer = false, is_signed = true, has_quiet_NaN = false, has_signaling_NaN = false; static Num<P> epsilon() { return Num<P>(1e-16); } static Num<P> max() { return Num<P>(1e300); } static Num<P> min() { return Num<P>(1e-300); } }; }
static double val(double x) { return x; } template<int P> double val(const Num<P>& x) { return *x.p; }
typedef Num<8> NumS; typedef Num<504> NumB;
template<class T> struct Sz { enum { H = 4, MH = 2 }; }; template<> struct Sz<double> { enum { H = 130, MH = 12 }; };
template<class T> struct World {
	enum { H = Sz<T>::H, MH = Sz<T>::MH, NOBJ = 13 };
	Vector<Dynamic, T> a, b; Vector<Resizable, T> r, r2, r0; Vector<H, T> h, h2; Vector<3, T> s; Matrix<Dynamic, Dynamic, T> m, m2; Matrix<2, Dynamic, T, ColMajor> w; Matrix<MH, MH, T> hm; DiagonalMatrix<Dynamic, T> d; World() : a(3), b(3), r(3), r2(2), m(3, 3), m2(3, 3), w(2, 3), d(3) {}
	template<class F> void each(F f) { f(0, a); f(1, b); f(2, r); f(3, r2); f(4, r0); f(5, h); f(6, h2); f(7, s); f(8, m); f(9, m2); f(10, w); f(11, hm); auto ds = d.diagonal_slice(); f(12, ds); }
};
template<class V> struct IsM { static const bool v = false; }; template<int R, int C, class P, class B> struct IsM<Matrix<R, C, P, B>> { static const bool v = true; };
typedef std::vector<double> Dv;
template<class V> Dv snap(const V& v) { Dv x; if constexpr (IsM<V>::v) { for (int i = 0; i < v.num_rows(); ++i) for (int j = 0; j < v.num_cols(); ++j) x.push_back(val(v(i, j))); } else for (int i = 0; i < v.size(); ++i) x.push_back(val(v[i])); return x; }
template<class V> void init(V& v, int k) { if constexpr (IsM<V>::v) { for (int i = 0; i < v.num_rows(); ++i) for (int j = 0; j < v.num_cols(); ++j) v(i, j) = (i == j ? 5. + k : (i * 2 + j * 3 + k) % 5 - 2.); } else for (int i = 0; i < v.size(); ++i) v[i] = i + 1. + k; }
template<class T> struct Op { const char* n; std::vector<int> tgt; std::function<void(World<T>&)> f; };
template<class T> std::vector<Op<T>>& ops() { static std::vector<Op<T>> o; if (!o.empty()) return o; typedef World<T> W; enum { H = W::H, MH = W::MH }; auto add = [&](const char* n, std::vector<int> t, std::function<void(W&)> f) { o.push_back({n, t, f}); }; typedef Vector<Dynamic, T> VD; typedef Vector<Resizable, T> VR; typedef Vector<H, T> VH; typedef Vector<3, T> VS; typedef Matrix<Dynamic, Dynamic, T> MD; typedef Matrix<MH, MH, T> MHH;
	add("Vector(n)", {}, [](W&) { VD x(4); }); add("Vector resizable(n)", {}, [](W&) { VR x(4); }); add("Vector heap static()", {}, [](W&) { VH x; }); add("Vector static()", {}, [](W&) { VS x; }); add("Matrix(r,c)", {}, [](W&) { MD x(2, 3); }); add("Matrix heap static()", {}, [](W&) { MHH x; }); add("Matrix mixed", {}, [](W&) { Matrix<2, Dynamic, T> x(2, 4); }); add("DiagonalMatrix(n)", {}, [](W&) { DiagonalMatrix<Dynamic, T> x(3); });
	add("copy dynamic", {}, [](W& w) { VD x(w.a); VD y(x); }); add("copy resizable", {}, [](W& w) { VR x(w.r); VR y(w.r0); }); add("copy heap static", {}, [](W& w) { VH x(w.h); }); add("copy static", {}, [](W& w) { VS x(w.s); }); add("copy matrix", {}, [](W& w) { MD x(w.m); }); add("copy mixed matrix", {}, [](W& w) { Matrix<2, Dynamic, T, ColMajor> x(w.w); }); add("copy heap matrix", {}, [](W& w) { MHH x(w.hm); }); add("copy diagonal", {}, [](W& w) { DiagonalMatrix<Dynamic, T> x(w.d); });
	add("convert vectors", {}, [](W& w) { VD x(w.s); VR y(w.a); VS z(w.a); VD q(w.r); }); add("convert slices", {}, [](W& w) { VD x(w.m[1]); VR y(w.m.T()[0]); MD z(w.m.T()); MD u(w.m.slice(0, 1, 2, 2)); VH v(w.h.slice(0, H)); MHH t(w.hm.T()); }); add("from operator", {}, [](W&) { VD x(Zeros(3)); VR y(Ones(2) * 3); MD z(Identity(3)); VH u(Zeros); MHH v(Identity); }); add("from expression", {}, [](W& w) { VD x(w.a + w.b); VR y(w.a - w.b); MD z(w.m * w.m2); VH u(w.h + w.h2); MHH v(w.hm * w.hm); }); add("from list", {}, [](W&) { VD x{T(1), T(2), T(3)}; VR y{T(4), T(5)}; VS z({T(1), T(2), T(3)}); VS q(makeVector(T(1), T(2), T(3))); }); add("from data", {}, [](W&) { MD x(2, 2); x = Data(T(1), T(2), T(3), T(4)); Matrix<2, 2, T> y = Data(T(1), T(2), T(3), T(4)); VS z; Fill(z) = T(1), T(2), T(3); }); add("move dynamic", {}, [](W& w) { VD x(w.a); VD y(std::move(x)); VR p(w.r); VR q(std::move(p)); VS s(w.s); VS t(std::move(s)); VH u(w.h); VH v(std::move(u)); MD m(w.m); MD n(std::move(m)); }); add("arrays of vectors", {}, [](W& w) { std::vector<VD> z(2, w.a); z.push_back(w.b); z.push_back(w.a + w.b); std::vector<VS> y(2); y.push_back(w.s); std::vector<MD> x(1, w.m); x.push_back(w.m2); VD* p = new VD[2]{w.a, w.b}; delete[] p; });
	add("a = b", {0}, [](W& w) { w.a = w.b; }); add("a = b + a", {0}, [](W& w) { w.a = w.b + w.a; }); add("a = s", {0}, [](W& w) { w.a = w.s; }); add("a = Zeros", {0}, [](W& w) { w.a = Zeros; }); add("a = row", {0}, [](W& w) { w.a = w.m[1]; }); add("a = m*b", {0}, [](W& w) { w.a = w.m * w.b; }); add("a += b", {0}, [](W& w) { w.a += w.b; }); add("a -= m*b", {0}, [](W& w) { w.a -= w.m * w.b; }); add("a *= 2", {0}, [](W& w) { w.a *= T(2); }); add("a /= 2", {0}, [](W& w) { w.a /= T(2); }); add("a += Ones", {0}, [](W& w) { w.a += Ones; }); add("a slice =", {0}, [](W& w) { w.a.slice(0, 2) = w.b.slice(1, 2); }); add("fill a", {0}, [](W& w) { Fill(w.a) = T(1), T(2), T(3); }); add("swap a b", {0, 1}, [](W& w) { std::swap(w.a, w.b); }); add("rvalue assign", {0}, [](W& w) { w.a = VD(w.b); });
	add("r = r2", {2}, [](W& w) { w.r = w.r2; }); add("r0 = r", {4}, [](W& w) { w.r0 = w.r; }); add("r = h", {2}, [](W& w) { w.r = w.h; }); add("r0 = a + b", {4}, [](W& w) { w.r0 = w.a + w.b; }); add("r resize up", {2}, [](W& w) { w.r.resize(5); }); add("r resize down", {2}, [](W& w) { w.r.resize(1); }); add("r0 = Zeros(4)", {4}, [](W& w) { w.r0 = Zeros(4); }); add("r = column", {2}, [](W& w) { w.r = w.m.T()[2]; }); add("r += b", {2}, [](W& w) { if (w.r.size() == 3) w.r += w.b; }); add("swap r r2", {2, 3}, [](W& w) { std::swap(w.r, w.r2); }); add("r = rvalue", {2}, [](W& w) { w.r = VR(w.r2); });
	add("h = h2", {5}, [](W& w) { w.h = w.h2; }); add("h += h2", {5}, [](W& w) { w.h += w.h2; }); add("h = h + h2", {5}, [](W& w) { w.h = w.h + w.h2; }); add("h = -h2*3", {5}, [](W& w) { w.h = -w.h2 * T(3); }); add("swap h", {5, 6}, [](W& w) { std::swap(w.h, w.h2); }); add("s = a", {7}, [](W& w) { w.s = w.a; }); add("s = -s", {7}, [](W& w) { w.s = -w.s; });
	add("m = m2", {8}, [](W& w) { w.m = w.m2; }); add("m = m*m2", {8}, [](W& w) { w.m = w.m * w.m2; }); add("m = m2.T()", {8}, [](W& w) { w.m = w.m2.T(); }); add("m += m2", {8}, [](W& w) { w.m += w.m2; }); add("m -= outer", {8}, [](W& w) { w.m -= w.a.as_col() * w.b.as_row(); }); add("m *= 3", {8}, [](W& w) { w.m *= T(3); }); add("m = Identity", {8}, [](W& w) { w.m = Identity; }); add("m += Identity", {8}, [](W& w) { w.m += Identity; }); add("m[0] = a", {8}, [](W& w) { w.m[0] = w.a; }); add("m slice =", {8}, [](W& w) { w.m.slice(0, 0, 2, 3) = w.w; }); add("w = w*m", {10}, [](W& w) { w.w = w.w * w.m; }); add("hm = hm*hm", {11}, [](W& w) { w.hm = w.hm * w.hm; }); add("hm = hm.T()", {11}, [](W& w) { w.hm = w.hm + w.hm.T(); }); add("hm[0] *= 2", {11}, [](W& w) { w.hm[0] *= T(2); }); add("swap m m2", {8, 9}, [](W& w) { using std::swap; MD t(w.m); w.m = w.m2; w.m2 = t; }); add("fill m", {8}, [](W& w) { Fill(w.m) = T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9); });
	add("dot", {}, [](W& w) { T x = w.a * w.b; T y = w.h * w.h2; }); add("products", {}, [](W& w) { VD x = w.b * w.m; Vector<2, T> y = w.w * w.a; MD z = w.w * w.m * w.w.T(); VS q = w.s ^ w.s; }); add("diagonal products", {}, [](W& w) { VD x = w.d * w.a; VD y = w.a * w.d; MD z = w.d * w.m; MD u = w.m * w.d; MD v = diagmult(w.a, w.m); }); add("scalar products", {}, [](W& w) { VD x = w.a * T(2); VD y = w.a / T(3); MD z = T(2) * w.m; MD u = -w.m; }); add("operator sums", {}, [](W& w) { VD x = w.a + Ones; MD z = w.m - Identity; VD y = Ones * T(2) - w.a; }); add("d assign", {12}, [](W& w) { w.d.diagonal_slice() = w.a; }); add("comparison", {}, [](W& w) { bool q = w.a == w.b || w.m == w.m2; if (q && w.a.size() == 99) abort(); }); add("wrapped", {0}, [](W& w) { auto v = wrapVector(&w.a[0], 3); v = w.b; v += w.s; });
	add("gauss_jordan", {8}, [](W& w) { Matrix<3, 6, T> q; q.template slice<0, 0, 3, 3>() = w.m2; q.template slice<0, 3, 3, 3>() = Identity; gauss_jordan(q); w.m = q.template slice<0, 3, 3, 3>(); }); add("gaussian_elimination", {}, [](W& w) { Vector<3, T> x = gaussian_elimination(Matrix<3, 3, T>(w.m2), w.s); VD y = gaussian_elimination(w.m2, w.a); }); add("Cholesky", {}, [](W& w) { MD q = w.m2 * w.m2.T() + Identity * T(2); Cholesky<Dynamic, T> c(q); VD x = c.backsub(w.a); MD y = c.backsub(w.m); Cholesky<Dynamic, T> e(c); e.compute(w.m2); Matrix<3, 3, T> f(q); Cholesky<3, T> g(f); Matrix<3, 3, T> i = g.get_inverse(); });
	if constexpr (std::is_same_v<T, double>) { add("LU", {}, [](W& w) { LU<> l(w.m2); Vector<> x = l.backsub(w.a); Matrix<> i = l.get_inverse(); LU<> k(l); k.compute(w.m); Matrix<> y = k.backsub(w.m2); LU<MH> z(w.hm); Matrix<MH> zi = z.get_inverse(); }); add("SVD", {}, [](W& w) { SVD<> l(w.m2); Vector<> x = l.backsub(w.a); Matrix<> i = l.get_pinv(); SVD<> k(l); k.compute(w.m); SVD<MH> z(w.hm); Matrix<MH> zi = z.get_pinv(); SVD<2, Dynamic> y(w.w); Matrix<Dynamic, 2> yp = y.get_pinv(); }); add("SymEigen", {}, [](W& w) { Matrix<> q = w.m2 + w.m2.T(); SymEigen<> l(q); Vector<> x = l.backsub(w.a); Matrix<> i = l.get_pinv(); SymEigen<> k(l); k.compute(w.m2); Matrix<> sq = k.get_sqrtm(); SymEigen<MH> z(w.hm); }); add("QR", {}, [](W& w) { QR<> l(w.m2); Matrix<> r = l.get_R(); QR_Lapack<> k(w.m2, true); Matrix<> q = k.get_Q(); QR<MH> z(w.hm); QR_Lapack<MH> y(w.hm); }); add("Lapack_Cholesky", {}, [](W& w) { Matrix<> q = w.m2 * w.m2.T() + Identity * 2; Lapack_Cholesky<Dynamic> c(q); Vector<> x = c.backsub(w.a); Matrix<> i = c.get_inverse(); c.compute(Matrix<>(q)); });
		add("GR_SVD", {}, [](W& w) { GR_SVD<MH> z(w.hm); Matrix<MH> p = z.get_pinv(); }); add("determinant", {}, [](W& w) { double x = determinant(w.m) + determinant_gaussian_elimination(w.m2) + determinant(w.hm); if (x == 1e99) abort(); }); add("WLS", {}, [](W& w) { WLS<> l(3); l.add_prior(1.); l.add_mJ(2, w.a); l.add_mJ_rows(Vector<2>(Ones), w.w, Matrix<2>(Identity)); l.compute(); Vector<> x = l.get_mu(); WLS<> k(l); k += l; k.compute(); WLS<MH> z; z.add_prior(2.); z.compute(); }); add("exp/sqrt", {}, [](W& w) { Matrix<> e = exp(w.m2); Matrix<3> q = w.m2; Matrix<3> f = exp(q * 0.1); Matrix<3> l = log(f); Matrix<3> r = sqrt(f); }); add("SL", {}, [](W& w) { Vector<8> v = Ones * 0.1; SL<3> s(v); SL<3> t = s * s.inverse(); t = SL<3>(s.get_matrix()); }); add("minimisers", {}, [](W& w) { auto f = [](const Vector<Dynamic>& x) { return x * x; }; DownhillSimplex<Dynamic> d(f, w.a); for (int i = 0; i < 3; ++i) d.iterate(f); ConjugateGradient<Dynamic> c(w.a, f, w.b); c.find_next_point(f); c.update_vectors_PR(w.a); }); add("gauss on copies", {}, [](W& w) { Matrix<> q = w.m2; Vector<> x = gaussian_elimination(q, Vector<>(w.b)); }); }
	return o; }
template<class T> void repair(World<T>& w) { w.each([&](int i, auto& v) { typedef std::remove_reference_t<decltype(v)> V; if constexpr (IsM<V>::v) { Matrix<Dynamic, Dynamic, T> k(v.num_rows(), v.num_cols()); init(k, 3); v = k; } else { Vector<Dynamic, T> k(i >= 2 && i <= 4 ? 3 : v.size()); init(k, 3); v = k; } }); }
template<class T> void histories(Ctx& c) { auto& os = ops<T>(); struct Off { ~Off() { al::on = false; al::armed = 0; } } off; al::n = 0; al::on = false; al::armed = 0; al::error = 0; live = 0; al::count = 0; al::failed = 0; std::vector<int> hist; uint64_t hs = 9; long nfail = 0;
	std::vector<Dv> before(World<T>::NOBJ); { al::on = true; World<T> w; { al::Pause p; } w.each([](int i, auto& v) { init(v, i); });
	for (int s = 0; s < c.depth; ++s) { int k; bool thrown = false; Str what; { al::Pause p; k = c.pick(os.size()); c.log(os[k].n); hs = mc::mix(hs, k); c.step(); w.each([&](int i, auto& v) { before[i] = snap(v); }); c.note(os[k].n); } long f0 = al::failed; al::armed = &c;
		try { os[k].f(w); } catch (std::bad_alloc&) { thrown = true; } catch (mc::Violation&) { throw; } catch (mc::LibAbort&) { al::armed = 0; throw; }
		al::armed = 0; { al::Pause p; long f = al::failed - f0; nfail += f; if (thrown) { c.log("failed"); hs = mc::mix(hs, al::count); } c.state(hs); c.checkf((f > 0) == thrown, "exception", [&] { return Str(os[k].n) + ": " + mc::str(f) + " allocations failed, " + (thrown ? "but" : "no") + " exception reached the caller"; }); w.each([&](int i, auto& v) { bool t = false; for (int z : os[k].tgt) t |= z == i; Dv now = snap(v); if (!t) c.checkf(now == before[i], "bystander", [&] { return Str(os[k].n) + (thrown ? " with a failed allocation" : "") + " changed object " + mc::str(i) + ", which it only reads"; }); }); c.checkf(!al::error, "delete form", [&] { return Str(os[k].n) + ": " + al::error; }); } }
	{ al::Pause p; c.outcome(mc::str(nfail) + " failures"); } repair(w); { al::Pause p; w.each([&](int i, auto& v) { typedef std::remove_reference_t<decltype(v)> V; Dv x = snap(v), y; if constexpr (IsM<V>::v) { Matrix<Dynamic, Dynamic, T> k(v.num_rows(), v.num_cols()); init(k, 3); y = snap(k); } else { Vector<Dynamic, T> k(i >= 2 && i <= 4 ? 3 : v.size()); init(k, 3); y = snap(k); } c.checkf(x == y, "assignable", [&] { return "object " + mc::str(i) + " cannot be assigned after the failure"; }); }); } }
	al::on = false; int n = al::n; al::n = 0; c.checkf(!al::error, "delete form", [&] { return Str(al::error); }); c.checkf(n == 0, "leak", [&] { return mc::str(n) + " blocks were never released"; }); c.checkf(live == 0, "elements", [&] { return mc::str(live) + " more elements were constructed than destroyed"; }); }
void mc_register() {
#if PART == 1
	mc::scenario("double", histories<double>, 2, 2, 2, 3);
#elif PART == 2
	mc::scenario("element owning memory", histories<NumS>, 1, 2, 2, 1); mc::scenario("element owning memory, pairs", histories<NumS>, 2, 2, 1, 1);
#elif PART == 3
	mc::scenario("large element owning memory", histories<NumB>, 1, 2, 2, 1);
#endif
}
MC_MAIN()
