// C08: text written and read back; truncated and malformed text; memory around the target; limited output buffers.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#undef abort
#include "kinds.hh"
#include <sstream>
using namespace TooN; using namespace kinds; using mc::Ctx; typedef std::string Str;
template<class T> struct El { typedef T P; static const int K = 1; };
template<class T> struct El<std::complex<T>> { typedef T P; };
// ---- element alphabets
template<class T> struct Alpha { static const std::vector<T>& v() { static std::vector<T> a; if (a.empty()) { typedef std::numeric_limits<T> L; if constexpr (std::is_integral_v<T>) { a = {T(0), T(1), T(7), L::max(), L::min(), T(L::max() - 1), T(100)}; } else a = {T(0), T(1), T(1) / T(3), T(-0.1L), L::max(), -L::max(), L::min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2, T(1e20L), T(-1234567.875L), T(-7), T(6.02214076e23L), T(1.5e-9L)}; } return a; } };
template<class T> struct Alpha<std::complex<T>> { static const std::vector<std::complex<T>>& v() { static std::vector<std::complex<T>> a; if (a.empty()) { auto& b = Alpha<T>::v(); for (size_t i = 0; i < b.size(); ++i) a.push_back({b[i], b[(i * 4 + 1) % b.size()]}); } return a; } };
template<class T> int digits() { if constexpr (std::is_integral_v<T>) return 6; else if constexpr (std::is_same_v<T, std::complex<float>>) return 9; else if constexpr (std::is_same_v<T, std::complex<double>>) return 17; else return std::numeric_limits<T>::max_digits10; }
template<class T> bool same(const T& a, const T& b) { return a == b; }
template<class T> Str es(const T& t) { std::ostringstream s; s << std::setprecision(21) << t; return s.str(); }
// formats under which every value is written exactly
enum { NF = 9 };
template<class T> bool fmt(int f, std::ostream& o, std::istream& i) { const bool in = std::is_integral_v<T>; o.precision(digits<T>());
	switch (f) { case 0: return true; case 1: o.width(12); return true; case 2: o.width(40); return true; case 3: o.setf(std::ios::showpos); return true; case 4: o.width(30); o.setf(std::ios::left, std::ios::adjustfield); return true; case 5: if (in) return false; o.setf(std::ios::scientific, std::ios::floatfield); return true; case 6: if (in) return false; o.setf(std::ios::uppercase); o.setf(std::ios::showpoint); return true; case 7: if (!in) return false; o.setf(std::ios::hex, std::ios::basefield); i.setf(std::ios::hex, std::ios::basefield); o.setf(std::ios::showbase); return std::is_unsigned_v<T>; case 8: o.precision(digits<T>() + 4); o.width(3); return true; } return false; }
static Str rest(std::istream& is) { is.clear(is.rdstate() & ~std::ios::eofbit & ~std::ios::failbit); std::ostringstream o; is >> std::ws; is.clear(); o << is.rdbuf(); return o.str(); }
struct Text { std::ostringstream o; std::istringstream in; Str s, from; bool hex; };
template<class T> void begin(Text& t, int f) { t.hex = f == 7; if (!fmt<T>(f, t.o, t.in)) throw mc::Prune(); }
inline void finish(Ctx& c, Text& t, const Str& nm) { c.check(t.o.good(), "write", "the stream failed"); t.o << 42; t.s = t.o.str(); t.in.str(t.s); t.from = nm; c.note(nm); }
inline void next(Ctx& c, Text& t) { int z = 0; t.in >> z; c.checkf(!t.in.fail() && z == 42, "position", [&] { return "after reading \"" + t.s + "\" the next token is not the one written after the object"; }); }
template<class T, class W> void expect(Ctx& c, Text& t, const W& got, const T& want, const Str& n2, int i) { c.checkf(T(got) == want, "element", [&] { return t.from + " written as \"" + t.s + "\": element " + mc::str(i) + " read into " + n2 + " as " + es(T(got)) + " instead of " + es(want); }); }
template<class T, int N> void rt_vec(Ctx& c) { auto& A = Alpha<T>::v(); int f = c.pick(NF), k = c.pick(VK), k2 = c.depth > 1 ? c.pick(VK) : (k * 2 + f) % VK, a = c.pick(A.size()); c.step(); c.state(mc::mix(mc::mix(f, k), mc::mix(k2, a))); auto el = [&](int i) { return A[(a + i * (a % 3 + 1)) % A.size()]; }; Text t; begin<T>(t, f);
	vec_kind<T, N>(k, N, [&](auto& v, const Str& nm) { for (int i = 0; i < N; ++i) v[i] = el(i); const auto& cv = v; t.o << cv; finish(c, t, nm); });
	vec_kind<T, N>(k2, N, [&](auto& w, const Str& n2) { t.in >> w; c.checkf(!t.in.fail(), "fails", [&] { return t.from + " written as \"" + t.s + "\": reading into " + n2 + " fails"; }); for (int i = 0; i < N; ++i) expect<T>(c, t, w[i], el(i), n2, i); next(c, t); }); }
template<class T, int R, int C> void rt_mat(Ctx& c) { auto& A = Alpha<T>::v(); int f = c.pick(NF), k = c.pick(MK), k2 = c.depth > 1 ? c.pick(MK) : (k * 5 + f) % MK, a = c.pick(A.size()); c.step(); c.state(mc::mix(mc::mix(f, k), mc::mix(k2, a))); auto el = [&](int i, int j) { return A[(a + (i * C + j) * (a % 3 + 1)) % A.size()]; }; Text t; begin<T>(t, f);
	mat_kind<T, R, C>(k, R, C, [&](auto& v, const Str& nm) { for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) v(i, j) = el(i, j); const auto& cv = v; t.o << cv; finish(c, t, nm); });
	mat_kind<T, R, C>(k2, R, C, [&](auto& w, const Str& n2) { t.in >> w; c.checkf(!t.in.fail(), "fails", [&] { return t.from + " written as \"" + t.s + "\": reading into " + n2 + " fails"; }); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) expect<T>(c, t, w(i, j), el(i, j), n2, i * C + j); next(c, t); }); }
template<class T> void rt(const Str& n) { mc::scenario("vector round trip " + n + " size 1", rt_vec<T, 1>, 1, 2); mc::scenario("vector round trip " + n + " size 2", rt_vec<T, 2>, 1, 2); mc::scenario("vector round trip " + n + " size 5", rt_vec<T, 5>, 1, 2); mc::scenario("matrix round trip " + n + " 1x3", rt_mat<T, 1, 3>, 1, 2); mc::scenario("matrix round trip " + n + " 3x2", rt_mat<T, 3, 2>, 1, 2); mc::scenario("matrix round trip " + n + " 2x2", rt_mat<T, 2, 2>, 1, 2); mc::scenario("matrix round trip " + n + " 4x1", rt_mat<T, 4, 1>, 1, 2); }
// ---- reading arbitrary text into parts of larger objects: agrees with reading the elements one by one
struct Mode { bool noskip, exc; };
static const char* TOK[] = {"2", "-3.5", "x", "", "nan", "1e", "7,", "0x1A", "(1,2)", "(4)", "99999999999999999999", "+", "1e400"};
static const char* SEP[] = {" ", "\n", "\t \r\n", ",", ""};
template<class T> void feed(Str s, int n, Mode m, std::vector<T>& e, bool& ok, Str& r) { std::istringstream i(s); if (m.noskip) i.unsetf(std::ios::skipws); e.assign(n, T(5)); for (int k = 0; k < n; ++k) { T t(5); i >> t; e[k] = t; } ok = !i.fail(); r = ok ? rest(i) : Str(); }
// targets: f(stream) reads into the object; at(i) is the i-th element's cell
template<class T> struct Target { std::vector<T> back; Target() : back(64) { for (int i = 0; i < 64; ++i) back[i] = T(100 + i); } };
enum { NT = 13 };
template<class T> bool read_into(Ctx& c, int t, const Str& s, Mode m, std::vector<T>& e, bool& ok, Str& rs, bool& threw) {
	std::istringstream in(s); if (m.noskip) in.unsetf(std::ios::skipws); if (m.exc) in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit); threw = false; std::vector<T> mem(40); for (int i = 0; i < 40; ++i) mem[i] = T(60 + i); std::set<int> cells; std::vector<int> order; auto put = [&](int k) { cells.insert(k); order.push_back(k); };
	auto go = [&](auto&& x) { try { std::istream& q = in >> x; c.check(&q == &in, "returned stream", "operator>> returns another stream"); } catch (std::ios_base::failure&) { threw = true; } };
	switch (t) { // mem[8..32) is a 4x6 matrix
	case 0: { auto v = wrapVector<3>(&mem[10]); for (int i = 0; i < 3; ++i) put(10 + i); go(v); break; }
	case 1: { auto v = wrapVector(&mem[10], 2); for (int i = 0; i < 2; ++i) put(10 + i); go(v); break; }
	case 2: { auto M = wrapMatrix<4, 6>(&mem[8]); for (int i = 0; i < 4; ++i) put(8 + i * 6 + 2); go(M.T()[2].ref()); break; }
	case 3: { auto M = wrapMatrix<4, 6>(&mem[8]); for (int i = 0; i < 3; ++i) put(8 + 6 + 1 + i); go(M[1].slice(1, 3).ref()); break; }
	case 4: { auto M = wrapMatrix<4, 6>(&mem[8]); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) put(8 + (i + 1) * 6 + j + 3); go(M.template slice<1, 3, 2, 2>().ref()); break; }
	case 5: { auto M = wrapMatrix<4, 6>(&mem[8]); for (int j = 0; j < 3; ++j) for (int i = 0; i < 2; ++i) put(8 + (i + 1) * 6 + j + 3); go(M.slice(1, 3, 2, 3).T().ref()); break; }
	case 6: { auto M = wrapMatrix(&mem[8], 4, 6); for (int i = 0; i < 4; ++i) put(8 + i * 7); go(M.diagonal_slice().ref()); break; }
	case 7: { Matrix<4, 6, T, Reference::ColMajor> M(&mem[8]); for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) put(8 + (j + 1) * 4 + i + 1); go(M.slice(1, 1, 2, 2).ref()); break; }
	case 8: { auto M = wrapMatrix<1, 3>(&mem[8]); for (int i = 0; i < 3; ++i) put(8 + i); go(M); break; }
	case 9: { auto v = wrapVector<4>(&mem[10]); put(11); go(v.template slice<1, 1>().ref()); break; }
	case 10: { Vector<Resizable, T> v(3); for (int i = 0; i < 3; ++i) { v[i] = T(60 + 10 + i); put(10 + i); } go(v); c.check(v.size() == 3, "size", "reading changed the size"); for (int i = 0; i < 3; ++i) mem[10 + i] = v[i]; break; }
	case 11: { Vector<3, T> v; for (int i = 0; i < 3; ++i) { v[i] = T(60 + 10 + i); put(10 + i); } go(v); for (int i = 0; i < 3; ++i) mem[10 + i] = v[i]; break; }
	case 12: { Vector<Dynamic, T> v(0); go(v); c.check(v.size() == 0, "size", "reading changed the size"); break; }
	}
	for (int i = 0; i < 40; ++i) if (!cells.count(i)) c.checkf(mem[i] == T(60 + i), "surrounding memory", [&] { return "reading \"" + s + "\" into target " + mc::str(t) + " changed memory outside it"; });
	e.clear(); for (int k : order) e.push_back(mem[k]); ok = !in.fail(); in.exceptions(std::ios::goodbit); rs = ok ? rest(in) : Str(); return true; }
static const int TN[NT] = {3, 2, 4, 3, 4, 6, 4, 4, 3, 1, 3, 3, 0};
template<class T> void compare(Ctx& c, int t, const Str& s, Mode m) { std::vector<T> a, b; bool oka, okb, thr; Str ra, rb; feed<T>(s, TN[t], m, a, oka, ra); read_into<T>(c, t, s, m, b, okb, rb, thr); c.outcome(oka ? "read" : thr ? "threw" : "failed");
	if (m.exc && thr) okb = oka; /* reported by the exception */ c.checkf(oka == okb, "state", [&] { return "reading \"" + s + "\" into target " + mc::str(t) + ": the stream " + (okb ? "did not fail" : "failed") + ", reading the elements one by one " + (oka ? "does not" : "does"); }); if (m.exc && !oka) c.check(thr, "state", "no exception although the stream failed with exceptions enabled"); if (oka && !(m.exc && thr)) { for (size_t i = 0; i < a.size(); ++i) c.checkf(a[i] == b[i], "value", [&] { return "reading \"" + s + "\" into target " + mc::str(t) + ": element " + mc::str(i) + " is " + es(b[i]) + " instead of " + es(a[i]); }); c.checkf(ra == rb, "position", [&] { return "after reading from \"" + s + "\" into target " + mc::str(t) + " \"" + rb + "\" is left instead of \"" + ra + "\""; }); } }
template<class T> void tokens(Ctx& c) { int t = c.pick(NT), md = c.pick(3); Mode m{md == 1, md == 2}; Str s; int n = c.pick(std::min(TN[t] + 1, c.depth + 1) + 1); const int NTOK = c.depth > 4 ? 13 : 9; uint64_t h = t * 3 + md; int bad = 0; for (int i = 0; i < n; ++i) { int a = 0, b = 0; if (bad < 2) { a = c.pick(NTOK); b = c.pick(c.depth > 4 || n < 3 ? 5 : 2); if (c.depth <= 4 && n >= 3 && b) b = 1 + (a + i) % 4; } else b = 0; if (a > 1 || b > 1) ++bad; h = mc::mix(h, a * 5 + b); s += TOK[a]; s += SEP[b]; } c.step(); c.state(h); c.log(s); compare<T>(c, t, s, m); }
// every truncation, and every single-byte corruption, of the text of a written object
template<class T> void cuts(Ctx& c) { int t = c.pick(NT), md = c.pick(3), f = c.pick(3); Mode m{md == 1, md == 2}; auto& A = Alpha<T>::v(); std::ostringstream o; o.precision(f == 2 ? 3 : digits<T>()); Matrix<Dynamic, Dynamic, T> M(2, TN[t] / 2 + 1); if (f == 1) o.width(7); for (int i = 0; i < M.num_rows(); ++i) for (int j = 0; j < M.num_cols(); ++j) M(i, j) = A[(i * 5 + j + f + 1) % A.size()]; o << M; Str s = o.str(); int k = c.pick(s.size() + 1), w = c.pick(5); c.step(); c.state(mc::mix(mc::mix(t, md), mc::mix(f * 5 + w, k))); if (w == 0) s = s.substr(0, k); else if (w == 1) s.insert(k, "z"); else if (k == (int)s.size()) throw mc::Prune(); else if (w == 2) s[k] = '\0'; else if (w == 3) s.erase(k, 1); else s[k] = "x(-. e9"[k % 7]; compare<T>(c, t, s, m); }
// ---- transformations
template<class G> struct GT;
template<class P> struct GT<SO2<P>> { typedef P T; static const int R = 2, C = 2; static const bool mat_end = true; static const char* nm() { return "SO2"; } static SO2<P> mk(int k) { static const double a[] = {0, 0.7, -2.5, 3.14159265358979, 1.5707963267948966, 1e-9}; return SO2<P>::exp(a[k]); } static double at(const SO2<P>& g, int i, int j) { return g.get_matrix()(i, j); } };
template<class P> Vector<3, P> w3(int k) { static const double a[][3] = {{0, 0, 0}, {0.3, -0.2, 1}, {0, 0, 3.1}, {1e-9, 0, 1e-7}, {-2, 1, 1}, {0, 1.5707963267948966, 0}}; return makeVector(P(a[k][0]), P(a[k][1]), P(a[k][2])); } template<class P> Vector<3, P> t3(int k) { static const double a[][3] = {{0, 0, 0}, {1, -2, 3}, {1e10, 1e-10, -1}, {-0.1, 7, 0}, {1. / 3, 2. / 3, 1e5}, {5, 5, 5}}; return makeVector(P(a[k][0]), P(a[k][1]), P(a[k][2])); } static const double SC[] = {1, 2.5, 0.001, 300, 1. / 3, 7};
template<class P> struct GT<SO3<P>> { typedef P T; static const int R = 3, C = 3; static const bool mat_end = true; static const char* nm() { return "SO3"; } static SO3<P> mk(int k) { return SO3<P>::exp(w3<P>(k)); } static double at(const SO3<P>& g, int i, int j) { return g.get_matrix()(i, j); } };
template<class P> struct GT<SE2<P>> { typedef P T; static const int R = 2, C = 3; static const bool mat_end = false; static const char* nm() { return "SE2"; } static SE2<P> mk(int k) { return SE2<P>(GT<SO2<P>>::mk(k), t3<P>(k).template slice<0, 2>()); } static double at(const SE2<P>& g, int i, int j) { return j < 2 ? g.get_rotation().get_matrix()(i, j) : g.get_translation()[i]; } };
template<class P> struct GT<SE3<P>> { typedef P T; static const int R = 3, C = 4; static const bool mat_end = false; static const char* nm() { return "SE3"; } static SE3<P> mk(int k) { return SE3<P>(GT<SO3<P>>::mk(k), t3<P>(k)); } static double at(const SE3<P>& g, int i, int j) { return j < 3 ? g.get_rotation().get_matrix()(i, j) : g.get_translation()[i]; } };
template<class P> struct GT<SIM2<P>> { typedef P T; static const int R = 2, C = 3; static const bool mat_end = false; static const char* nm() { return "SIM2"; } static SIM2<P> mk(int k) { return SIM2<P>(GT<SO2<P>>::mk(k), t3<P>(k).template slice<0, 2>(), SC[k]); } static double at(const SIM2<P>& g, int i, int j) { return j < 2 ? g.get_rotation().get_matrix()(i, j) * g.get_scale() : g.get_translation()[i]; } };
template<class P> struct GT<SIM3<P>> { typedef P T; static const int R = 3, C = 4; static const bool mat_end = false; static const char* nm() { return "SIM3"; } static SIM3<P> mk(int k) { return SIM3<P>(GT<SO3<P>>::mk(k), t3<P>(k), SC[k]); } static double at(const SIM3<P>& g, int i, int j) { return j < 3 ? g.get_rotation().get_matrix()(i, j) * g.get_scale() : g.get_translation()[i]; } };
template<int N, class P> struct GT<SL<N, P>> { typedef P T; static const int R = N, C = N; static const bool mat_end = true; static const char* nm() { return "SL"; } static SL<N, P> mk(int k) { Vector<N * N - 1, P> v; for (int i = 0; i < N * N - 1; ++i) v[i] = P(k) * P((i * 7 + k) % 5 - 2) / 16; return SL<N, P>::exp(v); } static double at(const SL<N, P>& g, int i, int j) { return g.get_matrix()(i, j); } };
template<class G> bool close(const G& a, const G& b, Str& why, double k = 64) { typedef GT<G> X; for (int i = 0; i < X::R; ++i) { double n = 1; for (int j = 0; j < X::C; ++j) if (j < X::R) n = std::max(n, std::abs(X::at(b, i, j))); for (int j = 0; j < X::C; ++j) { double t = j < X::R ? n * k * std::numeric_limits<typename X::T>::epsilon() : 0; if (!(std::abs(X::at(a, i, j) - X::at(b, i, j)) <= t)) { why = "entry " + mc::str(i) + "," + mc::str(j) + " is " + es(X::at(a, i, j)) + " instead of " + es(X::at(b, i, j)); return false; } } } return true; }
enum { NG = 6 };
template<class G> void group_rt(Ctx& c) { typedef GT<G> X; typedef typename X::T P; int k = c.pick(NG), k2 = c.pick(NG), f = c.pick(NF); c.step(); c.state((k * NG + k2) * NF + f); G g = X::mk(k), h = X::mk(k2); std::ostringstream o; std::istringstream in; if (!fmt<P>(f, o, in)) throw mc::Prune(); const G& cg = g; o << cg; o << 42; Str s = o.str(), why; in.str(s); in >> h; c.checkf(!in.fail(), "fails", [&] { return "reading \"" + s + "\" fails"; }); c.checkf(close(h, g, why), "round trip", [&] { return Str(X::nm()) + " written as \"" + s + "\" and read back: " + why; }); int z = 0; in >> z; c.checkf(!in.fail() && z == 42, "position", [&] { return "after reading \"" + s + "\" the next token is not the one written after it"; }); std::istringstream ie(s); ie.exceptions(std::ios::failbit | std::ios::badbit); ie >> h; c.checkf(close(h, g, why), "round trip", [&] { return "with exceptions enabled: " + why; }); }
// one edit (or cut) of the text: fails exactly if some entry cannot be read, otherwise the transformation is the one the entries say
template<class G> void group_bad(Ctx& c) { typedef GT<G> X; typedef typename X::T P; int k = c.pick(NG), k2 = c.pick(3), f = c.pick(2), md = c.pick(3); struct Guard { uint64_t a; G g; uint64_t b; } gd{0x1234567890ull, X::mk(k2), 0x987654321ull}; G g = X::mk(k); std::ostringstream o; o.precision(f ? 4 : std::numeric_limits<P>::max_digits10); o << g; Str s = o.str(); int at = c.pick(s.size() + 1), w = c.pick(c.depth > 1 ? 7 : 5); c.step(); c.state(mc::mix(mc::mix(k * NG + k2, f * 3 + md), mc::mix(at, w)));
	Str orig = s; if (w == 0) s = s.substr(0, at); else if (w == 1) s.insert(at, "z"); else if (w == 2) { if (at == (int)s.size()) throw mc::Prune(); s[at] = '#'; } else if (w == 3) { size_t e = s.find_first_of(" \n", at); if (e == Str::npos || (at && s[at - 1] != ' ' && s[at - 1] != '\n')) throw mc::Prune(); s.erase(at, e - at); s += "\n"; } else if (w == 4) { if (at && s[at - 1] != ' ' && s[at - 1] != '\n') throw mc::Prune(); s.insert(at, "nan "); } else if (w == 5) { if (at == (int)s.size()) throw mc::Prune(); s.erase(at, 1); } else { if (at && s[at - 1] != ' ' && s[at - 1] != '\n') throw mc::Prune(); s.insert(at, "1e999 "); }
	const int n = X::R * X::C; Mode m{md == 1, md == 2}; std::vector<P> e, e0; bool ok, ok0; Str r, r0; feed<P>(s, n, m, e, ok, r); feed<P>(orig, n, Mode{}, e0, ok0, r0); if (ok && e != e0) throw mc::Prune(); // other numbers than those written: not an error of the text
	std::istringstream in(s); if (m.noskip) in.unsetf(std::ios::skipws); if (m.exc) in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit); bool thr = false; try { in >> gd.g; } catch (std::ios_base::failure&) { thr = true; } bool fl = in.fail(); in.exceptions(std::ios::goodbit); c.outcome(ok ? "read" : thr ? "threw" : "failed");
	if (thr) fl = !ok; c.checkf(fl == !ok, "state", [&] { return "reading a " + Str(X::nm()) + " from \"" + s + "\": the stream " + (fl ? "failed" : "did not fail") + ", but its entries can" + (ok ? "" : "not") + " be read"; }); c.check(gd.a == 0x1234567890ull && gd.b == 0x987654321ull, "surrounding memory", "memory next to the transformation changed"); if (ok && !thr) { Str why; c.checkf(close(gd.g, g, why, f ? 1e4 / std::numeric_limits<P>::epsilon() / 1e7 : 64) || f, "value", [&] { return "reading \"" + s + "\": " + why; }); c.check(rest(in) == r, "position", "the stream is left at another position"); } }
template<class G> void group(const Str& n) { mc::scenario(n + " round trip", group_rt<G>, 1, 1); mc::scenario(n + " malformed text", group_bad<G>, 1, 2); }
// ---- sequences of objects on one stream, cut at every byte; output into a buffer that takes only so many characters
struct Any { virtual ~Any() {} virtual void write(std::ostream&) const = 0; virtual void read(std::istream&) = 0; virtual bool eq(const Any&, Str&) const = 0; virtual void scalars(std::istream&) const = 0; };
template<class T, bool Gp> struct Obj : Any { T t; Obj(const T& x) : t(x) {} void write(std::ostream& o) const { o << t; } void read(std::istream& i) { i >> t; }
	template<class U, int N, class B> static bool e(const Vector<N, U, B>& a, const Vector<N, U, B>& b, Str& w) { for (int i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) { w = "element " + mc::str(i) + " is " + es(a[i]) + " instead of " + es(b[i]); return false; } return a.size() == b.size(); } template<class U, int R, int C, class B> static bool e(const Matrix<R, C, U, B>& a, const Matrix<R, C, U, B>& b, Str& w) { for (int i = 0; i < a.num_rows(); ++i) for (int j = 0; j < a.num_cols(); ++j) if (!(a(i, j) == b(i, j))) { w = "element " + mc::str(i) + "," + mc::str(j) + " is " + es(a(i, j)) + " instead of " + es(b(i, j)); return false; } return true; }
	bool eq(const Any& o, Str& w) const { const Obj& p = static_cast<const Obj&>(o); if constexpr (Gp) return close(t, p.t, w); else return e(t, p.t, w); }
	template<class U, int N, class B> static void sc(const Vector<N, U, B>& a, std::istream& i) { for (int k = 0; k < a.size(); ++k) { U u; i >> u; } } template<class U, int R, int C, class B> static void sc(const Matrix<R, C, U, B>& a, std::istream& i) { for (int k = 0; k < a.num_rows() * a.num_cols(); ++k) { U u; i >> u; } }
	void scalars(std::istream& i) const { if constexpr (Gp) { for (int k = 0; k < GT<T>::R * GT<T>::C; ++k) { typename GT<T>::T u; i >> u; } } else sc(t, i); } };
enum { NO = 11 };
static std::unique_ptr<Any> obj(int k, int v) { auto V = [](auto x) { return std::unique_ptr<Any>(new Obj<decltype(x), false>(x)); }; auto Gr = [](auto x) { return std::unique_ptr<Any>(new Obj<decltype(x), true>(x)); }; double s = v ? -1.25 : 1. / 3; switch (k) { case 0: return V(Vector<3>(makeVector(1., s, -2.))); case 1: { Matrix<2> m = Data(s, 1, 2, 3); return V(m); } case 2: { Vector<Dynamic, float> d(2); d[0] = s; d[1] = 7; return V(d); } case 3: { Matrix<Dynamic, Dynamic, int> d(1, 2); d(0, 0) = v ? -45 : 678; d(0, 1) = 9; return V(d); } case 4: return Gr(GT<SO3<double>>::mk(v ? 0 : 1)); case 5: return Gr(GT<SE2<double>>::mk(v ? 0 : 4)); case 6: return Gr(GT<SIM3<double>>::mk(v ? 0 : 3)); case 7: return Gr(GT<SL<2, double>>::mk(v ? 0 : 3)); case 8: { Vector<1, std::complex<double>> z; z[0] = {s, 2}; return V(z); } case 9: return V(Vector<Dynamic>(0)); default: { Matrix<2, 1, double, ColMajor> m; m(0, 0) = s; m(1, 0) = 1e300; return V(m); } } }
static void sequences(Ctx& c) { int n = c.depth; std::vector<std::unique_ptr<Any>> src, dst; std::ostringstream o; o.precision(17); uint64_t h = 3; Str w; for (int i = 0; i < n; ++i) { int k = c.pick(NO); h = mc::mix(h, k); w += mc::str(k) + " "; src.push_back(obj(k, 0)); dst.push_back(obj(k, 1)); src.back()->write(o); c.step(); } Str s = o.str(); int cut = s.size() - c.pick(s.size() + 1); c.state(mc::mix(h, cut)); Str tx = s.substr(0, cut); std::istringstream in(tx), ref(tx); bool partial = cut < (int)s.size() && cut && s[cut - 1] != ' ' && s[cut - 1] != '\n' && s[cut] != ' ' && s[cut] != '\n';
	for (int i = 0; i < n; ++i) { src[i]->scalars(ref); bool last = partial && ref.eof(); if (last && !ref.fail()) throw mc::Prune(); /* the cut number is itself a number */ dst[i]->read(in); c.checkf(in.fail() == ref.fail(), "state", [&] { return "objects " + w + ": reading object " + mc::str(i) + " from \"" + tx + "\" " + (in.fail() ? "fails" : "does not fail"); }); if (!in.fail()) { Str why; c.checkf(dst[i]->eq(*src[i], why), "value", [&] { return "objects " + w + ": object " + mc::str(i) + " read from \"" + tx + "\": " + why; }); } } }
struct Lim : std::streambuf { Str got; size_t lim; Lim(size_t l) : lim(l) {} int overflow(int ch) override { if (got.size() >= lim) return EOF; got += char(ch); return ch; } std::streamsize xsputn(const char* p, std::streamsize n) override { std::streamsize k = 0; while (k < n && got.size() < lim) got += p[k++]; return k; } };
static void limited(Ctx& c) { int k = c.pick(NO), k2 = c.pick(NO), md = c.pick(3), fl = c.pick(2); auto a = obj(k, 0), b = obj(k2, 1); auto set = [&](std::ostream& o) { o.precision(9); if (fl) o.width(14); }; std::ostringstream f; set(f); a->write(f); b->write(f); Str s = f.str(); int lim = c.pick(s.size() + 2); c.step(); c.state(mc::mix(k * NO + k2, mc::mix(md * 2 + fl, lim))); Lim L(lim); std::ostream o(&L); if (md == 1) o.exceptions(std::ios::badbit); if (md == 2) o.exceptions(std::ios::badbit | std::ios::failbit); set(o); bool thr = false; try { a->write(o); b->write(o); } catch (std::ios_base::failure&) { thr = true; } bool whole = lim >= (int)s.size(); c.checkf(L.got == s.substr(0, lim), "output", [&] { return "a device taking " + mc::str(lim) + " characters received \"" + L.got + "\" of \"" + s + "\""; }); c.check(o.good() == whole, "state", "the stream's state does not tell whether everything was written"); c.check(thr == (md && !whole), "exception", "exception"); }
void mc_register() {
#if PART == 1
	rt<double>("double"); rt<float>("float");
#elif PART == 2
	rt<long double>("long double"); rt<int>("int"); rt<unsigned short>("unsigned short"); rt<std::complex<double>>("complex double"); rt<long>("long");
#elif PART == 3
	mc::scenario("tokens double", tokens<double>, 4, 5); mc::scenario("tokens int", tokens<int>, 4, 5); mc::scenario("tokens float", tokens<float>, 3, 5); mc::scenario("tokens complex", tokens<std::complex<double>>, 3, 4);
	mc::scenario("edits double", cuts<double>, 1, 1); mc::scenario("edits int", cuts<int>, 1, 1); mc::scenario("edits complex", cuts<std::complex<double>>, 1, 1); mc::scenario("edits long double", cuts<long double>, 1, 1);
#elif PART == 4
	group<SO2<double>>("SO2"); group<SO3<double>>("SO3"); group<SE2<double>>("SE2"); group<SE3<double>>("SE3"); group<SIM2<double>>("SIM2"); group<SIM3<double>>("SIM3"); group<SL<2, double>>("SL2"); group<SL<3, double>>("SL3");
	group<SO3<float>>("SO3 float"); group<SE3<float>>("SE3 float"); group<SIM3<float>>("SIM3 float"); group<SL<4, float>>("SL4 float"); group<SE2<float>>("SE2 float"); group<SO2<float>>("SO2 float"); group<SIM2<float>>("SIM2 float");
#else
	mc::scenario("sequences of objects", sequences, 2, 3); mc::scenario("limited output", limited, 1, 1);
#endif
}
MC_MAIN()
