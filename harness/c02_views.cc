// C02: all compositions of view operations (to the stated depth) over every kind of root object,
// against an index map: which raw storage element each view element must be.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
using namespace TooN; using mc::Ctx; using std::vector; using std::string;
#ifndef DEPTH
#define DEPTH 2
#endif
struct Raw { double* p; int n; vector<double> model; int fresh = 100; double next() { return fresh++; }
	void sync() { for (int i = 0; i < n; ++i) p[i] = model[i] = next(); }
	void check(Ctx& c, const char* what) { for (int i = 0; i < n; ++i) { c.validated(); if (!(p[i] == model[i])) c.fail("aliasing", string(what) + ": storage element " + std::to_string(i) + " is " + mc::str(p[i]) + ", expected " + mc::str(model[i])); } }
};
struct VMap { vector<int> x; };
struct MMap { int r, c; vector<int> x; int at(int i, int j) const { return x[i * c + j]; } };
static uint64_t hv(const VMap& m) { mc::Hasher h; h(m.x.size()); for (int i : m.x) h(i); return h.h; }
static uint64_t hm(const MMap& m) { mc::Hasher h; h(m.r)(m.c); for (int i : m.x) h(i); return h.h; }

template<class M> struct Dim; template<int R, int C, class P, class B> struct Dim<Matrix<R, C, P, B>> { typedef std::integral_constant<int, R> Rows; typedef std::integral_constant<int, C> Cols; };
template<class M> struct Dim<const M> : Dim<M> {};
template<class V> struct Owns : std::false_type {}; template<class V> struct Owns<const V> : Owns<V> {};
template<int S, class P> struct Owns<Vector<S, P>> : std::true_type {};
template<int R, int C, class P> struct Owns<Matrix<R, C, P, RowMajor>> : std::true_type {}; template<int R, int C, class P> struct Owns<Matrix<R, C, P, ColMajor>> : std::true_type {};
template<class V> void vec_leaf(Ctx& c, V& v, const VMap& m, Raw& b) {
	const int n = (int)m.x.size(); c.step(); c.state(mc::mix(hv(m), mc::hash_str(__PRETTY_FUNCTION__)));
	if (v.size() != n) c.fail("size", "vector view has size " + std::to_string(v.size()) + ", expected " + std::to_string(n));
	b.sync();
	const V& cv = v;
	for (int i = 0; i < n; ++i) { c.check(cv[i] == b.model[m.x[i]], "read", "const element"); }
	for (int i = 0; i < n; ++i) { c.check(v[i] == b.model[m.x[i]], "read", "element"); c.check(&v[i] == b.p + m.x[i], "read", "address"); }
	Vector<Dynamic> val(v); for (int i = 0; i < n; ++i) c.check(val[i] == b.model[m.x[i]], "copy", "value copy of a view");
	if constexpr (!std::is_const<typename std::remove_reference<decltype(v[0])>::type>::value) {
		for (int i = 0; i < n; ++i) v[i] = b.model[m.x[i]] = b.next(); b.check(c, "element write");
		Vector<Dynamic> w(n); for (int i = 0; i < n; ++i) w[i] = b.model[m.x[i]] = b.next(); v = w; b.check(c, "assignment");
		for (int i = 0; i < n; ++i) c.check(val[i] != v[i] || n == 0, "copy", "a value copy follows the view");
		v += w; for (int i = 0; i < n; ++i) b.model[m.x[i]] *= 2; b.check(c, "+=");
		v -= w; for (int i = 0; i < n; ++i) b.model[m.x[i]] /= 2; b.check(c, "-=");
		v *= 4; for (int i = 0; i < n; ++i) b.model[m.x[i]] *= 4; b.check(c, "*=");
		v /= 2; for (int i = 0; i < n; ++i) b.model[m.x[i]] /= 2; b.check(c, "/=");
		v = Ones * 7; for (int i = 0; i < n; ++i) b.model[m.x[i]] = 7; b.check(c, "= Ones*7");
		v += Ones; for (int i = 0; i < n; ++i) b.model[m.x[i]] = 8; b.check(c, "+= Ones");
		v = Zeros; for (int i = 0; i < n; ++i) b.model[m.x[i]] = 0; b.check(c, "= Zeros");
		for (int i = 0; i < n; ++i) w[i] = b.next(); { Vector<Dynamic> w3(w); auto w2 = w3.as_slice(); swap(v, w2); for (int i = 0; i < n; ++i) { c.check(w2[i] == b.model[m.x[i]], "swap", "swap with a view"); b.model[m.x[i]] = w[i]; } } b.check(c, "swap");
		if constexpr (!Owns<V>::value) { V alias(v); for (int i = 0; i < n; ++i) alias[i] = b.model[m.x[i]] = b.next(); } b.check(c, "write through a copy of the view");
		v.ref() = w; for (int i = 0; i < n; ++i) b.model[m.x[i]] = w[i]; b.check(c, "ref() assignment");
	}
	b.sync(); for (int i = 0; i < n; ++i) c.check(cv[i] == b.model[m.x[i]], "read", "element after a change of the underlying object");
}
template<class M> void mat_leaf(Ctx& c, M& v, const MMap& m, Raw& b) {
	c.step(); c.state(mc::mix(hm(m), mc::hash_str(__PRETTY_FUNCTION__)));
	if (v.num_rows() != m.r || v.num_cols() != m.c) c.fail("size", "matrix view is " + std::to_string(v.num_rows()) + "x" + std::to_string(v.num_cols()) + ", expected " + std::to_string(m.r) + "x" + std::to_string(m.c));
	b.sync(); const M& cv = v;
#define ALL for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j)
#define MV b.model[m.at(i, j)]
	ALL { c.check(cv(i, j) == MV, "read", "const (i,j)"); c.check(cv[i][j] == MV, "read", "const [i][j]"); c.check(cv[std::make_pair(i, j)] == MV, "read", "const [pair]"); }
	ALL { c.check(v(i, j) == MV, "read", "(i,j)"); c.check(v[i][j] == MV, "read", "[i][j]"); c.check(v[std::make_pair(i, j)] == MV, "read", "[pair]"); c.check(&v(i, j) == b.p + m.at(i, j), "read", "address"); }
	Matrix<> val(v); ALL c.check(val(i, j) == MV, "copy", "value copy of a view");
	if constexpr (!std::is_const<typename std::remove_reference<decltype(v(0, 0))>::type>::value) {
		ALL v(i, j) = MV = b.next(); b.check(c, "(i,j) write");
		ALL v[i][j] = MV = b.next(); b.check(c, "[i][j] write");
		Matrix<> w(m.r, m.c); ALL w(i, j) = MV = b.next(); v = w; b.check(c, "assignment");
		Matrix<Dynamic, Dynamic, double, ColMajor> wc(m.r, m.c); ALL wc(i, j) = MV = b.next(); v = wc; b.check(c, "assignment from column major");
		v += wc; ALL MV *= 2; b.check(c, "+="); v -= wc; ALL MV /= 2; b.check(c, "-=");
		v *= 4; ALL MV *= 4; b.check(c, "*="); v /= 2; ALL MV /= 2; b.check(c, "/=");
		v = Ones(m.r, m.c) * 7; ALL MV = 7; b.check(c, "= Ones*7"); v += Ones; ALL MV = 8; b.check(c, "+= Ones");
		v = Zeros; ALL MV = 0; b.check(c, "= Zeros");
		if constexpr (Dim<M>::Rows::value < 0 || Dim<M>::Cols::value < 0 || Dim<M>::Rows::value == Dim<M>::Cols::value) if (m.r == m.c) { v = Identity; ALL MV = i == j; b.check(c, "= Identity"); v += Identity * 2; ALL MV = i == j ? 3 : 0; b.check(c, "+= Identity*2"); }
		for (int i = 0; i < m.r; ++i) { Vector<> rv(m.c); for (int j = 0; j < m.c; ++j) rv[j] = MV = b.next(); v[i] = rv; } b.check(c, "row assignment");
		if constexpr (!Owns<M>::value) { M alias(v); ALL alias(i, j) = MV = b.next(); } b.check(c, "write through a copy of the view");
		v.ref() = w; ALL MV = w(i, j); b.check(c, "ref() assignment");
	}
	b.sync(); ALL c.check(cv(i, j) == MV, "read", "element after a change of the underlying object");
}

template<int D, class V> void vec(Ctx& c, V& v, const VMap& m, Raw& b);
template<int D, class M> void mat(Ctx& c, M& v, const MMap& m, Raw& b);
static VMap sub(const VMap& m, int s, int l) { return VMap{vector<int>(m.x.begin() + s, m.x.begin() + s + l)}; }
static MMap sub(const MMap& m, int r, int cc, int rl, int cl) { MMap o{rl, cl, {}}; for (int i = 0; i < rl; ++i) for (int j = 0; j < cl; ++j) o.x.push_back(m.at(r + i, cc + j)); return o; }

template<int D, int S, int L, class V> bool static_vslice(Ctx& c, V& v, const VMap& m, Raw& b, int mode) {
	if constexpr (V::SizeParameter < 0 || S + L <= V::SizeParameter) {
		if (S + L > (int)m.x.size()) return false;
		c.logf("slice<%d,%d> mode %d", S, L, mode);
		switch (mode) {
		case 0: { auto&& s = v.template slice<S, L>(); vec<D - 1>(c, s, sub(m, S, L), b); break; }
		case 1: { auto&& s = v.template slice<Dynamic, L>(S, L); vec<D - 1>(c, s, sub(m, S, L), b); break; }
		case 2: { auto&& s = v.template slice<S, Dynamic>(S, L); vec<D - 1>(c, s, sub(m, S, L), b); break; }
		}
		return true;
	}
	return false;
}
template<int D, class V> void vec(Ctx& c, V& v, const VMap& m, Raw& b) {
	if constexpr (D == 0) vec_leaf(c, v, m, b);
	else {
		int n = (int)m.x.size();
		switch (c.pick(7)) {
		case 0: c.log("leaf"); vec_leaf(c, v, m, b); return;
		case 1: { int s = c.pick(n + 1), l = c.pick(n - s + 1); c.logf("slice(%d,%d)", s, l); auto&& x = v.slice(s, l); vec<D - 1>(c, x, sub(m, s, l), b); return; }
		case 2: { int w = c.pick(4), mode = c.pick(3); bool ok = false; switch (w) { case 0: ok = static_vslice<D, 0, 2>(c, v, m, b, mode); break; case 1: ok = static_vslice<D, 1, 1>(c, v, m, b, mode); break; case 2: ok = static_vslice<D, 1, 2>(c, v, m, b, mode); break; case 3: ok = static_vslice<D, 0, 3>(c, v, m, b, mode); break; } if (!ok) throw mc::Prune(); return; }
		case 3: { c.log("as_row"); auto&& x = v.as_row(); mat<D - 1>(c, x, MMap{1, n, m.x}, b); return; }
		case 4: { c.log("as_col"); auto&& x = v.as_col(); mat<D - 1>(c, x, MMap{n, 1, m.x}, b); return; }
		case 5: { c.log("as_slice"); auto&& x = v.as_slice(); vec<D - 1>(c, x, m, b); return; }
		case 6: { c.log("as_diagonal"); b.sync(); auto&& x = v.as_diagonal(); c.step();
			for (int i = 0; i < n; ++i) { c.check(x[i] == b.model[m.x[i]], "read", "as_diagonal element"); }
			auto&& y = x.diagonal_slice(); vec<0>(c, y, m, b); return; }
		}
	}
}
template<int D, int R0, int C0, int RL, int CL, class M, int MR, int MC> bool static_mslice(Ctx& c, M& v, const MMap& m, Raw& b, int mode, std::integral_constant<int, MR>, std::integral_constant<int, MC>) {
	if constexpr ((MR < 0 || R0 + RL <= MR) && (MC < 0 || C0 + CL <= MC)) {
		if (R0 + RL > m.r || C0 + CL > m.c) return false;
		c.logf("slice<%d,%d,%d,%d> mode %d", R0, C0, RL, CL, mode); MMap s = sub(m, R0, C0, RL, CL);
		switch (mode) {
		case 0: { auto&& x = v.template slice<R0, C0, RL, CL>(); mat<D - 1>(c, x, s, b); break; }
		case 1: { auto&& x = v.template slice<Dynamic, C0, RL, Dynamic>(R0, C0, RL, CL); mat<D - 1>(c, x, s, b); break; }
		case 2: { auto&& x = v.template slice<R0, Dynamic, Dynamic, CL>(R0, C0, RL, CL); mat<D - 1>(c, x, s, b); break; }
		}
		return true;
	}
	return false;
}
template<int D, class M> void mat(Ctx& c, M& v, const MMap& m, Raw& b) {
	if constexpr (D == 0) mat_leaf(c, v, m, b);
	else {
		switch (c.pick(7)) {
		case 0: c.log("leaf"); mat_leaf(c, v, m, b); return;
		case 1: { c.log("T"); MMap t{m.c, m.r, {}}; for (int j = 0; j < m.c; ++j) for (int i = 0; i < m.r; ++i) t.x.push_back(m.at(i, j)); auto&& x = v.T(); mat<D - 1>(c, x, t, b); return; }
		case 2: { if (!m.r) throw mc::Prune(); int r = c.pick(m.r); c.logf("[%d]", r); VMap s; for (int j = 0; j < m.c; ++j) s.x.push_back(m.at(r, j)); auto&& x = v[r]; vec<D - 1>(c, x, s, b); return; }
		case 3: { if (!m.c) throw mc::Prune(); int q = c.pick(m.c); c.logf("T()[%d]", q); VMap s; for (int i = 0; i < m.r; ++i) s.x.push_back(m.at(i, q)); auto&& x = v.T()[q]; vec<D - 1>(c, x, s, b); return; }
		case 4: { int r = c.pick(m.r + 1), rl = c.pick(m.r - r + 1), q = c.pick(m.c + 1), cl = c.pick(m.c - q + 1); c.logf("slice(%d,%d,%d,%d)", r, q, rl, cl); auto&& x = v.slice(r, q, rl, cl); mat<D - 1>(c, x, sub(m, r, q, rl, cl), b); return; }
		case 5: { int w = c.pick(4), mode = c.pick(3); bool ok = false; typename Dim<M>::Rows R; typename Dim<M>::Cols C;
			switch (w) { case 0: ok = static_mslice<D, 0, 0, 2, 2>(c, v, m, b, mode, R, C); break; case 1: ok = static_mslice<D, 1, 0, 1, 2>(c, v, m, b, mode, R, C); break; case 2: ok = static_mslice<D, 0, 1, 2, 1>(c, v, m, b, mode, R, C); break; case 3: ok = static_mslice<D, 1, 1, 1, 2>(c, v, m, b, mode, R, C); break; }
			if (!ok) throw mc::Prune(); return; }
		case 6: { c.log("diagonal_slice"); VMap s; for (int i = 0; i < std::min(m.r, m.c); ++i) s.x.push_back(m.at(i, i)); auto&& x = v.diagonal_slice(); vec<D - 1>(c, x, s, b); return; }
		}
	}
}
// ---- roots
static VMap iota(int n) { VMap m; for (int i = 0; i < n; ++i) m.x.push_back(i); return m; }
static MMap layout(int r, int c, bool row) { MMap m{r, c, {}}; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m.x.push_back(row ? i * c + j : j * r + i); return m; }
template<class V> void root_vec(Ctx& c, V& v, double* p, int n) { Raw b{p, n, vector<double>(n)}; b.sync(); if (c.flip()) { c.log("const"); const V& cv = v; vec<DEPTH>(c, cv, iota(n), b); } else vec<DEPTH>(c, v, iota(n), b); }
template<class M> void root_mat(Ctx& c, M& v, double* p, int r, int cc, bool row) { Raw b{p, r * cc, vector<double>(r * cc)}; b.sync(); if (c.flip()) { c.log("const"); const M& cv = v; mat<DEPTH>(c, cv, layout(r, cc, row), b); } else mat<DEPTH>(c, v, layout(r, cc, row), b); }
// wrapped memory sits between guard zones that must not change
struct Guarded { vector<double> mem; int n; Guarded(int n_) : mem(n_ + 16, -1), n(n_) {} double* p() { return &mem[8]; } void check(Ctx& c) { for (int i = 0; i < 8; ++i) if (mem[i] != -1 || mem[8 + n + i] != -1) c.fail("stray-write", "memory next to wrapped storage changed"); } };

template<int R, int C, class L> void owned_mat(const string& n, vector<std::pair<int, int>> s, bool row) {
	mc::scenario(n, [=](Ctx& c) { auto d = s[c.pick((int)s.size())]; c.logf("%s %dx%d", n.c_str(), d.first, d.second); auto m = std::make_unique<Matrix<R, C, double, L>>(d.first, d.second); root_mat(c, *m, m->get_data_ptr(), d.first, d.second, row); });
}
template<int S> void owned_vec(const string& n, vector<int> s) { mc::scenario(n, [=](Ctx& c) { int d = s[c.pick((int)s.size())]; c.logf("%s size %d", n.c_str(), d); auto v = std::make_unique<Vector<S>>(d); root_vec(c, *v, v->get_data_ptr(), d); }); }
template<int R, int C, class L> void wrapped_mat(const string& n, vector<std::pair<int, int>> s, bool row) {
	mc::scenario(n, [=](Ctx& c) { auto d = s[c.pick((int)s.size())]; Guarded g(d.first * d.second); c.logf("%s %dx%d", n.c_str(), d.first, d.second); Matrix<R, C, double, L> m(g.p(), d.first, d.second); root_mat(c, m, g.p(), d.first, d.second, row); g.check(c); });
}
#if PART == 9
// every way of wrapping external memory, of every element type: exactly the named elements are read and written
template<class T> struct Mem { T a[40]; T old[40]; Mem() { for (int i = 0; i < 40; ++i) a[i] = old[i] = T(i + 1); } T* p() { return a + 10; } const T* cp() const { return a + 10; }
	void rest(Ctx& c, const string& n) { for (int i = 0; i < 40; ++i) c.checkf(a[i] == old[i], "write", [&] { return n + ": storage element " + std::to_string(i - 10) + " is " + mc::str((double)a[i]) + ", expected " + mc::str((double)old[i]); }); } };
template<class T, class V> void wv(Ctx& c, V&& v, Mem<T>& g, int n, int stride, const string& what) {
	c.step(); c.state(mc::hash_str((what + __PRETTY_FUNCTION__ + std::to_string(n)).c_str())); c.log(what.c_str());
	if (v.size() != n) c.fail("size", what + ": size " + std::to_string(v.size()) + ", expected " + std::to_string(n));
	for (int i = 0; i < n; ++i) { c.checkf(v[i] == g.old[10 + i * stride], "read", [&] { return what + ": element " + std::to_string(i); }); c.checkf((const void*)&v[i] == (const void*)(g.a + 10 + i * stride), "read", [&] { return what + ": address of element " + std::to_string(i); }); }
	if constexpr (!std::is_const<typename std::remove_reference<decltype(v[0])>::type>::value) {
		for (int i = 0; i < n; ++i) { v[i] = T(90 + i); g.old[10 + i * stride] = T(90 + i); } g.rest(c, what);
		Vector<Dynamic, T> w(n); for (int i = 0; i < n; ++i) w[i] = g.old[10 + i * stride] = T(60 + i); v = w; g.rest(c, what + " assigned"); v += w; for (int i = 0; i < n; ++i) g.old[10 + i * stride] *= T(2); g.rest(c, what + " +=");
		if (n) { v = Zeros; for (int i = 0; i < n; ++i) g.old[10 + i * stride] = T(0); g.rest(c, what + " = Zeros"); }
	}
	for (int i = 0; i < n; ++i) { g.a[10 + i * stride] = g.old[10 + i * stride] = T(70 + i); c.checkf(v[i] == T(70 + i), "read", [&] { return what + ": a change of the memory is not seen"; }); }
}
template<class T, class M> void wm(Ctx& c, M&& m, Mem<T>& g, int r, int cc, int rs, int cs, const string& what, int off = 0) {
	c.step(); c.state(mc::hash_str((what + __PRETTY_FUNCTION__ + std::to_string(r * 10 + cc)).c_str())); c.log(what.c_str());
	if (m.num_rows() != r || m.num_cols() != cc) c.fail("size", what + ": " + std::to_string(m.num_rows()) + "x" + std::to_string(m.num_cols()) + ", expected " + std::to_string(r) + "x" + std::to_string(cc));
#define EACH for (int i = 0; i < r; ++i) for (int j = 0; j < cc; ++j)
#define AT(g_) g_[10 + off + i * rs + j * cs]
	EACH { c.checkf(m(i, j) == AT(g.old), "read", [&] { return what + ": element " + std::to_string(i) + "," + std::to_string(j); }); c.checkf(m[i][j] == AT(g.old), "read", [&] { return what + ": row element " + std::to_string(i) + "," + std::to_string(j); }); c.checkf(m.T()[j][i] == AT(g.old), "read", [&] { return what + ": transposed element " + std::to_string(i) + "," + std::to_string(j); }); c.checkf((const void*)&m(i, j) == (const void*)&AT(g.a), "read", [&] { return what + ": address of " + std::to_string(i) + "," + std::to_string(j); }); }
	if constexpr (!std::is_const<typename std::remove_reference<decltype(m(0, 0))>::type>::value) {
		int k = 0; EACH { ++k; m(i, j) = T(90 + k); AT(g.old) = T(90 + k); } g.rest(c, what);
		k = 0; EACH { ++k; m[i][j] = T(50 + k); AT(g.old) = T(50 + k); } g.rest(c, what + " by rows");
		Matrix<Dynamic, Dynamic, T> w(r, cc); k = 0; EACH { ++k; w(i, j) = AT(g.old) = T(30 + k); } m = w; g.rest(c, what + " assigned"); m += w; EACH AT(g.old) *= T(2); g.rest(c, what + " +=");
		m = Zeros; EACH AT(g.old) = T(0); g.rest(c, what + " = Zeros");
	}
	int k = 0; EACH { ++k; AT(g.a) = AT(g.old) = T(70 + k); c.checkf(m(i, j) == T(70 + k), "read", [&] { return what + ": a change of the memory is not seen"; }); }
}
template<class T> void wraps(const string& tn) {
	mc::scenario("wrapped vectors of " + tn, [](Ctx& c) { Mem<T> g; int n = c.pick(5), w = c.pick(7);
		switch (w) {
		case 0: wv<T>(c, wrapVector(g.p(), n), g, n, 1, "wrapVector(p,n)"); break; case 1: wv<T>(c, wrapVector(g.cp(), n), g, n, 1, "wrapVector(const p,n)"); break;
		case 2: if (n != 4) throw mc::Prune(); wv<T>(c, wrapVector<4, T>(g.p()), g, 4, 1, "wrapVector<4,T>(p)"); break; case 3: if (n != 4) throw mc::Prune(); wv<T>(c, wrapVector<4, T>(g.cp()), g, 4, 1, "wrapVector<4,T>(const p)"); break;
		case 4: if (n != 4) throw mc::Prune(); wv<T>(c, Vector<4, T, Reference>(g.p()), g, 4, 1, "Vector<4,T,Reference>"); break; case 5: wv<T>(c, Vector<Dynamic, T, Reference>(g.p(), n), g, n, 1, "Vector<Dynamic,T,Reference>"); break;
		case 6: if (n != 3) throw mc::Prune(); wv<T>(c, Vector<Dynamic, const T, Reference>(g.cp(), n), g, n, 1, "Vector<Dynamic,const T,Reference>"); break; } });
	mc::scenario("wrapped matrices of " + tn, [](Ctx& c) { Mem<T> g; int r = c.pick(4), cc = c.pick(4), w = c.pick(16);
		auto is = [&](int a, int b) { if ((a >= 0 && r != a) || (b >= 0 && cc != b)) throw mc::Prune(); };
		switch (w) {
		case 0: is(2, 3); wm<T>(c, wrapMatrix<2, 3, T>(g.p()), g, 2, 3, 3, 1, "wrapMatrix<2,3,T>(p)"); break;
		case 1: is(3, 2); wm<T>(c, wrapMatrix<3, 2, T>(g.cp()), g, 3, 2, 2, 1, "wrapMatrix<3,2,T>(const p)"); break;
		case 2: is(2, -1); wm<T>(c, wrapMatrix<2, Dynamic, T>(g.p(), r, cc), g, r, cc, cc, 1, "wrapMatrix<2,Dynamic,T>(p,r,c)"); break;
		case 3: is(-1, 2); wm<T>(c, wrapMatrix<Dynamic, 2, T>(g.p(), r, cc), g, r, cc, cc, 1, "wrapMatrix<Dynamic,2,T>(p,r,c)"); break;
		case 4: is(2, -1); wm<T>(c, wrapMatrix<2, Dynamic, T>(g.cp(), r, cc), g, r, cc, cc, 1, "wrapMatrix<2,Dynamic,T>(const p,r,c)"); break;
		case 5: is(-1, 2); wm<T>(c, wrapMatrix<Dynamic, 2, T>(g.cp(), r, cc), g, r, cc, cc, 1, "wrapMatrix<Dynamic,2,T>(const p,r,c)"); break;
		case 6: wm<T>(c, wrapMatrix(g.p(), r, cc), g, r, cc, cc, 1, "wrapMatrix(p,r,c)"); break; case 7: wm<T>(c, wrapMatrix(g.cp(), r, cc), g, r, cc, cc, 1, "wrapMatrix(const p,r,c)"); break;
		case 8: is(2, 3); wm<T>(c, Matrix<2, 3, T, Reference::RowMajor>(g.p()), g, 2, 3, 3, 1, "Matrix<2,3,T,Reference::RowMajor>"); break; case 9: is(2, 3); wm<T>(c, Matrix<2, 3, T, Reference::ColMajor>(g.p()), g, 2, 3, 1, 2, "Matrix<2,3,T,Reference::ColMajor>"); break;
		case 10: wm<T>(c, Matrix<Dynamic, Dynamic, T, Reference::ColMajor>(g.p(), r, cc), g, r, cc, 1, r, "Matrix<Dynamic,Dynamic,T,Reference::ColMajor>"); break; case 11: is(2, -1); wm<T>(c, Matrix<2, Dynamic, T, Reference::ColMajor>(g.p(), r, cc), g, r, cc, 1, r, "Matrix<2,Dynamic,T,Reference::ColMajor>"); break;
		case 12: is(-1, 2); wm<T>(c, Matrix<Dynamic, 2, T, Reference::ColMajor>(g.p(), r, cc), g, r, cc, 1, r, "Matrix<Dynamic,2,T,Reference::ColMajor>"); break; case 13: is(-1, 2); wm<T>(c, Matrix<Dynamic, 2, T, Reference::RowMajor>(g.p(), r, cc), g, r, cc, cc, 1, "Matrix<Dynamic,2,T,Reference::RowMajor>"); break;
		case 14: wm<T>(c, Matrix<Dynamic, Dynamic, const T, Reference::ColMajor>(g.cp(), r, cc), g, r, cc, 1, r, "Matrix<Dynamic,Dynamic,const T,Reference::ColMajor>"); break; case 15: is(2, 3); wm<T>(c, Matrix<2, 3, const T, Reference::ColMajor>(g.cp()), g, 2, 3, 1, 2, "Matrix<2,3,const T,Reference::ColMajor>"); break; } });
	mc::scenario("slices of wrapped matrices of " + tn, [](Ctx& c) { Mem<T> g; bool row = c.flip(); int r0 = c.pick(3), c0 = c.pick(4), nr = c.pick(3 - r0 + 1), nc = c.pick(4 - c0 + 1); bool dyn = c.flip(), t = c.flip();
		auto go = [&](auto&& m, int rs, int cs) { auto s = m.slice(r0, c0, nr, nc); int off = r0 * rs + c0 * cs; if (t) { auto u = s.T(); wm<T>(c, u, g, nc, nr, cs, rs, "transposed slice", off); } else wm<T>(c, s, g, nr, nc, rs, cs, "slice", off); };
		if (row) { if (dyn) { Matrix<Dynamic, Dynamic, T, Reference::RowMajor> m(g.p(), 3, 4); go(m, 4, 1); } else { Matrix<3, 4, T, Reference::RowMajor> m(g.p()); go(m, 4, 1); } }
		else { if (dyn) { Matrix<Dynamic, Dynamic, T, Reference::ColMajor> m(g.p(), 3, 4); go(m, 1, 3); } else { Matrix<3, 4, T, Reference::ColMajor> m(g.p()); go(m, 1, 3); } } });
}
// the forms that take no element type
static void wraps_default() {
	mc::scenario("wrapped memory without an element type", [](Ctx& c) { typedef double T; Mem<T> g;
		switch (c.pick(10)) {
		case 0: wv<T>(c, wrapVector<3>(g.p()), g, 3, 1, "wrapVector<3>(p)"); break; case 1: wv<T>(c, wrapVector<3>(g.cp()), g, 3, 1, "wrapVector<3>(const p)"); break; case 2: wm<T>(c, wrapMatrix<2, 3>(g.p()), g, 2, 3, 3, 1, "wrapMatrix<2,3>(p)"); break; case 3: wm<T>(c, wrapMatrix<2, 3>(g.cp()), g, 2, 3, 3, 1, "wrapMatrix<2,3>(const p)"); break;
		case 4: wm<T>(c, wrapMatrix<2, Dynamic>(g.p(), 2, 3), g, 2, 3, 3, 1, "wrapMatrix<2,Dynamic>(p,2,3)"); break; case 5: wm<T>(c, wrapMatrix<Dynamic, 3>(g.p(), 2, 3), g, 2, 3, 3, 1, "wrapMatrix<Dynamic,3>(p,2,3)"); break; case 6: wm<T>(c, wrapMatrix<2, Dynamic>(g.cp(), 2, 3), g, 2, 3, 3, 1, "wrapMatrix<2,Dynamic>(const p,2,3)"); break; case 7: wm<T>(c, wrapMatrix<Dynamic, 3>(g.cp(), 2, 3), g, 2, 3, 3, 1, "wrapMatrix<Dynamic,3>(const p,2,3)"); break;
		case 8: wm<T>(c, wrapMatrix(g.p(), 2, 3), g, 2, 3, 3, 1, "wrapMatrix(p,2,3)"); break; case 9: wm<T>(c, wrapMatrix(g.cp(), 3, 2), g, 3, 2, 2, 1, "wrapMatrix(const p,3,2)"); break; } });
}
#endif
void mc_register() {
#if PART == 1
	owned_vec<4>("Vector<4>", {4}); owned_vec<Dynamic>("Vector<Dynamic>", {0, 1, 4}); owned_vec<Resizable>("Vector<Resizable>", {0, 1, 4});
	mc::scenario("wrapVector<4>", [](Ctx& c) { Guarded g(4); auto v = wrapVector<4>(g.p()); root_vec(c, v, g.p(), 4); g.check(c); });
	mc::scenario("wrapVector(p,n)", [](Ctx& c) { int n = c.of({0, 1, 4}); Guarded g(n); auto v = wrapVector(g.p(), n); root_vec(c, v, g.p(), n); g.check(c); });
#elif PART == 2
	owned_mat<3, 2, RowMajor>("Matrix<3,2>", {{3, 2}}, true); owned_mat<2, 3, RowMajor>("Matrix<2,3>", {{2, 3}}, true);
#elif PART == 3
	owned_mat<3, 2, ColMajor>("Matrix<3,2,ColMajor>", {{3, 2}}, false); owned_mat<3, 3, ColMajor>("Matrix<3,3,ColMajor>", {{3, 3}}, false);
#elif PART == 4
	owned_mat<Dynamic, Dynamic, RowMajor>("Matrix<Dynamic>", {{0, 0}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}, true);
	owned_mat<2, Dynamic, RowMajor>("Matrix<2,Dynamic>", {{2, 1}, {2, 3}}, true);
#elif PART == 5
	owned_mat<Dynamic, Dynamic, ColMajor>("Matrix<Dynamic,ColMajor>", {{0, 0}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}, false);
	owned_mat<Dynamic, 2, ColMajor>("Matrix<Dynamic,2,ColMajor>", {{1, 2}, {3, 2}}, false);
#elif PART == 6
	owned_mat<Dynamic, 3, RowMajor>("Matrix<Dynamic,3>", {{1, 3}, {2, 3}}, true);
	owned_mat<3, Dynamic, ColMajor>("Matrix<3,Dynamic,ColMajor>", {{3, 1}, {3, 2}}, false);
#elif PART == 7
	wrapped_mat<Dynamic, Dynamic, Reference::RowMajor>("wrapped Dynamic RowMajor", {{1, 3}, {3, 2}, {2, 3}}, true);
	wrapped_mat<Dynamic, Dynamic, Reference::ColMajor>("wrapped Dynamic ColMajor", {{1, 3}, {3, 2}, {2, 3}}, false);
	wrapped_mat<2, 3, Reference::RowMajor>("wrapped 2x3 RowMajor", {{2, 3}}, true);
#elif PART == 9
	wraps<double>("double"); wraps<float>("float"); wraps<int>("int"); wraps<long double>("long double"); wraps_default();
#else
	wrapped_mat<2, 3, Reference::ColMajor>("wrapped 2x3 ColMajor", {{2, 3}}, false);
	wrapped_mat<2, Dynamic, Reference::RowMajor>("wrapped 2xDynamic RowMajor", {{2, 3}}, true);
	wrapped_mat<Dynamic, 2, Reference::ColMajor>("wrapped Dynamicx2 ColMajor", {{3, 2}}, false);
#endif
}
MC_MAIN()
