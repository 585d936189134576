// C10: minimum/maximum reductions on every small vector and matrix over an element alphabet (ties included) and every
// storage kind, against a direct scan.
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "kinds.hh"
using namespace TooN; using namespace kinds;
template<class P> struct Chk { Ctx& c; string k;
	void s(const char* f, P got, P want) { c.checkf(got == want, f, [&] { return string(f) + " of a " + k + " is " + mc::str(got) + ", expected " + mc::str(want); }); }
	void i(const char* f, double got, int want) { c.checkf(got == want, f, [&] { return string(f) + " of a " + k + ": position " + mc::str(got) + ", expected " + mc::str(want); }); }
	template<class V> void v(const char* f, const V& x, const vector<P>& w) { if (x.size() != (int)w.size()) c.fail(f, string(f) + " of a " + k + " has size " + mc::str(x.size())); for (int a = 0; a < x.size(); ++a) s(f, x[a], w[a]); } };
template<class P, int N> void vec(Ctx& c, int n, const vector<P>& al) {
	const int k = c.pick(VK); vector<P> x(n); uint64_t h = 3; for (auto& e : x) { int i = c.pick(al.size()); e = al[i]; h = mc::mix(h, i); }
	vec_kind<P, N>(k, n, [&](auto& v, const string& nm) { c.step(4); c.state(mc::mix(h, mc::hash_str(nm + typeid(P).name()) + n)); c.logf("%s vector of %d", nm.c_str(), n); for (int i = 0; i < n; ++i) v[i] = x[i]; const auto& cv = v; Chk<P> t{c, nm + " vector"};
		int lo = 0, hi = 0; for (int i = 1; i < n; ++i) { if (x[i] < x[lo]) lo = i; if (x[i] > x[hi]) hi = i; } P l = n ? x[lo] : P(0), g = n ? x[hi] : P(0);
		t.s("min_value", min_value(cv), l); t.s("max_value", max_value(cv), g); auto a = min_element(cv); auto b = max_element(cv); t.s("min_element", a.first, l); t.s("max_element", b.first, g); t.i("min_element", a.second, lo); t.i("max_element", b.second, hi);
		for (int i = 0; i < n; ++i) t.s("argument afterwards", cv[i], x[i]); });
}
template<class P, int R, int C> void mat(Ctx& c, int r, int q, int mode, const vector<P>& al) { // mode 0: all values; 1: all pairs of extreme positions over a background
	const int k = c.pick(MK); vector<P> x(r * q); uint64_t h = mode * 1000 + r * 20 + q;
	if (mode == 0) for (auto& e : x) { int i = c.pick(al.size()); e = al[i]; h = mc::mix(h, i); }
	else { int a = c.pick(r * q), b = c.pick(r * q), z = c.pick(3); for (int i = 0; i < r * q; ++i) x[i] = z == 0 ? P(0) : z == 1 ? P((i * 7) % 5) : P(-(i % 4)); x[a] = al[0]; x[b] = al.back(); h = mc::mix(h, (a * 64 + b) * 3 + z); }
	mat_kind<P, R, C>(k, r, q, [&](auto& m, const string& nm) { c.step(12); c.state(mc::mix(h, mc::hash_str(nm + typeid(P).name()))); c.logf("%s matrix %dx%d", nm.c_str(), r, q);
		auto X = [&](int i, int j) { return x[i * q + j]; }; for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) m(i, j) = X(i, j); Chk<P> t{c, nm + " matrix"};
		bool empty = r == 0 || q == 0; int lo = 0, hi = 0; for (int i = 1; i < r * q; ++i) { if (x[i] < x[lo]) lo = i; if (x[i] > x[hi]) hi = i; } P l = empty ? P(0) : x[lo], g = empty ? P(0) : x[hi]; int w = q ? q : 1;
		t.s("min_value", min_value(m), l); t.s("max_value", max_value(m), g); auto a = min_element(m); auto b = max_element(m); t.s("min_element", a.first, l); t.s("max_element", b.first, g); t.i("min_element row", a.second.first, lo / w); t.i("min_element col", a.second.second, lo % w); t.i("max_element row", b.second.first, hi / w); t.i("max_element col", b.second.second, hi % w);
		vector<P> rl, rg, ril, rig, cl, cg, cil, cig;
		if (!empty) { for (int i = 0; i < r; ++i) { int l = 0, g = 0; for (int j = 1; j < q; ++j) { if (X(i, j) < X(i, l)) l = j; if (X(i, j) > X(i, g)) g = j; } rl.push_back(X(i, l)); rg.push_back(X(i, g)); ril.push_back(P(l)); rig.push_back(P(g)); }
			for (int j = 0; j < q; ++j) { int l = 0, g = 0; for (int i = 1; i < r; ++i) { if (X(i, j) < X(l, j)) l = i; if (X(i, j) > X(g, j)) g = i; } cl.push_back(X(l, j)); cg.push_back(X(g, j)); cil.push_back(P(l)); cig.push_back(P(g)); } }
		t.v("min_value_horizontal", min_value_horizontal(m), rl); t.v("max_value_horizontal", max_value_horizontal(m), rg); t.v("min_value_vertical", min_value_vertical(m), cl); t.v("max_value_vertical", max_value_vertical(m), cg);
		auto e = min_element_horizontal(m); t.v("min_element_horizontal", e.first, rl); t.v("min_element_horizontal positions", e.second, ril); auto f = max_element_horizontal(m); t.v("max_element_horizontal", f.first, rg); t.v("max_element_horizontal positions", f.second, rig);
		auto o = min_element_vertical(m); t.v("min_element_vertical", o.first, cl); t.v("min_element_vertical positions", o.second, cil); auto p = max_element_vertical(m); t.v("max_element_vertical", p.first, cg); t.v("max_element_vertical positions", p.second, cig);
		for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) t.s("argument afterwards", m(i, j), X(i, j)); });
}
static const double INF = std::numeric_limits<double>::infinity();
static const vector<double> D5{-2, 0, 1, 0.5, 3}, D3{-1, 0, 2}, DX{-9, 9}, NEG{-5, -3, -4}, EXT{-INF, -1e308, 1e-320, INF}; static const vector<int> I3{INT_MIN, 0, INT_MAX}; static const vector<float> F3{-1.5f, 0, 2.25f};
void mc_register() {
#if PART == 1
	mc::scenario("vectors", [](Ctx& c) { switch (c.pick(4)) { case 0: vec<double, 1>(c, 1, D5); break; case 1: vec<double, 2>(c, 2, D5); break; case 2: vec<double, 3>(c, 3, D5); break; case 3: vec<double, 4>(c, 4, D5); } });
	mc::scenario("run-time vectors", [](Ctx& c) { vec<double, -2>(c, c.pick(c.depth + 1), D3); }, 7, 9); mc::scenario("negative vectors", [](Ctx& c) { vec<double, 3>(c, 3, NEG); vec<double, -2>(c, c.pick(5), NEG); }); mc::scenario("extreme vectors", [](Ctx& c) { vec<double, -2>(c, c.pick(5), EXT); }); mc::scenario("int vectors", [](Ctx& c) { vec<int, 3>(c, 3, I3); }); mc::scenario("float vectors", [](Ctx& c) { vec<float, 3>(c, 3, F3); });
#elif PART == 2
	mc::scenario("matrices 1x1 and 1x3", [](Ctx& c) { if (c.flip()) mat<double, 1, 1>(c, 1, 1, 0, D5); else mat<double, 1, 3>(c, 1, 3, 0, D5); });
#elif PART == 3
	mc::scenario("matrices 2x2", [](Ctx& c) { mat<double, 2, 2>(c, 2, 2, 0, c.flip() ? D5 : EXT); }); mc::scenario("negative matrices", [](Ctx& c) { mat<double, 2, 2>(c, 2, 2, 0, NEG); }); mc::scenario("int matrices", [](Ctx& c) { mat<int, 2, 2>(c, 2, 2, 0, I3); });
#elif PART == 4
	mc::scenario("matrices 2x3", [](Ctx& c) { mat<double, 2, 3>(c, 2, 3, 0, D3); }); 
#elif PART == 5
	mc::scenario("matrices 3x1 and 3x2", [](Ctx& c) { if (c.flip()) mat<double, 3, 1>(c, 3, 1, 0, D3); else mat<double, 3, 2>(c, 3, 2, 0, D3); });
#elif PART == 6
	mc::scenario("run-time matrices", [](Ctx& c) { int r = c.pick(5), q = c.pick(5); if (r * q > c.depth) throw mc::Prune(); mat<double, -2, -2>(c, r, q, 0, D3); }, 6, 9); mc::scenario("larger matrices", [](Ctx& c) { int r = 1 + c.pick(6), q = 1 + c.pick(6); mat<double, -2, -2>(c, r, q, 1, DX); }); mc::scenario("static larger", [](Ctx& c) { mat<double, 4, 5>(c, 4, 5, 1, DX); }); mc::scenario("float matrices", [](Ctx& c) { mat<float, 2, 2>(c, 2, 2, 0, F3); });
#endif
}
MC_MAIN()
