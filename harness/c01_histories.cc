// C01: explicit-state exploration of operation histories over two live objects of every storage kind,
// against a reference model (plain lists of values). Real objects live on the heap so that ASan sees
// every overrun; operator new is instrumented (leaks, double release, new/delete mismatch).
#include "toon_env.hh"
#include <TooN/TooN.h>
#undef abort
#include "alloc.hh"
using namespace TooN; using mc::Ctx; using std::vector; using std::string;

// An element type that knows whether it is alive.
struct Tracked {
	int v;
	static inline const Tracked* live[16384]; static inline int nlive = 0; static inline const char* err = 0;
	static int find(const Tracked* p) { for (int i = nlive; i-- > 0;) if (live[i] == p) return i; return -1; }
	void reg() { if (nlive >= 16384) _exit(90); live[nlive++] = this; }
	Tracked() : v(-77) { reg(); }
	Tracked(int x) : v(x) { reg(); }
	Tracked(const Tracked& o) : v(o.v) { if (find(&o) < 0) err = "copy from an element that is not alive"; reg(); }
	Tracked& operator=(const Tracked& o) { if (find(this) < 0) err = "assignment to an element that is not alive"; if (find(&o) < 0) err = "assignment from an element that is not alive"; v = o.v; return *this; }
	~Tracked() { int i = find(this); if (i < 0) err = "element destroyed that is not alive"; else live[i] = live[--nlive]; v = -99; }
	operator int() const { return v; }
	bool operator!=(const Tracked& o) const { return v != o.v; }
};
static int as_int(double d) { return (int)d; }
static int as_int(float d) { return (int)d; }
static int as_int(int d) { return d; }
static int as_int(const Tracked& t) { return t.v; }
static int as_int(const std::complex<double>& z) { return (int)z.real(); }

const int UNKNOWN = INT_MIN;
struct Model { bool live = false, moved = false; int r = 0, c = 1; vector<int> v; int origin = 0, maxsize = 0; };

// ---- adaptors: vectors (c == 1) and matrices
template<class T> struct Ad;
template<int S, class P, class B> struct Ad<Vector<S, P, B>> {
	typedef Vector<S, P, B> T; typedef P Elem; static const bool resizable = S == Resizable; static const bool isstatic = S >= 0; static const bool ismat = false;
	static T* make(int r, int) { return new T(r); }
	static int rows(const T& t) { return t.size(); } static int cols(const T&) { return 1; }
	static P& at(T& t, int r, int) { return t[r]; } static const P& at(const T& t, int r, int) { return t[r]; }
};
template<int R, int C, class P, class B> struct Ad<Matrix<R, C, P, B>> {
	typedef Matrix<R, C, P, B> T; typedef P Elem; static const bool resizable = false; static const bool isstatic = R >= 0 && C >= 0; static const bool ismat = true;
	static T* make(int r, int c) { return new T(r, c); }
	static int rows(const T& t) { return t.num_rows(); } static int cols(const T& t) { return t.num_cols(); }
	static P& at(T& t, int r, int c) { return t(r, c); } static const P& at(const T& t, int r, int c) { return t(r, c); }
};

template<class T> T roundtrip(T t) { return t; }                 // by value in, by value out
template<class T> T build_local(const T& t) { T l(t); return l; } // returns a local

template<class T> struct World {
	typedef Ad<T> A; typedef typename A::Elem E;
	Ctx& c; static const int N = 2; T* o[N] = {0, 0}; Model m[N]; int fresh = 1; vector<std::pair<int, int>> sizes;
	World(Ctx& c_, vector<std::pair<int, int>> s) : c(c_), sizes(s) {}
	~World() { mc::alloc::Scope s; for (int i = 0; i < N; ++i) delete o[i]; }
	void fill(int i) { // store fresh values in all elements
		mc::alloc::Pause p;
		m[i].v.assign(m[i].r * m[i].c, 0);
		for (int a = 0; a < m[i].r; ++a) for (int b = 0; b < m[i].c; ++b) { m[i].v[a * m[i].c + b] = fresh; A::at(*o[i], a, b) = E(fresh); ++fresh; }
	}
	void verify(const char* op) {
		if (Tracked::err) { string e = Tracked::err; Tracked::err = 0; c.fail("element-lifetime", e + " after " + op); }
		if (mc::alloc::error) { string e = mc::alloc::error; mc::alloc::error = 0; c.fail("new-delete-mismatch", e + " after " + op); }
		for (int i = 0; i < N; ++i) {
			if (!m[i].live || m[i].moved) continue;
			const T& t = *o[i];
			if (A::rows(t) != m[i].r || A::cols(t) != m[i].c) c.fail("size", string("wrong size after ") + op + ": object " + std::to_string(i) + " is " + std::to_string(A::rows(t)) + "x" + std::to_string(A::cols(t)) + ", expected " + std::to_string(m[i].r) + "x" + std::to_string(m[i].c));
			for (int a = 0; a < m[i].r; ++a) for (int b = 0; b < m[i].c; ++b) { int want = m[i].v[a * m[i].c + b]; c.validated();
				if (want != UNKNOWN && as_int(A::at(t, a, b)) != want) c.fail("value", string("after ") + op + ": object " + std::to_string(i) + " element (" + std::to_string(a) + "," + std::to_string(b) + ") is " + std::to_string(as_int(A::at(t, a, b))) + ", expected " + std::to_string(want)); }
		}
	}
	uint64_t canon(int lastop) {
		mc::Hasher h; std::map<int, int> ren; h(lastop);
		for (int i = 0; i < N; ++i) { h(m[i].live)(m[i].moved)(m[i].r)(m[i].c)(m[i].origin)(m[i].maxsize); if (m[i].live && !m[i].moved) for (int x : m[i].v) { if (x == UNKNOWN) h(99999); else { auto it = ren.emplace(x, (int)ren.size()).first; h(it->second); } } }
		return h.h;
	}
	bool usable(int i) { return m[i].live && !m[i].moved; }
	void drop(int i) { if (m[i].live) { mc::alloc::Scope s; delete o[i]; o[i] = 0; } m[i] = Model(); }
	bool samedims(int i, int j) { return m[i].r == m[j].r && m[i].c == m[j].c; }

	// one transition; returns false if the chosen operation is not enabled
	bool op(int k, int i, const char*& name) {
		int j = 1 - i;
		switch (k) {
		case 0: { name = "construct+fill"; auto s = sizes[c.pick((int)sizes.size())]; drop(i); c.logf("o%d=new(%d,%d) filled", i, s.first, s.second); { mc::alloc::Scope sc; o[i] = A::make(s.first, s.second); } m[i].live = true; m[i].r = s.first; m[i].c = s.second; m[i].origin = 1; fill(i); break; }
		case 1: name = "copy-construct"; if (!usable(j)) return false; drop(i); c.logf("o%d=copy of o%d", i, j); { mc::alloc::Scope sc; o[i] = new T(*(const T*)o[j]); } m[i] = m[j]; m[i].origin = 2; break;
		case 2: name = "move-construct"; if (!usable(j)) return false; drop(i); c.logf("o%d=moved from o%d", i, j); { mc::alloc::Scope sc; o[i] = new T(std::move(*o[j])); } m[i] = m[j]; m[i].origin = 3; m[j].moved = true; break;
		case 3: name = "assign"; if (!usable(i) || !usable(j) || !(A::resizable || samedims(i, j))) return false; c.logf("o%d=o%d", i, j); { mc::alloc::Scope sc; *o[i] = *(const T*)o[j]; } m[i].r = m[j].r; m[i].c = m[j].c; m[i].v = m[j].v; m[i].origin = 4; break;
		case 4: { name = "self-assign"; if (!usable(i)) return false; c.logf("o%d=o%d", i, i); T& al = *o[i]; { mc::alloc::Scope sc; *o[i] = al; } break; }
		case 5: { name = "write"; if (!usable(i) || m[i].v.empty()) return false; int e = c.pick(2) ? (int)m[i].v.size() - 1 : 0; c.logf("o%d[%d]=%d", i, e, fresh); A::at(*o[i], e / m[i].c, e % m[i].c) = E(fresh); m[i].v[e] = fresh++; break; }
		case 6: { name = "swap"; if (!usable(i) || !usable(j) || !(A::resizable || samedims(i, j)) || i == 1) return false; c.logf("swap(o0,o1)"); { mc::alloc::Scope sc; using std::swap; swap(*o[i], *o[j]); } std::swap(m[i], m[j]); m[i].origin = m[j].origin = 5; break; }
		case 7: { name = "resize"; if constexpr (A::resizable) { if (!usable(i)) return false; int s = sizes[c.pick((int)sizes.size())].first; c.logf("o%d.resize(%d)", i, s); { mc::alloc::Scope sc; o[i]->resize(s); } int old = m[i].r; m[i].r = s; m[i].v.resize(s, UNKNOWN); m[i].maxsize = std::max({m[i].maxsize, old, s}); m[i].origin = 6; break; } else return false; }
		case 8: name = "destroy"; if (!m[i].live) return false; c.logf("destroy o%d", i); drop(i); break;
		case 9: { name = "assign-from-rvalue"; if (!usable(i) || !usable(j) || !(A::resizable || samedims(i, j))) return false; c.logf("o%d=move(o%d)", i, j); { mc::alloc::Scope sc; *o[i] = std::move(*o[j]); } m[i].r = m[j].r; m[i].c = m[j].c; m[i].v = m[j].v; m[i].origin = 7; m[j].moved = true; break; }
		case 10: name = "return-by-value"; if (!usable(j)) return false; drop(i); c.logf("o%d=new(f(o%d))", i, j); { mc::alloc::Scope sc; o[i] = new T(roundtrip(build_local(*(const T*)o[j]))); } m[i] = m[j]; m[i].origin = 8; break;
		case 11: name = "assign-temporary-copy"; if (!usable(i) || !usable(j) || !(A::resizable || samedims(i, j))) return false; c.logf("o%d=f(o%d)", i, j); { mc::alloc::Scope sc; *o[i] = roundtrip(*(const T*)o[j]); } m[i].r = m[j].r; m[i].c = m[j].c; m[i].v = m[j].v; m[i].origin = 9; break;
		case 12: { name = "self-swap"; if (!usable(i) || A::isstatic) return false; c.logf("swap(o%d,o%d)", i, i); mc::alloc::Scope sc; using std::swap; swap(*o[i], *o[i]); break; }
		case 13: { name = "construct-from-view"; if (!usable(j)) return false; drop(i); c.logf("o%d=new(view of o%d)", i, j);
			mc::alloc::Scope sc;
			if constexpr (A::ismat) o[i] = new T(o[j]->T().T()); else o[i] = new T(o[j]->as_slice());
			m[i] = m[j]; m[i].origin = 10; break; }
		case 14: { name = "assign-from-view"; if (!usable(i) || !usable(j) || !(A::resizable || samedims(i, j))) return false; c.logf("o%d=view of o%d", i, j);
			mc::alloc::Scope sc;
			if constexpr (A::ismat) *o[i] = o[j]->T().T(); else *o[i] = o[j]->as_slice();
			m[i].r = m[j].r; m[i].c = m[j].c; m[i].v = m[j].v; m[i].origin = 11; break; }
		case 15: { name = "construct-from-const-arith"; // value-returning operation as the source (temporaries of the library)
			if constexpr (std::is_same<E, Tracked>::value) return false; else { if (!usable(j)) return false; drop(i); c.logf("o%d=new(o%d*1)", i, j); mc::alloc::Scope sc; o[i] = new T(*(const T*)o[j] * E(1)); m[i] = m[j]; m[i].origin = 12; break; } }
		case 16: { name = "assign-zeros"; if constexpr (std::is_same<E, Tracked>::value) return false; else { if (!usable(i)) return false; 
			int r = m[i].r; if constexpr (A::resizable) { r = sizes[c.pick((int)sizes.size())].first; c.logf("o%d=Zeros(%d)", i, r); mc::alloc::Scope sc; *o[i] = Zeros(r); } else { c.logf("o%d=Zeros", i); mc::alloc::Scope sc; *o[i] = Zeros; }
			m[i].maxsize = std::max(m[i].maxsize, m[i].r); m[i].r = r; m[i].v.assign(r * m[i].c, 0); m[i].origin = 13; break; } }
		}
		return true;
	}
	static const int NOPS = 17;
};

template<class T> void history(Ctx& c, vector<std::pair<int, int>> sizes) {
	mc::alloc::reset(); Tracked::nlive = 0; Tracked::err = 0;
	{
		World<T> w(c, sizes);
		for (int d = 0; d < c.depth; ++d) {
			int i = c.pick(2), k = c.pick(World<T>::NOPS); const char* name = "?";
			if (!w.op(k, i, name)) throw mc::Prune();
			c.step(); c.outcome(name); w.verify(name);
			c.visit(w.canon(k * 2 + i), c.depth - d - 1);
		}
	}
	if (Tracked::err) { string e = Tracked::err; Tracked::err = 0; c.fail("element-lifetime", e + " at final destruction"); }
	if (Tracked::nlive) { int n = Tracked::nlive; Tracked::nlive = 0; c.fail("element-leak", std::to_string(n) + " elements never destroyed"); }
	mc::alloc::finish(c);
}

// Objects stored in a std::vector: reallocation, insertion, erasure use copy/move/assignment of the library objects.
template<class T> void in_container(Ctx& c, vector<std::pair<int, int>> sizes) {
	typedef Ad<T> A; typedef typename A::Elem E; mc::alloc::reset(); Tracked::nlive = 0; Tracked::err = 0; int fresh = 1;
	{
		vector<T>* v; { mc::alloc::Scope s; v = new vector<T>; } vector<Model> m;
		struct G { vector<T>* v; ~G() { mc::alloc::Scope s; delete v; } } g{v};
		for (int d = 0; d < c.depth; ++d) {
			int k = c.pick(7); const char* name = "?"; int n = (int)m.size();
			auto mk = [&](Model& q) { auto s = sizes[c.pick((int)sizes.size())]; T* t; { mc::alloc::Scope sc; t = A::make(s.first, s.second); } q.live = true; q.r = s.first; q.c = s.second; for (int i = 0; i < q.r * q.c; ++i) { A::at(*t, i / q.c, i % q.c) = E(fresh); q.v.push_back(fresh++); } return t; };
			switch (k) {
			case 0: { name = "push_back"; Model q; T* t = mk(q); c.logf("push_back(%dx%d)", q.r, q.c); { mc::alloc::Scope s; v->push_back(*t); delete t; } m.push_back(q); break; }
			case 1: { name = "push_back-rvalue"; Model q; T* t = mk(q); c.logf("push_back(move %dx%d)", q.r, q.c); { mc::alloc::Scope s; v->push_back(std::move(*t)); delete t; } m.push_back(q); break; }
			case 2: { name = "pop_back"; if (!n) throw mc::Prune(); c.log(name); mc::alloc::Scope s; v->pop_back(); { mc::alloc::Pause p; m.pop_back(); } break; }
			case 3: { name = "insert-front"; if (A::isstatic || A::resizable) { Model q; T* t = mk(q); c.logf("insert_front(%dx%d)", q.r, q.c); { mc::alloc::Scope s; v->insert(v->begin(), *t); delete t; } m.insert(m.begin(), q); break; } throw mc::Prune(); }
			case 4: { name = "erase-front"; if (!n || !(A::isstatic || A::resizable)) throw mc::Prune(); c.log(name); { mc::alloc::Scope s; v->erase(v->begin()); } m.erase(m.begin()); break; }
			case 5: { name = "copy-whole"; c.log(name); mc::alloc::Scope s; vector<T> w(*v); vector<T> u(std::move(w)); v->swap(u); break; }
			case 6: { name = "reserve"; c.log(name); mc::alloc::Scope s; v->reserve(v->capacity() + 1); break; }
			}
			c.step(); c.outcome(name);
			if (Tracked::err) { string e = Tracked::err; Tracked::err = 0; c.fail("element-lifetime", e + " after " + name); }
			if ((int)v->size() != (int)m.size()) c.fail("size", name);
			for (size_t i = 0; i < m.size(); ++i) { const T& t = (*v)[i]; if (A::rows(t) != m[i].r || A::cols(t) != m[i].c) c.fail("size", string("element object size wrong after ") + name); for (int e = 0; e < m[i].r * m[i].c; ++e) c.check(as_int(A::at(t, e / m[i].c, e % m[i].c)) == m[i].v[e], "value", name); }
			mc::Hasher h; h(k)(v->capacity()); for (auto& q : m) h(q.r)(q.c); c.visit(h.h, c.depth - d - 1);
		}
	}
	if (Tracked::err) { string e = Tracked::err; Tracked::err = 0; c.fail("element-lifetime", e + " at final destruction"); }
	if (Tracked::nlive) { int n = Tracked::nlive; Tracked::nlive = 0; c.fail("element-leak", std::to_string(n) + " elements never destroyed"); }
	mc::alloc::finish(c);
}

template<class T> void reg(const string& n, vector<std::pair<int, int>> sizes, int dq, int dt) {
	mc::scenario("history " + n, [=](Ctx& c) { history<T>(c, sizes); }, dq, dt);
	mc::scenario("container " + n, [=](Ctx& c) { in_container<T>(c, sizes); }, dq, dt);
}
void mc_register() {
#if PART == 1
	reg<Vector<3>>("Vector<3>", {{3, 1}}, 4, 6);
	reg<Vector<126>>("Vector<126> (heap)", {{126, 1}}, 4, 5);
	reg<Vector<125>>("Vector<125> (largest on stack)", {{125, 1}}, 3, 4);
	reg<Vector<Dynamic>>("Vector<Dynamic>", {{0, 1}, {1, 1}, {3, 1}}, 4, 6);
	reg<Vector<Resizable>>("Vector<Resizable>", {{0, 1}, {1, 1}, {3, 1}, {5, 1}}, 4, 5);
	reg<Vector<3, int>>("Vector<3,int>", {{3, 1}}, 4, 5);
	reg<Vector<251, float>>("Vector<251,float> (heap)", {{251, 1}}, 3, 4);
	reg<Vector<Dynamic, float>>("Vector<Dynamic,float>", {{1, 1}, {4, 1}}, 4, 5);
	reg<Vector<Resizable, int>>("Vector<Resizable,int>", {{0, 1}, {2, 1}, {4, 1}}, 4, 5);
	reg<Vector<Dynamic, std::complex<double>>>("Vector<Dynamic,complex>", {{1, 1}, {2, 1}}, 3, 5);
#elif PART == 2
	reg<Vector<3, Tracked>>("Vector<3,Tracked>", {{3, 1}}, 4, 6);
	reg<Vector<260, Tracked>>("Vector<260,Tracked> (heap)", {{260, 1}}, 3, 3);
	reg<Vector<Dynamic, Tracked>>("Vector<Dynamic,Tracked>", {{0, 1}, {1, 1}, {3, 1}}, 4, 6);
	reg<Vector<Resizable, Tracked>>("Vector<Resizable,Tracked>", {{0, 1}, {1, 1}, {3, 1}, {4, 1}}, 4, 5);
	reg<Matrix<2, 3, Tracked>>("Matrix<2,3,Tracked>", {{2, 3}}, 4, 6);
	reg<Matrix<16, 17, Tracked>>("Matrix<16,17,Tracked> (heap)", {{16, 17}}, 3, 3);
	reg<Matrix<Dynamic, Dynamic, Tracked>>("Matrix<Dynamic,Dynamic,Tracked>", {{0, 0}, {1, 2}, {2, 1}, {2, 2}}, 4, 5);
	reg<Matrix<2, Dynamic, Tracked>>("Matrix<2,Dynamic,Tracked>", {{2, 1}, {2, 3}}, 4, 5);
	reg<Matrix<Dynamic, 2, Tracked>>("Matrix<Dynamic,2,Tracked>", {{1, 2}, {3, 2}}, 4, 5);
#else
	reg<Matrix<2, 3>>("Matrix<2,3>", {{2, 3}}, 4, 6);
	reg<Matrix<2, 3, double, ColMajor>>("Matrix<2,3,ColMajor>", {{2, 3}}, 4, 5);
	reg<Matrix<12, 12>>("Matrix<12,12> (heap)", {{12, 12}}, 3, 4);
	reg<Matrix<9, 14, double, ColMajor>>("Matrix<9,14,ColMajor> (heap)", {{9, 14}}, 3, 4);
	reg<Matrix<Dynamic>>("Matrix<Dynamic>", {{0, 0}, {1, 2}, {2, 1}, {2, 2}}, 4, 5);
	reg<Matrix<Dynamic, Dynamic, double, ColMajor>>("Matrix<Dynamic,ColMajor>", {{1, 2}, {2, 1}, {2, 2}}, 4, 5);
	reg<Matrix<2, Dynamic>>("Matrix<2,Dynamic>", {{2, 1}, {2, 3}}, 4, 5);
	reg<Matrix<Dynamic, 2>>("Matrix<Dynamic,2>", {{1, 2}, {3, 2}}, 4, 5);
	reg<Matrix<Dynamic, Dynamic, int>>("Matrix<Dynamic,int>", {{1, 1}, {2, 3}}, 4, 5);
	reg<Matrix<2, 3, float>>("Matrix<2,3,float>", {{2, 3}}, 4, 5);
#endif
}
MC_MAIN()
