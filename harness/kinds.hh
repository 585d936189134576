// Objects of every storage kind, layout and view kind, chosen by the explorer.
#ifndef KINDS_HH
#define KINDS_HH
#include "toon_env.hh"
namespace kinds {
using namespace TooN; using mc::Ctx; using std::string; using std::vector;
template<class V> using elem_t = std::remove_const_t<std::remove_reference_t<decltype(std::declval<V&>()[0])>>;
template<class M> using melem_t = std::remove_const_t<std::remove_reference_t<decltype(std::declval<M&>()(0, 0))>>;
template<class M> struct Dim; template<int R, int C, class P, class B> struct Dim<Matrix<R, C, P, B>> { static const int Rows = R, Cols = C; }; template<class M> struct Dim<const M> : Dim<M> {};
template<int A, int B> constexpr bool clash = A >= 0 && B >= 0 && A != B;
template<class A, class B> constexpr bool vclash = clash<std::remove_const_t<A>::SizeParameter, std::remove_const_t<B>::SizeParameter>;
// background storage around views, to be compared afterwards
template<class T> struct Store { vector<T> mem; Store(int n) : mem(n) { for (int i = 0; i < n; ++i) mem[i] = T(91 + i); } T* p() { return mem.data(); } };
// f(v, name): all kinds of vector with n elements of type T (contents: T())
enum { VK = 9 };
template<class T, int N, class F> void vec_kind(int k, int n, F f) {
	switch (k) {
	case 0: if constexpr (N >= 0) { Vector<N, T> v; f(v, string("static")); } break;
	case 1: { Vector<Dynamic, T> v(n); f(v, string("dynamic")); break; }
	case 2: { Vector<Resizable, T> v(n); f(v, string("resizable")); break; }
	case 3: { vector<T> s(n + 1); auto v = wrapVector(s.data(), n); f(v, string("wrapped")); break; }
	case 4: if constexpr (N >= 0) { Matrix<N, 2, T> m; auto v = m.T()[1]; f(v, string("static column")); } break;
	case 5: { Matrix<Dynamic, Dynamic, T, ColMajor> m(2, n); auto v = m[1]; f(v, string("dynamic strided row")); break; }
	case 6: { Vector<Dynamic, T> m(n + 2); auto v = m.slice(1, n); f(v, string("dynamic slice")); break; }
	case 7: if constexpr (N >= 0) { Vector<N + 2, T> m; auto v = m.template slice<1, N>(); f(v, string("static slice")); } break;
	case 8: if constexpr (N >= 0) { Matrix<N, N + 1, T> m; auto v = m.diagonal_slice(); f(v, string("diagonal slice")); } break;
	}
}
enum { MK = 12 };
template<class T, int R, int C, class F> void mat_kind(int k, int r, int c, F f) {
	switch (k) {
	case 0: if constexpr (R >= 0) { Matrix<R, C, T> m; f(m, string("static")); } break;
	case 1: if constexpr (R >= 0) { Matrix<R, C, T, ColMajor> m; f(m, string("static colmajor")); } break;
	case 2: { Matrix<Dynamic, Dynamic, T> m(r, c); f(m, string("dynamic")); break; }
	case 3: { Matrix<Dynamic, Dynamic, T, ColMajor> m(r, c); f(m, string("dynamic colmajor")); break; }
	case 4: if constexpr (R >= 0) { Matrix<R, Dynamic, T> m(r, c); f(m, string("static x dynamic")); } break;
	case 5: if constexpr (R >= 0) { Matrix<Dynamic, C, T, ColMajor> m(r, c); f(m, string("dynamic x static colmajor")); } break;
	case 6: if constexpr (R >= 0) { Matrix<R + 1, C + 2, T> m; auto v = m.template slice<1, 1, R, C>(); f(v, string("static slice")); } break;
	case 7: { Matrix<Dynamic, Dynamic, T, ColMajor> m(r + 2, c + 1); auto v = m.slice(1, 1, r, c); f(v, string("dynamic slice colmajor")); break; }
	case 8: if constexpr (R >= 0) { Matrix<C, R, T> m; auto v = m.T(); f(v, string("static transpose")); } break;
	case 9: { Matrix<Dynamic, Dynamic, T> m(c + 1, r + 1); auto v = m.slice(1, 1, c, r).T(); f(v, string("dynamic transposed slice")); break; }
	case 10: { vector<T> s(r * c + 1); auto v = wrapMatrix(s.data(), r, c); f(v, string("wrapped")); break; }
	case 11: if constexpr (R >= 0) { vector<T> s(r * c + 1); Matrix<R, C, T, Reference::ColMajor> v(s.data()); f(v, string("wrapped colmajor")); } break;
	}
}
} // namespace kinds
#endif
