// Rigid motions and similarities of the plane and of space: one set of scenarios for SE2, SE3, SIM2 and SIM3.
#ifndef GROUPS_HH
#define GROUPS_HH
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#undef abort
#include "lie.hh"
namespace groups {
template<class G> struct Tr;
template<class P> struct Tr<SE2<P>> { typedef P T; typedef SO2<P> R; enum { D = 2, K = 3, SC = 0 }; static const char* name() { return "SE2"; } };
template<class P> struct Tr<SE3<P>> { typedef P T; typedef SO3<P> R; enum { D = 3, K = 6, SC = 0 }; static const char* name() { return "SE3"; } };
template<class P> struct Tr<SIM2<P>> { typedef P T; typedef SO2<P> R; enum { D = 2, K = 4, SC = 1 }; static const char* name() { return "SIM2"; } };
template<class P> struct Tr<SIM3<P>> { typedef P T; typedef SO3<P> R; enum { D = 3, K = 7, SC = 1 }; static const char* name() { return "SIM3"; } };
template<class G> QM hom(const G& g) { enum { D = Tr<G>::D }; QM m = QM::id(D + 1); Q s = 1; if constexpr (Tr<G>::SC) s = g.get_scale(); for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) m(i, j) = s * g.get_rotation().get_matrix()(i, j); m(i, D) = g.get_translation()[i]; } return m; }
// tangent vector: rotation of angle th about axis a, translation form tf, log-scale s
static const int TFS = 6; static const int AX3 = 6;
template<class G> QM tangent(Q th, int a, int tf, Q s) { enum { D = Tr<G>::D, K = Tr<G>::K }; static const int ax[] = {0, 2, 11, 12, 13, 15}; QM v(K, 1), n(D, 1); if (D == 3) n = axis(ax[a]); else { n(0, 0) = 1; } static const double g[] = {1, -2, 0.5};
	for (int i = 0; i < D; ++i) v(i, 0) = tf == 0 ? 0 : tf == 1 ? Q(g[i]) : tf == 2 ? n(i, 0) : tf == 3 ? Q(g[i]) * 1e6Q : tf == 4 ? Q(g[i]) * 1e-6Q : Q(i == 1 ? 1 : 0); if (D == 3) for (int i = 0; i < 3; ++i) v(3 + i, 0) = n(i, 0) * th; else v(2, 0) = a ? -th : th; if (Tr<G>::SC) v(K - 1, 0) = s; return v; }
template<class G> Q eps() { return precision<typename Tr<G>::T>(); }
template<class G> QM tpart(const QM& v) { QM t(Tr<G>::D, 1); for (int i = 0; i < Tr<G>::D; ++i) t(i, 0) = v(i, 0); return t; }
template<class G> Q scale_of(const QM& v) { return Tr<G>::SC ? qexpm(col({v(Tr<G>::K - 1, 0)}))(0, 0) : Q(1); }
template<class G> QM rpart(const QM& v) { enum { D = Tr<G>::D }; QM t(D == 3 ? 3 : 1, 1); for (int i = 0; i < t.r; ++i) t(i, 0) = v(D + i, 0); return t; }
// compares a group element with a homogeneous matrix: rotation part to tr (relative to the scale), translation to tt
template<class G> void cmp(Cmp t, const string& f, const QM& X, const QM& w, Q tr, Q tt) { enum { D = Tr<G>::D }; for (int i = 0; i < D; ++i) for (int j = 0; j <= D; ++j) t.c.checkf(qabs(X(i, j) - w(i, j)) <= (j < D ? tr : tt), f, [&] { return f + " (" + t.nm + ") is " + qms(X) + ", expected " + qms(w) + " to " + qs(j < D ? tr : tt); }); }
// ln of an element whose homogeneous matrix is X (tolerances relative)
template<class G> void lncheck(Cmp t, const G& g, const QM& X, Q k) { Vector<Tr<G>::K, typename Tr<G>::T> l = g.ln(), l2 = G::ln(g); QM v = toQv(l); t.mat("static ln", toQv(l2), v, 0); Q s = scale_of<G>(v); QM tr(Tr<G>::D, 1); for (int i = 0; i < tr.r; ++i) tr(i, 0) = X(i, tr.r); t.c.checkf(nrm(rpart<G>(v)) <= PI + k, "angle of ln", [&] { return t.nm + ": ln " + qms(v); }); cmp<G>(t, "exp(ln(g))", qexpm(alg(Tr<G>::D, v)), X, k * s, k * qmax(nrm(tr), nrm(tpart<G>(v)))); }
template<class G> Q lntol() { return sizeof(typename Tr<G>::T) == 4 ? eps<G>() * 400 : Q(1e-11); }
template<class G> void expln(Ctx& c, const QM& v0, int kind = -1) { typedef typename Tr<G>::T P; enum { D = Tr<G>::D, K = Tr<G>::K }; QM v = rnd<P>(v0); c.step(2); Cmp t{c, string(Tr<G>::name()) + " of " + qms(v)}; QM W = qexpm(alg(D, v)); Q th = nrm(rpart<G>(v)), s = scale_of<G>(v), u = nrm(tpart<G>(v)), e = eps<G>(), f = Q(sizeof(P) == 4 ? 1e4 : 3e3) * qmax(1, th) * e, tr = 30 * qmax(1, th) * e * s, tt = f * u * qmax(1, s); Vector<K, P> x = vec<P, K>(v);
	if (kind < 0) { G g(x), h = G::exp(x); QM X = hom(g); cmp<G>(t, "exp", X, W, tr, tt); cmp<G>(t, "construction from a vector", hom(h), X, 0, 0); lncheck<G>(t, g, X, lntol<G>()); if (th < PI - 1e-3Q) { QM l = toQv(g.ln()); Q is = qmax(1, 1 / s); t.mat("rotation of ln(exp)", rpart<G>(l), rpart<G>(v), 60 * e); if (Tr<G>::SC) t.num("log-scale of ln(exp)", l(K - 1, 0), v(K - 1, 0), 60 * e * qmax(1, qabs(v(K - 1, 0)))); t.mat("translation of ln(exp)", tpart<G>(l), tpart<G>(v), lntol<G>() * 3 * u * is * qmax(1, s)); } cmp<G>(t, "inverse", hom(g.inverse()), qexpm(alg(D, v * -1)), 60 * qmax(1, th) * e / s, (f * u) * qmax(1, 1 / s)); }
	else vec_kind<P, K>(kind, K, [&](auto& y, const string& n) { for (int i = 0; i < K; ++i) y[i] = x[i]; t.nm = n + " " + t.nm; G g = G::exp(y); cmp<G>(t, "exp of kind", hom(g), W, tr, tt); G h(y); cmp<G>(t, "construction of kind", hom(h), W, tr, tt); for (int i = 0; i < K; ++i) c.check(Q(y[i]) == Q(x[i]), "argument changed"); }); }
// words: two live elements, every operation, error bounds propagated
static const int NE = 6;
template<class G> QM elt(int k) { static const double th[] = {1.5707963267948966, 0, -2.8, 1e-5, 3.0, 0.7}, s[] = {0, 0.6, -0.4, 0, 1e-7, 0.25}; static const int tf[] = {1, 5, 2, 1, 0, 5}; return rnd<typename Tr<G>::T>(tangent<G>(th[k], Tr<G>::D == 2 ? 0 : k, tf[k], s[k])); }
template<class G> void words(Ctx& c) { typedef typename Tr<G>::T P; typedef typename Tr<G>::R R; enum { D = Tr<G>::D, K = Tr<G>::K }; Q e = eps<G>() * 60, ex = e, ey = e; static QM H[NE]; static G* E[NE]; if (!E[0]) for (int i = 0; i < NE; ++i) { H[i] = qexpm(alg(D, elt<G>(i))); E[i] = new G(vec<P, K>(elt<G>(i))); }
	G x, y(*E[5]); QM X = QM::id(D + 1), Y = H[5]; ey = eps<G>() * 300; uint64_t h = 7; string w; auto mul = [&](const QM& A, Q ea, const QM& B, Q eb) { return A.fro() * eb + B.fro() * ea + e * A.fro() * B.fro(); };
	for (int d = 0; d < c.depth; ++d) { int o = c.pick(12 + NE); h = mc::mix(h, o); c.step(); w += " " + mc::str(o); c.logf("op %d", o); Cmp t{c, "word" + w};
		switch (o) { case 0: ex = mul(X, ex, Y, ey); x = x * y; X = X * Y; break; case 1: ex = mul(X, ex, Y, ey); x *= y; X = X * Y; break; case 2: { QM V = Elim(X).inv; ex = V.fro() * V.fro() * ex + e * V.fro(); x = x.inverse(); X = V; break; } case 3: { G z = x; x = y; y = z; std::swap(X, Y); std::swap(ex, ey); break; } case 4: ex = mul(X, ex, X, ex); x *= x; X = X * X; break;
		case 5: if constexpr (D == 3) { ex = mul(X, ex, Y, ey); x.left_multiply_by(y); } else { ex = mul(X, ex, Y, ey); x = y * x; } X = Y * X; break; case 6: if constexpr (D == 3) { ex = mul(X, ex, X, ex); x.left_multiply_by(x); } else { ex = mul(X, ex, X, ex); x = x * x; } X = X * X; break;
		case 7: { if constexpr (!Tr<G>::SC) { ex = ex * 2 + e * X.fro(); QM r = X; R q = y.get_rotation(); x = q * x; QM Z = QM::id(D + 1); for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) Z(i, j) = Y(i, j); ex = mul(Z, ey, r, ex); X = Z * r; } else if constexpr (D == 3) { SE3<P> m(y.get_rotation(), y.get_translation()); Q s = 0; for (int j = 0; j < D; ++j) s += Y(0, j) * Y(0, j); s = qsqrt(s); QM Z = Y; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) Z(i, j) /= s; ex = mul(X, ex, Z, ey / s + ey + e); x = x * m; X = X * Z; } else { ex += e; } break; }
		case 8: { Q s = 1; if (Tr<G>::SC) s = qsqrt(X(0, 0) * X(0, 0) + X(0, 1) * X(0, 1) + (D == 3 ? X(0, 2) * X(0, 2) : 0)); ex = (ex + e * X.fro() + lntol<G>() * X.fro() * 4); x = G::exp(x.ln()); break; } case 9: y = x; Y = X; ey = ex; break; case 10: { Vector<D, P> tr = x.get_translation(); for (int i = 0; i < D; ++i) tr[i] = tr[i] * 2 + 1; y.get_translation() = tr; for (int i = 0; i < D; ++i) Y(i, D) = X(i, D) * 2 + 1; ey = ey + ex * 2 + e * X.fro(); break; } case 11: { if constexpr (Tr<G>::SC) y = G(y.get_rotation(), x.get_translation(), y.get_scale()); else y = G(y.get_rotation(), x.get_translation()); for (int i = 0; i < D; ++i) Y(i, D) = X(i, D); ey += ex; break; }
		default: ex = mul(H[o - 12], eps<G>() * 300, X, ex); x = *E[o - 12] * x; X = H[o - 12] * X; }
		if (ex > 1e-3Q || X.fro() > 1e6Q || Elim(X).inv.fro() > 1e6Q) throw mc::Prune(); t.mat("product", hom(x), X, ex); t.mat("other element", hom(y), Y, ey); c.state(mc::mix(mc::mix(h, d), mc::hash_str(qms(rnd<float>(X))))); }
	Cmp t{c, "word" + w}; lncheck<G>(t, x, hom(x), lntol<G>() * 10); }
// actions on points, homogeneous points and matrices of every storage kind, either side
template<class G> void act(Ctx& c) { typedef typename Tr<G>::T P; enum { D = Tr<G>::D, K = Tr<G>::K, N = D + 1 }; int i = c.pick(NE), f = c.pick(2 * VK + 2 * MK); G g(vec<P, K>(elt<G>(i))); QM X = hom(g); c.step(2); c.state(i * 1000 + f); Q k = eps<G>() * 3000; Cmp t{c, ""};
	if (f < VK) vec_kind<P, N>(f, N, [&](auto& v, const string& n) { t.nm = n; for (int s = 0; s < 4; ++s) { QM p = point(N, s); if (s == 0) p(D, 0) = 1; if (s == 1) p(D, 0) = 0; for (int i = 0; i < N; ++i) v[i] = (P)(LD)p(i, 0); t.mat("g*v", toQv(g * v), X * p, k); t.mat("v*g", toQv(v * g), X.T() * p, k); Vector<N, P> z = g * v; z = v * g; t.mat("assigned v*g", toQv(z), X.T() * p, k); v = g * v; t.mat("v = g*v", toQv(v), X * p, k); } });
	else if (f < 2 * VK) vec_kind<P, D>(f - VK, D, [&](auto& v, const string& n) { if constexpr (std::remove_reference_t<decltype(v)>::SizeParameter == D) { t.nm = n; for (int s = 0; s < 4; ++s) { QM p = point(D, s), q(N, 1); for (int i = 0; i < D; ++i) { v[i] = (P)(LD)p(i, 0); q(i, 0) = p(i, 0); } q(D, 0) = 1; QM r = X * q, w(D, 1); for (int i = 0; i < D; ++i) w(i, 0) = r(i, 0); t.mat("g*point", toQv(g * v), w, k); v = g * v; t.mat("v = g*point", toQv(v), w, k); } } });
	else if (f < 2 * VK + MK) mat_kind<P, N, 2>(f - 2 * VK, N, 2, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(N, 2, 2); fromQ(m, M); t.mat("g*M", toQ(g * m), X * M, k * 10); }); else mat_kind<P, 2, N>(f - 2 * VK - MK, 2, N, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(2, N, 3); fromQ(m, M); t.mat("M*g", toQ(m * g), M * X, k * 10); }); }
// construction from parts and accessors
template<class G> void construct(Ctx& c) { typedef typename Tr<G>::T P; typedef typename Tr<G>::R R; enum { D = Tr<G>::D, K = Tr<G>::K }; int i = c.pick(NE), k = c.pick(VK), a = c.pick(4); c.step(); c.state((i * VK + k) * 4 + a + 5000); G g0(vec<P, K>(elt<G>(i))); QM H = hom(g0); QM p = point(D, a); Cmp t{c, ""}; P sc = P(a == 3 ? 0.125 : 2.5); Q s = 1; if (Tr<G>::SC) { s = 0; if constexpr (Tr<G>::SC) s = Q(sc) / Q(g0.get_scale()); } QM W = H; for (int i = 0; i < D; ++i) { for (int j = 0; j < D; ++j) W(i, j) *= s; W(i, D) = p(i, 0); }
	t.mat("default", hom(G()), QM::id(D + 1), 0); vec_kind<P, D>(k, D, [&](auto& v, const string& n) { typedef std::remove_reference_t<decltype(v)> V; t.nm = n; for (int i = 0; i < D; ++i) v[i] = (P)(LD)p(i, 0); if constexpr (D == 3 || V::SizeParameter == D) { if constexpr (Tr<G>::SC) { G g(g0.get_rotation(), v, sc); t.mat("construction from parts", hom(g), W, eps<G>() * 20); } else { G g(g0.get_rotation(), v); t.mat("construction from parts", hom(g), W, 0); if constexpr (D == 3) { G h(Identity, v); QM I = QM::id(4); for (int i = 0; i < 3; ++i) I(i, 3) = p(i, 0); t.mat("construction from identity and translation", hom(h), I, 0); } } }
		G g; g.get_rotation() = g0.get_rotation(); g.get_translation() = v; if constexpr (Tr<G>::SC) g.get_scale() = sc; t.mat("set by parts", hom(g), W, eps<G>() * 20); const G& cg = g; t.mat("get_translation", toQv(cg.get_translation()), p, 0); t.mat("get_rotation", toQ(cg.get_rotation().get_matrix()), toQ(g0.get_rotation().get_matrix()), 0); if constexpr (Tr<G>::SC) c.check(cg.get_scale() == sc, "get_scale"); if constexpr (Tr<G>::SC && D == 3) { g = Identity; t.mat("= Identity", hom(g), QM::id(4), 0); } }); }
template<class G> void grid_angles(Ctx& c) { int n = angles().size(), i = c.pick(n + big().size()), a = c.pick(Tr<G>::D == 2 ? 2 : AX3), tf = c.pick(TFS); c.state((i * AX3 + a) * TFS + tf); expln<G>(c, tangent<G>(i < n ? angles()[i] : big()[i - n], a, tf, 0.Q)); }
inline const std::vector<Q>& logscales() { static std::vector<Q> a; if (a.empty()) for (Q x : {0.Q, 1e-300Q, 1e-160Q, 1e-20Q, 1e-9Q, 0.99e-6Q, 1.01e-6Q, 1e-5Q, 1e-4Q, 1e-3Q, 0.01Q, 0.1Q, 0.5Q, 1.Q, 3.Q, 9.Q}) { a.push_back(x); if (x > 0) a.push_back(-x); } return a; }
template<class G> void grid_sim(Ctx& c) { int n = angles().size(), i = c.pick(n + big().size()), s = c.pick(logscales().size()), a = c.pick(Tr<G>::D == 2 ? 2 : 3), tf = c.pick(c.depth > 1 ? TFS : 3); c.state(((i * 100 + s) * AX3 + a) * TFS + tf); expln<G>(c, tangent<G>(i < n ? angles()[i] : big()[i - n], a * 2 % (Tr<G>::D == 2 ? 3 : 6), tf, logscales()[s])); }
template<class G> void fine(Ctx& c) { int n = c.depth, i = c.pick(n + 1), z = c.pick(Tr<G>::SC ? 4 : 2), a = c.pick(2); c.state(((i * 4 + z) * 2 + a) + 900000); Q d = 1; for (int k = 0; k < i; ++k) d *= n > 300 ? 0.93Q : 0.77Q; Q th = z == 0 ? d : z == 1 ? PI - d : z == 2 ? d : 0.3Q, s = z == 2 ? d * 0.7Q : z == 3 ? -d : 0; expln<G>(c, tangent<G>(th, a, 1, s)); }
template<class G> void kinds_(Ctx& c) { int i = c.pick(NE), k = c.pick(VK); c.state(i * VK + k + 700000); expln<G>(c, elt<G>(i), k); }
template<class G> void all(const string& p) { }
} using namespace groups;
#endif
