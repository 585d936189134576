// C18: 2-D and 3-D rotations: exp/ln over complete grids of angles and axes, all words of products and inverses, actions on all
// vector and matrix kinds, construction from matrices and from two directions.
#include "toon_env.hh"
#include <TooN/TooN.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#undef abort
#include "lie.hh"
template<class P> Q eps_() { return precision<P>(); }
template<class P> void isrot(Cmp t, const QM& R, Q k) { t.mat("R R^T", R * R.T(), QM::id(R.r), k); t.num("det R", Elim(R).det, 1, k * 2); }
// rotation vector of a rotation matrix of angle th0 about unit n (0 <= th <= pi): the result w must exponentiate to R and have length th
template<class P> void lncheck(Cmp t, const QM& R, const QM& w, Q th, Q k) { t.mat("exp(ln(R))", rot3(w), R, k); t.c.checkf(nrm(w) <= PI + k, "length of ln", [&] { return t.nm + ": ln has length " + qs(nrm(w)); }); if (th >= 0) t.num("angle of ln", nrm(w), th, k); }
template<class P> void exp3(Ctx& c, const QM& w0, int kind = -1) { QM w = rnd<P>(w0); c.step(2); Cmp t{c, "SO3 of " + qms(w)}; Q e = eps_<P>(), th = nrm(w), k = e * 30 * qmax(1, th); QM R = rot3(w); Vector<3, P> v = vec<P, 3>(w); SO3<P> a(v), b = SO3<P>::exp(v); QM A = toQ(a.get_matrix()); t.mat("exp", A, R, k); t.mat("SO3(vector)", toQ(b.get_matrix()), A, 0); isrot<P>(t, A, k); Q m = th; while (m > 2 * PI) m -= 2 * PI; if (m > PI) m = 2 * PI - m; QM l = toQv(a.ln()); lncheck<P>(t, R, l, m, k * 2); if (th < PI - 1e-3Q) t.mat("ln(exp(w))", l, w, k * 2);
	t.mat("inverse of exp", toQ(a.inverse().get_matrix()), R.T(), k); if (kind >= 0) vec_kind<P, 3>(kind, 3, [&](auto& x, const string& n) { for (int i = 0; i < 3; ++i) x[i] = (P)(LD)w(i, 0); SO3<P> z = SO3<P>::exp(x); t.mat("exp(" + n + ")", toQ(z.get_matrix()), R, k); SO3<P> y(x); t.mat("SO3(" + n + ")", toQ(y.get_matrix()), R, k); }); }
template<class P> void exp2(Ctx& c, Q th0) { P th = (P)(LD)th0; c.step(2); Cmp t{c, "SO2 of " + qs(th)}; Q e = eps_<P>(), k = e * 30 * qmax(1, qabs(th)); QM R = rot2(th); SO2<P> a(th), b = SO2<P>::exp(th); t.mat("exp", toQ(a.get_matrix()), R, k); t.mat("SO2(angle)", toQ(b.get_matrix()), R, k); isrot<P>(t, toQ(a.get_matrix()), k); Q l = a.ln(); c.checkf(l <= PI + k && l >= -PI - k, "range of ln", [&] { return t.nm + ": ln is " + qs(l); }); t.mat("exp(ln)", rot2(l), R, k); if (qabs(th) < PI - 1e-3Q) t.num("ln(exp)", l, th, k); t.mat("inverse", toQ(a.inverse().get_matrix()), R.T(), k); }
// words: two live elements, every operation
static const int NE3 = 7; static QM elt3(int k) { switch (k) { case 0: return axis(0) * (PI / 2); case 1: return axis(11) * 1.0Q; case 2: return axis(12) * 3.1Q; case 3: return axis(9) * 1e-5Q; case 4: return axis(2) * PI; case 5: return axis(13) * 2.3Q; default: return axis(15) * 0.8Q; } }
template<class P> void words3(Ctx& c) { Q e = eps_<P>(); SO3<P> x, y(vec<P, 3>(elt3(1))); QM X = QM::id(3), Y = rot3(rnd<P>(elt3(1))); uint64_t h = 1; string w; for (int d = 0; d < c.depth; ++d) { int o = c.pick(9 + NE3); h = mc::mix(h, o); c.step(); w += " " + mc::str(o); c.logf("op %d", o); Q k = e * 30 * (d + 2); Cmp t{c, "word" + w};
		switch (o) { case 0: x = x * y; X = X * Y; break; case 1: x *= y; X = X * Y; break; case 2: x = x.inverse(); X = X.T(); break; case 3: { SO3<P> z = x; x = y; y = z; std::swap(X, Y); break; } case 4: x *= x; X = X * X; break; case 5: y = SO3<P>(x, y); Y = X * Y; break; case 6: y = x; Y = X; break; case 7: { x = SO3<P>::exp(x.ln()); break; } case 8: { Matrix<3, 3, P> m = x.get_matrix(); m *= 2; x = m; break; } default: { QM v = rnd<P>(elt3(o - 9)); x = SO3<P>::exp(vec<P, 3>(v)) * x; X = rot3(v) * X; } }
		t.mat("product", toQ(x.get_matrix()), X, k); t.mat("other element", toQ(y.get_matrix()), Y, k); isrot<P>(t, toQ(x.get_matrix()), k * 2); c.state(mc::mix(mc::mix(h, d), mc::hash_str(qms(rnd<float>(X))))); }
	Q k = e * 30 * (c.depth + 2) * 40; Cmp t{c, "word" + w}; lncheck<P>(t, X, toQv(x.ln()), -1, k / 20); for (int s = 0; s < 2; ++s) { QM p = point(3, s); Vector<3, P> v = vec<P, 3>(p); t.mat("R*v", toQv(x * v), X * p, k); t.mat("v*R", toQv(v * x), X.T() * p, k); t.mat("adjoint", toQv(x.adjoint(v)), X * p, k); t.mat("inverse*v", toQv(x.inverse() * v), X.T() * p, k); } Matrix<3, 2, P> m; QM M = gens::dense(3, 2, 1); fromQ(m, M); t.mat("R*M", toQ(x * m), X * M, k); t.mat("M*R", toQ(m.T() * x), M.T() * X, k); }
static Q elt2(int k) { static const Q t[] = {PI / 2, 1, -2.5Q, 1e-5Q, PI, 0.7Q}; return t[k]; }
template<class P> void words2(Ctx& c) { Q e = eps_<P>(); SO2<P> x, y((P)(LD)elt2(1)); QM X = QM::id(2), Y = rot2((P)(LD)elt2(1)); uint64_t h = 1; string w; for (int d = 0; d < c.depth; ++d) { int o = c.pick(8 + 6); h = mc::mix(h, o); c.step(); w += " " + mc::str(o); Q k = e * 30 * (d + 2); Cmp t{c, "word" + w};
		switch (o) { case 0: x = x * y; X = X * Y; break; case 1: x *= y; X = X * Y; break; case 2: x = x.inverse(); X = X.T(); break; case 3: { SO2<P> z = x; x = y; y = z; std::swap(X, Y); break; } case 4: x *= x; X = X * X; break; case 5: y = x * y * x; Y = X * Y * X; break; case 6: x = SO2<P>(x.ln()); break; case 7: { Matrix<2, 2, P> m = x.get_matrix(); m *= 3; x = m; break; } default: { P v = (P)(LD)elt2(o - 8); x = SO2<P>::exp(v) * x; X = rot2(v) * X; } }
		t.mat("product", toQ(x.get_matrix()), X, k); t.mat("other element", toQ(y.get_matrix()), Y, k); isrot<P>(t, toQ(x.get_matrix()), k * 2); c.state(mc::mix(mc::mix(h, d), mc::hash_str(qms(rnd<float>(X))))); }
	Q k = e * 30 * (c.depth + 2) * 20; Cmp t{c, "word" + w}; t.mat("exp(ln)", rot2(x.ln()), X, k); for (int s = 0; s < 2; ++s) { QM p = point(2, s); Vector<2, P> v = vec<P, 2>(p); t.mat("R*v", toQv(x * v), X * p, k); t.mat("v*R", toQv(v * x), X.T() * p, k); t.mat("inverse*v", toQv(x.inverse() * v), X.T() * p, k); } Matrix<2, 3, P> m; QM M = gens::dense(2, 3, 1); fromQ(m, M); t.mat("R*M", toQ(x * m), X * M, k); t.mat("M*R", toQ(m.T() * x), M.T() * X, k); }
// actions on every storage kind, either side
template<class P, int N, class G> void act(Ctx& c, const G& g, const QM& X) { Q k = eps_<P>() * 1000; int vk = c.pick(VK + 2 * MK); Cmp t{c, ""}; c.step(2); if (vk < VK) vec_kind<P, N>(vk, N, [&](auto& v, const string& n) { t.nm = n; for (int s = 0; s < 3; ++s) { QM p = point(N, s); for (int i = 0; i < N; ++i) v[i] = (P)(LD)p(i, 0); t.mat("R*v", toQv(g * v), X * p, k); t.mat("v*R", toQv(v * g), X.T() * p, k); for (int i = 0; i < N; ++i) c.check(Q(v[i]) == Q((P)(LD)p(i, 0)), "operand changed"); } });
	else if (vk < VK + MK) mat_kind<P, N, 4>(vk - VK, N, 4, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(N, 4, 2); fromQ(m, M); t.mat("R*M", toQ(g * m), X * M, k); }); else mat_kind<P, 4, N>(vk - VK - MK, 4, N, [&](auto& m, const string& n) { t.nm = n; QM M = gens::dense(4, N, 3); fromQ(m, M); t.mat("M*R", toQ(m * g), M * X, k); }); }
// construction from a matrix: rows orthonormalised in order
static QM gs(QM m) { for (int i = 0; i < m.r; ++i) { for (int p = 0; p < 2; ++p) for (int j = 0; j < i; ++j) { Q d = 0; for (int k = 0; k < m.c; ++k) d += m(i, k) * m(j, k); for (int k = 0; k < m.c; ++k) m(i, k) -= d * m(j, k); } Q n = 0; for (int k = 0; k < m.c; ++k) n += m(i, k) * m(i, k); n = qsqrt(n); for (int k = 0; k < m.c; ++k) m(i, k) /= n; } return m; }
template<class P, int N, class G> void fromm(Ctx& c, const QM& R0) { int f = c.pick(8), k = c.pick(MK), how = c.pick(3); QM M = R0; c.step(); c.state(mc::mix(mc::hash_str(qms(rnd<float>(R0))), f * 100 + k * 4 + how)); if (f == 1) M = M * 5.Q; if (f == 2) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) M(i, j) *= (i + 1); if (f == 3 || f == 4) { QM E = gens::dense(N, N, f) * (f == 3 ? 0.01Q : 1e-7Q); M = M + E; } if (f == 5) { QM U = QM::id(N); for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) U(i, j) = 2 * i - 3 * j; M = U * M; } if (f == 6) M = M * 1e-9Q; if (f == 7) { QM U = QM::id(N); U(0, N - 1) = 0.75Q; M = M * U; } M = rnd<P>(M); QM W = gs(M);
	mat_kind<P, N, N>(k, N, N, [&](auto& m, const string& n) { typedef std::remove_reference_t<decltype(m)> X; fromQ(m, M); Cmp t{c, n + " " + qms(M)}; Q tol = eps_<P>() * 2000; G g; if (how == 0) { g = G(m); } else if (how == 1) g = m; else { G z; z = m; g = z; g.coerce(); } t.mat("construction from a matrix", toQ(g.get_matrix()), W, tol); isrot<P>(t, toQ(g.get_matrix()), eps_<P>() * 100); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.check(Q(m(i, j)) == M(i, j), "input modified"); }); }
template<class P> void two(Ctx& c) { int i = c.pick(AXES), j = c.pick(AXES + 10); static const Q sc[] = {1, 3, 1e-3Q, 200, 1e-30Q, 1e20Q}; bool f = sizeof(P) == 4; int s1 = c.pick(f ? 4 : 6), s2 = c.pick(f ? 2 : 3) * 2 % (f ? 4 : 6); QM a = axis(i) * sc[s1], b; if (j < AXES) b = axis(j) * sc[s2]; else { int p = j - AXES; Q d[] = {1e-3Q, 1e-6Q, 1e-9Q, 1e-13Q, 1e-16Q}; QM o = axis((i + 7) % AXES); b = axis(i) * (p % 2 ? 1 : 1) + o * d[p / 2] * Q(p % 2 ? -1 : 1); b = b * sc[s2]; } a = rnd<P>(a); b = rnd<P>(b); c.step(); c.state(((i * 40 + j) * 7 + s1) * 7 + s2 + (f ? 1000000 : 0));
	Vector<3, P> va = vec<P, 3>(a), vb = vec<P, 3>(b); QM ua = a * (1 / nrm(a)), ub = b * (1 / nrm(b)); Q cs = dot(ua, ub); if (cs < -1 + 1e-3Q) { c.outcome("opposite"); return; } c.outcome(cs > 1 - 1e-12Q ? "parallel" : "general"); SO3<P> r(va, vb); Cmp t{c, "SO3(" + qms(a) + "," + qms(b) + ")"}; QM R = toQ(r.get_matrix()); Q k = eps_<P>() * 100; isrot<P>(t, R, k); t.mat("R*a", R * ua, ub, k); QM n = col({ua(1, 0) * ub(2, 0) - ua(2, 0) * ub(1, 0), ua(2, 0) * ub(0, 0) - ua(0, 0) * ub(2, 0), ua(0, 0) * ub(1, 0) - ua(1, 0) * ub(0, 0)}); QM l = toQv(r.ln()); t.num("angle", nrm(l), [&] { Q s = nrm(n); return Q(atan2l((LD)s, (LD)cs)); }(), k); }
void mc_register() {
#if PART == 1
	mc::scenario("SO3 exp and ln", [](Ctx& c) { int i = c.pick(angles().size() + big().size()), a = c.pick(AXES), n = c.pick(2); Q th = i < (int)angles().size() ? angles()[i] : big()[i - angles().size()]; c.state((i * AXES + a) * 2 + n); c.logf("angle %s axis %d", qs(th).c_str(), a); exp3<double>(c, axis(a) * th * Q(n ? -1 : 1)); }); mc::scenario("SO3 exp and ln, fine angles", [](Ctx& c) { int i = c.pick(c.depth + 1), a = c.pick(AXES); c.state(i * AXES + a + 100000); exp3<double>(c, axis(a) * (Q(i) / c.depth * 6.3Q)); }, 400, 6000);
	mc::scenario("SO3 exp and ln, decades", [](Ctx& c) { int i = c.pick(c.depth + 1), a = c.pick(AXES), z = c.pick(2); c.state(mc::mix(i * AXES + a + 200000, z)); Q d = 1; for (int k = 0; k < i; ++k) d *= c.depth > 300 ? 0.9Q : 0.75Q; exp3<double>(c, axis(a) * (z ? PI - d : d)); }, 120, 400);
#elif PART == 2
	mc::scenario("float SO3 exp and ln", [](Ctx& c) { int i = c.pick(angles().size() + big().size()), a = c.pick(AXES); Q th = i < (int)angles().size() ? angles()[i] : big()[i - angles().size()]; c.state((i * AXES + a)); exp3<float>(c, axis(a) * th); }); mc::scenario("SO3 exp, kinds", [](Ctx& c) { int i = c.pick(angles().size()), a = c.pick(AXES), k = c.pick(VK); c.state((i * AXES + a) * VK + k + 10000); exp3<double>(c, axis(a) * angles()[i], k); });
	mc::scenario("SO2 exp and ln", [](Ctx& c) { int i = c.pick(angles().size() + big().size()), n = c.pick(2); Q th = i < (int)angles().size() ? angles()[i] : big()[i - angles().size()]; c.state(i * 2 + n + 500000); exp2<double>(c, n ? -th : th); exp2<float>(c, n ? -th : th); });
#elif PART == 3
	mc::scenario("words of SO3", words3<double>, 4, 5);
#elif PART == 4
	mc::scenario("words of SO2", words2<double>, 4, 5); mc::scenario("float words of SO2", words2<float>, 3, 4); mc::scenario("float words of SO3", words3<float>, 3, 4);
#elif PART == 5
	mc::scenario("actions", [](Ctx& c) { int i = c.pick(NE3); c.state(i); SO3<> g(vec<double, 3>(elt3(i))); act<double, 3>(c, g, rot3(rnd<double>(elt3(i)))); }); mc::scenario("SO2 actions", [](Ctx& c) { int i = c.pick(6); SO2<> g((double)elt2(i)); c.state(i); act<double, 2>(c, g, rot2((double)elt2(i))); });
#elif PART == 6
	mc::scenario("SO3 from matrices", [](Ctx& c) { fromm<double, 3, SO3<>>(c, rot3(elt3(c.pick(NE3)))); }); mc::scenario("SO2 from matrices", [](Ctx& c) { int f = c.pick(8), i = c.pick(6); QM M = rot2(elt2(i)); if (f == 1) M = M * 5.Q; if (f == 2) for (int j = 0; j < 2; ++j) M(1, j) *= 3; if (f == 3) M = M + gens::dense(2, 2, 3) * 0.01Q; if (f == 4) for (int j = 0; j < 2; ++j) M(1, j) += M(0, j) * 7; if (f == 5) M = M * 1e-9Q; if (f == 6) M(0, 1) += 1e-7Q; if (f == 7) { QM U = QM::id(2); U(0, 1) = 0.6Q; M = M * U; } c.step(); c.state(f * 6 + i); M = rnd<double>(M); Matrix<2> m; fromQ(m, M); QM W = gs(M); Cmp t{c, qms(M)}; SO2<> a(m), b; b = m; Matrix<> dm(m); SO2<> d; d = dm; t.mat("SO2(matrix)", toQ(a.get_matrix()), W, 1e-13Q); t.mat("SO2 = matrix", toQ(b.get_matrix()), W, 1e-13Q); t.mat("SO2 = run-time matrix", toQ(d.get_matrix()), W, 1e-13Q); isrot<double>(t, toQ(a.get_matrix()), 1e-14Q); });
	mc::scenario("float SO3 from matrices", [](Ctx& c) { fromm<float, 3, SO3<float>>(c, rot3(elt3(c.pick(NE3)))); });
#elif PART == 7
	mc::scenario("two directions", two<double>); mc::scenario("float two directions", two<float>);
#elif PART == 8
	mc::scenario("long double SO3 exp and ln", [](Ctx& c) { int i = c.pick(angles().size() + big().size()), a = c.pick(AXES); Q th = i < (int)angles().size() ? angles()[i] : big()[i - angles().size()]; c.state((i * AXES + a)); exp3<LD>(c, axis(a) * th); }); mc::scenario("long double SO2 exp and ln", [](Ctx& c) { int i = c.pick(angles().size() + big().size()), n = c.pick(2); Q th = i < (int)angles().size() ? angles()[i] : big()[i - angles().size()]; c.state(i * 2 + n + 500000); exp2<LD>(c, n ? -th : th); });
	mc::scenario("long double words of SO3", words3<LD>, 3, 4); mc::scenario("long double words of SO2", words2<LD>, 3, 4); mc::scenario("long double SO3 from matrices", [](Ctx& c) { fromm<LD, 3, SO3<LD>>(c, rot3(elt3(c.pick(NE3)))); }); mc::scenario("long double two directions", two<LD>);
#endif
}
MC_MAIN()
