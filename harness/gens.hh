// Families of small matrices enumerated by the explorer.
#ifndef GENS_HH
#define GENS_HH
#include "mc.hh"
#include "ref.hh"
namespace gens {
using mc::Ctx;
inline QM all(Ctx& c, int r, int q, const std::vector<double>& al, uint64_t& h) { QM m(r, q); for (auto& e : m.a) { int i = c.pick((int)al.size()); e = al[i]; h = mc::mix(h, i); } return m; }
inline QM sym(Ctx& c, int n, const std::vector<double>& al, uint64_t& h) { QM m(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int k = c.pick((int)al.size()); m(i, j) = m(j, i) = al[k]; h = mc::mix(h, k); } return m; }
inline std::vector<int> perm(Ctx& c, int n, uint64_t& h) { std::vector<int> l, p; for (int i = 0; i < n; ++i) l.push_back(i); while (!l.empty()) { int k = c.pick((int)l.size()); h = mc::mix(h, k); p.push_back(l[k]); l.erase(l.begin() + k); } return p; }
// permuted triangular matrix with distinct scales: every row exchange pattern is forced
inline QM permuted(Ctx& c, int n, int nsc, uint64_t& h) { auto p = perm(c, n, h); int s = c.pick(nsc); h = mc::mix(h, s + 77); QM m(n, n);
	for (int i = 0; i < n; ++i) { Q d = s == 0 ? Q(1) : s == 1 ? Q(i % 2 ? -2 : 3) : s == 2 ? Q(1) / (1 << (3 * i)) : Q(1 << (2 * i)); m(i, p[i]) = d; if (s) for (int j = 0; j < i; ++j) m(i, p[j]) = Q((i * 3 + j * 5) % 7 - 3) / 4 * d; } return m; }
inline Q dense_q(int i, int j, int seed) { int v = (i * 7 + j * 13 + seed * 5 + (i * j * 3) % 11 + (i * i + 2 * j * j + seed) % 5) % 19 - 9; return Q(v); }
inline QM dense(int r, int q, int seed) { QM m(r, q); for (int i = 0; i < r; ++i) for (int j = 0; j < q; ++j) m(i, j) = dense_q(i, j, seed) / 4; return m; }
}
#endif
