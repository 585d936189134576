#ifndef C31_API_HH
#define C31_API_HH
#include "mc.hh"
namespace c31 {
// choices: taken from the explorer for the first variant, repeated for the others
struct Ch { mc::Ctx* c; int group; std::vector<int> made; size_t at; std::vector<int>* arity = 0; int pick(int n) { if (arity) { if (at == made.size()) { made.push_back(0); arity->push_back(n); } return made[at++]; } if (c) { int k = c->pick(n); made.push_back(k); return k; } if (at >= made.size() || made[at] >= n) { fprintf(stderr, "c31: variants ask for different choices\n"); _exit(89); } return made[at++]; } };
struct Init { std::vector<double> v; std::vector<const char*> name; std::vector<bool> integral; void add(const char* n, double x, bool i) { v.push_back(x); name.push_back(n); integral.push_back(i); } };
}
#endif
