// C31: the same program under every documented option set (see c31_prog.cc); results must be identical.
#include "toon_env.hh"
#undef abort
#include "c31_api.hh"
#define VARIANTS(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16)
#define DECL(k) void c31_run_##k(c31::Ch&, std::vector<double>&, std::vector<std::string>&); void c31_fresh_##k(c31::Init&, int);
VARIANTS(DECL)
static void (*const run[])(c31::Ch&, std::vector<double>&, std::vector<std::string>&) = {
#define RUN(k) c31_run_##k,
VARIANTS(RUN) };
static void (*const fresh[])(c31::Init&, int) = {
#define FR(k) c31_fresh_##k,
VARIANTS(FR) };
static const char* const OPT[] = {"no options", "TOON_CHECK_BOUNDS", "TOON_NDEBUG", "NDEBUG", "TOON_INITIALIZE_QNAN", "TOON_INITIALIZE_SNAN and TOON_CHECK_BOUNDS", "TOON_INITIALIZE_VAL=7", "TOON_INITIALIZE_RANDOM", "TOON_NDEBUG_MISMATCH", "TOON_NDEBUG_SLICE", "TOON_NDEBUG_SIZE", "TOON_NDEBUG_FILL", "TOON_USE_LAPACK", "TOON_USE_LAPACK and TOON_DETERMINANT_LAPACK=-1", "TOON_DETERMINANT_LAPACK=2", "TOON_INITIALIZE_NAN and NDEBUG", "TOON_DEFAULT_PRECISION_TYPE=float"};
enum { NV = sizeof OPT / sizeof *OPT };
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
static void program(mc::Ctx& c, int g) { std::vector<double> base; std::vector<std::string> lab; c31::Ch ch{&c, g, {}, 0}; run[0](ch, base, lab); uint64_t h = g; for (int k : ch.made) h = mc::mix(h, k); c.state(h); c.step(NV); 
	for (int v = 1; v < NV; ++v) { std::vector<double> r; std::vector<std::string> l2; c31::Ch re{0, g, ch.made, 0}; c.note(OPT[v]); c.log(OPT[v]); try { run[v](re, r, l2); } catch (mc::LibAbort&) { c.fail(std::string("stops: ") + OPT[v], std::string("the program is stopped when built with ") + OPT[v]); } bool lap = v >= 12 && v <= 14; double scale = 1; c.checkf(r.size() == base.size(), std::string("results differ: ") + OPT[v], [&] { return std::string("different number of results with ") + OPT[v]; }); if (lap) for (double x : base) if (std::isfinite(x)) scale = std::max(scale, std::abs(x));
		for (size_t i = 0; i < r.size(); ++i) { bool ok = r[i] == base[i] || (std::isnan(r[i]) && std::isnan(base[i])) || (lap && lab[i].compare(0, 11, "determinant") == 0 && std::abs(r[i] - base[i]) <= (g == 9 ? 1e-4 : 1e-11) * std::max(scale, 1e3)); c.checkf(ok, std::string("results differ: ") + OPT[v], [&] { return lab[i] + " is " + num(r[i]) + " with " + OPT[v] + " and " + num(base[i]) + " with no options"; }); } } }
static void initial(mc::Ctx& c) { int t = c.pick(5), v = c.pick(6); static const int of[] = {4, 5, 6, 15, 7, 0}; int k = of[v]; c.step(); c.state(t * 10 + v); c31::Init f; fresh[k](f, t); if (v >= 4) return; for (size_t i = 0; i < f.v.size(); ++i) { bool ok = v == 2 ? f.v[i] == 7 : f.integral[i] ? f.v[i] == 0 : std::isnan(f.v[i]); c.checkf(ok, "initial contents", [&] { return std::string("an element of a new ") + f.name[i] + " object is " + num(f.v[i]) + " with " + OPT[k]; }); } }
extern "C" time_t time(time_t* t) { if (t) *t = 1234567; return 1234567; } // the seed of TOON_INITIALIZE_RANDOM
void mc_register() {
	static const char* gn[] = {"vectors double", "vectors int", "matrices 2x3", "matrices 3x3", "empty, large and special objects", "decompositions", "rectangular decompositions", "transformations", "estimation and minimisation", "decompositions float"};
	for (int g = 0; g < 10; ++g) mc::scenario(gn[g], [g](mc::Ctx& c) { program(c, g); }); mc::scenario("contents of new objects", initial);
}
MC_MAIN()
