// C20: similarities of the plane and of space against homogeneous matrices.
#include "groups.hh"
void mc_register() {
#if PART == 1
	mc::scenario("SIM3 exp and ln", grid_sim<SIM3<>>, 1, 2);
#elif PART == 2
	mc::scenario("SIM2 exp and ln", grid_sim<SIM2<>>, 1, 2); mc::scenario("SIM2 exp and ln, decades", fine<SIM2<>>, 110, 400); mc::scenario("SIM3 exp and ln, decades", fine<SIM3<>>, 110, 400);
#elif PART == 3
	mc::scenario("SIM3 words", words<SIM3<>>, 3, 5);
#elif PART == 4
	mc::scenario("SIM3 actions", act<SIM3<>>); mc::scenario("SIM2 actions", act<SIM2<>>);
#elif PART == 5
	mc::scenario("SIM3 parts", construct<SIM3<>>); mc::scenario("SIM2 parts", construct<SIM2<>>); mc::scenario("SIM3 kinds", kinds_<SIM3<>>); mc::scenario("SIM2 kinds", kinds_<SIM2<>>); mc::scenario("SIM2 words", words<SIM2<>>, 4, 5);
#elif PART == 6
	mc::scenario("float SIM3 exp and ln", grid_sim<SIM3<float>>, 1, 2); mc::scenario("float SIM2 exp and ln", grid_sim<SIM2<float>>, 1, 2); mc::scenario("float SIM3 words", words<SIM3<float>>, 3, 4); mc::scenario("float SIM2 words", words<SIM2<float>>, 3, 4);
#elif PART == 7
	mc::scenario("float SIM3 actions", act<SIM3<float>>); mc::scenario("float SIM2 actions", act<SIM2<float>>); mc::scenario("float SIM3 parts", construct<SIM3<float>>); mc::scenario("float SIM2 parts", construct<SIM2<float>>);
#elif PART == 8
	mc::scenario("long double SIM3 exp and ln", grid_sim<SIM3<LD>>, 1, 2); mc::scenario("long double SIM2 exp and ln", grid_sim<SIM2<LD>>, 1, 2); mc::scenario("long double SIM3 words", words<SIM3<LD>>, 3, 4); mc::scenario("long double SIM2 words", words<SIM2<LD>>, 3, 4); mc::scenario("long double SIM3 actions", act<SIM3<LD>>); mc::scenario("long double SIM3 parts", construct<SIM3<LD>>);
#endif
}
MC_MAIN()
