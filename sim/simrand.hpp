// Force-included into every translation unit of the code under test:
// the standard engines draw from the simulator.
#include <random>
extern "C" uint32_t sim_random32(void);
template <> inline std::mt19937::result_type std::mt19937::operator()() { return sim_random32(); }
template <> inline std::mt19937_64::result_type std::mt19937_64::operator()()
{ return ((uint64_t)sim_random32() << 32) | sim_random32(); }
template <> inline std::minstd_rand::result_type std::minstd_rand::operator()()
{ return 1 + sim_random32() % 2147483646u; }
