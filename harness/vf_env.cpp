// Link-time replacements (-Wl,--wrap) for the sources of nondeterminism.
#include "vf_env.h"
#include "vf.h"
#include <ctime>
namespace vf_env {
static vf::Rng g_rng(12345);
static int64_t g_time = 1600000000;
void reset(uint64_t seed) { g_rng = vf::Rng(seed); g_time = 1600000000; }
void setTime(int64_t t) { g_time = t; }
int64_t getTime() { return g_time; }
void seedRandom(uint64_t s) { g_rng = vf::Rng(s); }
}
extern "C" {
time_t __wrap_time(time_t* t) { time_t v = (time_t)vf_env::g_time; if (t) *t = v; return v; }
void __wrap_generate_random_bytes(size_t n, void* p) { vf_env::g_rng.fill(p, n); }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)vf_env::g_rng.next(); }
}
