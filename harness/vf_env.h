#pragma once
#include <cstdint>
namespace vf_env {
void reset(uint64_t seed);       // called by the engine before every case
void setTime(int64_t t);         // the clock seen by code under test
int64_t getTime();
void seedRandom(uint64_t s);
}
