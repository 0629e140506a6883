// Property engine: recorded choice sequences, generic shrinking, deterministic replay.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace vf {

struct Failure {
  std::string tag;
  std::string msg;
};
struct Discard {};

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char* tag, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void discard() { throw Discard(); }

class Gen {
 public:
  // --- choices ---
  uint64_t draw(uint64_t n);            // [0,n); n==0: full 64 bit. 0 is the simplest value
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }  // inclusive
  bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }   // shrinks to false
  bool flip() { return draw(2) == 1; }
  size_t weighted(std::initializer_list<uint32_t> w) { return weightedv(std::vector<uint32_t>(w)); }
  size_t weightedv(const std::vector<uint32_t>& w);
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T> T oneof(std::initializer_list<T> v) { std::vector<T> x(v); return x[draw(x.size())]; }
  size_t size(size_t max);              // length, biased to small but reaching max
  uint64_t u64();                       // edge-biased 64 bit value
  uint64_t u64_below(uint64_t max);     // edge-biased in [0,max]
  uint32_t u32() { return (uint32_t)u64(); }
  std::string bytes(size_t n);          // n arbitrary bytes
  std::vector<uint8_t> bytesv(size_t n);
  std::string ascii(size_t n);
  // Loop control for op sequences: true with high probability until max. Each op costs one leading choice.
  bool more(size_t done, size_t max) { return done < max && draw(64) != 0; }
  // a 64-bit seed for bulk material that need not be shrunk
  uint64_t seed() { return draw(0); }

  // --- reporting ---
  void label(const std::string& s, uint64_t n = 1) { labels[s] += n; }
  void nontrivial() { nontriv = true; }
  bool wantSample() const { return want_sample; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // trace line of this case
  bool verbose = false;
  // sub-evaluations inside a case (oracle comparisons), for evidence
  uint64_t evals = 0;

  // --- engine state ---
  std::vector<uint64_t> rec;            // recorded choices
  const std::vector<uint64_t>* play = nullptr;
  size_t pos = 0;
  uint64_t s[4];
  std::map<std::string, uint64_t> labels;
  bool nontriv = false, want_sample = false;
  std::string trace;
  uint64_t* shared = nullptr; size_t sharedCap = 0;  // mirror for crash recovery: shared[0]=count
  void reseed(uint64_t seed);
  uint64_t next();
};

// small independent PRNG for bulk data
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : next(); }
  void fill(void* p, size_t n) { uint8_t* b = (uint8_t*)p; while (n) { uint64_t v = next(); size_t k = n < 8 ? n : 8; memcpy(b, &v, k); b += k; n -= k; } }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashstr(const std::string& s);

typedef std::function<void(Gen&)> PropFn;
struct Part {
  std::string name;      // "C01.history"
  PropFn fn;
  uint64_t quick, thorough;
  std::string rule;      // how cases are made / what is non-trivial
};
std::vector<Part>& parts();
struct Reg { Reg(const char* n, PropFn f, uint64_t q, uint64_t t, const char* rule) { parts().push_back({n, f, q, t, rule}); } };

std::string hex(const void* p, size_t n);
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
std::string scratch();     // private scratch directory of this process (removed at exit)
void wipeScratch();        // empties it

}  // namespace vf

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PROP(name, q, t, rule) \
  static void VF_CAT(vf_prop_, __LINE__)(vf::Gen & g); \
  static vf::Reg VF_CAT(vf_reg_, __LINE__)(name, VF_CAT(vf_prop_, __LINE__), q, t, rule); \
  static void VF_CAT(vf_prop_, __LINE__)(vf::Gen & g)
#define VF_CHECK(cond, tag, ...) do { if (!(cond)) vf::fail(tag, __VA_ARGS__); } while (0)
