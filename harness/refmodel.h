// Independent restatements of the currency rules.
#pragma once
#include <cmath>
#include <cstdint>
#include <algorithm>
typedef unsigned __int128 u128;
struct P {
  bool testnet = false;
  uint64_t money = 200000000000000ULL;
  uint32_t maxTermV1 = 64800 * 20, minTermV3 = 21900, maxTermV3 = 262800, heightV3 = 413400, heightV4 = 1162162, missing = 425799;
  uint32_t minTerm = 5040, maxTerm = 262800; uint64_t maxRate = 4, minFactor = 0, minAmount = 1000000;
  uint32_t v8 = 661300; size_t grz = 100000;
  uint32_t zawyIndex = 0; size_t zawyV2 = 1; uint8_t zawyVer = 0; size_t win = 720, cut = 60; uint64_t target = 120;
};
static uint64_t refV2(uint64_t amount, uint32_t term) {
  if (term % 64800 == 0) {
    static const struct { uint64_t lo; float q; } tiers[] = {{180000, 1.02f}, {260000, 1.03f}, {350000, 1.04f}, {450000, 1.05f}, {560000, 1.06f}, {680000, 1.07f}, {810000, 1.08f}, {950000, 1.09f}, {1100000, 1.1f}, {1260000, 1.11f}, {1430000, 1.12f}, {1610000, 1.13f}, {1800000, 1.14f}};
    uint64_t coins = amount / 1000000; float q = 1;
    if (coins > 110000) q = 1.01f;
    for (auto& t : tiers) if (coins >= t.lo) q = t.q;
    if (coins == 2000000) q = 1; if (coins > 2000000) q = 1.15f;
    float quarters = term / 64800;
    float mq = 1.4473f;
    float growth = (float)(100.0 * pow(1.0 + (mq / 100.0), quarters) - 100.0);
    float rate = growth * (1 + (quarters * 0.5f) / 100) * q;
    return (uint64_t)((float)amount * (rate / 100));
  }
  if (term % 5040 == 0) {
    float weeks = term / 5040;
    float rate = 0.0696f + weeks * 0.0002f;
    return (uint64_t)((float)amount * ((weeks * rate) / 100));
  }
  return 0;
}
static uint64_t refV3(const P& p, uint64_t amount, uint32_t term) {
  uint64_t coins = amount / 1000000;
  float base = coins >= 20000 ? 0.049f : coins >= 10000 ? 0.039f : 0.029f;
  float months = std::min<uint32_t>(term / p.minTermV3, 12);
  float ear = base + (months - 1) * 0.001f;
  float eir = (ear / 12) * months;
  return (uint64_t)((float)amount * eir);
}
static uint64_t refInterest(const P& p, uint64_t amount, uint32_t term, uint32_t lock, const char** kind) {
  term = std::min(term, p.maxTermV1);
  if (term % p.minTermV3 == 0 && lock > p.heightV3) { *kind = "v3"; return refV3(p, amount, term); }
  if (term % 64800 == 0) { *kind = "investment"; return refV2(amount, term); }
  if (term % 5040 == 0) { *kind = "weekly"; return refV2(amount, term); }
  *kind = "legacy";
  uint64_t tr = (uint64_t)term * p.maxRate;
  if (tr < p.minFactor) return 0;
  u128 v = (u128)amount * (tr - p.minFactor) / (100ull * p.maxTerm);
  uint64_t c = (uint64_t)v;
  if (lock <= 12750) { *kind = "legacy-early"; u128 m = (u128)c * 100; return m >> 64 ? UINT64_MAX : (uint64_t)m; }
  return c;
}
static uint64_t refBase(const P& p, uint64_t already, uint32_t h) {
  if (h == 1) return 12000000000000ULL;
  uint64_t r = h > p.v8 ? 6000000 : 5000000 + 250000ull * (h / 21900);
  r = std::min<uint64_t>(r, 15000000); return std::min(r, p.money - already);
}
static uint64_t refPen(uint64_t a, uint64_t med, uint64_t cur) {
  if (cur <= med) return a;
  return (uint64_t)((u128)a * ((u128)cur * (2 * med - cur)) / med / med);
}
