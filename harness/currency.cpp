// U01-U04: interest, reward, difficulty, amounts/addresses/denominations.
#include "vf.h"
#include "vf_env.h"
#include "refmodel.h"
#include <cmath>
#include <algorithm>
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "Common/Base58.h"
#include "Common/StringTools.h"
#include "Logging/LoggerGroup.h"
#include "crypto/crypto.h"
using namespace cn;

static logging::LoggerGroup g_log;
// What the currency parameters are, restated: mainnet, testnet and the core-tests like variants.
static Currency make(const P& p) {
  CurrencyBuilder b(g_log);
  b.testnet(p.testnet);
  b.depositMinTotalRateFactor(p.minFactor); b.depositMaxTotalRate(p.maxRate); b.depositMinTerm(p.minTerm); b.depositMaxTerm(p.maxTerm);
  b.zawyDifficultyBlockIndex(p.zawyIndex); b.zawyDifficultyV2(p.zawyV2); b.zawyDifficultyBlockVersion(p.zawyVer);
  b.difficultyWindow(p.win); b.difficultyCut(p.cut);
  if (p.grz != 100000) b.blockGrantedFullRewardZone(p.grz);
  return b.currency();
}
static P testnetP() {
  P p; p.testnet = true; p.minTermV3 = 30; p.maxTermV3 = 360; p.heightV3 = 60; p.heightV4 = 300000; p.missing = 0; p.v8 = 72; return p;
}
struct Cur { P p; Currency c; };
static const Cur& cur(size_t i) {
  static Cur* t[4];
  if (!t[i]) {
    P p; if (i == 1) p = testnetP();
    if (i == 2) { p.minFactor = 100; p.minTerm = 10; }                       // the deposit core tests' variant
    if (i == 3) { p.zawyV2 = 0; p.zawyVer = 0; p.zawyIndex = 0; p.grz = 20000; }  // classic retarget
    t[i] = new Cur{p, make(p)};
  }
  return *t[i];
}

// ---------------------------------------------------------------- U01 reference
static uint64_t genDepositAmount(vf::Gen& g) {
  static const std::vector<uint64_t> edges = {10000, 20000, 50000, 110000, 180000, 260000, 350000, 450000, 560000, 680000, 810000, 950000, 1100000, 1260000, 1430000, 1610000, 1800000, 2000000};
  switch (g.weighted({4, 4, 3, 1})) {
    case 0: return g.range(0, 100000000000ULL);
    case 1: { uint64_t e = g.pick(edges) * 1000000; return e + g.range(0, 2000002) - 1000001; }
    case 2: return g.range(0, 200000000) * 1000000;
    default: return g.range(0, 200000000000000ULL);
  }
}
static uint32_t genTerm(vf::Gen& g, const P& p) {
  switch (g.weighted({4, 3, 3, 2, 2, 1})) {
    case 0: return (uint32_t)g.range(1, 13) * p.minTermV3;
    case 1: return (uint32_t)g.range(1, 21) * 64800;
    case 2: return (uint32_t)g.range(1, 260) * 5040;
    case 3: return (uint32_t)g.range(0, 300000);
    case 4: { uint32_t b = g.oneof<uint32_t>({5040, 64800, p.minTermV3, p.maxTermV3, p.maxTermV1}); return b + (uint32_t)g.range(0, 2) - 1; }
    default: return g.u32();
  }
}
static uint32_t genHeight(vf::Gen& g, const P& p) {
  switch (g.weighted({3, 3, 1})) {
    case 0: { uint32_t b = g.oneof<uint32_t>({12750, 60, 104200, 413400, 425799, 661300, 1162162, 300000, 72}); return b + (uint32_t)g.range(0, 4) - 2; }
    case 1: return (uint32_t)g.range(0, 2000000);
    default: return g.u32();
  }
}
VF_PROP("U01.interest", 2400000, 120000000, "amount (tier edges +-1 coin, whole coins, arbitrary up to the supply), term (month/week/quarter multiples, limits +-1, arbitrary), creation height (rule change heights +-2, arbitrary), mainnet/testnet/legacy parameters; non-trivial: interest > 0") {
  const Cur& c = cur(g.weighted({4, 2, 2})); const P& p = c.p;
  uint64_t a = genDepositAmount(g); uint32_t t = genTerm(g, p), h = genHeight(g, p);
  const char* kind = ""; uint64_t ref = refInterest(p, a, t, h, &kind);
  uint64_t got = c.c.calculateInterest(a, t, h);
  g.label(kind); if (ref) g.nontrivial(); g.evals = 4;
  g.note("interest(%llu, term %u, lock %u) = %llu [%s]", (unsigned long long)a, t, h, (unsigned long long)got, kind);
  VF_CHECK(got == ref, "interest", "calculateInterest(%llu, %u, %u) = %llu, schedule gives %llu (%s)", (unsigned long long)a, t, h, (unsigned long long)got, (unsigned long long)ref, kind);
  // monotone in the amount inside one tier: adding a thousandth never lowers it
  if (a / 1000000 != 2000000 && !(a / 1000000 < 2000000 && (a + a / 64) / 1000000 >= 2000000)) {
    uint64_t b = a + g.draw(a / 64 + 1);
    uint64_t gb = c.c.calculateInterest(b, t, h);
    VF_CHECK(gb >= got, "interest-monotone", "interest(%llu)=%llu > interest(%llu)=%llu for term %u lock %u", (unsigned long long)a, (unsigned long long)got, (unsigned long long)b, (unsigned long long)gb, t, h);
  }
  // published upper bounds: a V3 deposit never yields more than 6%, weekly/investment less than 60%
  if (!strcmp(kind, "v3")) VF_CHECK((long double)got <= (long double)a * 0.06000002L + 64, "interest-bound", "V3 interest %llu on %llu", (unsigned long long)got, (unsigned long long)a);
  // terms above the maximum earn what the maximum earns
  if (t >= p.maxTermV1) VF_CHECK(got == c.c.calculateInterest(a, p.maxTermV1, h), "interest-clamp", "term %u not clamped", t);
  uint64_t again = c.c.calculateInterest(a, t, h);
  VF_CHECK(again == got, "interest-pure", "second evaluation differs");
}

static Transaction genTx(vf::Gen& g, const P& p, bool& coinbase) {
  Transaction tx; tx.version = 2; tx.unlockTime = 0; coinbase = false;
  size_t n = 1 + g.draw(5);
  for (size_t i = 0; i < n; ++i) {
    switch (g.weighted({4, 5, 1})) {
      case 0: { KeyInput k; k.amount = g.u64_below(200000000000000ULL); k.outputIndexes = {1}; memset(&k.keyImage, 0, sizeof k.keyImage); tx.inputs.push_back(k); break; }
      case 1: { MultisignatureInput m; m.amount = genDepositAmount(g); m.signatureCount = 1; m.outputIndex = 0; m.term = g.chance(1, 4) ? 0 : genTerm(g, p); tx.inputs.push_back(m); break; }
      default: { BaseInput b; b.blockIndex = 5; tx.inputs.push_back(b); }
    }
  }
  coinbase = n == 1 && tx.inputs[0].type() == typeid(BaseInput);
  return tx;
}
VF_PROP("U01.value", 400000, 20000000, "transactions of up to 5 key/deposit/multisignature inputs and up to 4 outputs whose sum is placed around the input value; oracle: input value = amount + interest(creation height), fee rules; non-trivial: at least one input with interest") {
  const Cur& c = cur(g.weighted({4, 2, 1})); const P& p = c.p; bool coinbase;
  Transaction tx = genTx(g, p, coinbase);
  uint32_t h; switch (g.weighted({3, 1, 1})) { case 0: h = (uint32_t)g.range(1300000, 3000000); break; case 1: h = genHeight(g, p); break; default: h = p.missing; }
  u128 in = 0; uint64_t interest = 0; bool dep = false; uint64_t plain = 0;
  for (auto& i : tx.inputs) {
    if (i.type() == typeid(KeyInput)) { plain = boost::get<KeyInput>(i).amount; in += plain; VF_CHECK(c.c.getTransactionInputAmount(i, h) == plain, "input-value", "key input valued differently from its amount"); }
    else if (i.type() == typeid(MultisignatureInput)) {
      auto& m = boost::get<MultisignatureInput>(i); uint64_t e = 0; const char* k;
      if (m.term != 0) { dep = true; if (m.term <= p.maxTermV1) e = refInterest(p, m.amount, m.term, h == p.missing ? h : h - m.term, &k); }
      uint64_t v = c.c.getTransactionInputAmount(i, h);
      VF_CHECK(v == (uint64_t)(m.amount + e), "input-value", "deposit input amount %llu term %u at %u valued %llu, expected %llu", (unsigned long long)m.amount, m.term, h, (unsigned long long)v, (unsigned long long)(m.amount + e));
      VF_CHECK(m.term == 0 || c.c.getInterestForInput(m, h) == e, "input-interest", "getInterestForInput term %u height %u", m.term, h);
      in += (uint64_t)(m.amount + e); interest += e; ++g.evals;
    }
  }
  if (in >> 63) vf::discard();
  if (interest) g.nontrivial();
  uint64_t tin = (uint64_t)in;
  VF_CHECK(c.c.getTransactionAllInputsAmount(tx, h) == tin, "all-inputs", "sum of inputs differs");
  VF_CHECK(c.c.calculateTotalTransactionInterest(tx, h) == interest, "total-interest", "%llu vs %llu", (unsigned long long)c.c.calculateTotalTransactionInterest(tx, h), (unsigned long long)interest);
  uint64_t out; switch (g.weighted({3, 2, 2, 1})) { case 0: out = g.u64_below(tin); break; case 1: out = tin; break; case 2: out = tin + 1 + g.draw(1000); break; default: out = 0; }
  size_t k = 1 + g.draw(4); uint64_t left = out;
  for (size_t i = 0; i < k; ++i) { TransactionOutput o; o.amount = i + 1 == k ? left : g.draw(left + 1); left -= o.amount; KeyOutput ko; memset(&ko, 0, sizeof ko); o.target = ko; tx.outputs.push_back(o); }
  uint64_t fee = 777; bool ok = c.c.getTransactionFee(tx, fee, h);
  g.note("inputs %zu value %llu interest %llu out %llu height %u -> %d fee %llu", tx.inputs.size(), (unsigned long long)tin, (unsigned long long)interest, (unsigned long long)out, h, ok, (unsigned long long)fee);
  if (coinbase) { g.label("coinbase"); VF_CHECK(ok && fee == 0, "fee", "coinbase fee %llu", (unsigned long long)fee); VF_CHECK(c.c.getTransactionFee(tx, h) == 0, "fee", "coinbase"); return; }
  if (out <= tin) { g.label("in>=out"); VF_CHECK(ok && fee == tin - out, "fee", "ok=%d fee %llu, expected %llu", ok, (unsigned long long)fee, (unsigned long long)(tin - out)); VF_CHECK(c.c.getTransactionFee(tx, h) == tin - out, "fee", "overload"); }
  else if (dep) { g.label("withdrawal-overspend"); VF_CHECK(ok && fee == 10, "fee", "withdrawal fee ok=%d %llu", ok, (unsigned long long)fee); }
  else { g.label("overspend"); VF_CHECK(!ok, "fee-overspend", "outputs %llu exceed inputs %llu without deposits, accepted with fee %llu", (unsigned long long)out, (unsigned long long)tin, (unsigned long long)fee); VF_CHECK(c.c.getTransactionFee(tx, h) == 0, "fee", "overload"); }
}
VF_PROP("U01.limits", 120000, 4000000, "deposit output amount/term/height around every limit; oracle: the published term and amount limits in force; non-trivial: term != 0") {
  const Cur& c = cur(g.weighted({3, 2})); const P& p = c.p;
  uint32_t t = genTerm(g, p); uint32_t h; switch (g.draw(3)) { case 0: h = p.heightV4 + (uint32_t)g.range(0, 4) - 2; break; case 1: h = (uint32_t)g.range(0, p.heightV4); break; default: h = p.heightV4 + 1 + (uint32_t)g.range(0, 1000000); }
  uint64_t a = g.flip() ? 999998 + g.draw(4) : genDepositAmount(g);
  MultisignatureOutput o; o.term = t; o.requiredSignatureCount = 1;
  bool exp = true;
  if (t) { if (h > p.heightV4) exp = t % p.minTermV3 == 0 && t >= p.minTermV3 && t <= p.maxTermV3; else exp = t >= p.minTerm && t <= p.maxTermV1; exp = exp && a >= 1000000; g.nontrivial(); }
  bool got = c.c.validateOutput(a, o, h); g.label(exp ? "valid" : "invalid"); g.evals = 1;
  g.note("validateOutput(%llu, term %u, height %u) = %d", (unsigned long long)a, t, h, got);
  VF_CHECK(got == exp, "deposit-limits", "validateOutput(%llu, term %u, height %u) = %d, limits say %d", (unsigned long long)a, t, h, got, exp);
}

// ---------------------------------------------------------------- U02
VF_PROP("U02.reward", 2000000, 100000000, "height (interval edges +-1, V8 boundary, arbitrary), emitted coins (incl. end of supply), fee, median and block size (around median and 2*median); oracle in 128-bit arithmetic; non-trivial: penalty applies") {
  const Cur& c = cur(g.weighted({4, 2, 0, 2})); const P& p = c.p;
  uint32_t h;
  switch (g.weighted({3, 2, 3, 1})) { case 0: h = (uint32_t)(g.range(0, std::min<uint32_t>(p.v8, 46 * 21900) / 21900) * 21900 + g.range(0, 2)); if (h) --h; break; case 1: h = p.v8 + (uint32_t)g.range(0, 4) - 2; break; case 2: h = (uint32_t)g.range(0, 1500000); break; default: h = (uint32_t)g.range(0, 3); }
  uint64_t already = g.weighted({3, 1}) == 0 ? g.draw(p.money + 1) : p.money - g.draw(20000000);
  uint64_t fee = g.weighted({3, 1}) == 0 ? g.range(0, 100000000) : g.range(0, 1000000000000000ULL);
  uint64_t med = g.flip() ? g.range(0, 3000000) : p.grz + g.draw(10) - 5;
  uint64_t em = std::max<uint64_t>(med, p.grz), size;
  switch (g.weighted({2, 3, 2, 2, 1})) { case 0: size = g.range(0, em); break; case 1: size = em + g.draw(em + 1); break; case 2: size = em + g.draw(5) - 2; break; case 3: size = 2 * em + g.draw(5) - 2; break; default: size = g.range(2 * em + 1, 4 * em); }
  uint64_t reward = 1; int64_t em_change = 1;
  bool ok = c.c.getBlockReward(med, size, already, fee, h, reward, em_change);
  g.evals = 3;
  g.note("getBlockReward(median %llu, size %llu, emitted %llu, fee %llu, height %u) = %d %llu %lld", (unsigned long long)med, (unsigned long long)size, (unsigned long long)already, (unsigned long long)fee, h, ok, (unsigned long long)reward, (long long)em_change);
  VF_CHECK(ok == (size <= 2 * em), "reward-limit", "size %llu median %llu accepted=%d", (unsigned long long)size, (unsigned long long)em, ok);
  if (!ok) { g.label("refused"); return; }
  uint64_t base = refBase(p, already, h), pb = refPen(base, em, size), pf = refPen(fee, em, size);
  g.label(size > em ? "penalised" : "full"); if (h == 1) g.label("foundation"); if (base < 5000000) g.label("tail"); if (size > em) g.nontrivial();
  VF_CHECK(reward == pb + pf, "reward", "reward %llu, expected %llu (base %llu)", (unsigned long long)reward, (unsigned long long)(pb + pf), (unsigned long long)base);
  VF_CHECK(em_change == (int64_t)(pb - (fee - pf)), "emission", "emission change %lld, expected %lld", (long long)em_change, (long long)(pb - (fee - pf)));
  VF_CHECK(getPenalizedAmount(fee, em, size) == pf, "penalty", "getPenalizedAmount");
}
VF_PROP("U02.limits", 8000, 800000, "block height; oracle: size limit 1,000,000 + height*102400/262800 exactly, and monotone") {
  const Cur& c = cur(g.draw(2)); uint64_t h = g.flip() ? g.range(0, 3000000) : g.range(0, 500000000);
  uint64_t v = c.c.maxBlockCumulativeSize(h); g.nontrivial(); g.evals = 2;
  VF_CHECK(v == 1000000 + (uint64_t)((u128)h * 102400 / 262800), "size-limit", "maxBlockCumulativeSize(%llu)=%llu", (unsigned long long)h, (unsigned long long)v);
  VF_CHECK(c.c.maxBlockCumulativeSize(h + 1) >= v, "size-limit", "not monotone at %llu", (unsigned long long)h);
}
static void decompose(uint64_t v, uint64_t dust, std::vector<uint64_t>& out) {  // specification: least significant digits up to the dust threshold collect into one chunk, every other non-zero digit is its own amount
  uint64_t d = 0, order = 1; bool dustDone = false;
  while (v) { uint64_t chunk = (v % 10) * order; v /= 10; order *= 10;
    if (!dustDone && d + chunk <= dust) d += chunk; else { if (!dustDone && d) { out.push_back(d); } dustDone = true; if (chunk) out.push_back(chunk); } }
  if (!dustDone && d) out.push_back(d);
}
VF_PROP("U02.miner-tx", 25000, 1200000, "miner transactions for random rewards, fees, sizes, extra nonces and output limits; oracle: amounts = canonical split of the reward (merged from the top when limited), sum exact, unlock height, outputs recognised by the miner's view key; non-trivial: more than one output") {
  const Cur& c = cur(g.weighted({3, 2})); const P& p = c.p;
  AccountBase acc; acc.generate(); AccountBase other; other.generate();
  uint32_t h = (uint32_t)g.range(0, 900000); if (h == 1 && g.flip()) h = 2;
  uint64_t already = g.flip() ? g.draw(p.money) : p.money - g.draw(20000000), fee = g.u64_below(1000000000), med = g.range(0, 300000), em = std::max<uint64_t>(med, 100000), size = g.draw(2 * em + 100);
  std::string nonce = g.bytes(g.draw(3) == 0 ? g.draw(256) : 0); size_t maxOuts = g.weighted({2, 3, 3}) == 0 ? 1 : 1 + g.draw(20);
  Transaction tx; bool ok = c.c.constructMinerTx(h, med, already, size, fee, acc.getAccountKeys().address, tx, BinaryArray(nonce.begin(), nonce.end()), maxOuts);
  if (size > 2 * em) { VF_CHECK(!ok, "miner-tx-oversize", "oversize accepted"); g.label("oversize"); return; }
  VF_CHECK(ok, "miner-tx", "constructMinerTx failed h=%u", h);
  uint64_t reward = refPen(refBase(p, already, h), em, size) + refPen(fee, em, size);
  std::vector<uint64_t> exp; decompose(reward, 10, exp);
  while (exp.size() > maxOuts) { exp[exp.size() - 2] += exp.back(); exp.pop_back(); }
  std::vector<uint64_t> got; for (auto& o : tx.outputs) got.push_back(o.amount);
  VF_CHECK(got == exp, "miner-split", "reward %llu maxOuts %zu: %zu outputs, expected %zu", (unsigned long long)reward, maxOuts, got.size(), exp.size());
  if (got.size() > 1) g.nontrivial(); g.label(got.size() > 1 ? "split" : "single"); g.evals = got.size() + 4;
  VF_CHECK(tx.inputs.size() == 1 && tx.inputs[0].type() == typeid(BaseInput) && boost::get<BaseInput>(tx.inputs[0]).blockIndex == h, "miner-input", "base input");
  VF_CHECK(tx.unlockTime == h + 10 && tx.version == 1, "miner-unlock", "unlock %llu version %d", (unsigned long long)tx.unlockTime, tx.version);
  std::vector<size_t> mine; uint64_t m = 0; VF_CHECK(lookup_acc_outs(acc.getAccountKeys(), tx, mine, m) && m == reward && mine.size() == got.size(), "miner-recognise", "miner recognises %llu of %llu", (unsigned long long)m, (unsigned long long)reward);
  mine.clear(); lookup_acc_outs(other.getAccountKeys(), tx, mine, m); VF_CHECK(mine.empty() && m == 0, "miner-recognise", "other account recognises outputs");
  if (nonce.size() > 0 && nonce.size() < 256) { std::vector<TransactionExtraField> f; VF_CHECK(parseTransactionExtra(tx.extra, f), "miner-extra", "extra unreadable"); TransactionExtraNonce n; VF_CHECK(findTransactionExtraFieldByType(f, n) && std::string(n.nonce.begin(), n.nonce.end()) == nonce, "miner-extra", "extra nonce of %zu bytes lost", nonce.size()); g.label("nonce"); }
  g.note("h=%u reward=%llu maxOuts=%zu outputs=%zu nonce=%zu", h, (unsigned long long)reward, maxOuts, got.size(), nonce.size());
}

// ---------------------------------------------------------------- U03
struct Hist { std::vector<uint64_t> ts, cd; };
static Hist genHist(vf::Gen& g, size_t n, uint64_t dmin, uint64_t dmax, std::string& style) {
  Hist h; uint64_t t = 1500000000 + g.draw(100000000), c = g.draw(1000000000000ULL);
  uint64_t d = dmin + g.draw(dmax - dmin + 1); size_t st = g.draw(5);
  static const char* names[] = {"steady", "random", "backwards", "bursts", "stuck"}; style = names[st];
  uint64_t solve = 1 + g.draw(400);
  vf::Rng r(g.seed());
  for (size_t i = 0; i < n; ++i) {
    h.ts.push_back(t); h.cd.push_back(c);
    switch (st) { case 0: t += solve; break; case 1: t += r.below(600); break; case 2: { int64_t x = (int64_t)r.below(800) - 300; t = (uint64_t)((int64_t)t + x); break; } case 3: t += r.below(8) ? r.below(3) : 2000; break; default: t += r.below(10) ? 0 : 7000; }
    if (r.below(3) == 0) { d = d / 2 + r.below(d + 1); if (d < dmin) d = dmin; if (d > dmax) d = dmax; }
    c += d;
  }
  return h;
}
static uint64_t refClassic(const P& p, uint8_t ver, uint32_t idx, Hist h, const char** kind) {
  *kind = "fixed"; if (idx >= 12750 && idx < 13500) return 2160;
  size_t W = ver >= 4 ? 60 : ver >= 2 ? p.win : 720, C = ver >= 2 ? p.cut : 60;
  Hist o = h; if (h.ts.size() > W) { h.ts.resize(W); h.cd.resize(W); }
  *kind = "short"; size_t n = h.ts.size(); if (n <= 1) return 1;
  auto span = [&](Hist& x, size_t W, size_t C, u128& work, uint64_t& t) {
    size_t n = x.ts.size(); std::sort(x.ts.begin(), x.ts.end()); size_t b = 0, e = n; if (n > W - 2 * C) { b = (n - (W - 2 * C) + 1) / 2; e = b + (W - 2 * C); }
    t = x.ts[e - 1] - x.ts[b]; if (!t) t = 1; work = (u128)(x.cd[e - 1] - x.cd[b]) * p.target; };
  u128 w; uint64_t t; span(h, W, C, w, t);
  if ((w >> 64) || (uint64_t)w > UINT64_MAX - (t - 1)) { *kind = "overflow"; return 0; }
  uint8_t zv = p.zawyV2 ? 2 : p.zawyVer;
  if (zv && ver >= zv) { *kind = "zawy"; return (uint64_t)w / t; }
  if (p.zawyIndex && p.zawyIndex <= idx) {
    *kind = "zawy-index"; size_t k = std::min<size_t>(17, h.ts.size()); Hist x; x.ts.assign(o.ts.end() - k, o.ts.end()); x.cd.assign(o.cd.end() - k, o.cd.end());
    span(x, 17, 0, w, t); if ((w >> 64) || (uint64_t)w > UINT64_MAX - (t - 1)) return 0; return std::max<uint64_t>(100, (uint64_t)w / t);
  }
  *kind = "classic"; return ((uint64_t)w + t - 1) / t;
}
VF_PROP("U03.classic", 400000, 16000000, "timestamp/work histories of 0..735 blocks (steady, random, backwards, bursts, stuck), versions 1-3, four parameter sets; oracle: 128-bit reference of the retarget rule; non-trivial: more than one block in the window") {
  P p = cur(0).p; size_t v = g.draw(4);
  if (v == 1) { p.zawyV2 = 0; } else if (v == 2) { p.zawyV2 = 0; p.zawyIndex = 2; } else if (v == 3) { p.zawyV2 = 0; p.zawyVer = 3; }
  static Currency* cs[4]; if (!cs[v]) cs[v] = new Currency(make(p));
  std::string st; size_t n = g.weighted({3, 3, 1}) == 0 ? g.draw(20) : g.range(0, 735);
  Hist h = genHist(g, n, 1, g.flip() ? 1000000000ULL : 1000000000000000ULL, st);
  uint8_t ver = 1 + g.draw(3); uint32_t idx = g.weighted({4, 1}) == 0 ? (uint32_t)g.range(1, 104000) : 12748 + (uint32_t)g.draw(4) + (g.flip() ? 750 : 0);
  const char* kind; uint64_t ref = refClassic(p, ver, idx, h, &kind), got = cs[v]->nextDifficulty(ver, idx, h.ts, h.cd);
  g.label(kind); g.label(st); if (n > 1) g.nontrivial(); g.evals = 1;
  g.note("classic v%d idx %u n=%zu %s -> %llu [%s]", ver, idx, n, st.c_str(), (unsigned long long)got, kind);
  VF_CHECK(got == ref, "difficulty-classic", "version %d index %u, %zu blocks (%s): %llu, rule gives %llu (%s)", ver, idx, n, st.c_str(), (unsigned long long)got, (unsigned long long)ref, kind);
  if (v == 1 && ver == 1) {}
}
VF_PROP("U03.plain", 60000, 2000000, "the parameterless retarget on histories of 0..760 blocks; oracle: reference; out-of-window blocks have no influence; never zero below the overflow limit") {
  const Cur& c = cur(0); std::string st; size_t n = g.range(0, 760); Hist h = genHist(g, n, 1, 1000000000ULL, st);
  P p = c.p; p.zawyV2 = 0; const char* k; uint64_t ref = refClassic(p, 2, 1, h, &k), got = c.c.nextDifficulty(h.ts, h.cd);
  if (n > 1) g.nontrivial(); g.label(n > 720 ? "beyond-window" : "within"); g.evals = 2;
  VF_CHECK(got == ref && got > 0, "difficulty-plain", "%zu blocks (%s): %llu, rule gives %llu", n, st.c_str(), (unsigned long long)got, (unsigned long long)ref);
  if (n > 720) { Hist x = h; for (size_t i = 720; i < n; ++i) { x.ts[i] += 5000; x.cd[i] += 12345678; } VF_CHECK(c.c.nextDifficulty(x.ts, x.cd) == got, "difficulty-window", "blocks outside the window matter"); }
}
static uint64_t clampStep(uint64_t lo, uint64_t v, uint64_t hi) { return std::max(lo, std::min(v, hi)); }
VF_PROP("U03.lwma3", 600000, 30000000, "histories of 0..61 blocks of every style with per-block work 100..10^9; oracle: LWMA-3 specification in exact integers, the 67%/150% clamp, direction of change; non-trivial: more than 10 blocks") {
  const Cur& c = cur(g.draw(2)); std::string st; size_t n = g.weighted({1, 1, 4}) == 0 ? g.draw(14) : g.flip() ? 61 : g.range(0, 61);
  Hist h = genHist(g, n, 100, g.flip() ? 10000000ULL : 100000000000ULL, st);
  uint64_t got = c.c.nextDifficultyLWMA3(h.ts, h.cd); g.label(st); g.evals = 2;
  g.note("lwma3 n=%zu %s -> %llu", n, st.c_str(), (unsigned long long)got);
  if (n <= 10) { g.label("startup"); VF_CHECK(got == 100, "lwma3-startup", "startup difficulty %llu", (unsigned long long)got); return; }
  g.nontrivial();
  size_t N = std::min<size_t>(60, n - 1); uint64_t L = 0, last3 = 0, prev = h.ts[0];
  for (size_t i = 1; i <= N; ++i) { uint64_t t = std::max(h.ts[i], prev + 1), s = std::min<uint64_t>(720, t - prev); prev = t; L += s * i; if (i + 3 > N) last3 += s; }
  u128 nd = (u128)(h.cd[N] - h.cd[0]) * 120 * (N + 1) * 99 / (200 * (u128)L); if (nd > UINT64_MAX || ((u128)(h.cd[N] - h.cd[0]) * 120 * (N + 1) * 99) >> 64) { g.label("beyond-64-bit"); return; }
  uint64_t pd = h.cd[N] - h.cd[N - 1], ref = clampStep(pd * 67 / 100, (uint64_t)nd, pd * 150 / 100);
  if (last3 < 96) { g.label("jump"); ref = std::max(ref, pd * 108 / 100); }
  VF_CHECK(got == ref, "difficulty-lwma3", "%zu blocks (%s): %llu, LWMA-3 gives %llu", n, st.c_str(), (unsigned long long)got, (unsigned long long)ref);
  VF_CHECK(got >= pd * 67 / 100 && got <= pd * 150 / 100 && got > 0, "lwma3-clamp", "%llu outside 67%%..150%% of %llu", (unsigned long long)got, (unsigned long long)pd);
  // slower blocks never raise the result: stretch the final solve time
  Hist x = h; x.ts[N] = std::max(x.ts[N], x.ts[N - 1]) + 300; VF_CHECK(c.c.nextDifficultyLWMA3(x.ts, x.cd) <= std::max(got, c.c.nextDifficultyLWMA3(h.ts, h.cd)), "lwma3-direction", "a later last block raised the difficulty");
}
VF_PROP("U03.lwma1", 600000, 30000000, "61-block histories of every style with per-block work 10..10^13 and heights around the fork; oracle: LWMA-1 specification in exact integers with the documented rounding; non-trivial: past the fixed window") {
  size_t k = g.draw(2); const Cur& c = cur(k); std::string st; Hist h = genHist(g, 61, 10, g.oneof<uint64_t>({1000, 10000000, 1000000000000ULL, 10000000000000ULL}), st);
  uint64_t v8 = c.p.v8, height; switch (g.weighted({1, 4})) { case 0: height = v8 + g.range(0, 62); if (height > v8) --height; break; default: height = v8 + 60 + g.draw(1000000); }
  uint64_t got = c.c.nextDifficultyLWMA1(h.ts, h.cd, height); g.label(st); g.evals = 1;
  g.note("lwma1 height %llu %s -> %llu", (unsigned long long)height, st.c_str(), (unsigned long long)got);
  if (height >= v8 && height < v8 + 60) { g.label("fixed"); VF_CHECK(got == (k ? 10 : 7200000), "lwma1-fixed", "%llu in the fixed window", (unsigned long long)got); return; }
  g.nontrivial();
  uint64_t L = 0, prev = h.ts[0] - 120; for (size_t i = 1; i <= 60; ++i) { uint64_t t = h.ts[i] > prev ? h.ts[i] : prev + 1; L += i * std::min<uint64_t>(720, t - prev); prev = t; }
  if (L < 21600) { L = 21600; g.label("floor"); }
  uint64_t avg = (h.cd[60] - h.cd[0]) / 60; u128 nd;
  if (avg > 2000000ULL * 60 * 60 * 120) nd = (u128)(avg / (200 * L)) * (60 * 61 * 120 * 99ULL); else nd = (u128)avg * (60 * 61 * 120 * 99ULL) / (200 * L);
  if (((u128)avg * (60 * 61 * 120 * 99ULL)) >> 64) { if (avg <= 2000000ULL * 60 * 60 * 120) vf::discard(); g.label("large"); }
  uint64_t r = (uint64_t)nd; for (uint64_t i = 1000000000; i > 1; i /= 10) if (r > i * 100) { r = (r + i / 2) / i * i; break; }
  VF_CHECK(got == r, "difficulty-lwma1", "height %llu (%s): %llu, LWMA-1 gives %llu", (unsigned long long)height, st.c_str(), (unsigned long long)got, (unsigned long long)r);
  VF_CHECK(got > 0 || avg < 10, "lwma1-zero", "zero difficulty");
}
VF_PROP("U03.windows", 4000, 40000, "block versions 0..255; oracle: window, lag and cut the algorithms are defined with") {
  const Currency& c = cur(g.draw(2)).c; uint8_t v = g.draw(256); g.nontrivial(); g.evals = 3;
  VF_CHECK(c.difficultyWindowByBlockVersion(v) == (v >= 4 ? 60 : 720), "window", "version %d", v);
  VF_CHECK(c.difficultyBlocksCountByBlockVersion(v) == (v >= 4 ? 61 : 735), "blocks-count", "version %d", v);
  VF_CHECK(c.timestampCheckWindow(v) == (v >= 4 ? 11 : 30) && c.blockFutureTimeLimit(v) == (v >= 4 ? 360 : 7200), "time-window", "version %d", v);
}

// ---------------------------------------------------------------- U04
static bool refParse(const std::string& in, uint64_t& v) {
  size_t b = 0, e = in.size(); auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
  while (b < e && sp(in[b])) ++b; while (e > b && sp(in[e - 1])) --e; std::string s = in.substr(b, e - b);
  size_t d = s.find('.'); std::string i = s.substr(0, d), f = d == std::string::npos ? "" : s.substr(d + 1);
  while (f.size() > 6 && f.back() == '0') f.pop_back(); if (f.size() > 6) return false;
  if (i.empty() && f.empty()) return false; if (f.size() < 6) f.append(6 - f.size(), '0'); u128 x = 0;
  for (char c : i + f) { if (c < '0' || c > '9') return false; x = x * 10 + (c - '0'); if (x > UINT64_MAX) return false; }
  v = (uint64_t)x; return true;
}
VF_PROP("U04.amount", 1000000, 40000000, "amounts of every magnitude formatted and parsed back; amount texts produced by a grammar (spaces, dots, digits, signs, overflow) and by mutating formatted amounts; oracle: exact decimal reference; non-trivial: mutated text or amount above 10^12") {
  const Currency& c = cur(0).c; uint64_t a = g.u64(), back = 0; g.evals = 3;
  std::string s = c.formatAmount(a);
  char ref[64]; snprintf(ref, sizeof ref, "%llu.%06llu", (unsigned long long)(a / 1000000), (unsigned long long)(a % 1000000));
  VF_CHECK(s == ref, "format", "formatAmount(%llu) = %s, expected %s", (unsigned long long)a, s.c_str(), ref);
  VF_CHECK(c.parseAmount(s, back) && back == a, "parse", "parseAmount(%s) gave %llu", s.c_str(), (unsigned long long)back);
  int64_t sa = (int64_t)(a >> 1) * (g.flip() ? -1 : 1); std::string ss = c.formatAmount(sa);
  uint64_t mag = sa < 0 ? 0 - (uint64_t)sa : (uint64_t)sa; snprintf(ref, sizeof ref, "%s%llu.%06llu", sa < 0 ? "-" : "", (unsigned long long)(mag / 1000000), (unsigned long long)(mag % 1000000));
  VF_CHECK(ss == ref, "format-signed", "formatAmount(%lld) = %s", (long long)sa, ss.c_str());
  std::string m = s; size_t mode = g.draw(3); static const char alpha[] = "0123456789..  -+eExX,\t\n\v:/a";
  if (mode == 0) { size_t k = g.draw(24); m.clear(); for (size_t i = 0; i < k; ++i) m += alpha[g.draw(i < 3 ? sizeof alpha - 1 : 13)]; }
  else { size_t k = 1 + g.draw(3); for (size_t i = 0; i < k; ++i) { size_t at = g.draw(m.size() + 1); switch (g.draw(3)) { case 0: m.insert(at, 1, alpha[g.draw(sizeof alpha - 1)]); break; case 1: if (at < m.size()) m.erase(at, 1); break; default: if (at < m.size()) m[at] = alpha[g.draw(sizeof alpha - 1)]; } } }
  uint64_t v1 = 0, v2 = 0; bool o1 = c.parseAmount(m, v1), o2 = refParse(m, v2); g.label(o2 ? "text-valid" : "text-invalid"); g.nontrivial();
  g.note("parseAmount(\"%s\") = %d %llu", m.c_str(), o1, (unsigned long long)v1);
  VF_CHECK(o1 == o2 && (!o1 || v1 == v2), "parse-text", "parseAmount(\"%s\") = %d %llu, reference %d %llu", m.c_str(), o1, (unsigned long long)v1, o2, (unsigned long long)v2);
}
VF_PROP("U04.address", 30000, 1500000, "accounts formatted and parsed; then typing errors (substitution, swap, drop, insert) and other prefixes; oracle: original keys back, every altered text refused; non-trivial: text altered") {
  const Currency& c = cur(g.draw(2)).c; AccountBase acc; vf_env::seedRandom(g.seed()); acc.generate(); AccountPublicAddress ad = acc.getAccountKeys().address, b; g.evals = 3;
  std::string s = c.accountAddressAsString(ad);
  VF_CHECK(s == c.accountAddressAsString(acc) && c.parseAccountAddressString(s, b) && b.spendPublicKey == ad.spendPublicKey && b.viewPublicKey == ad.viewPublicKey, "address", "address %s does not come back", s.c_str());
  VF_CHECK(s.size() == 98 && s.substr(0, 3) == "ccx", "address-form", "%s", s.c_str());
  static const char al[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"; std::string m = s; size_t at = g.draw(m.size());
  static const char* names[] = {"substitute", "swap", "drop", "insert", "junk", "prefix"}; size_t k = g.weighted({4, 3, 2, 2, 1, 2}); g.label(names[k]);
  switch (k) { case 0: m[at] = al[g.draw(58)]; break; case 1: if (at + 1 < m.size()) std::swap(m[at], m[at + 1]); break; case 2: m.erase(at, 1); break; case 3: m.insert(at, 1, al[g.draw(58)]); break; case 4: m[at] = (char)g.draw(256); break;
    default: { uint64_t pf = g.flip() ? 0x7ad4 + 1 + g.draw(20) : g.u64(); if (pf == 0x7ad4) ++pf; m = getAccountAddressAsStr(pf, ad); uint64_t back; AccountPublicAddress z; VF_CHECK(cn::parseAccountAddressString(back, z, m) && back == pf && z.viewPublicKey == ad.viewPublicKey, "address-prefix", "prefix %llu does not come back", (unsigned long long)pf); } }
  if (m == s) { g.label("unchanged"); return; }
  g.nontrivial(); g.note("%s -> %s", s.c_str(), m.c_str());
  VF_CHECK(!c.parseAccountAddressString(m, b), "address-typo", "altered address accepted: %s (from %s)", m.c_str(), s.c_str());
}
VF_PROP("U04.address-keys", 30000, 1000000, "well-formed address text around arbitrary 64-byte key material and lengths; oracle: accepted exactly when both keys are curve points and the payload is 64 bytes; non-trivial: a key invalid or wrong length") {
  const Currency& c = cur(0).c; std::string d; size_t len = g.weighted({6, 1}) == 0 ? 64 : g.draw(70);
  AccountBase a; vf_env::seedRandom(g.seed()); a.generate(); crypto::PublicKey k[2] = {a.getAccountKeys().address.spendPublicKey, a.getAccountKeys().address.viewPublicKey};
  bool ok = len == 64; for (int i = 0; i < 2; ++i) { if (g.flip()) { std::string x = g.bytes(32); memcpy(&k[i], x.data(), 32); } if (!crypto::check_key(k[i])) ok = false; d.append((char*)&k[i], 32); }
  if (len < 64) d.resize(len); else if (len > 64) d.append(len - 64, 'x');
  std::string s = tools::base_58::encode_addr(0x7ad4, d); AccountPublicAddress b; bool got = c.parseAccountAddressString(s, b); g.evals = 1; if (!ok) g.nontrivial(); g.label(ok ? "valid" : "invalid");
  VF_CHECK(got == ok, "address-keys", "address with %zu payload bytes accepted=%d, expected %d", len, got, ok);
  if (ok) VF_CHECK(!memcmp(&b.spendPublicKey, &k[0], 32) && !memcmp(&b.viewPublicKey, &k[1], 32), "address-keys", "keys swapped");
}
static bool pretty(uint64_t v) { if (!v) return false; while (v % 10 == 0) v /= 10; return v < 10; }
VF_PROP("U04.decompose", 600000, 20000000, "amounts and dust thresholds; oracle: parts sum to the amount, digits canonical, at most one dust part not above the threshold; non-trivial: more than one part") {
  uint64_t v = g.u64(), dust = g.oneof<uint64_t>({0, 1, 10, 100, 1000, 1000000, 12345}); std::vector<uint64_t> got, ref; decomposeAmount(v, dust, got); decompose(v, dust, ref); g.evals = 2;
  u128 sum = 0; size_t odd = 0; for (auto x : got) { sum += x; if (!pretty(x)) { ++odd; VF_CHECK(x <= dust, "decompose-canonical", "part %llu of %llu (dust %llu)", (unsigned long long)x, (unsigned long long)v, (unsigned long long)dust); } }
  if (got.size() > 1) g.nontrivial(); g.label(odd ? "dust" : "clean");
  VF_CHECK(sum == v && odd <= 1, "decompose-sum", "parts of %llu sum to %llu", (unsigned long long)v, (unsigned long long)sum);
  std::sort(got.begin(), got.end()); std::sort(ref.begin(), ref.end()); VF_CHECK(got == ref, "decompose", "parts of %llu with dust %llu differ from the rule", (unsigned long long)v, (unsigned long long)dust);
}
VF_PROP("U04.applicable", 600000, 15000000, "amount, threshold, height; oracle: canonical amount below the threshold (and not dust before height 45000) and its power of ten; non-trivial: applicable") {
  const Currency& c = cur(0).c; uint64_t a; switch (g.weighted({4, 2, 1})) { case 0: { a = 1 + g.draw(9); size_t e = g.draw(20); for (size_t i = 0; i < e; ++i) { if (a > UINT64_MAX / 10) break; a *= 10; } break; } case 1: { a = 1; size_t e = g.draw(20); for (size_t i = 0; i < e; ++i) a *= 10; a = a * (1 + g.draw(9)) + g.draw(3) - 1; break; } default: a = g.u64(); }
  uint64_t t = g.weighted({2, 2, 1}) == 0 ? a + g.draw(3) - 1 : g.u64(); uint32_t h = g.flip() ? 44998 + (uint32_t)g.draw(5) : (uint32_t)g.range(0, 2000000);
  uint8_t p1 = 77; bool got = c.isAmountApplicableInFusionTransactionInput(a, t, p1, h), got2 = c.isAmountApplicableInFusionTransactionInput(a, t, h); g.evals = 2;
  bool exp = a < t && !(h < 45000 && a < 10) && pretty(a) && a <= 10000000000000000000ULL; uint8_t p10 = 0; for (uint64_t x = a; x >= 10; x /= 10) ++p10; if (exp) g.nontrivial(); g.label(exp ? "yes" : "no");
  VF_CHECK(got == exp && got2 == exp && (!exp || p1 == p10), "fusion-input", "amount %llu threshold %llu height %u: %d/%d power %d, expected %d power %d", (unsigned long long)a, (unsigned long long)t, h, got, got2, p1, exp, p10);
}
VF_PROP("U04.fusion", 300000, 10000000, "input and output amount lists at and around the fusion limits, canonical or altered; oracle: size, count, ratio, dust and exact sorted split; non-trivial: recognised, or one rule violated") {
  const Currency& c = cur(0).c; size_t n = g.weighted({4, 1}) == 0 ? g.range(10, 40) : g.draw(20); std::vector<uint64_t> in, out; uint64_t sum = 0;
  size_t style = g.draw(4); uint64_t unit = 10; for (size_t e = g.draw(8); e; --e) unit *= 10;
  for (size_t i = 0; i < n; ++i) { uint64_t a = style == 0 ? unit : style == 1 ? unit * (1 + g.draw(9)) : style == 2 ? (g.chance(1, 12) ? g.draw(12) : unit) : 10 + g.draw(1000000); in.push_back(a); sum += a; }
  decompose(sum, 10, out); std::sort(out.begin(), out.end());
  switch (g.weighted({4, 1, 1, 1, 1})) { case 0: break; case 1: if (out.size() > 1) std::swap(out[0], out[out.size() - 1]); break; case 2: if (!out.empty()) out.back() -= 1; break; case 3: out.push_back(unit); break; default: if (!out.empty()) out.pop_back(); }
  size_t size = g.weighted({3, 1, 1}) == 0 ? g.draw(30000) : 29999 + g.draw(3);
  std::vector<uint64_t> e; decompose(sum, 10, e); std::sort(e.begin(), e.end()); bool dust = false; for (auto a : in) dust |= a < 10;
  bool exp = size <= 30000 && n >= 12 && n >= out.size() * 4 && !dust && e == out; bool got = c.isFusionTransaction(in, out, size); g.evals = 1; g.nontrivial(); g.label(exp ? "fusion" : "not-fusion");
  g.note("%zu inputs sum %llu -> %zu outputs size %zu: %d", n, (unsigned long long)sum, out.size(), size, got);
  VF_CHECK(got == exp, "fusion", "%zu inputs, %zu outputs, size %zu: recognised=%d, rules say %d", n, out.size(), size, got, exp);
}
