// Ways of breaking a transaction or a block, each with the rule it breaks.
#pragma once
#include "chainhist.h"
#include <Common/Varint.h>
extern "C" {
#include <crypto/crypto-ops.h>
}
namespace cw {
struct Bad { TxP tx, good; std::string why; std::string group; };

// unlocked, unspent coin of at least `min`
inline bool freeCoin(World& w, const State& s, uint64_t min, World::Spend& out, const std::set<KeyImage>& avoid = {}) {
  auto sp = w.spendable(s); if (sp.empty()) return false; size_t st = w.g.draw(sp.size());
  for (size_t i = 0; i < sp.size(); i++) { auto& c = sp[(st + i) % sp.size()]; if (c.amount < min) continue; KeyImage k = w.keyImageOf(c.ref); if (s.spent.count(k) || avoid.count(k)) continue; out = c; return true; }
  return false;
}
// key image plus the point of order two
inline KeyImage torsioned(const KeyImage& k) {
  // y -> p - y, sign flipped
  static const uint8_t p[32] = {0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f};
  KeyImage r; const uint8_t* a = (const uint8_t*)&k; uint8_t* o = (uint8_t*)&r; int br = 0;
  for (int i = 0; i < 32; i++) { int v = (int)p[i] - (i == 31 ? a[i] & 0x7f : a[i]) - br; br = v < 0; o[i] = (uint8_t)(v + (br ? 256 : 0)); }
  o[31] |= (uint8_t)((a[31] & 0x80) ^ 0x80); return r;
}
struct BadKind { const char* name; const char* group; };
// groups: sig(nature), spend, money, form, dep(osit)
static const BadKind kBad[] = {
  {"one bit of a ring signature", "sig"}, {"prefix changed after signing", "sig"}, {"key image of another key", "sig"}, {"key image plus a torsion point", "sig"}, {"ring member replaced after signing", "sig"},
  {"ring index past the end", "spend"}, {"locked ring member", "spend"}, {"coin already spent", "spend"}, {"same coin twice in the transaction", "spend"}, {"unknown amount", "spend"}, {"empty ring", "form"},
  {"pays out one more than it takes in", "money"}, {"output sum wraps around", "money"}, {"zero output", "form"}, {"output key off the curve", "form"}, {"no inputs", "form"}, {"coinbase input", "form"},
  {"deposit below the minimum", "dep"}, {"deposit term not allowed", "dep"}, {"more signatures required than keys", "form"}, {"multisignature output in a version 1 transaction", "form"},
  {"withdrawal before the term", "dep"}, {"withdrawal claiming one unit more", "dep"}, {"withdrawal with another term", "dep"}, {"withdrawal with another signature count", "dep"}, {"withdrawal of a consumed output", "dep"}, {"one output withdrawn twice in a transaction", "dep"},
  {"withdrawal signed by another key", "dep"}, {"multisignature index past the end", "dep"}, {"one bit of a withdrawal signature", "dep"}, {"signature list of the wrong length", "sig"}, {"ring with a repeated member", "form0"},
  {"amount of the input raised", "money"}, {"withdrawal input amount raised", "money"}, {"signatures of two inputs exchanged", "sig"}, {"one signature for two required", "dep"}};
static const size_t kBadN = sizeof(kBad) / sizeof(kBad[0]);

inline Bad makeBad(Hist& h, const State& s, size_t kind) {
  World& w = h.w; vf::Gen& g = h.g; Bad r; r.why = kBad[kind].name; r.group = kBad[kind].group; uint64_t f = w.minFee(s.height()); World::TxSpec t; World::Spend c;
  auto plain = [&](uint64_t min) { if (!freeCoin(w, s, std::max<uint64_t>(min, f + 1), c)) return false; t.in = {c}; t.ring = g.range(1, 3); t.outs = {{c.amount - f, (int)g.draw(w.acc.size())}}; return true; };
  auto dep = [&](World::Dep& d, bool term = true, bool mature = true) {
    auto ds = w.deposits(s, mature); std::vector<World::Dep> ok;
    for (auto& x : ds) { bool isTerm = x.ref.tx->outs[x.ref.out].term; if (isTerm == term && x.amount > 2 * f) ok.push_back(x); }
    if (ok.empty()) return false; d = g.pick(ok); return true;
  };
  auto interest = [&](const World::Dep& d) { uint32_t term = d.ref.tx->outs[d.ref.out].term; return w.interest(d.amount, term, s.height()); };
  auto outKey = [](cn::Transaction& x, size_t i) -> PublicKey& { return boost::get<cn::KeyOutput>(x.outputs[i].target).key; };
  size_t bit = g.draw(512);
  switch (kind) {
    case 0: if (!plain(0)) return r; r.good = w.build(s, t); t.after = [bit](cn::Transaction& x) { auto& q = x.signatures[0][bit % x.signatures[0].size()]; ((uint8_t*)&q)[bit / 8] ^= 1 << (bit % 8); }; break;
    case 1: if (!plain(0)) return r; r.good = w.build(s, t); switch (g.draw(3)) { case 0: t.after = [](cn::Transaction& x) { x.unlockTime ^= 1; }; break; case 1: t.after = [](cn::Transaction& x) { x.extra.push_back(0); }; break; default: { int to = (int)((t.outs[0].to + 1) % w.acc.size()); PublicKey other = w.acc[to].k.address.spendPublicKey; t.after = [outKey, other](cn::Transaction& x) { outKey(x, 0) = other; }; } } break;
    case 2: { if (!plain(0)) return r; r.good = w.build(s, t); PublicKey p; SecretKey k; crypto::generate_keys(p, k); KeyImage ki; crypto::generate_key_image(p, k, ki); t.tweak = [ki](cn::Transaction& x) { boost::get<cn::KeyInput>(x.inputs[0]).keyImage = ki; }; break; }
    case 3: {
      // sign with I + T: verifies when the challenge is a multiple of two, so a few attempts give a valid ring equation
      if (!plain(0)) return r; t.ring = 1; KeyImage ki = torsioned(w.keyImageOf(c.ref)); const auto& out = boost::get<cn::KeyOutput>(c.ref.tx->tx.outputs[c.ref.out].target).key;
      t.tweak = [ki](cn::Transaction& x) { boost::get<cn::KeyInput>(x.inputs[0]).keyImage = ki; };
      // the secret key of the coin
      crypto::KeyDerivation d; crypto::generate_key_derivation(c.ref.tx->txPub, w.acc[c.owner].k.viewSecretKey, d); SecretKey sec; crypto::derive_secret_key(d, c.ref.out, w.acc[c.owner].k.spendSecretKey, sec);
      bool* made = new bool(false); std::shared_ptr<bool> keep(made);
      t.after = [ki, out, sec, keep](cn::Transaction& x) {
        Hash ph = cn::getObjectHash(*static_cast<cn::TransactionPrefix*>(&x)); std::vector<const PublicKey*> pk = {&out};
        for (int i = 0; i < 64 && !*keep; i++) { crypto::generate_ring_signature(ph, ki, pk, sec, 0, x.signatures[0].data()); *keep = crypto::check_ring_signature(ph, ki, pk, x.signatures[0].data()); }
      };
      r.tx = w.build(s, t); if (*keep) g.label("torsion image with a verifying ring equation"); w.allKi.push_back(ki); return r;
    }
    case 4: { if (!plain(0)) return r; t.ring = 2; auto& all = s.keyOuts.at(c.amount); if (all.size() < 3) return r; r.good = w.build(s, t); if (r.good->kin[0].idx.size() < 2) return r; uint32_t n = (uint32_t)all.size();
      t.after = [n](cn::Transaction& x) { auto& o = boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes; uint32_t last = 0; for (auto v : o) last += v; if (last + 1 < n) o.back() += 1; else if (o.back() > 1) o.back() -= 1; else { o[0] -= 1; } }; break; }
    case 5: { if (!plain(0)) return r; r.good = w.build(s, t); uint32_t n = (uint32_t)s.keyOuts.at(c.amount).size(), add = g.oneof<uint32_t>({0, 1, 1000, 0x7fffffff}); t.tweak = [n, add](cn::Transaction& x) { auto& o = boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes; if (o.size() > 1) { uint32_t sum = 0; for (size_t i = 0; i + 1 < o.size(); i++) sum += o[i]; o.back() = n - sum + add; } else o[0] = n + add; }; break; }
    case 6: {  // own coin still locked, or a locked decoy
      std::vector<World::Spend> locked; for (auto& a : s.keyOuts) for (size_t i = 0; i < a.second.size(); i++) { auto& x = a.second[i]; if (!x.tx->outs[x.out].owners.empty() && !w.unlockedAt(s, x.tx->tx.unlockTime) && a.first > f) locked.push_back({x, a.first, (uint32_t)i, x.tx->outs[x.out].owners[0]}); }
      if (locked.empty()) return r; t.in = {g.pick(locked)}; t.ring = 1; t.outs = {{t.in[0].amount - f, 0}}; break; }
    case 7: { auto sp = w.spendable(s); std::vector<World::Spend> u; for (auto& x : sp) if (x.amount > f && s.spent.count(w.keyImageOf(x.ref))) u.push_back(x); if (u.empty()) return r; t.in = {g.pick(u)}; t.ring = g.range(1, 3); t.outs = {{t.in[0].amount - f, (int)g.draw(w.acc.size())}}; break; }
    case 8: { if (!plain(0)) return r; r.good = w.build(s, t); t.in.push_back(c); t.ring = g.flip() ? 1 : 2; t.outs = {{2 * c.amount - f, 0}}; break; }
    case 9: { if (!plain(0)) return r; r.good = w.build(s, t); uint64_t a = c.amount; t.tweak = [a](cn::Transaction& x) { auto& k = boost::get<cn::KeyInput>(x.inputs[0]); k.amount = a + 7; x.outputs[0].amount += 7; }; break; }
    case 10: if (!plain(0)) return r; r.good = w.build(s, t); t.tweak = [](cn::Transaction& x) { boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes.clear(); }; t.after = [](cn::Transaction& x) { x.signatures[0].clear(); }; break;
    case 11: if (!plain(0)) return r; r.good = w.build(s, t); t.outs[0].amount = c.amount + g.oneof<uint64_t>({1, 2, 11, 1000}); break;
    case 12: { if (!plain(0)) return r; r.good = w.build(s, t); uint64_t half = 1ull << 63; switch (g.draw(3)) { case 0: t.outs = {{half, 0}, {half, 0}, {c.amount - f, 1}}; break; case 1: t.outs = {{~0ull, 0}, {c.amount - f + 1, 1}}; break; default: t.outs = {{half, 0}, {half - 1, 1}, {c.amount - f + 1, 1}}; } break; }
    case 13: if (!plain(0)) return r; r.good = w.build(s, t); t.outs.push_back({0, 0}); break;
    case 14: { if (!plain(0)) return r; r.good = w.build(s, t); vf::Rng q(g.seed()); PublicKey bad; do q.fill(&bad, 32); while (crypto::check_key(bad)); t.tweak = [outKey, bad](cn::Transaction& x) { outKey(x, 0) = bad; }; break; }
    case 15: if (!plain(0)) return r; r.good = w.build(s, t); t.in.clear(); break;
    case 16: if (!plain(0)) return r; r.good = w.build(s, t); t.in.clear(); t.tweak = [&s](cn::Transaction& x) { cn::BaseInput b; b.blockIndex = s.height(); x.inputs.push_back(b); }; break;
    case 17: case 18: case 19: case 20: {
      uint64_t a = w.cfg.depMinAmount; if (!plain(a + f)) return r; uint64_t rest = c.amount - f - a; World::OutSpec o{a, 0}; o.msig = true; o.term = g.pick(w.terms()); o.owners = {0}; o.req = 1; t.outs = {o}; if (rest) t.outs.push_back({rest, 0});
      r.good = w.build(s, t);
      if (kind == 17) { uint64_t less = g.oneof<uint64_t>({1, a - 1, a / 2}); t.outs[0].amount = a - less; if (!rest) t.outs.push_back({less, 0}); else t.outs[1].amount += less; }
      else if (kind == 18) { uint32_t m = w.cfg.depMinV3, M = w.cfg.depMaxV3; t.outs[0].term = g.oneof<uint32_t>({m - 1, m + 1, M + m, M + 1, M - 1, 1, 0xffffffffu, 0x80000000u, m * 0x1000000u}); }
      else if (kind == 19) t.tweak = [](cn::Transaction& x) { boost::get<cn::MultisignatureOutput>(x.outputs[0].target).requiredSignatureCount = 2; };
      else t.version = cn::TRANSACTION_VERSION_1;
      break;
    }
    case 21: { auto ds = w.deposits(s, false); std::vector<World::Dep> ok; for (auto& x : ds) { uint32_t term = x.ref.tx->outs[x.ref.out].term; if (term && x.ref.height + term > s.height()) ok.push_back(x); } if (ok.empty()) return r; auto d = g.pick(ok); if (d.amount <= f) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; break; }
    case 22: { World::Dep d; if (!dep(d)) return r; t.deps = {d}; t.outs = {{d.amount + interest(d) - f, 0}}; r.good = w.build(s, t); t.outs[0].amount = d.amount + interest(d) + g.oneof<uint64_t>({1, 2, 10, 1000}); break; }
    case 23: { World::Dep d; if (!dep(d)) return r; t.deps = {d}; t.outs = {{d.amount + interest(d) - f, 0}}; r.good = w.build(s, t); uint32_t term = d.ref.tx->outs[d.ref.out].term; uint32_t nt = g.oneof<uint32_t>({0, term + w.cfg.depMinV3, 1}); if (nt == term) return r; t.outs = {{d.amount - f, 0}}; t.tweak = [nt](cn::Transaction& x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).term = nt; }; break; }
    case 24: { World::Dep d; if (!dep(d, g.flip())) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); uint32_t req = d.ref.tx->outs[d.ref.out].req; uint8_t n = g.flip() ? 0 : (uint8_t)(req + 1);
      t.tweak = [n](cn::Transaction& x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).signatureCount = n; }; t.after = [n](cn::Transaction& x) { crypto::Signature q = x.signatures[0].empty() ? crypto::Signature() : x.signatures[0][0]; x.signatures[0].resize(n, q); }; break; }
    case 25: { std::vector<World::Dep> u; for (auto& a : s.msigOuts) for (size_t i = 0; i < a.second.size(); i++) if (a.second[i].used && !a.second[i].tx->outs[a.second[i].out].owners.empty() && a.first > f) u.push_back({a.second[i], a.first, (uint32_t)i}); if (u.empty()) return r; auto d = g.pick(u); t.deps = {d}; t.outs = {{d.amount - f, 0}}; break; }
    case 26: { World::Dep d; if (!dep(d, g.flip())) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); t.deps = {d, d}; t.outs = {{2 * d.amount - f, 0}}; break; }
    case 27: { World::Dep d; if (!dep(d)) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); int o = d.ref.tx->outs[d.ref.out].owners[0], other = (o + 1) % (int)w.acc.size();
      PublicKey tp = d.ref.tx->txPub; uint32_t oi = d.ref.out; auto ak = w.acc[other].k; t.after = [tp, oi, ak](cn::Transaction& x) { crypto::KeyDerivation dv; crypto::generate_key_derivation(tp, ak.viewSecretKey, dv); PublicKey p; SecretKey k; crypto::derive_public_key(dv, oi, ak.address.spendPublicKey, p); crypto::derive_secret_key(dv, oi, ak.spendSecretKey, k); crypto::generate_signature(cn::getObjectHash(*static_cast<cn::TransactionPrefix*>(&x)), p, k, x.signatures[0][0]); }; break; }
    case 28: { World::Dep d; if (!dep(d, g.flip())) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); uint32_t n = (uint32_t)s.msigOuts.at(d.amount).size() + g.oneof<uint32_t>({0, 1, 0x7fffffff}); t.tweak = [n](cn::Transaction& x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).outputIndex = n; }; break; }
    case 29: { World::Dep d; if (!dep(d, g.flip())) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); t.after = [bit](cn::Transaction& x) { auto& q = x.signatures[0][bit % x.signatures[0].size()]; ((uint8_t*)&q)[bit / 8] ^= 1 << (bit % 8); }; break; }
    case 30: { if (!plain(0)) return r; r.good = w.build(s, t); bool more = g.flip(); t.after = [more](cn::Transaction& x) { if (more) x.signatures[0].push_back(x.signatures[0][0]); else x.signatures[0].pop_back(); }; break; }
    case 31: { if (!plain(0)) return r; r.good = w.build(s, t); t.ring = 1; uint32_t gi = c.gidx; (void)gi; t.tweak = [](cn::Transaction& x) { boost::get<cn::KeyInput>(x.inputs[0]).outputIndexes.push_back(0); }; break; }
    case 32: { if (!plain(0)) return r; r.good = w.build(s, t); // claims a larger existing amount
      std::vector<uint64_t> big; for (auto& a : s.keyOuts) if (a.first > c.amount) big.push_back(a.first); if (big.empty()) return r; uint64_t a = g.pick(big); uint64_t add = a - c.amount; t.tweak = [a, add](cn::Transaction& x) { boost::get<cn::KeyInput>(x.inputs[0]).amount = a; x.outputs[0].amount += add; }; break; }
    case 33: { World::Dep d; if (!dep(d)) return r; t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); uint64_t a = d.amount + g.oneof<uint64_t>({1, 1000000}); t.tweak = [a, f](cn::Transaction& x) { boost::get<cn::MultisignatureInput>(x.inputs[0]).amount = a; x.outputs[0].amount = a - f; };
      if (s.msigOuts.count(a) && s.msigOuts.at(a).size() > d.gidx) { auto& q = s.msigOuts.at(a)[d.gidx]; auto& qo = q.tx->outs[q.out]; if (!qo.owners.empty() && qo.owners == d.ref.tx->outs[d.ref.out].owners && q.tx == d.ref.tx) return r; } break; }
    case 34: { World::Spend a, b; if (!freeCoin(w, s, f + 1, a)) return r; if (!freeCoin(w, s, f + 1, b, {w.keyImageOf(a.ref)})) return r; t.in = {a, b}; t.ring = 1; t.outs = {{a.amount + b.amount - f, 0}}; r.good = w.build(s, t); t.after = [](cn::Transaction& x) { std::swap(x.signatures[0], x.signatures[1]); }; break; }
    case 35: { auto ds = w.deposits(s, true); std::vector<World::Dep> ok; for (auto& x : ds) { auto& o = x.ref.tx->outs[x.ref.out]; if (o.req == 2 && x.amount > f) ok.push_back(x); } if (ok.empty()) return r; auto d = g.pick(ok); t.deps = {d}; t.outs = {{d.amount - f, 0}}; r.good = w.build(s, t); t.after = [](cn::Transaction& x) { x.signatures[0][1] = x.signatures[0][0]; }; break; }
  }
  size_t nki = w.allKi.size(); r.tx = w.build(s, t); (void)nki;
  if (r.good && r.good->id == r.tx->id) r.tx = nullptr;
  return r;
}

static const char* kBadBlock[] = {"major version", "timestamp too far ahead", "timestamp before the median", "work below the difficulty", "work under another algorithm", "coinbase unlock time", "coinbase height", "two coinbase inputs", "no coinbase input", "coinbase spends a key input",
  "coinbase pays more", "coinbase pays less", "coinbase output sum wraps around", "coinbase zero output", "coinbase output key off the curve", "unknown transaction listed", "transaction listed twice", "confirmed transaction listed", "transaction hash bit flipped", "coinbase deposit with a bad term", "coinbase transaction listed", "coinbase with two signatures", "version 1 coinbase with a multisignature output", "larger than the size limit"};
static const size_t kBadBlockN = sizeof(kBadBlock) / sizeof(kBadBlock[0]);
// A copy of good (child of its prev) broken in one way; null when not applicable.
inline BlockP breakBlock(Hist& h, const BlockP& good, size_t kind) {
  World& w = h.w; vf::Gen& g = h.g; const State& s = *good->prev->state; uint32_t ht = s.height(); cn::Block b = good->b; auto txs = good->txs; auto& cb = b.baseTransaction; uint64_t d = w.difficulty(s);
  auto key0 = [&]() -> PublicKey& { return boost::get<cn::KeyOutput>(cb.outputs[0].target).key; };
  switch (kind) {
    case 0: { uint8_t v = g.oneof<uint8_t>({1, 2, 3, 4, 7, 8}); if (v == b.majorVersion) return nullptr; b.majorVersion = v; b.nonce = powNonce(v, d); break; }
    case 1: b.timestamp = vf_env::getTime() + 2 * 60 * 60 + g.oneof<uint64_t>({1, 2, 1000, 1ull << 40, 1ull << 62}); break;
    case 2: { std::vector<uint64_t> ts; for (size_t i = 0; i < w.cfg.tsWindow && i < s.chain.size(); i++) ts.push_back(s.chain[s.chain.size() - 1 - i]->b.timestamp); if (ts.size() < w.cfg.tsWindow) return nullptr; std::sort(ts.begin(), ts.end()); size_t k = ts.size() / 2; uint64_t m = ts.size() % 2 ? ts[k] : (ts[k - 1] + ts[k]) / 2; b.timestamp = m - g.oneof<uint64_t>({1, 1, 100, m - 1}); break; }
    case 3: if (d < 2) return nullptr; b.nonce = powNonce(b.majorVersion, g.flip() ? d - 1 : g.range(1, d - 1)); break;
    case 4: { if (d < 2) return nullptr; uint32_t alg = b.nonce >> 28, a2 = (alg % 4) + 1; b.nonce = a2 << 28 | (b.nonce & 0x0fffffff); break; }
    case 5: cb.unlockTime += g.oneof<int64_t>({-1, 1, -10, 1000}); break;
    case 6: { auto& bi = boost::get<cn::BaseInput>(cb.inputs[0]); bi.blockIndex += g.oneof<int32_t>({-1, 1}); break; }
    case 7: cb.inputs.push_back(cb.inputs[0]); break;
    case 8: cb.inputs.clear(); break;
    case 9: { World::Spend c; if (!freeCoin(w, s, 1, c)) return nullptr; cn::KeyInput k; k.amount = c.amount; k.outputIndexes = {c.gidx}; k.keyImage = w.keyImageOf(c.ref); cb.inputs[0] = k; break; }
    case 10: cb.outputs[0].amount += g.oneof<uint64_t>({11, 12, 1000, 1ull << 50}); break;
    case 11: { uint64_t x = g.oneof<uint64_t>({1, 2, 10, 1000}); if (cb.outputs[0].amount <= x) return nullptr; cb.outputs[0].amount -= x; break; }
    case 12: { auto o = cb.outputs[0]; o.amount = 1ull << 63; cb.outputs.push_back(o); cb.outputs.push_back(o); break; }
    case 13: { auto o = cb.outputs[0]; o.amount = 0; cb.outputs.push_back(o); break; }
    case 14: { vf::Rng q(g.seed()); do q.fill(&key0(), 32); while (crypto::check_key(key0())); break; }
    case 15: { Hash x; vf::Rng q(g.seed()); q.fill(&x, 32); b.transactionHashes.insert(b.transactionHashes.begin() + g.draw(b.transactionHashes.size() + 1), x); break; }
    case 16: if (b.transactionHashes.empty()) return nullptr; b.transactionHashes.push_back(b.transactionHashes[0]); break;
    case 17: { std::vector<TxP> c; for (auto& x : s.chain) for (auto& t : x->txs) c.push_back(t); if (c.empty()) return nullptr; TxP t = g.pick(c); b.transactionHashes.push_back(t->id); txs.push_back(t); break; }
    case 18: if (b.transactionHashes.empty()) return nullptr; ((uint8_t*)&b.transactionHashes[0])[g.draw(32)] ^= 1 << g.draw(8); break;
    case 19: { cn::MultisignatureOutput m; m.requiredSignatureCount = 1; m.keys = {key0()}; m.term = w.cfg.depMaxV3 + 1; cb.version = cn::TRANSACTION_VERSION_2; cb.outputs[0].target = m; break; }
    case 20: b.transactionHashes.push_back(s.chain[g.range(1, s.chain.size() - 1)]->coinbase->id); break;
    case 22: { cn::MultisignatureOutput m; m.requiredSignatureCount = 1; m.keys = {key0()}; m.term = 0; cb.version = cn::TRANSACTION_VERSION_1; cb.outputs[g.draw(cb.outputs.size())].target = m; break; }
    case 23: { size_t sz = good->coinbase->blob.size(), lim = w.sizeLimit(ht) + g.oneof<size_t>({1, 1, 40, 20000}); for (auto& t : txs) sz += t->blob.size(); if (sz > lim) return nullptr; cb.extra.insert(cb.extra.end(), lim - sz - 2, 0); while (cn::getObjectBinarySize(cb) - good->coinbase->blob.size() + sz < lim) cb.extra.push_back(0); break; }
    case 21: { std::vector<crypto::Signature> x; cb.signatures.push_back(x); cb.signatures.push_back(x); break; }
  }
  (void)ht;
  BlockP n = w.finish(good->prev, b, txs, false);
  if (n->blob.empty() || n->id == good->id) return nullptr;
  n->bad = std::string(kBadBlock[kind]); return n;
}
// What the node itself reports as its main chain, checked for double spends without the model.
inline void scanChain(Hist& h, const char* tag) {
  cn::core& c = *h.n->c; uint32_t top; Hash tid; c.get_blockchain_top(top, tid);
  std::map<KeyImage, std::string> spent; std::map<std::pair<uint64_t, uint32_t>, std::string> ms; std::map<uint64_t, std::vector<std::pair<uint64_t, uint32_t>>> keyOuts; std::map<uint64_t, std::vector<std::pair<uint32_t, uint32_t>>> msOuts;  // (unlock,height) and (height,term)
  std::set<std::string> ids;
  for (uint32_t ht = 0; ht <= top; ht++) {
    cn::Block b; VF_CHECK(c.getBlockByHash(c.getBlockIdByHeight(ht), b), tag, "block %u cannot be read", ht);
    std::list<cn::Transaction> txs; std::list<Hash> missed; std::vector<Hash> want = b.transactionHashes; c.getTransactions(want, txs, missed, false);
    VF_CHECK(missed.empty() && txs.size() == want.size(), tag, "block %u lists %zu transactions, the node returns %zu", ht, want.size(), txs.size());
    std::vector<cn::Transaction> all = {b.baseTransaction}; for (auto& t : txs) all.push_back(t);
    for (auto& t : all) {
      std::string id = hx(getObjectHash(t)); VF_CHECK(ids.insert(id).second, tag, "transaction %s is on the main chain twice", id.c_str());
      for (auto& in : t.inputs) {
        if (in.type() == typeid(cn::KeyInput)) { auto& k = boost::get<cn::KeyInput>(in); auto r = spent.insert({k.keyImage, id}); VF_CHECK(r.second, tag, "height %u: key image spent by %s and by %s", ht, r.first->second.c_str(), id.c_str());
          uint32_t idx = 0; for (auto o : k.outputIndexes) { idx += o; auto& v = keyOuts[k.amount]; VF_CHECK(idx < v.size(), tag, "height %u: ring member %u of amount %llu did not exist before its block", ht, idx, (unsigned long long)k.amount); VF_CHECK(v[idx].first <= ht || (v[idx].first >= 500000000 && vf_env::getTime() + 120 >= v[idx].first), tag, "height %u: ring member %u locked until %llu", ht, idx, (unsigned long long)v[idx].first); } }
        else if (in.type() == typeid(cn::MultisignatureInput)) { auto& m = boost::get<cn::MultisignatureInput>(in); auto r = ms.insert({{m.amount, m.outputIndex}, id}); VF_CHECK(r.second, tag, "height %u: multisignature output (%llu,%u) consumed by %s and by %s", ht, (unsigned long long)m.amount, m.outputIndex, r.first->second.c_str(), id.c_str());
          auto& v = msOuts[m.amount]; VF_CHECK(m.outputIndex < v.size(), tag, "height %u: multisignature output did not exist", ht); VF_CHECK(!v[m.outputIndex].second || v[m.outputIndex].first + v[m.outputIndex].second <= ht, "C07", "height %u: deposit created at %u with term %u consumed", ht, v[m.outputIndex].first, v[m.outputIndex].second); }
      }
    }
    for (auto& t : all) for (auto& o : t.outputs) { if (o.target.type() == typeid(cn::KeyOutput)) keyOuts[o.amount].push_back({t.unlockTime, ht}); else msOuts[o.amount].push_back({ht, boost::get<cn::MultisignatureOutput>(o.target).term}); }
  }
  h.g.evals += spent.size() + ms.size();
}
inline void scanDeposits(Hist& h) { scanChain(h, "C07"); }
}  // namespace cw
