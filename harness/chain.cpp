// C01-C05: ledger histories against a linear-scan model and a fresh node.
#include "chainbad.h"
#include "CryptoNoteCore/Difficulty.h"
#include <boost/multiprecision/cpp_int.hpp>
using namespace cw; using namespace cn;

VF_PROP("C01.history", 900, 20000, "a case grows a random block tree (transfers, deposits, withdrawals, conflicting blocks) into one node; non-trivial when it went through a reorganization or refused a block, and mined transactions") {
  HistCfg hc; hc.trunk = 13;
  Hist h(g, Hist::pickCfg(g), hc); h.trunk("C01");
  size_t k = 0;
  while (g.more(k, 16)) { k++; h.step("C01"); if (g.chance(1, 8)) h.compareModel("C01", "mid-history"); }
  if (g.chance(1, 4)) {   // rollback command, then the same blocks again
    uint32_t to = (uint32_t)g.range(11, h.main->height); auto chain = h.main->state->chain; h.n->c->rollback_chain_to(to);
    h.main = chain[to]; g.note("rollback to %u", to); h.compareModel("C01.rollback", "after a rollback"); g.label("rollback");
    h.alts.clear();
    for (uint32_t i = to + 1; i < chain.size(); i++) { Bvc v = h.n->feed(chain[i]); VF_CHECK(v.added, "C01.rollback", "block %u is refused after a rollback: %s", i, v.str().c_str()); h.main = chain[i]; }
  }
  h.finalCompare("C01");
  g.label("reorganizations", h.reorgs); g.label("transactions mined", h.txsMined); g.label("deposits mined", h.depMined); g.label("withdrawals mined", h.wdMined);
  if ((h.reorgs || h.refusedSwitch) && h.txsMined) g.nontrivial();
}

// ------------------------------------------------------------------ C02
VF_PROP("C02.spend", 900, 20000, "conflict-heavy histories: blocks, branches and relayed transactions competing for the same outputs; non-trivial when at least three conflicting submissions were made") {
  HistCfg hc; hc.trunk = 14; hc.wConflict = 10; hc.wExtend = 8; hc.wFork = 6; hc.wPool = 2; hc.wRepeat = 1;
  Hist h(g, Hist::pickCfg(g), hc); h.trunk("C02"); size_t k = 0, conflicts = 0;
  while (g.more(k, 14)) {
    k++;
    if (g.chance(1, 3)) {   // relay a transaction competing with the chain or the pool
      const State& s = *h.main->state; static const size_t kinds[] = {7, 8, 25, 26, 5, 28, 9, 3, 21, 6}; size_t kind = kinds[g.draw(10)]; Bad b = makeBad(h, s, kind);
      if (b.tx) { bool kept = g.chance(1, 3); Tvc v = h.n->tx(b.tx, kept); conflicts++; g.label("relayed: " + b.why); if (!kept) VF_CHECK(!v.added, "C02.relay", "%s: relayed transaction admitted to the pool (%s)", b.why.c_str(), v.str().c_str());
        // and try to have it mined
        BlockP m = h.w.finish(h.main, [&] { BlockP e = h.w.build(h.main, {}, h.opt()); cn::Block x = e->b; x.transactionHashes = {b.tx->id}; return x; }(), {b.tx}, false); m->bad = b.why; h.feed(m, "C02.block"); }
      // two relayed transactions for one coin
      World::Spend c; uint64_t f = h.w.minFee(s.height());
      if (g.flip() && freeCoin(h.w, s, f + 2, c)) { World::TxSpec t; t.in = {c}; t.outs = {{c.amount - f, 0}}; TxP a = h.w.build(s, t); t.outs = {{c.amount - f, 1}}; t.ring = g.range(1, 3); TxP b2 = h.w.build(s, t); Tvc va = h.n->tx(a, false), vb = h.n->tx(b2, false); conflicts++;
        VF_CHECK(!(va.added && vb.added), "C02.relay", "two relayed transactions spending one coin were both admitted"); }
    } else h.step("C02");
    if (g.chance(1, 6)) scanChain(h, "C02");
  }
  scanChain(h, "C02"); h.finalCompare("C02"); scanChain(h, "C02");
  uint64_t c2 = 0; for (auto& l : g.labels) if (l.first.compare(0, 9, "conflict:") == 0) c2 += l.second;
  if (conflicts + c2 >= 3) g.nontrivial();
}

// ------------------------------------------------------------------ C04
namespace {
Dump fullDump(Hist& h) { Dump d = dump(h.w, *h.n); Dump p = poolDump(*h.n); d.insert(d.end(), p.begin(), p.end()); return d; }
// good is a child of parent; bad a broken variant. Feeds bad by a path, requires that nothing changes, then good.
void refuse(Hist& h, const BlockP& bad, const BlockP& good, const char* tag, const char* path) {
  for (auto& t : bad->txs) h.n->tx(t, true); for (auto& t : good->txs) h.n->tx(t, true);
  Dump before = fullDump(h); BlockP top = h.main; Bvc v = h.n->block(bad); h.g.evals++;
  VF_CHECK(!v.added && !v.switched, tag, "block with a broken rule (%s) accepted via %s: %s", bad->bad.c_str(), path, v.str().c_str());
  std::string d = diff(before, fullDump(h), "before", "after"); VF_CHECK(d.empty(), tag, "refusing a block (%s, via %s) changed the node:%s", bad->bad.c_str(), path, d.c_str());
  VF_CHECK(v.failed || v.orphan || v.exists || !strcmp(path, "alternative") || !v.ret, tag, "block with a broken rule (%s) via %s: no refusal reported (%s)", bad->bad.c_str(), path, v.str().c_str());
  h.g.label(std::string("refused via ") + path);
  h.feed(good, tag);
}
}
VF_PROP("C04.block", 1000, 25000, "a broken block (22 block rules, 36 transaction rules) arrives on the main path, as an alternative or as the block that triggers a reorganization; non-trivial when the broken block carried transactions or came by a side branch") {
  HistCfg hc; hc.trunk = 13; Hist h(g, Hist::pickCfg(g), hc); h.trunk("C04"); size_t k = 0;
  while (g.more(k, 4)) { k++; h.step("C04"); }
  size_t rounds = 0, done = 0; bool nt = false;
  while (rounds++ < 3) {
    size_t path = g.weighted({3, 2, 3}); static const char* names[] = {"main", "alternative", "reorganization"};
    BlockP parent = h.main;
    if (path) {  // a sibling of the tip, so that the next block is heavier
      if (h.main->height < 12) continue; BlockP p = h.main->prev;
      if (path == 2) { hc.carry = true; BlockP sib = h.mk(p, g.draw(2)); if (!sib) continue; h.feed(sib, "C04"); if (h.main == sib) continue; if (h.alts.count(key(sib->id)) == 0) continue; parent = sib; }
      else parent = p;
    }
    BlockP good = h.mk(parent, g.range(0, 2)), bad; if (!good) continue;
    bool txKind = g.flip();
    if (!txKind) {
      bad = breakBlock(h, good, g.draw(kBadBlockN));
    } else {
      size_t kind = g.draw(kBadN); if (kind == 31) kind = 0; Bad b = makeBad(h, *parent->state, kind);
      if (!b.tx) { g.label("no material: " + std::string(kBad[kind].name)); continue; }
      cn::Block x = good->b; auto txs = good->txs; std::set<KeyImage> ki; for (auto& q : b.tx->kin) ki.insert(q.ki); bool clash = false; for (auto& t : txs) for (auto& q : t->kin) clash |= ki.count(q.ki);
      size_t at = clash ? 0 : g.draw(txs.size() + 1); if (clash) { x.transactionHashes.clear(); txs.clear(); }
      // coinbase stays the good block's: pay the reward that fits when the rule is about the transaction alone
      x.transactionHashes.insert(x.transactionHashes.begin() + at, b.tx->id); txs.insert(txs.begin() + at, b.tx);
      // a well-paid coinbase for exactly these transactions, so that only the broken rule is broken
      BlockP alt = h.w.build(parent, clash ? std::vector<TxP>() : good->txs, h.opt());
      if (alt) { uint64_t fee = h.w.minFee(parent->state->height()); uint64_t extra = fee; alt->b.baseTransaction.outputs[0].amount += extra; x.baseTransaction = alt->b.baseTransaction; }
      bad = h.w.finish(parent, x, txs, false); bad->bad = b.why;
    }
    if (!bad) { g.label("no material: block"); continue; }
    g.label("rule: " + bad->bad); g.note("round %zu: %s via %s", rounds, bad->bad.c_str(), names[path]);
    if (!bad->txs.empty() || path) nt = true; done++;
    refuse(h, bad, good, "C04", names[path]);
  }
  h.compareModel("C04", "after refused blocks");
  if (done && nt) g.nontrivial();
}
VF_PROP("C04.target", 300000, 20000000, "a hash and a difficulty, the hash close to the limit in two of three cases: accepted exactly if hash (256-bit little endian) times difficulty stays below 2^256; non-trivial: product within two difficulties of the limit or an inner carry decides") {
  typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>> B;
  uint64_t d = g.flip() ? g.u64() : g.oneof<uint64_t>({1, 2, 3, 100, 1000003, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, 0xffffffffffffffffull, 1ull << g.draw(64)}); if (!d) d = 1;
  B lim = B(1) << 256, h; size_t mode = g.draw(3); vf::Rng r(g.seed());
  if (mode == 0) { for (int i = 0; i < 4; i++) h = (h << 64) | (g.flip() ? r.next() : g.u64()); h >>= (unsigned)g.draw(256); }
  else { h = (lim + d - 1) / d; int64_t k = (int64_t)g.draw(5) - 2; if (mode == 2) { B delta = B(1) << (unsigned)g.draw(200); delta -= (unsigned)g.draw(2); h = g.flip() ? B(h + delta) : (h > delta ? B(h - delta) : B(0)); } else if (k >= 0) h += (unsigned)k; else h = h > B((unsigned)-k) ? B(h - (unsigned)-k) : B(0); if (h >= lim) h = lim - 1; g.nontrivial(); }
  crypto::Hash x; B t = h; for (int i = 0; i < 32; i++) { x.data[i] = (uint8_t)(t & 0xff).convert_to<unsigned>(); t >>= 8; }
  bool want = h * d < lim; g.label(want ? "meets the target" : "misses the target");
  VF_CHECK(check_hash(x, d) == want, "target", "hash %s with difficulty %llu: %s expected", vf::hex(std::string((char*)x.data, 32)).c_str(), (unsigned long long)d, want ? "acceptance" : "refusal");
}

VF_PROP("C04.tx", 1200, 30000, "a transaction broken in one of 36 ways is relayed, then its intact form; non-trivial when the broken one was built from valid material") {
  HistCfg hc; hc.trunk = 13; Hist h(g, Hist::pickCfg(g), hc); h.trunk("C04"); size_t k = 0;
  while (g.more(k, 5)) { k++; h.step("C04"); }
  bool nt = false;
  for (int i = 0; i < 6; i++) {
    size_t kind = g.draw(kBadN); const State& s = *h.main->state; Bad b = makeBad(h, s, kind); if (!b.tx) { g.label("no material: " + std::string(kBad[kind].name)); continue; }
    if (kind == 31) { if (b.tx->kin[0].idx.size() != 1) continue; }
    Dump before = fullDump(h); Tvc v = h.n->tx(b.tx, false); g.evals++; nt = true; g.label("rule: " + b.why);
    VF_CHECK(!v.added && (v.failed || !v.ret), "C04.tx", "relayed transaction breaking a rule (%s) was answered %s", b.why.c_str(), v.str().c_str());
    std::string d = diff(before, fullDump(h), "before", "after"); VF_CHECK(d.empty(), "C04.tx", "refusing a transaction (%s) changed the node:%s", b.why.c_str(), d.c_str());
    if (b.good && h.w.txBad(s, *b.good).empty()) {
      std::set<KeyImage> inPool; for (auto& t : h.n->c->getPoolTransactions()) for (auto& in : t.inputs) if (in.type() == typeid(KeyInput)) inPool.insert(boost::get<KeyInput>(in).keyImage);
      std::set<std::pair<uint64_t, uint32_t>> ms; for (auto& t : h.n->c->getPoolTransactions()) for (auto& in : t.inputs) if (in.type() == typeid(MultisignatureInput)) ms.insert({boost::get<MultisignatureInput>(in).amount, boost::get<MultisignatureInput>(in).outputIndex});
      bool clash = false; for (auto& q : b.good->kin) clash |= inPool.count(q.ki); for (auto& q : b.good->min) clash |= ms.count({q.amount, q.idx});
      if (!clash) { Tvc w = h.n->tx(b.good, false); VF_CHECK(w.added && !w.failed, "C04.tx", "the intact transaction is refused (%s) after its broken form (%s)", w.str().c_str(), b.why.c_str()); g.label("intact transaction admitted"); }
    }
  }
  if (nt) g.nontrivial();
}
