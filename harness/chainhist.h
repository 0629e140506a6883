// History driver shared by the chain properties: grows a block tree, feeds one node, predicts its main chain.
#pragma once
#include "chainworld.h"
#include <algorithm>
namespace cw {
struct HistCfg { uint32_t trunk = 14; unsigned wExtend = 10, wFork = 6, wDeep = 2, wConflict = 2, wBadAmount = 0, wPool = 3, wRepeat = 1, wOrphan = 1; unsigned txWeight = 5; bool carry = true; };
enum Outcome { ADDED, ALT, SWITCHED, ORPHAN, EXISTS, REFUSED, IGNORED };
inline const char* oname(Outcome o) { static const char* n[] = {"added", "alternative", "switched", "orphan", "exists", "refused", "ignored"}; return n[o]; }

struct Hist {
  vf::Gen& g; World w; HistCfg hc; std::unique_ptr<Node> n; BlockP main; std::map<std::string, BlockP> alts; std::vector<BlockP> made;
  bool truncated = false; uint64_t discarded = 0, reorgs = 0, refusedSwitch = 0, alternatives = 0, txsMined = 0, depMined = 0, wdMined = 0; unsigned maxDepth = 0;
  static Cfg pickCfg(vf::Gen& g) {
    Cfg c;
    if (g.chance(1, 3)) { c.v8 = 6; }
    return c;
  }
  Hist(vf::Gen& g_, const Cfg& c, const HistCfg& h = HistCfg(), cn::Checkpoints* cp = nullptr) : g(g_), w(g_, c), hc(h) {
    dnsRecords.clear(); n.reset(new Node(w, w.newDir(), true, cp)); main = w.genesis;
  }
  bool isMain(const BlockP& b) const { return b->height < main->state->chain.size() && main->state->chain[b->height] == b; }
  BlockP forkPoint(BlockP b) const { while (!isMain(b)) b = b->prev; return b; }
  std::map<uint32_t, Hash> cps;      // checkpoints in force
  // May an alternative block at this height be considered when the chain has this many blocks?
  bool altAllowed(uint32_t size, uint32_t h) const {
    if (!h) return false; bool inZone = !cps.empty() && h <= cps.rbegin()->first;
    if (size >= 10 && h < size - 10 && !inZone) return false;
    auto it = cps.upper_bound(size); return it == cps.begin() || (--it)->first < h;
  }
  void mergeDns() { for (auto& r : dnsRecords) { size_t d = r.find(':'); if (d == std::string::npos || !d) continue; std::string hs = r.substr(0, d); if (hs.find_first_not_of("0123456789") != std::string::npos || hs.size() > 9) continue; Hash x; std::string q = r.substr(d + 1, 64); if (q.size() != 64 || !common::podFromHex(q, x)) continue; cps.insert({(uint32_t)std::stoul(hs), x}); } }
  bool connected(const BlockP& b) const { BlockP p = b->prev; return isMain(p) || alts.count(key(p->id)); }

  bool predictKnown(const BlockP& b) const { return isMain(b) || alts.count(key(b->id)); }
  std::string branchBad(BlockP b) const { while (!isMain(b)) { if (!b->bad.empty()) return b->bad; b = b->prev; } return ""; }
  // What the node must do with b, and the resulting main chain.
  Outcome predict(const BlockP& b, std::string* why = nullptr) {
    auto say = [&](const char* s) { if (why) *why = s; };
    if (isMain(b) || alts.count(key(b->id))) return EXISTS;
    if (b->prev == main) { if (cps.count(b->height) && !(cps[b->height] == b->id)) { say("checkpoint"); return REFUSED; } if (!b->bad.empty()) { say(b->bad.c_str()); return REFUSED; } main = b; return ADDED; }
    uint32_t size = main->height + 1;
    mergeDns(); if (!altAllowed(size, b->height)) { say("alternative not allowed there"); return REFUSED; }
    if (b->bad == "larger than the size limit") { say(b->bad.c_str()); return REFUSED; }
    if (!connected(b)) return ORPHAN; for (BlockP x = b->prev; !isMain(x); x = x->prev) if (!alts.count(key(x->id))) { say("its branch lost a refused block"); return IGNORED; }
    bool isCp = cps.count(b->height); if (isCp && !(cps[b->height] == b->id)) { say("checkpoint"); return REFUSED; }
    alts[key(b->id)] = b; alternatives++;
    if (!isCp && b->cum() <= main->cum()) return ALT;
    BlockP f = forkPoint(b); std::vector<BlockP> branch, old;
    for (BlockP x = b; x != f; x = x->prev) branch.push_back(x);
    for (BlockP x = main; x != f; x = x->prev) old.push_back(x);
    std::reverse(branch.begin(), branch.end()); std::reverse(old.begin(), old.end());
    std::set<std::string> have; for (auto& x : branch) for (auto& t : x->txs) have.insert(key(t->id));
    for (auto& x : old) for (auto& t : x->txs) if (!have.count(key(t->id))) { say("lacks a confirmed transaction"); refusedSwitch++; return REFUSED; }
    bool disc = isCp; for (auto& x : old) if (cps.count(x->height) && !(cps[x->height] == x->id)) disc = true;
    uint32_t nsize = b->height + 1;
    if (!disc) for (auto& x : old) if (!altAllowed(nsize, x->height)) { say("reorganization too deep"); refusedSwitch++; return REFUSED; }
    for (size_t i = 0; i < branch.size(); i++) {
      bool cp = cps.count(branch[i]->height) && !(cps[branch[i]->height] == branch[i]->id);
      if (branch[i]->bad.empty() && !cp) continue;
      say(cp ? "branch contradicts a checkpoint" : branch[i]->bad.c_str()); for (size_t j = i; j < branch.size(); j++) alts.erase(key(branch[j]->id)); refusedSwitch++;
      // the old chain comes back, except from a block on that contradicts a checkpoint learnt meanwhile
      for (auto& x : old) if (cps.count(x->height) && !(cps[x->height] == x->id)) { main = x->prev; truncated = true; g.label("old chain contradicts a checkpoint"); break; }
      return REFUSED;
    }
    for (auto& x : branch) alts.erase(key(x->id));
    if (!disc) for (auto& x : old) alts[key(x->id)] = x; else discarded++;
    reorgs++; maxDepth = std::max<unsigned>(maxDepth, old.size()); main = b; return SWITCHED;
  }
  // Feed and compare with the prediction (tag names the property's check).
  Outcome feed(const BlockP& b, const char* tag, bool withTxs = true) {
    std::string why; BlockP before = main; Outcome o = predict(b, &why);
    Bvc v = withTxs ? n->feed(b) : n->block(b);
    Hash top = n->top();
    g.note("feed %s h=%u prev=%s txs=%zu cum=%llu bad=[%s] -> expect %s %s; got %s top=%s", sh(b->id).c_str(), b->height, sh(b->prev->id).c_str(), b->txs.size(), (unsigned long long)b->cum(), b->bad.c_str(), oname(o), why.c_str(), v.str().c_str(), sh(top).c_str());
    VF_CHECK(top == main->id, tag, "after feeding block %s (height %u, cumulative work %llu; expected: %s %s) the main chain top is %s, expected %s (was %s, work %llu); node said %s", sh(b->id).c_str(), b->height, (unsigned long long)b->cum(), oname(o), why.c_str(), sh(top).c_str(), sh(main->id).c_str(), sh(before->id).c_str(), (unsigned long long)before->cum(), v.str().c_str());
    bool ok = true;
    switch (o) {
      case ADDED: ok = v.added && !v.failed && !v.switched; break;
      case ALT: ok = !v.added && !v.failed && !v.orphan && !v.exists; break;
      case SWITCHED: ok = v.added && v.switched && !v.failed; break;
      case ORPHAN: ok = v.orphan && !v.added; break;
      case EXISTS: ok = v.exists && !v.added; break;
      case REFUSED: ok = !v.added && v.failed; break;
      case IGNORED: ok = !v.added; break;
    }
    VF_CHECK(ok, tag, "block %s (height %u): expected %s (%s), node answered %s", sh(b->id).c_str(), b->height, oname(o), why.c_str(), v.str().c_str());
    if (o == ADDED || o == SWITCHED) { txsMined += b->txs.size(); for (auto& t : b->txs) { if (!t->min.empty()) wdMined++; for (auto& x : t->outs) depMined += x.msig; } }
    g.evals++; g.label(std::string("block ") + oname(o));
    return o;
  }
  uint64_t feeFor(uint32_t) { return w.minFee(main->height + 1); }
  std::vector<TxP> pickTxs(const BlockP& parent, size_t want) {
    const State& s = *parent->state; std::vector<TxP> r; std::set<KeyImage> ki; std::set<std::pair<uint64_t, uint32_t>> ms; std::set<std::string> ids;
    auto take = [&](const TxP& t) {
      if (!t || ids.count(key(t->id)) || s.txs.count(key(t->id)) || !w.txBad(s, *t).empty()) return false;
      for (auto& k : t->kin) if (ki.count(k.ki)) return false;
      for (auto& k : t->min) if (ms.count({k.amount, k.idx})) return false;
      for (auto& k : t->min) if (k.term && w.inAmount(*t, s.height()) < w.outAmount(*t)) return false;
      for (auto& k : t->kin) ki.insert(k.ki); for (auto& k : t->min) ms.insert({k.amount, k.idx}); ids.insert(key(t->id)); r.push_back(t); return true;
    };
    if (hc.carry && !isMain(parent)) {   // branch: carry over what the main chain confirmed since the fork
      BlockP f = forkPoint(parent); for (uint32_t h = f->height + 1; h <= main->height; h++) for (auto& t : main->state->chain[h]->txs) take(t);
    } else if (hc.carry && parent != main) for (uint32_t h = parent->height + 1; h <= main->height; h++) for (auto& t : main->state->chain[h]->txs) if (g.chance(7, 8)) take(t);
    for (size_t i = 0; i < want; i++) {
      TxP t; uint64_t f = w.minFee(s.height());
      switch (g.weighted({5, 3, 3})) {
        case 0: t = w.randomTransfer(s, ki, f); break;
        case 1: t = w.randomDeposit(s, ki, f); break;
        default: t = w.randomWithdraw(s, ms);
      }
      take(t);
    }
    return r;
  }
  BlockOpt opt() { BlockOpt o; o.miner = (int)g.draw(w.acc.size()); o.dt = g.oneof<int64_t>({0, 0, 60, 600, -60, -110, 240}); o.maxOuts = g.range(1, 5); return o; }
  BlockP mk(const BlockP& parent, size_t want) { BlockP b = w.build(parent, pickTxs(parent, want), opt()); if (b) made.push_back(b); return b; }
  // A block breaking the spending rules in one way; null when there is no material.
  BlockP mkConflict(const BlockP& parent) {
    const State& s = *parent->state; std::set<KeyImage> none; std::set<std::pair<uint64_t, uint32_t>> nm;
    std::vector<TxP> txs; std::string bad; uint64_t f = w.minFee(s.height());
    switch (g.draw(7)) {
      case 0: {  // spend something this branch has spent
        auto sp = w.spendable(s); std::vector<World::Spend> used; for (auto& x : sp) if (s.spent.count(w.keyImageOf(x.ref)) && x.amount > f) used.push_back(x);
        if (used.empty()) return nullptr; World::TxSpec t; t.in = {g.pick(used)}; t.ring = g.range(1, 3); t.outs = {{t.in[0].amount - f, 0}}; txs = {w.build(s, t)}; bad = "key image spent on this branch"; break;
      }
      case 1: {  // two transactions spending the same coin
        TxP a = w.randomTransfer(s, none, f); if (!a) return nullptr; World::TxSpec t; auto sp = w.spendable(s);
        for (auto& x : sp) if (w.keyImageOf(x.ref) == a->kin[0].ki) t.in = {x}; if (t.in.empty() || t.in[0].amount <= 2 * f) return nullptr;
        t.ring = g.range(1, 2); t.outs = {{t.in[0].amount - f - 1 - (f > 500 ? 0 : 0), 1}}; if (w.cfg.v8 < s.height()) t.outs[0].amount = t.in[0].amount - f;
        TxP b = w.build(s, t); if (b->id == a->id) return nullptr; txs = {a, b}; if (g.flip()) std::swap(txs[0], txs[1]); bad = "two transactions of the block spend one coin"; break;
      }
      case 2: {  // the same transaction twice
        TxP a = g.flip() ? w.randomTransfer(s, none, f) : w.randomWithdraw(s, nm); if (!a) return nullptr; txs = {a, a}; bad = "a transaction listed twice"; break;
      }
      case 3: {  // two withdrawals of one multisignature output
        auto d = w.deposits(s, true); if (d.empty()) return nullptr; auto x = g.pick(d); uint64_t have = x.amount; if (have <= 3 * f) return nullptr;
        World::TxSpec t; t.deps = {x}; t.outs = {{have - f, 0}}; TxP a = w.build(s, t); t.outs = {{have - f, 1}}; TxP b = w.build(s, t); txs = {a, b}; bad = "two withdrawals of one output"; break;
      }
      case 4: {  // withdrawal of an output this branch has consumed
        std::vector<World::Dep> u; for (auto& a : s.msigOuts) for (size_t i = 0; i < a.second.size(); i++) if (a.second[i].used && !a.second[i].tx->outs[a.second[i].out].owners.empty()) u.push_back({a.second[i], a.first, (uint32_t)i});
        if (u.empty()) return nullptr; auto x = g.pick(u); World::TxSpec t; t.deps = {x}; if (x.amount <= f) return nullptr; t.outs = {{x.amount - f, 0}}; txs = {w.build(s, t)}; bad = "multisignature output consumed on this branch"; break;
      }
      case 5: {  // a transaction the branch already contains
        std::vector<TxP> c; for (auto& b : s.chain) for (auto& t : b->txs) c.push_back(t); if (c.empty()) return nullptr; txs = {g.pick(c)}; bad = "transaction already confirmed"; break;
      }
      default: {  // an output that does not exist yet: created by another transaction of the same block
        TxP a = g.flip() ? w.randomTransfer(s, none, f) : w.randomDeposit(s, none, f); if (!a) return nullptr; State s2 = s; w.apply(s2, a);
        for (size_t i = 0; i < a->outs.size(); i++) if (!a->outs[i].msig && a->outs[i].amount > f) {
          auto& v = s2.keyOuts[a->outs[i].amount]; World::TxSpec t; for (size_t k = 0; k < v.size(); k++) if (v[k].tx == a && v[k].out == i) t.in = {{v[k], a->outs[i].amount, (uint32_t)k, a->outs[i].owners[0]}};
          if (t.in.empty()) continue; t.outs = {{a->outs[i].amount - f, 0}}; TxP b = w.build(s2, t); txs = {a, b}; break;
        }
        if (txs.empty()) return nullptr; bad = "spends an output created in the same block";
      }
    }
    BlockP b = w.build(parent, txs, opt()); if (!b) return nullptr;
    b->bad = bad; g.label("conflict: " + bad); return b;
  }
  void trunk(const char* tag) {
    for (uint32_t i = 0; i < hc.trunk; i++) {
      BlockP b = i + 4 < hc.trunk || i < 3 ? w.build(main, {}, [&] { BlockOpt o; o.miner = (int)(i % w.acc.size()); o.maxOuts = 4; return o; }()) : mk(main, g.range(0, 2));
      feed(b, tag);
    }
  }
  BlockP pickParent(bool deep) {
    if (made.empty()) return main; std::vector<BlockP> c;
    uint32_t lim = deep ? 14 : 5;
    for (auto& b : made) if (b->height + lim > main->height && b->height <= main->height + 3 && b->height >= 11) c.push_back(b);
    for (uint32_t h = main->height; h >= 11 && h + lim > main->height; h--) c.push_back(main->state->chain[h]);
    if (c.empty()) return main;
    return g.pick(c);
  }
  // one random step
  void step(const char* tag) {
    switch (g.weighted({hc.wExtend, hc.wFork, hc.wDeep, hc.wConflict, hc.wPool, hc.wRepeat, hc.wOrphan})) {
      case 0: { BlockP b = mk(main, g.range(0, 3)); if (b) feed(b, tag); break; }
      case 1: case 2: {  // grow a branch by one to four blocks
        BlockP p = pickParent(g.chance(1, 6)); size_t k = g.range(1, 4);
        for (size_t i = 0; i < k; i++) { BlockP b = mk(p, g.weighted({3, 3, 1})); if (!b) break; feed(b, tag); p = b; }
        break;
      }
      case 3: {
        BlockP p = g.flip() ? main : pickParent(false); BlockP b = mkConflict(p); if (!b) break;
        feed(b, tag); if (g.flip()) { BlockP c = w.build(b, {}, opt()); if (c) feed(c, tag); }
        break;
      }
      case 4: {
        const State& s = *main->state; std::set<KeyImage> none; std::set<std::pair<uint64_t, uint32_t>> nm; TxP t; uint64_t f = w.minFee(s.height());
        switch (g.draw(3)) { case 0: t = w.randomTransfer(s, none, f); break; case 1: t = w.randomDeposit(s, none, f); break; default: t = w.randomWithdraw(s, nm); }
        if (t) { Tvc v = n->tx(t, false); g.note("relay tx %s: %s", sh(t->id).c_str(), v.str().c_str()); g.label(v.added ? "pool admitted" : "pool refused"); }
        break;
      }
      case 5: { if (!made.empty()) feed(g.pick(made), tag); break; }
      default: {  // child before parent: orphan, then parent, then child again
        BlockP a = mk(main, g.range(0, 1)); if (!a) break; BlockP b = mk(a, g.range(0, 1)); if (!b) break;
        feed(b, tag); feed(a, tag); feed(b, tag); break;
      }
    }
  }
  std::unique_ptr<Node> fresh(const BlockP& tip, const char* tag) {
    std::unique_ptr<Node> m(new Node(w, w.newDir()));
    for (auto& b : tip->state->chain) { if (b->height == 0) continue; Bvc v = m->feed(b); VF_CHECK(v.added, tag, "a fresh node refuses block %u of the main chain: %s", b->height, v.str().c_str()); }
    return m;
  }
  void compareModel(const char* tag, const char* when) {
    std::string d = diff(dump(w, *n), modelDump(w, *main->state), "node", "linear scan"); g.evals++;
    VF_CHECK(d.empty(), tag, "%s: the node's ledger is not what a linear scan of its main chain gives:%s", when, d.c_str());
  }
  void finalCompare(const char* tag) {
    compareModel(tag, "at the end");
    auto f = fresh(main, tag);
    std::string d = diff(dump(w, *n), dump(w, *f), "this node", "fresh node fed the main chain only"); g.evals++;
    VF_CHECK(d.empty(), tag, "ledger differs from a fresh node fed only the final main chain:%s", d.c_str());
    // the future: a block consuming every mature deposit and freed coins must be accepted by both
    hc.carry = false; BlockP b = mk(main, 6); if (!b) return;
    Bvc a = n->feed(b), c = f->feed(b); g.evals++;
    VF_CHECK(a.added && c.added, tag, "next block (%zu transactions): history node %s, fresh node %s", b->txs.size(), a.str().c_str(), c.str().c_str());
    main = b; d = diff(dump(w, *n), dump(w, *f), "this node", "fresh node"); VF_CHECK(d.empty(), tag, "after one more block the ledgers differ:%s", d.c_str());
  }
};
}  // namespace cw
