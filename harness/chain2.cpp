// C03, C05, C07-C10: money, fork choice, deposits, templates, queries, checkpoints.
#include "chainbad.h"
#include <CryptoNoteCore/DepositIndex.h>
using namespace cw; using namespace cn;

// ------------------------------------------------------------------ C03
VF_PROP("C03.money", 700, 16000, "histories whose blocks vary the coinbase around the reward (-2..+13), carry arbitrary fees, and vary in size across the penalty zone and both size limits, with money-creating transactions mixed in; non-trivial when a penalty applied or an overpaying block or transaction was refused") {
  Cfg c = Hist::pickCfg(g); if (g.chance(3, 4)) c.zone = g.range(700, 2500);
  bool tight = g.chance(1, 2); if (tight) { c.maxInit = g.range(1300, 2600); c.growDen = 1; c.growNum = g.range(0, 60); }
  HistCfg hc; hc.trunk = 13; Hist h(g, c, hc); World& w = h.w; size_t k = 0, penal = 0, refused = 0;
  hc.trunk = 13; h.hc.trunk = 13;
  // trunk by hand: blocks must respect the small size limits
  for (uint32_t i = 0; i < hc.trunk; i++) { BlockOpt o; o.miner = (int)(i % w.acc.size()); o.maxOuts = 4; h.feed(w.build(h.main, {}, o), "C03"); }
  auto audit = [&](const char* when) {
    // supply: everything unspent equals what has been emitted plus the tolerated coinbase surplus
    const State& s = *h.main->state; u128 all = 0, in = 0;
    for (auto& a : s.keyOuts) all += (u128)a.first * a.second.size();
    for (auto& a : s.msigOuts) for (auto& r : a.second) if (!r.used) all += a.first;
    for (auto& b : s.chain) for (auto& t : b->txs) for (auto& i : t->kin) in += i.amount;
    u128 over = 0; for (auto o : s.over) over += o;
    cn::core& q = *h.n->c; uint64_t emitted = q.getTotalGeneratedAmount(); g.evals++;
    VF_CHECK((u128)emitted + over == all - in, "C03.supply", "%s: the node reports %llu emitted coins; unspent outputs on its main chain hold %llu (of which coinbase surplus %llu)", when, (unsigned long long)emitted, (unsigned long long)(all - in), (unsigned long long)over);
    for (uint32_t x = 0; x < s.height(); x++) VF_CHECK(q.coinsEmittedAtHeight(x) == s.coins[x], "C03.emitted", "%s: %llu coins emitted at height %u, the sum of rewards and interest is %llu", when, (unsigned long long)q.coinsEmittedAtHeight(x), x, (unsigned long long)s.coins[x]);
  };
  while (g.more(k, 14)) {
    k++; BlockP parent = h.main; if (g.chance(1, 4) && h.main->height > 12) parent = g.flip() ? h.main->prev : h.main->prev->prev;
    const State& s = *parent->state; std::vector<TxP> txs; BlockOpt o = h.opt();
    size_t what = g.weighted({6, 4, 4, 4});
    bool fees = g.flip(); size_t want = g.range(0, 3);
    if (fees && s.height() <= c.v8) { std::set<KeyImage> ki; for (size_t i = 0; i < want; i++) { TxP t = w.randomTransfer(s, ki, g.oneof<uint64_t>({10, 11, 1000, 999999, 100000000})); if (!t || t->kin.empty() || !w.txBad(s, *t).empty()) continue; for (auto& x : t->kin) ki.insert(x.ki); txs.push_back(t); } }
    else txs = h.pickTxs(parent, want);
    if (parent != h.main) { txs = h.pickTxs(parent, 0); }
    if (what == 1) o.rewardDelta = (int64_t)g.range(0, 10);
    if (what == 2) o.rewardDelta = g.oneof<int64_t>({-1, -2, 11, 12, 13, 1000000, 10, 9});
    if (what == 3 || g.chance(1, 3)) o.dust = g.range(0, 60), o.big = true;
    std::string why;
    if (what == 0 && parent == h.main && g.chance(1, 3)) {   // a money-creating transaction, relayed and mined with a coinbase that fits
      static const size_t kinds[] = {11, 12, 22, 32, 33, 23}; Bad b = makeBad(h, s, kinds[g.draw(6)]);
      if (b.tx) { Tvc v = h.n->tx(b.tx, false); VF_CHECK(!v.added, "C03.tx", "relayed transaction that creates money (%s) admitted: %s", b.why.c_str(), v.str().c_str());
        BlockP e = w.build(parent, {}, o); if (!e) continue; cn::Block x = e->b; x.transactionHashes = {b.tx->id}; BlockP m = w.finish(parent, x, {b.tx}, false); m->bad = b.why; h.n->tx(b.tx, true); h.feed(m, "C03.tx"); refused++; g.label("refused: " + b.why); continue; }
    }
    BlockP b = w.build(parent, txs, o); if (!b) { g.label("too big to build"); continue; }
    uint64_t med = std::max<uint64_t>(w.medianSize(s), c.zone), size = b->coinbase->blob.size(); for (auto& t : b->txs) size += t->blob.size();
    if (b->bad.empty() && size > med) { penal++; g.label("penalised block"); }
    if (!b->bad.empty()) { refused++; g.label("refused: " + b->bad); }
    if (b->over) g.label("coinbase surplus");
    h.feed(b, "C03"); if (!b->bad.empty() && parent == h.main && g.flip()) { BlockP good = h.mk(parent, 1); if (good && good->bad.empty()) h.feed(good, "C03"); }
    if (g.chance(1, 5)) { h.compareModel("C03", "mid-history"); audit("mid-history"); }
  }
  audit("at the end"); h.compareModel("C03", "at the end"); { auto f = h.fresh(h.main, "C03"); std::string d = diff(dump(w, *h.n), dump(w, *f), "this node", "fresh node"); VF_CHECK(d.empty(), "C03", "differs from a fresh node:%s", d.c_str()); }
  if (penal || refused) g.nontrivial();
}

// ------------------------------------------------------------------ C05
VF_PROP("C05.forkchoice", 2400, 18000, "a block tree of competing branches with uneven work (timestamps far apart or close) arrives in a shuffled order, parents before children, possibly with a broken block inside a branch; oracle: most cumulative work among fully valid chains, first seen on ties; a second node gets another order; non-trivial when the main chain switched at least once") {
  HistCfg hc; hc.trunk = 13; Hist h(g, Hist::pickCfg(g), hc); World& w = h.w; h.trunk("C05"); BlockP base = h.main;
  std::vector<BlockP> pool = {base}, tree; size_t k = 0; bool anyBad = false;
  auto bopt = [&] { BlockOpt o; o.miner = (int)g.draw(3); o.maxOuts = 2; o.dt = g.oneof<int64_t>({0, 0, -110, -115, 1500, 600, 5000}); return o; };
  while (g.more(k, 16)) {
    k++; BlockP p; switch (g.weighted({4, 2, 2})) { case 0: p = tree.empty() ? base : tree.back(); break; case 1: p = g.pick(pool); break; default: p = base; }
    if (p->height >= base->height + 7 || !p->state) continue;
    BlockP b = w.build(p, {}, bopt()); if (!b) continue;
    if (g.chance(1, 12)) { BlockP x = breakBlock(h, b, g.oneof<size_t>({10, 11, 15})); if (x) { x->state = b->state; x->work = b->work; b = x; anyBad = true; } }
    tree.push_back(b); pool.push_back(b);
  }
  if (tree.empty()) return;
  auto order = [&](std::vector<BlockP> v) { std::vector<BlockP> out; std::set<BlockP> done = {base}; while (!v.empty()) { std::vector<size_t> ready; for (size_t i = 0; i < v.size(); i++) if (done.count(v[i]->prev)) ready.push_back(i); size_t i = ready[g.draw(ready.size())]; out.push_back(v[i]); done.insert(v[i]); v.erase(v.begin() + i); } return out; };
  auto valid = [&](BlockP b) { for (; b != base; b = b->prev) if (!b->bad.empty()) return false; return true; };
  size_t before = h.reorgs; uint64_t best = base->cum(); std::set<std::string> tops = {key(base->id)}; Hash bestTop = base->id;
  for (auto& b : order(tree)) {
    // immediate refusals hide the descendants of a broken block; feed them all the same (orphans)
    h.feed(b, "C05");
    if (valid(b) && b->cum() > best) { best = b->cum(); bestTop = b->id; }
    VF_CHECK(h.n->top() == bestTop, "C05", "the heaviest valid chain seen ends in %s (work %llu), the node's main chain in %s", sh(bestTop).c_str(), (unsigned long long)best, sh(h.n->top()).c_str());
  }
  g.evals += tree.size();
  h.compareModel("C05", "after the last block");
  // the same blocks in another order
  Node m(w, w.newDir()); for (auto& b : base->state->chain) if (b->height) m.feed(b);
  uint64_t best2 = base->cum(); Hash top2 = base->id; auto o2 = order(tree);
  if (g.flip()) { std::stable_sort(o2.begin(), o2.end(), [](const BlockP& a, const BlockP& b) { return a->height < b->height; }); }
  for (auto& b : o2) { m.block(b); if (valid(b) && b->cum() > best2) { best2 = b->cum(); top2 = b->id; } VF_CHECK(m.top() == top2, "C05.order", "in another arrival order: heaviest valid chain ends in %s, the node's in %s", sh(top2).c_str(), sh(m.top()).c_str()); }
  VF_CHECK(best == best2, "C05.order", "different work for the same blocks");
  g.label("switches", h.reorgs - before); if (anyBad) g.label("tree with a broken block"); if (h.reorgs > before) g.nontrivial();
}
VF_PROP("C05.depth", 900, 6000, "a branch starting 1..14 below the tip grows until heavier; oracle: adopted exactly when its first block is within the permitted depth at every arrival; afterwards the node is unchanged or fully on the new branch") {
  HistCfg hc; hc.trunk = 16; Hist h(g, Hist::pickCfg(g), hc); World& w = h.w; for (uint32_t i = 0; i < hc.trunk; i++) { BlockOpt o; o.miner = i % 3; h.feed(w.build(h.main, {}, o), "C05"); }
  size_t extra = g.range(0, 6); for (size_t i = 0; i < extra; i++) h.feed(w.build(h.main, {}, h.opt()), "C05");
  uint32_t depth = (uint32_t)g.range(1, 14); if (depth > h.main->height - 1) depth = h.main->height - 1;
  BlockP p = h.main->state->chain[h.main->height - depth]; BlockP f = p; size_t n = depth + g.range(0, 3);
  for (size_t i = 0; i < n; i++) { BlockOpt o = h.opt(); if (g.flip()) o.dt = g.oneof<int64_t>({-110, -100, 300}); BlockP b = w.build(p, {}, o); if (!b) break; h.feed(b, "C05.depth"); p = b; if (g.chance(1, 6)) { BlockP m = w.build(h.main, {}, h.opt()); if (m) h.feed(m, "C05.depth"); } }
  h.compareModel("C05.depth", "after the branch"); BlockP nx = w.build(h.main, {}, h.opt()); if (nx) h.feed(nx, "C05.depth");
  g.label(vf::strf("depth %u", depth)); if (depth >= 8) g.nontrivial(); g.label(h.reorgs ? "adopted" : "not adopted");
}

// ------------------------------------------------------------------ C07
VF_PROP("C07.deposits", 1700, 16000, "deposit lifecycles: creation with every term and amount, withdrawals one block early, exactly at the term, later, twice, with one unit more interest, in blocks, relayed and on branches; legacy term/interest rules in some cases; non-trivial when at least two deposits were withdrawn") {
  Cfg c = Hist::pickCfg(g); bool legacy = g.chance(1, 4); if (legacy) { c.v8 = 100000; c.depH3 = (uint32_t)g.range(14, 20); c.depH4 = (uint32_t)g.range(14, 22); }
  HistCfg hc; hc.trunk = 13; if (legacy) hc.wFork = hc.wDeep = hc.wConflict = hc.wOrphan = 0; Hist h(g, c, hc); World& w = h.w; cn::core& q = *h.n->c;
  w.legacyTerms = legacy; h.trunk("C07"); size_t k = 0, wd = 0, early = 0; std::map<std::pair<uint64_t, uint32_t>, int> taken;
  while (g.more(k, 18)) {
    k++; const State& s = *h.main->state; uint64_t f = w.minFee(s.height());
    switch (g.weighted({5, 5, 3, 3, 2, legacy ? 0u : 2u, 2})) {
      case 0: {   // create
        std::vector<TxP> txs; std::set<KeyImage> ki; size_t n = g.range(1, 2);
        for (size_t i = 0; i < n; i++) { TxP t = w.randomDeposit(s, ki, f); if (!t) continue; for (auto& x : t->kin) ki.insert(x.ki); if (w.txBad(s, *t).empty()) txs.push_back(t); }
        BlockP b = w.build(h.main, txs, h.opt()); if (b) h.feed(b, "C07.create"); break; }
      case 1: {   // withdraw everything that just became mature, exactly at the term when possible
        auto ds = w.deposits(s, true); { std::set<std::pair<uint64_t, uint32_t>> held; for (auto& t : h.n->c->getPoolTransactions()) for (auto& i : t.inputs) if (i.type() == typeid(cn::MultisignatureInput)) held.insert({boost::get<cn::MultisignatureInput>(i).amount, boost::get<cn::MultisignatureInput>(i).outputIndex}); ds.erase(std::remove_if(ds.begin(), ds.end(), [&](const World::Dep& d) { return held.count({d.amount, d.gidx}) > 0; }), ds.end()); }
        std::stable_sort(ds.begin(), ds.end(), [&](const World::Dep& a, const World::Dep& b) { return a.ref.height + a.ref.tx->outs[a.ref.out].term > b.ref.height + b.ref.tx->outs[b.ref.out].term; });
        if (ds.empty()) break; World::TxSpec t; size_t n = std::min<size_t>(ds.size(), g.range(1, 3)); uint64_t sum = 0; bool exact = false;
        for (size_t i = 0; i < n; i++) { t.deps.push_back(ds[i]); uint32_t term = ds[i].ref.tx->outs[ds[i].ref.out].term; sum += ds[i].amount + w.interest(ds[i].amount, term, s.height()); exact |= term && ds[i].ref.height + term == s.height(); }
        if (sum <= f) break; t.outs = {{sum - f, (int)g.draw(3)}}; for (auto& d : t.deps) g.note("withdraw amount %llu created %u term %u at %u: interest %llu", (unsigned long long)d.amount, d.ref.height, d.ref.tx->outs[d.ref.out].term, s.height(), (unsigned long long)w.interest(d.amount, d.ref.tx->outs[d.ref.out].term, s.height())); TxP x = w.build(s, t);
        if (g.chance(1, 3)) { t.outs = {{sum + g.oneof<uint64_t>({1, 5, 1000}), 0}}; TxP over = w.build(s, t);
          if (!legacy) { Tvc v = h.n->tx(over, false); VF_CHECK(!v.added, "C07.overclaim", "a withdrawal paying out more than amount plus interest is admitted: %s", v.str().c_str()); BlockP e = w.build(h.main, {}, h.opt()); cn::Block bb = e->b; bb.transactionHashes = {over->id}; BlockP m = w.finish(h.main, bb, {over}, false); m->bad = "withdrawal claims too much interest"; h.feed(m, "C07.overclaim"); } }
        if (g.flip()) { Tvc v = h.n->tx(x, false); VF_CHECK(v.added || legacy, "C07.withdraw", "relayed withdrawal of %zu matured deposits refused: %s", n, v.str().c_str()); }
        BlockP b = w.build(h.main, {x}, h.opt()); if (!b) break; h.feed(b, "C07.withdraw"); wd += n; g.label(exact ? "withdrawn exactly at the term" : "withdrawn later");
        if (g.flip()) { t.outs = {{sum - f, (int)g.draw(3)}, }; TxP again = w.build(*h.main->state, t); if (again->id == x->id) break; Tvc v = h.n->tx(again, false); VF_CHECK(!v.added, "C07.twice", "a second withdrawal of a consumed deposit is admitted");
          BlockP e = w.build(h.main, {}, h.opt()); cn::Block bb = e->b; bb.transactionHashes = {again->id}; BlockP m = w.finish(h.main, bb, {again}, false); m->bad = "deposit already consumed"; h.n->tx(again, true); h.feed(m, "C07.twice"); }
        break; }
      case 2: {   // one to three blocks early
        auto ds = w.deposits(s, false); std::vector<World::Dep> ok; for (auto& d : ds) { uint32_t term = d.ref.tx->outs[d.ref.out].term; if (term && d.ref.height + term > s.height() && d.ref.height + term <= s.height() + 3 && d.amount > f) ok.push_back(d); }
        if (ok.empty()) break; auto d = g.pick(ok); World::TxSpec t; t.deps = {d}; t.outs = {{d.amount - f, 0}}; TxP x = w.build(s, t); early++; g.label(vf::strf("%u blocks early", d.ref.height + d.ref.tx->outs[d.ref.out].term - s.height()));
        Tvc v = h.n->tx(x, false); VF_CHECK(!v.added, "C07.early", "a withdrawal before the term is admitted: created at %u, term %u, next height %u", d.ref.height, d.ref.tx->outs[d.ref.out].term, s.height());
        BlockP e = w.build(h.main, {}, h.opt()); cn::Block bb = e->b; bb.transactionHashes = {x->id}; BlockP m = w.finish(h.main, bb, {x}, false); m->bad = "withdrawal before the term"; h.n->tx(x, true); h.feed(m, "C07.early"); break; }
      case 3: {   // let time pass
        size_t n = g.range(1, 3); for (size_t i = 0; i < n; i++) { BlockP b = w.build(h.main, {}, h.opt()); if (b) h.feed(b, "C07"); } break; }
      case 4: {   // broken deposit transactions
        static const size_t kinds[] = {17, 18, 19, 20, 22, 23, 24, 27, 29, 33}; if (legacy) break; Bad b = makeBad(h, s, kinds[g.draw(10)]); if (!b.tx) break; g.label("broken: " + b.why);
        Tvc v = h.n->tx(b.tx, false); VF_CHECK(!v.added, "C07.rules", "%s: admitted to the pool", b.why.c_str());
        BlockP e = w.build(h.main, {}, h.opt()); cn::Block bb = e->b; bb.transactionHashes = {b.tx->id}; BlockP m = w.finish(h.main, bb, {b.tx}, false); m->bad = b.why; h.n->tx(b.tx, true); h.feed(m, "C07.rules"); break; }
      case 5: {   // a branch replaces the last one to four blocks; deposits move to other heights
        if (h.main->height < 14) break; uint32_t d = (uint32_t)g.range(1, 4); BlockP p = h.main->state->chain[h.main->height - std::min<uint32_t>(d, h.main->height - 12)]; size_t n = d + 1; hc.carry = true;
        for (size_t i = 0; i < n; i++) { BlockP b = h.mk(p, g.weighted({4, 1})); if (!b) break; h.feed(b, "C07.branch"); p = b; } break; }
      default: h.step("C07");
    }
    if (g.chance(1, 4)) { const State& s2 = *h.main->state; for (uint32_t x = 0; x < s2.height(); x++) { VF_CHECK(q.depositAmountAtHeight(x) == (uint64_t)s2.depAmount[x], "C07.totals", "locked deposits at height %u: %llu, the chain implies %lld", x, (unsigned long long)q.depositAmountAtHeight(x), (long long)s2.depAmount[x]); VF_CHECK(q.depositInterestAtHeight(x) == s2.depInterest[x], "C07.totals", "interest up to height %u: %llu, the chain implies %llu", x, (unsigned long long)q.depositInterestAtHeight(x), (unsigned long long)s2.depInterest[x]); }
      VF_CHECK(q.fullDepositAmount() == (uint64_t)s2.depAmount.back(), "C07.totals", "full deposit amount"); }
  }
  h.compareModel("C07", "at the end"); scanDeposits(h);
  if (legacy) g.label("legacy rules"); g.label("withdrawn deposits", wd); g.label("early attempts", early); if (wd >= 2 || (wd && early)) g.nontrivial();
}

// ------------------------------------------------------------------ C08
VF_PROP("C08.template", 2000, 16000, "block templates requested at random moments of histories with a busy pool (transfers, deposits, withdrawals, TTL transactions, kept-by-block conflicts, reorganizations), small size limits in some cases; the template's block is mined and must be accepted; non-trivial when a template listed transactions") {
  Cfg c = Hist::pickCfg(g); if (g.chance(1, 3)) c.zone = g.range(1600, 4000); if (g.chance(1, 3)) { c.maxInit = g.range(2200, 4000); c.growDen = 1; c.growNum = g.range(0, 40); }
  HistCfg hc; hc.trunk = 13; hc.wPool = 12; hc.wExtend = 4; hc.wFork = 5; hc.wConflict = 3; hc.wDeep = 1; Hist h(g, c, hc); World& w = h.w;
  for (uint32_t i = 0; i < hc.trunk; i++) { BlockOpt o; o.miner = (int)(i % w.acc.size()); o.maxOuts = 4; h.feed(w.build(h.main, {}, o), "C08"); }
  size_t k = 0, listed = 0, made = 0;
  while (g.more(k, 16)) {
    k++;
    if (!g.chance(1, 3)) {
      if (g.chance(1, 8)) { const State& s = *h.main->state; World::Spend co; uint64_t now = vf_env::getTime(); if (freeCoin(w, s, 2, co)) { World::TxSpec t; t.in = {co}; t.outs = {{co.amount, 0}}; t.ttl = now + g.oneof<uint64_t>({1, 60, 3000}); TxP x = w.build(s, t); Tvc v = h.n->tx(x, false); g.label(v.added ? "TTL transaction in the pool" : "TTL transaction refused"); } }
      else if (g.chance(1, 8)) { vf_env::setTime(vf_env::getTime() + (int64_t)g.range(1, 400)); h.n->c->on_idle(); }
      else h.step("C08"); continue; }
    const State& s = *h.main->state; uint32_t ht = s.height(); int who = (int)g.draw(w.acc.size());
    cn::Block b; difficulty_type df = 0; uint32_t hh = 0; BinaryArray nonce = g.bytesv(g.oneof<size_t>({0, 8, 60, 120}));
    bool ok = h.n->c->get_block_template(b, w.acc[who].k.address, df, hh, nonce); made++; g.evals++;
    VF_CHECK(ok, "C08.make", "no template on height %u (pool of %zu)", ht, h.n->c->get_pool_transactions_count());
    VF_CHECK(hh == ht && df == w.difficulty(s) && b.previousBlockHash == h.main->id && b.majorVersion == w.version(ht), "C08.header", "template height %u (chain %u), difficulty %llu (due %llu), version %u (due %u)", hh, ht, (unsigned long long)df, (unsigned long long)w.difficulty(s), b.majorVersion, w.version(ht));
    std::vector<TxP> txs; std::set<KeyImage> ki; std::set<std::pair<uint64_t, uint32_t>> ms; std::set<std::string> ids; uint64_t fees = 0; size_t size = 0; u128 in = 0;
    for (auto& id : b.transactionHashes) {
      auto it = w.allTx.find(key(id)); VF_CHECK(it != w.allTx.end(), "C08.list", "the template lists an unknown transaction %s", sh(id).c_str()); TxP t = it->second; txs.push_back(t);
      VF_CHECK(ids.insert(key(id)).second, "C08.list", "transaction listed twice"); std::string bad = w.txBad(s, *t); VF_CHECK(bad.empty() && !s.txs.count(key(id)), "C08.list", "the template lists a transaction that is not valid now: %s", bad.empty() ? "already confirmed" : bad.c_str());
      for (auto& x : t->kin) VF_CHECK(ki.insert(x.ki).second, "C08.conflict", "two listed transactions spend one key image"); for (auto& x : t->min) VF_CHECK(ms.insert({x.amount, x.idx}).second, "C08.conflict", "two listed transactions consume one multisignature output");
      VF_CHECK(!t->ttl || t->ttl > (uint64_t)vf_env::getTime(), "C08.ttl", "an expired transaction is listed"); fees += w.fee(*t, ht); size += t->blob.size();
    }
    size += toBinaryArray(b.baseTransaction).size(); uint64_t rew; int64_t em; bool fits = w.reward(w.medianSize(s), size, s.coins.back(), fees, ht, rew, em);
    VF_CHECK(size <= w.sizeLimit(ht) && fits, "C08.size", "template of %zu bytes (limit %llu, median %llu)", size, (unsigned long long)w.sizeLimit(ht), (unsigned long long)w.medianSize(s));
    // every output of the coinbase is the requested address' and they sum up to reward plus fees
    uint64_t paid = 0; PublicKey tp = getTransactionPublicKeyFromExtra(b.baseTransaction.extra); crypto::KeyDerivation dv; VF_CHECK(crypto::generate_key_derivation(tp, w.acc[who].k.viewSecretKey, dv), "C08.pay", "coinbase key");
    for (size_t i = 0; i < b.baseTransaction.outputs.size(); i++) { auto& o = b.baseTransaction.outputs[i]; paid += o.amount; PublicKey e; crypto::derive_public_key(dv, i, w.acc[who].k.address.spendPublicKey, e); VF_CHECK(o.target.type() == typeid(KeyOutput) && boost::get<KeyOutput>(o.target).key == e, "C08.pay", "coinbase output %zu is not the requested address'", i); }
    VF_CHECK(paid == rew, "C08.pay", "the coinbase pays %llu, reward plus fees is %llu (size %zu, median %llu, fees %llu)", (unsigned long long)paid, (unsigned long long)rew, size, (unsigned long long)w.medianSize(s), (unsigned long long)fees);
    // completeness: what the pool holds, is valid, conflicts with nothing else in the pool, expires never and easily fits must be listed
    auto pool = h.n->c->getPoolTransactions(); std::map<KeyImage, int> pk; std::map<std::pair<uint64_t, uint32_t>, int> pm; size_t psz = 0; std::vector<TxP> pt;
    for (auto& t : pool) { auto it = w.allTx.find(key(getObjectHash(t))); if (it == w.allTx.end()) continue; pt.push_back(it->second); psz += it->second->blob.size(); for (auto& x : it->second->kin) pk[x.ki]++; for (auto& x : it->second->min) pm[{x.amount, x.idx}]++; }
    uint64_t room = std::min<uint64_t>(w.sizeLimit(ht), std::max<uint64_t>(w.medianSize(s), c.zone)); 
    if (psz + 1500 < room) for (auto& t : pt) { if (t->ttl || ids.count(key(t->id)) || !w.txBad(s, *t).empty() || s.txs.count(key(t->id)) || w.inAmount(*t, ht) < w.outAmount(*t)) continue; bool lone = true; for (auto& x : t->kin) lone &= pk[x.ki] == 1; for (auto& x : t->min) lone &= pm[{x.amount, x.idx}] == 1; VF_CHECK(!lone, "C08.complete", "a valid pool transaction (%zu bytes, fee %llu) is left out although there is room", t->blob.size(), (unsigned long long)w.fee(*t, ht)); }
    listed += txs.size(); g.label(txs.empty() ? "empty template" : "template with transactions"); if (psz + 1500 >= room) g.label("crowded pool");
    if (g.chance(1, 5)) { TxP t = w.randomTransfer(s, {}, w.minFee(ht)); if (t) h.n->tx(t, false); }
    b.nonce = powNonce(b.majorVersion, df); BlockP m = w.finish(h.main, b, txs, true); m->coinbase->hasPid = false; w.allTx[key(m->coinbase->id)] = m->coinbase; for (auto& o : m->coinbase->outs) w.amounts.insert(o.amount); uint64_t pow = b.timestamp; (void)pow;
    Outcome oc = h.predict(m); (void)oc; Bvc v = h.n->block(m); g.note("template: %zu transactions -> %s", txs.size(), v.str().c_str());
    VF_CHECK(v.added && h.n->top() == m->id, "C08.accept", "the mined template (height %u, %zu transactions, %zu bytes) is refused: %s", ht, txs.size(), size, v.str().c_str()); h.made.push_back(m);
  }
  h.compareModel("C08", "at the end"); g.label("templates", made); if (listed) g.nontrivial();
}

// ------------------------------------------------------------------ C10
VF_PROP("C10.chain", 2400, 16000, "a node with checkpoints on a reference chain gets that chain, contradicting siblings, branches below, across and above checkpoints, and DNS records; oracle: the checkpoint and depth rules restated; non-trivial when a contradicting block was offered or a checkpoint decided a switch") {
  Cfg c = Hist::pickCfg(g); HistCfg hc; hc.trunk = 0; Hist h(g, c, hc); World& w = h.w;
  BlockP ref = w.genesis; size_t n = 18 + g.range(0, 8); auto bopt = [&] { BlockOpt o; o.miner = (int)g.draw(3); o.maxOuts = 3; o.dt = g.oneof<int64_t>({0, 0, 0, 600, -110}); return o; };
  for (size_t i = 0; i < n; i++) { BlockP b = w.build(ref, {}, bopt()); if (!b) return; ref = b; }
  auto chain = ref->state->chain; cn::Checkpoints cp(w.log); size_t k = g.range(0, 3); 
  for (size_t i = 0; i < k; i++) { uint32_t at = (uint32_t)g.range(1, n + 2); Hash x; if (at <= n) x = chain[at]->id; else { vf::Rng q(g.seed()); q.fill(&x, 32); } bool fresh = !h.cps.count(at); bool r = cp.add_checkpoint(at, hx(x)); VF_CHECK(r == fresh, "C10.add", "add_checkpoint(%u) answered %d", at, r); h.cps.insert({at, x}); }
  h.n.reset(new Node(w, w.newDir(), true, &cp));
  size_t bad = 0; BlockP side; uint32_t upto = (uint32_t)g.range(12, n);
  auto contradict = [&](const BlockP& p) { return h.cps.count(p->height + 1); };
  for (uint32_t i = 1; i <= upto; i++) {
    if (g.chance(1, 5) && (i >= 12 || (h.main == chain[i - 1] && contradict(chain[i - 1])))) { BlockP p = chain[i - 1]; BlockP b = w.build(p, {}, bopt()); if (b) { if (contradict(p)) bad++; h.feed(b, "C10"); } }
    h.feed(chain[i], "C10");
    if (h.main != chain[i] && !h.alts.count(key(chain[i]->id))) break;
  }
  size_t steps = 0; std::vector<BlockP> mine;
  while (!h.truncated && g.more(steps, 14)) {
    steps++;
    switch (g.weighted({4, 3, 3, 2, 3})) {
      case 0: { uint32_t at = (uint32_t)g.range(0, n - 1); { auto keep = h.cps; h.mergeDns(); if (at < 11 && h.altAllowed(h.main->height + 1, at + 1)) at += 11; h.cps = keep; } BlockP p = chain[std::min<uint32_t>(at, n - 1)]; size_t len = g.range(1, 3); for (size_t i = 0; i < len; i++) { BlockP b = w.build(p, {}, bopt()); if (!b || !b->state) break; if (contradict(p)) bad++; h.feed(b, "C10"); mine.push_back(b); p = b; if (h.truncated) break; } break; }
      case 1: { if (mine.empty()) break; BlockP p = g.pick(mine); if (p->height > h.main->height + 4) break; BlockP b = w.build(p, {}, bopt()); if (b) { if (contradict(p)) bad++; h.feed(b, "C10"); mine.push_back(b); } break; }
      case 2: { for (auto& b : chain) if (b->height && h.predictKnown(b) == false && (b->prev == h.main || h.connected(b))) { h.feed(b, "C10"); break; } break; }
      case 3: { BlockP b = w.build(h.main, {}, bopt()); if (b) { if (contradict(h.main)) bad++; h.feed(b, "C10"); mine.push_back(b); } break; }
      default: {  // DNS records: good, conflicting with a recorded checkpoint, malformed
        dnsRecords.clear(); size_t m = g.range(1, 3);
        for (size_t i = 0; i < m; i++) { uint32_t at = (uint32_t)g.range(1, n + 3); Hash x = at <= n ? chain[at]->id : ref->id; if (g.chance(1, 3)) ((uint8_t*)&x)[0] ^= 1; std::string r = std::to_string(at) + ":" + hx(x);
          switch (g.weighted({6, 1, 1, 1, 1})) { case 1: r = std::to_string(at) + "x:" + hx(x); break; case 2: r = std::to_string(at) + ":" + hx(x).substr(0, 63); break; case 3: r = std::to_string(at) + hx(x); break; case 4: r = std::to_string(at) + ":zz" + hx(x).substr(2); break; default: break; }
          dnsRecords.push_back(r); g.label("DNS record"); }
      }
    }
  }
  dnsRecords.clear(); h.compareModel("C10", "at the end"); if (h.discarded) g.label("checkpoint decided a switch", h.discarded); g.label("contradicting blocks", bad);
  if (bad || h.discarded) g.nontrivial();
}
VF_PROP("C10.points", 200000, 3000000, "operation sequences on a checkpoint set: additions (repeated heights, malformed hashes), zone, block and alternative-block questions; oracle: an ordered map and the stated rules; non-trivial when at least two points were recorded") {
  logging::LoggerGroup log; cn::Checkpoints cp(log); std::map<uint32_t, Hash> m; size_t k = 0; dnsRecords.clear();
  auto height = [&]() -> uint32_t { if (!m.empty() && g.flip()) { auto it = m.begin(); std::advance(it, g.draw(m.size())); return it->first + (uint32_t)g.draw(25) - 12; } return (uint32_t)(g.flip() ? g.range(0, 40) : g.range(0, 2000000)); };
  while (g.more(k, 30)) {
    k++; uint32_t a = height(); Hash x; memset(&x, 0, 32); x.data[0] = (uint8_t)g.draw(4);
    switch (g.weighted({4, 3, 3, 5, 2})) {
      case 0: { std::string s = hx(x); bool mal = g.chance(1, 5); if (mal) s = g.oneof<std::string>({"", s.substr(1), s + "0", "g" + s.substr(1)}); bool r = cp.add_checkpoint(a, s); bool e = !mal && !m.count(a); VF_CHECK(r == e, "C10.points", "add_checkpoint(%u, %s) = %d, expected %d", a, s.c_str(), r, e); if (e) m[a] = x; break; }
      case 1: VF_CHECK(cp.is_in_checkpoint_zone(a) == (!m.empty() && a <= m.rbegin()->first), "C10.points", "is_in_checkpoint_zone(%u)", a); break;
      case 2: { bool is = false, r = cp.check_block(a, x, is); VF_CHECK(is == (m.count(a) > 0) && r == (!m.count(a) || m[a] == x) && cp.check_block(a, x) == r, "C10.points", "check_block(%u) = %d/%d", a, r, is); break; }
      case 3: { uint32_t size = height() % 4000000, b = g.flip() ? size - std::min<uint32_t>(size, (uint32_t)g.range(0, 14)) : a % 4000000; bool r = cp.is_alternative_block_allowed(size, b);
        bool zone = !m.empty() && b <= m.rbegin()->first; bool e = b != 0 && !(size >= 10 && b < size - 10 && !zone); uint32_t last = 0; bool any = false; for (auto& p : m) if (p.first <= size) { last = p.first; any = true; } if (any && b <= last) e = false;
        VF_CHECK(r == e, "C10.points", "is_alternative_block_allowed(%u, %u) = %d, expected %d (last checkpoint %d:%u)", size, b, r, e, any, last); g.label(e ? "allowed" : "not allowed"); break; }
      default: { std::vector<uint32_t> e; for (auto& p : m) e.push_back(p.first); VF_CHECK(cp.getCheckpointHeights() == e, "C10.points", "getCheckpointHeights"); }
    }
    g.evals++;
  }
  if (m.size() >= 2) g.nontrivial();
}
