// C09 (queries), P01 (transaction pool), C06 (restart).
#include "chainbad.h"
#include <filesystem>
#include <fstream>
#include <Rpc/CoreRpcServerCommandsDefinitions.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h>
#include <CryptoNoteCore/IBlock.h>
#include <CryptoNoteCore/ICore.h>
using namespace cw; using namespace cn;
namespace fs = std::filesystem;
typedef unsigned long long ull;

static std::string S(const BinaryArray& b) { return std::string(b.begin(), b.end()); }
static Hash rnd(vf::Gen& g) { Hash x; vf::Rng q(g.seed()); q.fill(&x, 32); return x; }
static uint32_t anyHeight(vf::Gen& g, uint32_t size) {
  switch (g.weighted({6, 3, 1})) { case 0: return (uint32_t)g.range(0, size - 1); case 1: return size + (uint32_t)g.oneof<uint32_t>({0, 0, 1, 2}) - (uint32_t)g.draw(2); default: return g.oneof<uint32_t>({0xffffffffu, 0xfffffffeu, 0x7fffffffu, 0x80000000u}); }
}
// Some block id: on the main chain, an alternative, an unknown one, or a transaction's id.
static Hash anyBlock(Hist& h, vf::Gen& g) {
  const State& s = *h.main->state;
  switch (g.weighted({6, 3, 2, 1})) {
    case 1: if (!h.made.empty()) return g.pick(h.made)->id; break;
    case 2: return rnd(g);
    case 3: if (!h.w.allTx.empty()) { auto it = h.w.allTx.begin(); std::advance(it, g.draw(h.w.allTx.size())); return it->second->id; } break;
    default: break;
  }
  return g.pick(s.chain)->id;
}
static Hash anyTx(Hist& h, vf::Gen& g) {
  if (h.w.allTx.empty() || g.chance(1, 8)) return rnd(g);
  auto it = h.w.allTx.begin(); std::advance(it, g.draw(h.w.allTx.size())); return it->second->id;
}
static std::map<std::string, std::vector<uint32_t>> globalIdx(const State& s) {
  std::map<std::string, std::map<uint32_t, uint32_t>> m;
  for (auto& a : s.keyOuts) for (size_t i = 0; i < a.second.size(); i++) m[key(a.second[i].tx->id)][a.second[i].out] = (uint32_t)i;
  for (auto& a : s.msigOuts) for (size_t i = 0; i < a.second.size(); i++) m[key(a.second[i].tx->id)][a.second[i].out] = (uint32_t)i;
  std::map<std::string, std::vector<uint32_t>> r;
  for (auto& t : s.txs) { auto& v = r[t.first]; for (size_t i = 0; i < t.second.second->outs.size(); i++) v.push_back(m[t.first][(uint32_t)i]); }
  return r;
}
// The ids a synchronising peer would name: newest first, ending with the genesis block; some of them not on the main chain.
static std::vector<Hash> knownIds(Hist& h, vf::Gen& g) {
  const State& s = *h.main->state; std::vector<Hash> v; size_t junk = g.range(0, 3);
  for (size_t i = 0; i < junk; i++) v.push_back(!h.made.empty() && g.flip() ? g.pick(h.made)->id : rnd(g));
  size_t n = g.range(0, 4); uint32_t at = (uint32_t)g.range(0, s.height() - 1);
  for (size_t i = 0; i < n; i++) { v.push_back(s.chain[at]->id); at -= std::min<uint32_t>(at, (uint32_t)g.range(0, 4)); }
  v.push_back(s.chain[0]->id);
  return v;
}
static uint32_t sharedHeight(const State& s, const std::vector<Hash>& ids) {
  for (auto& x : ids) for (auto& b : s.chain) if (b->id == x) return b->height;
  return 0;
}

static void ask(Hist& h, vf::Gen& g, const char* tag) {
  World& w = h.w; cn::core& c = *h.n->c; const State& s = *h.main->state; uint32_t size = s.height();
  auto blobOf = [](const cn::Block& b) { return toBinaryArray(b); };
  size_t what = g.draw(18); g.evals++; static const char* names[] = {"id by height", "block by hash", "height of block", "difficulty by height", "timestamp by height", "block range", "sizes backward", "sync ids", "sync blocks", "sparse chain", "transactions", "global indices", "random outputs", "by payment id", "by timestamp", "objects", "input references", "generated transactions"};
  g.label(std::string("query: ") + names[what]);
  switch (what) {
    case 0: { uint32_t x = anyHeight(g, size); Hash id = c.getBlockIdByHeight(x); VF_CHECK(id == (x < size ? s.chain[x]->id : NULL_HASH), tag, "block id at height %u of %u is %s", x, size, sh(id).c_str()); break; }
    case 1: { Hash id = anyBlock(h, g); BlockP m, alt; for (auto& b : s.chain) if (b->id == id) m = b; auto ia = h.alts.find(key(id)); if (ia != h.alts.end()) alt = ia->second;
      cn::Block b; bool ok = c.getBlockByHash(id, b); bool known = m || alt; VF_CHECK(known ? ok : true, tag, "block %s not found", sh(id).c_str()); if (ok) VF_CHECK(get_block_hash(b) == id, tag, "looking up block %s gives another block", sh(id).c_str());
      if (m) VF_CHECK(c.have_block(id) && blobOf(b) == m->blob, tag, "block %s comes back changed", sh(id).c_str());
      auto full = c.getBlock(id); VF_CHECK(!m || full, tag, "block %s with transactions not found", sh(id).c_str());
      if (m) { VF_CHECK(full->getTransactionCount() == m->txs.size() && blobOf(full->getBlock()) == m->blob, tag, "block %s with %zu of %zu transactions", sh(id).c_str(), full->getTransactionCount(), m->txs.size()); for (size_t i = 0; i < m->txs.size(); i++) VF_CHECK(getObjectHash(full->getTransaction(i)) == m->txs[i]->id, tag, "transaction %zu of block %s", i, sh(id).c_str());
        size_t sz; uint64_t co; VF_CHECK(c.getBlockSize(id, sz) && sz == s.sizes[m->height] && c.getAlreadyGeneratedCoins(id, co) && co == s.coins[m->height], tag, "size or coins of block %s", sh(id).c_str()); }
      break; }
    case 2: { Hash id = anyBlock(h, g); uint32_t hh = 0; bool ok = c.getBlockHeight(id, hh); BlockP m; for (auto& b : s.chain) if (b->id == id) m = b; VF_CHECK(ok == (bool)m && (!ok || hh == m->height), tag, "height of block %s: %d %u", sh(id).c_str(), ok, hh); break; }
    case 3: { uint32_t x = anyHeight(g, size); difficulty_type d = 77; bool ok = c.getBlockDifficulty(x, d); uint64_t e = x >= size ? 0 : x == 0 ? s.cumDiff[0] : s.cumDiff[x] - s.cumDiff[x - 1];
      VF_CHECK(ok == (x < size) && (!ok || d == e), tag, "difficulty at height %u (chain of %u): %d %llu, expected %llu", x, size, ok, (ull)d, (ull)e); if (x < size) VF_CHECK(c.difficultyAtHeight(x) == e, tag, "difficultyAtHeight(%u)", x); break; }
    case 4: { uint32_t x = anyHeight(g, size); uint64_t t = 77; bool ok; try { ok = c.getBlockTimestamp(x, t); } catch (const std::exception& e) { vf::fail(tag, "timestamp at height %u (chain of %u): throws %s", x, size, e.what()); }
      VF_CHECK(ok == (x < size) && (!ok || t == s.chain[x]->b.timestamp), tag, "timestamp at height %u (chain of %u): %d %llu", x, size, ok, (ull)t); break; }
    case 5: { uint32_t a = anyHeight(g, size), n = g.chance(1, 5) ? g.oneof<uint32_t>({0xffffffffu, 0xfffffff0u, 0x80000000u}) : (uint32_t)g.range(0, 40); std::list<cn::Block> bl, bl2; std::list<Transaction> tx;
      bool ok = c.get_blocks(a, n, bl), ok2 = c.get_blocks(a, n, bl2, tx); uint64_t e = a < size ? std::min<uint64_t>(n, size - a) : 0; VF_CHECK(ok == (a < size) && ok2 == ok && bl.size() == e && bl2.size() == e, tag, "blocks from %u, at most %u, of a chain of %u: %d, %zu and %zu blocks, expected %llu", a, n, size, ok, bl.size(), bl2.size(), (ull)e);
      uint32_t x = a; for (auto& b : bl) VF_CHECK(blobOf(b) == s.chain[x++]->blob, tag, "block range at height %u", x - 1); size_t nt = 0; for (uint32_t y = a; y < a + e; y++) nt += s.chain[y]->txs.size(); VF_CHECK(tx.size() == nt, tag, "block range with %zu of %zu transactions", tx.size(), nt); break; }
    case 6: { uint32_t a = anyHeight(g, size); size_t n = g.range(0, 30); std::vector<size_t> v; bool ok = c.getBackwardBlocksSizes(a, v, n); VF_CHECK(ok == (a < size), tag, "sizes back from %u: %d", a, ok);
      if (ok) { std::vector<size_t> e; for (uint32_t y = a + 1 - std::min<uint32_t>(a + 1, (uint32_t)n); y <= a; y++) e.push_back(s.sizes[y]); VF_CHECK(v == e, tag, "the %zu block sizes ending at %u", n, a); } break; }
    case 7: { auto ids = knownIds(h, g); size_t n = g.oneof<size_t>({0, 1, 3, 10, 1000, 10000}); uint32_t total = 0, start = 0; auto r = c.findBlockchainSupplement(ids, n, total, start); uint32_t e = sharedHeight(s, ids);
      VF_CHECK(total == size && start == e, tag, "supplement starts at %u, the most recent shared block named is at %u (total %u of %u)", start, e, total, size); VF_CHECK(r.size() == std::min<size_t>(n, size - e), tag, "supplement of %zu ids from %u of %u, at most %zu", r.size(), e, size, n);
      for (size_t i = 0; i < r.size(); i++) VF_CHECK(r[i] == s.chain[e + i]->id, tag, "supplement skips at %zu", i); break; }
    case 8: { auto ids = knownIds(h, g); bool good = true; if (g.chance(1, 10)) { ids.clear(); good = false; } else if (g.chance(1, 10)) { ids.push_back(rnd(g)); good = false; }
      uint64_t ts; switch (g.weighted({3, 4, 1, 1})) { case 0: ts = 0; break; case 1: ts = g.pick(s.chain)->b.timestamp + g.oneof<int64_t>({0, 0, 1, -1, 7200, 7201, 7199, 100}); break; case 2: ts = g.oneof<uint64_t>({7199, 7200, 7201, 1}); break; default: ts = g.oneof<uint64_t>({(uint64_t)vf_env::getTime() + 100000, ~0ull, 1ull << 63}); }
      uint32_t start = 0, cur = 0, full = 0, ls = 0, lc = 0, lf = 0; std::vector<BlockFullInfo> fe; std::vector<BlockShortInfo> le; bool ok = c.queryBlocks(ids, ts, start, cur, full, fe), lok = c.queryBlocksLite(ids, ts, ls, lc, lf, le);
      VF_CHECK(ok == good && lok == good, tag, "queryBlocks %d/%d on %s list of ids", ok, lok, good ? "a good" : "an unusable"); if (!good) break;
      uint32_t e = sharedHeight(s, ids); VF_CHECK(start == e && cur == size && ls == e && lc == size, tag, "queryBlocks starts at %u/%u, the most recent shared block named is at %u", start, ls, e);
      VF_CHECK(full == lf && full >= start && full < size + (start == size), tag, "queryBlocks: full blocks from %u/%u, start %u, chain %u", full, lf, start, size);
      { uint64_t lim = ts - w.cur->blockFutureTimeLimit(); bool part = true; uint32_t p = start; while (p < size && s.chain[p]->b.timestamp < lim) p++; for (uint32_t y = p; y < size; y++) if (s.chain[y]->b.timestamp < lim) part = false; uint32_t ef = p == size ? start : p;
        if (part) { VF_CHECK(full == ef, tag, "queryBlocks(timestamp %llu): full blocks from %u, expected %u (start %u)", (ull)ts, full, ef, start); g.label("sync: clear time order"); }
        for (uint32_t y = start; y < full; y++) if (s.chain[y]->b.timestamp >= ts && ts >= 7200) { bool later = false; for (uint32_t z = y + 1; z < size; z++) later |= s.chain[z]->b.timestamp < lim; VF_CHECK(later, tag, "queryBlocks(timestamp %llu) leaves block %u (time %llu) empty", (ull)ts, y, (ull)s.chain[y]->b.timestamp); } }
      size_t en = std::min<size_t>(10000, full - start) + std::min<size_t>(BLOCKS_SYNCHRONIZING_DEFAULT_COUNT, size - full); VF_CHECK(fe.size() == en && le.size() == en, tag, "queryBlocks: %zu/%zu entries, expected %zu", fe.size(), le.size(), en);
      for (size_t i = 0; i < en; i++) { auto& b = s.chain[start + i]; VF_CHECK(fe[i].block_id == b->id && le[i].blockId == b->id, tag, "queryBlocks: entry %zu is not block %u", i, start + (uint32_t)i);
        bool has = start + i >= full && b->b.timestamp >= ts; VF_CHECK(fe[i].block == (has ? S(b->blob) : std::string()) && le[i].block == fe[i].block, tag, "queryBlocks: content of entry %zu (height %u, time %llu, asked since %llu)", i, b->height, (ull)b->b.timestamp, (ull)ts);
        VF_CHECK(fe[i].txs.size() == (has ? b->txs.size() : 0) && le[i].txPrefixes.size() == fe[i].txs.size(), tag, "queryBlocks: transactions of entry %zu", i); if (has) for (size_t k = 0; k < b->txs.size(); k++) { VF_CHECK(fe[i].txs[k] == S(b->txs[k]->blob), tag, "queryBlocks: transaction %zu of entry %zu", k, i);
          VF_CHECK(le[i].txPrefixes[k].txHash == b->txs[k]->id && toBinaryArray(le[i].txPrefixes[k].txPrefix) == toBinaryArray(static_cast<TransactionPrefix&>(b->txs[k]->tx)), tag, "queryBlocksLite: prefix %zu of entry %zu", k, i); } }
      break; }
    case 9: { bool tip = g.flip(); BlockP from = h.main; if (!tip) { std::vector<BlockP> c2(s.chain.begin(), s.chain.end()); for (auto& a : h.alts) c2.push_back(a.second); from = g.pick(c2); }
      std::vector<BlockP> path; for (BlockP b = from; b; b = b->prev) path.push_back(b); std::vector<Hash> r = tip ? c.buildSparseChain() : c.buildSparseChain(from->id);
      VF_CHECK(!r.empty() && r.front() == from->id && r.back() == s.chain[0]->id, tag, "sparse chain from %s: %zu entries, first %s last %s", sh(from->id).c_str(), r.size(), r.empty() ? "-" : sh(r.front()).c_str(), r.empty() ? "-" : sh(r.back()).c_str());
      size_t at = 0; for (auto& x : r) { while (at < path.size() && !(path[at]->id == x)) at++; VF_CHECK(at < path.size(), tag, "sparse chain names %s out of order or off the chain", sh(x).c_str()); at++; }
      std::vector<size_t> pos; for (auto& x : r) for (size_t i = 0; i < path.size(); i++) if (path[i]->id == x) pos.push_back(i);
      // never a gap of more than the distance covered so far (per chain part)
      BlockP f = h.forkPoint(from); size_t split = from->height - f->height; for (size_t i = 1; i < pos.size(); i++) { size_t base = pos[i] > split || split == 0 ? split : 0; size_t gone = pos[i - 1] < base ? 0 : pos[i - 1] - base + 1; if (i + 1 < pos.size()) VF_CHECK(pos[i] - pos[i - 1] <= std::max<size_t>(2 * gone, 2 * (pos[i - 1] + 1)), tag, "sparse chain leaps from %zu to %zu blocks back", pos[i - 1], pos[i]); }
      VF_CHECK(r.size() <= 80, tag, "sparse chain of %zu entries", r.size()); break; }
    case 10: { std::vector<Hash> ids; size_t n = g.range(0, 5); for (size_t i = 0; i < n; i++) ids.push_back(anyTx(h, g)); bool pool = g.flip(); std::list<Transaction> got; std::list<Hash> missed; c.getTransactions(ids, got, missed, pool);
      std::set<std::string> inPool; for (auto& t : c.getPoolTransactions()) inPool.insert(key(getObjectHash(t))); std::vector<std::string> eg, em, ag, am;
      for (auto& x : ids) (s.txs.count(key(x)) || (pool && inPool.count(key(x))) ? eg : em).push_back(key(x)); for (auto& t : got) ag.push_back(key(getObjectHash(t))); for (auto& x : missed) am.push_back(key(x)); for (auto* v : {&eg, &em, &ag, &am}) std::sort(v->begin(), v->end());
      VF_CHECK(eg == ag && em == am, tag, "asking for %zu transactions (pool %d): %zu found, %zu missed; expected %zu and %zu", n, pool, ag.size(), am.size(), eg.size(), em.size());
      Hash one = anyTx(h, g); Transaction t; bool ok = c.getTransaction(one, t, pool); VF_CHECK(ok == (s.txs.count(key(one)) || (pool && inPool.count(key(one)))) && (!ok || getObjectHash(t) == one), tag, "transaction %s: %d", sh(one).c_str(), ok);
      Hash bid; uint32_t bh; bool in = c.getBlockContainingTx(one, bid, bh); auto it = s.txs.find(key(one)); VF_CHECK(in == (it != s.txs.end()) && (!in || (bh == it->second.first && bid == s.chain[bh]->id)), tag, "containing block of %s", sh(one).c_str()); break; }
    case 11: { std::vector<Hash> ids; size_t n = g.range(0, 4); for (size_t i = 0; i < n; i++) ids.push_back(anyTx(h, g)); std::list<Hash> missed; std::vector<std::pair<Transaction, std::vector<uint32_t>>> got; bool ok = c.getTransactionsWithOutputGlobalIndexes(ids, missed, got); auto gi = globalIdx(s);
      VF_CHECK(ok && got.size() + missed.size() == n, tag, "transactions with indices: %d, %zu + %zu of %zu", ok, got.size(), missed.size(), n); for (auto& p : got) { std::string k2 = key(getObjectHash(p.first)); VF_CHECK(gi.count(k2) && gi[k2] == p.second, tag, "global output indices of a transaction with %zu outputs", p.second.size()); } for (auto& x : missed) VF_CHECK(!s.txs.count(key(x)), tag, "a confirmed transaction reported missing");
      Hash one = anyTx(h, g); std::vector<uint32_t> v; bool k1 = c.get_tx_outputs_gindexs(one, v); VF_CHECK(k1 == (s.txs.count(key(one)) > 0) && (!k1 || v == gi[key(one)]), tag, "output indices of %s", sh(one).c_str()); break; }
    case 12: { COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request rq; COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response rs; rq.outs_count = g.oneof<uint64_t>({0, 1, 2, 3, 5, 50, 1000}); size_t n = g.range(1, 4); std::vector<uint64_t> am(w.amounts.begin(), w.amounts.end());
      for (size_t i = 0; i < n; i++) rq.amounts.push_back(am.empty() || g.chance(1, 6) ? g.u64() : g.pick(am)); bool ok = c.get_random_outs_for_amounts(rq, rs); VF_CHECK(ok && rs.outs.size() == n, tag, "random outputs: %d, %zu of %zu amounts", ok, rs.outs.size(), n);
      for (size_t i = 0; i < n; i++) { auto& o = rs.outs[i]; VF_CHECK(o.amount == rq.amounts[i], tag, "random outputs of another amount"); auto it = s.keyOuts.find(o.amount); size_t allowed = 0; std::set<uint32_t> seen; size_t end = 0;
        if (it != s.keyOuts.end()) { for (size_t j = 0; j < it->second.size(); j++) if (it->second[j].height + w.cfg.unlock <= size) end = j + 1; for (size_t j = 0; j < end; j++) if (w.unlockedAt(s, it->second[j].tx->tx.unlockTime)) allowed++; }
        VF_CHECK(o.outs.size() == std::min<uint64_t>(rq.outs_count, allowed), tag, "%zu random outputs of %llu, asked for %llu, %zu usable", o.outs.size(), (ull)o.amount, (ull)rq.outs_count, allowed);
        for (auto& e : o.outs) { VF_CHECK(seen.insert(e.global_amount_index).second && e.global_amount_index < end, tag, "random output index %u repeated or too recent", (unsigned)e.global_amount_index); auto& r = it->second[e.global_amount_index]; PublicKey k2 = boost::get<KeyOutput>(r.tx->tx.outputs[r.out].target).key; PublicKey k3 = e.out_key; VF_CHECK(k2 == k3 && w.unlockedAt(s, r.tx->tx.unlockTime), tag, "random output %u of %llu: wrong key or still locked", (unsigned)e.global_amount_index, (ull)o.amount); }
        if (!o.outs.empty()) g.label("random outputs handed out"); }
      break; }
    case 13: { if (w.pids.empty() || g.chance(1, 6)) { std::vector<Transaction> v; bool ok = c.getTransactionsByPaymentId(rnd(g), v); VF_CHECK(!ok && v.empty(), tag, "unknown payment id has %zu transactions", v.size()); break; }
      Hash p = g.pick(w.pids); std::multiset<std::string> e, a; for (auto& t : s.txs) if (t.second.second->hasPid && t.second.second->pid == p) e.insert(t.first); size_t np = 0;
      for (auto& t : c.getPoolTransactions()) { auto it = w.allTx.find(key(getObjectHash(t))); if (it != w.allTx.end() && it->second->hasPid && it->second->pid == p) { e.insert(it->first); np++; } }
      std::vector<Transaction> v; bool ok = c.getTransactionsByPaymentId(p, v); for (auto& t : v) a.insert(key(getObjectHash(t))); VF_CHECK(ok == !e.empty() && e == a, tag, "payment id %s: %d, %zu transactions, expected %zu (of them %zu in the pool)", sh(p).c_str(), ok, a.size(), e.size(), np); if (np) g.label("payment id in the pool"); if (e.size() > np) g.label("payment id on the chain"); break; }
    case 14: { uint64_t a = g.pick(s.chain)->b.timestamp + g.oneof<int64_t>({0, 0, 1, -1}), b = g.chance(1, 4) ? a + g.oneof<int64_t>({0, 1, -1}) : g.pick(s.chain)->b.timestamp; if (g.chance(1, 10)) a = 0; if (g.chance(1, 10)) b = ~0ull; uint32_t lim = g.oneof<uint32_t>({0, 1, 2, 5, 1000, 0xffffffffu}), within = 0; std::vector<cn::Block> v;
      std::multiset<uint64_t> in; for (auto& x : s.chain) if (x->b.timestamp >= a && x->b.timestamp <= b) in.insert(x->b.timestamp); bool ok = c.getBlocksByTimestamp(a, b, lim, v, within); size_t e = std::min<size_t>(lim, in.size()); if (a > b) e = 0;
      VF_CHECK(ok == (e > 0) && v.size() == e && (a > b || within == in.size()), tag, "blocks between %llu and %llu, at most %u: %d, %zu of %u; expected %zu of %zu", (ull)a, (ull)b, lim, ok, v.size(), within, e, in.size());
      std::set<std::string> ids; std::multiset<uint64_t> ts; for (auto& x : v) { Hash id = get_block_hash(x); VF_CHECK(ids.insert(key(id)).second, tag, "block twice in the answer by timestamp"); bool on = false; for (auto& y : s.chain) on |= y->id == id; VF_CHECK(on, tag, "block by timestamp is not on the main chain"); ts.insert(x.timestamp); }
      { std::multiset<uint64_t> first; for (auto t : in) if (first.size() < e) first.insert(t); VF_CHECK(ts == first, tag, "blocks by timestamp are not the earliest ones"); } break; }
    case 15: { NOTIFY_REQUEST_GET_OBJECTS::request rq; NOTIFY_RESPONSE_GET_OBJECTS::request rs; size_t n = g.range(0, 4), m = g.range(0, 3); for (size_t i = 0; i < n; i++) rq.blocks.push_back(anyBlock(h, g)); for (size_t i = 0; i < m; i++) rq.txs.push_back(anyTx(h, g));
      bool ok = c.handle_get_objects(rq, rs); VF_CHECK(ok && rs.current_blockchain_height == size, tag, "objects: %d, height %u", ok, rs.current_blockchain_height); std::vector<std::string> eb, ab; std::multiset<std::string> em, am2; std::vector<std::string> et, at; size_t bi = 0;
      for (auto& x : rq.blocks) { BlockP b; for (auto& y : s.chain) if (y->id == x) b = y; if (!b) { em.insert(key(x)); continue; } VF_CHECK(bi < rs.blocks.size() && rs.blocks[bi].block == S(b->blob) && rs.blocks[bi].txs.size() == b->txs.size(), tag, "requested block %s", sh(x).c_str()); for (size_t i = 0; i < b->txs.size(); i++) VF_CHECK(rs.blocks[bi].txs[i] == S(b->txs[i]->blob), tag, "transaction %zu of a requested block", i); bi++; }
      VF_CHECK(bi == rs.blocks.size(), tag, "%zu blocks sent, expected %zu", rs.blocks.size(), bi); for (auto& x : rq.txs) { auto it = s.txs.find(key(x)); if (it == s.txs.end()) em.insert(key(x)); else et.push_back(S(it->second.second->blob)); } for (auto& t : rs.txs) at.push_back(t); for (auto& x : rs.missed_ids) am2.insert(key(x));
      VF_CHECK(et == at && em == am2, tag, "objects: %zu transactions (expected %zu), %zu missing (expected %zu)", at.size(), et.size(), am2.size(), em.size()); break; }
    case 16: { std::vector<TxP> v; for (auto& t : s.txs) if (!t.second.second->kin.empty() || !t.second.second->min.empty()) v.push_back(t.second.second); if (v.empty()) break; TxP t = g.pick(v); size_t ki = 0;
      for (auto& in : t->tx.inputs) { if (in.type() == typeid(KeyInput)) { std::list<std::pair<Hash, size_t>> refs; bool ok = c.scanOutputkeysForIndices(boost::get<KeyInput>(in), refs); auto& x = t->kin[ki++]; VF_CHECK(ok && refs.size() == x.idx.size(), tag, "ring of an input: %d, %zu of %zu", ok, refs.size(), x.idx.size()); size_t i = 0; auto& outs = s.keyOuts.at(x.amount);
          for (auto& r : refs) { VF_CHECK(r.first == outs[x.idx[i]].tx->id && r.second == outs[x.idx[i]].out, tag, "ring member %zu", i); i++; } }
        else { auto& m = boost::get<MultisignatureInput>(in); std::pair<Hash, size_t> r; bool ok = c.getMultisigOutputReference(m, r); auto& o = s.msigOuts.at(m.amount)[m.outputIndex]; VF_CHECK(ok && r.first == o.tx->id && r.second == o.out, tag, "output behind a deposit input"); MultisignatureInput bad = m; bad.outputIndex = (uint32_t)s.msigOuts.at(m.amount).size() + (uint32_t)g.range(0, 2); VF_CHECK(!c.getMultisigOutputReference(bad, r), tag, "an output beyond the last is found"); MultisignatureOutput mo; VF_CHECK(!c.getOutByMSigGIndex(m.amount, bad.outputIndex, mo), tag, "multisignature output beyond the last"); } }
      break; }
    default: { uint32_t x = anyHeight(g, size); uint64_t v = 0; bool ok = c.getGeneratedTransactionsNumber(x, v); VF_CHECK(ok == (x < size) && (!ok || v == s.genTx[x]), tag, "generated transactions at %u (of %u): %d %llu", x, size, ok, (ull)v);
      std::vector<cn::Block> ob; bool f = c.getOrphanBlocksByHeight(x, ob); for (auto& b : ob) { Hash id = get_block_hash(b); auto it = h.alts.find(key(id)); BlockP m; for (auto& y : s.chain) if (y->id == id) m = y; VF_CHECK(!m, tag, "a main chain block is listed as orphaned"); VF_CHECK(it != h.alts.end() && it->second->height == x, tag, "block %s listed as orphaned at height %u", sh(id).c_str(), x); } size_t na = 0; for (auto& y : h.alts) na += y.second->height == x; VF_CHECK(f == (na > 0) && ob.size() == na, tag, "%zu orphaned blocks at height %u, the node holds %zu alternative blocks there", ob.size(), x, na);
      std::list<cn::Block> al; c.get_alternative_blocks(al); VF_CHECK(al.size() == c.get_alternative_blocks_count(), tag, "alternative blocks count"); break; }
  }
}
VF_PROP("C09.queries", 1100, 12000, "histories with branches, reorganizations, payment ids and a pool; after every few steps, queries with arguments on the chain, on branches, unknown and out of range; oracle: linear scan of the model's main chain; non-trivial when queries follow a reorganization") {
  HistCfg hc; hc.trunk = 13; hc.wPool = 5; hc.wFork = 8; Cfg c = Hist::pickCfg(g); Hist h(g, c, hc); size_t k = 0, after = 0;
  if (g.chance(1, 12)) { h.trunk("C09"); for (size_t i = 0, n = g.range(100, 180); i < n; i++) { BlockOpt o; o.miner = (int)(i % 3); o.maxOuts = 2; BlockP b = h.w.build(h.main, {}, o); if (b) h.feed(b, "C09"); } g.label("long chain"); }
  else h.trunk("C09");
  while (g.more(k, 14)) { k++; size_t n = g.range(1, 2); for (size_t i = 0; i < n; i++) h.step("C09"); size_t q = g.range(2, 8); for (size_t i = 0; i < q; i++) ask(h, g, "C09"); if (h.reorgs) after += q; }
  for (size_t i = 0; i < 12; i++) ask(h, g, "C09");
  g.label("queries after a reorganization", after); if (after) g.nontrivial();
}

// ------------------------------------------------------------------ P01
namespace {
struct PoolRun {
  Hist& h; vf::Gen& g; World& w; bool templated = false; uint32_t tallest = 0; std::map<std::string, uint64_t> gone; size_t conflicts = 0, expired = 0, confirmed = 0, returned = 0, reloads = 0, refusals = 0;
  explicit PoolRun(Hist& h_, vf::Gen& g_) : h(h_), g(g_), w(h_.w) {}
  struct Ent { bool kept; uint64_t at; bool operator==(const Ent& o) const { return kept == o.kept && at == o.at; } };
  typedef std::map<std::string, Ent> Pool;
  Pool pool() { Pool p; for (auto& d : h.n->c->getMemoryPool()) { VF_CHECK(p.emplace(key(d.id), Ent{d.keptByBlock, (uint64_t)d.receiveTime}).second, "P01.list", "a transaction is in the pool twice"); } return p; }
  TxP txOf(const std::string& id) { auto it = w.allTx.find(id); VF_CHECK(it != w.allTx.end(), "P01.list", "unknown transaction in the pool"); return it->second; }
  static std::string shs(const std::string& id) { return vf::hex(id.data(), 4); }
  // Everything that must hold between operations.
  void invariants(const Pool& p, const char* when) {
    const State& s = *h.main->state; cn::core& c = *h.n->c; g.evals++; tallest = std::max(tallest, s.height()); bool lower = s.height() < tallest;   // a lower, heavier chain: transactions checked above its top are held back
    auto txs = c.getPoolTransactions(); std::set<std::string> ids; for (auto& t : txs) ids.insert(key(getObjectHash(t)));
    VF_CHECK(c.get_pool_transactions_count() == p.size() && txs.size() == p.size() && ids.size() == p.size(), "P01.list", "%s: %zu transactions counted, %zu listed, %zu described", when, c.get_pool_transactions_count(), txs.size(), p.size());
    std::map<KeyImage, std::string> ki; std::map<std::pair<uint64_t, uint32_t>, std::string> ms;
    for (auto& e : p) {
      VF_CHECK(ids.count(e.first), "P01.list", "%s: lists disagree about %s", when, shs(e.first).c_str()); VF_CHECK(!s.txs.count(e.first), "P01.chain", "%s: transaction %s is confirmed and still in the pool", when, shs(e.first).c_str());
      TxP t = txOf(e.first); Transaction q; VF_CHECK(c.getPoolTransaction(t->id, q) && getObjectHash(q) == t->id, "P01.lookup", "%s: pool transaction %s not found by its hash", when, shs(e.first).c_str());
      if (e.second.kept) continue;
      for (auto& x : t->kin) VF_CHECK(ki.emplace(x.ki, e.first).second, "P01.conflict", "%s: relayed transactions %s and %s spend one key image", when, shs(e.first).c_str(), shs(ki[x.ki]).c_str());
      for (auto& x : t->min) VF_CHECK(ms.emplace(std::make_pair(x.amount, x.idx), e.first).second, "P01.conflict", "%s: relayed transactions %s and %s consume one deposit", when, shs(e.first).c_str(), shs(ms[{x.amount, x.idx}]).c_str());
    }
    // timestamp index
    uint64_t a = 1 + (g.flip() ? 0 : (p.empty() ? 1 : p.begin()->second.at)), b = g.chance(1, 3) && !p.empty() ? p.rbegin()->second.at : (uint64_t)vf_env::getTime(); if (a > 1) a -= g.draw(2); if (!b) b = 1; uint32_t lim = g.oneof<uint32_t>({1000, 1000, 1, 0, 3});
    std::multiset<uint64_t> in; for (auto& e : p) if (e.second.at >= a && e.second.at <= b) in.insert(e.second.at); if (a > b) in.clear(); std::vector<Transaction> v; uint64_t within = 0; bool ok = c.getPoolTransactionsByTimestamp(a, b, lim, v, within);
    size_t e = std::min<size_t>(lim, in.size()); VF_CHECK(ok == (e > 0) && v.size() == e && (a > b || within == in.size()), "P01.bytime", "%s: pool transactions received between %llu and %llu, at most %u: %d, %zu of %llu, expected %zu of %zu", when, (ull)a, (ull)b, lim, ok, v.size(), (ull)within, e, in.size());
    for (auto& t : v) { auto it = p.find(key(getObjectHash(t))); VF_CHECK(it != p.end() && it->second.at >= a && it->second.at <= b, "P01.bytime", "%s: a transaction received outside the asked time is returned", when); }
    // payment ids
    if (!w.pids.empty()) { Hash id = g.pick(w.pids); std::multiset<std::string> want, got; for (auto& x : p) { TxP t = txOf(x.first); if (t->hasPid && t->pid == id) want.insert(x.first); } size_t np = want.size(); for (auto& x : s.txs) if (x.second.second->hasPid && x.second.second->pid == id) want.insert(x.first);
      std::vector<Transaction> r; c.getTransactionsByPaymentId(id, r); for (auto& t : r) got.insert(key(getObjectHash(t))); VF_CHECK(want == got, "P01.pid", "%s: payment id %s finds %zu transactions, %zu carry it (%zu in the pool)", when, sh(id).c_str(), got.size(), want.size(), np); if (np) g.label("payment id in the pool"); }
    // difference query
    std::vector<Hash> known; std::set<std::string> kn; for (auto& x : p) if (g.flip()) { known.push_back(txOf(x.first)->id); kn.insert(x.first); } if (g.flip()) { Hash o = rnd(g); known.push_back(o); kn.insert(key(o)); } if (g.chance(1, 4) && !s.txs.empty()) { Hash o = s.txs.begin()->second.second->id; known.push_back(o); kn.insert(key(o)); }
    std::set<std::string> ready, addE, delE, addA, delA; for (auto& x : p) if (w.txBad(s, *txOf(x.first)).empty()) ready.insert(x.first); for (auto& x : ready) if (!kn.count(x)) addE.insert(x); for (auto& x : kn) if (!ready.count(x)) delE.insert(x);
    std::vector<Transaction> ad; std::vector<Hash> de; bool tip = g.flip(); bool r = c.getPoolChanges(tip ? h.main->id : rnd(g), known, ad, de); for (auto& t : ad) addA.insert(key(getObjectHash(t))); for (auto& x : de) delA.insert(key(x));
    VF_CHECK(r == tip, "P01.diff", "%s: difference query says the tail is %s", when, r ? "current" : "old");
    bool sub = std::includes(addE.begin(), addE.end(), addA.begin(), addA.end()) && std::includes(delA.begin(), delA.end(), delE.begin(), delE.end());
    VF_CHECK(templated || lower ? sub : addA == addE && delA == delE, "P01.diff", "%s: difference to %zu known: %zu new, %zu gone; expected %zu new, %zu gone", when, kn.size(), addA.size(), delA.size(), addE.size(), delE.size());
    std::vector<TransactionPrefixInfo> lite; std::vector<Hash> de2; c.getPoolChangesLite(h.main->id, known, lite, de2); std::set<std::string> la; for (auto& t : lite) la.insert(key(t.txHash)); VF_CHECK(la == addA && de2.size() == delA.size(), "P01.diff", "%s: the two difference queries disagree", when);
  }
  bool clashes(const Pool& p, const Tx& t) {   // with what relay admitted, or (key images) with anything in the pool
    for (auto& e : p) { TxP o = txOf(e.first); for (auto& a : t.kin) for (auto& b : o->kin) if (a.ki == b.ki) return true; if (!e.second.kept) for (auto& a : t.min) for (auto& b : o->min) if (a.amount == b.amount && a.idx == b.idx) return true; }
    return false;
  }
  void relay(const TxP& t, bool mustFit) {
    Pool p = pool(); bool had = p.count(key(t->id)), clash = !had && clashes(p, *t), onchain = h.main->state->txs.count(key(t->id)); std::string bad = w.txBad(*h.main->state, *t); uint64_t now = vf_env::getTime();
    bool ttlOk = !t->ttl || (t->ttl > now && t->ttl - now <= w.cfg.poolLive + w.cur->blockFutureTimeLimit() && w.fee(*t, h.main->height + 1) == 0); Tvc v = h.n->tx(t, false); g.note("relay %s had=%d clash=%d bad=[%s] ttl=%lld: %s", sh(t->id).c_str(), had, clash, bad.c_str(), t->ttl ? (long long)(t->ttl - now) : 0, v.str().c_str());
    Pool q = pool(); if (v.added) p[key(t->id)] = Ent{false, now};
    VF_CHECK(q == p, "P01.set", "relaying %s changed the pool to %zu transactions, expected %zu (%s)", sh(t->id).c_str(), q.size(), p.size(), v.str().c_str());
    if (had || clash || onchain || !bad.empty() || !ttlOk) { VF_CHECK(!v.added, clash ? "P01.conflict" : t->ttl ? "P01.ttl" : "P01.admit", "admitted although %s", had ? "already there" : onchain ? "already confirmed" : clash ? "it conflicts with the pool" : !ttlOk ? "its time-to-live is out of range" : bad.c_str()); refusals++; if (clash) conflicts++; g.label(had ? "relayed twice" : onchain ? "relayed after confirmation" : clash ? "conflicting relay" : !ttlOk ? "bad time-to-live" : "invalid relay"); }
    else if (mustFit && !gone.count(key(t->id))) { VF_CHECK(v.added, "P01.admit", "valid transaction %s (fee %llu) without conflicts refused: %s", sh(t->id).c_str(), (ull)w.fee(*t, h.main->height + 1), v.str().c_str()); g.label("admitted"); }
  }
  void feed(const BlockP& b) {
    Pool p = pool(); uint64_t now = vf_env::getTime(); BlockP old = h.main;
    std::vector<TxP> need(b->txs); for (BlockP x = b; !h.isMain(x); x = x->prev) if (x != b) need.insert(need.end(), x->txs.begin(), x->txs.end());   // a branch's transactions may have expired since its blocks came
    for (auto& t : need) { bool had = p.count(key(t->id)) || old->state->txs.count(key(t->id)); Tvc v = h.n->tx(t, true); if (v.added) { VF_CHECK(!had, "P01.set", "kept transaction added twice"); p[key(t->id)] = Ent{true, now}; } }
    Outcome o = h.feed(b, "P01.block", false); Pool q = pool(); const State& s = *h.main->state;
    for (uint32_t x = 0; x < old->state->height(); x++) { auto& ob = old->state->chain[x]; if (x < s.height() && s.chain[x] == ob) continue; for (auto& t : ob->txs) if (!s.txs.count(key(t->id))) { p[key(t->id)] = Ent{true, now}; returned++; g.label("returned by a reorganization"); } }
    for (auto it = p.begin(); it != p.end();) if (s.txs.count(it->first)) { it = p.erase(it); confirmed++; } else ++it;
    std::set<std::string> a, e; for (auto& x : p) e.insert(x.first); for (auto& x : q) a.insert(x.first);
    VF_CHECK(a == e, "P01.set", "after block %s (%s) the pool holds %zu transactions, expected %zu", sh(b->id).c_str(), oname(o), a.size(), e.size());
    if (o == ADDED || o == ALT || o == ORPHAN || o == EXISTS) for (auto& x : q) VF_CHECK(x.second == p[x.first], "P01.set", "block %s (%s) changed the age or origin of pool transaction %s", sh(b->id).c_str(), oname(o), shs(x.first).c_str());
  }
  Pool expire(Pool p) {
    uint64_t now = vf_env::getTime(); for (auto it = p.begin(); it != p.end();) { TxP t = txOf(it->first); uint64_t age = now - it->second.at; bool out = age > (it->second.kept ? w.cfg.altLive : w.cfg.poolLive) || (t->ttl && t->ttl <= now);
      if (out) { expired++; gone[it->first] = now; g.label(t->ttl && t->ttl <= now ? "expired by time-to-live" : "expired by age"); it = p.erase(it); } else ++it; }
    return p;
  }
  void same(const Pool& q, const Pool& p, const char* tag, const char* when) { for (auto& x : q) VF_CHECK(p.count(x.first), tag, "%s: transaction %s (age %llu, kept %d) should be gone", when, shs(x.first).c_str(), (ull)(vf_env::getTime() - x.second.at), x.second.kept); for (auto& x : p) { auto it = q.find(x.first); VF_CHECK(it != q.end(), tag, "%s: transaction %s (age %llu, kept %d) disappeared", when, shs(x.first).c_str(), (ull)(vf_env::getTime() - x.second.at), x.second.kept); VF_CHECK(it->second == x.second, tag, "%s: age or origin of %s changed", when, shs(x.first).c_str()); } }
};
}
VF_PROP("P01.pool", 1500, 16000, "sequences of relays (valid, conflicting, repeated, confirmed, with time-to-live), blocks, conflicting blocks, reorganizations, clock advances with maintenance, restarts and templates; oracle: a model of the pool's contents, ages and origins; non-trivial when something expired, conflicted or returned") {
  HistCfg hc; hc.trunk = 13; Cfg c = Hist::pickCfg(g); c.poolLive = g.oneof<uint64_t>({600, 3600}); c.altLive = g.oneof<uint64_t>({300, 7200}); Hist h(g, c, hc); World& w = h.w; h.trunk("P01"); PoolRun r(h, g); size_t k = 0;
  std::vector<TxP> seen; auto pick = [&]() -> TxP { return seen.empty() ? nullptr : g.pick(seen); };
  for (auto& t : w.allTx) (void)t;
  while (g.more(k, 22)) {
    k++; const State& s = *h.main->state; uint64_t f = w.minFee(s.height()); std::set<KeyImage> none; std::set<std::pair<uint64_t, uint32_t>> nm;
    switch (g.weighted({7, 4, 3, 4, 3, 4, 2, 3, 2, 1, 2})) {
      case 0: { TxP t; std::set<KeyImage> avoid; if (g.flip()) for (auto& e : r.pool()) for (auto& x : r.txOf(e.first)->kin) avoid.insert(x.ki);
        switch (g.draw(3)) { case 0: t = w.randomTransfer(s, avoid, f); break; case 1: t = w.randomDeposit(s, avoid, f); break; default: t = w.randomWithdraw(s, nm); } if (!t) break; seen.push_back(t); r.relay(t, true); break; }
      case 1: {   // spends the same coin or deposit as something relayed before
        TxP o = pick(); if (!o) break; World::TxSpec t;
        if (!o->kin.empty()) { for (auto& x : w.spendable(s)) if (w.keyImageOf(x.ref) == o->kin[g.draw(o->kin.size())].ki) { t.in = {x}; break; } if (t.in.empty() || t.in[0].amount <= f) break; t.outs = {{t.in[0].amount - f, (int)g.draw(3)}}; t.ring = g.range(1, 2);
          if (g.flip()) { World::Spend extra; if (freeCoin(w, s, 1, extra, {w.keyImageOf(t.in[0].ref)})) { t.in.push_back(extra); t.outs[0].amount += extra.amount; if (g.flip()) std::swap(t.in[0], t.in[1]); } } }
        else if (!o->min.empty()) { for (auto& d : w.deposits(s, true)) if (d.amount == o->min[0].amount && d.gidx == o->min[0].idx) { t.deps = {d}; break; } if (t.deps.empty() || t.deps[0].amount <= f) break; t.outs = {{t.deps[0].amount - f, (int)g.draw(3)}}; }
        else break;
        TxP b = w.build(s, t); seen.push_back(b); r.relay(b, w.fee(*b, s.height()) == f); break; }
      case 2: { TxP t = pick(); if (t) r.relay(t, true); break; }
      case 3: {   // a block with some of the pool, some others
        std::vector<TxP> txs; std::set<KeyImage> ki; std::set<std::pair<uint64_t, uint32_t>> ms; auto take = [&](const TxP& t) { if (t->ttl || !w.txBad(s, *t).empty() || s.txs.count(key(t->id))) return; for (auto& x : t->kin) if (ki.count(x.ki)) return; for (auto& x : t->min) if (ms.count({x.amount, x.idx})) return; for (auto& x : t->kin) ki.insert(x.ki); for (auto& x : t->min) ms.insert({x.amount, x.idx}); for (auto& y : txs) if (y->id == t->id) return; txs.push_back(t); };
        for (auto& t : seen) if (g.chance(1, 3)) take(t); if (g.flip()) { TxP t = w.randomTransfer(s, ki, f); if (t) take(t); } BlockP b = w.build(h.main, txs, h.opt()); if (b) { h.made.push_back(b); r.feed(b); } break; }
      case 4: { BlockP p = h.pickParent(false); size_t n = g.range(1, 3); for (size_t i = 0; i < n; i++) { h.hc.carry = !g.chance(1, 4); BlockP b = h.mk(p, g.weighted({3, 2, 1})); h.hc.carry = true; if (!b) break; r.feed(b); p = b; } break; }
      case 5: { vf_env::setTime(vf_env::getTime() + (int64_t)g.oneof<uint64_t>({61, 100, c.poolLive / 2, c.poolLive + g.draw(2), c.altLive - g.draw(2), 200, 1000})); auto p = r.pool(); if (g.chance(1, 4)) break; auto e = r.expire(p); h.n->c->on_idle(); r.same(r.pool(), e, "P01.expire", "after maintenance"); break; }
      case 6: { BlockP b = h.mkConflict(g.flip() ? h.main : h.pickParent(false)); if (b) { b->state.reset(); r.feed(b); } break; }
      case 7: {   // transactions with a time-to-live
        World::Spend co; std::set<KeyImage> avoid; for (auto& e : r.pool()) for (auto& x : r.txOf(e.first)->kin) avoid.insert(x.ki); if (!freeCoin(w, s, 2, co, avoid)) break; World::TxSpec t; t.in = {co}; t.outs = {{co.amount, 0}}; uint64_t now = vf_env::getTime(), max = c.poolLive + w.cur->blockFutureTimeLimit();
        t.ttl = now + g.oneof<int64_t>({-10, 0, 1, 30, 61, 100, 599, 1000, (int64_t)max, (int64_t)max + 1, (int64_t)max - 1}); if (g.chance(1, 5)) t.outs[0].amount -= 1; TxP x = w.build(s, t); seen.push_back(x); if (w.fee(*x, s.height())) { Tvc v = h.n->tx(x, false); VF_CHECK(!v.added, "P01.ttl", "a time-to-live transaction with a fee is admitted"); break; } r.relay(x, true); break; }
      case 8: { auto p = r.pool(); h.n->close(true); h.n->open(); VF_CHECK(h.n->initOk && h.n->top() == h.main->id, "P01.reload", "the node does not come back after saving"); auto e = r.expire(p); r.same(r.pool(), e, "P01.reload", "after saving and reloading"); h.alts.clear(); r.gone.size(); r.reloads++; g.label("reloaded"); break; }
      case 9: { cn::Block b; difficulty_type df; uint32_t hh; h.n->c->get_block_template(b, w.acc[0].k.address, df, hh, BinaryArray()); r.templated = true; break; }
      default: {   // relay something a branch or an older state made valid or invalid
        std::vector<TxP> v; for (auto& t : w.allTx) if (!t.second->coinbase) v.push_back(t.second); if (v.empty()) break; TxP t = g.pick(v); if (t->ttl) break; Tvc dummy; (void)dummy; if (w.fee(*t, s.height()) < f || w.inAmount(*t, s.height()) < w.outAmount(*t)) break; r.relay(t, w.fee(*t, s.height()) == f); break; }
    }
    r.invariants(r.pool(), "between operations");
  }
  vf_env::setTime(vf_env::getTime() + (int64_t)g.oneof<uint64_t>({61, c.poolLive + 1, c.altLive + 1})); auto e = r.expire(r.pool()); h.n->c->on_idle(); r.same(r.pool(), e, "P01.expire", "after the last maintenance"); r.invariants(r.pool(), "at the end");
  g.label("expired", r.expired); g.label("conflicting relays", r.conflicts); g.label("confirmed", r.confirmed); if (r.expired + r.conflicts + r.returned >= 2) g.nontrivial();
}

// ------------------------------------------------------------------ C06
namespace {
namespace bfs = std::filesystem;
void copyDir(const std::string& a, const std::string& b) { bfs::remove_all(b); bfs::create_directories(b); for (auto& i : bfs::directory_iterator(a)) if (i.is_regular_file()) bfs::copy_file(i.path(), b + "/" + i.path().filename().string()); }
std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>()); }
void spit(const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(s.data(), s.size()); }
struct Restart {
  Hist& h; vf::Gen& g; World& w; std::vector<std::string> files; std::map<std::string, std::vector<std::string>> old; size_t damaged = 0, restarts = 0, reopened = 0;
  Restart(Hist& h_, vf::Gen& g_) : h(h_), g(g_), w(h_.w) { const std::string c = w.cur->blocksCacheFileName(); files = {c, c + ".bkp", "transactionsmap.dat", "spentkeys.dat", w.cur->blockchinIndicesFileName(), w.cur->txPoolFileName()}; }
  void remember() { for (auto& f : files) if (bfs::exists(h.n->dir + "/" + f)) { auto& v = old[f]; v.push_back(slurp(h.n->dir + "/" + f)); if (v.size() > 4) v.erase(v.begin()); } }
  void damage(unsigned num) {
    for (auto& f : files) {
      if (!g.chance(num, 6)) continue; std::string p = h.n->dir + "/" + f; bool is = bfs::exists(p); std::string cur = is ? slurp(p) : ""; const char* what = nullptr;
      switch (g.draw(5)) {
        case 0: if (is) { bfs::remove(p); what = "removed"; } break;
        case 1: if (is && cur.size()) { spit(p, cur.substr(0, g.draw(cur.size()))); what = "truncated"; } break;
        case 2: if (is && cur.size()) { spit(p, cur.substr(0, cur.size() - 1 - g.draw(std::min<size_t>(cur.size(), 40)))); what = "cut at the end"; } break;
        case 3: if (is) { spit(p, ""); what = "emptied"; } break;
        default: { auto& v = old[f]; if (!v.empty()) { spit(p, g.pick(v)); what = "replaced by an older one"; } }
      }
      if (what) { g.label(std::string(what)); g.label("damaged " + f); g.note("%s %s", f.c_str(), what); damaged++; }
    }
  }
  void restart() {
    unsigned how = (unsigned)g.weighted({4, 4, 3}); BlockP tip = h.main; static const char* hn[] = {"saved", "killed", "dropped"}; g.label(hn[how]);
    if (how == 1) { std::string d = w.newDir(); copyDir(h.n->dir, d); std::string o = h.n->dir; h.n->close(false); bfs::remove_all(o); h.n->dir = d; }
    else h.n->close(how == 0);
    if (how == 0) remember();
    if (g.chance(2, 3)) damage(g.range(1, 4)); h.n->open(); h.alts.clear(); restarts++;
    VF_CHECK(h.n->initOk, "C06", "%s at height %u: the node does not start on its own data directory", hn[how], tip->height);
    Hash top = h.n->top(); if (how == 1 && tip->prev && top == tip->prev->id) { h.main = tip->prev; g.label("last block not yet on disk"); }
    VF_CHECK(top == h.main->id, "C06", "%s at height %u: the node reopens with top %s at height %u, it had %s", hn[how], tip->height, sh(top).c_str(), h.n->height(), sh(tip->id).c_str());
    g.note("%s at height %u, reopened at height %u", hn[how], tip->height, h.main->height); h.compareModel("C06", vf::strf("%s and reopened", hn[how]).c_str());
    if (g.chance(1, 4)) { h.n->close(true); remember(); h.n->open(); VF_CHECK(h.n->initOk && h.n->top() == h.main->id, "C06", "the node does not start after the second save"); h.compareModel("C06", "saved and reopened again"); reopened++; }
  }
};
}
VF_PROP("C06.restart", 420, 6000, "histories with branches, deposits and reorganizations; the node is saved, dropped or killed between operations, its cache files removed, truncated, emptied or replaced by older ones, and reopened; oracle: the linear-scan model, and predictions for every later block; non-trivial when a file was damaged and blocks were fed after the restart") {
  HistCfg hc; hc.trunk = 12; hc.wPool = 2; Cfg c = Hist::pickCfg(g); Hist h(g, c, hc); h.trunk("C06"); Restart r(h, g); size_t k = 0, after = 0;
  while (g.more(k, 9)) {
    k++; size_t n = g.range(0, 3); for (size_t i = 0; i < n; i++) { h.step("C06"); if (r.restarts) after++; }
    if (g.chance(1, 3)) { h.n->c->saveBlockchain(); r.remember(); g.label("saved while running"); if (g.chance(1, 3)) { h.n->c->saveBlockchain(); r.remember(); } }
    if (g.chance(2, 3)) r.restart();
  }
  for (size_t i = 0; i < 2; i++) { h.step("C06"); if (r.restarts) after++; } h.finalCompare("C06"); if (r.damaged && after) g.nontrivial();
}

// A kill at any write: the executable's own write() takes the place of the library's and copies the data directory at a chosen moment.
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace { struct Snap { bool armed = false, taken = false; size_t left = 0, seen = 0; std::string from, to; void tick() { if (!armed) return; seen++; if (left) { left--; return; } armed = false; taken = true; copyDir(from, to); } } snap; }
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (fd > 2) snap.tick(); return syscall(SYS_write, fd, p, n); }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { if (fd > 2) snap.tick(); return syscall(SYS_writev, fd, v, n); }
static std::string w_dir(Hist& h) { return h.w.newDir(); }
static bool isOn(const BlockP& a, const BlockP& tip) { return a->height < tip->state->chain.size() && tip->state->chain[a->height] == a; }
VF_PROP("C06.crash", 600, 9000, "histories during which the process is killed at a chosen write system call inside a block arrival, a reorganization or a save; the directory as it was then is opened by another node; oracle: its top is a block of the chain before or after the operation and its ledger the linear scan's; non-trivial when the kill fell inside a reorganization or a save") {
  HistCfg hc; hc.trunk = 12; hc.wPool = 1; hc.wFork = 9; hc.wConflict = 0; hc.wOrphan = 0; hc.wRepeat = 0; Cfg c = Hist::pickCfg(g); Hist h(g, c, hc); h.trunk("C06"); Restart r(h, g); size_t k = 0;
  while (g.more(k, 12)) {
    k++; unsigned op = (unsigned)g.weighted({3, 6, 3}); BlockP before = h.main; snap = Snap(); snap.from = h.n->dir; snap.to = w_dir(h); size_t depth0 = h.reorgs; bool save = false;
    if (op == 0) { BlockP b = h.mk(h.main, g.range(0, 3)); if (!b) continue; snap.left = g.draw(8); snap.armed = true; h.feed(b, "C06"); }
    else if (op == 1) { BlockP p = h.pickParent(false); size_t n = g.range(1, 4); for (size_t i = 0; i < n; i++) { BlockP b = h.mk(p, g.weighted({3, 2, 1})); if (!b) break; bool arm = !snap.taken && b->cum() > h.main->cum() && b->prev != h.main; before = snap.taken ? before : h.main; snap.left = g.draw(30); snap.armed = arm; h.feed(b, "C06"); snap.armed = false; p = b; if (snap.taken) break; } }
    else { save = true; snap.left = g.draw(24); snap.armed = true; h.n->c->saveBlockchain(); }
    snap.armed = false; if (!snap.taken) { g.label("not killed"); continue; }
    bool reorg = h.reorgs > depth0; g.label(save ? "killed while saving" : reorg ? "killed while reorganizing" : "killed while adding a block"); if (save || reorg) g.nontrivial();
    { Node m(h.w, snap.to, false); VF_CHECK(m.initOk, "C06.crash", "killed at write %zu of %s at height %u: the node does not start", snap.seen - 1, save ? "a save" : "a block", before->height);
      Hash top = m.top(); BlockP at; for (auto x : {before, h.main}) for (BlockP y = x; y && !at; y = y->height ? y->prev : nullptr) if (y->id == top) at = y; 
      VF_CHECK(at && (!save || at == h.main || at == h.main->prev), "C06.crash", "killed at write %zu of %s at height %u: the node reopens with top %s at height %u", snap.seen - 1, save ? "a save" : "a block", before->height, sh(top).c_str(), m.height());
      g.note("killed at write %zu of %s, reopened at height %u of %u -> %u", snap.seen - 1, save ? "a save" : "a block", at->height, before->height, h.main->height);
      std::string d = diff(dump(h.w, m), modelDump(h.w, *at->state), "node", "linear scan"); g.evals++; VF_CHECK(d.empty(), "C06.crash", "killed at write %zu of %s (chain %u -> %u), reopened at height %u: its ledger is not what a linear scan of its main chain gives:%s", snap.seen - 1, save ? "a save" : reorg ? "a reorganization" : "a block", before->height, h.main->height, at->height, d.c_str());
      if (isOn(at, h.main)) for (uint32_t x = at->height + 1; x <= h.main->height; x++) { auto& b = h.main->state->chain[x]; Bvc v = m.feed(b); g.evals++; VF_CHECK(v.added, "C06.crash", "after the kill, block %u of the chain is refused: %s", x, v.str().c_str()); } else g.label("reopened on the old branch"); }
    std::filesystem::remove_all(snap.to);
  }
}
