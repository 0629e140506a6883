// W02: a wallet's synchroniser over a node that follows a random history, against a wallet synchronised from scratch and against the ledger model.
#include "vf.h"
#include "vf_env.h"
#include "chainhist.h"
#include "walletnode.h"
#include "Transfers/BlockchainSynchronizer.h"
#include "Transfers/TransfersSynchronizer.h"
#include "Transfers/TransfersContainer.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include <sstream>
#include <condition_variable>
#include <chrono>
#include <thread>
using namespace cw; using namespace cn; using vf::Gen;
namespace {
typedef ITransfersContainer IC;
struct Sub { int acc; AccountSubscription s; };
struct Wallet : IBlockchainSynchronizerObserver {
  Hist& h; MNode& node; std::unique_ptr<BlockchainSynchronizer> sync; std::unique_ptr<TransfersSyncronizer> tr; std::vector<Sub> subs; std::mutex m; std::condition_variable cv; size_t completed = 0; std::error_code last; std::string progressBad; uint32_t progress = 0; bool running = false;
  Wallet(Hist& h_, MNode& n, const std::vector<Sub>& s) : h(h_), node(n), subs(s) { make(); }
  void make() { sync.reset(new BlockchainSynchronizer(node, h.w.genesis->id)); tr.reset(new TransfersSyncronizer(*h.w.cur, h.w.log, *sync, node)); for (auto& s : subs) tr->addSubscription(s.s); sync->addObserver(this); }
  ~Wallet() { stop(); tr.reset(); sync.reset(); }
  void stop() { if (running) { sync->stop(); running = false; } }
  void synchronizationProgressUpdated(uint32_t p, uint32_t) override { std::lock_guard<std::mutex> l(m); progress = p; if (p > node.end) progressBad = vf::strf("progress %u is reported after blocks up to %u were received", p, node.end); if (node.batchFailed) progressBad = vf::strf("progress %u is reported though a query for these blocks failed", p); }
  void synchronizationCompleted(std::error_code ec) override { std::lock_guard<std::mutex> l(m); completed++; last = ec; cv.notify_all(); }
  // one round to completion; "how": 0 blocks, 1 pool
  std::error_code round(int how) {
    size_t before; { std::lock_guard<std::mutex> l(m); before = completed; }
    if (!running) { sync->start(); running = true; } else if (how) static_cast<INodeObserver*>(sync.get())->poolChanged(); else static_cast<INodeObserver*>(sync.get())->localBlockchainUpdated(node.top());
    std::unique_lock<std::mutex> l(m); if (!cv.wait_for(l, std::chrono::seconds(30), [&] { return completed > before; })) { running = false; tr.release(); sync.release(); vf::fail("W02/stuck", "a synchronisation neither completes nor fails within 30 seconds"); }
    if (!progressBad.empty()) vf::fail("W02/progress", "%s", progressBad.c_str()); l.unlock(); if (node.err) { auto e = node.err; node.err = nullptr; std::rethrow_exception(e); } l.lock(); return last;
  }
  ITransfersContainer& box(const Sub& s) { return tr->getSubscription(s.s.keys.address)->getContainer(); }
};
template<class T> std::string K(const T& x) { return std::string((const char*)&x, sizeof x); }
std::string row(const TransactionOutputInformation& o) { return vf::strf("%llu #%u of %s index %u ", (unsigned long long)o.amount, o.outputInTransaction, vf::hex(o.transactionHash.data, 4).c_str(), o.globalOutputIndex) + (o.type == transaction_types::OutputType::Key ? "key " + vf::hex((const uint8_t*)&o.outputKey, 4) : vf::strf("term %u/%u", o.term, o.requiredSignatures)); }
// Everything a container tells.
std::map<std::string, std::string> tell(ITransfersContainer& c, World& w) {
  std::map<std::string, std::string> r; r["counts"] = vf::strf("%zu outputs %zu transactions", c.transfersCount(), c.transactionsCount());
  for (uint32_t t : {0x100u, 0x200u, 0x400u}) for (uint32_t s : {1u, 2u, 4u}) { r[vf::strf("balance %x", t | s)] = vf::strf("%llu", (unsigned long long)c.balance(t | s)); std::vector<TransactionOutputInformation> v; c.getOutputs(v, t | s); std::multiset<std::string> k; for (auto& x : v) k.insert(row(x)); std::string z; for (auto& x : k) z += x + "; "; r[vf::strf("outputs %x", t | s)] = z; }
  { std::multiset<std::string> k; for (auto& x : c.getSpentOutputs()) k.insert(row(x) + vf::strf(" by %s at %u ts %llu", vf::hex(x.spendingTransactionHash.data, 4).c_str(), x.spendingBlockHeight, (unsigned long long)x.timestamp)); std::string z; for (auto& x : k) z += x + "; "; r["spent"] = z; }
  for (auto& p : w.allTx) { Hash id = p.second->id; TransactionInformation i; uint64_t in = 0, out = 0; if (!c.getTransactionInformation(id, i, &in, &out)) continue; std::string z = vf::strf("height %u ts %llu in %llu/%llu out %llu/%llu unlock %llu pid %s ", i.blockHeight, (unsigned long long)i.timestamp, (unsigned long long)in, (unsigned long long)i.totalAmountIn, (unsigned long long)out, (unsigned long long)i.totalAmountOut, (unsigned long long)i.unlockTime, vf::hex(i.paymentId.data, 4).c_str()); std::multiset<std::string> k; for (auto& x : c.getTransactionOutputs(id, IC::IncludeTypeAll | IC::IncludeStateAll | IC::IncludeStateSpent)) k.insert("+" + row(x)); for (auto& x : c.getTransactionInputs(id, IC::IncludeTypeAll)) k.insert("-" + row(x)); for (auto& x : k) z += x + "; "; r["tx " + vf::hex(id.data, 8)] = z; }
  return r;
}
std::string differ(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b) { std::string r; std::set<std::string> k; for (auto& x : a) k.insert(x.first); for (auto& x : b) k.insert(x.first); for (auto& x : k) { auto i = a.find(x), j = b.find(x); std::string p = i == a.end() ? "-" : i->second, q = j == b.end() ? "-" : j->second; if (p != q) r += "\n  " + x + ": [" + p + "] instead of [" + q + "]"; if (r.size() > 1500) break; } return r; }
struct Lab {
  Gen& g; Hist& h; MNode node; std::unique_ptr<Wallet> wal; std::vector<Sub> subs; size_t syncs = 0, fails = 0, loads = 0, mids = 0, poolSeen = 0, compares = 0, expiries = 0; std::set<std::string> own;
  Lab(Gen& g_, Hist& h_) : g(g_), h(h_), node(h_) {}
  std::vector<TxP> pool() { std::vector<TxP> r; std::vector<Transaction> add; std::vector<crypto::Hash> del; h.n->c->getPoolChanges({}, add, del); for (auto& t : add) { auto i = h.w.allTx.find(key(getObjectHash(t))); if (i != h.w.allTx.end()) r.push_back(i->second); } return r; }
  bool conflicting() { std::set<KeyImage> k; std::set<std::pair<uint64_t, uint32_t>> ms; for (auto& t : pool()) { for (auto& x : t->kin) if (!k.insert(x.ki).second) return true; for (auto& x : t->min) if (!ms.insert({x.amount, x.idx}).second) return true; } return false; }
  bool caughtUp() { return h.n->top() == h.main->id; }
  void compare(const char* when) {
    compares++; g.evals++; if (conflicting()) { g.label("pool with conflicting transactions"); return; }
    MNode n2(h); Wallet f(h, n2, subs); auto ec = f.round(0); VF_CHECK(!ec, "W02/fresh", "%s: a new wallet does not synchronise: %s", when, ec.message().c_str()); f.stop(); const State& st = *h.main->state;
    std::set<KeyImage> pk; std::set<std::pair<uint64_t, uint32_t>> pm; for (auto& t : pool()) { for (auto& x : t->kin) pk.insert(x.ki); for (auto& x : t->min) pm.insert({x.amount, x.idx}); }
    for (auto& s : subs) {
      auto a = tell(wal->box(s), h.w), b = tell(f.box(s), h.w); std::string d = differ(a, b); VF_CHECK(d.empty(), "W02/same", "%s: the wallet that followed differs from a new one:%s", when, d.c_str()); if (s.s.syncStart.timestamp) continue;
      // against the ledger
      uint64_t want = 0, got = 0; size_t wn = 0, gn = 0; std::map<std::string, std::string> wm, gm; auto& c = f.box(s);
      for (auto& a : st.keyOuts) for (size_t i = 0; i < a.second.size(); i++) { auto& r = a.second[i]; if (r.tx->outs[r.out].owners.empty() || r.tx->outs[r.out].owners[0] != s.acc) continue; KeyImage ki = h.w.keyImageOf(r); wm[K(r.tx->id) + vf::strf("/%u", r.out)] = vf::strf("%llu index %zu %s", (unsigned long long)a.first, i, st.spent.count(ki) || pk.count(ki) ? "spent" : "unspent"); }
      for (auto& p : h.w.allTx) { TransactionInformation ti; if (!c.getTransactionInformation(p.second->id, ti, nullptr, nullptr) || ti.blockHeight == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) continue; for (auto& x : c.getTransactionOutputs(p.second->id, IC::IncludeTypeKey | IC::IncludeStateAll | IC::IncludeStateSpent)) { TransactionOutputInformation y; IC::TransferState ts; bool ok = c.getTransfer(x.transactionHash, x.outputInTransaction, y, ts); gm[K(x.transactionHash) + vf::strf("/%u", x.outputInTransaction)] = vf::strf("%llu index %u %s", (unsigned long long)x.amount, x.globalOutputIndex, !ok ? "?" : ts == IC::TransferState::TransferSpent ? "spent" : "unspent"); } }
      (void)want; (void)got; (void)wn; (void)gn; std::string why; for (auto& x : wm) { auto i = gm.find(x.first); if (i == gm.end()) why += " missing " + x.second + ";"; else if (i->second != x.second) why += " " + i->second + " instead of " + x.second + ";"; } for (auto& x : gm) if (!wm.count(x.first)) why += " foreign " + x.second + ";"; VF_CHECK(why.empty(), "W02/ledger", "%s: a new wallet's outputs are not those of the ledger:%s", when, why.substr(0, 600).c_str());
    }
  }
  void script(size_t range) {   // failures and events at some of the coming queries
    node.fail.clear(); node.at.clear(); if (!g.chance(2, 5)) return; size_t k = g.range(1, 3);
    for (size_t i = 0; i < k; i++) { size_t q = node.q + g.draw(g.flip() ? 3 : range); if (g.flip()) { node.fail[q] = std::make_error_code(g.flip() ? std::errc::io_error : std::errc::connection_refused); g.note("will fail query %zu", q); } else { node.at[q] = [this] { mids++; g.note("  during query"); h.step("W02/node"); }; g.note("something happens at query %zu", q); } }
  }
  void round() {
    bool clean = true; script(8); size_t f0 = node.failed, m0 = mids; int how = wal->running && g.chance(1, 4); auto ec = wal->round(how); node.fail.clear(); node.at.clear(); syncs++; clean = node.failed == f0 && mids == m0; fails += node.failed - f0;
    g.note("sync%s -> %s (%zu failed, %zu events)", how ? " (pool)" : "", ec ? ec.message().c_str() : "ok", node.failed - f0, mids - m0);
    if (clean) VF_CHECK(!ec, "W02/error", "a synchronisation without failing queries ends with: %s", ec.message().c_str()); if (!clean || how) { ec = wal->round(0); g.note("sync again -> %s", ec ? ec.message().c_str() : "ok"); VF_CHECK(!ec, "W02/error", "a synchronisation after failures ends with: %s", ec.message().c_str()); }
  }
  void saveLoad() {
    wal->stop(); std::stringstream s; wal->tr->save(s); std::unique_ptr<Wallet> n(new Wallet(h, node, subs)); n->tr->load(s); n->tr->initTransactionPool({}); wal = std::move(n); loads++; g.note("save and load");
  }
  void send() {
    const State& st = *h.main->state; std::set<KeyImage> none; std::set<std::pair<uint64_t, uint32_t>> nm; uint64_t f = h.w.minFee(st.height()); TxP t; switch (g.draw(4)) { case 0: t = h.w.randomDeposit(st, none, f); break; case 1: t = h.w.randomWithdraw(st, nm); break; default: t = h.w.randomTransfer(st, none, f); } if (!t) return;
    if (!wal->running || !g.flip()) { auto v = h.n->tx(t, false); g.note("relay %s: %s", sh(t->id).c_str(), v.str().c_str()); return; }
    auto e = wal->round(0); VF_CHECK(!e, "W02/error", "a synchronisation ends with: %s", e.message().c_str()); auto rd = createTransactionPrefix(t->tx); std::error_code ec; bool threw = false; try { ec = wal->sync->addUnconfirmedTransaction(*rd).get(); } catch (std::exception& x) { threw = true; } bool adm = !threw && !ec && h.n->tx(t, false).added; g.note("own transaction %s: %s", sh(t->id).c_str(), adm ? "sent" : threw ? "conflicts" : "refused"); if (!adm) wal->sync->removeUnconfirmedTransaction(t->id).get(); g.label(adm ? "own transaction sent" : "own transaction withdrawn"); auto e2 = wal->round(1); VF_CHECK(!e2, "W02/error", "a pool synchronisation ends with: %s", e2.message().c_str());
  }
};
std::string K32(const PublicKey& p) { return std::string((const char*)&p, 32); }
}
VF_PROP("W02.follow", 300, 12000, "histories of blocks, forks and reorganizations, relayed, expired, own and withdrawn transactions with synchronisations in between, in which node queries fail and the chain changes between queries, and saves and reloads of the synchroniser; wallets of one to three subscriptions, some sharing a view key, some starting late; oracle: after a synchronisation every container says what one of a new wallet says, whose outputs are those of the ledger model; non-trivial: a reorganization was followed and a transaction was seen in the pool, failed or reloaded") {
  static uint64_t runs = 0; HistCfg hc; hc.trunk = 13 + (uint32_t)g.draw(5); hc.wBadAmount = 0; hc.wDeep = 3; Cfg c = Hist::pickCfg(g); Hist h(g, c, hc); if (g.flip()) { auto& a = h.w.acc; a[1].k.viewSecretKey = a[0].k.viewSecretKey; a[1].k.address.viewPublicKey = a[0].k.address.viewPublicKey; a[1].addr = h.w.cur->accountAddressAsString(a[1].k.address); g.label("shared view key"); }
  // one-time keys are remembered by the process, so that they must never come twice, in whatever order cases run
  vf_env::seedRandom(g.seed() * 1000003 + ++runs); h.trunk("W02/node"); Lab l(g, h); size_t n = 1 + g.draw(3); uint64_t late = g.chance(1, 4) ? h.main->state->chain[g.draw(h.main->height + 1)]->b.timestamp : 0; if (late) g.label("starts late");
  for (size_t i = 0; i < n; i++) { Sub s; s.acc = (int)i; s.s.keys = h.w.acc[i].k; s.s.syncStart.timestamp = late && g.chance(3, 4) ? late : 0; s.s.syncStart.height = 0; s.s.transactionSpendableAge = g.oneof<uint64_t>({1, 6, 10}); l.subs.push_back(s); }
  // subscriptions of one view key start together
  for (auto& a : l.subs) for (auto& b : l.subs) if (K32(a.s.keys.address.viewPublicKey) == K32(b.s.keys.address.viewPublicKey)) b.s.syncStart = a.s.syncStart = a.s.syncStart.timestamp < b.s.syncStart.timestamp ? a.s.syncStart : b.s.syncStart;
  l.wal.reset(new Wallet(h, l.node, l.subs)); size_t k = 0;
  while (g.more(k, 24)) {
    k++;
    switch (g.weighted({8, 4, 2, 2, 8, 2})) {
      case 0: h.step("W02/node"); break;
      case 1: l.send(); break;
      case 2: { vf_env::setTime(vf_env::getTime() + (int64_t)g.oneof<uint64_t>({61, c.poolLive + 1, c.altLive + 1})); h.n->c->on_idle(); for (auto& a : h.alts) for (auto& t : a.second->txs) if (!h.main->state->txs.count(key(t->id))) h.n->tx(t, true); l.expiries++; g.note("time passes"); break; }
      case 3: l.saveLoad(); break;
      case 4: l.round(); l.poolSeen += l.pool().size(); if (g.chance(1, 3)) l.compare("after a synchronisation"); break;
      default: if (l.wal->running) { l.wal->stop(); g.note("stop"); }
    }
  }
  auto ec = l.wal->round(0); VF_CHECK(!ec, "W02/error", "the last synchronisation ends with: %s", ec.message().c_str()); l.compare("at the end");
  g.label("reorganized", h.reorgs > 0); g.label("reloaded", l.loads > 0); g.label("query failed", l.fails > 0); g.label("chain changed meanwhile", l.mids > 0); g.label("pool transactions", l.poolSeen > 0); if (h.reorgs && (l.poolSeen || l.fails || l.loads)) g.nontrivial();
}
