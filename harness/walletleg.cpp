// W04: the single-address wallet over a node that follows a random history and relays what the wallet sends.
#include "walletnode.h"
#include "WalletLegacy/WalletLegacy.h"
#include "crypto/crypto.h"
#include <sstream>
#include <condition_variable>
#include <chrono>
using namespace cw; using namespace cn; using vf::Gen;
namespace {
struct Watch : IWalletLegacyObserver {
  std::mutex m; std::condition_variable cv; size_t inits = 0, saves = 0, syncs = 0, sends = 0; std::error_code init, save, sync, send; TransactionId sent = 0;
  template<class F> void set(F f) { std::lock_guard<std::mutex> l(m); f(); cv.notify_all(); }
  void initCompleted(std::error_code e) override { set([&] { inits++; init = e; }); } void saveCompleted(std::error_code e) override { set([&] { saves++; save = e; }); }
  void synchronizationCompleted(std::error_code e) override { set([&] { syncs++; sync = e; }); } void sendTransactionCompleted(TransactionId t, std::error_code e) override { set([&] { sends++; sent = t; send = e; }); }
 
  size_t get(size_t Watch::*c) { std::lock_guard<std::mutex> l(m); return this->*c; }
};
// A wallet and the observer that watches it.
struct Purse {
  Hist& h; MNode& node; int acc; Watch o; std::unique_ptr<WalletLegacy> w; bool open = false;
  Purse(Hist& h_, MNode& n, int a) : h(h_), node(n), acc(a) { w.reset(new WalletLegacy(*h.w.cur, node, h.w.log, false)); w->addObserver(&o); }
  ~Purse() { w->removeObserver(&o); w.reset(); }
  void wait(size_t Watch::*c, size_t before, const char* what) { std::unique_lock<std::mutex> l(o.m); if (!o.cv.wait_for(l, std::chrono::seconds(30), [&] { return o.*c > before; })) { l.unlock(); w.release(); new Watch(); vf::fail("W04/stuck", "%s neither completes nor fails within 30 seconds", what); } }
  void check() { if (node.err) { auto e = node.err; node.err = nullptr; std::rethrow_exception(e); } }
  void create(const std::string& pw) { size_t s = o.get(&Watch::syncs); w->initWithKeys(h.w.acc[acc].k, pw); wait(&Watch::syncs, s, "the first synchronisation"); open = true; check(); VF_CHECK(!o.sync, "W04/sync", "the first synchronisation ends with: %s", o.sync.message().c_str()); }
  std::error_code load(const std::string& file, const std::string& pw) {
    std::stringstream s(file); size_t i = o.get(&Watch::inits), y = o.get(&Watch::syncs); w->initAndLoad(s, pw); wait(&Watch::inits, i, "loading"); if (o.init) return o.init; open = true; wait(&Watch::syncs, y, "the synchronisation after loading"); check(); VF_CHECK(!o.sync, "W04/sync", "the synchronisation after loading ends with: %s", o.sync.message().c_str()); return {};
  }
  std::string save(bool details, bool cache) { std::stringstream s; size_t v = o.get(&Watch::saves), y = o.get(&Watch::syncs); w->save(s, details, cache); wait(&Watch::saves, v, "saving"); VF_CHECK(!o.save, "W04/save", "saving fails: %s", o.save.message().c_str()); wait(&Watch::syncs, y, "the synchronisation after saving"); check(); return s.str(); }
  std::error_code round(bool pool) { size_t y = o.get(&Watch::syncs); std::vector<INodeObserver*> v; { std::lock_guard<std::recursive_mutex> l(node.m); v = node.obs; } for (auto x : v) if (pool) x->poolChanged(); else x->localBlockchainUpdated(node.top()); wait(&Watch::syncs, y, "a synchronisation"); check(); std::lock_guard<std::mutex> l(o.m); return o.sync; }
  void sync() { auto e = round(false); VF_CHECK(!e, "W04/sync", "a synchronisation ends with: %s", e.message().c_str()); }
};
struct TxLine { uint32_t height; int64_t total; uint64_t fee, unlock, ts; bool coinbase; std::string extra; };
struct DepLine { uint64_t amount, interest; uint32_t term; std::string by; bool locked; };
struct Told { uint64_t actual, pending, depActual, depPending; std::multimap<std::string, TxLine> txs; std::multimap<std::string, DepLine> deps; std::map<std::string, std::multiset<std::string>> pays; };
Told tell(Purse& p) {
  Told t; auto& w = *p.w; t.actual = w.actualBalance(); t.pending = w.pendingBalance(); t.depActual = w.actualDepositBalance(); t.depPending = w.pendingDepositBalance();
  for (size_t i = 0; i < w.getTransactionCount(); i++) { WalletLegacyTransaction x; VF_CHECK(w.getTransaction(i, x), "W04/list", "transaction %zu of %zu cannot be had", i, w.getTransactionCount()); if (x.state != WalletLegacyTransactionState::Active) continue; t.txs.emplace(key(x.hash), TxLine{x.blockHeight, x.totalAmount, x.fee, x.unlockTime, x.timestamp, x.isCoinbase, x.extra}); }
  for (size_t i = 0, end = w.getTransferCount(), seen = 0; i < w.getTransactionCount(); i++) { // transfers belong to one transaction each
    WalletLegacyTransaction x; w.getTransaction(i, x); if (x.firstTransferId == WALLET_LEGACY_INVALID_TRANSFER_ID || !x.transferCount) continue;
    for (size_t j = 0; j < x.transferCount; j++) { WalletLegacyTransfer y; VF_CHECK(w.getTransfer(x.firstTransferId + j, y) && w.findTransactionByTransferId(x.firstTransferId + j) == i, "W04/transfers", "transfer %zu of transaction %zu is not found as its own", j, i); }
    seen += x.transferCount; WalletLegacyTransfer y; VF_CHECK(seen <= end && !w.getTransfer(end, y) && w.findTransactionByTransferId(end) == WALLET_LEGACY_INVALID_TRANSACTION_ID, "W04/transfers", "the %zu transfers do not end", end);
  }
  for (size_t i = 0; i < w.getDepositCount(); i++) { Deposit d; VF_CHECK(w.getDeposit(i, d), "W04/list", "deposit %zu of %zu cannot be had", i, w.getDepositCount()); WalletLegacyTransaction x, y; if (!w.getTransaction(d.creatingTransactionId, x)) vf::fail("W04/list", "deposit %zu has no creating transaction", i); if (x.state != WalletLegacyTransactionState::Active) continue; DepLine l{d.amount, d.interest, d.term, "", d.locked}; if (d.spendingTransactionId != WALLET_LEGACY_INVALID_TRANSACTION_ID) { VF_CHECK(w.getTransaction(d.spendingTransactionId, y), "W04/list", "deposit %zu has no spending transaction", i); l.by = key(y.hash); } t.deps.emplace(key(x.hash), l); }
  std::vector<PaymentId> ids; { std::set<std::string> have; for (auto& x : p.h.w.pids) if (have.insert(key(x)).second) ids.push_back(x); } for (auto& x : w.getTransactionsByPaymentIds(ids)) for (auto& y : x.transactions) t.pays[key(x.paymentId)].insert(key(y.hash) + vf::strf(" %u", y.blockHeight));
  return t;
}
std::string h4(const std::string& k) { return vf::hex((const uint8_t*)k.data(), 4); }
std::string line(const TxLine& l, bool mine) { return vf::strf("height %d total %lld fee %llu unlock %llu ts %llu%s extra %s", (int)l.height, mine ? 0ll : (long long)l.total, mine ? 0ull : (unsigned long long)l.fee, (unsigned long long)l.unlock, (unsigned long long)l.ts, l.coinbase ? " coinbase" : "", mine ? "" : vf::hex((const uint8_t*)l.extra.data(), l.extra.size()).substr(0, 24).c_str()); }
std::string differ(const Told& a, const Told& b, const std::set<std::string>& mine) {
  std::string r; if (a.actual != b.actual) r += vf::strf("\n  actual balance %llu, not %llu", (unsigned long long)a.actual, (unsigned long long)b.actual); if (a.pending != b.pending) r += vf::strf("\n  pending balance %llu, not %llu", (unsigned long long)a.pending, (unsigned long long)b.pending); if (a.depActual != b.depActual) r += vf::strf("\n  actual deposit balance %llu, not %llu", (unsigned long long)a.depActual, (unsigned long long)b.depActual); if (a.depPending != b.depPending) r += vf::strf("\n  pending deposit balance %llu, not %llu", (unsigned long long)a.depPending, (unsigned long long)b.depPending);
  auto rows = [&](const Told& t) { std::multiset<std::string> s; for (auto& x : t.txs) s.insert("transaction " + h4(x.first) + " " + line(x.second, mine.count(x.first))); for (auto& x : t.deps) s.insert("deposit of " + h4(x.first) + vf::strf(" %llu term %u interest %llu %s by %s", (unsigned long long)x.second.amount, x.second.term, (unsigned long long)x.second.interest, !x.second.by.empty() ? "spent" : x.second.locked ? "locked" : "unlocked", x.second.by.empty() ? "-" : h4(x.second.by).c_str())); for (auto& x : t.pays) for (auto& y : x.second) s.insert("payment " + h4(x.first) + " " + h4(y) + y.substr(32)); return s; };
  auto x = rows(a), y = rows(b); for (auto& l : x) if (x.count(l) > y.count(l)) r += "\n  has " + l; for (auto& l : y) if (y.count(l) > x.count(l)) r += "\n  lacks " + l; return r.substr(0, 1500);
}
struct Lab {
  Gen& g; Hist& h; MNode node; std::unique_ptr<Purse> p; int acc; std::string pw = "first"; std::set<std::string> mine; size_t sends = 0, refusals = 0, loads = 0, poolSeen = 0, fails = 0, relays = 0; bool deny = false; std::vector<std::string> relayed;
  Lab(Gen& g_, Hist& h_, int a) : g(g_), h(h_), node(h_), acc(a) { p.reset(new Purse(h, node, a)); node.relay = [this](const Transaction& t) { return relay(t); }; }
  std::vector<TxP> pool() { std::vector<TxP> r; std::vector<Transaction> add; std::vector<crypto::Hash> del; h.n->c->getPoolChanges({}, add, del); for (auto& t : add) { auto i = h.w.allTx.find(key(getObjectHash(t))); if (i != h.w.allTx.end()) r.push_back(i->second); } return r; }
  bool conflicting() { std::set<KeyImage> k; std::set<std::pair<uint64_t, uint32_t>> ms; for (auto& t : pool()) { for (auto& x : t->kin) if (!k.insert(x.ki).second) return true; for (auto& x : t->min) if (!ms.insert({x.amount, x.idx}).second) return true; } return false; }
  bool among(const OutInfo& o) { return std::count(o.owners.begin(), o.owners.end(), acc) > 0; }
  bool sole(const OutInfo& o) { return o.owners.size() == 1 && o.owners[0] == acc; }
  // What the wallet sends is taken into the model, its outputs attributed by the recipients' own keys.
  TxP adopt(const Transaction& tx) {
    TxP t = std::make_shared<Tx>(); t->tx = tx; t->finish(); t->txPub = getTransactionPublicKeyFromExtra(tx.extra); size_t ki = 0; const State& st = *h.main->state;
    for (size_t i = 0; i < tx.outputs.size(); i++) {
      OutInfo o; o.amount = tx.outputs[i].amount; std::vector<PublicKey> keys; if (tx.outputs[i].target.type() == typeid(KeyOutput)) keys = {boost::get<KeyOutput>(tx.outputs[i].target).key}; else { auto& m = boost::get<MultisignatureOutput>(tx.outputs[i].target); o.msig = true; o.term = m.term; o.req = m.requiredSignatureCount; keys = m.keys; } ki = i; o.keys = keys;
      for (auto& k : keys) for (size_t a = 0; a < h.w.acc.size(); a++) { crypto::KeyDerivation d; crypto::PublicKey q; if (crypto::generate_key_derivation(t->txPub, h.w.acc[a].k.viewSecretKey, d) && crypto::derive_public_key(d, ki, h.w.acc[a].k.address.spendPublicKey, q) && q == k) { o.owners.push_back((int)a); break; } }
      t->outs.push_back(o);
    }
    for (auto& in : tx.inputs) if (in.type() == typeid(KeyInput)) { auto& k = boost::get<KeyInput>(in); KeyInExp e; e.amount = k.amount; e.ki = k.keyImage; uint32_t at = 0; for (auto& x : k.outputIndexes) { at += x; e.idx.push_back(at); auto f = st.keyOuts.find(k.amount); VF_CHECK(f != st.keyOuts.end() && at < f->second.size(), "W04/send", "the wallet's transaction refers to output %u of amount %llu, which there is not", at, (unsigned long long)k.amount); auto& r = f->second[at]; e.keys.push_back(r.tx->outs[r.out].keys.empty() ? PublicKey() : r.tx->outs[r.out].keys[0]); } t->kin.push_back(e); h.w.allKi.push_back(k.keyImage); }
      else if (in.type() == typeid(MultisignatureInput)) { auto& m = boost::get<MultisignatureInput>(in); auto f = st.msigOuts.find(m.amount); VF_CHECK(f != st.msigOuts.end() && m.outputIndex < f->second.size(), "W04/send", "the wallet's transaction refers to deposit %u of amount %llu, which there is not", m.outputIndex, (unsigned long long)m.amount); auto& r = f->second[m.outputIndex]; t->min.push_back(MsigInExp{m.amount, m.outputIndex, m.term, (uint32_t)m.signatureCount, r.tx->id, r.out}); }
    for (auto& o : t->outs) h.w.amounts.insert(o.amount); for (auto& x : h.w.allTx) if (x.second->txPub == t->txPub && !(x.second->id == t->id)) g.note("%s has the transaction key of %s", sh(t->id).c_str(), sh(x.second->id).c_str()); h.w.allTx[key(t->id)] = t; return t;
  }
  TxP last; Tvc lastV;
  std::error_code relay(const Transaction& t) { relays++; if (deny) { last.reset(); return std::make_error_code(std::errc::connection_refused); } last = adopt(t); lastV = h.n->tx(last, false); return lastV.added ? std::error_code() : std::make_error_code(std::errc::invalid_argument); }
  void ledger(Purse& f, const Told& t, const char* when) {
    const State& st = *h.main->state; std::set<KeyImage> pk; auto pl = pool(); for (auto& x : pl) for (auto& k : x->kin) pk.insert(k.ki); std::map<KeyImage, uint64_t> own; uint64_t sum = 0, ready = 0; uint32_t top = h.main->height; std::string why;
    for (auto& a : st.keyOuts) for (auto& r : a.second) { auto& o = r.tx->outs[r.out]; if (o.owners.empty() || o.owners[0] != acc) continue; KeyImage ki = h.w.keyImageOf(r); own[ki] = a.first; if (st.spent.count(ki) || pk.count(ki)) continue; sum += a.first; bool u = r.height + 10 <= top && h.w.unlockedAt(st, r.tx->tx.unlockTime); if (u) ready += a.first; }
    for (auto& x : pl) for (auto& o : x->outs) if (!o.msig && !o.owners.empty() && o.owners[0] == acc) sum += o.amount;
    if (t.actual + t.pending != sum) why += vf::strf(" the balances %llu and %llu do not add up to the %llu of the ledger;", (unsigned long long)t.actual, (unsigned long long)t.pending, (unsigned long long)sum); else if (t.actual != ready) why += vf::strf(" %llu can be spent, not %llu;", (unsigned long long)ready, (unsigned long long)t.actual);
    std::set<std::string> want; auto look = [&](const TxP& x, uint32_t height) {
      bool touch = false, plain = true; int64_t total = 0; for (auto& o : x->outs) { if (o.msig) { plain = false; if (among(o)) touch = true; } else if (!o.owners.empty() && o.owners[0] == acc) { touch = true; total += o.amount; } } for (auto& k : x->kin) if (own.count(k.ki)) { touch = true; total -= k.amount; } if (!x->min.empty()) { plain = false; for (auto& m : x->min) { auto i = h.w.allTx.find(key(m.srcTx)); if (i != h.w.allTx.end() && among(i->second->outs[m.srcOut])) touch = true; } }
      auto n = t.txs.count(key(x->id)); if (touch) { want.insert(key(x->id)); if (n != 1) why += " transaction " + sh(x->id) + vf::strf(" is listed %zu times;", n); else { auto& l = t.txs.find(key(x->id))->second; if (l.height != height) why += " transaction " + sh(x->id) + vf::strf(" has height %d, not %d;", (int)l.height, (int)height); if (plain && l.total != total) why += " transaction " + sh(x->id) + vf::strf(" counts %lld, not %lld;", (long long)l.total, (long long)total); if (l.coinbase != x->coinbase || l.unlock != x->tx.unlockTime) why += " transaction " + sh(x->id) + " is described wrongly;"; } } };
    for (auto& x : st.txs) look(x.second.second, x.second.first); for (auto& x : pl) look(x, WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT); for (auto& x : t.txs) if (!want.count(x.first)) why += " transaction " + h4(x.first) + " is listed, though it is not the account's: " + line(x.second, false) + ";";
    // the payments
    std::map<std::string, std::multiset<std::string>> pays; for (auto& x : st.txs) { auto& q = *x.second.second; auto l = t.txs.find(x.first); if (q.hasPid && l != t.txs.end() && l->second.total > 0) pays[key(q.pid)].insert(x.first + vf::strf(" %u", x.second.first)); } if (pays != t.pays) { why += " the payments by payment id are not those of the ledger:"; for (int k = 0; k < 2; k++) { why += k ? " listed" : " wanted"; for (auto& x : k ? t.pays : pays) for (auto& y : x.second) why += " " + h4(x.first) + "/" + h4(y) + y.substr(32); } why += ";"; }
    // the deposits
    size_t deps = 0; for (auto& a : st.msigOuts) for (auto& r : a.second) { auto& o = r.tx->outs[r.out]; if (!sole(o) || o.req != 1) continue; deps++; bool ok = false; auto e = t.deps.equal_range(key(r.tx->id)); for (auto i = e.first; i != e.second; ++i) if (i->second.amount == o.amount && i->second.term == o.term && (r.used ? !i->second.by.empty() : true)) ok = true; if (!ok) why += vf::strf(" the deposit of %llu of ", (unsigned long long)o.amount) + sh(r.tx->id) + (r.used ? " is not listed as spent;" : " is not listed;"); }
    g.label("deposits listed", deps > 0); VF_CHECK(why.empty(), "W04/ledger", "%s: a new wallet does not say what the ledger says:%s", when, why.substr(0, 900).c_str()); (void)f;
  }
  void compare(const char* when) {
    g.evals++; if (conflicting()) { g.label("pool with conflicting transactions"); return; } MNode n2(h); Purse f(h, n2, acc); f.create("other"); f.sync(); Told b = tell(f); ledger(f, b, when);
    Told a = tell(*p); std::string d = differ(a, b, mine); VF_CHECK(d.empty(), "W04/same", "%s: the wallet that followed differs from a new one:%s", when, d.c_str());
  }
  void saveLoad() {
    p->sync(); if (conflicting()) return; Told a = tell(*p); bool det = !g.chance(1, 4), cache = det && g.chance(2, 3); if (g.chance(1, 3)) { auto e = p->w->changePassword("not it", "x"); VF_CHECK((bool)e, "W04/password", "the password is changed by one who does not know it"); std::string n = "second" + std::to_string(g.draw(100)); e = p->w->changePassword(pw, n); VF_CHECK(!e, "W04/password", "the password cannot be changed: %s", e.message().c_str()); pw = n; }
    std::string f = p->save(det, cache); g.note("save%s%s: %zu bytes", det ? " details" : "", cache ? " cache" : "", f.size()); std::unique_ptr<Purse> n(new Purse(h, node, acc));
    { std::stringstream s(f); VF_CHECK(n->w->checkWalletPassword(s, pw), "W04/password", "the file's password is said to be wrong"); std::stringstream s2(f); VF_CHECK(!n->w->checkWalletPassword(s2, pw + " "), "W04/password", "a wrong password is said to be right"); }
    if (g.flip()) { auto e = n->load(f, g.flip() ? pw + "x" : "first!"); VF_CHECK((bool)e, "W04/password", "a wallet file is opened with a wrong password"); g.label("wrong password"); } if (g.chance(1, 3)) { auto e = n->load(f.substr(0, g.draw(f.size())), pw); VF_CHECK((bool)e, "W04/password", "a truncated wallet file is opened"); g.label("truncated file"); }
    if (f.size() > 160) { // one altered bit in the keys
      std::string d = f; size_t at = 11 + g.draw(140); d[at] ^= (char)(1u << g.draw(8)); MNode n2(h); Purse q(h, n2, acc); auto e = q.load(d, pw); g.label(e ? "altered file refused" : "altered file opened"); if (!e) { AccountKeys k; q.w->getAccountKeys(k); VF_CHECK(!memcmp(&k, &h.w.acc[acc].k, sizeof k), "W04/damaged", "a file with one bit of its byte %zu altered opens with other keys", at); }
    }
    p.reset(); auto e = n->load(f, pw); VF_CHECK(!e, "W04/load", "a saved wallet cannot be loaded: %s", e.message().c_str()); p = std::move(n); p->sync(); loads++; AccountKeys k; p->w->getAccountKeys(k); VF_CHECK(!memcmp(&k, &h.w.acc[acc].k, sizeof k), "W04/load", "a loaded wallet has other keys"); Told b = tell(*p); auto m = mine; if (!det) for (auto& x : a.txs) m.insert(x.first); std::string d = differ(b, a, m); VF_CHECK(d.empty(), "W04/load", "a saved and loaded wallet (details %d, cache %d) differs:%s", det, cache, d.c_str()); if (!det || !cache) g.label("saved without details or cache");
  }
  void send() {
    p->sync(); if (conflicting()) return; Told a = tell(*p); deny = g.chance(1, 5); size_t r0 = relays, s0 = p->o.get(&Watch::sends); last.reset(); uint64_t f = 1000; int what = (int)g.draw(3); uint64_t amount = 0; int to = (int)g.draw(h.w.acc.size()); std::string desc, threw; TransactionId id = WALLET_LEGACY_INVALID_TRANSACTION_ID; size_t di = 0; uint32_t term = 0;
    try {
      if (what == 0) { amount = 1 + g.draw(std::max<uint64_t>(1, a.actual * 5 / 4)); crypto::SecretKey sk; std::vector<WalletLegacyTransfer> v{WalletLegacyTransfer{h.w.acc[to].addr, (int64_t)amount}}; desc = vf::strf("send %llu to %d", (unsigned long long)amount, to); id = p->w->sendTransaction(sk, v, f, "", 5); }
      else if (what == 1) { auto ts = h.w.terms(); term = ts[g.draw(ts.size())]; amount = h.w.cfg.depMinAmount + g.draw(std::max<uint64_t>(1, a.actual)); desc = vf::strf("deposit %llu for %u", (unsigned long long)amount, term); id = p->w->deposit(term, amount, f, 0); }
      else { size_t n = p->w->getDepositCount(); if (!n) return; di = g.draw(n); desc = vf::strf("withdraw deposit %zu", di); id = p->w->withdrawDeposit(di, f); }
    } catch (std::exception& e) { threw = e.what(); }
    bool relayed = relays > r0, done = p->o.get(&Watch::sends) > s0; bool ok = done && !p->o.send; g.note("%s%s: %s%s%s", desc.c_str(), deny ? " (relay fails)" : "", threw.c_str(), done ? p->o.send.message().c_str() : "", last ? (" " + sh(last->id) + " " + lastV.str()).c_str() : ""); p->check();
    if (threw.empty()) VF_CHECK(done, "W04/send", "%s: neither completes nor fails", desc.c_str());
    // the node may hold a transaction of another branch, which it tells nobody of, that spends the same
    bool hidden = false; if (last && !lastV.added) for (auto& x : h.n->c->getPoolTransactions()) for (auto& i : x.inputs) { if (i.type() == typeid(KeyInput)) { for (auto& j : last->kin) if (j.ki == boost::get<KeyInput>(i).keyImage) hidden = true; } else if (i.type() == typeid(MultisignatureInput)) { for (auto& j : last->min) if (j.amount == boost::get<MultisignatureInput>(i).amount && j.idx == boost::get<MultisignatureInput>(i).outputIndex) hidden = true; } }
    if (hidden) g.label("spent by a transaction of another branch");
    if (last && !hidden) VF_CHECK(lastV.added, "W04/send", "%s: the node refuses the wallet's transaction %s: %s", desc.c_str(), sh(last->id).c_str(), lastV.str().c_str());
    VF_CHECK(ok == (relayed && !deny && last && lastV.added), "W04/send", "%s is said to have %s, but the node was told %s", desc.c_str(), ok ? "succeeded" : "failed", relayed ? "of it" : "nothing");
    Told b = tell(*p);
    if (!ok) { refusals++; g.label("send refused"); g.label("send failed at the relay", deny && relayed); std::string d = differ(b, a, mine); VF_CHECK(d.empty(), "W04/send", "%s: after a failed send the wallet differs:%s", desc.c_str(), d.c_str()); return; }
    sends++; mine.insert(key(last->id)); uint64_t in = 0, paid = 0, back = 0; for (auto& k : last->kin) in += k.amount; for (auto& o : last->outs) { if (what == 0 && !o.owners.empty() && o.owners[0] == to) paid += o.amount; else if (o.msig && what == 1) { VF_CHECK(sole(o) && o.term == term && o.req == 1, "W04/send", "%s: the deposit is another", desc.c_str()); paid += o.amount; } else if (!o.owners.empty() && o.owners[0] == acc) back += o.amount; }
    if (what < 2) { uint64_t dust = 10;   // change below the dust threshold does not come back
      VF_CHECK(to == acc && what == 0 ? paid + back <= in - f && paid + back + dust >= in - f : paid == amount && back <= in - f - amount && back + dust >= in - f - amount, "W04/send", "%s: from %llu, %llu are paid and %llu come back", desc.c_str(), (unsigned long long)in, (unsigned long long)paid, (unsigned long long)back); VF_CHECK(b.actual + b.pending + amount + f == a.actual + a.pending, "W04/send", "%s: the balance goes from %llu + %llu to %llu + %llu", desc.c_str(), (unsigned long long)a.actual, (unsigned long long)a.pending, (unsigned long long)b.actual, (unsigned long long)b.pending); }
    else { VF_CHECK(last->min.size() == 1 && back == last->min[0].amount + h.w.interest(last->min[0].amount, last->min[0].term, h.main->state->height()) - 10, "W04/send", "%s: %llu come back", desc.c_str(), (unsigned long long)back); }
    { WalletLegacyTransaction x; VF_CHECK(p->w->getTransaction(id, x) && x.hash == last->id && x.state == WalletLegacyTransactionState::Active, "W04/send", "%s: transaction %zu is not the one sent", desc.c_str(), (size_t)id); }
    if (what == 0) { WalletLegacyTransaction x; WalletLegacyTransfer y; VF_CHECK(p->w->getTransaction(id, x) && x.transferCount == 1 && p->w->getTransfer(x.firstTransferId, y) && y.amount == (int64_t)amount && y.address == h.w.acc[to].addr, "W04/transfers", "%s: the transfer is not listed as asked for", desc.c_str()); }
    g.label(what == 0 ? "sent" : what == 1 ? "deposited" : "withdrawn"); auto e = p->round(true); VF_CHECK(!e, "W04/sync", "a pool synchronisation ends with: %s", e.message().c_str()); if (g.flip()) compare("after sending");
  }
};
}
VF_PROP("W04.wallet", 400, 8000, "histories of blocks, forks and reorganizations, relayed and expired transactions followed by a wallet that also sends, deposits and withdraws itself (some relays fail), is saved under changing passwords, with or without its details and cache, and loaded again, also with wrong passwords, from truncated files and from files with one bit of the keys altered; oracle: a new wallet of the same keys, the ledger model (balances, spendable amount, transactions and what they count, payments, deposits) and the node, which must take what the wallet sends; non-trivial: a reorganization was followed or the wallet sent something") {
  static uint64_t runs = 0; HistCfg hc; hc.trunk = 13 + (uint32_t)g.draw(8); hc.wBadAmount = 0; hc.wDeep = 2; Cfg c = Hist::pickCfg(g); Hist h(g, c, hc); vf_env::seedRandom(g.seed() * 1000003 + 500000 + ++runs); h.trunk("W04/node"); Lab l(g, h, (int)g.draw(2)); l.p->create(l.pw); size_t k = 0;
  while (g.more(k, 20)) {
    k++;
    switch (g.weighted({8, 2, 2, 6, 4})) {
      case 0: h.step("W04/node"); break;
      case 1: { vf_env::setTime(vf_env::getTime() + (int64_t)g.oneof<uint64_t>({61, c.poolLive + 1})); h.n->c->on_idle(); for (auto& a : h.alts) for (auto& t : a.second->txs) if (!h.main->state->txs.count(key(t->id))) h.n->tx(t, true); g.note("time passes"); break; }
      case 2: l.saveLoad(); break;
      case 3: l.send(); break;
      default: l.p->sync(); l.poolSeen += l.pool().size(); if (g.chance(1, 3)) l.compare("after a synchronisation");
    }
  }
  l.p->sync(); l.compare("at the end"); g.label("reorganized", h.reorgs > 0); g.label("reloaded", l.loads > 0); if (h.reorgs || l.sends) g.nontrivial();
}
