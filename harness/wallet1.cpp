// W01: the transfers container against a linear model of outputs and transactions.
#include "vf.h"
#include "vf_env.h"
#include <CryptoNoteCore/Currency.h>
#include <CryptoNoteCore/TransactionApi.h>
#include <CryptoNoteCore/TransactionExtra.h>
#include <CryptoNoteCore/CryptoNoteBasic.h>
#include <CryptoNoteCore/CryptoNoteTools.h>
#include <Logging/LoggerGroup.h>
#include <Transfers/TransfersContainer.h>
#include <sstream>
using namespace vf; using namespace cn; using crypto::Hash; using crypto::KeyImage; using crypto::PublicKey; typedef transaction_types::OutputType OT; typedef ITransfersContainer IC;
namespace {
const uint32_t U = std::numeric_limits<uint32_t>::max(); const uint64_t NOW = 1700000000;
static uint64_t ctr; template <class T> T rnd(Gen&) { T x; Rng q(++ctr); q.fill(&x, sizeof x); return x; }
template <class T> std::string K(const T& x) { return std::string((const char*)&x, sizeof x); }
struct Out { TransactionOutputInformationIn in; Hash tx; uint64_t unlock = 0; uint32_t height = U, pos = 0; bool spent = false; Hash by; uint32_t input = 0; };
struct Txm { Hash id; TransactionPrefix p; uint32_t height = U, pos = 0; uint64_t ts = 0; std::vector<std::string> msgs; PublicKey pub; uint64_t in = 0, out = 0; };
struct Model {
  uint32_t cur = 0, age; std::vector<Out> outs; std::vector<Txm> txs; uint64_t now = NOW;
  Txm* tx(const Hash& h) { for (auto& t : txs) if (t.id == h) return &t; return nullptr; }
  static bool dep(const Out& o) { return o.in.type == OT::Multisignature && o.in.term > 0; }
  bool unlockedAt(const Out& o, uint32_t c) const { if (o.unlock < 500000000 ? (uint64_t)c + 1 < o.unlock : now + 0 < o.unlock) return false; return !dep(o) || (uint64_t)c + 1 >= (uint64_t)o.height + o.in.term; }
  uint32_t stateAt(const Out& o, uint32_t c) const { if (o.height == U || !unlockedAt(o, c)) return IC::IncludeStateLocked; return (uint64_t)c < (uint64_t)o.height + age ? IC::IncludeStateSoftLocked : IC::IncludeStateUnlocked; }
  uint32_t state(const Out& o) const { return stateAt(o, cur); }
  static uint32_t type(const Out& o) { return o.in.type == OT::Key ? IC::IncludeTypeKey : dep(o) ? IC::IncludeTypeDeposit : IC::IncludeTypeMultisignature; }
  // of outputs that share a key image only one can ever be spent: the spent one, else the earliest confirmed one, else the only unconfirmed one
  bool visible(const Out& o) const {
    if (o.in.type != OT::Key) return true; const Out* best = nullptr; size_t unconf = 0; bool anySpent = false;
    for (auto& x : outs) if (x.in.type == OT::Key && x.in.keyImage == o.in.keyImage) { if (x.spent) anySpent = true; else if (x.height == U) unconf++; else if (!best || std::make_pair(x.height, x.pos) < std::make_pair(best->height, best->pos)) best = &x; }
    if (anySpent) return o.spent; if (best) return best == &o; return unconf == 1;
  }
  void drop(const Hash& h) { for (auto& o : outs) if (o.spent && o.by == h) o.spent = false; for (size_t i = outs.size(); i--;) if (outs[i].tx == h) outs.erase(outs.begin() + i); for (size_t i = txs.size(); i--;) if (txs[i].id == h) txs.erase(txs.begin() + i); }
};
typedef std::tuple<std::string, uint32_t, uint64_t, uint32_t, int, std::string> Row;
template <class T> Row row(const T& o) { std::string k = K(o.transactionPublicKey); if (o.type == OT::Key) k += K(o.outputKey); else k += K(o.requiredSignatures) + K(o.term); return Row(K(o.transactionHash), o.outputInTransaction, o.amount, o.globalOutputIndex, (int)o.type, k); }
struct Lab {
  Gen& g; Model m; Currency* cur; std::unique_ptr<TransfersContainer> c; std::string trace; std::vector<KeyImage> images; std::map<uint64_t, uint32_t> next; uint32_t posNo = 0; size_t loads = 0, detaches = 0, spends = 0, dups = 0, deposits = 0, confirms = 0, deletes = 0;
  std::vector<std::pair<uint32_t, std::string>> snaps; bool poolUsed = false;
  Lab(Gen& g_, Currency* cy) : g(g_), cur(cy) { m.age = (uint32_t)g.oneof<uint64_t>({1, 1, 3, 6, 10}); c.reset(new TransfersContainer(*cur, m.age)); }
  Row mrow(const Out& o) { TransactionOutputInformationIn x = o.in; x.transactionHash = o.tx; if (o.height == U) x.globalOutputIndex = UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX; return row(x); }
  void check(const char* when) {
    g.evals++; size_t n = 0; VF_CHECK(c->transfersCount() == m.outs.size(), "W01/count", "%s: %zu outputs instead of %zu", when, c->transfersCount(), m.outs.size()); VF_CHECK(c->transactionsCount() == m.txs.size(), "W01/count", "%s: %zu transactions instead of %zu", when, c->transactionsCount(), m.txs.size());
    std::vector<uint32_t> flags; for (uint32_t t : {0x100u, 0x200u, 0x400u}) for (uint32_t s : {1u, 2u, 4u}) flags.push_back(t | s); flags.push_back(IC::IncludeAll); flags.push_back(IC::IncludeDefault); flags.push_back(IC::IncludeAllLocked); flags.push_back(IC::IncludeAllUnlocked); flags.push_back(IC::IncludeKeyNotUnlocked);
    uint64_t sum = 0, all = 0;
    for (size_t i = 0; i < flags.size(); i++) {
      uint32_t f = flags[i]; uint64_t want = 0; std::multiset<Row> wr, gr; for (auto& o : m.outs) if (!o.spent && m.visible(o) && (m.state(o) & f) && (Model::type(o) & f)) { want += o.in.amount; wr.insert(mrow(o)); }
      uint64_t got = c->balance(f); VF_CHECK(got == want, "W01/balance", "%s: balance(0x%x) at height %u is %llu instead of %llu", when, f, m.cur, (unsigned long long)got, (unsigned long long)want); std::vector<TransactionOutputInformation> v; c->getOutputs(v, f); for (auto& x : v) gr.insert(row(x)); VF_CHECK(wr == gr, "W01/outputs", "%s: the outputs for 0x%x are not the expected ones (%zu, %zu expected)", when, f, v.size(), wr.size()); if (i < 9) sum += got; else if (i == 9) all = got;
    }
    VF_CHECK(sum == all, "W01/partition", "%s: the balances of the states and types add up to %llu, the whole is %llu", when, (unsigned long long)sum, (unsigned long long)all);
    std::multiset<std::string> un, gun; std::vector<Hash> uv; c->getUnconfirmedTransactions(uv); for (auto& x : uv) gun.insert(K(x)); for (auto& t : m.txs) if (t.height == U) un.insert(K(t.id)); VF_CHECK(un == gun, "W01/unconfirmed", "%s: %zu unconfirmed transactions instead of %zu", when, gun.size(), un.size());
    for (auto& t : m.txs) {
      TransactionInformation i; uint64_t in = 0, out = 0, wi = 0, wo = 0; VF_CHECK(c->getTransactionInformation(t.id, i, &in, &out), "W01/transaction", "%s: a transaction is not found", when); for (auto& o : m.outs) { if (o.tx == t.id) wo += o.in.amount; if (o.spent && o.by == t.id) wi += o.in.amount; }
      VF_CHECK(in == wi && out == wo, "W01/amounts", "%s: a transaction's amounts are %llu in, %llu out instead of %llu, %llu", when, (unsigned long long)in, (unsigned long long)out, (unsigned long long)wi, (unsigned long long)wo); VF_CHECK(i.blockHeight == t.height && i.timestamp == t.ts && i.transactionHash == t.id && i.unlockTime == t.p.unlockTime && i.publicKey == t.pub && i.extra == t.p.extra && i.messages == t.msgs && i.totalAmountIn == t.in && i.totalAmountOut == t.out, "W01/information", "%s: a transaction is described differently (height %u instead of %u)", when, i.blockHeight, t.height);
      for (uint32_t f : {(uint32_t)IC::IncludeAll, (uint32_t)IC::IncludeAllUnlocked, (uint32_t)(IC::IncludeTypeAll | IC::IncludeStateSpent), (uint32_t)(IC::IncludeTypeDeposit | IC::IncludeStateLocked)}) { std::multiset<Row> wr, gr; for (auto& o : m.outs) if (o.tx == t.id && (Model::type(o) & f) && (o.spent ? (f & IC::IncludeStateSpent) : (m.state(o) & f))) wr.insert(mrow(o)); for (auto& x : c->getTransactionOutputs(t.id, f)) gr.insert(row(x)); VF_CHECK(wr == gr, "W01/txoutputs", "%s: getTransactionOutputs(0x%x) gives %zu instead of %zu or others", when, f, gr.size(), wr.size()); }
      for (uint32_t f : {(uint32_t)IC::IncludeTypeAll, (uint32_t)IC::IncludeTypeKey, (uint32_t)IC::IncludeTypeDeposit}) { std::multiset<Row> wr, gr; for (auto& o : m.outs) if (o.spent && o.by == t.id && (Model::type(o) & f)) wr.insert(mrow(o)); for (auto& x : c->getTransactionInputs(t.id, f)) gr.insert(row(x)); VF_CHECK(wr == gr, "W01/txinputs", "%s: getTransactionInputs(0x%x) gives %zu instead of %zu or others", when, f, gr.size(), wr.size()); }
    }
    std::multiset<std::pair<Row, std::pair<std::string, uint64_t>>> ws, gs; for (auto& o : m.outs) if (o.spent) { auto t = m.tx(o.by); ws.insert({mrow(o), {K(o.by) + K(t->height) + K(o.input), t->ts}}); } for (auto& x : c->getSpentOutputs()) gs.insert({row(x), {K(x.spendingTransactionHash) + K(x.spendingBlockHeight) + K(x.inputInTransaction), x.timestamp}}); VF_CHECK(ws == gs, "W01/spent", "%s: %zu spent outputs instead of %zu, or others", when, gs.size(), ws.size());
    for (auto& o : m.outs) { TransactionOutputInformation x; IC::TransferState s; VF_CHECK(c->getTransfer(o.tx, o.in.outputInTransaction, x, s), "W01/transfer", "%s: an output is not found", when); auto want = o.spent ? IC::TransferState::TransferSpent : o.height == U ? IC::TransferState::TransferUnconfirmed : m.state(o) == IC::IncludeStateUnlocked ? IC::TransferState::TransferAvailable : IC::TransferState::TransferLocked; VF_CHECK(s == want && row(x) == mrow(o), "W01/transfer", "%s: an output is in state %d instead of %d, or another is described", when, (int)s, (int)want); n++; }
    TransactionOutputInformation x; IC::TransferState s; VF_CHECK(!c->getTransfer(rnd<Hash>(g), 0, x, s), "W01/transfer", "an unknown output is found");
  }
  struct Made { Txm t; std::vector<TransactionOutputInformationIn> outs; std::vector<size_t> spend; };
  uint64_t amount() { return g.oneof<uint64_t>({1, 5, 5, 10, 1000, 1000000, 1ull << 40, 77}); }
  Made make(bool unconf) {
    Made r; r.t.id = rnd<Hash>(g); r.t.pub = rnd<PublicKey>(g); r.t.p.version = 1; r.t.p.unlockTime = g.chance(1, 3) ? g.oneof<uint64_t>({m.cur + 1, m.cur + 5, m.cur + 20, 3, NOW - 1000, NOW + 100000, (1ull << 32) + m.cur + 4, ~0ull}) : 0; addTransactionPublicKeyToExtra(r.t.p.extra, r.t.pub); size_t n = g.size(4);
    for (size_t i = 0; i < n; i++) {
      bool mine = g.chance(3, 4), key = g.chance(3, 5); uint64_t a = amount(); TransactionOutput o; o.amount = a; TransactionOutputInformationIn x; memset(&x, 0, sizeof x); x.amount = a; x.outputInTransaction = (uint32_t)i; x.transactionPublicKey = r.t.pub; x.transactionHash = r.t.id; x.globalOutputIndex = UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX;
      if (key) { x.type = OT::Key; KeyOutput k; k.key = rnd<PublicKey>(g); o.target = k; x.outputKey = k.key; x.keyImage = rnd<KeyImage>(g); if (!images.empty() && g.chance(1, 5)) { KeyImage ki = g.pick(images); bool used = false; for (auto& y : r.outs) used |= y.type == OT::Key && y.keyImage == ki; bool sp = false; for (auto& y : m.outs) sp |= y.spent && y.in.keyImage == ki && y.in.type == OT::Key; if (!used && !sp) { x.keyImage = ki; if (mine) dups++; } } if (mine) images.push_back(x.keyImage); }
      else { x.type = OT::Multisignature; MultisignatureOutput k; k.keys = {rnd<PublicKey>(g)}; k.requiredSignatureCount = 1; k.term = g.chance(2, 3) ? 1 + (uint32_t)g.draw(12) : 0; o.target = k; x.requiredSignatures = 1; x.term = k.term; if (mine && k.term) deposits++; }
      r.t.p.outputs.push_back(o); r.t.out += a; if (mine) r.outs.push_back(x);
    }
    std::set<size_t> taken; size_t ni = g.size(3); bool unconfirmedOnly = false; (void)unconfirmedOnly;
    for (size_t i = 0; i < ni; i++) {
      std::vector<size_t> can; for (size_t k = 0; k < m.outs.size(); k++) { auto& o = m.outs[k]; if (o.spent || o.height == U || taken.count(k)) continue; bool clash = false; if (o.in.type == OT::Key) { for (auto t : taken) clash |= m.outs[t].in.type == OT::Key && m.outs[t].in.keyImage == o.in.keyImage; for (auto& y : m.outs) clash |= y.spent && y.in.type == OT::Key && y.in.keyImage == o.in.keyImage; } if (!clash) can.push_back(k); }
      if (can.empty() || g.chance(1, 5)) { KeyInput k; k.amount = amount(); k.outputIndexes = {1}; k.keyImage = rnd<KeyImage>(g); r.t.p.inputs.push_back(k); r.t.in += k.amount; continue; }
      size_t k = can[g.draw(can.size())]; auto& o = m.outs[k];
      if (o.in.type == OT::Key) { size_t best = k; for (size_t q = 0; q < m.outs.size(); q++) { auto& y = m.outs[q]; if (y.in.type == OT::Key && !y.spent && y.height != U && y.in.keyImage == o.in.keyImage && y.in.amount == o.in.amount && std::make_pair(y.height, y.pos) < std::make_pair(m.outs[best].height, m.outs[best].pos)) best = q; } taken.insert(best); KeyInput q; q.amount = o.in.amount; q.outputIndexes = {1, 2}; q.keyImage = o.in.keyImage; r.t.p.inputs.push_back(q); }
      else { taken.insert(k); MultisignatureInput q; q.amount = o.in.amount; q.outputIndex = o.in.globalOutputIndex; q.signatureCount = 1; q.term = o.in.term; r.t.p.inputs.push_back(q); }
      r.t.in += o.in.amount;
    }
    if (g.chance(1, 4)) r.t.msgs.push_back(g.ascii(10)); r.spend.assign(taken.begin(), taken.end()); return r;
  }
  void index(std::vector<TransactionOutputInformationIn>& v) { for (auto& x : v) x.globalOutputIndex = next[x.amount]++; }
  std::multiset<Row> crossing(uint32_t lo, uint32_t hi) { std::multiset<Row> v; for (auto& o : m.outs) if (!o.spent && o.height != U && !timed(o) && m.stateAt(o, lo) != IC::IncludeStateUnlocked && m.stateAt(o, hi) == IC::IncludeStateUnlocked) v.insert(mrow(o)); return v; }
  bool timed(const Out& o) { return o.unlock >= 500000000; }
  std::multiset<Row> rows(const std::vector<TransactionOutputInformation>& v, const char* what) { std::multiset<Row> r; for (auto& x : v) { Out* o = nullptr; for (auto& y : m.outs) if (y.tx == x.transactionHash && y.in.outputInTransaction == x.outputInTransaction) o = &y; VF_CHECK(o && !o->spent, "W01/notice", "%s names an output that is %s", what, o ? "spent" : "unknown"); if (o->unlock < 500000000) r.insert(row(x)); else VF_CHECK(m.state(*o) == IC::IncludeStateUnlocked || strcmp(what, "unlocking"), "W01/notice", "a locked output (unlock time %llu) is reported as unlocked", (unsigned long long)o->unlock); } return r; }
  void apply(Made& d, uint32_t h, uint32_t pos, uint64_t ts) {
    d.t.height = h; d.t.pos = pos; d.t.ts = ts; bool any = !d.outs.empty(); size_t ii = 0; (void)ii;
    for (auto k : d.spend) { Out& o = m.outs[k]; o.spent = true; o.by = d.t.id; for (size_t i = 0; i < d.t.p.inputs.size(); i++) { auto& in = d.t.p.inputs[i]; if (in.type() == typeid(KeyInput) ? o.in.type == OT::Key && boost::get<KeyInput>(in).keyImage == o.in.keyImage : o.in.type == OT::Multisignature && boost::get<MultisignatureInput>(in).amount == o.in.amount && boost::get<MultisignatureInput>(in).outputIndex == o.in.globalOutputIndex) o.input = (uint32_t)i; } any = true; spends++; }
    for (auto& x : d.outs) { Out o; o.in = x; o.tx = d.t.id; o.unlock = d.t.p.unlockTime; o.height = h; o.pos = pos; m.outs.push_back(o); } if (any) m.txs.push_back(d.t);
  }
  void step() {
    switch (g.weighted({6, 4, 3, 2, 3, 3, 2, 2})) {
      case 0: { Made d = make(false); index(d.outs); TransactionBlockInfo b; b.height = m.cur + (uint32_t)g.draw(3); b.timestamp = 1000 + b.height; b.transactionIndex = ++posNo; uint32_t from = m.cur; auto rd = createTransactionPrefix(d.t.p, d.t.id); std::vector<TransactionOutputInformation> un; auto msgs = d.t.msgs; bool mustAdd = !d.outs.empty() || !d.spend.empty(); g.note("add h=%u outs=%zu spends=%zu", b.height, d.outs.size(), d.spend.size());
        bool added = c->addTransaction(b, *rd, d.outs, std::move(msgs), &un); VF_CHECK(added == mustAdd, "W01/add", "a transaction is %s", added ? "added although it touches nothing" : "not added"); apply(d, b.height, b.transactionIndex, b.timestamp); m.cur = b.height; VF_CHECK(rows(un, "unlocking") == crossing(from, m.cur), "W01/unlocking", "adding a transaction at height %u: %zu outputs are reported as unlocking instead of %zu", m.cur, un.size(), crossing(from, m.cur).size()); check("after a confirmed transaction"); break; }
      case 1: { poolUsed = true; Made d = make(true); TransactionBlockInfo b; b.height = U; b.timestamp = 0; b.transactionIndex = 0; auto rd = createTransactionPrefix(d.t.p, d.t.id); auto msgs = d.t.msgs; bool mustAdd = !d.outs.empty() || !d.spend.empty(); g.note("pool outs=%zu spends=%zu", d.outs.size(), d.spend.size()); bool added = c->addTransaction(b, *rd, d.outs, std::move(msgs)); VF_CHECK(added == mustAdd, "W01/add", "an unconfirmed transaction is %s", added ? "added although it touches nothing" : "not added"); apply(d, U, 0, 0); check("after an unconfirmed transaction"); break; }
      case 2: { std::vector<Hash> v; for (auto& t : m.txs) if (t.height == U) v.push_back(t.id); Hash h = v.empty() || g.chance(1, 10) ? (m.txs.empty() ? rnd<Hash>(g) : g.pick(m.txs).id) : g.pick(v); auto t = m.tx(h); bool good = t && t->height == U; TransactionBlockInfo b; b.height = m.cur + (uint32_t)g.draw(2); b.timestamp = 2000 + b.height; b.transactionIndex = ++posNo; std::vector<uint32_t> gi; if (t) for (auto& o : t->p.outputs) gi.push_back(next[o.amount]++); g.note("confirm h=%u %s", b.height, good ? "" : "(not unconfirmed)");
        bool ok = c->markTransactionConfirmed(b, h, gi); VF_CHECK(ok == good, "W01/confirm", "confirming a transaction that is %s: %d", good ? "unconfirmed" : "not unconfirmed", ok); if (good) { confirms++; t->height = b.height; t->pos = b.transactionIndex; t->ts = b.timestamp; for (auto& o : m.outs) if (o.tx == h) { o.height = b.height; o.pos = b.transactionIndex; o.in.globalOutputIndex = gi[o.in.outputInTransaction]; } check("after a confirmation"); uint32_t from = m.cur; auto un = c->advanceHeight(b.height); m.cur = b.height; VF_CHECK(rows(un, "unlocking") == crossing(from, m.cur), "W01/unlocking", "after a confirmation %zu outputs are reported as unlocking", un.size()); } check("after a confirmation"); break; }
      case 3: { std::vector<Hash> v; for (auto& t : m.txs) if (t.height == U) v.push_back(t.id); Hash h = v.empty() || g.chance(1, 8) ? (m.txs.empty() ? rnd<Hash>(g) : g.pick(m.txs).id) : g.pick(v); auto t = m.tx(h); bool good = t && t->height == U; g.note("delete %s", good ? "" : "(not unconfirmed)"); bool ok = c->deleteUnconfirmedTransaction(h); VF_CHECK(ok == good, "W01/delete", "deleting a transaction that is %s: %d", good ? "unconfirmed" : "not unconfirmed", ok); if (good) { m.drop(h); deletes++; } check("after a deletion"); break; }
      case 4: { if (snaps.size() < 40 && !poolUsed) snaps.push_back({m.cur, dump()}); uint32_t to = m.cur + (uint32_t)g.oneof<uint64_t>({0, 1, 1, 1, 2, 5, 12}), from = m.cur; g.note("advance %u -> %u", from, to); auto un = c->advanceHeight(to); m.cur = to; auto want = crossing(from, to); VF_CHECK(rows(un, "unlocking") == want, "W01/unlocking", "advancing from %u to %u: %zu outputs are reported as unlocking instead of %zu", from, to, un.size(), want.size()); if (!want.empty()) g.label("outputs unlocked"); check("after an advance"); break; }
      case 5: { if (!m.cur) break; uint32_t h = m.cur + 1 - (uint32_t)g.draw(std::min<uint32_t>(m.cur + 1, g.flip() ? 4 : 25)); detaches++; g.note("detach %u", h); std::set<std::string> want, got; for (auto& t : m.txs) if (t.height == U) { for (auto& o : m.outs) if (o.spent && o.by == t.id && o.height >= h) want.insert(K(t.id)); } else if (t.height >= h) want.insert(K(t.id)); std::vector<Hash> del; std::vector<TransactionOutputInformation> lock; uint32_t from = m.cur; c->detach(h, del, lock); for (auto& x : del) got.insert(K(x));
        VF_CHECK(got == want && del.size() == got.size(), "W01/detach", "detaching at %u deletes %zu transactions instead of %zu", h, del.size(), want.size()); std::vector<Hash> dv; for (auto& t : m.txs) if (want.count(K(t.id))) dv.push_back(t.id); for (auto& x : dv) m.drop(x); m.cur = h ? h - 1 : 0; if (m.cur <= from) { auto w = crossing(m.cur, from); VF_CHECK(rows(lock, "locking") == w, "W01/locking", "detaching at %u from %u: %zu outputs are reported as locking instead of %zu", h, from, lock.size(), w.size()); } check("after a detach");
        for (auto& s : snaps) if (s.first == m.cur && !poolUsed && s.second == dump()) { g.label("earlier state restored"); } while (!snaps.empty() && snaps.back().first > m.cur) snaps.pop_back(); break; }
      case 6: { loads++; std::stringstream s; c->save(s); std::string b = s.str(); std::unique_ptr<TransfersContainer> n(new TransfersContainer(*cur, m.age)); if (g.chance(1, 3)) { TransactionBlockInfo bi; bi.height = 3; bi.timestamp = 1; bi.transactionIndex = 0; Made d = make(true); d.outs.clear(); TransactionOutputInformationIn x; memset(&x, 0, sizeof x); (void)x; n->advanceHeight((uint32_t)g.draw(9)); }
        bool old = g.chance(1, 3); if (old) { b[0] = 0; g.label("loaded the first format"); } std::istringstream i(b); n->load(i); c = std::move(n); g.note("save and load%s", old ? " (version 0)" : ""); std::stringstream s2; c->save(s2); if (!old) { std::unique_ptr<TransfersContainer> n2(new TransfersContainer(*cur, m.age)); std::istringstream i2(s2.str()); n2->load(i2); c = std::move(n2); } check("after loading"); break; }
      default: bad();
    }
  }
  std::string dump() { std::string r; for (auto& o : m.outs) r += K(o.tx) + K(o.height) + K(o.spent); return r; }
  // operations that must be refused and change nothing
  void bad() {
    Made d = make(false); TransactionBlockInfo b; b.height = m.cur; b.timestamp = 5; b.transactionIndex = ++posNo; bool threw = false; const char* what = ""; auto msgs = d.t.msgs; size_t k = g.draw(5);
    try {
      if (k == 0 && m.cur) { what = "a transaction below the height"; b.height = m.cur - 1; auto rd = createTransactionPrefix(d.t.p, d.t.id); index(d.outs); c->addTransaction(b, *rd, d.outs, std::move(msgs)); }
      else if (k == 1 && !m.txs.empty()) { what = "a transaction for the second time"; auto& t = g.pick(m.txs); auto rd = createTransactionPrefix(t.p, t.id); c->addTransaction(b, *rd, {}, {}); }
      else if (k == 2 && m.cur) { what = "a height below"; c->advanceHeight(m.cur - 1); }
      else if (k == 3) { std::vector<Out*> v; for (auto& o : m.outs) if (o.spent && o.in.type == OT::Key) v.push_back(&o); if (v.empty()) return; what = "a second spend"; Out* o = v[g.draw(v.size())]; Txm* by = m.tx(o->by); if (by->height == U && !g.flip()) return; KeyInput q; q.amount = o->in.amount; q.outputIndexes = {1}; q.keyImage = o->in.keyImage; d.t.p.inputs.insert(d.t.p.inputs.begin() + g.draw(d.t.p.inputs.size() + 1), q); index(d.outs); bool pool = g.flip() || by->height == U; if (pool) { b.height = U; for (auto& x : d.outs) x.globalOutputIndex = U; } auto rd = createTransactionPrefix(d.t.p, d.t.id); c->addTransaction(b, *rd, d.outs, std::move(msgs)); }
      else if (k == 4) { if (d.outs.empty()) return; what = "an output without index"; auto rd = createTransactionPrefix(d.t.p, d.t.id); if (g.flip()) b.height = U, index(d.outs); c->addTransaction(b, *rd, d.outs, std::move(msgs)); }
      else return;
    } catch (std::exception&) { threw = true; }
    g.note("refused: %s", what); g.label("refused operation"); VF_CHECK(threw, "W01/refuse", "%s is not refused", what); check("after a refused operation");
  }
};
}
VF_PROP("W01.container", 12000, 400000, "confirmed and unconfirmed transactions with key, multisignature and deposit outputs (also outputs sharing a key image), spends, confirmations, deletions, detaches, height advances, saves and loads (both formats) and operations to refuse, against a linear model checked after every step; non-trivial: something was spent, confirmed or deleted, detached and advanced") {
  ctr = 0; vf_env::setTime(NOW); static logging::LoggerGroup lg; static Currency cy = CurrencyBuilder(lg).currency(); Lab l(g, &cy); l.check("when new"); size_t k = 0; while (g.more(k, 40)) { k++; l.step(); }
  g.label("saved and loaded", l.loads > 0); g.label("key image shared", l.dups > 0); g.label("deposits", l.deposits > 0); g.label("detached", l.detaches > 0); if (l.spends && (l.confirms || l.deletes) && l.detaches) g.nontrivial();
}
