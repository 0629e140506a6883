#include "chainworld.h"
#include <iostream>
#include <algorithm>
#include <boost/filesystem.hpp>
#include <CryptoNoteCore/IBlock.h>
#include <CryptoNoteCore/CoreConfig.h>
#include <CryptoNoteCore/MinerConfig.h>
#include <CryptoNoteProtocol/ICryptoNoteProtocolQuery.h>
#include <P2p/NetNodeCommon.h>
#include <Logging/ConsoleLogger.h>

using namespace cn;
// ---------------------------------------------------------------- link-time stand-ins
// Proof of work: a block whose nonce is (algorithm id << 28 | W) has a proof of work meeting exactly difficulty W under
// that algorithm and difficulty 1 under every other one.
namespace {
std::vector<std::string> g_dns;
void cheapPow(const void* data, size_t len, unsigned alg, crypto::Hash& out) {
  const uint8_t* p = (const uint8_t*)data; size_t i = 0;
  for (int v = 0; v < 3; v++) { while (i < len && (p[i] & 0x80)) i++; i++; }
  i += 32; uint32_t nonce = 0;
  if (i + 4 <= len) memcpy(&nonce, p + i, 4);
  uint64_t w = (nonce >> 28) == alg ? (nonce & 0x0fffffff) : 1;
  if (!w) w = 1;
  unsigned __int128 rem = 0; uint64_t q[4];
  for (int k = 3; k >= 0; k--) { rem = (rem << 64) | ~0ull; q[k] = (uint64_t)(rem / w); rem %= w; }
  memcpy(&out, q, 32);
}
}
namespace cw { std::vector<std::string> dnsRecords; }
extern "C" {
// data too short for a block is a password
void __wrap__ZN6crypto15cn_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE(void*, const void* d, size_t n, crypto::Hash& h) { if (n < 40) crypto::cn_fast_hash(d, n, h); else cheapPow(d, n, 1, h); }
void __wrap__ZN6crypto20cn_fast_slow_hash_v1ERNS_10cn_contextEPKvmRNS_4HashE(void*, const void* d, size_t n, crypto::Hash& h) { cheapPow(d, n, 2, h); }
void __wrap__ZN6crypto23cn_conceal_slow_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE(void*, const void* d, size_t n, crypto::Hash& h) { cheapPow(d, n, 3, h); }
void __wrap__ZN6crypto14cn_gpu_hash_v0ERNS_10cn_contextEPKvmRNS_4HashE(void*, const void* d, size_t n, crypto::Hash& h) { cheapPow(d, n, 4, h); }
bool __wrap__ZN6common13fetch_dns_txtENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEERSt6vectorIS5_SaIS5_EE(std::string, std::vector<std::string>& r) { r = cw::dnsRecords; return !r.empty(); }
}

namespace cw {
static struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } g_quiet;

std::string hx(const Hash& h) { return vf::hex(&h, 32); }
std::string key(const Hash& h) { return std::string((const char*)&h, 32); }
static std::string hexKi(const KeyImage& k) { return vf::hex(&k, 32); }
uint32_t powNonce(uint8_t major, uint64_t w) { uint32_t alg = major >= 8 ? 4 : major >= 7 ? 3 : major >= 3 ? 2 : 1; return alg << 28 | (uint32_t)(w & 0x0fffffff); }

std::unique_ptr<Currency> makeCurrency(const Cfg& c, logging::ILogger& log) {
  CurrencyBuilder b(log);
  b.testnet(true);
  b.upgradeHeightV2(c.v2).upgradeHeightV3(c.v3).upgradeHeightV6(c.v6).upgradeHeightV7(c.v7).upgradeHeightV8(c.v8);
  b.minedMoneyUnlockWindow(c.unlock).timestampCheckWindow(c.tsWindow);
  b.depositMinTerm(c.depMin).depositMaxTermV1(c.depMaxV1).depositMinTermV3(c.depMinV3).depositMaxTermV3(c.depMaxV3).depositHeightV3(c.depH3).depositHeightV4(c.depH4).depositMinAmount(c.depMinAmount);
  b.mempoolTxLiveTime(c.poolLive).mempoolTxFromAltBlockLiveTime(c.altLive);
  b.blockGrantedFullRewardZone(c.zone).maxBlockSizeInitial(c.maxInit).maxBlockSizeGrowthSpeedNumerator(c.growNum).maxBlockSizeGrowthSpeedDenominator(c.growDen);
  b.rewardBlocksWindow(c.rewardWindow);
  if (c.txMax) b.transactionMaxSize(c.txMax);
  if (c.reserved) b.minerTxBlobReservedSize(c.reserved);
  b.blockWithMissingInterest(0);
  return std::unique_ptr<Currency>(new Currency(b.currency()));
}

void Tx::finish() { blob = toBinaryArray(tx); id = getBinaryArrayHash(blob); }

std::string Bvc::str() const { return vf::strf("ret=%d added=%d failed=%d orphan=%d exists=%d switched=%d", ret, added, failed, orphan, exists, switched); }
std::string Tvc::str() const { return vf::strf("ret=%d failed=%d impossible=%d relay=%d added=%d", ret, failed, impossible, relay, added); }

// ---------------------------------------------------------------- node
Node::Node(World& w_, const std::string& d, bool fresh, cn::Checkpoints* cp) : w(w_), dir(d) {
  if (fresh) boost::filesystem::create_directories(d);
  open(cp);
}
Node::~Node() { c.reset(); }
bool Node::open(cn::Checkpoints* cp) {
  c.reset(new cn::core(*w.cur, nullptr, w.log, true, false));
  if (cp) { cn::Checkpoints k(*cp); c->set_checkpoints(std::move(k)); }
  CoreConfig cc; cc.configFolder = dir; cc.configFolderDefaulted = false; cc.testnet = true;
  MinerConfig mc; mc.miningThreads = 0;
  initOk = c->init(cc, mc, true);
  return initOk;
}
void Node::close(bool save) { if (!c) return; if (save) c->deinit(); c.reset(); }
Bvc Node::block(const BinaryArray& blob) {
  block_verification_context v = boost::value_initialized<block_verification_context>();
  bool r = c->handle_incoming_block_blob(blob, v, false, false);
  return {r, v.m_added_to_main_chain, v.m_verification_failed, v.m_marked_as_orphaned, v.m_already_exists, v.m_switched_to_alt_chain};
}
Tvc Node::tx(const BinaryArray& blob, bool kept) {
  tx_verification_context v = boost::value_initialized<tx_verification_context>();
  bool r = c->handle_incoming_tx(blob, v, kept);
  return {r, v.m_verification_failed, v.m_verification_impossible, v.m_should_be_relayed, v.m_added_to_pool, v.m_tx_fee_too_small};
}
Bvc Node::feed(const BlockP& b) { for (auto& t : b->txs) tx(t, true); return block(b); }
Hash Node::top() { uint32_t h; Hash id; c->get_blockchain_top(h, id); return id; }
uint32_t Node::height() { uint32_t h; Hash id; c->get_blockchain_top(h, id); return h; }

// ---------------------------------------------------------------- world
World::World(vf::Gen& g_, const Cfg& c, int accounts) : g(g_), cfg(c) {
  log.setMaxLevel((logging::Level)-1);
  if (getenv("CW_LOG")) { static logging::ConsoleLogger con(logging::TRACE); log.addLogger(con); log.setMaxLevel(logging::TRACE); std::cout.clear(); }
  cur = makeCurrency(cfg, log);
  rp.testnet = true; rp.maxTerm = 360; rp.maxTermV1 = cfg.depMaxV1; rp.minTermV3 = cfg.depMinV3; rp.maxTermV3 = cfg.depMaxV3; rp.heightV3 = cfg.depH3; rp.heightV4 = cfg.depH4; rp.minTerm = cfg.depMin; rp.v8 = cfg.v8; rp.grz = cfg.zone; rp.missing = 0; rp.minAmount = cfg.depMinAmount;
  vf_env::setTime(cfg.t0);
  for (int i = 0; i < accounts; i++) {
    AccountBase a; a.generate();
    Acc x; x.k = a.getAccountKeys(); x.addr = cur->accountAddressAsString(a); acc.push_back(x);
  }
  genesis = std::make_shared<Block>();
  genesis->b = cur->genesisBlock(); genesis->blob = toBinaryArray(genesis->b); genesis->id = get_block_hash(genesis->b);
  genesis->coinbase = wrapCoinbase(genesis->b.baseTransaction, -1);
  genesis->state = after(nullptr, genesis);
  blocks[key(genesis->id)] = genesis;
  allTx[key(genesis->coinbase->id)] = genesis->coinbase;
}
std::string World::newDir() { std::string d = vf::scratch() + "/n" + std::to_string(nodeNo++); boost::filesystem::remove_all(d); return d; }

uint8_t World::version(uint32_t h) const {
  if (h > cfg.v8) return 8; if (h > cfg.v7) return 7; if (h > cfg.v6) return 4; if (h > cfg.v3) return 3; if (h > cfg.v2) return 2; return 1;
}
uint64_t World::difficulty(const State& s) const {
  uint32_t size = s.height();
  size_t n = cur->difficultyBlocksCountByBlockVersion(version(size));
  std::vector<uint64_t> ts, cd;
  for (size_t i = size > n ? size - n : 1; i < size; i++) { if (i == 0) continue; ts.push_back(s.chain[i]->b.timestamp); cd.push_back(s.cumDiff[i]); }
  uint8_t v = version(size + 1);
  if (v >= 8) return cur->nextDifficultyLWMA1(ts, cd, size);
  if (v >= 4) return cur->nextDifficultyLWMA3(ts, cd);
  return cur->nextDifficulty(v, size, ts, cd);
}
uint64_t World::medianSize(const State& s) const {
  std::vector<uint64_t> v; size_t n = s.sizes.size(), from = n > cfg.rewardWindow ? n - cfg.rewardWindow : 0;
  for (size_t i = from; i < n; i++) v.push_back(s.sizes[i]);
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end()); size_t k = v.size() / 2;
  return v.size() % 2 ? v[k] : (v[k - 1] + v[k]) / 2;
}
bool World::unlockedAt(const State& s, uint64_t u) const {
  if (u < 500000000) return (uint64_t)s.height() - 1 + 1 >= u;
  return (uint64_t)vf_env::getTime() + 120 >= u;
}
uint64_t World::inAmount(const Tx& t, uint32_t height) const {
  uint64_t a = 0;
  for (auto& i : t.kin) a += i.amount;
  for (auto& i : t.min) a += i.amount + interest(i.amount, i.term, height);
  return a;
}
uint64_t World::interest(uint64_t amount, uint32_t term, uint32_t h) const {
  if (!term || term > rp.maxTermV1) return 0; const char* k; return refInterest(rp, amount, term, h - term, &k);
}
bool World::reward(uint64_t median, uint64_t size, uint64_t coins, uint64_t fees, uint32_t h, uint64_t& r, int64_t& em) const {
  uint64_t m = std::max<uint64_t>(median, cfg.zone); if (size > 2 * m) return false;
  uint64_t base = refPen(refBase(rp, coins, h), m, size), f = refPen(fees, m, size); r = base + f; em = (int64_t)(base - (fees - f)); return true;
}
uint64_t World::outAmount(const Tx& t) const { uint64_t a = 0; for (auto& o : t.outs) a += o.amount; return a; }
uint64_t World::fee(const Tx& t, uint32_t h) const { return t.coinbase ? 0 : inAmount(t, h) - outAmount(t); }

std::string World::txBad(const State& s, const Tx& t) const {
  std::set<KeyImage> kis; std::set<std::pair<uint64_t, uint32_t>> ms;
  for (auto& i : t.kin) {
    if (s.spent.count(i.ki)) return "key image spent";
    if (!kis.insert(i.ki).second) return "key image twice";
    auto it = s.keyOuts.find(i.amount);
    if (it == s.keyOuts.end()) return "no such amount";
    for (size_t k = 0; k < i.idx.size(); k++) {
      if (i.idx[k] >= it->second.size()) return "no such index";
      const Ref& r = it->second[i.idx[k]];
      if (!unlockedAt(s, r.tx->tx.unlockTime)) return "locked";
      if (memcmp(&boost::get<KeyOutput>(r.tx->tx.outputs[r.out].target).key, &i.keys[k], 32)) return "other ring";
    }
  }
  for (auto& i : t.min) {
    auto it = s.msigOuts.find(i.amount);
    if (it == s.msigOuts.end() || i.idx >= it->second.size()) return "no such multisignature output";
    const MRef& r = it->second[i.idx];
    if (!ms.insert({i.amount, i.idx}).second) return "multisignature twice";
    if (r.used) return "multisignature used";
    if (!(r.tx->id == i.srcTx) || r.out != i.srcOut) return "other multisignature output";
    if (!unlockedAt(s, r.tx->tx.unlockTime)) return "multisignature locked";
    if (i.term && r.height + i.term > s.height()) return "deposit locked";
  }
  return "";
}
void World::apply(State& s, const TxP& t) const {
  uint32_t h = s.height();   // the block being applied
  s.txs[key(t->id)] = {h, t};
  for (auto& i : t->kin) s.spent[i.ki] = h;
  for (auto& i : t->min) s.msigOuts[i.amount][i.idx].used = true;
  for (size_t o = 0; o < t->outs.size(); o++) {
    if (t->outs[o].msig) s.msigOuts[t->outs[o].amount].push_back({t, (uint32_t)o, h, false});
    else s.keyOuts[t->outs[o].amount].push_back({t, (uint32_t)o, h});
  }
  if (t->hasPid) s.byPid[key(t->pid)].push_back(t->id);
}
StateP World::after(const StateP& p, const BlockP& b) const {
  StateP n = p ? std::make_shared<State>(*p) : std::make_shared<State>();
  uint32_t h = n->height();
  uint64_t diff = p ? difficulty(*p) : 1;
  uint64_t coins = p ? p->coins.back() : 0;
  size_t size = b->coinbase->blob.size(); uint64_t fees = 0, interestSum = 0; int64_t dep = 0; uint64_t median = p ? medianSize(*p) : 0;
  apply(*n, b->coinbase);
  for (auto& o : b->coinbase->outs) if (o.msig && o.term) dep += (int64_t)o.amount;
  for (auto& t : b->txs) {
    apply(*n, t); size += t->blob.size(); fees += fee(*t, h);
    for (auto& i : t->min) if (i.term) { interestSum += interest(i.amount, i.term, h); dep -= (int64_t)i.amount; }
    for (auto& o : t->outs) if (o.msig && o.term) dep += (int64_t)o.amount;
  }
  uint64_t rew; int64_t emission;
  if (!reward(median, size, coins, fees, h, rew, emission)) return nullptr;
  n->over.push_back(b->over);
  n->chain.push_back(b); n->sizes.push_back(size);
  n->cumDiff.push_back((p ? p->cumDiff.back() : 0) + diff);
  n->coins.push_back(coins + emission + interestSum);
  n->depAmount.push_back((p ? p->depAmount.back() : 0) + dep);
  n->depInterest.push_back((p ? p->depInterest.back() : 0) + interestSum);
  n->genTx.push_back((p ? p->genTx.back() : 0) + 1 + b->txs.size());
  return n;
}
TxP World::wrapCoinbase(const Transaction& t, int) const {
  TxP r = std::make_shared<Tx>(); r->tx = t; r->coinbase = true; r->finish();
  for (auto& o : t.outputs) { OutInfo i; i.amount = o.amount; if (o.target.type() == typeid(MultisignatureOutput)) { auto& m = boost::get<MultisignatureOutput>(o.target); i.msig = true; i.term = m.term; i.req = m.requiredSignatureCount; } r->outs.push_back(i); }
  return r;
}
static void deriveOut(const Acc& a, const SecretKey& txSec, size_t idx, PublicKey& out) {
  crypto::KeyDerivation d; crypto::generate_key_derivation(a.k.address.viewPublicKey, txSec, d);
  crypto::derive_public_key(d, idx, a.k.address.spendPublicKey, out);
}
static void deriveSec(const Acc& a, const PublicKey& txPub, size_t idx, PublicKey& pub, SecretKey& sec) {
  crypto::KeyDerivation d; crypto::generate_key_derivation(txPub, a.k.viewSecretKey, d);
  crypto::derive_public_key(d, idx, a.k.address.spendPublicKey, pub);
  crypto::derive_secret_key(d, idx, a.k.spendSecretKey, sec);
}
KeyImage World::keyImageOf(const Ref& r) const {
  const OutInfo& o = r.tx->outs[r.out]; PublicKey p; SecretKey s; KeyImage k;
  deriveSec(acc[o.owners[0]], r.tx->txPub, r.out, p, s); crypto::generate_key_image(p, s, k); return k;
}
std::vector<World::Spend> World::spendable(const State& s, int owner) const {
  std::vector<Spend> v;
  for (auto& a : s.keyOuts) for (size_t i = 0; i < a.second.size(); i++) {
    const Ref& r = a.second[i]; const OutInfo& o = r.tx->outs[r.out];
    if (o.owners.empty() || (owner >= 0 && o.owners[0] != owner)) continue;
    if (!unlockedAt(s, r.tx->tx.unlockTime)) continue;
    v.push_back({r, a.first, (uint32_t)i, o.owners[0]});
  }
  return v;
}
std::vector<World::Dep> World::deposits(const State& s, bool mature) const {
  std::vector<Dep> v;
  for (auto& a : s.msigOuts) for (size_t i = 0; i < a.second.size(); i++) {
    const MRef& r = a.second[i]; if (r.used) continue; const OutInfo& o = r.tx->outs[r.out];
    if (o.owners.empty()) continue;
    if (mature && ((o.term && r.height + o.term > s.height()) || !unlockedAt(s, r.tx->tx.unlockTime))) continue;
    v.push_back({r, a.first, (uint32_t)i});
  }
  return v;
}

TxP World::build(const State& s, const TxSpec& sp) {
  TxP t = std::make_shared<Tx>(); Transaction& x = t->tx;
  PublicKey txPub; SecretKey txSec; crypto::generate_keys(txPub, txSec);
  t->txPub = txPub;
  bool anyMs = !sp.deps.empty(); for (auto& o : sp.outs) anyMs |= o.msig;
  x.version = sp.version ? sp.version : anyMs ? TRANSACTION_VERSION_2 : TRANSACTION_VERSION_1;
  x.unlockTime = sp.unlock;
  addTransactionPublicKeyToExtra(x.extra, txPub);
  if (sp.pid) { BinaryArray n; setPaymentIdToTransactionExtraNonce(n, sp.pidv); addExtraNonceToTransactionExtra(x.extra, n); t->hasPid = true; t->pid = sp.pidv; }
  if (sp.ttl) { appendTTLToExtra(x.extra, sp.ttl); t->ttl = sp.ttl; }
  x.extra.insert(x.extra.end(), sp.extra.begin(), sp.extra.end());
  struct K { std::vector<PublicKey> keys; size_t real; SecretKey sec; KeyImage ki; };
  std::vector<K> ks;
  for (auto& in : sp.in) {
    K k; PublicKey pub; deriveSec(acc[in.owner], in.ref.tx->txPub, in.ref.out, pub, k.sec);
    crypto::generate_key_image(pub, k.sec, k.ki);
    // ring: real plus others of the same amount that are unlocked
    std::vector<uint32_t> ring = {in.gidx};
    auto& all = s.keyOuts.at(in.amount);
    vf::Rng r(vf::mix(in.gidx, uniq)); size_t tries = 0;
    while (ring.size() < sp.ring && tries++ < 20) {
      uint32_t c = (uint32_t)r.below(all.size());
      if (std::find(ring.begin(), ring.end(), c) == ring.end() && unlockedAt(s, all[c].tx->tx.unlockTime)) ring.push_back(c);
    }
    std::sort(ring.begin(), ring.end());
    KeyInput ki; ki.amount = in.amount; ki.keyImage = k.ki;
    uint32_t prev = 0; for (uint32_t i : ring) { ki.outputIndexes.push_back(i - prev); prev = i; }
    for (size_t i = 0; i < ring.size(); i++) { auto& rr = all[ring[i]]; k.keys.push_back(boost::get<KeyOutput>(rr.tx->tx.outputs[rr.out].target).key); if (ring[i] == in.gidx) k.real = i; }
    x.inputs.push_back(ki);
    t->kin.push_back({in.amount, ring, k.keys, k.ki});
    ks.push_back(k);
  }
  for (auto& d : sp.deps) {
    const OutInfo& o = d.ref.tx->outs[d.ref.out];
    MultisignatureInput mi; mi.amount = d.amount; mi.signatureCount = (uint8_t)o.req; mi.outputIndex = d.gidx; mi.term = o.term;
    x.inputs.push_back(mi);
    t->min.push_back({d.amount, d.gidx, o.term, o.req, d.ref.tx->id, d.ref.out});
  }
  for (size_t i = 0; i < sp.outs.size(); i++) {
    auto& o = sp.outs[i]; OutInfo oi; oi.amount = o.amount; TransactionOutput to; to.amount = o.amount;
    if (o.msig) {
      MultisignatureOutput m; m.term = o.term; m.requiredSignatureCount = (uint8_t)o.req; oi.msig = true; oi.term = o.term; oi.req = o.req; oi.owners = o.owners;
      for (int a : o.owners) { PublicKey p; deriveOut(acc[a], txSec, i, p); m.keys.push_back(p); }
      to.target = m; oi.keys = m.keys;
    } else { KeyOutput k; deriveOut(acc[o.to], txSec, i, k.key); oi.owners = {o.to}; oi.keys = {k.key}; to.target = k; }
    x.outputs.push_back(to); t->outs.push_back(oi);
  }
  if (sp.tweak) sp.tweak(x);
  Hash ph = getObjectHash(*static_cast<TransactionPrefix*>(&x));
  for (size_t i = 0; i < ks.size(); i++) {
    std::vector<const PublicKey*> pk; for (auto& p : ks[i].keys) pk.push_back(&p);
    std::vector<crypto::Signature> sg(pk.size());
    crypto::generate_ring_signature(ph, ks[i].ki, pk, ks[i].sec, ks[i].real, sg.data());
    x.signatures.push_back(sg);
  }
  for (auto& d : sp.deps) {
    const OutInfo& o = d.ref.tx->outs[d.ref.out]; std::vector<crypto::Signature> sg;
    for (size_t j = 0; j < o.req && j < o.owners.size(); j++) {
      PublicKey p; SecretKey sec; deriveSec(acc[o.owners[j]], d.ref.tx->txPub, d.ref.out, p, sec);
      crypto::Signature q; crypto::generate_signature(ph, p, sec, q); sg.push_back(q);
    }
    x.signatures.push_back(sg);
  }
  if (sp.after) sp.after(x);
  t->finish(); uniq++;
  allTx[key(t->id)] = t;
  for (auto& k : t->kin) allKi.push_back(k.ki);
  for (auto& o : t->outs) amounts.insert(o.amount);
  if (t->hasPid) pids.push_back(t->pid);
  return t;
}
static const uint64_t kUnits[] = {1000000, 1000000, 2000000, 5000000, 10000000, 20000000, 100000000, 500000000};
std::vector<World::OutSpec> World::split(uint64_t amount, int to, size_t maxOuts, vf::Rng& r) const {
  // repeated round amounts so that rings can be filled, remainder last
  std::vector<OutSpec> v;
  while (amount && v.size() + 1 < maxOuts) {
    uint64_t u = kUnits[r.below(8)]; if (u >= amount) break;
    v.push_back({u, to}); amount -= u;
  }
  if (amount) v.push_back({amount, to});
  return v;
}
std::vector<uint32_t> World::terms() const { std::vector<uint32_t> t; for (uint32_t x = cfg.depMinV3; x <= cfg.depMaxV3; x += cfg.depMinV3) t.push_back(x); return t; }
TxP World::randomTransfer(const State& s, const std::set<KeyImage>& avoid, uint64_t feeWanted) {
  auto sp = spendable(s); std::vector<Spend> ok;
  for (auto& x : sp) if (x.amount > feeWanted) ok.push_back(x);
  if (ok.empty()) return nullptr;
  TxSpec t; uint64_t sum = 0; size_t n = g.range(1, 3); std::set<KeyImage> used(avoid);
  size_t start = g.draw(ok.size());
  for (size_t i = 0; i < ok.size() && t.in.size() < n; i++) {
    Spend c = ok[(start + i * 7) % ok.size()]; KeyImage k = keyImageOf(c.ref);
    if (s.spent.count(k) || !used.insert(k).second) continue;
    t.in.push_back(c); sum += c.amount;
  }
  if (t.in.empty() || sum <= feeWanted) return nullptr;
  t.ring = g.weighted({3, 2, 1}) + 1; vf::Rng r(g.seed());
  uint64_t rest = sum - feeWanted; int to = (int)g.draw(acc.size()), back = t.in[0].owner;
  uint64_t pay = g.flip() ? rest : rest / 2;
  for (auto& o : split(pay, to, 4, r)) t.outs.push_back(o);
  if (rest > pay) for (auto& o : split(rest - pay, back, 3, r)) t.outs.push_back(o);
  if (g.chance(1, 3)) { t.pid = true; memset(&t.pidv, 0, 32); t.pidv.data[0] = (uint8_t)g.range(1, 3); }
  if (g.chance(1, 8)) t.unlock = s.height() + g.draw(4);
  return build(s, t);
}
TxP World::randomDeposit(const State& s, const std::set<KeyImage>& avoid, uint64_t feeWanted) {
  auto sp = spendable(s); std::vector<Spend> ok;
  for (auto& x : sp) if (x.amount >= cfg.depMinAmount + feeWanted) ok.push_back(x);
  if (ok.empty()) return nullptr;
  size_t start = g.draw(ok.size()); TxSpec t;
  for (size_t i = 0; i < ok.size(); i++) { Spend c = ok[(start + i * 5) % ok.size()]; KeyImage k = keyImageOf(c.ref); if (s.spent.count(k) || avoid.count(k)) continue; t.in = {c}; break; }
  if (t.in.empty()) return nullptr;
  uint64_t have = t.in[0].amount - feeWanted; t.ring = g.range(1, 2); vf::Rng r(g.seed());
  std::vector<uint64_t> am; for (uint64_t u : {1000000ull, 2000000ull, 5000000ull, 25000000000ull}) if (u <= have && u >= cfg.depMinAmount) am.push_back(u);
  if (am.empty()) am.push_back(have);
  uint64_t a = g.pick(am); OutSpec o{a, 0}; o.msig = true;
  if (g.chance(1, 5)) { o.term = 0; o.owners = {0, 1, 2}; o.owners.resize(std::min<size_t>(acc.size(), 3)); o.req = (uint32_t)g.range(1, o.owners.size()); }
  else { o.term = terms()[g.weighted({6, 2, 1}) % terms().size()]; if (legacyTerms && s.height() <= cfg.depH4 && g.flip()) o.term = g.oneof<uint32_t>({2, 4, 5, 7, 64}); o.owners = {t.in[0].owner}; o.req = 1; }
  t.outs.push_back(o); have -= a;
  if (g.chance(1, 4) && have >= a) { t.outs.push_back(o); have -= a; }
  for (auto& c : split(have, t.in[0].owner, 4, r)) t.outs.push_back(c);
  return build(s, t);
}
TxP World::randomWithdraw(const State& s, const std::set<std::pair<uint64_t, uint32_t>>& avoid) {
  auto d = deposits(s, true); std::vector<Dep> ok; for (auto& x : d) if (!avoid.count({x.amount, x.gidx})) ok.push_back(x);
  if (ok.empty()) return nullptr;
  TxSpec t; size_t n = std::min<size_t>(ok.size(), g.range(1, 2)), st = g.draw(ok.size());
  uint64_t sum = 0;
  for (size_t i = 0; i < n; i++) { Dep x = ok[(st + i) % ok.size()]; t.deps.push_back(x); uint32_t term = x.ref.tx->outs[x.ref.out].term; sum += x.amount + interest(x.amount, term, s.height()); }
  uint64_t f = minFee(s.height()); vf::Rng r(g.seed());
  if (sum <= f) return nullptr;
  t.outs = split(sum - f, (int)g.draw(acc.size()), 4, r);
  return build(s, t);
}

BlockP World::finish(const BlockP& parent, const cn::Block& b, const std::vector<TxP>& txs, bool withState) {
  BlockP n = std::make_shared<Block>();
  n->b = b; n->txs = txs; n->prev = parent; n->height = parent->height + 1;
  n->coinbase = wrapCoinbase(b.baseTransaction, 0);
  n->blob = toBinaryArray(b); n->id = get_block_hash(b);
  if (parent->state) n->work = parent->state->cumDiff.back() + difficulty(*parent->state);
  if (withState && parent->state) n->state = after(parent->state, n);
  blocks[key(n->id)] = n;
  return n;
}
BlockP World::build(const BlockP& parent, const std::vector<TxP>& txs, const BlockOpt& o) {
  const State& s = *parent->state; uint32_t h = s.height();
  cn::Block b; b.majorVersion = version(h); b.minorVersion = 0; b.previousBlockHash = parent->id;
  b.timestamp = o.setTs ? o.ts : (uint64_t)((h == 1 ? cfg.t0 - 100000 : parent->b.timestamp) + cfg.spacing + o.dt);
  if (!o.setTs && parent->state && parent->state->chain.size() >= cfg.tsWindow) {   // never before the median of the window
    std::vector<uint64_t> ts; auto& c = parent->state->chain; for (size_t i = 0; i < cfg.tsWindow; i++) ts.push_back(c[c.size() - 1 - i]->b.timestamp);
    std::sort(ts.begin(), ts.end()); size_t k = ts.size() / 2; uint64_t med = ts.size() % 2 ? ts[k] : (ts[k - 1] + ts[k]) / 2; b.timestamp = std::max(b.timestamp, med);
  }
  for (auto& t : txs) b.transactionHashes.push_back(t->id);
  uint64_t fees = 0; size_t tsz = 0; for (auto& t : txs) { fees += fee(*t, h); tsz += t->blob.size(); }
  uint64_t median = medianSize(s), coins = s.coins.back();
  // coinbase: fixed number of equal outputs plus remainder; iterate because the size feeds back into the reward
  PublicKey txPub; SecretKey txSec; crypto::generate_keys(txPub, txSec);
  Transaction cb; std::vector<OutInfo> outs; size_t guess = 400;
  size_t pad = 0; bool fits = false;
  for (int it = 0; it < 40; it++) {
    uint64_t rew; int64_t em;
    if (!reward(median, tsz + guess, coins, fees, h, rew, em)) { if (!o.big) return nullptr; rew = refBase(rp, coins, h) + fees; }
    rew += o.rewardDelta;
    cb = Transaction(); outs.clear(); cb.version = TRANSACTION_VERSION_1; cb.unlockTime = h + cfg.unlock;
    BaseInput bi; bi.blockIndex = h; cb.inputs.push_back(bi);
    addTransactionPublicKeyToExtra(cb.extra, txPub);
    { BinaryArray n; for (int k = 0; k < 8; k++) n.push_back((uint8_t)(uniq >> (8 * k))); n.insert(n.end(), o.nonceExtra.begin(), o.nonceExtra.end()); n.resize(n.size() + pad, 0x55); addExtraNonceToTransactionExtra(cb.extra, n); }
    std::vector<uint64_t> am; uint64_t rest = rew;
    if (h > 1 && rest > o.dust * 10) for (size_t k = 0; k < o.dust; k++) am.push_back(10);
    if (h == 1) { for (int k = 0; k < 11; k++) am.push_back(500000000); for (int k = 0; k < 6; k++) am.push_back(50000000000ull); }
    for (auto a : am) rest -= a;
    if (h > 1) while (am.size() + 1 < o.maxOuts + o.dust && rest > 2000000) { uint64_t u = am.size() % 2 ? 2000000 : 1000000; am.push_back(u); rest -= u; }
    if (rest) am.push_back(rest);
    for (size_t i = 0; i < am.size(); i++) {
      int to = (int)((o.miner + i) % acc.size()); if (h > 1) to = o.miner;
      KeyOutput k; deriveOut(acc[to], txSec, i, k.key); TransactionOutput x; x.amount = am[i]; x.target = k; cb.outputs.push_back(x);
      OutInfo oi; oi.amount = am[i]; oi.owners = {to}; oi.keys = {k.key}; outs.push_back(oi);
    }
    size_t sz = getObjectBinarySize(cb);
    if (sz == guess) { fits = true; break; }
    if (it >= 5 && sz < guess && guess - sz < 60) pad += guess - sz; else guess = sz;   // a size that oscillates with the penalty is padded to the larger one
  }
  uniq++;
  b.baseTransaction = cb;
  b.nonce = powNonce(b.majorVersion, difficulty(s));
  BlockP n = finish(parent, b, txs, false);
  n->coinbase->outs = outs; n->coinbase->txPub = txPub;
  size_t total = tsz + n->coinbase->blob.size();
  if (total > sizeLimit(h)) n->bad = "larger than the size limit";
  else if (total > 2 * std::max<uint64_t>(median, cfg.zone)) n->bad = "larger than twice the median";
  else if (o.rewardDelta < 0) n->bad = "coinbase pays less than the reward";
  else if (o.rewardDelta > 10) n->bad = "coinbase pays more than the reward";
  else n->over = o.rewardDelta;
  if (!fits && n->bad.compare(0, 6, "larger") != 0) return nullptr;
  allTx[key(n->coinbase->id)] = n->coinbase; for (auto& x : outs) amounts.insert(x.amount);
  n->state = after(parent->state, n);
  return n;
}
BlockP World::grow(BlockP tip, size_t n) { for (size_t i = 0; i < n; i++) { BlockOpt o; o.miner = (int)((tip->height + 1) % acc.size()); tip = build(tip, {}, o); } return tip; }

// ---------------------------------------------------------------- dumps
static std::string strs(const std::vector<uint32_t>& v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }
Dump dump(World& w, Node& n, const DumpOpt& o) {
  Dump d; cn::core& c = *n.c; auto add = [&](std::string s) { d.push_back(std::move(s)); };
  uint32_t top; Hash tid; c.get_blockchain_top(top, tid);
  add(vf::strf("top %u %s", top, hx(tid).c_str()));
  add(vf::strf("size %u txs %zu nextdiff %llu coins %llu deposits %llu", c.get_current_blockchain_height(), c.get_blockchain_total_transactions(), (unsigned long long)c.getNextBlockDifficulty(), (unsigned long long)c.getTotalGeneratedAmount(), (unsigned long long)c.fullDepositAmount()));
  std::map<std::string, std::string> ts;
  uint64_t tmin = ~0ull, tmax = 0;
  for (uint32_t h = 0; h <= top; h++) {
    Hash id = c.getBlockIdByHeight(h); cn::Block b; uint32_t bh = 0; size_t sz = 0; uint64_t gen = 0, gt = 0; difficulty_type df = 0; uint64_t tsx = 0;
    bool ok = c.getBlockByHash(id, b) && c.getBlockHeight(id, bh) && c.getBlockSize(id, sz) && c.getAlreadyGeneratedCoins(id, gen) && c.getBlockDifficulty(h, df) && c.getBlockTimestamp(h, tsx);
    bool g1 = c.getGeneratedTransactionsNumber(h, gt);
    add(vf::strf("block %u %s ok=%d h=%u blob=%s size=%zu coins=%llu/%llu diff=%llu/%llu ts=%llu dep=%llu int=%llu gen=%d:%llu have=%d", h, hx(id).c_str(), ok, bh, sh(getBinaryArrayHash(toBinaryArray(b))).c_str(), sz,
      (unsigned long long)gen, (unsigned long long)c.coinsEmittedAtHeight(h), (unsigned long long)df, (unsigned long long)c.difficultyAtHeight(h), (unsigned long long)tsx,
      (unsigned long long)c.depositAmountAtHeight(h), (unsigned long long)c.depositInterestAtHeight(h), g1, (unsigned long long)gt, c.have_block(id)));
    tmin = std::min(tmin, b.timestamp); tmax = std::max(tmax, b.timestamp);
  }
  { std::vector<cn::Block> bl; uint32_t cnt = 0; c.getBlocksByTimestamp(tmin, tmax, 1000000, bl, cnt); std::multiset<std::string> ids; for (auto& b : bl) ids.insert(hx(get_block_hash(b))); std::string s; for (auto& i : ids) s += i.substr(0, 12) + ","; add(vf::strf("bytime %u %s", cnt, s.c_str())); }
  for (auto& kv : w.allTx) {
    Hash id = kv.second->id; Transaction t; bool have = c.getTransaction(id, t, false); Hash bid = Hash(); uint32_t bh = 0; bool in = c.getBlockContainingTx(id, bid, bh);
    std::vector<uint32_t> gi; bool gok = c.get_tx_outputs_gindexs(id, gi);
    if (have || in || gok) add(vf::strf("tx %s blob=%s in=%d %s@%u gidx=%d:%s", hx(id).c_str(), sh(getBinaryArrayHash(toBinaryArray(t))).c_str(), in, in ? sh(bid).c_str() : "-", in ? bh : 0, gok, strs(gi).c_str()));
  }
  std::set<KeyImage> kis(w.allKi.begin(), w.allKi.end());
  for (auto& k : kis) if (c.is_key_image_spent(k)) add("spent " + hexKi(k));
  for (uint64_t a : w.amounts) {
    std::string s;
    for (uint32_t i = 0;; i++) { KeyInput in; in.amount = a; in.outputIndexes = {i}; std::list<std::pair<Hash, size_t>> r; if (!c.scanOutputkeysForIndices(in, r) || r.empty()) break; s += sh(r.front().first) + ":" + std::to_string(r.front().second) + ","; }
    if (!s.empty()) add(vf::strf("outs %llu ", (unsigned long long)a) + s);
    s.clear();
    for (uint32_t i = 0;; i++) { MultisignatureInput in; in.amount = a; in.outputIndex = i; in.signatureCount = 1; in.term = 0; std::pair<Hash, size_t> r; if (!c.getMultisigOutputReference(in, r)) break; MultisignatureOutput mo; bool ok = c.getOutByMSigGIndex(a, i, mo); s += sh(r.first) + ":" + std::to_string(r.second) + (ok ? "/" + std::to_string(mo.term) + "x" + std::to_string(mo.requiredSignatureCount) : "/?") + ","; }
    if (!s.empty()) add(vf::strf("msig %llu ", (unsigned long long)a) + s);
  }
  std::set<std::string> pids; for (auto& p : w.pids) pids.insert(key(p));
  if (o.explorer && !o.pool) for (auto& p : pids) {
    Hash h; memcpy(&h, p.data(), 32); std::vector<Transaction> t; bool ok = c.getTransactionsByPaymentId(h, t);
    std::multiset<std::string> ids; for (auto& x : t) { Hash id = getObjectHash(x), bid; uint32_t bh; if (c.getBlockContainingTx(id, bid, bh)) ids.insert(hx(id)); }
    std::string s; for (auto& i : ids) s += i.substr(0, 12) + ",";
    (void)ok; if (!ids.empty()) add("pid " + sh(h) + " " + s);
  }
  return d;
}
Dump modelDump(World& w, const State& s, const DumpOpt& o) {
  Dump d; auto add = [&](std::string x) { d.push_back(std::move(x)); };
  uint32_t top = s.height() - 1; size_t txs = 0; for (auto& b : s.chain) txs += 1 + b->txs.size();
  add(vf::strf("top %u %s", top, hx(s.chain.back()->id).c_str()));
  add(vf::strf("size %u txs %zu nextdiff %llu coins %llu deposits %llu", s.height(), txs, (unsigned long long)w.difficulty(s), (unsigned long long)s.coins.back(), (unsigned long long)s.depAmount.back()));
  std::multiset<std::string> bt;
  for (uint32_t h = 0; h <= top; h++) {
    auto& b = s.chain[h]; uint64_t df = s.cumDiff[h] - (h ? s.cumDiff[h - 1] : 0);
    add(vf::strf("block %u %s ok=%d h=%u blob=%s size=%zu coins=%llu/%llu diff=%llu/%llu ts=%llu dep=%llu int=%llu gen=%d:%llu have=%d", h, hx(b->id).c_str(), 1, h, sh(getBinaryArrayHash(b->blob)).c_str(), (size_t)s.sizes[h],
      (unsigned long long)s.coins[h], (unsigned long long)s.coins[h], (unsigned long long)df, (unsigned long long)df, (unsigned long long)b->b.timestamp, (unsigned long long)s.depAmount[h], (unsigned long long)s.depInterest[h], 1, (unsigned long long)s.genTx[h], 1));
    bt.insert(hx(b->id));
  }
  { std::string x; for (auto& i : bt) x += i.substr(0, 12) + ","; add(vf::strf("bytime %u %s", (unsigned)bt.size(), x.c_str())); }
  // global indices
  std::map<std::string, std::vector<uint32_t>> gi;
  for (auto& kv : s.txs) gi[kv.first].resize(kv.second.second->outs.size());
  for (auto& a : s.keyOuts) for (size_t i = 0; i < a.second.size(); i++) gi[key(a.second[i].tx->id)][a.second[i].out] = (uint32_t)i;
  for (auto& a : s.msigOuts) for (size_t i = 0; i < a.second.size(); i++) gi[key(a.second[i].tx->id)][a.second[i].out] = (uint32_t)i;
  for (auto& kv : s.txs) add(vf::strf("tx %s blob=%s in=1 %s@%u gidx=1:%s", hx(kv.second.second->id).c_str(), sh(getBinaryArrayHash(kv.second.second->blob)).c_str(), sh(s.chain[kv.second.first]->id).c_str(), kv.second.first, strs(gi[kv.first]).c_str()));
  for (auto& k : s.spent) add("spent " + hexKi(k.first));
  for (uint64_t a : w.amounts) {
    std::string x; auto it = s.keyOuts.find(a);
    if (it != s.keyOuts.end()) for (auto& r : it->second) x += sh(r.tx->id) + ":" + std::to_string(r.out) + ",";
    if (!x.empty()) add(vf::strf("outs %llu ", (unsigned long long)a) + x);
    x.clear(); auto mt = s.msigOuts.find(a);
    if (mt != s.msigOuts.end()) for (auto& r : mt->second) { auto& q = r.tx->outs[r.out]; x += sh(r.tx->id) + ":" + std::to_string(r.out) + "/" + std::to_string(q.term) + "x" + std::to_string(q.req) + ","; }
    if (!x.empty()) add(vf::strf("msig %llu ", (unsigned long long)a) + x);
  }
  if (o.explorer && !o.pool) for (auto& p : s.byPid) { std::multiset<std::string> ids; for (auto& h : p.second) ids.insert(hx(h)); std::string x; for (auto& i : ids) x += i.substr(0, 12) + ","; Hash h; memcpy(&h, p.first.data(), 32); add("pid " + sh(h) + " " + x); }
  return d;
}
std::string diff(const Dump& a, const Dump& b, const char* an, const char* bn) {
  if (a == b) return "";
  std::multiset<std::string> sa(a.begin(), a.end()), sb(b.begin(), b.end()); std::string r; int n = 0;
  for (auto& x : sa) if (sb.count(x) < sa.count(x) && n++ < 4) r += std::string("\n  only ") + an + ": " + x.substr(0, 300);
  n = 0;
  for (auto& x : sb) if (sa.count(x) < sb.count(x) && n++ < 4) r += std::string("\n  only ") + bn + ": " + x.substr(0, 300);
  if (r.empty()) r = "\n  same lines in a different order";
  return r;
}
Dump poolDump(Node& n) {
  Dump d; std::multiset<std::string> ids;
  for (auto& t : n.c->getPoolTransactions()) ids.insert(hx(getObjectHash(t)));
  for (auto& i : ids) d.push_back("pool " + i);
  return d;
}
}  // namespace cw
