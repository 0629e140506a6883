// K03: stealth payments; K04: encrypted messages
#include "vf.h"
#include "vf_env.h"
#include "refcrypto.h"
#include <algorithm>
#include "crypto/crypto.h"
#include "crypto/hash.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/TransactionUtils.h"
#include "Logging/LoggerGroup.h"
using namespace crypto; using namespace cn; typedef std::string S;
namespace {
logging::LoggerGroup lg;
template <class T> S str(const T& t) { return S((const char*)&t, sizeof t); }
template <class T> T pod(const S& s) { T t; memcpy(&t, s.data(), sizeof t); return t; }
const Currency& cur() { static Currency c = CurrencyBuilder(lg).currency(); return c; }
AccountKeys account(vf::Rng& r, const AccountKeys* sameView) {
  AccountBase b; b.generate(); AccountKeys k = b.getAccountKeys(); if (sameView) { k.viewSecretKey = sameView->viewSecretKey; k.address.viewPublicKey = sameView->address.viewPublicKey; } return k;
}
struct Coin { PublicKey txKey; size_t index; uint64_t amount; PublicKey key; size_t owner; bool used; };
struct World {
  std::vector<AccountKeys> acc; std::vector<Coin> coins; std::set<S> images; 
  S name(size_t i) { return "account " + std::to_string(i); }
  // Who owns output i of a transaction with this key, by the reference
  int refOwner(const PublicKey& tk, size_t i, const PublicKey& key) { int o = -1; for (size_t a = 0; a < acc.size(); a++) { S d; if (!ref::derivation(str(tk), str(acc[a].viewSecretKey), d)) continue; if (ref::derivePub(d, i, str(acc[a].address.spendPublicKey)) == str(key)) o = (int)a; } return o; }
  // check everything every account sees; paid: expected (amount, owner) for key outputs in order or as a multiset
  void check(vf::Gen& g, const Transaction& tx, const PublicKey& tk, std::vector<std::pair<uint64_t, size_t>> paid, bool ordered, const std::vector<std::vector<size_t>>& msig, const char* how) {
    std::vector<std::pair<uint64_t, size_t>> seen(tx.outputs.size(), {0, (size_t)-1}); std::vector<size_t> owners(tx.outputs.size(), (size_t)-1);
    for (size_t a = 0; a < acc.size(); a++) {
      const AccountKeys& k = acc[a]; std::vector<size_t> outs, outs2; uint64_t m = 0, m2 = 0; VF_CHECK(lookup_acc_outs(k, tx, outs, m), "lookup", "%s: lookup_acc_outs failed", how); lookup_acc_outs(k, tx, tk, outs2, m2); VF_CHECK(outs == outs2 && m == m2, "lookup", "%s: the two forms of lookup_acc_outs disagree", how);
      std::vector<uint32_t> o3; uint64_t m3 = 0; findOutputsToAccount(tx, k.address, k.viewSecretKey, o3, m3); std::vector<size_t> keyOuts, want; for (auto i : o3) if (tx.outputs[i].target.type() == typeid(KeyOutput)) keyOuts.push_back(i); VF_CHECK(keyOuts == outs && m3 == m, "find", "%s: findOutputsToAccount and lookup_acc_outs disagree for %s", how, name(a).c_str());
      uint64_t sum = 0; for (auto i : outs) { VF_CHECK(i < tx.outputs.size() && owners[i] == (size_t)-1, "two-owners", "%s: output %zu is recognised by %s and %s", how, i, name(a).c_str(), i < tx.outputs.size() ? name(owners[i]).c_str() : "-"); owners[i] = a; sum += tx.outputs[i].amount; } VF_CHECK(sum == m, "amount", "%s: %s recognises %lu but the outputs hold %lu", how, name(a).c_str(), m, sum);
      for (size_t i = 0; i < tx.outputs.size(); i++) if (tx.outputs[i].target.type() == typeid(KeyOutput)) { auto& ko = boost::get<KeyOutput>(tx.outputs[i].target); bool mine = is_out_to_acc(k, ko, tk, i); VF_CHECK(mine == (owners[i] == a), "is-out", "%s: is_out_to_acc says %d for output %zu of %s", how, mine, i, name(a).c_str()); g.evals++;
        KeyPair e; KeyImage im; VF_CHECK(generate_key_image_helper(k, tk, i, e, im), "helper", "%s: generate_key_image_helper failed", how); VF_CHECK((e.publicKey == ko.key) == mine, "helper-key", "%s: one-time key of output %zu derived by %s is %sthe output's", how, i, name(a).c_str(), mine ? "not " : "");
        if (mine) { VF_CHECK(ref::pub(str(e.secretKey)) == str(ko.key), "secret", "%s: the one-time secret of output %zu does not open it", how, i); VF_CHECK(str(im) == ref::keyImage(str(ko.key), str(e.secretKey)), "image", "%s: key image of output %zu differs from the reference", how, i); VF_CHECK(images.insert(str(im)).second, "image-reuse", "%s: two outputs share a key image", how); } }
      else if (tx.outputs[i].target.type() == typeid(MultisignatureOutput)) { size_t want = 0; for (auto o : msig[i]) want += o == a; size_t got = std::count(o3.begin(), o3.end(), (uint32_t)i); VF_CHECK(got == want, "msig", "%s: multisignature output %zu has %zu keys of %s, recognised %zu", how, i, want, name(a).c_str(), got); }
    }
    std::vector<std::pair<uint64_t, size_t>> got; for (size_t i = 0; i < tx.outputs.size(); i++) if (tx.outputs[i].target.type() == typeid(KeyOutput)) { VF_CHECK(owners[i] != (size_t)-1, "lost", "%s: output %zu (%lu) is recognised by nobody", how, i, tx.outputs[i].amount); VF_CHECK(refOwner(tk, i, boost::get<KeyOutput>(tx.outputs[i].target).key) == (int)owners[i], "owner", "%s: output %zu goes to %s, by the reference to another", how, i, name(owners[i]).c_str()); got.push_back({tx.outputs[i].amount, owners[i]}); coins.push_back({tk, i, tx.outputs[i].amount, boost::get<KeyOutput>(tx.outputs[i].target).key, owners[i], false}); }
    if (!ordered) { std::sort(got.begin(), got.end()); std::sort(paid.begin(), paid.end()); } VF_CHECK(got == paid, "paid", "%s: the outputs do not pay what was asked (%zu outputs, %zu asked)", how, got.size(), paid.size());
    // the same outputs under an unusable or foreign transaction key belong to nobody
    if (g.chance(1, 3)) { Transaction t2 = tx; bool bad = g.flip(); S k2 = bad ? S(32, 0) : ref::pub(S(1, (char)(1 + g.draw(100))) + S(31, 0)); if (bad) { k2[0] = 2; ref::P d; while (ref::dec(k2, d)) k2[0]++; } t2.extra.clear(); addTransactionPublicKeyToExtra(t2.extra, pod<PublicKey>(k2)); g.label(bad ? "unusable transaction key" : "foreign transaction key");
      for (size_t a = 0; a < acc.size(); a++) { std::vector<size_t> o, warm; uint64_t m = 7; lookup_acc_outs(acc[a], tx, warm, m); m = 7; lookup_acc_outs(acc[a], t2, o, m); VF_CHECK(o.empty() && (m == 0 || m == 7), "foreign-key", "%s: %s recognises %zu outputs under a transaction key that does not lead to them", how, name(a).c_str(), o.size()); std::vector<uint32_t> o2; uint64_t m2 = 0; findOutputsToAccount(tx, acc[a].address, acc[a].viewSecretKey, o2, m2); o2.clear(); m2 = 0; findOutputsToAccount(t2, acc[a].address, acc[a].viewSecretKey, o2, m2); VF_CHECK(o2.empty() && m2 == 0, "foreign-key", "%s: findOutputsToAccount finds outputs under a foreign transaction key", how);
        for (size_t i = 0; i < tx.outputs.size(); i++) if (tx.outputs[i].target.type() == typeid(KeyOutput)) { is_out_to_acc(acc[a], boost::get<KeyOutput>(tx.outputs[i].target), tk, i); VF_CHECK(!is_out_to_acc(acc[a], boost::get<KeyOutput>(tx.outputs[i].target), pod<PublicKey>(k2), i), "foreign-key", "%s: is_out_to_acc accepts output %zu under a transaction key that does not lead to it", how, i); } } }
  }
};
uint64_t amt(vf::Gen& g) { return 1 + (g.flip() ? g.draw(10) : g.u64_below(1000000000ull)); }
}  // namespace

VF_PROP("K03.pay", 250, 12000, "payments among 2 to 6 accounts (some sharing a view key) by constructTransaction with rings, by the transaction builder with key and multisignature outputs and by coinbase construction, later payments spending outputs of earlier ones: every account's view of every output, one-time secrets, key images, sender's transaction key and proofs; non-trivial: at least two recipients and one spend of a received output") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); World w; size_t n = 2 + g.draw(5); for (size_t i = 0; i < n; i++) { bool sv = i && g.chance(1, 3); AccountKeys* base = sv ? &w.acc[g.draw(i)] : nullptr; AccountKeys k; k = account(r, base); w.acc.push_back(k); if (base) g.label("shared view key"); }
  size_t steps = 1 + g.draw(5); std::set<S> dets; std::set<size_t> recips; bool spent = false;
  for (size_t st = 0; st < steps; st++) {
    std::vector<size_t> live; for (size_t c = 0; c < w.coins.size(); c++) if (!w.coins[c].used) live.push_back(c); size_t how = live.empty() ? 1 + g.draw(2) : g.draw(4); 
    if (how == 0 || how == 3) { // constructTransaction spending received coins
      size_t who = w.coins[g.pick(live)].owner; std::vector<size_t> mine; for (size_t c : live) if (w.coins[c].owner == who) mine.push_back(c); std::vector<TransactionSourceEntry> src; uint64_t in = 0; size_t k = 1 + g.draw(3);
      for (size_t q = 0; q < k && !mine.empty(); q++) { size_t p = g.draw(mine.size()), c = mine[p]; mine.erase(mine.begin() + p); w.coins[c].used = true; Coin co = w.coins[c]; TransactionSourceEntry e; size_t ring = 1 + g.draw(4); std::vector<std::pair<uint32_t, PublicKey>> outs; e.realOutput = g.draw(ring); for (size_t j = 0; j < ring; j++) outs.push_back({(uint32_t)(10 * j + 1 + g.draw(9)), j == e.realOutput ? co.key : w.coins[g.draw(w.coins.size())].key}); e.outputs = outs; e.realTransactionPublicKey = co.txKey; e.realOutputIndexInTransaction = co.index; e.amount = co.amount; src.push_back(e); in += co.amount; }
      std::vector<TransactionDestinationEntry> dst; std::vector<std::pair<uint64_t, size_t>> paid; uint64_t left = in; size_t d = 1 + g.draw(6); for (size_t q = 0; q < d && left; q++) { size_t to = g.draw(n); uint64_t a = 1 + g.u64_below(left - 1); if (g.flip() && q) a = std::min(left, dst.back().amount); dst.push_back(TransactionDestinationEntry(a, w.acc[to].address)); paid.push_back({a, to}); recips.insert(to); left -= a; }
      std::vector<uint8_t> extra; if (g.flip()) { BinaryArray nonce; S b = g.bytes(g.draw(40)); nonce.assign(b.begin(), b.end()); addExtraNonceToTransactionExtra(extra, nonce); } Transaction tx; SecretKey sk; uint64_t ttl = g.flip() ? 0 : g.u64(); VF_CHECK(constructTransaction(w.acc[who], src, dst, std::vector<tx_message_entry>(), ttl, extra, tx, g.draw(100), lg, sk), "construct", "constructTransaction refused a payment of %zu sources to %zu destinations", src.size(), dst.size()); spent = true;
      PublicKey tk = getTransactionPublicKeyFromExtra(tx.extra); VF_CHECK(ref::pub(str(sk)) == str(tk), "tx-key", "the returned transaction secret does not belong to the transaction's public key"); w.check(g, tx, tk, paid, false, {}, "constructTransaction");
      KeyPair dk; VF_CHECK(generateDeterministicTransactionKeys(tx, w.acc[who].viewSecretKey, dk) && dk.secretKey == sk && dk.publicKey == tk, "deterministic", "the sender cannot recompute the transaction key"); for (size_t a = 0; a < n; a++) if (!(w.acc[a].viewSecretKey == w.acc[who].viewSecretKey)) { generateDeterministicTransactionKeys(tx, w.acc[a].viewSecretKey, dk); VF_CHECK(!(dk.publicKey == tk), "deterministic", "another account computes the sender's transaction key"); }
      Hash ph = getObjectHash(*static_cast<TransactionPrefix*>(&tx)); VF_CHECK(tx.inputs.size() == src.size() && tx.signatures.size() == src.size(), "inputs", "%zu sources, %zu inputs, %zu signature lists", src.size(), tx.inputs.size(), tx.signatures.size());
      for (size_t q = 0; q < src.size(); q++) { auto& ki = boost::get<KeyInput>(tx.inputs[q]); std::vector<const PublicKey*> pv; std::vector<S> ps, ss; for (auto& o : src[q].outputs) { pv.push_back(&o.second); ps.push_back(str(o.second)); } for (auto& x : tx.signatures[q]) ss.push_back(str(x)); VF_CHECK(ss.size() == ps.size() && check_ring_signature(ph, ki.keyImage, pv, tx.signatures[q].data()) && ref::checkRing(str(ph), str(ki.keyImage), ps, ss), "spend", "the signature of input %zu does not verify", q); uint32_t abs = 0; VF_CHECK(ki.outputIndexes.size() == src[q].outputs.size(), "offsets", "ring size changed"); for (size_t j = 0; j < ki.outputIndexes.size(); j++) { abs += ki.outputIndexes[j]; VF_CHECK(abs == src[q].outputs[j].first, "offsets", "ring member %zu refers to output %u, asked for %u", j, abs, src[q].outputs[j].first); } VF_CHECK(ki.amount == src[q].amount, "offsets", "input amount changed"); VF_CHECK(w.images.count(str(ki.keyImage)), "image-link", "an input's key image is not the one its owner computes for the output"); }
      // proof of payment with the transaction key
      size_t to = paid[g.draw(paid.size())].second; ref::P A; ref::dec(str(w.acc[to].address.viewPublicKey), A); S D = ref::enc(ref::mul(str(sk), A)); Signature sg; generate_tx_proof(ph, tk, w.acc[to].address.viewPublicKey, pod<PublicKey>(D), sk, sg); VF_CHECK(check_tx_proof(ph, tk, w.acc[to].address.viewPublicKey, pod<PublicKey>(D), sg), "proof", "the sender's payment proof does not verify");
      ref::P Dp; ref::dec(D, Dp); S der = ref::enc(ref::mul8(Dp)); uint64_t got = 0, exp = 0; for (auto& p : paid) if (p.second == to) exp += p.first; for (size_t i = 0; i < tx.outputs.size(); i++) { KeyDerivation kd = pod<KeyDerivation>(der); PublicKey pk; derive_public_key(kd, i, w.acc[to].address.spendPublicKey, pk); if (pk == boost::get<KeyOutput>(tx.outputs[i].target).key) got += tx.outputs[i].amount; } VF_CHECK(got == exp, "proof-amount", "the proof shows %lu paid to %s, %lu was paid", got, w.name(to).c_str(), exp);
      // a source whose claimed output is not ours is refused
      if (g.chance(1, 3)) { auto s2 = src; size_t other = (who + 1) % n; if (!(w.acc[other].address.spendPublicKey == w.acc[who].address.spendPublicKey)) { Transaction t3; SecretKey k3; VF_CHECK(!constructTransaction(w.acc[other], s2, dst, std::vector<tx_message_entry>(), 0, {}, t3, 0, lg, k3), "steal", "another account can build a spend of the output"); } }
    } else if (how == 1) { // transaction builder
      auto tx = createTransaction(); size_t outs = 1 + g.draw(6); std::vector<std::pair<uint64_t, size_t>> paid; std::vector<std::vector<size_t>> ms; size_t who = g.draw(n); bool det = g.flip() && dets.insert(str(w.acc[who].viewSecretKey)).second; if (det) tx->setDeterministicTransactionSecretKey(w.acc[who].viewSecretKey);
      for (size_t q = 0; q < outs; q++) { ms.push_back({}); if (g.chance(1, 4)) { std::vector<AccountPublicAddress> to; size_t k = 1 + g.draw(3); for (size_t j = 0; j < k; j++) { size_t a = g.draw(n); ms.back().push_back(a); to.push_back(w.acc[a].address); recips.insert(a); } tx->addOutput(amt(g), to, 1 + (uint32_t)g.draw(k), g.flip() ? 0 : (uint32_t)g.draw(100000)); g.label("multisignature output"); } else { size_t a = g.draw(n); uint64_t v = amt(g); tx->addOutput(v, w.acc[a].address); paid.push_back({v, a}); recips.insert(a); } }
      if (g.flip()) { Hash pid; for (auto& c : pid.data) c = (uint8_t)r.next(); tx->setPaymentId(pid); } SecretKey sk; VF_CHECK(tx->getTransactionSecretKey(sk) && ref::pub(str(sk)) == str(tx->getTransactionPublicKey()), "tx-key", "the builder's secret does not belong to its public key");
      BinaryArray ba = tx->getTransactionData(); Transaction t; VF_CHECK(fromBinaryArray(t, ba), "parse", "the builder's transaction does not parse"); VF_CHECK(getTransactionPublicKeyFromExtra(t.extra) == tx->getTransactionPublicKey(), "tx-key", "the public key in the transaction differs from the builder's"); w.check(g, t, tx->getTransactionPublicKey(), paid, true, ms, "builder");
      for (size_t i = 0; i < ms.size(); i++) if (!ms[i].empty()) { auto& mo = boost::get<MultisignatureOutput>(t.outputs[i].target); VF_CHECK(mo.keys.size() == ms[i].size(), "msig-keys", "multisignature output lost keys"); for (size_t j = 0; j < ms[i].size(); j++) { KeyPair e; KeyImage im; generate_key_image_helper(w.acc[ms[i][j]], tx->getTransactionPublicKey(), i, e, im); VF_CHECK(e.publicKey == mo.keys[j] && ref::pub(str(e.secretKey)) == str(mo.keys[j]), "msig-secret", "owner %zu of multisignature output %zu cannot open its key", j, i); } }
      auto rd = createTransactionPrefix(t); for (size_t a = 0; a < n; a++) { std::vector<uint32_t> o, o2; uint64_t m, m2; rd->findOutputsToAccount(w.acc[a].address, w.acc[a].viewSecretKey, o, m); tx->findOutputsToAccount(w.acc[a].address, w.acc[a].viewSecretKey, o2, m2); VF_CHECK(o == o2 && m == m2, "reader", "builder and reader disagree about the outputs of an account"); }
    } else { // coinbase
      size_t to = g.draw(n); Transaction tx; BinaryArray nonce; S b = g.bytes(g.draw(30)); nonce.assign(b.begin(), b.end()); VF_CHECK(cur().constructMinerTx((uint32_t)g.draw(1000000), 0, g.u64_below(1000000000000ull), g.draw(10000), g.draw(100000), w.acc[to].address, tx, nonce, 1 + g.draw(11)), "miner", "no coinbase transaction"); std::vector<std::pair<uint64_t, size_t>> paid; for (auto& o : tx.outputs) paid.push_back({o.amount, to}); recips.insert(to); w.check(g, tx, getTransactionPublicKeyFromExtra(tx.extra), paid, true, {}, "coinbase"); }
  }
  if (spent && recips.size() > 1) g.nontrivial();
}

VF_PROP("K03.account", 600, 30000, "generated and deterministic accounts: addresses belong to their secrets and deterministic view keys follow from the spend key; non-trivial: every case") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); g.nontrivial(); AccountBase a; a.generate(); const AccountKeys& k = a.getAccountKeys(); VF_CHECK(ref::pub(str(k.spendSecretKey)) == str(k.address.spendPublicKey) && ref::pub(str(k.viewSecretKey)) == str(k.address.viewPublicKey), "keys", "account keys do not match the address");
  SecretKey v; PublicKey vp; SecretKey sp = k.spendSecretKey; if (g.flip()) { for (auto& c : sp.data) c = (uint8_t)r.next(); } AccountBase::generateViewFromSpend(sp, v, vp); S want = ref::mod(ref::keccak(str(sp), 136, 32)); VF_CHECK(str(v) == want && str(vp) == ref::pub(want), "view", "view key from spend key %s is %s, reference %s", vf::hex(str(k.spendSecretKey)).c_str(), vf::hex(str(v)).c_str(), vf::hex(want).c_str()); if (sp == k.spendSecretKey) VF_CHECK(v == k.viewSecretKey, "view", "a generated account's view key does not follow from its spend key"); BinaryArray ba; VF_CHECK(toBinaryArray(a, ba), "save", "account does not serialize"); AccountBase c; VF_CHECK(fromBinaryArray(c, ba) && str(c.getAccountKeys()) == str(k) && c.get_createtime() == a.get_createtime(), "load", "account does not survive saving");
}

namespace {
S cipher(const S& deriv, uint64_t ix, const S& text) { S key = ref::fastHash(deriv + S("\x80", 1) + S(1, 0)), iv((const char*)&ix, 8); return ref::chacha(text + S(4, 0), key, iv, 8); }
S message(vf::Gen& g) { switch (g.draw(5)) { case 0: return S(); case 1: return g.ascii(g.draw(20)); case 2: return S(g.draw(200), (char)g.draw(256)); case 3: return g.bytes(g.draw(80)); default: return S(g.draw(8), 0) + g.bytes(g.draw(3)) + S(g.draw(8), 0); } }
}
VF_PROP("K04.message", 1500, 60000, "messages of any content encrypted for an address at any position against the reference ciphertext; read back by the recipient at that position, refused for another key, position or transaction key, equal texts give unrelated ciphertexts; plain messages readable by all; every single-bit change of the ciphertext reads differently; non-trivial: non-empty text") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); AccountBase a, b; a.generate(); b.generate(); KeyPair tk, tk2; generate_keys(tk.publicKey, tk.secretKey); generate_keys(tk2.publicKey, tk2.secretKey); S m = message(g); uint64_t ix = g.flip() ? g.draw(20) : g.u64(); if (!m.empty()) g.nontrivial(); auto addr = a.getAccountKeys().address;
  tx_extra_message e; VF_CHECK(e.encrypt(ix, m, &addr, tk), "encrypt", "encryption failed"); S d; ref::derivation(str(addr.spendPublicKey), str(tk.secretKey), d); VF_CHECK(e.data == cipher(d, ix, m), "cipher", "message of %zu bytes at position %lu is not encrypted as specified", m.size(), ix);
  S o = "x"; const SecretKey &as = a.getAccountKeys().spendSecretKey, &bs = b.getAccountKeys().spendSecretKey; VF_CHECK(e.decrypt(ix, tk.publicKey, &as, o) && o == m, "recover", "the recipient does not read the message back (%zu bytes, position %lu)", m.size(), ix);
  S t; VF_CHECK(!e.decrypt(ix, tk.publicKey, &bs, t), "other-key", "another account reads the message"); VF_CHECK(!e.decrypt(ix, tk2.publicKey, &as, t), "other-tx", "the message is readable with another transaction's key"); uint64_t jx = g.flip() ? ix + 1 : ix ^ 1ull << g.draw(64); VF_CHECK(!e.decrypt(jx, tk.publicKey, &as, t), "other-position", "the message at %lu is readable at position %lu", ix, jx); VF_CHECK(!e.decrypt(ix, tk.publicKey, nullptr, t), "plain", "the encrypted message is readable without a key"); VF_CHECK(!e.decrypt(ix, tk.publicKey, &a.getAccountKeys().viewSecretKey, t), "view-key", "the message is readable with the view key");
  tx_extra_message e2, e3, e4; e2.encrypt(jx, m, &addr, tk); VF_CHECK(e2.data != e.data, "repetition", "the same text at positions %lu and %lu has the same ciphertext", ix, jx); if (m.size() >= 12) { size_t eq = 0; for (size_t i = 0; i < e.data.size(); i++) eq += e.data[i] == e2.data[i]; VF_CHECK(eq * 2 < e.data.size() + 8, "repetition", "ciphertexts at two positions share %zu of %zu bytes", eq, e.data.size()); }
  auto baddr = b.getAccountKeys().address; e3.encrypt(ix, m, &baddr, tk); VF_CHECK(e3.data != e.data, "recipients", "two recipients get the same ciphertext"); e4.encrypt(ix, m, &addr, tk2); VF_CHECK(e4.data != e.data, "transactions", "two transactions carry the same ciphertext");
  tx_extra_message p; VF_CHECK(p.encrypt(ix, m, nullptr, tk) && p.data == m + S(4, 0) && p.decrypt(jx, tk2.publicKey, nullptr, t) && t == m, "plain", "a plain message is not readable by all");
  S c = e.data; size_t bit = g.draw(c.size() * 8); e.data[bit / 8] ^= 1 << (bit % 8); bool rd = e.decrypt(ix, tk.publicKey, &as, t); VF_CHECK(rd == (bit / 8 < m.size()), "tamper", "bit %zu of a %zu byte message changed: readable %d", bit, m.size(), rd); if (rd) VF_CHECK(t != m, "tamper", "a changed ciphertext reads the same"); e.data = c.substr(0, g.draw(4)); VF_CHECK(!e.decrypt(ix, tk.publicKey, &as, t) && !e.decrypt(ix, tk.publicKey, nullptr, t), "short", "a ciphertext shorter than its checksum is readable");
  // in the extra field
  S k = S(32, 0); k[0] = 2; ref::P q; while (ref::dec(k, q)) k[0]++; e.data = c; VF_CHECK(!e.decrypt(ix, pod<PublicKey>(k), &as, t), "bad-key", "readable with an invalid transaction key");
}
VF_PROP("K04.transaction", 300, 12000, "transactions carrying up to six messages, plain and encrypted for several accounts in any order, built by constructTransaction and read with get_messages_from_extra: each account reads exactly its own texts, everyone reads the plain ones; non-trivial: at least two messages and a mix of recipients") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); size_t n = 2 + g.draw(3); std::vector<AccountKeys> acc; for (size_t i = 0; i < n; i++) { AccountBase b; b.generate(); acc.push_back(b.getAccountKeys()); } size_t k = 1 + g.draw(6); std::vector<tx_message_entry> ms; std::vector<std::vector<S>> want(n + 1); std::set<size_t> kinds; S last;
  for (size_t i = 0; i < k; i++) { tx_message_entry m; m.encrypt = g.chance(2, 3); size_t to = g.draw(n); m.addr = acc[to].address; m.message = g.chance(1, 3) ? last : message(g).substr(0, 60); last = m.message; ms.push_back(m); want[m.encrypt ? to : n].push_back(m.message); kinds.insert(m.encrypt ? to : n); } if (k > 1 && kinds.size() > 1) g.nontrivial();
  // a coin of account 0 to spend
  KeyPair tk = generateKeyPair(); KeyDerivation d; generate_key_derivation(acc[0].address.viewPublicKey, tk.secretKey, d); PublicKey ok; derive_public_key(d, 0, acc[0].address.spendPublicKey, ok); TransactionSourceEntry s; s.outputs = {{1, ok}}; s.realOutput = 0; s.realOutputIndexInTransaction = 0; s.realTransactionPublicKey = tk.publicKey; s.amount = 1000; std::vector<uint8_t> extra; if (g.flip()) { BinaryArray nonce(g.draw(20), 7); addExtraNonceToTransactionExtra(extra, nonce); }
  Transaction tx; SecretKey sk; uint64_t ttl = g.flip() ? 0 : 1 + g.draw(1000000); VF_CHECK(constructTransaction(acc[0], {s}, {TransactionDestinationEntry(900, acc[n - 1].address)}, ms, ttl, extra, tx, 0, lg, sk), "construct", "constructTransaction refused %zu messages", k); PublicKey pk = getTransactionPublicKeyFromExtra(tx.extra);
  for (size_t a = 0; a <= n; a++) { auto got = get_messages_from_extra(tx.extra, pk, a < n ? &acc[a].spendSecretKey : nullptr); VF_CHECK(got == want[a], "read", "%s reads %zu messages, %zu were meant for it (%zu in all)", a < n ? ("account " + std::to_string(a)).c_str() : "everyone", got.size(), want[a].size(), k); }
  std::vector<TransactionExtraField> f; parseTransactionExtra(tx.extra, f); std::vector<S> data; for (auto& x : f) if (x.type() == typeid(tx_extra_message)) data.push_back(boost::get<tx_extra_message>(x).data); VF_CHECK(data.size() == k, "count", "%zu messages in, %zu in the transaction", k, data.size());
  for (size_t i = 0; i < k; i++) { S want; if (ms[i].encrypt) { S dd; ref::derivation(str(ms[i].addr.spendPublicKey), str(sk), dd); want = cipher(dd, i, ms[i].message); } else want = ms[i].message + S(4, 0); VF_CHECK(data[i] == want, "cipher", "message %zu of %zu (%s) is not encoded as specified", i, k, ms[i].encrypt ? "encrypted" : "plain"); for (size_t j = 0; j < i; j++) if (ms[i].encrypt || ms[j].encrypt) VF_CHECK(data[i] != data[j], "repetition", "messages %zu and %zu have one ciphertext", j, i); }
}
