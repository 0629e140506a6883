// S01 (transactions and blocks), S04 (transaction extra)
#include "codec.h"
#include <sanitizer/allocator_interface.h>
#include <unistd.h>
namespace codec {
static size_t w_sum, w_cap; static bool w_on;
static void w_malloc(const volatile void*, size_t n) { if (w_on) { w_sum += n; if (w_sum > w_cap) { w_on = false; char b[128]; int k = snprintf(b, sizeof b, "allocation limit: %zu bytes (last request %zu)\n", w_sum, n); (void)!write(2, b, k); abort(); } } }
static void w_free(const volatile void*) {}
void AllocWatch::start(size_t cap) { static bool once = (__sanitizer_install_malloc_and_free_hooks(w_malloc, w_free), true); (void)once; w_sum = 0; w_cap = cap; w_on = true; }
size_t AllocWatch::stop() { w_on = false; return w_sum; }

static S encIn(const TransactionInput& i) {
  if (auto b = boost::get<BaseInput>(&i)) return S("\xff", 1) + varint(b->blockIndex);
  if (auto k = boost::get<KeyInput>(&i)) { S r = S("\x02", 1) + varint(k->amount) + varint(k->outputIndexes.size()); for (auto o : k->outputIndexes) r += varint(o); return r + pod(k->keyImage); }
  auto& m = boost::get<MultisignatureInput>(i); return S("\x03", 1) + varint(m.amount) + varint(m.signatureCount) + varint(m.outputIndex) + varint(m.term);
}
static S encOut(const TransactionOutput& o) {
  S r = varint(o.amount);
  if (auto k = boost::get<KeyOutput>(&o.target)) return r + S("\x02", 1) + pod(k->key);
  auto& m = boost::get<MultisignatureOutput>(o.target); r += S("\x03", 1) + varint(m.keys.size()); for (auto& k : m.keys) r += pod(k);
  return r + varint(m.requiredSignatureCount) + varint(m.term);
}
S encTx(const Transaction& t, bool sigs) {
  S r = varint(t.version) + varint(t.unlockTime) + varint(t.inputs.size());
  for (auto& i : t.inputs) r += encIn(i);
  r += varint(t.outputs.size()); for (auto& o : t.outputs) r += encOut(o);
  r += varint(t.extra.size()) + str(t.extra);
  if (sigs) for (auto& v : t.signatures) for (auto& s : v) r += pod(s);
  return r;
}
S encHeader(const BlockHeader& h) { return varint(h.majorVersion) + varint(h.minorVersion) + varint(h.timestamp) + pod(h.previousBlockHash) + pod(h.nonce); }
S encBlock(const Block& b) { S r = encHeader(b) + encTx(b.baseTransaction) + varint(b.transactionHashes.size()); for (auto& h : b.transactionHashes) r += pod(h); return r; }

Transaction genTx(vf::Gen& g, bool coinbase) {
  Transaction t; t.version = (uint8_t)g.draw(3); t.unlockTime = g.u64();
  size_t ni = coinbase ? 1 : g.size(4), no = g.size(5);
  for (size_t i = 0; i < ni; i++) {
    size_t k = coinbase ? 0 : g.weighted({1, 4, 3});
    if (k == 0) { BaseInput b; b.blockIndex = g.u32(); t.inputs.push_back(b); t.signatures.emplace_back(); }
    else if (k == 1) { KeyInput b; b.amount = g.u64(); size_t n = g.size(6); if (g.draw(64) == 63) n = 130; for (size_t j = 0; j < n; j++) b.outputIndexes.push_back(g.u32()); podr(g, b.keyImage); t.inputs.push_back(b);
      t.signatures.emplace_back(n); for (auto& s : t.signatures.back()) podr(g, s); }
    else { MultisignatureInput b; b.amount = g.u64(); b.signatureCount = (uint8_t)(g.draw(32) == 31 ? g.draw(256) : g.size(5)); b.outputIndex = g.u32(); b.term = g.u32(); t.inputs.push_back(b);
      t.signatures.emplace_back(b.signatureCount); for (auto& s : t.signatures.back()) podr(g, s); }
  }
  for (size_t i = 0; i < no; i++) {
    TransactionOutput o; o.amount = g.u64();
    if (g.flip()) { MultisignatureOutput m; size_t n = g.size(4); m.keys.resize(n); for (auto& k : m.keys) podr(g, k); m.requiredSignatureCount = (uint8_t)g.u64(); m.term = g.u32(); o.target = m; }
    else { KeyOutput k; podr(g, k.key); o.target = k; }
    t.outputs.push_back(o);
  }
  size_t ne = g.draw(32) == 31 ? 120 + g.draw(20) : g.size(40); S e = g.bytes(ne); t.extra.assign(e.begin(), e.end());
  return t;
}
Block genBlock(vf::Gen& g) {
  Block b; b.majorVersion = (uint8_t)g.draw(9); b.minorVersion = (uint8_t)g.u64(); b.nonce = g.u32(); b.timestamp = g.u64(); podr(g, b.previousBlockHash);
  b.baseTransaction = genTx(g, !g.chance(1, 8)); size_t n = g.draw(24) == 23 ? 127 + g.draw(4) : g.size(9); b.transactionHashes.resize(n); for (auto& h : b.transactionHashes) podr(g, h);
  return b;
}
S mutate(vf::Gen& g, S s, bool) {
  size_t n = 1 + g.draw(3);
  for (size_t i = 0; i < n; i++) {
    size_t p = s.empty() ? 0 : g.draw(s.size());
    if (g.flip() && s.size() > 4) p = g.draw(s.size() < 24 ? s.size() : 24);   // structure bytes sit at the front
    switch (g.weighted({4, 3, 2, 2, 2, 2, 2, 1})) {
      case 0: if (!s.empty()) s[p] ^= (char)(1 << g.draw(8)); break;
      case 1: if (!s.empty()) s[p] = (char)g.u64(); break;
      case 2: s.insert(p, 1, (char)g.u64()); break;
      case 3: if (!s.empty()) s.erase(p, 1 + g.draw(3)); break;
      case 4: s.resize(p); break;
      case 5: s += g.bytes(1 + g.draw(4)); break;
      case 6: if (!s.empty()) { s[p] |= (char)0x80; s.insert(p + 1, 1, (char)(g.flip() ? 0 : g.u64())); } break;   // longer varint
      default: s.insert(p, varint(g.u64())); break;
    }
  }
  return s;
}
S merkle(std::vector<S> h) {
  if (h.size() == 1) return h[0];
  if (h.size() == 2) return fastHash(h[0] + h[1]);
  size_t c = 1; while (c * 2 < h.size()) c *= 2;             // largest power of two below the count
  std::vector<S> r(h.begin(), h.begin() + (2 * c - h.size()));
  for (size_t i = r.size(); i < h.size(); i += 2) r.push_back(fastHash(h[i] + h[i + 1]));
  while (r.size() > 1) { std::vector<S> q; for (size_t i = 0; i < r.size(); i += 2) q.push_back(fastHash(r[i] + r[i + 1])); r = q; }
  return r[0];
}
S blockId(const Block& b) {
  std::vector<S> h{fastHash(encTx(b.baseTransaction))}; for (auto& x : b.transactionHashes) h.push_back(pod(x));
  S blob = encHeader(b) + merkle(h) + varint(h.size());
  return fastHash(varint(blob.size()) + blob);
}
}  // namespace codec
using namespace codec;
using anyser::dump;

template <class T> static void check_roundtrip(vf::Gen& g, const T& v, const S& ref) {
  BinaryArray b; VF_CHECK(toBinaryArray(v, b), "encode-refused", "a valid object was not encoded");
  VF_CHECK(str(b) == ref, "format", "encoding differs from the specified format:\n%s\n%s", vf::hex(str(b)).c_str(), vf::hex(ref).c_str());
  VF_CHECK(getObjectBinarySize(v) == ref.size(), "size", "getObjectBinarySize %zu, encoding has %zu bytes", getObjectBinarySize(v), ref.size());
  T w; VF_CHECK(fromBinaryArray(w, b), "decode-refused", "the encoding of a valid object does not decode: %s", vf::hex(ref).c_str());
  VF_CHECK(dump(v) == dump(w), "roundtrip", "decoded value differs:\n%s\n%s", dump(v).c_str(), dump(w).c_str());
  T x = v; VF_CHECK(fromBinaryArray(x, b) && dump(x) == dump(v), "redecode", "decoding into an object that holds a value differs");
  g.evals += 4;
}
template <class T> static void check_unique(vf::Gen& g, const S& m) {
  T w; BinaryArray b = bin(m), o; AllocWatch::start(256 << 20); bool ok = fromBinaryArray(w, b); AllocWatch::stop();
  g.label(ok ? "mutant decodes" : "mutant refused"); g.evals++;
  if (!ok) return;
  VF_CHECK(toBinaryArray(w, o), "decoded-unencodable", "bytes decode but the value does not encode: %s", vf::hex(m).c_str());
  VF_CHECK(o == b, "second-encoding", "bytes\n%s\ndecode to a value whose encoding is\n%s", vf::hex(m).c_str(), vf::hex(str(o)).c_str());
}

// every accessor of a transaction view against the structure it was made from
static S encIn1(const KeyInput& k) { return encIn(TransactionInput(k)); } static S encIn1(const MultisignatureInput& k) { return encIn(TransactionInput(k)); }
static S encOut1(uint64_t a, const TransactionOutputTarget& t) { TransactionOutput o; o.amount = a; o.target = t; return encOut(o); }
template <class F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static void check_view(vf::Gen& g, const ITransactionReader& v, const Transaction& t, const char* what) {
  using namespace transaction_types; uint64_t si = 0, so = 0; g.evals++;
  VF_CHECK(v.getInputCount() == t.inputs.size() && v.getOutputCount() == t.outputs.size() && v.getUnlockTime() == t.unlockTime && v.getExtra() == t.extra, "view-fields", "%s: counts, unlock time or extra differ", what);
  auto in = v.getInputs(); VF_CHECK(in.size() == t.inputs.size(), "view-inputs", "%s: %zu of %zu inputs listed", what, in.size(), t.inputs.size());
  VF_CHECK(dump(v.getTransactionPrefix()) == dump(static_cast<const TransactionPrefix&>(t)), "view-prefix", "%s: the prefix differs", what);
  for (size_t i = 0; i < t.inputs.size(); i++) {
    auto& x = t.inputs[i]; KeyInput k; MultisignatureInput m; VF_CHECK(encIn(in[i]) == encIn(x), "view-inputs", "%s: input %zu differs", what, i);
    if (boost::get<KeyInput>(&x)) { auto& e = boost::get<KeyInput>(x); si += e.amount; v.getInput(i, k); VF_CHECK(v.getInputType(i) == InputType::Key && encIn1(k) == encIn(x) && v.getRequiredSignaturesCount(i) == e.outputIndexes.size(), "view-input", "%s: key input %zu differs", what, i); VF_CHECK(throws([&] { v.getInput(i, m); }), "view-kind", "%s: key input %zu read as multisignature", what, i); }
    else if (boost::get<MultisignatureInput>(&x)) { auto& e = boost::get<MultisignatureInput>(x); si += e.amount; v.getInput(i, m); VF_CHECK(v.getInputType(i) == InputType::Multisignature && encIn1(m) == encIn(x) && v.getRequiredSignaturesCount(i) == e.signatureCount, "view-input", "%s: multisignature input %zu differs", what, i); VF_CHECK(throws([&] { v.getInput(i, k); }), "view-kind", "%s: multisignature input %zu read as key", what, i); }
    else VF_CHECK(v.getInputType(i) == InputType::Generating && v.getRequiredSignaturesCount(i) == 0 && throws([&] { v.getInput(i, k); }) && throws([&] { v.getInput(i, m); }), "view-input", "%s: base input %zu differs", what, i);
  }
  for (size_t i = 0; i < t.outputs.size(); i++) {
    auto& x = t.outputs[i]; so += x.amount; KeyOutput k; MultisignatureOutput m; uint64_t a = 0;
    if (boost::get<KeyOutput>(&x.target)) { v.getOutput(i, k, a); VF_CHECK(v.getOutputType(i) == OutputType::Key && encOut1(a, k) == encOut(x), "view-output", "%s: key output %zu differs", what, i); VF_CHECK(throws([&] { v.getOutput(i, m, a); }), "view-kind", "%s: key output %zu read as multisignature", what, i); }
    else { v.getOutput(i, m, a); VF_CHECK(v.getOutputType(i) == OutputType::Multisignature && encOut1(a, m) == encOut(x), "view-output", "%s: multisignature output %zu differs", what, i); VF_CHECK(throws([&] { v.getOutput(i, k, a); }), "view-kind", "%s: multisignature output %zu read as key", what, i); }
  }
  VF_CHECK(v.getInputTotalAmount() == si && v.getOutputTotalAmount() == so, "view-amount", "%s: totals %llu/%llu, the parts sum to %llu/%llu", what, (unsigned long long)v.getInputTotalAmount(), (unsigned long long)v.getOutputTotalAmount(), (unsigned long long)si, (unsigned long long)so);
  VF_CHECK(getInputAmount(t) == si && getOutputAmount(t) == so, "view-amount", "getInputAmount/getOutputAmount differ from the sums");
  VF_CHECK(throws([&] { v.getInputType(t.inputs.size()); }) && throws([&] { v.getOutputType(t.outputs.size()); }), "view-range", "%s: an index behind the end is answered", what);
}

VF_PROP("S01.transaction", 48000, 2400000, "a random transaction (all input/output kinds, edge values, 0-130 ring members), 6 byte-level mutants of its encoding and 3 single-field changes; non-trivial: at least one input and one output") {
  Transaction t = genTx(g); S ref = encTx(t);
  if (!t.inputs.empty() && !t.outputs.empty()) g.nontrivial();
  check_roundtrip(g, t, ref);
  crypto::Hash h = getObjectHash(t); size_t sz; crypto::Hash h2; getObjectHash(t, h2, sz);
  VF_CHECK(pod(h) == fastHash(ref) && h2 == h && sz == ref.size(), "id", "transaction id is not the hash of its bytes");
  VF_CHECK(getBinaryArrayHash(bin(ref)) == h, "id-bytes", "hash of the bytes differs from the transaction id");
  crypto::Hash ph = getObjectHash(static_cast<const TransactionPrefix&>(t));
  VF_CHECK(pod(ph) == fastHash(encTx(t, false)), "prefix-id", "prefix hash is not the hash of the prefix bytes");
  { Transaction q; crypto::Hash a, b; VF_CHECK(parseAndValidateTransactionFromBinaryArray(bin(ref), q, a, b) && a == h && b == ph && dump(q) == dump(t), "parse", "parseAndValidateTransactionFromBinaryArray disagrees"); }
  if (!t.inputs.empty() || true) {
    auto tx = createTransaction(bin(ref)); VF_CHECK(str(tx->getTransactionData()) == ref, "api-bytes", "ITransaction changes the bytes of a transaction it was loaded from");
    VF_CHECK(tx->getTransactionHash() == h && tx->getTransactionPrefixHash() == ph, "api-id", "ITransaction hash differs");
    VF_CHECK(tx->getInputCount() == t.inputs.size() && tx->getOutputCount() == t.outputs.size() && tx->getUnlockTime() == t.unlockTime && tx->getExtra() == t.extra, "api-fields", "ITransaction fields differ");
    check_view(g, *tx, t, "builder"); auto rd = createTransactionPrefix(t), rp = createTransactionPrefix(static_cast<const TransactionPrefix&>(t), h); check_view(g, *rd, t, "reader"); check_view(g, *rp, t, "prefix reader");
    VF_CHECK(rd->getTransactionHash() == h && rd->getTransactionPrefixHash() == ph && rp->getTransactionHash() == h && rp->getTransactionPrefixHash() == ph && rd->getTransactionInputsHash() == tx->getTransactionInputsHash(), "view-id", "hashes of the reader differ");
    { BinaryArray a, b; crypto::Hash pa, pb; bool ga = tx->getExtraNonce(a), gb = rd->getExtraNonce(b); VF_CHECK(ga == gb && a == b, "view-nonce", "builder and reader see different nonces"); ga = tx->getPaymentId(pa); gb = rd->getPaymentId(pb); VF_CHECK(ga == gb && (!ga || pa == pb), "view-nonce", "builder and reader see different payment ids"); }
    { auto c = createTransaction(t); VF_CHECK(str(c->getTransactionData()) == ref && c->getTransactionHash() == h, "api-bytes", "ITransaction made from the structure has other bytes"); check_view(g, *c, t, "copy"); }
    g.evals += 3;
  }
  // every field is bound by the id
  for (int i = 0; i < 3; i++) {
    Transaction q = t; anyser::Tweak w(g.draw(200), g.seed()); try { serialize(q, w); } catch (std::exception&) { g.label("field change gives an invalid version"); continue; }
    if (!w.hit || dump(q) == dump(t)) continue;
    g.label("field " + w.name); g.evals++;
    BinaryArray b; if (!toBinaryArray(q, b)) { g.label("field change unencodable"); continue; }
    VF_CHECK(getObjectHash(q) != h, "id-unbound", "field %s changed but the transaction id did not", w.name.c_str());
    bool sig = dump(static_cast<TransactionPrefix&>(q)) == dump(static_cast<TransactionPrefix&>(t));
    VF_CHECK((getObjectHash(static_cast<TransactionPrefix&>(q)) == ph) == sig, "prefix-unbound", "field %s: prefix hash %s", w.name.c_str(), sig ? "changed with a signature" : "did not change");
  }
  for (int i = 0; i < 6; i++) check_unique<Transaction>(g, mutate(g, ref));
  for (int i = 0; i < 2; i++) check_unique<TransactionPrefix>(g, mutate(g, encTx(t, false)));
}

VF_PROP("S01.block", 24000, 1200000, "a random block (0-130 transactions), 5 byte-level mutants of its encoding, 4 single-field changes; non-trivial: lists at least one transaction") {
  Block b = genBlock(g); S ref = encBlock(b); if (!b.transactionHashes.empty()) g.nontrivial();
  check_roundtrip(g, b, ref); check_roundtrip(g, static_cast<const BlockHeader&>(b), encHeader(b));
  crypto::Hash id = get_block_hash(b); S rid = codec::blockId(b);
  VF_CHECK(pod(id) == rid, "block-id", "block id is not the hash of header, merkle root and count (%zu transactions)", b.transactionHashes.size());
  for (int i = 0; i < 4; i++) {
    Block q = b; anyser::Tweak w(g.draw(64), g.seed()); try { serialize(q, w); } catch (std::exception&) { continue; }
    if (!w.hit || dump(q) == dump(b)) continue;
    BinaryArray e; if (!toBinaryArray(q, e)) continue;
    g.label("field " + w.name); g.evals++;
    VF_CHECK(get_block_hash(q) != id, "block-id-unbound", "field %s changed but the block id did not", w.name.c_str());
  }
  if (b.transactionHashes.size() > 1) {
    Block q = b; size_t i = g.draw(q.transactionHashes.size()), j = g.draw(q.transactionHashes.size());
    if (q.transactionHashes[i] != q.transactionHashes[j]) { std::swap(q.transactionHashes[i], q.transactionHashes[j]); VF_CHECK(get_block_hash(q) != id, "block-id-order", "swapping transactions %zu and %zu keeps the block id", i, j); }
    q = b; q.transactionHashes.pop_back(); VF_CHECK(get_block_hash(q) != id, "block-id-drop", "dropping the last transaction keeps the block id");
    q = b; q.transactionHashes.push_back(q.transactionHashes.back()); VF_CHECK(get_block_hash(q) != id, "block-id-dup", "repeating the last transaction keeps the block id");
  }
  for (int i = 0; i < 5; i++) check_unique<Block>(g, mutate(g, ref));
  check_unique<BlockHeader>(g, mutate(g, encHeader(b)));
}

// ---------------------------------------------------------------------------------- S04
namespace {
struct F { int type; S data; uint64_t num = 0; size_t junk = 0; };   // type 0 padding 1 key 2 nonce 3 mm 4 message 5 ttl
S encField(const F& f) {
  switch (f.type) {
    case 0: return S(f.num, 0);
    case 1: return S("\1", 1) + f.data;
    case 2: return S("\2", 1) + (char)f.data.size() + f.data;
    case 3: { S in = varint(f.num) + f.data; return S("\3", 1) + varint(in.size()) + in; }
    case 4: return S("\4", 1) + varint(f.data.size()) + f.data;
    default: { S v = varint(f.num); return S("\5", 1) + varint(v.size()) + v; }
  }
}
TransactionExtraField toField(const F& f) {
  switch (f.type) {
    case 0: { TransactionExtraPadding p; p.size = f.num; return p; }
    case 1: { TransactionExtraPublicKey k; memcpy(&k.publicKey, f.data.data(), 32); return k; }
    case 2: { TransactionExtraNonce n; n.nonce = bin(f.data); return n; }
    case 3: { TransactionExtraMergeMiningTag m; m.depth = f.num; memcpy(&m.merkleRoot, f.data.data(), 32); return m; }
    case 4: { tx_extra_message m; m.data = f.data; return m; }
    default: { TransactionExtraTTL t; t.ttl = f.num; return t; }
  }
}
S show(const TransactionExtraField& x) {
  if (auto p = boost::get<TransactionExtraPadding>(&x)) return "padding " + std::to_string(p->size);
  if (auto p = boost::get<TransactionExtraPublicKey>(&x)) return "key " + vf::hex(pod(p->publicKey));
  if (auto p = boost::get<TransactionExtraNonce>(&x)) return "nonce " + vf::hex(str(p->nonce));
  if (auto p = boost::get<TransactionExtraMergeMiningTag>(&x)) return "mm " + std::to_string(p->depth) + " " + vf::hex(pod(p->merkleRoot));
  if (auto p = boost::get<tx_extra_message>(&x)) return "message " + vf::hex(p->data);
  return "ttl " + std::to_string(boost::get<TransactionExtraTTL>(x).ttl);
}
F genField(vf::Gen& g, bool last) {
  F f; f.type = (int)g.weighted({last ? 3u : 0u, 4, 4, 3, 4, 4});
  switch (f.type) {
    case 0: f.num = 1 + (g.flip() ? g.draw(255) : g.oneof<uint64_t>({0, 1, 253, 254})); break;
    case 1: { crypto::PublicKey k; podr(g, k); f.data = pod(k); break; }
    case 2: { size_t n = g.oneof<size_t>({0, 1, 8, 32, 33, 33, 34, 127, 128, 254, 255}); f.data = g.bytes(n); if (n == 33 && !g.chance(1, 4)) f.data[0] = 0; break; }
    case 3: { crypto::Hash h; podr(g, h); f.data = pod(h); f.num = g.u64(); break; }
    case 4: f.data = g.bytes(g.draw(8) == 7 ? g.oneof<size_t>({127, 128, 129, 300, 16384}) : g.size(60)); break;
    default: f.num = g.u64(); break;
  }
  return f;
}
}  // namespace

VF_PROP("S04.fields", 60000, 3000000, "a list of 0-7 extra fields of every kind and boundary size, in random order, padding last, unknown tag bytes in between in some cases; written by the library and by a reference encoder, parsed back, every accessor compared; non-trivial: at least two fields") {
  std::vector<F> fs; size_t n = g.size(7); for (size_t i = 0; i < n; i++) fs.push_back(genField(g, i + 1 == n));
  bool junk = g.chance(1, 4); if (n >= 2) g.nontrivial();
  S ref; std::vector<TransactionExtraField> want;
  for (auto& f : fs) { if (junk && g.flip()) { ref += (char)(6 + g.draw(250)); g.label("unknown tag"); } ref += encField(f); want.push_back(toField(f)); g.label(S("type ") + "PKNMSV?"[f.type]); }
  BinaryArray ex;
  if (!junk) {
    VF_CHECK(writeTransactionExtra(ex, want), "write", "writing valid fields is refused");
    VF_CHECK(str(ex) == ref, "format", "written extra differs from the format:\n%s\n%s", vf::hex(str(ex)).c_str(), vf::hex(ref).c_str());
    TransactionExtra te; for (auto& w : want) { if (auto p = boost::get<TransactionExtraPublicKey>(&w)) te.append(*p); else if (auto q = boost::get<TransactionExtraNonce>(&w)) te.append(*q); else if (auto r = boost::get<tx_extra_message>(&w)) te.append(*r); else if (auto s2 = boost::get<TransactionExtraTTL>(&w)) te.append(*s2); else if (auto m = boost::get<TransactionExtraMergeMiningTag>(&w)) te.append(*m); else te.append(boost::get<TransactionExtraPadding>(w)); }
    VF_CHECK(str(te.serialize()) == ref, "api-write", "TransactionExtra writes other bytes");
  } else ex = bin(ref);
  std::vector<TransactionExtraField> got; VF_CHECK(parseTransactionExtra(ex, got), "parse", "a well-formed extra does not parse: %s", vf::hex(ref).c_str());
  VF_CHECK(got.size() == want.size(), "count", "%zu fields written, %zu read (%s)", want.size(), got.size(), vf::hex(ref).c_str());
  for (size_t i = 0; i < got.size(); i++) VF_CHECK(show(got[i]) == show(want[i]), "field", "field %zu: wrote %s, read %s", i, show(want[i]).c_str(), show(got[i]).c_str());
  g.evals += 2 + got.size();
  // accessors: the first field of their kind
  auto first = [&](int t) -> const F* { for (auto& f : fs) if (f.type == t) return &f; return nullptr; };
  crypto::PublicKey pk = getTransactionPublicKeyFromExtra(ex); const F* k = first(1);
  VF_CHECK(pod(pk) == (k ? k->data : S(32, 0)), "public-key", "public key accessor returns %s", vf::hex(pod(pk)).c_str());
  crypto::Hash pid; const F* no = first(2); bool has = no && no->data.size() == 33 && no->data[0] == 0;
  bool r = getPaymentIdFromTxExtra(ex, pid); VF_CHECK(r == has, "payment-id-presence", "payment id accessor says %d, expected %d", r, has);
  if (has) VF_CHECK(pod(pid) == no->data.substr(1), "payment-id", "payment id differs");
  TransactionExtraMergeMiningTag mm; const F* m = first(3); r = getMergeMiningTagFromExtra(ex, mm);
  VF_CHECK(r == !!m && (!m || (mm.depth == m->num && pod(mm.merkleRoot) == m->data)), "mm-tag", "merge mining accessor differs");
  TransactionExtra te(ex); crypto::PublicKey p2; VF_CHECK(te.getPublicKey(p2) == !!k && (!k || p2 == pk), "api-key", "TransactionExtra public key differs");
  TransactionExtraTTL ttl; const F* t = first(5); VF_CHECK(te.get(ttl) == !!t && (!t || ttl.ttl == t->num), "ttl", "ttl accessor differs");
  // unencrypted messages: those that end in the checksum
  std::vector<S> ms; for (auto& f : fs) if (f.type == 4 && f.data.size() >= 4 && f.data.substr(f.data.size() - 4) == S(4, 0)) ms.push_back(f.data.substr(0, f.data.size() - 4));
  VF_CHECK(get_messages_from_extra(ex, pk, nullptr) == ms, "messages", "plain messages differ");
  auto tx = createTransaction(); if (!junk || true) { Transaction raw; raw.version = 1; raw.unlockTime = 0; raw.extra = ex; auto x = createTransaction(raw); crypto::Hash q; VF_CHECK(x->getPaymentId(q) == has && (!has || q == pid), "api-payment-id", "ITransaction payment id differs"); VF_CHECK(x->getTransactionPublicKey() == pk, "api-tx-key", "ITransaction public key differs"); BinaryArray nn; VF_CHECK(x->getExtraNonce(nn) == !!no && (!no || str(nn) == no->data), "api-nonce", "ITransaction nonce differs"); }
  g.evals += 9;
  // what cannot be written is refused and nothing is written
  { BinaryArray z = ex; size_t big = 256 + g.draw(600); VF_CHECK(!addExtraNonceToTransactionExtra(z, BinaryArray(big, 1)) && z == ex, "nonce-too-long", "a nonce of %zu bytes is accepted", big);
    BinaryArray y; TransactionExtraPadding p; p.size = big; VF_CHECK(!writeTransactionExtra(y, {p}), "padding-too-long", "padding of %zu bytes is accepted", big);
    std::vector<TransactionExtraField> q; VF_CHECK(!parseTransactionExtra(BinaryArray(big, 0), q), "padding-parse", "padding of %zu bytes parses", big); }
}

VF_PROP("S04.builders", 30000, 1500000, "extras assembled with the individual helpers (payment id text, public key, messages encrypted and plain, ttl, nonce) and with ITransaction setters, in random order; every accessor must return what was set; non-trivial: two or more helpers used") {
  BinaryArray ex; S ref; int used = 0; auto add = [&](const S& s) { ref += s; used++; };
  crypto::Hash pid; podr(g, pid); crypto::PublicKey pk; podr(g, pk); uint64_t ttl = g.u64(); S msg = g.bytes(g.size(300));
  bool haveNonce = false, havePid = false, haveKey = false, haveTtl = false; std::vector<S> plain;
  size_t n = 1 + g.draw(5);
  for (size_t i = 0; i < n; i++) switch (g.draw(5)) {
    case 0: { S hexid = vf::hex(pod(pid)); if (g.flip()) for (auto& c : hexid) c = (char)toupper(c);
      VF_CHECK(createTxExtraWithPaymentId(hexid, ex), "pid-refused", "payment id %s refused", hexid.c_str()); add(S("\2\x21\0", 3) + pod(pid)); if (!haveNonce) havePid = haveNonce = true; break; }
    case 1: addTransactionPublicKeyToExtra(ex, pk); add(S("\1", 1) + pod(pk)); haveKey = true; break;
    case 2: appendTTLToExtra(ex, ttl); { S v = varint(ttl); add(S("\5", 1) + varint(v.size()) + v); } haveTtl = true; break;
    case 3: { tx_extra_message m; KeyPair kp; VF_CHECK(m.encrypt(i, msg, nullptr, kp), "plain-encrypt", "plain message refused"); append_message_to_extra(ex, m); S d = msg + S(4, 0); add(S("\4", 1) + varint(d.size()) + d); plain.push_back(msg); break; }
    default: { S nn = g.bytes(g.draw(33)); addExtraNonceToTransactionExtra(ex, bin(nn)); add(S("\2", 1) + (char)nn.size() + nn); haveNonce = true; break; }
  }
  if (used > 1) g.nontrivial();
  VF_CHECK(str(ex) == ref, "format", "extra differs:\n%s\n%s", vf::hex(str(ex)).c_str(), vf::hex(ref).c_str());
  crypto::Hash q; bool got = getPaymentIdFromTxExtra(ex, q); VF_CHECK(got == havePid && (!got || q == pid), "pid", "payment id accessor: %d expected %d", got, havePid);
  VF_CHECK(pod(getTransactionPublicKeyFromExtra(ex)) == (haveKey ? pod(pk) : S(32, 0)), "key", "key accessor differs");
  TransactionExtra te(ex); TransactionExtraTTL t; VF_CHECK(te.get(t) == haveTtl && (!haveTtl || t.ttl == ttl), "ttl", "ttl accessor differs");
  VF_CHECK(get_messages_from_extra(ex, pk, nullptr) == plain, "messages", "plain messages differ"); g.evals += 5;
  // payment id text that is not 64 hex digits is refused and leaves the extra alone
  S bad = vf::hex(pod(pid)); switch (g.draw(4)) { case 0: bad.resize(g.draw(64)); break; case 1: bad += "00"; break; case 2: bad[g.draw(64)] = g.oneof<char>({'g', ' ', '-', 'x', '\0', (char)0xe9}); break; default: bad = "0x" + bad.substr(2); }
  BinaryArray before = ex; VF_CHECK(!createTxExtraWithPaymentId(bad, ex) && ex == before, "pid-bad", "payment id text '%s' accepted", bad.c_str());
  // ITransaction setters
  auto tx = createTransaction(); crypto::PublicKey tk = tx->getTransactionPublicKey(); bool sp = g.flip(), sn = g.flip(); S nn = g.bytes(1 + g.draw(255)); if (nn.size() == 33) nn[0] |= 1;
  auto setp = [&] { tx->setPaymentId(pid); }; auto setn = [&] { tx->setExtraNonce(bin(nn)); };
  bool order = g.flip(); bool pLast = false; if (order) { if (sp) { setp(); pLast = true; } if (sn) { setn(); pLast = false; } } else { if (sn) setn(); if (sp) { setp(); pLast = true; } }
  crypto::Hash z; BinaryArray nb; bool gp = tx->getPaymentId(z), gn = tx->getExtraNonce(nb);
  VF_CHECK(gp == pLast && (!gp || z == pid), "itx-pid", "ITransaction payment id after setters: %d expected %d", gp, pLast);
  VF_CHECK(gn == (sp || sn), "itx-nonce", "ITransaction nonce presence"); if (sn && !pLast) VF_CHECK(str(nb) == nn, "itx-nonce-value", "ITransaction nonce differs");
  VF_CHECK(tx->getTransactionPublicKey() == tk && getTransactionPublicKeyFromExtra(tx->getExtra()) == tk, "itx-key", "setters lose the transaction public key");
  auto rd = createTransaction(tx->getTransactionData()); crypto::Hash z2; VF_CHECK(rd->getExtra() == tx->getExtra() && rd->getPaymentId(z2) == gp && (!gp || z2 == z), "itx-reload", "reloaded transaction extra differs"); g.evals += 6;
}

VF_PROP("S04.truncated", 20000, 1000000, "an extra cut or altered at a random byte: parsing returns the fields wholly in front of the damage and never one that was not there; non-trivial: cut inside the second or later field") {
  std::vector<F> fs; size_t n = 1 + g.size(5); for (size_t i = 0; i < n; i++) fs.push_back(genField(g, false));
  S ref; std::vector<size_t> end; for (auto& f : fs) { ref += encField(f); end.push_back(ref.size()); }
  size_t cut = g.draw(ref.size()); std::vector<TransactionExtraField> got; bool ok = parseTransactionExtra(bin(ref.substr(0, cut)), got);
  size_t whole = 0; while (whole < n && end[whole] <= cut) whole++; if (whole > 0) g.nontrivial();
  bool boundary = cut == 0 || (whole > 0 && end[whole - 1] == cut);
  VF_CHECK(ok == boundary, "cut-verdict", "cut at %zu of %zu (field boundary: %d): parse says %d", cut, ref.size(), boundary, ok);
  VF_CHECK(got.size() == whole, "cut-count", "cut at %zu: %zu fields read, %zu are whole", cut, got.size(), whole);
  for (size_t i = 0; i < whole; i++) VF_CHECK(show(got[i]) == show(toField(fs[i])), "cut-field", "field %zu differs after a later cut", i);
  g.evals += 2 + whole;
}
