// K01: hash and cipher primitives against definitions; proof-of-work hashing against itself on other contexts and code paths
#include "vf.h"
#include "vf_env.h"
#include "refcrypto.h"
#include "crypto/hash.h"
#include "crypto/chacha8.h"
#include "crypto/cryptonight.hpp"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
typedef std::string S; using crypto::Hash;
static S str(const Hash& h) { return S((const char*)&h, 32); }
static Hash toHash(const S& s) { Hash h; memcpy(&h, s.data(), 32); return h; }
static S content(vf::Gen& g, size_t n) { switch (g.draw(4)) { case 0: return S(n, (char)g.draw(256)); case 1: { vf::Rng r(g.seed()); S s(n, 0); for (auto& c : s) c = (char)r.next(); return s; } case 2: { S s(n, 0); if (n) s[g.draw(n)] = (char)(1 << g.draw(8)); return s; } default: { vf::Rng r(g.seed()); S s(n, 0); for (auto& c : s) c = (char)(r.next() % 3 ? 0 : r.next()); return s; } } }
static size_t len(vf::Gen& g, size_t rate) { switch (g.draw(4)) { case 0: return g.draw(4 * rate + 2); case 1: { size_t k = g.draw(6) * rate; return k + 2 < 4 ? g.draw(3) : k - 2 + g.draw(5); } case 2: return g.draw(200); default: return g.draw(5000); } }

VF_PROP("K01.keccak", 6000, 400000, "cn_fast_hash, keccak with every digest length and the 200 byte state against Keccak from its definition; block boundaries favoured; non-trivial: more than one block or a full last block") {
  int which = (int)g.draw(4); size_t md = which == 0 ? 32 : which == 1 ? 200 : g.oneof<size_t>({28, 32, 48, 64}), rate = md == 200 ? 136 : 200 - 2 * md; size_t n = len(g, rate); S d = content(g, n);
  if (n >= rate - 1) g.nontrivial(); g.label(n % rate == 0 ? "whole blocks" : n % rate == rate - 1 ? "one byte free" : "partial");
  S buf(16 + n, 0x5a); size_t off = g.draw(9); memcpy(&buf[off], d.data(), n);    // unaligned input, other bytes around it
  std::vector<uint8_t> out(md + 8, 0xee); S ref = ref::keccak(d, rate, md);
  if (which == 0) { Hash h = crypto::cn_fast_hash(buf.data() + off, n); memcpy(out.data(), &h, 32); }
  else if (which == 1) { keccak1600((const uint8_t*)buf.data() + off, (int)n, out.data()); }
  else keccak((const uint8_t*)buf.data() + off, (int)n, out.data(), (int)md);
  if (which) for (int i = 0; i < 8; i++) VF_CHECK(out[md + i] == 0xee, "overrun", "keccak wrote past a %zu byte digest", md);
  VF_CHECK(S((char*)out.data(), md) == ref, "value", "keccak (digest %zu) of %zu bytes %s.. is %s, by definition %s", md, n, vf::hex(d.substr(0, 40)).c_str(), vf::hex(S((char*)out.data(), md)).substr(0, 64).c_str(), vf::hex(ref).substr(0, 64).c_str());
}

VF_PROP("K01.tree", 700, 40000, "tree_hash, get_tx_tree_hash, tree_branch and tree_hash_from_branch for 1 to 1200 leaves against a plain tree built from the definition; block ids commit to every transaction; non-trivial: at least 3 leaves") {
  size_t n = 1 + (g.flip() ? g.draw(20) : g.flip() ? (1u << g.draw(9)) + g.draw(3) : g.draw(g.chance(1, 6) ? 1200 : 150)); if (n >= 3) g.nontrivial();
  vf::Rng r(g.seed()); std::vector<Hash> h(n); std::vector<S> l; for (auto& x : h) { for (int i = 0; i < 32; i++) ((uint8_t*)&x)[i] = (uint8_t)r.next(); l.push_back(str(x)); }
  if (n > 1 && g.chance(1, 4)) { size_t a = g.draw(n), b = g.draw(n); h[a] = h[b]; l[a] = l[b]; }
  S want = ref::tree(l); Hash root; crypto::tree_hash(h.data(), n, root); VF_CHECK(str(root) == want, "root", "tree hash of %zu leaves is %s, reference %s", n, vf::hex(str(root)).c_str(), vf::hex(want).c_str());
  VF_CHECK(str(cn::get_tx_tree_hash(h)) == want, "tx-tree", "get_tx_tree_hash of %zu hashes differs from the tree hash", n);
  size_t depth = 0; while ((size_t)2 << depth <= n) depth++; std::vector<Hash> br(depth + 1); for (auto& x : br) memset(&x, 0x77, 32);
  VF_CHECK(crypto::tree_depth(n) == depth, "depth", "tree_depth(%zu) = %zu, expected %zu", n, crypto::tree_depth(n), depth);
  crypto::tree_branch(h.data(), n, br.data()); for (int i = 0; i < 32; i++) VF_CHECK(((uint8_t*)&br[depth])[i] == 0x77, "branch-overrun", "tree_branch of %zu leaves wrote more than %zu hashes", n, depth);
  Hash fb; crypto::tree_hash_from_branch(br.data(), depth, h[0], nullptr, fb); VF_CHECK(str(fb) == want, "branch-root", "branch of the first of %zu leaves leads to %s, root %s", n, vf::hex(str(fb)).c_str(), vf::hex(want).c_str());
  S zero(4, 0); Hash f2; crypto::tree_hash_from_branch(br.data(), depth, h[0], zero.data(), f2); VF_CHECK(str(f2) == want, "branch-path", "an all-left path gives another root for %zu leaves", n);
  if (depth) { // a path through a plain tree of depth d
    size_t d = 1 + g.draw(8), ix = g.draw((size_t)1 << d); std::vector<S> br2; std::vector<Hash> bh(d); S node = l[0]; uint64_t path = 0; for (size_t k = 0; k < d; k++) { Hash x; for (int i = 0; i < 32; i++) ((uint8_t*)&x)[i] = (uint8_t)r.next(); bh[d - 1 - k] = x; bool right = ix >> k & 1; if (right) path |= 1ull << (d - 1 - k); node = right ? ref::fastHash(str(x) + node) : ref::fastHash(node + str(x)); }
    Hash f3; crypto::tree_hash_from_branch(bh.data(), d, h[0], &path, f3); VF_CHECK(str(f3) == node, "path", "hash along a path of depth %zu (leaf %zu) is %s, reference %s", d, ix, vf::hex(str(f3)).c_str(), vf::hex(node).c_str()); }
  cn::Block b; b.majorVersion = 1; b.minorVersion = 0; b.nonce = 0; b.timestamp = 0; memset(&b.previousBlockHash, 1, 32); b.baseTransaction.version = 1; b.baseTransaction.unlockTime = g.draw(1000); b.transactionHashes.assign(h.begin(), h.end());
  Hash bt = cn::getObjectHash(b.baseTransaction); std::vector<S> l2{str(bt)}; l2.insert(l2.end(), l.begin(), l.end()); VF_CHECK(str(cn::get_tx_tree_hash(b)) == ref::tree(l2), "block-tree", "tree hash of a block with %zu transactions differs from the reference", n);
  cn::BinaryArray blob; VF_CHECK(cn::get_block_hashing_blob(b, blob), "blob", "no hashing blob"); S tail = ref::tree(l2) + ref::varint(n + 1); S bs((const char*)blob.data(), blob.size()); VF_CHECK(bs.size() >= tail.size() && bs.substr(bs.size() - tail.size()) == tail, "blob-tail", "hashing blob of a block with %zu transactions does not end in its tree hash and count", n);
  VF_CHECK(str(cn::get_block_hash(b)) == ref::fastHash(ref::varint(bs.size()) + bs), "block-id", "block id is not the hash of the length-prefixed hashing blob");
}

VF_PROP("K01.chacha", 20000, 1500000, "chacha8 for any length, key and nonce, in place or not, at any alignment, against the definition; decrypting gives the text back; non-trivial: more than one 64-byte block") {
  size_t n = g.chance(1, 3) ? g.oneof<size_t>({0, 1, 63, 64, 65, 127, 128, 129, 192}) : g.draw(g.flip() ? 700 : 80); if (n > 64) g.nontrivial(); S d = content(g, n), key = content(g, 32), iv = content(g, 8);
  crypto::chacha8_key k; memcpy(&k, key.data(), 32); crypto::chacha8_iv v; memcpy(&v, iv.data(), 8); S want = ref::chacha(d, key, iv, 8);
  size_t off = g.draw(5); S buf(n + 16, 0x33); memcpy(&buf[off], d.data(), n); bool inplace = g.flip(); S out = inplace ? buf : S(n + 16, 0x33); crypto::chacha8(buf.data() + off, n, k, v, inplace ? &buf[off] : &out[off]); if (inplace) out = buf; g.label(inplace ? "in place" : "copy");
  VF_CHECK(out.substr(off, n) == want, "value", "chacha8 of %zu bytes (%s) with key %s nonce %s differs from the definition", n, inplace ? "in place" : "copied", vf::hex(key).c_str(), vf::hex(iv).c_str());
  VF_CHECK(out.substr(0, off) == S(off, 0x33) && out.substr(off + n) == S(16 - off, 0x33), "overrun", "chacha8 of %zu bytes wrote outside its output", n);
  S back(n, 0); crypto::chacha8(out.data() + off, n, k, v, &back[0]); VF_CHECK(back == d, "inverse", "chacha8 twice is not the identity for %zu bytes", n);
}

// outputs of the tree the harness was written against: the network's proof of work must not drift
struct Pin { int algo; const char* in; const char* out; };
static const Pin PINS[] = {
#include "powpins.h"
};
static void pow(int a, crypto::cn_context& c, const S& d, Hash& h) { switch (a) { case 0: crypto::cn_slow_hash_v0(c, d.data(), d.size(), h); break; case 1: crypto::cn_fast_slow_hash_v1(c, d.data(), d.size(), h); break; case 2: crypto::cn_conceal_slow_hash_v0(c, d.data(), d.size(), h); break; default: crypto::cn_gpu_hash_v0(c, d.data(), d.size(), h); } }
static S soft(int a, const S& d) { crypto::cn_context c; Hash h; switch (a) { case 0: crypto::cryptonight_hash<true, CRYPTONIGHT>(d.data(), d.size(), &h, c); break; case 1: crypto::cryptonight_hash<true, CRYPTONIGHT_FAST_V8>(d.data(), d.size(), &h, c); break; case 2: crypto::cryptonight_hash<true, CRYPTONIGHT_CONCEAL>(d.data(), d.size(), &h, c); break; default: { setenv("RYO_USE_SOFTWARE_AES", "1", 1); pow(3, c, d, h); unsetenv("RYO_USE_SOFTWARE_AES"); } } return str(h); }
static S unhex(const char* s) { S r; for (size_t i = 0; s[i] && s[i + 1]; i += 2) { auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }; r += (char)(v(s[i]) << 4 | v(s[i + 1])); } return r; }

VF_PROP("K01.pow", 10, 300, "sequences of the four proof-of-work hashes on one shared context whose scratch memory is overwritten with junk between calls: each result equals the one of a fresh context, the software AES path and the pinned outputs; non-trivial: the shared context ran another algorithm or input before") {
  crypto::cn_context shared; int n = 2 + (int)g.draw(2), last = -1; vf::Rng r(g.seed());
  for (int i = 0; i < n; i++) {
    int a = (int)g.draw(4); bool pin = g.chance(1, 2); S d; const Pin* p = nullptr; if (pin) { p = &PINS[g.draw(sizeof PINS / sizeof *PINS)]; a = p->algo; d = unhex(p->in); } else d = content(g, a == 1 ? 43 + g.draw(100) : g.chance(1, 4) ? g.draw(256) : 60 + g.draw(60));
    if (g.flip()) { for (size_t k = 0; k < CN_PAGE_SIZE; k += 8) { uint64_t v = r.next(); memcpy(shared.long_state + k, &v, 8); } for (size_t k = 0; k < 4096; k++) shared.hash_state[k] = (uint8_t)r.next(); g.label("junk in the scratch memory"); }
    Hash h; pow(a, shared, d, h); if (last >= 0) g.nontrivial(); g.label("algorithm " + std::to_string(a)); last = a; g.evals++;
    if (p) VF_CHECK(str(h) == unhex(p->out), "pinned", "algorithm %d of %s gives %s, the network's value is %s", a, p->in, vf::hex(str(h)).c_str(), p->out);
    if (!p || g.flip()) { crypto::cn_context f; Hash h2; pow(a, f, d, h2); VF_CHECK(str(h) == str(h2), "scratch", "algorithm %d of %s gives %s on a used context and %s on a fresh one", a, vf::hex(d).c_str(), vf::hex(str(h)).c_str(), vf::hex(str(h2)).c_str()); }
    if (g.chance(1, 2)) { S s = soft(a, d); g.label("software AES compared"); VF_CHECK(str(h) == s, "aes", "algorithm %d of %s gives %s with AES instructions and %s in software", a, vf::hex(d).c_str(), vf::hex(str(h)).c_str(), vf::hex(s).c_str()); }
  }
}
