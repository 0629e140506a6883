// S05: text encodings and seed phrases
#include "codec.h"
#include "Common/Base58.h"
#include "Common/Base64.h"
#include "Common/StringTools.h"
#include "Mnemonics/Mnemonics.h"
namespace crc32 { uint64_t crc32(const std::string& input); }
#include "Mnemonics/WordList.h"
using namespace codec;
namespace {
typedef unsigned __int128 u128;
const char* A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const size_t E58[] = {0, 2, 3, 5, 6, 7, 9, 10, 11};
S ref58(const S& d) { S r; for (size_t i = 0; i < d.size(); i += 8) { size_t n = std::min<size_t>(8, d.size() - i); u128 v = 0; for (size_t j = 0; j < n; j++) v = v << 8 | (uint8_t)d[i + j]; S b(E58[n], '1'); for (size_t j = E58[n]; j-- > 0;) { b[j] = A58[(size_t)(v % 58)]; v /= 58; } r += b; } return r; }
bool refUn58(const S& t, S& d) { d.clear(); for (size_t i = 0; i < t.size(); i += 11) { size_t m = std::min<size_t>(11, t.size() - i), n = 9; for (size_t k = 1; k <= 8; k++) if (E58[k] == m) n = k; if (n == 9) return false; u128 v = 0; for (size_t j = 0; j < m; j++) { const char* p = t[i + j] ? strchr(A58, t[i + j]) : nullptr; if (!p) return false; v = v * 58 + (u128)(p - A58); } if (v >> (8 * n)) return false; for (size_t j = n; j-- > 0;) d += (char)(uint8_t)(v >> (8 * j)); } return true; }
bool refAddr(const S& t, uint64_t& tag, S& d) { S r; if (!refUn58(t, r) || r.size() <= 4) return false; S body = r.substr(0, r.size() - 4); if (fastHash(body).substr(0, 4) != r.substr(r.size() - 4)) return false;
  u128 v = 0; size_t i = 0; /* a tag cut short reads as the bits present: only text with a right checksum gets this far */ for (;; i++) { if (i > 9) return false; if (i >= body.size()) { if (!i || v >> 64) return false; tag = (uint64_t)v; d.clear(); return true; } v |= (u128)(body[i] & 0x7f) << (7 * i); if (!(body[i] & 0x80)) { if (i && !body[i]) return false; break; } } if (v >> 64) return false; tag = (uint64_t)v; d = body.substr(i + 1); return true; }
S editText(vf::Gen& g, S s, const char* alphabet) { size_t na = strlen(alphabet), k = 1 + g.draw(2);
  for (size_t q = 0; q < k; q++) { size_t p = g.draw(s.size() + 1); switch (g.draw(6)) { case 0: if (p < s.size()) s[p] = alphabet[g.draw(na)]; break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: s.insert(p, 1, alphabet[g.draw(na)]); break; case 3: if (s.size() > 1) { p %= s.size() - 1; std::swap(s[p], s[p + 1]); } break; case 4: if (p < s.size()) s[p] = (char)g.draw(256); break; default: s.resize(p); } } return s; }
uint32_t refCrc(const S& s) { uint32_t c = ~0u; for (unsigned char x : s) { c ^= x; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0xedb88320u : c >> 1; } return ~c; }
const std::vector<const char*>& WL = mnemonics::WordList::English;
int wordIx(const S& w) { static std::map<S, int> m; if (m.empty()) for (size_t i = 0; i < WL.size(); i++) m[WL[i]] = (int)i; auto it = m.find(w); return it == m.end() ? -1 : it->second; }
S sumWord(const std::vector<S>& w) { S t; for (size_t i = 0; i < 24; i++) t += w[i].substr(0, 3); return w[refCrc(t) % 24]; }
bool refMnemonic(std::vector<S> w, S& key) {
  if (w.size() != 25) return false; for (auto& x : w) { for (auto& c : x) if (c >= 'A' && c <= 'Z') c = (char)(c | 32); if (wordIx(x) < 0) return false; } if (sumWord(w) != w[24]) return false;
  key.clear(); uint64_t N = 1626; for (size_t i = 0; i < 24; i += 3) { uint64_t a = wordIx(w[i]), b = wordIx(w[i + 1]), c = wordIx(w[i + 2]); uint64_t v = a + N * ((N + b - a) % N) + N * N * ((N + c - b) % N); if (v > UINT32_MAX) return false; uint32_t x = (uint32_t)v; key += pod(x); } return true;
}
std::vector<S> split(const S& s) { std::vector<S> r; S c; for (char x : s) if (x == ' ' || (x >= 9 && x <= 13)) { if (!c.empty()) r.push_back(c); c.clear(); } else c += x; if (!c.empty()) r.push_back(c); return r; }
const char* A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
S ref64(const S& d) { S r; for (size_t i = 0; i < d.size(); i += 3) { size_t n = std::min<size_t>(3, d.size() - i); uint32_t v = 0; for (size_t j = 0; j < 3; j++) v = v << 8 | (j < n ? (uint8_t)d[i + j] : 0); for (size_t j = 0; j < 4; j++) r += j <= n ? A64[v >> (18 - 6 * j) & 63] : '='; } return r; }
}  // namespace

VF_PROP("S05.base58", 300000, 15000000, "byte strings of every length (leading zeros and full blocks included) encoded and compared with a big-integer reference; texts of valid and invalid alphabets and lengths decoded by both; non-trivial: more than one block or altered text") {
  S d = g.flip() ? g.bytes(g.size(80)) : S(g.draw(20), (char)(g.flip() ? 0 : 255)) + g.bytes(g.draw(12)); S t = tools::base_58::encode(d); if (d.size() > 8) g.nontrivial();
  VF_CHECK(t == ref58(d), "encode", "base58 of %s is %s, reference %s", vf::hex(d).c_str(), t.c_str(), ref58(d).c_str());
  S b; VF_CHECK(tools::base_58::decode(t, b) && b == d, "roundtrip", "base58 %s does not decode to %s", t.c_str(), vf::hex(d).c_str());
  S x = g.chance(1, 4) ? S(g.draw(24), 'z') + g.ascii(g.draw(12)) : editText(g, t, A58), y, z; bool ok = tools::base_58::decode(x, y), rk = refUn58(x, z); g.label(rk ? "altered accepted" : "altered refused"); if (x != t) g.nontrivial();
  VF_CHECK(ok == rk, "decode-verdict", "base58 text %s: decoded %d, reference %d", vf::hex(x).c_str(), ok, rk); if (ok) VF_CHECK(y == z, "decode-value", "base58 text %s reads %s, reference %s", x.c_str(), vf::hex(y).c_str(), vf::hex(z).c_str()); g.evals += 3;
}

VF_PROP("S05.base58-checked", 200000, 10000000, "tag and payload encoded with checksum, then altered by substitutions, swaps, drops, insertions, and texts with a valid checksum around malformed tags; oracle: reference decoder, and no altered text yields the original; non-trivial: altered") {
  uint64_t tag = g.u64(); S d = g.bytes(g.size(80)); S t = tools::base_58::encode_addr(tag, d), body = varint(tag) + d; VF_CHECK(t == ref58(body + fastHash(body).substr(0, 4)), "encode", "checked base58 differs from the reference");
  uint64_t q = ~tag; S b; VF_CHECK(tools::base_58::decode_addr(t, q, b) && q == tag && b == d, "roundtrip", "checked base58 %s does not come back", t.c_str());
  S x = t; bool crafted = g.chance(1, 4); if (crafted) { S m = g.oneof<S>({S("\x80", 1), S("\x80\0", 2), S(10, '\xff') + "\1", S(9, '\xff') + "\2", S(9, '\xff') + "\1", S(), S("\0", 1)}) + g.bytes(g.draw(6)); x = ref58(m + fastHash(m).substr(0, 4)); } else x = editText(g, t, A58);
  uint64_t t1 = 0, t2 = 0; S d1, d2; bool ok = tools::base_58::decode_addr(x, t1, d1), rk = refAddr(x, t2, d2); if (x != t) { g.nontrivial(); g.label(rk ? "altered accepted" : "altered refused"); }
  VF_CHECK(ok == rk, "verdict", "text %s: accepted %d, reference %d", vf::hex(x).c_str(), ok, rk); if (ok) { VF_CHECK(t1 == t2 && d1 == d2, "value", "text %s reads another value", x.c_str()); VF_CHECK(crafted || x == t || t1 != tag || d1 != d, "two-texts", "%s and %s read the same", x.c_str(), t.c_str()); } g.evals += 4;
}

VF_PROP("S05.hex-base64", 300000, 15000000, "byte strings to hexadecimal and Base64 and back, against references; upper case, odd length and invalid hexadecimal text through every entry point; non-trivial: at least 4 bytes") {
  S d = g.bytes(g.size(60)); BinaryArray a = bin(d); if (d.size() >= 4) g.nontrivial(); S h = common::toHex(a), low; for (unsigned char c : d) { low += "0123456789abcdef"[c >> 4]; low += "0123456789abcdef"[c & 15]; }
  S app = "x"; common::toHex(a, app); VF_CHECK(h == low && common::toHex(d.data(), d.size()) == low && app == "x" + low, "hex", "hex of %s is %s", low.c_str(), h.c_str());
  S t = low; for (auto& c : t) if (c >= 'a' && g.flip()) c = (char)(c & ~32); bool good = true; if (g.flip()) { t = editText(g, t, "0123456789abcdefABCDEFgG/:@` "); } good = t.size() % 2 == 0; for (unsigned char c : t) if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) good = false;
  S want; if (good) for (size_t i = 0; i < t.size(); i += 2) { auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; want += (char)(v(t[i]) * 16 + v(t[i + 1])); } g.label(good ? "hex good" : "hex bad");
  BinaryArray o{7}; bool r1 = common::fromHex(t, o); VF_CHECK(r1 == good, "hex-verdict", "hex text %s: %d, expected %d", vf::hex(t).c_str(), r1, good); if (good) VF_CHECK(str(o) == "\7" + want, "hex-value", "hex text %s reads %s", t.c_str(), vf::hex(str(o)).c_str());
  bool r2 = true; BinaryArray o2; try { o2 = common::fromHex(t); } catch (std::runtime_error&) { r2 = false; } VF_CHECK(r2 == good && (!good || str(o2) == want), "hex-throwing", "hex text %s: the throwing reader disagrees", vf::hex(t).c_str());
  size_t cap = g.draw(70); S buf(cap + 1, 'Q'); size_t sz = 999; bool fit = good && want.size() <= cap; bool r3 = common::fromHex(t, &buf[0], cap, sz); VF_CHECK(r3 == fit && (!fit || (sz == want.size() && buf.substr(0, sz) == want)) && buf[cap] == 'Q', "hex-buffer", "hex text %s into %zu bytes", t.c_str(), cap);
  bool r4 = true; size_t s4 = 0; S b4(cap + 1, 'Q'); try { s4 = common::fromHex(t, &b4[0], cap); } catch (std::runtime_error&) { r4 = false; } VF_CHECK(r4 == fit && (!fit || (s4 == want.size() && b4.substr(0, s4) == want)), "hex-buffer-throwing", "hex text %s into %zu bytes", t.c_str(), cap);
  crypto::Hash hh; memset(&hh, 0x5a, sizeof hh); bool r5 = common::podFromHex(t, hh); VF_CHECK(r5 == (good && want.size() == 32) && (!r5 || pod(hh) == want), "hex-pod", "hex text %s as a hash", t.c_str());
  S e = tools::base_64::encode(d); VF_CHECK(e == ref64(d), "base64-encode", "Base64 of %s is %s, reference %s", low.c_str(), vf::hex(e).c_str(), ref64(d).c_str()); VF_CHECK(common::base64Decode(e) == d, "base64-decode", "Base64 %s decodes to %s", e.c_str(), vf::hex(common::base64Decode(e)).c_str());
  S u = e; while (!u.empty() && u.back() == '=') u.pop_back(); VF_CHECK(common::base64Decode(u) == d, "base64-unpadded", "Base64 %s without padding decodes differently", u.c_str()); g.evals += 10;
}

VF_PROP("S05.mnemonic", 60000, 3000000, "secret keys (any 32 bytes) to 25 words and back; then words replaced, swapped, dropped, repeated, misspelt, upper-cased, separated by any white space; oracle: independent decoder with a bitwise CRC; non-trivial: words altered") {
  static bool listOk = [] { std::set<S> p; for (auto w : WL) p.insert(S(w).substr(0, 3)); S all; for (auto w : WL) all += S(w) + " "; return WL.size() == 1626 && p.size() == 1626 && refCrc(all) == 0x46be17c7u; }();
  VF_CHECK(listOk, "word-list", "the word list is not the standard English list");
  crypto::SecretKey k; S kb; if (g.flip()) kb = g.bytes(32); else { for (int i = 0; i < 8; i++) { uint32_t v = g.oneof<uint32_t>({0, 1, 1625, 1626, 1627, 1626u * 1626u - 1, 1626u * 1626u, 0xffffffffu, 0x80000000u, (uint32_t)g.draw(0)}); kb += pod(v); } } memcpy(&k, kb.data(), 32);
  S m = mnemonics::privateKeyToMnemonic(k); std::vector<S> w = split(m); VF_CHECK(w.size() == 25 && w[24] == sumWord(w), "shape", "mnemonic of %s: %s", vf::hex(kb).c_str(), m.c_str()); S r; VF_CHECK(refMnemonic(w, r) && r == kb, "encode", "mnemonic of %s reads %s by the reference", vf::hex(kb).c_str(), vf::hex(r).c_str());
  crypto::SecretKey b = mnemonics::mnemonicToPrivateKey(m); VF_CHECK(pod(b) == kb, "roundtrip", "mnemonic of %s comes back as %s", vf::hex(kb).c_str(), vf::hex(pod(b)).c_str());
  size_t n = g.draw(3); auto bad = w; for (size_t i = 0; i < n && !bad.empty(); i++) { size_t p = g.draw(bad.size()); switch (g.draw(8)) { case 0: bad[p] = WL[g.draw(WL.size())]; break; case 1: std::swap(bad[p], bad[g.draw(bad.size())]); break; case 2: bad.erase(bad.begin() + p); break; case 3: bad.insert(bad.begin() + p, bad[g.draw(bad.size())]); break; case 4: bad[p] = editText(g, bad[p], "abcdefghijklmnopqrstuvwxyz"); break; case 5: for (auto& c : bad[p]) if (g.flip() && c >= 'a') c = (char)(c & ~32); break; case 6: bad[p] = bad[p].substr(0, 3); break; default: if (bad.size() > 2) { bad[24 % bad.size()] = bad[p]; } } }
  std::vector<S> clean; for (auto& x : bad) for (auto& y : split(x)) clean.push_back(y); S text = g.flip() ? " " : ""; for (auto& x : clean) text += x + g.oneof<S>({" ", "  ", "\n", "\t"});
  S ref; bool ok = refMnemonic(clean, ref); if (clean != w) { g.nontrivial(); g.label(ok ? "altered accepted" : "altered refused"); } S got = pod(mnemonics::mnemonicToPrivateKey(text)), got2 = pod(mnemonics::mnemonicToPrivateKey(clean)), zero(32, 0);
  VF_CHECK(got == (ok ? ref : zero), "altered", "words \"%s\" read %s, reference %s", text.c_str(), vf::hex(got).c_str(), ok ? vf::hex(ref).c_str() : "refuses"); VF_CHECK(got2 == got, "list-form", "list and text forms differ");
  S s = g.bytes(g.size(40)); VF_CHECK(crc32::crc32(s) == refCrc(s), "crc", "CRC of %s", vf::hex(s).c_str()); g.evals += 5;
}
