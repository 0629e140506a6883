// S03 (messages through both encodings), S02 (untrusted bytes)
#include "codecmsg.h"
#include <fstream>
#include <unistd.h>
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "Serialization/SerializationTools.h"
#include "Common/JsonValue.h"
#include "Common/Base58.h"
#include "Common/StringTools.h"
#include "HTTP/HttpParser.h"
#include "HTTP/HttpParserErrorCodes.h"
#include "Rpc/JsonRpc.h"
#include "CryptoNoteCore/Checkpoints.h"
#include "Logging/LoggerGroup.h"
#include "Mnemonics/Mnemonics.h"
using namespace codec;
using common::JsonValue;

namespace {
std::vector<Msg>& msgs() { static std::vector<Msg> v; if (v.empty()) { msgs1(v); msgs2(v); msgs3(v); msgs4(v); msgs5(v); msgs6(v); } return v; }
const Msg& pickMsg(vf::Gen& g, int enc) { static std::vector<const Msg*> k[4]; if (k[enc].empty()) for (auto& m : msgs()) if (m.enc & enc) k[enc].push_back(&m); return *k[enc][g.draw(k[enc].size())]; }

// --- a reference reading and writing of the binary key-value format, used to reorder and add fields
struct Node { int type = 0; bool array = false; S raw; std::vector<std::pair<S, Node>> kids; std::vector<Node> items; };   // raw: scalar bytes
S kvlen(uint64_t v) { if (v <= 63) return S(1, (char)(v << 2)); if (v <= 16383) { uint16_t x = (uint16_t)(v << 2 | 1); return pod(x); } if (v <= 1073741823) { uint32_t x = (uint32_t)(v << 2 | 2); return pod(x); } uint64_t x = v << 2 | 3; return pod(x); }
size_t scalarSize(int t) { switch (t) { case 1: case 5: case 9: return 8; case 2: case 6: return 4; case 3: case 7: return 2; case 4: case 8: case 11: return 1; } return 0; }
struct KvRd { const S& s; size_t p; bool ok = true;
  uint64_t len() { if (p >= s.size()) { ok = false; return 0; } int m = s[p] & 3; size_t n = (size_t)1 << m; if (p + n > s.size()) { ok = false; return 0; } uint64_t v = 0; memcpy(&v, &s[p], n); p += n; return v >> 2; }
  Node value(int t) { Node n; n.type = t; size_t k = scalarSize(t); if (t == 10) { k = len(); } if (t == 12) return section(); if (t == 10 || k) { if (!ok || k > s.size() - p) { ok = false; return n; } n.raw = s.substr(p, k); p += k; } else ok = false; return n; }
  Node entry() { if (p >= s.size()) { ok = false; return Node(); } int t = (uint8_t)s[p++]; if (t & 0x80) { Node n; n.array = true; n.type = t & 0x7f; uint64_t c = len(); for (uint64_t i = 0; ok && i < c; i++) n.items.push_back(value(n.type)); return n; } return value(t); }
  Node section() { Node n; n.type = 12; uint64_t c = len(); for (uint64_t i = 0; ok && i < c; i++) { if (p >= s.size()) { ok = false; break; } size_t k = (uint8_t)s[p++]; if (p + k > s.size()) { ok = false; break; } S nm = s.substr(p, k); p += k; n.kids.emplace_back(nm, entry()); } return n; }
};
S kvwrite(const Node& n) {
  auto val = [](const Node& x) { if (x.type == 12) return kvwrite(x); if (x.type == 10) return kvlen(x.raw.size()) + x.raw; return x.raw; };
  S r = kvlen(n.kids.size());
  for (auto& k : n.kids) { r += (char)k.first.size(); r += k.first; r += (char)(k.second.type | (k.second.array ? 0x80 : 0)); if (k.second.array) { r += kvlen(k.second.items.size()); for (auto& i : k.second.items) r += val(i); } else r += val(k.second); }
  return r;
}
const S KVHDR("\x01\x11\x01\x01\x01\x01\x02\x01\x01", 9);
Node genNode(vf::Gen& g, int depth) {
  Node n; n.type = (int)g.oneof<int>({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 10, 12}); if (depth > 3 && n.type == 12) n.type = 8; n.array = g.chance(1, 4);
  auto one = [&](int t) { Node x; x.type = t; if (t == 12) { size_t k = g.size(3); for (size_t i = 0; i < k; i++) x.kids.emplace_back("u" + std::to_string(i), genNode(g, depth + 1)); } else if (t == 10) x.raw = g.bytes(g.size(70)); else if (t == 9) { double d = (double)g.draw(1000000); x.raw = pod(d); } else x.raw = g.bytes(scalarSize(t)); return x; };
  if (n.array) { int t = n.type; size_t k = g.size(4); for (size_t i = 0; i < k; i++) n.items.push_back(one(t)); return n; }
  bool a = n.array; n = one(n.type); n.array = a; return n;
}
void shuffle(vf::Gen& g, Node& n, int& extra) {
  for (size_t i = n.kids.size(); i > 1; i--) std::swap(n.kids[i - 1], n.kids[g.draw(i)]);
  size_t k = g.draw(3); for (size_t i = 0; i < k; i++) { n.kids.insert(n.kids.begin() + g.draw(n.kids.size() + 1), {"zz_unknown" + std::to_string(extra++), genNode(g, 0)}); }
  for (auto& c : n.kids) { if (c.first.compare(0, 3, "zz_") == 0) continue; if (c.second.type == 12) { if (c.second.array) for (auto& x : c.second.items) shuffle(g, x, extra); else shuffle(g, c.second, extra); } }
}
}  // namespace

VF_PROP("S03.binary", 20000, 2000000, "a random value of one of the peer-to-peer or binary RPC message types, encoded, decoded and compared; its fields reordered and unknown fields of every type inserted at every level with an independent codec, decoded again; non-trivial: at least 3 fields") {
  const Msg& m = pickMsg(g, KV); g.label(m.name);
  auto v = m.make(g, true); S d = m.dump(v.get()); S b = m.kv(v.get());
  S d2; VF_CHECK(m.unkv(b, d2), "decode", "%s: own encoding is refused: %s", m.name.c_str(), vf::hex(b).c_str());
  VF_CHECK(d2 == d, "roundtrip", "%s: wrote\n%s\nread\n%s", m.name.c_str(), d.c_str(), d2.c_str());
  S d3; VF_CHECK(m.unkvDirty(b, d3) && d3 == d, "levin-decode", "%s: LevinProtocol::decode differs", m.name.c_str());
  VF_CHECK(b.substr(0, 9) == KVHDR, "header", "%s: header %s", m.name.c_str(), vf::hex(b.substr(0, 9)).c_str());
  KvRd r{b, 9}; Node n = r.section(); VF_CHECK(r.ok && r.p == b.size(), "format", "%s: encoding is not in the key-value format: %s", m.name.c_str(), vf::hex(b).c_str());
  VF_CHECK(KVHDR + kvwrite(n) == b, "canonical", "%s: lengths are not written in their shortest form", m.name.c_str());
  if (n.kids.size() >= 3) g.nontrivial();
  int extra = 0; shuffle(g, n, extra); S b2 = KVHDR + kvwrite(n); S d4;
  VF_CHECK(m.unkv(b2, d4), "reordered-refused", "%s: refused after reordering (%d unknown fields): %s", m.name.c_str(), extra, vf::hex(b2).c_str());
  VF_CHECK(d4 == d, "reordered", "%s: with fields reordered and %d unknown ones:\n%s\nread\n%s", m.name.c_str(), extra, d.c_str(), d4.c_str());
  g.evals += 5;
}

// independent JSON reader (RFC 8259) for the node's output
namespace {
struct J { int t = 0; S s; double r = 0; long long i = 0; std::vector<J> a; std::map<S, J> o; };   // 0 null 1 bool 2 int 3 real 4 string 5 array 6 object
struct JRd { const S& s; size_t p = 0; bool ok = true;
  void ws() { while (p < s.size() && strchr(" \t\r\n", s[p]) && s[p]) p++; }
  static void utf8(S& o, uint32_t c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  uint32_t h4() { uint32_t v = 0; for (int k = 0; k < 4; k++) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) { ok = false; return 0; } char c = s[p++]; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
  S str() { S o; if (p >= s.size() || s[p] != '"') { ok = false; return o; } p++;
    for (;;) { if (p >= s.size()) { ok = false; return o; } unsigned char c = (unsigned char)s[p++]; if (c == '"') return o; if (c < 0x20) { ok = false; return o; }
      if (c != '\\') { o += (char)c; continue; } if (p >= s.size()) { ok = false; return o; } c = (unsigned char)s[p++];
      switch (c) { case '"': case '\\': case '/': o += (char)c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u': { uint32_t u = h4(); if (u >= 0xd800 && u < 0xdc00) { if (s.compare(p, 2, "\\u") == 0) { p += 2; uint32_t l = h4(); u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00); } else ok = false; } utf8(o, u); break; } default: ok = false; return o; } } }
  J val(int depth = 0) { J j; ws(); if (p >= s.size() || depth > 5000) { ok = false; return j; } char c = s[p];
    if (c == '"') { j.t = 4; j.s = str(); return j; }
    if (c == '[') { j.t = 5; p++; ws(); if (p < s.size() && s[p] == ']') { p++; return j; } for (;;) { j.a.push_back(val(depth + 1)); ws(); if (!ok || p >= s.size()) { ok = false; return j; } if (s[p] == ']') { p++; return j; } if (s[p++] != ',') { ok = false; return j; } } }
    if (c == '{') { j.t = 6; p++; ws(); if (p < s.size() && s[p] == '}') { p++; return j; } for (;;) { ws(); S k = str(); ws(); if (!ok || p >= s.size() || s[p++] != ':') { ok = false; return j; } j.o[k] = val(depth + 1); ws(); if (!ok || p >= s.size()) { ok = false; return j; } if (s[p] == '}') { p++; return j; } if (s[p++] != ',') { ok = false; return j; } } }
    if (s.compare(p, 4, "true") == 0) { j.t = 1; j.i = 1; p += 4; return j; } if (s.compare(p, 5, "false") == 0) { j.t = 1; p += 5; return j; } if (s.compare(p, 4, "null") == 0) { p += 4; return j; }
    size_t q = p; if (s[q] == '-') q++; size_t d0 = q; while (q < s.size() && isdigit((unsigned char)s[q])) q++; if (q == d0 || (s[d0] == '0' && q > d0 + 1)) { ok = false; return j; } bool real = false;
    if (q < s.size() && s[q] == '.') { real = true; q++; size_t f = q; while (q < s.size() && isdigit((unsigned char)s[q])) q++; if (q == f) { ok = false; return j; } }
    if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { real = true; q++; if (q < s.size() && (s[q] == '+' || s[q] == '-')) q++; size_t f = q; while (q < s.size() && isdigit((unsigned char)s[q])) q++; if (q == f) { ok = false; return j; } }
    S n = s.substr(p, q - p); p = q; if (real) { j.t = 3; j.r = strtod(n.c_str(), nullptr); } else { j.t = 2; j.i = strtoll(n.c_str(), nullptr, 10); } return j; }
};
bool same(const J& j, const JsonValue& v) {
  switch (j.t) {
    case 0: return v.isNil(); case 1: return v.isBool() && v.getBool() == (j.i != 0); case 2: return v.isInteger() && v.getInteger() == j.i; case 3: return v.isReal() && std::abs(v.getReal() - j.r) <= 1e-10 * (1 + std::abs(j.r)); case 4: return v.isString() && v.getString() == j.s;
    case 5: { if (!v.isArray() || v.size() != j.a.size()) return false; for (size_t i = 0; i < j.a.size(); i++) if (!same(j.a[i], v[i])) return false; return true; }
    default: { if (!v.isObject() || v.size() != j.o.size()) return false; for (auto& k : j.o) if (!v.contains(k.first) || !same(k.second, v(k.first))) return false; return true; }
  }
}
S jstr(vf::Gen& g) {
  size_t n = g.size(12); S s; for (size_t i = 0; i < n; i++) switch (g.draw(6)) { case 0: case 1: s += (char)('a' + g.draw(26)); break; case 2: s += g.oneof<char>({'"', '\\', '/', '\n', '\r', '\t', '\b', '\f', '\0', '\x1f', '\x7f'}); break; case 3: s += (char)g.draw(256); break; case 4: s += g.oneof<const char*>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x92\xb0", "\\u0041", "\\n", "\\\""}); break; default: s += ' '; }
  return s;
}
JsonValue jval(vf::Gen& g, int depth) {
  switch (g.weighted({2, 1, 1, 3, 4, depth < 4 ? 3u : 0u, depth < 4 ? 3u : 0u})) {
    case 0: { JsonValue v; v = (JsonValue::Integer)g.u64(); return v; }
    case 1: { bool bb = g.flip(); return JsonValue(bb); }
    case 2: { JsonValue v; return v; }
    case 3: { JsonValue v; v = (double)(int64_t)g.draw(1000000) / 8 - 1000; return v; }
    case 4: return JsonValue(jstr(g));
    case 5: { JsonValue v(JsonValue::ARRAY); size_t n = g.size(4); for (size_t i = 0; i < n; i++) v.pushBack(jval(g, depth + 1)); return v; }
    default: { JsonValue v(JsonValue::OBJECT); size_t n = g.size(4); for (size_t i = 0; i < n; i++) v.set(jstr(g), jval(g, depth + 1)); return v; }
  }
}
S jtext(const J& j, vf::Gen& g) {   // foreign but valid JSON for the same value: escapes, white space, key order
  auto q = [&](const S& s) { S o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 0x20 || (c < 0x80 && g.draw(8) == 7)) { char b[8]; snprintf(b, 8, g.flip() ? "\\u%04x" : "\\u%04X", c); o += b; } else o += (char)c; } return o + "\""; };
  auto w = [&] { return S(g.oneof<const char*>({"", "", " ", "\n", "\t "})); };
  switch (j.t) {
    case 0: return "null"; case 1: return j.i ? "true" : "false"; case 2: return std::to_string(j.i); case 3: { char b[64]; snprintf(b, 64, g.flip() ? "%.12f" : "%.12e", j.r); S t = b; size_t e = t.find('e'); if (e != S::npos && t[e + 1] == '+' && g.flip()) t.erase(e + 1, 1); return t; } case 4: return q(j.s);
    case 5: { S o = "[" + w(); for (size_t i = 0; i < j.a.size(); i++) o += (i ? "," + w() : S()) + jtext(j.a[i], g) + w(); return o + "]"; }
    default: { S o = "{" + w(); bool f = true; std::vector<const std::pair<const S, J>*> k; for (auto& x : j.o) k.push_back(&x); for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[g.draw(i)]); for (auto x : k) { o += (f ? S() : "," + w()) + q(x->first) + w() + ":" + w() + jtext(x->second, g) + w(); f = false; } return o + "}"; }
  }
}
}  // namespace

VF_PROP("S03.json-message", 30000, 2000000, "a random value of one of the JSON RPC message types (strings with quotes, backslashes, control and non-ASCII bytes), written as JSON, read by an independent reader and by the node, also with reordered and unknown members; non-trivial: at least 2 members") {
  const Msg& m = pickMsg(g, JS); g.label(m.name);
  std::shared_ptr<void> v; v = m.make(g, g.flip()); S d = m.dump(v.get()); S t = m.json(v.get());
  JRd r{t}; J j = r.val(); r.ws(); VF_CHECK(r.ok && r.p == t.size(), "not-json", "%s: output is not JSON: %s", m.name.c_str(), t.c_str());
  if (j.o.size() >= 2) g.nontrivial();
  S d2; VF_CHECK(m.unjson(t, d2), "decode", "%s: own JSON refused: %s", m.name.c_str(), t.c_str());
  VF_CHECK(d2 == d, "roundtrip", "%s: wrote\n%s\nread\n%s\nfrom %s", m.name.c_str(), d.c_str(), d2.c_str(), t.c_str());
  J k = j; size_t n = g.draw(3); for (size_t i = 0; i < n; i++) { J x; x.t = 4; x.s = jstr(g); if (g.flip()) { J y; y.t = 5; y.a.push_back(x); x = y; } k.o["zz_unknown" + std::to_string(i)] = x; }
  S t2 = jtext(k, g), d3; VF_CHECK(m.unjson(t2, d3), "foreign-refused", "%s: equivalent JSON refused: %s", m.name.c_str(), t2.c_str());
  VF_CHECK(d3 == d, "foreign", "%s: equivalent JSON reads differently:\n%s\n%s\nfrom %s", m.name.c_str(), d.c_str(), d3.c_str(), t2.c_str()); g.evals += 4;
}

VF_PROP("S03.json-value", 60000, 3000000, "a random JSON tree whose strings and member names hold quotes, backslashes, control bytes, NUL and non-ASCII bytes; printed, checked by an independent reader, parsed back by the node, and parsed from equivalent foreign text; non-trivial: a container") {
  JsonValue v = jval(g, 0); S t = v.toString(); if (v.isArray() || v.isObject()) g.nontrivial();
  JRd r{t}; J j = r.val(); r.ws(); VF_CHECK(r.ok && r.p == t.size(), "not-json", "printed value is not JSON: %s", vf::hex(t).c_str());
  VF_CHECK(same(j, v), "meaning", "printed JSON means another value: %s", t.c_str());
  JsonValue w; try { w = JsonValue::fromString(t); } catch (std::exception& e) { vf::fail("reparse", "printed JSON does not parse: %s", t.c_str()); }
  VF_CHECK(same(j, w) && w.toString() == t, "reparse-differs", "printed, parsed and printed again: %s -> %s", t.c_str(), w.toString().c_str());
  S f = jtext(j, g); JsonValue x; try { x = JsonValue::fromString(f); } catch (std::exception& e) { vf::fail("foreign", "valid JSON refused: %s", f.c_str()); }
  VF_CHECK(same(j, x), "foreign-differs", "valid JSON %s read as %s", f.c_str(), x.toString().c_str());
  JsonValue y(x); JsonValue z(std::move(y)); y = z; VF_CHECK(same(j, y) && same(j, z), "copy", "copies differ"); g.evals += 5;
}

// ---------------------------------------------------------------------------------- S02
namespace {
const size_t CAP = 1u << 30;                 // strings may announce up to 128 MB each before they are refused
template <class F> bool guarded(vf::Gen& g, const char* what, size_t inSize, F f) {
  AllocWatch::start(CAP + 400 * inSize); bool ok = false;
  try { ok = f(); } catch (const std::exception&) {}
  size_t n = AllocWatch::stop(); g.evals++; g.label(S(what) + (ok ? " accepted" : " refused")); if (n > (64u << 20)) g.label(S(what) + " >64MB allocated"); return ok;
}
void spam(vf::Gen& g, S& s, char open, char lead) { (void)lead; size_t n = g.oneof<size_t>({10, 1000, 100000, 3000000}); s += S(n, open); }
}  // namespace

VF_PROP("S02.keyvalue", 40000, 2000000, "binary key-value documents: mutated encodings of every message type, random documents that use the real field names with other types, lengths and counts far beyond the input, nested objects and arrays up to 3 million levels; decoded as every kind of message under AddressSanitizer and an allocation limit; non-trivial: starts with the storage header") {
  const Msg& m = msgs()[g.draw(msgs().size())]; S b;
  switch (g.weighted({5, 3, 1, 1})) {
    case 0: { auto v = m.make(g, true); b = m.kv(v.get()); g.nontrivial(); S body = mutate(g, b.substr(9)); b = (g.chance(1, 16) ? mutate(g, b.substr(0, 9)) : b.substr(0, 9)) + body; break; }
    case 1: { auto v = m.make(g, true); S e = m.kv(v.get()); KvRd r{e, 9}; Node n = r.section(); int ex = 0; g.nontrivial();     // real names, wrong kinds
      for (auto& k : n.kids) if (g.flip()) { Node x = genNode(g, 0); k.second = x; } shuffle(g, n, ex); if (!n.kids.empty() && g.flip()) n.kids.push_back({n.kids[g.draw(n.kids.size())].first, genNode(g, 0)}); b = KVHDR + kvwrite(n); break; }
    case 2: { g.nontrivial(); size_t n = g.oneof<size_t>({5, 200, 20000, 600000}); b = KVHDR; int k = (int)g.draw(3); g.label("nested");
      if (k == 0) for (size_t i = 0; i < n; i++) b += S("\x04\x01" "a\x0c", 4); else if (k == 1) { b += S("\x04\x01" "a\x8d", 4); b += S(n * 5, (char)g.oneof<int>({4, 8, 0x1c})); } else { b += S("\x04\x01" "a\x8c", 4); for (size_t i = 0; i < n; i++) b += S("\x04\x04\x01" "a\x8c", 5); } break; }
    default: b = (g.flip() ? KVHDR : S()) + g.bytes(g.size(60));
  }
  S d; guarded(g, "kv", b.size(), [&] { return m.unkv(b, d); });
}

VF_PROP("S02.json", 40000, 2000000, "JSON text: mutated output of every JSON message, random trees with type confusion, unterminated text, huge numbers, nesting up to 3 million levels; parsed and decoded; non-trivial: starts like an object") {
  const Msg& m = msgs()[g.draw(msgs().size())]; S b;
  switch (g.weighted({5, 3, 1, 1})) {
    case 0: { std::shared_ptr<void> v; const Msg& mm = pickMsg(g, JS); v = mm.make(g, false); b = mutate(g, mm.json(v.get())); break; }
    case 1: { JsonValue o(JsonValue::OBJECT); const Msg& mm = pickMsg(g, JS); auto v = mm.make(g, false); JsonValue t = JsonValue::fromString(mm.json(v.get())); S s = t.toString();
      JRd r{s}; J j = r.val(); for (auto& k : j.o) if (g.flip()) { S x = jval(g, 2).toString(); JRd q{x}; k.second = q.val(); } b = jtext(j, g); S d; guarded(g, "json own type", b.size(), [&] { return mm.unjson(b, d); }); break; }
    case 2: { g.label("nested"); int k = (int)g.draw(3); if (k == 0) spam(g, b, '[', 0); else { size_t n = g.oneof<size_t>({10, 1000, 100000, 500000}); for (size_t i = 0; i < n; i++) b += k == 1 ? "{\"a\":" : "[{\"a\":"; } break; }
    default: b = S(g.oneof<const char*>({"{", "[", "", "{\"a\":", "\"", "-", "1e", "tru", "{\"id\":"})) + g.bytes(g.size(30));
  }
  if (!b.empty() && b[0] == '{') g.nontrivial();
  guarded(g, "json", b.size(), [&] { JsonValue::fromString(b); return true; });
  S d; guarded(g, "json message", b.size(), [&] { return m.unjson(b, d); });
  guarded(g, "json-rpc request", b.size(), [&] { JsonRpc::JsonRpcRequest r; bool ok = r.parseRequest(b); JsonRpc::JsonRpcResponse q; q.setId(ok ? r.getId() : JsonRpc::OptionalId()); COMMAND_RPC_GETBLOCKTEMPLATE::request p; r.loadParams(p); return ok; });
  guarded(g, "json-rpc response", b.size(), [&] { JsonRpc::JsonRpcResponse q; q.parse(b); JsonRpc::JsonRpcError e; q.getError(e); COMMAND_RPC_GETBLOCKTEMPLATE::response p; return q.getResult(p); });
}

VF_PROP("S02.transaction", 40000, 2000000, "mutated transactions, blocks and extras, with huge announced counts; decoded by every entry point that takes them (parse, prefix, ITransaction, block, extra accessors, message decryption, output checks); non-trivial: a transaction or block decodes") {
  S b = g.flip() ? encTx(genTx(g)) : encBlock(genBlock(g)); if (!g.chance(1, 16)) b = mutate(g, b); BinaryArray a = bin(b);
  Transaction t; crypto::Hash h, p; bool ok = guarded(g, "transaction", b.size(), [&] { return parseAndValidateTransactionFromBinaryArray(a, t, h, p); });
  guarded(g, "prefix", b.size(), [&] { TransactionPrefix x; return fromBinaryArray(x, a); });
  Block bl; bool okb = guarded(g, "block", b.size(), [&] { return fromBinaryArray(bl, a); });
  guarded(g, "api", b.size(), [&] { auto x = createTransaction(a); x->getTransactionHash(); x->validateInputs(); x->validateOutputs(); x->validateSignatures(); return true; });
  if (ok || okb) g.nontrivial();
  for (const Transaction* q : {ok ? &t : nullptr, okb ? &bl.baseTransaction : nullptr}) if (q) {
    guarded(g, "transaction checks", b.size(), [&] { uint32_t e; S s; bool r = true; r &= check_inputs_types_supported(*q); r &= check_outs_valid(*q, &s); r &= check_money_overflow(*q); r &= checkMultisignatureInputsDiff(*q); getInputAmount(*q); getOutputAmount(*q); get_block_height(bl); (void)e; return r; });
    crypto::SecretKey sk; memset(&sk, 1, sizeof sk); sk.data[31] = 0;
    BinaryArray ex = q->extra; if (g.flip()) { S m = mutate(g, str(ex)); ex = bin(m); }
    guarded(g, "extra", ex.size(), [&] { std::vector<TransactionExtraField> fs; bool r = parseTransactionExtra(ex, fs); crypto::PublicKey pk = getTransactionPublicKeyFromExtra(ex); crypto::Hash z; getPaymentIdFromTxExtra(ex, z); TransactionExtraMergeMiningTag mm; getMergeMiningTagFromExtra(ex, mm); get_messages_from_extra(ex, pk, nullptr); get_messages_from_extra(ex, pk, &sk); if (r) { BinaryArray o; writeTransactionExtra(o, fs); } return r; });
  }
  if (okb) guarded(g, "block checks", b.size(), [&] { get_block_hash(bl); BinaryArray x; get_block_hashing_blob(bl, x); return true; });
  S e = g.bytes(1 + g.draw(3)); e[0] = (char)g.draw(6); S m = g.flip() ? varint(g.u64()) : S(); S xx = e + m + g.bytes(g.size(60)); BinaryArray ex = bin(xx);
  guarded(g, "random extra", ex.size(), [&] { std::vector<TransactionExtraField> fs; bool r = parseTransactionExtra(ex, fs); get_messages_from_extra(ex, crypto::PublicKey(), nullptr); return r; });
}

VF_PROP("S02.http", 30000, 1500000, "HTTP requests and responses with altered bytes, absent or repeated line ends, contradictory, huge, negative or non-numeric lengths; parsed from a stream; non-trivial: the unaltered message carries a body") {
  bool req = g.flip(); S body = g.bytes(g.size(60)); if (!body.empty()) g.nontrivial();
  S cl = g.oneof<S>({std::to_string(body.size()), std::to_string(body.size()), "0", "-1", "18446744073709551615", "99999999999999999999999", "1e9", "", " ", "abc", "0x10", std::to_string(body.size() + 1 + g.draw(100))});
  S s = req ? "POST /json_rpc HTTP/1.1\r\n" : S(g.oneof<const char*>({"HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 Ok\r\n", "HTTP/1.1 404 Not Found\r\n", "HTTP/1.1 500 Internal Server Error\r\n", "HTTP/1.1 999 x\r\n", "HTTP/1.1 401 U\r\n"}));
  size_t n = g.draw(4); for (size_t i = 0; i < n; i++) s += g.ascii(1 + g.draw(8)) + ":" + (g.flip() ? " " : "") + g.ascii(g.draw(20)) + "\r\n";
  s += "Content-Length: " + cl + "\r\n\r\n" + body; if (g.flip()) s = mutate(g, s);
  std::istringstream in(s); HttpParser p;
  guarded(g, req ? "request" : "response", s.size(), [&] { if (req) { HttpRequest r; p.receiveRequest(in, r); return true; } HttpResponse r; p.receiveResponse(in, r); return true; });
}

VF_PROP("S02.text", 20000, 1000000, "checkpoint files and text inputs (addresses, base58, hex, payment ids, mnemonics, IP:port) with malformed, huge and truncated content; non-trivial: more than one line or word") {
  static logging::LoggerGroup lg; S s; size_t n = g.size(6);
  for (size_t i = 0; i < n; i++) { S h = g.chance(1, 4) ? g.bytes(g.draw(70)) : vf::hex(g.bytes(32)); S num = g.oneof<S>({std::to_string(g.draw(100000)), "99999999999999999999", "-1", "", "abc", "4294967296", "2147483648", "12x", " 7"}); s += num + (g.chance(1, 12) ? "" : ",") + h + (g.chance(1, 10) ? "" : g.chance(1, 6) ? "\r\n" : "\n"); }
  if (g.chance(1, 4)) s = mutate(g, s); if (n > 1) g.nontrivial();
  S f = vf::scratch() + "/cp.csv"; { std::ofstream o(f, std::ios::binary); o << s; }
  bool threw = false; AllocWatch::start(CAP); try { Checkpoints cp(lg); bool r = cp.load_checkpoints_from_file(f); g.label(r ? "checkpoints accepted" : "checkpoints refused"); } catch (std::exception& e) { threw = true; }
  AllocWatch::stop(); VF_CHECK(!threw, "checkpoint-throws", "reading a checkpoint file throws: %s", vf::hex(s).c_str());
  S w; size_t k = g.draw(30); for (size_t i = 0; i < k; i++) w += g.ascii(1 + g.draw(9)) + " "; S x = g.flip() ? g.bytes(g.size(120)) : g.ascii(g.size(120)); if (g.flip()) x = "ccx7" + x;
  guarded(g, "mnemonic", w.size(), [&] { auto kk = mnemonics::mnemonicToPrivateKey(w); mnemonics::mnemonicToPrivateKey(x); return kk != crypto::SecretKey(); });
  guarded(g, "base58", x.size(), [&] { S d; uint64_t tag; bool r = tools::base_58::decode(x, d); r |= tools::base_58::decode_addr(x, tag, d); return r; });
  guarded(g, "address", x.size(), [&] { uint64_t pf; AccountPublicAddress a; return parseAccountAddressString(pf, a, x); });
  guarded(g, "base64", x.size(), [&] { return !common::base64Decode(x).empty(); });
  guarded(g, "hex", x.size(), [&] { BinaryArray d; crypto::Hash h; bool r = common::fromHex(x, d); r |= common::podFromHex(x, h); return r; });
  guarded(g, "ip", x.size(), [&] { uint32_t a, b; return common::parseIpAddressAndPort(a, b, x); });
}
