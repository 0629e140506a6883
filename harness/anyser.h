// Three serializers that work on every type the code can serialize: one fills an object with generated values, one
// dumps an object as canonical text (equality oracle), one alters exactly one leaf in place.
#pragma once
#include "vf.h"
#include "Serialization/ISerializer.h"
#include "Serialization/SerializationOverloads.h"
#include "CryptoNoteCore/CryptoNoteSerialization.h"

namespace anyser {
struct Limits { size_t arr = 4; size_t str = 40; bool bigArrays = false; uint32_t u8max = 255; };

class Fill : public cn::ISerializer {
 public:
  vf::Gen& g; Limits lim; int depth = 0; bool wild = true;   // wild: strings with every byte value
  std::function<bool(Fill&, common::StringView, std::string&)> strHook;
  // fields whose decoder restricts values: name -> modulus for binary strings (size of the packed element)
  std::map<std::string, size_t> podSize; std::map<std::string, uint64_t> maxVal;
  std::vector<std::string> text;      // names of strings that must be plain text
  explicit Fill(vf::Gen& gg) : g(gg) {}
  SerializerType type() const override { return INPUT; }
  bool beginObject(common::StringView) override { depth++; return true; }
  void endObject() override { depth--; }
  bool beginArray(size_t& size, common::StringView) override {
    size = depth > 6 ? 0 : g.draw(16) == 15 && lim.bigArrays ? 60 + g.draw(20) : g.size(lim.arr); depth++; return true;
  }
  void endArray() override { depth--; }
  uint64_t num(common::StringView n, uint64_t m) {
    auto it = maxVal.find(std::string(n)); if (it != maxVal.end() && it->second < m) m = it->second;
    return m == UINT64_MAX ? g.u64() : g.u64_below(m);
  }
  bool variantTags = false;            // transaction inputs and outputs are tagged 2 or 3
  bool operator()(uint8_t& v, common::StringView n) override { v = (uint8_t)num(n, 255); return true; }
  bool operator()(int16_t& v, common::StringView n) override { v = (int16_t)num(n, 65535); return true; }
  bool operator()(uint16_t& v, common::StringView n) override { v = (uint16_t)num(n, 65535); return true; }
  bool operator()(int32_t& v, common::StringView n) override { v = (int32_t)num(n, UINT32_MAX); return true; }
  bool operator()(uint32_t& v, common::StringView n) override { v = (uint32_t)num(n, UINT32_MAX); return true; }
  bool operator()(int64_t& v, common::StringView n) override { v = (int64_t)num(n, UINT64_MAX); return true; }
  bool operator()(uint64_t& v, common::StringView n) override { v = num(n, UINT64_MAX); return true; }
  bool operator()(double& v, common::StringView n) override { v = (double)(int64_t)g.draw(2000001) / 16.0 - 50000; return true; }
  bool operator()(bool& v, common::StringView) override { v = g.flip(); return true; }
  bool operator()(std::string& v, common::StringView n) override {
    if (strHook && strHook(*this, n, v)) return true;
    if (g.draw(32) == 31) { static const size_t L[] = {63, 64, 65, 255, 256, 16383, 16384}; size_t k = L[g.draw(7)]; v.assign(k, (char)('a' + g.draw(26))); return true; }
    size_t k = g.size(lim.str); v = wild ? g.bytes(k) : g.ascii(k); return true;
  }
  bool binary(void* v, size_t size, common::StringView n) override { if (variantTags && size == 1 && std::string(n) == "type") { *(uint8_t*)v = (uint8_t)(2 + g.draw(2)); return true; } std::string b = size > 8 ? bulk(size) : g.bytes(size); memcpy(v, b.data(), size); return true; }
  bool binary(std::string& v, common::StringView n) override {
    size_t k = g.size(lim.str); auto it = podSize.find(std::string(n)); size_t e = it == podSize.end() ? 1 : it->second;
    if (e > 1) k = g.size(lim.arr); v = e > 1 ? bulk(k * e) : g.bytes(k); return true;
  }
  std::string bulk(size_t n) { uint64_t k = g.draw(0); std::string s(n, 0); if (k == 0) return s; if (k == 1) { s[n ? n - 1 : 0] = n ? 1 : 0; return s; } vf::Rng r(k); r.fill(&s[0], n); return s; }
  using cn::ISerializer::operator();
};

class Dump : public cn::ISerializer {
 public:
  std::string out; std::vector<size_t> arr;
  SerializerType type() const override { return OUTPUT; }
  void nm(common::StringView n) { out.append(n.getData(), n.getSize()); out += '='; }
  bool beginObject(common::StringView n) override { nm(n); out += "{"; return true; }
  void endObject() override { out += "}\n"; }
  bool beginArray(size_t& size, common::StringView n) override { nm(n); out += "[" + std::to_string(size) + ":"; return true; }
  void endArray() override { out += "]\n"; }
  template <class T> bool n(T v, common::StringView s) { nm(s); out += std::to_string(v) + ";"; return true; }
  bool operator()(uint8_t& v, common::StringView s) override { return n((unsigned)v, s); }
  bool operator()(int16_t& v, common::StringView s) override { return n((int)v, s); }
  bool operator()(uint16_t& v, common::StringView s) override { return n((unsigned)v, s); }
  bool operator()(int32_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(uint32_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(int64_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(uint64_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(double& v, common::StringView s) override { nm(s); char b[64]; snprintf(b, sizeof b, "%.17g;", v); out += b; return true; }
  bool operator()(bool& v, common::StringView s) override { return n((int)v, s); }
  bool operator()(std::string& v, common::StringView s) override { nm(s); out += "s" + std::to_string(v.size()) + ":" + vf::hex(v) + ";"; return true; }
  bool binary(void* v, size_t size, common::StringView s) override { nm(s); out += "b" + vf::hex(v, size) + ";"; return true; }
  bool binary(std::string& v, common::StringView s) override { nm(s); out += "B" + vf::hex(v) + ";"; return true; }
  using cn::ISerializer::operator();
};
template <class T> std::string dump(const T& v) { Dump d; serialize(const_cast<T&>(v), d); return d.out; }

// visits leaves in order; changes leaf number `at` in place
class Tweak : public cn::ISerializer {
 public:
  size_t at, i = 0; uint64_t r; std::string name; bool hit = false;
  Tweak(size_t a, uint64_t rr) : at(a), r(rr) {}
  SerializerType type() const override { return OUTPUT; }
  bool beginObject(common::StringView) override { return true; }
  void endObject() override {}
  bool beginArray(size_t&, common::StringView) override { return true; }
  void endArray() override {}
  template <class T> bool n(T& v, common::StringView s) { if (i++ == at) { v = (T)(v ^ (T)((T)1 << (r % (8 * sizeof(T))))); mark(s); } return true; }
  void mark(common::StringView s) { hit = true; name.assign(s.getData(), s.getSize()); }
  bool operator()(uint8_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(int16_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(uint16_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(int32_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(uint32_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(int64_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(uint64_t& v, common::StringView s) override { return n(v, s); }
  bool operator()(double& v, common::StringView s) override { if (i++ == at) { v += 1; mark(s); } return true; }
  bool operator()(bool& v, common::StringView s) override { if (i++ == at) { v = !v; mark(s); } return true; }
  bool operator()(std::string& v, common::StringView s) override { if (i++ == at) { if (v.empty() || (r & 1)) v += (char)(r >> 8); else v[(r >> 8) % v.size()] ^= (char)(1 << ((r >> 3) & 7)); mark(s); } return true; }
  bool binary(void* v, size_t size, common::StringView s) override { if (i++ == at && size) { ((uint8_t*)v)[(r >> 8) % size] ^= (uint8_t)(1 << (r & 7)); mark(s); } return true; }
  bool binary(std::string& v, common::StringView s) override { return (*this)(v, s); }
  using cn::ISerializer::operator();
};
}  // namespace anyser
