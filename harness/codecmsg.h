// the table of every message type the code can write and read
#pragma once
#include "codec.h"
#include "P2p/P2pProtocolDefinitions.h"
#include "P2p/PeerListManager.h"
#include "P2p/LevinProtocol.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h"
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "Wallet/WalletRpcServerCommandsDefinitions.h"
#include "PaymentGate/PaymentServiceJsonRpcMessages.h"
#include "Serialization/SerializationTools.h"
using anyser::dump; using anyser::Fill;
namespace codec {
enum { KV = 1, JS = 2 };
struct Msg { S name; int enc; std::function<std::shared_ptr<void>(vf::Gen&, bool)> make; std::function<S(const void*)> dump, kv, json; std::function<bool(const S&, S&)> unkv, unjson; std::function<bool(const S&, S&)> unkvDirty; };
// decoders restrict the length of packed vectors to whole elements
inline void setup(Fill& f) {
  f.variantTags = true;
  for (auto n : {"block_ids", "m_block_ids", "knownTxsIds", "deletedTxsIds", "missed_ids", "missing_txs", "blockIds", "txs", "blocks"}) f.podSize[n] = 32;
  f.podSize["outs"] = 40; f.podSize["local_peerlist"] = sizeof(PeerlistEntry); f.podSize["local_peerlist_white"] = sizeof(PeerlistEntry); f.podSize["local_peerlist_gray"] = sizeof(PeerlistEntry); f.podSize["connections_list"] = sizeof(connection_entry);
}
template <class T> Msg mk(const char* name, int enc) {
  Msg m; m.name = name; m.enc = enc;
  S nm = name; bool node = nm.find("node_data") != S::npos || nm.find("HANDSHAKE") != S::npos || nm.find("STAT") != S::npos;
  m.make = [node](vf::Gen& g, bool wild) { auto p = std::make_shared<T>(); Fill f(g); setup(f); f.wild = wild; f.lim.bigArrays = true; if (!node) f.maxVal["version"] = TRANSACTION_VERSION_2; serialize(*p, f); return std::static_pointer_cast<void>(p); };
  m.dump = [](const void* p) { return dump(*(const T*)p); };
  m.kv = [](const void* p) { return storeToBinaryKeyValue(*(const T*)p); };
  m.json = [](const void* p) { return storeToJson(*(const T*)p); };
  m.unkv = [](const S& b, S& d) { T t = T(); bool r = loadFromBinaryKeyValue(t, b); if (r) d = dump(t); return r; };
  m.unkvDirty = [](const S& b, S& d) { T t = T(); bool r = LevinProtocol::decode(bin(b), t); if (r) d = dump(t); return r; };
  m.unjson = [](const S& b, S& d) { T t = T(); bool r = loadFromJson(t, b); if (r) d = dump(t); return r; };
  return m;
}
template <class T> struct isVec : std::false_type {}; template <class T> struct isVec<std::vector<T>> : std::true_type {};
template <class T> constexpr bool usable = !std::is_same<T, EMPTY_STRUCT>::value && !std::is_same<T, void>::value && std::is_class<T>::value && !isVec<T>::value;
template <class C> auto rq(int) -> typename C::request; template <class C> void rq(...);
template <class C> auto rs(int) -> typename C::response; template <class C> void rs(...);
template <class C> auto Rq(int) -> typename C::Request; template <class C> void Rq(...);
template <class C> auto Rs(int) -> typename C::Response; template <class C> void Rs(...);
template <class T> void add(std::vector<Msg>& v, S n, int e) { if constexpr (usable<T>) v.push_back(mk<T>(strdup(n.c_str()), e)); }
// requests with mutually exclusive members can be read but not written by the code itself
template <class C> void addr(std::vector<Msg>& v, const char* n, int e) { add<decltype(Rs<C>(0))>(v, S(n) + ".Response", e); }
template <class C> void addc(std::vector<Msg>& v, const char* n, int e) {
  add<decltype(rq<C>(0))>(v, S(n) + ".request", e); add<decltype(rs<C>(0))>(v, S(n) + ".response", e);
  add<decltype(Rq<C>(0))>(v, S(n) + ".Request", e); add<decltype(Rs<C>(0))>(v, S(n) + ".Response", e);
}
void msgs1(std::vector<Msg>&); void msgs2(std::vector<Msg>&); void msgs3(std::vector<Msg>&); void msgs4(std::vector<Msg>&); void msgs5(std::vector<Msg>&); void msgs6(std::vector<Msg>&);
#define C1(x, e) addc<x>(v, #x, e);
#define R1(x, e) addr<x>(v, #x, e);
#define T1(x, e) add<x>(v, #x, e);
}  // namespace codec
