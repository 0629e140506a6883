// R01 (JSON-RPC envelopes) and R02 (the daemon's answers describe its chain and pool).
#include "chainhist.h"
#include <fstream>
#include <sstream>
#include <regex>
#include <thread>
#include <future>
#include <boost/functional/hash.hpp>
#include <boost/uuid/uuid.hpp>
#include <boost/program_options.hpp>
#include <parallel_hashmap/phmap.h>
#include <System/Dispatcher.h>
#include <System/Event.h>
#define private public
#include <Rpc/RpcServer.h>
#include <CryptoNoteProtocol/CryptoNoteProtocolHandler.h>
#include <JsonRpcServer/JsonRpcServer.h>
#undef private
#include <P2p/NetNode.h>
#include <Common/JsonValue.h>
#include <Rpc/JsonRpc.h>
#include <Serialization/SerializationTools.h>
#include <System/Dispatcher.h>
#include <System/Event.h>
using namespace vf; using namespace cw; using namespace cn; using common::JsonValue;
namespace {
platform_system::Dispatcher& disp() { static platform_system::Dispatcher d; return d; }
struct Rpc {
  Hist& h; CryptoNoteProtocolHandler proto; NodeServer p2p; RpcServer rpc; Gen& g; size_t calls = 0, errors = 0, results = 0;
  explicit Rpc(Hist& h_) : h(h_), proto(*h.w.cur, disp(), *h.n->c, nullptr, h.w.log), p2p(disp(), proto, h.w.log), rpc(disp(), h.w.log, *h.n->c, p2p, proto), g(h.g) { h.n->c->set_cryptonote_protocol(&proto); proto.m_synchronized = true; rpc.m_restricted_rpc = false; }
  ~Rpc() { h.n->c->set_cryptonote_protocol(nullptr); }
  std::string post(const std::string& url, const std::string& body, int* status = nullptr) { HttpRequest q; HttpResponse r; q.setUrl(url); q.setBody(body); calls++; rpc.processRequest(q, r); if (status) *status = r.getStatus(); return r.getBody(); }
  // a JSON-RPC call; true with its result, false with its error
  bool call(const std::string& method, const std::string& params, JsonValue& out) {
    uint64_t id = g.draw(1000); std::string b = post("/json_rpc", strf("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"%s\",\"params\":%s}", (unsigned long long)id, method.c_str(), params.c_str())); JsonValue v;
    try { v = JsonValue::fromString(b); } catch (std::exception&) { VF_CHECK(false, "R02/json", "%s answers something that is not JSON", method.c_str()); }
    VF_CHECK(v.isObject() && v.contains("id") && v("id").isInteger() && (uint64_t)v("id").getInteger() == id, "R02/id", "%s: the answer does not carry the request's id", method.c_str()); bool r = v.contains("result"), e = v.contains("error"); g.evals++;
    VF_CHECK(r != e, "R02/either", "%s: %s a result and an error", method.c_str(), r ? "both" : "neither"); out = r ? v("result") : v("error"); (r ? results : errors)++; return r;
  }
  template <class C> bool bin(const char* url, const typename C::request& q, typename C::response& r) { int st = 0; std::string b = post(url, storeToBinaryKeyValue(q), &st); bool ok = st == (int)HttpResponse::STATUS_200 && !b.empty() && loadFromBinaryKeyValue(r, b); if (!ok) g.note("%s: status %d, %zu bytes", url, st, b.size()); g.evals++; return ok; }
  bool js(const char* url, const std::string& q, JsonValue& v) { std::string b = post(url, q); g.evals++; if (b.empty()) return false; try { v = JsonValue::fromString(b); } catch (std::exception&) { return false; } return true; }
};
std::string S(const JsonValue& v, const char* k) { return v.contains(k) && v(k).isString() ? v(k).getString() : "(none)"; }
int64_t I(const JsonValue& v, const char* k) { return v.contains(k) && v(k).isInteger() ? v(k).getInteger() : -77777; }
#define EQS(v, k, want, what) VF_CHECK(S(v, k) == (want), "R02/" k, "%s: " k " is %s, not %s", what, S(v, k).c_str(), std::string(want).c_str())
#define EQI(v, k, want, what) VF_CHECK(I(v, k) == (int64_t)(want), "R02/" k, "%s: " k " is %lld, not %lld", what, (long long)I(v, k), (long long)(want))
struct Checker {
  Rpc& r; Hist& h; Gen& g; const State& s; uint32_t N; 
  explicit Checker(Rpc& r_) : r(r_), h(r_.h), g(r_.g), s(*h.main->state), N(s.height()) {}
  uint64_t diff(uint32_t i) { return s.cumDiff[i] - (i ? s.cumDiff[i - 1] : 0); }
  uint64_t reward(const BlockP& b) { uint64_t a = 0; for (auto& o : b->b.baseTransaction.outputs) a += o.amount; return a; }
  uint32_t anyHeight() { return g.chance(1, 4) ? (uint32_t)g.oneof<uint64_t>({N, N + 1, N + 40, 0, 4000000000ull, N - 1}) : (uint32_t)g.draw(N); }
  void header(const JsonValue& x, const BlockP& b, bool orphan, const char* what) {
    EQI(x, "height", b->height, what); EQS(x, "hash", hx(b->id), what); EQS(x, "prev_hash", hx(b->b.previousBlockHash), what); EQI(x, "timestamp", b->b.timestamp, what); EQI(x, "nonce", b->b.nonce, what); EQI(x, "major_version", b->b.majorVersion, what); EQI(x, "minor_version", b->b.minorVersion, what); EQI(x, "reward", reward(b), what);
    VF_CHECK(x.contains("orphan_status") && x("orphan_status").isBool() && x("orphan_status").getBool() == orphan, "R02/orphan_status", "%s: wrong orphan status of a block at height %u", what, b->height);
    if (!orphan) { EQI(x, "depth", N - 1 - b->height, what); EQI(x, "difficulty", diff(b->height), what); }
  }
  void details(const JsonValue& x, const BlockP& b, const char* what) {
    header(x, b, false, what); if (!x.contains("transactions") || !x("transactions").isArray()) VF_CHECK(false, "R02/transactions", "%s: no transaction list", what);
    auto& t = x("transactions").getArray(); VF_CHECK(t.size() == b->txs.size() + 1, "R02/transactions", "%s: %zu transactions instead of %zu", what, t.size(), b->txs.size() + 1); uint64_t fees = 0;
    for (size_t i = 0; i < t.size(); i++) { const TxP& q = i ? b->txs[i - 1] : b->coinbase; EQS(t[i], "hash", hx(q->id), what); EQI(t[i], "amount_out", h.w.outAmount(*q), what); EQI(t[i], "size", q->blob.size(), what); uint64_t f = i ? h.w.fee(*q, b->height) : 0; EQI(t[i], "fee", f, what); fees += f; }
    EQI(x, "totalFeeAmount", fees, what); EQS(x, "alreadyGeneratedCoins", std::to_string(s.coins[b->height]), what); EQI(x, "alreadyGeneratedTransactions", s.genTx[b->height], what);
    size_t cum = b->coinbase->blob.size(); for (auto& q : b->txs) cum += q->blob.size(); EQI(x, "transactionsCumulativeSize", cum, what); EQI(x, "blockSize", b->blob.size() + cum - b->coinbase->blob.size(), what);
  }
  void shortInfo(const JsonValue& x, const BlockP& b, const char* cnt, const char* size, bool difficulty, const char* what) { EQI(x, "height", b->height, what); EQS(x, "hash", hx(b->id), what); EQI(x, "timestamp", b->b.timestamp, what); VF_CHECK(I(x, cnt) == (int64_t)b->txs.size() + 1, "R02/tx_count", "%s: %lld transactions instead of %zu", what, (long long)I(x, cnt), b->txs.size() + 1); if (difficulty) EQI(x, "difficulty", diff(b->height), what); if (size) { size_t z = b->blob.size(); for (auto& q : b->txs) z += q->blob.size(); VF_CHECK(I(x, size) == (int64_t)z, "R02/size", "%s: size %lld instead of %zu", what, (long long)I(x, size), z); } }
  std::vector<uint32_t> indexes(const TxP& t) {
    std::vector<uint32_t> v(t->outs.size(), ~0u); std::set<uint64_t> am; for (auto& o : t->outs) am.insert(o.amount);
    for (auto a : am) { auto k = s.keyOuts.find(a); if (k != s.keyOuts.end()) for (size_t i = 0; i < k->second.size(); i++) if (k->second[i].tx->id == t->id) v[k->second[i].out] = (uint32_t)i; auto m = s.msigOuts.find(a); if (m != s.msigOuts.end()) for (size_t i = 0; i < m->second.size(); i++) if (m->second[i].tx->id == t->id) v[m->second[i].out] = (uint32_t)i; }
    return v;
  }
  TxP anyTx() { BlockP b = s.chain[g.draw(N)]; size_t k = g.draw(b->txs.size() + 1); return k ? b->txs[k - 1] : b->coinbase; }
  std::vector<Hash> pool() { std::vector<Hash> v; for (auto& t : h.n->c->getPoolTransactions()) v.push_back(getObjectHash(t)); return v; }
  Hash stranger() { Hash x; Rng q(g.u64()); q.fill(&x, 32); return x; }
  std::vector<Hash> history() { std::vector<Hash> v; uint32_t i = (uint32_t)g.draw(N); if (g.chance(1, 4)) { v.push_back(stranger()); if (!h.alts.empty() && g.flip()) v.push_back(h.alts.begin()->second->id); } uint32_t step = 1; while (i > 0) { v.push_back(s.chain[i]->id); if (v.size() > 3) step *= 2; i = i > step ? i - step : 0; } v.push_back(s.chain[0]->id); return v; }
  uint32_t start(const std::vector<Hash>& v) { for (auto& x : v) for (uint32_t i = 0; i < N; i++) if (s.chain[i]->id == x) return i; return ~0u; }
  void one() {
    JsonValue v; std::string hsh; uint32_t hh;
    size_t what = g.draw(20); g.note("question %zu", what); if (getenv("CW_Q")) fprintf(stderr, "question %zu\n", what); switch (what) {
      case 0: VF_CHECK(r.call("getblockcount", "[]", v), "R02/getblockcount", "refused"); EQI(v, "count", N, "getblockcount"); break;
      case 1: { hh = anyHeight(); bool ok = r.call(g.flip() ? "getblockhash" : "on_getblockhash", strf("[%u]", hh), v); VF_CHECK(ok == (hh < N), "R02/getblockhash", "height %u of %u: %s", hh, N, ok ? "answered" : "refused"); if (ok) VF_CHECK(v.isString() && v.getString() == hx(s.chain[hh]->id), "R02/getblockhash", "wrong hash at height %u", hh); break; }
      case 2: VF_CHECK(r.call("getlastblockheader", "{}", v), "R02/last", "refused"); header(v("block_header"), h.main, false, "getlastblockheader"); break;
      case 3: { hh = anyHeight(); bool ok = r.call("getblockheaderbyheight", strf("{\"height\":%u}", hh), v); VF_CHECK(ok == (hh < N), "R02/header", "getblockheaderbyheight %u of %u: %s", hh, N, ok ? "answered" : "refused"); if (ok) header(v("block_header"), s.chain[hh], false, "getblockheaderbyheight"); break; }
      case 4: {
        int k = (int)g.draw(3); BlockP b; Hash x; if (k == 0 || (k == 1 && h.alts.empty())) { b = s.chain[g.draw(N)]; x = b->id; k = 0; } else if (k == 1) { auto it = h.alts.begin(); std::advance(it, g.draw(h.alts.size())); b = it->second; x = b->id; } else x = stranger();
        bool det = g.flip(); bool ok = r.call(det ? "f_block_json" : "getblockheaderbyhash", strf("{\"hash\":\"%s\"}", hx(x).c_str()), v); if (k == 2) VF_CHECK(!ok, "R02/stranger", "an unknown block is described"); else if (k == 0) { VF_CHECK(ok, "R02/byhash", "a block of the chain is not found by its hash"); if (det) details(v("block"), b, "f_block_json"); else header(v("block_header"), b, false, "getblockheaderbyhash"); } else if (ok && !det) { header(v("block_header"), b, true, "getblockheaderbyhash"); g.label("alternative block described"); } break; }
      case 5: { hh = anyHeight(); bool ok = r.call("getblocktimestamp", strf("{\"height\":%u}", hh), v); VF_CHECK(ok == (hh < N), "R02/timestamp", "getblocktimestamp %u of %u: %s", hh, N, ok ? "answered" : "refused"); if (ok) EQI(v, "timestamp", s.chain[hh]->b.timestamp, "getblocktimestamp"); break; }
      case 6: { hh = anyHeight(); bool ok = r.call("getblockbyheight", strf("{\"height\":%u,\"blockHeight\":%u}", hh, hh), v); VF_CHECK(ok == (hh < N), "R02/details", "getblockbyheight %u of %u: %s", hh, N, ok ? "answered" : "refused"); if (ok) details(v("block"), s.chain[hh], "getblockbyheight"); break; }
      case 7: {
        VF_CHECK(r.call("getaltblockslist", "{}", v), "R02/alts", "refused"); std::set<std::string> a, b; for (auto& x : h.alts) b.insert(hx(x.second->id)); auto& l = v("alt_blocks").getArray(); for (size_t i = 0; i < l.size(); i++) { a.insert(S(l[i], "hash")); for (auto& x : h.alts) if (hx(x.second->id) == S(l[i], "hash")) shortInfo(l[i], x.second, "transactions_count", nullptr, false, "getaltblockslist"); }
        VF_CHECK(a == b && l.size() == a.size(), "R02/alts", "%zu alternative blocks instead of %zu", l.size(), b.size()); if (!a.empty()) g.label("alternative blocks listed"); break; }
      case 8: {
        bool range = g.flip(), miner = g.flip(); std::vector<uint32_t> hs; uint32_t a = 0, b = 0; std::string p; if (range) { a = g.chance(1, 6) ? N + (uint32_t)g.draw(5) : (uint32_t)g.draw(N); b = a + (uint32_t)g.draw(8); p = strf("%u,%u", a, b); for (uint32_t i = a; i < std::min(b, N); i++) hs.push_back(i); } else { size_t n = g.size(5); for (size_t i = 0; i < n; i++) { hs.push_back(anyHeight()); p += strf("%s%u", i ? "," : "", hs.back()); } }
        bool good = range ? a < N || b == a : true; if (!range) for (auto x : hs) good &= x < N; bool dontcare = range && a >= N;
        std::string body = strf("{\"heights\":[%s],\"include_miner_txs\":%s,\"range\":%s}", p.c_str(), miner ? "true" : "false", range ? "true" : "false"); bool ok = r.call("getrawtransactionsbyheights", body, v); if (dontcare) { if (ok) VF_CHECK(!v.contains("transactions") || v("transactions").size() == 0, "R02/raw", "transactions above the chain's top"); break; } VF_CHECK(ok == good, "R02/raw", "heights %s of %u%s: %s", p.c_str(), N, range ? " (range)" : "", ok ? "answered" : "refused"); if (!ok) break;
        std::vector<std::pair<TxP, BlockP>> want; for (auto x : hs) { if (miner) want.push_back({s.chain[x]->coinbase, s.chain[x]}); for (auto& t : s.chain[x]->txs) want.push_back({t, s.chain[x]}); } auto& l = v("transactions").getArray(); VF_CHECK(l.size() == want.size(), "R02/raw", "%zu transactions instead of %zu", l.size(), want.size());
        for (size_t i = 0; i < l.size(); i++) { EQS(l[i], "hash", hx(want[i].first->id), "getrawtransactionsbyheights"); EQS(l[i], "block_hash", hx(want[i].second->id), "getrawtransactionsbyheights"); EQI(l[i], "height", want[i].second->height, "getrawtransactionsbyheights"); EQI(l[i], "timestamp", want[i].second->b.timestamp, "getrawtransactionsbyheights"); auto idx = indexes(want[i].first); auto& o = l[i]("output_indexes").getArray(); VF_CHECK(o.size() == idx.size(), "R02/indexes", "%zu output indexes instead of %zu", o.size(), idx.size()); for (size_t q = 0; q < o.size(); q++) VF_CHECK(o[q].getInteger() == (int64_t)idx[q], "R02/indexes", "output %zu of a transaction has global index %lld instead of %u", q, (long long)o[q].getInteger(), idx[q]); }
        break; }
      case 9: { hh = anyHeight(); bool ok = r.call("f_blocks_list_json", strf("{\"height\":%u}", hh), v); VF_CHECK(ok == (hh < N), "R02/list", "f_blocks_list_json %u of %u: %s", hh, N, ok ? "answered" : "refused"); if (!ok) break; auto& l = v("blocks").getArray(); size_t n = std::min<size_t>(31, hh + 1); VF_CHECK(l.size() == n, "R02/list", "%zu blocks instead of %zu", l.size(), n); for (size_t i = 0; i < n; i++) shortInfo(l[i], s.chain[hh - i], "tx_count", "cumul_size", true, "f_blocks_list_json"); break; }
      case 10: {
        int k = (int)g.draw(3); Hash x; TxP t; auto pl = pool(); if (k == 0) { t = anyTx(); x = t->id; } else if (k == 1 && !pl.empty()) x = pl[g.draw(pl.size())]; else { k = 2; x = stranger(); }
        bool ok = r.call("f_transaction_json", strf("{\"hash\":\"%s\"}", hx(x).c_str()), v); VF_CHECK(k == 1 || ok == (k == 0), "R02/transaction", "a transaction %s is %s", k == 0 ? "of the chain" : "nobody knows", ok ? "described" : "not found"); if (!ok) break; EQS(v("txDetails"), "hash", hx(x), "f_transaction_json");
        if (k == 0) { auto p = s.txs.find(key(x))->second; shortInfo(v("block"), s.chain[p.first], "tx_count", "cumul_size", true, "f_transaction_json"); EQI(v("txDetails"), "amount_out", h.w.outAmount(*t), "f_transaction_json"); EQI(v("txDetails"), "size", t->blob.size(), "f_transaction_json"); if (!t->coinbase) EQI(v("txDetails"), "fee", h.w.fee(*t, p.first), "f_transaction_json"); size_t ring = 0; for (auto& i : t->kin) ring = std::max(ring, i.idx.size()); EQI(v("txDetails"), "mixin", ring, "f_transaction_json"); }
        break; }
      case 11: {
        std::string p; std::vector<std::string> want, miss; size_t n = g.size(5); std::set<std::string> seen; for (size_t i = 0; i < n; i++) { Hash x; if (g.chance(1, 4)) { x = stranger(); miss.push_back(hx(x)); } else { TxP t = anyTx(); x = t->id; if (!seen.insert(hx(x)).second) continue; want.push_back(hex(t->blob.data(), t->blob.size())); } p += strf("%s\"%s\"", p.empty() ? "" : ",", hx(x).c_str()); }
        VF_CHECK(r.js("/gettransactions", "{\"txs_hashes\":[" + p + "]}", v), "R02/gettransactions", "no answer"); EQS(v, "status", "OK", "/gettransactions"); std::vector<std::string> a, b; if (v.contains("txs_as_hex")) for (size_t i = 0; i < v("txs_as_hex").size(); i++) a.push_back(v("txs_as_hex")[i].getString()); if (v.contains("missed_tx")) for (size_t i = 0; i < v("missed_tx").size(); i++) b.push_back(v("missed_tx")[i].getString()); VF_CHECK(a == want && b == miss, "R02/gettransactions", "%zu found and %zu missed instead of %zu and %zu, or others", a.size(), b.size(), want.size(), miss.size()); break; }
      case 12: { COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::request q; COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES::response a; bool known = g.chance(3, 4); TxP t; if (known) { t = anyTx(); q.txid = t->id; } else q.txid = stranger(); VF_CHECK(r.bin<COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES>("/get_o_indexes.bin", q, a), "R02/indexes", "no answer"); VF_CHECK((a.status == "OK") == known, "R02/indexes", "status %s for %s transaction", a.status.c_str(), known ? "a" : "an unknown"); if (known) { auto idx = indexes(t); VF_CHECK(std::equal(idx.begin(), idx.end(), a.o_indexes.begin(), a.o_indexes.end()), "R02/indexes", "/get_o_indexes.bin gives other indexes"); } break; }
      case 13: {
        COMMAND_RPC_GET_BLOCKS_FAST::request q; COMMAND_RPC_GET_BLOCKS_FAST::response a; q.block_ids = history(); VF_CHECK(r.bin<COMMAND_RPC_GET_BLOCKS_FAST>("/getblocks.bin", q, a) && a.status == "OK", "R02/getblocks", "no answer"); uint32_t f = start(q.block_ids); VF_CHECK(a.current_height == N && a.start_height == f && a.blocks.size() == N - f, "R02/getblocks", "%zu blocks from %llu of %llu instead of %u from %u of %u", a.blocks.size(), (unsigned long long)a.start_height, (unsigned long long)a.current_height, N - f, f, N);
        for (uint32_t i = f; i < N; i++) { auto& e = a.blocks[i - f]; VF_CHECK(common::asBinaryArray(e.block) == s.chain[i]->blob && e.txs.size() == s.chain[i]->txs.size(), "R02/getblocks", "block %u is another", i); for (size_t k = 0; k < e.txs.size(); k++) VF_CHECK(common::asBinaryArray(e.txs[k]) == s.chain[i]->txs[k]->blob, "R02/getblocks", "transaction %zu of block %u is another", k, i); } break; }
      case 14: {
        COMMAND_RPC_QUERY_BLOCKS_LITE::request q; COMMAND_RPC_QUERY_BLOCKS_LITE::response a; q.blockIds = history(); q.timestamp = g.oneof<uint64_t>({0, 0, s.chain[g.draw(N)]->b.timestamp, ~0ull}); bool ok = r.bin<COMMAND_RPC_QUERY_BLOCKS_LITE>("/queryblockslite.bin", q, a); VF_CHECK(ok && a.status == "OK", "R02/lite", "no answer"); uint32_t f = start(q.blockIds); VF_CHECK(a.startHeight == f && a.currentHeight == N && a.fullOffset >= f && a.fullOffset <= N, "R02/lite", "from %llu of %llu instead of %u of %u (full from %llu)", (unsigned long long)a.startHeight, (unsigned long long)a.currentHeight, f, N, (unsigned long long)a.fullOffset); VF_CHECK(a.items.size() == N - f, "R02/lite", "%zu items instead of %u", a.items.size(), N - f);
        for (size_t i = 0; i < a.items.size(); i++) { auto& b = s.chain[f + i]; auto& e = a.items[i]; VF_CHECK(e.blockId == b->id, "R02/lite", "item %zu is another block", i); bool full = f + i >= a.fullOffset && b->b.timestamp >= q.timestamp; if (full) { VF_CHECK(common::asBinaryArray(e.block) == b->blob, "R02/lite", "block %zu is another (%zu bytes of %zu)", f + i, e.block.size(), b->blob.size()); VF_CHECK(e.txPrefixes.size() == b->txs.size(), "R02/lite", "%zu transactions instead of %zu", e.txPrefixes.size(), b->txs.size()); for (size_t k = 0; k < b->txs.size(); k++) VF_CHECK(e.txPrefixes[k].txHash == b->txs[k]->id && e.txPrefixes[k].txPrefix.outputs.size() == b->txs[k]->outs.size(), "R02/lite", "another transaction"); } else VF_CHECK(e.block.empty() && e.txPrefixes.empty(), "R02/lite", "an old block is sent whole"); if (!full) VF_CHECK(b->b.timestamp < q.timestamp, "R02/lite", "a block as young as the given time is not sent whole"); }
        break; }
      case 15: {
        bool lite = g.flip(); auto pl = pool(); std::vector<Hash> known; std::set<std::string> del, add; for (auto& x : pl) { auto it = h.w.allTx.find(key(x)); bool ready = it != h.w.allTx.end() && h.w.txBad(s, *it->second).empty(); if (!ready) g.label("pool transaction that is not ready"); if (g.flip()) { known.push_back(x); if (!ready) del.insert(hx(x)); } else if (ready) add.insert(hx(x)); } size_t n = g.size(3); for (size_t i = 0; i < n; i++) { Hash x = g.flip() ? stranger() : anyTx()->id; known.push_back(x); del.insert(hx(x)); } bool tail = g.chance(3, 4); Hash t = tail ? h.main->id : s.chain[g.draw(N - 1)]->id; std::set<std::string> a, d; bool actual = false; if (N < 2) break;
        if (lite) { COMMAND_RPC_GET_POOL_CHANGES_LITE::request q; COMMAND_RPC_GET_POOL_CHANGES_LITE::response x; q.tailBlockId = t; q.knownTxsIds = known; VF_CHECK(r.bin<COMMAND_RPC_GET_POOL_CHANGES_LITE>("/get_pool_changes_lite.bin", q, x) && x.status == "OK", "R02/pool", "no answer"); actual = x.isTailBlockActual; for (auto& e : x.addedTxs) a.insert(hx(e.txHash)); for (auto& e : x.deletedTxsIds) d.insert(hx(e)); }
        else { COMMAND_RPC_GET_POOL_CHANGES::request q; COMMAND_RPC_GET_POOL_CHANGES::response x; q.tailBlockId = t; q.knownTxsIds = known; VF_CHECK(r.rpc.onGetPoolChanges(q, x) && x.status == "OK", "R02/pool", "no answer"); actual = x.isTailBlockActual; for (auto& e : x.addedTxs) { Transaction tx; VF_CHECK(fromBinaryArray(tx, e), "R02/pool", "not a transaction"); a.insert(hx(getObjectHash(tx))); } for (auto& e : x.deletedTxsIds) d.insert(hx(e)); }
        VF_CHECK(actual == tail, "R02/pool", "the caller's top block is %s", actual ? "called current" : "not called current"); VF_CHECK(a == add && d == del, "R02/pool", "pool changes: %zu added and %zu gone instead of %zu and %zu", a.size(), d.size(), add.size(), del.size()); if (!pl.empty()) g.label("pool changes"); break; }
      case 16: { VF_CHECK(r.js("/getheight", "{}", v), "R02/height", "no answer"); EQI(v, "height", N, "/getheight"); break; }
      case 17: { VF_CHECK(r.js("/getinfo", "{}", v), "R02/info", "no answer"); EQI(v, "height", N, "/getinfo"); EQS(v, "top_block_hash", hx(h.main->id), "/getinfo"); EQI(v, "tx_count", s.txs.size() - N, "/getinfo"); EQI(v, "tx_pool_size", pool().size(), "/getinfo"); EQI(v, "alt_blocks_count", h.alts.size(), "/getinfo"); EQI(v, "difficulty", h.w.difficulty(s), "/getinfo"); EQI(v, "last_block_reward", reward(h.main), "/getinfo"); EQI(v, "last_block_timestamp", h.main->b.timestamp, "/getinfo"); EQI(v, "last_block_difficulty", diff(N - 1), "/getinfo"); EQI(v, "full_deposit_amount", s.depAmount[N - 1], "/getinfo"); EQI(v, "block_major_version", h.main->b.majorVersion, "/getinfo"); break; }
      case 18: {
        COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request q; COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response a; size_t n = 1 + g.draw(3); for (size_t i = 0; i < n && !s.keyOuts.empty(); i++) { auto it = s.keyOuts.begin(); std::advance(it, g.draw(s.keyOuts.size())); q.amounts.push_back(it->first); } q.outs_count = g.draw(6); VF_CHECK(r.bin<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS>("/getrandom_outs.bin", q, a), "R02/random", "no answer"); if (a.status != "OK") break; VF_CHECK(a.outs.size() == q.amounts.size(), "R02/random", "%zu amounts instead of %zu", a.outs.size(), q.amounts.size());
        for (size_t i = 0; i < a.outs.size(); i++) { auto it = s.keyOuts.find(a.outs[i].amount); VF_CHECK(it != s.keyOuts.end() && a.outs[i].amount == q.amounts[i], "R02/random", "an amount that was not asked for"); VF_CHECK(a.outs[i].outs.size() <= q.outs_count, "R02/random", "more outputs than asked for"); std::set<uint64_t> seen; for (auto& o : a.outs[i].outs) { VF_CHECK(o.global_amount_index < it->second.size() && seen.insert(o.global_amount_index).second, "R02/random", "an output twice or out of range"); auto& rf = it->second[o.global_amount_index]; VF_CHECK(boost::get<KeyOutput>(rf.tx->tx.outputs[rf.out].target).key == o.out_key, "R02/random", "output %llu of amount %llu has another key", (unsigned long long)o.global_amount_index, (unsigned long long)it->first); VF_CHECK(h.w.unlockedAt(s, rf.tx->tx.unlockTime), "R02/random", "a locked output"); } if (!seen.empty()) g.label("random outputs"); } break; }
      default: {
        bool raw = g.flip(); if (raw) VF_CHECK(r.call("getrawtransactionspool", "{}", v), "R02/pool", "refused"); else VF_CHECK(r.call("f_on_transactions_pool_json", "{}", v), "R02/pool", "refused"); std::multiset<std::string> a, b; for (auto& x : pool()) b.insert(hx(x)); if (v.contains("transactions")) for (size_t i = 0; i < v("transactions").size(); i++) a.insert(S(v("transactions")[i], "hash")); VF_CHECK(a == b, "R02/pool", "the pool listing has %zu transactions instead of %zu", a.size(), b.size()); break; }
    }
  }
};
}
VF_PROP("R02.answers", 350, 12000, "a daemon with a generated history of blocks, forks, reorganizations and pool transactions is asked through its RPC interface at generated moments; every answer is compared with a linear scan of the chain; non-trivial: a reorganization or alternative block or pool transaction existed and at least ten questions were asked") {
  HistCfg hc; hc.trunk = 13; Hist h(g, Hist::pickCfg(g), hc); h.trunk("R02"); bool mixed = false;
  { Rpc r(h); size_t k = 0; while (g.more(k, 10)) { k++; h.n->c->set_cryptonote_protocol(nullptr); h.step("R02"); h.n->c->set_cryptonote_protocol(&r.proto); size_t q = g.size(12); Checker c(r); for (size_t i = 0; i < q; i++) c.one(); mixed |= h.reorgs || !h.alts.empty() || !c.pool().empty(); }
    Checker c(r); for (size_t i = 0; i < 12; i++) c.one(); g.label("calls", r.calls); g.note("%zu calls, %zu refused", r.calls, r.errors); if (mixed && r.calls >= 10) g.nontrivial(); }
}

namespace {
std::string jsonId(Gen& g) { switch (g.draw(7)) { case 0: return strf("%lld", (long long)g.draw(1000000)); case 1: return "\"abc\""; case 2: return "null"; case 3: return "-5"; case 4: return "\"\""; case 5: return "1.5"; default: return "\"" + std::string(g.draw(20), 'x') + "\""; } }
std::string jsonAny(Gen& g, int d) { switch (g.draw(d > 2 ? 5 : 7)) { case 0: return strf("%lld", (long long)g.draw(100)); case 1: return "\"s\""; case 2: return "null"; case 3: return "true"; case 4: return "-1"; case 5: { std::string s; size_t n = g.size(3); for (size_t i = 0; i < n; i++) s += (i ? "," : "") + jsonAny(g, d + 1); return "[" + s + "]"; } default: { std::string s; size_t n = g.size(3); const char* k[] = {"height", "hash", "heights", "range", "reserve_size", "wallet_address", "tx_id"}; for (size_t i = 0; i < n; i++) s += strf("%s\"%s\":", i ? "," : "", k[(g.draw(7) + i) % 7]) + jsonAny(g, d + 1); return "{" + s + "}"; } } }
struct Pay : JsonRpcServer { int mode = 0; size_t handled = 0; Pay(platform_system::Dispatcher& d, platform_system::Event& e, logging::ILogger& l) : JsonRpcServer(d, e, l) {}
  void processJsonRpcRequest(const JsonValue& q, JsonValue& r) override {   // as the payment service does
    try { prepareJsonResponse(q, r); if (!q.contains("method") || !q("method").isString()) { makeGenericErrorReponse(r, "Invalid Request", -3600); return; } std::string m = q("method").getString(); handled++; if (m == "fail") makeErrorResponse(make_error_code(std::errc::invalid_argument), r); else if (m == "echo") { JsonValue v(JsonValue::OBJECT); v.insert("p", q.contains("params") ? q("params") : JsonValue(JsonValue::NIL)); fillJsonResponse(v, r); } else if (m == "throw") throw std::runtime_error("x"); else makeMethodNotFoundResponse(r); } catch (std::exception& e) { makeGenericErrorReponse(r, e.what()); }
  } };
}
VF_PROP("R01.jsonrpc", 4000, 200000, "JSON-RPC bodies with ids of every kind, known and unknown methods, good, bad and missing parameters, missing or wrong members and broken JSON, sent to the daemon's and the payment service's servers; non-trivial: the request is well formed") {
  static std::unique_ptr<Gen> sg; static std::unique_ptr<Hist> h; static std::unique_ptr<Rpc> r; static std::unique_ptr<Pay> pay;
  if (!h) { sg.reset(new Gen()); sg->reseed(7); Cfg c; h.reset(new Hist(*sg, c)); h->trunk("R01"); r.reset(new Rpc(*h)); static logging::LoggerGroup lg; static platform_system::Event ev(disp()); pay.reset(new Pay(disp(), ev, lg)); }
  bool daemon = g.flip(); std::string id, method, body; bool hasId = g.chance(4, 5), hasMethod = !g.chance(1, 8), strMethod = !g.chance(1, 8), hasParams = g.chance(4, 5), object = true, json = true; if (hasId) id = jsonId(g);
  static const char* dm[] = {"getblockcount", "getblockhash", "getblockheaderbyheight", "getblockheaderbyhash", "getlastblockheader", "getcurrencyid", "f_blocks_list_json", "f_block_json", "f_transaction_json", "getrawtransactionsbyheights", "getaltblockslist", "getblocktemplate", "submitblock", "check_tx_proof", "check_reserve_proof", "getblocktimestamp", "getblockbyheight", "f_on_transactions_pool_json", "nosuchmethod", ""}; static const char* pm[] = {"echo", "fail", "throw", "nosuchmethod", ""};
  method = daemon ? dm[g.draw(20)] : pm[g.draw(5)]; std::string params = g.flip() ? std::string(g.oneof<std::string>({"{}", "[1]", "{\"height\":3}", "{\"height\":99999}", "{\"hash\":\"00\"}", "{\"heights\":[1,4],\"range\":true}"})) : jsonAny(g, 0);
  std::vector<std::string> mem; if (hasId) mem.push_back("\"id\":" + id); if (hasMethod) mem.push_back("\"method\":" + (strMethod ? "\"" + method + "\"" : std::string("5"))); if (hasParams) mem.push_back("\"params\":" + params); if (g.flip()) mem.push_back("\"jsonrpc\":\"2.0\""); for (size_t i = 1; i < mem.size(); i++) std::swap(mem[i], mem[g.draw(i + 1)]);
  for (auto& m : mem) body += (body.empty() ? "" : ",") + m; body = "{" + body + "}"; if (g.chance(1, 12)) { body = g.oneof<std::string>({"[]", "5", "\"x\"", "null", "[1,2]"}); object = false; } else if (g.chance(1, 10) && body.size() > 2) { body = body.substr(0, body.size() - 1 - g.draw(body.size() / 2)); json = false; }
  HttpRequest q; HttpResponse a; q.setUrl("/json_rpc"); q.setBody(body); g.note("%s", body.c_str()); if (daemon) r->rpc.processRequest(q, a); else pay->processRequest(q, a); g.evals++;
  VF_CHECK(a.getStatus() == HttpResponse::STATUS_200, "R01/json-status", "a JSON-RPC request is answered with HTTP status %d", (int)a.getStatus()); JsonValue v; try { v = JsonValue::fromString(a.getBody()); } catch (std::exception&) { VF_CHECK(false, "R01/json", "the answer is not JSON: %s", a.getBody().substr(0, 200).c_str()); }
  VF_CHECK(v.isObject(), "R01/json", "the answer is not an object"); bool res = v.contains("result"), err = v.contains("error"); VF_CHECK(res != err, "R01/either", "the answer has %s a result and an error", res ? "both" : "neither"); if (err) VF_CHECK(v("error").isObject() && v("error").contains("code") && v("error")("code").isInteger() && v("error").contains("message"), "R01/error", "an error without code or message");
  if (!json || !object) { VF_CHECK(err, "R01/broken", "a broken request got a result"); return; }
  VF_CHECK(v.contains("id") == hasId, "R01/id", "the request %s an id, the answer %s", hasId ? "has" : "has no", v.contains("id") ? "has" : "has not"); if (hasId) VF_CHECK(v("id").toString() == JsonValue::fromString(id).toString(), "R01/id", "id %s came back as %s", id.c_str(), v("id").toString().c_str());
  VF_CHECK(v.contains("jsonrpc") && v("jsonrpc").isString() && v("jsonrpc").getString() == "2.0", "R01/version", "no version"); if (!hasMethod || !strMethod || method == "nosuchmethod" || method.empty()) VF_CHECK(err, "R01/method", "a request without a known method got a result");
  if (!daemon && hasMethod && strMethod && method == "echo") { VF_CHECK(res, "R01/echo", "a good request got an error"); std::string want = hasParams ? JsonValue::fromString(params).toString() : "null"; VF_CHECK(v("result")("p").toString() == want, "R01/echo", "the parameters came back changed"); }
  if (daemon && hasMethod && strMethod && (method == "getlastblockheader" || method == "getaltblockslist") && hasParams && params[0] == '{') VF_CHECK(res, "R01/result", "%s got an error: %s", method.c_str(), v.toString().substr(0, 200).c_str());
  g.nontrivial(); g.label(res ? "result" : "error");
}
