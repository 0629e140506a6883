// The node interface over the core of a history, with failures and events at chosen queries; used by the wallet harnesses.
#pragma once
#include "vf.h"
#include "vf_env.h"
#include "chainhist.h"
#include "INode.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
namespace cw {
using namespace cn;
enum Kind { BLOCKS, POOL, INDICES };
// The node interface over the core, with failures and events at chosen queries.
struct MNode : INode {
  Hist& h; mutable std::recursive_mutex m; std::vector<INodeObserver*> obs; std::map<size_t, std::error_code> fail; std::map<size_t, std::function<void()>> at; size_t q = 0, failed = 0, batchFailed = 0; uint32_t end = 0; std::exception_ptr err; std::function<std::error_code(const Transaction&)> relay;
  MNode(Hist& h_) : h(h_) {}
  bool next(Kind k, const Callback& cb) {   // counts a query; true when it was failed
    size_t i = q++; auto a = at.find(i); if (a != at.end() && !err) { auto f = a->second; at.erase(a); try { f(); } catch (...) { err = std::current_exception(); } }
    auto f = fail.find(i); if (f == fail.end()) return false; failed++; if (k == INDICES) batchFailed++; cb(f->second); return true;
  }
  bool addObserver(INodeObserver* o) override { std::lock_guard<std::recursive_mutex> l(m); obs.push_back(o); return true; }
  bool removeObserver(INodeObserver* o) override { std::lock_guard<std::recursive_mutex> l(m); obs.erase(std::remove(obs.begin(), obs.end(), o), obs.end()); return true; }
  void init(const Callback& cb) override { cb({}); } bool shutdown() override { return true; } size_t getPeerCount() const override { return 1; }
  uint32_t top() const { std::lock_guard<std::recursive_mutex> l(m); return h.n->height() - 1; }
  uint32_t getLastLocalBlockHeight() const override { return top(); } uint32_t getLastKnownBlockHeight() const override { return top(); } uint32_t getLocalBlockCount() const override { return top() + 1; } uint32_t getKnownBlockCount() const override { return top() + 1; } uint64_t getLastLocalBlockTimestamp() const override { return 0; }
  void queryBlocks(std::vector<crypto::Hash>&& known, uint64_t ts, std::vector<BlockShortEntry>& out, uint32_t& start, const Callback& cb) override {
    std::lock_guard<std::recursive_mutex> l(m); batchFailed = 0; if (next(BLOCKS, cb)) return; uint32_t cur, full; std::vector<BlockShortInfo> e; if (!h.n->c->queryBlocksLite(known, ts, start, cur, full, e)) { cb(std::make_error_code(std::errc::io_error)); return; }
    for (auto& x : e) { BlockShortEntry b; b.blockHash = x.blockId; b.hasBlock = !x.block.empty(); if (b.hasBlock && !fromBinaryArray(b.block, common::asBinaryArray(x.block))) { cb(std::make_error_code(std::errc::invalid_argument)); return; } for (auto& t : x.txPrefixes) { TransactionShortInfo s; s.txId = t.txHash; s.txPrefix = t.txPrefix; b.txsShortInfo.push_back(s); } out.push_back(b); }
    end = start + (uint32_t)out.size(); cb({});
  }
  void getPoolSymmetricDifference(std::vector<crypto::Hash>&& known, crypto::Hash tail, bool& actual, std::vector<std::unique_ptr<ITransactionReader>>& add, std::vector<crypto::Hash>& del, const Callback& cb) override {
    std::lock_guard<std::recursive_mutex> l(m); if (next(POOL, cb)) return; std::vector<TransactionPrefixInfo> a; actual = h.n->c->getPoolChangesLite(tail, known, a, del); for (auto& t : a) add.push_back(createTransactionPrefix(t.txPrefix, t.txHash)); cb({});
  }
  void getTransactionOutsGlobalIndices(const crypto::Hash& id, std::vector<uint32_t>& v, const Callback& cb) override {
    std::lock_guard<std::recursive_mutex> l(m); if (next(INDICES, cb)) return; bool ok = false; try { ok = h.n->c->get_tx_outputs_gindexs(id, v); } catch (std::exception&) {} if (!ok) batchFailed++; cb(ok ? std::error_code() : std::make_error_code(std::errc::invalid_argument));
  }
  void relayTransaction(const Transaction& t, const Callback& cb) override { cb(relay ? relay(t) : std::error_code()); }
  void getRandomOutsByAmounts(std::vector<uint64_t>&& a, uint64_t n, std::vector<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount>& out, const Callback& cb) override {
    std::lock_guard<std::recursive_mutex> l(m); COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::request q; COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::response r; q.amounts = a; q.outs_count = n; bool ok = h.n->c->get_random_outs_for_amounts(q, r); if (ok) out = std::move(r.outs); cb(ok ? std::error_code() : std::make_error_code(std::errc::io_error));
  }
  void getNewBlocks(std::vector<crypto::Hash>&&, std::vector<block_complete_entry>&, uint32_t&, const Callback& cb) override { cb({}); }
  void getMultisignatureOutputByGlobalIndex(uint64_t, uint32_t, MultisignatureOutput&, const Callback& cb) override { cb({}); }
  void getTransaction(const crypto::Hash&, Transaction&, const Callback& cb) override { cb({}); }
  void getBlocks(const std::vector<uint32_t>&, std::vector<std::vector<BlockDetails>>&, const Callback& cb) override { cb({}); }
  void getBlocks(const std::vector<crypto::Hash>&, std::vector<BlockDetails>&, const Callback& cb) override { cb({}); }
  void getBlocks(uint64_t, uint64_t, uint32_t, std::vector<BlockDetails>&, uint32_t&, const Callback& cb) override { cb({}); }
  void getTransactions(const std::vector<crypto::Hash>&, std::vector<TransactionDetails>&, const Callback& cb) override { cb({}); }
  void getTransactionsByPaymentId(const crypto::Hash&, std::vector<TransactionDetails>&, const Callback& cb) override { cb({}); }
  void getPoolTransactions(uint64_t, uint64_t, uint32_t, std::vector<TransactionDetails>&, uint64_t&, const Callback& cb) override { cb({}); }
  void isSynchronized(bool& s, const Callback& cb) override { s = true; cb({}); }
};
}
