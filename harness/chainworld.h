// A small world around cn::core: accounts, transaction/block builders with full control over every field, an independent
// model of chain state (linear scan), and a canonical dump of everything a node can be asked about its ledger.
#pragma once
#include "vf.h"
#include "vf_env.h"
#include "refmodel.h"
#include <memory>
#include <unordered_map>
#include <CryptoNoteCore/Account.h>
#include <CryptoNoteCore/Core.h>
#include <CryptoNoteCore/CoreConfig.h>
#include <CryptoNoteCore/MinerConfig.h>
#include <CryptoNoteCore/Currency.h>
#include <CryptoNoteCore/CryptoNoteFormatUtils.h>
#include <CryptoNoteCore/CryptoNoteTools.h>
#include <CryptoNoteCore/CryptoNoteBasicImpl.h>
#include <CryptoNoteCore/TransactionExtra.h>
#include <CryptoNoteCore/VerificationContext.h>
#include <CryptoNoteCore/Checkpoints.h>
#include <CryptoNoteCore/TransactionPool.h>
#include <Logging/LoggerGroup.h>
#include <Common/StringTools.h>

namespace crypto { inline bool operator<(const KeyImage& a, const KeyImage& b) { return memcmp(&a, &b, 32) < 0; } }
namespace cw {
using crypto::Hash; using crypto::PublicKey; using crypto::SecretKey; using crypto::KeyImage;

std::string hx(const Hash& h);
inline std::string sh(const Hash& h) { return hx(h).substr(0, 8); }
uint32_t powNonce(uint8_t major, uint64_t w);
std::string key(const Hash& h);                       // raw bytes as map key

struct Cfg {
  uint32_t v2 = 1, v3 = 2, v6 = 3, v7 = 4, v8 = 100000;
  size_t unlock = 10, tsWindow = 12;
  uint32_t depMin = 2, depMaxV1 = 64, depMinV3 = 3, depMaxV3 = 36, depH3 = 0, depH4 = 0;
  uint64_t poolLive = 3600, altLive = 7200;
  size_t zone = 100000, maxInit = 100000, growNum = 100 * 1024, growDen = 365 * 24 * 60 * 60 / 120, txMax = 0, reserved = 0;
  size_t rewardWindow = 100;
  uint64_t t0 = 1650000000;
  uint32_t spacing = 120;
  uint64_t depMinAmount = 1000000;
};
std::unique_ptr<cn::Currency> makeCurrency(const Cfg& c, logging::ILogger& log);

struct Acc { cn::AccountKeys k; std::string addr; };

struct OutInfo { uint64_t amount = 0; bool msig = false; uint32_t term = 0, req = 0; std::vector<int> owners; std::vector<PublicKey> keys; };
struct KeyInExp { uint64_t amount; std::vector<uint32_t> idx; std::vector<PublicKey> keys; KeyImage ki; };
struct MsigInExp { uint64_t amount; uint32_t idx, term, sigs; Hash srcTx; uint32_t srcOut; };
struct Tx {
  cn::Transaction tx; cn::BinaryArray blob; Hash id;
  bool coinbase = false;
  PublicKey txPub;
  std::vector<OutInfo> outs;
  std::vector<KeyInExp> kin; std::vector<MsigInExp> min;
  bool hasPid = false; Hash pid; uint64_t ttl = 0;
  void finish();               // recompute blob and id from tx
};
typedef std::shared_ptr<Tx> TxP;

struct Ref { TxP tx; uint32_t out; uint32_t height; };
struct MRef { TxP tx; uint32_t out; uint32_t height; bool used; };
struct Block;
typedef std::shared_ptr<Block> BlockP;
// Ledger after a block, by linear scan.
struct State {
  std::vector<BlockP> chain;                                // index = height
  std::map<uint64_t, std::vector<Ref>> keyOuts;
  std::map<uint64_t, std::vector<MRef>> msigOuts;
  std::map<KeyImage, uint32_t> spent;
  std::map<std::string, std::pair<uint32_t, TxP>> txs;      // every transaction incl. coinbase
  std::map<std::string, std::vector<Hash>> byPid;
  std::vector<uint64_t> cumDiff, coins, sizes, over; std::vector<int64_t> depAmount; std::vector<uint64_t> depInterest, genTx;
  uint32_t height() const { return (uint32_t)chain.size(); }  // height of the next block
};
typedef std::shared_ptr<State> StateP;
struct Block {
  cn::Block b; cn::BinaryArray blob; Hash id; uint32_t height = 0;
  BlockP prev; std::vector<TxP> txs; TxP coinbase; uint64_t over = 0;   // coinbase beyond the reward (0..10 allowed)
  std::string bad;                                          // why this block must be refused by itself ("" = valid)
  StateP state;                                             // after this block (as if valid)
  uint64_t work = 1;                                        // cumulative work of the chain ending here
  uint64_t cum() const { return work; }
};

struct Bvc { bool ret, added, failed, orphan, exists, switched; std::string str() const; };
struct Tvc { bool ret, failed, impossible, relay, added, fee; std::string str() const; };

struct World;
struct Node {
  World& w; std::string dir; std::unique_ptr<cn::core> c;
  explicit Node(World& w, const std::string& dir, bool fresh = true, cn::Checkpoints* cp = nullptr);
  ~Node();
  bool initOk = false;
  Bvc block(const cn::BinaryArray& blob);
  Bvc block(const BlockP& b) { return block(b->blob); }
  Tvc tx(const cn::BinaryArray& blob, bool kept);
  Tvc tx(const TxP& t, bool kept) { return tx(t->blob, kept); }
  Bvc feed(const BlockP& b);                                // its transactions as kept-by-block, then the block
  void close(bool save);                                    // deinit (saves) or plain drop
  bool open(cn::Checkpoints* cp = nullptr);                 // reopen same dir
  Hash top(); uint32_t height();
};

struct BlockOpt { int64_t dt = 0; bool setTs = false; uint64_t ts = 0; int miner = 0; int64_t rewardDelta = 0; std::string nonceExtra; size_t maxOuts = 10; size_t dust = 0; bool big = false; };

struct World {
  vf::Gen& g; Cfg cfg; logging::LoggerGroup log; std::unique_ptr<cn::Currency> cur;
  std::vector<Acc> acc;
  std::map<std::string, BlockP> blocks; BlockP genesis;
  std::map<std::string, TxP> allTx;                          // universe of transactions built
  std::vector<KeyImage> allKi; std::set<uint64_t> amounts; std::vector<Hash> pids;
  uint64_t uniq = 0; int nodeNo = 0; bool legacyTerms = false;
  World(vf::Gen& g, const Cfg& cfg, int accounts = 3);
  std::string newDir();
  P rp;                                                      // the rules, restated
  uint64_t interest(uint64_t amount, uint32_t term, uint32_t spendHeight) const;
  bool reward(uint64_t median, uint64_t size, uint64_t coins, uint64_t fees, uint32_t h, uint64_t& reward, int64_t& emission) const;
  uint64_t sizeLimit(uint32_t h) const { return cfg.maxInit + (uint64_t)h * cfg.growNum / cfg.growDen; }
  // ---- model helpers
  uint8_t version(uint32_t height) const;
  uint64_t difficulty(const State& s) const;                 // for the block after s
  uint64_t medianSize(const State& s) const;
  bool unlockedAt(const State& s, uint64_t unlock) const;
  std::string txBad(const State& s, const Tx& t) const;      // "" when its inputs/outputs are valid on s (by expectation), else why
  uint64_t inAmount(const Tx& t, uint32_t height) const; uint64_t outAmount(const Tx& t) const;
  uint64_t fee(const Tx& t, uint32_t height) const;
  void apply(State& s, const TxP& t) const;
  StateP after(const StateP& p, const BlockP& b) const;
  // ---- builders
  struct Spend { Ref ref; uint64_t amount; uint32_t gidx; int owner; };
  struct Dep { MRef ref; uint64_t amount; uint32_t gidx; };
  std::vector<Spend> spendable(const State& s, int owner = -1) const;   // unlocked, unspent key outputs
  std::vector<Dep> deposits(const State& s, bool matureOnly) const;     // unspent multisignature outputs
  KeyImage keyImageOf(const Ref& r) const;
  struct OutSpec { uint64_t amount; int to; bool msig = false; uint32_t term = 0, req = 1; std::vector<int> owners; };
  struct TxSpec {
    std::vector<Spend> in; std::vector<Dep> deps; std::vector<OutSpec> outs;
    size_t ring = 1; uint64_t unlock = 0; bool pid = false; Hash pidv; uint64_t ttl = 0; std::string extra;
    int version = 0; bool badSig = false; int dupKi = 0;
    std::function<void(cn::Transaction&)> tweak;             // before signing
    std::function<void(cn::Transaction&)> after;             // after signing
  };
  TxP build(const State& s, const TxSpec& spec);
  std::vector<OutSpec> split(uint64_t amount, int to, size_t maxOuts, vf::Rng& r) const;
  TxP randomTransfer(const State& s, const std::set<KeyImage>& avoid, uint64_t feeWanted);  // null when nothing can be spent
  TxP randomDeposit(const State& s, const std::set<KeyImage>& avoid, uint64_t feeWanted);
  TxP randomWithdraw(const State& s, const std::set<std::pair<uint64_t, uint32_t>>& avoid);
  BlockP build(const BlockP& parent, const std::vector<TxP>& txs, const BlockOpt& o = BlockOpt());
  BlockP finish(const BlockP& parent, const cn::Block& b, const std::vector<TxP>& txs, bool withState);
  TxP wrapCoinbase(const cn::Transaction& t, int miner) const;
  BlockP grow(BlockP tip, size_t n);                         // n empty blocks (miner alternates)
  uint64_t minFee(uint32_t height) const { return height > cfg.v8 ? 1000 : 10; }
  std::vector<uint32_t> terms() const;
};

struct DumpOpt { bool pool = false; bool explorer = true; };
typedef std::vector<std::string> Dump;
Dump dump(World& w, Node& n, const DumpOpt& o = DumpOpt());            // what the node says
Dump modelDump(World& w, const State& s, const DumpOpt& o = DumpOpt()); // what a linear scan says
std::string diff(const Dump& a, const Dump& b, const char* an, const char* bn);  // "" when equal
Dump poolDump(Node& n);

extern std::vector<std::string> dnsRecords;   // what the (wrapped) DNS lookup returns
}  // namespace cw
