From a850066014058f9144d1652e000b1175c3ce5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 01/56] fix: find transactions by payment id when they are only
 in the chain or only in the pool

---
 src/CryptoNoteCore/Core.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 99c3eb6..f2f7170 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -1019,12 +1019,12 @@ bool core::getPoolTransactionsByTimestamp(uint64_t timestampBegin, uint64_t time
 
 bool core::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<Transaction>& transactions) {
   std::vector<crypto::Hash> blockchainTransactionHashes;
-  if (!m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes)) {
-    return false;
-  }
+  bool foundInBlockchain = m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes);
 
   std::vector<crypto::Hash> poolTransactionHashes;
-  if (!m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+  bool foundInPool = m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes);
+
+  if (!foundInBlockchain && !foundInPool) {
     return false;
   }
 
-- 
2.43.0


From 70e9111e6d6351e7132178bd826547b41aa0ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:32 +0000
Subject: [PATCH 02/56] fix: a rollback also removes the deposits of the
 removed blocks and refreshes the block size limit

---
 src/CryptoNoteCore/Blockchain.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..2cab02d 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3258,7 +3258,9 @@ namespace cn
           return false;
         }
       }
-      
+
+      update_next_comulative_size_limit();
+
       logger(INFO, BRIGHT_GREEN) << "Blockchain successfully rolled back to height: " << height << "Synchronization will resume";
       return true;
     }
@@ -3284,10 +3286,17 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
     assert(m_blockIndex.size() == m_blocks.size());
+
+    m_upgradeDetectorV2.blockPopped();
+    m_upgradeDetectorV3.blockPopped();
+    m_upgradeDetectorV4.blockPopped();
+    m_upgradeDetectorV7.blockPopped();
+    m_upgradeDetectorV8.blockPopped();
     return true;
   }
 
-- 
2.43.0


From 7fd0819772a9350e4e1eca2a5428d64acba6c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 03/56] fix: undo a refused block's transactions when checking
 one of them throws

---
 src/CryptoNoteCore/Blockchain.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 2cab02d..5cf638e 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2731,10 +2731,19 @@ namespace cn
         logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " can't contain transaction " << tx_id << " because it has invalid version " << transactions[i].version;
       }
 
-      if (!checkTransactionInputs(transactions[i]))
+      try
+      {
+        if (!checkTransactionInputs(transactions[i]))
+        {
+          isTransactionValid = false;
+          logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has at least one transaction with wrong inputs: " << tx_id;
+        }
+      }
+      catch (const std::exception&)
       {
+        // e.g. an input referring to an output created by this very block, which is not in m_blocks yet
         isTransactionValid = false;
-        logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has at least one transaction with wrong inputs: " << tx_id;
+        logger(INFO, BRIGHT_WHITE) << "Block " << blockHash << " has at least one transaction whose inputs can't be checked: " << tx_id;
       }
 
       if (!check_tx_outputs(transactions[i], block.height))
-- 
2.43.0


From aa6e142a362ee2248fe0ab90ec6bb2fceac4d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 04/56] fix: keep the interest of a block whose deposits and
 withdrawals cancel out

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From f88b7cc3ba5e768b84a3237aea82a613d7e23f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 05/56] fix: undo the transactions of a block refused for its
 size

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 5cf638e..8fe8fde 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2773,6 +2773,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 1f47f865060e50d39651fdd29f4992dd5e7c5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 06/56] fix: decide about the replaced blocks before switching
 chains, so a switch cannot end half way

---
 src/CryptoNoteCore/Blockchain.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 8fe8fde..9529d61 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1212,6 +1212,29 @@ namespace cn
         }
       }
 
+      /* Decide what happens to the blocks of the current chain before touching it: a block that contradicts a
+         checkpoint can be neither kept as an alternative nor restored, so that chain is discarded. */
+      for (size_t i = split_height; i < m_blocks.size(); i++)
+      {
+        if (!m_checkpoints.check_block(static_cast<uint32_t>(i), get_block_hash(m_blocks[i].bl)))
+        {
+          discard_disconnected_chain = true;
+        }
+      }
+
+      if (!discard_disconnected_chain)
+      {
+        const auto newSize = static_cast<uint32_t>(split_height + alt_chain.size());
+        for (size_t i = split_height; i < m_blocks.size(); i++)
+        {
+          if (!m_checkpoints.is_alternative_block_allowed(newSize, static_cast<uint32_t>(i)))
+          {
+            logger(ERROR, BRIGHT_RED) << "Attempting to switch to an alternate chain, but block " << i << " of the main chain is too deep to be replaced, rejected";
+            return false;
+          }
+        }
+      }
+
       //disconnecting old chain
       std::list<Block> disconnected_chain;
       for (size_t i = m_blocks.size() - 1; i >= split_height; i--)
-- 
2.43.0


From b9ca2f57d21b981fa135b80a9de0efb691c1c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 07/56] fix: do not offer pool transactions for mining whose
 outputs were spent or locked again since they were checked

---
 src/CryptoNoteCore/Blockchain.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 9529d61..ac7f090 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -413,10 +413,16 @@ namespace cn
         return false;
       }
 
-      if (getBlockIdByHeight(maxUsedBlock.height) != maxUsedBlock.id)
+      /* A multisignature output can be consumed, replaced or become immature
+         again while the block at maxUsedBlock stays, so always recheck it. */
+      const bool hasMultisignatureInput = std::any_of(tx.inputs.begin(), tx.inputs.end(), [](const TransactionInput &in) {
+        return in.type() == typeid(MultisignatureInput);
+      });
+
+      if (hasMultisignatureInput || getBlockIdByHeight(maxUsedBlock.height) != maxUsedBlock.id)
       {
         //if we already failed on this height and id, skip actual ring signature check
-        if (lastFailed.id == getBlockIdByHeight(lastFailed.height))
+        if (!hasMultisignatureInput && lastFailed.id == getBlockIdByHeight(lastFailed.height))
         {
           return false;
         }
@@ -2344,7 +2350,8 @@ namespace cn
       std::vector<const crypto::PublicKey *> &m_results_collector;
       Blockchain &m_bch;
       LoggerRef logger;
-      outputs_visitor(std::vector<const crypto::PublicKey *> &results_collector, Blockchain &bch, ILogger &logger) : m_results_collector(results_collector), m_bch(bch), logger(logger, "outputs_visitor")
+      uint32_t m_lastUnlockBlock; // the outputs are spendable while the chain reaches this block
+      outputs_visitor(std::vector<const crypto::PublicKey *> &results_collector, Blockchain &bch, ILogger &logger) : m_results_collector(results_collector), m_bch(bch), logger(logger, "outputs_visitor"), m_lastUnlockBlock(0)
       {
       }
 
@@ -2363,6 +2370,12 @@ namespace cn
           return false;
         }
 
+        const uint64_t allowedDelta = m_bch.m_currency.lockedTxAllowedDeltaBlocks();
+        if (tx.unlockTime < m_bch.m_currency.maxBlockHeight() && tx.unlockTime > allowedDelta)
+        {
+          m_lastUnlockBlock = std::max(m_lastUnlockBlock, static_cast<uint32_t>(tx.unlockTime - allowedDelta));
+        }
+
         m_results_collector.push_back(&boost::get<KeyOutput>(out.target).key);
         return true;
       }
@@ -2377,6 +2390,11 @@ namespace cn
       return false;
     }
 
+    if (pmax_related_block_height && *pmax_related_block_height < vi.m_lastUnlockBlock)
+    {
+      *pmax_related_block_height = vi.m_lastUnlockBlock;
+    }
+
     if (txin.outputIndexes.size() != output_keys.size())
     {
       logger(INFO, BRIGHT_WHITE) << "Output keys for tx with amount = " << txin.amount << " and count indexes " << txin.outputIndexes.size() << " returned wrong keys count " << output_keys.size();
-- 
2.43.0


From d5609c56f77a67ff9cefba2665d4617026149798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 08/56] fix: return the blocks of a range whose end does not
 fit in 32 bits

---
 src/CryptoNoteCore/Blockchain.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index ac7f090..0fb5429 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1845,7 +1845,8 @@ namespace cn
       return false;
     }
 
-    for (size_t i = start_offset; i < start_offset + count && i < m_blocks.size(); i++)
+    const uint64_t end = std::min<uint64_t>(static_cast<uint64_t>(start_offset) + count, m_blocks.size());
+    for (uint64_t i = start_offset; i < end; i++)
     {
       blocks.push_back(m_blocks[i].bl);
       std::list<crypto::Hash> missed_ids;
@@ -1868,7 +1869,8 @@ namespace cn
       return false;
     }
 
-    for (uint32_t i = start_offset; i < start_offset + count && i < m_blocks.size(); i++)
+    const uint64_t end = std::min<uint64_t>(static_cast<uint64_t>(start_offset) + count, m_blocks.size());
+    for (uint64_t i = start_offset; i < end; i++)
     {
       blocks.push_back(m_blocks[i].bl);
     }
-- 
2.43.0


From 717038f7b6e60703ae00f80168141b848d3558aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 09/56] fix: refuse difficulty and timestamp of a height beyond
 the last block

---
 src/CryptoNoteCore/Core.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index f2f7170..fe4d22e 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -941,13 +941,18 @@ bool core::scanOutputkeysForIndices(const KeyInput& txInToKey, std::list<std::pa
 }
 
 bool core::getBlockDifficulty(uint32_t height, difficulty_type& difficulty) {
+  if (height >= get_current_blockchain_height())
+  {
+    return false;
+  }
+
   difficulty = m_blockchain.blockDifficulty(height);
   return true;
 }
 
 bool core::getBlockTimestamp(uint32_t height, uint64_t &timestamp)
 {
-  if (height > get_current_blockchain_height())
+  if (height >= get_current_blockchain_height())
   {
     return false;
   }
-- 
2.43.0


From 363e391aaf8d9dd40d1a622489da81935f5a4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 10/56] fix: index the payment id of a pool transaction (it was
 read after being moved away)

---
 src/CryptoNoteCore/TransactionPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..8d5cb9e 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,15 +257,15 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
-      m_timestampIndex.add(txd.receiveTime, txd.id);
+      m_paymentIdIndex.add(txd_p.first->tx);
+      m_timestampIndex.add(txd_p.first->receiveTime, txd_p.first->id);
 
       if (ttl.ttl != 0)
       {
         m_ttlIndex.emplace(std::make_pair(id, ttl.ttl));
       }
 
-      logger(DEBUGGING) << "Transaction " << txd.id << " added to pool";
+      logger(DEBUGGING) << "Transaction " << id << " added to pool";
     }
 
     if (height >= m_currency.upgradeHeight(BLOCK_MAJOR_VERSION_8))
-- 
2.43.0


From 1cae97e44533e504b9943235277dccc2a647960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 11/56] fix: do not add to a partly read deposit index and
 block index when the cache is read again or rebuilt

---
 src/CryptoNoteCore/Blockchain.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 0fb5429..1f2d29d 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -191,6 +191,12 @@ namespace cn
         {
           return;
         }
+
+        // an earlier file may have been read in part
+        m_bs.m_blockIndex.clear();
+        m_bs.m_outputs.clear();
+        m_bs.m_multisignatureOutputs.clear();
+        m_bs.m_depositIndex = DepositIndex();
       }
       else
       {
@@ -696,6 +702,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
-- 
2.43.0


From e4792c8bdbab050e2b7dcf92590ebcc4b713c36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:33 +0000
Subject: [PATCH 12/56] fix: do not trust a transaction map or spent key file
 that does not belong to the block cache

---
 src/CryptoNoteCore/Blockchain.cpp | 48 +++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 1f2d29d..f743c68 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -210,25 +210,27 @@ namespace cn
       logger(INFO) << operation << "transaction map";
       if (s.type() == ISerializer::INPUT)
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_load(ar_in);
+        if (!loadMap(m_bs.m_transactionMap, appendPath(m_bs.m_config_folder, "transactionsmap.dat")))
+        {
+          return;
+        }
       }
       else
       {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_dump(ar_out);
+        saveMap(m_bs.m_transactionMap, appendPath(m_bs.m_config_folder, "transactionsmap.dat"));
       }
 
       logger(INFO) << operation << "spent keys";
       if (s.type() == ISerializer::INPUT)
       {
-        phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_load(ar_in);
+        if (!loadMap(m_bs.m_spent_keys, appendPath(m_bs.m_config_folder, "spentkeys.dat")))
+        {
+          return;
+        }
       }
       else
       {
-        phmap::BinaryOutputArchive ar_out(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_dump(ar_out);
+        saveMap(m_bs.m_spent_keys, appendPath(m_bs.m_config_folder, "spentkeys.dat"));
       }
 
       logger(INFO) << operation << "outputs";
@@ -253,6 +255,36 @@ namespace cn
     }
 
   private:
+    /* The maps live in files of their own. Each ends with the hash of the last
+       block it describes, so a missing, incomplete or outdated file is noticed. */
+    template <class Map>
+    bool loadMap(Map &map, const std::string &filename)
+    {
+      std::ifstream file(filename, std::ios::binary);
+      crypto::Hash blockHash = crypto::Hash();
+      if (!file.seekg(-static_cast<std::streamoff>(sizeof(blockHash)), std::ios::end) ||
+          !file.read(reinterpret_cast<char *>(&blockHash), sizeof(blockHash)) || blockHash != m_lastBlockHash)
+      {
+        logger(WARNING) << filename << " does not belong to this block cache";
+        return false;
+      }
+
+      phmap::BinaryInputArchive archive(filename.c_str());
+      return map.phmap_load(archive);
+    }
+
+    template <class Map>
+    void saveMap(const Map &map, const std::string &filename)
+    {
+      {
+        phmap::BinaryOutputArchive archive(filename.c_str());
+        map.phmap_dump(archive);
+      }
+
+      std::ofstream file(filename, std::ios::binary | std::ios::app);
+      file.write(reinterpret_cast<const char *>(&m_lastBlockHash), sizeof(m_lastBlockHash));
+    }
+
     Blockchain &m_bs;
     crypto::Hash m_lastBlockHash;
     LoggerRef logger;
-- 
2.43.0


From 4c4392d1566dd96eff3628e1f5269be9fd6b05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 13/56] fix: order the writes of the block store so that a kill
 at any moment leaves it readable

---
 src/CryptoNoteCore/SwappedVector.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index 54356d4..cf5cbd2 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -316,6 +316,7 @@ template<class T> void SwappedVector<T>::clear() {
   m_indexesFile.seekp(0);
   uint64_t count = 0;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  m_indexesFile.flush();
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::clear");
   }
@@ -334,6 +335,7 @@ template<class T> void SwappedVector<T>::pop_back() {
   m_indexesFile.seekp(0);
   uint64_t count = m_offsets.size() - 1;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  m_indexesFile.flush(); // the index must forget an item before its place is used again
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::pop_back");
   }
@@ -362,6 +364,7 @@ template<class T> void SwappedVector<T>::push_back(const T& item) {
     serialize(const_cast<T&>(item), archive);
 
     itemsFileSize = m_itemsFile.tellp();
+    m_itemsFile.flush(); // an item must be in its file before the index counts it
   }
 
   {
-- 
2.43.0


From 6e599f2ccaa407a90086a7dc7e7f62d403c89a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 14/56] fix: do not write an error message nobody asked for
 when a version 1 transaction has a multisignature output

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From b599c10a74c859ea79a786e0eb62087c9dc25256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 15/56] fix: grow containers while reading them instead of
 trusting the announced size

A transaction of ten bytes announcing 2^27 inputs made the reader allocate
many gigabytes before it noticed that the input had ended.
---
 .../CryptoNoteSerialization.cpp               |  8 +++++++-
 src/Serialization/SerializationOverloads.h    | 19 +++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index d54df16..8027a8a 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -129,9 +129,15 @@ bool serializeVarintVector(std::vector<uint32_t>& vector, cn::ISerializer& seria
     return false;
   }
 
-  vector.resize(size);
+  if (serializer.type() == cn::ISerializer::INPUT) {
+    vector.clear();
+  }
 
   for (size_t i = 0; i < size; ++i) {
+    if (serializer.type() == cn::ISerializer::INPUT) {
+      vector.emplace_back();
+    }
+
     serializer(vector[i], "");
   }
 
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index 205de35..d60b132 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -109,11 +109,22 @@ bool serializeContainer(Cont &value, common::StringView name, cn::ISerializer &s
     return false;
   }
 
-  value.resize(size);
-
-  for (auto &item : value)
+  if (serializer.type() == cn::ISerializer::INPUT)
   {
-    serializer(const_cast<typename Cont::value_type &>(item), "");
+    // the size is not to be trusted: let the elements that are really there make the container grow
+    value.clear();
+    for (size_t i = 0; i < size; ++i)
+    {
+      value.emplace_back();
+      serializer(value.back(), "");
+    }
+  }
+  else
+  {
+    for (auto &item : value)
+    {
+      serializer(const_cast<typename Cont::value_type &>(item), "");
+    }
   }
 
   serializer.endArray();
-- 
2.43.0


From 25962764a416308933944e6415328704472b65cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 16/56] fix: escape strings when writing JSON and unescape them
 when reading

Strings and member names with quotes, backslashes or control characters
were written verbatim, which produced text that no JSON reader, this one
included, could read back; escapes in received text were kept undecoded.
---
 src/Common/JsonValue.cpp | 115 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 109 insertions(+), 6 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 8edc857..ae4cd11 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -590,6 +590,34 @@ std::string JsonValue::toString() const {
   return stream.str();
 }
 
+namespace {
+
+void writeString(std::ostream& out, const std::string& value) {
+  static const char hexDigits[] = "0123456789abcdef";
+  out << '"';
+  for (char c : value) {
+    switch (c) {
+    case '"': out << "\\\""; break;
+    case '\\': out << "\\\\"; break;
+    case '\b': out << "\\b"; break;
+    case '\f': out << "\\f"; break;
+    case '\n': out << "\\n"; break;
+    case '\r': out << "\\r"; break;
+    case '\t': out << "\\t"; break;
+    default:
+      if (static_cast<unsigned char>(c) < 0x20) {
+        out << "\\u00" << hexDigits[c >> 4] << hexDigits[c & 15];
+      } else {
+        out << c;
+      }
+    }
+  }
+
+  out << '"';
+}
+
+}
+
 std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
   switch (jsonValue.type) {
   case JsonValue::ARRAY: {
@@ -619,10 +647,13 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     out << '{';
     auto iter = object.begin();
     if (iter != object.end()) {
-      out << '"' << iter->first << "\":" << iter->second;
+      writeString(out, iter->first);
+      out << ':' << iter->second;
       ++iter;
       for (; iter != object.end(); ++iter) {
-        out << ",\"" << iter->first << "\":" << iter->second;
+        out << ',';
+        writeString(out, iter->first);
+        out << ':' << iter->second;
       }
     }
 
@@ -641,7 +672,7 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     break;
   }
   case JsonValue::STRING:
-    out << '"' << *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString) << '"';
+    writeString(out, *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString));
     break;
   }
 
@@ -670,6 +701,79 @@ char readNonWsChar(std::istream& in) {
   return c;
 }
 
+uint32_t readHex4(std::istream& in) {
+  uint32_t value = 0;
+  for (size_t i = 0; i < 4; ++i) {
+    char c = readChar(in);
+    value <<= 4;
+    if (c >= '0' && c <= '9') {
+      value |= c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      value |= c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      value |= c - 'A' + 10;
+    } else {
+      throw std::runtime_error("Unable to parse");
+    }
+  }
+
+  return value;
+}
+
+void appendUtf8(std::string& value, uint32_t code) {
+  if (code < 0x80) {
+    value += static_cast<char>(code);
+  } else if (code < 0x800) {
+    value += static_cast<char>(0xc0 | (code >> 6));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else if (code < 0x10000) {
+    value += static_cast<char>(0xe0 | (code >> 12));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else {
+    value += static_cast<char>(0xf0 | (code >> 18));
+    value += static_cast<char>(0x80 | ((code >> 12) & 0x3f));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  }
+}
+
+void readEscape(std::istream& in, std::string& value) {
+  char c = readChar(in);
+  switch (c) {
+  case '"':
+  case '\\':
+  case '/': value += c; break;
+  case 'b': value += '\b'; break;
+  case 'f': value += '\f'; break;
+  case 'n': value += '\n'; break;
+  case 'r': value += '\r'; break;
+  case 't': value += '\t'; break;
+  case 'u': {
+    uint32_t code = readHex4(in);
+    if (code >= 0xd800 && code < 0xdc00) {
+      if (readChar(in) != '\\' || readChar(in) != 'u') {
+        throw std::runtime_error("Unable to parse");
+      }
+
+      uint32_t low = readHex4(in);
+      if (low < 0xdc00 || low > 0xdfff) {
+        throw std::runtime_error("Unable to parse");
+      }
+
+      code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+    } else if (code >= 0xdc00 && code < 0xe000) {
+      throw std::runtime_error("Unable to parse");
+    }
+
+    appendUtf8(value, code);
+    break;
+  }
+  default:
+    throw std::runtime_error("Unable to parse");
+  }
+}
+
 std::string readStringToken(std::istream& in) {
   char c;
   std::string value;
@@ -682,11 +786,10 @@ std::string readStringToken(std::istream& in) {
     }
 
     if (c == '\\') {
+      readEscape(in, value);
+    } else {
       value += c;
-      c = readChar(in);
     }
-
-    value += c;
   }
 
   return value;
-- 
2.43.0


From 451573ed85ff54b83633564c8eef58452695891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 17/56] fix: bound the nesting of key-value and JSON documents
 while reading them

A short peer message or RPC request made of nested arrays overflowed the
stack and killed the node.
---
 src/Common/JsonValue.cpp                      | 31 +++++++++++++++
 .../KVBinaryInputStreamSerializer.cpp         | 39 ++++++++++++-------
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index ae4cd11..e35fbbe 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -691,6 +691,35 @@ char readChar(std::istream& in) {
   return c;
 }
 
+const long MAX_NESTING_DEPTH = 100;
+
+// Counts the arrays and objects being read from a stream, so that hostile input cannot exhaust the stack
+class NestingGuard {
+public:
+  explicit NestingGuard(std::istream& in) : stream(in) {
+    if (stream.iword(index()) >= MAX_NESTING_DEPTH) {
+      throw std::runtime_error("Unable to parse: nesting is too deep");
+    }
+
+    ++stream.iword(index());
+  }
+
+  ~NestingGuard() {
+    --stream.iword(index());
+  }
+
+  NestingGuard(const NestingGuard&) = delete;
+  NestingGuard& operator=(const NestingGuard&) = delete;
+
+private:
+  static int index() {
+    static const int value = std::ios_base::xalloc();
+    return value;
+  }
+
+  std::istream& stream;
+};
+
 char readNonWsChar(std::istream& in) {
   char c;
 
@@ -839,6 +868,7 @@ void JsonValue::destructValue() {
 }
 
 void JsonValue::readArray(std::istream& in) {
+  NestingGuard guard(in);
   JsonValue::Array value;
   char c = readNonWsChar(in);
 
@@ -986,6 +1016,7 @@ void JsonValue::readNumber(std::istream& in, char c) {
 }
 
 void JsonValue::readObject(std::istream& in) {
+  NestingGuard guard(in);
   char c = readNonWsChar(in);
   JsonValue::Object value;
 
diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index f39c903..84490a7 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -95,26 +95,34 @@ void readName(common::IInputStream& s, std::string& name) {
   }
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type);
-JsonValue loadSection(common::IInputStream& stream);
-JsonValue loadEntry(common::IInputStream& stream);
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType);
+const size_t MAX_NESTING_DEPTH = 100;
 
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth);
+JsonValue loadSection(common::IInputStream& stream, size_t depth);
+JsonValue loadEntry(common::IInputStream& stream, size_t depth);
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth);
 
-JsonValue loadSection(common::IInputStream& stream) {
+void checkDepth(size_t depth) {
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("nesting is too deep");
+  }
+}
+
+JsonValue loadSection(common::IInputStream& stream, size_t depth) {
+  checkDepth(depth);
   JsonValue sec(JsonValue::OBJECT);
   size_t count = readVarint(stream);
   std::string name;
 
   while (count--) {
     readName(stream, name);
-    sec.insert(name, loadEntry(stream));
+    sec.insert(name, loadEntry(stream, depth + 1));
   }
 
   return sec;
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth) {
   switch (type) {
   case BIN_KV_SERIALIZE_TYPE_INT64:  return readIntegerJson<int64_t>(stream);
   case BIN_KV_SERIALIZE_TYPE_INT32:  return readIntegerJson<int32_t>(stream);
@@ -127,30 +135,31 @@ JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
   case BIN_KV_SERIALIZE_TYPE_DOUBLE: return readPodJson<double>(stream);
   case BIN_KV_SERIALIZE_TYPE_BOOL:   return JsonValue(read<uint8_t>(stream) != 0);
   case BIN_KV_SERIALIZE_TYPE_STRING: return readStringJson(stream);
-  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream);
-  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type);
+  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream, depth);
+  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type, depth);
   default:
     throw std::runtime_error("Unknown data type");
   }
 }
 
-JsonValue loadEntry(common::IInputStream& stream) {
+JsonValue loadEntry(common::IInputStream& stream, size_t depth) {
   uint8_t type = readPod<uint8_t>(stream);
 
   if (type & BIN_KV_SERIALIZE_FLAG_ARRAY) {
     type &= ~BIN_KV_SERIALIZE_FLAG_ARRAY;
-    return loadArray(stream, type);
+    return loadArray(stream, type, depth);
   }
 
-  return loadValue(stream, type);
+  return loadValue(stream, type, depth);
 }
 
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType) {
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth) {
+  checkDepth(depth);
   JsonValue arr(JsonValue::ARRAY);
   size_t count = readVarint(stream);
 
   while (count--) {
-    arr.pushBack(loadValue(stream, itemType));
+    arr.pushBack(loadValue(stream, itemType, depth + 1));
   }
 
   return arr;
@@ -170,7 +179,7 @@ JsonValue parseBinary(common::IInputStream& stream) {
     throw std::runtime_error("Unknown binary storage format version");
   }
 
-  return loadSection(stream);
+  return loadSection(stream, 0);
 }
 
 }
-- 
2.43.0


From 5a99f160bbcd534a8424df14ad3e31da5761800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 18/56] fix: encode bytes above 127 as Base64 without reading
 outside the alphabet

---
 src/Common/Base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Base64.cpp b/src/Common/Base64.cpp
index 38d905f..c93f02a 100644
--- a/src/Common/Base64.cpp
+++ b/src/Common/Base64.cpp
@@ -28,9 +28,9 @@ namespace tools
       result.reserve(resultSize);
 
       for (size_t i = 0; i < data.size(); i += 3) {
-        size_t a = static_cast<size_t>(data[i]);
-        size_t b = i + 1 < data.size() ? static_cast<size_t>(data[i + 1]) : 0;
-        size_t c = i + 2 < data.size() ? static_cast<size_t>(data[i + 2]) : 0;
+        size_t a = static_cast<unsigned char>(data[i]);
+        size_t b = i + 1 < data.size() ? static_cast<unsigned char>(data[i + 1]) : 0;
+        size_t c = i + 2 < data.size() ? static_cast<unsigned char>(data[i + 2]) : 0;
 
         result.push_back(encodingTable[a >> 2]);
         result.push_back(encodingTable[((a & 0x3) << 4) | (b >> 4)]);
-- 
2.43.0


From f40b0258a3086054471b9db89aaa4e98e2d37b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 19/56] fix: use the lower case words of a mnemonic everywhere,
 not only to validate them

A word typed with an upper case letter passed the word list check but was
then looked up as typed, which gave an index past the list and another key.
---
 src/Mnemonics/Mnemonics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Mnemonics/Mnemonics.cpp b/src/Mnemonics/Mnemonics.cpp
index 6bd7b2e..64c681c 100644
--- a/src/Mnemonics/Mnemonics.cpp
+++ b/src/Mnemonics/Mnemonics.cpp
@@ -30,8 +30,9 @@ namespace mnemonics
 
     /* Note - if the returned string is not empty, it is an error message, and
        the returned secret key is not initialized. */
-    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &words)
+    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &mnemonicWords)
     {
+        std::vector<std::string> words = mnemonicWords;
         const size_t len = words.size();
 
         /* Mnemonics must be 25 words long */
@@ -45,7 +46,7 @@ namespace mnemonics
         }
 
         /* All words must be present in the word list */
-        for (auto word : words)
+        for (auto &word : words)
         {
             /* Convert to lower case */
             std::transform(word.begin(), word.end(), word.begin(), ::tolower);
-- 
2.43.0


From 8e50cd1dd6a16fbf266125930a30bc3195971706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 20/56] fix: refuse a short hexadecimal string for a fixed size
 JSON field

---
 src/Serialization/JsonInputValueSerializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 5f552bd..dc59317 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -144,7 +144,10 @@ bool JsonInputValueSerializer::binary(void* value, size_t size, common::StringVi
     return false;
   }
 
-  common::fromHex(ptr->getString(), value, size);
+  if (common::fromHex(ptr->getString(), value, size) != size) {
+    throw std::runtime_error("Binary block size mismatch");
+  }
+
   return true;
 }
 
-- 
2.43.0


From bb2162a72916efef5b07b6dfc90198d64cbfd7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 21/56] fix: refuse a checkpoint file with a height out of
 range instead of throwing

---
 src/CryptoNoteCore/Checkpoints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Checkpoints.cpp b/src/CryptoNoteCore/Checkpoints.cpp
index a75d6dc..3a1c71d 100644
--- a/src/CryptoNoteCore/Checkpoints.cpp
+++ b/src/CryptoNoteCore/Checkpoints.cpp
@@ -185,7 +185,7 @@ bool Checkpoints::load_checkpoints_from_file(const std::string& fileName) {
 	while (std::getline(file, indexString, ','), std::getline(file, hash)) {
 		try {
 			height = std::stoi(indexString);
-		} catch (const std::invalid_argument &)	{
+		} catch (const std::logic_error &)	{
 			logger(ERROR, BRIGHT_RED) << "Invalid checkpoint file format - "
 				<< "could not parse height as a number";
 			return false;
-- 
2.43.0


From abe1cad9d17ec059c54cbca5a0ac480f49dab861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 22/56] fix: read floating point fields of JSON and key-value
 messages

They were read as integers, which refuses every real number, so a message
with such a field could be written but never read.
---
 src/Serialization/JsonInputValueSerializer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index dc59317..15addef 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -113,7 +113,13 @@ bool JsonInputValueSerializer::operator()(uint64_t& value, common::StringView na
 }
 
 bool JsonInputValueSerializer::operator()(double& value, common::StringView name) {
-  return getNumber(name, value);
+  auto ptr = getValue(name);
+  if (ptr == nullptr) {
+    return false;
+  }
+
+  value = ptr->isInteger() ? static_cast<double>(ptr->getInteger()) : ptr->getReal();
+  return true;
 }
 
 bool JsonInputValueSerializer::operator()(uint8_t& value, common::StringView name) {
-- 
2.43.0


From 6b1e294beb4dd6f1525c1948720dbdec2d9abe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 23/56] fix: refuse a value of another kind where a nested
 object or array is expected

A key-value message with an array in place of a nested object, a handshake's
node data for example, made the reader use an index that did not exist and
crash.
---
 src/Serialization/JsonInputValueSerializer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 15addef..d45f0c8 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -46,12 +46,20 @@ bool JsonInputValueSerializer::beginObject(common::StringView name) {
 
   if (parent->isArray()) {
     const JsonValue& v = (*parent)[idxs.back()++];
+    if (!v.isObject()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
 
   if (parent->contains(std::string(name))) {
     const JsonValue& v = (*parent)(std::string(name));
+    if (!v.isObject()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
@@ -70,6 +78,10 @@ bool JsonInputValueSerializer::beginArray(size_t& size, common::StringView name)
 
   if (parent->contains(strName)) {
     const JsonValue& arr = (*parent)(strName);
+    if (!arr.isArray()) {
+      throw serializer_error("Array expected.");
+    }
+
     size = arr.size();
     chain.push_back(&arr);
     idxs.push_back(0);
-- 
2.43.0


From b5477b267d7a49ea9f711d580baa61696f40f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 24/56] fix: keep every signature in the JSON form of a
 transaction

All signatures were written as a member with an empty name, so that only one
of them was left.
---
 src/CryptoNoteCore/CryptoNoteSerialization.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index 8027a8a..fe67fc1 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -199,6 +199,11 @@ void serialize(TransactionPrefix& txP, ISerializer& serializer) {
   serializeAsBinary(txP.extra, "extra", serializer);
 }
 
+// the binary format ignores names, formats with named members need one per signature
+static std::string signatureName(size_t input, size_t index) {
+  return "signature_" + std::to_string(input) + "_" + std::to_string(index);
+}
+
 void serialize(Transaction& tx, ISerializer& serializer) {
   serialize(static_cast<TransactionPrefix&>(tx), serializer);
 
@@ -228,14 +233,14 @@ void serialize(Transaction& tx, ISerializer& serializer) {
         throw serialization_error("Unexpected signature size caused a serialization problem");
       }
 
-      for (crypto::Signature& sig : tx.signatures[i]) {
-        serializePod(sig, "", serializer);
+      for (size_t j = 0; j < signatureSize; ++j) {
+        serializePod(tx.signatures[i][j], signatureName(i, j), serializer);
       }
 
     } else {
       std::vector<crypto::Signature> signatures(signatureSize);
-      for (crypto::Signature& sig : signatures) {
-        serializePod(sig, "", serializer);
+      for (size_t j = 0; j < signatureSize; ++j) {
+        serializePod(signatures[j], signatureName(i, j), serializer);
       }
 
       tx.signatures[i] = std::move(signatures);
-- 
2.43.0


From fc8467547cad8aefd2747dff14127e38f90d5929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 25/56] fix: parse a real number at the end of JSON text

---
 src/Common/JsonValue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index e35fbbe..2e169cf 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -946,8 +946,9 @@ void JsonValue::readNumber(std::istream& in, char c) {
   std::string text;
   text += c;
   size_t dots = 0;
+  int i;
   for (;;) {
-    int i = in.peek();
+    i = in.peek();
     if (i >= '0' && i <= '9') {
       in.read(&c, 1);
       text += c;
@@ -965,8 +966,7 @@ void JsonValue::readNumber(std::istream& in, char c) {
       throw std::runtime_error("Unable to parse");
     }
 
-    int i = in.peek();
-    if (in.peek() == 'e') {
+    if (i == 'e') {
       in.read(&c, 1);
       text += c;
       i = in.peek();
-- 
2.43.0


From 9987085765b8da809756a8f7e3b57bc4e1b3584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:47 +0000
Subject: [PATCH 26/56] fix: a transaction key that is no curve point leads to
 no outputs

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 11 ++++++-----
 src/CryptoNoteCore/TransactionUtils.cpp      |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index bdf678b..d5e3b77 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -433,14 +433,13 @@ std::string short_hash_str(const Hash& h) {
 
 bool is_out_to_acc(const AccountKeys& acc, const KeyOutput& out_key, const KeyDerivation& derivation, size_t keyIndex) {
   PublicKey pk;
-  derive_public_key(derivation, keyIndex, acc.address.spendPublicKey, pk);
-  return pk == out_key.key;
+  return derive_public_key(derivation, keyIndex, acc.address.spendPublicKey, pk) && pk == out_key.key;
 }
 
 bool is_out_to_acc(const AccountKeys& acc, const KeyOutput& out_key, const PublicKey& tx_pub_key, size_t keyIndex) {
   KeyDerivation derivation;
-  generate_key_derivation(tx_pub_key, acc.viewSecretKey, derivation);
-  return is_out_to_acc(acc, out_key, derivation, keyIndex);
+  return generate_key_derivation(tx_pub_key, acc.viewSecretKey, derivation) &&
+         is_out_to_acc(acc, out_key, derivation, keyIndex);
 }
 
 bool lookup_acc_outs(const AccountKeys& acc, const Transaction& tx, std::vector<size_t>& outs, uint64_t& money_transfered) {
@@ -455,7 +454,9 @@ bool lookup_acc_outs(const AccountKeys& acc, const Transaction& tx, const Public
   size_t outputIndex = 0;
 
   KeyDerivation derivation;
-  generate_key_derivation(tx_pub_key, acc.viewSecretKey, derivation);
+  if (!generate_key_derivation(tx_pub_key, acc.viewSecretKey, derivation)) {
+    return false;
+  }
 
   for (const TransactionOutput& o : tx.outputs) {
     assert(o.target.type() == typeid(KeyOutput) || o.target.type() == typeid(MultisignatureOutput));
diff --git a/src/CryptoNoteCore/TransactionUtils.cpp b/src/CryptoNoteCore/TransactionUtils.cpp
index ae6f821..02032ef 100644
--- a/src/CryptoNoteCore/TransactionUtils.cpp
+++ b/src/CryptoNoteCore/TransactionUtils.cpp
@@ -109,8 +109,7 @@ const TransactionOutput& getOutputChecked(const cn::TransactionPrefix& transacti
 
 bool isOutToKey(const crypto::PublicKey& spendPublicKey, const crypto::PublicKey& outKey, const crypto::KeyDerivation& derivation, size_t keyIndex) {
   crypto::PublicKey pk;
-  derive_public_key(derivation, keyIndex, spendPublicKey, pk);
-  return pk == outKey;
+  return derive_public_key(derivation, keyIndex, spendPublicKey, pk) && pk == outKey;
 }
 
 bool findOutputsToAccount(const cn::TransactionPrefix& transaction, const AccountPublicAddress& addr,
@@ -126,7 +125,9 @@ bool findOutputsToAccount(const cn::TransactionPrefix& transaction, const Accoun
   uint32_t outputIndex = 0;
 
   crypto::KeyDerivation derivation;
-  generate_key_derivation(txPubKey, keys.viewSecretKey, derivation);
+  if (!generate_key_derivation(txPubKey, keys.viewSecretKey, derivation)) {
+    return false;
+  }
 
   for (const TransactionOutput& o : transaction.outputs) {
     assert(o.target.type() == typeid(KeyOutput) || o.target.type() == typeid(MultisignatureOutput));
-- 
2.43.0


From b0e6ae2a1e017f3aeda6dd1bb53028f91e4db20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 27/56] fix: a replaced item of a swapped vector is visible and
 on disk

---
 src/CryptoNoteCore/SwappedVector.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index cf5cbd2..2854914 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -107,7 +107,7 @@ public:
       return m_index - other.m_index;
     }
 
-    const_iterator& operator-(difference_type n) const {
+    const_iterator operator-(difference_type n) const {
       return const_iterator(m_swappedVector, m_index - n);
     }
 
@@ -400,11 +400,27 @@ template<class T> void SwappedVector<T>::replace(uint64_t index, const T& item)
     throw std::runtime_error("SwappedVector::replace");
   }
 
+  if (index >= m_offsets.size())
+  {
+    throw std::runtime_error("SwappedVector::replace");
+  }
+
   m_itemsFile.seekp(m_offsets[index]);
 
   common::StdOutputStream stream(m_itemsFile);
   cn::BinaryOutputStreamSerializer archive(stream);
   serialize(const_cast<T &>(item), archive);
+  m_itemsFile.flush();
+  if (!m_itemsFile)
+  {
+    throw std::runtime_error("SwappedVector::replace");
+  }
+
+  auto itemIter = m_items.find(index);
+  if (itemIter != m_items.end())
+  {
+    itemIter->second.item = item;
+  }
 }
 
 template<class T> T* SwappedVector<T>::prepare(uint64_t index) {
-- 
2.43.0


From 5f8b8cb7517be9accd84aaef5418522a5450b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 28/56] fix: erasing from and inserting twice into a swapped
 map

---
 src/CryptoNoteCore/SwappedMap.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/SwappedMap.h b/src/CryptoNoteCore/SwappedMap.h
index b46a6ec..7a6c59d 100644
--- a/src/CryptoNoteCore/SwappedMap.h
+++ b/src/CryptoNoteCore/SwappedMap.h
@@ -254,16 +254,21 @@ template<class Key, class T> void SwappedMap<Key, T>::erase(const_iterator itera
     throw std::runtime_error("SwappedMap::erase");
   }
 
-  m_descriptors.erase(descriptorsIterator);
   auto cacheIteratorsIterator = m_cacheIterators.find(descriptorsIterator->first);
   if (cacheIteratorsIterator != m_cacheIterators.end()) {
     m_items.erase(descriptorsIterator->first);
     m_cache.erase(cacheIteratorsIterator->second);
     m_cacheIterators.erase(cacheIteratorsIterator);
   }
+  m_descriptors.erase(descriptorsIterator);
 }
 
 template<class Key, class T> std::pair<typename SwappedMap<Key, T>::const_iterator, bool> SwappedMap<Key, T>::insert(const std::pair<const Key, T>& value) {
+  auto existing = m_descriptors.find(value.first);
+  if (existing != m_descriptors.end()) {
+    return std::make_pair(const_iterator(this, existing), false);
+  }
+
   uint64_t itemsFileSize;
 
   {
-- 
2.43.0


From fb7fe658a721f4e6b84fa9f62d91eaaddeb3211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 29/56] fix: appending a file mapped vector's own element

---
 src/Common/FileMappedVector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index ca4d433..1fff9d2 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -642,11 +642,13 @@ template<class T>
 void FileMappedVector<T>::push_back(const T& val) {
   assert(isOpened());
 
+  const T newElement = val; // val may be an element of this vector, and reserve() unmaps it
+
   if (capacity() == size()) {
     reserve(nextCapacity());
   }
 
-  vectorDataPtr()[size()] = val;
+  vectorDataPtr()[size()] = newElement;
   flushElement(size());
 
   ++(*sizePtr());
-- 
2.43.0


From 037b96e418ed60fd4085db8637aea7439b41417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 30/56] fix: refuse a file mapped vector whose capacity exceeds
 its file

---
 src/Common/FileMappedVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index 1fff9d2..7e7ec14 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -846,6 +846,10 @@ void FileMappedVector<T>::open(const std::string& path, uint64_t prefixSize) {
     throw std::runtime_error("FileMappedVector::open() vector size is greater than capacity");
   }
 
+  if (capacity() > (m_file.size() - prefixSize - metadataSize) / valueSize) {
+    throw std::runtime_error("FileMappedVector::open() invalid file size");
+  }
+
   auto minRequiredFileSize = m_prefixSize + metadataSize + vectorDataSize();
   if (m_file.size() < minRequiredFileSize) {
     throw std::runtime_error("FileMappedVector::open() invalid file size");
-- 
2.43.0


From 1b91cb2773a68a618235055d72ca124789c7fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 31/56] fix: a file that cannot be mapped leaves its object
 closed

---
 src/Platform/Linux/System/MemoryMappedFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Platform/Linux/System/MemoryMappedFile.cpp b/src/Platform/Linux/System/MemoryMappedFile.cpp
index eb66c73..c0cfc00 100644
--- a/src/Platform/Linux/System/MemoryMappedFile.cpp
+++ b/src/Platform/Linux/System/MemoryMappedFile.cpp
@@ -95,6 +95,7 @@ void MemoryMappedFile::create(const std::string& path, uint64_t size, bool overw
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
@@ -142,6 +143,7 @@ void MemoryMappedFile::open(const std::string& path, std::error_code& ec) {
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(m_size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
-- 
2.43.0


From 72be561c911cbe5a73fd0d3ac85b9683c318a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 32/56] fix: forget a pending lite block when the message with
 its transactions is ignored during synchronization

---
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 9c9ae7a..df883a5 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -345,7 +345,12 @@ int CryptoNoteProtocolHandler::handle_notify_new_transactions(int command, NOTIF
   logger(logging::TRACE) << context << "NOTIFY_NEW_TRANSACTIONS";
 
   if (context.m_state != CryptoNoteConnectionContext::state_normal)
+  {
+    // the answer to our request for missing transactions may be the message ignored here: the block will come with
+    // the synchronization, and no later message must be taken for that answer
+    context.m_pending_lite_block = boost::none;
     return 1;
+  }
 
   if (context.m_pending_lite_block)
   {
-- 
2.43.0


From 0d81af0a9592b6621796b11fe5d58a058552c4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 33/56] fix: judge an alternative block's difficulty by the
 rules of its own height, not of the main chain's top

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index f743c68..0623bec 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1391,7 +1391,7 @@ namespace cn
   {
     std::vector<uint64_t> timestamps;
     std::vector<difficulty_type> commulative_difficulties;
-    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(static_cast<uint32_t>(m_blocks.size()));
+    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(bei.height);
 
     if (alt_chain.size() < m_currency.difficultyBlocksCountByBlockVersion(BlockMajorVersion))
     {
@@ -1445,7 +1445,7 @@ namespace cn
       }
     }
 
-    uint64_t block_index = m_blocks.size();
+    uint64_t block_index = bei.height;
     uint8_t block_major_version = get_block_major_version_for_height(block_index + 1);
 
     if (block_major_version >= 8)
-- 
2.43.0


From b3c89ffb022e024589c8678c79fa42afda3d724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 34/56] fix: share at most the agreed number of peers, not two
 more

---
 src/P2p/PeerListManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2p/PeerListManager.cpp b/src/P2p/PeerListManager.cpp
index b23603d..919603c 100644
--- a/src/P2p/PeerListManager.cpp
+++ b/src/P2p/PeerListManager.cpp
@@ -161,9 +161,9 @@ bool PeerlistManager::get_peerlist_head(std::list<PeerlistEntry>& bs_head, uint3
   {
     if (!vl.last_seen)
       continue;
-    bs_head.push_back(vl);
-    if (cnt++ > depth)
+    if (cnt++ >= depth)
       break;
+    bs_head.push_back(vl);
   }
   return true;
 }
-- 
2.43.0


From 7aede82442f0c101806d19f7caa6c8eb007503ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 35/56] fix: refuse a peer address whose port is out of range

---
 src/Common/StringTools.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Common/StringTools.cpp b/src/Common/StringTools.cpp
index 3c49f38..7507e6f 100644
--- a/src/Common/StringTools.cpp
+++ b/src/Common/StringTools.cpp
@@ -317,6 +317,10 @@ bool parseIpAddressAndPort(uint32_t& ip, uint32_t& port, const std::string& addr
     }
   }
 
+  if (localPort > 0xffff) {
+    return false;
+  }
+
   ip = (v[3] << 24) | (v[2] << 16) | (v[1] << 8) | v[0];
   port = localPort;
   return true;
-- 
2.43.0


From 367df7696503cf8b80e66220849a328803164b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 36/56] fix: refuse a peer list whose times leave the range of
 the clock when adjusted

---
 src/P2p/NetNode.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/P2p/NetNode.cpp b/src/P2p/NetNode.cpp
index 35ec0eb..a6fdba5 100644
--- a/src/P2p/NetNode.cpp
+++ b/src/P2p/NetNode.cpp
@@ -1081,6 +1081,11 @@ namespace cn
         return false;
       }
       be.last_seen += delta;
+      if(be.last_seen > uint64_t(now))
+      {
+        logger(DEBUGGING) << "last_seen of peerlist entry " << be.adr << " is outside the time range, local_time(on remote node):" << local_time;
+        return false;
+      }
     }
     return true;
   }
-- 
2.43.0


From 50dd169875044ee5e5c301bf2dd349edc0848047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 37/56] fix: a message queue woken without a message waits on
 or ends, it does not read the empty queue

---
 src/CryptoNoteCore/MessageQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/MessageQueue.h b/src/CryptoNoteCore/MessageQueue.h
index 1be2bdb..86f6c09 100644
--- a/src/CryptoNoteCore/MessageQueue.h
+++ b/src/CryptoNoteCore/MessageQueue.h
@@ -60,7 +60,7 @@ MessageQueue<MessageType>::MessageQueue(platform_system::Dispatcher& dispatcher)
 
 template<class MessageType>
 void MessageQueue<MessageType>::wait() {
-  if (messageQueue.empty()) {
+  while (messageQueue.empty()) {
     if (stopped) {
       throw platform_system::InterruptedException();
     }
-- 
2.43.0


From 1acd4fba7a9c8c751141657d20e8040415228513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:59 +0000
Subject: [PATCH 38/56] fix: an interruption that meets a timer which has just
 expired stays due, it is not lost

---
 src/Platform/Linux/System/Timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Platform/Linux/System/Timer.cpp b/src/Platform/Linux/System/Timer.cpp
index 68243c6..630b123 100644
--- a/src/Platform/Linux/System/Timer.cpp
+++ b/src/Platform/Linux/System/Timer.cpp
@@ -110,6 +110,7 @@ void Timer::sleep(std::chrono::nanoseconds duration) {
             }
           } else {
             assert(value>0);
+            timerContext->context->interrupted = true;
             dispatcher->pushContext(timerContext->context);
           }
 
-- 
2.43.0


From 74b6db4976438d339262a4a2965eeb8de65649c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 39/56] fix: waiting for a group does not take the work from
 tasks that joined it meanwhile

---
 src/System/ContextGroup.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/System/ContextGroup.cpp b/src/System/ContextGroup.cpp
index 0154ea6..7a630d3 100644
--- a/src/System/ContextGroup.cpp
+++ b/src/System/ContextGroup.cpp
@@ -70,7 +70,7 @@ void ContextGroup::spawn(std::function<void()>&& procedure) {
 }
 
 void ContextGroup::wait() {
-  if (contextGroup.firstContext != nullptr) {
+  while (contextGroup.firstContext != nullptr) {
     NativeContext* context = dispatcher->getCurrentContext();
     context->next = nullptr;
     if (contextGroup.firstWaiter != nullptr) {
@@ -84,11 +84,6 @@ void ContextGroup::wait() {
     dispatcher->dispatch();
     assert(context == dispatcher->getCurrentContext());
   }
-  
-  for (NativeContext* context = contextGroup.firstContext; context != nullptr; context = context->groupNext) {
-    context->procedure = nullptr;
-    context->interruptProcedure = nullptr;
-  }
 }
 
 }
-- 
2.43.0


From af5208bdd02ed6f0007e81219b8afea7f5dcf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 40/56] fix: read an HTTP message without headers, and header
 values with a colon, as they were written

---
 src/HTTP/HttpParser.cpp | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/HTTP/HttpParser.cpp b/src/HTTP/HttpParser.cpp
index 50c7fe0..6cb52fd 100644
--- a/src/HTTP/HttpParser.cpp
+++ b/src/HTTP/HttpParser.cpp
@@ -102,7 +102,6 @@ void HttpParser::receiveResponse(std::istream& stream, HttpResponse& response) {
     value.clear();
   }
 
-  response.addHeader(name, value);
   auto headers = response.getHeaders();
   size_t length = 0;
   auto it = headers.find("content-length");
@@ -147,8 +146,6 @@ void HttpParser::readHeaders(std::istream& stream, HttpRequest::Headers& headers
     name.clear();
     value.clear();
   }
-
-  headers[name] = value; //use insert
 }
 
 bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string& value) {
@@ -156,30 +153,38 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
   bool isName = true;
 
   stream.get(c);
-  while (stream.good() && c != '\r') {
-    if (c == ':') {
-      if (stream.peek() == ' ') {
-        stream.get(c);
-      }
+  if (stream.good() && c == '\r') {
+    stream.get(c);
+    throwIfNotGood(stream);
+    if (c != '\n') {
+      throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::UNEXPECTED_SYMBOL));
+    }
+
+    return false; //no more headers
+  }
 
+  while (stream.good() && c != '\r') {
+    if (isName && c == ':') {
       if (name.empty()) {
         throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::EMPTY_HEADER));
       }
 
-      if (isName) {
-        isName = false;
+      isName = false;
+      stream.get(c);
+      if (stream.good() && c == ' ') {
         stream.get(c);
-        continue;
       }
+
+      continue;
     }
 
     if (isName) {
       name += c;
-      stream.get(c);
     } else {
       value += c;
-      stream.get(c);
     }
+
+    stream.get(c);
   }
 
   throwIfNotGood(stream);
@@ -191,16 +196,6 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
 
   std::transform(name.begin(), name.end(), name.begin(), ::tolower);
 
-  c = stream.peek();
-  if (c == '\r') {
-    stream.get(c).get(c);
-    if (c != '\n') {
-      throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::UNEXPECTED_SYMBOL));
-    }
-
-    return false; //no more headers
-  }
-
   return true;
 }
 
-- 
2.43.0


From 747f9b9bd628224fe08752e0ae5d02351883891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 41/56] fix: answer an invalid JSON-RPC request with its id

---
 src/Rpc/JsonRpc.h     | 11 ++++++++---
 src/Rpc/RpcServer.cpp |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Rpc/JsonRpc.h b/src/Rpc/JsonRpc.h
index c93b78f..1238fd8 100644
--- a/src/Rpc/JsonRpc.h
+++ b/src/Rpc/JsonRpc.h
@@ -75,16 +75,21 @@ public:
       throw JsonRpcError(errParseError);
     }
 
-    if (!psReq.contains("method")) {
+    if (!psReq.isObject()) {
       throw JsonRpcError(errInvalidRequest);
     }
 
-    method = psReq("method").getString();
-
+    // the id first: it belongs in the answer to an invalid request as well
     if (psReq.contains("id")) {
       id = psReq("id");
     }
 
+    if (!psReq.contains("method") || !psReq("method").isString()) {
+      throw JsonRpcError(errInvalidRequest);
+    }
+
+    method = psReq("method").getString();
+
     return true;
   }
 
diff --git a/src/Rpc/RpcServer.cpp b/src/Rpc/RpcServer.cpp
index ff8326e..e62b208 100644
--- a/src/Rpc/RpcServer.cpp
+++ b/src/Rpc/RpcServer.cpp
@@ -152,7 +152,6 @@ bool RpcServer::processJsonRpcRequest(const HttpRequest& request, HttpResponse&
   try {
     logger(TRACE) << "JSON-RPC request: " << request.getBody();
     jsonRequest.parseRequest(request.getBody());
-    jsonResponse.setId(jsonRequest.getId()); // copy id
 
     static std::unordered_map<std::string, RpcServer::RpcHandler<JsonMemberMethod>> jsonRpcHandlers = {
         {"getaltblockslist", {makeMemberMethod(&RpcServer::on_alt_blocks_list_json), true}},
@@ -194,6 +193,8 @@ bool RpcServer::processJsonRpcRequest(const HttpRequest& request, HttpResponse&
     jsonResponse.setError(JsonRpcError(JsonRpc::errInternalError, e.what()));
   }
 
+  jsonResponse.setId(jsonRequest.getId()); // copy id
+
   response.setBody(jsonResponse.getBody());
   logger(TRACE) << "JSON-RPC response: " << jsonResponse.getBody();
   return true;
-- 
2.43.0


From 1870f696ccb551fa70efaae3c84b34cea9eccf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 42/56] fix: a range of heights above the chain is empty, not
 four billion blocks long

---
 src/Rpc/RpcServer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Rpc/RpcServer.cpp b/src/Rpc/RpcServer.cpp
index e62b208..0ddb8c3 100644
--- a/src/Rpc/RpcServer.cpp
+++ b/src/Rpc/RpcServer.cpp
@@ -467,8 +467,8 @@ bool RpcServer::on_get_txs_with_output_global_indexes(const COMMAND_RPC_GET_TRAN
       }
 
       uint32_t upperBound = std::min(range[1], m_core.get_current_blockchain_height());
-      for (uint32_t i = 0; i < (upperBound - range[0]); i++) {
-        heights.push_back(range[0] + i);
+      for (uint32_t height = range[0]; height < upperBound; height++) {
+        heights.push_back(height);
       }
     }
     else {
-- 
2.43.0


From b42b862362ae246d34c35cbe774cd35456d0ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 43/56] fix: describe a spent transfer from the spent
 transfers, not from the end of the unconfirmed ones

---
 src/Transfers/TransfersContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
-- 
2.43.0


From 3ece824d0dd9607368b5d3173a485dc11ea86805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 44/56] fix: spent transfers of an old container file wait for
 no unlock

---
 src/Transfers/TransfersContainer.cpp | 10 ++--------
 src/Transfers/TransfersContainer.h   |  3 +--
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 5ee3cc9..1e4afc8 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -896,7 +896,7 @@ void TransfersContainer::load(std::istream& in) {
   if (version != 0) {
     readSequence<TransferUnlockJob>(std::inserter(transfersUnlockJobs, transfersUnlockJobs.end()), "transfersUnlockJobs", s);
   } else {
-    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers, spentTransfers);
+    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers);
   }
 
   m_currentHeight = currentHeight;
@@ -907,18 +907,12 @@ void TransfersContainer::load(std::istream& in) {
   m_transfersUnlockJobs = std::move(transfersUnlockJobs);
 }
 
-void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-    const SpentTransfersMultiIndex& spentTransfers) {
+void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers) {
 
   for (auto it = availableTransfers.begin(); it != availableTransfers.end(); ++it) {
     TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
     transfersUnlockJobs.emplace(std::move(job));
   }
-
-  for (auto it = spentTransfers.begin(); it != spentTransfers.end(); ++it) {
-    TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
-    transfersUnlockJobs.emplace(std::move(job));
-  }
 }
 
 bool TransfersContainer::isSpendTimeUnlocked(const TransactionOutputInformationEx& info) const {
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index ec9765b..26da24d 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -359,8 +359,7 @@ private:
 
   void copyToSpent(const TransactionBlockInfo& block, const ITransactionReader& tx, size_t inputIndex, const TransactionOutputInformationEx& output);
 
-  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-                                  const SpentTransfersMultiIndex& spentTransfers);
+  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers);
   std::vector<TransactionOutputInformation> doAdvanceHeight(uint32_t height);
 
 private:
-- 
2.43.0


From ff3e1ef081c51b27eae106192ee24b4fc7b62e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 45/56] fix: a transaction the container refuses leaves it
 unchanged

---
 src/Transfers/TransfersContainer.cpp | 105 ++++++++++++++++++---------
 src/Transfers/TransfersContainer.h   |   2 +
 2 files changed, 72 insertions(+), 35 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 1e4afc8..4381b7c 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -201,6 +201,10 @@ bool TransfersContainer::addTransaction(const TransactionBlockInfo& block, const
     throw std::invalid_argument("Transaction is already added");
   }
 
+  // everything that can be refused is refused before the container changes
+  checkTransactionOutputs(block, transfers);
+  checkTransactionInputs(tx);
+
   bool added = addTransactionOutputs(block, tx, transfers);
   added |= addTransactionInputs(block, tx);
 
@@ -245,6 +249,67 @@ void TransfersContainer::addTransaction(const TransactionBlockInfo& block, const
   assert(result.second);
 }
 
+/**
+ * \pre m_mutex is locked.
+ */
+void TransfersContainer::checkTransactionOutputs(const TransactionBlockInfo& block, const std::vector<TransactionOutputInformationIn>& transfers) const {
+  bool transactionIsUnconfimed = (block.height == WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT);
+  for (const auto& transfer : transfers) {
+    bool transferIsUnconfirmed = (transfer.globalOutputIndex == UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX);
+    if (transactionIsUnconfimed != transferIsUnconfirmed) {
+      throw std::invalid_argument("Bad transfer's globalOutputIndex");
+    }
+
+    if (!transferIsUnconfirmed && transfer.type == transaction_types::OutputType::Multisignature) {
+      SpentOutputDescriptor descriptor(transfer);
+      if (m_availableTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0 ||
+          m_spentTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0) {
+        throw std::runtime_error("Transfer already exists");
+      }
+    }
+  }
+}
+
+/**
+ * \pre m_mutex is locked.
+ */
+void TransfersContainer::checkTransactionInputs(const ITransactionReader& tx) const {
+  std::vector<KeyImage> spending;
+
+  for (size_t i = 0; i < tx.getInputCount(); ++i) {
+    if (tx.getInputType(i) != transaction_types::InputType::Key) {
+      continue;
+    }
+
+    KeyInput input;
+    tx.getInput(i, input);
+
+    SpentOutputDescriptor descriptor(&input.keyImage);
+    if (m_spentTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0) {
+      throw std::runtime_error("Spending already spent transfer");
+    }
+
+    auto availableRange = m_availableTransfers.get<SpentOutputDescriptorIndex>().equal_range(descriptor);
+    if (availableRange.first == availableRange.second) {
+      if (m_unconfirmedTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0) {
+        throw std::runtime_error("Spending unconfirmed transfer");
+      }
+
+      continue;
+    }
+
+    if (std::find(spending.begin(), spending.end(), input.keyImage) != spending.end()) {
+      throw std::runtime_error("Spending already spent transfer");
+    }
+
+    spending.push_back(input.keyImage);
+
+    if (std::none_of(availableRange.first, availableRange.second, [&input](const TransactionOutputInformationEx& t) { return t.amount == input.amount; })) {
+      throw std::runtime_error("Input has invalid amount, corresponding output isn't found");
+    }
+  }
+}
+
 /**
  * \pre m_mutex is locked.
  */
@@ -259,11 +324,6 @@ bool TransfersContainer::addTransactionOutputs(const TransactionBlockInfo& block
     assert(transfer.type == tx.getOutputType(transfer.outputInTransaction));
     assert(transfer.amount > 0);
 
-    bool transferIsUnconfirmed = (transfer.globalOutputIndex == UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX);
-    if (transactionIsUnconfimed != transferIsUnconfirmed) {
-      throw std::invalid_argument("Bad transfer's globalOutputIndex");
-    }
-
     TransactionOutputInformationEx info;
     static_cast<TransactionOutputInformationIn&>(info) = transfer;
     info.blockHeight = block.height;
@@ -272,19 +332,11 @@ bool TransfersContainer::addTransactionOutputs(const TransactionBlockInfo& block
     info.transactionHash = txHash;
     info.visible = true;
 
-    if (transferIsUnconfirmed) {
+    if (transactionIsUnconfimed) {
       auto result = m_unconfirmedTransfers.emplace(std::move(info));
       (void)result; // Disable unused warning
       assert(result.second);
     } else {
-      if (info.type == transaction_types::OutputType::Multisignature) {
-        SpentOutputDescriptor descriptor(transfer);
-        if (m_availableTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0 ||
-            m_spentTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) > 0) {
-          throw std::runtime_error("Transfer already exists");
-        }
-      }
-
       addUnlockJob(info);
 
       auto result = m_availableTransfers.emplace(std::move(info));
@@ -316,23 +368,9 @@ bool TransfersContainer::addTransactionInputs(const TransactionBlockInfo& block,
       tx.getInput(i, input);
 
       SpentOutputDescriptor descriptor(&input.keyImage);
-      auto spentRange = m_spentTransfers.get<SpentOutputDescriptorIndex>().equal_range(descriptor);
-      if (std::distance(spentRange.first, spentRange.second) > 0) {
-        throw std::runtime_error("Spending already spent transfer");
-      }
-
-      auto availableRange = m_availableTransfers.get<SpentOutputDescriptorIndex>().equal_range(descriptor);
-      auto unconfirmedRange = m_unconfirmedTransfers.get<SpentOutputDescriptorIndex>().equal_range(descriptor);
-      size_t availableCount = std::distance(availableRange.first, availableRange.second);
-      size_t unconfirmedCount = std::distance(unconfirmedRange.first, unconfirmedRange.second);
-
-      if (availableCount == 0) {
-        if (unconfirmedCount > 0) {
-          throw std::runtime_error("Spending unconfirmed transfer");
-        } else {
-          // This input doesn't spend any transfer from this container
-          continue;
-        }
+      if (m_availableTransfers.get<SpentOutputDescriptorIndex>().count(descriptor) == 0) {
+        // This input doesn't spend any transfer from this container
+        continue;
       }
 
       auto& outputDescriptorIndex = m_availableTransfers.get<SpentOutputDescriptorIndex>();
@@ -342,10 +380,7 @@ bool TransfersContainer::addTransactionInputs(const TransactionBlockInfo& block,
       iteratorList.sort();
       auto spendingTransferIt = iteratorList.findFirstByAmount(input.amount);
 
-      if (spendingTransferIt == availableOutputsRange.second) {
-        throw std::runtime_error("Input has invalid amount, corresponding output isn't found");
-      }
-
+      assert(spendingTransferIt != availableOutputsRange.second);
       assert(spendingTransferIt->keyImage == input.keyImage);
       deleteUnlockJob(*spendingTransferIt);
       copyToSpent(block, tx, i, *spendingTransferIt);
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index 26da24d..379863c 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -342,6 +342,8 @@ private:
 
 private:
   void addTransaction(const TransactionBlockInfo& block, const ITransactionReader& tx, std::vector<std::string>&& messages);
+  void checkTransactionOutputs(const TransactionBlockInfo& block, const std::vector<TransactionOutputInformationIn>& transfers) const;
+  void checkTransactionInputs(const ITransactionReader& tx) const;
   bool addTransactionOutputs(const TransactionBlockInfo& block, const ITransactionReader& tx,
                              const std::vector<TransactionOutputInformationIn>& transfers);
   bool addTransactionInputs(const TransactionBlockInfo& block, const ITransactionReader& tx);
-- 
2.43.0


From 69abba7234ce11370ee0de6c6720ad88a0e041a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 46/56] fix: an unlock time beyond 32 bits is not a height
 within reach

---
 src/Transfers/TransfersContainer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 4381b7c..fd7947c 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -7,6 +7,8 @@
 
 #include "TransfersContainer.h"
 #include "IWalletLegacy.h"
+#include <algorithm>
+#include <limits>
 #include "Common/StdInputStream.h"
 #include "Common/StdOutputStream.h"
 #include "CryptoNoteCore/CryptoNoteFormatUtils.h"
@@ -91,14 +93,14 @@ namespace {
   TransferUnlockJob makeTransferUnlockJob(const TransactionOutputInformationEx& output, uint32_t transactionSpendableAge) {
     TransferUnlockJob job;
 
-    uint32_t unlockTime = static_cast<uint32_t>(output.unlockTime == 0 ? output.blockHeight : output.unlockTime);
+    uint64_t unlockHeight = std::max(output.unlockTime, static_cast<uint64_t>(output.blockHeight) + transactionSpendableAge + 1);
 
     if (output.type == transaction_types::OutputType::Multisignature && output.term != 0) {
-      job.unlockHeight = std::max({ unlockTime, output.blockHeight + output.term, output.blockHeight + transactionSpendableAge + 1 });
-    } else {
-      job.unlockHeight = std::max(unlockTime, output.blockHeight + transactionSpendableAge + 1);
+      unlockHeight = std::max(unlockHeight, static_cast<uint64_t>(output.blockHeight) + output.term);
     }
 
+    job.unlockHeight = static_cast<uint32_t>(std::min<uint64_t>(unlockHeight, std::numeric_limits<uint32_t>::max()));
+
     job.transactionOutputKey.transactionHash = output.transactionHash;
     job.transactionOutputKey.outputInTransaction = output.outputInTransaction;
 
-- 
2.43.0


From bdaa3384e43e7451739417310d8b4a6fdeca28b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 47/56] fix: detaching gives back what the deleted transactions
 spent before it deletes their outputs

---
 src/Transfers/TransfersContainer.cpp | 23 ++++++++++++++++++++---
 src/Transfers/TransfersContainer.h   |  1 +
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index fd7947c..8d4ef4e 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -501,7 +501,7 @@ bool TransfersContainer::markTransactionConfirmed(const TransactionBlockInfo& bl
 /**
  * \pre m_mutex is locked.
  */
-void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transactionHash) {
+void TransfersContainer::restoreSpentTransfers(const crypto::Hash& transactionHash) {
   auto& spendingTransactionIndex = m_spentTransfers.get<SpendingTransactionIndex>();
   auto spentTransfersRange = spendingTransactionIndex.equal_range(transactionHash);
   for (auto it = spentTransfersRange.first; it != spentTransfersRange.second;) {
@@ -519,6 +519,13 @@ void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transact
       updateTransfersVisibility(result.first->keyImage);
     }
   }
+}
+
+/**
+ * \pre m_mutex is locked.
+ */
+void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transactionHash) {
+  restoreSpentTransfers(transactionHash);
 
   auto unconfirmedTransfersRange = m_unconfirmedTransfers.get<ContainingTransactionIndex>().equal_range(transactionHash);
   for (auto it = unconfirmedTransfersRange.first; it != unconfirmedTransfersRange.second;) {
@@ -572,6 +579,7 @@ void TransfersContainer::detach(uint32_t height, std::vector<crypto::Hash>& dele
 
   auto& spendingTransactionIndex = m_spentTransfers.get<SpendingTransactionIndex>();
   auto& blockHeightIndex = m_transactions.get<1>();
+  size_t firstDeleted = deletedTransactions.size();
   auto it = blockHeightIndex.end();
   while (it != blockHeightIndex.begin()) {
     --it;
@@ -592,12 +600,21 @@ void TransfersContainer::detach(uint32_t height, std::vector<crypto::Hash>& dele
     }
 
     if (doDelete) {
-      deleteTransactionTransfers(it->transactionHash);
       deletedTransactions.emplace_back(it->transactionHash);
-      it = blockHeightIndex.erase(it);
     }
   }
 
+  // transactions of the same block come in any order, so all that the deleted transactions spent
+  // has to be back before the outputs of any of them are deleted
+  for (size_t i = firstDeleted; i < deletedTransactions.size(); ++i) {
+    restoreSpentTransfers(deletedTransactions[i]);
+  }
+
+  for (size_t i = firstDeleted; i < deletedTransactions.size(); ++i) {
+    deleteTransactionTransfers(deletedTransactions[i]);
+    m_transactions.get<0>().erase(deletedTransactions[i]);
+  }
+
   uint32_t prevHeight = m_currentHeight;
 
   // TODO: notification on detach
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index 379863c..81d2e49 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -347,6 +347,7 @@ private:
   bool addTransactionOutputs(const TransactionBlockInfo& block, const ITransactionReader& tx,
                              const std::vector<TransactionOutputInformationIn>& transfers);
   bool addTransactionInputs(const TransactionBlockInfo& block, const ITransactionReader& tx);
+  void restoreSpentTransfers(const crypto::Hash& transactionHash);
   void deleteTransactionTransfers(const crypto::Hash& transactionHash);
   bool isSpendTimeUnlocked(const TransactionOutputInformationEx& info) const;
   bool isIncluded(const TransactionOutputInformationEx& info, uint32_t flags) const;
-- 
2.43.0


From 42dc0ee78f2f80da29f3465734285d6b6df95f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:41 +0000
Subject: [PATCH 48/56] fix: a confirmed transaction replaces the unconfirmed
 ones that spend the same

---
 src/Transfers/TransfersConsumer.cpp     | 33 +++++++++++++++++++++++++
 src/Transfers/TransfersConsumer.h       |  3 +++
 src/Transfers/TransfersContainer.cpp    | 27 ++++++++++++++++++++
 src/Transfers/TransfersContainer.h      |  2 ++
 src/Transfers/TransfersSubscription.cpp |  4 +++
 src/Transfers/TransfersSubscription.h   |  1 +
 6 files changed, 70 insertions(+)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 12854a1..fccfc5f 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -531,6 +531,10 @@ std::error_code TransfersConsumer::processTransaction(const TransactionBlockInfo
 }
 
 void TransfersConsumer::processTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx, const PreprocessInfo& info) {
+  if (blockInfo.height != WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) {
+    deleteConflictingTransactions(tx);
+  }
+
   std::vector<TransactionOutputInformationIn> emptyOutputs;
   std::vector<ITransfersContainer*> transactionContainers;
   bool someContainerUpdated = false;
@@ -574,6 +578,35 @@ void TransfersConsumer::processOutputs(const TransactionBlockInfo& blockInfo, Tr
   }
 }
 
+std::vector<crypto::Hash> TransfersConsumer::getConflictingTransactions(const ITransactionReader& tx) const {
+  std::vector<crypto::Hash> conflicting;
+  for (const auto& kv : m_subscriptions) {
+    for (const auto& hash : kv.second->getConflictingTransactions(tx)) {
+      conflicting.push_back(hash);
+    }
+  }
+
+  return conflicting;
+}
+
+// an unconfirmed transaction can't be confirmed any more once a block spends what it spends
+void TransfersConsumer::deleteConflictingTransactions(const ITransactionReader& tx) {
+  for (const auto& hash : getConflictingTransactions(tx)) {
+    bool unconfirmed = false;
+    for (const auto& kv : m_subscriptions) {
+      TransactionInformation info;
+      if (kv.second->getContainer().getTransactionInformation(hash, info)) {
+        unconfirmed = unconfirmed || info.blockHeight == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT;
+      }
+    }
+
+    if (unconfirmed) {
+      m_poolTxs.erase(hash);
+      removeUnconfirmedTransaction(hash);
+    }
+  }
+}
+
 std::error_code TransfersConsumer::getGlobalIndices(const Hash& transactionHash, std::vector<uint32_t>& outsGlobalIndices) {  
   std::promise<std::error_code> prom;
   std::future<std::error_code> f = prom.get_future();
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index 0929abc..6063f39 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -67,6 +67,9 @@ private:
   void processOutputs(const TransactionBlockInfo& blockInfo, TransfersSubscription& sub, const ITransactionReader& tx,
     const std::vector<TransactionOutputInformationIn>& outputs, const std::vector<uint32_t>& globalIdxs, bool& contains, bool& updated);
 
+  std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx) const;
+  void deleteConflictingTransactions(const ITransactionReader& tx);
+
   std::error_code getGlobalIndices(const crypto::Hash& transactionHash, std::vector<uint32_t>& outsGlobalIndices);
 
   void updateSyncStart();
diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 8d4ef4e..7f7936b 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -413,6 +413,33 @@ bool TransfersContainer::addTransactionInputs(const TransactionBlockInfo& block,
   return inputsAdded;
 }
 
+std::vector<crypto::Hash> TransfersContainer::getConflictingTransactions(const ITransactionReader& tx) const {
+  std::lock_guard<std::mutex> lk(m_mutex);
+
+  std::vector<crypto::Hash> conflicting;
+  auto txHash = tx.getTransactionHash();
+  auto& spentIndex = m_spentTransfers.get<SpentOutputDescriptorIndex>();
+  for (size_t i = 0; i < tx.getInputCount(); ++i) {
+    auto it = spentIndex.end();
+    auto inputType = tx.getInputType(i);
+    if (inputType == transaction_types::InputType::Key) {
+      KeyInput input;
+      tx.getInput(i, input);
+      it = spentIndex.find(SpentOutputDescriptor(&input.keyImage));
+    } else if (inputType == transaction_types::InputType::Multisignature) {
+      MultisignatureInput input;
+      tx.getInput(i, input);
+      it = spentIndex.find(SpentOutputDescriptor(input.amount, input.outputIndex));
+    }
+
+    if (it != spentIndex.end() && it->spendingTransactionHash != txHash) {
+      conflicting.push_back(it->spendingTransactionHash);
+    }
+  }
+
+  return conflicting;
+}
+
 bool TransfersContainer::deleteUnconfirmedTransaction(const crypto::Hash& transactionHash) {
   std::unique_lock<std::mutex> lock(m_mutex);
 
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index 81d2e49..640380b 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -192,6 +192,8 @@ public:
                       const std::vector<TransactionOutputInformationIn>& transfers,
                       std::vector<std::string>&& messages, std::vector<TransactionOutputInformation>* unlockingTransfers = nullptr);
   bool deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
+  // other transactions of the container that spend what the transaction spends
+  std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx) const;
   bool markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
   void detach(uint32_t height, std::vector<crypto::Hash>& deletedTransactions, std::vector<TransactionOutputInformation>& lockedTransfers);
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index fc1ca70..bd42449 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -80,6 +80,10 @@ ITransfersContainer& TransfersSubscription::getContainer() {
   return transfers;
 }
 
+std::vector<Hash> TransfersSubscription::getConflictingTransactions(const ITransactionReader& tx) const {
+  return transfers.getConflictingTransactions(tx);
+}
+
 void TransfersSubscription::deleteUnconfirmedTransaction(const Hash& transactionHash) {
   if (transfers.deleteUnconfirmedTransaction(transactionHash)) {
     m_observerManager.notify(&ITransfersObserver::onTransactionDeleted, this, transactionHash);
diff --git a/src/Transfers/TransfersSubscription.h b/src/Transfers/TransfersSubscription.h
index 3511791..9cd6cf6 100644
--- a/src/Transfers/TransfersSubscription.h
+++ b/src/Transfers/TransfersSubscription.h
@@ -25,6 +25,7 @@ public:
   bool addTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx,
                       const std::vector<TransactionOutputInformationIn>& transfers, std::vector<std::string>&& messages);
 
+  std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx) const;
   void deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
   void markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
-- 
2.43.0


From 955043680bb61c1b45a60c8df49e043a5b92c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 49/56] fix: a failed query during the scan of blocks does not
 block the scan for ever

---
 src/Transfers/TransfersConsumer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index fccfc5f..a2f53f5 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -247,9 +247,18 @@ bool TransfersConsumer::onNewBlocks(const CompleteBlock* blocks, uint32_t startH
       PreprocessedTx output;
       static_cast<Tx&>(output) = item;
 
-      ec = preprocessOutputs(item.blockInfo, *item.tx, output);
+      try {
+        ec = preprocessOutputs(item.blockInfo, *item.tx, output);
+      } catch (...) {
+        stopProcessing = true;
+        inputQueue.close();
+        throw;
+      }
+
       if (ec) {
         stopProcessing = true;
+        // the pushing thread must not wait for space in the queue nobody reads any more
+        inputQueue.close();
         break;
       }
 
-- 
2.43.0


From 9fe288e5031e0b11b40bf8f6a6e2a03534260349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:49 +0000
Subject: [PATCH 50/56] fix: a pool transaction spending what another one
 spends does not end the wallet

---
 src/Transfers/TransfersConsumer.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index a2f53f5..3f2c2df 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -320,8 +320,26 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
   unconfirmedBlockInfo.timestamp = 0; 
   unconfirmedBlockInfo.height = WALLET_UNCONFIRMED_TRANSACTION_HEIGHT;
 
+  // what a deleted transaction spent may be spent by an added one
+  for (auto& deletedTxHash : deletedTransactions) {
+    m_poolTxs.erase(deletedTxHash);
+
+    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteBegin, this, deletedTxHash);
+    for (auto& sub : m_subscriptions) {
+      sub.second->deleteUnconfirmedTransaction(*reinterpret_cast<const Hash*>(&deletedTxHash));
+    }
+
+    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, deletedTxHash);
+  }
+
   std::error_code processingError;
   for (auto& cryptonoteTransaction : addedTransactions) {
+    if (!getConflictingTransactions(*cryptonoteTransaction).empty()) {
+      // not remembered as known, to be considered again when the other transaction is gone
+      m_logger(WARNING) << "Pool transaction spends what another transaction spends, transaction hash " << common::podToHex(cryptonoteTransaction->getTransactionHash());
+      continue;
+    }
+
     m_poolTxs.emplace(cryptonoteTransaction->getTransactionHash());
     processingError = processTransaction(unconfirmedBlockInfo, *cryptonoteTransaction.get());
     if (processingError) {
@@ -332,17 +350,6 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
       return processingError;
     }
   }
-  
-  for (auto& deletedTxHash : deletedTransactions) {
-    m_poolTxs.erase(deletedTxHash);
-
-    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteBegin, this, deletedTxHash);
-    for (auto& sub : m_subscriptions) {
-      sub.second->deleteUnconfirmedTransaction(*reinterpret_cast<const Hash*>(&deletedTxHash));
-    }
-
-    m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, deletedTxHash);
-  }
 
   return std::error_code();
 }
-- 
2.43.0


From 5a27d29cdb10a176c2727e30948112e3e57aab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 51/56] fix: a transaction deleted by a reorganization is taken
 from the pool again

---
 src/Transfers/TransfersConsumer.cpp     | 12 +++++++++++-
 src/Transfers/TransfersSubscription.cpp |  4 +++-
 src/Transfers/TransfersSubscription.h   |  3 ++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 3f2c2df..082dd06 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -178,8 +178,18 @@ SynchronizationStart TransfersConsumer::getSyncStart() {
 void TransfersConsumer::onBlockchainDetach(uint32_t height) {
   m_observerManager.notify(&IBlockchainConsumerObserver::onBlockchainDetach, this, height);
 
+  std::vector<crypto::Hash> deletedTransactions;
   for (const auto& kv : m_subscriptions) {
-    kv.second->onBlockchainDetach(height);
+    auto deleted = kv.second->onBlockchainDetach(height);
+    deletedTransactions.insert(deletedTransactions.end(), deleted.begin(), deleted.end());
+  }
+
+  // what is deleted may be in the pool again, or still: it is not known any more, to no subscription
+  for (const auto& hash : deletedTransactions) {
+    m_poolTxs.erase(hash);
+    for (const auto& kv : m_subscriptions) {
+      kv.second->deleteUnconfirmedTransaction(hash);
+    }
   }
 }
 
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index bd42449..31b5cf8 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -20,7 +20,7 @@ SynchronizationStart TransfersSubscription::getSyncStart() {
   return subscription.syncStart;
 }
 
-void TransfersSubscription::onBlockchainDetach(uint32_t height) {
+std::vector<Hash> TransfersSubscription::onBlockchainDetach(uint32_t height) {
   std::vector<Hash> deletedTransactions;
   std::vector<TransactionOutputInformation> lockedTransfers;
   transfers.detach(height, deletedTransactions, lockedTransfers);
@@ -32,6 +32,8 @@ void TransfersSubscription::onBlockchainDetach(uint32_t height) {
   if (!lockedTransfers.empty()) {
     m_observerManager.notify(&ITransfersObserver::onTransfersLocked, this, lockedTransfers);
   }
+
+  return deletedTransactions;
 }
 
 void TransfersSubscription::onError(const std::error_code& ec, uint32_t height) {
diff --git a/src/Transfers/TransfersSubscription.h b/src/Transfers/TransfersSubscription.h
index 9cd6cf6..5eb18f6 100644
--- a/src/Transfers/TransfersSubscription.h
+++ b/src/Transfers/TransfersSubscription.h
@@ -18,7 +18,8 @@ public:
   TransfersSubscription(const cn::Currency& currency, const AccountSubscription& sub);
 
   SynchronizationStart getSyncStart();
-  void onBlockchainDetach(uint32_t height);
+  // returns the transactions deleted
+  std::vector<crypto::Hash> onBlockchainDetach(uint32_t height);
   void onError(const std::error_code& ec, uint32_t height);
   bool advanceHeight(uint32_t height);
   const AccountKeys& getKeys() const;
-- 
2.43.0


From 6929ac2b367eb83104b5dc4e8141017d30fac974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:12 +0000
Subject: [PATCH 52/56] fix: an output of several keys is not spent a second
 time by an unconfirmed transaction

---
 src/Transfers/TransfersContainer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 7f7936b..b4cb851 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -279,7 +279,17 @@ void TransfersContainer::checkTransactionInputs(const ITransactionReader& tx) co
   std::vector<KeyImage> spending;
 
   for (size_t i = 0; i < tx.getInputCount(); ++i) {
-    if (tx.getInputType(i) != transaction_types::InputType::Key) {
+    auto inputType = tx.getInputType(i);
+    if (inputType == transaction_types::InputType::Multisignature) {
+      MultisignatureInput input;
+      tx.getInput(i, input);
+
+      if (m_spentTransfers.get<SpentOutputDescriptorIndex>().count(SpentOutputDescriptor(input.amount, input.outputIndex)) > 0) {
+        throw std::runtime_error("Spending already spent transfer");
+      }
+    }
+
+    if (inputType != transaction_types::InputType::Key) {
       continue;
     }
 
-- 
2.43.0


From 3ec38e6da75c1b62155a2ae7124b2e4abefed11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:52 +0000
Subject: [PATCH 53/56] fix: a payment is listed once, however often its
 transaction is updated

---
 src/WalletLegacy/WalletUserTransactionsCache.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/WalletLegacy/WalletUserTransactionsCache.cpp b/src/WalletLegacy/WalletUserTransactionsCache.cpp
index 4148aa8..ef2cefb 100644
--- a/src/WalletLegacy/WalletUserTransactionsCache.cpp
+++ b/src/WalletLegacy/WalletUserTransactionsCache.cpp
@@ -150,7 +150,12 @@ bool canInsertTransactionToIndex(const WalletLegacyTransaction& info) {
 }
 
 void WalletUserTransactionsCache::pushToPaymentsIndex(const PaymentId& paymentId, Offset distance) {
-  m_paymentsIndex[paymentId].push_back(distance);
+  // a transaction is updated more than once, and its confirmation may come in any order: every one is listed once, in order
+  auto& transactions = m_paymentsIndex[paymentId];
+  auto position = std::lower_bound(transactions.begin(), transactions.end(), distance);
+  if (position == transactions.end() || *position != distance) {
+    transactions.insert(position, distance);
+  }
 }
 
 void WalletUserTransactionsCache::popFromPaymentsIndex(const PaymentId& paymentId, Offset distance) {
-- 
2.43.0


From 0eb9aa05cdacb7227dd530f9d6f1231b19f2b48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 54/56] fix: a withdrawal that returns after a reorganization
 spends its deposits again

---
 src/WalletLegacy/WalletUserTransactionsCache.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/WalletLegacy/WalletUserTransactionsCache.cpp b/src/WalletLegacy/WalletUserTransactionsCache.cpp
index ef2cefb..9d85863 100644
--- a/src/WalletLegacy/WalletUserTransactionsCache.cpp
+++ b/src/WalletLegacy/WalletUserTransactionsCache.cpp
@@ -331,6 +331,7 @@ std::deque<std::unique_ptr<WalletLegacyEvent>> WalletUserTransactionsCache::onTr
     WalletLegacyTransaction& tr = getTransaction(id);
     tr.blockHeight = txInfo.blockHeight;
     tr.timestamp = txInfo.timestamp;
+    bool restored = tr.state == WalletLegacyTransactionState::Deleted;
     tr.state = WalletLegacyTransactionState::Active;
     // notification event
     events.push_back(std::unique_ptr<WalletLegacyEvent>(new WalletTransactionUpdatedEvent(id)));
@@ -340,6 +341,14 @@ std::deque<std::unique_ptr<WalletLegacyEvent>> WalletUserTransactionsCache::onTr
         m_unconfirmedTransactions.eraseCreatedDeposit(dId);
       }
     }
+
+    if (restored) {
+      // its deletion gave back the deposits it spends
+      auto spentDepositIds = processSpentDeposits(id, spentDepositOutputs);
+      if (!spentDepositIds.empty()) {
+        events.push_back(std::unique_ptr<WalletLegacyEvent>(new WalletDepositsUpdatedEvent(std::move(spentDepositIds))));
+      }
+    }
   }
 
   if (canInsertTransactionToIndex(getTransaction(id)) && paymentIdIsSet(txInfo.paymentId)) {
-- 
2.43.0


From 5b227da2d7b084917ac1d08b26e61a94072398db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 55/56] fix: the keys of a transaction that is gone do not hide
 the one made anew of the same inputs

---
 src/Transfers/TransfersConsumer.cpp | 42 +++++++++++++++++++++++++----
 src/Transfers/TransfersConsumer.h   |  1 +
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 082dd06..39ab342 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -27,13 +27,28 @@ using namespace logging;
 using namespace common;
 
 std::unordered_set<crypto::Hash> transactions_hash_seen;
-std::unordered_set<crypto::PublicKey> public_keys_seen;
+std::unordered_map<crypto::PublicKey, crypto::Hash> public_keys_seen; // and the transaction of each
 std::mutex seen_mutex;
 
 namespace {
 
 using namespace cn;
 
+void forgetKeysSeen(const Hash& transactionHash) {
+  std::lock_guard<std::mutex> lk(seen_mutex);
+  if (transactions_hash_seen.erase(transactionHash) == 0) {
+    return;
+  }
+
+  for (auto it = public_keys_seen.begin(); it != public_keys_seen.end();) {
+    if (it->second == transactionHash) {
+      it = public_keys_seen.erase(it);
+    } else {
+      ++it;
+    }
+  }
+}
+
 void checkOutputKey(
   const KeyDerivation& derivation,
   const PublicKey& key,
@@ -190,6 +205,7 @@ void TransfersConsumer::onBlockchainDetach(uint32_t height) {
     for (const auto& kv : m_subscriptions) {
       kv.second->deleteUnconfirmedTransaction(hash);
     }
+    forgetDeletedTransaction(hash);
   }
 }
 
@@ -338,6 +354,7 @@ std::error_code TransfersConsumer::onPoolUpdated(const std::vector<std::unique_p
     for (auto& sub : m_subscriptions) {
       sub.second->deleteUnconfirmedTransaction(*reinterpret_cast<const Hash*>(&deletedTxHash));
     }
+    forgetDeletedTransaction(deletedTxHash);
 
     m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, deletedTxHash);
   }
@@ -382,13 +399,26 @@ void TransfersConsumer::removeUnconfirmedTransaction(const crypto::Hash& transac
   for (auto& subscription : m_subscriptions) {
     subscription.second->deleteUnconfirmedTransaction(transactionHash);
   }
+  forgetDeletedTransaction(transactionHash);
   m_observerManager.notify(&IBlockchainConsumerObserver::onTransactionDeleteEnd, this, transactionHash);
 }
 
+// A transaction that is gone does not keep another one, made anew of the same inputs, from having the same keys.
+void TransfersConsumer::forgetDeletedTransaction(const crypto::Hash& transactionHash) {
+  for (const auto& kv : m_subscriptions) {
+    TransactionInformation info;
+    if (kv.second->getContainer().getTransactionInformation(transactionHash, info, nullptr, nullptr)) {
+      return;
+    }
+  }
+
+  forgetKeysSeen(transactionHash);
+}
+
 void TransfersConsumer::addPublicKeysSeen(const crypto::Hash& transactionHash, const crypto::PublicKey& outputKey) {
     std::lock_guard<std::mutex> lk(seen_mutex);
     transactions_hash_seen.insert(transactionHash);
-    public_keys_seen.insert(outputKey);
+    public_keys_seen.emplace(outputKey, transactionHash);
 }	
 	
 std::error_code createTransfers(
@@ -454,7 +484,7 @@ std::error_code createTransfers(
 
       std::unordered_set<crypto::Hash>::iterator it = transactions_hash_seen.find(tx.getTransactionHash());
 	  if (it == transactions_hash_seen.end()) {
-        std::unordered_set<crypto::PublicKey>::iterator key_it = public_keys_seen.find(out.key);
+        auto key_it = public_keys_seen.find(out.key);
         if (key_it != public_keys_seen.end()) {
           throw std::runtime_error("duplicate transaction output key is found");
           return std::error_code();
@@ -474,7 +504,7 @@ std::error_code createTransfers(
 		  for (const auto& key : out.keys) {
         std::unordered_set<crypto::Hash>::iterator it = transactions_hash_seen.find(txHash);
         if (it == transactions_hash_seen.end()) {
-          std::unordered_set<crypto::PublicKey>::iterator key_it = public_keys_seen.find(key);
+          auto key_it = public_keys_seen.find(key);
           if (key_it != public_keys_seen.end()) {
 			 // m_logger(ERROR, BRIGHT_RED) << "Failed to process transaction " << common::podToHex(txHash) << ": duplicate multisignature output key is found";
             return std::error_code();
@@ -495,7 +525,9 @@ std::error_code createTransfers(
   }
 
   transactions_hash_seen.emplace(tx.getTransactionHash());
-  std::copy(temp_keys.begin(), temp_keys.end(), std::inserter(public_keys_seen, public_keys_seen.end()));
+  for (const auto& key : temp_keys) {
+    public_keys_seen.emplace(key, tx.getTransactionHash());
+  }
 
 
  
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index 6063f39..4468666 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -70,6 +70,7 @@ private:
   std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx) const;
   void deleteConflictingTransactions(const ITransactionReader& tx);
 
+  void forgetDeletedTransaction(const crypto::Hash& transactionHash);
   std::error_code getGlobalIndices(const crypto::Hash& transactionHash, std::vector<uint32_t>& outsGlobalIndices);
 
   void updateSyncStart();
-- 
2.43.0


From 018b882d52c83d039dd86e118d9ba0f5f57355b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 56/56] fix: a withdrawal that could not be sent leaves its
 deposits unspent

---
 src/WalletLegacy/WalletUserTransactionsCache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/WalletLegacy/WalletUserTransactionsCache.cpp b/src/WalletLegacy/WalletUserTransactionsCache.cpp
index 9d85863..33792c6 100644
--- a/src/WalletLegacy/WalletUserTransactionsCache.cpp
+++ b/src/WalletLegacy/WalletUserTransactionsCache.cpp
@@ -265,6 +265,11 @@ void WalletUserTransactionsCache::updateTransactionSendingState(TransactionId tr
   if (ec) {
     txInfo.state = ec.value() == error::TX_CANCELLED ? WalletLegacyTransactionState::Cancelled : WalletLegacyTransactionState::Failed;
     m_unconfirmedTransactions.erase(txInfo.hash);
+
+    // what was not sent spends nothing
+    for (DepositId depositId : getDepositIdsBySpendingTransaction(transactionId)) {
+      getDeposit(depositId).spendingTransactionId = WALLET_LEGACY_INVALID_TRANSACTION_ID;
+    }
   } else {
     txInfo.sentTime = time(nullptr); // update sending time
     txInfo.state = WalletLegacyTransactionState::Active;
-- 
2.43.0

