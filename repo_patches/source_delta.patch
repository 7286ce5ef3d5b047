From 17f2827577e536c0956cdaebe019acddbb4cb901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 01/40] fix: get_peerlist_head returns at most the requested
 number of peers

---
 src/P2p/PeerListManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/P2p/PeerListManager.cpp b/src/P2p/PeerListManager.cpp
index b23603d..919603c 100644
--- a/src/P2p/PeerListManager.cpp
+++ b/src/P2p/PeerListManager.cpp
@@ -161,9 +161,9 @@ bool PeerlistManager::get_peerlist_head(std::list<PeerlistEntry>& bs_head, uint3
   {
     if (!vl.last_seen)
       continue;
-    bs_head.push_back(vl);
-    if (cnt++ > depth)
+    if (cnt++ >= depth)
       break;
+    bs_head.push_back(vl);
   }
   return true;
 }
-- 
2.43.0


From d7733f5c9639bf61215d3c9027b26aea717b25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 02/40] fix: a block refused for its size leaves no
 transactions in the indexes

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..4694a10 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2764,6 +2764,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From e1cc86aafd131e3519b1f977bd8580075292e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 03/40] fix: rolling back removes the blocks from the deposit
 index and block size limit

---
 src/CryptoNoteCore/Blockchain.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4694a10..1e83a80 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3259,7 +3259,9 @@ namespace cn
           return false;
         }
       }
-      
+
+      update_next_comulative_size_limit();
+
       logger(INFO, BRIGHT_GREEN) << "Blockchain successfully rolled back to height: " << height << "Synchronization will resume";
       return true;
     }
@@ -3285,10 +3287,17 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
     assert(m_blockIndex.size() == m_blocks.size());
+
+    m_upgradeDetectorV2.blockPopped();
+    m_upgradeDetectorV3.blockPopped();
+    m_upgradeDetectorV4.blockPopped();
+    m_upgradeDetectorV7.blockPopped();
+    m_upgradeDetectorV8.blockPopped();
     return true;
   }
 
-- 
2.43.0


From 075028d5e4c5aa38b71f7f48c77eafaa6e221513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 04/40] fix: resetting to a genesis block clears deposits too

---
 src/CryptoNoteCore/Blockchain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 1e83a80..c4afd3f 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -901,6 +901,8 @@ namespace cn
     m_spent_keys.clear();
     m_alternative_chains.clear();
     m_outputs.clear();
+    m_multisignatureOutputs.clear();
+    m_depositIndex = DepositIndex();
 
     m_paymentIdIndex.clear();
     m_timestampIndex.clear();
-- 
2.43.0


From d511ae5db8a1eccbdbffc281f8b0406e4db8bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 05/40] fix: index the payment id of a pool transaction from
 the stored entry

---
 src/CryptoNoteCore/TransactionPool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..b3e84c1 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,15 +257,15 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
-      m_timestampIndex.add(txd.receiveTime, txd.id);
+      m_paymentIdIndex.add(txd_p.first->tx);
+      m_timestampIndex.add(txd_p.first->receiveTime, id);
 
       if (ttl.ttl != 0)
       {
         m_ttlIndex.emplace(std::make_pair(id, ttl.ttl));
       }
 
-      logger(DEBUGGING) << "Transaction " << txd.id << " added to pool";
+      logger(DEBUGGING) << "Transaction " << id << " added to pool";
     }
 
     if (height >= m_currency.upgradeHeight(BLOCK_MAJOR_VERSION_8))
-- 
2.43.0


From b44a26b9c79725b99b01ca25b8269cdc2e11d17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 06/40] fix: deposit index keeps the interest of blocks whose
 deposit change is zero

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From 534f402dfedb67677d1809a61c491cf8910fed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 07/40] fix: rebuilding the cache starts from an empty deposit
 index

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index c4afd3f..0b8d715 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -690,6 +690,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
-- 
2.43.0


From fadadfcf49e119deb7dd574d874bd61bac9ba945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 08/40] fix: a cache whose transaction map or spent keys are
 missing is not trusted

---
 src/CryptoNoteCore/Blockchain.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 0b8d715..b728efc 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -205,7 +205,10 @@ namespace cn
       if (s.type() == ISerializer::INPUT)
       {
         phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "transactionsmap.dat").c_str());
-        m_bs.m_transactionMap.phmap_load(ar_in);
+        if (!m_bs.m_transactionMap.phmap_load(ar_in))
+        {
+          throw std::runtime_error("cannot load transaction map");
+        }
       }
       else
       {
@@ -217,7 +220,10 @@ namespace cn
       if (s.type() == ISerializer::INPUT)
       {
         phmap::BinaryInputArchive ar_in(appendPath(m_bs.m_config_folder, "spentkeys.dat").c_str());
-        m_bs.m_spent_keys.phmap_load(ar_in);
+        if (!m_bs.m_spent_keys.phmap_load(ar_in))
+        {
+          throw std::runtime_error("cannot load spent keys");
+        }
       }
       else
       {
-- 
2.43.0


From 5ec91b0e02e86a9c8fbc1823e8a2d72ec3b8910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 09/40] fix: refuse inputs that spend an output created in the
 same block

---
 src/CryptoNoteCore/Blockchain.cpp | 7 +++++++
 src/CryptoNoteCore/Blockchain.h   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index b728efc..219f5e7 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3178,6 +3178,13 @@ namespace cn
     }
 
     const MultisignatureOutputUsage &outputIndex = amountOutputs->second[input.outputIndex];
+    if (outputIndex.transactionIndex.block >= m_blocks.size())
+    {
+      logger(DEBUGGING) << "Transaction << " << transactionHash << " contains multisignature input which points to a block not yet in the chain.";
+
+      return false;
+    }
+
     if (outputIndex.isUsed)
     {
       logger(DEBUGGING) << "Transaction << " << transactionHash << " contains double spending multisignature input.";
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index 79506dc..ce3f3d8 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -399,6 +399,13 @@ namespace cn
         return false;
       }
 
+      // outputs of the block being added are indexed before the block itself is stored
+      if (amount_outs_vec[i].first.block >= m_blocks.size())
+      {
+        logger(logging::INFO) << "Transaction input refers to an output of a block not yet in the chain";
+        return false;
+      }
+
       const TransactionEntry &tx = transactionByIndex(amount_outs_vec[i].first);
 
       if (!(amount_outs_vec[i].second < tx.tx.outputs.size()))
-- 
2.43.0


From 44da691617bba36991095f44602dded62e425f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 10/40] fix: no null dereference for a version 1 transaction
 with a multisignature output

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From 0abf9046629017b71acd35b15aa947c4fdf665b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 11/40] fix: difficulty of an alternative block follows its own
 height, not the main chain tip

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 219f5e7..1efc142 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1332,7 +1332,7 @@ namespace cn
   {
     std::vector<uint64_t> timestamps;
     std::vector<difficulty_type> commulative_difficulties;
-    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(static_cast<uint32_t>(m_blocks.size()));
+    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(bei.height);
 
     if (alt_chain.size() < m_currency.difficultyBlocksCountByBlockVersion(BlockMajorVersion))
     {
@@ -1386,7 +1386,7 @@ namespace cn
       }
     }
 
-    uint64_t block_index = m_blocks.size();
+    uint64_t block_index = bei.height;
     uint8_t block_major_version = get_block_major_version_for_height(block_index + 1);
 
     if (block_major_version >= 8)
-- 
2.43.0


From 0a08c65a17af99cb4a49ac4037c98823fd846ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 12/40] fix: block template counts fees at the height of the
 block

---
 src/CryptoNoteCore/TransactionPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index b3e84c1..eff0b91 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -509,7 +509,7 @@ namespace cn
       if (ready && blockTemplate.addTransaction(txd.id, txd.tx))
       {
         total_size += txd.blobSize;
-        fee += txd.fee;
+        fee += inputs_amount - outputs_amount;
         logger(DEBUGGING) << "Transaction " << txd.id << " included in the block template";
       }
       else
-- 
2.43.0


From 60421a7fc07cfccce884a8c6bf04f87872b35869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 13/40] fix: block template leaves room for the coinbase within
 the maximum block size

---
 src/CryptoNoteCore/TransactionPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index eff0b91..eb53b6a 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -474,7 +474,7 @@ namespace cn
     total_size = 0;
     fee = 0;
     size_t max_total_size = (125 * median_size) / 100 - m_currency.minerTxBlobReservedSize();
-    max_total_size = std::min(max_total_size, maxCumulativeSize);
+    max_total_size = std::min(max_total_size, maxCumulativeSize - m_currency.minerTxBlobReservedSize());
 
     BlockTemplate blockTemplate;
 
@@ -497,7 +497,7 @@ namespace cn
         continue;
       }
 
-      size_t blockSizeLimit = (txd.fee == 0) ? median_size : max_total_size;
+      size_t blockSizeLimit = (txd.fee == 0) ? std::min(median_size, max_total_size) : max_total_size;
       if (blockSizeLimit < total_size + txd.blobSize)
       {
         continue;
-- 
2.43.0


From 7cc38c0c4caefdfe281d41f8d6d14dd70ca56899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 14/40] fix: pool readiness re-examines locks and
 multisignature outputs after the chain changed

---
 src/CryptoNoteCore/Blockchain.cpp | 43 +++++++++++++++++++++++++++++++
 src/CryptoNoteCore/Blockchain.h   |  1 +
 2 files changed, 44 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 1efc142..d388349 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -434,6 +434,49 @@ namespace cn
           return false;
         }
       }
+      else if (!recheckTransactionInputs(tx))
+      {
+        return false;
+      }
+    }
+
+    return true;
+  }
+
+  // The ring signatures of a transaction stay valid while the block of its newest ring member is in the chain;
+  // locks and multisignature outputs (spent meanwhile, or in a block that was replaced) have to be checked again.
+  bool Blockchain::recheckTransactionInputs(const Transaction &tx)
+  {
+    struct unlocked_visitor
+    {
+      Blockchain &m_bch;
+
+      bool handle_output(const Transaction &outputTx, const TransactionOutput &, size_t)
+      {
+        return m_bch.is_tx_spendtime_unlocked(outputTx.unlockTime);
+      }
+    };
+
+    std::lock_guard<decltype(m_blockchain_lock)> lk(m_blockchain_lock);
+    const crypto::Hash prefixHash = getObjectHash(*static_cast<const TransactionPrefix *>(&tx));
+    const crypto::Hash transactionHash = getObjectHash(tx);
+    unlocked_visitor visitor = {*this};
+    for (size_t i = 0; i < tx.inputs.size(); ++i)
+    {
+      if (tx.inputs[i].type() == typeid(KeyInput))
+      {
+        if (!scanOutputKeysForIndexes(boost::get<KeyInput>(tx.inputs[i]), visitor))
+        {
+          return false;
+        }
+      }
+      else if (tx.inputs[i].type() == typeid(MultisignatureInput))
+      {
+        if (!validateInput(boost::get<MultisignatureInput>(tx.inputs[i]), transactionHash, prefixHash, tx.signatures[i]))
+        {
+          return false;
+        }
+      }
     }
 
     return true;
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index ce3f3d8..483b6a6 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -351,6 +351,7 @@ namespace cn
     void popTransaction(const Transaction &transaction, const crypto::Hash &transactionHash);
     void popTransactions(const BlockEntry &block, const crypto::Hash &minerTransactionHash);
     bool validateInput(const MultisignatureInput &input, const crypto::Hash &transactionHash, const crypto::Hash &transactionPrefixHash, const std::vector<crypto::Signature> &transactionSignatures);
+    bool recheckTransactionInputs(const Transaction &tx);
     bool removeLastBlock();
     bool checkCheckpoints(uint32_t &lastValidCheckpointHeight);
     bool storeBlockchainIndices();
-- 
2.43.0


From 25ae6bbc82f56801609578b0a74657ae4e785684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:43 +0000
Subject: [PATCH 15/40] fix: payment id lookup finds transactions that are only
 in the chain or only in the pool

---
 src/CryptoNoteCore/Core.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 99c3eb6..c14741d 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -1019,12 +1019,12 @@ bool core::getPoolTransactionsByTimestamp(uint64_t timestampBegin, uint64_t time
 
 bool core::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<Transaction>& transactions) {
   std::vector<crypto::Hash> blockchainTransactionHashes;
-  if (!m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes)) {
-    return false;
-  }
+  const bool foundInBlockchain = m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes);
 
   std::vector<crypto::Hash> poolTransactionHashes;
-  if (!m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+  const bool foundInPool = m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes);
+
+  if (!foundInBlockchain && !foundInPool) {
     return false;
   }
 
-- 
2.43.0


From f952d40df064d037374dd32aaed36db8c7c443d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:57 +0000
Subject: [PATCH 16/40] fix: transactions already in the chain are not restored
 into the pool

---
 src/CryptoNoteCore/Core.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index c14741d..68b9017 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -167,6 +167,16 @@ bool core::init(const CoreConfig& config, const MinerConfig& minerConfig, bool l
     return false;
   }
 
+  // the pool file may be older than the block store (after a crash): what was mined meanwhile does not return to the pool
+  for (const auto& txd : m_mempool.getMemoryPool()) {
+    if (m_blockchain.haveTransaction(txd.id)) {
+      Transaction tx;
+      size_t blobSize;
+      uint64_t fee;
+      m_mempool.take_tx(txd.id, tx, blobSize, fee);
+    }
+  }
+
   r = m_miner->init(minerConfig);
   if (!(r)) {
     logger(ERROR, BRIGHT_RED) << "Failed to initialize blockchain storage";
-- 
2.43.0


From bf233617ca1d8d46cee162035e4f4f6c077b6d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:40 +0000
Subject: [PATCH 17/40] fix: a chain switch is not given up because an old
 block cannot be kept as alternative

---
 src/CryptoNoteCore/Blockchain.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index d388349..83f46a9 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1310,9 +1310,9 @@ namespace cn
           bool r = handle_alternative_block(old_ch_ent, get_block_hash(old_ch_ent), bvc, false);
           if (!r)
           {
-            logger(ERROR, BRIGHT_RED) << "Failed to push ex-main chain blocks to alternative chain ";
-            rollback_blockchain_switching(disconnected_chain, split_height);
-            return false;
+            // e.g. too deep below the new top, or taken without proof of work in the checkpoint zone:
+            // it cannot be kept as an alternative, which is no reason to give up the better chain
+            logger(WARNING, BRIGHT_YELLOW) << "Ex-main chain block " << get_block_hash(old_ch_ent) << " is not kept as alternative";
           }
         }
       }
-- 
2.43.0


From a88eda2d3a11e164413a8b7d497911b61c0bab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:05 +0000
Subject: [PATCH 18/40] fix: a block is in the block file before the block
 index counts it

---
 src/CryptoNoteCore/SwappedVector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index 54356d4..ab59fc8 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -362,6 +362,12 @@ template<class T> void SwappedVector<T>::push_back(const T& item) {
     serialize(const_cast<T&>(item), archive);
 
     itemsFileSize = m_itemsFile.tellp();
+
+    // the item must be in the file before the index counts it
+    m_itemsFile.flush();
+    if (!m_itemsFile) {
+      throw std::runtime_error("SwappedVector::push_back");
+    }
   }
 
   {
-- 
2.43.0


From 92021764fa32f22740b2bbc5e8c58fea8f1724ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 19/40] fix: core::getBlockTimestamp read one past the end of
 the chain when asked for the height of the next block

---
 src/CryptoNoteCore/Core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 68b9017..7357b2c 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -957,7 +957,7 @@ bool core::getBlockDifficulty(uint32_t height, difficulty_type& difficulty) {
 
 bool core::getBlockTimestamp(uint32_t height, uint64_t &timestamp)
 {
-  if (height > get_current_blockchain_height())
+  if (height >= get_current_blockchain_height())
   {
     return false;
   }
-- 
2.43.0


From ff8de7bde83f99cec151d61c3eba64e635769b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 20/40] fix: global output indexes of a transaction without
 outputs were reported as an internal error

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 83f46a9..f870a89 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1949,7 +1949,7 @@ namespace cn
       }
       else {
         const TransactionEntry& tx = transactionByIndex(it->second);
-        if (!(tx.m_global_output_indexes.size())) { 
+        if (tx.m_global_output_indexes.size() != tx.tx.outputs.size()) { 
           logger(ERROR, BRIGHT_RED) << "Internal error: global indexes for transaction " << tx_id << " is empty"; 
           return false;
         }
@@ -2202,7 +2202,7 @@ namespace cn
     }
 
     const TransactionEntry &tx = transactionByIndex(it->second);
-    if (!(tx.m_global_output_indexes.size()))
+    if (tx.m_global_output_indexes.size() != tx.tx.outputs.size())
     {
       logger(ERROR, BRIGHT_RED) << "internal error: global indexes for transaction " << tx_id << " is empty";
       return false;
-- 
2.43.0


From 002df22fee6716418db0d5d5ca38af8e0e6d3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 21/40] fix: getTransfer() of a spent transfer returned what a
 past-the-end iterator pointed at

---
 src/Transfers/TransfersContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
-- 
2.43.0


From 88c3aeae52e2d522a4b4b8e4a95aca5ef4ff7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 22/40] fix: a wallet loaded from the first transfers format
 failed at the unlock height of a spent output

---
 src/Transfers/TransfersContainer.cpp | 10 ++--------
 src/Transfers/TransfersContainer.h   |  3 +--
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 5ee3cc9..1e4afc8 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -896,7 +896,7 @@ void TransfersContainer::load(std::istream& in) {
   if (version != 0) {
     readSequence<TransferUnlockJob>(std::inserter(transfersUnlockJobs, transfersUnlockJobs.end()), "transfersUnlockJobs", s);
   } else {
-    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers, spentTransfers);
+    rebuildTransfersUnlockJobs(transfersUnlockJobs, availableTransfers);
   }
 
   m_currentHeight = currentHeight;
@@ -907,18 +907,12 @@ void TransfersContainer::load(std::istream& in) {
   m_transfersUnlockJobs = std::move(transfersUnlockJobs);
 }
 
-void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-    const SpentTransfersMultiIndex& spentTransfers) {
+void TransfersContainer::rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers) {
 
   for (auto it = availableTransfers.begin(); it != availableTransfers.end(); ++it) {
     TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
     transfersUnlockJobs.emplace(std::move(job));
   }
-
-  for (auto it = spentTransfers.begin(); it != spentTransfers.end(); ++it) {
-    TransferUnlockJob job = makeTransferUnlockJob(*it, static_cast<uint32_t>(m_transactionSpendableAge));
-    transfersUnlockJobs.emplace(std::move(job));
-  }
 }
 
 bool TransfersContainer::isSpendTimeUnlocked(const TransactionOutputInformationEx& info) const {
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index ec9765b..26da24d 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -359,8 +359,7 @@ private:
 
   void copyToSpent(const TransactionBlockInfo& block, const ITransactionReader& tx, size_t inputIndex, const TransactionOutputInformationEx& output);
 
-  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers,
-                                  const SpentTransfersMultiIndex& spentTransfers);
+  void rebuildTransfersUnlockJobs(TransfersUnlockMultiIndex& transfersUnlockJobs, const AvailableTransfersMultiIndex& availableTransfers);
   std::vector<TransactionOutputInformation> doAdvanceHeight(uint32_t height);
 
 private:
-- 
2.43.0


From 3adeadbf0bec69c76638eb807b2175085aa2f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 23/40] fix: after save and load a rollback could keep an
 output of a deleted transaction as available

---
 src/Transfers/TransfersContainer.cpp | 17 +++++++++++++++--
 src/Transfers/TransfersContainer.h   |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 1e4afc8..6f03f02 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -464,7 +464,7 @@ bool TransfersContainer::markTransactionConfirmed(const TransactionBlockInfo& bl
 /**
  * \pre m_mutex is locked.
  */
-void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transactionHash) {
+void TransfersContainer::releaseSpentTransfers(const crypto::Hash& transactionHash) {
   auto& spendingTransactionIndex = m_spentTransfers.get<SpendingTransactionIndex>();
   auto spentTransfersRange = spendingTransactionIndex.equal_range(transactionHash);
   for (auto it = spentTransfersRange.first; it != spentTransfersRange.second;) {
@@ -482,6 +482,13 @@ void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transact
       updateTransfersVisibility(result.first->keyImage);
     }
   }
+}
+
+/**
+ * \pre m_mutex is locked.
+ */
+void TransfersContainer::deleteTransactionTransfers(const crypto::Hash& transactionHash) {
+  releaseSpentTransfers(transactionHash);
 
   auto unconfirmedTransfersRange = m_unconfirmedTransfers.get<ContainingTransactionIndex>().equal_range(transactionHash);
   for (auto it = unconfirmedTransfersRange.first; it != unconfirmedTransfersRange.second;) {
@@ -555,12 +562,18 @@ void TransfersContainer::detach(uint32_t height, std::vector<crypto::Hash>& dele
     }
 
     if (doDelete) {
-      deleteTransactionTransfers(it->transactionHash);
+      // A transaction may spend an output of another one from the same block, and the order of transactions of one
+      // height isn't kept by save/load, so everything is released before anything is deleted
+      releaseSpentTransfers(it->transactionHash);
       deletedTransactions.emplace_back(it->transactionHash);
       it = blockHeightIndex.erase(it);
     }
   }
 
+  for (const auto& transactionHash : deletedTransactions) {
+    deleteTransactionTransfers(transactionHash);
+  }
+
   uint32_t prevHeight = m_currentHeight;
 
   // TODO: notification on detach
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index 26da24d..a14f623 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -345,6 +345,7 @@ private:
   bool addTransactionOutputs(const TransactionBlockInfo& block, const ITransactionReader& tx,
                              const std::vector<TransactionOutputInformationIn>& transfers);
   bool addTransactionInputs(const TransactionBlockInfo& block, const ITransactionReader& tx);
+  void releaseSpentTransfers(const crypto::Hash& transactionHash);
   void deleteTransactionTransfers(const crypto::Hash& transactionHash);
   bool isSpendTimeUnlocked(const TransactionOutputInformationEx& info) const;
   bool isIncluded(const TransactionOutputInformationEx& info, uint32_t flags) const;
-- 
2.43.0


From 816661fef3ee96434a155703b2f7185f70755364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 24/40] fix: appending an element of a full file-backed vector
 to itself read unmapped memory

---
 src/Common/FileMappedVector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index ca4d433..ca602ee 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -642,11 +642,14 @@ template<class T>
 void FileMappedVector<T>::push_back(const T& val) {
   assert(isOpened());
 
+  // val may be an element of this vector, reserve() unmaps it
+  const T value = val;
+
   if (capacity() == size()) {
     reserve(nextCapacity());
   }
 
-  vectorDataPtr()[size()] = val;
+  vectorDataPtr()[size()] = value;
   flushElement(size());
 
   ++(*sizePtr());
-- 
2.43.0


From 0dcdccb5f15ac69a1229f84885c311454dbb5c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 25/40] fix: a file-backed vector whose creation was
 interrupted could not be opened, or opened with a wrong layout

---
 src/Common/FileMappedVector.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index ca602ee..a082cfc 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -312,6 +312,7 @@ private:
 
   void open(const std::string& path, uint64_t prefixSize);
   void create(const std::string& path, uint64_t initialCapacity, uint64_t prefixSize, uint64_t suffixSize);
+  void createAtomically(const std::string& path, uint64_t initialCapacity, uint64_t prefixSize);
 
   uint8_t* prefixPtr();
   const uint8_t* prefixPtr() const;
@@ -370,12 +371,16 @@ void FileMappedVector<T>::open(const std::string& path, FileMappedVectorOpenMode
   if (mode == FileMappedVectorOpenMode::OPEN) {
     open(path, prefixSize);
   } else if (mode == FileMappedVectorOpenMode::CREATE) {
-    create(path, initialCapacity, prefixSize, 0);
+    if (fileExists) {
+      throw std::system_error(std::make_error_code(std::errc::file_exists), "FileMappedVector::open");
+    }
+
+    createAtomically(path, initialCapacity, prefixSize);
   } else if (mode == FileMappedVectorOpenMode::OPEN_OR_CREATE) {
     if (fileExists) {
       open(path, prefixSize);
     } else {
-      create(path, initialCapacity, prefixSize, 0);
+      createAtomically(path, initialCapacity, prefixSize);
     }
   } else {
     throw std::runtime_error("FileMappedVector: Unsupported open mode: " + std::to_string(static_cast<int>(mode)));
@@ -866,6 +871,24 @@ void FileMappedVector<T>::create(const std::string& path, uint64_t initialCapaci
   m_file.flush(reinterpret_cast<uint8_t*>(sizePtr()), metadataSize);
 }
 
+template<class T>
+void FileMappedVector<T>::createAtomically(const std::string& path, uint64_t initialCapacity, uint64_t prefixSize) {
+  // An interrupted creation must not leave a file which is not a vector under this name
+  boost::filesystem::path tmpPath = path + ".tmp";
+  boost::filesystem::remove(tmpPath);
+
+  tools::ScopeExit failExitHandler([this, &tmpPath] {
+    std::error_code ignore;
+    close(ignore);
+    boost::system::error_code ignoreRemove;
+    boost::filesystem::remove(tmpPath, ignoreRemove);
+  });
+
+  create(tmpPath.string(), initialCapacity, prefixSize, 0);
+  rename(path);
+  failExitHandler.cancel();
+}
+
 template<class T>
 uint8_t* FileMappedVector<T>::prefixPtr() {
   return m_file.data();
-- 
2.43.0


From 24845f0b8aaf0f0012ee4754d4e0fcff3f1de031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 26/40] fix: a file-backed vector that failed to open or map
 its file stayed opened

---
 src/Common/FileMappedVector.h                  | 7 +++++++
 src/Platform/Linux/System/MemoryMappedFile.cpp | 2 ++
 src/Platform/OSX/System/MemoryMappedFile.cpp   | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index a082cfc..b5cd6c9 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -844,6 +844,12 @@ void FileMappedVector<T>::open(const std::string& path, uint64_t prefixSize) {
   m_file.open(path);
   m_path = path;
 
+  // A vector that could not be opened is not left mapped
+  tools::ScopeExit failExitHandler([this] {
+    std::error_code ignore;
+    close(ignore);
+  });
+
   if (m_file.size() < prefixSize + metadataSize) {
     throw std::runtime_error("FileMappedVector::open() file is too small");
   }
@@ -858,6 +864,7 @@ void FileMappedVector<T>::open(const std::string& path, uint64_t prefixSize) {
   }
 
   m_suffixSize = m_file.size() - minRequiredFileSize;
+  failExitHandler.cancel();
 }
 
 template<class T>
diff --git a/src/Platform/Linux/System/MemoryMappedFile.cpp b/src/Platform/Linux/System/MemoryMappedFile.cpp
index eb66c73..c0cfc00 100644
--- a/src/Platform/Linux/System/MemoryMappedFile.cpp
+++ b/src/Platform/Linux/System/MemoryMappedFile.cpp
@@ -95,6 +95,7 @@ void MemoryMappedFile::create(const std::string& path, uint64_t size, bool overw
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
@@ -142,6 +143,7 @@ void MemoryMappedFile::open(const std::string& path, std::error_code& ec) {
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(m_size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
diff --git a/src/Platform/OSX/System/MemoryMappedFile.cpp b/src/Platform/OSX/System/MemoryMappedFile.cpp
index eb66c73..c0cfc00 100644
--- a/src/Platform/OSX/System/MemoryMappedFile.cpp
+++ b/src/Platform/OSX/System/MemoryMappedFile.cpp
@@ -95,6 +95,7 @@ void MemoryMappedFile::create(const std::string& path, uint64_t size, bool overw
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
@@ -142,6 +143,7 @@ void MemoryMappedFile::open(const std::string& path, std::error_code& ec) {
 
   m_data = reinterpret_cast<uint8_t*>(::mmap(nullptr, static_cast<size_t>(m_size), PROT_READ | PROT_WRITE, MAP_SHARED, m_file, 0));
   if (m_data == MAP_FAILED) {
+    m_data = nullptr;
     return;
   }
 
-- 
2.43.0


From 6d898d79cce0a7a86e1d9beffbb51e5f421e3dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 27/40] fix: a node that died while it created the block index
 could not start again

---
 src/CryptoNoteCore/SwappedVector.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index ab59fc8..f86937f 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -193,7 +193,15 @@ template<class T> bool SwappedVector<T>::open(const std::string& itemFileName, c
 
   m_itemsFile.open(itemFileName, std::ios::in | std::ios::out | std::ios::binary);
   m_indexesFile.open(indexFileName, std::ios::in | std::ios::out | std::ios::binary);
-  if (m_itemsFile && m_indexesFile) {
+  bool exists = m_itemsFile && m_indexesFile;
+  if (exists && m_indexesFile.peek() == std::fstream::traits_type::eof()) {
+    // the process died while it created the index
+    m_itemsFile.close();
+    m_indexesFile.close();
+    exists = false;
+  }
+
+  if (exists) {
     uint64_t count;
     m_indexesFile.read(reinterpret_cast<char*>(&count), sizeof count);
     if (!m_indexesFile) {
-- 
2.43.0


From 62674ebe6ebc182957defa36aedab56f82e484ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:19 +0000
Subject: [PATCH 28/40] fix: a crash while a block replaced a removed one could
 leave an index with the wrong size of the new block

---
 src/CryptoNoteCore/SwappedVector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CryptoNoteCore/SwappedVector.h b/src/CryptoNoteCore/SwappedVector.h
index f86937f..c956215 100644
--- a/src/CryptoNoteCore/SwappedVector.h
+++ b/src/CryptoNoteCore/SwappedVector.h
@@ -324,6 +324,8 @@ template<class T> void SwappedVector<T>::clear() {
   m_indexesFile.seekp(0);
   uint64_t count = 0;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  // the index must not count removed items when their place is written again
+  m_indexesFile.flush();
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::clear");
   }
@@ -342,6 +344,8 @@ template<class T> void SwappedVector<T>::pop_back() {
   m_indexesFile.seekp(0);
   uint64_t count = m_offsets.size() - 1;
   m_indexesFile.write(reinterpret_cast<char*>(&count), sizeof count);
+  // the index must not count removed items when their place is written again
+  m_indexesFile.flush();
   if (!m_indexesFile) {
     throw std::runtime_error("SwappedVector::pop_back");
   }
-- 
2.43.0


From d082194d6ef02a120a06e29426cb75e8b00017d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 29/40] fix: keep the hash and the parsed extra of a
 transaction object in step with appendExtra and
 setDeterministicTransactionSecretKey

---
 src/CryptoNoteCore/Transaction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CryptoNoteCore/Transaction.cpp b/src/CryptoNoteCore/Transaction.cpp
index 56ddc62..0f5a271 100644
--- a/src/CryptoNoteCore/Transaction.cpp
+++ b/src/CryptoNoteCore/Transaction.cpp
@@ -250,6 +250,7 @@ namespace cn {
     transaction.extra = extra.serialize();
 
     secretKey = deterministicTxKeys.secretKey;
+    invalidateHash();
   }
 
   size_t TransactionImpl::addInput(const KeyInput& input) {
@@ -453,6 +454,8 @@ namespace cn {
     checkIfSigning();
     transaction.extra.insert(
       transaction.extra.end(), extraData.begin(), extraData.end());
+    extra.parse(transaction.extra);
+    invalidateHash();
   }
 
   bool TransactionImpl::getExtraNonce(BinaryArray& nonce) const {
-- 
2.43.0


From ca53ff671ba8586fb625e156c578d4555ac0d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 30/40] fix: signing an input that does not exist leaves the
 transaction object as it was

---
 src/CryptoNoteCore/Transaction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CryptoNoteCore/Transaction.cpp b/src/CryptoNoteCore/Transaction.cpp
index 0f5a271..5fd9fd4 100644
--- a/src/CryptoNoteCore/Transaction.cpp
+++ b/src/CryptoNoteCore/Transaction.cpp
@@ -402,14 +402,14 @@ namespace cn {
   }
 
   std::vector<Signature>& TransactionImpl::getSignatures(size_t input) {
+    // check range
+    if (input >= transaction.inputs.size()) {
+      throw std::runtime_error("Invalid input index");
+    }
     // update signatures container size if needed
     if (transaction.signatures.size() < transaction.inputs.size()) {
       transaction.signatures.resize(transaction.inputs.size());
     }
-    // check range
-    if (input >= transaction.signatures.size()) {
-      throw std::runtime_error("Invalid input index");
-    }
 
     return transaction.signatures[input];
   }
-- 
2.43.0


From c5e71dc10411a47f08d0561773061b8e187284f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:58 +0000
Subject: [PATCH 31/40] fix: refuse an extra nonce that does not fit instead of
 dropping it from the transaction

---
 src/CryptoNoteCore/Transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CryptoNoteCore/Transaction.cpp b/src/CryptoNoteCore/Transaction.cpp
index 5fd9fd4..6050444 100644
--- a/src/CryptoNoteCore/Transaction.cpp
+++ b/src/CryptoNoteCore/Transaction.cpp
@@ -444,6 +444,10 @@ namespace cn {
 
   void TransactionImpl::setExtraNonce(const BinaryArray& nonce) {
     checkIfSigning();
+    if (nonce.size() > TX_EXTRA_NONCE_MAX_COUNT) {
+      throw std::runtime_error("Extra nonce is too long");
+    }
+
     TransactionExtraNonce extraNonce = { nonce };
     extra.set(extraNonce);
     transaction.extra = extra.serialize();
-- 
2.43.0


From 3700a5a887a6cf4bbc262a8bd656346056ddbfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 32/40] fix: a field added to transaction extra goes before the
 padding, where it can be read back

---
 src/CryptoNoteCore/TransactionApiExtra.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CryptoNoteCore/TransactionApiExtra.h b/src/CryptoNoteCore/TransactionApiExtra.h
index 1ab7901..068a861 100644
--- a/src/CryptoNoteCore/TransactionApiExtra.h
+++ b/src/CryptoNoteCore/TransactionApiExtra.h
@@ -39,6 +39,8 @@ namespace cn {
       auto it = find(typeid(T));
       if (it != fields.end()) {
         *it = value;
+      } else if (!fields.empty() && fields.back().type() == typeid(cn::TransactionExtraPadding)) {
+        fields.insert(fields.end() - 1, value); // padding is valid at the end only
       } else {
         fields.push_back(value);
       }
-- 
2.43.0


From c0b07fc41a4c50d0051f85de449ee3dde4205aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 33/40] fix: the synchronizer reported success after blocks
 were not taken by a consumer

---
 src/Transfers/BlockchainSynchronizer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 6ef5884..909a260 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -34,6 +34,7 @@ namespace cn {
 BlockchainSynchronizer::BlockchainSynchronizer(INode& node, const Hash& genesisBlockHash) :
   m_node(node),
   m_genesisBlockHash(genesisBlockHash),
+  lastBlockId(NULL_HASH),
   m_currentState(State::stopped),
   m_futureState(State::stopped) {
 }
@@ -336,6 +337,9 @@ BlockchainSynchronizer::GetBlocksRequest BlockchainSynchronizer::getCommonHistor
 }
 
 void BlockchainSynchronizer::startBlockchainSync() {
+  // unknown until the consumers have processed the node's answer, so that a failure is not taken for success by the pool synchronization
+  lastBlockId = NULL_HASH;
+
   GetBlocksResponse response;
   GetBlocksRequest req = getCommonHistory();
 
@@ -407,6 +411,10 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
     auto result = updateConsumers(interval, blocks);
     lk.unlock();
 
+    if (result != UpdateConsumersResult::errorOccurred && !blocks.empty()) {
+      lastBlockId = blocks.back().blockHash;
+    }
+
     switch (result) {
     case UpdateConsumersResult::errorOccurred:
       if (setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; })) {
@@ -429,10 +437,6 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
         std::max(m_node.getKnownBlockCount(), m_node.getLocalBlockCount()));
       break;
     }
-
-    if (!blocks.empty()) {
-      lastBlockId = blocks.back().blockHash;
-    }
   }
 
   if (checkIfShouldStop()) { //Sic!
-- 
2.43.0


From 0e85fd7d952a7f0f1e921a2204b441b26dc0c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 34/40] fix: the synchronizer forgot a new block announced
 while it was failing

---
 src/Transfers/BlockchainSynchronizer.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index 909a260..ed50977 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -361,14 +361,14 @@ void BlockchainSynchronizer::startBlockchainSync() {
       std::error_code ec = queryBlocksWaitFuture.get();
 
       if (ec) {
-        setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; });
+        setFutureStateIf(State::idle, [this] { return m_futureState == State::poolSync; });
         m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, ec);
       } else {
         processBlocks(response);
       }
     }
   } catch (std::exception&) {
-    setFutureStateIf(State::idle,  [this] { return m_futureState != State::stopped; });
+    setFutureStateIf(State::idle, [this] { return m_futureState == State::poolSync; });
     m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, std::make_error_code(std::errc::invalid_argument));
   }
 }
@@ -395,7 +395,7 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
           completeBlock.transactions.push_back(createTransactionPrefix(txShortInfo.txPrefix, reinterpret_cast<const Hash&>(txShortInfo.txId)));
         }
       } catch (std::exception&) {
-        setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; });
+        setFutureStateIf(State::idle, [this] { return m_futureState == State::poolSync; });
         m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, std::make_error_code(std::errc::invalid_argument));
         return;
       }
@@ -417,7 +417,8 @@ void BlockchainSynchronizer::processBlocks(GetBlocksResponse& response) {
 
     switch (result) {
     case UpdateConsumersResult::errorOccurred:
-      if (setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; })) {
+      setFutureStateIf(State::idle, [this] { return m_futureState == State::poolSync; });
+      if (!checkIfShouldStop()) {
         m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, std::make_error_code(std::errc::invalid_argument));
       }
       break;
@@ -487,7 +488,6 @@ void BlockchainSynchronizer::startPoolSync() {
   std::error_code ec = getPoolSymmetricDifferenceSync(std::move(unionRequest), unionResponse);
 
   if (ec) {
-    setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; });
     m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, ec);
   } else { //get union ok
     if (!unionResponse.isLastKnownBlockActual) { //bc outdated
@@ -506,7 +506,6 @@ void BlockchainSynchronizer::startPoolSync() {
         std::error_code ec2 = getPoolSymmetricDifferenceSync(std::move(intersectionRequest), intersectionResponse);
 
         if (ec2) {
-          setFutureStateIf(State::idle, [this] { return m_futureState != State::stopped; });
           m_observerManager.notify(&IBlockchainSynchronizerObserver::synchronizationCompleted, ec2);
         } else { //get intersection ok
           if (!intersectionResponse.isLastKnownBlockActual) { //bc outdated
-- 
2.43.0


From 892e11ceb1b7a7183069825f13c453222a95abde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 35/40] fix: a consumer that left the chain below the node's
 answer kept its stale blocks

---
 src/Transfers/BlockchainSynchronizer.cpp | 29 ++++++++++++++++++++++++
 src/Transfers/BlockchainSynchronizer.h   |  1 +
 2 files changed, 30 insertions(+)

diff --git a/src/Transfers/BlockchainSynchronizer.cpp b/src/Transfers/BlockchainSynchronizer.cpp
index ed50977..9ccd9fb 100644
--- a/src/Transfers/BlockchainSynchronizer.cpp
+++ b/src/Transfers/BlockchainSynchronizer.cpp
@@ -452,6 +452,16 @@ BlockchainSynchronizer::UpdateConsumersResult BlockchainSynchronizer::updateCons
   for (auto& kv : m_consumers) {
     auto result = kv.second->checkInterval(interval);
 
+    if (result.detachRequired && result.detachHeight == interval.startHeight) {
+      // the consumer may have left the node's chain before the interval, which begins where the shortest consumer agrees with the node
+      uint32_t forkHeight = getForkHeight(*kv.second, interval);
+      if (forkHeight < interval.startHeight) {
+        result.detachHeight = forkHeight;
+        result.hasNewBlocks = false;
+        smthChanged = true;
+      }
+    }
+
     if (result.detachRequired) {
       kv.first->onBlockchainDetach(result.detachHeight);
       kv.second->detach(result.detachHeight);
@@ -473,6 +483,25 @@ BlockchainSynchronizer::UpdateConsumersResult BlockchainSynchronizer::updateCons
   return smthChanged ? UpdateConsumersResult::addedNewBlocks : UpdateConsumersResult::nothingChanged;
 }
 
+/// \pre m_consumersMutex is locked
+uint32_t BlockchainSynchronizer::getForkHeight(const SynchronizationState& state, const BlockchainInterval& interval) const {
+  const auto& blocks = state.getKnownBlockHashes();
+
+  for (const auto& kv : m_consumers) {
+    const auto& other = kv.second->getKnownBlockHashes();
+    if (other.size() > interval.startHeight && other[interval.startHeight] == interval.blocks.front()) {
+      uint32_t height = 0;
+      while (height < interval.startHeight && blocks[height] == other[height]) {
+        ++height;
+      }
+
+      return height;
+    }
+  }
+
+  return interval.startHeight;
+}
+
 void BlockchainSynchronizer::startPoolSync() {
   std::unordered_set<crypto::Hash> unionPoolHistory;
   std::unordered_set<crypto::Hash> intersectedPoolHistory;
diff --git a/src/Transfers/BlockchainSynchronizer.h b/src/Transfers/BlockchainSynchronizer.h
index 8d17a25..ae302db 100644
--- a/src/Transfers/BlockchainSynchronizer.h
+++ b/src/Transfers/BlockchainSynchronizer.h
@@ -95,6 +95,7 @@ private:
 
   void processBlocks(GetBlocksResponse& response);
   UpdateConsumersResult updateConsumers(const BlockchainInterval& interval, const std::vector<CompleteBlock>& blocks);
+  uint32_t getForkHeight(const SynchronizationState& state, const BlockchainInterval& interval) const;
   std::error_code processPoolTxs(GetPoolResponse& response);
   std::error_code getPoolSymmetricDifferenceSync(GetPoolRequest&& request, GetPoolResponse& response);
   std::error_code doAddUnconfirmedTransaction(const ITransactionReader& transaction);
-- 
2.43.0


From 3d716728b4c5e675058938f6991f25d9f837e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 36/40] fix: waiting for a context group returned although a
 context spawned meanwhile was still running, and lost that context

---
 src/System/ContextGroup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/System/ContextGroup.cpp b/src/System/ContextGroup.cpp
index 0154ea6..91f10a2 100644
--- a/src/System/ContextGroup.cpp
+++ b/src/System/ContextGroup.cpp
@@ -70,7 +70,8 @@ void ContextGroup::spawn(std::function<void()>&& procedure) {
 }
 
 void ContextGroup::wait() {
-  if (contextGroup.firstContext != nullptr) {
+  // a context may have been spawned after the last one finished and before this waiter was resumed
+  while (contextGroup.firstContext != nullptr) {
     NativeContext* context = dispatcher->getCurrentContext();
     context->next = nullptr;
     if (contextGroup.firstWaiter != nullptr) {
@@ -84,11 +85,6 @@ void ContextGroup::wait() {
     dispatcher->dispatch();
     assert(context == dispatcher->getCurrentContext());
   }
-  
-  for (NativeContext* context = contextGroup.firstContext; context != nullptr; context = context->groupNext) {
-    context->procedure = nullptr;
-    context->interruptProcedure = nullptr;
-  }
 }
 
 }
-- 
2.43.0


From 75e7bbfdca11c202895fc99e138a5bb7e1fa0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 37/40] fix: an interrupt of a sleep that had just ended was
 lost

---
 src/Platform/Linux/System/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Platform/Linux/System/Timer.cpp b/src/Platform/Linux/System/Timer.cpp
index 68243c6..d2f4c6f 100644
--- a/src/Platform/Linux/System/Timer.cpp
+++ b/src/Platform/Linux/System/Timer.cpp
@@ -109,7 +109,9 @@ void Timer::sleep(std::chrono::nanoseconds duration) {
               throw std::runtime_error("Timer::interrupt, read failed, "  + lastErrorMessage());
             }
           } else {
+            // the sleep is over, the interrupt is for whatever the context waits for next
             assert(value>0);
+            timerContext->context->interrupted = true;
             dispatcher->pushContext(timerContext->context);
           }
 
-- 
2.43.0


From 92ce5dab2d854211f934719d5a0bdab83f477ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 38/40] fix: a block was relayed back to the peer that sent it,
 and twice to peers that know lite blocks

---
 .../CryptoNoteProtocolHandler.cpp             | 20 ++++++++++++++-----
 .../CryptoNoteProtocolHandler.h               |  1 +
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 9c9ae7a..bc1a8c5 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -320,8 +320,7 @@ int CryptoNoteProtocolHandler::handle_notify_new_block(int command, NOTIFY_NEW_B
     ++arg.hop;
     //TODO: Add here announce protocol usage
     //relay_post_notify<NOTIFY_NEW_BLOCK>(*m_p2p, arg, &context.m_connection_id);
-    relay_block(arg);
-    // relay_block(arg, context);
+    relay_block(arg, &context.m_connection_id);
 
     if (bvc.m_switched_to_alt_chain)
     {
@@ -844,6 +843,11 @@ int CryptoNoteProtocolHandler::handle_request_tx_pool(int command, NOTIFY_REQUES
 }
 
 void CryptoNoteProtocolHandler::relay_block(NOTIFY_NEW_BLOCK::request &arg)
+{
+  relay_block(arg, nullptr);
+}
+
+void CryptoNoteProtocolHandler::relay_block(NOTIFY_NEW_BLOCK::request &arg, const net_connection_id *excludeConnection)
 {
   // generate a lite block request from the received normal block
   NOTIFY_NEW_LITE_BLOCK::request lite_arg;
@@ -862,8 +866,14 @@ void CryptoNoteProtocolHandler::relay_block(NOTIFY_NEW_BLOCK::request &arg)
   std::list<boost::uuids::uuid> liteBlockConnections, normalBlockConnections;
 
   // sort the peers into their support categories
-  m_p2p->for_each_connection([this, &liteBlockConnections, &normalBlockConnections](
+  m_p2p->for_each_connection([this, &liteBlockConnections, &normalBlockConnections, excludeConnection](
                                  const CryptoNoteConnectionContext &ctx, uint64_t peerId) {
+    // the peer that sent the block has it
+    if (excludeConnection != nullptr && ctx.m_connection_id == *excludeConnection)
+    {
+      return;
+    }
+
     if (ctx.version >= P2P_LITE_BLOCKS_PROPOGATION_VERSION)
     {
       logger(logging::DEBUGGING) << ctx << "Peer supports lite-blocks... adding peer to lite block list";
@@ -884,8 +894,8 @@ void CryptoNoteProtocolHandler::relay_block(NOTIFY_NEW_BLOCK::request &arg)
 
   if (!normalBlockConnections.empty())
   {
-    auto buf = LevinProtocol::encode(arg);
-    m_p2p->externalRelayNotifyToAll(NOTIFY_NEW_BLOCK::ID, buf, nullptr);
+    // peers on the lite block list have got theirs
+    m_p2p->externalRelayNotifyToList(NOTIFY_NEW_BLOCK::ID, buf, normalBlockConnections);
   }
 }
 
diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.h b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.h
index e990ac3..33846bd 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.h
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.h
@@ -91,6 +91,7 @@ namespace cn
     //----------------- i_cryptonote_protocol ----------------------------------
     virtual void relay_block(NOTIFY_NEW_BLOCK::request& arg) override;
     virtual void relay_transactions(NOTIFY_NEW_TRANSACTIONS::request& arg) override;
+    void relay_block(NOTIFY_NEW_BLOCK::request& arg, const net_connection_id *excludeConnection);
 
     //----------------------------------------------------------------------------------
     uint32_t get_current_blockchain_height();
-- 
2.43.0


From 00045cae43ae19503b7e9ecd8761c9d56ed2fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 39/40] fix: a block that came as lite block was relayed as
 such to peers that do not know lite blocks

---
 .../CryptoNoteProtocolHandler.cpp                   | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index bc1a8c5..9141879 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -1093,9 +1093,16 @@ int CryptoNoteProtocolHandler::doPushLiteBlock(NOTIFY_NEW_LITE_BLOCK::request ar
     }
     if (bvc.m_added_to_main_chain)
     {
-      ++arg.hop;
-      //TODO: Add here announce protocol usage
-      relay_post_notify<NOTIFY_NEW_LITE_BLOCK>(*m_p2p, arg, &context.m_connection_id);
+      // peers that do not know lite blocks get the whole one
+      NOTIFY_NEW_BLOCK::request full_arg;
+      full_arg.b.block = arg.block;
+      for (const auto &transactionBinary : have_txs)
+      {
+        full_arg.b.txs.push_back(asString(transactionBinary));
+      }
+      full_arg.current_blockchain_height = arg.current_blockchain_height;
+      full_arg.hop = arg.hop + 1;
+      relay_block(full_arg, &context.m_connection_id);
 
       if (bvc.m_switched_to_alt_chain)
       {
-- 
2.43.0


From 2a0568ff432cf1af28a4487f9e02bbf880ee3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 40/40] fix: a peer whose answer claims more blocks than its
 height was neither dropped nor asked again

---
 src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
index 9141879..38ccc73 100644
--- a/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
+++ b/src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp
@@ -425,9 +425,9 @@ int CryptoNoteProtocolHandler::handle_request_get_objects(int command, NOTIFY_RE
 int CryptoNoteProtocolHandler::handle_response_get_objects(int command, NOTIFY_RESPONSE_GET_OBJECTS::request& arg, CryptoNoteConnectionContext& context) {
   logger(logging::TRACE) << context << "NOTIFY_RESPONSE_GET_OBJECTS";
 
-  if (context.m_last_response_height > arg.current_blockchain_height) {
+  if (context.m_last_response_height >= arg.current_blockchain_height) {
     logger(logging::ERROR) << context << "sent wrong NOTIFY_HAVE_OBJECTS: arg.m_current_blockchain_height=" << arg.current_blockchain_height
-      << " < m_last_response_height=" << context.m_last_response_height << ", dropping connection";
+      << " <= m_last_response_height=" << context.m_last_response_height << ", dropping connection";
     context.m_state = CryptoNoteConnectionContext::state_shutdown;
     return 1;
   }
@@ -741,7 +741,8 @@ int CryptoNoteProtocolHandler::handle_response_chain_entry(int command, NOTIFY_R
   context.m_remote_blockchain_height = arg.total_height;
   context.m_last_response_height = arg.start_height + static_cast<uint32_t>(arg.m_block_ids.size()) - 1;
 
-  if (context.m_last_response_height > context.m_remote_blockchain_height)
+  // the last of these blocks has the index m_last_response_height, so that the peer has at least one block more
+  if (context.m_last_response_height >= context.m_remote_blockchain_height)
   {
     logger(logging::ERROR)
         << context
@@ -749,6 +750,7 @@ int CryptoNoteProtocolHandler::handle_response_chain_entry(int command, NOTIFY_R
         << arg.total_height << "\r\nm_start_height=" << arg.start_height
         << "\r\nm_block_ids.size()=" << arg.m_block_ids.size();
     context.m_state = CryptoNoteConnectionContext::state_shutdown;
+    return 1;
   }
 
   for (auto &bl_id : arg.m_block_ids)
-- 
2.43.0

