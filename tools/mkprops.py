#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
BC="src/CryptoNoteCore/Blockchain.cpp"
p("C01","Ledger state is a function of the main chain alone",
"After any history of accepted blocks, alternative blocks, reorganizations, rollbacks and refused blocks, every observable of the ledger (blocks, transactions, spent key images, output lists and their global indices, deposit totals, emitted coins, cumulative work, payment-id and timestamp lookups, next difficulty) equals that of a node that was fed only the final main chain. A block that is disconnected leaves nothing behind.",
["histories"],"all interleavings of block arrival, side chains, reorganizations, operator rollbacks, refused blocks and transactions",
"core_tests replay about a hundred scripted chains and look at a few balances each; none compares the whole state with a fresh node, none uses rollback, and none looks at state after a refused block.",
[BC,"src/CryptoNoteCore/Blockchain.h","src/CryptoNoteCore/BlockchainIndices.cpp","src/CryptoNoteCore/BlockIndex.cpp","src/CryptoNoteCore/DepositIndex.cpp","src/CryptoNoteCore/UpgradeDetector.h"],
[("pushBlock/popBlock are inverses","Blockchain.cpp: pushBlock, popBlock, pushTransaction, popTransaction"),("reorganization","Blockchain.cpp: switch_to_alternative_blockchain, rollback_blockchain_switching"),("operator rollback","Blockchain.cpp: rollbackBlockchainTo, removeLastBlock")],
["cn::core query interface (ICore), cn::Blockchain public queries"])
p("C02","No coin is spent twice",
"On the main chain each key image appears at most once and each multisignature or deposit output is consumed at most once, whatever mix of transactions, blocks, side chains and reorganizations is submitted. A transaction that spends something already spent on the main chain, or twice within itself or its block, is never confirmed; a coin freed by a reorganization is spendable again.",
["histories","inputs"],"all sequences of submissions in which transactions and blocks compete for the same outputs",
"Existing double spend tests each cover one fixed arrangement (same block, different block, alt chain); the guarantee is over every arrangement, including after a reorganization or a refused block.",
[BC,"src/CryptoNoteCore/TransactionPool.cpp","src/CryptoNoteCore/Core.cpp"],
[("spent key set","Blockchain.cpp: check_tx_input, have_tx_keyimg_as_spent, pushTransaction"),("multisignature usage flag","Blockchain.cpp: validateInput, pushTransaction, popTransaction"),("pool conflict set","TransactionPool.cpp: haveSpentInputs, addTransactionInputs")],
["main-chain contents through core::getBlocks/getTransactions"])
p("C03","Money is created only by block rewards and deposit interest",
"In every accepted block the coinbase pays the emission schedule's reward plus the fees of its transactions and no more than the protocol's rounding tolerance above it, every other transaction pays out no more than it consumes plus interest due on matured deposits, and the reported number of emitted coins is the exact sum of rewards and interest over the main chain. A block or transaction that would create more is refused.",
["histories","inputs"],"all chains and all perturbations of amounts, rewards, fees, block sizes and deposit terms",
"block_reward tests check a handful of sizes and over/under-payments; no test sums the ledger, and none mixes deposits, fees, penalties and reorganizations.",
[BC,"src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/Core.cpp"],
[("reward check","Blockchain.cpp: validate_miner_transaction; Currency.cpp: getBlockReward"),("in/out balance","Core.cpp: check_tx_semantic; Currency.cpp: getTransactionAllInputsAmount, getTransactionFee; TransactionPool.cpp: add_tx"),("emission counter","Blockchain.cpp: pushBlock already_generated_coins")],
["coinbase amounts, getAlreadyGeneratedCoins, getTotalGeneratedAmount"])
p("C04","Invalid blocks and transactions are refused without a trace",
"A block or transaction that violates a consensus rule (wrong version, previous hash, timestamp, proof of work, coinbase shape, missing or duplicate transactions, bad ring or multisignature, immature or unknown inputs, amounts that overflow or do not balance, oversize) is refused on every path it can arrive by, and refusing it changes no observable of the chain or pool. The unmodified original is accepted afterwards.",
["inputs","histories"],"all single and combined corruptions of otherwise valid blocks and transactions at any chain position",
"core_tests have one hand-written case per rule and only look at the accept/reject flag, not at what the rejection left behind or whether the good block is still accepted.",
[BC,"src/CryptoNoteCore/Core.cpp","src/CryptoNoteCore/TransactionPool.cpp","src/CryptoNoteCore/CryptoNoteFormatUtils.cpp"],
[("block checks","Blockchain.cpp: pushBlock, prevalidate_miner_transaction, checkTransactionInputs, checkCumulativeBlockSize, handle_alternative_block"),("transaction checks","Core.cpp: check_tx_semantic, check_tx_inputs_keyimages_diff; TransactionPool.cpp: add_tx")],
["core::handle_incoming_block_blob / handle_incoming_tx results and the state digest"])
p("C05","The node follows the chain with the most work, all or nothing",
"Among the valid chains it has been given that do not cross a checkpoint or the reorganization depth limit and that keep every transaction the current chain has confirmed, the node's main chain always has the greatest cumulative work it has seen; ties keep the current chain. A reorganization either completes to the heavier chain or leaves exactly the previous chain, and a valid heavier branch is adopted regardless of the order in which its blocks arrive after their parents.",
["histories"],"all block trees and parent-first arrival orders, including branches that turn out to be invalid half-way",
"chain_switch tests cover two fixed trees; arrival orders, invalid tails and repeated switches are not explored.",
[BC],[("alternative chain handling","Blockchain.cpp: handle_alternative_block, switch_to_alternative_blockchain"),("undo","Blockchain.cpp: rollback_blockchain_switching")],["core::get_tail_id, getBlockCumulativeDifficulty"])
p("C06","A restart restores the same ledger, even with damaged caches",
"After saving and reopening, or reopening when the auxiliary cache files are missing, stale, truncated or from another chain position, the node reports exactly the ledger it had for the blocks on disk, and keeps accepting what a node that never restarted would accept. Cache files are an optimisation: their loss or damage never changes an answer.",
["histories","crash_points","fault_sequences"],"all chain histories, save points, stop points between saves, and removals/truncations/staleness of each auxiliary file",
"No test restarts a node on an existing data directory with a non-empty chain, and none damages a cache file.",
[BC,"src/CryptoNoteCore/SwappedVector.h","src/CryptoNoteCore/Blockchain.h"],[("cache load with tail check","Blockchain.cpp: init, BlockCacheSerializer, loadBlockchainIndices"),("rebuild","Blockchain.cpp: rebuildCache"),("block store","SwappedVector.h: open, push_back, pop_back")],
["core queries after core::deinit and a new core::init on the same directory"])
p("C07","Deposits stay locked for their term, pay the quoted interest, and are counted",
"A term deposit cannot be consumed before its creation height plus its term, can be consumed by its owner's key exactly once afterwards, pays exactly the interest that the currency rules give for its amount, term and the height at which it is withdrawn, and is only accepted when amount and term are within the limits in force. The node's locked-deposit and interest totals at every height equal what the main chain's transactions imply.",
["histories","inputs"],"all deposit and withdrawal histories with any amounts, terms and heights, across reorganizations and rollbacks",
"TestBcS/DepositTests exercise fixed single deposits (and are partly excluded from the build); DepositIndex tests drive it without a chain.",
[BC,"src/CryptoNoteCore/DepositIndex.cpp","src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/TransactionPool.cpp"],
[("maturity check","Blockchain.cpp: validateInput"),("limits","Core.cpp/Blockchain.cpp: check_tx_outputs; Currency.cpp: validateOutput"),("totals","DepositIndex.cpp; Blockchain.cpp: pushToDepositIndex, popBlock")],
["depositAmountAtHeight, depositInterestAtHeight, fullDepositAmount"])
p("C08","Block templates handed to miners are valid and complete",
"A block template produced at any moment, once its proof of work is found, is accepted as the next main-chain block; it pays the requested address the full reward plus the fees of the transactions it lists, stays within the size limit, and contains no conflicting, immature or expired transaction.",
["histories"],"all pool contents and chain positions, including pools holding transactions that became invalid",
"Existing tests mine from templates over empty or single-transaction pools only.",
["src/CryptoNoteCore/Core.cpp","src/CryptoNoteCore/TransactionPool.cpp","src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/Miner.cpp"],
[("template assembly","Core.cpp: get_block_template; TransactionPool.cpp: fill_block_template, is_transaction_ready_to_go"),("miner transaction","Currency.cpp: constructMinerTx")],["core::get_block_template followed by handle_block_found"])
p("C09","Every chain query agrees with the blocks on the main chain",
"Looking up blocks by height, hash or timestamp, transactions by hash or payment id, outputs by amount and global index, containing blocks, generated-transaction counts, block id ranges and synchronisation supplements always returns what a linear scan of the main chain returns. The synchronisation answer starts at the most recent block the asker shares with the main chain and never skips a block.",
["histories","inputs"],"all chains with forks and reorganizations, all query arguments including out-of-range ones",
"Index classes are unit-tested alone with hand-made entries; no test compares them with the chain after reorganizations or asks with arbitrary arguments.",
[BC,"src/CryptoNoteCore/BlockchainIndices.cpp","src/CryptoNoteCore/BlockIndex.cpp","src/CryptoNoteCore/Core.cpp"],
[("secondary indices","BlockchainIndices.cpp"),("sync lookups","Blockchain.cpp: findBlockchainSupplement, buildSparseChain, getBlocks, getLowerBound; Core.cpp: queryBlocks, queryBlocksLite"),("global output indices","Blockchain.cpp: m_outputs, getTransactionOutputGlobalIndexes, getRandomOutsByAmount")],["core query interface"])
p("C10","Checkpoints and reorganization limits always bind",
"A block whose height carries a checkpoint is accepted only with that hash, and no alternative block at or below the last checkpoint passed (checkpoint height at most the number of blocks), at height zero, or deeper than the allowed reorganization depth (outside the checkpoint zone) is accepted. Adding checkpoints never changes an already recorded one.",
["inputs","configurations"],"all checkpoint sets, chain heights, candidate heights and hashes",
"Checkpoints.cpp unit tests use a handful of heights and one or two checkpoints.",
["src/CryptoNoteCore/Checkpoints.cpp",BC],[("policy","Checkpoints.cpp: check_block, is_alternative_block_allowed, is_in_checkpoint_zone, add_checkpoint, load_checkpoints_from_file")],["Checkpoints public API, block acceptance"])
p("P01","The transaction pool is conflict-free, bounded in time, and mirrors the chain",
"At every moment no two pool transactions admitted by relay spend the same output (transactions a received block brought may conflict with them; a template never lists both), none is already on the main chain, none has an expired time-to-live or has outlived its allowed age after maintenance, and pool lookups (by hash, payment id, timestamp, difference queries) agree with its contents. A transaction confirmed by a block leaves the pool, and one freed by a reorganization returns to it if still valid; saving and reloading the pool preserves it.",
["histories"],"all sequences of submissions, conflicting transactions, blocks, reorganizations, clock advances and restarts",
"Pool unit tests add one or a few transactions in fixed order; the clock, TTL and reorganization interplay is sampled at single points.",
["src/CryptoNoteCore/TransactionPool.cpp","src/CryptoNoteCore/Core.cpp"],[("admission","TransactionPool.cpp: add_tx, checkForConflicts"),("removal","TransactionPool.cpp: take_tx, removeExpiredTransactions, removeTransaction"),("indices","TransactionPool.cpp: m_paymentIdIndex, m_timestampIndex, m_ttlIndex, m_spent_key_images, m_spentOutputs")],["core::getPoolTransactions, getPoolChanges, get_pool_transactions_count"])
p("U01","Deposit interest follows the published schedule",
"For every amount, term and creation height the interest granted equals the published rate schedule of the interest version in force at that height computed in exact arithmetic, never overflows or goes negative, is monotone in the amount, and terms outside the limits earn nothing beyond the rules. Total input value of a withdrawal is its amount plus that interest.",
["inputs"],"all amounts up to the money supply, all terms, all heights and both networks",
"InterestTests sample a few dozen amounts and terms.",
["src/CryptoNoteCore/Currency.cpp","src/CryptoNoteConfig.h"],[("interest","Currency.cpp: calculateInterest, calculateInterestV2, calculateInterestV3, getInterestForInput, getTransactionInputAmount")],["Currency public API"])
p("U02","Block reward follows the emission schedule and the size penalty",
"For every height, already emitted amount, median size and block size the reward is the scheduled base reward reduced by the quadratic oversize penalty and increased by fees exactly as in wide-integer arithmetic, blocks beyond twice the median are refused, and miner transactions built from it split the reward into canonical amounts summing to it exactly.",
["inputs"],"all heights, supplies, medians, sizes and fees",
"Block reward tests sample fixed sizes with a default currency.",
["src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/CryptoNoteBasicImpl.cpp","src/CryptoNoteCore/CryptoNoteFormatUtils.h"],[("reward","Currency.cpp: baseRewardFunction, getBlockReward, constructMinerTx; CryptoNoteBasicImpl.cpp: getPenalizedAmount"),("decomposition","CryptoNoteFormatUtils.h: decompose_amount_into_digits")],["Currency public API"])
p("U03","Difficulty retargeting equals its specification",
"For every history of timestamps and cumulative work the next difficulty equals the algorithm specified for the block version and height, is never zero while blocks carry realistic work, stays within the clamps the algorithm promises, does not depend on out-of-window blocks, and rises or falls in the direction of hash rate.",
["inputs","histories"],"all timestamp and cumulative-difficulty windows, heights, versions and networks",
"difficulty_tests replay one recorded series for one algorithm.",
["src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/Difficulty.cpp"],[("retarget","Currency.cpp: nextDifficulty, nextDifficultyLWMA1, nextDifficultyLWMA3 and related"),("work check","Difficulty.cpp: check_hash")],["Currency::nextDifficulty, check_hash"])
p("U04","Amounts, addresses and denominations convert without loss",
"Every amount formats to text that parses back to itself and no malformed or overflowing text is accepted; every account address converts to text and back, and any text with a typing error or another network's prefix is refused. Splitting an amount into denominations always sums to it and uses only canonical denominations, and fusion transactions are recognised exactly by the published rules.",
["inputs"],"all 64-bit amounts, all strings near the amount grammar, all key pairs and all small corruptions of addresses",
"Formatting and address tests are short fixed tables.",
["src/CryptoNoteCore/Currency.cpp","src/CryptoNoteCore/CryptoNoteBasicImpl.cpp","src/Common/Base58.cpp"],[("amount text","Currency.cpp: formatAmount, parseAmount"),("address text","Currency.cpp: accountAddressAsString, parseAccountAddressString; Base58.cpp: encode_addr, decode_addr"),("fusion","Currency.cpp: isFusionTransaction, isAmountApplicableInFusionTransactionInput")],["Currency public API"])
p("S01","Transactions and blocks have exactly one binary form",
"Every transaction, block and wallet-to-node structure encodes to bytes that decode to an equal value, and any byte string that decodes at all re-encodes to exactly the same bytes, so a transaction or block identifier commits to the bytes received. Changing any encoded field changes the identifier.",
["inputs"],"all well-formed values and all byte strings near well-formed encodings",
"Serialization tests use a few literal blobs; canonicality (decode then encode) is not tested.",
["src/CryptoNoteCore/CryptoNoteSerialization.cpp","src/Serialization/BinaryInputStreamSerializer.cpp","src/Serialization/BinaryOutputStreamSerializer.cpp","src/Common/StreamTools.cpp","src/CryptoNoteCore/CryptoNoteTools.h"],[("binary format","CryptoNoteSerialization.cpp; BinaryInputStreamSerializer.cpp"),("varints","StreamTools.cpp: readVarint, writeVarint; Common/Varint.h")],["toBinaryArray/fromBinaryArray, getObjectHash, get_block_hash"])
p("S02","Untrusted bytes are handled or refused cleanly",
"Whatever bytes arrive as a block, transaction, transaction extra, peer message, binary key-value document, JSON text, HTTP request or response, checkpoint or wallet file, decoding ends promptly with a value or a clean refusal: no crash, no out-of-bounds access, no unbounded memory or recursion, no hang.",
["inputs"],"all byte strings, in particular mutations of valid messages and adversarial lengths and nesting",
"Only a few malformed literals are tested; nothing fuzzes the decoders or runs them under memory checking.",
["src/Serialization/KVBinaryInputStreamSerializer.cpp","src/Serialization/JsonInputValueSerializer.cpp","src/Common/JsonValue.cpp","src/HTTP/HttpParser.cpp","src/P2p/LevinProtocol.cpp","src/CryptoNoteCore/TransactionExtra.cpp","src/CryptoNoteCore/CryptoNoteSerialization.cpp","src/Serialization/SerializationOverloads.h"],[("bounds checks","StreamTools.cpp: read; BinaryInputStreamSerializer.cpp: beginArray; KVBinaryInputStreamSerializer.cpp: readString; LevinProtocol.cpp: readCommand")],["decoder entry points under AddressSanitizer with memory and time limits"])
p("S03","Protocol and RPC messages survive their encodings",
"Every peer-to-peer and RPC message, encoded as key-value binary or as JSON, decodes to an equal message, independent of the order or presence of unknown fields; JSON text produced by the node always parses back to the same value, including strings with quotes, control characters and non-ASCII bytes.",
["inputs"],"all field values, container sizes across every length-encoding boundary, and all strings",
"Round trips are tested for one or two structures with small literals.",
["src/Serialization/KVBinaryOutputStreamSerializer.cpp","src/Serialization/KVBinaryInputStreamSerializer.cpp","src/Serialization/JsonOutputStreamSerializer.cpp","src/Serialization/JsonInputValueSerializer.cpp","src/Common/JsonValue.cpp","src/P2p/P2pProtocolDefinitions.h","src/CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h","src/Rpc/CoreRpcServerCommandsDefinitions.h"],[("key-value binary","KVBinaryOutputStreamSerializer.cpp, KVBinaryInputStreamSerializer.cpp"),("JSON","JsonValue.cpp: operator<<, operator>>; JsonOutputStreamSerializer.cpp")],["storeToBinaryKeyValue/loadFromBinaryKeyValue, storeToJson/loadFromJson"])
p("S04","Transaction extra fields are preserved exactly",
"Any list of extra fields (public key, nonce, payment id, merge-mining tag, message, time-to-live, padding) written into a transaction extra is read back in order and unchanged, wherever it sits and whatever follows it, and each accessor (public key, payment id, messages, time-to-live) reports exactly the field that was written.",
["inputs"],"all lists of fields with all field sizes and values",
"Existing tests write one or two fields of fixed size.",
["src/CryptoNoteCore/TransactionExtra.cpp","src/CryptoNoteCore/TransactionPrefixImpl.cpp","src/CryptoNoteCore/Transaction.cpp"],[("parse/write","TransactionExtra.cpp: parseTransactionExtra, writeTransactionExtra, appendTTLToExtra, addExtraNonceToTransactionExtra")],["parseTransactionExtra, getPaymentIdFromTxExtra, Transaction API"])
p("S05","Text encodings and seed phrases are lossless and checked",
"Base58, Base64, hexadecimal, and mnemonic encodings of any bytes decode to the same bytes (agreeing with independent implementations), invalid text is refused, and a mnemonic or checksummed Base58 string with any wrong, missing or swapped word or symbol is refused except with the checksum's own collision odds.",
["inputs"],"all byte strings and keys, all single-symbol corruptions",
"Fixed vectors only; Base64 and mnemonics have none beyond a few.",
["src/Common/Base58.cpp","src/Common/Base64.cpp","src/Common/StringTools.cpp","src/Mnemonics/Mnemonics.cpp","src/Mnemonics/CRC32.h"],[("codecs","Base58.cpp, Base64.cpp, StringTools.cpp: fromHex, toHex; Mnemonics.cpp")],["codec functions"])
p("K01","Hash and cipher primitives equal their specifications",
"Keccak hashing, the transaction Merkle tree hash and ChaCha stream encryption produce, for every input length and content, the output of an independent implementation of their specification; proof-of-work hashing is deterministic and independent of scratch state left by earlier calls.",
["inputs","histories"],"all message lengths and contents, all leaf counts, keys and nonces, all call orders on a shared context",
"hash_tests check fixed vectors of a few lengths; context reuse order is not tested.",
["src/crypto/keccak.c","src/crypto/hash.c","src/crypto/tree-hash.c","src/crypto/chacha8.c","src/crypto/cryptonight.cpp"],[("primitives","keccak.c, tree-hash.c, chacha8.c"),("PoW context","cryptonight.cpp, CryptoNoteFormatUtils.cpp: get_block_longhash")],["cn_fast_hash, tree_hash, chacha8, cn_*_hash"])
p("K02","Signatures bind signer, message and ring, and key images link spends",
"A signature or ring signature made with a key verifies for exactly the message, public keys (in order) and key image it was made for: changing any bit of message, keys, key image or signature makes it fail. The same key always yields the same key image and different keys different ones, wherever the real member sits in rings of any size, and points outside the prime-order group are not accepted as key images.",
["inputs"],"all keys, messages, ring sizes and positions, and all single mutations including algebraic ones (scalar plus group order, torsion points)",
"The crypto test vectors are absent from this tree, so signatures are only exercised incidentally.",
["src/crypto/crypto.cpp","src/crypto/crypto-ops.c","src/CryptoNoteCore/Blockchain.cpp"],[("verification","crypto.cpp: check_signature, check_ring_signature, generate_ring_signature"),("key image","crypto.cpp: generate_key_image; Blockchain.cpp: check_tx_input")],["crypto:: public functions"])
p("K03","A payment is recognised and spendable by its recipient and nobody else",
"For every transaction built by the library to any destinations, each recipient's view key recognises exactly the outputs paid to it with the right amounts, its spend key derives the one-time secret matching each output, the sender can prove the same with the transaction key, and any other account recognises none of them.",
["inputs"],"all sender and recipient key sets, output counts, orders and types",
"TransactionApi tests use one or two recipients with fixed output order.",
["src/CryptoNoteCore/Transaction.cpp","src/CryptoNoteCore/CryptoNoteFormatUtils.cpp","src/crypto/crypto.cpp","src/CryptoNoteCore/Account.cpp","src/CryptoNoteCore/TransactionPrefixImpl.cpp"],[("stealth outputs","Transaction.cpp: addOutput; crypto.cpp: derive_public_key, derive_secret_key, underive_public_key"),("scanning","CryptoNoteFormatUtils.cpp: lookup_acc_outs, is_out_to_acc; Transaction.cpp: findOutputsToAccount")],["ITransaction API, lookup_acc_outs"])
p("K04","Encrypted messages are readable only by their recipient",
"A message attached to a transaction and encrypted for an address is recovered byte for byte by that address's keys at any message position, is not recovered under any other key or position, and its ciphertext reveals nothing that depends on the plaintext's position or repetition; unencrypted messages are readable by all.",
["inputs"],"all message contents, lengths, positions, mixes of encrypted and plain messages, and key pairs",
"Message tests use a few fixed strings with one recipient.",
["src/CryptoNoteCore/TransactionExtra.cpp","src/CryptoNoteCore/CryptoNoteFormatUtils.cpp","src/crypto/chacha8.c"],[("encryption","TransactionExtra.cpp: tx_extra_message::encrypt, decrypt, get_messages_from_extra")],["get_messages_from_extra, constructTransaction"])
p("D01","On-disk block and map stores behave like in-memory containers",
"Under any sequence of appends, removals, clears, reads and reopenings, with any cache size, the on-disk vector and map return exactly what an in-memory vector or map would, including after an unclean close between operations.",
["histories","crash_points"],"all operation sequences, element sizes, pool sizes and reopen points",
"No unit test drives the disk vector or map through random sequences or reopenings.",
["src/CryptoNoteCore/SwappedVector.h","src/CryptoNoteCore/SwappedMap.h"],[("vector","SwappedVector.h: open, push_back, pop_back, operator[], prefetch"),("map","SwappedMap.h")],["container public API"])
p("D02","The memory-mapped wallet store survives a crash at any write",
"Under any sequence of inserts, erases, resizes, prefix/suffix changes and transactional updates, the file-mapped container equals an in-memory vector, and if the process stops at any point during an update, reopening yields either the state before or the state after it, never a mixture; a failing update leaves the previous content.",
["histories","crash_points","fault_sequences"],"all operation sequences and all stop points inside an update",
"FileMappedVectorTests run fixed sequences and one recovery scenario each.",
["src/Common/FileMappedVector.h","src/Platform/Linux/System/MemoryMappedFile.cpp","src/Common/FileMappedVector.cpp"],[("atomic update","FileMappedVector.h: atomicUpdate, atomicUpdate0; MemoryMappedFile.cpp: rename, flush")],["FileMappedVector API, reopened files"])
p("W01","Wallet balances always equal what the scanned outputs imply",
"For any history of confirmed and unconfirmed transactions, confirmations, deletions, detaches and height advances, each output of a wallet is counted in exactly one state (unconfirmed, locked, spendable, spent), total and per-state balances equal the sum over those outputs, deposits unlock exactly at their term, and saving and loading changes nothing. Undoing blocks restores the exact earlier state.",
["histories"],"all sequences of container operations with outputs of every type, lock time and term",
"TransfersContainer tests are one scenario each; combinations of detach, unlock and duplicate key images are not explored.",
["src/Transfers/TransfersContainer.cpp","src/Transfers/TransfersContainer.h","src/Transfers/TransfersSubscription.cpp"],[("states","TransfersContainer.cpp: addTransaction, markTransactionConfirmed, deleteUnconfirmedTransaction, detach, advanceHeight, isSpendTimeUnlocked"),("visibility","TransfersContainer.cpp: updateTransfersVisibility")],["ITransfersContainer API"])
p("W02","A wallet that followed reorganizations equals one synchronised from scratch",
"Whatever sequence of blocks, reorganizations, pool changes, saves and reloads a wallet's synchroniser goes through, once it has caught up its transactions, outputs and balances equal those of a new wallet with the same keys synchronised directly against the final chain and pool, and it never reports progress past what it has processed.",
["histories","schedules"],"all chain and pool histories as seen through the node interface, with failures of node queries interspersed",
"Synchroniser tests use mock nodes with one reorganization in a fixed place.",
["src/Transfers/BlockchainSynchronizer.cpp","src/Transfers/TransfersConsumer.cpp","src/Transfers/SynchronizationState.cpp","src/Transfers/TransfersSynchronizer.cpp"],[("reorganization","SynchronizationState.cpp: checkInterval, detach, addBlocks; BlockchainSynchronizer.cpp: processBlocks"),("scan","TransfersConsumer.cpp: onNewBlocks, preprocessOutputs, processTransaction, onBlockchainDetach, onPoolUpdated")],["ITransfersContainer contents after synchronisation"])
p("W03","Container wallets conserve funds and survive save, load and password change",
"For any sequence of address creation and deletion, transfers, deposits, fusion, confirmations and reorganizations, the multi-address wallet's actual plus pending balance equals the chain's view of its addresses, every transaction it sends is valid and pays exactly the requested destinations and fee with change returned, and save then load with the right password restores all of it while a wrong password or damaged file is refused without changing the file.",
["histories","inputs","fault_sequences"],"all operation sequences and transfer requests, all passwords, all single corruptions of the saved file",
"WalletApi tests (many failing at base) drive single transfers; nothing explores sequences or damaged files.",
["src/Wallet/WalletGreen.cpp","src/Wallet/WalletSerializationV2.cpp","src/Wallet/WalletSerializationV1.cpp","src/Wallet/WalletIndices.h"],[("spend","WalletGreen.cpp: doTransfer, prepareTransaction, selectTransfers, splitDestinations"),("balance","WalletGreen.cpp: updateBalance"),("persistence","WalletGreen.cpp: save, load, changePassword; WalletSerializationV2.cpp")],["WalletGreen API"])
p("W04","Single-address wallets keep history, deposits and keys across any session",
"For any sequence of sends, deposits, incoming payments, reorganizations, saves and reloads, the wallet's transaction list, deposit list and balances agree with the chain's view of its address, unconfirmed outgoing amounts are counted exactly once, and the saved file opens only with its password and restores the same keys and history.",
["histories","inputs","fault_sequences"],"all session histories and passwords, all truncations of the saved file",
"WalletLegacy tests run scripted sessions and one wrong-password case.",
["src/WalletLegacy/WalletLegacy.cpp","src/WalletLegacy/WalletUserTransactionsCache.cpp","src/WalletLegacy/WalletUnconfirmedTransactions.cpp","src/WalletLegacy/WalletLegacySerializer.cpp","src/WalletLegacy/WalletTransactionSender.cpp"],[("caches","WalletUserTransactionsCache.cpp, WalletUnconfirmedTransactions.cpp"),("file","WalletLegacySerializer.cpp: serialize, deserialize, loadKeys"),("spend","WalletTransactionSender.cpp: makeSendRequest, selectTransfersToSend")],["IWalletLegacy API"])
p("N01","The peer list stays bounded, clean and honest",
"After any sequence of gossip, connections, failures and reloads, the peer lists hold each address once, in at most one list, within their size limits, never contain unroutable or own addresses where those are excluded, keep the most recently seen peers, and share no more than allowed; gossip cannot displace peers this node has verified itself.",
["histories","inputs"],"all sequences of peer list operations with hostile addresses, times and list sizes",
"Peerlist tests check single appends and merges.",
["src/P2p/PeerListManager.cpp","src/P2p/PeerListManager.h"],[("lists","PeerListManager.cpp: merge_peerlist, append_with_peer_white, append_with_peer_gray, trim_gray_peerlist, trim_white_peerlist")],["PeerlistManager API"])
p("N02","Cooperative tasks run, wait and stop exactly as specified",
"For any program of tasks, events, locks, timers, groups and interruptions on one dispatcher, tasks resume in the order they were made ready, an event wakes all of its waiters and no one else, locks exclude, timers never fire early, waiting on a group returns only when all its tasks ended, and an interrupted task sees exactly one interruption at its next blocking point; nothing runs after shutdown.",
["programs","schedules"],"all programs over the primitives, including interrupts at every state and remote wake-ups from other threads",
"System tests are one scenario per primitive.",
["src/Platform/Linux/System/Dispatcher.cpp","src/System/Event.cpp","src/System/ContextGroup.cpp","src/System/ContextGroupTimeout.cpp","src/System/EventLock.cpp","src/System/RemoteContext.h"],[("scheduler","Dispatcher.cpp: dispatch, pushContext, interrupt, yield"),("primitives","Event.cpp, ContextGroup.cpp, EventLock.cpp")],["platform_system API"])
p("N03","Honest peers converge to the same best chain",
"Nodes that exchange messages only through the peer protocol end up on the same main chain, the one with most work among them, whatever their initial chains, message batching, duplicate, stale or unsolicited messages from other peers; a peer sending invalid data is dropped and causes no state change, and no message crashes or stalls a node.",
["histories","schedules","fault_sequences"],"all initial chain pairs and message orders, with lost connections and hostile messages interspersed",
"Protocol handling is only exercised by integration tests that are not part of the suite.",
["src/CryptoNoteProtocol/CryptoNoteProtocolHandler.cpp","src/P2p/LevinProtocol.cpp"],[("sync","CryptoNoteProtocolHandler.cpp: process_payload_sync_data, handle_request_chain, handle_response_chain_entry, handle_request_get_objects, handle_response_get_objects"),("relay","CryptoNoteProtocolHandler.cpp: handle_notify_new_block, handle_notify_new_transactions, relay_block")],["core tails after message exchange"])
p("R01","HTTP and JSON-RPC exchanges keep request and response intact",
"Any request or response written by the library's HTTP layer is read back with the same method, url, headers, status and body however the bytes are split across reads, consecutive messages on one connection do not bleed into each other, and JSON-RPC requests receive a response with their own id carrying either the result or an error, never both.",
["inputs","schedules"],"all messages, bodies containing delimiters, and all splittings of the byte stream",
"HTTP parsing has no unit test; JSON-RPC has a few literals.",
["src/HTTP/HttpParser.cpp","src/HTTP/HttpRequest.cpp","src/HTTP/HttpResponse.cpp","src/Rpc/JsonRpc.cpp","src/Rpc/JsonRpc.h"],[("http","HttpParser.cpp: receiveRequest, receiveResponse; HttpRequest.cpp, HttpResponse.cpp: operator<<"),("json-rpc","JsonRpc.h: JsonRpcRequest, JsonRpcResponse, invokeMethod")],["HttpParser, JsonRpc classes"])
p("M01","Thread-safe queues and observers lose and duplicate nothing",
"Every item pushed into a blocking or message queue is delivered exactly once in order per producer, closing releases all waiters and accepts no more, a bounded queue never exceeds its bound, and each observer registered for the duration of a notification is called exactly once per event and never after its removal returns.",
["schedules","programs"],"all programs of producers, consumers, closers and observers",
"Queue tests run one timing of a few threads.",
["src/Common/BlockingQueue.h","src/Common/ObserverManager.h","src/CryptoNoteCore/MessageQueue.h"],[("queue","BlockingQueue.h: push, pop, close"),("messages","MessageQueue.h"),("observers","ObserverManager.h")],["class APIs"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
