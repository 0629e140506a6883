#include "codecmsg.h"
namespace codec {
void msgs1(std::vector<Msg>& v) {
  C1(COMMAND_HANDSHAKE, KV)
  T1(CORE_SYNC_DATA, KV)
  T1(TransactionPrefixInfo, KV)
  C1(NOTIFY_NEW_TRANSACTIONS, KV)
  C1(NOTIFY_RESPONSE_CHAIN_ENTRY, KV)
  C1(COMMAND_RPC_QUERY_BLOCKS_LITE, KV)
  C1(COMMAND_RPC_GET_BLOCK_DETAILS_BY_HEIGHT, JS)
  C1(COMMAND_RPC_GET_BLOCK_HEADER_BY_HASH, JS)
  C1(COMMAND_RPC_GET_HEIGHT, JS)
  C1(COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_JSON, JS)
  C1(COMMAND_RPC_STOP_DAEMON, JS)
  C1(F_COMMAND_RPC_GET_BLOCKS_LIST, JS)
  C1(K_COMMAND_RPC_CHECK_RESERVE_PROOF, JS)
  T1(reserve_proof_entry, KV)
}
}
