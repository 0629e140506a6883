#include "codecmsg.h"
namespace codec {
void msgs4(std::vector<Msg>& v) {
  T1(network_config, KV)
  T1(BlockShortInfo, KV)
  C1(NOTIFY_NEW_LITE_BLOCK, KV)
  C1(NOTIFY_REQUEST_TX_POOL, KV)
  C1(COMMAND_RPC_QUERY_BLOCKS, KV)
  C1(COMMAND_RPC_GET_POOL_CHANGES_LITE, KV)
  C1(COMMAND_RPC_GETBLOCKTEMPLATE, JS)
  C1(COMMAND_RPC_GET_FEE_ADDRESS, JS)
  C1(COMMAND_RPC_GET_PEER_LIST, JS)
  C1(COMMAND_RPC_START_MINING, JS)
  C1(F_COMMAND_RPC_GET_BLOCKCHAIN_SETTINGS, JS)
  C1(F_COMMAND_RPC_GET_TRANSACTION_DETAILS, JS)
  T1(reserve_proof, KV)
}
}
