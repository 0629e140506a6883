#include "codecmsg.h"
namespace codec {
void msgs2(std::vector<Msg>& v) {
  C1(COMMAND_TIMED_SYNC, KV)
  T1(basic_node_data, KV)
  C1(NOTIFY_MISSING_TXS, KV)
  C1(NOTIFY_REQUEST_CHAIN, KV)
  C1(NOTIFY_RESPONSE_GET_OBJECTS, KV)
  C1(COMMAND_RPC_GET_TX_GLOBAL_OUTPUTS_INDEXES, KV)
  C1(COMMAND_RPC_GET_BLOCK_TIMESTAMP_BY_HEIGHT, KV | JS)
  C1(COMMAND_RPC_GET_BLOCK_HEADER_BY_HEIGHT, JS)
  C1(COMMAND_RPC_GET_INFO, JS)
  C1(COMMAND_RPC_GET_TRANSACTIONS, JS)
  C1(COMMAND_RPC_STOP_MINING, JS)
  C1(F_COMMAND_RPC_GET_BLOCK_DETAILS, JS)
  C1(K_COMMAND_RPC_CHECK_TX_PROOF, JS)
}
}
