#include "codecmsg.h"
namespace codec {
void msgs3(std::vector<Msg>& v) {
  C1(COMMAND_PING, KV)
  T1(BlockFullInfo, KV)
  C1(NOTIFY_NEW_BLOCK, KV)
  C1(NOTIFY_REQUEST_GET_OBJECTS, KV)
  C1(COMMAND_RPC_GET_BLOCKS_FAST, KV)
  C1(COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS, KV)
  C1(COMMAND_RPC_GET_ALT_BLOCKS_LIST, JS)
  C1(COMMAND_RPC_GET_CURRENCY_ID, JS)
  C1(COMMAND_RPC_GET_LAST_BLOCK_HEADER, JS)
  C1(COMMAND_RPC_SEND_RAW_TX, JS)
  C1(COMMAND_RPC_GETBLOCKCOUNT, JS)
  C1(F_COMMAND_RPC_GET_POOL, JS)
  T1(STATUS_STRUCT, KV | JS)
}
}
