#include "codecmsg.h"
namespace codec {
void msgs5(std::vector<Msg>& v) {
  using namespace payment_service; using namespace tools::wallet_rpc;
  C1(COMMAND_RPC_CREATE_INTEGRATED, JS)
  C1(COMMAND_RPC_ESTIMATE_FUSION, JS)
  C1(COMMAND_RPC_GET_BALANCE, JS)
  C1(COMMAND_RPC_GET_MESSAGES, JS)
  C1(COMMAND_RPC_GET_OUTPUTS, JS)
  C1(COMMAND_RPC_GET_PAYMENTS, JS)
  C1(COMMAND_RPC_GET_TRANSFERS, JS)
  C1(COMMAND_RPC_OPTIMIZE, JS)
  C1(COMMAND_RPC_SEND_FUSION, JS)
  C1(COMMAND_RPC_TRANSFER, JS)
  R1(CreateAddress, JS)
  R1(CreateDelayedTransaction, JS)
  C1(CreateIntegrated, JS)
  C1(DeleteDelayedTransaction, JS)
  C1(ExportWallet, JS)
  C1(GetAddresses, JS)
  C1(GetBlockHashes, JS)
  C1(GetDeposit, JS)
  C1(GetSpendKeys, JS)
  C1(GetTransaction, JS)
  R1(GetTransactions, JS)
  C1(GetViewKey, JS)
  C1(Save, JS)
  C1(SendDeposit, JS)
  R1(SendTransaction, JS)
  C1(WithdrawDeposit, JS)
}
}
