#include "codecmsg.h"
namespace codec {
void msgs6(std::vector<Msg>& v) {
  using namespace payment_service;
  C1(CreateAddressList, JS)
  C1(CreateDeposit, JS)
  C1(DeleteAddress, JS)
  C1(EstimateFusion, JS)
  C1(ExportWalletKeys, JS)
  C1(GetBalance, JS)
  C1(GetDelayedTransactionHashes, JS)
  C1(GetMessagesFromExtra, JS)
  C1(GetStatus, JS)
  R1(GetTransactionHashes, JS)
  C1(GetUnconfirmedTransactionHashes, JS)
  C1(Reset, JS)
  C1(SendDelayedTransaction, JS)
  C1(SendFusionTransaction, JS)
  C1(SplitIntegrated, JS)
}
}
