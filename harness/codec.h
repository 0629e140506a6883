#pragma once
#include "vf.h"
#include "anyser.h"
#include "CryptoNote.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/TransactionApiExtra.h"
#include "crypto/crypto.h"
namespace codec {
using namespace cn;
typedef std::string S;
inline S str(const BinaryArray& b) { return S((const char*)b.data(), b.size()); }
inline BinaryArray bin(const S& s) { return BinaryArray(s.begin(), s.end()); }
template <class T> S pod(const T& t) { return S((const char*)&t, sizeof t); }
// the binary format, restated
inline S varint(uint64_t v) { S r; while (v >= 0x80) { r += (char)(v | 0x80); v >>= 7; } r += (char)v; return r; }
S encTx(const Transaction& t, bool sigs = true);
S encBlock(const Block& b);
S encHeader(const BlockHeader& h);
Transaction genTx(vf::Gen& g, bool coinbase = false);
Block genBlock(vf::Gen& g);
S mutate(vf::Gen& g, S s, bool trees = false);     // one to three byte-level edits
inline S fastHash(const S& s) { crypto::Hash h; crypto::cn_fast_hash(s.data(), s.size(), h); return pod(h); }
template <class T> void podr(vf::Gen& g, T& t) { S b = g.draw(8) == 0 ? S(sizeof t, (char)(g.draw(2) * 255)) : [&] { vf::Rng r(g.draw(0)); S x(sizeof t, 0); r.fill(&x[0], x.size()); return x; }(); memcpy(&t, b.data(), sizeof t); }
// memory allocated since the last call of start(); exceeding the cap aborts the process (the failure of the case)
struct AllocWatch { static void start(size_t cap); static size_t stop(); };
}  // namespace codec
