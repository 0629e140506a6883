// N01: PeerlistManager against a reference model; NodeServer's handling of gossiped lists.
#include "vf.h"
#include "chainworld.h"
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_io.hpp>
#include <boost/functional/hash.hpp>
#include <boost/program_options.hpp>
#include <sstream>
#include <thread>
#include <future>
#include "CryptoNoteProtocol/CryptoNoteProtocolHandler.h"
#define private public
#include "P2p/NetNode.h"
#undef private
#include "P2p/P2pProtocolDefinitions.h"
#include "P2p/P2pNetworks.h"
#include "P2p/PeerListManager.h"
#include "Common/StringTools.h"
#include "Common/MemoryInputStream.h"
#include "Common/VectorOutputStream.h"
#include "Serialization/BinaryInputStreamSerializer.h"
#include "Serialization/BinaryOutputStreamSerializer.h"
#include "Serialization/SerializationOverloads.h"
#include <System/Dispatcher.h>
#include <miniupnpc/include/miniupnpc.h>
#include <miniupnpc/include/upnpcommands.h>
using namespace vf; using namespace cn;
namespace {
typedef std::map<std::pair<uint32_t, uint32_t>, PeerlistEntry> L;
typedef std::pair<uint32_t, uint32_t> A;
A ad(const NetworkAddress& a) { return {a.ip, a.port}; }
bool same(const PeerlistEntry& a, const PeerlistEntry& b) { return a.adr == b.adr && a.id == b.id && a.last_seen == b.last_seen; }
// first octet is the lowest byte
bool allowed(uint32_t ip, bool local) {
  unsigned a = ip & 255, b = ip >> 8 & 255; if (a == 127) return false;
  return local || !(a == 10 || (a == 172 && b >= 16 && b < 32) || (a == 192 && b == 168));
}
uint32_t genIp(Gen& g) {
  switch (g.weighted({6, 1, 1, 1, 1, 2})) {
    case 0: return 8 | g.draw(4) << 8 | g.draw(3) << 16 | (uint32_t)g.draw(40) << 24;
    case 1: return 127 | (uint32_t)g.draw(2) << 24 | (uint32_t)g.draw(256) << 8;
    case 2: return 10 | (uint32_t)g.draw(256) << 8 | (uint32_t)g.draw(256) << 24;
    case 3: return 172 | (uint32_t)(14 + g.draw(20)) << 8;
    case 4: return 192 | (uint32_t)(167 + g.draw(3)) << 8 | (uint32_t)g.draw(4) << 24;
    default: return g.u32();
  }
}
PeerlistEntry genEntry(Gen& g, uint64_t now) { PeerlistEntry e; e.adr.ip = genIp(g); e.adr.port = g.chance(1, 8) ? g.u32() : 15000 + g.draw(3); e.id = g.u64(); size_t k = g.draw(6); e.last_seen = k == 0 ? 0 : k == 1 ? now : k == 2 ? g.u64() : now - g.draw(50); return e; }
const size_t WHITE = 1000, GRAY = 5000;

struct Model {
  std::unique_ptr<PeerlistManager> m; L white, gray; std::map<A, AnchorPeerlistEntry> anchors; bool local; size_t trims = 0;
  void fresh() { m.reset(new PeerlistManager); m->init(local); }
  // whatever was evicted must have been the oldest, and only as much as needed
  void adopt(L& model, const std::list<PeerlistEntry>& real, size_t limit, const char* which) {
    L r; uint64_t last = ~0ull;
    for (auto& e : real) { VF_CHECK(e.last_seen <= last, "N01/order", "the %s list is not in order of last contact", which); last = e.last_seen; VF_CHECK(r.emplace(ad(e.adr), e).second, "N01/duplicate", "the %s list holds an address twice", which); }
    VF_CHECK(r.size() == std::min(model.size(), limit), "N01/size", "the %s list has %zu entries, %zu expected", which, r.size(), std::min(model.size(), limit));
    uint64_t keptMin = ~0ull, goneMax = 0; bool gone = false;
    for (auto& x : r) { auto it = model.find(x.first); VF_CHECK(it != model.end() && same(it->second, x.second), "N01/content", "the %s list holds %s with last contact %llu", which, common::ipAddressToString(x.first.first).c_str(), (unsigned long long)x.second.last_seen); keptMin = std::min(keptMin, x.second.last_seen); }
    for (auto& x : model) if (!r.count(x.first)) { gone = true; goneMax = std::max(goneMax, x.second.last_seen); }
    VF_CHECK(!gone || goneMax <= keptMin, "N01/evict", "the %s list gave up a peer seen at %llu and kept one seen at %llu", which, (unsigned long long)goneMax, (unsigned long long)keptMin);
    if (gone) trims++;
    model = r;
  }
  void check() {
    std::list<PeerlistEntry> gl, wl; m->get_peerlist_full(gl, wl); adopt(white, wl, WHITE, "white"); adopt(gray, gl, GRAY, "gray");
    VF_CHECK(m->get_white_peers_count() == white.size() && m->get_gray_peers_count() == gray.size(), "N01/size", "counts");
    for (auto& x : white) { VF_CHECK(!gray.count(x.first), "N01/both", "an address is in both lists"); VF_CHECK(allowed(x.first.first, local), "N01/address", "white list holds %s", common::ipAddressToString(x.first.first).c_str()); }
    for (auto& x : gray) VF_CHECK(allowed(x.first.first, local), "N01/address", "gray list holds %s", common::ipAddressToString(x.first.first).c_str());
  }
  void gossip(const PeerlistEntry& e) { if (allowed(e.adr.ip, local) && !white.count(ad(e.adr))) { gray[ad(e.adr)] = e; trim(gray, GRAY); } }
  void seen(const PeerlistEntry& e) { if (allowed(e.adr.ip, local)) { white[ad(e.adr)] = e; gray.erase(ad(e.adr)); trim(white, WHITE); } }
  // eager trimming is unambiguous when the oldest is unique; otherwise leave it to adopt()
  void trim(L& l, size_t limit) {
    while (l.size() > limit) { uint64_t lo = ~0ull; size_t n = 0; A k; for (auto& x : l) { if (x.second.last_seen < lo) { lo = x.second.last_seen; n = 1; k = x.first; } else if (x.second.last_seen == lo) n++; } if (n != 1) return; l.erase(k); trims++; }
  }
};
std::string show(const PeerlistEntry& e) { std::ostringstream s; s << e.adr; return strf("%s seen %llu", s.str().c_str(), (unsigned long long)e.last_seen); }
}

VF_PROP("N01.lists", 900, 40000, "histories of gossip merges, verified contacts, just-seen updates, anchors, save/reload with public, private, loopback and random addresses and times from 0 to 2^64; non-trivial: both lists non-empty at the end, and an eviction, a move from gray to white or a reload happened") {
  Model k; k.local = g.flip(); k.fresh(); uint64_t now = 1700000000; vf_env::setTime(now); size_t moves = 0, reloads = 0, n = 0;
  bool crowd = g.chance(1, 10);   // start close to the limits
  if (crowd) {
    std::list<PeerlistEntry> l; size_t gn = GRAY - g.draw(20), wn = WHITE - g.draw(10); Rng r(g.draw(1000));
    for (size_t i = 0; i < gn; i++) { PeerlistEntry e; e.adr.ip = 20 | (uint32_t)(i & 255) << 8 | (uint32_t)(i >> 8) << 16; e.adr.port = 15000; e.id = i; e.last_seen = now - 1 - i * 3; l.push_back(e); k.gray[ad(e.adr)] = e; }
    k.m->merge_peerlist(l);
    for (size_t i = 0; i < wn; i++) { PeerlistEntry e; e.adr.ip = 21 | (uint32_t)(i & 255) << 8 | (uint32_t)(i >> 8) << 16; e.adr.port = 15000; e.id = i; e.last_seen = now - 1 - i * 3; k.m->append_with_peer_white(e); k.white[ad(e.adr)] = e; }
    g.label("crowded");
  }
  // at the limits every time is used once, so that the peer to give up is determined
  std::set<uint64_t> used; if (crowd) { for (auto& x : k.gray) used.insert(x.second.last_seen); for (auto& x : k.white) used.insert(x.second.last_seen); }
  auto genEntry = [&](Gen& g, uint64_t now) { PeerlistEntry e = ::genEntry(g, now); if (crowd) while (!used.insert(e.last_seen).second) e.last_seen++; return e; };
  while (g.more(n, crowd ? 25 : 60)) {
    n++; now += g.draw(30); if (crowd) while (!used.insert(now).second) now++; vf_env::setTime(now);
    auto known = [&](L& l) -> PeerlistEntry { auto it = l.begin(); std::advance(it, g.draw(l.size())); return it->second; };
    switch (g.weighted({5, 4, 3, 2, 2, 1, 3, 2})) {
      case 0: { std::list<PeerlistEntry> l; size_t c = g.size(crowd ? 40 : 12); for (size_t i = 0; i < c; i++) { PeerlistEntry e = genEntry(g, now); size_t q = g.draw(6); if (q == 0 && !k.white.empty()) e.adr = known(k.white).adr; else if (q == 1 && !k.gray.empty()) e.adr = known(k.gray).adr; l.push_back(e); g.note("gossip %s", show(e).c_str()); }
        L w = k.white; VF_CHECK(k.m->merge_peerlist(l), "N01/merge", "merge failed"); for (auto& e : l) k.gossip(e); k.check(); VF_CHECK(w.size() == k.white.size() && std::equal(w.begin(), w.end(), k.white.begin(), [](const L::value_type& a, const L::value_type& b) { return same(a.second, b.second); }), "N01/gossip-white", "gossip changed the list of verified peers"); break; }
      case 1: { PeerlistEntry e = genEntry(g, now); if (g.flip() && !k.gray.empty()) { e.adr = known(k.gray).adr; moves++; } g.note("white %s", show(e).c_str()); VF_CHECK(k.m->append_with_peer_white(e), "N01/white", "refused"); k.seen(e); k.check(); break; }
      case 2: { PeerlistEntry e = genEntry(g, now); if (g.flip() && !k.gray.empty()) { e.adr = known(k.gray).adr; moves++; } e.last_seen = now; g.note("just seen %s", show(e).c_str()); VF_CHECK(k.m->set_peer_just_seen(e.id, e.adr), "N01/seen", "refused"); k.seen(e); k.check(); break; }
      case 3: { AnchorPeerlistEntry a; PeerlistEntry e = genEntry(g, now); a.adr = e.adr; a.id = e.id; a.first_seen = (int64_t)e.last_seen; if (g.chance(1, 3) && !k.anchors.empty()) a.adr = k.anchors.begin()->second.adr; g.note("anchor %s", show(e).c_str()); VF_CHECK(k.m->append_with_peer_anchor(a), "N01/anchor", "refused"); if (allowed(a.adr.ip, k.local)) k.anchors.emplace(ad(a.adr), a); break; }
      case 4: { NetworkAddress a = genEntry(g, now).adr; if (g.flip() && !k.anchors.empty()) a = k.anchors.rbegin()->second.adr; k.m->remove_from_peer_anchor(a); k.anchors.erase(ad(a)); break; }
      case 5: { std::vector<AnchorPeerlistEntry> v; VF_CHECK(k.m->get_and_empty_anchor_peerlist(v), "N01/anchor", "failed"); VF_CHECK(v.size() == k.anchors.size(), "N01/anchor", "%zu anchors, %zu expected", v.size(), k.anchors.size()); int64_t last = INT64_MIN; std::set<A> s;
        for (auto& a : v) { auto it = k.anchors.find(ad(a.adr)); VF_CHECK(it != k.anchors.end() && it->second.id == a.id && it->second.first_seen == a.first_seen && s.insert(ad(a.adr)).second && a.first_seen >= last, "N01/anchor", "wrong anchor entry"); last = a.first_seen; } k.anchors.clear(); break; }
      case 6: { std::list<PeerlistEntry> h; size_t d = g.flip() ? 250 : g.draw(8); if (d == 250) k.m->get_peerlist_head(h); else k.m->get_peerlist_head(h, (uint32_t)d); size_t avail = 0; for (auto& x : k.white) avail += x.second.last_seen != 0; g.evals++;
        VF_CHECK(h.size() == std::min(d, avail), "N01/head", "%zu peers shared, %zu allowed, %zu known", h.size(), d, avail);
        std::set<A> s; uint64_t last = ~0ull; for (auto& e : h) { auto it = k.white.find(ad(e.adr)); VF_CHECK(it != k.white.end() && same(it->second, e) && e.last_seen && e.last_seen <= last && s.insert(ad(e.adr)).second, "N01/head", "a shared entry is not from the white list, or out of order"); last = e.last_seen; }
        if (!h.empty()) for (auto& x : k.white) VF_CHECK(s.count(x.first) || x.second.last_seen <= last, "N01/head", "a more recently seen peer is left out"); if (avail > d) g.label("head cut");
        for (int q = 0; q < 2; q++) { PeerlistEntry e; L& l = q ? k.gray : k.white; size_t i = g.draw(l.size() + 2); bool ok = q ? k.m->get_gray_peer_by_index(e, i) : k.m->get_white_peer_by_index(e, i); VF_CHECK(ok == (i < l.size()), "N01/index", "index %zu of %zu", i, l.size()); if (ok) { auto it = l.find(ad(e.adr)); size_t newer = 0, notOlder = 0; VF_CHECK(it != l.end() && same(it->second, e), "N01/index", "an entry that is not in the list"); for (auto& x : l) { newer += x.second.last_seen > e.last_seen; notOlder += x.second.last_seen >= e.last_seen; } VF_CHECK(newer <= i && i < notOlder, "N01/index", "entry %zu is not the one of that rank", i); } }
        break; }
      default: { std::vector<uint8_t> v; { common::VectorOutputStream o(v); BinaryOutputStreamSerializer s(o); k.m->serialize(s); } k.fresh(); common::MemoryInputStream i(v.data(), v.size()); BinaryInputStreamSerializer s(i); k.m->serialize(s); reloads++; g.note("reload"); k.check(); std::vector<AnchorPeerlistEntry> a; break; }
    }
    g.evals++;
  }
  k.check();
  if (!k.white.empty() && !k.gray.empty() && (k.trims || moves || reloads)) g.nontrivial();
  g.label("evictions", k.trims); g.label("moves", moves); g.label("reloads", reloads);
}

namespace {
platform_system::Dispatcher& disp() { static platform_system::Dispatcher d; return d; }
struct Fix {   // a node without network
  cw::World w; cw::Node n; CryptoNoteProtocolHandler h; NodeServer s;
  Fix(Gen& g) : w(g, cw::Cfg()), n(w, w.newDir()), h(*w.cur, disp(), *n.c, nullptr, w.log), s(disp(), h, w.log) { s.m_peerlist.init(false); h.set_p2p_endpoint(&s); n.c->set_cryptonote_protocol(&h); s.m_network_id = CRYPTONOTE_NETWORK; s.m_config.m_peer_id = 77; }
  ~Fix() { h.set_p2p_endpoint(nullptr); n.c->set_cryptonote_protocol(nullptr); }
};
}
VF_PROP("N01.gossip", 160, 6000, "handshakes and timed synchronizations answered by NodeServer with lists of generated times, addresses and lengths and a clock that is right, early, late or absurd; every kept time must lie in the past, honest entries keep their rank, verified peers stay, a wrong network, old version or second handshake ends the connection; non-trivial: at least one list was kept and one refused, or a list with a foreign clock was kept") {
  cw::dnsRecords.clear(); Fix f(g); uint64_t now = 1700000000; vf_env::setTime(now); L white; size_t n = 0, kept = 0, refused = 0, foreign = 0;
  while (g.more(n, 25)) {
    n++; vf_env::setTime(now += g.draw(100)); P2pConnectionContext ctx(disp(), f.w.log, platform_system::TcpConnection()); ctx.m_remote_ip = genIp(g); ctx.m_remote_port = 15000; ctx.peerId = 5; ctx.m_is_income = g.flip(); ctx.m_state = CryptoNoteConnectionContext::state_normal;
    CORE_SYNC_DATA sd; sd.current_height = 1; sd.top_id = f.w.genesis->id;
    size_t op = g.weighted({6, 2, 2});
    if (op == 0) {   // the answer to our timed synchronization
      COMMAND_TIMED_SYNC::response r; r.payload_data = sd; size_t c = g.size(30); size_t clk = g.weighted({4, 2, 2, 1, 1}); r.local_time = clk == 0 ? now : clk == 1 ? now - g.draw(10000) : clk == 2 ? now + g.draw(10000) : clk == 3 ? g.u64() : now + 4000000000ull;
      for (size_t i = 0; i < c; i++) { PeerlistEntry e; e.adr.ip = genIp(g); e.adr.port = 15000 + g.draw(3); e.id = g.u64(); size_t q = g.weighted({8, 1, 1, 1}); e.last_seen = q == 0 ? r.local_time - g.draw(3000) : q == 1 ? r.local_time : q == 2 ? g.draw(100) : g.u64(); if (g.chance(4, 5) && e.last_seen > r.local_time) e.last_seen = r.local_time; r.local_peerlist.push_back(e); }
      std::list<PeerlistEntry> gl0, wl0, gl, wl; f.s.m_peerlist.get_peerlist_full(gl0, wl0); L before; for (auto& e : gl0) before[ad(e.adr)] = e;
      g.note("answer with %zu peers, clock %+lld", c, (long long)(r.local_time - now)); bool ok = f.s.handleTimedSyncResponse(LevinProtocol::encode(r), ctx); f.s.m_peerlist.get_peerlist_full(gl, wl); g.evals++;
      if (ok && !ctx.m_is_income && allowed(ctx.m_remote_ip, false)) { PeerlistEntry e; e.adr.ip = ctx.m_remote_ip; e.adr.port = 15000; e.id = 5; e.last_seen = now; white[ad(e.adr)] = e; }
      L sent; bool future = false; for (auto& e : r.local_peerlist) { sent[ad(e.adr)] = e; future |= e.last_seen > r.local_time; }
      VF_CHECK(!(future && ok), "N01/future", "a list with times in the sender's own future is taken");
      bool sane = !future; for (auto& e : r.local_peerlist) sane &= r.local_time - e.last_seen <= now; if (sane && r.local_time < (1ull << 62)) VF_CHECK(ok, "N01/honest-refused", "a list of %zu peers is refused (clock %+lld)", c, (long long)(r.local_time - now));
      size_t fresh = 0; for (auto& e : gl) { auto it = before.find(ad(e.adr)); if (it != before.end() && same(it->second, e)) continue; fresh++; auto s = sent.find(ad(e.adr)); VF_CHECK(s != sent.end(), "N01/invented", "an entry nobody sent"); VF_CHECK(ok, "N01/refused-kept", "part of a refused list is kept"); VF_CHECK(e.last_seen <= now, "N01/future", "%s is kept, %llu s in the future", show(e).c_str(), (unsigned long long)(e.last_seen - now)); VF_CHECK(now - e.last_seen == r.local_time - s->second.last_seen, "N01/age", "%s: its age changed with the sender's clock", show(e).c_str()); }
      if (ok && c) { kept++; if (clk) foreign++; } else if (!ok) refused++;
      VF_CHECK(wl.size() == white.size(), "N01/gossip-white", "the white list has %zu entries, %zu verified", wl.size(), white.size()); for (auto& e : wl) { auto it = white.find(ad(e.adr)); VF_CHECK(it != white.end() && (it->second.last_seen == e.last_seen), "N01/gossip-white", "the white list changed"); VF_CHECK(allowed(e.adr.ip, false), "N01/address", "white list holds %s", show(e).c_str()); }
      for (auto& e : gl) { VF_CHECK(allowed(e.adr.ip, false), "N01/address", "gray list holds %s", show(e).c_str()); VF_CHECK(!white.count(ad(e.adr)), "N01/both", "an address is in both lists"); }
    } else if (op == 1) {
      COMMAND_HANDSHAKE::request r; COMMAND_HANDSHAKE::response rsp; r.payload_data = sd; r.node_data.network_id = CRYPTONOTE_NETWORK; r.node_data.version = P2P_MINIMUM_VERSION + g.draw(3); r.node_data.local_time = now; r.node_data.my_port = 0; r.node_data.peer_id = 5; size_t bad = g.draw(5); ctx.m_is_income = true; ctx.peerId = 0;
      if (bad == 0) r.node_data.network_id.data[g.draw(16)] ^= 1 << g.draw(8); else if (bad == 1) { if (!P2P_MINIMUM_VERSION) continue; r.node_data.version = g.draw(P2P_MINIMUM_VERSION); } else if (bad == 2) ctx.peerId = 9; else if (bad == 3) ctx.m_is_income = false;
      f.s.handle_handshake(COMMAND_HANDSHAKE::ID, r, rsp, ctx); g.evals++; bool closed = ctx.m_state == CryptoNoteConnectionContext::state_shutdown; static const char* what[] = {"wrong network", "old version", "second handshake", "handshake on an outgoing connection", "good handshake"}; g.note("%s", what[bad]); g.label(what[bad]);
      VF_CHECK(closed == (bad < 4), "N01/handshake", "%s: connection %s", what[bad], closed ? "closed" : "kept"); VF_CHECK(rsp.local_peerlist.size() <= 250 && (bad == 4 || rsp.local_peerlist.empty()), "N01/head", "%zu peers shared", rsp.local_peerlist.size());
    } else { COMMAND_TIMED_SYNC::request r; COMMAND_TIMED_SYNC::response rsp; r.payload_data = sd; f.s.handle_timed_sync(COMMAND_TIMED_SYNC::ID, r, rsp, ctx); g.evals++; VF_CHECK(rsp.local_time == now && rsp.local_peerlist.size() == std::min<size_t>(250, white.size()), "N01/head", "%zu peers shared of %zu", rsp.local_peerlist.size(), white.size()); for (auto& e : rsp.local_peerlist) VF_CHECK(white.count(ad(e.adr)), "N01/head", "a peer this node never verified is shared"); }
  }
  if ((kept && refused) || foreign) g.nontrivial(); g.label("kept", kept); g.label("refused", refused); g.label("foreign clock", foreign);
}

VF_PROP("N01.text", 4000, 200000, "peer addresses as text, exact and with octets, ports or separators out of range; non-trivial: every case") {
  uint32_t o[4], port; for (auto& x : o) x = g.draw(256); port = g.draw(65536); std::string ip = strf("%u.%u.%u.%u", o[0], o[1], o[2], o[3]), s = ip + strf(":%u", port); bool ok = true; size_t k = g.draw(7); uint32_t want = o[0] | o[1] << 8 | o[2] << 16 | o[3] << 24;
  if (k == 1) { s = ip + strf(":%llu", 65536ull + g.u64_below(1ull << 31)); ok = false; } else if (k == 2) { s = ip + strf(":-%u", 1 + port); ok = false; } else if (k == 3) { s = strf("%u.%u.%u.%u:%u", o[0], o[1], o[2], 256 + (uint32_t)g.draw(100000), port); ok = false; } else if (k == 4) { s = strf("%u.%u.%u:%u", o[0], o[1], o[2], port); ok = false; } else if (k == 5) { s = ip; ok = false; } else if (k == 6) { s = strf("%u.-%u.%u.%u:%u", o[0], 1 + o[1], o[2], o[3], port); ok = false; }
  uint32_t a = 0x5a5a5a5a, p = 0x5a5a5a5a; bool got = common::parseIpAddressAndPort(a, p, s); g.evals++; g.note("%s", s.c_str()); g.nontrivial();
  VF_CHECK(got == ok, "N01/text", "\"%s\" is %s", s.c_str(), got ? "accepted" : "refused"); if (ok) { VF_CHECK(a == want && p == port, "N01/text", "\"%s\" read as %08x port %u", s.c_str(), a, p); VF_CHECK(common::ipAddressToString(a) == ip, "N01/text", "%s printed as %s", ip.c_str(), common::ipAddressToString(a).c_str()); }
}
