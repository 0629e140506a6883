// N03: nodes (cn::core + CryptoNoteProtocolHandler) joined by a simulated network; every message order is a generated choice.
#include "chainworld.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolHandler.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h"
#include "P2p/LevinProtocol.h"
#include "P2p/P2pProtocolDefinitions.h"
#include <System/Dispatcher.h>
#include <System/Context.h>
#include <deque>
using namespace vf; using namespace cw; using namespace cn;
namespace {
typedef CryptoNoteConnectionContext Ctx;
platform_system::Dispatcher& disp() { static platform_system::Dispatcher d; return d; }

struct Msg { enum Kind { NOTIFY, HS, HSR, TS, TSR } kind; int cmd = 0; BinaryArray buf; CORE_SYNC_DATA sync; };
struct Net;
struct End { int node; Ctx ctx; std::deque<Msg> in; bool peerId = false, busy = false; };   // node -1: a scripted peer
struct Conn { End e[2]; bool alive = true, hostile = false; int no; int side(int node) const { return e[0].node == node ? 0 : 1; } };
struct Peer : IP2pEndpoint {
  Net& net; int id; std::unique_ptr<Node> n; std::unique_ptr<CryptoNoteProtocolHandler> h; std::deque<std::function<void()>> tasks;
  Peer(Net& n_, int i) : net(n_), id(i) {}
  std::vector<std::pair<Conn*, int>> conns();
  void send(Conn& c, int side, int cmd, const BinaryArray& b) { Msg m; m.kind = Msg::NOTIFY; m.cmd = cmd; m.buf = b; c.e[!side].in.push_back(m); }
  void relay_notify_to_all(int command, const BinaryArray& b, const net_connection_id* ex) override {
    for (auto& x : conns()) { Ctx& c = x.first->e[x.second].ctx; if (x.first->e[x.second].peerId && !(ex && c.m_connection_id == *ex) && (c.m_state == Ctx::state_normal || c.m_state == Ctx::state_synchronizing)) send(*x.first, x.second, command, b); }
  }
  bool invoke_notify_to_peer(int command, const BinaryArray& b, const Ctx& ctx) override {
    for (auto& x : conns()) if (x.first->e[x.second].ctx.m_connection_id == ctx.m_connection_id) { send(*x.first, x.second, command, b); return true; }
    return false;
  }
  uint64_t get_connections_count() override { return conns().size(); }
  void for_each_connection(const std::function<void(Ctx&, PeerIdType)>& f) override { for (auto& x : conns()) if (x.first->e[x.second].peerId) f(x.first->e[x.second].ctx, 1); }
  void drop_connection(Ctx& c, bool) override { c.m_state = Ctx::state_shutdown; }
  void externalRelayNotifyToAll(int command, const BinaryArray& b, const net_connection_id* ex) override { net_connection_id x; bool has = ex; if (ex) x = *ex; tasks.push_back([=] { relay_notify_to_all(command, b, has ? &x : nullptr); }); }
  void externalRelayNotifyToList(int command, const BinaryArray& b, const std::list<boost::uuids::uuid>& l) override {
    tasks.push_back([=] { for (auto& x : conns()) { Ctx& c = x.first->e[x.second].ctx; if (std::find(l.begin(), l.end(), c.m_connection_id) != l.end() && x.first->e[x.second].peerId && (c.m_state == Ctx::state_normal || c.m_state == Ctx::state_synchronizing)) send(*x.first, x.second, command, b); } });
  }
};
struct Net {
  vf::Gen& g; World w; std::vector<std::unique_ptr<Peer>> peers; std::list<Conn> conns; int connNo = 0; uint64_t delivered = 0, honestDrops = 0, dropsSeen = 0; size_t interleaved = 0;
  Net(vf::Gen& g_, const Cfg& c) : g(g_), w(g_, c) { dnsRecords.clear(); }
  ~Net() { conns.clear(); for (auto& p : peers) { p->n->c->set_cryptonote_protocol(nullptr); p->h.reset(); p->n.reset(); } }
  Peer& addNode() {
    peers.emplace_back(new Peer(*this, peers.size())); Peer& p = *peers.back();
    p.n.reset(new Node(w, w.newDir())); p.h.reset(new CryptoNoteProtocolHandler(*w.cur, disp(), *p.n->c, &p, w.log)); p.n->c->set_cryptonote_protocol(p.h.get());
    return p;
  }
  Conn& connect(int a, int b, uint8_t version, bool hostile = false) {   // a dials b; -1 is a scripted peer
    conns.emplace_back(); Conn& c = conns.back(); c.no = connNo++; c.hostile = hostile;
    int id[2] = {a, b};
    for (int s = 0; s < 2; s++) { End& e = c.e[s]; e.node = id[s]; e.ctx.version = version; e.ctx.m_is_income = s == 1; e.ctx.m_remote_ip = 0x01010101 + c.no; e.ctx.m_remote_port = 1000 + s;
      memset(&e.ctx.m_connection_id, 0, 16); uint32_t v[2] = {(uint32_t)c.no + 1, (uint32_t)s}; memcpy(&e.ctx.m_connection_id, v, 8); if (e.node >= 0) peers[e.node]->h->onConnectionOpened(e.ctx); }
    if (a >= 0) { Msg m; m.kind = Msg::HS; peers[a]->h->get_payload_sync_data(m.sync); c.e[1].in.push_back(m); }
    return c;
  }
  void closeConn(Conn& c) {
    if (!c.alive) return; c.alive = false;
    for (int s = 0; s < 2; s++) { c.e[s].in.clear(); if (c.e[s].node >= 0) peers[c.e[s].node]->h->onConnectionClosed(c.e[s].ctx); }
  }
  void gc() { for (auto it = conns.begin(); it != conns.end();) if (!it->alive && !it->e[0].busy && !it->e[1].busy) it = conns.erase(it); else ++it; }
  // what NodeServer's connection loop does around one incoming message
  void handle(Conn& c, int s, Msg m) {
    End& e = c.e[s]; Peer& p = *peers[e.node]; bool drop = false;
    try {
      if (m.kind == Msg::NOTIFY) { BinaryArray out; bool handled = false; p.h->handleCommand(true, m.cmd, m.buf, out, e.ctx, handled); }
      else if (m.kind == Msg::HS) {
        if (e.peerId) { e.ctx.m_state = Ctx::state_shutdown; }
        else { p.h->process_payload_sync_data(m.sync, e.ctx, true); e.peerId = true; Msg r; r.kind = Msg::HSR; p.h->get_payload_sync_data(r.sync); c.e[!s].in.push_back(r); }
      }
      else if (m.kind == Msg::HSR) { p.h->process_payload_sync_data(m.sync, e.ctx, true); e.peerId = true; }
      else if (m.kind == Msg::TS) { p.h->process_payload_sync_data(m.sync, e.ctx, false); Msg r; r.kind = Msg::TSR; p.h->get_payload_sync_data(r.sync); c.e[!s].in.push_back(r); }
      else p.h->process_payload_sync_data(m.sync, e.ctx, false);
      if (e.ctx.m_state == Ctx::state_sync_required) { e.ctx.m_state = Ctx::state_synchronizing; p.h->start_sync(e.ctx); }
      else if (e.ctx.m_state == Ctx::state_pool_sync_required) { e.ctx.m_state = Ctx::state_normal; p.h->requestMissingPoolTransactions(e.ctx); }
      if (e.ctx.m_state == Ctx::state_shutdown) drop = true;
    } catch (const std::exception& x) { drop = true; g.note("  exception: %s", x.what()); }
    if (drop && c.alive) { dropsSeen++; if (!c.hostile) honestDrops++; g.note("  node %d drops connection %d%s", e.node, c.no, c.hostile ? " (scripted peer)" : ""); closeConn(c); }
  }
  std::vector<std::pair<Conn*, int>> ready() {
    std::vector<std::pair<Conn*, int>> r; for (auto& c : conns) if (c.alive) for (int s = 0; s < 2; s++) if (c.e[s].node >= 0 && !c.e[s].in.empty() && !c.e[s].busy) r.push_back({&c, s}); return r;
  }
  bool step() {   // one scheduling choice; false when nothing is left to do
    gc();
    auto r = ready(); size_t t = 0; for (auto& p : peers) t += !p->tasks.empty();
    if (r.empty() && !t) return false;
    size_t k = g.draw(r.size() + t);
    if (k >= r.size()) { k -= r.size(); for (auto& p : peers) if (!p->tasks.empty() && !k--) { auto f = p->tasks.front(); p->tasks.pop_front(); f(); return true; } }
    size_t many = r.size() > 1 && g.chance(1, 4) ? 2 + g.draw(2) : 1;    // several connections' messages in flight: they interleave where a node yields
    std::vector<std::unique_ptr<platform_system::Context<void>>> run;
    Failure f; bool failed = false;
    for (size_t i = 0; i < many && !r.empty(); i++) {
      auto x = r[k]; r.erase(r.begin() + k); if (!r.empty()) k = g.draw(r.size());
      Msg m = x.first->e[x.second].in.front(); x.first->e[x.second].in.pop_front(); delivered++;
      static const char* kn[] = {"notify", "handshake", "handshake reply", "timed sync", "timed sync reply"};
      g.note("conn %d -> node %d: %s %d (%zu bytes)%s", x.first->no, x.first->e[x.second].node, kn[m.kind], m.cmd % 1000, m.buf.size(), many > 1 ? " *" : "");
      if (many == 1) { x.first->e[x.second].busy = true; handle(*x.first, x.second, m); x.first->e[x.second].busy = false; }
      else { interleaved++; Conn* c = x.first; int s = x.second; c->e[s].busy = true; run.emplace_back(new platform_system::Context<void>(disp(), [this, c, s, m] { handle(*c, s, m); c->e[s].busy = false; })); }
    }
    for (auto& c : run) c->wait();
    return true;
  }
  bool settle(size_t max) { for (size_t i = 0; i < max; i++) if (!step()) return true; return false; }
  void timedSync(int node) { for (auto& x : peers[node]->conns()) { End& e = x.first->e[x.second]; if (e.peerId && (e.ctx.m_state == Ctx::state_normal || e.ctx.m_state == Ctx::state_idle)) { Msg m; m.kind = Msg::TS; peers[node]->h->get_payload_sync_data(m.sync); x.first->e[!x.second].in.push_back(m); } } }
  bool linked(int a, int b) { for (auto& c : conns) if (c.alive && ((c.e[0].node == a && c.e[1].node == b) || (c.e[0].node == b && c.e[1].node == a))) return true; return false; }
};
std::vector<std::pair<Conn*, int>> Peer::conns() { std::vector<std::pair<Conn*, int>> r; for (auto& c : net.conns) if (c.alive) for (int s = 0; s < 2; s++) if (c.e[s].node == id) r.push_back({&c, s}); return r; }

template <class C> BinaryArray enc(typename C::request& r) { return LevinProtocol::encode(r); }
std::string blobStr(const BinaryArray& b) { return std::string(b.begin(), b.end()); }

struct Case {
  vf::Gen& g; Net net; size_t N; std::vector<std::pair<int, int>> links; std::vector<uint8_t> linkVersion; std::vector<BlockP> tips, all; BlockP trunk; std::vector<TxP> shared; uint64_t bestWork = 0; bool low = false;
  Conn* hc = nullptr;   // scripted connection
  Case(vf::Gen& g_, const Cfg& c) : g(g_), net(g_, c) {}
  BlockP mine(const BlockP& p, const std::vector<TxP>& txs) { BlockOpt o; o.miner = (int)g.draw(3); o.dt = (int64_t)g.draw(200) - 60; o.nonceExtra = strf("%llu", (unsigned long long)net.w.uniq++); BlockP b = net.w.build(p, txs, o); all.push_back(b); bestWork = std::max(bestWork, b->work); return b; }
  void feedChain(Node& n, const BlockP& tip) { auto& ch = tip->state->chain; for (size_t i = 1; i < ch.size(); i++) { Bvc v = n.feed(ch[i]); VF_CHECK(v.added, "N03/setup", "block %zu of the initial chain is refused: %s", i, v.str().c_str()); } }
  void setup(bool longChain) {
    World& w = net.w; N = 2 + (g.chance(1, 3) ? 1 + g.draw(2) : 0);
    low = !longChain && g.chance(1, 6);   // a chain so short that forks start anywhere in it
    size_t len = longChain ? 130 + g.draw(150) : low ? 3 + g.draw(4) : 13 + g.draw(6);
    trunk = w.grow(w.genesis, len);
    for (auto& b : trunk->state->chain) all.push_back(b);
    size_t k = low ? 0 : g.draw(3); std::set<KeyImage> used;
    for (size_t i = 0; i < k; i++) { TxP t = w.randomTransfer(*trunk->state, used, w.minFee(trunk->height + 1)); if (!t) break; for (auto& x : t->kin) used.insert(x.ki); shared.push_back(t); }
        vf_env::setTime(w.cfg.t0 + (len + 200) * w.cfg.spacing);
    for (size_t i = 0; i < N; i++) {
      BlockP tip; size_t kind = g.weighted({3, 2, 2, 3});
      if (kind == 0 && i) { tip = tips[g.draw(i)]; size_t e = low ? g.draw(4) : tip->height < trunk->height ? 0 : g.draw(6); for (size_t q = 0; q < e && !(low && tip->height >= 9); q++) tip = mine(tip, tip == trunk ? shared : std::vector<TxP>()); }   // ahead on the same branch
      else if (kind == 1) { auto& ch = trunk->state->chain; tip = ch[g.draw(ch.size())]; }                                              // behind
      else if (kind == 2) tip = trunk;
      else { size_t e = 1 + g.draw(low ? 3 : 7); tip = mine(trunk, shared); for (size_t q = 1; q < e; q++) tip = mine(tip, {}); }               // its own branch
      tips.push_back(tip); Peer& p = net.addNode(); feedChain(*p.n, tip);
      g.note("node %zu: height %u, top %s, work %llu", i, tip->height, sh(tip->id).c_str(), (unsigned long long)tip->work);
    }
    for (size_t i = 1; i < N; i++) link((int)i, (int)g.draw(i));
    if (N > 2 && g.flip()) { int a = g.draw(N), b = g.draw(N); if (a != b && !has(a, b)) link(a, b); }
  }
  bool has(int a, int b) { for (auto& l : links) if ((l.first == a && l.second == b) || (l.first == b && l.second == a)) return true; return false; }
  void link(int a, int b) { if (g.flip()) std::swap(a, b); links.push_back({a, b}); linkVersion.push_back(g.chance(1, 3) ? 3 : 1); net.connect(a, b, linkVersion.back()); }
  BlockP tipOf(int i) { auto it = net.w.blocks.find(key(net.peers[i]->n->top())); VF_CHECK(it != net.w.blocks.end(), "N03/chain", "node %d has a top block nobody made", i); return it->second; }
  // a node's chain is one of the valid chains, entirely
  void checkNode(int i, const char* tag) {
    BlockP t = tipOf(i); g.evals++; VF_CHECK(t->bad.empty(), tag, "node %d accepted an invalid block (%s)", i, t->bad.c_str());
    uint64_t wk = 0; for (auto& b : tips[i]->state->chain) wk = std::max(wk, b->work);
    VF_CHECK(t->work >= tips[i]->work, tag, "node %d went from work %llu to %llu", i, (unsigned long long)tips[i]->work, (unsigned long long)t->work); tips[i] = t;
  }
  bool pending(const BlockP& tip, std::vector<TxP>& r) { for (auto& t : shared) if (!tip->state->txs.count(key(t->id))) { for (auto& x : t->kin) if (tip->state->spent.count(x.ki)) { r.clear(); return false; } r.push_back(t); } return true; }   // false: a scripted block spent their inputs
  void mineAt(int i, bool force = false) {
    Peer& p = *net.peers[i]; BlockP tip = tipOf(i);   // blocks competing for the trunk have to carry the shared transactions
    std::vector<TxP> txs; if (!pending(tip, txs)) return;
    if (low) { if (tip->height >= 9) return; } else if (tip->height < trunk->height || (tip->height >= trunk->height && tip->state->chain[trunk->height] != trunk)) return;   // still catching up
    if (!force && tip->height > trunk->height + 7) return;   // forks stay within the reorganization limit
    BlockP b = mine(tip, txs); g.note("node %d mines %s at %u", i, sh(b->id).c_str(), b->height);
    for (auto& t : txs) p.n->tx(t, false);
    for (auto& t : txs) { Transaction y; if (!p.n->c->getTransaction(t->id, y, true)) { g.label("pool holds a conflicting transaction"); return; } }   // the scripted peer's got there first
    cn::Block x = b->b; bool ok = p.n->c->handle_block_found(x); VF_CHECK(ok, "N03/mine", "a block mined on node %d's own top is refused", i);
  }
  // node i has to follow node j: more work, and every transaction i has confirmed
  bool behind(int i, int j) { if (tips[j]->work <= tips[i]->work) return false; for (auto& t : tips[i]->state->txs) if (!t.second.second->coinbase && !tips[j]->state->txs.count(t.first)) { g.label("kept for its transactions"); return false; } return true; }
  void converge(const char* tag) {
    size_t rounds = 0; bool done = false; bestWork = 0; for (size_t i = 0; i < N; i++) { checkNode((int)i, tag); bestWork = std::max(bestWork, tips[i]->work); }   // what the nodes hold decides
    for (; rounds < 12 && !done; rounds++) {
      for (size_t i = 0; i < links.size(); i++) if (!net.linked(links[i].first, links[i].second)) { g.label("reconnected"); net.connect(links[i].first, links[i].second, linkVersion[i]); }
      for (size_t i = 0; i < N; i++) net.timedSync((int)i);
      VF_CHECK(net.settle(20000), tag, "the nodes exchange messages without end");
      done = true; for (auto& l : links) done &= net.linked(l.first, l.second);
      for (size_t i = 0; i < N; i++) checkNode((int)i, tag);
      for (auto& l : links) done &= !behind(l.first, l.second) && !behind(l.second, l.first);
      for (auto& c : net.conns) if (c.alive) for (int q = 0; q < 2; q++) done &= c.e[q].ctx.m_state == Ctx::state_normal;   // idle ones wait for the next synchronization
    }
    g.label(strf("converged in %zu rounds", rounds));
    for (auto& l : links) for (int q = 0; q < 2; q++) {
      int i = q ? l.first : l.second, j = q ? l.second : l.first;
      g.evals++; VF_CHECK(!behind(i, j), tag, "after %zu rounds of timed synchronization node %d is at height %u with work %llu, its peer at height %u with work %llu", rounds, i, tips[i]->height, (unsigned long long)tips[i]->work, tips[j]->height, (unsigned long long)tips[j]->work);
    }
    for (size_t i = 0; i < N; i++) { // and what it holds is that chain
      auto& ch = tips[i]->state->chain; uint32_t h = (uint32_t)g.draw(ch.size());
      VF_CHECK(net.peers[i]->n->c->getBlockIdByHeight(h) == ch[h]->id, tag, "node %zu has another block at height %u", i, h);
    }
  }
};
}

VF_PROP("N03.converge", 420, 12000, "two to four nodes with generated initial chains (behind, ahead, own branches, 13-280 blocks) exchange every protocol message in a generated order, with blocks mined meanwhile, lost connections and messages of several connections interleaved where a node yields; all must end on the chain with most work; non-trivial: the nodes started on different chains and at least ten messages were delivered") {
  Cfg c; if (g.chance(1, 3)) c.v8 = 6; bool longChain = g.chance(1, 25); if (longChain) c.spacing = 100; Case k(g, c); k.setup(longChain);
  bool differ = false; for (auto& t : k.tips) differ |= t != k.tips[0];
  size_t n = 0;
  while (g.more(n, 60)) {
    n++; size_t op = g.weighted({14, 3, 2, 1});
    if (op == 0) { size_t m = 1 + g.draw(4); while (m-- && k.net.step()) {} }
    else if (op == 1) k.mineAt((int)g.draw(k.N));
    else if (op == 2) { k.net.timedSync((int)g.draw(k.N)); }
    else { std::vector<Conn*> cs; for (auto& x : k.net.conns) if (x.alive) cs.push_back(&x); if (!cs.empty()) { Conn* x = cs[g.draw(cs.size())]; g.note("connection %d is lost", x->no); g.label("connections lost"); k.net.closeConn(*x); } }
  }
  k.converge("N03/converge");
  for (auto& c : k.net.conns) if (c.alive) for (int q = 0; q < 2; q++) { g.evals++; VF_CHECK(c.e[q].ctx.m_state == Ctx::state_normal, "N03/stall", "node %d considers its connection to node %d in state %d after both hold the same chain and 12 rounds of timed synchronization", c.e[q].node, c.e[!q].node, (int)c.e[q].ctx.m_state); }
  // a transaction relayed by one node and then a block with it reach everybody
  size_t a = g.draw(k.N); TxP t = k.net.w.randomTransfer(*k.tips[a]->state, {}, k.net.w.minFee(k.tips[a]->height + 1));
  bool same = true; for (auto& x : k.tips) same &= x == k.tips[0];
  if (t && same) {
    k.net.peers[a]->n->tx(t, false); NOTIFY_NEW_TRANSACTIONS::request r; r.txs.push_back(blobStr(t->blob)); static_cast<i_cryptonote_protocol*>(k.net.peers[a]->h.get())->relay_transactions(r);
    k.net.settle(5000);
    for (size_t i = 0; i < k.N; i++) { g.evals++; Transaction x; VF_CHECK(k.net.peers[i]->n->c->getTransaction(t->id, x, true), "N03/relay-tx", "a transaction relayed by node %zu did not reach node %zu", a, i); }
    k.shared = {t}; size_t m = g.draw(k.N); k.mineAt((int)m, true); uint64_t drops = k.net.honestDrops; k.net.settle(5000);
    for (size_t i = 0; i < k.N; i++) { BlockP b = k.tipOf((int)i); g.evals++; VF_CHECK(b->work == k.bestWork || k.net.honestDrops > drops, "N03/relay-block", "a block found by node %zu did not reach node %zu", m, i); k.tips[i] = b; }
    VF_CHECK(k.net.honestDrops == drops, "N03/drop", "honest nodes drop each other while relaying a block"); g.label("relayed block with a transaction");
  }
  g.label("messages", k.net.delivered); g.label("honest drops", k.net.honestDrops); g.label("interleaved", k.net.interleaved); if (longChain) g.label("long chain");
  if (differ && k.net.delivered >= 10) g.nontrivial();
}

VF_PROP("N03.hostile", 420, 12000, "as above with a scripted peer sending generated messages in every protocol state: undecodable bytes, invalid or unrequested blocks, wrong transactions, false chain entries, unknown objects, valid blocks in odd order, lite blocks with and without their transactions; listed offences must close its connection, no message may change a chain except by valid blocks, and the honest nodes still converge; non-trivial: at least three scripted messages and a closed connection") {
  Cfg c; if (g.chance(1, 3)) c.v8 = 6; Case k(g, c); k.setup(false); Net& net = k.net; World& w = net.w;
  size_t n = 0, sent = 0; uint64_t closedBy = 0; int victim = 0; Conn* hc = nullptr;
  auto alive = [&]() { if (!hc) return false; for (auto& x : net.conns) if (&x == hc) return x.alive; return false; };
  while (g.more(n, 40)) {
    n++; size_t op = g.weighted({8, 2, 1, 14});
    if (op == 0) { size_t m = 1 + g.draw(3); while (m-- && net.step()) {} continue; }
    if (op == 1) { k.mineAt((int)g.draw(k.N)); continue; }
    if (op == 2) { net.timedSync((int)g.draw(k.N)); continue; }
    if (!alive()) {
      victim = (int)g.draw(k.N); hc = &net.connect(-1, victim, g.flip() ? 1 : 3, true); g.note("scripted peer connects to node %d as connection %d", victim, hc->no);
      if (g.chance(4, 5)) {   // a handshake claiming some chain
        Msg m; m.kind = Msg::HS; size_t what = g.draw(4); BlockP b = k.all[g.draw(k.all.size())];
        m.sync.current_height = what == 0 ? (uint32_t)g.u64() : what == 1 ? b->height + 1 : net.peers[victim]->n->height() + 1; if (what == 1) m.sync.top_id = b->id; else if (what == 2) m.sync.top_id = net.peers[victim]->n->top(); else { Rng r(g.draw(1000)); r.fill(&m.sync.top_id, 32); }
        net.handle(*hc, 1, m); hc->e[0].in.clear();
      }
      continue;
    }
    // one scripted message to its victim
    End& e = hc->e[1]; Peer& p = *net.peers[victim]; Node& nd = *p.n; BlockP tip = k.tipOf(victim); Hash topBefore = nd.top(); bool mustClose = false, mayGrow = false; std::string what; int cmd = 0; BinaryArray buf; bool normal = e.ctx.m_state == Ctx::state_normal;
    auto rndHash = [&] { Hash h; Rng r(g.draw(100000)); r.fill(&h, 32); return h; };
    auto anyBlock = [&] { return k.all[g.draw(k.all.size())]; };
    auto complete = [&](const BlockP& b) { block_complete_entry x; x.block = blobStr(b->blob); for (auto& t : b->txs) x.txs.push_back(blobStr(t->blob)); return x; };
    auto badBlock = [&]() -> BlockP { BlockOpt o; size_t q = g.draw(3); if (q == 0) o.rewardDelta = 1000 + g.draw(1000); else if (q == 1) { o.setTs = true; o.ts = w.cfg.t0 + 400 * 86400; } BlockP b = w.build(tip, {}, o);
      if (q == 2) { cn::Block x = b->b; x.transactionHashes.push_back(rndHash()); return w.finish(tip, x, {}, false); } return b; };
    size_t kind = g.weighted({3, 3, 4, 2, 3, 3, 3, 3, 3, 2, 3, 2, 2});
    if (kind == 0) { static const int cmds[] = {NOTIFY_NEW_BLOCK::ID, NOTIFY_NEW_TRANSACTIONS::ID, NOTIFY_REQUEST_GET_OBJECTS::ID, NOTIFY_RESPONSE_GET_OBJECTS::ID, NOTIFY_REQUEST_CHAIN::ID, NOTIFY_RESPONSE_CHAIN_ENTRY::ID, NOTIFY_REQUEST_TX_POOL::ID, NOTIFY_NEW_LITE_BLOCK::ID, NOTIFY_MISSING_TXS::ID};
      cmd = cmds[g.draw(9)]; std::string s = g.bytes(g.size(60)); buf.assign(s.begin(), s.end()); what = "undecodable bytes"; mustClose = true; }
    else if (kind == 1) { what = "an invalid block"; BlockP b = badBlock(); VF_CHECK(!b->bad.empty() || b->height == 0 || true, "N03/setup", "x"); NOTIFY_NEW_BLOCK::request r; r.b = complete(b); r.current_blockchain_height = tip->height + 2; r.hop = 0; cmd = NOTIFY_NEW_BLOCK::ID; buf = enc<NOTIFY_NEW_BLOCK>(r); mustClose = normal; }
    else if (kind == 2) { BlockP b = g.flip() ? anyBlock() : k.mine(tip, {}); what = strf("valid block %s at %u", sh(b->id).c_str(), b->height); NOTIFY_NEW_BLOCK::request r; r.b = complete(b); r.current_blockchain_height = g.chance(1, 3) ? g.u32() : b->height + 1; r.hop = g.draw(5); cmd = NOTIFY_NEW_BLOCK::ID; buf = enc<NOTIFY_NEW_BLOCK>(r); mayGrow = true; }
    else if (kind == 3) { NOTIFY_NEW_TRANSACTIONS::request r; what = "transactions"; size_t q = 1 + g.draw(3); for (size_t i = 0; i < q; i++) { if (g.flip()) { auto t = w.randomTransfer(*tip->state, {}, w.minFee(tip->height + 1)); if (t) { std::string s = blobStr(t->blob); if (g.flip()) s[g.draw(s.size())] ^= 1 << g.draw(8); r.txs.push_back(s); } } else r.txs.push_back(g.bytes(g.size(80))); } cmd = NOTIFY_NEW_TRANSACTIONS::ID; buf = enc<NOTIFY_NEW_TRANSACTIONS>(r); mayGrow = (bool)e.ctx.m_pending_lite_block; }
    else if (kind == 4) { NOTIFY_REQUEST_CHAIN::request r; size_t q = g.draw(3); what = q == 0 ? "an empty chain request" : q == 1 ? "a chain request for another genesis" : "a chain request"; if (q == 1) { r.block_ids.push_back(g.flip() ? rndHash() : anyBlock()->id); r.block_ids.push_back(rndHash()); mustClose = true; } else if (q == 2) { size_t m = g.draw(4); for (size_t i = 0; i < m; i++) r.block_ids.push_back(g.flip() ? anyBlock()->id : rndHash()); r.block_ids.push_back(w.genesis->id); } else mustClose = true; cmd = NOTIFY_REQUEST_CHAIN::ID; buf = enc<NOTIFY_REQUEST_CHAIN>(r); }
    else if (kind == 5) { NOTIFY_RESPONSE_CHAIN_ENTRY::request r; size_t q = g.draw(4); r.start_height = g.chance(1, 3) ? g.u32() : (uint32_t)g.draw(20); r.total_height = g.chance(1, 3) ? g.u32() : (uint32_t)g.draw(40);
      if (q == 0) { what = "an empty chain entry"; mustClose = true; } else if (q == 1) { what = "a chain entry from an unknown block"; r.m_block_ids.push_back(rndHash()); mustClose = true; } else { what = "a chain entry"; r.m_block_ids.push_back(tip->state->chain[g.draw(tip->state->chain.size())]->id); size_t m = g.draw(5); for (size_t i = 0; i < m; i++) r.m_block_ids.push_back(g.flip() ? rndHash() : anyBlock()->id); }
      cmd = NOTIFY_RESPONSE_CHAIN_ENTRY::ID; buf = enc<NOTIFY_RESPONSE_CHAIN_ENTRY>(r); }
    else if (kind == 6) { NOTIFY_REQUEST_GET_OBJECTS::request r; size_t q = g.draw(4); what = "a request for objects"; size_t m = q == 0 ? 1001 + g.draw(100) : g.draw(6); for (size_t i = 0; i < m; i++) { if (g.flip()) r.blocks.push_back(g.flip() && q ? anyBlock()->id : rndHash()); else r.txs.push_back(rndHash()); } mustClose = q == 0; cmd = NOTIFY_REQUEST_GET_OBJECTS::ID; buf = enc<NOTIFY_REQUEST_GET_OBJECTS>(r); }
    else if (kind == 7) { NOTIFY_RESPONSE_GET_OBJECTS::request r; r.current_blockchain_height = std::max<uint32_t>(e.ctx.m_last_response_height, g.chance(1, 4) ? g.u32() : tip->height + 5); size_t q = g.draw(3); what = "unrequested objects"; BlockP b = q == 0 ? badBlock() : anyBlock(); bool req = e.ctx.m_requested_objects.count(b->id); r.blocks.push_back(complete(b)); if (q == 2 && g.flip()) { r.blocks.front().block = g.bytes(g.size(100)); req = false; } if (!req) mustClose = true; else mayGrow = true; cmd = NOTIFY_RESPONSE_GET_OBJECTS::ID; buf = enc<NOTIFY_RESPONSE_GET_OBJECTS>(r); }
    else if (kind == 8) { // claim blocks, then answer the request with something
      NOTIFY_RESPONSE_CHAIN_ENTRY::request r; std::vector<TxP> carried; k.pending(tip, carried); BlockP nb = g.flip() ? badBlock() : k.mine(tip, carried); bool bad = !nb->state; r.start_height = tip->height; r.total_height = tip->height + 2; r.m_block_ids = {tip->id, nb->id}; BinaryArray b1 = enc<NOTIFY_RESPONSE_CHAIN_ENTRY>(r); Msg m; m.kind = Msg::NOTIFY; m.cmd = NOTIFY_RESPONSE_CHAIN_ENTRY::ID; m.buf = b1; net.handle(*hc, 1, m); sent++; (void)bad;
      if (!alive()) { g.label("closed"); continue; }
      bool asked = e.ctx.m_requested_objects.count(nb->id); NOTIFY_RESPONSE_GET_OBJECTS::request o; o.current_blockchain_height = tip->height + 2; o.blocks.push_back(complete(nb)); size_t q = g.draw(3); what = strf("the %s claimed block (%s)", nb->bad.empty() ? "valid" : "invalid", q == 0 ? "as is" : q == 1 ? "an extra transaction" : "another transaction");
      if (q == 1) { o.blocks.front().txs.push_back(g.bytes(20)); mustClose = true; } else if (q == 2 && !o.blocks.front().txs.empty()) { o.blocks.front().txs.front() = g.bytes(30); mustClose = true; } else { mayGrow = true; mustClose = !nb->bad.empty(); }
      if (!asked || e.ctx.m_requested_objects.size() != 1) mustClose = true; cmd = NOTIFY_RESPONSE_GET_OBJECTS::ID; buf = enc<NOTIFY_RESPONSE_GET_OBJECTS>(o); }
    else if (kind == 9) { NOTIFY_REQUEST_TX_POOL::request r; what = "a pool request"; size_t m = g.draw(4); for (size_t i = 0; i < m; i++) r.txs.push_back(rndHash()); cmd = NOTIFY_REQUEST_TX_POOL::ID; buf = enc<NOTIFY_REQUEST_TX_POOL>(r); }
    else if (kind == 10) { NOTIFY_NEW_LITE_BLOCK::request r; std::vector<TxP> txs; bool withTx = g.flip(); if (withTx) { TxP t = w.randomTransfer(*tip->state, {}, w.minFee(tip->height + 1)); if (t) txs.push_back(t); } BlockP b = g.chance(1, 3) ? badBlock()  : k.mine(tip, txs); what = strf("%s lite block %s with %zu transactions", b->bad.empty() ? "valid" : "invalid", sh(b->id).c_str(), b->txs.size());
      r.block = blobStr(b->blob); if (g.chance(1, 6)) { r.block = g.bytes(40); mustClose = normal; } r.current_blockchain_height = b->height + 1; r.hop = 0; cmd = NOTIFY_NEW_LITE_BLOCK::ID; buf = enc<NOTIFY_NEW_LITE_BLOCK>(r); mayGrow = true;
      hc->e[0].in.clear(); Msg m; m.kind = Msg::NOTIFY; m.cmd = cmd; m.buf = buf; bool pendingBefore = (bool)e.ctx.m_pending_lite_block; net.handle(*hc, 1, m); sent++; g.note("scripted: %s", what.c_str());
      if (alive() && normal && !pendingBefore && !b->txs.empty() && b->bad.empty() && !mustClose) {
        bool asked = false; for (auto& q : hc->e[0].in) if (q.cmd == NOTIFY_MISSING_TXS::ID) { NOTIFY_MISSING_TXS::request mr; if (LevinProtocol::decode(q.buf, mr)) { asked = mr.missing_txs.size() == 1 && mr.missing_txs[0] == b->txs[0]->id; } }
        VF_CHECK(asked || nd.top() == b->id, "N03/lite", "a lite block whose transaction is unknown is neither completed nor asked for");
        if (asked && g.chance(3, 4)) { NOTIFY_NEW_TRANSACTIONS::request tr; tr.txs.push_back(blobStr(b->txs[0]->blob)); Msg a; a.kind = Msg::NOTIFY; a.cmd = NOTIFY_NEW_TRANSACTIONS::ID; a.buf = enc<NOTIFY_NEW_TRANSACTIONS>(tr); net.handle(*hc, 1, a); g.evals++; VF_CHECK(nd.top() == b->id, "N03/lite", "a lite block completed with its transaction was not accepted"); g.label("lite block completed"); }
        else if (asked) { NOTIFY_NEW_TRANSACTIONS::request tr; Msg a; a.kind = Msg::NOTIFY; a.cmd = NOTIFY_NEW_TRANSACTIONS::ID; a.buf = enc<NOTIFY_NEW_TRANSACTIONS>(tr); net.handle(*hc, 1, a); VF_CHECK(!alive(), "N03/offence", "a peer that does not deliver a lite block's transaction stays connected"); }
      } else if (mustClose) VF_CHECK(!alive(), "N03/offence", "%s does not close the connection", what.c_str());
      k.checkNode(victim, "N03/hostile"); if (!alive()) closedBy++; continue; }
    else if (kind == 11) { NOTIFY_MISSING_TXS::request r; what = "a request for missing transactions"; r.blockHash = rndHash(); r.current_blockchain_height = g.u32(); size_t m = 1 + g.draw(3); for (size_t i = 0; i < m; i++) r.missing_txs.push_back(rndHash()); mustClose = true; cmd = NOTIFY_MISSING_TXS::ID; buf = enc<NOTIFY_MISSING_TXS>(r); }
    else { Msg m; m.kind = g.flip() ? Msg::TS : Msg::TSR; m.sync.current_height = g.u32(); m.sync.top_id = g.flip() ? rndHash() : anyBlock()->id; g.note("scripted: sync data"); net.handle(*hc, 1, m); hc->e[0].in.clear(); sent++; VF_CHECK(nd.top() == topBefore, "N03/hostile", "synchronization data changed the chain"); continue; }
    if (cmd != NOTIFY_NEW_BLOCK::ID || !normal) { if (kind == 1 || kind == 2) mayGrow = mayGrow && normal; }
    g.note("scripted: %s (%zu bytes, state %d)", what.c_str(), buf.size(), (int)e.ctx.m_state); sent++; g.label("scripted: " + what.substr(0, what.find(' ', 6)));
    Msg m; m.kind = Msg::NOTIFY; m.cmd = cmd; m.buf = buf; net.handle(*hc, 1, m); g.evals++;
    if (mustClose) VF_CHECK(!alive(), "N03/offence", "%s does not close the connection", what.c_str());
    if (!alive()) { closedBy++; g.label("closed"); } else hc->e[0].in.clear();
    if (!mayGrow) VF_CHECK(nd.top() == topBefore, "N03/hostile", "%s changed the chain of node %d", what.c_str(), victim);
    k.checkNode(victim, "N03/hostile");
  }
  if (alive()) net.closeConn(*hc);
  // whatever valid blocks the scripted peer showed count only if a node kept them: the best chain among the nodes decides
  k.converge("N03/converge-hostile");
  g.label("messages", net.delivered); g.label("honest drops", net.honestDrops);
  if (sent >= 3 && closedBy) g.nontrivial();
}
