// N02: platform_system (Dispatcher, Event, EventLock, ContextGroup, Context, Timer) against a reference scheduler, in virtual time.
#include "vf.h"
#include <System/Context.h>
#include <System/ContextGroup.h>
#include <System/ContextGroupTimeout.h>
#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/EventLock.h>
#include <System/InterruptedException.h>
#include <System/RemoteContext.h>
#include <System/Timer.h>
#include "CryptoNoteCore/MessageQueue.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <ucontext.h>
#include <unistd.h>
#include <deque>
#include <list>
#include <thread>
using namespace vf; namespace ps = platform_system;
// ---- virtual time under the dispatcher ----
namespace {
bool virt = false; uint64_t vnow = 0, vseq = 0; std::function<void()> rescueReal;
struct VT { uint64_t deadline = 0, seq = 0; bool armed = false, enabled = false; };
std::map<int, VT> vts;
}
extern "C" {
int __real_epoll_wait(int, struct epoll_event*, int, int); int __real_epoll_ctl(int, int, int, struct epoll_event*); int __real_timerfd_create(int, int); int __real_timerfd_settime(int, int, const struct itimerspec*, struct itimerspec*);
static void vfire() {
  for (;;) { int fd = -1; for (auto& x : vts) if (x.second.armed && x.second.enabled && x.second.deadline <= vnow && (fd < 0 || std::make_pair(x.second.deadline, x.second.seq) < std::make_pair(vts[fd].deadline, vts[fd].seq))) fd = x.first;
    if (fd < 0) return; vts[fd].armed = false; uint64_t one = 1; if (write(fd, &one, 8) != 8) abort(); }
}
int __wrap_timerfd_create(int c, int f) { if (!virt) return __real_timerfd_create(c, f); int fd = eventfd(0, EFD_NONBLOCK); vts[fd] = VT(); return fd; }
int __wrap_timerfd_settime(int fd, int f, const struct itimerspec* n, struct itimerspec* o) {
  if (!virt) return __real_timerfd_settime(fd, f, n, o); uint64_t junk; while (read(fd, &junk, 8) == 8) {} VT& t = vts[fd]; uint64_t d = n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec; t.armed = d != 0; t.deadline = vnow + d; t.seq = vseq++; return 0;
}
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* e) { if (virt && vts.count(fd) && e) { if (e->events & EPOLLIN) vts[fd].enabled = true; else vts[fd].enabled = false; } int r = __real_epoll_ctl(ep, op, fd, e); return r; }
int __wrap_epoll_wait(int ep, struct epoll_event* ev, int max, int timeout) {
  if (!virt) return __real_epoll_wait(ep, ev, max, timeout);
  for (;;) {
    vfire(); int r = __real_epoll_wait(ep, ev, max, 0); if (r != 0 || timeout == 0) return r;
    uint64_t next = ~0ull; for (auto& x : vts) if (x.second.armed && x.second.enabled) next = std::min(next, x.second.deadline);
    if (next == ~0ull) { rescueReal(); errno = EINTR; return -1; }
    vnow = next;
  }
}
}
namespace {
const int E = 4, G = 3;
struct Op { enum K { YIELD, WAIT, SET, CLEAR, LOCK, SLEEP, WORK, SPAWN, GINT, GWAIT, SELFINT, POLL, REMOTE, CHILD } k; int a = 0, b = 0; bool catches = false; std::vector<Op> body, rest; };
typedef std::vector<Op> Prog;
const char* kn[] = {"yield", "wait", "set", "clear", "lock", "sleep", "work", "spawn", "interrupt-group", "wait-group", "interrupt-self", "poll", "remote", "child"};
std::string showProg(const Prog& p) { std::string s; for (auto& o : p) { s += strf("%s%s(%d", s.empty() ? "" : "; ", kn[o.k], o.a); if (!o.body.empty()) s += " {" + showProg(o.body) + "}"; if (!o.rest.empty()) s += " then {" + showProg(o.rest) + "}"; s += o.k == Op::CHILD ? strf(" end %d)", o.b) : ")"; if (o.catches) s += "c"; } return s; }
struct Budget { int ops; };
Prog genProg(Gen& g, int group, int depth, Budget& left, bool plain = false) {
  Prog p; size_t n = 0; size_t cap = depth == 0 ? 14 : 6;
  while (left.ops > 0 && g.more(n, cap)) {
    n++; left.ops--; Op o; size_t k = plain ? (size_t)(g.flip() ? Op::SET : Op::CLEAR) : g.weighted({6, 6, 6, 2, 3, 5, 2, depth < 3 ? 7u : 0u, 3, 3, 1, 2, 2, depth < 3 ? 3u : 0u}); o.k = (Op::K)k; o.catches = g.flip();
    switch (o.k) {
      case Op::WAIT: case Op::SET: case Op::CLEAR: o.a = (int)g.draw(E); break;
      case Op::LOCK: o.a = (int)g.draw(E); o.body = genProg(g, group, depth + 1, left); break;
      case Op::SLEEP: o.a = (int)g.draw(6); break;
      case Op::WORK: o.a = (int)g.draw(6); break;
      case Op::SPAWN: o.a = (int)g.draw(G); o.body = genProg(g, o.a, depth + 1, left); break;
      case Op::GINT: o.a = (int)g.draw(G); break;
      case Op::GWAIT: if (group >= G - 1) { o.k = Op::YIELD; } else o.a = group + 1 + (int)g.draw(G - 1 - group); break;
      case Op::REMOTE: o.body = genProg(g, G, depth + 1, left, true); break;
      case Op::CHILD: o.body = genProg(g, group, depth + 1, left); o.rest = genProg(g, group, depth + 1, left); o.b = (int)g.draw(3); break;   // 0: get, 1: interrupt and get, 2: destroy
      default: break;
    }
    p.push_back(o);
  }
  return p;
}
struct Interrupted : std::exception {};
typedef std::vector<std::string> Log;
// ---- one interpreter, two schedulers ----
template <class B> struct Interp {
  B& b; Log log; int tasks = 0, maxLog = 4000;
  explicit Interp(B& b_) : b(b_) {}
  void put(int t, const std::string& s) { log.push_back(strf("%llu t%d %s", (unsigned long long)(b.now() / 1000000), t, s.c_str())); }
  void task(int t, const Prog& p) { put(t, "starts"); try { run(t, p); put(t, "ends"); } catch (typename B::Int&) { put(t, "ends interrupted"); throw; } }
  void run(int t, const Prog& p) {
    for (auto& o : p) {
      try {
        switch (o.k) {
          case Op::YIELD: b.yield(); put(t, "yielded"); break;
          case Op::WAIT: b.wait(o.a); put(t, strf("event %d, state %d", o.a, (int)b.get(o.a))); break;
          case Op::SET: put(t, strf("sets %d", o.a)); b.set(o.a); break;
          case Op::CLEAR: put(t, strf("clears %d", o.a)); b.clear(o.a); break;
          case Op::LOCK: b.lock(o.a, [&] { put(t, strf("locks %d", o.a)); run(t, o.body); put(t, strf("unlocks %d", o.a)); }); break;
          case Op::SLEEP: b.sleep(o.a); put(t, "slept"); break;
          case Op::WORK: b.work(o.a); break;
          case Op::SPAWN: { int n = ++tasks; put(t, strf("spawns t%d in %d", n, o.a)); const Prog* q = &o.body; b.spawn(o.a, [this, n, q] { task(n, *q); }); break; }
          case Op::GINT: put(t, strf("interrupts group %d", o.a)); b.gint(o.a); break;
          case Op::GWAIT: b.gwait(o.a); put(t, strf("group %d is done", o.a)); break;
          case Op::SELFINT: b.selfint(); break;
          case Op::POLL: put(t, strf("interrupted: %d", (int)b.poll())); break;
          case Op::REMOTE: { int n = ++tasks; put(t, strf("remotely spawns t%d", n)); const Prog* q = &o.body; b.remote([this, n, q] { task(n, *q); }); break; }
          case Op::CHILD: { int n = ++tasks; put(t, strf("child t%d", n)); b.child([&, n] { task(n, o.body); }, [&](const std::function<void()>& interrupt, const std::function<void()>& get) { run(t, o.rest); if (o.b == 1) interrupt(); if (o.b < 2) get(); }); put(t, strf("child t%d is over", n)); break; }
        }
      } catch (typename B::Int&) { put(t, strf("interrupted in %s %d", kn[o.k], o.a)); if (!o.catches) throw; }
    }
  }
  void whole(const Prog& p) { try { task(0, p); } catch (typename B::Int&) {} b.poll(); b.yield(); for (int round = 0; round < 60; round++) { size_t before = tasks; for (int i = G - 1; i >= 0; i--) { b.gint(i); b.gwait(i); put(0, strf("group %d is over", i)); } b.yield(); if (round && before == (size_t)tasks) break; } put(0, "over"); }
};
// ---- the real thing ----
struct Real {
  typedef ps::InterruptedException Int;
  ps::Dispatcher d; std::deque<ps::Event> ev; std::deque<ps::ContextGroup> gr; size_t rescues = 0;
  Real() { for (int i = 0; i < E; i++) ev.emplace_back(d); for (int i = 0; i < G; i++) gr.emplace_back(d); }
  uint64_t now() { return vnow; }
  void yield() { d.yield(); } void wait(int e) { ev[e].wait(); } void set(int e) { ev[e].set(); } void clear(int e) { ev[e].clear(); } bool get(int e) { return ev[e].get(); }
  template <class F> void lock(int e, F f) { ps::EventLock l(ev[e]); f(); }
  void sleep(int ms) { ps::Timer(d).sleep(std::chrono::milliseconds(ms)); }
  void work(int ms) { vnow += ms * 1000000ull; vfire(); }
  void spawn(int g, std::function<void()> f) { gr[g].spawn(std::move(f)); } void gint(int g) { gr[g].interrupt(); } void gwait(int g) { gr[g].wait(); }
  void selfint() { d.interrupt(); } bool poll() { return d.interrupted(); } void remote(std::function<void()> f) { d.remoteSpawn(std::move(f)); }
  template <class F> void child(std::function<void()> c, F f) { ps::Context<> x(d, std::move(c)); f([&] { x.interrupt(); }, [&] { x.get(); }); }
  bool rescue() { for (auto& e : ev) e.set(); if (rescues++ > 3) for (auto& g : gr) g.interrupt(); return rescues < 2000; }
};
// ---- the specification: one ready queue, events, groups and sleepers ----
struct Ref {
  typedef Interrupted Int;
  struct Group; struct Event;
  struct Task { ucontext_t u; std::vector<char> stack; std::function<void()> fn; bool interrupted = false, byInt = false, finished = false; Event* waiting = nullptr; bool sleeping = false, fired = false; uint64_t deadline = 0, seq = 0; Group* group = nullptr; };
  struct Event { bool state = false; std::list<Task*> waiters; };
  struct Group { std::list<Task*> members, waiters; };
  std::deque<Task*> ready; std::list<Task*> io; bool remoteInIo = false; std::list<Task*>::iterator dummy; Task remoteMark; std::vector<std::function<void()>> remoteQ; std::list<std::unique_ptr<Task>> all; Task mainT; Task* cur = &mainT; Event ev[E]; Group gr[G], rem; std::list<Task*> sleepers; uint64_t t = 0, seq = 0; size_t rescues = 0; ucontext_t sched; std::vector<char> schedStack; bool stuck = false;
  Ref() {}
  uint64_t now() { return t; }
  static void entry(unsigned lo, unsigned hi) { Ref* r = reinterpret_cast<Ref*>((uintptr_t)lo | (uintptr_t)hi << 32); r->body(); }
  void body() {
    Task* me = cur; try { me->fn(); } catch (std::exception&) {} me->finished = true;
    if (me->group) { me->group->members.remove(me); if (me->group->members.empty()) { for (auto w : me->group->waiters) ready.push_back(w); me->group->waiters.clear(); } }
    next(); abort();
  }
  Task* make(std::function<void()> f, Group* g) {
    all.emplace_back(new Task); Task* x = all.back().get(); x->fn = std::move(f); x->group = g; if (g) g->members.push_back(x); x->stack.resize(128 * 1024); getcontext(&x->u); x->u.uc_stack.ss_sp = x->stack.data(); x->u.uc_stack.ss_size = x->stack.size(); x->u.uc_link = nullptr;
    uintptr_t p = reinterpret_cast<uintptr_t>(this); makecontext(&x->u, (void (*)())entry, 2, (unsigned)p, (unsigned)(p >> 32)); ready.push_back(x); return x;
  }
  void fire() { for (;;) { Task* b = nullptr; for (auto s : sleepers) if (!s->fired && s->deadline <= t && (!b || std::make_pair(s->deadline, s->seq) < std::make_pair(b->deadline, b->seq))) b = s; if (!b) return; b->fired = true; io.push_back(b); } }
  void spawnRemote() { for (auto& f : remoteQ) make(std::move(f), &rem); remoteQ.clear(); }
  void woken(Task* x) { x->sleeping = x->fired = false; sleepers.remove(x); }
  void next() {   // give the processor away
    Task* to = nullptr;
    for (;;) {
      if (!ready.empty()) { to = ready.front(); ready.pop_front(); break; }
      fire();
      if (!io.empty()) {
        Task* x = io.front(); io.pop_front();
        if (x == &remoteMark) { if (remoteQ.empty()) { remoteInIo = false; continue; } spawnRemote(); io.push_back(&remoteMark); continue; }
        woken(x); to = x; break;
      }
      uint64_t n = ~0ull; for (auto s : sleepers) n = std::min(n, s->deadline);
      if (n != ~0ull) { t = n; continue; }
      rescue();
    }
    Task* from = cur; cur = to; if (to != from) swapcontext(&from->u, &to->u);
  }
  void yield() { for (;;) { fire(); if (io.empty()) break; Task* x = io.front(); io.pop_front(); if (x == &remoteMark) { if (remoteQ.empty()) remoteInIo = false; else { spawnRemote(); io.push_back(&remoteMark); } } else { woken(x); ready.push_back(x); } } if (!ready.empty()) { ready.push_back(cur); next(); } }
  bool poll() { bool r = cur->interrupted; cur->interrupted = false; return r; }
  void selfint() { cur->interrupted = true; }
  void waitEv(Event& e) { if (poll()) throw Interrupted(); if (e.state) return; Task* me = cur; me->waiting = &e; me->byInt = false; e.waiters.push_back(me); next(); if (me->byInt) { me->byInt = false; throw Interrupted(); } }
  void setEv(Event& e) { if (e.state) return; e.state = true; for (auto w : e.waiters) { w->waiting = nullptr; ready.push_back(w); } e.waiters.clear(); }
  void wait(int e) { waitEv(ev[e]); } void set(int e) { setEv(ev[e]); } void clear(int e) { ev[e].state = false; } bool get(int e) { return ev[e].state; }
  template <class F> void lock(int e, F f) { while (!ev[e].state) wait(e); clear(e); struct U { Ref* r; int e; ~U() { r->set(e); } } u{this, e}; f(); }
  void sleep(int ms) { if (poll()) throw Interrupted(); if (!ms) { yield(); return; } Task* me = cur; me->sleeping = true; me->fired = false; me->byInt = false; me->deadline = t + ms * 1000000ull; me->seq = seq++; sleepers.push_back(me); next(); if (me->byInt) { me->byInt = false; throw Interrupted(); } }
  void work(int ms) { t += ms * 1000000ull; fire(); }
  void interrupt(Task* x) {
    if (x->interrupted) return;
    if (x->waiting) { x->waiting->waiters.remove(x); x->waiting = nullptr; x->byInt = true; ready.push_back(x); }
    else if (x->sleeping) { if (x->fired) { io.remove(x); x->interrupted = true; } else x->byInt = true; woken(x); ready.push_back(x); }   // a sleep that is over returns; the interruption stays due
    else x->interrupted = true;
  }
  void spawn(int g, std::function<void()> f) { make(std::move(f), &gr[g]); }
  void gint(int g) { for (auto x : std::list<Task*>(gr[g].members)) interrupt(x); }
  void gwait(int g) { while (!gr[g].members.empty()) { gr[g].waiters.push_back(cur); next(); } }
  void remote(std::function<void()> f) { remoteQ.push_back(std::move(f)); if (!remoteInIo) { remoteInIo = true; io.push_back(&remoteMark); } }
  template <class F> void child(std::function<void()> c, F f) {
    Event done; std::exception_ptr ex; Task* x = make([&, c] { try { c(); } catch (...) { ex = std::current_exception(); } setEv(done); }, nullptr);
    auto waitChild = [&] { for (;;) { try { waitEv(done); break; } catch (Interrupted&) { if (!x->finished) interrupt(x); } } };
    struct D { std::function<void()> f; ~D() { f(); } } d{[&] { if (!x->finished) interrupt(x); waitChild(); }};
    f([&] { if (!x->finished) interrupt(x); }, [&] { waitChild(); if (ex) std::rethrow_exception(ex); });
  }
  bool rescue() { for (int e = 0; e < E; e++) set(e); if (rescues++ > 3) for (int g = 0; g < G; g++) gint(g); return rescues < 2000; }
};
}

VF_PROP("N02.tasks", 40000, 1500000, "programs of nested tasks over four events, three groups, locks, timers, child contexts, remote procedures and interruptions run on the dispatcher in virtual time and on a reference scheduler; the complete traces must be equal; non-trivial: at least three tasks ran and one of them was blocked and resumed or interrupted") {
  Budget left{(int)(6 + g.size(70))}; Prog p = genProg(g, -1, 0, left); g.note("%s", showProg(p).c_str());
  Ref ref; Interp<Ref> a(ref); a.whole(p);
  vts.clear(); vnow = 0; vseq = 0; virt = true; Log got; bool over = false; size_t rescues = 0;
  struct Off { ~Off() { virt = false; } } off;
  { std::unique_ptr<Real> rp(new Real); Real& real = *rp; Interp<Real> b(real);
    rescueReal = [&] { if (!real.rescue() || b.log.size() > a.log.size() + 100) { vf::fail("N02/stuck", "tasks that should be ready are not: after %zu steps; the specification goes on with \"%s\"", b.log.size(), b.log.size() < a.log.size() ? a.log[b.log.size()].c_str() : "the end"); } };
    b.whole(p); got = b.log; over = true; rescues = real.rescues; rp.reset(); }   // tasks that are still there end now, and the interpreter outlives them
  g.evals += a.log.size(); (void)over; (void)rescues;
  for (size_t i = 0; i < std::max(a.log.size(), got.size()); i++) {
    std::string x = i < a.log.size() ? a.log[i] : "(nothing)", y = i < got.size() ? got[i] : "(nothing)";
    if (x != y) { std::string ctx; for (size_t q = i > 6 ? i - 6 : 0; q < i; q++) ctx += "    " + a.log[q] + "\n"; g.note("%s  specified: %s\n  happened:  %s", ctx.c_str(), x.c_str(), y.c_str()); }
    VF_CHECK(x == y, "N02/trace", "step %zu: \"%s\" instead of \"%s\"", i, y.c_str(), x.c_str());
  }
  size_t intr = 0, blocked = 0; for (auto& s : a.log) { if (s.find("interrupted in") != std::string::npos) intr++; if (s.find("event ") != std::string::npos || s.find("slept") != std::string::npos || s.find("is done") != std::string::npos) blocked++; }
  if (a.tasks >= 3 && (intr || blocked)) g.nontrivial();
  g.label("interruptions", intr); g.label("resumptions", blocked); if (ref.rescues) g.label("deadlocked programs");
}
VF_PROP("N02.remote", 60, 3000, "procedures handed over by several threads run once, in each thread's order, on the dispatcher's thread; remote contexts return their results; non-trivial: two or more threads") {
  size_t T = 1 + g.draw(4), M = 1 + g.size(60); ps::Dispatcher d; std::vector<std::vector<size_t>> seen(T); size_t total = 0; std::thread::id me = std::this_thread::get_id(); bool foreign = false; uint64_t salt = g.u64();
  std::vector<std::thread> th; for (size_t i = 0; i < T; i++) th.emplace_back([&, i] { Rng r(salt + i); for (size_t q = 0; q < M; q++) { d.remoteSpawn([&, i, q] { seen[i].push_back(q); total++; foreign |= std::this_thread::get_id() != me; }); if (r.next() % 8 == 0) std::this_thread::yield(); } });
  std::vector<uint64_t> results; bool early = false; int k = (int)g.draw(3); auto t0 = std::chrono::steady_clock::now(); auto limit = t0 + std::chrono::seconds(20);
  for (int i = 0; i < k; i++) { uint64_t v = g.u64(); ps::RemoteContext<uint64_t> rc(d, [v] { return v ^ 5; }); results.push_back(rc.get()); early |= results.back() != (v ^ 5); }
  while (total < T * M && std::chrono::steady_clock::now() < limit) d.yield();
  for (auto& x : th) x.join(); d.yield(); g.evals += T;
  VF_CHECK(!early, "N02/remote", "a remote context returned something else"); VF_CHECK(!foreign, "N02/remote", "a procedure ran on another thread");
  for (size_t i = 0; i < T; i++) { VF_CHECK(seen[i].size() == M, "N02/remote", "thread %zu handed over %zu procedures, %zu ran", i, M, seen[i].size()); for (size_t q = 0; q < M; q++) VF_CHECK(seen[i][q] == q, "N02/remote", "thread %zu: procedures ran out of order", i); }
  g.note("%zu threads, %zu procedures each", T, M); if (T > 1) g.nontrivial();
}

namespace { struct Sink; struct Sources { cn::IntrusiveLinkedList<cn::MessageQueue<int>> l; void addMessageQueue(cn::MessageQueue<int>& q) { l.insert(q); } void removeMessageQueue(cn::MessageQueue<int>& q) { l.remove(q); } }; }
VF_PROP("M01.messages", 3000, 150000, "message queues on one dispatcher with producers, one or two consumers each, queues joining and leaving and stop at a generated time: every message sent to a registered queue is received once, in order, and stop ends every consumer after the rest is received; non-trivial: a consumer waited and a message was received") {
  ps::Dispatcher d; Sources src; size_t Q = 1 + g.draw(3); int next = 0; size_t waits = 0, received = 0;
  struct QQ { std::unique_ptr<cn::MessageQueue<int>> q; std::unique_ptr<cn::MesageQueueGuard<Sources, int>> guard; std::vector<int> sent, got; int ended = 0, consumers = 0; bool stopped = false, wrong = false; };
  std::vector<QQ> qs(Q); std::vector<QQ*> order; for (auto& x : qs) { x.q.reset(new cn::MessageQueue<int>(d)); x.guard.reset(new cn::MesageQueueGuard<Sources, int>(src, *x.q)); order.push_back(&x); }
  {
    ps::ContextGroup gr(d);
    for (auto& x : qs) { x.consumers = 1 + (int)g.draw(2); for (int c = 0; c < x.consumers; c++) { uint64_t slow = g.draw(3); QQ* y = &x; gr.spawn([&, y, slow] { try { for (;;) { int v = y->q->front(); int w = y->q->front(); y->wrong |= v != w; y->q->pop(); y->got.push_back(v); received++; for (uint64_t i = 0; i < slow; i++) d.yield(); if (y->got.size() > 100000) { y->wrong = true; break; } } } catch (ps::InterruptedException&) {} y->ended++; }); } }
    size_t n = 0;
    while (g.more(n, 40)) {
      n++; size_t op = g.weighted({6, 4, 1, 1, 2});
      if (op == 0) { int v = ++next; g.note("send %d", v); for (auto& q : src.l) q.push(v); for (auto o : order) o->sent.push_back(v); }
      else if (op == 1) { waits++; d.yield(); }
      else if (op == 2) { QQ& x = qs[g.draw(Q)]; if (x.guard) { g.note("queue leaves"); x.guard.reset(); order.erase(std::find(order.begin(), order.end(), &x)); } else { g.note("queue joins"); x.guard.reset(new cn::MesageQueueGuard<Sources, int>(src, *x.q)); order.push_back(&x); } }
      else if (op == 3) { QQ& x = qs[g.draw(Q)]; g.note("stop"); x.q->stop(); x.stopped = true; }
      else { std::vector<cn::MessageQueue<int>*> a, b; for (auto& q : src.l) a.push_back(&q); for (auto o : order) b.push_back(o->q.get()); VF_CHECK(a == b && src.l.empty() == b.empty(), "M01/list", "the list of queues is not what was registered"); g.evals++; }
    }
    for (auto& x : qs) x.q->stop(); for (int i = 0; i < 400; i++) d.yield();
    for (auto& x : qs) { g.evals++; VF_CHECK(!x.wrong, "M01/front", "front changed or never ends"); VF_CHECK(x.ended == x.consumers, "M01/stop", "%d of %d consumers ended after stop", x.ended, x.consumers); }
    gr.wait();
  }
  for (auto& x : qs) { g.evals++; std::vector<int> s = x.got; if (x.consumers == 1) VF_CHECK(x.got == x.sent || x.stopped, "M01/order", "%zu messages sent, %zu received, or in another order", x.sent.size(), x.got.size()); std::sort(s.begin(), s.end());
    if (!x.stopped) VF_CHECK(s == x.sent, "M01/lost", "%zu messages sent, %zu received", x.sent.size(), x.got.size()); else VF_CHECK(std::includes(x.sent.begin(), x.sent.end(), s.begin(), s.end()) && std::adjacent_find(s.begin(), s.end()) == s.end() && (x.consumers > 1 || std::equal(x.got.begin(), x.got.end(), x.sent.begin())), "M01/lost", "messages received twice or never sent"); }
  g.label("received", received); if (waits && received) g.nontrivial();
}
