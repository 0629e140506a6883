// M01: BlockingQueue and ObserverManager, compiled against a mutex and condition variable whose every step is a generated choice.
#include "vf.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <shared_mutex>
#include <thread>
#include <vector>
using namespace vf;
namespace {
struct Abort {};
struct Sched {
  Gen& g; std::mutex m; std::condition_variable cv; int cur = -1; bool abort = false; std::string deadlock; std::vector<const void*> blockedOn; std::vector<char> done, onCv; size_t steps = 0, switches = 0; std::exception_ptr err;
  explicit Sched(Gen& g_) : g(g_) {}
  bool runnable(size_t i) { return !done[i] && !blockedOn[i]; }
  // called with the baton; picks who runs next
  void pick() {
    steps++; if (steps > 20000) { abort = true; deadlock = "no end after 20000 steps"; cur = -2; cv.notify_all(); return; }
    std::vector<int> r; for (size_t i = 0; i < done.size(); i++) if (runnable(i)) r.push_back((int)i);
    if (r.empty()) { bool all = true; for (auto d : done) all &= d != 0; if (!all) { abort = true; deadlock = "every thread waits"; } cur = -2; cv.notify_all(); return; }
    if (g.chance(1, 40)) for (size_t i = 0; i < onCv.size(); i++) if (onCv[i] && blockedOn[i]) { blockedOn[i] = nullptr; break; }   // a wakeup without a reason
    int n = r[g.draw(r.size())]; if (n != cur) switches++; cur = n; cv.notify_all();
  }
  void waitTurn(int me) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return cur == me || abort; }); if (abort) throw Abort(); }
  void point(int me) { { std::unique_lock<std::mutex> l(m); if (abort) throw Abort(); pick(); } waitTurn(me); }
  void block(int me, const void* what) { { std::unique_lock<std::mutex> l(m); if (abort) throw Abort(); blockedOn[me] = what; pick(); } waitTurn(me); }
  void run(std::vector<std::function<void()>> fs);
};
Sched* S = nullptr; thread_local int me = -1;
void Sched::run(std::vector<std::function<void()>> fs) {
  done.assign(fs.size(), 0); onCv.assign(fs.size(), 0); blockedOn.assign(fs.size(), nullptr); S = this; std::vector<std::thread> th;
  for (size_t i = 0; i < fs.size(); i++) th.emplace_back([this, i, &fs] { ::me = (int)i; try { waitTurn((int)i); fs[i](); } catch (Abort&) {} catch (...) { std::unique_lock<std::mutex> l(m); if (!err) err = std::current_exception(); abort = true; cv.notify_all(); } std::unique_lock<std::mutex> l(m); done[i] = 1; if (!abort) { try { pick(); } catch (...) { if (!err) err = std::current_exception(); abort = true; cv.notify_all(); } } });
  { std::unique_lock<std::mutex> l(m); pick(); }
  for (auto& t : th) t.join(); S = nullptr; if (err) std::rethrow_exception(err);
}
}
namespace vstd {
using namespace std;
struct mutex {
  int owner = -1;
  void lock() { if (!S) { owner = 0; return; } S->point(me); while (owner >= 0) S->block(me, this); owner = me; }
  bool try_lock() { if (!S) return true; S->point(me); if (owner >= 0) return false; owner = me; return true; }
  void release() { owner = -1; if (S) for (size_t i = 0; i < S->blockedOn.size(); i++) if (S->blockedOn[i] == this) S->blockedOn[i] = nullptr; }
  void unlock() { release(); if (S && !std::uncaught_exceptions()) { try { S->point(me); } catch (Abort&) {} } }
};
typedef mutex recursive_mutex_unsupported;
struct condition_variable {
  template <class L> void wait(L& l) { auto* m = l.mutex(); if (!S) return; m->release(); S->onCv[me] = 1; S->block(me, this); S->onCv[me] = 0; while (m->owner >= 0) S->block(me, m); m->owner = me; }
  template <class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
  void notify_one() { if (!S) return; std::vector<size_t> w; for (size_t i = 0; i < S->blockedOn.size(); i++) if (S->blockedOn[i] == this) w.push_back(i); if (!w.empty()) S->blockedOn[w[S->g.draw(w.size())]] = nullptr; }
  void notify_all() { if (!S) return; for (auto& b : S->blockedOn) if (b == this) b = nullptr; }
};
typedef condition_variable condition_variable_any;
}
#define std vstd
#include "Common/BlockingQueue.h"
#include "Common/ObserverManager.h"
#undef std

VF_PROP("M01.queue", 4000, 250000, "one to three producers, one to three consumers, size readers and a close (waiting or not) on one queue of bound 1-3, every lock, wait and wakeup scheduled by generated choices including spurious wakeups; non-trivial: at least five context switches and one item delivered") {
  size_t P = 1 + g.draw(3), C = 1 + g.draw(3), bound = 1 + g.draw(3); BlockingQueue<std::pair<int, int>> q(bound); struct Put { bool ok = false, returned = false; }; std::vector<std::vector<Put>> put(P); std::vector<std::vector<std::pair<int, int>>> got(C); bool closed = false, over = false, waitClose = g.flip(); size_t lateOk = 0, notEmpty = 0;
  bool group = g.flip(); GroupClose<BlockingQueue<std::pair<int, int>>> gc(q, P); Sched s(g); std::vector<std::function<void()>> f; size_t delay = g.draw(12);
  for (size_t p = 0; p < P; p++) { put[p].resize(g.size(8)); f.push_back([&, p] { for (size_t i = 0; i < put[p].size(); i++) { bool was = closed; put[p][i].ok = q.push(std::make_pair((int)p, (int)i)); put[p][i].returned = true; if (was && put[p][i].ok) lateOk++; } if (group) gc.close(); }); }
  for (size_t c = 0; c < C; c++) f.push_back([&, c] { std::pair<int, int> v; while (q.pop(v)) got[c].push_back(v); });
  f.push_back([&] { for (size_t i = 0; i < delay; i++) { if (q.size() > bound) over = true; } if (!group) { q.close(waitClose); closed = true; if (waitClose && q.size() != 0) notEmpty++; } for (size_t i = 0; i < 3; i++) if (q.size() > bound) over = true; });
  s.run(f); g.evals++;
  VF_CHECK(s.deadlock.empty(), "M01/stuck", "%s (%zu producers, %zu consumers, bound %zu%s)", s.deadlock.c_str(), P, C, bound, waitClose ? ", waiting close" : "");
  VF_CHECK(!over, "M01/bound", "the queue held more than %zu items", bound); VF_CHECK(!lateOk, "M01/closed", "an item was taken after close had returned"); VF_CHECK(!notEmpty, "M01/close", "a waiting close returned before the queue was empty");
  std::map<std::pair<int, int>, int> n; size_t total = 0; for (auto& c : got) { std::map<int, int> last; for (auto& x : c) { n[x]++; total++; auto it = last.find(x.first); VF_CHECK(it == last.end() || it->second < x.second, "M01/order", "items of one producer arrive out of order"); last[x.first] = x.second; } }
  for (size_t p = 0; p < P; p++) for (size_t i = 0; i < put[p].size(); i++) { int k = n[{(int)p, (int)i}]; VF_CHECK(put[p][i].returned && k == (put[p][i].ok ? 1 : 0), "M01/once", "an item that was %s was delivered %d times", put[p][i].ok ? "accepted" : "refused", k); }
  if (group) for (auto& x : put) for (auto& y : x) VF_CHECK(y.ok, "M01/group", "an item was refused before every producer had closed");
  g.note("%zu producers, %zu consumers, bound %zu, %zu items, %zu steps", P, C, bound, total, s.steps); g.label("items", total); if (s.switches >= 5 && total) g.nontrivial();
}

namespace {
struct Obs { std::vector<std::pair<int, int>> calls; std::function<void()> during; void event(int thread, int no) { calls.push_back({thread, no}); if (during) { auto f = during; f(); } } void plain() { calls.push_back({-1, -1}); } };
}
VF_PROP("M01.observers", 3000, 200000, "two to four threads adding, removing and notifying observers in generated interleavings, callbacks that add and remove; an observer registered throughout a notification gets it once, one not registered at any time during it never; non-trivial: a notification overlapped an addition or removal, or several observers were called") {
  tools::ObserverManager<Obs> m; size_t T = 2 + g.draw(3), N = 1 + g.draw(4); std::vector<Obs> o(N); Sched s(g); uint64_t clock = 0;
  struct Ev { uint64_t from, to; int obs; bool add, ok; }; struct No { uint64_t from, to; int thread, no; }; std::vector<Ev> evs; std::vector<No> nos; std::vector<std::vector<std::pair<int, int>>> plan(T);
  for (auto& p : plan) { size_t k = g.size(5); for (size_t i = 0; i < k; i++) p.push_back({(int)g.draw(3), (int)g.draw(N)}); }
  auto change = [&](int i, bool add) { Ev e; e.from = ++clock; e.obs = i; e.add = add; e.ok = add ? m.add(&o[i]) : m.remove(&o[i]); e.to = ++clock; evs.push_back(e); };
  if (g.chance(1, 3)) { size_t a = g.draw(N), b = g.draw(N); bool add = g.flip(); bool once = true; o[a].during = [&, a, b, add, once]() mutable { if (once) { once = false; change((int)b, add); } }; g.label("reentrant"); }
  std::vector<std::function<void()>> f; for (size_t t = 0; t < T; t++) f.push_back([&, t] { int no = 0; for (auto& x : plan[t]) { if (x.first < 2) change(x.second, x.first == 0); else { No n; n.from = ++clock; n.thread = (int)t; n.no = no++; m.notify(&Obs::event, n.thread, n.no); n.to = ++clock; nos.push_back(n); } } });
  s.run(f); VF_CHECK(s.deadlock.empty(), "M01/stuck", "observers: %s", s.deadlock.c_str());
  for (auto& e : evs) g.note("[%llu,%llu] %s %d %s", (unsigned long long)e.from, (unsigned long long)e.to, e.add ? "add" : "remove", e.obs, e.ok ? "done" : "refused"); for (auto& n : nos) g.note("[%llu,%llu] notification %d.%d", (unsigned long long)n.from, (unsigned long long)n.to, n.thread, n.no);
  bool overlap = false, several = false;
  for (auto& n : nos) { size_t called = 0; for (size_t i = 0; i < N; i++) { size_t k = std::count(o[i].calls.begin(), o[i].calls.end(), std::make_pair(n.thread, n.no)); called += k;
      // known only when no successful addition or removal of this observer overlaps the notification
      bool busy = false; int bal = 0; for (auto& e : evs) if (e.obs == (int)i && e.ok) { if (e.from < n.to && e.to > n.from) busy = true; else if (e.to < n.from) bal += e.add ? 1 : -1; }
      overlap |= busy; bool surely = !busy && bal == 1, maybe = busy || bal == 1;
      g.evals++; VF_CHECK(k <= 1, "M01/observer-twice", "observer %zu got one notification %zu times", i, k); VF_CHECK(!surely || k == 1, "M01/observer-missed", "observer %zu was registered throughout a notification and did not get it", i); VF_CHECK(maybe || k == 0, "M01/observer-stranger", "observer %zu got a notification while it was not registered", i); }
    several |= called > 1; }
  for (size_t i = 0; i < N; i++) for (auto& c : o[i].calls) VF_CHECK(c.first >= 0, "M01/observer", "wrong arguments");
  // quiet again: who is registered now
  std::vector<size_t> before(N); for (size_t i = 0; i < N; i++) { o[i].during = nullptr; before[i] = o[i].calls.size(); } m.notify(&Obs::plain); for (size_t i = 0; i < N; i++) { int bal = 0; for (auto& e : evs) if (e.obs == (int)i && e.ok) bal += e.add ? 1 : -1; VF_CHECK((bal == 0 || bal == 1) && o[i].calls.size() - before[i] == (size_t)bal, "M01/observer-state", "observer %zu: additions minus removals %d, called %zu times", i, bal, o[i].calls.size() - before[i]); }
  m.clear(); for (size_t i = 0; i < N; i++) before[i] = o[i].calls.size(); m.notify(&Obs::plain); for (size_t i = 0; i < N; i++) VF_CHECK(o[i].calls.size() == before[i], "M01/observer-state", "an observer is called after clear");
  if (overlap || several) g.nontrivial(); g.note("%zu threads, %zu observers, %zu notifications", T, N, nos.size());
}
