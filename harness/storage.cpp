// D01: SwappedVector / SwappedMap against in-memory containers, with crash snapshots at every write.
// D02: FileMappedVector against std::vector, with crash snapshots and injected failures at every system call.
#include "vf.h"
#include "vf_env.h"
#include "CryptoNoteCore/SwappedVector.h"
#include "CryptoNoteCore/SwappedMap.h"
#include "Common/FileMappedVector.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <fstream>
#include <memory>
#include <unistd.h>
#include <unordered_map>
using namespace vf;

// ---------------------------------------------------------------- system call hooks
namespace {
typedef std::map<std::string, std::string> Snap;   // file name -> content
std::string g_dir;                // watched directory
bool g_watch = false;
std::vector<Snap> g_snaps;
int g_fault = -1;                 // fail the n-th hooked call (0 = next)
int g_faultRun = 0;               // how many calls in a row fail
int g_calls = 0;
std::string readAll(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
Snap snapDir(const std::string& d) {
  Snap s; DIR* h = opendir(d.c_str()); if (!h) return s;
  while (dirent* e = readdir(h)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) s[e->d_name] = readAll(d + "/" + e->d_name);
  closedir(h); return s;
}
void putDir(const std::string& d, const Snap& s) {
  mkdir(d.c_str(), 0700);
  DIR* h = opendir(d.c_str());
  std::vector<std::string> old; while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) old.push_back(e->d_name);
  closedir(h);
  for (auto& o : old) unlink((d + "/" + o).c_str());
  for (auto& f : s) { std::ofstream o(d + "/" + f.first, std::ios::binary); o << f.second; }
}
bool hook() {                     // true: this call has to fail
  if (!g_watch) return false;
  g_watch = false;
  Snap s = snapDir(g_dir);
  if (g_snaps.empty() || g_snaps.back() != s) g_snaps.push_back(s);
  g_watch = true;
  int n = g_calls++;
  return g_fault >= 0 && n >= g_fault && n < g_fault + g_faultRun;
}
void arm(const std::string& d) { g_dir = d; g_snaps.clear(); g_calls = 0; g_watch = true; }
void disarm() { g_watch = false; g_fault = -1; }
}
extern "C" {
int __real_rename(const char*, const char*);
int __real_ftruncate(int, off_t);
int __real_msync(void*, size_t, int);
int __real_fsync(int);
int __real_munmap(void*, size_t);
int __wrap_rename(const char* a, const char* b) { if (hook()) { errno = EIO; return -1; } return __real_rename(a, b); }
int __wrap_ftruncate(int f, off_t n) { if (hook()) { errno = ENOSPC; return -1; } return __real_ftruncate(f, n); }
int __wrap_msync(void* p, size_t n, int f) { if (hook()) { errno = EIO; return -1; } return __real_msync(p, n, f); }
int __wrap_fsync(int f) { if (hook()) { errno = EIO; return -1; } return 0; }   // the page cache is all a stopped process needs
ssize_t write(int f, const void* p, size_t n) { if (f > 2) hook(); return syscall(SYS_write, f, p, n); }
ssize_t writev(int f, const struct iovec* v, int n) { if (f > 2) hook(); return syscall(SYS_writev, f, v, n); }
}

// ---------------------------------------------------------------- D01
struct Item { uint64_t tag = 0; std::string data; bool operator==(const Item& o) const { return tag == o.tag && data == o.data; } };
void serialize(Item& i, cn::ISerializer& s) { s(i.tag, "tag"); s(i.data, "data"); }
namespace {
Item makeItem(Gen& g) {
  Item i; i.tag = g.u64();
  size_t n = g.weighted({6, 3, 1}) == 0 ? g.draw(24) : g.draw(5) ? g.draw(300) : g.draw(20000);
  Rng r(g.draw(1 << 20)); i.data.resize(n); r.fill(&i.data[0], n);
  return i;
}
Item makeItemOfSize(Gen& g, const Item& like) {   // same serialized size
  Item i = like; Rng r(g.draw(1 << 20)); r.fill(&i.data[0], i.data.size());
  uint64_t lim = like.tag < 128 ? 128 : 0;        // keep the varint length
  if (lim) i.tag = g.draw(lim);
  return i;
}
std::string show(const Item& i) { return strf("{%llu,%zu bytes %s}", (unsigned long long)i.tag, i.data.size(), hex(i.data.substr(0, 6)).c_str()); }
struct MuteCout { std::stringstream s; std::streambuf* o; MuteCout() : o(std::cout.rdbuf(s.rdbuf())) {} ~MuteCout() { std::cout.rdbuf(o); } };
typedef SwappedVector<Item> SV;
std::vector<Item> readVector(SV& v) { std::vector<Item> r; for (uint64_t i = 0; i < v.size(); i++) r.push_back(v[i]); return r; }
}

VF_PROP("D01.vector", 480, 20000, "operations on a SwappedVector (push, pop, clear, replace, reads by index/iterator/front/back, reopening with another pool size, continuing from a crash image); at each write to disk the directory is copied and must reopen to the state before or after the operation; non-trivial: at least one reopen or crash image, one pop and an item evicted from the cache") {
  MuteCout mute;
  wipeScratch();
  std::string d = scratch() + "/v"; mkdir(d.c_str(), 0700);
  std::string cdir = scratch() + "/c";
  std::unique_ptr<SV> v(new SV());
  size_t pool = 1 + g.size(12);
  VF_CHECK(!SV().open(d + "/zi", d + "/zx", 0), "D01/pool0", "open with pool size 0 succeeds");
  VF_CHECK(v->open(d + "/i", d + "/x", pool), "D01/open", "a new store does not open");
  std::vector<Item> m;
  bool pending = false;  // the last push may not be counted in the index on disk yet
  auto allowed = [](const std::vector<Item>& got, const std::vector<Item>& want, bool pend) { return got == want || (pend && got.size() + 1 == want.size() && std::equal(got.begin(), got.end(), want.begin())); };
  bool reopened = false, popped = false, evicted = false; size_t reads = 0;
  size_t n = 0;
  auto compareAll = [&](SV& x, const std::vector<Item>& model, const char* where) {
    VF_CHECK(x.size() == model.size(), "D01/size", "%s: size %llu, expected %zu", where, (unsigned long long)x.size(), model.size());
    VF_CHECK(x.empty() == model.empty(), "D01/size", "%s: empty() is wrong", where);
    for (size_t i = 0; i < model.size(); i++) { const Item& y = x[i]; g.evals++;
      VF_CHECK(y == model[i], "D01/item", "%s: item %zu of %zu is %s, expected %s", where, i, model.size(), show(y).c_str(), show(model[i]).c_str()); }
  };
  while (g.more(n, 60)) {
    n++;
    std::vector<Item> before = m;
    size_t op = g.weighted({20, 9, 1, 4, 14, 3, 3, 2, 4});
    bool mut = op <= 3;
    if (mut) arm(d);
    if (op == 0) { Item i = makeItem(g); g.note("push %s", show(i).c_str()); v->push_back(i); m.push_back(i); }
    else if (op == 1) { if (m.empty()) { disarm(); continue; } g.note("pop"); v->pop_back(); m.pop_back(); popped = true; }
    else if (op == 2) { g.note("clear"); v->clear(); m.clear(); }
    else if (op == 3) {
      if (m.empty()) { disarm(); continue; }
      size_t i = g.draw(m.size()); Item x = makeItemOfSize(g, m[i]); g.note("replace %zu by %s", i, show(x).c_str());
      v->replace(i, x); m[i] = x;
    }
    else if (op == 4) {
      if (m.empty()) continue;
      size_t i = g.draw(m.size()); g.note("read %zu", i); const Item& x = (*v)[i]; reads++;
      g.evals++; VF_CHECK(x == m[i], "D01/item", "item %zu is %s, expected %s", i, show(x).c_str(), show(m[i]).c_str());
    }
    else if (op == 5) {
      g.note("iterate");
      size_t i = 0; for (auto it = v->begin(); it != v->end(); ++it, ++i) { VF_CHECK(i < m.size() && *it == m[i] && it->tag == m[i].tag && it.index() == i, "D01/iterate", "iteration differs at %zu", i); g.evals++; }
      VF_CHECK(i == m.size(), "D01/iterate", "iteration ends at %zu of %zu", i, m.size());
      if (!m.empty()) {
        size_t a = g.draw(m.size()), b = g.draw(m.size());
        auto ia = v->begin() + a, ib = v->begin() + b;
        VF_CHECK(ia - ib == (ptrdiff_t)a - (ptrdiff_t)b && ia[(ptrdiff_t)b - (ptrdiff_t)a] == m[b], "D01/iterate", "iterator arithmetic is wrong");
        auto ic = v->end() - (m.size() - a);
        VF_CHECK(ic.index() == a && *ic == m[a], "D01/iterate", "end() - n is wrong");
        VF_CHECK((ia < ib) == (a < b) && (ia == ib) == (a == b) && (ia <= ib) == (a <= b), "D01/iterate", "iterator comparison is wrong");
        // a binary search as the chain does
        auto k = std::partition_point(v->begin(), v->end(), [&](const Item&) { return false; }); VF_CHECK(k == v->begin(), "D01/iterate", "partition_point");
      }
    }
    else if (op == 6) {
      if (m.empty()) { bool th = false; try { (*v)[g.draw(5)]; } catch (const std::exception&) { th = true; } VF_CHECK(th, "D01/range", "reading past the end does not throw"); continue; }
      Item f = v->front(), b = v->back(); VF_CHECK(f == m.front() && b == m.back(), "D01/item", "front or back differ"); g.evals += 2;
      uint64_t far = m.size() + g.draw(10); bool th = false; try { (*v)[far]; } catch (const std::exception&) { th = true; }
      VF_CHECK(th, "D01/range", "reading %llu of %zu does not throw", (unsigned long long)far, m.size());
    }
    else if (op == 7) {
      pool = 1 + g.size(12); bool destroy = g.flip(); g.note("reopen with pool %zu", pool); reopened = true; pending = false;
      if (destroy) { v.reset(); v.reset(new SV()); } else v->close();
      VF_CHECK(v->open(d + "/i", d + "/x", pool), "D01/open", "the store does not reopen");
      compareAll(*v, m, "reopened");
    }
    else {
      // unclean close: what is on disk now, the last operation possibly still in a buffer
      g.note("continue from what is on disk"); reopened = true;
      Snap s = snapDir(d);
      v.reset();                       // its buffers are written to the old files...
      putDir(d, s);                    // ...and forgotten
      v.reset(new SV());
      VF_CHECK(v->open(d + "/i", d + "/x", pool), "D01/crash-open", "the store does not open after an unclean close");
      std::vector<Item> got = readVector(*v);
      VF_CHECK(allowed(got, m, pending), "D01/crash", "after an unclean close the store has %zu items, expected %zu%s, or an item differs", got.size(), m.size(), pending ? " or one less" : "");
      g.label(got == m ? "nothing lost" : "last push lost"); m = got; pending = false;
      continue;
    }
    if (mut) {
      g_watch = false;
      std::vector<Snap> snaps = g_snaps; disarm();
      for (auto& s : snaps) {
        putDir(cdir, s);
        SV c; VF_CHECK(c.open(cdir + "/i", cdir + "/x", 4), "D01/crash-open", "the image taken during operation %zu does not open", n);
        std::vector<Item> got; try { got = readVector(c); } catch (const std::exception& e) { fail("D01/crash", "the image taken during operation %zu cannot be read: %s", n, e.what()); }
        g.evals++;
        bool ok = allowed(got, before, pending) || allowed(got, m, op == 0);
        VF_CHECK(ok, "D01/crash", "an image taken during operation %zu holds %zu items; before %zu, after %zu", n, got.size(), before.size(), m.size());
        g.label(got == m ? "image: after" : got == before ? "image: before" : "image: without a push");
        reopened = true;
      }
      if (op != 3) pending = op == 0;
    }
    VF_CHECK(v->size() == m.size(), "D01/size", "size %llu, expected %zu", (unsigned long long)v->size(), m.size());
    if (m.size() > pool) evicted = true;
  }
  disarm();
  compareAll(*v, m, "end");
  v.reset(); v.reset(new SV());
  VF_CHECK(v->open(d + "/i", d + "/x", 3), "D01/open", "the store does not reopen at the end");
  compareAll(*v, m, "reopened at the end");
  g.label(evicted ? "evicting" : "all cached"); g.label("reads", reads);
  if (reopened && popped && evicted) g.nontrivial();
}

VF_PROP("D01.map", 480, 15000, "operations on a SwappedMap (insert of new and existing keys, find, count, erase, clear, iteration, reopening); non-trivial: a reopen, an erase and more items than the cache holds") {
  MuteCout mute;
  wipeScratch();
  std::string d = scratch() + "/m"; mkdir(d.c_str(), 0700);
  typedef SwappedMap<uint64_t, std::string> SM;
  std::unique_ptr<SM> v(new SM());
  size_t pool = 1 + g.size(8);
  VF_CHECK(v->open(d + "/i", d + "/x", pool), "D01/open", "a new map does not open");
  std::map<uint64_t, std::string> m;
  bool reopened = false, erased = false, evicted = false;
  auto key = [&]() -> uint64_t { return !m.empty() && g.chance(1, 2) ? std::next(m.begin(), g.draw(m.size()))->first : g.draw(40); };
  size_t n = 0;
  while (g.more(n, 60)) {
    n++;
    size_t op = g.weighted({16, 8, 10, 1, 2, 3});
    if (op == 0) {
      uint64_t k = key(); std::string s(g.draw(60), 'a' + g.draw(26)); g.note("insert %llu (%zu bytes)", (unsigned long long)k, s.size());
      bool isNew = !m.count(k); if (!isNew) g.label("insert existing");
      auto r = v->insert(std::make_pair(k, s)); m.insert(std::make_pair(k, s));
      VF_CHECK(r.second == isNew, "D01/map-insert", "insert of %s key says %d", isNew ? "a new" : "an existing", r.second);
      VF_CHECK(r.first->first == k && r.first->second == m[k], "D01/map-insert", "insert returns another element");
    } else if (op == 1) {
      uint64_t k = key(); if (!m.count(k)) continue; g.note("erase %llu", (unsigned long long)k);
      v->erase(v->find(k)); m.erase(k); erased = true;
    } else if (op == 2) {
      uint64_t k = key(); g.note("find %llu", (unsigned long long)k); auto it = v->find(k); g.evals++;
      VF_CHECK((it != v->end()) == (m.count(k) == 1) && v->count(k) == m.count(k), "D01/map-find", "presence of %llu is wrong", (unsigned long long)k);
      if (m.count(k)) VF_CHECK(it->first == k && it->second == m[k] && (*it).second == m[k], "D01/map-find", "value of %llu is wrong", (unsigned long long)k);
    } else if (op == 3) { g.note("clear"); v->clear(); m.clear(); }
    else if (op == 4) {
      std::map<uint64_t, std::string> got; size_t c = 0;
      for (auto it = v->begin(); it != v->end(); ++it) { got[it->first] = it->second; c++; g.evals++; }
      VF_CHECK(c == m.size() && got == m, "D01/map-iterate", "iteration gives %zu elements, expected %zu", c, m.size());
    } else {
      pool = 1 + g.size(8); g.note("reopen with pool %zu", pool); reopened = true;
      v.reset(); v.reset(new SM());
      VF_CHECK(v->open(d + "/i", d + "/x", pool), "D01/open", "the map does not reopen");
    }
    VF_CHECK(v->size() == m.size(), "D01/map-size", "size %llu, expected %zu", (unsigned long long)v->size(), m.size());
    if (m.size() > pool) evicted = true;
  }
  v.reset(); v.reset(new SM());
  VF_CHECK(v->open(d + "/i", d + "/x", 2), "D01/open", "the map does not reopen at the end");
  std::map<uint64_t, std::string> got; for (auto it = v->begin(); it != v->end(); ++it) got[it->first] = it->second;
  VF_CHECK(got == m, "D01/map-iterate", "after reopening the map differs");
  if (reopened && erased && evicted) g.nontrivial();
}

// ---------------------------------------------------------------- D02
namespace {
struct Rec { uint32_t a; uint64_t b; uint8_t c[5]; };
bool operator==(const Rec& x, const Rec& y) { return x.a == y.a && x.b == y.b && !memcmp(x.c, y.c, 5); }
Rec recOf(uint64_t s) { Rec r; memset(&r, 0, sizeof r); Rng q(s); r.a = (uint32_t)q.next(); r.b = q.next(); q.fill(r.c, 5); return r; }
typedef common::FileMappedVector<Rec> FV;
struct St { std::string prefix; std::vector<Rec> v; std::string suffix; };
bool operator==(const St& a, const St& b) { return a.prefix == b.prefix && a.suffix == b.suffix && a.v == b.v; }
St stateOf(const FV& f) {
  St s; s.prefix.assign((const char*)f.prefix(), f.prefixSize()); s.suffix.assign((const char*)f.suffix(), f.suffixSize());
  s.v.assign(f.begin(), f.end()); return s;
}
std::string showSt(const St& s) {
  std::string r = strf("[prefix %zu, %zu elements", s.prefix.size(), s.v.size()); uint32_t h = 0; for (auto& x : s.v) h = h * 31 + x.a; return r + strf(" #%x, suffix %zu]", h, s.suffix.size());
}
struct Boom {};
}

static void fileVector(Gen& g, bool faults) {
  wipeScratch();
  std::string d = scratch() + "/f"; mkdir(d.c_str(), 0700);
  std::string cdir = scratch() + "/c"; mkdir(cdir.c_str(), 0700);
  std::string path = d + "/w.dat"; std::string base = "w.dat";
  St m; m.prefix.assign(g.draw(3) ? g.draw(40) : 0, 0);
  std::unique_ptr<FV> f(new FV());
  f->open(path, g.flip() ? common::FileMappedVectorOpenMode::CREATE : common::FileMappedVectorOpenMode::OPEN_OR_CREATE, m.prefix.size());
  bool broken = false; // mapped to the .bak file
  bool images = false, atomics = false; size_t n = 0; uint64_t tick = g.draw(1000) * 1000;
  while (g.more(n, faults ? 30 : 40)) {
    n++;
    if (!faults && g.chance(1, 12)) { bool a = !f->getAutoFlush(); f->setAutoFlush(a); }
    St before = m, after = m; bool transactional = true;
    size_t op = g.weighted({14, 6, 6, 7, 7, 1, 4, 3, 3, 4, 4, 4, 8, 3, 3});
    std::string what; std::function<void()> act;
    auto newRec = [&]() { return recOf(++tick); };
    if (op == 0) {
      Rec r = newRec(); what = "push_back"; transactional = false;
      if (!m.v.empty() && g.chance(1, 6)) { size_t i = g.draw(m.v.size()); what = strf("push_back of own element %zu", i); after.v.push_back(m.v[i]); act = [&f, i] { f->push_back((*f)[i]); }; }
      else { after.v.push_back(r); act = [&f, r] { f->push_back(r); }; }
    } else if (op == 1) { if (m.v.empty()) continue; what = "pop_back"; transactional = false; after.v.pop_back(); act = [&f] { f->pop_back(); }; }
    else if (op == 2) {
      size_t i = g.draw(m.v.size() + 1); Rec r = newRec(); what = strf("insert at %zu", i);
      bool own = !m.v.empty() && g.chance(1, 5); size_t j = own ? g.draw(m.v.size()) : 0;
      after.v.insert(after.v.begin() + i, own ? m.v[j] : r);
      act = [&f, i, r, own, j] { auto it = f->insert(std::next(f->cbegin(), i), own ? (*f)[j] : r); VF_CHECK(it.index() == i, "D02/iterator", "insert returns position %zu", it.index()); };
    } else if (op == 3) {
      size_t i = g.draw(m.v.size() + 1), k = g.size(30); std::vector<Rec> rs; for (size_t q = 0; q < k; q++) rs.push_back(newRec());
      what = strf("insert %zu at %zu", k, i); after.v.insert(after.v.begin() + i, rs.begin(), rs.end());
      act = [&f, i, rs] { f->insert(std::next(f->cbegin(), i), rs.begin(), rs.end()); };
    } else if (op == 4) {
      if (m.v.empty()) continue;
      size_t i = g.draw(m.v.size()), k = g.chance(1, 3) ? 1 : g.draw(m.v.size() - i + 1); what = strf("erase %zu at %zu", k, i);
      after.v.erase(after.v.begin() + i, after.v.begin() + i + k);
      bool one = k == 1 && g.flip();
      act = [&f, i, k, one] { auto it = one ? f->erase(std::next(f->cbegin(), i)) : f->erase(std::next(f->cbegin(), i), std::next(f->cbegin(), i + k)); VF_CHECK(it.index() == i, "D02/iterator", "erase returns position %zu", it.index()); };
    } else if (op == 5) { what = "clear"; transactional = false; after.v.clear(); act = [&f] { f->clear(); }; }
    else if (op == 6) { uint64_t c = g.draw(60); what = strf("reserve %llu", (unsigned long long)c); act = [&f, c] { f->reserve(c); VF_CHECK(f->capacity() >= c, "D02/capacity", "reserve leaves less capacity"); }; }
    else if (op == 7) { what = "shrink_to_fit"; act = [&f] { f->shrink_to_fit(); VF_CHECK(f->capacity() == f->size(), "D02/capacity", "shrink_to_fit leaves capacity"); }; }
    else if (op == 8) { uint64_t k = g.draw(50); what = strf("resizePrefix %llu", (unsigned long long)k); after.prefix.resize(k, 0); act = [&f, k] { f->resizePrefix(k); }; }
    else if (op == 9) { uint64_t k = g.chance(1, 4) ? g.draw(9000) : g.draw(50); what = strf("resizeSuffix %llu", (unsigned long long)k); after.suffix.resize(k, 0); act = [&f, k] { f->resizeSuffix(k); }; }
    else if (op == 10 || op == 11) {   // direct writes; each is in the file at once
      std::string* t = op == 10 ? &after.prefix : &after.suffix; size_t which = g.draw(3);
      if (which == 0 && !t->empty()) { size_t i = g.draw(t->size()); uint8_t x = g.draw(256); (op == 10 ? f->prefix() : f->suffix())[i] = x; (*t)[i] = x; m = after; continue; }
      if (m.v.empty()) continue;
      size_t i = g.draw(m.v.size()); Rec r = newRec(); after.v[i] = r;
      switch (g.draw(5)) { case 0: (*f)[i] = r; break; case 1: f->at(i) = r; break; case 2: *std::next(f->begin(), i) = r; break; case 3: f->data()[i] = r; break; default: *(f->end() - (m.v.size() - i)) = r; }
      if (g.chance(1, 3)) f->flush();
      m = after; continue;
    } else if (op == 12) {             // a caller's own transaction
      size_t keep = g.draw(m.v.size() + 1), add = g.size(20); bool thr = g.chance(1, 3); size_t thrAt = g.draw(keep + add + 1); std::vector<Rec> rs; for (size_t q = 0; q < add; q++) rs.push_back(newRec());
      uint64_t suf = g.flip() ? m.suffix.size() : g.draw(60); uint8_t fill = g.draw(256);
      what = strf("atomicUpdate keeping %zu, adding %zu, suffix %llu%s", keep, add, (unsigned long long)suf, thr ? strf(", throwing at %zu", thrAt).c_str() : "");
      if (!thr) { after.v.assign(m.v.begin(), m.v.begin() + keep); after.v.insert(after.v.end(), rs.begin(), rs.end()); after.suffix.assign(suf, (char)fill); }
      act = [&f, keep, rs, thr, thrAt, suf, fill] {
        f->atomicUpdate([&](FV& nv) {
          std::copy(f->prefix(), f->prefix() + f->prefixSize(), nv.prefix());
          size_t k = 0;
          for (size_t i = 0; i < keep; i++) { if (thr && k++ == thrAt) throw Boom(); nv.push_back((*f)[i]); hook(); }
          for (auto& r : rs) { if (thr && k++ == thrAt) throw Boom(); nv.push_back(r); hook(); }
          if (thr) throw Boom();
          nv.resizeSuffix(suf); if (suf) memset(nv.suffix(), fill, suf);
          hook();
        });
      };
    } else if (op == 13) {             // reopen
      if (broken) continue;
      g.note("reopen"); bool destroy = g.flip(); uint64_t ps = m.prefix.size();
      if (destroy) f.reset(new FV()); else f->close();
      if (g.chance(1, 4)) { // renamed away by somebody
        if (g.flip()) { __real_rename(path.c_str(), (path + ".bak").c_str()); g.label("only a backup left"); } else { std::ofstream o(path + ".bak"); o << "rubbish"; o.close(); g.label("stale backup"); }
      }
      try { f->open(path, g.flip() ? common::FileMappedVectorOpenMode::OPEN : common::FileMappedVectorOpenMode::OPEN_OR_CREATE, ps); } catch (const std::exception& e) { fail("D02/open", "the file does not reopen: %s", e.what()); }
      VF_CHECK(stateOf(*f) == m, "D02/reopen", "reopened: %s, expected %s", showSt(stateOf(*f)).c_str(), showSt(m).c_str());
      images = true; continue;
    } else {
      if (broken) continue;
      if (g.flip()) { std::string np = d + strf("/r%zu.dat", n); g.note("rename"); f->rename(np); path = np; base = strf("r%zu.dat", n); }
      else { bool th = false; try { FV x(path, common::FileMappedVectorOpenMode::CREATE, 0); } catch (const std::exception&) { th = true; } VF_CHECK(th, "D02/create", "an existing file is created over"); }
      VF_CHECK(stateOf(*f) == m, "D02/state", "content changed"); continue;
    }
    g.note("%s", what.c_str());
    if (faults) { if (g.chance(1, 2)) { g_fault = (int)g.draw(14); g_faultRun = g.chance(1, 6) ? 2 + (int)g.draw(2) : 1; g.note("  failing call %d..%d", g_fault, g_fault + g_faultRun - 1); } }
    bool threw = false, boom = false; std::string ex;
    arm(d);
    try { act(); } catch (const Boom&) { boom = true; } catch (const Failure&) { disarm(); throw; } catch (const std::exception& e) { threw = true; ex = e.what(); } catch (...) { disarm(); throw; }
    g_watch = false; auto snaps = g_snaps; int fault = g_fault; int calls = g_calls; disarm();
    bool injected = fault >= 0 && fault < calls;
    St now = stateOf(*f);
    if (threw) {
      g.label("op failed"); g.note("  failed: %s", ex.c_str());
      VF_CHECK(injected || broken, "D02/throw", "%s throws: %s", what.c_str(), ex.c_str());
      if (transactional) VF_CHECK(now == before, "D02/failed-update", "%s failed (%s) but the content became %s, was %s", what.c_str(), ex.c_str(), showSt(now).c_str(), showSt(before).c_str());
      else VF_CHECK(now == before || now == after, "D02/failed-update", "%s failed (%s) and left %s: neither %s nor %s", what.c_str(), ex.c_str(), showSt(now).c_str(), showSt(before).c_str(), showSt(after).c_str());
      m = now;
    } else if (boom) {
      VF_CHECK(now == before, "D02/failed-update", "an update that threw changed the content to %s from %s", showSt(now).c_str(), showSt(before).c_str());
    } else {
      VF_CHECK(now == after, "D02/state", "%s gives %s, expected %s", what.c_str(), showSt(now).c_str(), showSt(after).c_str());
      m = after;
    }
    g.evals++;
    if (transactional) atomics = true;
    { // whatever happens to the process now, the file must hold the state
      Snap s = snapDir(d); snaps.push_back(s);
      if (!s.count(base) && s.count(base + ".bak")) { broken = true; g.label("left on the backup"); } else broken = false;
      VF_CHECK(!s.count(base + ".tmp"), "D02/leftover", "%s leaves its temporary file", what.c_str());
    }
    for (auto& s : snaps) {
      images = true; g.evals++;
      bool ok = false; std::string seen;
      for (int k = 0; k < 2 && !ok; k++) {
        const St& want = k ? after : before;
        putDir(cdir, s);
        try { FV c(cdir + "/" + base, common::FileMappedVectorOpenMode::OPEN, want.prefix.size()); St got = stateOf(c); seen += showSt(got) + " "; ok = got == want; }
        catch (const std::exception& e) { seen += std::string(e.what()) + " "; }
      }
      VF_CHECK(ok, "D02/crash", "stopping during %s leaves %s; before %s, after %s", what.c_str(), seen.c_str(), showSt(before).c_str(), showSt(after).c_str());
    }
    // reading interfaces
    const FV& cf = *f;
    VF_CHECK(cf.size() == m.v.size() && cf.empty() == m.v.empty() && cf.capacity() >= cf.size() && (size_t)std::distance(cf.begin(), cf.end()) == m.v.size(), "D02/state", "sizes disagree");
    if (!m.v.empty()) VF_CHECK(cf.front() == m.v.front() && cf.back() == m.v.back() && cf.at(m.v.size() - 1) == m.v.back() && cf.data()[0] == m.v[0], "D02/state", "front, back or at are wrong");
    bool th = false; try { cf.at(m.v.size() + g.draw(3)); } catch (const std::out_of_range&) { th = true; } VF_CHECK(th, "D02/range", "at() past the end does not throw");
  }
  // the end: close and open again
  std::string p = path; uint64_t ps = m.prefix.size();
  f.reset();
  FV e; try { e.open(p, common::FileMappedVectorOpenMode::OPEN, ps); } catch (const std::exception& x) { fail("D02/open", "the file does not reopen at the end: %s", x.what()); }
  VF_CHECK(stateOf(e) == m, "D02/reopen", "at the end the file holds %s, expected %s", showSt(stateOf(e)).c_str(), showSt(m).c_str());
  if (images && atomics && n >= 4) g.nontrivial();
}
VF_PROP("D02.history", 480, 12000, "operations on a FileMappedVector compared with a std::vector plus prefix and suffix; a directory image at every rename, truncate, msync and fsync (and inside caller transactions) must reopen to the state before or after; non-trivial: at least one transactional update with images and four operations") { fileVector(g, false); }
VF_PROP("D02.faults", 480, 12000, "the same operations while a chosen system call (or two to three in a row) fails: the content stays the previous one, images reopen to before or after; non-trivial: as above") { fileVector(g, true); }

VF_PROP("D02.damage", 800, 30000, "a closed file is truncated or its header bytes are changed; opening must refuse or give a vector that lies within the file and still works; non-trivial: the damage changed the file") {
  wipeScratch();
  std::string p = scratch() + "/w.dat";
  uint64_t ps = g.draw(20); std::vector<Rec> m;
  { FV f(p, common::FileMappedVectorOpenMode::CREATE, ps); size_t k = g.draw(25); for (size_t i = 0; i < k; i++) { m.push_back(recOf(i + 1)); f.push_back(m.back()); } if (g.flip()) f.resizeSuffix(g.draw(30)); }
  std::string s = readAll(p), o = s;
  size_t kind = g.weighted({2, 4, 3, 1});
  if (kind == 0) s.resize(g.chance(1, 3) ? g.draw(ps + 17) * g.draw(2) : g.draw(s.size()));
  else if (kind == 1) { size_t i = ps + g.draw(16); s[i] ^= 1 << g.draw(8); }
  else if (kind == 2) { uint64_t x = g.u64(); memcpy(&s[ps + 8 * g.draw(2)], &x, 8); }
  else s += g.bytes(g.draw(40));
  putDir(scratch(), {}); { std::ofstream f(p, std::ios::binary); f << s; }
  if (s != o) g.nontrivial();
  FV f;
  try { f.open(p, common::FileMappedVectorOpenMode::OPEN, ps); }
  catch (const std::exception& e) {
    g.label("refused");
    VF_CHECK(readAll(p) == s, "D02/damage", "refusing a damaged file changed it");
    // the object can be used for another file afterwards
    try { f.open(scratch() + "/v.dat", common::FileMappedVectorOpenMode::CREATE, 0); f.push_back(recOf(1)); } catch (const std::exception& x) { fail("D02/damage", "after refusing a file of %zu bytes the vector cannot open another: %s", s.size(), x.what()); }
    VF_CHECK(f.size() == 1 && f[0] == recOf(1), "D02/damage", "after refusing a file the vector does not work");
    return;
  }
  g.label("opened");
  uint64_t n = f.size();
  VF_CHECK(n <= f.capacity() && ps + 16 + f.capacity() * (unsigned __int128)sizeof(Rec) + f.suffixSize() == (unsigned __int128)s.size(), "D02/damage", "a file of %zu bytes opens with size %llu, capacity %llu, suffix %llu", s.size(), (unsigned long long)n, (unsigned long long)f.capacity(), (unsigned long long)f.suffixSize());
  std::vector<Rec> got(f.begin(), f.end());
  Rec r = recOf(77); f.push_back(r); got.push_back(r);
  VF_CHECK(std::vector<Rec>(f.begin(), f.end()) == got, "D02/damage", "push_back after opening a damaged file gives another vector");
}
