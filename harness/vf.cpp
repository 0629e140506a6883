#include "vf.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

namespace vf_env { void reset(uint64_t seed) __attribute__((weak)); }

namespace vf {

std::string strf(const char* fmt, ...) {
  char buf[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  return buf;
}
void fail(const char* tag, const char* fmt, ...) {
  char buf[8192];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  throw Failure{tag, buf};
}
std::vector<Part>& parts() { static std::vector<Part> p; return p; }
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL)); r.next(); return r.next() ^ b; }
uint64_t hashstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string r; const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; } return r; }

void Gen::reseed(uint64_t seed) { Rng r(seed); for (auto& x : s) x = r.next(); }
uint64_t Gen::next() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return result;
}
uint64_t Gen::draw(uint64_t n) {
  uint64_t v;
  if (play) {
    v = pos < play->size() ? (*play)[pos] : 0;
    ++pos;
    if (n && v >= n) v %= n;
  } else {
    v = next();
    if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
  }
  rec.push_back(v);
  if (shared && rec.size() < sharedCap) { shared[rec.size()] = v; shared[0] = rec.size(); }
  if (rec.size() > 4000000) { fail("engine-runaway", "case drew more than 4M choices"); }
  return v;
}
size_t Gen::weightedv(const std::vector<uint32_t>& w) {
  uint64_t tot = 0; for (auto x : w) tot += x;
  uint64_t v = draw(tot);
  for (size_t i = 0; i < w.size(); ++i) { if (v < w[i]) return i; v -= w[i]; }
  return w.size() - 1;
}
size_t Gen::size(size_t max) {
  switch (weighted({4, 3, 2, 1})) {
    case 0: return draw(std::min<size_t>(max, 4) + 1);
    case 1: return draw(std::min<size_t>(max, 16) + 1);
    case 2: return draw(std::min<size_t>(max, 100) + 1);
    default: return draw(max + 1);
  }
}
uint64_t Gen::u64() {
  switch (weighted({3, 3, 3, 2, 2})) {
    case 0: return draw(256);
    case 1: { uint64_t bits = draw(64); return draw(bits == 63 ? 0 : (2ULL << bits)); }
    case 2: { uint64_t b = draw(64); uint64_t base = 1ULL << b; uint64_t d = draw(5); return base + d - 2; }
    case 3: { uint64_t d = draw(4); return ~0ULL - d; }
    default: return draw(0);
  }
}
uint64_t Gen::u64_below(uint64_t max) {
  if (max == ~0ULL) return u64();
  switch (weighted({3, 3, 2, 2})) {
    case 0: return draw(std::min<uint64_t>(max, 255) + 1);
    case 1: { uint64_t v = u64(); return v % (max + 1); }
    case 2: { uint64_t d = draw(4); return d > max ? 0 : max - d; }
    default: return draw(max + 1);
  }
}
std::string Gen::bytes(size_t n) {
  std::string r; r.reserve(n + 8);
  while (r.size() < n) { uint64_t v = draw(0); r.append((const char*)&v, 8); }
  r.resize(n); return r;
}
std::vector<uint8_t> Gen::bytesv(size_t n) { std::string s = bytes(n); return std::vector<uint8_t>(s.begin(), s.end()); }
std::string Gen::ascii(size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += (char)(32 + (draw(95) + 65) % 95); return r; }
void Gen::note(const char* fmt, ...) {
  if (!verbose && !want_sample) return;
  if (trace.size() > 20000) return;
  char buf[2048];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  trace += buf; trace += '\n';
}

static std::string g_scratch;
static pid_t g_scratchPid;
static void rmtree(const std::string& d, bool self) {
  if (DIR* dp = opendir(d.c_str())) {
    while (dirent* e = readdir(dp)) {
      std::string n = e->d_name; if (n == "." || n == "..") continue;
      std::string f = d + "/" + n; struct stat st;
      if (lstat(f.c_str(), &st) == 0) { if (S_ISDIR(st.st_mode)) rmtree(f, true); else unlink(f.c_str()); }
    }
    closedir(dp);
  }
  if (self) rmdir(d.c_str());
}
std::string scratch() {
  if (g_scratch.empty() || g_scratchPid != getpid()) {
    const char* base = getenv("VF_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/vfXXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(9); }
    g_scratch = b.data(); g_scratchPid = getpid();
  }
  return g_scratch;
}
void wipeScratch() { if (!g_scratch.empty() && g_scratchPid == getpid()) rmtree(g_scratch, false); }
static void dropScratch() { if (!g_scratch.empty() && g_scratchPid == getpid()) rmtree(g_scratch, true); }

enum Status { PASS, FAIL, DISCARD };
struct Result { Status st = PASS; std::string tag, msg; };

static Result runCase(const Part& p, Gen& g) {
  Result r;
  try {
    p.fn(g);
  } catch (const Failure& f) { r.st = FAIL; r.tag = f.tag; r.msg = f.msg; }
  catch (const Discard&) { r.st = DISCARD; }
  catch (const std::exception& e) { r.st = FAIL; r.tag = "unexpected-exception"; r.msg = e.what(); }
  catch (...) { r.st = FAIL; r.tag = "unexpected-exception"; r.msg = "unknown exception"; }
  return r;
}
static uint64_t caseSeed(const std::string& part, uint64_t seed, uint64_t i) { return mix(mix(hashstr(part), seed), i); }

static const Part* find(const std::string& n) { for (auto& p : parts()) if (p.name == n) return &p; return nullptr; }

static std::string jsonEsc(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
  return r;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// seq: the failing case needs the cases before it in the same process (from, from+step, ... idx)
struct Input { std::string part, tag; bool isSeed = true, seq = false; uint64_t seed = 0, idx = 0, from = 0, step = 1; std::vector<uint64_t> choices; };
static bool readInput(const std::string& f, Input& in) {
  std::ifstream is(f); if (!is) return false;
  std::string k;
  while (is >> k) {
    if (k == "part") is >> in.part;
    else if (k == "tag") is >> in.tag;
    else if (k == "seed") { is >> in.seed; in.isSeed = true; }
    else if (k == "case") is >> in.idx;
    else if (k == "sequence") { in.seq = true; is >> in.from >> in.step; }
    else if (k == "choices") { in.isSeed = false; size_t n; is >> n; in.choices.resize(n); for (auto& c : in.choices) is >> c; }
    else if (k == "#") { std::string l; std::getline(is, l); }
  }
  return !in.part.empty();
}
static void writeInput(const std::string& f, const Input& in, const std::string& comment) {
  std::ofstream os(f);
  os << "part " << in.part << "\n"; if (!in.tag.empty()) os << "tag " << in.tag << "\n";
  if (in.isSeed) { os << "seed " << in.seed << "\ncase " << in.idx << "\n"; if (in.seq) os << "sequence " << in.from << " " << in.step << "\n"; }
  else { os << "choices " << in.choices.size() << "\n"; for (auto c : in.choices) os << c << " "; os << "\n"; }
  std::istringstream is(comment); std::string l; while (std::getline(is, l)) os << "# " << l << "\n";
}

// run one candidate in a child
struct Shared { uint32_t done; uint32_t st; char tag[128]; char msg[4096]; char trace[24576]; };
static const size_t SHCAP = 1 << 20;
static Shared* g_sh; static uint64_t* g_rec;
static Result isolated(const Part& p, const Input& in, std::vector<uint64_t>& outRec, double hang, bool verbose, std::string* trace) {
  if (!g_sh) {
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_rec = (uint64_t*)mmap(nullptr, SHCAP * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset(g_sh, 0, sizeof(Shared)); g_rec[0] = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    if (!verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2); }
    Gen g; g.shared = g_rec; g.sharedCap = SHCAP; g.verbose = true;
    uint64_t es;
    if (in.isSeed) { g.reseed(caseSeed(in.part, in.seed, in.idx)); } else { g.play = &in.choices; g.reseed(1); }
    es = 12345;
    Result r; bool early = false;
    if (in.isSeed && in.seq) for (uint64_t i = in.from; i < in.idx && !early; i += in.step) {
      Gen h; h.reseed(caseSeed(in.part, in.seed, i)); if (vf_env::reset) vf_env::reset(es);
      r = runCase(p, h); if (r.st == FAIL) { early = true; g.trace = h.trace; }
    }
    if (!early) { if (vf_env::reset) vf_env::reset(es); r = runCase(p, g); }
    g_sh->st = r.st; snprintf(g_sh->tag, sizeof g_sh->tag, "%s", r.tag.c_str()); snprintf(g_sh->msg, sizeof g_sh->msg, "%s", r.msg.c_str());
    snprintf(g_sh->trace, sizeof g_sh->trace, "%s", g.trace.c_str());
    g_sh->done = 1;
    dropScratch();
    _exit(0);
  }
  double t0 = now(); int status = 0; bool hung = false;
  useconds_t nap = 200;
  for (;;) {
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) break;
    if (now() - t0 > hang) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
    usleep(nap); if (nap < 20000) nap *= 2;
  }
  outRec.assign(g_rec + 1, g_rec + 1 + std::min<uint64_t>(g_rec[0], SHCAP - 1));
  if (trace) *trace = g_sh->trace;
  Result r;
  if (g_sh->done) { r.st = (Status)g_sh->st; r.tag = g_sh->tag; r.msg = g_sh->msg; }
  else if (hung) { r.st = FAIL; r.tag = "hang"; r.msg = strf("no result within %.0f s", hang); }
  else { r.st = FAIL; r.tag = "crash"; r.msg = WIFSIGNALED(status) ? strf("killed by signal %d", WTERMSIG(status)) : strf("process ended with status %d (sanitizer report or abort)", WEXITSTATUS(status)); }
  return r;
}

static int cmdShrink(const std::string& inF, const std::string& outF, double budget, double hang) {
  Input in; if (!readInput(inF, in)) { fprintf(stderr, "bad input file\n"); return 2; }
  const Part* p = find(in.part); if (!p) { fprintf(stderr, "no part %s\n", in.part.c_str()); return 2; }
  std::vector<uint64_t> best; std::string trace;
  Result r = isolated(*p, in, best, hang, false, &trace);
  if (r.st != FAIL && in.isSeed && !in.seq && in.step > 0 && in.from <= in.idx && getenv("VF_SEQ")) {
    // state carried over from earlier cases: replay the whole run of this worker, then drop leading cases
    Input q = in; q.seq = true; sscanf(getenv("VF_SEQ"), "%llu,%llu", (unsigned long long*)&q.from, (unsigned long long*)&q.step);
    double h2 = std::max(hang * 3, budget);
    r = isolated(*p, q, best, h2, false, &trace);
    if (r.st == FAIL) {
      double t0 = now();
      for (uint64_t k = (q.idx - q.from) / q.step / 2; k >= 1 && now() - t0 < budget; ) {
        Input x = q; x.from += k * q.step; std::vector<uint64_t> rr; std::string tr;
        Result y = x.from <= x.idx ? isolated(*p, x, rr, h2, false, &tr) : Result();
        if (y.st == FAIL && y.tag == r.tag) { q = x; r = y; trace = tr; k = std::min<uint64_t>(k, (q.idx - q.from) / q.step); } else k /= 2;
      }
      q.tag = r.tag; writeInput(outF, q, "failure: " + r.tag + ": " + r.msg + "\ntrace:\n" + trace);
      printf("{\"reproduced\":true,\"tag\":\"%s\",\"msg\":\"%s\",\"orig\":0,\"final\":0,\"tries\":0}\n", jsonEsc(r.tag).c_str(), jsonEsc(r.msg).c_str());
      return 0;
    }
  }
  if (r.st != FAIL) { printf("{\"reproduced\":false}\n"); return 0; }
  std::string tag = r.tag;
  Input cur; cur.part = in.part; cur.isSeed = false; cur.choices = best;
  double t0 = now(); uint64_t tries = 0;
  bool canPlay = best.size() < SHCAP - 2;
  { std::vector<uint64_t> rr; Result q = isolated(*p, cur, rr, hang, false, nullptr); if (q.st != FAIL || q.tag != tag) canPlay = false; }
  size_t orig = best.size();
  if (canPlay && tag != "hang") {
    auto attempt = [&](const std::vector<uint64_t>& c) -> bool {
      if (now() - t0 > budget) return false;
      ++tries;
      Input x = cur; x.choices = c; std::vector<uint64_t> rr; std::string tr;
      Result q = isolated(*p, x, rr, hang, false, &tr);
      if (q.st == FAIL && q.tag == tag) {
        if (rr.size() <= c.size()) { cur.choices = (rr.size() < c.size() || rr < c) ? rr : c; } else cur.choices = c;
        r = q; trace = tr; return true;
      }
      return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
      progress = false;
      for (size_t k = std::max<size_t>(1, cur.choices.size() / 2); k >= 1; k /= 2) {
        for (size_t i = 0; i + k <= cur.choices.size() && now() - t0 < budget;) {
          auto c = cur.choices; c.erase(c.begin() + i, c.begin() + i + k);
          if (attempt(c)) { progress = true; } else i += k > 8 ? k : (k > 1 ? k / 2 : 1);
        }
        if (k == 1) break;
      }
      for (size_t k = 8; k >= 1; k /= 2) {
        for (size_t i = 0; i < cur.choices.size() && now() - t0 < budget; i += k) {
          auto c = cur.choices; bool nz = false;
          for (size_t j = i; j < c.size() && j < i + k; ++j) { nz |= c[j] != 0; c[j] = 0; }
          if (nz && attempt(c)) progress = true;
        }
        if (k == 1) break;
      }
      for (size_t i = 0; i < cur.choices.size() && now() - t0 < budget; ++i) {
        uint64_t lo = 0, hi = cur.choices[i];
        if (hi == 0) continue;
        int guard = 0;
        while (lo < hi && guard++ < 70 && i < cur.choices.size() && now() - t0 < budget) {
          uint64_t m = lo + (hi - lo) / 2; auto c = cur.choices; c[i] = m;
          if (attempt(c)) { if (i < cur.choices.size()) hi = std::min(m, cur.choices[i]); progress = true; } else lo = m + 1;
        }
      }
    }
  } else if (!canPlay) { cur = in; }
  cur.tag = tag;
  writeInput(outF, cur, "failure: " + tag + ": " + r.msg + "\ntrace:\n" + trace);
  printf("{\"reproduced\":true,\"tag\":\"%s\",\"msg\":\"%s\",\"orig\":%zu,\"final\":%zu,\"tries\":%llu}\n", jsonEsc(tag).c_str(), jsonEsc(r.msg).c_str(), orig, cur.isSeed ? orig : cur.choices.size(), (unsigned long long)tries);
  return 0;
}

static int cmdReplay(const std::string& f, double hang, bool verbose) {
  Input in; if (!readInput(f, in)) { fprintf(stderr, "bad replay file %s\n", f.c_str()); return 2; }
  const Part* p = find(in.part); if (!p) { fprintf(stderr, "no part %s\n", in.part.c_str()); return 2; }
  std::vector<uint64_t> rec; std::string trace;
  Result r = isolated(*p, in, rec, hang, verbose, &trace);
  if (verbose) fprintf(stderr, "%s", trace.c_str());
  if (r.st == FAIL) { printf("FAIL %s: %s\n", r.tag.c_str(), r.msg.c_str()); return 1; }
  printf(r.st == PASS ? "PASS\n" : "DISCARD\n"); return 0;
}

struct Progress { volatile uint64_t tick, part, idx, active; };

// run <prefix> <seed> <worker> <workers> <tier> <scale> <timecap> <outprefix>
static int cmdRun(char** a) {
  std::string prefix = a[0]; uint64_t seed = strtoull(a[1], 0, 10); unsigned w = atoi(a[2]), W = atoi(a[3]);
  bool thorough = !strcmp(a[4], "thorough"); double scale = atof(a[5]), cap = atof(a[6]); std::string out = a[7];
  int fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
  if (ftruncate(fd, sizeof(Progress))) return 2;
  Progress* pr = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  double t0 = now();
  std::ofstream hs(out + ".hashes", std::ios::binary);
  std::ostringstream js; js << "{\"parts\":["; bool firstPart = true; int rc = 0;
  std::vector<size_t> todo;
  for (size_t k = 0; k < parts().size(); ++k) { const std::string& n = parts()[k].name; if (n.compare(0, prefix.size(), prefix) == 0 && (n.size() == prefix.size() || n[prefix.size()] == '.')) todo.push_back(k); }
  double tot = 0; 
  for (size_t q = 0; q < todo.size() && !rc; ++q) {
    size_t k = todo[q]; const Part& p = parts()[k];
    uint64_t n = (uint64_t)((thorough ? p.thorough : p.quick) * scale); if (n == 0) n = 1;
    uint64_t ev = 0, dis = 0, nt = 0, sub = 0, done = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> seen;
    double p0 = now();
    // the time cap is shared out over the remaining parts
    double partCap = std::max(1.0, (cap - (p0 - t0)) / (todo.size() - q));
    bool capped = false;
    for (uint64_t i = w; i < n; i += W) {
      if (now() - p0 > partCap) { capped = true; break; }
      Gen g; g.reseed(caseSeed(p.name, seed, i)); g.want_sample = samples.size() < 2 && (i / W) % 3 == 0;
      pr->part = k; pr->idx = i; pr->active = 1; pr->tick = pr->tick + 1;
      if (vf_env::reset) vf_env::reset(12345);
      Result r = runCase(p, g);
      pr->active = 0; ++done;
      if (r.st == DISCARD) { ++dis; continue; }
      ++ev; sub += g.evals;
      for (auto& l : g.labels) labels[l.first] += l.second;
      if (g.nontriv) {
        uint64_t h = 7; for (auto c : g.rec) h = mix(h, c);
        if (seen.size() < 400000 && seen.insert(h).second) { ++nt; uint64_t hh = mix(h, k); hs.write((char*)&hh, 8); }
      }
      if (g.want_sample && g.nontriv && !g.trace.empty()) samples.push_back(g.trace.substr(0, 1500));
      if (r.st == FAIL) {
        Input in; in.part = p.name; in.seed = seed; in.idx = i; in.tag = r.tag;
        writeInput(out + ".fail", in, "failure: " + r.tag + ": " + r.msg);
        rc = 3; break;
      }
    }
    if (!firstPart) js << ","; firstPart = false;
    js << "{\"name\":\"" << p.name << "\",\"rule\":\"" << jsonEsc(p.rule) << "\",\"evaluations\":" << ev << ",\"planned\":" << (n > w ? (n - w + W - 1) / W : 0) << ",\"capped\":" << (capped ? "true" : "false") << ",\"discards\":" << dis << ",\"nontrivial\":" << nt << ",\"oracle_evals\":" << sub << ",\"seconds\":" << (now() - p0) << ",\"labels\":{";
    bool f = true; for (auto& l : labels) { if (!f) js << ","; f = false; js << "\"" << jsonEsc(l.first) << "\":" << l.second; }
    js << "},\"samples\":["; f = true; for (auto& s : samples) { if (!f) js << ","; f = false; js << "\"" << jsonEsc(s) << "\""; }
    js << "]}";
  }
  (void)tot;
  js << "]}";
  std::ofstream(out + ".json") << js.str() << "\n";
  hs.close();
  dropScratch();
  return rc;
}

}  // namespace vf

int main(int argc, char** argv) {
  using namespace vf;
  if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& p : parts()) printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quick, (unsigned long long)p.thorough); return 0; }
  if (argc == 10 && !strcmp(argv[1], "run")) { int rc = cmdRun(argv + 2); fflush(nullptr); _exit(rc); }
  if (argc == 6 && !strcmp(argv[1], "shrink")) return cmdShrink(argv[2], argv[3], atof(argv[4]), atof(argv[5]));
  if (argc >= 3 && !strcmp(argv[1], "replay")) return cmdReplay(argv[2], argc > 3 ? atof(argv[3]) : 120, argc > 4 && !strcmp(argv[4], "-v"));
  if (argc >= 5 && !strcmp(argv[1], "case")) {  // case <part> <seed> <idx>: in-process, for debugging
    const Part* p = find(argv[2]); if (!p) return 2;
    Gen g; g.verbose = true; g.reseed(caseSeed(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)));
    if (vf_env::reset) vf_env::reset(12345);
    Result r = runCase(*p, g); fprintf(stderr, "%s\n", g.trace.c_str());
    for (auto& l : g.labels) fprintf(stderr, "label %s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    printf("%s %s %s\n", r.st == FAIL ? "FAIL" : r.st == PASS ? "PASS" : "DISCARD", r.tag.c_str(), r.msg.c_str());
    fflush(nullptr); _exit(r.st == FAIL);
  }
  fprintf(stderr, "usage: %s list | run <prefix> <seed> <worker> <workers> <tier> <scale> <cap> <out> | shrink <in> <out> <budget> <hang> | replay <file> [hang] [-v] | case <part> <seed> <idx>\n", argv[0]);
  return 2;
}
