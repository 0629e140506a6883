// R01: the HTTP layer and JSON-RPC envelopes.
#include "vf.h"
#include <HTTP/HttpParser.h>
#include <HTTP/HttpRequest.h>
#include <HTTP/HttpResponse.h>
#include <Common/Base64.h>
#include <Common/JsonValue.h>
#include <Logging/LoggerGroup.h>
#include <Rpc/HttpClient.h>
#include <Rpc/HttpServer.h>
#include <Rpc/JsonRpc.h>
#define protected public
#include <JsonRpcServer/JsonRpcServer.h>
#undef protected
#include <System/ContextGroup.h>
#include <System/Dispatcher.h>
#include <System/Event.h>
#include <System/InterruptedException.h>
#include <System/Ipv4Address.h>
#include <System/TcpConnection.h>
#include <System/TcpConnector.h>
#include <System/TcpStream.h>
#include <sstream>
#include <unistd.h>
using namespace vf; namespace ps = platform_system;
namespace {
struct Cut : std::streambuf {   // hands out the bytes in generated pieces
  std::string s; std::vector<size_t> cuts; size_t at = 0, ci = 0; size_t reads = 0;
  explicit Cut(std::string x) : s(std::move(x)) {}
  int_type underflow() override { if (gptr() < egptr()) return traits_type::to_int_type(*gptr()); if (at >= s.size()) return traits_type::eof(); size_t n = ci < cuts.size() ? cuts[ci++] : s.size() - at; n = std::max<size_t>(1, std::min(n, s.size() - at)); reads++; setg(&s[at], &s[at], &s[at] + n); at += n; return traits_type::to_int_type(*gptr()); }
};
std::string low(std::string s) { for (auto& c : s) c = (char)tolower((unsigned char)c); return s; }
struct Msg { bool req = true; std::string url; std::map<std::string, std::string> h; std::string body; int status = 200; };
typedef cn::HttpResponse HR; const HR::HTTP_STATUS ST[] = {HR::STATUS_200, HR::STATUS_401, HR::STATUS_404, HR::STATUS_500};
std::string word(Gen& g, size_t maxn) { std::string s; size_t n = 1 + g.size(maxn - 1); const char* a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.!~*'#$%&^`|"; for (size_t i = 0; i < n; i++) s += a[g.draw(strlen(a))]; return s; }
std::string value(Gen& g) {
  std::string s; switch (g.weighted({2, 3, 2, 2, 1})) { case 0: return ""; case 1: s = word(g, 30); break; case 2: s = std::string(g.oneof<std::string>({"a: b", ": ", ":", " x", "x ", "http://host:80/: ", "::", " : ", "a,b; c=\"d\""})); break; case 3: s = g.ascii(40); break; default: { auto b = g.bytes(20); s.assign(b.begin(), b.end()); } }
  std::string r; for (char c : s) if (c != '\r' && c != '\n') r += c; return r;
}
std::string body(Gen& g, size_t big) {
  switch (g.weighted({3, 3, 3, 2, 1})) { case 0: return ""; case 1: return g.ascii(60); case 2: { auto b = g.bytes(80); return std::string(b.begin(), b.end()); } case 3: return std::string(g.oneof<std::string>({"\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", "\xff", "\xff\xff\r", "HTTP/1.1 200 OK\r\n\r\n", "\n", std::string(1, '\0')})) + g.ascii(10); default: { size_t n = g.size(big); Rng r(g.u64()); std::string s(n, 0); for (auto& c : s) c = (char)r.next(); return s; } }
}
Msg genMsg(Gen& g, bool req, size_t big) {
  Msg m; m.req = req; m.url = "/" + (g.flip() ? word(g, 20) : std::string("json_rpc")); if (!req) m.status = (int)g.draw(4); size_t n = g.size(6); std::set<std::string> seen{"content-length", "host", "server"};
  for (size_t i = 0; i < n; i++) { std::string k = word(g, 20); if (seen.insert(low(k)).second) m.h[k] = value(g); }
  if (req && g.chance(1, 4)) m.h[g.flip() ? "Host" : "hOst"] = "example.org:80"; m.body = body(g, big); return m;
}
cn::HttpRequest toReq(const Msg& m) { cn::HttpRequest r; r.setUrl(m.url); for (auto& x : m.h) r.addHeader(x.first, x.second); r.setBody(m.body); return r; }
cn::HttpResponse toResp(const Msg& m) { cn::HttpResponse r; r.setStatus(ST[m.status]); for (auto& x : m.h) r.addHeader(x.first, x.second); r.setBody(m.body); return r; }
void same(const Msg& m, const cn::HttpRequest& r) {
  VF_CHECK(r.getMethod() == "POST" && r.getUrl() == m.url, "R01/line", "the request line came back as \"%s %s\" instead of \"POST %s\"", r.getMethod().substr(0, 40).c_str(), r.getUrl().substr(0, 60).c_str(), m.url.c_str());
  for (auto& x : m.h) { auto it = r.getHeaders().find(low(x.first)); VF_CHECK(it != r.getHeaders().end() && it->second == x.second, "R01/header", "header \"%s: %s\" came back as \"%s\"", x.first.c_str(), x.second.c_str(), it == r.getHeaders().end() ? "(absent)" : it->second.c_str()); }
  bool host = false; for (auto& x : m.h) host |= low(x.first) == "host"; size_t extra = m.body.empty() ? 0 : 1; std::set<std::string> keys; for (auto& x : m.h) keys.insert(low(x.first)); (void)host; keys.insert("host"); VF_CHECK(r.getHeaders().size() == keys.size() + extra, "R01/header", "%zu headers instead of %zu", r.getHeaders().size(), keys.size() + extra);
  VF_CHECK(r.getBody() == m.body, "R01/body", "a body of %zu bytes came back with %zu bytes or changed", m.body.size(), r.getBody().size());
}
void same(const Msg& m, const cn::HttpResponse& r) {
  VF_CHECK(r.getStatus() == ST[m.status], "R01/status", "status %d came back as %d", m.status, (int)r.getStatus());
  for (auto& x : m.h) { auto it = r.getHeaders().find(low(x.first)); VF_CHECK(it != r.getHeaders().end() && it->second == x.second, "R01/header", "response header \"%s: %s\" came back as \"%s\"", x.first.c_str(), x.second.c_str(), it == r.getHeaders().end() ? "(absent)" : it->second.c_str()); }
  VF_CHECK(r.getBody() == m.body, "R01/body", "a response body of %zu bytes came back with %zu bytes or changed", m.body.size(), r.getBody().size());
}
}

VF_PROP("R01.wire", 6000, 400000, "one to five requests or responses with generated headers, values and bodies written to one byte stream and read back in generated pieces, or cut off at a generated byte; non-trivial: two or more messages, or a body with a delimiter, and at least three reads") {
  bool req = g.flip(); size_t n = 1 + g.draw(5); std::vector<Msg> ms; std::ostringstream os; std::vector<size_t> ends; bool delim = false;
  for (size_t i = 0; i < n; i++) { ms.push_back(genMsg(g, req, 3000)); delim |= ms.back().body.find("\r\n") != std::string::npos; if (req) os << toReq(ms.back()); else os << toResp(ms.back()); ends.push_back(os.str().size()); }
  std::string bytes = os.str(); size_t cut = bytes.size(); if (g.chance(1, 4)) { cut = (size_t)g.range(0, bytes.size()); g.label("cut off"); }
  bool bare = req && g.chance(1, 6); if (bare) { // a request without any header, as other clients may send
    bytes = "GET /getheight HTTP/1.1\r\n\r\n" + bytes; for (auto& e : ends) e += 27; cut = bytes.size(); g.label("no headers"); }
  Cut b(bytes.substr(0, cut)); size_t style = g.draw(3); Rng r(g.u64()); for (size_t i = 0; i < (style == 0 ? 0 : bytes.size()); i++) { b.cuts.push_back(style == 1 ? 1 : 1 + r.next() % 40); }
  std::istream is(&b); cn::HttpParser p; size_t whole = 0; while (whole < n && ends[whole] <= cut) whole++;
  if (bare) { cn::HttpRequest x; try { p.receiveRequest(is, x); } catch (std::exception& e) { VF_CHECK(false, "R01/bare", "a request without headers is not read: %s", e.what()); } VF_CHECK(x.getMethod() == "GET" && x.getUrl() == "/getheight" && x.getBody().empty(), "R01/bare", "a request without headers is read as \"%s %s\"", x.getMethod().c_str(), x.getUrl().c_str()); }
  for (size_t i = 0; i <= whole && i < n; i++) {
    std::string err; cn::HttpRequest x; cn::HttpResponse y; try { if (req) p.receiveRequest(is, x); else p.receiveResponse(is, y); } catch (std::exception& e) { err = strf("exception: %s", e.what()); }
    g.evals++;
    if (i < whole) { VF_CHECK(err.empty(), "R01/read", "message %zu of %zu is not read: %s", i, n, err.c_str()); if (req) same(ms[i], x); else same(ms[i], y); }
    else VF_CHECK(!err.empty(), "R01/cut", "a message that was cut off at byte %zu of %zu is read as whole", cut - (i ? ends[i - 1] : 0), ends[i] - (i ? ends[i - 1] : 0));
  }
  if (cut == bytes.size()) VF_CHECK(is.peek() == EOF, "R01/rest", "bytes are left after the last message");
  g.note("%zu %s, %zu bytes, %zu reads", n, req ? "requests" : "responses", bytes.size(), b.reads); if ((n > 1 || delim) && b.reads >= 3) g.nontrivial();
}
VF_PROP("R01.hostile", 6000, 400000, "mutated messages and random bytes given to the parser: it returns a message or throws, and never takes more than the bytes it was given; non-trivial: at least three bytes were changed or the parser read something") {
  bool req = g.flip(); Msg m = genMsg(g, req, 300); std::ostringstream os; if (req) os << toReq(m); else os << toResp(m); std::string s = os.str(); size_t k = 1 + g.draw(6);
  for (size_t i = 0; i < k && !s.empty(); i++) { size_t at = g.draw(s.size()); switch (g.draw(5)) { case 0: s[at] = (char)g.draw(256); break; case 1: s.erase(at, 1 + g.draw(8)); break; case 2: s.insert(at, std::string(g.oneof<std::string>({"\r", "\n", ":", " ", "\r\n", "\r\n\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length: -1\r\n", "content-length: x\r\n", "Content-Length: \r\n"}))); break; case 3: s.insert(at, s.substr(g.draw(s.size()), 20)); break; default: s[at] = '\r'; } }
  Cut b(s); std::istream is(&b); cn::HttpParser p; size_t got = 0;
  for (int i = 0; i < 4; i++) { try { if (req) { cn::HttpRequest x; p.receiveRequest(is, x); VF_CHECK(x.getBody().size() <= s.size() && x.getUrl().size() <= s.size(), "R01/hostile", "more bytes came out than went in"); } else { cn::HttpResponse y; p.receiveResponse(is, y); VF_CHECK(y.getBody().size() <= s.size(), "R01/hostile", "more bytes came out than went in"); } got++; } catch (vf::Failure&) { throw; } catch (std::exception&) { break; } g.evals++; }
  g.label("messages", got); if (k >= 3 || got) g.nontrivial();
}

namespace {
struct Echo : cn::HttpServer {
  struct Seen { std::string url, body; std::map<std::string, std::string> h; }; std::map<std::string, Seen> seen; std::map<std::string, int> times; ps::Dispatcher& d; uint64_t lag = 0;
  Echo(ps::Dispatcher& d_, logging::ILogger& l) : HttpServer(d_, l), d(d_) {}
  void processRequest(const cn::HttpRequest& q, cn::HttpResponse& r) override {
    auto id = q.getHeaders().find("x-id"); std::string i = id == q.getHeaders().end() ? "" : id->second; Seen s; s.url = q.getUrl(); s.body = q.getBody(); for (auto& x : q.getHeaders()) s.h[x.first] = x.second; seen[i] = s; times[i]++;
    for (uint64_t k = 0; k < lag; k++) d.yield();
    auto st = q.getHeaders().find("x-status"); if (st != q.getHeaders().end()) r.setStatus(ST[atoi(st->second.c_str())]); r.addHeader("X-Id", i); std::string b = q.getBody(); std::reverse(b.begin(), b.end()); r.setBody(b);
  }
};
}
VF_PROP("R01.tcp", 40, 3000, "one server and one to four clients over the loopback, with client library calls, pipelined raw writes in pieces, broken connections, right, wrong and missing credentials; every answer belongs to its request; non-trivial: two clients, or pipelining, and at least three exchanges") {
  ps::Dispatcher d; logging::LoggerGroup log; Echo s(d, log); bool auth = g.flip(); std::string user = auth ? "u" + word(g, 6) : "", pass = auth ? word(g, 10) : ""; s.lag = g.draw(4);
  uint16_t port = 0; for (int t = 0; t < 200 && !port; t++) { uint16_t q = 20000 + (uint16_t)((getpid() * 131 + t * 977 + g.u64()) % 20000); try { s.start("127.0.0.1", q, user, pass); port = q; } catch (std::exception&) {} } if (!port) discard();
  size_t C = 1 + g.draw(4), done = 0, wrong = 0; bool pipel = false; std::string err; int no = 0;
  struct One { int kind; size_t n; std::vector<Msg> m; std::vector<int> cred, st; std::vector<std::string> id; std::vector<size_t> pieces; bool broken; size_t cut; }; std::vector<One> cs(C);
  for (auto& c : cs) { c.kind = (int)g.draw(2); c.n = 1 + g.draw(5); c.broken = c.kind && g.chance(1, 4); pipel |= c.kind == 1 && c.n > 1;
    for (size_t i = 0; i < c.n; i++) { Msg m = genMsg(g, true, c.kind ? 5000 : 400000); for (auto it = m.h.begin(); it != m.h.end();) { std::string k = low(it->first); if (k == "x-id" || k == "x-status" || k == "authorization") it = m.h.erase(it); else ++it; } c.id.push_back(strf("%d", no++)); m.h["X-Id"] = c.id.back(); c.st.push_back((int)g.draw(4)); m.h["X-Status"] = strf("%d", c.st.back()); int cr = (int)g.weighted({4, 1, 1, 1}); c.cred.push_back(cr);
      std::string good = "Basic " + tools::base_64::encode(user + ":" + pass); if (cr == 0) m.h["Authorization"] = good; else if (cr == 1) m.h["Authorization"] = "Basic " + tools::base_64::encode(user + ":" + pass + "x"); else if (cr == 2) m.h["Authorization"] = good.substr(6); c.m.push_back(m); }
    for (size_t i = 0; i < 20; i++) c.pieces.push_back(1 + g.draw(g.flip() ? 30 : 3000)); c.cut = g.draw(400); }
  auto check = [&](One& c, size_t i, const cn::HttpResponse& r) {
    done++; std::string b = c.m[i].body; std::reverse(b.begin(), b.end()); bool ok = !auth || c.cred[i] == 0; auto& h = r.getHeaders(); g.evals++;
    if (!ok) { wrong++; if (r.getStatus() != HR::STATUS_401) err = "a request with wrong or missing credentials was answered"; if (s.times.count(c.id[i])) err = "a request with wrong or missing credentials was processed"; return; }
    auto it = h.find("x-id"); if (it == h.end() || it->second != c.id[i]) err = strf("request %s got the answer of \"%s\"", c.id[i].c_str(), it == h.end() ? "nobody" : it->second.c_str());
    else if (r.getStatus() != ST[c.st[i]]) err = strf("status %d instead of %d", (int)r.getStatus(), (int)ST[c.st[i]]); else if (r.getBody() != b) err = strf("the body of an answer has %zu bytes instead of %zu, or was changed", r.getBody().size(), b.size());
    else { auto& q = s.seen[c.id[i]]; if (q.url != c.m[i].url || q.body != c.m[i].body) err = "the server saw another url or body"; for (auto& x : c.m[i].h) if (q.h[low(x.first)] != x.second) err = "the server saw another header"; if (s.times[c.id[i]] != 1) err = strf("a request was processed %d times", s.times[c.id[i]]); }
  };
  {
    ps::ContextGroup gr(d);
    for (auto& c : cs) gr.spawn([&] {
      try {
        if (c.kind == 0) { cn::HttpClient cl(d, "127.0.0.1", port); for (size_t i = 0; i < c.n; i++) { cn::HttpResponse r; cl.request(toReq(c.m[i]), r); check(c, i, r); } }
        else {
          ps::TcpConnection con = ps::TcpConnector(d).connect(ps::Ipv4Address("127.0.0.1"), port); std::ostringstream os; std::vector<size_t> ends; for (auto& m : c.m) { os << toReq(m); ends.push_back(os.str().size()); } std::string b = os.str(); size_t limit = c.broken ? b.size() - std::min(c.cut + 1, b.size()) : b.size();
          size_t at = 0, pi = 0; while (at < limit) { size_t n = std::min(c.pieces[pi++ % c.pieces.size()], limit - at); while (n) { size_t k = con.write((const uint8_t*)b.data() + at, n); at += k; n -= k; } d.yield(); }
          if (!c.broken) { ps::TcpStreambuf sb(con); std::istream is(&sb); cn::HttpParser p; for (size_t i = 0; i < c.n; i++) { cn::HttpResponse r; p.receiveResponse(is, r); check(c, i, r); } }
        }
      } catch (ps::InterruptedException&) {} catch (std::exception& e) { if (!c.broken && err.empty()) err = strf("an exchange failed: %s", e.what()); }
    });
    gr.wait();
  }
  VF_CHECK(err.empty(), "R01/exchange", "%s", err.c_str());
  // the server still serves
  { cn::HttpClient cl(d, "127.0.0.1", port); One c; c.m.push_back(Msg()); c.m[0].url = "/x"; c.m[0].body = "abc"; c.m[0].h["X-Id"] = "last"; c.id = {"last"}; c.st = {0}; c.cred = {0}; if (auth) c.m[0].h["Authorization"] = "Basic " + tools::base_64::encode(user + ":" + pass); cn::HttpResponse r; std::string e2; try { cl.request(toReq(c.m[0]), r); } catch (std::exception& e) { e2 = e.what(); } VF_CHECK(e2.empty(), "R01/alive", "the server does not answer any more: %s", e2.c_str()); check(c, 0, r); VF_CHECK(err.empty(), "R01/exchange", "%s", err.c_str()); }
  s.stop(); VF_CHECK(s.get_connections_count() == 0, "R01/stop", "%zu connections after stop", s.get_connections_count());
  g.note("%zu clients, %zu exchanges, %zu refused for their credentials", C, done, wrong); if ((C > 1 || pipel) && done >= 3) g.nontrivial();
}
