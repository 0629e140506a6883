// Independent restatement of the primitives: Keccak from its definition, ChaCha from its definition, the edwards25519
// group with plain affine arithmetic, and the CryptoNote constructions built on them. Written for clarity, not speed.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
typedef std::string S; typedef unsigned __int128 u128; typedef uint64_t u64;
// ---------------------------------------------------------------- Keccak-f[1600]
inline u64 rol(u64 x, int n) { n &= 63; return n ? x << n | x >> (64 - n) : x; }
inline void keccakF(u64 A[5][5]) {   // A[x][y]
  uint8_t lfsr = 1;
  for (int r = 0; r < 24; r++) {
    u64 C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    int off[5][5] = {}; { int x = 1, y = 0; for (int t = 0; t < 24; t++) { off[x][y] = (t + 1) * (t + 2) / 2 % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], off[x][y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
    u64 rc = 0; for (int j = 0; j <= 6; j++) { if (lfsr & 1) rc |= 1ull << ((1 << j) - 1); lfsr = (uint8_t)(lfsr & 0x80 ? lfsr << 1 ^ 0x71 : lfsr << 1); }
    A[0][0] ^= rc;
  }
}
inline S keccak(const S& in, size_t rate, size_t out) {   // original padding: 0x01 ... 0x80
  S m = in; size_t pad = rate - m.size() % rate; m.append(pad, 0); m[in.size()] = 1; m[m.size() - 1] = (char)((uint8_t)m[m.size() - 1] | 0x80);
  u64 A[5][5] = {};
  for (size_t b = 0; b < m.size(); b += rate) { for (size_t i = 0; i < rate; i++) { size_t l = i / 8; A[l % 5][l / 5] ^= (u64)(uint8_t)m[b + i] << (8 * (i % 8)); } keccakF(A); }
  S o; for (size_t i = 0; i < out; i++) { size_t l = i / 8; o += (char)(A[l % 5][l / 5] >> (8 * (i % 8))); } return o;
}
inline S fastHash(const S& in) { return keccak(in, 136, 32); }
// ---------------------------------------------------------------- tree hash: complete the leaves to a power of two by
// hashing pairs at the end, then a plain binary tree
inline S tree(std::vector<S> h) {
  if (h.size() == 1) return h[0];
  size_t p = 1; while (p * 2 < h.size()) p *= 2;      // largest power of two below the count
  std::vector<S> l; size_t keep = 2 * p - h.size(); for (size_t i = 0; i < keep; i++) l.push_back(h[i]);
  for (size_t i = keep; i < h.size(); i += 2) l.push_back(fastHash(h[i] + h[i + 1]));
  while (l.size() > 1) { std::vector<S> n; for (size_t i = 0; i < l.size(); i += 2) n.push_back(fastHash(l[i] + l[i + 1])); l = n; } return l[0];
}
// ---------------------------------------------------------------- ChaCha, original layout: 64-bit counter, 64-bit nonce
inline S chacha(const S& in, const S& key, const S& iv, int rounds) {
  auto w = [](const S& s, size_t i) { uint32_t v; memcpy(&v, &s[4 * i], 4); return v; }; S o; const S c = "expand 32-byte k";
  for (size_t p = 0, n = 0; p < in.size(); p += 64, n++) {
    std::array<uint32_t, 16> s, x; for (int i = 0; i < 4; i++) s[i] = w(c, i); for (int i = 0; i < 8; i++) s[4 + i] = w(key, i); s[12] = (uint32_t)n; s[13] = (uint32_t)((u64)n >> 32); s[14] = w(iv, 0); s[15] = w(iv, 1); x = s;
    auto q = [&](int a, int b, int c, int d) { auto r = [](uint32_t v, int k) { return v << k | v >> (32 - k); }; x[a] += x[b]; x[d] = r(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = r(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = r(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = r(x[b] ^ x[c], 7); };
    for (int r = 0; r < rounds; r += 2) { for (int i = 0; i < 4; i++) q(i, 4 + i, 8 + i, 12 + i); for (int i = 0; i < 4; i++) q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
    for (size_t i = 0; i < 64 && p + i < in.size(); i++) o += (char)(in[p + i] ^ (uint8_t)((x[i / 4] + s[i / 4]) >> (8 * (i % 4))));
  }
  return o;
}
// ---------------------------------------------------------------- GF(2^255-19)
struct F { u64 v[4]; };
inline F fe(u64 x) { return F{{x, 0, 0, 0}}; }
inline F carry(u128 a0, u128 a1, u128 a2, u128 a3, u64 top) { // value + top*2^256 -> below 2^256
  u128 c = a0 + (u128)top * 38; F r; r.v[0] = (u64)c; c = (c >> 64) + a1; r.v[1] = (u64)c; c = (c >> 64) + a2; r.v[2] = (u64)c; c = (c >> 64) + a3; r.v[3] = (u64)c; u64 t = (u64)(c >> 64);
  while (t) { c = (u128)r.v[0] + (u128)t * 38; r.v[0] = (u64)c; for (int i = 1; i < 4; i++) { c = (c >> 64) + r.v[i]; r.v[i] = (u64)c; } t = (u64)(c >> 64); } return r;
}
inline F add(const F& a, const F& b) { return carry((u128)a.v[0] + b.v[0], (u128)a.v[1] + b.v[1], (u128)a.v[2] + b.v[2], (u128)a.v[3] + b.v[3], 0); }
inline F mul(const F& a, const F& b) {
  u64 t[8] = {}; for (int i = 0; i < 4; i++) { u64 c = 0; for (int j = 0; j < 4; j++) { u128 z = (u128)a.v[i] * b.v[j] + t[i + j] + c; t[i + j] = (u64)z; c = (u64)(z >> 64); } t[i + 4] = c; }
  u64 r[4], c = 0; for (int i = 0; i < 4; i++) { u128 z = (u128)t[i + 4] * 38 + t[i] + c; r[i] = (u64)z; c = (u64)(z >> 64); } return carry(r[0], r[1], r[2], r[3], c);
}
inline F canon(F a) { for (int k = 0; k < 3; k++) { u128 c = (u128)a.v[0] + 19; u64 s[4] = {(u64)c}; for (int i = 1; i < 4; i++) { c = (c >> 64) + a.v[i]; s[i] = (u64)c; } if ((s[3] >> 63) || (c >> 64)) { for (int i = 0; i < 4; i++) a.v[i] = s[i]; a.v[3] &= ~(1ull << 63); if (c >> 64) { /* a >= 2p: one more round follows */ a = add(a, fe(19)); } } else break; } return a; }
inline bool eq(const F& a, const F& b) { F x = canon(a), y = canon(b); return memcmp(&x, &y, sizeof x) == 0; }
inline F neg(const F& a) { F c = canon(a); F p{{~0ull - 18, ~0ull, ~0ull, ~0ull >> 1}}, r; u64 bw = 0; for (int i = 0; i < 4; i++) { u128 z = (u128)p.v[i] - c.v[i] - bw; r.v[i] = (u64)z; bw = (u64)(z >> 64) & 1; } return r; }
inline F sub(const F& a, const F& b) { return add(a, neg(b)); }
inline F power(F a, const u64 e[4]) { F r = fe(1); for (int i = 255; i >= 0; i--) { r = mul(r, r); if (e[i / 64] >> (i % 64) & 1) r = mul(r, a); } return r; }
inline F inv(const F& a) { u64 e[4] = {~0ull - 20, ~0ull, ~0ull, ~0ull >> 1}; return power(a, e); }              // p-2
inline bool isZero(const F& a) { return eq(a, fe(0)); }
inline bool odd(const F& a) { return canon(a).v[0] & 1; }
inline F sqrtm1() { static F r = [] { u64 e[4] = {~0ull - 4, ~0ull, ~0ull, ~0ull}; for (int k = 0; k < 2; k++) for (int i = 0; i < 4; i++) e[i] = e[i] >> 1 | (i < 3 ? e[i + 1] << 63 : 0); /* (2^256-5)/4: unused */ u64 q[4] = {~0ull - 18, ~0ull, ~0ull, ~0ull >> 1}; q[0] -= 1; for (int k = 0; k < 2; k++) for (int i = 0; i < 4; i++) q[i] = q[i] >> 1 | (i < 3 ? q[i + 1] << 63 : 0); return power(fe(2), q); }(); return r; }   // 2^((p-1)/4)
inline bool sqrt(const F& a, F& r) {    // even root
  u64 e[4] = {~0ull - 18, ~0ull, ~0ull, ~0ull >> 1}; e[0] += 3; for (int k = 0; k < 3; k++) for (int i = 0; i < 4; i++) e[i] = e[i] >> 1 | (i < 3 ? e[i + 1] << 63 : 0);   // (p+3)/8
  r = power(a, e); if (!eq(mul(r, r), a)) r = mul(r, sqrtm1()); if (!eq(mul(r, r), a)) return false; if (odd(r)) r = neg(r); return true;
}
inline F fromBytes(const S& b) { F r; memcpy(&r, b.data(), 32); return r; }
inline S toBytes(const F& a) { F c = canon(a); return S((const char*)&c, 32); }
inline F D() { static F d = mul(neg(fe(121665)), inv(fe(121666))); return d; }
// ---------------------------------------------------------------- points, projective with a complete addition law
struct P { F X, Y, Z; };
inline P ident() { return P{fe(0), fe(1), fe(1)}; }
inline P add(const P& a, const P& b) {
  F A = mul(a.Z, b.Z), B = mul(A, A), C = mul(a.X, b.X), E1 = mul(a.Y, b.Y), E = mul(D(), mul(C, E1)), f = sub(B, E), G = add(B, E);
  F t = sub(sub(mul(add(a.X, a.Y), add(b.X, b.Y)), C), E1); return P{mul(A, mul(f, t)), mul(A, mul(G, add(E1, C))), mul(f, G)};
}
inline P neg(const P& a) { return P{neg(a.X), a.Y, a.Z}; }
inline P mul(const S& k, const P& a) { P r = ident(); for (int i = 255; i >= 0; i--) { r = add(r, r); if ((uint8_t)k[i / 8] >> (i % 8) & 1) r = add(r, a); } return r; }
inline S enc(const P& a) { F z = inv(a.Z); S b = toBytes(mul(a.Y, z)); if (odd(mul(a.X, z))) b[31] = (char)((uint8_t)b[31] | 0x80); return b; }
inline bool dec(const S& b, P& r) {    // canonical encodings of curve points only
  S y = b; bool sg = (uint8_t)y[31] >> 7; y[31] &= 0x7f; F Y = fromBytes(y); if (toBytes(Y) != y) return false; F y2 = mul(Y, Y), u = sub(y2, fe(1)), v = add(mul(D(), y2), fe(1)), x; if (!sqrt(mul(u, inv(v)), x)) return false;
  if (isZero(x) && sg) return false; if (odd(x) != sg) x = neg(x); r = P{x, Y, fe(1)}; return true;
}
inline P base() { static P g = [] { P r; F y = mul(fe(4), inv(fe(5))); S b = toBytes(y); dec(b, r); return r; }(); return g; }
// ---------------------------------------------------------------- scalars mod l
inline const S& L() { static S l = [] { u64 v[4] = {0x5812631a5cf5d3edull, 0x14def9dea2f79cd6ull, 0, 0x1000000000000000ull}; return S((const char*)v, 32); }(); return l; }
struct Big { u64 v[9]; };
inline S mod(const S& in) {   // any length up to 64 bytes
  u64 l[5]; memset(l, 0, sizeof l); memcpy(l, L().data(), 32); u64 r[5] = {};
  for (size_t i = in.size() * 8; i-- > 0;) { for (int k = 4; k > 0; k--) r[k] = r[k] << 1 | r[k - 1] >> 63; r[0] = r[0] << 1 | ((uint8_t)in[i / 8] >> (i % 8) & 1);
    bool ge = true; for (int k = 4; k >= 0; k--) if (r[k] != l[k]) { ge = r[k] > l[k]; break; } if (ge) { u64 b = 0; for (int k = 0; k < 5; k++) { u128 z = (u128)r[k] - l[k] - b; r[k] = (u64)z; b = (u64)(z >> 64) & 1; } } }
  return S((const char*)r, 32);
}
inline S mulAdd(const S& a, const S& b, const S& c) { u64 x[4], y[4], z[4], t[8] = {}; memcpy(x, a.data(), 32); memcpy(y, b.data(), 32); memcpy(z, c.data(), 32); for (int i = 0; i < 4; i++) { u64 cy = 0; for (int j = 0; j < 4; j++) { u128 w = (u128)x[i] * y[j] + t[i + j] + cy; t[i + j] = (u64)w; cy = (u64)(w >> 64); } t[i + 4] = cy; } u64 cy = 0; for (int i = 0; i < 8; i++) { u128 w = (u128)t[i] + (i < 4 ? z[i] : 0) + cy; t[i] = (u64)w; cy = (u64)(w >> 64); } return mod(S((const char*)t, 64)); }
inline bool reduced(const S& a) { return mod(a) == a; }
inline S one() { S s(32, 0); s[0] = 1; return s; }
inline S sadd(const S& a, const S& b) { return mulAdd(a, one(), b); }
inline S sneg(const S& a) { u64 l[4], x[4], r[4]; memcpy(l, L().data(), 32); S m = mod(a); memcpy(x, m.data(), 32); u64 b = 0; for (int k = 0; k < 4; k++) { u128 z = (u128)l[k] - x[k] - b; r[k] = (u64)z; b = (u64)(z >> 64) & 1; } return mod(S((const char*)r, 32)); }
inline S Hs(const S& d) { return mod(fastHash(d)); }
// ---------------------------------------------------------------- CryptoNote constructions
inline P mul8(const P& p) { P a = add(p, p); a = add(a, a); return add(a, a); }
inline P mapToCurve(const S& h) {     // the 2013 CryptoNote map of 256 bits to a point (before clearing the cofactor)
  F A = fe(486662), u = fromBytes(h), v = add(mul(u, u), mul(u, u)), w = add(v, fe(1)), x = sub(mul(w, w), mul(mul(A, A), v)), e = mul(w, inv(x)); F A2 = mul(A, add(A, fe(2))), rt, X, z; bool sg;
  // the first candidate is a square for half of the inputs, otherwise the second one is
  if (sqrt(mul(add(A2, A2), e), rt)) { X = mul(rt, u); z = neg(mul(A, v)); sg = false; } else { if (!sqrt(mul(A2, e), rt)) rt = fe(0); X = rt; z = neg(A); sg = true; }
  if (odd(X) != sg) X = neg(X); F Z = add(z, w), Y = sub(z, w); return P{mul(X, Z), Y, Z};
}
inline P Hp(const S& data) { return mul8(mapToCurve(fastHash(data))); }
inline S varint(u64 v) { S r; while (v >= 0x80) { r += (char)(v | 0x80); v >>= 7; } r += (char)v; return r; }
inline S pub(const S& sec) { return enc(mul(sec, base())); }
inline S keyImage(const S& pb, const S& sec) { return enc(mul(sec, Hp(pb))); }
inline bool derivation(const S& pb, const S& sec, S& d) { P p; if (!dec(pb, p)) return false; d = enc(mul8(mul(sec, p))); return true; }
inline S derScalar(const S& d, u64 ix, const S& suffix = S()) { return Hs(d + varint(ix) + suffix); }
inline S derivePub(const S& d, u64 ix, const S& b, const S& suffix = S()) { P p; if (!dec(b, p)) return S(); return enc(add(p, mul(derScalar(d, ix, suffix), base()))); }
inline S deriveSec(const S& d, u64 ix, const S& b, const S& suffix = S()) { return sadd(derScalar(d, ix, suffix), b); }
inline bool checkSig(const S& h, const S& pb, const S& sig) { S c = sig.substr(0, 32), r = sig.substr(32); P p; if (!dec(pb, p) || !reduced(c) || !reduced(r)) return false; return Hs(h + pb + enc(add(mul(c, p), mul(r, base())))) == c; }
inline bool checkRing(const S& h, const S& image, const std::vector<S>& pubs, const std::vector<S>& sig) {
  P I; if (!dec(image, I)) return false; S b = h, sum(32, 0);
  for (size_t i = 0; i < pubs.size(); i++) { S c = sig[i].substr(0, 32), r = sig[i].substr(32); P p; if (!reduced(c) || !reduced(r) || !dec(pubs[i], p)) return false; b += enc(add(mul(c, p), mul(r, base()))); b += enc(add(mul(r, Hp(pubs[i])), mul(c, I))); sum = sadd(sum, c); }
  return Hs(b) == sum;
}
inline bool checkProof(const S& h, const S& R, const S& A, const S& Dd, const S& sig) { P r, a, d; S c = sig.substr(0, 32), z = sig.substr(32); if (!dec(R, r) || !dec(A, a) || !dec(Dd, d) || !reduced(c) || !reduced(z)) return false; return Hs(h + Dd + enc(add(mul(c, r), mul(z, base()))) + enc(add(mul(c, d), mul(z, a)))) == c; }
}  // namespace ref
