// K02: signatures, ring signatures, transaction proofs, key derivations and key images against the reference group arithmetic
#include "vf.h"
#include "vf_env.h"
#include "refcrypto.h"
#include "crypto/crypto.h"
#include "crypto/hash.h"
using namespace crypto; typedef std::string S;
template <class T> static S str(const T& t) { return S((const char*)&t, sizeof t); }
template <class T> static T pod(const S& s) { T t; memcpy(&t, s.data(), sizeof t); return t; }
static S rnd(vf::Rng& r, size_t n) { S s(n, 0); for (auto& c : s) c = (char)r.next(); return s; }
static S scalar(vf::Gen& g, vf::Rng& r) { switch (g.draw(6)) { case 0: { S s(32, 0); s[0] = (char)(1 + g.draw(255)); return s; } case 1: { S m(32, 0); m[0] = (char)(1 + g.draw(200)); return ref::sneg(m); } case 2: { S s(32, 0); size_t b = g.draw(252); s[b / 8] = (char)(1 << (b % 8)); return s; } default: { S s = ref::mod(rnd(r, 64)); s[0] = (char)(s[0] | 1); return ref::mod(s); } } }
static S bitflip(vf::Gen& g, S s) { size_t b = g.draw(s.size() * 8); s[b / 8] = (char)(s[b / 8] ^ 1 << (b % 8)); return s; }
static S plusL(const S& a) { uint64_t x[4], l[4], r[4]; memcpy(x, a.data(), 32); memcpy(l, ref::L().data(), 32); unsigned __int128 c = 0; for (int i = 0; i < 4; i++) { c += (unsigned __int128)x[i] + l[i]; r[i] = (uint64_t)c; c >>= 64; } return S((char*)r, 32); }
static const std::vector<ref::P>& torsion() { static std::vector<ref::P> t = [] { vf::Rng r(7); std::vector<ref::P> v; for (;;) { ref::P p; if (!ref::dec(rnd(r, 32), p)) continue; ref::P q = ref::mul(ref::L(), p); ref::P x = ref::ident(); v.clear(); for (int i = 1; i < 8; i++) { x = ref::add(x, q); v.push_back(x); } std::set<S> s; for (auto& y : v) s.insert(ref::enc(y)); if (s.size() == 7 && !s.count(ref::enc(ref::ident()))) return v; } }(); return t; }
static S plusTorsion(vf::Gen& g, const S& p) { ref::P a; if (!ref::dec(p, a)) return p; return ref::enc(ref::add(a, torsion()[g.draw(7)])); }

VF_PROP("K02.points", 6000, 300000, "32 byte strings (random, near the field prime, small order, non-canonical, negated) as public keys: check_key, scalar multiplication and hashing to a point against the reference curve; multiplying by the group order gives the identity exactly for points of the prime-order group; non-trivial: a valid point that is not of the prime-order group, or an invalid string near the prime") {
  vf::Rng r(g.seed()); S s; size_t kind = g.draw(7);
  switch (kind) { case 0: s = rnd(r, 32); break; case 1: s = S(32, (char)0xff); s[31] = 0x7f; s[0] = (char)(0xed - 20 + g.draw(40)); if (g.flip()) s[31] = (char)0xff; break; case 2: s = S(32, 0); s[0] = (char)g.draw(30); if (g.flip()) s[31] = (char)0x80; break;
    case 3: s = ref::enc(torsion()[g.draw(7)]); if (g.chance(1, 3)) s[31] ^= 0x80; break; case 4: s = ref::pub(scalar(g, r)); break; case 5: s = plusTorsion(g, ref::pub(scalar(g, r))); break; default: s = bitflip(g, ref::pub(scalar(g, r))); }
  ref::P p; bool ok = ref::dec(s, p); g.label(ok ? "a point" : "no point"); if ((ok && kind != 4) || kind == 1 || kind == 2) g.nontrivial();
  VF_CHECK(check_key(pod<PublicKey>(s)) == ok, "check-key", "check_key(%s) is %d, on the reference curve %d", vf::hex(s).c_str(), !ok, ok);
  if (ok) { S k = g.chance(1, 3) ? ref::L() : g.flip() ? scalar(g, r) : S(32, 0); if (k == S(32, 0)) k[0] = (char)g.draw(9); S got = str(scalarmultKey(pod<KeyImage>(s), pod<KeyImage>(k))), want = ref::enc(ref::mul(k, p)); VF_CHECK(got == want, "scalarmult", "%s * %s is %s, reference %s", vf::hex(k).c_str(), vf::hex(s).c_str(), vf::hex(got).c_str(), vf::hex(want).c_str());
    if (k == ref::L() && kind >= 3) { bool prime = kind == 4; S I(32, 0); I[0] = 1; if (kind != 6) VF_CHECK((got == I) == prime, "subgroup", "group order times %s is %s but the point is %sin the prime-order group", vf::hex(s).c_str(), vf::hex(got).c_str(), prime ? "" : "not "); } }
  S d = rnd(r, g.draw(60)); PublicKey h; hash_data_to_ec((const uint8_t*)d.data(), d.size(), h); S want = ref::enc(ref::Hp(d)); VF_CHECK(str(h) == want, "hash-to-point", "point for %s is %s, reference %s", vf::hex(d).c_str(), vf::hex(str(h)).c_str(), vf::hex(want).c_str());
  EllipticCurveScalar sc; hash_to_scalar(d.data(), d.size(), sc); VF_CHECK(str(sc) == ref::Hs(d), "hash-to-scalar", "scalar for %s is %s", vf::hex(d).c_str(), vf::hex(str(sc)).c_str());
  // boundaries of secret keys
  S x; switch (g.draw(5)) { case 0: x = plusL(S(1, (char)g.draw(200)) + S(31, 0)); break; case 1: x = ref::sneg(S(1, (char)(1 + g.draw(200))) + S(31, 0)); break; case 2: x = rnd(r, 32); break; case 3: x = S(32, (char)0xff); break; default: x = scalar(g, r); }
  PublicKey pk; bool sk = secret_key_to_public_key(pod<SecretKey>(x), pk); VF_CHECK(sk == ref::reduced(x), "secret-range", "secret key %s accepted: %d, below the group order: %d", vf::hex(x).c_str(), sk, ref::reduced(x)); if (sk) VF_CHECK(str(pk) == ref::pub(x), "public", "public key of %s is %s, reference %s", vf::hex(x).c_str(), vf::hex(str(pk)).c_str(), vf::hex(ref::pub(x)).c_str());
  SecretKey seed = pod<SecretKey>(x), sec2; PublicKey pub2; generate_keys_from_seed(pub2, sec2, seed); VF_CHECK(str(sec2) == ref::mod(x) && str(pub2) == ref::pub(ref::mod(x)), "seed-keys", "keys from seed %s are %s / %s", vf::hex(x).c_str(), vf::hex(str(sec2)).c_str(), vf::hex(str(pub2)).c_str());
}

VF_PROP("K02.derive", 3000, 150000, "derivations, one-time public and secret keys with and without suffix, the inverse operations and key images against the reference, for indices of every varint length; different outputs give different keys and images; non-trivial: index above 127 or a suffix") {
  vf::Rng r(g.seed()); S a = scalar(g, r), b = scalar(g, r), t = scalar(g, r), A = ref::pub(a), B = ref::pub(b), R = ref::pub(t); uint64_t ix = g.u64(); if (g.flip()) ix = g.draw(300);
  if (g.chance(1, 8)) R = plusTorsion(g, R);
  KeyDerivation d, d2; S rd; VF_CHECK(generate_key_derivation(pod<PublicKey>(R), pod<SecretKey>(a), d), "derivation", "no derivation for a valid key"); VF_CHECK(ref::derivation(R, a, rd) && str(d) == rd, "derivation", "derivation of %s with %s is %s, reference %s", vf::hex(R).c_str(), vf::hex(a).c_str(), vf::hex(str(d)).c_str(), vf::hex(rd).c_str());
  VF_CHECK(generate_key_derivation(pod<PublicKey>(A), pod<SecretKey>(t), d2) && str(d2) == rd, "shared", "sender and recipient derive different secrets");
  S suf = g.flip() ? rnd(r, g.draw(33)) : S(); bool withSuffix = !suf.empty(); if (withSuffix || ix > 127) g.nontrivial(); auto sp = (const uint8_t*)suf.data();
  PublicKey P, Bb; bool ok = withSuffix ? derive_public_key(d, ix, pod<PublicKey>(B), sp, suf.size(), P) : derive_public_key(d, ix, pod<PublicKey>(B), P); S wantP = ref::derivePub(rd, ix, B, suf); VF_CHECK(ok && str(P) == wantP, "derive-public", "one-time key at index %lu (suffix %zu) is %s, reference %s", ix, suf.size(), vf::hex(str(P)).c_str(), vf::hex(wantP).c_str());
  SecretKey x; if (withSuffix) derive_secret_key(d, ix, pod<SecretKey>(b), sp, suf.size(), x); else derive_secret_key(d, ix, pod<SecretKey>(b), x); VF_CHECK(str(x) == ref::deriveSec(rd, ix, b, suf) && ref::pub(str(x)) == wantP, "derive-secret", "one-time secret at index %lu is %s and does not open %s", ix, vf::hex(str(x)).c_str(), vf::hex(wantP).c_str());
  ok = withSuffix ? underive_public_key(d, ix, P, sp, suf.size(), Bb) : underive_public_key(d, ix, P, Bb); VF_CHECK(ok && str(Bb) == B, "underive", "underiving index %lu gives %s, spend key %s", ix, vf::hex(str(Bb)).c_str(), vf::hex(B).c_str());
  if (!withSuffix) { EllipticCurveScalar hs; VF_CHECK(underive_public_key_and_get_scalar(d, ix, P, Bb, hs) && str(Bb) == B && str(hs) == ref::derScalar(rd, ix), "underive-scalar", "underive_public_key_and_get_scalar disagrees at index %lu", ix); }
  KeyImage ki; generate_key_image(P, x, ki); S wi = ref::keyImage(wantP, str(x)); VF_CHECK(str(ki) == wi, "image", "key image of %s is %s, reference %s", vf::hex(wantP).c_str(), vf::hex(str(ki)).c_str(), vf::hex(wi).c_str()); KeyImage ki2; generate_key_image(P, x, ki2); VF_CHECK(str(ki2) == wi, "image", "a second key image of the same key differs");
  uint64_t jx = g.flip() ? ix ^ 1ull << g.draw(64) : g.u64(); PublicKey Q; if (jx != ix) { derive_public_key(d, jx, pod<PublicKey>(B), Q); VF_CHECK(withSuffix || str(Q) != str(P), "index", "indices %lu and %lu give one key", ix, jx); SecretKey y; derive_secret_key(d, jx, pod<SecretKey>(b), y); KeyImage kj; generate_key_image(Q, y, kj); if (str(Q) != str(P)) VF_CHECK(str(kj) != str(ki), "image-distinct", "two keys share a key image"); }
  S bad = S(32, 0); bad[0] = 2; ref::P dummy; while (ref::dec(bad, dummy)) bad[0]++; KeyDerivation d3; PublicKey o; VF_CHECK(!generate_key_derivation(pod<PublicKey>(bad), pod<SecretKey>(a), d3) && !derive_public_key(d, ix, pod<PublicKey>(bad), o) && !underive_public_key(d, ix, pod<PublicKey>(bad), o), "invalid", "an invalid point was used");
}

VF_PROP("K02.sig", 2500, 120000, "a signature verifies for its message and key and, after any one change (bit of message, key, c or r; c or r plus the group order; key plus torsion; another key; c and r swapped), exactly when the reference verifier says so; non-trivial: the change is algebraic (order or torsion)") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); S x = scalar(g, r), P = ref::pub(x), m = rnd(r, 32); Signature sg; generate_signature(pod<Hash>(m), pod<PublicKey>(P), pod<SecretKey>(x), sg); S s = str(sg);
  VF_CHECK(check_signature(pod<Hash>(m), pod<PublicKey>(P), sg), "own", "a fresh signature does not verify"); VF_CHECK(ref::checkSig(m, P, s), "own-reference", "the reference refuses a fresh signature");
  S m2 = m, P2 = P, s2 = s; const char* what = "";
  switch (g.draw(9)) { case 0: m2 = bitflip(g, m); what = "message bit"; break; case 1: P2 = bitflip(g, P); what = "key bit"; break; case 2: s2 = bitflip(g, s); what = "signature bit"; break; case 3: s2 = plusL(s.substr(0, 32)) + s.substr(32); what = "c plus order"; g.nontrivial(); break; case 4: s2 = s.substr(0, 32) + plusL(s.substr(32)); what = "r plus order"; g.nontrivial(); break;
    case 5: P2 = plusTorsion(g, P); what = "key plus torsion"; g.nontrivial(); break; case 6: P2 = ref::pub(scalar(g, r)); what = "another key"; break; case 7: s2 = s.substr(32) + s.substr(0, 32); what = "halves swapped"; break; default: s2 = S(32, 0) + S(32, 0); if (g.flip()) s2[g.draw(64)] = 1; what = "trivial signature"; }
  g.label(what); ref::P p; if (!ref::dec(P2, p)) { VF_CHECK(!check_key(pod<PublicKey>(P2)), "invalid-key", "an invalid key passes check_key"); return; }
  bool same = m2 == m && P2 == P && s2 == s, got = check_signature(pod<Hash>(m2), pod<PublicKey>(P2), pod<Signature>(s2)), want = ref::checkSig(m2, P2, s2); VF_CHECK(got == want, "verdict", "changed %s: accepted %d, reference %d (message %s key %s signature %s)", what, got, want, vf::hex(m2).c_str(), vf::hex(P2).c_str(), vf::hex(s2).c_str()); VF_CHECK(!got || same, "forged", "changed %s and the signature still verifies", what);
  Signature again; generate_signature(pod<Hash>(m), pod<PublicKey>(P), pod<SecretKey>(x), again); VF_CHECK(str(again) != s, "nonce", "two signatures share their nonce");
}

VF_PROP("K02.ring", 900, 40000, "ring signatures of 1 to 12 members with the real one anywhere: verify for message, image and ring as signed; after one change (bits of message, image, ring member, any signature word; scalar plus order; torsion added to image or member; members or signatures exchanged; another image) accepted exactly when the reference verifier accepts, and never when anything differs; non-trivial: ring of at least two or an algebraic change") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); size_t n = 1 + g.draw(g.chance(1, 8) ? 12 : 4), real = g.draw(n); std::vector<S> xs, ps; for (size_t i = 0; i < n; i++) { S x = scalar(g, r); while (std::count(xs.begin(), xs.end(), x)) x = ref::sadd(x, ref::one()); xs.push_back(x); ps.push_back(ref::pub(x)); } S m = rnd(r, 32); if (n > 1) g.nontrivial(); g.label("ring of " + std::to_string(n));
  KeyImage ki; generate_key_image(pod<PublicKey>(ps[real]), pod<SecretKey>(xs[real]), ki); S im = str(ki); auto ptrs = [&](std::vector<PublicKey>& k, const std::vector<S>& p) { k.clear(); for (auto& q : p) k.push_back(pod<PublicKey>(q)); std::vector<const PublicKey*> v; for (auto& q : k) v.push_back(&q); return v; };
  std::vector<PublicKey> hold; auto pv = ptrs(hold, ps); std::vector<Signature> sg(n); generate_ring_signature(pod<Hash>(m), ki, pv, pod<SecretKey>(xs[real]), real, sg.data()); std::vector<S> ss; for (auto& q : sg) ss.push_back(str(q));
  VF_CHECK(check_ring_signature(pod<Hash>(m), ki, pv, sg.data()), "own", "a fresh ring signature (%zu members, real %zu) does not verify", n, real); VF_CHECK(ref::checkRing(m, im, ps, ss), "own-reference", "the reference refuses a fresh ring signature (%zu members, real %zu)", n, real);
  int k = 1 + (int)g.draw(3); while (k--) {
    S m2 = m, im2 = im; auto p2 = ps, s2 = ss; size_t j = g.draw(n), j2 = g.draw(n); const char* what = "";
    switch (g.draw(12)) { case 0: m2 = bitflip(g, m); what = "message bit"; break; case 1: im2 = bitflip(g, im); what = "image bit"; break; case 2: p2[j] = bitflip(g, ps[j]); what = "member bit"; break; case 3: s2[j] = bitflip(g, ss[j]); what = "signature bit"; break; case 4: s2[j] = plusL(ss[j].substr(0, 32)) + ss[j].substr(32); what = "c plus order"; g.nontrivial(); break; case 5: s2[j] = ss[j].substr(0, 32) + plusL(ss[j].substr(32)); what = "r plus order"; g.nontrivial(); break;
      case 6: im2 = plusTorsion(g, im); what = "image plus torsion"; g.nontrivial(); break; case 7: p2[j] = plusTorsion(g, ps[j]); what = "member plus torsion"; g.nontrivial(); break; case 8: std::swap(p2[j], p2[j2]); what = "members exchanged"; break; case 9: std::swap(s2[j], s2[j2]); what = "signatures exchanged"; break; case 10: std::swap(p2[j], p2[j2]); std::swap(s2[j], s2[j2]); what = "members with signatures exchanged"; break; default: im2 = ref::keyImage(ps[j], scalar(g, r)); what = "another image"; }
    g.label(what); bool usable = true; for (auto& q : p2) { ref::P x; usable = usable && ref::dec(q, x); } if (!usable) continue; g.evals++;
    bool same = m2 == m && im2 == im && p2 == ps && s2 == ss; std::vector<PublicKey> h2; auto v2 = ptrs(h2, p2); std::vector<Signature> q2; for (auto& q : s2) q2.push_back(pod<Signature>(q));
    bool got = check_ring_signature(pod<Hash>(m2), pod<KeyImage>(im2), v2, q2.data()), want = ref::checkRing(m2, im2, p2, s2); VF_CHECK(got == want, "verdict", "%s in a ring of %zu (real %zu, changed %zu): accepted %d, reference %d", what, n, real, j, got, want);
    if (what[0] != 'i' || what != S("image plus torsion")) VF_CHECK(!got || same, "forged", "%s in a ring of %zu (real %zu, changed %zu %zu) and it still verifies", what, n, real, j, j2);
    else if (got && !same) { S I(32, 0); I[0] = 1; VF_CHECK(str(scalarmultKey(pod<KeyImage>(im2), pod<KeyImage>(ref::L()))) != I, "torsion-image", "an image with torsion passes the subgroup test"); g.label("torsion image with a verifying equation"); } }
  // linkability: the same key in another ring and position gives the same image
  std::vector<S> other{ref::pub(scalar(g, r)), ps[real]}; KeyImage k2; generate_key_image(pod<PublicKey>(other[1]), pod<SecretKey>(xs[real]), k2); VF_CHECK(str(k2) == im, "link", "the key image depends on something else than the key");
  // a member that is not the signer cannot be claimed: the image of another member does not verify with these signatures
  if (n > 1) { size_t j = (real + 1 + g.draw(n - 1)) % n; S ij = ref::keyImage(ps[j], xs[j]); VF_CHECK(ij != im, "image-distinct", "two members share an image"); VF_CHECK(!check_ring_signature(pod<Hash>(m), pod<KeyImage>(ij), pv, sg.data()), "image-bound", "a ring signature verifies for the image of another member"); }
}

VF_PROP("K02.proof", 1500, 60000, "transaction key proofs verify for message, R, A and D = rA as made, and after one change (bits, order, torsion, exchanged keys) exactly when the reference verifier accepts; non-trivial: change of the derivation or keys") {
  vf::Rng r(g.seed()); vf_env::seedRandom(r.next()); S t = scalar(g, r), a = scalar(g, r), R = ref::pub(t), A = ref::pub(a), m = rnd(r, 32); ref::P ap; ref::dec(A, ap); S D = ref::enc(ref::mul(t, ap)); Signature sg; generate_tx_proof(pod<Hash>(m), pod<PublicKey>(R), pod<PublicKey>(A), pod<PublicKey>(D), pod<SecretKey>(t), sg); S s = str(sg);
  VF_CHECK(check_tx_proof(pod<Hash>(m), pod<PublicKey>(R), pod<PublicKey>(A), pod<PublicKey>(D), sg), "own", "a fresh proof does not verify"); VF_CHECK(ref::checkProof(m, R, A, D, s), "own-reference", "the reference refuses a fresh proof");
  S m2 = m, R2 = R, A2 = A, D2 = D, s2 = s; const char* what = "";
  switch (g.draw(9)) { case 0: m2 = bitflip(g, m); what = "message bit"; break; case 1: s2 = bitflip(g, s); what = "signature bit"; break; case 2: s2 = plusL(s.substr(0, 32)) + s.substr(32); what = "c plus order"; break; case 3: s2 = s.substr(0, 32) + plusL(s.substr(32)); what = "r plus order"; break; case 4: D2 = g.flip() ? bitflip(g, D) : plusTorsion(g, D); what = "derivation"; g.nontrivial(); break; case 5: R2 = g.flip() ? bitflip(g, R) : plusTorsion(g, R); what = "transaction key"; g.nontrivial(); break; case 6: A2 = g.flip() ? bitflip(g, A) : plusTorsion(g, A); what = "view key"; g.nontrivial(); break; case 7: D2 = ref::pub(scalar(g, r)); what = "another derivation"; g.nontrivial(); break; default: std::swap(R2, A2); what = "keys exchanged"; g.nontrivial(); }
  g.label(what); bool same = m2 == m && s2 == s && D2 == D && R2 == R && A2 == A, got = check_tx_proof(pod<Hash>(m2), pod<PublicKey>(R2), pod<PublicKey>(A2), pod<PublicKey>(D2), pod<Signature>(s2)), want = ref::checkProof(m2, R2, A2, D2, s2);
  VF_CHECK(got == want, "verdict", "changed %s: accepted %d, reference %d", what, got, want); if (what != S("derivation") && what != S("transaction key") && what != S("view key")) VF_CHECK(!got || same, "forged", "changed %s and the proof still verifies", what);
  S x = scalar(g, r); if (x != t) { Signature f; S Rx = ref::pub(x); ref::P q; ref::dec(A, q); S Dx = ref::enc(ref::mul(x, q)); generate_tx_proof(pod<Hash>(m), pod<PublicKey>(Rx), pod<PublicKey>(A), pod<PublicKey>(Dx), pod<SecretKey>(x), f); VF_CHECK(!check_tx_proof(pod<Hash>(m), pod<PublicKey>(R), pod<PublicKey>(A), pod<PublicKey>(D), f) && !check_tx_proof(pod<Hash>(m), pod<PublicKey>(R), pod<PublicKey>(A), pod<PublicKey>(Dx), f), "foreign", "a proof made with another key verifies"); }
}
