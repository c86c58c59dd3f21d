// JWK entries with faults, and an independent reading of them.
#pragma once
#include <openssl/bn.h>
#include <openssl/ec_key.h>
#include <openssl/rsa.h>

#include "faults.h"
#include "world.h"

namespace vp {

// Reads a JWK; Ok and *out set if it is usable. RSA keys and Ed25519 keys are
// reported by material, not pool index.
struct Material {
  std::string kty, kid, alg, crv;
  std::string n, e, x, y, k;  // big-endian numbers without leading zeros; raw bytes
};

inline std::string stripZeros(const std::string& s) {
  size_t i = 0;
  while (i < s.size() && s[i] == 0) ++i;
  return s.substr(i);
}
inline int bitLen(const std::string& s) {
  std::string t = stripZeros(s);
  if (t.empty()) return 0;
  int b = 0;
  for (unsigned v = static_cast<uint8_t>(t[0]); v; v >>= 1) ++b;
  return static_cast<int>(t.size() - 1) * 8 + b;
}

inline Status readJwk(const J& j, Material* m) {
  auto text = [&](const char* n, std::string* v) -> int {  // 0 ok, 1 missing, 2 type
    const J* x = j.get(n);
    if (!x) return 1;
    if (x->kind != J::kStr) return 2;
    *v = x->s;
    return 0;
  };
  switch (text("kty", &m->kty)) {
    case 1: return Status::JwksMissingKty;
    case 2: return Status::JwksBadKty;
  }
  text("kid", &m->kid);
  text("alg", &m->alg);
  const std::string& alg = m->alg;
  if (m->kty == "RSA") {
    if (!alg.empty() && alg.substr(0, 2) != "RS" && alg.substr(0, 2) != "PS") return Status::JwksRSAKeyBadAlg;
    std::string n, e;
    int r = text("n", &n);
    if (r) return r == 1 ? Status::JwksRSAKeyMissingN : Status::JwksRSAKeyBadN;
    r = text("e", &e);
    if (r) return r == 1 ? Status::JwksRSAKeyMissingE : Status::JwksRSAKeyBadE;
    if (!b64urlDecodeStrict(n, &m->n) || !b64urlDecodeStrict(e, &m->e)) return Status::JwksRsaParseError;
    m->n = stripZeros(m->n);
    m->e = stripZeros(m->e);
    if (m->e != std::string("\3") && m->e != std::string("\1\0\1", 3)) return Status::JwksRsaParseError;
    int bits = bitLen(m->n);
    if (bits <= 33 || bits > 16384 || !(m->n.back() & 1)) return Status::JwksRsaParseError;
    return Status::Ok;
  }
  if (m->kty == "EC") {
    if (!alg.empty() && alg.substr(0, 2) != "ES") return Status::JwksECKeyBadAlg;
    int r = text("crv", &m->crv);
    if (r == 2) return Status::JwksECKeyBadCrv;
    std::string by_alg = alg == "ES256" ? "P-256" : alg == "ES384" ? "P-384" : alg == "ES512" ? "P-521" : "";
    if (!alg.empty() && !m->crv.empty() && m->crv != by_alg) return Status::JwksECKeyAlgNotCompatibleWithCrv;
    if (m->crv.empty()) m->crv = alg.empty() ? "P-256" : by_alg;
    int curve = m->crv == "P-256" ? 256 : m->crv == "P-384" ? 384 : m->crv == "P-521" ? 521 : 0;
    if (!curve) return Status::JwksECKeyAlgOrCrvUnsupported;
    std::string x, y;
    r = text("x", &x);
    if (r) return r == 1 ? Status::JwksECKeyMissingX : Status::JwksECKeyBadX;
    r = text("y", &y);
    if (r) return r == 1 ? Status::JwksECKeyMissingY : Status::JwksECKeyBadY;
    if (!b64urlDecodeStrict(x, &m->x) || !b64urlDecodeStrict(y, &m->y)) return Status::JwksEcXorYBadBase64;
    if (!onCurve(curve, m->x, m->y)) return Status::JwksEcParseError;
    m->x = stripZeros(m->x);
    m->y = stripZeros(m->y);
    return Status::Ok;
  }
  if (m->kty == "oct") {
    if (!alg.empty() && alg != "HS256" && alg != "HS384" && alg != "HS512") return Status::JwksHMACKeyBadAlg;
    std::string k;
    int r = text("k", &k);
    if (r) return r == 1 ? Status::JwksHMACKeyMissingK : Status::JwksHMACKeyBadK;
    if (!b64urlDecodeStrict(k, &m->k) || m->k.empty()) return Status::JwksOctBadBase64;
    return Status::Ok;
  }
  if (m->kty == "OKP") {
    if (!alg.empty() && alg != "EdDSA") return Status::JwksOKPKeyBadAlg;
    int r = text("crv", &m->crv);
    if (r) return r == 1 ? Status::JwksOKPKeyMissingCrv : Status::JwksOKPKeyBadCrv;
    if (m->crv != "Ed25519") return Status::JwksOKPKeyCrvUnsupported;
    std::string x;
    r = text("x", &x);
    if (r) return r == 1 ? Status::JwksOKPKeyMissingX : Status::JwksOKPKeyBadX;
    if (!b64urlDecodeStrict(x, &m->x)) return Status::JwksOKPXBadBase64;
    if (m->x.size() != 32) return Status::JwksOKPXWrongLength;
    return Status::Ok;
  }
  return Status::JwksNotImplementedKty;
}

inline std::string bnBytes(const BIGNUM* b) {
  if (!b) return "";
  std::string s(BN_num_bytes(b), '\0');
  BN_bn2bin(b, reinterpret_cast<uint8_t*>(&s[0]));
  return s;
}

// Differences between a loaded key and what it should be; empty if none.
inline std::string diffKey(const Jwks::Pubkey& k, const Material& m, bool crv = true) {
  auto say = [](const char* f, const std::string& got, const std::string& want) {
    return std::string(f) + " is " + quote(got, 80) + " instead of " + quote(want, 80);
  };
  if (k.kid_ != m.kid) return say("kid_", k.kid_, m.kid);
  if (k.alg_ != m.alg) return say("alg_", k.alg_, m.alg);
  if (k.kty_ != m.kty) return say("kty_", k.kty_, m.kty);
  if (crv && k.crv_ != m.crv) return say("crv_", k.crv_, m.crv);
  if ((k.rsa_ != nullptr) != (m.kty == "RSA")) return "rsa_ is wrongly set or not";
  if ((k.ec_key_ != nullptr) != (m.kty == "EC")) return "ec_key_ is wrongly set or not";
  if (k.hmac_key_ != m.k) return say("hmac_key_", k.hmac_key_, m.k);
  if (m.kty == "OKP" ? k.okp_key_raw_ != m.x : !k.okp_key_raw_.empty())
    return say("okp_key_raw_", k.okp_key_raw_, m.x);
  if (m.kty == "RSA") {
    const BIGNUM *n, *e;
    RSA_get0_key(k.rsa_.get(), &n, &e, nullptr);
    if (bnBytes(n) != m.n) return say("RSA modulus", bnBytes(n), m.n);
    if (bnBytes(e) != m.e) return say("RSA exponent", bnBytes(e), m.e);
  }
  if (m.kty == "EC") {
    const EC_GROUP* g = EC_KEY_get0_group(k.ec_key_.get());
    bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
    if (!EC_POINT_get_affine_coordinates_GFp(g, EC_KEY_get0_public_key(k.ec_key_.get()), x.get(), y.get(), nullptr))
      return "EC key has no coordinates";
    std::string name = "P-" + std::to_string(EC_GROUP_get_degree(g));
    if (name != m.crv) return say("curve", name, m.crv);
    if (bnBytes(x.get()) != m.x || bnBytes(y.get()) != m.y) return say("EC x", bnBytes(x.get()), m.x);
  }
  return "";
}

// An ECMAScript-style value that is not a string.
inline J notText(Source& s) {
  switch (s.below(6)) {
    case 0: return J::null();
    case 1: return J::boolean(s.flip());
    case 2: return genNumber(s);
    case 3: return J::array();
    case 4: return J::array({J::str("x")});
    default: return J::object();
  }
}

// A JWK with up to nf faults (which may cancel out: readJwk decides).
inline J genFaultyJwk(Source& s, size_t nf) {
  Key k = genKey(s, static_cast<Fam>(s.below(4)));
  if (s.p(150)) k.kid = s.flip() ? genKid(s) : genText(s, 12);
  if (s.p(120)) {
    switch (k.fam) {
      case Fam::kRsa: {
        static const char* v[] = {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"};
        k.alg = s.pick(v);
        break;
      }
      case Fam::kEc: k.alg = k.ec.curve == 256 ? "ES256" : k.ec.curve == 384 ? "ES384" : "ES512"; break;
      case Fam::kOct: {
        static const char* v[] = {"HS256", "HS384", "HS512"};
        k.alg = s.pick(v);
        break;
      }
      default: k.alg = "EdDSA";
    }
  }
  if (k.fam == Fam::kRsa && s.p(30)) {
    // Any odd modulus of a usual size.
    J j = jwkOf(k);
    std::string n = s.bulk(128 + s.below(4) * 32);
    n[0] |= 1;
    n.back() |= 1;
    j.set("n", J::str(b64url(n)));
    if (nf == 0) return j;
  }
  J j = s.flip() ? jwkOf(k, s) : jwkOf(k);
  static const char* kReq[4][3] = {{"n", "e", "e"}, {"x", "y", "crv"}, {"k", "k", "k"}, {"crv", "x", "x"}};
  static const char* kAlgNames[] = {"none",  "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256", "PS384",
                                    "EdDSA", "ES256K", "Ed25519", "eddsa", "hs256", "HS1",  "E",     "R",     "P", "H", "ES", "HS256 ", "rs256"};
  for (; nf > 0; --nf) {
    const char* member = kReq[static_cast<int>(k.fam)][s.below(3)];
    switch (s.weighted({3, 3, 3, 4, 2, 2, 4, 5, 1, 2})) {
      case 0: j.erase(member); break;
      case 1: j.set(member, notText(s)); break;
      case 2: {
        const J* v = j.get(member);
        if (v && v->kind == J::kStr && !v->s.empty() && std::string(member) != "crv") j.set(member, J::str(badB64(s, v->s, true)));
        break;
      }
      case 3: j.set("alg", s.p(40) ? notText(s) : J::str(s.p(20) ? s.litText(300) : s.pick(kAlgNames))); break;
      case 4: {
        static const char* v[] = {"rsa", "ec", "OCT", "okp", "", "RSA ", "EC\n", "DSA", "E", "ECDSA", "RS", "octt"};
        switch (s.below(4)) {
          case 0: j.erase("kty"); break;
          case 1: j.set("kty", notText(s)); break;
          default: j.set("kty", J::str(s.p(20) ? s.litText(300) : s.pick(v)));
        }
        break;
      }
      case 5: j.set("kty", J::str(ktyName(static_cast<Fam>(s.below(4))))); break;
      case 6: {
        static const char* v[] = {"P-256", "P-384", "P-521", "P-224", "Ed25519", "X25519", "Ed448", "", "p-256", "P-2566", "P-25", "secp256k1", "ed25519", "P-521 ", "Ed25519 "};
        if (s.p(50)) j.erase("crv");
        else j.set("crv", s.p(40) ? notText(s) : J::str(s.p(20) ? s.litText(300) : s.pick(v)));
        break;
      }
      case 7: {  // the numbers themselves
        switch (k.fam) {
          case Fam::kRsa: {
            std::string n = k.rsa().n, e = k.rsa().e;
            switch (s.below(8)) {
              case 0: n.back() = static_cast<char>(n.back() & 0xfe); break;
              case 1: n = ""; break;
              case 2: n = s.flip() ? std::string("\1") : std::string(1, '\0'); break;
              case 3: n = s.flip() ? std::string("\1\0\3", 3) : std::string("\x0f\xff", 2); break;
              case 4: n = s.bulk(2049), n[0] |= 1, n.back() |= 1; break;
              default: {
                static const std::string kE[] = {"\1", "\2", "\4", "\5", "\x11", std::string("\1\0\0", 3), std::string("\1\0\2", 3), std::string("\1\0\3", 3),
                                                 "", std::string(1, '\0'), std::string("\1\0\0\0\1", 5), std::string("\1\0\0\0\0\0\0\0\1", 9), "\7", "\xff", std::string("\3\0", 2),
                                                 std::string("\1\0\1\0", 4), std::string("\1\0\0\0\0\0\1\0\1", 9), std::string("\1\0\0\0\0\0\0\0\3", 9)};
                e = s.pick(kE);
              }
            }
            j.set("n", J::str(b64url(n)));
            j.set("e", J::str(b64url(e)));
            break;
          }
          case Fam::kEc: {
            std::string x = k.ec.x, y = k.ec.y;
            switch (s.below(9)) {
              case 0: std::swap(x, y); break;
              case 1: (s.flip() ? x : y)[s.below(x.size())] ^= static_cast<char>(1 << s.below(8)); break;
              case 2: y = x; break;
              case 3: x = std::string(x.size(), '\0'); if (s.flip()) y = x; break;
              case 4: x.resize(x.size() - 1); break;
              case 5: x = ""; break;
              case 6: {
                // The same point with x not reduced, where that fits.
                static const std::string p521 = "\x01" + std::string(1, '\xff') + std::string(64, '\xff');
                if (k.ec.curve == 521) {
                  bool fits;
                  std::string& v = s.flip() ? x : y;
                  v = bnAdd(v, p521, 66, &fits);
                } else {
                  y += std::string(1, '\0');
                }
                break;
              }
              case 7: {
                // A point of another curve.
                int cv = k.ec.curve == 256 ? 384 : 256;
                Key o = genKey(s, Fam::kEc, cv);
                x = o.ec.x;
                y = o.ec.y;
                break;
              }
              default: (s.flip() ? x : y) = s.bulk(k.ec.len());
            }
            j.set("x", J::str(b64url(x)));
            j.set("y", J::str(b64url(y)));
            break;
          }
          case Fam::kOct:
            j.set("k", J::str(""));
            break;
          default: {
            static const size_t kLens[] = {0, 1, 31, 33, 64, 16, 57};
            j.set("x", J::str(b64url(s.bulk(s.pick(kLens)))));
          }
        }
        break;
      }
      case 8: j.set("kid", notText(s)); break;
      default: {
        // Near-miss member names.
        const J* v = j.get(member);
        if (v) {
          J copy = *v;
          j.erase(member);
          std::string up = member;
          up[0] = static_cast<char>(up[0] - 32);
          j.set(s.flip() ? up : up + "x", copy);
        }
      }
    }
  }
  if (s.p(60)) s.shuffle(j.obj);
  return j;
}

}  // namespace vp
