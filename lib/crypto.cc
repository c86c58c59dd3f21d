#include "crypto.h"

#include <openssl/bn.h>
#include <openssl/bio.h>
#include <openssl/bytestring.h>
#include <openssl/curve25519.h>
#include <openssl/ec.h>
#include <openssl/ec_key.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/mem.h>
#include <openssl/nid.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace vp {
namespace {
struct RsaHex {
  const char *name, *n, *e, *d, *p, *q, *dp, *dq, *qi, *cert;
};
struct EcHex {
  const char* name;
  int curve;
  const char *d, *x, *y, *cert;
};
#include "keys.inc"
#include "nonces.inc"

using Bn = bssl::UniquePtr<BIGNUM>;
Bn bn(const std::string& s) {
  return Bn(BN_bin2bn(reinterpret_cast<const uint8_t*>(s.data()), s.size(), nullptr));
}
std::string str(const BIGNUM* b, size_t len) {
  std::string r(len, '\0');
  if (!BN_bn2bin_padded(reinterpret_cast<uint8_t*>(&r[0]), len, b)) return "";
  return r;
}
std::string strip(std::string s) {
  size_t i = 0;
  while (i < s.size() && s[i] == 0) ++i;
  return s.substr(i);
}
std::string padTo(std::string s, size_t n) {
  s = strip(s);
  return s.size() < n ? std::string(n - s.size(), '\0') + s : s;
}
int nid(int curve) {
  switch (curve) {
    case 224: return NID_secp224r1;
    case 256: return NID_X9_62_prime256v1;
    case 384: return NID_secp384r1;
    default: return NID_secp521r1;
  }
}
const EC_GROUP* group(int curve) {
  static const EC_GROUP* g[4] = {
      EC_GROUP_new_by_curve_name(NID_secp224r1), EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1),
      EC_GROUP_new_by_curve_name(NID_secp384r1), EC_GROUP_new_by_curve_name(NID_secp521r1)};
  return g[curve == 224 ? 0 : curve == 256 ? 1 : curve == 384 ? 2 : 3];
}
BN_CTX* ctx() {
  static thread_local bssl::UniquePtr<BN_CTX> c(BN_CTX_new());
  return c.get();
}
std::string pemOf(EVP_PKEY* k) {
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_PUBKEY(b.get(), k);
  const uint8_t* p;
  size_t n;
  BIO_mem_contents(b.get(), &p, &n);
  return std::string(reinterpret_cast<const char*>(p), n);
}
std::string derOf(EVP_PKEY* k) {
  CBB cbb;
  CBB_init(&cbb, 64);
  EVP_marshal_public_key(&cbb, k);
  uint8_t* p;
  size_t n;
  CBB_finish(&cbb, &p, &n);
  std::string r(reinterpret_cast<char*>(p), n);
  OPENSSL_free(p);
  return r;
}
[[noreturn]] void die(const char* m) {
  fprintf(stderr, "harness error: %s\n", m);
  abort();
}
}  // namespace

std::string fromHex(const std::string& s) {
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}
std::string toHex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}

static std::string b64(const std::string& s, const char* t, bool pad) {
  std::string r;
  size_t i = 0;
  for (; i + 2 < s.size(); i += 3) {
    unsigned v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8 | (uint8_t)s[i + 2];
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    r += t[v >> 6 & 63];
    r += t[v & 63];
  }
  if (i + 1 == s.size()) {
    unsigned v = (uint8_t)s[i] << 16;
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    if (pad) r += "==";
  } else if (i + 2 == s.size()) {
    unsigned v = (uint8_t)s[i] << 16 | (uint8_t)s[i + 1] << 8;
    r += t[v >> 18];
    r += t[v >> 12 & 63];
    r += t[v >> 6 & 63];
    if (pad) r += "=";
  }
  return r;
}
std::string b64url(const std::string& s) {
  return b64(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_", false);
}
std::string b64std(const std::string& s) {
  return b64(s, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", true);
}
bool b64urlDecodeStrict(const std::string& s, std::string* out) {
  out->clear();
  unsigned acc = 0;
  int bits = 0;
  for (char c : s) {
    int v;
    if (c >= 'A' && c <= 'Z') v = c - 'A';
    else if (c >= 'a' && c <= 'z') v = c - 'a' + 26;
    else if (c >= '0' && c <= '9') v = c - '0' + 52;
    else if (c == '-') v = 62;
    else if (c == '_') v = 63;
    else return false;
    acc = acc << 6 | v;
    bits += 6;
    if (bits >= 8) {
      bits -= 8;
      out->push_back(static_cast<char>(acc >> bits));
      acc &= (1u << bits) - 1;
    }
  }
  return s.size() % 4 != 1 && acc == 0;
}

std::string sha(int bits, const std::string& m) {
  uint8_t d[64];
  const uint8_t* p = reinterpret_cast<const uint8_t*>(m.data());
  if (bits == 256) SHA256(p, m.size(), d);
  else if (bits == 384) SHA384(p, m.size(), d);
  else SHA512(p, m.size(), d);
  return std::string(reinterpret_cast<char*>(d), bits / 8);
}
std::string hmac(int bits, const std::string& key, const std::string& m) {
  size_t block = bits == 256 ? 64 : 128;
  std::string k = key.size() > block ? sha(bits, key) : key;
  k.resize(block, '\0');
  std::string i = k, o = k;
  for (auto& c : i) c ^= 0x36;
  for (auto& c : o) c ^= 0x5c;
  return sha(bits, o + sha(bits, i + m));
}

const std::vector<RsaKey>& rsaKeys() {
  static const std::vector<RsaKey>* v = [] {
    auto* r = new std::vector<RsaKey>;
    for (auto& h : kRsaHex) {
      RsaKey k;
      k.name = h.name;
      k.n = strip(fromHex(h.n)), k.e = strip(fromHex(h.e)), k.d = strip(fromHex(h.d));
      k.p = strip(fromHex(h.p)), k.q = strip(fromHex(h.q)), k.dp = strip(fromHex(h.dp));
      k.dq = strip(fromHex(h.dq)), k.qi = strip(fromHex(h.qi));
      k.bits = BN_num_bits(bn(k.n).get());
      k.cert = h.cert;
      bssl::UniquePtr<RSA> rsa(RSA_new());
      if (!RSA_set0_key(rsa.get(), bn(k.n).release(), bn(k.e).release(), nullptr)) die("rsa");
      bssl::UniquePtr<EVP_PKEY> pk(EVP_PKEY_new());
      EVP_PKEY_set1_RSA(pk.get(), rsa.get());
      k.pem = pemOf(pk.get());
      k.spki = derOf(pk.get());
      r->push_back(k);
    }
    ERR_clear_error();
    return r;
  }();
  return *v;
}
namespace {
void ecEncode(EcKey* k) {
  bssl::UniquePtr<EC_KEY> ec(EC_KEY_new_by_curve_name(nid(k->curve)));
  if (!EC_KEY_set_public_key_affine_coordinates(ec.get(), bn(k->x).get(), bn(k->y).get())) die("ec");
  bssl::UniquePtr<EVP_PKEY> pk(EVP_PKEY_new());
  EVP_PKEY_set1_EC_KEY(pk.get(), ec.get());
  k->pem = pemOf(pk.get());
  k->spki = derOf(pk.get());
}
}  // namespace
EcKey ecFromScalar(int curve, const std::string& d) {
  const EC_GROUP* g = group(curve);
  EcKey k;
  k.name = "made";
  k.curve = curve;
  Bn b = bn(d);
  BN_nnmod(b.get(), b.get(), EC_GROUP_get0_order(g), ctx());
  if (BN_is_zero(b.get())) BN_one(b.get());
  k.d = str(b.get(), k.len());
  bssl::UniquePtr<EC_POINT> P(EC_POINT_new(g));
  EC_POINT_mul(g, P.get(), b.get(), nullptr, nullptr, ctx());
  Bn x(BN_new()), y(BN_new());
  EC_POINT_get_affine_coordinates_GFp(g, P.get(), x.get(), y.get(), ctx());
  k.x = str(x.get(), k.len());
  k.y = str(y.get(), k.len());
  ecEncode(&k);
  return k;
}
const std::vector<EcKey>& ecKeys() {
  static const std::vector<EcKey>* v = [] {
    auto* r = new std::vector<EcKey>;
    for (auto& h : kEcHex) {
      EcKey k;
      k.name = h.name;
      k.curve = h.curve;
      k.d = padTo(fromHex(h.d), k.len());
      k.x = padTo(fromHex(h.x), k.len());
      k.y = padTo(fromHex(h.y), k.len());
      k.cert = h.cert;
      ecEncode(&k);
      r->push_back(k);
    }
    ERR_clear_error();
    return r;
  }();
  return *v;
}
const std::vector<EdKey>& edKeys() {
  static const std::vector<EdKey>* v = [] {
    auto* r = new std::vector<EdKey>;
    for (auto& h : kEdSeedHex) {
      EdKey k;
      std::string seed = fromHex(h);
      uint8_t pub[32], priv[64];
      ED25519_keypair_from_seed(pub, priv, reinterpret_cast<const uint8_t*>(seed.data()));
      k.pub.assign(reinterpret_cast<char*>(pub), 32);
      k.priv.assign(reinterpret_cast<char*>(priv), 64);
      bssl::UniquePtr<EVP_PKEY> pk(EVP_PKEY_new_raw_public_key(EVP_PKEY_ED25519, nullptr, pub, 32));
      k.pem = pemOf(pk.get());
      k.spki = derOf(pk.get());
      r->push_back(k);
    }
    ERR_clear_error();
    return r;
  }();
  return *v;
}

std::string rsaPrivate(const RsaKey& k, const std::string& em) {
  Bn m = bn(em), p = bn(k.p), q = bn(k.q), dp = bn(k.dp), dq = bn(k.dq), qi = bn(k.qi);
  Bn m1(BN_new()), m2(BN_new()), t(BN_new()), h(BN_new()), n = bn(k.n);
  if (BN_cmp(m.get(), n.get()) >= 0) return "";
  BN_mod(t.get(), m.get(), p.get(), ctx());
  BN_mod_exp(m1.get(), t.get(), dp.get(), p.get(), ctx());
  BN_mod(t.get(), m.get(), q.get(), ctx());
  BN_mod_exp(m2.get(), t.get(), dq.get(), q.get(), ctx());
  BN_mod_sub(t.get(), m1.get(), m2.get(), p.get(), ctx());
  BN_mod_mul(h.get(), t.get(), qi.get(), p.get(), ctx());
  BN_mul(t.get(), h.get(), q.get(), ctx());
  BN_add(t.get(), t.get(), m2.get());
  return str(t.get(), k.len());
}
std::string rsaPublic(const std::string& n, const std::string& e, const std::string& s) {
  Bn bnn = bn(n), be = bn(e), bs = bn(s), r(BN_new());
  size_t len = BN_num_bytes(bnn.get());
  if (s.size() != len || BN_cmp(bs.get(), bnn.get()) >= 0) return "";
  if (!BN_mod_exp(r.get(), bs.get(), be.get(), bnn.get(), ctx())) return "";
  return str(r.get(), len);
}
std::string emsaPkcs1(int hash, const std::string& digest, size_t len) {
  const char* pre = hash == 256   ? "3031300d060960864801650304020105000420"
                    : hash == 384 ? "3041300d060960864801650304020205000430"
                                  : "3051300d060960864801650304020305000440";
  std::string t = fromHex(pre) + digest;
  if (len < t.size() + 11) return "";
  return std::string("\x00\x01", 2) + std::string(len - t.size() - 3, '\xff') +
         std::string(1, '\0') + t;
}
static std::string mgf1(int hash, const std::string& seed, size_t n) {
  std::string r;
  for (uint32_t i = 0; r.size() < n; ++i) {
    char c[4] = {char(i >> 24), char(i >> 16), char(i >> 8), char(i)};
    r += sha(hash, seed + std::string(c, 4));
  }
  return r.substr(0, n);
}
std::string emsaPss(int hash, const std::string& digest, int em_bits, const std::string& salt) {
  size_t len = (em_bits + 7) / 8, h = hash / 8;
  if (len < h + salt.size() + 2) return "";
  std::string H = sha(hash, std::string(8, '\0') + digest + salt);
  std::string db = std::string(len - salt.size() - h - 2, '\0') + '\x01' + salt;
  std::string mask = mgf1(hash, H, db.size());
  for (size_t i = 0; i < db.size(); ++i) db[i] ^= mask[i];
  db[0] &= 0xff >> (8 * len - em_bits);
  return db + H + '\xbc';
}
std::string signPkcs1(const RsaKey& k, int hash, const std::string& m) {
  std::string em = emsaPkcs1(hash, sha(hash, m), k.len());
  return em.empty() ? "" : rsaPrivate(k, em);
}
std::string signPss(const RsaKey& k, int hash, const std::string& m, const std::string& salt) {
  std::string em = emsaPss(hash, sha(hash, m), k.bits - 1, salt);
  return em.empty() ? "" : rsaPrivate(k, em);
}
bool pssFits(const RsaKey& k, int hash, size_t salt_len) {
  return (k.bits - 1 + 7) / 8 >= (int)(hash / 8 + salt_len + 2);
}
bool verifyPkcs1(const std::string& n, const std::string& e, int hash, const std::string& m,
                 const std::string& sig) {
  std::string em = rsaPublic(n, e, sig);
  return !em.empty() && em == emsaPkcs1(hash, sha(hash, m), em.size());
}
bool verifyPss(const std::string& n, const std::string& e, int hash, const std::string& m,
               const std::string& sig, int* salt_len) {
  std::string em = rsaPublic(n, e, sig);
  if (em.empty()) return false;
  int em_bits = BN_num_bits(bn(n).get()) - 1;
  size_t len = (em_bits + 7) / 8, h = hash / 8;
  if (em.size() > len) {
    if (em[0] != 0) return false;
    em = em.substr(em.size() - len);
  }
  if (len < h + 2 || (uint8_t)em.back() != 0xbc) return false;
  std::string db = em.substr(0, len - h - 1), H = em.substr(len - h - 1, h);
  if ((uint8_t)db[0] & ~(0xff >> (8 * len - em_bits)) & 0xff) return false;
  std::string mask = mgf1(hash, H, db.size());
  for (size_t i = 0; i < db.size(); ++i) db[i] ^= mask[i];
  db[0] &= 0xff >> (8 * len - em_bits);
  size_t i = 0;
  while (i < db.size() && db[i] == 0) ++i;
  if (i == db.size() || db[i] != 1) return false;
  std::string salt = db.substr(i + 1);
  *salt_len = salt.size();
  return sha(hash, std::string(8, '\0') + sha(hash, m) + salt) == H;
}

static Bn digestToBn(const EC_GROUP* g, const std::string& digest) {
  Bn e = bn(digest);
  int nb = BN_num_bits(EC_GROUP_get0_order(g));
  int db = digest.size() * 8;
  if (db > nb) BN_rshift(e.get(), e.get(), db - nb);
  return e;
}
std::string ecOrder(int curve) {
  const BIGNUM* n = EC_GROUP_get0_order(group(curve));
  return str(n, (curve + 7) / 8);
}
std::string signEcdsa(const EcKey& k, int hash, const std::string& m, const std::string& nonce) {
  const EC_GROUP* g = group(k.curve);
  const BIGNUM* n = EC_GROUP_get0_order(g);
  Bn kk = bn(nonce), d = bn(k.d), e = digestToBn(g, sha(hash, m));
  BN_nnmod(kk.get(), kk.get(), n, ctx());
  if (BN_is_zero(kk.get())) BN_one(kk.get());
  for (;;) {
    bssl::UniquePtr<EC_POINT> P(EC_POINT_new(g));
    EC_POINT_mul(g, P.get(), kk.get(), nullptr, nullptr, ctx());
    Bn x(BN_new()), r(BN_new()), s(BN_new()), t(BN_new());
    EC_POINT_get_affine_coordinates_GFp(g, P.get(), x.get(), nullptr, ctx());
    BN_nnmod(r.get(), x.get(), n, ctx());
    BN_mod_mul(t.get(), r.get(), d.get(), n, ctx());
    BN_mod_add(t.get(), t.get(), e.get(), n, ctx());
    Bn ki(BN_mod_inverse(nullptr, kk.get(), n, ctx()));
    BN_mod_mul(s.get(), ki.get(), t.get(), n, ctx());
    if (!BN_is_zero(r.get()) && !BN_is_zero(s.get()))
      return str(r.get(), k.len()) + str(s.get(), k.len());
    BN_add_word(kk.get(), 1);
    BN_nnmod(kk.get(), kk.get(), n, ctx());
    if (BN_is_zero(kk.get())) BN_one(kk.get());
  }
}
EcKey ecKeyForSignature(int curve, int hash, const std::string& m, const std::string& nonce,
                        const std::string& sval, std::string* sig) {
  // d = (s k - e) / r
  const EC_GROUP* g = group(curve);
  const BIGNUM* n = EC_GROUP_get0_order(g);
  Bn k = bn(nonce), s = bn(sval), e = digestToBn(g, sha(hash, m));
  BN_nnmod(k.get(), k.get(), n, ctx());
  BN_nnmod(s.get(), s.get(), n, ctx());
  BN_nnmod(e.get(), e.get(), n, ctx());
  if (BN_is_zero(k.get())) BN_one(k.get());
  if (BN_is_zero(s.get())) BN_one(s.get());
  bssl::UniquePtr<EC_POINT> P(EC_POINT_new(g));
  EC_POINT_mul(g, P.get(), k.get(), nullptr, nullptr, ctx());
  Bn x(BN_new()), r(BN_new()), t(BN_new());
  EC_POINT_get_affine_coordinates_GFp(g, P.get(), x.get(), nullptr, ctx());
  BN_nnmod(r.get(), x.get(), n, ctx());
  if (BN_is_zero(r.get())) die("nonce");
  BN_mod_mul(t.get(), s.get(), k.get(), n, ctx());
  BN_mod_sub(t.get(), t.get(), e.get(), n, ctx());
  Bn ri(BN_mod_inverse(nullptr, r.get(), n, ctx()));
  BN_mod_mul(t.get(), t.get(), ri.get(), n, ctx());
  if (BN_is_zero(t.get())) die("d");
  EcKey key = ecFromScalar(curve, str(t.get(), (curve + 7) / 8));
  *sig = str(r.get(), key.len()) + str(s.get(), key.len());
  return key;
}
std::string leadingZeroNonce(int curve, size_t i) {
  std::vector<unsigned> v;
  for (auto& e : kNonces)
    if (e.curve == curve) v.push_back(e.nonce);
  unsigned x = v[i % v.size()];
  std::string o;
  for (int b = 24; b >= 0; b -= 8) o += static_cast<char>(x >> b);
  return o;
}
bool onCurve(int curve, const std::string& x, const std::string& y) {
  const EC_GROUP* g = group(curve);
  Bn p(BN_new()), a(BN_new()), b(BN_new()), bx = bn(x), by = bn(y), l(BN_new()), r(BN_new());
  EC_GROUP_get_curve_GFp(g, p.get(), a.get(), b.get(), ctx());
  if (BN_cmp(bx.get(), p.get()) >= 0 || BN_cmp(by.get(), p.get()) >= 0) return false;
  BN_mod_sqr(l.get(), by.get(), p.get(), ctx());
  BN_mod_sqr(r.get(), bx.get(), p.get(), ctx());
  BN_mod_add(r.get(), r.get(), a.get(), p.get(), ctx());
  BN_mod_mul(r.get(), r.get(), bx.get(), p.get(), ctx());
  BN_mod_add(r.get(), r.get(), b.get(), p.get(), ctx());
  return BN_cmp(l.get(), r.get()) == 0;
}
bool verifyEcdsa(int curve, const std::string& x, const std::string& y, int hash,
                 const std::string& m, const std::string& sig) {
  size_t len = (curve + 7) / 8;
  if (sig.size() != 2 * len) return false;
  const EC_GROUP* g = group(curve);
  const BIGNUM* n = EC_GROUP_get0_order(g);
  Bn r = bn(sig.substr(0, len)), s = bn(sig.substr(len));
  if (BN_is_zero(r.get()) || BN_is_zero(s.get()) || BN_cmp(r.get(), n) >= 0 || BN_cmp(s.get(), n) >= 0)
    return false;
  Bn e = digestToBn(g, sha(hash, m));
  Bn si(BN_mod_inverse(nullptr, s.get(), n, ctx())), u1(BN_new()), u2(BN_new());
  BN_nnmod(e.get(), e.get(), n, ctx());
  BN_mod_mul(u1.get(), e.get(), si.get(), n, ctx());
  BN_mod_mul(u2.get(), r.get(), si.get(), n, ctx());
  bssl::UniquePtr<EC_POINT> Q(EC_POINT_new(g)), R(EC_POINT_new(g));
  if (!EC_POINT_set_affine_coordinates_GFp(g, Q.get(), bn(x).get(), bn(y).get(), ctx())) {
    ERR_clear_error();
    return false;
  }
  EC_POINT_mul(g, R.get(), u1.get(), Q.get(), u2.get(), ctx());
  if (EC_POINT_is_at_infinity(g, R.get())) return false;
  Bn X(BN_new());
  EC_POINT_get_affine_coordinates_GFp(g, R.get(), X.get(), nullptr, ctx());
  BN_nnmod(X.get(), X.get(), n, ctx());
  return BN_cmp(X.get(), r.get()) == 0;
}
std::string bnAdd(const std::string& a, const std::string& b, size_t len, bool* fits) {
  Bn x = bn(a), y = bn(b);
  BN_add(x.get(), x.get(), y.get());
  *fits = BN_num_bytes(x.get()) <= len;
  return *fits ? str(x.get(), len) : "";
}
std::string bnSub(const std::string& a, const std::string& b, size_t len) {
  Bn x = bn(a), y = bn(b);
  BN_sub(x.get(), x.get(), y.get());
  return BN_is_negative(x.get()) ? std::string(len, '\0') : str(x.get(), len);
}

std::string signEd(const EdKey& k, const std::string& m) {
  uint8_t s[64];
  ED25519_sign(s, reinterpret_cast<const uint8_t*>(m.data()), m.size(),
               reinterpret_cast<const uint8_t*>(k.priv.data()));
  return std::string(reinterpret_cast<char*>(s), 64);
}
bool verifyEd(const std::string& pub, const std::string& m, const std::string& sig) {
  if (sig.size() != 64 || pub.size() != 32) return false;
  bool ok = ED25519_verify(reinterpret_cast<const uint8_t*>(m.data()), m.size(),
                           reinterpret_cast<const uint8_t*>(sig.data()),
                           reinterpret_cast<const uint8_t*>(pub.data())) == 1;
  ERR_clear_error();
  return ok;
}
}  // namespace vp
