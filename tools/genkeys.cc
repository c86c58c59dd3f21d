// Generates lib/keys.inc (run once; the output is committed).
#include <openssl/bn.h>
#include <openssl/curve25519.h>
#include <openssl/ec.h>
#include <openssl/ec_key.h>
#include <openssl/evp.h>
#include <openssl/nid.h>
#include <openssl/obj.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <stdio.h>
#include <string.h>

#include <string>
#include <vector>

static std::string hexbn(const BIGNUM* b) {
  char* s = BN_bn2hex(b);
  std::string r = s;
  OPENSSL_free(s);
  return r;
}

static std::string certFor(EVP_PKEY* k, int serial, const EVP_MD* md) {
  X509* x = X509_new();
  X509_set_version(x, 2);
  ASN1_INTEGER_set(X509_get_serialNumber(x), serial);
  ASN1_TIME_set(X509_getm_notBefore(x), 1500000000);
  ASN1_TIME_set(X509_getm_notAfter(x), 4000000000u);
  X509_set_pubkey(x, k);
  X509_NAME* n = X509_get_subject_name(x);
  X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const uint8_t*)"verif", -1, -1, 0);
  X509_set_issuer_name(x, n);
  if (!X509_sign(x, k, md)) fprintf(stderr, "sign failed\n");
  BIO* b = BIO_new(BIO_s_mem());
  PEM_write_bio_X509(b, x);
  const uint8_t* p;
  size_t len;
  BIO_mem_contents(b, &p, &len);
  std::string r((const char*)p, len);
  BIO_free(b);
  X509_free(x);
  return r;
}

static std::string lit(const std::string& s) {
  std::string r = "\"";
  for (char c : s) r += c == '\n' ? std::string("\\n") : std::string(1, c);
  return r + "\"";
}

static void rsa(const char* name, int bits, int e_, bool cert) {
  BN_CTX* ctx = BN_CTX_new();
  BIGNUM *p = BN_new(), *q = BN_new(), *n = BN_new(), *e = BN_new(), *d = BN_new(), *p1 = BN_new(), *q1 = BN_new(), *phi = BN_new(), *g = BN_new();
  BN_set_word(e, e_);
  for (;;) {
    int pb = (bits + 1) / 2, qb = bits - pb;
    BN_generate_prime_ex(p, pb, 0, nullptr, nullptr, nullptr);
    BN_generate_prime_ex(q, qb, 0, nullptr, nullptr, nullptr);
    if (BN_cmp(p, q) == 0) continue;
    if (BN_cmp(p, q) < 0) { BIGNUM* t = p; p = q; q = t; }
    BN_mul(n, p, q, ctx);
    if ((int)BN_num_bits(n) != bits) continue;
    BN_sub(p1, p, BN_value_one());
    BN_sub(q1, q, BN_value_one());
    BN_mul(phi, p1, q1, ctx);
    BN_gcd(g, phi, e, ctx);
    if (!BN_is_one(g)) continue;
    BN_mod_inverse(d, e, phi, ctx);
    break;
  }
  BIGNUM *dp = BN_new(), *dq = BN_new(), *qi = BN_new();
  BN_mod(dp, d, p1, ctx);
  BN_mod(dq, d, q1, ctx);
  BN_mod_inverse(qi, q, p, ctx);
  std::string c;
  if (cert) {
    RSA* r = RSA_new();
    if (!RSA_set0_key(r, BN_dup(n), BN_dup(e), BN_dup(d)) || !RSA_set0_factors(r, BN_dup(p), BN_dup(q)) ||
        !RSA_set0_crt_params(r, BN_dup(dp), BN_dup(dq), BN_dup(qi)))
      fprintf(stderr, "rsa set failed\n");
    if (!RSA_check_key(r)) fprintf(stderr, "check failed %s\n", name);
    EVP_PKEY* k = EVP_PKEY_new();
    EVP_PKEY_assign_RSA(k, r);
    c = certFor(k, 1, EVP_sha256());
  }
  printf("{\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",\"%s\",%s},\n", name, hexbn(n).c_str(), hexbn(e).c_str(), hexbn(d).c_str(), hexbn(p).c_str(), hexbn(q).c_str(), hexbn(dp).c_str(), hexbn(dq).c_str(), hexbn(qi).c_str(), lit(c).c_str());
}

// want: 0 any, 1 x has a leading zero byte, 2 y has
static void ec(const char* name, int nid, int want, bool cert) {
  for (;;) {
    EC_KEY* k = EC_KEY_new_by_curve_name(nid);
    EC_KEY_generate_key(k);
    const EC_GROUP* g = EC_KEY_get0_group(k);
    BIGNUM *x = BN_new(), *y = BN_new();
    EC_POINT_get_affine_coordinates_GFp(g, EC_KEY_get0_public_key(k), x, y, nullptr);
    int len = (EC_GROUP_get_degree(g) + 7) / 8;
    int lim = (len - 1) * 8;
    bool xs = (int)BN_num_bits(x) <= lim, ys = (int)BN_num_bits(y) <= lim;
    if ((want == 1 && !xs) || (want == 2 && !ys) || (want == 0 && (xs || ys) && nid != NID_secp521r1)) {
      EC_KEY_free(k);
      continue;
    }
    std::string c;
    if (cert) {
      EVP_PKEY* pk = EVP_PKEY_new();
      EVP_PKEY_assign_EC_KEY(pk, k);
      c = certFor(pk, 2, EVP_sha256());
    }
    printf("{\"%s\",%d,\"%s\",\"%s\",\"%s\",%s},\n", name, nid == NID_X9_62_prime256v1 ? 256 : nid == NID_secp384r1 ? 384 : nid == NID_secp521r1 ? 521 : 224,
           hexbn(EC_KEY_get0_private_key(k)).c_str(), hexbn(x).c_str(), hexbn(y).c_str(), lit(c).c_str());
    return;
  }
}

int main() {
  printf("// Generated by tools/genkeys.cc. Throw-away test keys.\n");
  printf("static const RsaHex kRsaHex[] = {\n");
  rsa("r2048a", 2048, 65537, true);
  rsa("r2048b", 2048, 65537, true);
  rsa("r2048c", 2048, 3, true);
  rsa("r3072", 3072, 65537, true);
  rsa("r4096", 4096, 65537, false);
  rsa("r1024", 1024, 65537, true);
  rsa("r2049", 2049, 65537, false);
  rsa("r2047", 2047, 3, false);
  rsa("r8192", 8192, 65537, false);
  printf("};\nstatic const EcHex kEcHex[] = {\n");
  ec("p256a", NID_X9_62_prime256v1, 0, true);
  ec("p256b", NID_X9_62_prime256v1, 0, false);
  ec("p256x0", NID_X9_62_prime256v1, 1, false);
  ec("p256y0", NID_X9_62_prime256v1, 2, false);
  ec("p384a", NID_secp384r1, 0, true);
  ec("p384b", NID_secp384r1, 0, false);
  ec("p384x0", NID_secp384r1, 1, false);
  ec("p521a", NID_secp521r1, 0, true);
  ec("p521b", NID_secp521r1, 0, false);
  ec("p521x0", NID_secp521r1, 1, false);
  ec("p224", NID_secp224r1, 0, false);
  printf("};\nstatic const char* const kEdSeedHex[] = {\n");
  for (int i = 0; i < 4; ++i) {
    uint8_t s[32];
    RAND_bytes(s, 32);
    printf("\"");
    for (int j = 0; j < 32; ++j) printf("%02x", s[j]);
    printf("\",\n");
  }
  printf("};\n");
}
