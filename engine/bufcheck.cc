// The crypto library is not instrumented: what it does with the buffers and
// objects given to it is told to the sanitizer here. For the address sanitizer
// they must be valid memory; for the thread sanitizer the calls count as
// reading or writing them.
#include <dlfcn.h>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/curve25519.h>
#include <openssl/digest.h>
#include <openssl/ec.h>
#include <openssl/ec_key.h>
#include <openssl/ecdsa.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/mem.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <stdio.h>
#include <stdlib.h>

namespace {
template <class F>
F next(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    fprintf(stderr, "SUMMARY: harness: no %s\n", name);
    abort();
  }
  return reinterpret_cast<F>(p);
}
}  // namespace

#if __has_feature(thread_sanitizer)
extern "C" void __tsan_read_range(void* p, unsigned long n);
extern "C" void __tsan_write_range(void* p, unsigned long n);
namespace {
void readsBuf(const char*, const void* p, size_t n, const char*) {
  if (p && n) __tsan_read_range(const_cast<void*>(p), n);
}
void writesBuf(const char*, void* p, size_t n, const char*) {
  if (p && n) __tsan_write_range(p, n);
}
// Reference counts of the objects are the crypto library's own business.
void aliveObj(const char*, const void*, const char*) {}
void changesObj(const char*, const void* p, const char*) {
  if (p) __tsan_write_range(const_cast<void*>(p), 1);
}
}  // namespace
#else
#include <sanitizer/asan_interface.h>
namespace {
void readsBuf(const char* f, const void* p, size_t n, const char* what) {
  if (!p || !n) return;
  void* bad = __asan_region_is_poisoned(const_cast<void*>(p), n);
  if (!bad) return;
  fprintf(stderr, "SUMMARY: buffer of %zu bytes given to %s (%s) reaches into memory that is not its own, at byte %zu\n", n, f, what,
          static_cast<size_t>(static_cast<char*>(bad) - static_cast<const char*>(p)));
  fflush(stderr);
  // The stack comes from the sanitizer.
  volatile char c = *static_cast<volatile char*>(bad);
  (void)c;
  abort();
}
void writesBuf(const char* f, void* p, size_t n, const char* what) { readsBuf(f, p, n, what); }
void aliveObj(const char* f, const void* p, const char* what) { readsBuf(f, p, 1, what); }
void changesObj(const char* f, const void* p, const char* what) { readsBuf(f, p, 1, what); }
}  // namespace
#endif
#define REAL(f) static auto real = next<decltype(&f)>(#f)
#define IN(p, n) readsBuf(__func__, p, n, #p)
#define OUT(p, n) writesBuf(__func__, p, n, #p)
#define READS(p) readsBuf(__func__, p, 1, #p)
#define ALIVE(p) aliveObj(__func__, p, #p)
#define CHANGES(p) changesObj(__func__, p, #p)

extern "C" {
int CRYPTO_memcmp(const void* a, const void* b, size_t len) {
  REAL(CRYPTO_memcmp);
  IN(a, len);
  IN(b, len);
  return real(a, b, len);
}
uint8_t* HMAC(const EVP_MD* md, const void* key, size_t key_len, const uint8_t* data, size_t data_len, uint8_t* out, unsigned int* out_len) {
  REAL(HMAC);
  IN(key, key_len);
  IN(data, data_len);
  OUT(out, EVP_MD_size(md));
  return real(md, key, key_len, data, data_len, out, out_len);
}
int HMAC_Init_ex(HMAC_CTX* ctx, const void* key, size_t key_len, const EVP_MD* md, ENGINE* impl) {
  REAL(HMAC_Init_ex);
  CHANGES(ctx);
  IN(key, key_len);
  return real(ctx, key, key_len, md, impl);
}
int HMAC_Update(HMAC_CTX* ctx, const uint8_t* data, size_t len) {
  REAL(HMAC_Update);
  CHANGES(ctx);
  IN(data, len);
  return real(ctx, data, len);
}
int HMAC_Final(HMAC_CTX* ctx, uint8_t* out, unsigned int* out_len) {
  REAL(HMAC_Final);
  CHANGES(ctx);
  OUT(out, HMAC_size(ctx));
  return real(ctx, out, out_len);
}
int ED25519_verify(const uint8_t* message, size_t len, const uint8_t sig[64], const uint8_t key[32]) {
  REAL(ED25519_verify);
  IN(message, len);
  IN(sig, 64);
  IN(key, 32);
  return real(message, len, sig, key);
}
BIGNUM* BN_bin2bn(const uint8_t* in, size_t len, BIGNUM* ret) {
  REAL(BN_bin2bn);
  CHANGES(ret);
  IN(in, len);
  return real(in, len, ret);
}
int EVP_DigestUpdate(EVP_MD_CTX* ctx, const void* data, size_t len) {
  REAL(EVP_DigestUpdate);
  CHANGES(ctx);
  IN(data, len);
  return real(ctx, data, len);
}
int EVP_DigestFinal(EVP_MD_CTX* ctx, uint8_t* out, unsigned int* out_size) {
  REAL(EVP_DigestFinal);
  CHANGES(ctx);
  OUT(out, EVP_MD_CTX_size(ctx));
  return real(ctx, out, out_size);
}
int EVP_DigestFinal_ex(EVP_MD_CTX* ctx, uint8_t* out, unsigned int* out_size) {
  REAL(EVP_DigestFinal_ex);
  CHANGES(ctx);
  OUT(out, EVP_MD_CTX_size(ctx));
  return real(ctx, out, out_size);
}
int EVP_Digest(const void* data, size_t len, uint8_t* out, unsigned int* out_size, const EVP_MD* type, ENGINE* impl) {
  REAL(EVP_Digest);
  IN(data, len);
  OUT(out, EVP_MD_size(type));
  return real(data, len, out, out_size, type, impl);
}
int EVP_DigestVerifyUpdate(EVP_MD_CTX* ctx, const void* data, size_t len) {
  REAL(EVP_DigestVerifyUpdate);
  CHANGES(ctx);
  IN(data, len);
  return real(ctx, data, len);
}
int EVP_DigestVerifyFinal(EVP_MD_CTX* ctx, const uint8_t* sig, size_t sig_len) {
  REAL(EVP_DigestVerifyFinal);
  CHANGES(ctx);
  IN(sig, sig_len);
  return real(ctx, sig, sig_len);
}
int EVP_DigestVerify(EVP_MD_CTX* ctx, const uint8_t* sig, size_t sig_len, const uint8_t* data, size_t len) {
  REAL(EVP_DigestVerify);
  CHANGES(ctx);
  IN(sig, sig_len);
  IN(data, len);
  return real(ctx, sig, sig_len, data, len);
}
int ECDSA_do_verify(const uint8_t* digest, size_t digest_len, const ECDSA_SIG* sig, const EC_KEY* key) {
  REAL(ECDSA_do_verify);
  READS(sig);
  ALIVE(key);
  IN(digest, digest_len);
  return real(digest, digest_len, sig, key);
}
int ECDSA_verify(int type, const uint8_t* digest, size_t digest_len, const uint8_t* sig, size_t sig_len, const EC_KEY* key) {
  REAL(ECDSA_verify);
  ALIVE(key);
  IN(digest, digest_len);
  IN(sig, sig_len);
  return real(type, digest, digest_len, sig, sig_len, key);
}
int RSA_verify(int hash_nid, const uint8_t* digest, size_t digest_len, const uint8_t* sig, size_t sig_len, RSA* rsa) {
  REAL(RSA_verify);
  ALIVE(rsa);
  IN(digest, digest_len);
  IN(sig, sig_len);
  return real(hash_nid, digest, digest_len, sig, sig_len, rsa);
}
BIO* BIO_new_mem_buf(const void* buf, ossl_ssize_t len) {
  REAL(BIO_new_mem_buf);
  if (len > 0) IN(buf, static_cast<size_t>(len));
  return real(buf, len);
}
int BIO_write(BIO* bio, const void* data, int len) {
  REAL(BIO_write);
  CHANGES(bio);
  if (len > 0) IN(data, static_cast<size_t>(len));
  return real(bio, data, len);
}
int EVP_PKEY_get_raw_public_key(const EVP_PKEY* pkey, uint8_t* out, size_t* out_len) {
  REAL(EVP_PKEY_get_raw_public_key);
  ALIVE(pkey);
  if (out) OUT(out, *out_len);
  return real(pkey, out, out_len);
}
EVP_PKEY* EVP_PKEY_new_raw_public_key(int type, ENGINE* unused, const uint8_t* in, size_t len) {
  REAL(EVP_PKEY_new_raw_public_key);
  IN(in, len);
  return real(type, unused, in, len);
}
// Objects.
int EVP_DigestInit(EVP_MD_CTX* ctx, const EVP_MD* type) {
  REAL(EVP_DigestInit);
  CHANGES(ctx);
  return real(ctx, type);
}
int EVP_DigestInit_ex(EVP_MD_CTX* ctx, const EVP_MD* type, ENGINE* engine) {
  REAL(EVP_DigestInit_ex);
  CHANGES(ctx);
  return real(ctx, type, engine);
}
int EVP_DigestVerifyInit(EVP_MD_CTX* ctx, EVP_PKEY_CTX** pctx, const EVP_MD* type, ENGINE* e, EVP_PKEY* pkey) {
  REAL(EVP_DigestVerifyInit);
  CHANGES(ctx);
  ALIVE(pkey);
  return real(ctx, pctx, type, e, pkey);
}
void EVP_MD_CTX_free(EVP_MD_CTX* ctx) {
  REAL(EVP_MD_CTX_free);
  CHANGES(ctx);
  real(ctx);
}
int EVP_PKEY_set1_RSA(EVP_PKEY* pkey, RSA* key) {
  REAL(EVP_PKEY_set1_RSA);
  CHANGES(pkey);
  ALIVE(key);
  return real(pkey, key);
}
int EVP_PKEY_set1_EC_KEY(EVP_PKEY* pkey, EC_KEY* key) {
  REAL(EVP_PKEY_set1_EC_KEY);
  CHANGES(pkey);
  ALIVE(key);
  return real(pkey, key);
}
RSA* EVP_PKEY_get1_RSA(const EVP_PKEY* pkey) {
  REAL(EVP_PKEY_get1_RSA);
  ALIVE(pkey);
  return real(pkey);
}
EC_KEY* EVP_PKEY_get1_EC_KEY(const EVP_PKEY* pkey) {
  REAL(EVP_PKEY_get1_EC_KEY);
  ALIVE(pkey);
  return real(pkey);
}
int EVP_PKEY_id(const EVP_PKEY* pkey) {
  REAL(EVP_PKEY_id);
  ALIVE(pkey);
  return real(pkey);
}
void EVP_PKEY_free(EVP_PKEY* pkey) {
  REAL(EVP_PKEY_free);
  ALIVE(pkey);
  real(pkey);
}
void RSA_free(RSA* rsa) {
  REAL(RSA_free);
  ALIVE(rsa);
  real(rsa);
}
unsigned RSA_size(const RSA* rsa) {
  REAL(RSA_size);
  ALIVE(rsa);
  return real(rsa);
}
const BIGNUM* RSA_get0_n(const RSA* rsa) {
  REAL(RSA_get0_n);
  ALIVE(rsa);
  return real(rsa);
}
int RSA_check_key(const RSA* rsa) {
  REAL(RSA_check_key);
  ALIVE(rsa);
  return real(rsa);
}
int RSA_set0_key(RSA* rsa, BIGNUM* n, BIGNUM* e, BIGNUM* d) {
  REAL(RSA_set0_key);
  CHANGES(rsa);
  READS(n);
  READS(e);
  READS(d);
  return real(rsa, n, e, d);
}
void EC_KEY_free(EC_KEY* key) {
  REAL(EC_KEY_free);
  ALIVE(key);
  real(key);
}
const EC_GROUP* EC_KEY_get0_group(const EC_KEY* key) {
  REAL(EC_KEY_get0_group);
  ALIVE(key);
  return real(key);
}
int EC_KEY_set_public_key_affine_coordinates(EC_KEY* key, const BIGNUM* x, const BIGNUM* y) {
  REAL(EC_KEY_set_public_key_affine_coordinates);
  CHANGES(key);
  READS(x);
  READS(y);
  return real(key, x, y);
}
void BN_free(BIGNUM* bn) {
  REAL(BN_free);
  CHANGES(bn);
  real(bn);
}
int BN_cmp_word(const BIGNUM* a, BN_ULONG b) {
  REAL(BN_cmp_word);
  READS(a);
  return real(a, b);
}
void ECDSA_SIG_free(ECDSA_SIG* sig) {
  REAL(ECDSA_SIG_free);
  CHANGES(sig);
  real(sig);
}
int BIO_free(BIO* bio) {
  REAL(BIO_free);
  ALIVE(bio);
  return real(bio);
}
X509* PEM_read_bio_X509(BIO* bp, X509** x, pem_password_cb* cb, void* u) {
  REAL(PEM_read_bio_X509);
  CHANGES(bp);
  return real(bp, x, cb, u);
}
EVP_PKEY* PEM_read_bio_PUBKEY(BIO* bp, EVP_PKEY** x, pem_password_cb* cb, void* u) {
  REAL(PEM_read_bio_PUBKEY);
  CHANGES(bp);
  return real(bp, x, cb, u);
}
EVP_PKEY* X509_get_pubkey(X509* x509) {
  REAL(X509_get_pubkey);
  ALIVE(x509);
  return real(x509);
}
void X509_free(X509* x509) {
  REAL(X509_free);
  ALIVE(x509);
  real(x509);
}
}
