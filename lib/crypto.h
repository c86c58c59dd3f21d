// Key pool, deterministic signing and an independent reference verifier
// (RFC 8017, RFC 7518, RFC 8037) on big-number and curve primitives.
#pragma once
#include <stdint.h>

#include <string>
#include <vector>

namespace vp {

std::string b64url(const std::string& s);   // no padding
std::string b64std(const std::string& s);   // padded
bool b64urlDecodeStrict(const std::string& s, std::string* out);
std::string fromHex(const std::string& s);
std::string toHex(const std::string& s);

std::string sha(int bits, const std::string& m);  // 256, 384, 512
std::string hmac(int bits, const std::string& key, const std::string& m);

struct RsaKey {
  std::string name;
  int bits;
  std::string n, e, d, p, q, dp, dq, qi;  // big-endian, no leading zeros
  std::string cert;                       // PEM or empty
  std::string pem;                        // SubjectPublicKeyInfo
  std::string spki;                       // DER
  size_t len() const { return (bits + 7) / 8; }
};
struct EcKey {
  std::string name;
  int curve;            // 224, 256, 384, 521
  std::string d, x, y;  // fixed length
  std::string cert, pem, spki;
  size_t len() const { return (curve + 7) / 8; }
};
struct EdKey {
  std::string priv, pub;  // 64, 32 bytes
  std::string pem, spki;
};

const std::vector<RsaKey>& rsaKeys();
const std::vector<EcKey>& ecKeys();  // the last one is P-224
const std::vector<EdKey>& edKeys();

// RSA: raw private operation and encodings.
std::string rsaPrivate(const RsaKey& k, const std::string& em);
// s^e mod n as k bytes; empty if s is out of range
std::string rsaPublic(const std::string& n, const std::string& e, const std::string& s);
std::string emsaPkcs1(int hash, const std::string& digest, size_t len);
std::string emsaPss(int hash, const std::string& digest, int em_bits,
                    const std::string& salt);  // empty if too short
std::string signPkcs1(const RsaKey& k, int hash, const std::string& m);
std::string signPss(const RsaKey& k, int hash, const std::string& m,
                    const std::string& salt);
bool pssFits(const RsaKey& k, int hash, size_t salt_len);
bool verifyPkcs1(const std::string& n, const std::string& e, int hash,
                 const std::string& m, const std::string& sig);
// Any salt length; *salt_len is set when true.
bool verifyPss(const std::string& n, const std::string& e, int hash,
               const std::string& m, const std::string& sig, int* salt_len);

// ECDSA over a digest, with a nonce given as bytes (reduced into range).
std::string signEcdsa(const EcKey& k, int hash, const std::string& m,
                      const std::string& nonce);
// A key whose signature of m with this nonce has the given s.
EcKey ecKeyForSignature(int curve, int hash, const std::string& m, const std::string& nonce,
                        const std::string& sval, std::string* sig);
EcKey ecFromScalar(int curve, const std::string& d);
// A nonce for which r has one or two leading zero bytes.
std::string leadingZeroNonce(int curve, size_t i);
bool verifyEcdsa(int curve, const std::string& x, const std::string& y, int hash,
                 const std::string& m, const std::string& sig);
bool onCurve(int curve, const std::string& x, const std::string& y);
std::string ecOrder(int curve);
// (a + b) mod 2^(8*len), and n - a, on fixed-length big-endian numbers
std::string bnAdd(const std::string& a, const std::string& b, size_t len, bool* fits);
std::string bnSub(const std::string& a, const std::string& b, size_t len);

std::string signEd(const EdKey& k, const std::string& m);
bool verifyEd(const std::string& pub, const std::string& m, const std::string& sig);

}  // namespace vp
