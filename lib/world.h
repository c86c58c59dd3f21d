// Tokens, keys and key sets built from a choice sequence, and the reference
// model of which key verifies which token. Independent of the library under
// test except for the calls that load a key set.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "crypto.h"
#include "engine.h"
#include "json.h"
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"
#include "jwt_verify_lib/verify.h"

namespace vp {

using google::jwt_verify::Jwks;
using google::jwt_verify::JwksPtr;
using google::jwt_verify::Jwt;
using google::jwt_verify::Status;

enum class Fam { kRsa, kEc, kOct, kOkp };
struct Alg {
  const char* name;
  Fam fam;
  int hash;
  bool pss;
};
extern const Alg kAlgs[13];
const Alg* algByName(const std::string& n);  // null if unsupported
const char* ktyName(Fam f);

struct Key {
  Fam fam = Fam::kOct;
  std::string kid, alg;  // empty: absent
  std::string secret;    // oct
  int idx = 0;           // pool index of RSA and Ed25519 keys
  EcKey ec;              // EC
  const RsaKey& rsa() const { return rsaKeys()[idx]; }
  const EdKey& ed() const { return edKeys()[idx]; }
  std::string show() const;
  // Same public key material.
  bool sameMaterial(const Key& o) const;
};

// Cost-conscious choice of a key of a family; for EC, curve 0 means any.
Key genKey(Source& s, Fam f, int curve = 0);
// Other material of the same family, curve and size, all else the same.
Key rotated(Source& s, const Key& k);
int curveFor(const Alg& a);  // the curve RFC 7518 ties to an ES alg, else 0

// The JWK of a key. With a source: optional members, order and extras vary.
J jwkOf(const Key& k);
J jwkOf(const Key& k, Source& s);
// An entry that cannot be used as a key, or is not even an object.
J genBadJwk(Source& s);

struct Token {
  J header, payload;             // what was encoded
  std::string htext, ptext;      // the JSON texts
  std::string h64, p64, sig;     // sig is decoded
  std::string alg, kid;
  std::string input() const { return h64 + "." + p64; }
  std::string str() const { return input() + "." + b64url(sig); }
};
std::string genKid(Source& s);
// A well-formed unsigned token. big: allow large payloads.
// Adds members that users and other software put into such objects and that
// have no say in what the library does.
enum class Part { kJwk, kHeader, kPayload, kSet };
void addMembers(Source& s, J* j, Part part);
Token genToken(Source& s, const std::string& alg, const std::string& kid, bool big);
J genPayload(Source& s, bool big);
// Re-encodes the sections from the JSON texts.
void encode(Token* t);

// A genuine signature of input by k according to a (family must fit).
std::string signWith(const Key& k, const Alg& a, const std::string& input, Source& s);
bool canSign(const Key& k, const Alg& a);
// An EC key made so that its signature of input is (r(nonce), s_val); gives
// signatures with leading zero bytes in r and s.
Key ecKeyForSignature(Source& s, int curve, int hash, const std::string& input,
                      std::string* sig);

// Reference model.
bool eligible(const Key& k, const std::string& alg, const std::string& kid);
bool refVerifies(const Key& k, const std::string& alg, const std::string& input,
                 const std::string& sig);
Status modelVerdict(const std::vector<Key>& keys, const std::string& alg,
                    const std::string& kid, const std::string& input,
                    const std::string& sig);

// How a key set is loaded.
struct LoadOpts {
  bool junk = true;   // unusable entries between the keys (JWKS text)
  bool allow_pem = true;
  bool vary = true;   // vary formatting and optional members
};
bool pemAble(const Key& k);
bool certAble(const Key& k);  // RSA, no alg, non-empty kid
std::string pemOf(const Key& k);
std::string certOf(const Key& k, Source& s);
// Loads the keys in this order through some mixture of the ways there are.
// Returns null (with why set) if the library refuses a valid key.
JwksPtr loadSet(const std::vector<Key>& keys, Source& s, const LoadOpts& o,
                std::string* how, std::string* why);
std::string jwksText(const std::vector<Key>& keys, Source& s, const LoadOpts& o);

// A text of the same length that differs in a few letters or digits, and the
// like for a token, mostly in the text of its header or payload.
std::string nearText(Source& s, const std::string& t);
std::string nearToken(Source& s, const std::string& t);
// Reads such a text first, so that a case sees what reading it leaves behind
// in the process. The object stays alive with the result, or goes at once.
JwksPtr readNearSet(Source& s, Ctx& c, const std::string& t, google::jwt_verify::Jwks::Type type);
std::unique_ptr<google::jwt_verify::Jwt> readNearToken(Source& s, Ctx& c, const std::string& t);

std::string st(Status s);  // "Ok(0)"
std::string showKeys(const std::vector<Key>& ks);

}  // namespace vp
