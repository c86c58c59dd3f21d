// C21: every status has its own descriptive text, and the first error sticks.
#include <ctype.h>

#include <limits>

#include "engine.h"
#include "jwt_verify_lib/status.h"

namespace vp {
namespace {
using google::jwt_verify::getStatusString;
using google::jwt_verify::Status;
using google::jwt_verify::WithStatus;

struct Known {
  Status s;
  const char* name;
  // Words its text must have, and must not have, whatever the case.
  std::vector<const char*> words, not_words;
};
#define S(x) Status::x, #x
const std::vector<Known>& known() {
  static const std::vector<Known> k = {
      {S(Ok), {"ok"}, {}},
      {S(JwtMissed), {"jwt", "missing"}, {}},
      {S(JwtNotYetValid), {"jwt", "not yet"}, {"expired"}},
      {S(JwtExpired), {"jwt", "expired"}, {"not yet"}},
      {S(JwtBadFormat), {"jwt", "header.payload.signature"}, {}},
      {S(JwtHeaderParseErrorBadBase64), {"jwt", "header", "base64"}, {"json", "payload", "signature"}},
      {S(JwtHeaderParseErrorBadJson), {"jwt", "header", "json"}, {"base64", "payload", "signature"}},
      {S(JwtHeaderBadAlg), {"header", "alg", "string"}, {"kid", "payload", "supported"}},
      {S(JwtHeaderNotImplementedAlg), {"header", "alg", "not supported"}, {"kid", "payload"}},
      {S(JwtHeaderBadKid), {"header", "kid", "string"}, {"alg", "payload"}},
      {S(JwtPayloadParseErrorBadBase64), {"jwt", "payload", "base64"}, {"json", "header", "signature"}},
      {S(JwtPayloadParseErrorBadJson), {"jwt", "payload", "json"}, {"base64", "header", "signature"}},
      {S(JwtPayloadParseErrorIssNotString), {"payload", "[iss]", "string"}, {"[sub]", "[jti]", "[aud]"}},
      {S(JwtPayloadParseErrorSubNotString), {"payload", "[sub]", "string"}, {"[iss]", "[jti]", "[aud]"}},
      {S(JwtPayloadParseErrorIatNotInteger), {"payload", "[iat]", "integer"}, {"64", "[nbf]", "[exp]"}},
      {S(JwtPayloadParseErrorIatOutOfRange), {"payload", "[iat]", "64 bit"}, {"[nbf]", "[exp]"}},
      {S(JwtPayloadParseErrorNbfNotInteger), {"payload", "[nbf]", "integer"}, {"64", "[iat]", "[exp]"}},
      {S(JwtPayloadParseErrorNbfOutOfRange), {"payload", "[nbf]", "64 bit"}, {"[iat]", "[exp]"}},
      {S(JwtPayloadParseErrorExpNotInteger), {"payload", "[exp]", "integer"}, {"64", "[nbf]", "[iat]"}},
      {S(JwtPayloadParseErrorExpOutOfRange), {"payload", "[exp]", "64 bit"}, {"[nbf]", "[iat]"}},
      {S(JwtPayloadParseErrorJtiNotString), {"payload", "[jti]", "string"}, {"[iss]", "[sub]", "[aud]"}},
      {S(JwtPayloadParseErrorAudNotString), {"payload", "[aud]", "string"}, {"[iss]", "[sub]", "[jti]"}},
      {S(JwtSignatureParseErrorBadBase64), {"jwt", "signature", "base64"}, {"header", "payload", "length"}},
      {S(JwtEd25519SignatureWrongLength), {"ed25519", "signature", "length"}, {"base64"}},
      {S(JwtUnknownIssuer), {"issuer"}, {"audience"}},
      {S(JwtAudienceNotAllowed), {"audience", "not allowed"}, {"issuer"}},
      {S(JwtVerificationFail), {"jwt", "verification", "fail"}, {}},
      {S(JwtMultipleTokens), {"multiple", "tokens"}, {}},
      {S(JwksParseError), {"jwks", "json"}, {"[keys]"}},
      {S(JwksNoKeys), {"jwks", "not have [keys]"}, {"array"}},
      {S(JwksBadKeys), {"jwks", "[keys]", "array"}, {}},
      {S(JwksNoValidKeys), {"jwks", "valid"}, {"[keys]"}},
      {S(JwksKidAlgMismatch), {"jwks", "match", "kid", "alg"}, {}},
      {S(JwksRsaParseError), {"rsa", "[n]", "[e]", "parse error"}, {"[x]", "[y]"}},
      {S(JwksEcCreateKeyFail), {"ec ", "create"}, {"rsa", "parse"}},
      {S(JwksEcXorYBadBase64), {"ec ", "[x]", "[y]", "base64"}, {"okp", "oct"}},
      {S(JwksEcParseError), {"ec ", "[x]", "[y]", "parse error"}, {"base64"}},
      {S(JwksOctBadBase64), {"oct", "base64"}, {"okp"}},
      {S(JwksOKPXBadBase64), {"okp", "[x]", "base64"}, {"length"}},
      {S(JwksOKPXWrongLength), {"okp", "[x]", "length"}, {"base64"}},
      {S(JwksFetchFail), {"fetch"}, {}},
      {S(JwksMissingKty), {"[kty]", "missing"}, {}},
      {S(JwksBadKty), {"[kty]"}, {"missing", "supported"}},
      {S(JwksNotImplementedKty), {"[kty]", "not supported"}, {"pem"}},
      {S(JwksRSAKeyBadAlg), {"[alg]", "rsa", "rs"}, {"[n]", "[e]"}},
      {S(JwksRSAKeyMissingN), {"[n]", "missing", "rsa"}, {"[e]"}},
      {S(JwksRSAKeyBadN), {"[n]", "string", "rsa"}, {"[e]"}},
      {S(JwksRSAKeyMissingE), {"[e]", "missing", "rsa"}, {"[n]"}},
      {S(JwksRSAKeyBadE), {"[e]", "string", "rsa"}, {"[n]"}},
      {S(JwksECKeyBadAlg), {"[alg]", "ec key", "es"}, {"crv"}},
      {S(JwksECKeyBadCrv), {"[crv]", "ec key", "string"}, {"supported", "compatible"}},
      {S(JwksECKeyAlgOrCrvUnsupported), {"[crv]", "[alg]", "ec key", "not supported"}, {"compatible"}},
      {S(JwksECKeyAlgNotCompatibleWithCrv), {"[crv]", "[alg]", "ec key", "compatible"}, {"supported"}},
      {S(JwksECKeyMissingX), {"[x]", "ec key", "missing"}, {"[y]"}},
      {S(JwksECKeyBadX), {"[x]", "ec key", "string"}, {"[y]"}},
      {S(JwksECKeyMissingY), {"[y]", "ec key", "missing"}, {"[x]"}},
      {S(JwksECKeyBadY), {"[y]", "ec key", "string"}, {"[x]"}},
      {S(JwksHMACKeyBadAlg), {"[alg]", "hmac", "hs"}, {"[k]"}},
      {S(JwksHMACKeyMissingK), {"[k]", "hmac", "missing"}, {"[alg]"}},
      {S(JwksHMACKeyBadK), {"[k]", "hmac", "string"}, {"[alg]"}},
      {S(JwksOKPKeyBadAlg), {"[alg]", "okp", "eddsa"}, {"[crv]", "[x]"}},
      {S(JwksOKPKeyMissingCrv), {"[crv]", "okp", "missing"}, {"[alg]", "[x]"}},
      {S(JwksOKPKeyBadCrv), {"[crv]", "okp", "string"}, {"[alg]", "[x]"}},
      {S(JwksOKPKeyCrvUnsupported), {"[crv]", "okp", "not supported"}, {"[alg]", "[x]"}},
      {S(JwksOKPKeyMissingX), {"[x]", "okp", "missing"}, {"[crv]"}},
      {S(JwksOKPKeyBadX), {"[x]", "okp", "string"}, {"[crv]"}},
      {S(JwksX509BioWriteError), {"x509"}, {}},
      {S(JwksX509ParseError), {"x509", "parse"}, {"get pubkey", "memory"}},
      {S(JwksX509GetPubkeyError), {"x509", "get pubkey"}, {}},
      {S(JwksPemNotImplementedKty), {"pem", "not supported"}, {}},
      {S(JwksPemBadBase64), {"pem", "parse"}, {"ed25519", "supported"}},
      {S(JwksPemGetRawEd25519Error), {"pem", "ed25519"}, {}},
      {S(JwksBioAllocError), {"bio", "memory"}, {}},
  };
  return k;
}

void init() {}

std::string lower(std::string s) {
  for (auto& c : s) c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
  return s;
}

// The recorder as every user of it sees it.
class Recorder : public WithStatus {
 public:
  void update(Status s) { updateStatus(s); }
  void reset(Status s) { resetStatus(s); }
};

void text(Source& s, Ctx& c) {
  const auto& k = known();
  const Known& a = k[s.below(k.size())];
  const Known& b = k[s.below(k.size())];
  std::string ta = getStatusString(a.s), tb = getStatusString(b.s);
  c.note([&](std::ostream& o) { o << a.name << ": " << quote(ta) << ", " << b.name << ": " << quote(tb); });
  VP_CHECK(c, !ta.empty(), a.name << " has no text");
  VP_CHECK(c, ta.find_first_not_of(" \t\r\n") != std::string::npos, a.name << " has a blank text");
  for (unsigned char ch : ta) VP_CHECK(c, ch >= ' ' && ch <= '~', "the text of " << a.name << " is not printable: " << quote(ta));
  VP_CHECK(c, (lower(ta) == lower(tb)) == (a.s == b.s), a.name << " and " << b.name << " have the texts " << quote(ta) << " and " << quote(tb));
  VP_CHECK(c, (ta == "OK") == (a.s == Status::Ok), "the text of " << a.name << " is " << quote(ta));
  std::string l = lower(ta);
  for (auto* w : a.words) VP_CHECK(c, l.find(w) != std::string::npos, "the text of " << a.name << " does not name " << w << ": " << quote(ta));
  for (auto* w : a.not_words) VP_CHECK(c, l.find(w) == std::string::npos, "the text of " << a.name << " names " << w << ": " << quote(ta));
  c.label("pairs of texts");
  if (a.s != b.s) c.nontrivial(static_cast<uint64_t>(a.s) * 1000 + static_cast<uint64_t>(b.s));
}

void outside(Source& s, Ctx& c) {
  int last = static_cast<int>(Status::JwksBioAllocError);
  int v;
  switch (s.below(4)) {
    case 0: v = last + 1 + static_cast<int>(s.below(300)); break;
    case 1: v = -1 - static_cast<int>(s.below(300)); break;
    case 2: {
      // Values that look defined when narrowed.
      static const int k[] = {256, 65536, 1 << 24, 512, -256, -65536, std::numeric_limits<int>::min(), 1 << 30};
      v = s.pick(k) + static_cast<int>(s.below(last + 1));
      break;
    }
    default: v = static_cast<int>(static_cast<uint32_t>(s.u64()));
  }
  if (v >= 0 && v <= last) v = -v - 1;
  c.note([&](std::ostream& o) { o << "value " << v; });
  std::string t = getStatusString(static_cast<Status>(v));
  VP_CHECK(c, t.empty(), "the value " << v << " outside the range has the text " << quote(t));
  c.label("values outside the range");
  c.nontrivial(mix64(static_cast<uint64_t>(v)));
}

void sticky(Source& s, Ctx& c) {
  const auto& k = known();
  size_t n = 1 + s.below(12);
  std::vector<Recorder> r(1 + s.below(3));
  std::vector<Status> want(r.size(), Status::Ok);
  bool kept = false;
  uint64_t h = 0;
  for (size_t i = 0; i < n; ++i) {
    size_t o = s.below(r.size());
    Status st = s.p(90) ? Status::Ok : k[s.below(k.size())].s;
    size_t op = s.weighted({8, 2, 1, 1});
    h = mix64(h + op * 131 + static_cast<uint64_t>(st) + o * 7919);
    switch (op) {
      case 0:
        c.note([&](std::ostream& os) { os << "object " << o << " records " << static_cast<int>(st); });
        r[o].update(st);
        if (want[o] != Status::Ok && st != want[o]) kept = true;
        if (want[o] == Status::Ok) want[o] = st;
        break;
      case 1:
        c.note([&](std::ostream& os) { os << "object " << o << " is reset to " << static_cast<int>(st); });
        r[o].reset(st);
        want[o] = st;
        break;
      case 2: {
        size_t p = s.below(r.size());
        c.note([&](std::ostream& os) { os << "object " << o << " becomes a copy of " << p; });
        Recorder copy(r[p]);
        r[o] = copy;
        want[o] = want[p];
        break;
      }
      default:
        c.note([&](std::ostream& os) { os << "object " << o << " is new"; });
        r[o] = Recorder();
        want[o] = Status::Ok;
    }
    for (size_t j = 0; j < r.size(); ++j)
      VP_CHECK(c, r[j].getStatus() == want[j], "object " << j << " has status " << static_cast<int>(r[j].getStatus()) << " instead of " << static_cast<int>(want[j]));
  }
  c.label("histories of recorded statuses");
  if (kept) c.nontrivial(h);
}

void run(Source& s, Ctx& c) {
  switch (s.weighted({5, 2, 5})) {
    case 0: text(s, c); break;
    case 1: outside(s, c); break;
    default: sticky(s, c);
  }
}
}  // namespace

const Property kProperty = {
    "C21",
    "A case is a pair of defined statuses (the 73 x 73 pairs are drawn many times over), a value outside the enumeration, or a history of "
    "recorded statuses, resets and copies over up to 3 objects. Non-trivial: two different statuses, any value outside, or a history in which "
    "something is recorded after an error; distinct by content",
    3000000, 100000000, init, run};
}  // namespace vp
