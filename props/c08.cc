// C08: malformed tokens are rejected with the status of their first fault.
#include "faults.h"
#include "world.h"

namespace vp {
namespace {
void init() {}

J notString(Source& s) {
  switch (s.below(6)) {
    case 0: return J::null();
    case 1: return J::boolean(s.flip());
    case 2: return genNumber(s);
    case 3: return J::array();
    case 4: return J::array({J::str("x")});
    default: return J::object();
  }
}
J notNumber(Source& s) {
  switch (s.below(7)) {
    case 0: return J::null();
    case 1: return J::boolean(s.flip());
    case 2: return J::str("1700000000");
    case 3: return J::array({J::integer(1)});
    case 4: return J::array();
    case 5: return J::str("");
    default: return J::object();
  }
}
J outOfRange(Source& s) {
  static const char* k[] = {"-1", "-0.5", "-1e-3", "18446744073709551616", "1.8446744073709552e19", "1e300", "-1e300", "-9223372036854775808", "18446744073709551615", "36893488147419103232", "-4.9406564584124654e-324", "1e20"};
  return J::number(s.pick(k));
}
J badAud(Source& s) {
  switch (s.below(7)) {
    case 0: return J::null();
    case 1: return J::boolean(s.flip());
    case 2: return genNumber(s);
    case 3: return J::object();
    default: {
      J l = J::array();
      size_t n = s.below(4);
      for (size_t i = 0; i < n; ++i) l.list.push_back(J::str(genText(s, 8)));
      l.list.insert(l.list.begin() + s.below(n + 1), notString(s));
      return l;
    }
  }
}

void run(Source& s, Ctx& c) {
  // Stages in the order in which they are checked.
  enum { kFormat, kHB64, kHJson, kAlg, kKid, kPB64, kPJson, kIss, kSub, kIat, kNbf, kExp, kJti, kAud, kSB64, kStages };
  bool fault[kStages] = {};
  size_t nf = s.weighted({1, 16, 5, 2, 1});
  for (size_t i = 0; i < nf; ++i) fault[s.below(kStages)] = true;
  Status st_of[kStages];
  Status want = Status::Ok;

  J h = genObject(s, 2, 2), p = genObject(s, 2, 3);
  for (auto* n : {"alg", "kid"}) h.erase(n);
  for (auto* n : {"iss", "sub", "jti", "aud", "iat", "nbf", "exp"}) p.erase(n);
  if (s.p(20)) addMembers(s, &h, Part::kHeader);
  if (s.p(20)) addMembers(s, &p, Part::kPayload);
  // Header.
  st_of[kAlg] = Status::JwtHeaderBadAlg;
  if (fault[kAlg]) {
    switch (s.below(3)) {
      case 0: break;
      case 1: h.set("alg", notString(s)); break;
      default: {
        static const char* k[] = {"none", "", "None", "hs256", "HS256 ", " HS256", "HS25", "HS2566", "RS1", "ES256K", "Ed25519", "eddsa", "EDDSA", "PS", "A256GCM", "RSA", "ES128", "HS", "ES521", "HS1"};
        std::string a = s.pick(k);
        if (s.p(30)) a = genText(s, 8) + "x";
        if (s.p(30)) a = std::string("HS256\0", 6);
        h.set("alg", J::str(a));
        st_of[kAlg] = Status::JwtHeaderNotImplementedAlg;
      }
    }
  } else {
    h.set("alg", J::str(kAlgs[s.below(13)].name));
  }
  st_of[kKid] = Status::JwtHeaderBadKid;
  if (fault[kKid]) h.set("kid", notString(s));
  else if (s.flip()) h.set("kid", J::str(genText(s, 10)));
  // Payload.
  auto str = [&](int stage, const char* n, Status bad) {
    st_of[stage] = bad;
    if (fault[stage]) p.set(n, notString(s));
    else if (s.p(60)) p.set(n, J::str(genText(s, 10)));
  };
  auto num = [&](int stage, const char* n, Status type, Status range) {
    st_of[stage] = type;
    if (fault[stage]) {
      if (s.flip()) {
        p.set(n, notNumber(s));
      } else {
        p.set(n, outOfRange(s));
        st_of[stage] = range;
      }
    } else if (s.p(60)) {
      p.set(n, J::integer(s.p(30) ? static_cast<uint64_t>(s.litNum(0, 1ll << 52)) : s.u64() >> 12));
    }
  };
  str(kIss, "iss", Status::JwtPayloadParseErrorIssNotString);
  str(kSub, "sub", Status::JwtPayloadParseErrorSubNotString);
  num(kIat, "iat", Status::JwtPayloadParseErrorIatNotInteger, Status::JwtPayloadParseErrorIatOutOfRange);
  num(kNbf, "nbf", Status::JwtPayloadParseErrorNbfNotInteger, Status::JwtPayloadParseErrorNbfOutOfRange);
  num(kExp, "exp", Status::JwtPayloadParseErrorExpNotInteger, Status::JwtPayloadParseErrorExpOutOfRange);
  str(kJti, "jti", Status::JwtPayloadParseErrorJtiNotString);
  st_of[kAud] = Status::JwtPayloadParseErrorAudNotString;
  if (fault[kAud]) p.set("aud", badAud(s));
  else if (s.p(60)) p.set("aud", s.flip() ? J::str("a") : J::array({J::str("a"), J::str("b")}));
  s.shuffle(h.obj);
  s.shuffle(p.obj);
  st_of[kHJson] = Status::JwtHeaderParseErrorBadJson;
  st_of[kPJson] = Status::JwtPayloadParseErrorBadJson;
  std::string ht = fault[kHJson] ? badJson(s, h) : s.flip() ? writeJson(h) : writeJson(h, s);
  std::string pt = fault[kPJson] ? badJson(s, p) : s.flip() ? writeJson(p) : writeJson(p, s);
  if (ht.empty()) ht = "{";
  if (pt.empty()) pt = "{";
  std::string h64 = b64url(ht), p64 = b64url(pt), s64 = b64url(s.bulk(1 + s.below(100)));
  st_of[kHB64] = Status::JwtHeaderParseErrorBadBase64;
  st_of[kPB64] = Status::JwtPayloadParseErrorBadBase64;
  st_of[kSB64] = Status::JwtSignatureParseErrorBadBase64;
  if (fault[kHB64]) h64 = badB64(s, h64);
  if (fault[kPB64]) p64 = badB64(s, p64);
  if (fault[kSB64]) s64 = badB64(s, s64);
  std::string text = h64 + "." + p64 + "." + s64;
  st_of[kFormat] = Status::JwtBadFormat;
  if (fault[kFormat]) {
    switch (s.below(14)) {
      case 0: text = ""; break;
      case 1: text = "."; break;
      case 2: text = ".."; break;
      case 3: text = "..."; break;
      case 4: text = h64; break;
      case 5: text = h64 + "." + p64; break;
      case 6: text = h64 + "." + p64 + "."; break;
      case 7: text = h64 + ".." + s64; break;
      case 8: text = "." + p64 + "." + s64; break;
      case 9: text = text + "."; break;
      case 10: text = "." + text; break;
      case 11: text = text + "." + p64; break;
      case 12: text = h64 + ".." + p64 + "." + s64; break;
      default: {
        // Dots somewhere else.
        size_t at = s.below(text.size() + 1);
        text.insert(at, std::string(1 + s.below(3), '.'));
      }
    }
  }
  int first = -1, total = 0;
  for (int i = 0; i < kStages; ++i)
    if (fault[i]) {
      if (first < 0) first = i;
      ++total;
    }
  if (first >= 0) want = st_of[first];
  c.note([&](std::ostream& o) { o << "header " << quote(ht) << "\n payload " << quote(pt) << "\n token " << quote(text, 1500) << "\n expected " << st(want); });
  std::unique_ptr<Jwt> before;
  if (s.p(30)) before = readNearToken(s, c, text);
  Jwt jwt;
  if (s.p(20)) jwt.parseFromString(nearToken(s, text));
  if (s.p(30)) jwt.parseFromString("eyJhbGciOiJIUzI1NiJ9.e30.AAAA");
  Status got = jwt.parseFromString(text);
  if (first < 0) {
    c.label(got == Status::Ok ? "no fault, parsed" : "no fault, refused (decided by C07)");
    return;
  }
  VP_CHECK(c, got == want, "parsing gives " << st(got) << " instead of " << st(want));
  c.label(st(want));
  c.label("faults: " + std::to_string(total));
  c.nontrivial(hashStr(text));
}
}  // namespace

const Property kProperty = {
    "C08",
    "A case is a token with 0 to 4 faults put into the 15 checking stages (dots and sections, encodings, JSON syntax and types, "
    "alg, kid, every registered claim's type and range, signature encoding); the status must be that of the first faulty stage. "
    "Non-trivial: at least one fault",
    500000, 8000000, init, run};
}  // namespace vp
