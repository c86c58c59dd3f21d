// C07: parsing yields exactly the token's header, claims and signature.
#include "world.h"

namespace vp {
namespace {
void init() {}

J genTime(Source& s) {
  for (int i = 0; i < 20; ++i) {
    J j = genNumber(s);
    if (j.num >= 0 && j.num < 18446744073709551616.0) return j;
  }
  return J::number("1700000000");
}

std::string show(const std::vector<std::string>& v) {
  std::string r = "[";
  for (auto& x : v) r += quote(x) + ", ";
  return r + "]";
}

void run(Source& s, Ctx& c) {
  Token t;
  t.alg = kAlgs[s.below(13)].name;
  t.kid = s.p(150) ? (s.flip() ? genKid(s) : genText(s, 40)) : "";
  t.header = genObject(s, 3, 3);
  t.header.erase("alg");
  t.header.erase("kid");
  t.header.set("alg", J::str(t.alg));
  if (!t.kid.empty() || s.p(30)) t.header.set("kid", J::str(t.kid));
  if (s.p(60)) t.header.set("typ", s.flip() ? J::str("JWT") : genJson(s, 1));
  if (s.p(50)) addMembers(s, &t.header, Part::kHeader);
  s.shuffle(t.header.obj);
  std::string iss, sub, jti;
  std::vector<std::string> aud;
  uint64_t iat = 0, nbf = 0, exp = 0;
  t.payload = genObject(s, 4, 5);
  for (auto* n : {"iss", "sub", "jti", "aud", "iat", "nbf", "exp"}) t.payload.erase(n);
  int claims = 0;
  auto str = [&](const char* n, std::string* v) {
    if (!s.p(150)) return;
    *v = genText(s, s.p(30) ? 300 : 30);
    if (s.p(4)) *v += std::string(200 << s.below(9), 'y');
    t.payload.set(n, J::str(*v));
    ++claims;
  };
  auto num = [&](const char* n, uint64_t* v) {
    if (!s.p(140)) return;
    J j = genTime(s);
    *v = static_cast<uint64_t>(j.num);
    t.payload.set(n, j);
    ++claims;
  };
  str("iss", &iss);
  str("sub", &sub);
  str("jti", &jti);
  num("iat", &iat);
  num("nbf", &nbf);
  num("exp", &exp);
  if (s.p(150)) {
    ++claims;
    if (s.p(110)) {
      aud.push_back(genText(s, 30));
      t.payload.set("aud", J::str(aud[0]));
    } else {
      J l = J::array();
      for (size_t n = s.many(5, 300); n > 0; --n) {
        aud.push_back(s.p(40) && !aud.empty() ? aud[0] : genText(s, 20));
        l.list.push_back(J::str(aud.back()));
      }
      t.payload.set("aud", l);
    }
  }
  if (s.p(40)) {
    // Names that resemble the registered ones, or nest them.
    static const char* kNear[] = {"Iss", "iss.", "aud.x", "EXP", "exp ", "nbf\n", "a.b", "", ".", "sub.sub"};
    t.payload.set(s.pick(kNear), genJson(s, 1));
  }
  if (s.p(50)) addMembers(s, &t.payload, Part::kPayload);
  if (s.p(20)) {
    J o = J::object();
    o.set("iss", J::integer(1));
    o.set("exp", J::str("x"));
    t.payload.set("nested", o);
  }
  if (s.p(4)) {
    J& to = s.flip() ? t.header : t.payload;
    for (size_t n = s.p(60) ? static_cast<size_t>(s.litNum(1, 2000)) : s.range(20, 600); n > 0; --n) to.set("m" + std::to_string(n), J::integer(n));
  }
  if (s.p(4)) t.header.set("blob", J::str(std::string(1000 << s.below(7), 'h')));
  if (s.p(20)) t.payload.set("blob", J::str(std::string(1000 << s.below(7), 'b')));
  s.shuffle(t.payload.obj);
  t.htext = s.p(60) ? writeJson(t.header) : writeJson(t.header, s);
  t.ptext = s.p(60) ? writeJson(t.payload) : writeJson(t.payload, s);
  encode(&t);
  static const size_t kLens[] = {64, 1, 2, 3, 32, 48, 96, 128, 132, 255, 256, 257, 512, 1024, 5000, 70000};
  t.sig = s.bulk(s.p(20) ? static_cast<size_t>(s.litNum(1, 70000)) : s.pick(kLens));
  if (s.p(60)) t.sig[s.below(t.sig.size())] = 0;
  if (s.p(10)) t.sig.assign(t.sig.size(), '\0');
  if (s.p(10)) t.sig.assign(t.sig.size(), '\xff');
  c.note([&](std::ostream& o) { o << "header " << quote(t.htext, 1500) << "\n payload " << quote(t.ptext, 3000) << "\n signature " << toHex(t.sig).substr(0, 300); });

  const std::string text = t.str();
  std::unique_ptr<Jwt> before;
  if (s.p(40)) before = readNearToken(s, c, text);
  Jwt j;
  if (s.p(20)) j.parseFromString(nearToken(s, text));
  Status ps = j.parseFromString(text);
  VP_CHECK(c, ps == Status::Ok, "a well-formed token is refused: " << st(ps));
#define SAME(f, want) VP_CHECK(c, j.f == (want), #f " is " << quote(j.f) << " instead of " << quote(want))
  SAME(jwt_, text);
  SAME(header_str_, t.htext);
  SAME(header_str_base64url_, t.h64);
  SAME(payload_str_, t.ptext);
  SAME(payload_str_base64url_, t.p64);
  SAME(signature_, t.sig);
  SAME(alg_, t.alg);
  SAME(kid_, t.kid);
  SAME(iss_, iss);
  SAME(sub_, sub);
  SAME(jti_, jti);
#undef SAME
  VP_CHECK(c, j.audiences_ == aud, "audiences_ is " << show(j.audiences_) << " instead of " << show(aud));
  VP_CHECK(c, j.iat_ == iat, "iat_ is " << j.iat_ << " instead of " << iat);
  VP_CHECK(c, j.nbf_ == nbf, "nbf_ is " << j.nbf_ << " instead of " << nbf);
  VP_CHECK(c, j.exp_ == exp, "exp_ is " << j.exp_ << " instead of " << exp);
  std::string why;
  VP_CHECK(c, samePb(t.header, j.header_pb_, &why), "header_pb_: " << why);
  VP_CHECK(c, samePb(t.payload, j.payload_pb_, &why), "payload_pb_: " << why);
  if (s.p(30)) {
    Jwt k(j);
    VP_CHECK(c, k.jwt_ == text && k.payload_str_ == t.ptext && k.signature_ == t.sig && k.audiences_ == aud && k.exp_ == exp,
             "a copy of the parsed token differs from it");
  }
  c.label("alg " + t.alg);
  c.label("registered claims: " + std::to_string(claims));
  if (aud.size() > 1) c.label("several audiences");
  if (text.size() > 2000) c.label("over 2000 bytes");
  if (claims >= 2) c.nontrivial(hashStr(text));
}
}  // namespace

const Property kProperty = {
    "C07",
    "A case is a well-formed token whose header and payload are generated JSON objects (any member types, Unicode, every number "
    "notation, random white space and escapes, shuffled members, near-miss member names) with each registered claim present or "
    "absent, members that other software writes, and a random signature; every public field is compared with what was encoded. Non-trivial: at least two "
    "registered claims present",
    200000, 6000000, init, run};
}  // namespace vp
