// C04: time limits are exact for every time, skew and claim value.
#include "world.h"

namespace vp {
namespace {
const Key* g_key;
JwksPtr g_ks;
void init() {
  static Key k;
  k.fam = Fam::kOct;
  k.secret = "0123456789abcdef0123456789abcdef";
  g_key = &k;
  g_ks = Jwks::createFrom("{\"keys\":[" + writeJson(jwkOf(k)) + "]}", Jwks::JWKS);
}
using u128 = unsigned __int128;

uint64_t edge(Source& s) {
  static const uint64_t k[] = {0,          1,          59,         60,         61,         2,          120,
                               1700000000, 4294967295, 4294967296, 2147483647, 2147483648, 9007199254740991ull,
                               9007199254740992ull,    9223372036854775807ull, 9223372036854775808ull,
                               ~0ull,      ~0ull - 1,  ~0ull - 59, ~0ull - 60, ~0ull - 61};
  switch (s.weighted({8, 4, 4, 1})) {
    case 3: return static_cast<uint64_t>(s.litNum(0, INT64_MAX));
    case 0: return s.pick(k);
    case 1: return s.u64() >> s.below(64);
    default: return (1ull << s.below(64)) + s.below(3) - 1;
  }
}
// A value near one of the sums and differences that matter.
uint64_t near(Source& s, uint64_t a, uint64_t b) {
  uint64_t base;
  switch (s.below(5)) {
    case 4: {
      // A distance that the code may have a view on.
      uint64_t d = static_cast<uint64_t>(s.litNum(0, INT64_MAX));
      base = (s.flip() ? a : s.flip() ? a + b : a - b) + (s.flip() ? d : -d);
      break;
    }
    case 0: base = a + b; break;
    case 1: base = a - b; break;
    case 2: base = a; break;
    default: base = b - a;
  }
  return base + s.below(5) - 2;
}

Status model(uint64_t now, uint64_t skew, uint64_t nbf, uint64_t exp) {
  if (static_cast<u128>(nbf) > static_cast<u128>(now) + skew) return Status::JwtNotYetValid;
  if (exp != 0 && static_cast<u128>(exp) + skew < static_cast<u128>(now)) return Status::JwtExpired;
  return Status::Ok;
}

// How the value is written in the token, and the value it stands for.
J timeText(Source& s, uint64_t v, uint64_t* value) {
  std::string t = std::to_string(v);
  if (s.p(40)) t += "." + std::to_string(s.below(1000));
  J j = J::number(t);
  if (j.num >= 18446744073709551616.0) j = J::number("18446744073709549568");
  *value = static_cast<uint64_t>(j.num);
  return j;
}

void run(Source& s, Ctx& c) {
  uint64_t now = edge(s);
  bool dflt = s.p(90);
  uint64_t skew = dflt ? 60 : edge(s);
  uint64_t nbf = s.p(90) ? 0 : s.p(170) ? near(s, now, skew) : edge(s);
  uint64_t exp = s.p(70) ? 0 : s.p(170) ? near(s, now, skew) : edge(s);
  Jwt jwt;
  bool parsed = s.p(110);
  if (parsed) {
    J p = J::object();
    J jn = timeText(s, nbf, &nbf), je = timeText(s, exp, &exp);
    if (nbf || s.flip()) p.set("nbf", jn);
    if (exp || s.flip()) p.set("exp", je);
    if (s.flip()) p.set("iat", J::integer(edge(s) >> 12));
    Token t;
    t.htext = "{\"alg\":\"HS256\"}";
    t.ptext = writeJson(p);
    encode(&t);
    t.sig = hmac(256, g_key->secret, t.input());
    c.note([&](std::ostream& o) { o << "payload " << t.ptext; });
    Status ps = jwt.parseFromString(t.str());
    if (ps != Status::Ok) {
      c.label("token refused (decided by C07)");
      return;
    }
    if (jwt.nbf_ != nbf || jwt.exp_ != exp) {
      c.label("claims misread (decided by C07)");
      return;
    }
  } else {
    static const std::string* text = [] {
      Token t;
      t.htext = "{\"alg\":\"HS256\"}";
      t.ptext = "{}";
      encode(&t);
      t.sig = hmac(256, g_key->secret, t.input());
      return new std::string(t.str());
    }();
    jwt.parseFromString(*text);
    jwt.nbf_ = nbf;
    jwt.exp_ = exp;
    jwt.iat_ = s.p(60) ? edge(s) : 0;
  }
  c.note([&](std::ostream& o) {
    o << "now " << now << " skew " << skew << (dflt ? " (default)" : "") << " nbf " << nbf << " exp " << exp
      << (parsed ? " parsed" : " set");
  });
  Status want = model(now, skew, nbf, exp);
  Status got = dflt ? jwt.verifyTimeConstraint(now) : jwt.verifyTimeConstraint(now, skew);
  VP_CHECK(c, got == want, "time check gives " << st(got) << " instead of " << st(want) << ": now " << now << " skew " << skew << " nbf " << nbf << " exp " << exp);
  if (dflt) {
    got = jwt.verifyTimeConstraint(now, 60);
    VP_CHECK(c, got == want, "time check with skew 60 gives " << st(got) << " instead of " << st(want));
  }
  const char* via = "verifyJwt with time";
  got = dflt ? verifyJwt(jwt, *g_ks, now) : verifyJwt(jwt, *g_ks, now, skew);
  VP_CHECK(c, got == want, via << " gives " << st(got) << " instead of " << st(want) << ": now " << now << " skew " << skew << " nbf " << nbf << " exp " << exp);
  if (dflt) {
    got = verifyJwt(jwt, *g_ks, std::vector<std::string>{}, now);
    VP_CHECK(c, got == want, "verifyJwt with audiences and time gives " << st(got) << " instead of " << st(want));
  }
  VP_CHECK(c, verifyJwtWithoutTimeChecking(jwt, *g_ks) == Status::Ok, "verification without time checking looks at the time");
  c.label(st(want));
  if (parsed) c.label("from parsed claims");
  if (static_cast<u128>(now) + skew > ~0ull) c.label("now + skew beyond 64 bits");
  if (skew > now) c.label("skew beyond now");
  auto close = [](u128 a, u128 b) { return (a > b ? a - b : b - a) <= 2; };
  if (close(nbf, static_cast<u128>(now) + skew) || close(static_cast<u128>(exp) + skew, now)) c.label("within 2 s of a limit");
  if (nbf || exp) c.nontrivial(hashStr(std::to_string(now) + "," + std::to_string(skew) + "," + std::to_string(nbf) + "," + std::to_string(exp)));
}
}  // namespace

const Property kProperty = {
    "C04",
    "A case is a current time, a clock skew (or none given), nbf and exp, drawn from 64-bit edge values and from values within "
    "2 of the sums and differences of the others, set directly or parsed from claims; the token's own check and every full "
    "verification taking a time are compared with 128-bit arithmetic. Non-trivial: nbf or exp is not 0",
    600000, 20000000, init, run};
}  // namespace vp
