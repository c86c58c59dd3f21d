// C11: every JWK is validated: each fault has its status, valid keys load.
#include "jwkgen.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

void run(Source& s, Ctx& c) {
  J jwk = genFaultyJwk(s, s.weighted({4, 10, 4, 1}));
  Material m;
  Status want = readJwk(jwk, &m);
  std::string text = s.flip() ? writeJson(jwk) : writeJson(jwk, s);
  c.note([&](std::ostream& o) { o << "JWK " << quote(text, 2500) << "\n expected " << st(want); });
  auto alone = [&](const char* when) {
    JwksPtr ks = Jwks::createFrom("{\"keys\":[" + text + "]}", Jwks::JWKS);
    VP_CHECK(c, ks->getStatus() == want, when << "the key gives " << st(ks->getStatus()) << " instead of " << st(want));
    VP_CHECK(c, ks->keys().size() == (want == Status::Ok ? 1u : 0u), when << "the key set holds " << ks->keys().size() << " keys with status " << st(want));
    if (want == Status::Ok) {
      std::string d = diffKey(*ks->keys()[0], m);
      VP_CHECK(c, d.empty(), when << "the loaded key differs: " << d);
    }
  };
  JwksPtr before;
  if (s.p(40)) before = readNearSet(s, c, "{\"keys\":[" + text + "]}", Jwks::JWKS);
  alone("");
  // The same key behind others.
  if (s.p(120)) {
    size_t usable = 0;
    Status first = Status::Ok;
    std::string list;
    size_t n = 1 + s.below(2);
    for (size_t i = 0; i < n; ++i) {
      J o = genFaultyJwk(s, s.below(3));
      Material om;
      Status os = readJwk(o, &om);
      if (os == Status::Ok) ++usable;
      else if (first == Status::Ok) first = os;
      list += writeJson(o) + ",";
    }
    c.note([&](std::ostream& o) { o << " also behind " << list; });
    JwksPtr ks = Jwks::createFrom("{\"keys\":[" + list + text + "]}", Jwks::JWKS);
    size_t total = usable + (want == Status::Ok);
    VP_CHECK(c, ks->keys().size() == total, "behind other keys, " << ks->keys().size() << " keys are usable instead of " << total);
    if (want == Status::Ok) {
      std::string d = diffKey(*ks->keys().back(), m);
      VP_CHECK(c, d.empty(), "behind other keys, the loaded key differs: " << d);
    } else if (first == Status::Ok && usable == 0) {
      VP_CHECK(c, ks->getStatus() == want, "behind other keys, the status is " << st(ks->getStatus()) << " instead of " << st(want));
    }
    c.label("also behind other keys");
    if (s.p(60)) alone("afterwards alone, ");
  }
  c.label((m.kty == "RSA" || m.kty == "EC" || m.kty == "oct" || m.kty == "OKP" ? m.kty : std::string("other kty")) + ": " + st(want));
  c.nontrivial(hashStr(text));
}
}  // namespace

const Property kProperty = {
    "C11",
    "A case is a JWK of one of the four types with generated optional members and 0 to 3 faults (members missing, of a wrong "
    "type, badly encoded, misnamed; wrong alg, crv, kty; points off the curve or unreduced; bad moduli, exponents, lengths), "
    "loaded alone and behind other keys; status and key material are compared with an independent reading. All cases count",
    300000, 8000000, init, run};
}  // namespace vp
