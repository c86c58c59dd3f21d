// C02: genuine tokens are accepted for every algorithm and key form.
#include "world.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

void run(Source& s, Ctx& c) {
  const Alg& a = kAlgs[s.weighted({6, 2, 1, 3, 3, 3, 3, 2, 2, 3, 3, 3, 5})];
  std::string kid = s.p(170) ? genKid(s) : "";
  Token t = genToken(s, a.name, kid, true);
  Key k;
  bool made = a.fam == Fam::kEc && s.p(100);
  // Mostly the curve that goes with the algorithm.
  if (made) {
    k = ecKeyForSignature(s, curveFor(a), a.hash, t.input(), &t.sig);
  } else {
    k = genKey(s, a.fam, curveFor(a));
    while (!canSign(k, a)) k.idx = (k.idx + 1) % rsaKeys().size();
    t.sig = signWith(k, a, t.input(), s);
  }
  k.kid = s.p(160) ? kid : "";
  k.alg = s.p(140) ? a.name : "";

  std::vector<Key> keys;
  size_t before = s.p(140) ? s.many(3, 80, 2) : 0, after = s.p(120) ? s.below(3) : 0;
  bool others_same = false;
  auto other = [&] {
    Key o = genKey(s, s.p(130) ? a.fam : static_cast<Fam>(s.below(4)));
    o.kid = s.p(100) ? kid : s.p(120) ? genKid(s) : "";
    // An alg its type can have.
    switch (o.fam) {
      case Fam::kRsa: {
        static const char* k2[] = {"", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"};
        o.alg = s.pick(k2);
        break;
      }
      case Fam::kEc: o.alg = s.flip() ? "" : o.ec.curve == 256 ? "ES256" : o.ec.curve == 384 ? "ES384" : "ES512"; break;
      case Fam::kOct: {
        static const char* k3[] = {"", "HS256", "HS384", "HS512"};
        o.alg = s.pick(k3);
        break;
      }
      default: o.alg = s.flip() ? "" : "EdDSA";
    }
    if (eligible(o, t.alg, t.kid)) others_same = true;
    keys.push_back(o);
  };
  for (size_t i = 0; i < before; ++i) other();
  bool first = !others_same;
  size_t at = keys.size();
  keys.push_back(k);
  for (size_t i = 0; i < after; ++i) other();
  LoadOpts lo;
  std::string how, why;
  if (s.p(40)) {
    // An earlier set with another key in its place has come and gone.
    std::vector<Key> old = keys;
    old[at] = rotated(s, k);
    if (s.flip()) old.resize(at + 1);
    JwksPtr ks = loadSet(old, s, lo, &how, &why);
    VP_CHECK(c, ks != nullptr, why);
    Jwt jwt;
    Status ps = jwt.parseFromString(t.str());
    VP_CHECK(c, ps == Status::Ok, "a well-formed token does not parse: " << st(ps) << " " << quote(t.str(), 2000));
    Status v = verifyJwtWithoutTimeChecking(jwt, *ks);
    c.note([&](std::ostream& o) { o << "first tried, giving " << st(v) << ", with keys (" << how << ")" << showKeys(old); });
    how.clear();
    c.label("after another key in its place");
  }
  JwksPtr ks = loadSet(keys, s, lo, &how, &why);
  c.note([&](std::ostream& o) {
    o << "token header " << quote(t.htext) << "\n payload " << quote(t.ptext) << "\n signature " << toHex(t.sig).substr(0, 200)
      << "\n keys (" << how << ", matching key is #" << at << ")" << showKeys(keys);
  });
  VP_CHECK(c, ks != nullptr, why);
  Jwt jwt;
  Status ps = jwt.parseFromString(t.str());
  VP_CHECK(c, ps == Status::Ok, "a well-formed token does not parse: " << st(ps) << " " << quote(t.str(), 2000));
  if (s.p(25)) {
    Jwt other;
    std::string n = nearToken(s, t.str());
    if (other.parseFromString(n) == Status::Ok) {
      Status r = verifyJwtWithoutTimeChecking(other, *ks);
      c.note([&](std::ostream& o) { o << "verified before, giving " << st(r) << ": " << quote(n, 2000); });
      c.label("after verifying a token much like it");
    }
  }
  Status v = verifyJwtWithoutTimeChecking(jwt, *ks);
  VP_CHECK(c, v == Status::Ok, "a genuinely signed token is not accepted: " << st(v));
  if (s.p(30)) {
    // And again, on the same objects and on fresh ones.
    Jwt again;
    again.parseFromString(t.str());
    VP_CHECK(c, verifyJwtWithoutTimeChecking(again, *ks) == Status::Ok && verifyJwtWithoutTimeChecking(jwt, *ks) == Status::Ok,
             "a genuinely signed token is not accepted the second time");
  }
  c.label(std::string("alg ") + a.name);
  c.label(keys.size() == 1 ? "set of one key" : "set of several keys");
  if (!first) c.label("an eligible key that does not verify stands before");
  if (t.ptext.size() > 1000) c.label("payload over 1000 bytes");
  if (how.find("PEM") != std::string::npos) c.label("set with PEM keys");
  if (how.find("X509") != std::string::npos) c.label("set of certificates");
  if (keys.size() > 7) c.label("set of over 7 keys");
  bool lz = !t.sig.empty() && (t.sig[0] == 0 || (a.fam == Fam::kEc && t.sig[t.sig.size() / 2] == 0));
  if (lz) c.label("signature number with leading zero byte");
  if (keys.size() > 1 || lz || t.ptext.size() > 100 || how.find("JWKS") == std::string::npos)
    c.nontrivial(hashStr(t.str(), hashStr(showKeys(keys))));
}
}  // namespace

const Property kProperty = {
    "C02",
    "A case is a token with generated header and payload, genuinely signed by an independent signer under one of the 13 "
    "algorithms, and a key set (JWKS text, PEM, certificates, mixed) that holds the matching key among up to six others; "
    "non-trivial: several keys, or a non-JWKS form, or a signature number with leading zeros, or a payload over 100 bytes",
    90000, 1500000, init, run};
}  // namespace vp
