#include "world.h"

#include <string.h>

namespace vp {
using google::jwt_verify::getStatusString;

const Alg kAlgs[13] = {
    {"ES256", Fam::kEc, 256, false},  {"ES384", Fam::kEc, 384, false},  {"ES512", Fam::kEc, 512, false},
    {"HS256", Fam::kOct, 256, false}, {"HS384", Fam::kOct, 384, false}, {"HS512", Fam::kOct, 512, false},
    {"RS256", Fam::kRsa, 256, false}, {"RS384", Fam::kRsa, 384, false}, {"RS512", Fam::kRsa, 512, false},
    {"PS256", Fam::kRsa, 256, true},  {"PS384", Fam::kRsa, 384, true},  {"PS512", Fam::kRsa, 512, true},
    {"EdDSA", Fam::kOkp, 512, false}};

const Alg* algByName(const std::string& n) {
  for (auto& a : kAlgs)
    if (n == a.name) return &a;
  return nullptr;
}
const char* ktyName(Fam f) {
  switch (f) {
    case Fam::kRsa: return "RSA";
    case Fam::kEc: return "EC";
    case Fam::kOct: return "oct";
    default: return "OKP";
  }
}
int curveFor(const Alg& a) {
  if (a.fam != Fam::kEc) return 0;
  return a.hash == 256 ? 256 : a.hash == 384 ? 384 : 521;
}

std::string Key::show() const {
  std::string r = ktyName(fam);
  if (fam == Fam::kRsa) r += " " + rsa().name;
  if (fam == Fam::kEc) r += " P-" + std::to_string(ec.curve) + " " + ec.name;
  if (fam == Fam::kOct) r += " k=" + quote(secret, 40);
  if (fam == Fam::kOkp) r += " ed" + std::to_string(idx);
  return r + " kid=" + quote(kid, 60) + " alg=" + quote(alg, 60);
}
std::string showKeys(const std::vector<Key>& ks) {
  std::string r;
  for (auto& k : ks) r += "\n    " + k.show();
  return r;
}
std::string st(Status s) { return getStatusString(s) + "(" + std::to_string(static_cast<int>(s)) + ")"; }

bool Key::sameMaterial(const Key& o) const {
  if (fam != o.fam) return false;
  switch (fam) {
    case Fam::kRsa: return rsa().n == o.rsa().n && rsa().e == o.rsa().e;
    case Fam::kEc: return ec.curve == o.ec.curve && ec.x == o.ec.x && ec.y == o.ec.y;
    case Fam::kOct: return secret == o.secret;
    default: return ed().pub == o.ed().pub;
  }
}

namespace {
int rsaByName(const char* n) {
  auto& v = rsaKeys();
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].name == n) return static_cast<int>(i);
  abort();
}
}  // namespace

Key genKey(Source& s, Fam f, int curve) {
  Key k;
  k.fam = f;
  switch (f) {
    case Fam::kRsa: {
      // Small and cheap ones most of the time.
      static const char* kNames[] = {"r2048a", "r2048b", "r2048c", "r1024", "r2049", "r2047", "r3072", "r4096", "r8192"};
      static const std::vector<int>* idx = [] {
        auto* v = new std::vector<int>;
        for (auto n : kNames) v->push_back(rsaByName(n));
        return v;
      }();
      k.idx = (*idx)[s.weighted({16, 12, 12, 24, 16, 16, 4, 2, 1})];
      break;
    }
    case Fam::kEc: {
      if (!curve) curve = s.weighted({12, 5, 3}) == 0 ? 256 : s.flip() ? 384 : 521;
      std::vector<const EcKey*> v;
      for (auto& e : ecKeys())
        if (e.curve == curve) v.push_back(&e);
      k.ec = *v[s.below(v.size())];
      if (s.p(40)) k.ec = ecFromScalar(curve, s.bulk(70));
      break;
    }
    case Fam::kOct: {
      static const size_t kLens[] = {32, 48, 64, 16, 1, 20, 31, 33, 63, 65, 127, 128, 129, 200, 300, 2};
      size_t n = kLens[s.below(16)];
      if (s.p(9)) n = s.p(90) ? static_cast<size_t>(s.litNum(1, 20000)) : s.range(300, 5000);
      k.secret = s.bulk(n);
      if (s.p(20)) k.secret[s.below(n)] = 0;
      if (s.p(12)) k.secret[0] = 0;
      if (s.p(12)) k.secret[n - 1] = 0;
      break;
    }
    default: k.idx = static_cast<int>(s.below(edKeys().size()));
  }
  return k;
}

Key rotated(Source& s, const Key& k) {
  Key r = k;
  switch (k.fam) {
    case Fam::kRsa: {
      std::vector<int> v;
      for (size_t i = 0; i < rsaKeys().size(); ++i)
        if (static_cast<int>(i) != k.idx && rsaKeys()[i].n.size() == k.rsa().n.size()) v.push_back(static_cast<int>(i));
      r.idx = v.empty() ? genKey(s, k.fam).idx : v[s.below(v.size())];
      break;
    }
    case Fam::kOct:
      if (s.flip()) {
        r.secret = s.bulk(k.secret.size());
      } else if (!r.secret.empty()) {
        r.secret[s.below(r.secret.size())] ^= static_cast<char>(1 << s.below(8));
      }
      break;
    case Fam::kEc: r.ec = genKey(s, k.fam, k.ec.curve).ec; break;
    default: r.idx = genKey(s, k.fam).idx;
  }
  return r;
}

namespace {
std::string crvName(const Key& k) { return "P-" + std::to_string(k.ec.curve); }
bool crvNeeded(const Key& k) {
  if (k.ec.curve == 256) return false;
  return k.alg.empty();
}
}  // namespace

J jwkOf(const Key& k) {
  J j = J::object();
  j.set("kty", J::str(ktyName(k.fam)));
  if (!k.kid.empty()) j.set("kid", J::str(k.kid));
  if (!k.alg.empty()) j.set("alg", J::str(k.alg));
  switch (k.fam) {
    case Fam::kRsa:
      j.set("n", J::str(b64url(k.rsa().n)));
      j.set("e", J::str(b64url(k.rsa().e)));
      break;
    case Fam::kEc:
      j.set("crv", J::str(crvName(k)));
      j.set("x", J::str(b64url(k.ec.x)));
      j.set("y", J::str(b64url(k.ec.y)));
      break;
    case Fam::kOct: j.set("k", J::str(b64url(k.secret))); break;
    default:
      j.set("crv", J::str("Ed25519"));
      j.set("x", J::str(b64url(k.ed().pub)));
  }
  return j;
}

namespace {
// Reads a JSON text without white space and escapes.
J plainJson(const char** p) {
  auto text = [&] {
    const char* b = ++*p;
    while (**p != '"') ++*p;
    return std::string(b, (*p)++ - b);
  };
  char c = **p;
  if (c == '"') return J::str(text());
  if (c == '[' || c == '{') {
    J j = c == '[' ? J::array() : J::object();
    while (*++*p != (c == '[' ? ']' : '}')) {
      std::string name;
      if (c == '{') {
        name = text();
        ++*p;
      }
      J v = plainJson(p);
      if (c == '[') j.list.push_back(v);
      else j.set(name, v);
      if (**p != ',') break;
    }
    ++*p;
    return j;
  }
  std::string w;
  while (isalnum(static_cast<unsigned char>(**p)) || **p == '.' || **p == '-') w += *(*p)++;
  return w == "null" ? J::null() : w == "true" || w == "false" ? J::boolean(w == "true") : J::number(w);
}
}  // namespace

// Members that such objects have elsewhere, and that change nothing here.
void addMembers(Source& s, J* j, Part part) {
  struct M {
    const char* name;
    const char* values;  // texts of the value, separated by '|'
  };
  static const M kJwk[] = {
      {"use", "\"sig\"|\"enc\"|\"\"|\"signature\"|null|[\"sig\"]|7"},
      {"key_ops", "[\"verify\"]|[\"sign\",\"verify\"]|[\"encrypt\"]|[\"deriveKey\"]|[]|\"verify\"|[7]|{}"},
      {"x5t", "\"abc\"|\"\"|7"},
      {"x5t#S256", "\"abc\"|\"\"|7"},
      {"x5u", "\"https://x.test/c.pem\"|7"},
      {"x5c", "[\"MIIB\"]|[]|\"MIIB\"|[7]"},
      {"ext", "true|false|\"true\""},
      {"exp", "1|0|1700000000|99999999999|\"never\""},
      {"nbf", "1|0|1700000000|99999999999|\"never\""},
      {"iat", "1|1700000000|99999999999"},
      {"revoked", "true|false|{\"revoked_at\":1,\"reason\":\"superseded\"}"},
      {"status", "\"revoked\"|\"active\"|\"disabled\"|0"},
      {"enabled", "false|true|0"},
      {"active", "false|true|0"},
      {"d", "\"AQAB\"|\"\"|7"},
      {"p", "\"AQAB\"|7"},
      {"oth", "[]|[{\"r\":\"AQAB\"}]"},
      {"issuer", "\"https://x.test\"|7"},
      {"Kid", "\"k1\"|7"},
      {"Alg", "\"none\"|\"RS256\"|7"},
      {"KTY", "\"oct\"|7"},
      {"keys", "[]|[{\"kty\":\"oct\",\"k\":\"YWJj\"}]|{}"},
      {"", "\"x\"|{}"},
  };
  static const M kHeader[] = {
      {"typ", "\"JWT\"|\"jwt\"|\"at+jwt\"|\"application/at+jwt\"|\"JOSE\"|\"JWE\"|\"\"|7|null"},
      {"cty", "\"JWT\"|\"json\"|7"},
      {"jku", "\"https://x.test/jwks\"|\"\"|7"},
      {"jwk", "{\"kty\":\"oct\",\"k\":\"YWJj\"}|{}|\"x\""},
      {"x5u", "\"https://x.test/c.pem\"|7"},
      {"x5c", "[\"MIIB\"]|[]|\"MIIB\""},
      {"x5t", "\"abc\"|\"k1\"|7"},
      {"x5t#S256", "\"abc\"|7"},
      {"enc", "\"A128GCM\"|\"\"|7"},
      {"zip", "\"none\"|7"},
      {"nonce", "\"abc\"|7"},
      {"ver", "1|\"1.0\""},
      {"iss", "\"me\"|7"},
      {"sub", "\"me\"|7"},
      {"aud", "\"me\"|[\"a\",\"b\"]|7"},
      {"exp", "1|0|\"never\"|99999999999"},
      {"Alg", "\"none\"|\"HS256\"|7"},
      {"ALG", "\"none\"|\"HS256\"|7"},
      {"Kid", "\"k1\"|\"k2\"|7"},
      {"use", "\"enc\"|\"sig\""},
      {"crv", "\"P-256\"|\"Ed25519\""},
      {"kty", "\"oct\"|\"RSA\""},
      {"", "\"x\"|{}"},
  };
  static const M kPayload[] = {
      {"azp", "\"me\"|7"},
      {"nonce", "\"abc\"|7"},
      {"auth_time", "1|1700000000|\"1\""},
      {"scope", "\"read write\"|[\"read\"]"},
      {"client_id", "\"me\"|7"},
      {"cnf", "{\"jkt\":\"abc\"}|{\"kid\":\"k1\"}"},
      {"roles", "[\"a\",\"b\"]|[]"},
      {"email_verified", "true|false|\"true\""},
      {"typ", "\"ID\"|\"Bearer\"|\"refresh\""},
      {"kid", "\"k1\"|\"k2\"|7"},
      {"alg", "\"none\"|\"HS256\"|7"},
      {"keys", "[]|[{\"kty\":\"oct\",\"k\":\"YWJj\"}]"},
      {"Exp", "1|99999999999|\"x\""},
      {"expires_in", "0|3600"},
      {"expires", "1|\"x\""},
      {"issuer", "\"me\"|7"},
      {"audience", "\"me\"|[\"a\"]"},
      {"jku", "\"https://x.test/jwks\""},
      {"ver", "\"1.0\"|2"},
      {"", "\"x\"|{}"},
  };
  static const M kSet[] = {
      {"issuer", "\"https://x.test\"|7"}, {"version", "1|\"2\""},      {"expires", "1|0|\"x\""},
      {"exp", "1|0|1700000000"},          {"kid", "\"k1\"|7"},          {"alg", "\"RS256\"|\"none\"|7"},
      {"kty", "\"oct\"|\"RSA\"|7"},       {"use", "\"enc\"|\"sig\"|7"}, {"x5c", "[\"MIIB\"]|[]"},
      {"Keys", "[]|{}"},                  {"signed", "\"x\"|true"},      {"", "\"x\"|[]"},
  };
  static const char* const kMeant[4] = {" kty kid alg crv n e x y k ", " alg kid ", " iss sub jti aud iat nbf exp ", " keys "};
  const M* v = part == Part::kJwk ? kJwk : part == Part::kHeader ? kHeader : part == Part::kPayload ? kPayload : kSet;
  size_t size = part == Part::kJwk ? sizeof kJwk / sizeof(M) : part == Part::kHeader ? sizeof kHeader / sizeof(M)
              : part == Part::kPayload ? sizeof kPayload / sizeof(M) : sizeof kSet / sizeof(M);
  for (size_t n = 1 + s.below(3); n > 0; --n) {
    std::string name;
    J value;
    if (s.p(60)) {
      // As the code under test names its members.
      name = s.litText(40);
      if (std::string(kMeant[static_cast<int>(part)]).find(" " + name + " ") != std::string::npos) continue;
      value = s.flip() ? J::str(s.litText(40)) : s.flip() ? J::number(std::to_string(s.litNum(-1000000, 1000000000000))) : genJson(s, 1);
    } else {
      const M& m = v[s.below(size)];
      name = m.name;
      std::vector<J> alts;
      const char* p = m.values;
      do {
        alts.push_back(plainJson(&p));
      } while (*p++ == '|');
      value = s.pick(alts);
      if (s.p(20)) value = J::str(s.litText(40));
    }
    if (!j->get(name)) j->set(name, value);
  }
}

J jwkOf(const Key& k, Source& s) {
  J j = jwkOf(k);
  if (k.fam == Fam::kEc && !crvNeeded(k) && s.p(80)) j.erase("crv");
  if (k.kid.empty() && s.p(20)) j.set("kid", J::str(""));
  if (k.alg.empty() && s.p(20)) j.set("alg", J::str(""));
  if (s.p(60)) j.set("use", J::str("sig"));
  if (s.p(20)) j.set("key_ops", J::array({J::str("verify")}));
  if (s.p(20)) j.set("x5t", J::str(genText(s, 10)));
  if (s.p(20)) j.set("ext", J::boolean(true));
  if (s.p(15)) {
    // Members of other key types must not matter.
    static const char* kNames[] = {"n", "e", "k", "d", "p", "x", "y"};
    std::string nm = s.pick(kNames);
    if (!j.get(nm)) j.set(nm, s.flip() ? J::str(b64url(s.bulk(s.below(40)))) : genJson(s, 1));
  }
  if (s.p(20)) j.set("extra." + std::to_string(s.below(3)), genJson(s, 2));
  if (s.p(60)) addMembers(s, &j, Part::kJwk);
  if (s.p(120)) s.shuffle(j.obj);
  return j;
}

J genBadJwk(Source& s) {
  switch (s.below(12)) {
    case 0: return J::null();
    case 1: return J::str("not a key");
    case 2: return genNumber(s);
    case 3: return J::array();
    case 4: return J::object();
    case 5: {
      J j = jwkOf(genKey(s, Fam::kRsa));
      j.erase(s.flip() ? "n" : "e");
      return j;
    }
    case 6: {
      J j = jwkOf(genKey(s, Fam::kEc, 256));
      j.erase(s.flip() ? "x" : "y");
      return j;
    }
    case 7: {
      J j = jwkOf(genKey(s, Fam::kOct));
      if (s.flip()) {
        j.erase("k");
      } else {
        j.set("k", J::str(""));
      }
      return j;
    }
    case 8: {
      J j = jwkOf(genKey(s, Fam::kOkp));
      switch (s.below(3)) {
        case 0: j.erase("crv"); break;
        case 1: j.set("crv", J::str("X25519")); break;
        default: j.set("x", J::str("AAAA"));
      }
      return j;
    }
    case 9: {
      J j = jwkOf(genKey(s, static_cast<Fam>(s.below(4))));
      static const char* kBad[] = {"rsa", "ec", "OCT", "", "RSA ", "okp"};
      j.set("kty", J::str(s.pick(kBad)));
      return j;
    }
    case 10: {
      J j = jwkOf(genKey(s, static_cast<Fam>(s.below(4))));
      j.set("alg", J::str("none"));
      return j;
    }
    default: {
      Key k = genKey(s, Fam::kEc, 256);
      k.ec.y[k.ec.y.size() - 1] ^= 1;
      return jwkOf(k);
    }
  }
}

std::string genKid(Source& s) {
  static const char* kPool[] = {"k1", "k2", "k3", "K1", "k", "k11", "k1 ", " k1", "1", "sub:key", "k\xc3\xa9y"};
  switch (s.weighted({20, 4, 2, 2, 1})) {
    case 4: {
      std::string t = s.litText(5000);
      return t.empty() || t == "keys" ? "k1" : t;
    }
    case 0: return s.pick(kPool);
    case 1: return genText(s, 16) + "z";
    case 2: return std::string("a\0b", 3) + static_cast<char>('a' + s.below(2));
    default: return std::string(1 + s.many(300, 5000, 10), 'x');
  }
}

J genPayload(Source& s, bool big) {
  J p = genObject(s, 3, 3);
  for (auto* n : {"iss", "sub", "jti", "aud", "iat", "nbf", "exp"}) p.erase(n);
  if (s.p(150)) p.set("iss", J::str(genText(s, 20)));
  if (s.p(120)) p.set("sub", J::str(genText(s, 20)));
  if (s.p(90)) p.set("jti", J::str(genText(s, 20)));
  if (s.p(100)) {
    if (s.flip()) {
      p.set("aud", J::str(genText(s, 20)));
    } else {
      J a = J::array();
      for (size_t n = s.many(3, 60); n > 0; --n) a.list.push_back(J::str(genText(s, 12)));
      p.set("aud", a);
    }
  }
  for (auto* n : {"iat", "nbf", "exp"})
    if (s.p(90)) p.set(n, J::integer(s.p(20) ? static_cast<uint64_t>(s.litNum(0, INT64_MAX)) : s.u64() >> (12 + s.below(52))));
  if (big && s.p(40)) {
    static const size_t kSizes[] = {100, 1000, 4096, 20000, 100000};
    p.set("blob", J::str(b64url(s.bulk(s.p(60) ? static_cast<size_t>(s.litNum(0, 100000)) : s.pick(kSizes) + s.below(64)))));
  }
  if (s.p(40)) addMembers(s, &p, Part::kPayload);
  s.shuffle(p.obj);
  return p;
}

void encode(Token* t) {
  t->h64 = b64url(t->htext);
  t->p64 = b64url(t->ptext);
}

Token genToken(Source& s, const std::string& alg, const std::string& kid, bool big) {
  Token t;
  t.alg = alg;
  t.kid = kid;
  t.header = J::object();
  t.header.set("alg", J::str(alg));
  if (!kid.empty())
    t.header.set("kid", J::str(kid));
  else if (s.p(20))
    t.header.set("kid", J::str(""));
  if (s.p(120)) t.header.set("typ", J::str("JWT"));
  if (s.p(30)) t.header.set("x" + std::to_string(s.below(3)), genJson(s, 2));
  if (s.p(40)) addMembers(s, &t.header, Part::kHeader);
  if (s.p(100)) s.shuffle(t.header.obj);
  t.payload = genPayload(s, big);
  bool compact = s.p(100);
  t.htext = compact ? writeJson(t.header) : writeJson(t.header, s);
  t.ptext = compact ? writeJson(t.payload) : writeJson(t.payload, s);
  encode(&t);
  return t;
}

bool canSign(const Key& k, const Alg& a) {
  if (k.fam != a.fam) return false;
  if (a.pss) return pssFits(k.rsa(), a.hash, a.hash / 8);
  return true;
}

std::string signWith(const Key& k, const Alg& a, const std::string& in, Source& s) {
  switch (a.fam) {
    case Fam::kRsa:
      if (a.pss) return signPss(k.rsa(), a.hash, in, s.bulk(a.hash / 8));
      return signPkcs1(k.rsa(), a.hash, in);
    case Fam::kEc: {
      std::string nonce = s.bulk(66);
      if (s.p(60)) nonce = leadingZeroNonce(k.ec.curve, s.below(16));
      return signEcdsa(k.ec, a.hash, in, nonce);
    }
    case Fam::kOct: return hmac(a.hash, k.secret, in);
    default: return signEd(k.ed(), in);
  }
}

Key ecKeyForSignature(Source& s, int curve, int hash, const std::string& in, std::string* sig) {
  size_t len = (curve + 7) / 8;
  std::string nonce = s.flip() ? leadingZeroNonce(curve, s.below(16)) : s.bulk(66);
  std::string sval;
  switch (s.below(4)) {
    case 0: sval = s.bulk(len); break;
    case 1: sval = "\x01" + s.bulk(len - 2); break;
    case 2: sval = "\x80" + s.bulk(len - 1 - s.range(1, 3)); break;
    default: sval = std::string(1, static_cast<char>(1 + s.below(255)));
  }
  Key k;
  k.fam = Fam::kEc;
  k.ec = ecKeyForSignature(curve, hash, in, nonce, sval, sig);
  return k;
}

bool eligible(const Key& k, const std::string& alg, const std::string& kid) {
  if (!kid.empty() && !k.kid.empty() && kid != k.kid) return false;
  return k.alg.empty() || k.alg == alg;
}

bool refVerifies(const Key& k, const std::string& alg, const std::string& in, const std::string& sig) {
  const Alg* a = algByName(alg);
  if (!a || a->fam != k.fam) return false;
  switch (k.fam) {
    case Fam::kRsa: {
      int salt;
      return a->pss ? verifyPss(k.rsa().n, k.rsa().e, a->hash, in, sig, &salt)
                    : verifyPkcs1(k.rsa().n, k.rsa().e, a->hash, in, sig);
    }
    case Fam::kEc: return verifyEcdsa(k.ec.curve, k.ec.x, k.ec.y, a->hash, in, sig);
    case Fam::kOct: return hmac(a->hash, k.secret, in) == sig;
    default: return verifyEd(k.ed().pub, in, sig);
  }
}

Status modelVerdict(const std::vector<Key>& keys, const std::string& alg, const std::string& kid,
                    const std::string& in, const std::string& sig) {
  bool matched = false;
  for (auto& k : keys) {
    if (!eligible(k, alg, kid)) continue;
    matched = true;
    if (alg == "EdDSA" && k.fam == Fam::kOkp && sig.size() != 64)
      return Status::JwtEd25519SignatureWrongLength;
    if (refVerifies(k, alg, in, sig)) return Status::Ok;
  }
  return matched ? Status::JwtVerificationFail : Status::JwksKidAlgMismatch;
}

bool pemAble(const Key& k) { return k.fam != Fam::kOct; }
bool certAble(const Key& k) {
  return k.fam == Fam::kRsa && k.alg.empty() && !k.kid.empty() && k.kid != "keys";
}
std::string pemOf(const Key& k) {
  return k.fam == Fam::kRsa ? k.rsa().pem : k.fam == Fam::kEc ? k.ec.pem : k.ed().pem;
}

namespace {
std::string tlv(int tag, const std::string& v) {
  std::string r(1, static_cast<char>(tag));
  if (v.size() < 128) {
    r += static_cast<char>(v.size());
  } else if (v.size() < 256) {
    r += '\x81', r += static_cast<char>(v.size());
  } else {
    r += '\x82', r += static_cast<char>(v.size() >> 8), r += static_cast<char>(v.size());
  }
  return r + v;
}
std::string certTime(Source& s) {
  // Long ago, long to come, and around now.
  int year = s.weighted({2, 2, 2, 1, 1}), y = year == 0 ? 1970 + s.below(50) : year == 1 ? 2020 + s.below(12) : year == 2 ? 2032 + s.below(18) : year == 3 ? 2050 + s.below(50) : 9999;
  char b[40];
  snprintf(b, sizeof b, "%04d%02d%02d%02d%02d%02dZ", y, static_cast<int>(s.range(1, 12)), static_cast<int>(s.range(1, 28)), static_cast<int>(s.below(24)),
           static_cast<int>(s.below(60)), static_cast<int>(s.below(60)));
  return y < 2050 ? tlv(0x17, b + 2) : tlv(0x18, b);
}
std::string certName(Source& s) {
  std::string r;
  for (size_t n = s.weighted({1, 6, 2, 1}); n > 0; --n) {
    static const char* kOids[] = {"0603550403", "0603550406", "060355040a", "060355040b"};
    static const char* kTexts[] = {"verif", "securetoken.system.gserviceaccount.com", "US", "x", "a b", "*.example.com"};
    r += tlv(0x31, tlv(0x30, fromHex(kOids[s.below(4)]) + tlv(s.flip() ? 0x0c : 0x13, kTexts[s.below(6)])));
  }
  return tlv(0x30, r);
}
}  // namespace

std::string certOf(const Key& k, Source& s) {
  if (s.p(60) && !k.rsa().cert.empty()) return k.rsa().cert;
  // Nothing but the key is looked at: any issuer, validity, extensions and
  // signature.
  static const char* kSig[] = {"300d06092a864886f70d01010b0500", "300d06092a864886f70d01010c0500", "300d06092a864886f70d0101050500", "300a06082a8648ce3d040302"};
  std::string sig = fromHex(kSig[s.weighted({8, 2, 3, 2})]);
  const int version = s.p(200) ? 2 : 0;
  std::string serial = s.bulk(1 + s.below(19));
  serial[0] = static_cast<char>((serial[0] & 0x3f) | 0x40);
  std::string tbs = version ? tlv(0xa0, tlv(2, std::string(1, static_cast<char>(version)))) : "";
  tbs += tlv(2, serial) + sig + certName(s) + tlv(0x30, certTime(s) + certTime(s)) + certName(s) + k.rsa().spki;
  if (version == 2 && s.flip()) {
    static const char* kBasic[] = {"300c0603551d130101ff04023000", "300f0603551d130101ff040530030101ff"};
    static const char* kUsage[] = {"300e0603551d0f0101ff040403020780", "300e0603551d0f0101ff040403020106"};
    std::string e;
    if (s.flip()) e += fromHex(kBasic[s.below(2)]);
    if (s.flip()) e += fromHex(kUsage[s.below(2)]);
    if (s.flip()) e += fromHex("30160603551d250101ff040c300a06082b06010505070302");
    if (!e.empty()) tbs += tlv(0xa3, tlv(0x30, e));
  }
  std::string der = tlv(0x30, tlv(0x30, tbs) + sig + tlv(3, std::string(1, '\0') + s.bulk(s.flip() ? 256 : 1 + s.below(80))));
  std::string b = b64std(der), r = "-----BEGIN CERTIFICATE-----\n";
  const size_t width = s.p(200) ? 64 : 76;
  for (size_t i = 0; i < b.size(); i += width) r += b.substr(i, width) + "\n";
  return r + "-----END CERTIFICATE-----\n";
}

std::string jwksText(const std::vector<Key>& keys, Source& s, const LoadOpts& o) {
  J list = J::array();
  auto junk = [&] {
    if (o.junk && s.p(30))
      for (size_t n = s.range(1, 2); n > 0; --n) list.list.push_back(genBadJwk(s));
  };
  for (auto& k : keys) {
    junk();
    list.list.push_back(o.vary ? jwkOf(k, s) : jwkOf(k));
  }
  junk();
  J top = J::object();
  if (o.vary && s.p(20)) top.set("other", genJson(s, 2));
  if (s.p(20)) addMembers(s, &top, Part::kSet);
  top.set("keys", list);
  if (o.vary && s.p(20)) top.set("after", genJson(s, 1));
  return o.vary && s.p(120) ? writeJson(top, s) : writeJson(top);
}

JwksPtr loadSet(const std::vector<Key>& keys, Source& s, const LoadOpts& o, std::string* how,
                std::string* why) {
  JwksPtr ks;
  size_t i = 0;
  auto bad = [&](const std::string& w, Status got) -> JwksPtr {
    *why = w + " refused: " + st(got) + " after loading " + *how;
    return nullptr;
  };
  // The first keys, up to a point, from one text, the rest as added PEM keys.
  size_t pem_tail = 0;
  if (o.allow_pem)
    while (pem_tail < keys.size() && pemAble(keys[keys.size() - 1 - pem_tail]) && s.p(70)) ++pem_tail;
  size_t head = keys.size() - pem_tail;
  bool all_cert = head > 0;
  for (size_t k = 0; k < head; ++k) {
    all_cert = all_cert && certAble(keys[k]);
    for (size_t m = 0; m < k; ++m) all_cert = all_cert && keys[m].kid != keys[k].kid;
  }
  if (all_cert && o.allow_pem && s.p(150)) {
    J top = J::object();
    for (; i < head; ++i) top.set(keys[i].kid, J::str(certOf(keys[i], s)));
    *how += "X509 x" + std::to_string(head);
    ks = Jwks::createFrom(writeJson(top), Jwks::JWKS);
    if (ks->getStatus() != Status::Ok) return bad("certificate set", ks->getStatus());
  } else if (head == 0 && !keys.empty()) {
    *how += "PEM";
    ks = Jwks::createFromPem(pemOf(keys[0]), keys[0].kid, keys[0].alg);
    if (ks->getStatus() != Status::Ok) return bad("PEM key " + keys[0].show(), ks->getStatus());
    i = 1;
  } else {
    std::string text = jwksText(std::vector<Key>(keys.begin(), keys.begin() + head), s, o);
    *how += "JWKS x" + std::to_string(head);
    JwksPtr before;
    if (s.p(10)) {
      *how += " after another much like it";
      before = Jwks::createFrom(nearText(s, text), Jwks::JWKS);
      if (s.flip()) before.reset();
    }
    ks = Jwks::createFrom(text, Jwks::JWKS);
    if (head > 0 && ks->getStatus() != Status::Ok) return bad("key set " + text.substr(0, 3000), ks->getStatus());
    i = head;
  }
  for (; i < keys.size(); ++i) {
    *how += " +PEM";
    Status r = ks->addKeyFromPem(pemOf(keys[i]), keys[i].kid, keys[i].alg);
    if (r != Status::Ok) return bad("added PEM key " + keys[i].show(), r);
  }
  if (ks->keys().size() != keys.size()) {
    *why = "key set loaded by " + *how + " holds " + std::to_string(ks->keys().size()) + " keys instead of " +
           std::to_string(keys.size());
    return nullptr;
  }
  return ks;
}

std::string nearText(Source& s, const std::string& t) {
  std::string r = t;
  std::vector<size_t> at;
  for (size_t i = 0; i < r.size(); ++i)
    if (isalnum(static_cast<unsigned char>(r[i]))) at.push_back(i);
  if (at.empty()) return r;
  for (size_t n = 1 + s.below(3); n > 0; --n) {
    char& ch = r[s.pick(at)];
    if (isdigit(static_cast<unsigned char>(ch))) ch = static_cast<char>('1' + s.below(9));
    else if (isupper(static_cast<unsigned char>(ch))) ch = static_cast<char>('A' + s.below(26));
    else ch = static_cast<char>('a' + s.below(26));
  }
  return r;
}

std::string nearToken(Source& s, const std::string& t) {
  size_t d1 = t.find('.');
  size_t d2 = d1 == std::string::npos ? d1 : t.find('.', d1 + 1);
  if (d2 == std::string::npos) return nearText(s, t);
  std::string part[3] = {t.substr(0, d1), t.substr(d1 + 1, d2 - d1 - 1), t.substr(d2 + 1)};
  size_t i = s.weighted({2, 5, 2});
  std::string d;
  if (i < 2 && !part[i].empty() && b64urlDecodeStrict(part[i], &d)) part[i] = b64url(nearText(s, d));
  else part[i] = nearText(s, part[i]);
  return part[0] + "." + part[1] + "." + part[2];
}

JwksPtr readNearSet(Source& s, Ctx& c, const std::string& t, Jwks::Type type) {
  std::string n = nearText(s, t);
  JwksPtr ks = Jwks::createFrom(n, type);
  c.note([&](std::ostream& o) { o << "read before, giving " << st(ks->getStatus()) << ": " << quote(n, 3000); });
  c.label("after reading a text much like it");
  if (s.flip()) ks.reset();
  return ks;
}

std::unique_ptr<Jwt> readNearToken(Source& s, Ctx& c, const std::string& t) {
  std::string n = nearToken(s, t);
  std::unique_ptr<Jwt> j(new Jwt);
  Status r = j->parseFromString(n);
  c.note([&](std::ostream& o) { o << "parsed before, giving " << st(r) << ": " << quote(n, 3000); });
  c.label("after parsing a token much like it");
  if (s.flip()) j.reset();
  return j;
}

}  // namespace vp
