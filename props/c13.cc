// C13: no input makes the library crash, corrupt memory, hang or leak.
#include <openssl/err.h>
#include <sanitizer/allocator_interface.h>

#include "forge.h"
#include "jwkgen.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"

namespace vp {
namespace {
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;

void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

struct Op {
  int kind = 0;
  size_t i = 0, j = 0;
  uint64_t n = 0, m = 0;
  std::string a, b, d;
  std::vector<std::string> l;
};
constexpr int kKinds = 15;
constexpr size_t kObjs = 3;

// Everything the calls answered, so that nothing is optimised away.
struct Answers {
  uint64_t ok = 0, err = 0, sum = 0, verified = 0, parsed = 0, loaded = 0;
};

void execute(const std::vector<Op>& ops, Answers* r) {
  std::vector<std::unique_ptr<Jwt>> jwts;
  std::vector<JwksPtr> sets;
  for (size_t i = 0; i < kObjs; ++i) {
    jwts.emplace_back(new Jwt);
    sets.push_back(Jwks::createFrom(i == 0 ? "{\"keys\":[]}" : "", i == 2 ? Jwks::PEM : Jwks::JWKS));
  }
  auto take = [&](Status s) {
    ++(s == Status::Ok ? r->ok : r->err);
    r->sum += google::jwt_verify::getStatusString(s).size();
    return s == Status::Ok;
  };
  for (auto& o : ops) {
    std::unique_ptr<Jwt>& t = jwts[o.i % kObjs];
    JwksPtr& k = sets[o.j % kObjs];
    switch (o.kind) {
      case 0: r->parsed += take(t->parseFromString(o.a)); break;
      case 1:
        k = Jwks::createFrom(o.a, Jwks::JWKS);
        r->loaded += take(k->getStatus());
        break;
      case 2:
        k = Jwks::createFrom(o.a, Jwks::PEM);
        r->loaded += take(k->getStatus());
        break;
      case 3:
        k = Jwks::createFromPem(o.a, o.b, o.d);
        r->loaded += take(k->getStatus());
        break;
      case 4: r->loaded += take(k->addKeyFromPem(o.a, o.b, o.d)); break;
      case 5: r->verified += take(google::jwt_verify::verifyJwtWithoutTimeChecking(*t, *k)); break;
      case 6: r->verified += take(google::jwt_verify::verifyJwt(*t, *k)); break;
      case 7: r->verified += take(google::jwt_verify::verifyJwt(*t, *k, o.n, o.m)); break;
      case 8: r->verified += take(google::jwt_verify::verifyJwt(*t, *k, o.l)); break;
      case 9: r->verified += take(google::jwt_verify::verifyJwt(*t, *k, o.l, o.n)); break;
      case 10: {
        CheckAudience ca(o.l);
        r->sum += ca.areAudiencesAllowed(t->audiences_) + ca.empty();
        r->sum += ca.areAudiencesAllowed(o.l);
        break;
      }
      case 11: {
        for (auto* pb : {&t->payload_pb_, &t->header_pb_}) {
          StructUtils u(*pb);
          std::string str;
          uint64_t num = 0;
          double dbl = 0;
          bool flag = false;
          std::vector<std::string> list;
          const google::protobuf::Value* v = nullptr;
          r->sum += u.GetString(o.a, &str);
          r->sum += u.GetUInt64(o.a, &num);
          r->sum += u.GetDouble(o.a, &dbl);
          r->sum += u.GetBoolean(o.a, &flag);
          r->sum += u.GetStringList(o.a, &list);
          r->sum += u.GetValue(o.a, v);
          r->sum += str.size() + num + flag + list.size() + (dbl > 1);
          // What was found stays readable.
          if (v) r->sum += v->ByteSizeLong();
        }
        break;
      }
      case 12: {
        Jwt copy(*t);
        *jwts[o.j % kObjs] = copy;
        *t = *t;
        if (o.n & 1) t.reset(new Jwt(copy));
        break;
      }
      case 13: take(t->verifyTimeConstraint(o.n, o.m)); break;
      default: take(static_cast<Status>(static_cast<int>(o.n)));
    }
  }
}

// ------------------------------------------------------------- inputs
std::string nested(Source& s) {
  static const size_t kDepths[] = {3, 20, 90, 99, 100, 101, 102, 150, 1000, 20000};
  size_t d = s.pick(kDepths);
  bool obj = s.flip();
  std::string r;
  for (size_t i = 0; i < d; ++i) r += obj ? "{\"a\":" : "[";
  r += "1";
  for (size_t i = 0; i < d; ++i) r += obj ? "}" : "]";
  return r;
}

std::string anyBytes(Source& s) {
  switch (s.weighted({4, 2, 1, 1})) {
    case 0: return s.bytes(s.below(40));
    case 1: return genText(s, 40);
    case 2: {
      static const size_t kSizes[] = {0, 1, 64, 1000, 65536, 300000};
      return std::string(s.pick(kSizes), "A.\"{[-\xff"[s.below(7)]);
    }
    default: return s.bulk(s.below(5000));
  }
}

// Damages a text in small ways.
std::string mutate(Source& s, std::string t) {
  static const char* kTokens[] = {"\"", "{", "}", "[", "]", ":", ",", "null", "true", "-1", "1e308", "1e400", "18446744073709551616", "18446744073709551615",
                                  "-0", "0.5", "\"\"", "\\u0000", "\\ud800", "\xc0\x80", "\xff", ".", "..", "=", "-----BEGIN PUBLIC KEY-----\n", "-----END CERTIFICATE-----",
                                  "\n", "\"kty\":\"RSA\"", "\"keys\"", "\"alg\":\"EdDSA\"", "\"aud\":[1]", "{}", "[]"};
  for (size_t n = 1 + s.below(3); n > 0; --n) {
    size_t at = s.below(t.size() + 1);
    switch (s.below(8)) {
      case 0:
        if (at < t.size()) t[at] ^= static_cast<char>(1 << s.below(8));
        break;
      case 1: t.erase(at, 1 + s.below(4)); break;
      case 2: t.insert(at, s.pick(kTokens)); break;
      case 3: t.resize(at); break;
      case 4: t.insert(at, t.substr(s.below(t.size() + 1), 1 + s.below(40))); break;
      case 5: t.erase(at, s.below(t.size() + 1)); break;
      case 6:
        if (at < t.size()) t[at] = static_cast<char>(s.byte());
        break;
      default: t.insert(at, s.p(60) ? nested(s) : std::string(1 + s.below(40), "A=0 \n/9."[s.below(8)]));
    }
  }
  return t;
}

J oddNumber(Source& s) {
  static const char* k[] = {"-1",   "0",    "-0",  "1e19",   "18446744073709551615", "18446744073709551616", "9223372036854775808", "1e308", "-1e308", "1e-320",
                            "0.99", "-0.5", "1e2", "1.5e10", "18446744073709549568", "4294967296"};
  return J::number(s.pick(k));
}

std::string anyToken(Source& s, const std::vector<Key>& keys) {
  Token t = genToken(s, kAlgs[s.below(13)].name, s.p(120) ? genKid(s) : "", s.p(30));
  auto dirty = [&](J* j) {
    static const char* kNames[] = {"alg", "kid", "iss", "sub", "aud", "iat", "nbf", "exp", "jti", "typ", "a", "", "."};
    for (size_t n = s.below(3); n > 0; --n) j->set(s.pick(kNames), s.p(90) ? oddNumber(s) : s.p(120) ? genJson(s, 2) : notText(s));
  };
  if (s.p(80)) {
    dirty(&t.header);
    t.htext = writeJson(t.header);
  }
  if (s.p(120)) {
    dirty(&t.payload);
    t.ptext = writeJson(t.payload);
  }
  if (s.p(40)) t.htext = s.flip() ? badJson(s, t.header) : mutate(s, t.htext);
  if (s.p(40)) t.ptext = s.flip() ? badJson(s, t.payload) : mutate(s, t.ptext);
  if (s.p(15)) t.ptext = nested(s);
  if (s.p(15)) t.ptext = "{\"exp\":" + nested(s) + "}";
  encode(&t);
  // A signature: genuine, of an odd length, or of another algorithm.
  static const size_t kLens[] = {0, 1, 2, 31, 32, 48, 63, 64, 65, 95, 96, 97, 128, 131, 132, 133, 255, 256, 257, 384, 512, 4096, 70000};
  bool made = false;
  if (!keys.empty() && s.p(150)) {
    const Key& k = keys[s.below(keys.size())];
    std::vector<const Alg*> fit;
    for (auto& x : kAlgs)
      if (canSign(k, x)) fit.push_back(&x);
    const Alg& a = *s.pick(fit);
    {
      if (s.p(200)) {
        t.header.set("alg", J::str(a.name));
        t.header.erase("kid");
        t.htext = writeJson(t.header);
        encode(&t);
      }
      t.sig = signWith(k, a, t.input(), s);
      made = true;
      std::string what;
      if (s.p(60)) algForgery(s, k, a, &t, &what);
      else if (s.p(50)) mutateSig(s, &t, &what);
    }
  }
  if (!made) t.sig = s.p(100) ? std::string(s.pick(kLens), "\0\xff\1"[s.below(3)]) : s.bulk(s.pick(kLens));
  std::string r = t.str();
  if (s.p(40)) r = mutate(s, r);
  if (s.p(20)) r += "." + b64url(anyBytes(s));
  return r;
}

std::string hugeB64(Source& s) {
  static const size_t kSizes[] = {0, 1, 4, 5, 128, 512, 2048, 2049, 4096, 20000, 100000};
  std::string v = s.flip() ? s.bulk(s.pick(kSizes)) : std::string(s.pick(kSizes), "\0\xff\1"[s.below(3)]);
  if (!v.empty() && s.flip()) v.back() |= 1;
  return b64url(v);
}

std::string anyJwks(Source& s, std::vector<Key>* keys) {
  J list = J::array();
  for (size_t n = s.below(4); n > 0; --n) {
    if (s.flip()) {
      Key k = genKey(s, static_cast<Fam>(s.below(4)));
      J j = jwkOf(k);
      keys->push_back(k);
      if (s.p(40)) {
        static const char* kNames[] = {"n", "e", "x", "y", "k"};
        j.set(s.pick(kNames), J::str(hugeB64(s)));
      }
      list.list.push_back(j);
    } else {
      list.list.push_back(s.p(200) ? genFaultyJwk(s, s.below(3)) : genJson(s, 2));
    }
  }
  J top = genObject(s, 1, 2);
  top.set("keys", s.p(15) ? genJson(s, 2) : list);
  std::string t = writeJson(top);
  if (s.p(60)) t = mutate(s, t);
  if (s.p(10)) t = "{\"keys\":[{\"kty\":\"oct\",\"x\":" + nested(s) + "}]}";
  return t;
}

std::string anyPem(Source& s, std::vector<Key>* keys) {
  static const Fam kF[] = {Fam::kEc, Fam::kRsa, Fam::kOkp};
  Key k = genKey(s, kF[s.below(3)]);
  std::string t;
  if (s.p(60)) {
    // Damage inside the DER text.
    std::string d = k.fam == Fam::kRsa ? k.rsa().spki : k.fam == Fam::kEc ? k.ec.spki : edKeys()[0].spki;
    for (size_t n = 1 + s.below(3); n > 0; --n) {
      size_t at = s.below(s.flip() ? std::min<size_t>(d.size(), 40) : d.size());
      switch (s.below(3)) {
        case 0: d[at] = static_cast<char>(s.byte()); break;
        case 1: d.erase(at, 1); break;
        default: d.insert(at, 1, static_cast<char>(s.byte()));
      }
      if (d.empty()) break;
    }
    t = "-----BEGIN PUBLIC KEY-----\n" + b64std(d) + "\n-----END PUBLIC KEY-----\n";
  } else {
    t = pemOf(k);
    keys->push_back(k);
  }
  if (s.p(60)) t = mutate(s, t);
  if (s.p(20)) t += anyPem(s, keys);
  return t;
}

std::string anyCertSet(Source& s, std::vector<Key>* keys) {
  J top = J::object();
  std::vector<std::string> certs;
  for (auto& r : rsaKeys())
    if (!r.cert.empty()) certs.push_back(r.cert);
  for (auto& r : ecKeys())
    if (!r.cert.empty()) certs.push_back(r.cert);
  for (size_t n = s.below(4); n > 0; --n) {
    std::string cert = certs[s.below(certs.size())];
    switch (s.below(4)) {
      case 0: {
        // Damage inside the certificate.
        size_t b = cert.find('\n') + 1, e = cert.rfind("-----END") - 1;
        for (size_t m = 1 + s.below(4); m > 0; --m) cert[b + s.below(e - b)] = "AQgwBIZz/+"[s.below(10)];
        break;
      }
      case 1: cert = "-----BEGIN CERTIFICATE-----\n" + (s.flip() ? b64std(s.bulk(s.below(200))) : anyBytes(s)) + "\n-----END CERTIFICATE-----\n"; break;
      default: break;
    }
    top.set(s.p(220) ? genKid(s) : "", J::str(cert));
  }
  (void)keys;
  std::string t = writeJson(top);
  if (s.p(40)) t = mutate(s, t);
  return t;
}

std::string anyName(Source& s) {
  static const char* k[] = {"iss", "a", "a.b", "", ".", "..", "a.", ".a", "exp", "aud", "nested.k", "a.b.c.d.e.f"};
  return s.p(60) ? anyBytes(s) : s.pick(k);
}

std::vector<std::string> anyList(Source& s) {
  static const char* k[] = {"", "/", "http://", "https://", "http:///", "https://a/", "a", "a/", "http:", "https://http://a//"};
  std::vector<std::string> v;
  for (size_t n = s.below(4); n > 0; --n) v.push_back(s.p(80) ? anyBytes(s) : s.pick(k));
  return v;
}
std::string smallText(Source& s) {
  return s.p(128) ? std::string() : s.p(128) ? std::string(kAlgs[s.below(13)].name) : anyBytes(s);
}
uint64_t anyTime(Source& s) {
  static const uint64_t k[] = {0, 1, 60, 61, 1000000000, ~0ull, ~0ull - 60, 1ull << 63, (1ull << 63) - 1, 1ull << 32};
  return s.flip() ? s.pick(k) : s.u64();
}

// Calls whose input is large in one respect: time must not grow much faster
// than the input does.
std::vector<Op> large(Source& s) {
  const size_t n = s.p(60) ? static_cast<size_t>(s.litNum(1000, 100000)) : s.flip() ? 100000 : 20000;
  std::vector<Op> ops;
  auto add = [&](int kind, const std::string& a = "") {
    Op o;
    o.kind = kind;
    o.a = a;
    o.n = 1000;
    o.m = 60;
    ops.push_back(o);
  };
  auto many = [&](const std::string& pre, const std::string& post) {
    std::string r;
    for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + pre + std::to_string(i) + post;
    return r;
  };
  auto token = [&](const std::string& header, const std::string& payload) { return b64url("{\"alg\":\"HS256\"" + header + "}") + "." + b64url(payload) + ".AAAA"; };
  auto loop = [&](const std::string& a, size_t times) {
    std::string r;
    for (size_t i = 0; i < times; ++i) r += a;
    return r;
  };
  static const char* kUnits[] = {"a", "\"", "\\", "{", "[", "'", " ", "\n", "a.", ".", "=", "/", "http://", "\\u0000", "\xc3\xa9", "-", "0", "{},", "-----BEGIN PUBLIC KEY-----\n", "1e9,"};
  const std::string fill = loop(s.pick(kUnits), n);
  const std::string key = "{\"kty\":\"oct\",\"k\":\"AAAA\"";
  switch (s.below(12)) {
    case 0:
      add(0, token("", "{\"aud\":[" + many("\"x", "\"") + "]}"));
      add(8);
      for (size_t i = 0; i < n; ++i) ops.back().l.push_back("http://y" + std::to_string(i));
      ops.push_back(ops.back());
      ops.back().kind = 10;
      add(12);
      break;
    case 1:
      add(0, token("", "{" + many("\"m", s.flip() ? "\":0" : "\":[{}]") + "}"));
      add(11, "m7");
      break;
    case 2:
      add(0, token("," + many("\"m", "\":\"\""), "{\"a\":[" + many("", "") + "]}"));
      add(11, "a");
      break;
    case 3: {
      static const char* kEntries[] = {"{}", "0", "null", "{\"kty\":\"oct\"}", "{\"kty\":\"EC\",\"x\":\"A\",\"y\":\"A\"}", "{\"kty\":\"oct\",\"k\":\"AAAA\"}"};
      add(1, "{\"keys\":[" + loop(s.pick(kEntries) + std::string(","), n) + key + "}]}");
      break;
    }
    case 4:
      add(1, "{\"keys\":[" + many(key + ",\"kid\":\"" + (s.flip() ? "k" : ""), "\"}") + "]}");
      add(0, token(s.flip() ? ",\"kid\":\"k5\"" : "", "{}"));
      add(5);
      break;
    case 5:
      add(static_cast<int>(s.below(5)), fill);
      ops.back().b = ops.back().d = "x";
      break;
    case 6:
      add(0, s.flip() ? token(",\"x\":\"" + fill + "\"", "{}") : token("", s.flip() ? fill : "{\"aud\":\"" + fill + "\",\"iss\":\"" + fill + "\"}"));
      add(8);
      ops.back().l = {fill, fill + "/", "a"};
      break;
    case 7: {
      std::string kid(n, 'a');
      add(1, "{\"keys\":[" + loop(key + ",\"kid\":\"" + kid + "b\"},", 10) + key + ",\"kid\":\"" + kid + "\"}]}");
      add(0, token(",\"kid\":\"" + kid + "\"", "{}"));
      add(5);
      break;
    }
    case 8:
      add(0, token("", "{\"a\":{\"a\":{\"a\":1}},\"\":{\"\":{}}}"));
      add(11, fill);
      add(11, loop("a.", n));
      add(11, loop(".", n));
      break;
    case 9: {
      std::string pem = pemOf(genKey(s, Fam::kEc));
      add(static_cast<int>(s.range(2, 4)), s.flip() ? fill + "\n" + pem : loop(pem, n / 100));
      ops.back().b = s.flip() ? fill : "x";
      ops.back().d = s.flip() ? fill : "ES256";
      break;
    }
    case 10: {
      J top = J::object();
      Key k;
      k.fam = Fam::kRsa;
      for (size_t i = 0; i < n / 50; ++i) top.set("k" + std::to_string(i), J::str(rsaKeys()[0].cert));
      add(1, writeJson(top));
      add(0, token("", "{}"));
      add(5);
      break;
    }
    default: {
      // Numbers of many digits.
      std::string digits = loop("9", n), d = s.flip() ? digits : s.flip() ? "0." + digits : "1e" + digits;
      add(0, token("", "{\"exp\":" + d + "}"));
      add(1, "{\"keys\":[{\"kty\":\"RSA\",\"e\":\"AQAB\",\"n\":\"" + loop("Q", n) + "\"},{\"kty\":\"EC\",\"x\":\"" + loop("Q", n) + "\",\"y\":\"AA\"}]}");
    }
  }
  return ops;
}

void run(Source& s, Ctx& c) {
  std::vector<Op> ops;
  std::vector<Key> keys;
  bool raw = s.p(70);
  if (!raw && s.p(1) && s.below(3) == 0) {
    ops = large(s);
    c.label("one very large input");
  } else if (raw) {
    // One text as it comes, for the byte-level search.
    Op o;
    o.kind = static_cast<int>(s.below(5));
    std::string names = smallText(s);
    std::string text = s.rest(2000);
    o.a = text;
    if (o.kind == 0 && s.flip()) o.a = b64url("{\"alg\":\"" + std::string(kAlgs[s.below(13)].name) + "\"}") + "." + b64url(text) + ".AAAA";
    o.b = o.d = names;
    ops.push_back(o);
    Op g;
    g.kind = 11;
    g.a = anyName(s);
    ops.push_back(g);
    g.kind = 7;
    g.n = 5;
    ops.push_back(g);
  } else {
    if (s.p(110)) {
      // A key set, a token for it, and its verification.
      Key k = genKey(s, static_cast<Fam>(s.below(4)));
      std::vector<const Alg*> fit;
      for (auto& a : kAlgs)
        if (canSign(k, a)) fit.push_back(&a);
      Token t = genToken(s, s.pick(fit)->name, s.p(120) ? genKid(s) : "", false);
      t.sig = signWith(k, *algByName(t.alg), t.input(), s);
      std::string what;
      switch (s.weighted({5, 5, 2, 1, 1})) {
        case 0: break;
        case 1: algForgery(s, k, *algByName(t.alg), &t, &what); break;
        case 2: mutateSig(s, &t, &what); break;
        case 3: t.sig = mutate(s, t.sig); break;
        default: t.sig = s.bulk(s.below(600));
      }
      Op o;
      o.kind = k.fam != Fam::kOct && s.p(60) ? 2 : 1;
      if (o.kind == 2) o.a = pemOf(k);
      else o.a = "{\"keys\":[" + (s.flip() ? writeJson(jwkOf(genKey(s, k.fam))) + "," : "") + writeJson(jwkOf(k)) + "]}";
      ops.push_back(o);
      o.kind = 0;
      o.a = t.str();
      ops.push_back(o);
      o.kind = s.flip() ? 5 : 5 + static_cast<int>(s.below(5));
      o.a.clear();
      o.n = anyTime(s);
      o.m = anyTime(s);
      if (s.flip()) o.l = anyList(s);
      ops.push_back(o);
      keys.push_back(k);
    }
    for (size_t n = 1 + s.below(10); n > 0; --n) {
      Op o;
      o.kind = static_cast<int>(s.weighted({6, 5, 2, 2, 2, 3, 1, 2, 1, 1, 1, 2, 1, 1, 1}));
      o.i = s.p(80) ? s.below(kObjs) : 0;
      o.j = s.p(80) ? s.below(kObjs) : 0;
      switch (o.kind) {
        case 0: o.a = s.p(40) ? anyBytes(s) : anyToken(s, keys); break;
        case 1:
          o.a = s.p(30) ? anyBytes(s) : s.p(60) ? anyCertSet(s, &keys) : s.p(20) ? anyToken(s, keys) : anyJwks(s, &keys);
          break;
        case 2:
        case 3:
        case 4:
          o.a = s.p(30) ? anyBytes(s) : s.p(20) ? anyJwks(s, &keys) : anyPem(s, &keys);
          o.b = smallText(s);
          o.d = smallText(s);
          break;
        case 11: o.a = anyName(s); break;
        case 8:
        case 9:
        case 10: o.l = anyList(s);  // fall through
        default:
          o.n = anyTime(s);
          o.m = anyTime(s);
      }
      ops.push_back(std::move(o));
    }
  }
  c.note([&](std::ostream& o) {
    static const char* kN[kKinds] = {"parse", "load JWKS", "load PEM", "createFromPem", "addKeyFromPem", "verify without time", "verify", "verify at a time", "verify audiences",
                                     "verify audiences at a time", "check audiences", "read claims", "copy", "time constraint", "status text"};
    for (auto& p : ops) {
      o << kN[p.kind] << " token " << p.i << " set " << p.j;
      if (!p.a.empty()) o << "\n  " << quote(p.a, 3000);
      if (!p.b.empty() || !p.d.empty()) o << "\n  kid " << quote(p.b) << " alg " << quote(p.d);
      for (auto& x : p.l) o << "\n  " << quote(x);
      if (p.n || p.m) o << " time " << p.n << " skew " << p.m;
      o << "\n";
    }
  });
  Answers r;
  ERR_clear_error();
  size_t before = __sanitizer_get_current_allocated_bytes();
  execute(ops, &r);
  ERR_clear_error();
  size_t after = __sanitizer_get_current_allocated_bytes();
  if (after > before) {
    // First uses may allocate for good; a leak grows every time.
    size_t grown = 0;
    size_t times = 0;
    for (; times < 4; ++times) {
      Answers again;
      size_t b = __sanitizer_get_current_allocated_bytes();
      execute(ops, &again);
      ERR_clear_error();
      size_t a = __sanitizer_get_current_allocated_bytes();
      if (a <= b) break;
      grown = a - b;
    }
    VP_CHECK(c, times < 4, "each repetition of these calls leaves " << grown << " more bytes allocated");
  }
  size_t size = 0;
  uint64_t h = 7;
  for (auto& o : ops) {
    size += o.a.size();
    h = hashStr(o.a, h + o.kind);
  }
  c.label(raw ? "one raw text" : "sequence of calls");
  if (r.parsed) c.label("a token parsed");
  if (r.loaded) c.label("a key set loaded");
  if (r.verified) c.label("a token verified");
  if (r.err) c.label("a call failed");
  if (size > 10000) c.label("more than 10000 bytes of input");
  if (size > 20 || ops.size() > 1) c.nontrivial(h);
}
}  // namespace

const Property kProperty = {
    "C13",
    "A case is a sequence of 1 to 10 calls (parse, load JWKS, PEM or certificates, add PEM, verify in all forms, audience and "
    "time checks, claim access, copies) on up to 3 tokens and 3 key sets, with arbitrary bytes, damaged valid texts, deep "
    "nesting, huge members, now and then up to 100000 entries, lines or characters of a kind and odd numbers; run under address and undefined-behaviour sanitizers with assertions on, a time "
    "limit, and a check that allocated memory does not grow when repeated. Non-trivial: more than one call or 20 input bytes",
    150000, 5000000, init, run};
}  // namespace vp
