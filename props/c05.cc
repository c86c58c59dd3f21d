// C05: audience matching is exact up to URL scheme and one trailing slash.
#include <set>

#include "jwt_verify_lib/check_audience.h"
#include "world.h"

namespace vp {
namespace {
using google::jwt_verify::CheckAudience;

const Key* g_key;
JwksPtr g_ks;
void init() {
  static Key k;
  k.fam = Fam::kOct;
  k.secret = "0123456789abcdef0123456789abcdef";
  g_key = &k;
  g_ks = Jwks::createFrom("{\"keys\":[" + writeJson(jwkOf(k)) + "]}", Jwks::JWKS);
}

std::string norm(const std::string& a) {
  std::string r = a;
  if (r.compare(0, 7, "http://") == 0) r = r.substr(7);
  else if (r.compare(0, 8, "https://") == 0) r = r.substr(8);
  if (!r.empty() && r[r.size() - 1] == '/') r.resize(r.size() - 1);
  return r;
}

std::string base(Source& s) {
  static const char* k[] = {"a", "b", "example.com", "example.com/path", "aud", "", "/", "x/y", "http", "https", "http:", "https:", "Example.com", "a ", "ab", "a/b/"};
  switch (s.weighted({24, 4, 2, 2, 1})) {
    case 4: return s.litText(70000);
    case 0: return s.pick(k);
    case 1: return genText(s, 10);
    case 2: return std::string("a\0b", 3).substr(0, s.range(1, 3));
    default: return std::string(s.many(200, 70000), 'x') + static_cast<char>('a' + s.below(2));
  }
}
std::string decorate(Source& s, std::string b) {
  static const char* kPre[] = {"", "http://", "https://", "HTTP://", "Https://", "http:/", "https:", "ftp://", "http://http://", "https://http://", "http://https://", "https://https://", " http://", "ahttp://", "http:///", "http", "https:///"};
  static const char* kSuf[] = {"", "/", "//", "///", "/ ", "\\"};
  b = kPre[s.weighted({10, 8, 8, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})] + b;
  b += kSuf[s.weighted({10, 8, 3, 1, 1, 1})];
  return b;
}
std::string aud(Source& s, const std::vector<std::string>& seen) {
  // Often a variation of one already there.
  std::string b = !seen.empty() && s.p(130) ? (s.flip() ? norm(s.pick(seen)) : s.pick(seen)) : base(s);
  if (s.p(190)) b = decorate(s, b);
  return b;
}

void run(Source& s, Ctx& c) {
  std::vector<std::string> all, conf, tok;
  for (size_t n = s.many(4, 300, 2); n > 0; --n) {
    conf.push_back(s.p(30) && !conf.empty() ? s.pick(conf) : aud(s, all));
    all.push_back(conf.back());
  }
  std::unique_ptr<CheckAudience> before;
  if (s.p(30) && !conf.empty()) {
    // Another one much like it, which has answered already.
    std::vector<std::string> v = conf;
    std::string& x = v[s.below(v.size())];
    x = s.p(80) ? aud(s, all) : nearText(s, x);
    before.reset(new CheckAudience(v));
    std::string a = s.flip() ? s.pick(v) : s.pick(conf);
    bool r = before->areAudiencesAllowed({a});
    c.note([&](std::ostream& o) {
      o << "asked before of another list:";
      for (auto& e : v) o << " " << quote(e);
      o << " about " << quote(a) << " -> " << r;
    });
    if (s.flip()) before.reset();
    c.label("after another list much like it");
  }
  CheckAudience check(conf);
  std::set<std::string> cs;
  for (auto& a : conf) cs.insert(norm(a));
  c.note([&](std::ostream& o) {
    o << "configured:";
    for (auto& a : conf) o << " " << quote(a);
  });
  bool interesting = false;
  uint64_t h = 0;
  for (auto& a : conf) h = hashStr(a, h);
  for (size_t rounds = 1 + s.below(4); rounds > 0; --rounds) {
    tok.clear();
    for (size_t n = s.many(4, 300, 2); n > 0; --n) tok.push_back(s.p(30) && !tok.empty() ? s.pick(tok) : aud(s, all));
    bool want = conf.empty();
    bool raw = false;
    for (auto& a : tok) {
      if (cs.count(norm(a))) want = true;
      for (auto& x : conf) raw = raw || x == a;
      h = hashStr(a, h);
    }
    c.note([&](std::ostream& o) {
      o << "token:";
      for (auto& a : tok) o << " " << quote(a);
      o << " -> " << (want ? "allowed" : "not allowed");
    });
    VP_CHECK(c, check.areAudiencesAllowed(tok) == want, "audiences are " << (want ? "not allowed although one matches" : "allowed although none matches"));
    VP_CHECK(c, check.empty() == conf.empty(), "empty() is " << check.empty() << " for " << conf.size() << " configured audiences");
    if (s.p(40)) {
      // A token with these audiences, through full verification.
      Token t;
      t.htext = "{\"alg\":\"HS256\"}";
      J p = J::object();
      J l = J::array();
      for (auto& a : tok) l.list.push_back(J::str(a));
      bool utf8 = true;  // a cut-off character cannot be written
      for (auto& a : tok)
        for (unsigned char ch : a) utf8 = utf8 && ch < 0x80;
      if (!utf8) continue;
      if (tok.size() == 1 && s.flip()) p.set("aud", l.list[0]);
      else if (!tok.empty() || s.flip()) p.set("aud", l);
      t.ptext = writeJson(p);
      encode(&t);
      t.sig = hmac(256, g_key->secret, t.input());
      Jwt jwt;
      if (jwt.parseFromString(t.str()) != Status::Ok || jwt.audiences_ != tok) {
        c.label("token refused or misread (decided by C07)");
        continue;
      }
      Status got = verifyJwt(jwt, *g_ks, conf, 1000);
      Status w = want ? Status::Ok : Status::JwtAudienceNotAllowed;
      VP_CHECK(c, got == w, "full verification gives " << st(got) << " instead of " << st(w));
      c.label("through full verification");
    }
    if (conf.size() > 4 || tok.size() > 4) c.label("list of over 4");
    c.label(conf.empty() ? "none configured" : want ? (raw ? "allowed, equal text" : "allowed after normalization") : tok.empty() ? "token without audiences" : "not allowed");
    if (!conf.empty() && !tok.empty()) interesting = true;
  }
  if (interesting) c.nontrivial(h);
}
}  // namespace

const Property kProperty = {
    "C05",
    "A case is a list of 0 to 4 (now and then hundreds of) configured audiences and 1 to 4 token audience lists, most of them variations of one another in "
    "scheme (also upper case, doubled, cut), trailing slashes and text; decisions are compared with a reference normalizer. "
    "Non-trivial: both lists are non-empty",
    1000000, 20000000, init, run};
}  // namespace vp
