// C09: a Jwt object depends only on the last text given to it.
#include "jwtcmp.h"

namespace vp {
namespace {
std::vector<Key>* g_keys;
JwksPtr g_ks;
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
  g_keys = new std::vector<Key>;
  Key k;
  k.fam = Fam::kOct;
  k.secret = "secret secret secret secret secret";
  k.kid = "k1";
  g_keys->push_back(k);
  Key e;
  e.fam = Fam::kOkp;
  g_keys->push_back(e);
  J l = J::array();
  for (auto& x : *g_keys) l.list.push_back(jwkOf(x));
  g_ks = Jwks::createFrom("{\"keys\":" + writeJson(l) + "}", Jwks::JWKS);
}

std::string genText1(Source& s) {
  // A token, good or with something wrong at any stage.
  const Key& k = s.pick(*g_keys);
  Token t = genToken(s, k.fam == Fam::kOct ? (s.flip() ? "HS256" : "HS512") : "EdDSA", s.p(120) ? "k1" : s.p(60) ? "other" : "", false);
  if (s.p(90)) {
    static const char* kNames[] = {"iss", "sub", "jti", "aud", "iat", "nbf", "exp"};
    t.payload.set(s.pick(kNames), s.flip() ? J::boolean(true) : J::number("-5"));
    if (s.p(60)) t.payload.set("iat", J::integer(5));
    t.ptext = writeJson(t.payload);
    encode(&t);
  }
  if (s.p(20)) {
    t.header.set(s.flip() ? "alg" : "kid", s.flip() ? J::integer(3) : J::str("zzz"));
    t.htext = writeJson(t.header);
    encode(&t);
  }
  t.sig = signWith(k, *algByName(t.alg), t.input(), s);
  if (s.p(15)) t.ptext = "[1]", encode(&t);
  if (s.p(10)) t.htext = "{", encode(&t);
  std::string r = t.str();
  if (s.p(15)) r = t.input();
  if (s.p(8)) r = "";
  if (s.p(10)) r += "!";
  if (s.p(10)) r = t.h64 + ".!" + t.p64 + "." + b64url(t.sig);
  if (s.p(10)) r = "!" + r;
  if (s.p(10)) r = t.input() + "..";
  return r;
}

// A text much like another: of the same length, the same beginning or end, or
// with sections of both.
std::string related(Source& s, const std::string& t, const std::string& u) {
  auto split = [](const std::string& x) {
    std::vector<std::string> r(1);
    for (char ch : x)
      if (ch == '.') r.emplace_back();
      else r.back() += ch;
    r.resize(3);
    return r;
  };
  std::vector<std::string> a = split(t), b = split(u);
  switch (s.below(6)) {
    case 0: a[s.below(3)] = b[s.below(3)]; break;
    case 1: {
      const size_t i = s.below(3);
      a[i] = b[i];
      break;
    }
    case 2: {
      // Another character in one place of a section.
      std::string& x = a[s.weighted({1, 3, 2})];
      if (!x.empty()) x[s.below(x.size())] = "ABab01_-"[s.below(8)];
      break;
    }
    case 3: return t.substr(0, s.below(t.size() + 1)) + u.substr(std::min(u.size(), t.size() / 2));
    case 4: return s.flip() ? t + "A" : t.substr(0, t.size() - std::min<size_t>(t.size(), 1 + s.below(4)));
    default: {
      // A letter or digit in the text of a section.
      std::string& x = a[s.weighted({1, 4})];
      std::string d;
      if (!b64urlDecodeStrict(x, &d)) break;
      std::vector<size_t> at;
      for (size_t i = 0; i < d.size(); ++i)
        if (isalnum(static_cast<unsigned char>(d[i]))) at.push_back(i);
      if (at.empty()) break;
      char& ch = d[s.pick(at)];
      ch = isdigit(static_cast<unsigned char>(ch)) ? '0' + static_cast<char>(1 + s.below(9)) : 'a' + static_cast<char>(s.below(26));
      x = b64url(d);
    }
  }
  return a[0] + "." + a[1] + "." + a[2];
}

void run(Source& s, Ctx& c) {
  std::vector<std::string> texts;
  for (size_t n = 1 + s.below(4); n > 0; --n) texts.push_back(!texts.empty() && s.p(110) ? related(s, s.pick(texts), s.pick(texts)) : genText1(s));
  const size_t kN = 4;
  struct Obj {
    std::unique_ptr<Jwt> j;
    std::string text;
    Status status = Status::Ok;
    bool parsed = false;    // parsed directly, status is known
  } o[kN];
  o[0].j.reset(new Jwt);
  size_t steps = 2 + s.below(14);
  int parses = 0, copies = 0;
  uint64_t h = 0;
  auto check = [&](const char* after) {
    for (size_t i = 0; i < kN; ++i) {
      if (!o[i].j) continue;
      Jwt fresh;
      Status fs = Status::Ok;
      fs = fresh.parseFromString(o[i].text);
      if (o[i].text.empty() && !o[i].parsed) {
        // Never parsed, or a copy of such an object: like a new one.
        Jwt blank;
        std::string d = diffJwt(*o[i].j, blank);
        VP_CHECK(c, d.empty(), "after " << after << ", object " << i << " differs from a new one in " << d);
        continue;
      }
      std::string d = diffJwt(*o[i].j, fresh);
      VP_CHECK(c, d.empty(), "after " << after << ", object " << i << " differs in " << d << " from a fresh object given " << quote(o[i].text, 1500));
      VP_CHECK(c, !o[i].parsed || o[i].status == fs, "after " << after << ", object " << i << " was parsed with " << st(o[i].status) << ", a fresh one with " << st(fs) << ": " << quote(o[i].text, 1500));
      Status a = verifyJwtWithoutTimeChecking(*o[i].j, *g_ks), b = verifyJwtWithoutTimeChecking(fresh, *g_ks);
      VP_CHECK(c, a == b, "after " << after << ", object " << i << " verifies with " << st(a) << ", a fresh one with " << st(b));
      Status ta = o[i].j->verifyTimeConstraint(1000), tb = fresh.verifyTimeConstraint(1000);
      VP_CHECK(c, ta == tb, "after " << after << ", object " << i << " has time status " << st(ta) << ", a fresh one " << st(tb));
    }
  };
  for (size_t n = 0; n < steps; ++n) {
    size_t a = s.below(kN), b = s.below(kN);
    const char* op = "";
    switch (s.weighted({8, 4, 5, 2, 2, 1, 1, 1})) {
      case 0: {
        op = "parse";
        size_t i = s.below(texts.size());
        if (!o[a].j) o[a].j.reset(new Jwt);
        o[a].text = texts[i];
        o[a].status = o[a].j->parseFromString(texts[i]);
        o[a].parsed = true;
        ++parses;
        h = h * 31 + i * 8 + a;
        c.note([&](std::ostream& os) { os << "object " << a << " parse " << quote(texts[i], 300) << " -> " << st(o[a].status); });
        break;
      }
      case 1:
        op = "copy construction";
        if (!o[b].j || a == b) continue;
        o[a].j.reset(new Jwt(*o[b].j));
        o[a].text = o[b].text;
        o[a].parsed = false;
        ++copies;
        c.note([&](std::ostream& os) { os << "object " << a << " copy-constructed from " << b; });
        break;
      case 2: {
        op = "assignment";
        if (!o[b].j) continue;
        if (!o[a].j) o[a].j.reset(new Jwt);
        Jwt& r = (*o[a].j = *o[b].j);
        VP_CHECK(c, &r == o[a].j.get(), "assignment does not return the object");
        if (a != b) o[a].parsed = false;
        o[a].text = o[b].text;
        ++copies;
        c.note([&](std::ostream& os) { os << "object " << a << " = object " << b; });
        break;
      }
      case 3: {
        op = "self-assignment";
        if (!o[a].j) continue;
        Jwt& self = *o[a].j;
        *o[a].j = self;
        c.note([&](std::ostream& os) { os << "object " << a << " assigned to itself"; });
        break;
      }
      case 4: {
        op = "parse of its own text";
        if (!o[a].j) continue;
        o[a].status = o[a].j->parseFromString(o[a].j->jwt_);
        o[a].parsed = true;
        ++parses;
        c.note([&](std::ostream& os) { os << "object " << a << " parses its own jwt_ -> " << st(o[a].status); });
        break;
      }
      case 5:
        op = "destruction";
        o[a].j.reset();
        c.note([&](std::ostream& os) { os << "object " << a << " destroyed"; });
        break;
      case 6:
        op = "change and destruction";
        if (!o[a].j) continue;
        o[a].j->iss_ += "changed";
        o[a].j->audiences_.push_back("changed");
        o[a].j->header_pb_.Clear();
        o[a].j->payload_pb_.Clear();
        o[a].j->signature_.assign(3, 'x');
        for (size_t i = 0; i < o[a].j->payload_str_.size(); ++i) o[a].j->payload_str_[i] = 'x';
        o[a].j.reset();
        c.note([&](std::ostream& os) { os << "object " << a << " changed by hand and destroyed"; });
        break;
      default:
        op = "swap of contents";
        if (!o[a].j || !o[b].j || a == b) continue;
        {
          Jwt tmp(*o[a].j);
          *o[a].j = *o[b].j;
          *o[b].j = tmp;
          std::swap(o[a].text, o[b].text);
          o[a].parsed = o[b].parsed = false;
          ++copies;
        }
        c.note([&](std::ostream& os) { os << "objects " << a << " and " << b << " swapped by copies"; });
    }
    check(op);
  }
  c.count("parses", parses);
  c.count("copies and assignments", copies);
  if (parses >= 2 || copies >= 1) {
    for (auto& t : texts) h = hashStr(t, h);
    c.nontrivial(h + copies);
  }
}
}  // namespace

const Property kProperty = {
    "C09",
    "A case is a history of 2 to 15 parses (good texts, texts faulty at any stage, and texts much like one another), copy constructions, assignments, "
    "self-assignments, swaps, changes and destructions over four token objects; after every step each object is compared field by "
    "field, and by verification, with a fresh object given its last text. Non-trivial: at least two parses or one copy",
    60000, 2000000, init, run};
}  // namespace vp
