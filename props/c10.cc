// C10: a key set keeps exactly its valid keys, in order.
#include "jwkgen.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

void run(Source& s, Ctx& c) {
  // A text that is not a key list.
  if (s.p(50)) {
    Status want;
    std::string text;
    J top = genObject(s, 2, 3);
    top.erase("keys");
    switch (s.below(4)) {
      case 0: {
        J o = J::object();
        o.set("keys", J::array({jwkOf(genKey(s, Fam::kOct))}));
        text = badJson(s, o);
        want = Status::JwksParseError;
        break;
      }
      case 1:
        if (s.flip()) top.set(s.flip() ? "Keys" : "key", J::array({jwkOf(genKey(s, Fam::kOct))}));
        text = writeJson(top);
        want = Status::JwksNoKeys;
        break;
      case 2: {
        J v = s.flip() ? notText(s) : J::str(s.flip() ? "" : "[]");
        if (s.p(60)) v = jwkOf(genKey(s, Fam::kOct));
        if (v.kind == J::kList) v = J::object();
        top.set("keys", v);
        s.shuffle(top.obj);
        text = writeJson(top);
        want = Status::JwksBadKeys;
        break;
      }
      default: {
        J l = J::array();
        for (size_t n = s.below(4); n > 0; --n) {
          J e = genJson(s, 1);
          if (e.kind != J::kObj) l.list.push_back(e);
        }
        top.set("keys", l);
        s.shuffle(top.obj);
        text = writeJson(top);
        want = Status::JwksNoValidKeys;
      }
    }
    c.note([&](std::ostream& o) { o << "text " << quote(text, 1500) << "\n expected " << st(want); });
    JwksPtr before;
    if (s.p(40)) before = readNearSet(s, c, text, Jwks::JWKS);
    JwksPtr ks = Jwks::createFrom(text, Jwks::JWKS);
    VP_CHECK(c, ks->getStatus() == want, "loading gives " << st(ks->getStatus()) << " instead of " << st(want));
    VP_CHECK(c, ks->keys().empty(), "loading fails and leaves " << ks->keys().size() << " keys");
    c.label(st(want));
    c.nontrivial(hashStr(text));
    return;
  }
  J list = J::array();
  std::vector<Material> want;
  Status first = Status::Ok;
  size_t n = s.p(3) ? s.p(90) ? static_cast<size_t>(s.litNum(0, 300)) : s.range(8, 300) : s.weighted({2, 4, 6, 6, 4, 3, 2, 1});
  size_t bad = 0, other = 0;
  // Sometimes only bad entries.
  bool only_bad = s.p(50);
  for (size_t i = 0; i < n; ++i) {
    J e;
    size_t kind = s.weighted({only_bad ? 0u : 8u, 5, 3});
    if (kind == 2) {
      e = s.flip() ? genJson(s, 1) : s.flip() ? J::null() : J::str("x");
      if (e.kind == J::kObj) e = J::array({e});
      ++other;
    } else {
      e = genFaultyJwk(s, kind == 0 ? 0 : 1 + s.below(2));
      if (i > 0 && s.p(40) && list.list[i - 1].kind == J::kObj) {
        // Like the one before, with a member changed or left out.
        e = list.list[i - 1];
        static const char* kNames[] = {"kid", "alg", "x", "y", "k", "n", "e", "crv", "kty"};
        const char* m = s.pick(kNames);
        if (s.flip()) e.erase(m);
        else if (s.flip()) e.set("kid", J::str(genKid(s)));
      }
      Material m;
      Status r = readJwk(e, &m);
      if (r == Status::Ok) {
        want.push_back(m);
      } else {
        ++bad;
        if (first == Status::Ok) first = r;
      }
    }
    list.list.push_back(e);
  }
  Status expect = !want.empty() ? Status::Ok : first != Status::Ok ? first : Status::JwksNoValidKeys;
  J top = genObject(s, 1, 1);
  if (s.p(40)) addMembers(s, &top, Part::kSet);
  top.set("keys", list);
  s.shuffle(top.obj);
  std::string text = s.p(60) ? writeJson(top, s) : writeJson(top);
  c.note([&](std::ostream& o) { o << "text " << quote(text, 4000) << "\n expected " << st(expect) << ", usable keys " << want.size(); });
  JwksPtr before;
  if (s.p(40)) before = readNearSet(s, c, text, Jwks::JWKS);
  JwksPtr ks = Jwks::createFrom(text, Jwks::JWKS);
  VP_CHECK(c, ks->getStatus() == expect, "loading gives " << st(ks->getStatus()) << " instead of " << st(expect));
  VP_CHECK(c, ks->keys().size() == want.size(), "the set holds " << ks->keys().size() << " keys instead of " << want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    std::string d = diffKey(*ks->keys()[i], want[i]);
    VP_CHECK(c, d.empty(), "key " << i << " of " << want.size() << " differs: " << d);
  }
  c.label(want.empty() ? "no usable key" : "usable keys: " + (want.size() > 7 ? std::string("over 7") : std::to_string(want.size())));
  if (n > 7) c.label("over 7 entries");
  if (bad) c.label("with unusable entries");
  if (other) c.label("with entries that are no objects");
  if (n >= 2) c.nontrivial(hashStr(text));
}
}  // namespace

const Property kProperty = {
    "C10",
    "A case is a JWKS text with 0 to 7 (now and then up to 150) entries (usable keys of all types, keys with faults, entries derived from the previous "
    "one, values that are no objects) or a text that is no key list; status, number, order and material of the loaded keys are "
    "compared with an independent reading. Non-trivial: at least two entries, or a text that is no key list",
    300000, 6000000, init, run};
}  // namespace vp
