// C06: full verification is Ok iff every requested constraint holds.
#include <memory>
#include <set>

#include "vclock.h"
#include "world.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
  virtualClock(true);
}
using u128 = unsigned __int128;

std::string norm(std::string r) {
  if (r.compare(0, 7, "http://") == 0) r = r.substr(7);
  else if (r.compare(0, 8, "https://") == 0) r = r.substr(8);
  if (!r.empty() && r.back() == '/') r.pop_back();
  return r;
}
Status timeModel(uint64_t now, uint64_t skew, uint64_t nbf, uint64_t exp) {
  if (static_cast<u128>(nbf) > static_cast<u128>(now) + skew) return Status::JwtNotYetValid;
  if (exp != 0 && static_cast<u128>(exp) + skew < static_cast<u128>(now)) return Status::JwtExpired;
  return Status::Ok;
}

void run(Source& s, Ctx& c) {
  static const char* kAud[] = {"a", "http://a", "a/", "b", "https://b/", "c", ""};
  static const char* kKid[] = {"", "x", "y"};
  // Keys.
  size_t n = s.weighted({1, 8, 4, 2});
  std::vector<Key> keys;
  for (size_t i = 0; i < n; ++i) {
    static const Fam kF[] = {Fam::kOct, Fam::kOkp, Fam::kEc, Fam::kRsa};
    Fam f = kF[s.weighted({8, 4, 3, 2})];
    Key k = genKey(s, f, f == Fam::kEc ? 256 : 0);
    k.kid = kKid[s.weighted({6, 2, 2})];
    keys.push_back(k);
  }
  Key signer;
  if (n) signer = s.pick(keys);
  if (!n || s.p(40)) signer = genKey(s, Fam::kOct);
  std::vector<const Alg*> algs;
  for (auto& x : kAlgs)
    if (canSign(signer, x)) algs.push_back(&x);
  const Alg& a = *s.pick(algs);
  std::string kid = s.p(150) ? signer.kid : kKid[s.below(3)];
  LoadOpts lo;
  lo.vary = false;
  lo.junk = false;
  std::string how, why;
  setNow(1);
  JwksPtr ks = loadSet(keys, s, lo, &how, &why);
  if (!ks) {
    c.label("not loaded (decided by C07, C11)");
    return;
  }
  // The first round draws everything, later ones change some of it: what was
  // decided before must not matter.
  uint64_t now = 0, skew = 60, nbf = 0, exp = 0;
  Token t;
  std::vector<std::string> tok, conf;
  std::unique_ptr<Jwt> held;
  const size_t rounds = s.p(60) ? 2 + s.below(3) : 1;
  uint64_t id = 0;
  bool content = false;
  for (size_t round = 0; round < rounds; ++round) {
    auto redraw = [&] { return round == 0 || s.p(60); };
    if (redraw()) {
      switch (s.below(5)) {
        case 0: now = 1700000000 + s.below(1000); break;
        case 1: now = s.below(200); break;
        case 2: now = 4102444800ull + s.below(100000); break;
        case 3: now = (s.flip() ? 1ull << 32 : s.flip() ? 1ull << 31 : 8600000000ull) + s.below(200) - 100; break;
        default: now = 1000000 + s.below(100);
      }
    } else if (s.p(80)) {
      now += s.below(130);
    }
    if (redraw()) {
      static const uint64_t k[] = {0, 1, 30, 59, 61, 3600, 1ull << 62, ~0ull};
      skew = !s.p(80) ? 60 : s.p(40) ? static_cast<uint64_t>(s.litNum(0, INT64_MAX)) : s.pick(k);
    }
    auto around = [&](int sign) -> uint64_t {
      static const int64_t kOff[] = {0, 1, -1, 59, 60, 61, 62, -59, -60, -61, 100, -100, 100000};
      int64_t off = s.p(180) ? sign * 60 + static_cast<int64_t>(s.below(5)) - 2 : s.pick(kOff);
      if (s.p(80)) off = sign * static_cast<int64_t>(skew & 0xffff) + static_cast<int64_t>(s.below(5)) - 2;
      if (s.p(12)) off = s.litNum(-1000000000000, 1000000000000);
      int64_t v = static_cast<int64_t>(now) + off;
      return v < 0 ? 0 : static_cast<uint64_t>(v);
    };
    auto list = [&](std::vector<std::string>* v) {
      if (round == 0 || s.p(40)) {
        v->clear();
        for (size_t m = s.p(2) ? s.range(4, 200) : s.weighted({4, 5, 2, 1}); m > 0; --m) v->push_back(s.pick(kAud));
      } else if (!v->empty() && s.p(160)) {
        // Much the same list.
        (*v)[s.below(v->size())] = s.pick(kAud);
        if (s.p(60)) s.shuffle(*v);
      }
    };
    if (redraw()) {
      t = Token();
      t.alg = a.name;
      t.kid = kid;
      t.header = J::object();
      t.header.set("alg", J::str(a.name));
      if (!kid.empty()) t.header.set("kid", J::str(kid));
      nbf = s.p(90) ? around(1) : 0, exp = s.p(130) ? around(-1) : s.p(90) ? now + 1000 : 0;
      if (nbf) t.payload.set("nbf", J::integer(nbf));
      t.payload.kind = J::kObj;
      if (exp) t.payload.set("exp", J::integer(exp));
      if (s.p(60)) t.payload.set("iat", J::integer(around(s.flip() ? 1 : -1)));
      list(&tok);
      if (!tok.empty()) {
        J l = J::array();
        for (auto& x : tok) l.list.push_back(J::str(x));
        t.payload.set("aud", tok.size() == 1 && s.flip() ? l.list[0] : l);
      }
      t.htext = writeJson(t.header);
      t.ptext = writeJson(t.payload);
      encode(&t);
      t.sig = signWith(signer, a, t.input(), s);
      if (s.p(50)) t.sig[s.below(t.sig.size())] ^= 1;
      if (s.p(15)) t.sig += 'x';
    }
    list(&conf);
    if (!held || s.flip()) held.reset(new Jwt);
    Jwt& jwt = *held;
    if (jwt.parseFromString(t.str()) != Status::Ok) {
      c.label("not loaded (decided by C07, C11)");
      return;
    }
    Status sig = modelVerdict(keys, t.alg, kid, t.input(), t.sig);
    bool aud_ok = conf.empty();
    for (auto& x : conf)
      for (auto& y : tok) aud_ok = aud_ok || norm(x) == norm(y);
    uint64_t frac = s.flip() ? 0 : s.flip() ? 999999 : s.below(1000000);
    c.note([&](std::ostream& o) {
      o << "payload " << t.ptext << " alg " << t.alg << " kid " << quote(kid) << "\n now " << now << " + " << frac << " us, skew " << skew << "\n configured audiences:";
      for (auto& x : conf) o << " " << quote(x);
      o << "\n keys" << showKeys(keys) << "\n signature constraint: " << st(sig) << ", audience " << (aud_ok ? "ok" : "not ok");
    });
    Status sig_status = verifyJwtWithoutTimeChecking(jwt, *ks);
    VP_CHECK(c, (sig_status == Status::Ok) == (sig == Status::Ok),
             "verifyJwtWithoutTimeChecking gives " << st(sig_status) << " where the signature constraint is " << st(sig));
    auto check = [&](const char* name, Status got, bool with_aud, uint64_t skew_used) {
      Status time = timeModel(now, skew_used, nbf, exp);
      bool aok = !with_aud || aud_ok;
      bool ok = aok && time == Status::Ok && sig == Status::Ok;
      bool named = (!aok && got == Status::JwtAudienceNotAllowed) || (time != Status::Ok && got == time) ||
                   (sig != Status::Ok && got == sig_status);
      c.note([&](std::ostream& o) { o << "  " << name << ": " << st(got); });
      VP_CHECK(c, ok == (got == Status::Ok),
               name << " gives " << st(got) << " where audience is " << (aok ? "ok" : "not ok") << ", time " << st(time) << ", signature " << st(sig));
      VP_CHECK(c, ok || named, name << " gives " << st(got) << ", which names no constraint that fails: audience " << (aok ? "ok" : "not ok") << ", time " << st(time) << ", signature " << st(sig));
      c.label(std::string(name) + (ok ? ": Ok" : ": not Ok"));
    };
    // The wall clock may be anything when the time is given.
    int64_t wall = static_cast<int64_t>(now) * 1000000 + static_cast<int64_t>(frac);
    auto otherWall = [&] { setNow(s.flip() ? wall : static_cast<int64_t>(s.below(5000000000ull)) * 1000000); };
    static const std::vector<std::string> kNone;
    int order = static_cast<int>(s.below(4));
    const bool none = rounds == 1 || s.flip();
    for (int i = 0; i < 4; ++i) {
      switch ((i + order) % 4) {
        case 0:
          otherWall();
          check("verifyJwt(now)", verifyJwt(jwt, *ks, now), false, 60);
          check("verifyJwt(now, skew)", verifyJwt(jwt, *ks, now, skew), false, skew);
          break;
        case 1:
          otherWall();
          check("verifyJwt(audiences, now)", verifyJwt(jwt, *ks, conf, now), true, 60);
          if (none) check("verifyJwt(no audiences, now)", verifyJwt(jwt, *ks, kNone, now), false, 60);
          break;
        case 2:
          setNow(wall);
          check("verifyJwt()", verifyJwt(jwt, *ks), false, 60);
          break;
        default:
          setNow(wall);
          check("verifyJwt(audiences)", verifyJwt(jwt, *ks, conf), true, 60);
          if (none) check("verifyJwt(no audiences)", verifyJwt(jwt, *ks, kNone), false, 60);
      }
    }
    int failing = (aud_ok ? 0 : 1) + (timeModel(now, 60, nbf, exp) == Status::Ok ? 0 : 1) + (sig == Status::Ok ? 0 : 1);
    c.label("failing constraints: " + std::to_string(failing));
    id = hashStr(t.str(), hashStr(std::to_string(now) + " " + std::to_string(skew), id));
    content = content || !conf.empty() || nbf || exp;
  }
  if (rounds > 1) c.label("several rounds");
  if (content) c.nontrivial(id);
}
}  // namespace

const Property kProperty = {
    "C06",
    "A case is a key set, a token (genuine or broken) with nbf, exp and audiences near the limits, configured audiences, a time, "
    "a skew and a virtual system clock; all seven full-verification forms are compared with a model of the three constraints, in "
    "up to four rounds that change some of it. "
    "Non-trivial: a time claim or a configured audience is present",
    120000, 4000000, init, run};
}  // namespace vp
