// C15: verification is a pure function, safe to run in many threads at once.
#include <google/protobuf/struct.pb.h>
#include <google/protobuf/util/json_util.h>
#include <openssl/err.h>

#include <atomic>
#include <memory>
#include <thread>

#include "jwkgen.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwtcmp.h"

namespace vp {
namespace {
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;

void init() {
  rsaKeys();
  ecKeys();
  edKeys();
  // The libraries' own first use; the library under test stays untouched.
  google::protobuf::Struct a;
  (void)google::protobuf::util::JsonStringToMessage("{\"a\":[1,\"b\",null,true,{}]}", &a);
  google::protobuf::Struct b(a);
  (void)google::protobuf::util::MessageDifferencer::Equals(a, b);
}

// All that can be seen of a key set.
std::string showSet(const Jwks& k) {
  std::string r = std::to_string(static_cast<int>(k.getStatus()));
  for (auto& p : k.keys()) {
    r += "|" + p->kty_ + "," + p->kid_ + "," + p->alg_ + "," + p->crv_ + "," + toHex(p->hmac_key_) + "," + toHex(p->okp_key_raw_);
    if (p->rsa_) {
      const BIGNUM *n, *e;
      RSA_get0_key(p->rsa_.get(), &n, &e, nullptr);
      r += "," + toHex(bnBytes(n)) + "," + toHex(bnBytes(e));
    }
    if (p->ec_key_) {
      const EC_GROUP* g = EC_KEY_get0_group(p->ec_key_.get());
      bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
      EC_POINT_get_affine_coordinates_GFp(g, EC_KEY_get0_public_key(p->ec_key_.get()), x.get(), y.get(), nullptr);
      r += "," + toHex(bnBytes(x.get())) + "," + toHex(bnBytes(y.get()));
    }
  }
  return r;
}
// The same for a freshly loaded set whose order may vary (certificate sets).
std::string showLoaded(const Jwks& k, bool any_order) {
  if (!any_order) return showSet(k);
  std::vector<std::string> v;
  for (auto& p : k.keys()) v.push_back(p->kid_ + (p->rsa_ ? "+" : "-"));
  std::sort(v.begin(), v.end());
  std::string r = std::to_string(static_cast<int>(k.getStatus()));
  for (auto& x : v) r += "|" + x;
  return r;
}

struct Op {
  int kind = 0;
  size_t i = 0, j = 0;
  uint64_t now = 0, skew = 60;
};

struct World {
  std::vector<std::string> tokens;  // texts
  std::vector<std::unique_ptr<const Jwt>> jwts;
  std::vector<std::unique_ptr<const Jwks>> sets;
  std::vector<std::string> texts;  // key-set texts
  std::vector<int> text_kind;      // 0 JWKS, 1 PEM, 2 certificates
  std::vector<std::vector<std::string>> auds;
  std::vector<std::unique_ptr<const CheckAudience>> checks;
};

std::string doOp(const World& w, const Op& o) {
  const Jwt& t = *w.jwts[o.i % w.jwts.size()];
  const Jwks& k = *w.sets[o.j % w.sets.size()];
  auto num = [](Status s) { return std::to_string(static_cast<int>(s)); };
  auto clean = [&](Status s) {
    std::string r = num(s);
    if (s == Status::Ok && ERR_peek_error() != 0) r += " with a pending crypto-library error";
    return r;
  };
  switch (o.kind) {
    case 0:
      ERR_clear_error();
      return clean(google::jwt_verify::verifyJwtWithoutTimeChecking(t, k));
    case 1:
      ERR_clear_error();
      return clean(google::jwt_verify::verifyJwt(t, k, o.now, o.skew));
    case 2:
      ERR_clear_error();
      return clean(google::jwt_verify::verifyJwt(t, k, w.auds[o.j % w.auds.size()], o.now));
    case 3: {
      Jwt n;
      Status s = n.parseFromString(w.tokens[o.i % w.tokens.size()]);
      std::string d = s == Status::Ok ? diffJwt(n, *w.jwts[o.i % w.tokens.size()]) : "";
      if (!d.empty()) return num(s) + " but the token parsed here differs in " + d;
      return num(s);
    }
    case 4: {
      Jwt n(t);
      std::string d = diffJwt(n, t);
      return d.empty() ? "same" : "copy differs in " + d;
    }
    case 5: {
      size_t x = o.j % w.texts.size();
      JwksPtr n = Jwks::createFrom(w.texts[x], w.text_kind[x] == 1 ? Jwks::PEM : Jwks::JWKS);
      return showLoaded(*n, w.text_kind[x] == 2);
    }
    case 6: return w.checks[o.j % w.checks.size()]->areAudiencesAllowed(t.audiences_) ? "allowed" : "refused";
    case 7: return num(t.verifyTimeConstraint(o.now, o.skew));
    case 8: {
      StructUtils u(t.payload_pb_);
      std::string s;
      uint64_t n = 0;
      std::vector<std::string> l;
      std::string r = std::to_string(u.GetString("iss", &s)) + s;
      r += std::to_string(u.GetUInt64("exp", &n)) + std::to_string(n);
      r += std::to_string(u.GetStringList("aud", &l));
      for (auto& x : l) r += x;
      return r + std::to_string(u.GetString("nested.iss", &s));
    }
    default: {
      std::string r;
      for (int x = 0; x < 80; x += 1 + static_cast<int>(o.now % 7)) r += getStatusString(static_cast<Status>(x));
      return r;
    }
  }
}

// Calls from texts alone, so that the very first use of the library in the
// process is made by several threads at once.
struct TextOp {
  int kind = 0;
  std::string token, set;
  int set_kind = 0;  // 0 JWKS, 1 PEM, 2 certificates
  std::vector<std::string> auds;
  uint64_t now = 0;
  int verdict = -1;  // of the model, if known
};

std::string showJwt(const Jwt& t) {
  std::string r = t.alg_ + "|" + t.kid_ + "|" + t.iss_ + "|" + t.sub_ + "|" + t.jti_ + "|" + std::to_string(t.iat_) + "|" +
                  std::to_string(t.nbf_) + "|" + std::to_string(t.exp_) + "|" + toHex(t.signature_);
  for (auto& a : t.audiences_) r += "|" + a;
  return r;
}

std::string doText(const TextOp& o) {
  auto num = [](Status s) { return std::to_string(static_cast<int>(s)); };
  auto load = [&] { return Jwks::createFrom(o.set, o.set_kind == 1 ? Jwks::PEM : Jwks::JWKS); };
  switch (o.kind) {
    case 0:
    case 1: {
      Jwt t;
      Status p = t.parseFromString(o.token);
      JwksPtr k = load();
      ERR_clear_error();
      Status v = o.kind == 0 ? google::jwt_verify::verifyJwtWithoutTimeChecking(t, *k)
                             : google::jwt_verify::verifyJwt(t, *k, o.auds, o.now);
      return num(p) + "," + num(k->getStatus()) + "," + num(v) + (v == Status::Ok && ERR_peek_error() != 0 ? " with a pending crypto-library error" : "");
    }
    case 2: {
      Jwt t;
      Status p = t.parseFromString(o.token);
      return num(p) + "|" + showJwt(t);
    }
    case 3: return showLoaded(*load(), o.set_kind == 2);
    case 4: {
      CheckAudience a(o.auds);
      std::string r;
      for (auto& x : o.auds) r += a.areAudiencesAllowed({x}) ? "1" : "0";
      return r + (a.areAudiencesAllowed({"none"}) ? "1" : "0");
    }
    default: {
      std::string r;
      for (int x = 0; x < 80; ++x) r += getStatusString(static_cast<Status>(x));
      return r;
    }
  }
}

void runText(Source& s, Ctx& c) {
  size_t nthreads = 2 + s.below(3);
  std::vector<std::vector<TextOp>> plan(nthreads);
  static const char* kAuds[] = {"a", "http://a/", "https://b", "c/", "d"};
  auto gen = [&] {
    TextOp o;
    o.kind = static_cast<int>(s.weighted({8, 2, 4, 4, 1, 1}));
    std::vector<Key> ks;
    for (size_t n = 1 + s.below(3); n > 0; --n) {
      Key k = genKey(s, static_cast<Fam>(s.below(4)));
      if (s.p(60)) k.kid = genKid(s);
      ks.push_back(k);
    }
    const Key k = ks[s.below(ks.size())];
    std::vector<const Alg*> fit;
    for (auto& a : kAlgs)
      if (canSign(k, a)) fit.push_back(&a);
    const Alg& a = *fit[s.below(fit.size())];
    Token t = genToken(s, a.name, s.p(120) ? k.kid : "", false);
    t.sig = signWith(k, a, t.input(), s);
    if (s.p(60)) t.sig[s.below(t.sig.size())] ^= static_cast<char>(1 << s.below(8));
    o.token = t.str();
    o.set_kind = s.p(200) ? 0 : s.flip() && pemAble(k) ? 1 : 2;
    if (o.set_kind == 0) {
      o.set = jwksText(ks, s, LoadOpts());
      if (o.kind == 0) o.verdict = static_cast<int>(modelVerdict(ks, t.alg, t.kid, t.input(), t.sig));
    } else if (o.set_kind == 1) {
      o.set = pemOf(k);
    } else {
      J top = J::object();
      for (auto& r : rsaKeys())
        if (!r.cert.empty() && s.flip()) top.set("c" + std::to_string(s.below(100)), J::str(r.cert));
      o.set = writeJson(top);
    }
    for (size_t m = s.below(4); m > 0; --m) o.auds.push_back(s.pick(kAuds));
    o.now = s.flip() ? s.u64() >> s.below(64) : 0;
    return o;
  };
  bool same = s.p(150);  // everyone the same
  std::vector<TextOp> first;
  for (size_t n = 1 + s.below(2); n > 0; --n) first.push_back(gen());
  for (auto& p : plan) {
    if (same) {
      p = first;
    } else {
      for (size_t n = 1 + s.below(2); n > 0; --n) p.push_back(gen());
    }
  }
  c.note([&](std::ostream& o) {
    o << "from texts, threads first\n";
    for (size_t i = 0; i < plan.size(); ++i)
      for (auto& p : plan[i])
        o << "thread " << i << ": kind " << p.kind << " token " << quote(p.token, 700) << " set " << quote(p.set, 900) << "\n";
  });
  std::vector<std::vector<std::string>> got(nthreads);
  {
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < nthreads; ++i)
      ts.emplace_back([&, i] {
        ready.fetch_add(1);
        while (ready.load() < nthreads) {
        }
        for (auto& o : plan[i]) got[i].push_back(doText(o));
      });
    for (auto& t : ts) t.join();
  }
  uint64_t h = 5;
  bool ok = false;
  for (size_t i = 0; i < nthreads; ++i)
    for (size_t k = 0; k < plan[i].size(); ++k) {
      const TextOp& o = plan[i][k];
      const std::string& g = got[i][k];
      std::string again = doText(o);
      VP_CHECK(c, g.find("pending") == std::string::npos, "verification succeeds and leaves a crypto-library error pending");
      VP_CHECK(c, g == again, "call " << k << " of thread " << i << " (kind " << o.kind << ", from texts) gives " << quote(g)
                                      << " in a thread and " << quote(again) << " alone");
      if (o.verdict >= 0)
        VP_CHECK(c, g == "0,0," + std::to_string(o.verdict), "call " << k << " of thread " << i << " gives " << g << " where the model has " << o.verdict);
      ok = ok || o.verdict == 0;
      h = hashStr(o.token, h);
    }
  c.label("threads from texts");
  if (ok) c.label("with a verified token");
  c.nontrivial(h);
}

void run(Source& s, Ctx& c) {
  if (s.p(90)) return runText(s, c);
  World w;
  std::vector<std::vector<Key>> keysets;
  std::vector<Key> all;
  size_t nsets = 1 + s.below(2);
  for (size_t i = 0; i < nsets; ++i) {
    std::vector<Key> ks;
    for (size_t n = 1 + s.below(4); n > 0; --n) {
      Key k = genKey(s, static_cast<Fam>(s.below(4)));
      if (s.p(100)) k.kid = genKid(s);
      ks.push_back(k);
      all.push_back(k);
    }
    std::string how, why;
    JwksPtr p = loadSet(ks, s, LoadOpts(), &how, &why);
    VP_CHECK(c, p != nullptr, why);
    w.sets.push_back(std::move(p));
    keysets.push_back(ks);
    c.note([&](std::ostream& o) { o << "set " << i << " by " << how << showKeys(ks); });
  }
  size_t ntok = 1 + s.below(4);
  for (size_t i = 0; i < ntok; ++i) {
    const Key& k = all[s.below(all.size())];
    std::vector<const Alg*> fit;
    for (auto& a : kAlgs)
      if (canSign(k, a)) fit.push_back(&a);
    const Alg& a = *fit[s.below(fit.size())];
    Token t = genToken(s, a.name, s.p(120) ? k.kid : "", false);
    t.sig = signWith(k, a, t.input(), s);
    if (s.p(80)) t.sig[s.below(t.sig.size())] ^= static_cast<char>(1 << s.below(8));
    std::string text = t.str();
    std::unique_ptr<Jwt> j(new Jwt);
    Status r = j->parseFromString(text);
    VP_CHECK(c, r == Status::Ok, "a well-formed token does not parse: " << st(r));
    w.tokens.push_back(text);
    w.jwts.push_back(std::move(j));
    c.note([&](std::ostream& o) { o << "token " << i << " " << quote(t.htext) << " " << quote(t.ptext, 600); });
  }
  for (size_t n = 1 + s.below(3); n > 0; --n) {
    switch (s.below(4)) {
      case 0: {
        const Key& k = all[s.below(all.size())];
        if (pemAble(k)) {
          w.texts.push_back(pemOf(k));
          w.text_kind.push_back(1);
          break;
        }
      }  // fall through
      case 1: {
        J top = J::object();
        for (auto& r : rsaKeys())
          if (!r.cert.empty() && s.flip()) top.set("c" + std::to_string(s.below(100)), J::str(r.cert));
        w.texts.push_back(writeJson(top));
        w.text_kind.push_back(2);
        break;
      }
      default:
        w.texts.push_back(jwksText(keysets[s.below(nsets)], s, LoadOpts()));
        w.text_kind.push_back(0);
    }
  }
  static const char* kAuds[] = {"a", "http://a/", "https://b", "c/", "d"};
  for (size_t n = 1 + s.below(2); n > 0; --n) {
    std::vector<std::string> l;
    for (size_t m = s.below(4); m > 0; --m) l.push_back(s.pick(kAuds));
    // Some audience of a token.
    const Jwt& t = *w.jwts[s.below(ntok)];
    if (s.flip() && !t.audiences_.empty()) l.push_back(t.audiences_[s.below(t.audiences_.size())]);
    w.auds.push_back(l);
    w.checks.emplace_back(new CheckAudience(l));
  }
  // What to do, and in which threads.
  bool threads = s.p(190);
  size_t nthreads = threads ? 2 + s.below(3) : 1;
  std::vector<std::vector<Op>> plan(nthreads);
  // Mostly everyone on the same objects.
  bool narrow = s.p(120);
  size_t ops = 0;
  for (auto& p : plan) {
    for (size_t n = 1 + s.below(5); n > 0; --n) {
      Op o;
      o.kind = static_cast<int>(s.weighted({10, 4, 3, 4, 2, 2, 2, 1, 1, 1}));
      o.i = narrow ? 0 : s.below(8);
      o.j = narrow ? 0 : s.below(8);
      const Jwt& t = *w.jwts[o.i % ntok];
      o.now = s.flip() ? s.u64() >> s.below(64) : t.exp_ + s.below(200) - 100;
      if (s.p(60)) o.skew = s.below(1000);
      p.push_back(o);
      ++ops;
    }
  }
  c.note([&](std::ostream& o) {
    for (size_t i = 0; i < plan.size(); ++i) {
      o << "thread " << i << ":";
      for (auto& p : plan[i]) o << " " << p.kind << "(" << p.i << "," << p.j << "," << p.now << "," << p.skew << ")";
      o << "\n";
    }
  });
  std::vector<std::unique_ptr<Jwt>> jwt_before;
  std::vector<std::string> set_before;
  for (auto& t : w.jwts) {
    jwt_before.emplace_back(new Jwt);
    (void)jwt_before.back()->parseFromString(t->jwt_);
  }
  for (auto& k : w.sets) set_before.push_back(showSet(*k));
  std::vector<std::vector<std::string>> want(nthreads);
  auto fill = [&] {
    for (size_t i = 0; i < nthreads; ++i) {
      want[i].clear();
      for (auto& o : plan[i]) want[i].push_back(doOp(w, o));
    }
  };
  auto compare = [&](size_t i, size_t k, const std::string& got, const char* when) {
    VP_CHECK(c, got == want[i][k],
             "call " << k << " of thread " << i << " (kind " << plan[i][k].kind << ") gives " << quote(got) << " " << when << ", and "
                     << quote(want[i][k]) << " when made first alone");
  };
  auto pending = [&](const std::string& r) {
    VP_CHECK(c, r.find("pending") == std::string::npos, "verification succeeds and leaves a crypto-library error pending");
    VP_CHECK(c, r.find("differs") == std::string::npos, r);
  };
  // Threads first half of the time: nothing was called before then.
  bool threads_first = s.flip();
  if (!threads_first || !threads) fill();
  std::vector<std::vector<std::string>> got(nthreads);
  if (threads) {
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    size_t rounds = 1 + s.below(3);
    for (size_t i = 0; i < nthreads; ++i)
      ts.emplace_back([&, i] {
        ready.fetch_add(1);
        while (ready.load() < nthreads) {
        }
        for (size_t r = 0; r < rounds; ++r) {
          std::vector<std::string> g;
          for (auto& o : plan[i]) g.push_back(doOp(w, o));
          if (r == 0) got[i] = g;
          else if (g != got[i]) got[i].insert(got[i].begin(), "the results differ between two rounds");
        }
      });
    for (auto& t : ts) t.join();
  }
  if (threads_first && threads) fill();
  for (size_t i = 0; i < nthreads; ++i)
    for (auto& r : want[i]) pending(r);
  if (threads)
    for (size_t i = 0; i < nthreads; ++i) {
      VP_CHECK(c, got[i].size() == want[i].size(), "thread " << i << ": " << got[i][0]);
      for (size_t k = 0; k < got[i].size(); ++k) compare(i, k, got[i][k], "in a thread");
    }
  // Again, in the other order, with other calls between.
  for (size_t i = nthreads; i-- > 0;)
    for (size_t k = plan[i].size(); k-- > 0;) {
      if (ops > 2) (void)doOp(w, plan[(i + 1) % nthreads][0]);
      compare(i, k, doOp(w, plan[i][k]), "when repeated later");
    }
  for (size_t i = 0; i < ntok; ++i) {
    std::string d = diffJwt(*w.jwts[i], *jwt_before[i]);
    VP_CHECK(c, d.empty(), "token " << i << " was changed: " << d);
  }
  for (size_t i = 0; i < nsets; ++i) VP_CHECK(c, showSet(*w.sets[i]) == set_before[i], "key set " << i << " was changed");
  // And the verdicts are those of the model.
  bool ok = false;
  for (size_t i = 0; i < nthreads; ++i)
    for (size_t k = 0; k < plan[i].size(); ++k)
      if (plan[i][k].kind == 0) ok = ok || want[i][k] == "0";
  c.label(threads ? std::to_string(nthreads) + " threads" : "one thread");
  if (ok) c.label("with a verified token");
  if (threads_first && threads) c.label("threads before any other call of the case");
  uint64_t h = 3;
  for (auto& t : w.tokens) h = hashStr(t, h);
  if (ops >= 2) c.nontrivial(h + ops);
}
}  // namespace

const Property kProperty = {
    "C15",
    "A case is 1 to 4 tokens, 1 to 2 key sets and 1 to 4 threads with 1 to 5 calls each (verification in all forms, parsing, "
    "copying, key loading, audience and time checks, claim access) on these shared objects, run together under the thread "
    "sanitizer and compared with the same calls made alone, in another order and repeated; the objects are compared before and "
    "after. Non-trivial: at least two calls",
    15000, 600000, init, run, true, 8};
}  // namespace vp
