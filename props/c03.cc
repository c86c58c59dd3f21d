// C03: keys are tried by kid and alg, and failures are classified exactly.
#include <algorithm>

#include "forge.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

const char* familyAlg(Source& s, const Key& k) {
  switch (k.fam) {
    case Fam::kRsa: {
      // Loadable with any of these; only equal names match.
      static const char* v[] = {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512", "RSA-OAEP", "RS25", "RS256 ", "PS1"};
      return v[s.weighted({6, 3, 3, 4, 2, 2, 1, 1, 1, 1})];
    }
    case Fam::kEc: return k.ec.curve == 256 ? "ES256" : k.ec.curve == 384 ? "ES384" : "ES512";
    case Fam::kOct: {
      static const char* v[] = {"HS256", "HS384", "HS512"};
      return s.pick(v);
    }
    default: return "EdDSA";
  }
}

// Equal, nearly equal, with zero bytes, and long with a long common start.
const std::string& kidText(Source& s, bool even = false) {
  static const std::string head(300, 'k'), page(5000, 'p');
  static const std::string k[] = {"", "a", "b", "A", "ab", "a ", std::string("a\0b", 3), std::string("a\0c", 3), head + "a", head + "b", page + "a", page + "b", head, std::string("a\0", 2)};
  return k[even ? s.below(14) : s.weighted({24, 24, 24, 6, 6, 6, 3, 3, 3, 3, 1, 1, 1, 1})];
}

// A key only a PEM text can give: its alg is that of another type of key.
bool foreign(const Key& k) {
  if (k.alg.empty() || !pemAble(k)) return false;
  const char* fits[] = {"", "RS", "ES", "Ed"};
  return k.alg.compare(0, 2, fits[k.fam == Fam::kRsa ? 1 : k.fam == Fam::kEc ? 2 : 3]) != 0 && !(k.fam == Fam::kRsa && k.alg.compare(0, 2, "PS") == 0);
}
// Loads the keys, those ones last.
JwksPtr load(std::vector<Key>* keys, Source& s, const LoadOpts& o, std::string* how, std::string* why) {
  auto mid = std::stable_partition(keys->begin(), keys->end(), [](const Key& k) { return !foreign(k); });
  JwksPtr ks = loadSet(std::vector<Key>(keys->begin(), mid), s, o, how, why);
  for (; ks && mid != keys->end(); ++mid) {
    *how += " +PEM of another alg";
    Status r = ks->addKeyFromPem(pemOf(*mid), mid->kid, mid->alg);
    if (r != Status::Ok) {
      *why = "added PEM key " + mid->show() + " refused: " + st(r);
      return nullptr;
    }
  }
  return ks;
}

void run(Source& s, Ctx& c) {
  static const Fam kF[] = {Fam::kOct, Fam::kOkp, Fam::kEc, Fam::kRsa};
  size_t n = s.many(6, 150, 2);
  bool long_kids = s.p(24);
  std::vector<Key> keys;
  for (size_t i = 0; i < n; ++i) {
    Key k;
    if (i > 0 && s.p(50)) {
      k = keys[s.below(i)];  // the same key material again
    } else {
      Fam f = kF[s.weighted({6, 5, 5, 4})];
      k = genKey(s, f, f == Fam::kEc ? (s.p(25) ? 384 : s.p(8) ? 521 : 256) : 0);
    }
    k.kid = long_kids ? kidText(s, true) : kidText(s);
    if (s.p(6)) k.kid = genKid(s);
    k.alg = s.p(120) ? familyAlg(s, k) : "";
    if (pemAble(k) && s.p(12)) k.alg = kAlgs[s.below(13)].name;
    if (k.fam == Fam::kEc && !foreign(k) && !k.alg.empty()) k.alg = familyAlg(s, k);
    keys.push_back(k);
  }
  std::string kid = long_kids ? kidText(s, true) : kidText(s);
  if (s.p(6)) kid = genKid(s);
  if (n && s.p(50)) kid = s.pick(keys).kid;
  const Alg* a = &kAlgs[s.weighted({5, 1, 1, 4, 2, 2, 4, 1, 1, 3, 1, 1, 6})];
  Key signer;
  bool have = false;
  if (n && s.p(200)) {
    signer = s.pick(keys);
    have = true;
    // An algorithm the key can sign with, mostly.
    std::vector<const Alg*> v;
    for (auto& x : kAlgs)
      if (canSign(signer, x)) v.push_back(&x);
    if (s.p(220)) a = s.pick(v);
    if (algByName(signer.alg) && s.p(150)) a = algByName(signer.alg);
    if (!canSign(signer, *a)) have = false;
  }
  Token t = genToken(s, a->name, kid, false);
  std::string what = "random signature";
  if (have && !s.p(40)) {
    t.sig = signWith(signer, *a, t.input(), s);
    what = "signed by " + signer.show();
    if (s.p(30)) {
      std::string f;
      if (s.flip()) algForgery(s, signer, *a, &t, &f);
      else mutateSig(s, &t, &f);
      if (t.sig.empty()) t.sig = "x";
      what += ", then forged: " + f;
    }
  } else if (s.p(120)) {
    Key other = genKey(s, a->fam, curveFor(*a));
    while (!canSign(other, *a)) other.idx = (other.idx + 1) % rsaKeys().size();
    t.sig = signWith(other, *a, t.input(), s);
    what = "signed by a key outside the set";
  } else {
    static const size_t kLens[] = {64, 32, 48, 128, 256, 96, 132, 63, 65, 1};
    t.sig = s.bulk(s.pick(kLens));
  }
  if (s.p(40)) {
    // Another length, which matters to EdDSA.
    switch (s.below(5)) {
      case 4: t.sig.resize(static_cast<size_t>(s.litNum(1, 5000)), 'x'); break;
      case 0: t.sig.resize(t.sig.size() - 1); break;
      case 1: t.sig += '\0'; break;
      case 2: t.sig.resize(s.range(1, 130), 'x'); break;
      default: t.sig = t.sig + t.sig;
    }
    if (t.sig.empty()) t.sig = "x";
    what += ", resized";
  }
  LoadOpts lo;
  lo.vary = s.p(60);
  std::string how, why;
  JwksPtr ks = load(&keys, s, lo, &how, &why);
  c.note([&](std::ostream& o) {
    o << "token alg " << t.alg << " kid " << quote(kid) << ", " << what << ", signature of " << t.sig.size() << " bytes\n " << t.str().substr(0, 600)
      << "\n keys (" << how << ")" << showKeys(keys);
  });
  if (!ks) {
    c.label("key set refused (decided by C11)");
    return;
  }
  Jwt jwt;
  if (jwt.parseFromString(t.str()) != Status::Ok) {
    c.label("token refused (decided by C07)");
    return;
  }
  Status want = modelVerdict(keys, t.alg, kid, t.input(), t.sig);
  if (s.p(30)) {
    Jwt other;
    std::string n = nearToken(s, t.str());
    if (other.parseFromString(n) == Status::Ok) {
      Status r = verifyJwtWithoutTimeChecking(other, *ks);
      c.note([&](std::ostream& o) { o << "verified before, giving " << st(r) << ": " << quote(n, 2000); });
      c.label("after verifying a token much like it");
    }
  }
  Status got = verifyJwtWithoutTimeChecking(jwt, *ks);
  VP_CHECK(c, got == want, "verification gives " << st(got) << " where the rules give " << st(want));
  c.label("verdict " + st(want));
  size_t elig = 0;
  for (auto& k : keys) elig += eligible(k, t.alg, kid);
  c.label(elig == 0 ? "no eligible key" : elig == 1 ? "one eligible key" : "several eligible keys");
  // Another order, and more keys.
  if (n > 1 && s.p(100)) {
    std::vector<Key> perm = keys;
    s.shuffle(perm);
    std::string h2;
    JwksPtr k2 = load(&perm, s, lo, &h2, &why);
    if (k2) {
      Status g2 = verifyJwtWithoutTimeChecking(jwt, *k2);
      VP_CHECK(c, (g2 == Status::Ok) == (got == Status::Ok),
               "verdict depends on the order of the keys: " << st(got) << " against " << st(g2) << " for" << showKeys(perm));
      c.label("reordered");
    }
  }
  if (s.p(100)) {
    std::vector<Key> more = keys;
    Key k = genKey(s, kF[s.below(3)], 256);
    k.kid = s.flip() ? kid : kidText(s, true);
    k.alg = s.flip() ? familyAlg(s, k) : "";
    more.insert(more.begin() + s.below(more.size() + 1), k);
    std::string h2;
    JwksPtr k2 = load(&more, s, lo, &h2, &why);
    if (k2) {
      Status g2 = verifyJwtWithoutTimeChecking(jwt, *k2);
      VP_CHECK(c, g2 == Status::Ok || got != Status::Ok, "adding " << k.show() << " turns Ok into " << st(g2));
      Status w2 = modelVerdict(more, t.alg, kid, t.input(), t.sig);
      VP_CHECK(c, g2 == w2, "verification with " << k.show() << " added gives " << st(g2) << " where the rules give " << st(w2));
      c.label("key added");
    }
  }
  if (n > 6) c.label("over 6 keys");
  if (n && foreign(keys.back())) c.label("with a PEM key under the alg of another key type");
  if (n >= 2 || elig != n) c.nontrivial(hashStr(t.str(), hashStr(showKeys(keys))));
}
}  // namespace

const Property kProperty = {
    "C03",
    "A case is a key set of 0 to 6 keys (now and then up to 150) of mixed types, kids (absent, equal, near-equal, with zero bytes, thousands of bytes long) and algs, possibly with the same key "
    "twice or PEM keys under an alg of another key type, and a token signed by one of them, by an outside key, by a forger, or not at all; the exact status is compared with a model "
    "using an independent verifier, then again with the keys reordered and a key added. Non-trivial: at least two keys, or an "
    "ineligible one",
    120000, 2000000, init, run};
}  // namespace vp
