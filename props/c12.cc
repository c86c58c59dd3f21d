// C12: PEM and X.509 imports are equivalent to the same key as a JWK.
#include <set>

#include "jwkgen.h"

namespace vp {
namespace {
using google::jwt_verify::verifyJwtWithoutTimeChecking;

void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

Material materialOf(const Key& k) {
  Material m;
  m.kty = ktyName(k.fam);
  m.kid = k.kid;
  m.alg = k.alg;
  switch (k.fam) {
    case Fam::kRsa:
      m.n = k.rsa().n;
      m.e = k.rsa().e;
      break;
    case Fam::kEc:
      m.crv = "P-" + std::to_string(k.ec.curve);
      m.x = stripZeros(k.ec.x);
      m.y = stripZeros(k.ec.y);
      break;
    case Fam::kOct: m.k = k.secret; break;
    default: m.x = k.ed().pub;
  }
  return m;
}

std::string pemText(const std::string& label, const std::string& der) {
  std::string b = b64std(der), r = "-----BEGIN " + label + "-----\n";
  for (size_t i = 0; i < b.size(); i += 64) r += b.substr(i, 64) + "\n";
  return r + "-----END " + label + "-----\n";
}
std::string derOf(int tag, const std::string& v) {
  std::string r(1, static_cast<char>(tag));
  if (v.size() < 128) r += static_cast<char>(v.size());
  else if (v.size() < 256) r += std::string("\x81") + static_cast<char>(v.size());
  else r += std::string("\x82") + static_cast<char>(v.size() >> 8) + static_cast<char>(v.size());
  return r + v;
}
std::string derInt(const std::string& v) { return derOf(2, std::string(1, '\0') + v); }

// The same PEM text as other tools would write it.
std::string dress(Source& s, std::string pem) {
  if (s.p(170)) return pem;
  auto eol = [&](const std::string& e) {
    std::string r;
    for (char ch : pem) r += ch == '\n' ? e : std::string(1, ch);
    pem = r;
  };
  if (s.p(60)) {
    // Text around it.
    static const char* kText[] = {"\n", "# key\n", "subject=/CN=test\nissuer=/CN=test\n", "Bag Attributes\n    localKeyID: 01\n", "   \n\n", "-----\n", "Public-Key: (256 bit)\n"};
    if (s.flip()) pem = s.pick(kText) + pem;
    if (s.flip()) pem += s.pick(kText);
  }
  switch (s.below(5)) {
    case 0: eol("\r\n"); break;
    case 1: if (pem.back() == '\n') pem.pop_back(); break;
    case 2: {
      // Spaces at line ends.
      eol(s.flip() ? " \n" : "\t\n");
      break;
    }
    case 3: pem += s.flip() ? "\n\n" : pem; break;  // the same key twice
    default: {
      // Short lines.
      size_t b = pem.find("KEY-----\n");
      if (b == std::string::npos) break;
      b += 9;
      size_t e = pem.find("-----END");
      std::string body, r;
      for (size_t i = b; i < e; ++i)
        if (pem[i] != '\n') body += pem[i];
      size_t w = 4 * (1 + s.below(19));
      for (size_t i = 0; i < body.size(); i += w) r += body.substr(i, w) + "\n";
      pem = pem.substr(0, b) + r + pem.substr(e);
    }
  }
  return pem;
}

// Body of a PEM text damaged so that it cannot be read.
std::string damage(Source& s, std::string pem) {
  size_t b = pem.find('\n') + 1, e = pem.rfind("-----END");
  switch (s.below(6)) {
    case 0: pem[b + s.below(e - b - 1)] = "!?.:"[s.below(4)]; break;  // not base64
    case 1: return pem.substr(0, b) + pem.substr(e);                  // no body
    case 2: {
      // Shortened by whole groups: the DER text is cut.
      std::string body;
      for (size_t i = b; i < e; ++i)
        if (pem[i] != '\n') body += pem[i];
      body.resize(4 * s.below((body.size() - 1) / 4));
      std::string r = pem.substr(0, b);
      for (size_t i = 0; i < body.size(); i += 64) r += body.substr(i, 64) + "\n";
      return r + pem.substr(e);
    }
    case 3: pem[b] = pem[b] == 'M' ? 'A' : 'M'; if (pem[b] == 'M') pem[b] = 'A'; break;  // not a SEQUENCE
    case 4: pem[5 + s.below(5)] ^= 1; break;  // BEGIN
    default: pem = pem.substr(0, e); break;   // END
  }
  return pem;
}

// A text that is no usable PEM public key.
std::string badPem(Source& s) {
  Key k = genKey(s, s.flip() ? Fam::kEc : s.flip() ? Fam::kOkp : Fam::kRsa);
  switch (s.below(11)) {
    case 0: return "";
    case 1: return s.bytes(s.below(40));
    case 2: {
      // A certificate.
      for (auto& r : rsaKeys())
        if (!r.cert.empty()) return r.cert;
      return "";
    }
    case 3: return pemText("PRIVATE KEY", fromHex("302e020100300506032b657004220420") + s.bulk(32));
    case 4: return pemText("PUBLIC KEY", fromHex("302a300506032b656e032100") + s.bulk(32));  // X25519
    case 5: {                                                                            // DSA
      std::string p = s.bulk(128), q = s.bulk(20), g = s.bulk(128), y = s.bulk(127);
      p[0] |= '\x80';
      q[0] |= '\x80';
      g[0] = '\1';
      p.back() |= 1;
      q.back() |= 1;
      std::string algo = derOf(0x30, fromHex("06072a8648ce380401") + derOf(0x30, derInt(p) + derInt(q) + derInt(g)));
      return pemText("PUBLIC KEY", derOf(0x30, algo + derOf(3, std::string(1, '\0') + derInt(y))));
    }
    case 6: {  // the RSA key alone, not as a SubjectPublicKeyInfo
      const RsaKey& r = rsaKeys()[0];
      return pemText(s.flip() ? "RSA PUBLIC KEY" : "PUBLIC KEY", derOf(0x30, derInt(r.n) + derOf(2, r.e)));
    }
    case 7: {
      // A point off the curve.
      Key e = genKey(s, Fam::kEc);
      std::string d = e.ec.spki;
      size_t n = e.ec.len();
      d[d.size() - 1 - s.below(n)] ^= static_cast<char>(1 << s.below(7));
      std::string y = d.substr(d.size() - n);
      // y and p - y are the only points.
      return onCurve(e.ec.curve, e.ec.x, y) ? "" : pemText("PUBLIC KEY", d);
    }
    case 8: return b64std(k.fam == Fam::kEc ? k.ec.spki : edKeys()[0].spki);
    case 9: return "{\"keys\":[" + writeJson(jwkOf(k)) + "]}";
    default: return damage(s, pemOf(k));
  }
}

const std::vector<int>& certPool() {
  static const std::vector<int>* v = [] {
    auto* r = new std::vector<int>;
    for (size_t i = 0; i < rsaKeys().size(); ++i)
      if (!rsaKeys()[i].cert.empty()) r->push_back(static_cast<int>(i));
    return r;
  }();
  return *v;
}

// Any alg a PEM key may be given.
std::string genAlg(Source& s, Fam f) {
  std::vector<std::string> fit;
  for (auto& a : kAlgs)
    if (a.fam == f) fit.push_back(a.name);
  switch (s.weighted({6, 6, 2, 1})) {
    case 0: return "";
    case 1: return s.pick(fit);
    case 2: return kAlgs[s.below(13)].name;
    default: return s.flip() ? "none" : genText(s, 8);
  }
}

std::string checkSame(const Jwks::Pubkey& k, const Key& want) {
  return diffKey(k, materialOf(want), false);
}

// A signed or forged token for one of the keys (or a stranger).
struct Probe {
  Token t;
  std::unique_ptr<Jwt> jwt;
};
bool genProbe(Source& s, Ctx& c, const std::vector<Key>& keys, Probe* p) {
  Key signer = keys[s.below(keys.size())];
  bool stranger = s.p(40);
  if (stranger) {
    std::string kid = signer.kid;
    signer = genKey(s, signer.fam, signer.fam == Fam::kEc ? signer.ec.curve : 0);
    signer.kid = kid;
  }
  // Mostly an algorithm of its own.
  std::vector<const Alg*> fit;
  const Alg* a = nullptr;
  for (auto& x : kAlgs) {
    if (x.fam == signer.fam) fit.push_back(&x);
    if (signer.alg == x.name && x.fam == signer.fam && s.p(200)) a = &x;
  }
  if (!a) a = fit[s.below(fit.size())];
  if (a->fam == Fam::kEc && signer.alg.empty() && s.p(200)) a = signer.ec.curve == 256 ? &kAlgs[0] : signer.ec.curve == 384 ? &kAlgs[1] : &kAlgs[2];
  if (!canSign(signer, *a)) return false;
  std::string kid = s.p(180) ? signer.kid : s.flip() ? "" : genKid(s);
  p->t = genToken(s, a->name, kid, false);
  p->t.sig = signWith(signer, *a, p->t.input(), s);
  switch (s.weighted({10, 2, 1, 1})) {
    case 1:
      p->t.sig[s.below(p->t.sig.size())] ^= static_cast<char>(1 << s.below(8));
      break;
    case 2: p->t.sig = s.flip() ? p->t.sig + std::string(1, '\0') : p->t.sig.substr(1); break;
    case 3: p->t.p64 = b64url(writeJson(genPayload(s, false))); break;
    default: break;
  }
  p->jwt.reset(new Jwt);
  Status r = p->jwt->parseFromString(p->t.str());
  VP_CHECK(c, r == Status::Ok, "a well-formed token does not parse: " << st(r));
  return true;
}

void verifySame(Ctx& c, const Probe& p, const std::vector<Key>& keys, const std::vector<std::pair<std::string, const Jwks*>>& sets) {
  Status want = modelVerdict(keys, p.t.alg, p.t.kid, p.t.input(), p.t.sig);
  c.note([&](std::ostream& o) { o << " token " << quote(p.t.htext, 300) << ", signature of " << p.t.sig.size() << " bytes, expected " << st(want); });
  for (auto& e : sets) {
    Status got = verifyJwtWithoutTimeChecking(*p.jwt, *e.second);
    VP_CHECK(c, got == want, "the " << e.first << " gives " << st(got) << " instead of " << st(want) << " for " << p.t.str());
  }
  c.label("verdict " + st(want));
}

void single(Source& s, Ctx& c) {
  static const Fam kF[] = {Fam::kEc, Fam::kRsa, Fam::kOkp};
  Key k = genKey(s, kF[s.weighted({5, 4, 2})]);
  if (s.p(190)) k.kid = genKid(s);
  bool plain = s.p(40);
  if (plain) k.kid = "";
  else k.alg = genAlg(s, k.fam);
  std::string pem = dress(s, pemOf(k));
  c.note([&](std::ostream& o) { o << "PEM of " << k.show() << (plain ? " by createFrom" : "") << "\n " << quote(pem, 3000); });
  JwksPtr before;
  if (s.p(30)) before = readNearSet(s, c, pem, Jwks::PEM);
  JwksPtr ps = plain ? Jwks::createFrom(pem, Jwks::PEM) : Jwks::createFromPem(pem, k.kid, k.alg);
  VP_CHECK(c, ps->getStatus() == Status::Ok, "the PEM key gives " << st(ps->getStatus()));
  VP_CHECK(c, ps->keys().size() == 1, "the PEM text loads as " << ps->keys().size() << " keys");
  std::string d = checkSame(*ps->keys()[0], k);
  VP_CHECK(c, d.empty(), "the PEM key differs: " << d);
  std::vector<std::pair<std::string, const Jwks*>> sets = {{"PEM key", ps.get()}};
  // The same key as a JWK, if a JWK can say so, and as a certificate.
  Material m;
  J jwk = jwkOf(k);
  JwksPtr js, cs;
  if (readJwk(jwk, &m) == Status::Ok) {
    js = Jwks::createFrom("{\"keys\":[" + writeJson(jwk) + "]}", Jwks::JWKS);
    VP_CHECK(c, js->getStatus() == Status::Ok, "the JWK gives " << st(js->getStatus()));
    sets.push_back({"JWK", js.get()});
    c.label("compared with a JWK");
  }
  if (certAble(k)) {
    J top = J::object();
    top.set(k.kid, J::str(certOf(k, s)));
    cs = Jwks::createFrom(writeJson(top), Jwks::JWKS);
    VP_CHECK(c, cs->getStatus() == Status::Ok && cs->keys().size() == 1, "the certificate gives " << st(cs->getStatus()) << " and " << cs->keys().size() << " keys");
    d = checkSame(*cs->keys()[0], k);
    VP_CHECK(c, d.empty(), "the certificate's key differs: " << d);
    sets.push_back({"certificate", cs.get()});
    c.label("compared with a certificate");
  }
  for (size_t n = 1 + s.below(3); n > 0; --n) {
    Probe p;
    if (genProbe(s, c, {k}, &p)) verifySame(c, p, {k}, sets);
  }
  c.label(std::string("PEM ") + ktyName(k.fam));
  c.nontrivial(hashStr(k.show()));
}

void certSet(Source& s, Ctx& c) {
  size_t n = 1 + s.below(6);
  std::vector<Key> keys;
  J top = J::object();
  std::set<std::string> kids;
  for (size_t i = 0; i < n; ++i) {
    Key k;
    k.fam = Fam::kRsa;
    k.idx = s.p(200) ? certPool()[s.below(certPool().size())] : genKey(s, Fam::kRsa).idx;
    k.kid = genKid(s);
    if (k.kid.empty() || k.kid == "keys" || !kids.insert(k.kid).second) continue;
    keys.push_back(k);
    top.set(k.kid, J::str(certOf(k, s)));
  }
  if (keys.empty()) return;
  bool broken = s.p(100);
  if (broken) {
    std::string good;
    for (auto& r : rsaKeys())
      if (!r.cert.empty()) good = r.cert;
    std::string ec;
    for (auto& e : ecKeys())
      if (!e.cert.empty()) ec = e.cert;
    J bad;
    switch (s.below(6)) {
      case 0: bad = notText(s); break;
      case 1: bad = J::str(genText(s, 30)); break;
      case 2: bad = J::str(ec); break;
      case 3: bad = J::str(pemOf(genKey(s, Fam::kRsa))); break;
      default: bad = J::str(damage(s, good));
    }
    std::string kid = "bad" + std::to_string(s.below(100));
    top.set(kid, bad);
    if (s.p(60)) top.set(kid + "x", J::str(ec));
  }
  s.shuffle(top.obj);
  std::string text = s.flip() ? writeJson(top) : writeJson(top, s);
  c.note([&](std::ostream& o) { o << "certificate set " << quote(text, 6000) << (broken ? "\n with an unusable entry" : ""); });
  JwksPtr before;
  if (s.p(30)) before = readNearSet(s, c, text, Jwks::JWKS);
  JwksPtr ks = Jwks::createFrom(text, Jwks::JWKS);
  if (broken) {
    VP_CHECK(c, ks->getStatus() != Status::Ok, "a certificate set with an unusable entry loads");
    VP_CHECK(c, ks->keys().empty(), "a certificate set that fails leaves " << ks->keys().size() << " keys");
    c.label("unusable certificate set");
    c.nontrivial(hashStr(text));
    return;
  }
  VP_CHECK(c, ks->getStatus() == Status::Ok, "the certificate set gives " << st(ks->getStatus()));
  VP_CHECK(c, ks->keys().size() == keys.size(), keys.size() << " certificates load as " << ks->keys().size() << " keys");
  for (auto& k : keys) {
    size_t found = 0;
    std::string d;
    for (auto& p : ks->keys())
      if (p->kid_ == k.kid) {
        ++found;
        d = checkSame(*p, k);
      }
    VP_CHECK(c, found == 1, found << " keys have the kid " << quote(k.kid));
    VP_CHECK(c, d.empty(), "the key of kid " << quote(k.kid) << " differs: " << d);
  }
  J list = J::array();
  for (auto& k : keys) list.list.push_back(jwkOf(k));
  J jt = J::object();
  jt.set("keys", list);
  JwksPtr js = Jwks::createFrom(writeJson(jt), Jwks::JWKS);
  VP_CHECK(c, js->getStatus() == Status::Ok, "the same keys as JWKs give " << st(js->getStatus()));
  for (size_t m = 1 + s.below(2); m > 0; --m) {
    Probe p;
    if (genProbe(s, c, keys, &p)) verifySame(c, p, keys, {{"certificate set", ks.get()}, {"JWKs", js.get()}});
  }
  c.label("certificate set of " + std::to_string(keys.size()));
  c.nontrivial(hashStr(text));
}

void additions(Source& s, Ctx& c) {
  std::vector<Key> keys;
  static const Fam kF[] = {Fam::kEc, Fam::kRsa, Fam::kOkp, Fam::kOct};
  auto any = [&](size_t fams) {
    Key k = genKey(s, kF[s.below(fams)]);
    if (s.p(170)) k.kid = genKid(s);
    return k;
  };
  for (size_t n = s.below(4); n > 0; --n) keys.push_back(any(4));
  std::string how, why;
  JwksPtr ks;
  ks = loadSet(keys, s, LoadOpts(), &how, &why);
  VP_CHECK(c, ks != nullptr, why);
  c.note([&](std::ostream& o) { o << "set by " << how << showKeys(keys); });
  // Certificate sets come in any order: take over the order of the set.
  std::vector<Key> ordered;
  std::vector<Key> pool = keys;
  for (auto& p : ks->keys()) {
    size_t i = 0;
    while (i < pool.size() && !checkSame(*p, pool[i]).empty()) ++i;
    VP_CHECK(c, i < pool.size(), "the loaded set has a key that was not given, kid " << quote(p->kid_));
    ordered.push_back(pool[i]);
    pool.erase(pool.begin() + i);
  }
  keys = ordered;
  Status first_status = ks->getStatus();
  size_t n = 1 + s.below(5), failed = 0;
  for (size_t i = 0; i < n; ++i) {
    bool bad = s.p(110);
    Key k = any(3);
    k.alg = genAlg(s, k.fam);
    if (!bad && s.p(40) && !keys.empty()) {
      // A key that is there already.
      Key o = keys[s.below(keys.size())];
      if (pemAble(o)) k = o;
    }
    std::string pem = bad ? badPem(s) : dress(s, pemOf(k));
    c.note([&](std::ostream& o) { o << " add " << (bad ? "unusable " + quote(pem, 1500) : k.show()); });
    Status r = ks->addKeyFromPem(pem, k.kid, k.alg);
    if (bad) {
      VP_CHECK(c, r != Status::Ok, "adding an unusable PEM text reports Ok: " << quote(pem, 2000));
      ++failed;
    } else {
      VP_CHECK(c, r == Status::Ok, "adding a PEM key gives " << st(r));
      keys.push_back(k);
    }
    VP_CHECK(c, ks->keys().size() == keys.size(), "the set holds " << ks->keys().size() << " keys instead of " << keys.size());
    for (size_t j = 0; j < keys.size(); ++j) {
      std::string d = checkSame(*ks->keys()[j], keys[j]);
      VP_CHECK(c, d.empty(), "key " << j << " of " << keys.size() << " differs: " << d);
    }
    if (first_status == Status::Ok)
      VP_CHECK(c, ks->getStatus() == Status::Ok, "the set's status became " << st(ks->getStatus()));
  }
  if (!keys.empty())
    for (size_t m = 1 + s.below(2); m > 0; --m) {
      Probe p;
      if (genProbe(s, c, keys, &p)) verifySame(c, p, keys, {{"set with additions", ks.get()}});
    }
  c.label("additions, " + std::to_string(failed) + " of them failing");
  c.nontrivial(hashStr(how + showKeys(keys)) + failed);
}

void failing(Source& s, Ctx& c) {
  std::string pem = badPem(s);
  bool plain = s.flip();
  c.note([&](std::ostream& o) { o << "unusable PEM " << quote(pem, 3000); });
  std::string kid = s.flip() ? genKid(s) : "";
  JwksPtr ks = plain ? Jwks::createFrom(pem, Jwks::PEM) : Jwks::createFromPem(pem, kid, s.flip() ? kAlgs[s.below(13)].name : "");
  VP_CHECK(c, ks->getStatus() != Status::Ok, "an unusable PEM text loads");
  VP_CHECK(c, ks->keys().empty(), "a PEM text that fails leaves " << ks->keys().size() << " keys");
  c.label("unusable PEM: " + st(ks->getStatus()));
  c.nontrivial(hashStr(pem));
}

void run(Source& s, Ctx& c) {
  switch (s.weighted({6, 3, 4, 3})) {
    case 0: return single(s, c);
    case 1: return certSet(s, c);
    case 2: return additions(s, c);
    default: return failing(s, c);
  }
}
}  // namespace

const Property kProperty = {
    "C12",
    "A case is a PEM key compared with its JWK and certificate, a set of 1 to 6 certificates of any validity and extensions (some with an unusable entry), a "
    "sequence of 1 to 5 usable and unusable PEM additions to a key set, or an unusable PEM text; loaded keys are compared with "
    "the generated ones and verdicts on genuine and forged tokens with each other and with the model. All cases count",
    100000, 2000000, init, run};
}  // namespace vp
