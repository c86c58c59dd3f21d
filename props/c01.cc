// C01: a token is accepted only with a genuine signature by an eligible key.
#include "forge.h"

namespace vp {
namespace {
void init() {
  rsaKeys();
  ecKeys();
  edKeys();
}

struct Forged {
  std::string what;
  Token t;
  std::string text;  // if not empty, used instead of t.str(); never acceptable
};

// One bit or character of base64url text.
std::string mutateText(Source& s, std::string x, std::string* what) {
  size_t i = s.below(x.size());
  switch (s.below(8)) {
    case 0:
    case 1:
      x[i] ^= static_cast<char>(1 << s.below(7));
      *what += "bit flip";
      break;
    case 2: {
      static const char k[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
      x[i] = k[s.below(64)];
      *what += "character replaced";
      break;
    }
    case 3:
      x += s.flip() ? "=" : "==";
      *what += "padding appended";
      break;
    case 4:
      x.insert(i, 1, " \n\t\r"[s.below(4)]);
      *what += "white space inserted";
      break;
    case 5:
      // Flip the lowest bits of the last character (may decode to the same).
      x.back() = x.back() == 'A' ? 'B' : static_cast<char>(x.back() ^ 1);
      *what += "last character's low bit";
      break;
    case 6:
      x.erase(i, 1);
      *what += "character removed";
      break;
    default:
      if (x[i] == '-') x[i] = '+';
      else if (x[i] == '_') x[i] = '/';
      else x[i] = static_cast<char>(x[i] ^ 0x20);
      *what += "alphabet or case swapped";
  }
  return x;
}

void setAlg(Source& s, Token* t, const std::string& alg) {
  t->alg = alg;
  t->header.set("alg", J::str(alg));
  t->htext = s.flip() ? writeJson(t->header) : writeJson(t->header, s);
  encode(t);
}

// Bytes an attacker might use as an HMAC secret.
std::string publicMaterial(Source& s, const Key& k) {
  std::vector<std::string> v = {""};
  switch (k.fam) {
    case Fam::kRsa:
      v = {k.rsa().pem, k.rsa().spki, k.rsa().n, k.rsa().e, b64url(k.rsa().n), k.rsa().cert, b64std(k.rsa().spki), ""};
      break;
    case Fam::kEc:
      v = {k.ec.pem, k.ec.spki, k.ec.x, k.ec.y, k.ec.x + k.ec.y, "\x04" + k.ec.x + k.ec.y, b64url(k.ec.x), ""};
      break;
    case Fam::kOkp:
      v = {k.ed().pem, k.ed().spki, k.ed().pub, b64url(k.ed().pub), ""};
      break;
    default:
      v = {"", b64url(k.secret), k.kid, std::string(k.secret.size(), '\0')};
  }
  v.push_back(writeJson(jwkOf(k)));
  v.push_back(k.kid);
  std::string m = s.pick(v);
  if (!m.empty() && m.back() == '\n' && s.flip()) m.pop_back();
  return m;
}

void run(Source& s, Ctx& c) {
  // Keys of the set; the target among them is the one that signs.
  size_t n = 1 + (s.p(150) ? s.below(3) : 0);
  std::vector<Key> keys;
  std::vector<std::string> kids = {"", "k1", "k2"};
  for (size_t i = 0; i < n; ++i) {
    static const Fam kF[] = {Fam::kRsa, Fam::kEc, Fam::kOct, Fam::kOkp};
    Fam f = kF[s.weighted({5, 5, 4, 4})];
    Key k = genKey(s, f, f == Fam::kEc ? (s.p(60) ? 384 : s.p(30) ? 521 : 256) : 0);
    k.kid = s.pick(kids);
    if (s.p(110)) {
      const Alg& a = algOf(s, f);
      k.alg = a.name;
      if (f == Fam::kEc) k.alg = k.ec.curve == 256 ? "ES256" : k.ec.curve == 384 ? "ES384" : "ES512";
    }
    keys.push_back(k);
  }
  size_t target = s.below(n);
  const Key k = keys[target];
  const Alg* a = &algOf(s, k.fam);
  if (k.fam == Fam::kEc && s.p(230)) a = algByName(k.ec.curve == 256 ? "ES256" : k.ec.curve == 384 ? "ES384" : "ES512");
  if (!k.alg.empty() && s.p(220)) a = algByName(k.alg);
  while (!canSign(k, *a)) a = algByName("RS256");
  std::string how, why;
  LoadOpts lo;
  lo.vary = s.p(60);
  JwksPtr ks = loadSet(keys, s, lo, &how, &why);
  c.note([&](std::ostream& o) { o << "keys (" << how << ", signer is #" << target << ")" << showKeys(keys); });
  if (!ks) {
    c.label("key set refused (decided by C11)");
    return;
  }
  std::string kid = s.p(200) ? k.kid : s.pick(kids);
  Token good = genToken(s, a->name, kid, s.p(40));
  good.sig = signWith(k, *a, good.input(), s);

  Jwt keep;  // one object that is used again and again
  std::map<std::string, bool> ref;
  auto tryToken = [&](const Forged& f) {
    std::string text = f.text.empty() ? f.t.str() : f.text;
    Jwt fresh;
    Jwt& jwt = s.flip() ? fresh : keep;
    Status ps = jwt.parseFromString(text);
    c.note([&](std::ostream& o) {
      o << "token (" << f.what << "): " << quote(text, 1500) << "\n  header " << quote(f.t.htext) << "\n  signature "
        << toHex(f.t.sig).substr(0, 300) << "\n  parse: " << st(ps);
    });
    if (ps != Status::Ok) {
      c.label("does not parse");
      return;
    }
    Status v;
    switch (s.weighted({12, 1, 1, 1})) {
      case 0: v = verifyJwtWithoutTimeChecking(jwt, *ks); break;
      case 1: v = verifyJwt(jwt, *ks, s.flip() ? jwt.nbf_ : s.u64() >> 20, s.flip() ? 60 : ~0ull); break;
      case 2: v = verifyJwt(jwt, *ks, jwt.audiences_, jwt.nbf_); break;
      default: {
        Jwt copy(jwt);
        v = verifyJwtWithoutTimeChecking(copy, *ks);
      }
    }
    c.note([&](std::ostream& o) { o << "  verdict: " << st(v); });
    bool genuine = f.text.empty() && modelVerdict(keys, f.t.alg, f.t.kid, f.t.input(), f.t.sig) == Status::Ok;
    VP_CHECK(c, v != Status::Ok || genuine, "a token that no eligible key has signed is accepted (" << f.what << ")");
    c.label(genuine ? (v == Status::Ok ? "genuine, accepted" : "genuine, not accepted (decided by C02)") : "forged, rejected");
    if (!genuine) c.nontrivial(hashStr(text));
  };

  if (s.p(220)) tryToken({"genuine", good, ""});
  for (size_t m = 1 + s.below(5); m > 0; --m) {
    Forged f;
    f.t = good;
    size_t kind = s.weighted({5, 6, 8, 3, 3, 3, 2, 2, 3, 2, 3});
    switch (kind) {
      case 0: {  // header or payload text changed
        bool h = s.flip();
        f.what = h ? "header text: " : "payload text: ";
        std::string x = mutateText(s, h ? good.h64 : good.p64, &f.what);
        if (x == (h ? good.h64 : good.p64)) break;
        f.text = h ? x + "." + good.p64 : good.h64 + "." + x;
        f.text += "." + b64url(good.sig);
        break;
      }
      case 1: mutateSig(s, &f.t, &f.what); break;
      case 2: algForgery(s, k, *a, &f.t, &f.what); break;
      case 3: {  // another key of the same family
        Key o = genKey(s, k.fam, k.fam == Fam::kEc ? k.ec.curve : 0);
        if (!canSign(o, *a)) break;
        f.t.sig = signWith(o, *a, good.input(), s);
        f.what = "signed by " + o.show();
        break;
      }
      case 4: {  // HMAC with public material of a key in the set
        const Key& p = s.pick(keys);
        const Alg& h = algOf(s, Fam::kOct);
        setAlg(s, &f.t, h.name);
        f.t.sig = hmac(h.hash, publicMaterial(s, p), f.t.input());
        f.what = "HMAC keyed with public material of " + p.show();
        break;
      }
      case 5: {  // algorithm in the header changed, signature by the same or another algorithm
        const Alg& b = kAlgs[s.below(13)];
        setAlg(s, &f.t, b.name);
        if (s.flip()) f.t.sig = signWith(k, *a, f.t.input(), s);
        f.what = std::string("header says ") + b.name + ", signed as " + a->name;
        break;
      }
      case 6: {  // kid that conflicts
        f.t.kid = s.pick(kids) + (s.flip() ? "" : s.flip() ? "x" : " ");
        f.t.header.set("kid", J::str(f.t.kid));
        f.t.htext = writeJson(f.t.header);
        encode(&f.t);
        f.t.sig = signWith(k, *a, f.t.input(), s);
        f.what = "kid is " + quote(f.t.kid) + ", genuinely signed";
        break;
      }
      case 7: {  // parts of two genuine tokens
        Token o = genToken(s, a->name, kid, false);
        o.sig = signWith(k, *a, o.input(), s);
        if (s.flip()) tryToken({"second genuine", o, ""});
        switch (s.below(3)) {
          case 0: f.t.sig = o.sig; break;
          case 1: f.t.ptext = o.ptext; f.t.p64 = o.p64; break;
          default: f.t.htext = o.htext; f.t.h64 = o.h64;
        }
        f.what = "sections of two genuine tokens mixed";
        break;
      }
      case 8: {  // genuine signature of something else
        std::string h = good.h64, p = good.p64, in;
        switch (s.below(10)) {
          case 0: in = h; break;
          case 1: in = p; break;
          case 2: in = h + p; break;
          case 3: in = h + "." + p + "."; break;
          case 4: in = good.htext + "." + good.ptext; break;
          case 5: in = p + "." + h; break;
          case 6: in = h + "." + p.substr(0, p.size() - 1); break;
          case 7: in = ""; break;
          case 8: in = "." + p; break;
          default: in = h + "."; break;
        }
        f.t.sig = signWith(k, *a, in, s);
        f.what = "genuine signature of " + quote(in, 60);
        break;
      }
      case 10: {  // the key set is replaced by another
        tryToken({"genuine, before the keys change", good, ""});
        std::vector<Key> next;
        for (auto& x : keys) {
          switch (s.weighted({6, 3, 1, 1, 1})) {
            case 0: next.push_back(rotated(s, x)); break;
            case 1: next.push_back(x); break;
            case 2: break;
            case 3:
              next.push_back(x);
              next.back().kid = s.pick(kids);
              break;
            default: next.insert(next.begin(), x);
          }
        }
        if (next.empty()) next.push_back(rotated(s, k));
        if (s.flip()) ks.reset();
        how.clear();
        JwksPtr other = loadSet(next, s, lo, &how, &why);
        if (!other) {
          // Decided by C11.
          if (!ks) ks = loadSet(keys, s, lo, &how, &why);
          if (!ks) return;
          break;
        }
        ks = std::move(other);
        keys = next;
        c.note([&](std::ostream& o) { o << "keys now (" << how << ")" << showKeys(keys); });
        tryToken({"genuine before the keys changed", good, ""});
        const Key& x = s.pick(keys);
        if (canSign(x, *a)) f.t.sig = signWith(x, *a, f.t.input(), s);
        f.what = "after the keys changed";
        break;
      }
      default: {  // unsecured token
        static const char* kNone[] = {"none", "None", "NONE", "nOnE", "", "HS256 ", "RS1", "ES256K", "ed25519", "Ed25519", "hs256", "HS1"};
        Token o = f.t;
        setAlg(s, &o, s.pick(kNone));
        f.what = "alg " + quote(o.alg);
        f.t = o;
        f.text = o.input() + "." + (s.flip() ? "" : b64url(good.sig));
      }
    }
    if (f.what.empty()) f.what = "unchanged";
    static const char* kKinds[] = {"text changed", "signature bytes changed", "made for the algorithm", "another key",
                                   "HMAC with public material", "header alg changed", "kid changed",
                                   "two tokens mixed", "something else signed", "unsecured", "key set replaced"};
    c.label(std::string("forgery: ") + kKinds[kind] +
            (kind == 2 ? ": " + f.what.substr(0, f.what.find_first_of("0123456789")) : ""));
    tryToken(f);
  }
  if (s.p(60)) tryToken({"genuine again", good, ""});
}
}  // namespace

const Property kProperty = {
    "C01",
    "A case is a key set of 1 to 3 keys, a token genuinely signed by one of them and verified first, and a sequence of "
    "tokens derived from it by changed text, changed, resized or re-encoded signatures, other keys, hashes, paddings and "
    "algorithm families, public material as HMAC secret, replaced key sets, values congruent modulo the group order or modulus, "
    " conflicting kid or alg, and mixed sections; each verdict Ok must "
    "be confirmed by an independent verifier. Non-trivial: at least one parsed token that the independent verifier rejects",
    60000, 1500000, init, run};
}  // namespace vp
