// Forgeries of a genuine signature.
#pragma once
#include "world.h"

namespace vp {
inline std::string be(const std::string& s, size_t len) {
  size_t i = 0;
  while (i < s.size() && s[i] == 0) ++i;
  std::string t = s.substr(i);
  return t.size() < len ? std::string(len - t.size(), '\0') + t : t;
}
inline std::string derInt(const std::string& v) {
  std::string t = be(v, 1);
  if (t.empty() || (t[0] & 0x80)) t = std::string(1, '\0') + t;
  return std::string("\x02") + static_cast<char>(t.size()) + t;
}
inline std::string derSig(const std::string& sig) {
  std::string r = derInt(sig.substr(0, sig.size() / 2)), s = derInt(sig.substr(sig.size() / 2));
  size_t n = r.size() + s.size();
  std::string o = "\x30";
  if (n > 127) o += "\x81";
  return o + static_cast<char>(n) + r + s;
}

inline const Alg& algOf(Source& s, Fam f) {
  std::vector<const Alg*> v;
  for (auto& a : kAlgs)
    if (a.fam == f) v.push_back(&a);
  return *s.pick(v);
}

// Signature-level mutations that know nothing but the bytes.
inline void mutateSig(Source& s, Token* t, std::string* what) {
  std::string& g = t->sig;
  switch (s.below(14)) {
    case 0:
    case 1: {
      size_t i = s.below(g.size());
      int b = static_cast<int>(s.below(8));
      g[i] ^= static_cast<char>(1 << b);
      *what = "signature bit " + std::to_string(b) + " of byte " + std::to_string(i);
      break;
    }
    case 2: {
      static const int kAt[] = {0, 1, -1, -2};
      int a = s.pick(kAt);
      size_t i = a >= 0 ? std::min<size_t>(a, g.size() - 1) : g.size() - std::min<size_t>(-a, g.size());
      g[i] = static_cast<char>(g[i] + 1 + s.below(255));
      *what = "signature byte " + std::to_string(i) + " changed";
      break;
    }
    case 3:
      g.resize(g.size() - 1);
      *what = "signature truncated by one byte";
      break;
    case 4: {
      size_t n = s.range(1, g.size());
      g.resize(n);
      *what = "signature truncated to " + std::to_string(n);
      break;
    }
    case 5:
      g = g.substr(s.range(1, std::min<size_t>(g.size() - 1, 40)));
      *what = "front of signature removed";
      break;
    case 6: {
      size_t n = s.p(200) ? s.range(1, 4) : s.range(1, 200);
      g += s.flip() ? std::string(n, '\0') : s.bulk(n);
      *what = "signature extended by " + std::to_string(n);
      break;
    }
    case 7: {
      size_t n = s.p(200) ? s.range(1, 4) : s.range(1, 200);
      g = std::string(n, '\0') + g;
      *what = "zeros before signature: " + std::to_string(n);
      break;
    }
    case 8:
      g = g + g;
      *what = "signature doubled";
      break;
    case 9:
      for (auto& ch : g) ch = 0;
      if (s.flip()) g.back() = 1;
      *what = "signature zeroed";
      break;
    case 10:
      g = s.bulk(g.size());
      *what = "random signature";
      break;
    case 11: {
      size_t i = s.below(g.size()), j = s.below(g.size());
      std::swap(g[i], g[j]);
      *what = "two signature bytes swapped";
      break;
    }
    case 12: {
      // Zeros in the middle of the two halves, or the halves swapped.
      size_t h = g.size() / 2;
      std::string a = g.substr(0, h), b = g.substr(h);
      switch (s.below(5)) {
        case 0: g = b + a; break;
        case 1: g = std::string(1, '\0') + a + std::string(1, '\0') + b; break;
        case 2: g = a + std::string(1, '\0') + b; break;
        case 3: g = std::string(h, '\0') + b; break;
        default: g = a + std::string(h, '\0');
      }
      *what = "signature halves rearranged";
      break;
    }
    default:
      g = std::string(g.rbegin(), g.rend());
      *what = "signature reversed";
  }
}

// Mutations made for the algorithm.
inline void algForgery(Source& s, const Key& k, const Alg& a, Token* t, std::string* what) {
  const std::string in = t->input();
  switch (a.fam) {
    case Fam::kEc: {
      size_t len = k.ec.len();
      std::string r = t->sig.substr(0, len), v = t->sig.substr(len), n = ecOrder(k.ec.curve);
      bool fits = true;
      switch (s.below(8)) {
        case 0:
          t->sig = derSig(t->sig);
          *what = "DER signature";
          break;
        case 1:
          v = bnAdd(v, n, len, &fits);
          t->sig = r + v;
          *what = "s + n";
          break;
        case 2:
          r = bnAdd(r, n, len, &fits);
          t->sig = r + v;
          *what = "r + n";
          break;
        case 3:
          t->sig = r + bnSub(n, v, len);
          *what = "n - s (an equally valid signature)";
          break;
        case 4:
          t->sig = s.flip() ? n + v : r + n;
          *what = "order as r or s";
          break;
        case 5:
          t->sig = s.flip() ? std::string(len, '\0') + v : r + std::string(len, '\0');
          *what = "zero r or s";
          break;
        case 6: {
          size_t d = s.range(1, len);
          // Both halves with the same zeros removed or added.
          t->sig = s.flip() ? r.substr(std::min(d, len - 1)) + v.substr(std::min(d, len - 1))
                            : std::string(d, '\0') + r + std::string(d, '\0') + v;
          *what = "halves resized together";
          break;
        }
        default: {
          const Alg& b = algOf(s, Fam::kEc);
          t->sig = signEcdsa(k.ec, b.hash, in, s.bulk(66));
          *what = std::string("signed with the hash of ") + b.name;
        }
      }
      break;
    }
    case Fam::kRsa: {
      const RsaKey& rk = k.rsa();
      size_t len = rk.len();
      std::string digest = sha(a.hash, in);
      if (s.p(90)) {
        const Alg& b = algOf(s, Fam::kRsa);
        if (b.pss && !pssFits(rk, b.hash, b.hash / 8)) {
          *what = "unchanged";
          return;
        }
        t->sig = signWith(k, b, in, s);
        *what = std::string("signed as ") + b.name;
        return;
      }
      if (s.p(50)) {
        bool fits = true;
        std::string x = bnAdd(t->sig, rk.n, len, &fits);
        if (fits) t->sig = x;
        *what = fits ? "signature plus modulus" : "unchanged";
        return;
      }
      if (a.pss) {
        // Broken PSS encodings.
        int em_bits = rk.bits - 1;
        size_t hl = a.hash / 8;
        std::string em;
        switch (s.below(5)) {
          case 0: em = emsaPss(a.hash, digest, em_bits, pssFits(rk, a.hash, hl + 3) ? s.bulk(s.below(hl + 3)) : ""); *what = "other salt length"; break;
          case 1: em = emsaPss(a.hash, digest, em_bits, s.bulk(hl)); em.back() = static_cast<char>(0xbc ^ (1 << s.below(8))); *what = "PSS trailer changed"; break;
          case 2: em = emsaPss(a.hash, digest, em_bits, s.bulk(hl)); em[s.below(em.size())] ^= static_cast<char>(1 << s.below(8)); *what = "PSS encoding changed"; break;
          case 3: {
            int h2 = a.hash == 256 ? 512 : 256;
            if (!pssFits(rk, h2, h2 / 8)) h2 = a.hash;
            em = emsaPss(h2, sha(h2, in), em_bits, s.bulk(h2 / 8));
            *what = "PSS with another hash";
            break;
          }
          default: em = emsaPss(a.hash, sha(a.hash, digest), em_bits, s.bulk(hl)); *what = "PSS of the digest's digest";
        }
        if (em.size() < len) em = std::string(len - em.size(), '\0') + em;
        t->sig = rsaPrivate(rk, em);
      } else {
        std::string em = emsaPkcs1(a.hash, digest, len);
        std::string di = em.substr(em.find('\0', 2) + 1);
        switch (s.below(8)) {
          case 0: {  // short padding, garbage behind the digest (the e = 3 forgery)
            size_t pad = s.range(0, 12);
            em = std::string("\0\1", 2) + std::string(pad, '\xff') + std::string(1, '\0') + di;
            em += s.bulk(len > em.size() ? len - em.size() : 0);
            *what = "garbage after the digest";
            break;
          }
          case 1: em[1] = static_cast<char>(s.below(256)); *what = "block type changed"; break;
          case 2: em[s.range(2, len - di.size() - 1)] ^= static_cast<char>(1 << s.below(8)); *what = "padding changed"; break;
          case 3: em[len - di.size() + s.below(di.size())] ^= static_cast<char>(1 << s.below(8)); *what = "DigestInfo changed"; break;
          case 4: {
            // Digest without DigestInfo.
            em = std::string("\0\1", 2) + std::string(len - 3 - digest.size(), '\xff') + std::string(1, '\0') + digest;
            *what = "no DigestInfo";
            break;
          }
          case 5: {
            // DigestInfo with absent parameters.
            std::string d2 = di;
            size_t at = d2.find("\x05\x00", 0, 2);
            d2.erase(at, 2);
            d2[1] = static_cast<char>(d2[1] - 2);
            d2[3] = static_cast<char>(d2[3] - 2);
            em = std::string("\0\1", 2) + std::string(len - 3 - d2.size(), '\xff') + std::string(1, '\0') + d2;
            *what = "DigestInfo without parameters";
            break;
          }
          case 6: {
            int h2 = a.hash == 256 ? 384 : 256;
            em = emsaPkcs1(h2, sha(h2, in), len);
            *what = "another hash";
            break;
          }
          default: {
            // Digest of one algorithm in the DigestInfo of another, by size.
            em = emsaPkcs1(a.hash, sha(a.hash, digest), len);
            *what = "digest of the digest";
          }
        }
        if (em.size() != len) {
          *what = "unchanged";
          return;
        }
        t->sig = rsaPrivate(rk, em);
        if (t->sig.empty()) t->sig = std::string(len, '\0');
      }
      break;
    }
    case Fam::kOct: {
      switch (s.below(6)) {
        case 0: {
          const Alg& b = algOf(s, Fam::kOct);
          t->sig = hmac(b.hash, k.secret, in);
          *what = std::string("tag of ") + b.name;
          break;
        }
        case 1: {
          std::string x = hmac(512, k.secret, in);
          t->sig = x.substr(0, a.hash / 8);
          *what = "tag of HS512, cut to length";
          break;
        }
        case 2:
          t->sig = sha(a.hash, s.flip() ? k.secret + in : in + k.secret);
          *what = "hash of secret and text";
          break;
        case 3:
          t->sig = sha(a.hash, in);
          *what = "hash without secret";
          break;
        case 4: {
          std::string x = k.secret;
          x.resize(s.range(0, x.size() - 1));
          t->sig = hmac(a.hash, x, in);
          *what = "secret truncated";
          break;
        }
        default: {
          std::string x = k.secret;
          size_t nul = x.find('\0');
          if (nul != std::string::npos && s.flip()) x.resize(nul);
          else x += static_cast<char>(s.below(256));
          t->sig = hmac(a.hash, x, in);
          *what = "secret cut at NUL, or extended";
        }
      }
      break;
    }
    default: {
      // Ed25519: S + L; R or S zero; signature of the digest.
      static const std::string L = fromHex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed");
      switch (s.below(4)) {
        case 0: {
          std::string S = t->sig.substr(32);
          int carry = 0;
          for (int i = 0; i < 32; ++i) {
            int v = static_cast<uint8_t>(S[i]) + static_cast<uint8_t>(L[31 - i]) + carry;
            S[i] = static_cast<char>(v);
            carry = v >> 8;
          }
          t->sig = t->sig.substr(0, 32) + S;
          *what = "S + L";
          break;
        }
        case 1:
          t->sig = s.flip() ? std::string("\x01", 1) + std::string(63, '\0') : t->sig.substr(0, 32) + std::string(32, '\0');
          *what = "identity R or zero S";
          break;
        case 2:
          t->sig = signEd(k.ed(), sha(512, in));
          *what = "signature of the digest";
          break;
        default:
          t->sig[s.flip() ? 31 : 63] ^= static_cast<char>(s.flip() ? 0x80 : 0x20);
          *what = "top bits of R or S";
      }
    }
  }
}
}  // namespace vp
