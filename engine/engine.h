// Choice-sequence property testing engine: one entry function per property,
// driven by a seeded random search, by libFuzzer, or by a replay file.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vp {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0x1234567) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
  return mix64(h ^ n);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 0x1234567) {
  return hashBytes(s.data(), s.size(), h);
}

// Numbers and texts that occur as literals in the code under test. They only
// guide generation: values at which code may decide differently come up more
// often. What is expected of the code never depends on them.
struct Literals {
  std::vector<int64_t> nums;
  std::vector<std::string> strs;
  std::string text;  // as loaded
};
Literals& literals();

// All random choices of a case. Every choice consumes 1, 2 or 8 bytes; zero
// bytes are the simplest choice, and an exhausted source yields zeros.
class Source {
 public:
  // Random mode: bytes come from the seed and are recorded in rec.
  Source(uint64_t seed, uint8_t* rec, size_t cap, volatile uint64_t* len)
      : gen_(true), state_(seed), rec_(rec), cap_(cap), len_(len) {
    if (len_) *len_ = 0;
  }
  // Replay mode.
  Source(const uint8_t* data, size_t n) : gen_(false), in_(data), n_(n) {}

  uint64_t below(uint64_t n) {
    if (n <= 1) return 0;
    if (n <= 256) return byte() % n;
    if (n <= 65536) return raw(2) % n;
    return raw(8) % n;
  }
  // Value in [lo, hi].
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
  uint64_t u64() { return raw(8); }
  uint8_t byte() { return static_cast<uint8_t>(raw(1)); }
  // True with probability ~ num/256 (num <= 255); false is simplest.
  bool p(unsigned num) { return 255u - byte() < num; }
  bool flip() { return byte() & 1; }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T, size_t N>
  const T& pick(const T (&v)[N]) {
    return v[below(N)];
  }
  // A count up to `usual`, now and then one up to `big`.
  size_t many(size_t usual, size_t big, unsigned num = 3) {
    if (!p(num + 1)) return below(usual + 1);
    return p(90) ? static_cast<size_t>(litNum(0, static_cast<int64_t>(big))) : range(usual + 1, big);
  }
  // A number in [lo, hi] made of a literal of the code under test.
  int64_t litNum(int64_t lo, int64_t hi) {
    const auto& v = literals().nums;
    for (int i = 0; i < 4 && !v.empty(); ++i) {
      int64_t n = v[below(v.size())], r = n;
      switch (below(10)) {
        case 3: r = n - 1; break;
        case 4: r = n < INT64_MAX ? n + 1 : n; break;
        case 5: r = n >= 0 && n < 63 ? static_cast<int64_t>(1) << n : n; break;
        case 6: r = n < 9000000000000 && n > -9000000000000 ? n * 1000000 : n; break;
        case 7: r = n < INT64_MAX / 2 && n > INT64_MIN / 2 ? 2 * n + static_cast<int64_t>(below(3)) - 1 : n; break;
        case 8: r = n > INT64_MIN ? -n : n; break;
        default: break;
      }
      if (r >= lo && r <= hi) return r;
    }
    uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
    return lo + static_cast<int64_t>(below(span < 8 ? span + 1 : 8));
  }
  // A text that is, contains or is as long as a literal of the code under test.
  std::string litText(size_t max_len = 2000) {
    const auto& v = literals().strs;
    size_t k = below(8);
    std::string r = v.empty() || k >= 6 ? "" : v[below(v.size())];
    switch (k) {
      case 2: r += static_cast<char>('a' + below(4)); break;
      case 3: r.insert(0, 1, static_cast<char>('a' + below(4))); break;
      case 4: if (!v.empty()) r += v[below(v.size())]; break;
      case 5:
        for (auto& ch : r) ch = ch >= 'a' && ch <= 'z' ? static_cast<char>(ch - 32) : ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch + 32) : ch;
        break;
      case 6:
      case 7: r = std::string(static_cast<size_t>(litNum(0, static_cast<int64_t>(max_len))), static_cast<char>('a' + below(3)));
    }
    return r.substr(0, max_len);
  }
  // Index drawn by weight.
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (unsigned x : w) sum += x;
    uint64_t r = below(sum);
    size_t i = 0;
    for (unsigned x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  std::string bytes(size_t n) {
    std::string s(n, '\0');
    for (auto& c : s) c = static_cast<char>(byte());
    return s;
  }
  // For cheap bulk data: n bytes expanded from one 8-byte choice.
  std::string bulk(size_t n) {
    uint64_t s = u64();
    std::string r(n, '\0');
    for (size_t i = 0; i < n; ++i) {
      if (i % 8 == 0) s = mix64(s);
      r[i] = static_cast<char>(s >> (8 * (i % 8)));
    }
    return r;
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) {
      // zero choice keeps the order
      size_t j = i - 1 - below(i);
      std::swap(v[i - 1], v[j]);
    }
  }
  // Bytes left (replay/fuzz mode) as one string.
  std::string rest(size_t max) {
    std::string s;
    if (gen_) {
      size_t n = below(max + 1);
      return bytes(n);
    }
    size_t n = below(max + 1);
    while (s.size() < n && pos_ < n_) s.push_back(static_cast<char>(byte()));
    return s;
  }
  bool exhausted() const { return !gen_ && pos_ >= n_; }

 private:
  uint64_t raw(int k) {
    uint64_t v = 0;
    for (int i = 0; i < k; ++i) {
      uint8_t b = 0;
      if (gen_) {
        if (avail_ == 0) {
          state_ += 0x9e3779b97f4a7c15ull;
          cur_ = mix64(state_);
          avail_ = 8;
        }
        b = static_cast<uint8_t>(cur_);
        cur_ >>= 8;
        --avail_;
        if (pos_ >= cap_) b = 0;
        if (rec_ && pos_ < cap_) {
          rec_[pos_] = b;
          *len_ = pos_ + 1;
        }
        ++pos_;
      } else if (pos_ < n_) {
        b = in_[pos_++];
      }
      v |= static_cast<uint64_t>(b) << (8 * i);
    }
    return v;
  }
  bool gen_;
  uint64_t state_ = 0, cur_ = 0;
  int avail_ = 0;
  uint8_t* rec_ = nullptr;
  size_t cap_ = 0;
  volatile uint64_t* len_ = nullptr;
  const uint8_t* in_ = nullptr;
  size_t n_ = 0;
  size_t pos_ = 0;
};

struct Failure {
  std::string msg;
};

// Per-process statistics and the log of the current case.
class Ctx {
 public:
  bool verbose = false;
  std::string log;                         // description of the case
  FILE* live = nullptr;                    // also written here as it grows
  std::map<std::string, uint64_t> labels;  // coverage classes
  std::vector<uint64_t> hashes;            // of non-trivial cases
  bool nontrivial_now = false;
  uint64_t nontrivial_hash = 0;

  void label(std::string s) {
    for (auto& ch : s)
      if (ch < ' ' || ch > '~') ch = '?';
    ++labels[s];
  }
  void count(const std::string& s, uint64_t n) { labels[s] += n; }
  // Mark the current case non-trivial; h identifies its content.
  void nontrivial(uint64_t h) {
    nontrivial_now = true;
    nontrivial_hash = nontrivial_hash * 1099511628211ull ^ h;
  }
  template <class F>
  void note(F f) {
    if (verbose) {
      std::ostringstream os;
      f(os);
      if (log.size() < 200000) log += os.str() + "\n";
      if (live) {
        // Kept even if the case ends in a crash.
        fputs((os.str() + "\n").c_str(), live);
        fflush(live);
      }
    }
  }
  [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
};

std::string quote(const std::string& s, size_t max = 400);  // printable form

#define VP_CHECK(c, cond, msg)            \
  do {                                    \
    if (!(cond)) {                        \
      std::ostringstream vp_os;           \
      vp_os << msg;                       \
      (c).fail(vp_os.str());              \
    }                                     \
  } while (0)

// Supplied by each property.
struct Property {
  const char* id;
  const char* rule;          // what a case is, what makes it non-trivial
  uint64_t quick_cases;      // cases of the quick tier
  uint64_t thorough_cases;   // cases of the thorough tier
  void (*init)();            // once per process; may be null
  void (*run)(Source&, Ctx&);
  bool threads = false;      // cases start threads of their own
  uint64_t per_process = 0;  // cases run by one process; 0: no limit
  uint64_t max_len = 1 << 16;  // longest choice sequence for libFuzzer
};
extern const Property kProperty;

}  // namespace vp
