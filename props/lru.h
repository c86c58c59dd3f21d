// Histories of cache calls, and what each property demands of every step.
//
// The harness keeps one record per inserted value: key, units, pins, time and
// place in the order of use, all derived from the calls it made; whether the
// value is in the table comes from iterating over the cache, whether it was
// destroyed from its destructor or the removal callback. Every step is judged
// from the state observed before it, so that one deviation does not make
// other properties look broken.
#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>


#include "engine.h"
#include "simple_lru_cache/simple_lru_cache.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"
#include "vclock.h"

namespace vp {
namespace lru {
namespace slc = google::simple_lru_cache;

enum Focus { kMap = 16, kLife = 17, kSums = 18, kExpiry = 19, kObserve = 20 };

struct Events {
  std::map<int, int> removed;  // value id -> times destroyed or handed over
  std::vector<int> recent;     // since the last step
  std::string problem;
  void gone(int id) {
    ++removed[id];
    recent.push_back(id);
  }
};

struct Val {
  int id;
  uint64_t magic;
  std::string key;  // a string_view key may point here
  Events* ev;
  bool report;  // the destructor is the removal callback
  Val(int i, const std::string& k, Events* e, bool r) : id(i), magic(mix64(i)), key(k), ev(e), report(r) {}
  ~Val() {
    magic = 0;
    if (report) ev->gone(id);
  }
};

inline const std::string& keyText(int k) {
  static const std::vector<std::string>* v = [] {
    auto* r = new std::vector<std::string>;
    for (int i = 0; i < 400; ++i) r->push_back("key-with-some-length-" + std::to_string(i));
    // Some that are easily taken for one another.
    (*r)[3] = "";
    (*r)[4] = std::string("a\0b", 3);
    (*r)[5] = std::string("a\0c", 3);
    (*r)[6] = std::string(500, 'k') + "a";
    (*r)[7] = std::string(500, 'k') + "b";
    return r;
  }();
  return (*v)[k];
}
inline int keyIndex(const std::string& k) {
  static const std::map<std::string, int>* m = [] {
    auto* r = new std::map<std::string, int>;
    for (int i = 0; i < 400; ++i) (*r)[keyText(i)] = i;
    return r;
  }();
  auto it = m->find(k);
  return it == m->end() ? -1 : it->second;
}
template <class K>
struct Keys;
template <>
struct Keys<int> {
  static int make(int k, Val*) { return k == 5 ? -1 : k == 6 ? std::numeric_limits<int>::max() : k == 7 ? std::numeric_limits<int>::min() : k; }
  static int index(int k) { return k == -1 ? 5 : k == std::numeric_limits<int>::max() ? 6 : k == std::numeric_limits<int>::min() ? 7 : k; }
};
template <>
struct Keys<std::string> {
  static std::string make(int k, Val*) { return keyText(k); }
  static int index(const std::string& k) { return keyIndex(k); }
};
// The key is a view of memory that dies with the value.
template <>
struct Keys<std::string_view> {
  static std::string_view make(int k, Val* v) { return v ? std::string_view(v->key) : std::string_view(keyText(k)); }
  static int index(std::string_view k) { return keyIndex(std::string(k)); }
};

struct Seen {
  int id, pin;
  int64_t time;
  bool deferred;
};

// Ways to own values.
template <class K>
using Map = absl::flat_hash_map<K, slc::SimpleLRUCacheElem<K, Val>*, slc::internal::SimpleLRUHash<K>, std::equal_to<K>>;
template <class K>
using Base = slc::SimpleLRUCacheBase<K, Val, Map<K>, std::equal_to<K>>;

// Deletes values by default means; limits the number of entries.
template <class K>
class Limited : public slc::SimpleLRUCache<K, Val> {
 public:
  Limited(int64_t n, int64_t limit) : slc::SimpleLRUCache<K, Val>(n), limit_(limit) {}
  std::vector<Seen>* seen = nullptr;

 protected:
  bool isOverfull() const override { return this->entries() > limit_; }
  void debugIterator(const Val* v, int pin, int64_t t, bool d, std::string* out) const override {
    if (seen) seen->push_back({v->id, pin, t, d});
    slc::SimpleLRUCache<K, Val>::debugIterator(v, pin, t, d, out);
  }
  int64_t limit_;
};
// Only records that it was given a value; frees it at the end of the case.
template <class K>
class Keeping : public Limited<K> {
 public:
  Keeping(int64_t n, int64_t limit, Events* e) : Limited<K>(n, limit), ev_(e) {}
  ~Keeping() {
    for (auto& p : kept_) delete p;
  }

 protected:
  void removeElement(Val* v) override {
    ev_->gone(v->id);
    if (ev_->removed[v->id] == 1) kept_.push_back(v);
  }

 private:
  Events* ev_;
  std::vector<Val*> kept_;
};
struct Deleter {
  Events* ev = nullptr;
  void operator()(Val* v) const {
    ev->gone(v->id);
    delete v;
  }
};

struct Op {
  enum Kind {
    kInsert, kInsertPinned, kLookup, kRelease, kScoped, kUpdateSize, kRemove, kRemoveAll, kRemoveUnpinned, kSetMax, kTimeout, kRemoveExpired, kStillInUse, kClear, kObserve
  } kind = kInsert;
  int key = 0;
  int64_t units = 0;
  bool update = true;  // option of lookup and release
  int vid = -1;        // value: new one of an insertion, or the one meant
  bool any = false;    // value not given (nullptr)
  double secs = 0;
  bool age = false;
  int64_t now = 0;
};

inline std::string showOp(const Op& o) {
  static const char* n[] = {"insert", "insertPinned", "lookup", "release", "scoped lookup", "updateSize", "remove", "removeAll", "removeUnpinned", "setMaxSize", "timeout", "removeExpiredEntries", "stillInUse", "clear", "observe"};
  std::ostringstream s;
  s << "t=" << o.now << " " << n[o.kind];
  switch (o.kind) {
    case Op::kInsert:
    case Op::kInsertPinned: s << " key " << o.key << " value " << o.vid << " units " << o.units; break;
    case Op::kLookup:
    case Op::kScoped: s << " key " << o.key << (o.update ? "" : " without update"); break;
    case Op::kRelease: s << " key " << o.key << " value " << o.vid << (o.update ? "" : " without update"); break;
    case Op::kUpdateSize: s << " key " << o.key << (o.any ? " any value" : " value " + std::to_string(o.vid)) << " units " << o.units; break;
    case Op::kRemove: s << " key " << o.key; break;
    case Op::kSetMax: s << " " << o.units; break;
    case Op::kTimeout: s << (o.age ? " age " : " idle ") << o.secs << " s"; break;
    case Op::kStillInUse: s << " key " << o.key << (o.any ? "" : " value " + std::to_string(o.vid)); break;
    default: break;
  }
  return s.str();
}

struct Rec {
  int id = -1, key = 0;
  int64_t units = 0;
  int pins = 0;
  int64_t time = 0;    // last use, or insertion
  uint64_t seq = 0;    // order among equal times
  bool table = false;  // in the table, as last seen
  bool odd = false;    // pinned in a way that leaves expiry open
  bool quiet = false;  // pinned by lookups without update alone: keeps its place
  bool gone() const { return dead; }
  bool dead = false;
};

template <class K>
class Run {
 public:
  Run(Source& s, Ctx& c, Focus f) : s_(s), c_(c), f_(f) {}

  void go() {
    setup();
    size_t n = 4 + (s_.p(60) ? s_.below(110) : s_.below(36));
    if (s_.p(4)) n = static_cast<size_t>(s_.litNum(4, 300));
    if (keys_ > 8) n += s_.below(120);
    for (size_t i = 0; i < n; ++i) {
      Op o;
      if (!next(&o)) continue;
      step(o);
    }
    finish();
  }

 private:
  using B = Base<K>;
  struct Pin {
    int vid, key;
    bool update;
  };

  // ---------------------------------------------------------------- set-up
  std::unique_ptr<B> make(Events* e, Limited<K>** lim) {
    std::unique_ptr<B> r;
    *lim = nullptr;
    switch (variety_) {
      case 0: r.reset(*lim = new Limited<K>(max_, limit_)); break;
      case 1: r.reset(*lim = new Keeping<K>(max_, limit_, e)); break;
      case 2: r.reset(new slc::SimpleLRUCache<K, Val>(max_)); break;
      default: {
        Deleter d;
        d.ev = e;
        r.reset(new slc::SimpleLRUCacheWithDeleter<K, Val, Deleter>(max_, d));
      }
    }
    return r;
  }
  void setup() {
    variety_ = static_cast<int>(s_.below(4));
    static const int64_t kMax[] = {10, 5, 3, 1, 20, 100, 0, 1000000};
    max_ = s_.p(4) ? -1 - static_cast<int64_t>(s_.below(1000)) : s_.p(8) ? s_.litNum(INT64_MIN, INT64_MAX) : s_.pick(kMax);
    if (f_ == kExpiry && s_.p(170)) max_ = 1000000;
    limit_ = variety_ <= 1 && s_.p(70) ? s_.range(1, 5) : std::numeric_limits<int64_t>::max();
    now_ = s_.flip() ? 1000000 : 1700000000000000;
    keys_ = s_.range(1, 8);
    if (s_.p(24)) keys_ = s_.p(60) ? static_cast<size_t>(s_.litNum(1, 300)) : s_.range(9, 60);
    // Equal times only where their order is defined.
    mixed_ = s_.p(f_ == kMap || f_ == kExpiry ? 130 : 150);
    timeouts_ = s_.p(f_ == kExpiry ? 255 : 70);
    virtualClock(true);
    setNow(now_);
    cache_ = make(&ev_, &lim_);
    if (f_ == kObserve) twin_ = make(&twin_ev_, &twin_lim_);
    c_.note([&](std::ostream& o) {
      o << "cache of " << max_ << " units" << (limit_ < 1000 ? ", at most " + std::to_string(limit_) + " entries" : "") << ", variety " << variety_ << ", "
        << (std::is_same<K, int>::value ? "int" : std::is_same<K, std::string>::value ? "string" : "string_view") << " keys";
    });
    if (timeouts_ && s_.p(200)) {
      Op o;
      o.kind = Op::kTimeout;
      o.age = s_.p(110);
      o.secs = seconds();
      o.now = now_;
      step(o);
    }
  }

  double seconds() {
    switch (s_.weighted({16, 6, 4, 4, 4, 1})) {
      case 5: return static_cast<double>(s_.litNum(INT64_MIN, INT64_MAX)) / (s_.flip() ? 1 : 1000000);
      case 0: return static_cast<double>(1 + s_.below(200)) / 64;
      case 1: return static_cast<double>(s_.below(100));
      case 2: {
        static const double k[] = {-1, -0.5, -1e300, -HUGE_VAL, HUGE_VAL, -0.015625, std::numeric_limits<double>::lowest()};
        return s_.pick(k);
      }
      case 4: {
        static const double k[] = {2147, 2148, 4294, 4295, 3600, 86400, 2147483, 2147484, 31536000, 2147483647, 2147483648, 4294967296, 1e6, 1e-6, 0.0009765625};
        return s_.pick(k);
      }
      default: {
        static const double k[] = {0, 1e12, 9223372036854.0, 9223372036855.0, 1e13, 1e18, 1e300, std::numeric_limits<double>::max(), 1e15, 18446744073710.0};
        return s_.pick(k);
      }
    }
  }
  static int64_t cycles(double secs) {
    double c = secs * 1000000;
    return c >= 9223372036854775807.0 ? std::numeric_limits<int64_t>::max() : static_cast<int64_t>(c);
  }

  // ------------------------------------------------------------ generation
  void advance() {
    int64_t d = mixed_ ? 1 : 0;
    if (mixed_ || s_.p(140)) {
      switch (s_.weighted({120, 60, 40, 5, 4})) {
        case 4: d += s_.litNum(0, 2147483648000000); break;
        case 0: d += s_.below(3); break;
        case 1: d += s_.below(20) * 15625; break;
        case 3: {
          // A long time: minutes to centuries.
          static const int64_t k[] = {60000000, 2147483647, 2147483648, 4294967295, 4294967296, 3600000000, 86400000000, 2147483648000000, 4294967296000000, 4503599627370496};
          d += s_.pick(k) + static_cast<int64_t>(s_.below(3));
          break;
        }
        default: {
          // To the edge of some entry's time.
          std::vector<const Rec*> v;
          for (auto& r : recs_)
            if (r.table) v.push_back(&r);
          if (v.empty() || max_idle_ < 0 || max_idle_ > 6000000000000000) break;
          int64_t t = v[s_.below(v.size())]->time + max_idle_ + s_.below(3) - 1;
          if (t >= now_ + d) d = t - now_;
        }
      }
    }
    // The clock counts nanoseconds in 64 bits: up to the year 2262.
    if (now_ + d > 9200000000000000) d = mixed_ ? 1 : 0;
    now_ += d;
    setNow(now_);
  }

  bool next(Op* o) {
    advance();
    o->now = now_;
    o->key = static_cast<int>(s_.below(keys_));
    //                ins insP look rel scop upd rem all unp max tmo exp use clr
    size_t k;
    switch (f_) {
      case kMap: k = s_.weighted({10, 3, 7, 6, 3, 2, 1, 0, 1, 1, 1, 1, 0, 0, 0}); break;
      case kLife: k = s_.weighted({6, 6, 7, 7, 2, 2, 3, 1, 1, 2, 1, 1, 3, 1, 0}); break;
      case kSums: k = s_.weighted({7, 5, 5, 6, 1, 6, 2, 1, 1, 3, 1, 1, 0, 0, 0}); break;
      case kExpiry: k = s_.weighted({8, 3, 8, 7, 3, 1, 1, 0, 0, 0, 2, 4, 0, 0, 0}); break;
      default: k = s_.weighted({8, 4, 6, 6, 2, 2, 2, 1, 1, 1, 1, 1, 1, 0, 8}); break;
    }
    o->kind = static_cast<Op::Kind>(k);
    o->update = !(mixed_ && s_.p(110));
    switch (o->kind) {
      case Op::kInsert:
      case Op::kInsertPinned:
        o->units = units();
        o->vid = static_cast<int>(recs_.size());
        break;
      case Op::kRelease: {
        if (pins_.empty()) return false;
        Pin p = pins_[s_.p(150) ? s_.below(pins_.size()) : pins_.size() - 1];
        o->vid = p.vid;
        o->key = p.key;
        o->update = p.update;
        break;
      }
      case Op::kUpdateSize:
      case Op::kStillInUse: {
        o->units = units();
        // Some value that is or was there, a foreign one, or none.
        switch (s_.weighted({6, 3, 1})) {
          case 0: {
            std::vector<const Rec*> v;
            for (auto& r : recs_)
              if (!r.dead || o->kind == Op::kStillInUse) v.push_back(&r);
            if (v.empty()) return false;
            const Rec& r = *v[v.size() - 1 - s_.below(std::min<size_t>(v.size(), 12))];
            o->vid = r.id;
            if (s_.p(230)) o->key = r.key;
            break;
          }
          case 1: o->any = true; break;
          default: o->vid = -1;
        }
        break;
      }
      case Op::kSetMax: {
        static const int64_t kMax[] = {10, 5, 3, 1, 20, 100, 0, 1000000, 2, 7, -1, -1000, std::numeric_limits<int64_t>::max()};
        o->units = s_.p(10) ? s_.litNum(INT64_MIN, INT64_MAX) : s_.pick(kMax);
        break;
      }
      case Op::kTimeout:
        if (!timeouts_) return false;
        o->secs = seconds();
        o->age = mixed_ && s_.p(80) ? lru_ : !lru_;
        // The other policy cannot be set while there is a limit.
        if (max_idle_ >= 0 && o->age == lru_ && o->secs >= 0 && !std::isinf(o->secs)) o->secs = -1;
        break;
      case Op::kClear:
        if (!pins_.empty()) return false;
        break;
      default: break;
    }
    return true;
  }
  int64_t units() {
    switch (s_.weighted({40, 12, 4, 4, 1})) {
      case 4: return s_.litNum(0, static_cast<int64_t>(1) << 45);
      case 0: return 1;
      case 1: return s_.below(6);
      case 2: return max_ > 0 && max_ < 1000 ? s_.below(max_ + 2) : s_.below(30);
      default: return s_.flip() ? 1000000 : static_cast<int64_t>(1) << s_.range(31, 45);
    }
  }

  // ------------------------------------------------------------- execution
  struct Result {
    int vid = -1;     // of a lookup
    bool yes = false;  // of stillInUse
  };
  Val* ptr(std::vector<Val*>& vals, int vid) { return vid < 0 ? nullptr : vals[vid]; }

  Result apply(B& b, std::vector<Val*>& vals, Events& ev, const Op& o) {
    Result r;
    slc::SimpleLRUCacheOptions opt;
    opt.set_update_eviction_order(o.update);
    static int foreign_key;
    static Val* foreign = new Val(-1, "foreign", nullptr, false);
    (void)foreign_key;
    auto id = [&](Val* v, const char* what) {
      if (!v) return -1;
      for (size_t i = 0; i < vals.size(); ++i)
        if (vals[i] == v && !ev.removed.count(static_cast<int>(i))) {
          // ASan notices if it is freed; this, if it was replaced.
          if (v->magic != mix64(static_cast<uint64_t>(i))) ev.problem = std::string(what) + " returns a value that was overwritten";
          return static_cast<int>(i);
        }
      ev.problem = std::string(what) + " returns a value that is not alive";
      return -2;
    };
    switch (o.kind) {
      case Op::kInsert:
      case Op::kInsertPinned: {
        Val* v = new Val(o.vid, keyText(o.key), &ev, variety_ == 0 || variety_ == 2);
        vals.push_back(v);
        K k = Keys<K>::make(o.key, v);
        if (o.kind == Op::kInsert) b.insert(k, v, o.units);
        else b.insertPinned(k, v, o.units);
        break;
      }
      case Op::kLookup: {
        K k = Keys<K>::make(o.key, nullptr);
        Val* v = o.update && (o.now & 1) ? b.lookup(k) : b.lookupWithOptions(k, opt);
        r.vid = id(v, "lookup");
        break;
      }
      case Op::kRelease: {
        K k = Keys<K>::make(o.key, nullptr);
        if (o.update && (o.now & 1)) b.release(k, vals[o.vid]);
        else b.releaseWithOptions(k, vals[o.vid], opt);
        break;
      }
      case Op::kScoped: {
        K k = Keys<K>::make(o.key, nullptr);
        if (o.update && (o.now & 1)) {
          typename B::ScopedLookup l(&b, k);
          r.vid = id(l.value(), "scoped lookup");
          r.yes = l.found();
        } else {
          typename B::ScopedLookup l(&b, k, opt);
          r.vid = id(l.value(), "scoped lookup");
          r.yes = l.found();
          if (l.options().update_eviction_order() != o.update || !(l.key() == k)) ev.problem = "scoped lookup forgets its key or options";
        }
        if (r.yes != (r.vid != -1)) ev.problem = "found() contradicts value()";
        break;
      }
      case Op::kUpdateSize: b.updateSize(Keys<K>::make(o.key, nullptr), o.any ? nullptr : o.vid < 0 ? foreign : vals[o.vid], o.units); break;
      case Op::kRemove: b.remove(Keys<K>::make(o.key, nullptr)); break;
      case Op::kRemoveAll: b.removeAll(); break;
      case Op::kRemoveUnpinned: b.removeUnpinned(); break;
      case Op::kSetMax: b.setMaxSize(o.units); break;
      case Op::kTimeout:
        if (o.age) b.setAgeBasedEviction(o.secs);
        else b.setMaxIdleSeconds(o.secs);
        break;
      case Op::kRemoveExpired: b.removeExpiredEntries(); break;
      case Op::kStillInUse: {
        K k = Keys<K>::make(o.key, nullptr);
        r.yes = o.any ? b.stillInUse(k) : b.stillInUse(k, o.vid < 0 ? foreign : vals[o.vid]);
        break;
      }
      case Op::kClear: b.clear(); break;
      default: break;
    }
    return r;
  }

  // -------------------------------------------------------------- the step
  bool lookupLike(const Op& o) const { return o.kind == Op::kLookup || o.kind == Op::kScoped; }
  bool expires(const Op& o) const { return lookupLike(o) || o.kind == Op::kTimeout || o.kind == Op::kRemoveExpired; }
  Rec* inTable(int key) {
    for (auto& r : recs_)
      if (r.table && r.key == key) return &r;
    return nullptr;
  }

  void step(const Op& o) {
    c_.note([&](std::ostream& s) { s << " " << showOp(o); });
    ++steps_;
    ev_.recent.clear();
    std::vector<Rec> before = recs_;
    predict(o);
    // recs_ is now what is expected; pins and times are right in any case.
    Result r = apply(*cache_, vals_, ev_, o);
    if (!ev_.problem.empty()) c_.fail(ev_.problem);
    if (twin_) {
      twin_ev_.recent.clear();
      Result t = apply(*twin_, twin_vals_, twin_ev_, o);
      std::multiset<int> x(ev_.recent.begin(), ev_.recent.end()), y(twin_ev_.recent.begin(), twin_ev_.recent.end());
      VP_CHECK(c_, t.vid == r.vid && t.yes == r.yes && x == y,
               "a cache that is observed and one that is not diverge: " << showOp(o) << " gives value " << r.vid << " and removes " << x.size() << " values in the observed, value "
                                                                        << t.vid << " and " << y.size() << " in the other");
    }
    // Lookup pins whatever it returned.
    if (o.kind == Op::kLookup && r.vid >= 0) {
      Rec& v = recs_[r.vid];
      pin(&v, o.update);
      pins_.push_back({v.id, v.key, o.update});
    }
    if (o.kind == Op::kScoped && r.vid >= 0 && lru_ && o.update) {
      use(&recs_[r.vid]);
      if (recs_[r.vid].pins > 0) recs_[r.vid].quiet = false;
    }
    // Where everything is now.
    std::map<int, int> table;  // key -> value
    std::map<int, int64_t> times;
    int visited = 0;
    for (auto it = cache_->begin(); it != cache_->end(); ++it) {
      ++visited;
      VP_CHECK(c_, visited <= 2000, "the iteration does not end");
      int key = Keys<K>::index(it->first);
      VP_CHECK(c_, !table.count(key), "the iteration visits key " << key << " twice");
      int id = -1;
      for (size_t i = 0; i < vals_.size(); ++i)
        if (vals_[i] == it->second && !ev_.removed.count(static_cast<int>(i))) id = static_cast<int>(i);
      VP_CHECK(c_, id >= 0, "the iteration shows a value for key " << key << " that is not alive");
      table[key] = id;
      times[key] = it.last_use_time();
      if (it.insertion_time() != it.last_use_time()) c_.fail("insertion_time() and last_use_time() of the iterator differ");
    }
    std::vector<Rec> expected = recs_;
    for (auto& v : recs_) {
      auto t = table.find(v.key);
      v.table = t != table.end() && t->second == v.id;
      v.dead = ev_.removed.count(v.id) > 0;
      if (!v.table && v.pins == 0) v.odd = false;
    }
    for (auto& t : table) VP_CHECK(c_, recs_[t.second].key == t.first, "key " << t.first << " has a value inserted under key " << recs_[t.second].key);
    switch (f_) {
      case kMap: checkMap(o, r, before, expected); break;
      case kLife: checkLife(o, r, before); break;
      case kSums: checkSums(o, before); break;
      case kExpiry: checkExpiry(o, r, before, expected); break;
      case kObserve: checkObserve(o, r, table, times); break;
    }
    if (pins_.size() > 0) had_pins_ = true;
  }

  void pin(Rec* v, bool update) {
    // In age mode, and without update, the entry stays subject to expiry.
    bool usual = lru_ && update && (v->pins == 0 || !v->odd);
    if (!usual && lru_) v->odd = true;
    if (!lru_) v->odd = true;
    v->quiet = lru_ && !update && (v->pins == 0 || v->quiet);
    ++v->pins;
  }
  void use(Rec* v) {
    v->time = now_;
    v->seq = ++seq_;
  }
  bool over() const {
    int64_t size = 0, n = 0;
    for (auto& v : recs_) {
      if (!v.dead) size += v.units;
      if (v.table) ++n;
    }
    return size > max_ || n > limit_;
  }
  void drop(Rec* v) {
    v->table = false;
    if (v->pins == 0) v->dead = true;
  }
  void collect() {
    std::vector<Rec*> v;
    for (auto& r : recs_)
      if (r.table && r.pins == 0) v.push_back(&r);
    std::sort(v.begin(), v.end(), [](Rec* a, Rec* b) { return a->time != b->time ? a->time < b->time : a->seq < b->seq; });
    for (Rec* r : v) {
      if (!over()) break;
      drop(r);
      ++evicted_;
    }
  }
  bool expired(const Rec& v) const { return max_idle_ >= 0 && v.table && now_ - v.time > max_idle_; }
  // Pinned as usual in LRU mode: never expires. Other pins in LRU mode: open.
  bool exempt(const Rec& v) const { return lru_ && v.pins > 0; }
  void expire() {
    for (auto& v : recs_)
      if (expired(v) && !exempt(v)) {
        drop(&v);
        ++expired_;
      } else if (v.table && max_idle_ >= 0) {
        ++kept_;
      }
  }

  void predict(const Op& o) {
    switch (o.kind) {
      case Op::kInsert:
      case Op::kInsertPinned: {
        if (Rec* old = inTable(o.key)) {
          if (old->pins) ++left_pinned_;
          drop(old);
        }
        Rec v;
        v.id = o.vid;
        v.key = o.key;
        v.units = o.units;
        v.pins = 1;
        v.odd = !lru_;
        v.table = true;
        recs_.push_back(v);
        use(&recs_.back());
        collect();
        if (o.kind == Op::kInsertPinned) {
          pins_.push_back({o.vid, o.key, true});
          break;
        }
        release(o.vid, true);
        break;
      }
      case Op::kLookup:
      case Op::kScoped:
      case Op::kRemoveExpired: expire(); break;
      case Op::kRelease:
        for (size_t i = 0; i < pins_.size(); ++i)
          if (pins_[i].vid == o.vid && pins_[i].update == o.update) {
            pins_.erase(pins_.begin() + i);
            break;
          }
        release(o.vid, o.update);
        break;
      case Op::kUpdateSize: {
        ++resized_;
        Rec* t = inTable(o.key);
        if (t && (o.any || t->id == o.vid)) {
          t->units = o.units;
        } else {
          for (auto& v : recs_)
            if (!v.dead && !v.table && v.key == o.key && (o.any || v.id == o.vid)) v.units = o.units;
        }
        collect();
        break;
      }
      case Op::kRemove:
        if (Rec* t = inTable(o.key)) {
          if (t->pins) ++left_pinned_;
          drop(t);
        }
        break;
      case Op::kRemoveAll:
      case Op::kRemoveUnpinned:
      case Op::kClear:
        for (auto& v : recs_)
          if (v.table && (v.pins == 0 || o.kind == Op::kRemoveAll)) {
            if (v.pins) ++left_pinned_;
            drop(&v);
          }
        break;
      case Op::kSetMax:
        max_ = o.units;
        collect();
        break;
      case Op::kTimeout:
        if (lru_ == o.age) {
          // Another policy: pins from before count in neither's usual way.
          for (auto& v : recs_)
            if (v.pins) v.odd = true, v.quiet = false;
          ++switched_;
        }
        lru_ = !o.age;
        max_idle_ = o.secs < 0 || std::isinf(o.secs) ? -1 : cycles(o.secs);
        expire();
        break;
      default: break;
    }
  }
  void release(int vid, bool update) {
    Rec& v = recs_[vid];
    --v.pins;
    if (!v.table) {
      if (v.pins == 0) v.dead = true;
      return;
    }
    if (lru_ && update) {
      v.quiet = false;
      use(&v);
      if (v.pins == 0) v.odd = false;
    }
    if (v.pins == 0) v.odd = false;
    if (v.pins == 0 && over()) {
      drop(&v);
      ++evicted_;
    }
  }

  // ------------------------------------------------------------ properties
  std::string contents(const std::vector<Rec>& v) const {
    std::string r;
    for (auto& x : v)
      if (x.table) r += " " + std::to_string(x.key) + "->" + std::to_string(x.id);
    return r.empty() ? " nothing" : r;
  }
  void checkMap(const Op& o, const Result& r, const std::vector<Rec>& before, const std::vector<Rec>& expected) {
    if (lookupLike(o)) {
      Rec* t = nullptr;
      for (auto& v : recs_)
        if (v.table && v.key == o.key) t = &v;
      // A scoped lookup's release may remove the entry of an overfull cache.
      if (o.kind == Op::kLookup || t) {
        int want = t ? t->id : -1;
        VP_CHECK(c_, r.vid == want, "lookup of key " << o.key << " returns value " << r.vid << " instead of " << want);
      }
    }
    if (expires(o)) {
      for (auto& b : before)
        if (b.table && !recs_[b.id].table)
          VP_CHECK(c_, (max_idle_ >= 0 && now_ - b.time > max_idle_) || (o.kind == Op::kScoped && b.key == o.key && over()),
                   showOp(o) << " loses key " << b.key << ", which was neither removed, expired nor evicted");
      for (auto& v : recs_)
        if (v.table) VP_CHECK(c_, before[v.id].table, showOp(o) << " brings back key " << v.key);
    } else {
      for (auto& v : recs_)
        VP_CHECK(c_, v.table == expected[v.id].table,
                 "after " << showOp(o) << ", the cache holds" << contents(recs_) << " instead of" << contents(expected) << " (max " << max_ << ", limit " << limit_ << ")");
    }
  }

  void checkLife(const Op& o, const Result& r, const std::vector<Rec>& before) {
    for (auto& e : ev_.removed) VP_CHECK(c_, e.second == 1, "value " << e.first << " is removed " << e.second << " times");
    for (auto& v : recs_) {
      if (v.pins > 0) {
        VP_CHECK(c_, !v.dead, "value " << v.id << " is destroyed while pinned " << v.pins << " times, by " << showOp(o));
        VP_CHECK(c_, vals_[v.id]->magic == mix64(static_cast<uint64_t>(v.id)), "pinned value " << v.id << " was overwritten");
      }
      if (v.pins == 0 && !v.table) VP_CHECK(c_, v.dead, "value " << v.id << " is neither in the cache nor pinned and is not destroyed, after " << showOp(o));
      if (v.table) VP_CHECK(c_, !v.dead, "value " << v.id << " is destroyed and still in the cache");
    }
    // What was removed or replaced is out of lookups.
    if (o.kind == Op::kRemove) VP_CHECK(c_, !inTable(o.key), "key " << o.key << " is still there after its removal");
    if (o.kind == Op::kRemoveAll || o.kind == Op::kClear) VP_CHECK(c_, cache_->entries() == 0 && contents(recs_) == " nothing", "after " << showOp(o) << " the cache holds" << contents(recs_));
    if (o.kind == Op::kRemoveUnpinned)
      for (auto& v : recs_) VP_CHECK(c_, !(v.table && v.pins == 0), "unpinned key " << v.key << " is still there after removeUnpinned");
    if (o.kind == Op::kInsert || o.kind == Op::kInsertPinned) {
      Rec* t = inTable(o.key);
      VP_CHECK(c_, !t || t->id == o.vid, "key " << o.key << " still has value " << t->id << " after its replacement by " << o.vid);
    }
    if (lookupLike(o) && r.vid >= 0) VP_CHECK(c_, before[r.vid].table, "lookup returns value " << r.vid << ", which was removed before");
    // In use: in the table or pinned.
    if (o.kind == Op::kStillInUse) {
      bool want = false;
      for (auto& v : recs_)
        if (!v.dead && v.key == o.key && (o.any || v.id == o.vid)) want = true;
      VP_CHECK(c_, r.yes == want, showOp(o) << " says " << r.yes << " instead of " << want);
    }
    if (s_.p(60))
      for (auto& v : recs_) {
        if (v.id + 30 < static_cast<int>(recs_.size())) continue;
        VP_CHECK(c_, cache_->stillInUse(Keys<K>::make(v.key, nullptr), vals_[v.id]) == !v.dead, "stillInUse of value " << v.id << " is " << v.dead);
      }
  }

  void checkSums(const Op& o, const std::vector<Rec>& before) {
    int64_t size = 0, entries = 0, pinned = 0, dsize = 0, dn = 0;
    bool all_pinned = true;
    for (auto& v : recs_) {
      if (v.dead) continue;
      size += v.units;
      if (v.table) {
        ++entries;
        if (v.pins > 0) pinned += v.units;
        else all_pinned = false;
      } else {
        dsize += v.units;
        ++dn;
      }
    }
    auto same = [&](const char* what, int64_t got, int64_t want) { VP_CHECK(c_, got == want, what << " is " << got << " instead of " << want << " after " << showOp(o)); };
    same("size()", cache_->size(), size);
    same("entries()", cache_->entries(), entries);
    same("pinnedSize()", cache_->pinnedSize(), pinned);
    same("deferredSize()", cache_->deferredSize(), dsize);
    same("deferredEntries()", cache_->deferredEntries(), dn);
    same("maxSize()", cache_->maxSize(), max_);
    if (size > max_ || entries > limit_) {
      VP_CHECK(c_, all_pinned, "after " << showOp(o) << " the cache is over its limits (" << size << " of " << max_ << " units, " << entries << " entries) and still holds unpinned entries");
      ++overfull_;
    }
    if (dn) ++had_deferred_;
    (void)before;
  }

  void checkExpiry(const Op& o, const Result& r, const std::vector<Rec>& before, const std::vector<Rec>& expected) {
    if (!expires(o)) return;
    for (auto& b : before) {
      if (!b.table) continue;
      bool gone = !recs_[b.id].table;
      bool late = max_idle_ >= 0 && now_ - b.time > max_idle_;
      bool open = lru_ && b.pins > 0 && recs_[b.id].odd && late;
      if (o.kind == Op::kScoped && b.key == o.key && over()) open = true;
      if (open) continue;
      bool want = late && !(lru_ && b.pins > 0);
      VP_CHECK(c_, gone == want,
               "key " << b.key << " is " << (gone ? "gone" : "still there") << " after " << showOp(o) << ": " << (lru_ ? "idle" : "in the cache") << " for " << now_ - b.time << " us, limit "
                      << max_idle_ << " us, pinned " << b.pins << " times");
      if (lookupLike(o) && b.key == o.key) VP_CHECK(c_, (r.vid == b.id) == !want, "lookup of key " << b.key << " returns " << r.vid << ", idle for " << now_ - b.time << " us, limit " << max_idle_);
      if (gone && b.pins > 0) {
        VP_CHECK(c_, !recs_[b.id].dead, "pinned value " << b.id << " was destroyed when it expired");
        ++expired_pinned_;
      }
    }
    (void)expected;
  }

  void checkObserve(const Op& o, const Result& r, const std::map<int, int>& table, const std::map<int, int64_t>& times) {
    // Iteration against lookups: entries() and the recorded values.
    VP_CHECK(c_, static_cast<int64_t>(table.size()) == cache_->entries(), "the iteration visits " << table.size() << " of " << cache_->entries() << " entries");
    for (auto& v : recs_)
      if (v.table) VP_CHECK(c_, times.at(v.key) == v.time, "the iterator shows time " << times.at(v.key) << " for key " << v.key << " instead of " << v.time);
    if (o.kind == Op::kStillInUse) {
      bool want = false;
      for (auto& v : recs_)
        if (!v.dead && v.key == o.key && (o.any || v.id == o.vid)) want = true;
      VP_CHECK(c_, r.yes == want, showOp(o) << " says " << r.yes << " instead of " << want);
    }
    if (lookupLike(o) && o.kind == Op::kLookup) {
      auto t = table.find(o.key);
      VP_CHECK(c_, r.vid == (t == table.end() ? -1 : t->second), "the iteration and lookup disagree on key " << o.key);
    }
    if (o.kind != Op::kObserve) return;
    bool odd = false;
    std::vector<const Rec*> live;
    for (auto& v : recs_) {
      if (v.table && v.odd && lru_ && !v.quiet) odd = true;
      if (!v.dead) live.push_back(&v);
    }
    for (int k = 0; k < static_cast<int>(keys_) + 1; ++k) {
      Rec* t = inTable(k);
      K key = Keys<K>::make(k, nullptr);
      int64_t got = lru_ ? cache_->getLastUseTime(key) : cache_->getInsertionTime(key);
      VP_CHECK(c_, got == (t ? t->time : -1), "the time of key " << k << " is reported as " << got << " instead of " << (t ? t->time : -1));
      bool use = false;
      for (auto* v : live) use = use || v->key == k;
      VP_CHECK(c_, cache_->stillInUse(key) == use, "stillInUse of key " << k << " is " << !use);
    }
    for (auto* v : live) VP_CHECK(c_, cache_->stillInUse(Keys<K>::make(v->key, nullptr), vals_[v->id]), "value " << v->id << " is not reported as in use");
    if (!odd) {
      int64_t oldest = -1;
      for (auto& v : recs_)
        if (v.table && !(lru_ && v.pins > 0 && !v.quiet) && (oldest < 0 || v.time < oldest)) oldest = v.time;
      int64_t want = oldest < 0 ? 0 : now_ - oldest, got = cache_->ageOfLRUItemInMicroseconds();
      VP_CHECK(c_, got == want, "the age of the least recently used entry is reported as " << got << " instead of " << want);
    }
    int64_t size = 0, pinned = 0, dsize = 0, dn = 0;
    for (auto* v : live) {
      size += v->units;
      if (v->table && v->pins) pinned += v->units;
      if (!v->table) dsize += v->units, ++dn;
    }
    std::string want = std::to_string(pinned) + "/" + std::to_string(dsize) + "/" + std::to_string(size) + " p/d/a";
    VP_CHECK(c_, cache_->summary() == want, "the summary is " << quote(cache_->summary()) << " instead of " << quote(want));
    // The debug listing, appended to what there is.
    std::vector<Seen> seen;
    if (lim_) lim_->seen = &seen;
    std::string out = "before ";
    cache_->debugOutput(&out);
    if (lim_) lim_->seen = nullptr;
    std::string head = "before SimpleLRUCache of " + std::to_string(table.size()) + " elements plus " + std::to_string(dn) + " deferred elements (" + std::to_string(size) + " units, " + std::to_string(max_) + " max units)";
    VP_CHECK(c_, out.compare(0, head.size(), head) == 0, "the listing begins " << quote(out.substr(0, 150)) << " instead of " << quote(head));
    for (auto* v : live) {
      std::ostringstream line;
      line << std::hex << vals_[v->id] << std::dec << ": pin: " << v->pins << ", is_deferred: " << !v->table << ", last_use: " << v->time << "\n";
      size_t p = out.find(line.str());
      VP_CHECK(c_, p != std::string::npos && out.find(line.str(), p + 1) == std::string::npos, "the listing does not show value " << v->id << " once as " << quote(line.str()) << ": " << quote(out, 2000));
    }
    size_t lines = 0;
    for (size_t p = 0; (p = out.find(": pin: ", p)) != std::string::npos; ++p) ++lines;
    VP_CHECK(c_, lines == live.size(), "the listing shows " << lines << " entries instead of " << live.size());
    if (lim_) {
      VP_CHECK(c_, seen.size() == live.size(), "debugIterator is called for " << seen.size() << " entries instead of " << live.size());
      for (auto& e : seen) {
        VP_CHECK(c_, e.id >= 0 && e.id < static_cast<int>(recs_.size()), "debugIterator gets a strange value");
        const Rec& v = recs_[e.id];
        VP_CHECK(c_, !v.dead && e.pin == v.pins && e.time == v.time && e.deferred == !v.table, "debugIterator gets " << e.pin << " pins, time " << e.time << ", deferred " << e.deferred << " for value " << e.id);
      }
    }
    if (live.size() >= 2) ++observed_;
  }

  void finish() {
    // Everything is released, in any order, and cleared.
    bool order = s_.flip();
    while (!pins_.empty()) {
      advance();
      Pin p = pins_[order ? 0 : s_.below(pins_.size())];
      Op o;
      o.kind = Op::kRelease;
      o.vid = p.vid;
      o.key = p.key;
      o.update = p.update;
      o.now = now_;
      step(o);
    }
    Op o;
    o.kind = Op::kClear;
    o.now = now_;
    step(o);
    if (f_ == kLife) {
      for (auto& v : recs_) VP_CHECK(c_, ev_.removed.count(v.id) && ev_.removed[v.id] == 1, "after clear(), value " << v.id << " was not destroyed once");
      VP_CHECK(c_, ev_.removed.size() == recs_.size(), "more values are destroyed than were inserted");
    }
    if (f_ == kSums)
      VP_CHECK(c_, cache_->size() == 0 && cache_->entries() == 0 && cache_->pinnedSize() == 0 && cache_->deferredEntries() == 0, "the cleared cache is not empty");
    cache_.reset();
    twin_.reset();
    virtualClock(false);
    if (evicted_) c_.label("with evictions");
    if (expired_) c_.label("with expired entries");
    if (expired_pinned_) c_.label("with entries expired while pinned");
    if (left_pinned_) c_.label("with pinned values removed or replaced");
    if (switched_) c_.label("with a change between idle time and age");
    if (resized_) c_.label("with size updates");
    if (overfull_) c_.label("with all entries pinned and the limit exceeded");
    if (mixed_) c_.label("with lookups that do not update the order");
    if (limit_ < 1000) c_.label("with a limit of its own");
    c_.label(lru_ ? "ends in LRU mode" : "ends in age mode");
    bool nt = false;
    switch (f_) {
      case kMap: nt = evicted_ > 0; break;
      case kLife: nt = left_pinned_ > 0 || (evicted_ > 0 && had_pins_); break;
      case kSums: nt = had_deferred_ > 0 || (resized_ > 0 && had_pins_); break;
      case kExpiry: nt = expired_ > 0 && kept_ > 0; break;
      default: nt = observed_ > 0; break;
    }
    if (nt) {
      uint64_t h = steps_;
      for (auto& v : recs_) h = mix64(h + v.key * 7919 + v.units * 31 + v.time);
      c_.nontrivial(h);
    }
  }

  Source& s_;
  Ctx& c_;
  Focus f_;
  int variety_ = 0;
  int64_t max_ = 0, limit_ = 0, now_ = 0, max_idle_ = -1;
  bool lru_ = true, mixed_ = false, timeouts_ = false, had_pins_ = false;
  uint64_t keys_ = 1, seq_ = 0, steps_ = 0;
  int evicted_ = 0, expired_ = 0, expired_pinned_ = 0, kept_ = 0, left_pinned_ = 0, resized_ = 0, switched_ = 0, overfull_ = 0, had_deferred_ = 0, observed_ = 0;
  // Events outlive the caches, which may still destroy values.
  Events ev_, twin_ev_;
  std::unique_ptr<B> cache_, twin_;
  Limited<K>*lim_ = nullptr, *twin_lim_ = nullptr;
  std::vector<Val*> vals_, twin_vals_;
  std::vector<Rec> recs_;
  std::vector<Pin> pins_;
};

inline void runLru(Source& s, Ctx& c, Focus f) {
  try {
    switch (s.below(3)) {
      case 0: {
        // Left to its fate if it fails: the cache asserts that it is empty.
        auto* r = new Run<int>(s, c, f);
        r->go();
        delete r;
        break;
      }
      case 1: {
        auto* r = new Run<std::string>(s, c, f);
        r->go();
        delete r;
        break;
      }
      default: {
        auto* r = new Run<std::string_view>(s, c, f);
        r->go();
        delete r;
      }
    }
  } catch (...) {
    virtualClock(false);
    throw;
  }
}

}  // namespace lru
}  // namespace vp
