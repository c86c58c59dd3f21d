// C14: typed access to nested claims returns the exact value or the exact fault.
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <math.h>
#include <string.h>

#include <algorithm>

#include <limits>

#include "json.h"
#include "jwt_verify_lib/struct_utils.h"

namespace vp {
namespace {
using google::jwt_verify::StructUtils;
using google::protobuf::Struct;
using google::protobuf::Value;
void init() {}

std::string bytesOf(const Struct& p) {
  std::string r;
  {
    google::protobuf::io::StringOutputStream zs(&r);
    google::protobuf::io::CodedOutputStream cs(&zs);
    cs.SetSerializationDeterministic(true);
    p.SerializeToCodedStream(&cs);
  }
  return r;
}

double number(Source& s) {
  static const double k[] = {0.0, -0.0, 0.5, -0.5, 1, -1, 0.9999999999999999, 1.5, 9007199254740991.0, 9007199254740992.0, 9223372036854775807.0,
                             18446744073709549568.0, 18446744073709551615.0, 18446744073709551616.0, 36893488147419103232.0, 1e300, -1e300, 4.9e-324, -4.9e-324,
                             std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 4294967296.0, 4294967295.5, 2147483648.0,
                             -9223372036854775808.0, 1700000000.75, 9223372036854774784.0};
  switch (s.weighted({16, 6, 6, 2, 2, 1})) {
    case 5: return static_cast<double>(s.litNum(INT64_MIN, INT64_MAX));
    case 0: return s.pick(k);
    case 1: return static_cast<double>(s.u64() >> s.below(64));
    case 2: {
      uint64_t b = s.u64();
      double d;
      memcpy(&d, &b, 8);
      return d;
    }
    case 3: return static_cast<double>(s.below(100000)) / 100;
    default: return std::numeric_limits<double>::quiet_NaN();
  }
}

std::string name(Source& s) {
  static const char* k[] = {"a", "b", "c", "aa", "", "A", "a.b", "b.c", ".", "a.", " a"};
  if (s.p(4)) return s.litText(300);
  return k[s.weighted({12, 10, 6, 3, 2, 2, 1, 1, 1, 1, 1})];
}

void genStruct(Source& s, int depth, Struct* out);
void genValue(Source& s, int depth, Value* v) {
  switch (s.weighted({1, 2, 6, 6, 4, depth > 0 ? 8u : 0u, 1})) {
    case 0: v->set_null_value(google::protobuf::NULL_VALUE); break;
    case 1: v->set_bool_value(s.flip()); break;
    case 2: v->set_number_value(number(s)); break;
    case 3: v->set_string_value(s.flip() ? genText(s, 12) : std::string(s.flip() ? "true" : s.flip() ? "1" : "")); break;
    case 4: {
      auto* l = v->mutable_list_value();
      for (size_t n = s.below(4); n > 0; --n) {
        if (s.p(200)) l->add_values()->set_string_value(genText(s, 8));
        else genValue(s, depth - 1, l->add_values());
      }
      break;
    }
    case 5: genStruct(s, depth - 1, v->mutable_struct_value()); break;
    default: break;  // no kind set
  }
}
void genStruct(Source& s, int depth, Struct* out) {
  for (size_t n = s.below(5); n > 0; --n) genValue(s, depth, &(*out->mutable_fields())[name(s)]);
}
// Structures in structures, with a few names beside each, to any depth.
void genChain(Source& s, Struct* out) {
  for (size_t n = s.range(5, s.p(40) ? 400 : 70); n > 0; --n) {
    for (size_t k = s.p(40) ? 1 + s.below(2) : 0; k > 0; --k) genValue(s, 0, &(*out->mutable_fields())[name(s)]);
    out = (*out->mutable_fields())[name(s)].mutable_struct_value();
  }
  genStruct(s, 2, out);
}

// The reference: descend segment by segment.
StructUtils::FindResult find(const Struct& top, const std::string& path, const Value** v) {
  const Struct* cur = &top;
  size_t at = 0;
  for (;;) {
    size_t dot = path.find('.', at);
    std::string seg = path.substr(at, dot == std::string::npos ? dot : dot - at);
    const Value* hit = nullptr;
    for (auto& f : cur->fields())
      if (f.first == seg) hit = &f.second;
    if (!hit) return StructUtils::MISSING;
    if (dot == std::string::npos) {
      *v = hit;
      return StructUtils::OK;
    }
    if (hit->kind_case() != Value::kStructValue) return StructUtils::WRONG_TYPE;
    cur = &hit->struct_value();
    at = dot + 1;
  }
}

const char* res(StructUtils::FindResult r) {
  switch (r) {
    case StructUtils::OK: return "OK";
    case StructUtils::MISSING: return "MISSING";
    case StructUtils::WRONG_TYPE: return "WRONG_TYPE";
    case StructUtils::OUT_OF_RANGE: return "OUT_OF_RANGE";
  }
  return "?";
}
uint64_t bits(double d) {
  uint64_t b;
  memcpy(&b, &d, 8);
  return b;
}

std::string path(Source& s, const Struct& top, bool far = false) {
  if (s.p(50)) {
    std::string r = name(s);
    for (size_t n = s.below(4); n > 0; --n) r += "." + name(s);
    if (s.p(30)) r += std::string(1 + s.below(3), '.');
    if (s.p(30)) r = "." + r;
    return r;
  }
  // Walk down; stop at any level, or go one name too far.
  const Struct* cur = &top;
  std::string r;
  for (int i = 0;; ++i) {
    std::vector<std::string> names;
    for (auto& f : cur->fields()) names.push_back(f.first);
    std::sort(names.begin(), names.end());  // map order must not decide
    if (names.empty() || s.p(far ? 1 : 20)) {
      if (i == 0 && names.empty()) return name(s);
      return r + (i ? "." : "") + name(s);
    }
    std::string nm = s.pick(names);
    if (far)
      for (auto& f : names)
        if (cur->fields().find(f)->second.kind_case() == Value::kStructValue) nm = f;
    r += (i ? "." : "") + nm;
    auto it = cur->fields().find(nm);
    if (it->second.kind_case() != Value::kStructValue) {
      if (s.p(30)) r += "." + name(s);
      return r;
    }
    if (s.p(far ? 2 : 60)) return r;
    cur = &it->second.struct_value();
  }
}

void run(Source& s, Ctx& c) {
  Struct top;
  bool chain = s.p(12);
  if (chain) genChain(s, &top);
  else genStruct(s, 4, &top);
  if (s.p(3))  // many members
    for (size_t n = s.range(20, 300); n > 0; --n) genValue(s, 1, &(*top.mutable_fields())[name(s) + std::to_string(n % 7) + name(s)]);
  if (chain) c.label("deep structure");
  std::string early;
  if (!chain && s.p(30)) {
    // The same name looked up before, when the structure was another.
    early = path(s, top, false);
    Struct real = top;
    switch (s.below(3)) {
      case 0: top.Clear(); break;
      case 1:
        top.Clear();
        genStruct(s, 3, &top);
        break;
      default:
        if (!top.fields().empty()) {
          std::vector<std::string> names;
          for (auto& m : top.fields()) names.push_back(m.first);
          std::sort(names.begin(), names.end());
          std::string n = s.pick(names);
          top.mutable_fields()->erase(n);
          if (s.flip()) genValue(s, 1, &(*top.mutable_fields())[n]);
        }
    }
    {
      StructUtils u(top);
      const Value* v = nullptr;
      auto r = u.GetValue(early, v);
      std::string x;
      std::vector<std::string> l;
      u.GetString(early, &x);
      u.GetStringList(early, &l);
      c.note([&](std::ostream& o) { o << "looked up before: " << quote(early) << ", giving " << res(r) << ", in " << top.ShortDebugString().substr(0, 1500); });
    }
    top.Swap(&real);
    c.label("after a lookup of the same name in another structure");
  }
  const std::string before = bytesOf(top);
  StructUtils u(top);
  c.note([&](std::ostream& o) { o << "structure " << top.ShortDebugString().substr(0, 2500); });
  bool deep = false;
  uint64_t h = hashStr(before);
  size_t rounds = 1 + s.below(6);
  for (; rounds > 0; --rounds) {
    std::string p = early.empty() ? path(s, top, chain && s.p(200)) : early;
    early.clear();
    h = hashStr(p, h);
    const Value* v = nullptr;
    StructUtils::FindResult want = find(top, p, &v);
    if (p.find('.') != std::string::npos) deep = true;
    c.note([&](std::ostream& o) { o << "name " << quote(p) << ": " << res(want); });
    const Value* got_v = nullptr;
    auto r = u.GetValue(p, got_v);
    VP_CHECK(c, r == want, "GetValue(" << quote(p) << ") gives " << res(r) << " instead of " << res(want));
    VP_CHECK(c, want != StructUtils::OK || got_v == v, "GetValue(" << quote(p) << ") finds another member");
    c.label(std::string("GetValue ") + res(want));
    auto typed = [&](Value::KindCase k) { return want != StructUtils::OK ? want : v->kind_case() == k ? StructUtils::OK : StructUtils::WRONG_TYPE; };
    for (int which = 0; which < 5; ++which) {
      switch (which) {
        case 0: {
          std::string out = "untouched";
          auto w = typed(Value::kStringValue);
          r = u.GetString(p, &out);
          VP_CHECK(c, r == w, "GetString(" << quote(p) << ") gives " << res(r) << " instead of " << res(w));
          VP_CHECK(c, out == (w == StructUtils::OK ? v->string_value() : "untouched"), "GetString(" << quote(p) << ") gives " << res(r) << " and sets " << quote(out));
          c.label(std::string("GetString ") + res(w));
          break;
        }
        case 1: {
          uint64_t out = 0xdeadbeefcafef00dull;
          auto w = typed(Value::kNumberValue);
          uint64_t val = out;
          if (w == StructUtils::OK) {
            double d = v->number_value();
            if (!(d >= 0 && d < 18446744073709551616.0)) w = StructUtils::OUT_OF_RANGE;
            else val = static_cast<uint64_t>(floor(d));
          }
          r = u.GetUInt64(p, &out);
          VP_CHECK(c, r == w, "GetUInt64(" << quote(p) << ") gives " << res(r) << " instead of " << res(w));
          VP_CHECK(c, out == val, "GetUInt64(" << quote(p) << ") gives " << res(r) << " and sets " << out << " instead of " << val);
          c.label(std::string("GetUInt64 ") + res(w));
          break;
        }
        case 2: {
          double out = -12345.25;
          auto w = typed(Value::kNumberValue);
          r = u.GetDouble(p, &out);
          VP_CHECK(c, r == w, "GetDouble(" << quote(p) << ") gives " << res(r) << " instead of " << res(w));
          VP_CHECK(c, bits(out) == bits(w == StructUtils::OK ? v->number_value() : -12345.25), "GetDouble(" << quote(p) << ") gives " << res(r) << " and sets " << out);
          break;
        }
        case 3: {
          auto w = typed(Value::kBoolValue);
          for (bool init : {false, true}) {
            bool out = init;
            r = u.GetBoolean(p, &out);
            VP_CHECK(c, r == w, "GetBoolean(" << quote(p) << ") gives " << res(r) << " instead of " << res(w));
            VP_CHECK(c, out == (w == StructUtils::OK ? v->bool_value() : init), "GetBoolean(" << quote(p) << ") gives " << res(r) << " and sets " << out);
          }
          c.label(std::string("GetBoolean ") + res(w));
          break;
        }
        default: {
          std::vector<std::string> out, val;
          auto w = want;
          if (w == StructUtils::OK) {
            if (v->kind_case() == Value::kStringValue) {
              val = {v->string_value()};
            } else if (v->kind_case() == Value::kListValue) {
              for (auto& e : v->list_value().values()) {
                if (e.kind_case() != Value::kStringValue) w = StructUtils::WRONG_TYPE;
                val.push_back(e.string_value());
              }
            } else {
              w = StructUtils::WRONG_TYPE;
            }
          }
          r = u.GetStringList(p, &out);
          VP_CHECK(c, r == w, "GetStringList(" << quote(p) << ") gives " << res(r) << " instead of " << res(w));
          VP_CHECK(c, w != StructUtils::OK || out == val, "GetStringList(" << quote(p) << ") gives another list");
          c.label(std::string("GetStringList ") + res(w));
        }
      }
    }
    VP_CHECK(c, bytesOf(top) == before, "looking up " << quote(p) << " has changed the structure");
  }
  if (deep && !before.empty()) c.nontrivial(h);
}
}  // namespace

const Property kProperty = {
    "C14",
    "A case is a generated JSON structure up to 5 levels deep (now and then up to 400, or with hundreds of members; all kinds, edge numbers, NaN, infinities, names that are empty, "
    "contain dots or resemble one another) and 1 to 6 dotted names made by walking it or at random; all six typed lookups are "
    "compared with a reference descent, and the structure with its bytes before. Non-trivial: a dotted name on a non-empty "
    "structure",
    1200000, 12000000, init, run};
}  // namespace vp
