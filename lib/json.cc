#include "json.h"

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace vp {

J J::number(const std::string& text) {
  J j;
  j.kind = kNum;
  j.s = text;
  j.num = strtod(text.c_str(), nullptr);
  return j;
}
J& J::set(const std::string& k, J v) {
  for (auto& m : obj)
    if (m.first == k) {
      m.second = std::move(v);
      return *this;
    }
  obj.emplace_back(k, std::move(v));
  return *this;
}
void J::erase(const std::string& k) {
  for (size_t i = 0; i < obj.size(); ++i)
    if (obj[i].first == k) {
      obj.erase(obj.begin() + i);
      return;
    }
}
const J* J::get(const std::string& k) const {
  for (auto& m : obj)
    if (m.first == k) return &m.second;
  return nullptr;
}

namespace {
void ws(Source* s, std::string* o) {
  if (!s || !s->p(40)) return;
  static const char* kWs[] = {" ", "\n", "\t", "\r\n", "   "};
  *o += s->pick(kWs);
}
// Decodes one UTF-8 character (the text is valid UTF-8).
uint32_t next(const std::string& t, size_t* i) {
  unsigned char c = t[*i];
  int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
  uint32_t v = n == 1 ? c : c & (0xff >> (n + 1));
  for (int k = 1; k < n; ++k) v = v << 6 | (static_cast<unsigned char>(t[*i + k]) & 0x3f);
  *i += n;
  return v;
}
void writeStr(const std::string& t, Source* s, std::string* o) {
  *o += '"';
  bool esc = s && s->p(100);
  for (size_t i = 0; i < t.size();) {
    size_t at = i;
    uint32_t c = next(t, &i);
    char b[16];
    bool must = c < 0x20 || c == '"' || c == '\\';
    if (must || (esc && s->p(60))) {
      const char* shortf = nullptr;
      switch (c) {
        case '"': shortf = "\\\""; break;
        case '\\': shortf = "\\\\"; break;
        case '/': shortf = "\\/"; break;
        case 8: shortf = "\\b"; break;
        case 12: shortf = "\\f"; break;
        case 10: shortf = "\\n"; break;
        case 13: shortf = "\\r"; break;
        case 9: shortf = "\\t"; break;
      }
      if (shortf && !(s && s->p(60))) {
        *o += shortf;
      } else if (c < 0x10000) {
        snprintf(b, sizeof b, s && s->flip() ? "\\u%04X" : "\\u%04x", c);
        *o += b;
      } else {
        snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + ((c - 0x10000) >> 10),
                 0xdc00 + ((c - 0x10000) & 0x3ff));
        *o += b;
      }
    } else {
      o->append(t, at, i - at);
    }
  }
  *o += '"';
}
void write(const J& j, Source* s, std::string* o) {
  ws(s, o);
  switch (j.kind) {
    case J::kNull: *o += "null"; break;
    case J::kBool: *o += j.b ? "true" : "false"; break;
    case J::kNum: *o += j.s; break;
    case J::kStr: writeStr(j.s, s, o); break;
    case J::kList:
      *o += '[';
      for (size_t i = 0; i < j.list.size(); ++i) {
        if (i) *o += ',';
        write(j.list[i], s, o);
      }
      ws(s, o);
      *o += ']';
      break;
    case J::kObj:
      *o += '{';
      for (size_t i = 0; i < j.obj.size(); ++i) {
        if (i) *o += ',';
        ws(s, o);
        writeStr(j.obj[i].first, s, o);
        ws(s, o);
        *o += ':';
        write(j.obj[i].second, s, o);
      }
      ws(s, o);
      *o += '}';
      break;
  }
  ws(s, o);
}
void utf8(uint32_t c, std::string* o) {
  if (c < 0x80) {
    *o += static_cast<char>(c);
  } else if (c < 0x800) {
    *o += static_cast<char>(0xc0 | c >> 6);
    *o += static_cast<char>(0x80 | (c & 63));
  } else if (c < 0x10000) {
    *o += static_cast<char>(0xe0 | c >> 12);
    *o += static_cast<char>(0x80 | (c >> 6 & 63));
    *o += static_cast<char>(0x80 | (c & 63));
  } else {
    *o += static_cast<char>(0xf0 | c >> 18);
    *o += static_cast<char>(0x80 | (c >> 12 & 63));
    *o += static_cast<char>(0x80 | (c >> 6 & 63));
    *o += static_cast<char>(0x80 | (c & 63));
  }
}
}  // namespace

std::string writeJson(const J& j) {
  std::string o;
  write(j, nullptr, &o);
  return o;
}
std::string writeJson(const J& j, Source& s) {
  std::string o;
  write(j, &s, &o);
  return o;
}

std::string genText(Source& s, size_t max) {
  if (s.p(5)) return s.litText(s.p(40) ? 3000 : max);
  size_t n = s.below(max + 1);
  if (s.p(160) && n > 12) n = n % 12;
  int alpha = static_cast<int>(s.weighted({10, 4, 3, 3, 2}));
  std::string o;
  for (size_t i = 0; i < n; ++i) {
    uint32_t c = 0;
    switch (alpha) {
      case 0: c = 'a' + s.below(26); break;
      case 1: c = 32 + s.below(95); break;
      case 2: c = s.below(128); break;
      case 3: {
        static const uint32_t k[] = {'a', '.', '/', ':', 0xe9, 0x7f, 0x80, 0x7ff, 0x800, 0x20ac,
                                     0xd7ff, 0xe000, 0xfffd, 0x10000, 0x1f600, 0x10ffff, 0, '"', '\\'};
        c = s.pick(k);
        break;
      }
      default: {
        c = s.below(0x110000);
        if (c >= 0xd800 && c < 0xe000) c -= 0x1000;
      }
    }
    utf8(c, &o);
  }
  return o;
}

J genNumber(Source& s) {
  static const char* kEdge[] = {
      "0", "1", "-1", "-0", "0.0", "-0.0", "0.5", "-0.5", "1.9999999", "9007199254740991",
      "9007199254740992", "9007199254740993", "18446744073709549568", "18446744073709550591",
      "18446744073709551615", "18446744073709551616", "1.8446744073709552e19", "9223372036854775807",
      "9223372036854775808", "-9223372036854775808", "4294967295", "4294967296", "2147483648", "1e3",
      "1E+3", "12.75e1", "1e-3", "1e300", "-1e300", "123456789012345678901234567890", "1e-400",
      "253402300800", "1700000000", "1700000000.999999", "17e8", "-1e-300", "4.9406564584124654e-324"};
  std::string t;
  switch (s.weighted({6, 4, 3, 2, 1})) {
    case 4:
      t = std::to_string(s.litNum(INT64_MIN, INT64_MAX));
      if (s.p(80)) t += "." + std::to_string(s.below(1000));
      break;
    case 0: t = s.pick(kEdge); break;
    case 1: t = std::to_string(s.u64() >> s.below(64)); break;
    case 2: {
      t = (s.flip() ? "-" : "") + std::to_string(s.u64() >> s.below(64)) + "." +
          std::to_string(s.below(1000000));
      break;
    }
    default:
      t = (s.flip() ? "-" : "") + std::to_string(s.below(1000)) + "." + std::to_string(s.below(1000)) +
          (s.flip() ? "e" : "E") + (s.flip() ? "-" : s.flip() ? "+" : "") + std::to_string(s.below(25));
  }
  return J::number(t);
}

J genJson(Source& s, int depth) {
  switch (s.weighted({3, 2, 5, 8, depth > 0 ? 3u : 0u, depth > 0 ? 3u : 0u})) {
    case 0: return J::null();
    case 1: return J::boolean(s.flip());
    case 2: return genNumber(s);
    case 3: return J::str(genText(s, 30));
    case 4: {
      J j = J::array();
      for (size_t n = s.below(4); n > 0; --n) j.list.push_back(genJson(s, depth - 1));
      return j;
    }
    default: return genObject(s, depth - 1, 4);
  }
}

J genObject(Source& s, int depth, size_t max_members) {
  J j = J::object();
  for (size_t n = s.below(max_members + 1); n > 0; --n) {
    std::string k = s.p(120) ? genText(s, 12) : std::string(1, static_cast<char>('a' + s.below(6)));
    j.set(k, genJson(s, depth));
  }
  return j;
}

bool samePb(const J& j, const google::protobuf::Value& v, std::string* why) {
  using V = google::protobuf::Value;
  auto bad = [&](const char* w) {
    *why = std::string(w) + ": expected " + writeJson(j).substr(0, 200) + " got " +
           v.ShortDebugString().substr(0, 200);
    return false;
  };
  switch (j.kind) {
    case J::kNull: return v.kind_case() == V::kNullValue || bad("null");
    case J::kBool: return (v.kind_case() == V::kBoolValue && v.bool_value() == j.b) || bad("bool");
    case J::kNum: return (v.kind_case() == V::kNumberValue && v.number_value() == j.num) || bad("number");
    case J::kStr: return (v.kind_case() == V::kStringValue && v.string_value() == j.s) || bad("string");
    case J::kList:
      if (v.kind_case() != V::kListValue || v.list_value().values_size() != (int)j.list.size())
        return bad("list");
      for (size_t i = 0; i < j.list.size(); ++i)
        if (!samePb(j.list[i], v.list_value().values(i), why)) return false;
      return true;
    default:
      if (v.kind_case() != V::kStructValue) return bad("object");
      return samePb(j, v.struct_value(), why);
  }
}
bool samePb(const J& obj, const google::protobuf::Struct& v, std::string* why) {
  if (obj.obj.size() != static_cast<size_t>(v.fields().size())) {
    *why = "object has " + std::to_string(v.fields().size()) + " members instead of " +
           std::to_string(obj.obj.size());
    return false;
  }
  for (auto& m : obj.obj) {
    auto it = v.fields().find(m.first);
    if (it == v.fields().end()) {
      *why = "member " + quote(m.first) + " is missing";
      return false;
    }
    if (!samePb(m.second, it->second, why)) {
      *why = "member " + quote(m.first) + ": " + *why;
      return false;
    }
  }
  return true;
}
google::protobuf::Value toPb(const J& j) {
  google::protobuf::Value v;
  switch (j.kind) {
    case J::kNull: v.set_null_value(google::protobuf::NULL_VALUE); break;
    case J::kBool: v.set_bool_value(j.b); break;
    case J::kNum: v.set_number_value(j.num); break;
    case J::kStr: v.set_string_value(j.s); break;
    case J::kList:
      v.mutable_list_value();
      for (auto& e : j.list) *v.mutable_list_value()->add_values() = toPb(e);
      break;
    default: *v.mutable_struct_value() = toPbStruct(j);
  }
  return v;
}
google::protobuf::Struct toPbStruct(const J& obj) {
  google::protobuf::Struct st;
  for (auto& m : obj.obj) (*st.mutable_fields())[m.first] = toPb(m.second);
  return st;
}
}  // namespace vp
