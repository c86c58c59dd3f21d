// Faulty JSON texts that no JSON parser of this library accepts.
#pragma once
#include "json.h"
namespace vp {
// A text that is not a JSON object (o is a valid one to damage).
inline std::string badJson(Source& s, const J& o) {
  std::string t = writeJson(o);
  static const char* kFixed[] = {
      "null", "[]", "\"x\"", "1", "true", "false", "[{}]", "{\"a\":}", "{\"a\":01}", "{\"a\":.5}", "{\"a\":+1}",
      "{\"a\":1e400}", "{\"a\":NaN}", "{\"a\":Infinity}", "{\"a\":0x10}", "{\"a\":1,\"a\":2}", "{\"a\":\"\\ud800\"}",
      "{\"a\":\"\xff\"}", "{\"a\":\"\xc0\x80\"}", "/*c*/{}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "{,}", "{\"a\":[1 2]}", "{\"a\":[,1]}",
      "\xef\xbb\xbf{}", "{\"a\":1e}", "{\"a\":--1}", "   ", "{", "}", "{\"a\"", "{\"a\":\"b", "{}}", "{}{}", "{} x"};
  switch (s.weighted({8, 2, 2, 2, 1, 2})) {
    case 0: return s.pick(kFixed);
    case 5: {
      // Something that is neither blank nor JSON before or behind the object.
      static const char* kJunk[] = {"", "\xef\xbb\xbf", "\xa0", "\xc2\xa0", "\x01", "\x7f", ",", ";", "\\", "#", "//", ")]}'\n", "\x1b", "0"};
      std::string j = s.pick(kJunk);
      if (j.empty()) j = std::string(1, '\0');
      if (s.p(60)) j = std::string(1 + s.below(3), ' ') + j;
      return s.flip() ? j + t : t + j;
    }
    case 1: {
      // Cut within the object: its closing brace is missing.
      size_t n = s.range(1, t.size() - 1);
      return t.substr(0, n);
    }
    case 2: return t + (s.flip() ? "x" : t);
    case 3: return "[" + t + "]";
    default: {
      // A member twice.
      std::string m = "\"dup\":1,\"dup\":1";
      return "{" + m + (o.obj.empty() ? "}" : "," + t.substr(1));
    }
  }
}
// Base64url text that cannot be decoded; ascii: valid UTF-8 as well.
inline std::string badB64(Source& s, const std::string& good, bool ascii = false) {
  std::string x = good;
  static const char* kSets[] = {"!*+/@#$%&~\x80\xff\x01`{}[]|\"'", "!*+/@#$%&~\x01`{}[]|\"'"};
  const std::string kBad = kSets[ascii];
  switch (s.weighted({6, 2, 2, 1})) {
    case 0: x[s.below(x.size())] = kBad[s.below(kBad.size())]; break;
    case 1: x.insert(s.below(x.size() + 1), 1, kBad[s.below(kBad.size())]); break;
    case 2:
      // One character left over.
      while (x.size() % 4 != 1) x += 'A';
      break;
    default: x.insert(s.below(x.size() + 1), 1, '\0');
  }
  return x;
}
}  // namespace vp
