// JSON values, a generator of them, and a writer with free choice of white
// space and escapes. Independent of the library under test.
#pragma once
#include <string>
#include <utility>
#include <vector>

#include "engine.h"
#include "google/protobuf/struct.pb.h"

namespace vp {

struct J {
  enum Kind { kNull, kBool, kNum, kStr, kList, kObj } kind = kNull;
  bool b = false;
  double num = 0;
  std::string s;  // string value, or number text
  std::vector<J> list;
  std::vector<std::pair<std::string, J>> obj;

  static J null() { return J(); }
  static J boolean(bool v) {
    J j;
    j.kind = kBool;
    j.b = v;
    return j;
  }
  static J str(const std::string& v) {
    J j;
    j.kind = kStr;
    j.s = v;
    return j;
  }
  static J number(const std::string& text);  // value by strtod
  static J integer(uint64_t v) { return number(std::to_string(v)); }
  static J array(std::vector<J> v = {}) {
    J j;
    j.kind = kList;
    j.list = std::move(v);
    return j;
  }
  static J object() {
    J j;
    j.kind = kObj;
    return j;
  }
  J& set(const std::string& k, J v);
  void erase(const std::string& k);
  const J* get(const std::string& k) const;
};

// Compact text.
std::string writeJson(const J& j);
// Text with random white space and escapes.
std::string writeJson(const J& j, Source& s);

// UTF-8 text of up to max characters, from several alphabets.
std::string genText(Source& s, size_t max);
// A JSON number text (any notation), with its value in J::num.
J genNumber(Source& s);
// Any value; depth limits nesting.
J genJson(Source& s, int depth);
J genObject(Source& s, int depth, size_t max_members);

bool samePb(const J& j, const google::protobuf::Value& v, std::string* why);
bool samePb(const J& obj, const google::protobuf::Struct& v, std::string* why);
google::protobuf::Value toPb(const J& j);
google::protobuf::Struct toPbStruct(const J& obj);

}  // namespace vp
