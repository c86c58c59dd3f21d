// Field-by-field comparison of tokens.
#pragma once
#include <google/protobuf/util/message_differencer.h>

#include "world.h"

namespace vp {
// Names the first field in which a and b differ; empty if none.
inline std::string diffJwt(const Jwt& a, const Jwt& b) {
#define VP_FIELD(f) \
  if (a.f != b.f) return #f;
  VP_FIELD(jwt_)
  VP_FIELD(header_str_)
  VP_FIELD(header_str_base64url_)
  VP_FIELD(payload_str_)
  VP_FIELD(payload_str_base64url_)
  VP_FIELD(signature_)
  VP_FIELD(alg_)
  VP_FIELD(kid_)
  VP_FIELD(iss_)
  VP_FIELD(audiences_)
  VP_FIELD(sub_)
  VP_FIELD(iat_)
  VP_FIELD(nbf_)
  VP_FIELD(exp_)
  VP_FIELD(jti_)
#undef VP_FIELD
  using D = google::protobuf::util::MessageDifferencer;
  if (!D::Equals(a.header_pb_, b.header_pb_)) return "header_pb_";
  if (!D::Equals(a.payload_pb_, b.payload_pb_)) return "payload_pb_";
  return "";
}
}  // namespace vp
