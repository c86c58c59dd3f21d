// C19: entries expire exactly by the configured idle time or age.
#include "lru.h"

namespace vp {
namespace {
void run(Source& s, Ctx& c) { lru::runLru(s, c, lru::kExpiry); }
}  // namespace

const Property kProperty = {
    "C19",
    "A case is a history of 5 to 150 calls on one cache (int, string or string_view keys, four ways to own values, optional "
    "limits, virtual clock) ending with the release of all pins and clear(); every step is judged against the harness's record "
    "of values, pins, units, times and order. Non-trivial: entries expire and others are kept by the limit",
    1000000, 20000000, nullptr, run};
}  // namespace vp
