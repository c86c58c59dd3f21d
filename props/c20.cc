// C20: observing the cache reports the true contents and changes nothing.
#include "lru.h"

namespace vp {
namespace {
void run(Source& s, Ctx& c) { lru::runLru(s, c, lru::kObserve); }
}  // namespace

const Property kProperty = {
    "C20",
    "A case is a history of 5 to 150 calls on one cache (int, string or string_view keys, four ways to own values, optional "
    "limits, virtual clock) ending with the release of all pins and clear(); every step is judged against the harness's record "
    "of values, pins, units, times and order. Non-trivial: two or more live values are observed",
    600000, 20000000, nullptr, run};
}  // namespace vp
