// C16: the cache maps each key to its last inserted value and evicts oldest first.
#include "lru.h"

namespace vp {
namespace {
void run(Source& s, Ctx& c) { lru::runLru(s, c, lru::kMap); }
}  // namespace

const Property kProperty = {
    "C16",
    "A case is a history of 5 to 150 calls on one cache (int, string or string_view keys, four ways to own values, optional "
    "limits, virtual clock) ending with the release of all pins and clear(); every step is judged against the harness's record "
    "of values, pins, units, times and order. Non-trivial: evictions take place",
    1000000, 20000000, nullptr, run};
}  // namespace vp
