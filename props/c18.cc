// C18: cache accounting is exact and the size limit holds.
#include "lru.h"

namespace vp {
namespace {
void run(Source& s, Ctx& c) { lru::runLru(s, c, lru::kSums); }
}  // namespace

const Property kProperty = {
    "C18",
    "A case is a history of 5 to 150 calls on one cache (int, string or string_view keys, four ways to own values, optional "
    "limits, virtual clock) ending with the release of all pins and clear(); every step is judged against the harness's record "
    "of values, pins, units, times and order. Non-trivial: values are removed while pinned, or sizes are updated with pins outstanding",
    1000000, 20000000, nullptr, run};
}  // namespace vp
