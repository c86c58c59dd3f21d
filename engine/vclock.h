// A clock the harness controls: when virtual time is on, every way of reading
// the wall or steady time in this process yields it.
#pragma once
#include <stdint.h>
namespace vp {
void virtualClock(bool on);
void setNow(int64_t us);  // microseconds since the epoch
int64_t nowUs();
}  // namespace vp
