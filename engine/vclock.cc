#include "vclock.h"

#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <chrono>

namespace vp {
namespace {
bool g_virtual = false;
int64_t g_now_us = 0;
}  // namespace
void virtualClock(bool on) { g_virtual = on; }
void setNow(int64_t us) { g_now_us = us; }
int64_t nowUs() { return g_now_us; }
namespace {
int readClock(clockid_t id, struct timespec* t) {
  if (!g_virtual || id == CLOCK_PROCESS_CPUTIME_ID ||
      id == CLOCK_THREAD_CPUTIME_ID)
    return syscall(SYS_clock_gettime, id, t);
  t->tv_sec = g_now_us / 1000000;
  t->tv_nsec = (g_now_us % 1000000) * 1000;
  return 0;
}
}  // namespace
}  // namespace vp

extern "C" {
int clock_gettime(clockid_t id, struct timespec* t) noexcept { return vp::readClock(id, t); }
int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec t;
  vp::readClock(CLOCK_REALTIME, &t);
  if (tv) {
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
  }
  return 0;
}
time_t time(time_t* out) noexcept {
  struct timespec t;
  vp::readClock(CLOCK_REALTIME, &t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
}

namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  struct timespec t;
  vp::readClock(CLOCK_REALTIME, &t);
  return time_point(duration_cast<duration>(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)));
}
steady_clock::time_point steady_clock::now() noexcept {
  struct timespec t;
  vp::readClock(CLOCK_MONOTONIC, &t);
  return time_point(duration_cast<duration>(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

// absl::Now interpolates between system-clock samples by cycle counter, so it
// has to be replaced itself (the executable's definition takes precedence).
#include "absl/time/clock.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec t;
  vp::readClock(CLOCK_REALTIME, &t);
  return static_cast<int64_t>(t.tv_sec) * 1000000000 + t.tv_nsec;
}
absl::Time Now() { return absl::FromUnixNanos(absl::GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl
