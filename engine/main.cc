// Search driver: seeded cases over worker processes, crash containment,
// shrinking, replay confirmation, statistics.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include "engine.h"

extern "C" __attribute__((used)) const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:max_allocation_size_mb=3000:"
         "quarantine_size_mb=16:malloc_context_size=8";
}
extern "C" __attribute__((used)) const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}
extern "C" __attribute__((used)) const char* __tsan_default_options() {
  return "exitcode=99:halt_on_error=1:ignore_noninstrumented_modules=1:"
         "report_thread_leaks=0:second_deadlock_stack=1:history_size=4";
}

namespace vp {

std::string quote(const std::string& s, size_t max) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (r.size() > max) {
      r += "...";
      break;
    }
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c >= 32 && c < 127) {
      r += static_cast<char>(c);
    } else {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    }
  }
  return r + "\" (" + std::to_string(s.size()) + " bytes)";
}

Literals& literals() {
  static Literals* l = new Literals;
  return *l;
}

namespace {

// Lines "n NUMBER" and "s HEX".
void loadLiterals(const std::string& text) {
  Literals& l = literals();
  l = Literals();
  l.text = text;
  std::istringstream in(text);
  std::string kind, v;
  while (in >> kind) {
    v.clear();
    std::getline(in, v);
    v.erase(0, v.find_first_not_of(' '));
    if (kind == "n") l.nums.push_back(strtoll(v.c_str(), nullptr, 10));
    if (kind == "s") {
      std::string b;
      for (size_t i = 0; i + 1 < v.size(); i += 2) b += static_cast<char>(strtol(v.substr(i, 2).c_str(), nullptr, 16));
      l.strs.push_back(b);
    }
  }
}
void loadLiteralsFromEnv() {
  const char* f = getenv("VP_LITERALS");
  if (!f) return;
  std::ifstream in(f, std::ios::binary);
  std::stringstream s;
  s << in.rdbuf();
  loadLiterals(s.str());
}

constexpr size_t kCap = 1 << 22;
constexpr int kCaseCpuSeconds = 30;
constexpr int kFailExit = 77;
constexpr int kHangExit = 98;

struct Shared {
  volatile uint64_t cur;      // case index being run
  volatile uint64_t done;     // cases finished
  volatile uint64_t len;      // recorded bytes
  volatile uint64_t finished;  // 1: all of its cases, 2: another process goes on
  volatile uint64_t start;     // first case of the process
  volatile uint64_t next;      // where the next process goes on
  volatile uint64_t generation;
  volatile uint64_t failed;   // an oracle failure
  char msg[8192];
  uint8_t rec[kCap];
};

Shared* g_shared = nullptr;

void onTimer(int) {
  static const char m[] = "\nHANG: a single case used too much CPU time\n";
  (void)!write(2, m, sizeof m - 1);
  if (g_shared) {
    strncpy(g_shared->msg, "hang: a single case used more than 30 s of CPU time",
            sizeof g_shared->msg - 1);
  }
  _exit(kHangExit);
}

void armTimer(int seconds) {
  static int count = 0;
  // Rearming for every case is cheap, but not free.
  if (seconds && (count++ & 7)) return;
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

double monotonic() {
  struct timespec t;
  // The harness may stand in for clock_gettime; ask the kernel.
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

Shared* newShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(3);
  }
  return static_cast<Shared*>(p);
}

void redirect(int fd, const std::string& path) {
  int f = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (f >= 0) {
    dup2(f, fd);
    close(f);
  }
}

std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
void spit(const std::string& path, const std::string& s) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << s;
}

uint64_t caseSeed(uint64_t seed, uint64_t i) {
  return mix64(mix64(seed * 0x9e3779b97f4a7c15ull + 0xabcdef) + i);
}

void setMsg(const std::string& m) {
  strncpy(g_shared->msg, m.c_str(), sizeof g_shared->msg - 1);
  g_shared->msg[sizeof g_shared->msg - 1] = 0;
}

// Runs one case; returns false on an oracle failure (message in g_shared).
bool runOne(Source& src, Ctx& c) {
  c.nontrivial_now = false;
  c.nontrivial_hash = 0;
  armTimer(kCaseCpuSeconds);
  try {
    kProperty.run(src, c);
  } catch (const Failure& f) {
    setMsg(f.msg);
    g_shared->failed = 1;
    return false;
  } catch (const std::exception& e) {
    setMsg(std::string("uncaught exception: ") + e.what());
    g_shared->failed = 1;
    return false;
  }
  if (c.nontrivial_now) c.hashes.push_back(c.nontrivial_hash);
  return true;
}

struct Options {
  uint64_t seed = 1, cases = 0;
  int workers = 8;
  double max_seconds = 240;
  std::string work, replay_file, replay_out;
  bool print_case = false;
};

void limits() {
  struct rlimit r;
  r.rlim_cur = r.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &r);
  signal(SIGPROF, onTimer);
}

void writeStats(const std::string& path, const Ctx& c, uint64_t n,
                const std::vector<std::string>& samples) {
  std::ofstream f(path + ".tmp", std::ios::binary | std::ios::trunc);
  f << n << "\n" << c.labels.size() << "\n";
  for (auto& l : c.labels) f << l.second << " " << l.first << "\n";
  f << c.hashes.size() << "\n";
  for (auto h : c.hashes) f << h << "\n";
  f << samples.size() << "\n";
  for (auto& s : samples) f << s.size() << "\n" << s << "\n";
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());  // whole or not at all
}

[[noreturn]] void worker(const Options& o, int w, Shared* sh, double deadline) {
  g_shared = sh;
  limits();
  redirect(2, o.work + "/w" + std::to_string(w) + ".err");
  if (kProperty.init) kProperty.init();
  Ctx c;
  std::vector<std::string> samples;
  uint64_t n = 0, done = sh->done;
  uint64_t finished = 1;
  for (uint64_t i = sh->start; i < o.cases; i += o.workers) {
    if ((n & 15) == 0 && monotonic() > deadline) break;
    if (kProperty.per_process && n == kProperty.per_process) {
      finished = 2;
      sh->next = i;
      break;
    }
    sh->cur = i;
    Source src(caseSeed(o.seed, i), sh->rec, kCap, &sh->len);
    c.verbose = w == 0 && sh->generation == 0 && samples.size() < 4 && n % 3 == 0;
    c.log.clear();
    if (!runOne(src, c)) _exit(kFailExit);
    ++n;
    sh->done = done + n;
    if (c.verbose && c.nontrivial_now)
      samples.push_back(c.log.substr(0, 3000));
  }
  armTimer(0);
  writeStats(o.work + "/w" + std::to_string(w) + "." + std::to_string(sh->generation) + ".stats", c, n, samples);
  sh->finished = finished;
  _exit(0);
}

struct Outcome {
  bool failed = false;
  std::string kind, msg;
};

std::string sanitizerSummary(const std::string& err) {
  size_t p;
  for (const char* k : {"SUMMARY: ", "runtime error: ", "Assertion `", "HANG: ",
                        "terminate called", "WARNING: ThreadSanitizer"}) {
    p = err.find(k);
    if (p != std::string::npos) {
      size_t b = err.rfind('\n', p);
      b = b == std::string::npos ? 0 : b + 1;
      size_t e = err.find('\n', p);
      return err.substr(b, e == std::string::npos ? e : e - b);
    }
  }
  return "";
}

Outcome classify(int st, Shared* sh, const std::string& err) {
  Outcome r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == kFailExit) {
    r.kind = "oracle";
    r.msg = sh->msg;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == kHangExit) {
    r.kind = "hang";
    r.msg = sh->msg;
  } else {
    r.kind = "crash";
    std::ostringstream os;
    os << "process ended abnormally (";
    if (WIFSIGNALED(st))
      os << "signal " << WTERMSIG(st);
    else
      os << "exit " << WEXITSTATUS(st);
    os << ") " << sanitizerSummary(err);
    r.msg = os.str();
  }
  return r;
}

// Runs f in a child process, with a wall-clock limit.
Outcome inChild(const Options& o, const std::function<bool()>& f, Shared* sh,
                double wall, std::string* err_out = nullptr) {
  std::string errf = o.work + "/child.err";
  fflush(nullptr);
  sh->failed = 0;
  sh->msg[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    g_shared = sh;
    limits();
    redirect(2, errf);
    if (kProperty.init) kProperty.init();
    bool ok = f();
    _exit(ok ? 0 : kFailExit);
  }
  double end = monotonic() + wall;
  int st = 0;
  Outcome r;
  useconds_t nap = 200;
  for (;;) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) break;
    if (q < 0 && errno != EINTR) return r;
    if (monotonic() > end) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      r.failed = true;
      r.kind = "hang";
      r.msg = "stall: no answer within " + std::to_string((int)wall) + " s";
      return r;
    }
    usleep(nap);
    if (nap < 5000) nap += 200;
  }
  std::string err = slurp(errf);
  if (err_out) *err_out = err;
  return classify(st, sh, err);
}

Outcome tryBytes(const Options& o, const std::string& b, Shared* sh,
                 std::string* err = nullptr) {
  return inChild(
      o,
      [&] {
        Ctx c;
        Source src(reinterpret_cast<const uint8_t*>(b.data()), b.size());
        return runOne(src, c);
      },
      sh, 60, err);
}

// A failure that needs earlier cases of the same process.
Outcome tryPrefix(const Options& o, uint64_t from, uint64_t step, uint64_t last,
                  uint64_t seed, Shared* sh, std::string* err = nullptr) {
  return inChild(
      o,
      [&] {
        Ctx c;
        for (uint64_t i = from; i <= last; i += step) {
          Source src(caseSeed(seed, i), sh->rec, kCap, &sh->len);
          if (!runOne(src, c)) return false;
        }
        return true;
      },
      sh, 300, err);
}

int confirm(const std::function<Outcome()>& f, int want, int attempts,
            Outcome* last) {
  int n = 0;
  for (int i = 0; i < attempts && n < want; ++i) {
    // Give up early when it hardly ever shows.
    Outcome r = f();
    if (r.failed) {
      ++n;
      *last = r;
    }
  }
  return n;
}

std::string shrink(const Options& o, std::string best, const std::string& kind,
                   Shared* sh, double budget) {
  double end = monotonic() + budget;
  int tries = 0;
  auto fails = [&](const std::string& b) {
    ++tries;
    Outcome r = tryBytes(o, b, sh);
    return r.failed && r.kind == kind;
  };
  auto out = [&] { return monotonic() > end || tries > 6000; };
  auto stripZeros = [](std::string b) {
    while (!b.empty() && b.back() == 0) b.pop_back();
    return b;
  };
  // Truncate.
  {
    size_t lo = 0, hi = best.size();
    while (lo < hi && !out()) {
      size_t mid = (lo + hi) / 2;
      if (fails(best.substr(0, mid)))
        hi = mid;
      else
        lo = mid + 1;
    }
    std::string t = best.substr(0, hi);
    if (t.size() < best.size() && fails(t)) best = t;
  }
  for (bool progress = true; progress && !out();) {
    progress = false;
    for (size_t blk : {256, 64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = 0; i + blk <= best.size() && !out();) {
        size_t at = best.size() - blk - i;
        std::string t = best;
        t.erase(at, blk);
        if (fails(t)) {
          best = t;
          progress = true;
          continue;  // same distance from the end
        }
        i += blk > 8 ? blk / 2 : 1;
        if (best.size() > 3000) i += best.size() / 500;
      }
    }
    for (size_t blk : {64, 16, 8, 4, 2, 1}) {
      for (size_t at = 0; at + blk <= best.size() && !out(); at += blk) {
        std::string t = best;
        bool zero = true;
        for (size_t k = at; k < at + blk; ++k) {
          zero = zero && t[k] == 0;
          t[k] = 0;
        }
        if (!zero && fails(t)) {
          best = t;
          progress = true;
        }
      }
    }
    for (size_t at = 0; at < best.size() && !out(); ++at) {
      unsigned v = static_cast<uint8_t>(best[at]);
      if (v == 0) continue;
      for (unsigned nv : {v / 2, v - 1, v & 1, v % 16}) {
        if (nv >= v) continue;
        std::string t = best;
        t[at] = static_cast<char>(nv);
        if (fails(t)) {
          best = t;
          progress = true;
          break;
        }
      }
    }
    std::string t = stripZeros(best);
    if (t.size() < best.size() && fails(t)) best = t;
  }
  return best;
}

std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}
std::string unhex(const std::string& s) {
  std::string r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2)
    r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

// Description of a case, written by a verbose run (it may crash midway, so the
// log is flushed to a file as far as it got).
std::string describe(const Options& o, const std::string& b, Shared* sh) {
  std::string f = o.work + "/describe.txt";
  unlink(f.c_str());
  inChild(
      o,
      [&] {
        Ctx c;
        c.verbose = true;
        Source src(reinterpret_cast<const uint8_t*>(b.data()), b.size());
        c.live = fopen(f.c_str(), "w");
        return runOne(src, c);
      },
      sh, 60);
  return slurp(f);
}

int report(const Options& o, const std::string& first_line, const Outcome& r,
           const std::string& desc, const std::string& err) {
  std::ostringstream os;
  os << "property " << kProperty.id << "\n"
     << "literals " << hex(literals().text) << "\n"
     << first_line << "\n"
     << "# failure (" << r.kind << "): " << r.msg << "\n";
  std::string d = desc + (err.empty() ? "" : "\n--- stderr ---\n" + err.substr(0, 6000));
  std::istringstream in(d);
  std::string line;
  while (std::getline(in, line)) os << "# " << line << "\n";
  spit(o.replay_out, os.str());
  std::cout << "failure (" << r.kind << "): " << r.msg << "\n";
  std::cout << desc.substr(0, 4000) << std::endl;
  std::cout << "VIOLATION property=" << kProperty.id << " replay=" << o.replay_out
            << std::endl;
  return 1;
}

// Confirms and shrinks a failing choice sequence. Returns 1 and reports it if
// it is reproducible, else 0.
int handleBytes(const Options& o, const std::string& bytes, Shared* sh) {
  Outcome last;
  int n = 0;
  Outcome one = tryBytes(o, bytes, sh);
  if (one.failed && one.kind == "hang") {
    // Each attempt can take a minute; one more decides.
    one = tryBytes(o, bytes, sh);
    if (!one.failed) return 0;
    return report(o, "bytes " + hex(bytes), one, describe(o, bytes, sh), "");
  }
  n = confirm([&] { return tryBytes(o, bytes, sh); }, 3, 3, &last);
  bool steady = n == 3;
  if (!steady) n += confirm([&] { return tryBytes(o, bytes, sh); }, 3 - n, 40, &last);
  if (n < 3) return 0;
  std::string best = bytes;
  if (steady)
    best = shrink(o, bytes, last.kind, sh, 60);
  Outcome fin;
  std::string err;
  int m = confirm([&] { return tryBytes(o, best, sh, &err); }, 3, steady ? 3 : 60, &fin);
  if (m < 3) {
    best = bytes;
    fin = last;
  }
  return report(o, "bytes " + hex(best), fin, describe(o, best, sh), 
                fin.kind == "oracle" ? "" : err);
}

int handlePrefix(const Options& o, uint64_t w, uint64_t last_case, Shared* sh) {
  Outcome last;
  auto run = [&](uint64_t from) {
    return tryPrefix(o, from, o.workers, last_case, o.seed, sh);
  };
  double t0 = monotonic();
  if (confirm([&] { return run(w); }, 1, 1, &last) < 1) return 0;
  double took = monotonic() - t0;
  if (took < 20 && confirm([&] { return run(w); }, 2, 2, &last) < 2) return 0;
  // Shorten the prefix: latest start that still fails.
  uint64_t lo = 0, hi = (last_case - w) / o.workers;
  double end = monotonic() + (took < 40 ? 120 : 0);
  while (lo < hi && monotonic() < end) {
    uint64_t mid = (lo + hi + 1) / 2;
    if (run(w + mid * o.workers).failed)
      lo = mid;
    else
      hi = mid - 1;
  }
  uint64_t from = w + lo * o.workers;
  if (from != w && !run(from).failed) from = w;
  std::ostringstream os;
  os << "prefix " << o.seed << " " << from << " " << o.workers << " " << last_case;
  return report(o, os.str(), last,
                "fails only after earlier cases in the same process", "");
}

int replayFile(const Options& o) {
  std::ifstream f(o.replay_file);
  std::string line, kind, rest;
  Shared* sh = newShared();
  int rc = 2;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    is >> kind;
    if (kind == "literals") {
      rest.clear();
      is >> rest;
      loadLiterals(unhex(rest));
      rest.clear();
    }
    if (kind == "bytes") {
      is >> rest;
      Outcome r;
      std::string b = unhex(rest), err;
      if (o.print_case) std::cout << describe(o, b, sh) << "\n";
      int n = confirm([&] { return tryBytes(o, b, sh, &err); }, 1, 30, &r);
      rc = n ? 1 : 0;
      if (n) std::cout << "failure (" << r.kind << "): " << r.msg << "\n" << err << "\n";
      break;
    }
    if (kind == "prefix") {
      uint64_t seed, from, step, last;
      is >> seed >> from >> step >> last;
      Outcome r = tryPrefix(o, from, step, last, seed, sh);
      rc = r.failed ? 1 : 0;
      if (r.failed) std::cout << "failure (" << r.kind << "): " << r.msg << "\n";
      break;
    }
  }
  std::cout << (rc == 1 ? "REPRODUCED" : rc == 0 ? "held" : "bad replay file") << "\n";
  return rc;
}

std::string jsonStr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

int search(Options o) {
  double t0 = monotonic();
  double deadline = t0 + o.max_seconds;
  std::vector<Shared*> sh;
  std::vector<pid_t> pid;
  std::vector<double> seen(o.workers, t0);
  std::vector<uint64_t> seen_done(o.workers, 0);
  for (int w = 0; w < o.workers; ++w) {
    sh.push_back(newShared());
    sh.back()->start = w;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) worker(o, w, sh.back(), deadline);
    pid.push_back(p);
  }
  int failed = -1, alive = o.workers;
  Outcome fo;
  std::vector<char> gone(o.workers, 0);
  std::vector<int> more_failed;
  while (alive && failed < 0) {
    for (int w = 0; w < o.workers; ++w) {
      if (gone[w]) continue;
      int st;
      pid_t q = waitpid(pid[w], &st, WNOHANG);
      if (q == pid[w] && sh[w]->finished == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        sh[w]->finished = 0;
        sh[w]->start = sh[w]->next;
        ++sh[w]->generation;
        fflush(nullptr);
        pid[w] = fork();
        if (pid[w] == 0) worker(o, w, sh[w], deadline);
      } else if (q == pid[w]) {
        gone[w] = 1;
        --alive;
        if (!sh[w]->finished || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
          sh[w]->failed = 1;
          failed = w;
          fo = classify(st, sh[w], slurp(o.work + "/w" + std::to_string(w) + ".err"));
          break;
        }
      } else if (sh[w]->done != seen_done[w]) {
        seen_done[w] = sh[w]->done;
        seen[w] = monotonic();
      } else if (monotonic() - seen[w] > 200) {
        failed = w;
        fo.failed = true;
        fo.kind = "hang";
        fo.msg = "stall: no progress for 200 s";
        break;
      }
    }
    usleep(5000);
  }
  for (int w = 0; w < o.workers; ++w)
    if (!gone[w]) {
      kill(pid[w], SIGKILL);
      waitpid(pid[w], nullptr, 0);
    }
  int rc = 0;
  if (failed >= 0) {
    Shared* s = sh[failed];
    std::string bytes(reinterpret_cast<const char*>(s->rec), s->len);
    uint64_t cur = s->cur;
    std::cout << "case " << cur << " (seed " << o.seed << ") failed: " << fo.kind
              << ": " << fo.msg << std::endl;
    Shared* scratch = newShared();
    rc = handleBytes(o, bytes, scratch);
    if (!rc) rc = handlePrefix(o, s->start, cur, scratch);
    if (!rc && fo.kind != "hang") {
      // It happened, in whatever circumstances; the record is all there is.
      rc = report(o, "bytes " + hex(bytes), fo,
                  "seen once, and not again in 40 attempts\n" + describe(o, bytes, scratch),
                  slurp(o.work + "/w" + std::to_string(failed) + ".err"));
    }
    if (!rc) {
      std::cout << "UNREPRODUCED: the failure did not show again" << std::endl;
      rc = 4;
    }
  }
  // Statistics.
  uint64_t total = 0;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hs;
  std::vector<std::string> samples;
  for (int w = 0; w < o.workers; ++w)
    for (uint64_t g = 0; g <= sh[w]->generation; ++g) {
    std::ifstream f(o.work + "/w" + std::to_string(w) + "." + std::to_string(g) + ".stats", std::ios::binary);
    if (!f) {
      total += sh[w]->done;
      continue;
    }
    uint64_t n = 0, k = 0;
    f >> n >> k;
    total += n;
    for (uint64_t i = 0; i < k && f; ++i) {
      uint64_t v = 0;
      std::string l;
      f >> v;
      f.get();
      std::getline(f, l);
      labels[l] += v;
    }
    k = 0;
    f >> k;
    for (uint64_t i = 0; i < k && f; ++i) {
      uint64_t v = 0;
      f >> v;
      hs.insert(v);
    }
    k = 0;
    f >> k;
    for (uint64_t i = 0; i < k && f; ++i) {
      size_t len = 0;
      f >> len;
      f.get();
      std::string s(len, 0);
      f.read(&s[0], len);
      samples.push_back(s);
    }
  }
  std::ofstream f(o.work + "/stats.json", std::ios::trunc);
  f << "{\"evaluations\":" << total << ",\"distinct_nontrivial\":" << hs.size()
    << ",\"rule\":" << jsonStr(kProperty.rule) << ",\"requested\":" << o.cases
    << ",\"seconds\":" << monotonic() - t0 << ",\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i)
    f << (i ? "," : "") << jsonStr(samples[i]);
  f << "],\"classes\":{";
  bool first = true;
  for (auto& l : labels) {
    f << (first ? "" : ",") << jsonStr(l.first) << ":" << l.second;
    first = false;
  }
  f << "}}\n";
  f.close();
  std::cout << kProperty.id << ": " << total << " cases, " << hs.size()
            << " distinct non-trivial, " << monotonic() - t0 << " s" << std::endl;
  return rc;
}

}  // namespace
}  // namespace vp

#ifdef VP_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static vp::Ctx* c = [] {
    vp::loadLiteralsFromEnv();
    if (vp::kProperty.init) vp::kProperty.init();
    return new vp::Ctx;
  }();
  vp::Source src(data, size);
  try {
    vp::kProperty.run(src, *c);
  } catch (const vp::Failure& f) {
    fprintf(stderr, "ORACLE FAILURE: %s\n", f.msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) {
  vp::Options o;
  std::string raw;
  bool thorough = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") o.seed = strtoull(next().c_str(), 0, 10);
    else if (a == "--cases") o.cases = strtoull(next().c_str(), 0, 10);
    else if (a == "--workers") o.workers = atoi(next().c_str());
    else if (a == "--max-seconds") o.max_seconds = atof(next().c_str());
    else if (a == "--work") o.work = next();
    else if (a == "--replay") o.replay_file = next();
    else if (a == "--raw") raw = next();            // a raw choice sequence (libFuzzer artifact)
    else if (a == "--replay-out") o.replay_out = next();
    else if (a == "--thorough") thorough = true;
    else if (a == "--print") o.print_case = true;
    else {
      std::cerr << "unknown option " << a << "\n";
      return 3;
    }
  }
  vp::loadLiteralsFromEnv();
  if (vp::kProperty.init) vp::kProperty.init();  // shared by the forked workers
  if (!o.cases) o.cases = thorough ? vp::kProperty.thorough_cases : vp::kProperty.quick_cases;
  if (o.work.empty()) {
    std::cerr << "--work is required\n";
    return 3;
  }
  mkdir(o.work.c_str(), 0755);
  if (o.replay_out.empty()) o.replay_out = o.work + "/replay.txt";
  if (!raw.empty()) {
    int rc = vp::handleBytes(o, vp::slurp(raw), vp::newShared());
    std::cout << (rc ? "" : "UNREPRODUCED\n");
    return rc;
  }
  if (!o.replay_file.empty()) return vp::replayFile(o);
  return vp::search(o);
}
#endif
