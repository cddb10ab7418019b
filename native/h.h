// Common part of the native harnesses: they drive the real code of /repo with
// generated inputs against an independent oracle and record a concrete failing
// input (replay) when the two disagree.
#ifndef VERIF_NATIVE_H_
#define VERIF_NATIVE_H_
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

namespace h {
inline std::string g_prop, g_replay_path, g_scenario;
inline uint64_t g_seed = 1, g_trial_seed = 0;
inline double g_budget = 5;
inline double g_start = 0;
inline bool g_single = false;
inline bool g_thorough = false;
inline std::atomic<long> g_trials{0}, g_ops{0};
inline std::vector<std::string> g_trace;
inline std::vector<std::string> g_samples;
inline std::mutex g_mu;
inline bool g_hang_fails = true;

inline double Now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline std::string Fmt(const char* f, ...) {
  char buf[4096]; va_list a; va_start(a, f); vsnprintf(buf, sizeof buf, f, a); va_end(a); return buf;
}
template <typename... A> void T(const char* f, A... a) {
  std::lock_guard<std::mutex> l(g_mu);
  g_ops++;
  if (g_trace.size() < 20000) g_trace.push_back(sizeof...(a) ? Fmt(f, a...) : std::string(f));
}
inline void WriteReplay(const char* what) {
  FILE* f = fopen(g_replay_path.c_str(), "w");
  if (!f) f = stderr;
  fprintf(f, "property: %s\nscenario: %s\nfailure: %s\nseed: %llu\ntrial: %llu\n", g_prop.c_str(), g_scenario.c_str(), what, (unsigned long long)g_seed, (unsigned long long)g_trial_seed);
  fprintf(f, "input (operations performed on the real code, in order):\n");
  for (auto& s : g_trace) fprintf(f, "  %s\n", s.c_str());
  fflush(f);
}
[[noreturn]] inline void FailS(const std::string& s) {
  static std::atomic<bool> once{false};
  if (once.exchange(true)) { sleep(5); _exit(1); }
  bool ok = g_mu.try_lock(); (void)ok;
  WriteReplay(s.c_str());
  printf("FAIL %s\n", s.c_str()); fflush(stdout);
  _exit(1);
}
#define FAIL(...) ::h::FailS(::h::Fmt(__VA_ARGS__))
#define EXPECT(c, ...) do { if (!(c)) ::h::FailS(::h::Fmt(__VA_ARGS__) + "  [" #c "]"); } while (0)
inline void OnCrash(int sig) {
  static volatile sig_atomic_t once = 0;
  if (once) _exit(1);
  once = 1;
  char m[200]; snprintf(m, sizeof m, "the code under test crashed (signal %d: %s) on a permitted input", sig, sig == SIGABRT ? "abort / failed internal check" : "memory fault");
  WriteReplay(m);
  printf("FAIL %s\n", m); fflush(stdout);
  _exit(1);
}
// ---- deterministic random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x = 1) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)(u64() % (uint64_t)(b - a + 1)); }  // inclusive
  bool p(double x) { return (u64() >> 11) * (1.0 / 9007199254740992.0) < x; }
  double d() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  template <class V> auto& pick(V& v) { return v[in(0, (int64_t)v.size() - 1)]; }
};
// ---- watchdog: a trial that does not end is a failure if the code may not block
inline std::atomic<double> g_deadline{0};
inline void StartWatchdog() {
  std::thread([] {
    while (true) {
      usleep(200000);
      double d = g_deadline.load();
      if (d > 0 && Now() > d) {
        if (g_hang_fails) FailS("an operation that has to complete did not return (blocked forever)");
        printf("HANG\n"); fflush(stdout); _exit(4);
      }
    }
  }).detach();
}
// Runs `fn(rng)` for many seeds until the budget share or `max` trials.
inline double g_share_end = 0;
inline void Trials(const char* scenario, double share, long max, const std::function<void(Rng&)>& fn, double trial_limit = 90) {
  static std::string only = getenv("H_SCENARIO") ? getenv("H_SCENARIO") : "";
  if (!only.empty() && only != scenario) return;
  g_scenario = scenario;
  double end = Now() + g_budget * share;
  uint64_t base = g_seed * 1000003ull;
  for (const char* c = scenario; *c; ++c) base = base * 131 + *c;
  for (long i = 0; i < max; i++) {
    g_trial_seed = g_single ? g_trial_seed : base + i;
    { std::lock_guard<std::mutex> l(g_mu); if (i > 0 && g_samples.size() < 3 && g_trace.size() > 0) { std::string s = std::string(scenario) + ":"; for (size_t k = 0; k < g_trace.size() && k < 12; k++) s += " " + g_trace[k] + ";"; if ((long)g_samples.size() < i) g_samples.push_back(s); } g_trace.clear(); }
    Rng r(g_trial_seed);
    g_deadline = Now() + trial_limit;
    fn(r);
    g_deadline = 0;
    g_trials++;
    if (g_single || Now() > end) break;
  }
}
void Run(const std::string& prop);  // provided by each harness
}  // namespace h

int main(int argc, char** argv) {
  using namespace h;
  setenv("TF_CPP_MIN_LOG_LEVEL", "3", 0);
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") g_prop = v;
    else if (k == "--seed") g_seed = strtoull(v.c_str(), 0, 10);
    else if (k == "--budget") g_budget = atof(v.c_str());
    else if (k == "--replay") g_replay_path = v;
    else if (k == "--thorough") g_thorough = v == "1";
    else if (k == "--trial") { g_single = true; g_trial_seed = strtoull(v.c_str(), 0, 10); }
  }
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, OnCrash);
  signal(SIGPIPE, SIG_IGN);
  StartWatchdog();
  h::Run(g_prop);
  printf("OK trials=%ld ops=%ld\n", g_trials.load(), g_ops.load());
  for (auto& s : g_samples) printf("SAMPLE %s\n", s.substr(0, 600).c_str());
  fflush(stdout);
  _exit(0);
}
#endif
