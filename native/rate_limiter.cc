// C01, C02: rate limiter against an exact model; waiting threads.
#include "native/h.h"
#include "absl/synchronization/mutex.h"
#include "reverb/cc/checkpointing/checkpoint.pb.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/table.h"
namespace deepmind { namespace reverb {
// RegisterTable's error message names the table; nothing here registers one.
__attribute__((weak)) const std::string& Table::name() const { static std::string s; return s; }
}}
using namespace h;
using namespace deepmind::reverb;
struct Cfg { double spi; int64_t min_size; double lo, hi; };
static Cfg RandCfg(Rng& r) {
  static const double spis[] = {0, 0.125, 0.25, 0.5, 1, 1, 1.5, 2, 4, 32};
  static const double big = std::numeric_limits<double>::max();
  Cfg c; c.spi = spis[r.in(0, 9)]; c.min_size = r.in(1, r.p(0.3) ? 1 : 6);
  c.lo = r.p(0.15) ? -big : r.in(-24, 12) * 0.25; c.hi = r.p(0.15) ? big : c.lo + r.in(0, 40) * 0.25;
  if (c.lo == -big && c.hi != big) c.hi = r.in(-8, 40) * 0.25;
  return c;
}
struct M { Cfg c; int64_t ins = 0, smp = 0, del = 0; bool cancelled = false;
  bool can_sample(int n) { return ins - del >= c.min_size && (long double)ins * c.spi - smp - n >= c.lo; }
  bool can_insert(int n) { return ins + n - del <= c.min_size || (long double)(ins + n) * c.spi - smp <= c.hi; } };
static std::unique_ptr<RateLimiter> Make(M& m, Rng& r, absl::Mutex* mu) {
  m.c = RandCfg(r);
  T("config spi=%g min_size=%lld min_diff=%g max_diff=%g", m.c.spi, (long long)m.c.min_size, m.c.lo, m.c.hi);
  return std::unique_ptr<RateLimiter>(new RateLimiter(m.c.spi, m.c.min_size, m.c.lo, m.c.hi));
}
static void Same(RateLimiter* l, absl::Mutex* mu, M& m) {
  auto c = l->CheckpointReader(mu);
  EXPECT(c.insert_count() == m.ins && c.sample_count() == m.smp && c.delete_count() == m.del, "counters are %lld/%lld/%lld (inserts/samples/deletes), expected %lld/%lld/%lld",
         (long long)c.insert_count(), (long long)c.sample_count(), (long long)c.delete_count(), (long long)m.ins, (long long)m.smp, (long long)m.del);
  EXPECT(c.samples_per_insert() == m.c.spi && c.min_size_to_sample() == m.c.min_size && c.min_diff() == m.c.lo && c.max_diff() == m.c.hi, "configuration changed");
  for (int n = 1; n <= 3; n++) {
    EXPECT(l->CanInsert(mu, n) == m.can_insert(n), "CanInsert(%d) is %d at inserts=%lld samples=%lld deletes=%lld", n, l->CanInsert(mu, n), (long long)m.ins, (long long)m.smp, (long long)m.del);
    EXPECT(l->CanSample(mu, n) == m.can_sample(n), "CanSample(%d) is %d at inserts=%lld samples=%lld deletes=%lld", n, l->CanSample(mu, n), (long long)m.ins, (long long)m.smp, (long long)m.del);
  }
}
// a reset limiter is in its initial state: the history starts again
static void Trim() { std::lock_guard<std::mutex> l(g_mu); if (g_trace.size() > 2) g_trace.erase(g_trace.begin() + 1, g_trace.end() - 1); }
static void Sequential(Rng& r) {
  absl::Mutex mu; M m; auto l = Make(m, r, &mu);
  absl::MutexLock lock(&mu);
  int n = 8000;
  double a = r.d(), b = r.d(), c = r.d() * 0.6;
  for (int i = 0; i < n; i++) {
    double q = r.d() * (a + b + c + 0.25);
    if (q < a) {
      auto st = l->AwaitCanInsert(&mu, absl::ZeroDuration());
      T("AwaitCanInsert(0) -> %s", st.ToString().c_str());
      if (m.cancelled) EXPECT(st.code() == absl::StatusCode::kCancelled, "expected Cancelled");
      else if (m.can_insert(1)) { EXPECT(st.ok(), "an admitted insert was refused"); if (r.p(0.9)) { l->Insert(&mu); m.ins++; T("Insert"); } }
      else EXPECT(st.code() == absl::StatusCode::kDeadlineExceeded, "an insert that is not admitted was let through");
    } else if (q < a + b) {
      if (r.p(0.5)) {
        bool ok = l->MaybeCommitSample(&mu); T("MaybeCommitSample -> %d", ok);
        EXPECT(ok == m.can_sample(1), "MaybeCommitSample returned %d", ok);
        if (ok) m.smp++;
      } else {
        auto st = l->AwaitAndFinalizeSample(&mu, absl::ZeroDuration()); T("AwaitAndFinalizeSample(0) -> %s", st.ToString().c_str());
        if (m.cancelled) EXPECT(st.code() == absl::StatusCode::kCancelled, "expected Cancelled");
        else if (m.can_sample(1)) { EXPECT(st.ok(), "an admitted sample was refused"); m.smp++; }
        else EXPECT(st.code() == absl::StatusCode::kDeadlineExceeded, "a sample that is not admitted was let through");
      }
    } else if (q < a + b + c) { if (m.del < m.ins) { l->Delete(&mu); m.del++; T("Delete"); } }
    else if (q < a + b + c + 0.03) { l->Reset(&mu); m.ins = m.smp = m.del = 0; T("Reset"); Trim(); a = r.d(), b = r.d(), c = r.d() * 0.6; }
    else if (i > n - 30 && q < a + b + c + 0.04) { l->Cancel(&mu); m.cancelled = true; T("Cancel"); }
    else if (i % 3000 == 1500) {
      auto cp = l->CheckpointReader(&mu); l.reset(new RateLimiter(cp)); m.cancelled = false; T("checkpoint, restore");
    } else if (q < a + b + c + 0.15) {
      auto info = l->Info(&mu); EXPECT(info.samples_per_insert() == m.c.spi && info.min_diff() == m.c.lo && info.max_diff() == m.c.hi && info.min_size_to_sample() == m.c.min_size, "Info reports another configuration");
    }
    Same(l.get(), &mu, m);
  }
}
// Waiters: after every change of state no thread may stay blocked while its
// operation is admitted; nobody returns for another reason.
static void Waiters(Rng& r, bool restrict_ops) {
  absl::Mutex mu; M m; auto lp = Make(m, r, &mu); RateLimiter* l = lp.get();
  int ni = r.in(0, 4), ns = r.in(0, 4);
  std::vector<std::thread> th;
  int pi = 0, ps = 0;  // pending, guarded by mu
  std::string err;
  auto spawn_i = [&](absl::Duration d) { { absl::MutexLock k(&mu); pi++; } th.emplace_back([&, d] {
    absl::MutexLock k(&mu); auto st = l->AwaitCanInsert(&mu, d); pi--;
    if (st.ok()) { if (m.cancelled) err = "insert admitted after Cancel"; if (!m.can_insert(1)) err = "an insert was let through in a state that does not admit it"; m.ins++; l->Insert(&mu); T("waiter: insert admitted"); }
    else if (st.code() == absl::StatusCode::kCancelled) { if (!m.cancelled) err = "Cancelled without Cancel"; T("waiter: insert cancelled"); }
    else if (st.code() == absl::StatusCode::kDeadlineExceeded) { if (d == absl::InfiniteDuration()) err = "deadline error without a deadline"; T("waiter: insert timed out"); }
    else err = "unexpected status " + st.ToString(); }); };
  auto spawn_s = [&](absl::Duration d) { { absl::MutexLock k(&mu); ps++; } th.emplace_back([&, d] {
    absl::MutexLock k(&mu); auto st = l->AwaitAndFinalizeSample(&mu, d); ps--;
    if (st.ok()) { if (m.cancelled) err = "sample admitted after Cancel"; if (!m.can_sample(1)) err = "a sample was let through in a state that does not admit it"; m.smp++; T("waiter: sample admitted"); }
    else if (st.code() == absl::StatusCode::kCancelled) { if (!m.cancelled) err = "Cancelled without Cancel"; T("waiter: sample cancelled"); }
    else if (st.code() == absl::StatusCode::kDeadlineExceeded) { if (d == absl::InfiniteDuration()) err = "deadline error without a deadline"; T("waiter: sample timed out"); }
    else err = "unexpected status " + st.ToString(); }); };
  auto settle = [&](const char* what) {
    double end = Now() + 12; 
    while (true) {
      { absl::MutexLock k(&mu);
        if (!err.empty()) FailS(err);
        bool stuck = m.cancelled ? pi + ps > 0 : (pi > 0 && m.can_insert(1)) || (ps > 0 && m.can_sample(1));
        if (!stuck) {
          auto c = l->CheckpointReader(&mu);
          EXPECT(c.insert_count() == m.ins && c.sample_count() == m.smp && c.delete_count() == m.del, "counters differ from the operations admitted (%lld/%lld/%lld vs %lld/%lld/%lld)", (long long)c.insert_count(), (long long)c.sample_count(), (long long)c.delete_count(), (long long)m.ins, (long long)m.smp, (long long)m.del);
          return;
        }
        if (Now() > end) FailS(Fmt("after %s a waiting %s stays blocked although it is %s (inserts=%lld samples=%lld deletes=%lld)", what, pi > 0 && (m.cancelled || m.can_insert(1)) ? "insert" : "sample", m.cancelled ? "cancelled" : "admitted", (long long)m.ins, (long long)m.smp, (long long)m.del));
      }
      usleep(200);
    }
  };
  for (int i = 0; i < ni; i++) spawn_i(absl::InfiniteDuration());
  for (int i = 0; i < ns; i++) spawn_s(absl::InfiniteDuration());
  T("%d waiting inserts, %d waiting samples", ni, ns);
  settle("start");
  usleep(r.in(0, 2) * 300);
  int n = r.in(1, 150);
  for (int i = 0; i < n; i++) {
    double q = r.d(); const char* what;
    if (q < 0.3) { absl::MutexLock k(&mu); if (!m.can_insert(1)) continue; l->CreateInstantInsertEvent(&mu); m.ins++; l->Insert(&mu); what = "Insert"; T("Insert"); }
    else if (q < 0.55) { absl::MutexLock k(&mu); bool can = m.can_sample(1); bool ok = l->MaybeCommitSample(&mu); EXPECT(can == ok, "MaybeCommitSample returned %d", ok); if (ok) m.smp++; what = "MaybeCommitSample"; T("MaybeCommitSample -> %d", ok); }
    else if (q < 0.75) { absl::MutexLock k(&mu); if (m.del >= m.ins) continue; m.del++; l->Delete(&mu); what = "Delete"; T("Delete"); }
    else if (q < 0.82) { absl::MutexLock k(&mu); m.ins = m.smp = m.del = 0; l->Reset(&mu); what = "Reset"; T("Reset"); }
    else if (q < 0.9) { if (th.size() > 40) continue; spawn_i(absl::InfiniteDuration()); T("one more waiting insert"); what = "a new waiter"; }
    else { if (th.size() > 40) continue; spawn_s(absl::InfiniteDuration()); T("one more waiting sample"); what = "a new waiter"; }
    settle(what);
  }
  // deadline: not admitted and nobody changes the state
  { absl::MutexLock k(&mu);
    for (int t = 0; t < 2; t++) {
      bool ins = t == 0; bool can = ins ? m.can_insert(1) : m.can_sample(1);
      if (can || !r.p(0.7)) continue;
      auto d = absl::Milliseconds(r.in(0, 12)); auto s0 = absl::Now();
      int64_t i0 = m.ins, s00 = m.smp; double c0 = 0; (void)c0;
      auto st = ins ? l->AwaitCanInsert(&mu, d) : l->AwaitAndFinalizeSample(&mu, d);
      auto el = absl::Now() - s0; T("%s with deadline %lld ms -> %s", ins ? "AwaitCanInsert" : "AwaitAndFinalizeSample", (long long)absl::ToInt64Milliseconds(d), st.ToString().c_str());
      if (i0 == m.ins && s00 == m.smp) {
        EXPECT(st.code() == absl::StatusCode::kDeadlineExceeded, "expected a deadline error, got %s", st.ToString().c_str());
        EXPECT(el >= d - absl::Milliseconds(2), "deadline error after %lld us, timeout was %lld ms", (long long)absl::ToInt64Microseconds(el), (long long)absl::ToInt64Milliseconds(d));
        EXPECT(el < absl::Seconds(8), "deadline error far too late");
        auto c = l->CheckpointReader(&mu); EXPECT(c.insert_count() == m.ins && c.sample_count() == m.smp && c.delete_count() == m.del, "a timed out call changed a counter");
      }
    }
  }
  { absl::MutexLock k(&mu); m.cancelled = true; l->Cancel(&mu); T("Cancel"); }
  settle("Cancel");
  { absl::MutexLock k(&mu);
    EXPECT(l->AwaitCanInsert(&mu, absl::Seconds(1)).code() == absl::StatusCode::kCancelled, "insert after Cancel is not cancelled");
    EXPECT(l->AwaitAndFinalizeSample(&mu, absl::Seconds(1)).code() == absl::StatusCode::kCancelled, "sample after Cancel is not cancelled"); }
  for (auto& t : th) t.join();
}
void h::Run(const std::string& p) {
  if (p == "C01") { Trials("sequential", 0.75, 200000, Sequential); Trials("waiters", 0.25, 4000, [](Rng& r) { Waiters(r, false); }); }
  if (p == "C02") { Trials("waiters", 0.8, 20000, [](Rng& r) { Waiters(r, false); }); Trials("sequential", 0.2, 50000, Sequential); }
}
