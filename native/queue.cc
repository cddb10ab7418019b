// C13: the bounded and the unbounded queue against a sequential model, and
// producers/consumers on threads.
#include "native/h.h"
#include "reverb/cc/support/queue.h"
#include "reverb/cc/support/unbounded_queue.h"
using deepmind::reverb::internal::Queue;
using deepmind::reverb::internal::UnboundedQueue;
using h::Rng; using h::T;

static void SeqBounded(Rng& r) {
  int cap = r.in(1, 6); Queue<uint64_t> q(cap); std::deque<uint64_t> m; bool closed = false, last = false; uint64_t next = 1; int pushes = 0;
  T("Queue(capacity %d)", cap);
  for (int i = 0; i < 60; i++) {
    switch (r.in(0, 6)) {
      case 0: case 1: {
        if (!closed && !last && (int)m.size() == cap) break;  // would block
        bool ok = q.Push(next); T("Push(%d) -> %d", (int)next, (int)ok);
        EXPECT(ok == !(closed || last), "push on %s queue returned %d", closed ? "closed" : last ? "completed" : "open", (int)ok);
        if (ok) { m.push_back(next); pushes++; }
        next++; break;
      }
      case 2: {
        if (!closed && m.empty()) break;
        uint64_t x = 0; bool ok = q.Pop(&x); T("Pop -> %d %d", (int)ok, (int)x);
        EXPECT(ok == !closed, "pop returned %d on a %s queue", (int)ok, closed ? "closed" : "open");
        if (ok) { EXPECT(x == m.front(), "pop returned %d instead of %d", (int)x, (int)m.front()); m.pop_front(); if (last && m.empty()) closed = true; }
        break;
      }
      case 3: {
        int k = r.in(0, cap + 2); std::vector<uint64_t> out{77};
        bool wait = r.p(0.2);
        if (!wait || k > cap || closed || last || (int)m.size() >= k) {
          auto s = q.PopBatch(k, wait ? absl::InfiniteDuration() : absl::ZeroDuration(), &out); T("PopBatch(%d) -> %d, %d items", k, (int)s.code(), (int)out.size() - 1);
          int want = k > cap ? 3 : closed ? 1 : (int)m.size() >= k ? 0 : last ? 8 : 4;
          EXPECT((int)s.code() == want, "PopBatch(%d) of %d buffered items returned status %d, expected %d", k, (int)m.size(), (int)s.code(), want);
          EXPECT(out[0] == 77 && (int)out.size() == 1 + (want == 0 ? k : 0), "PopBatch returned the wrong number of items");
          if (want == 0) for (int j = 0; j < k; j++) { EXPECT(out[1 + j] == m.front(), "PopBatch item %d is %d, expected %d", j, (int)out[1 + j], (int)m.front()); m.pop_front(); }
          if (want == 0 && last && m.empty()) closed = true;
        }
        break;
      }
      case 4: if (r.p(0.1)) { q.SetLastItemPushed(); T("SetLastItemPushed"); last = true; if (m.empty()) closed = true; } break;
      case 5: if (r.p(0.04)) { q.Close(); T("Close"); closed = true; } break;
      default: EXPECT(q.size() == (int)m.size(), "size() is %d with %d buffered", q.size(), (int)m.size()); EXPECT(q.num_pushes() == pushes, "num_pushes() is %d, %d were accepted", q.num_pushes(), pushes);
               EXPECT(q.num_waiting_to_pop() == 0 && q.num_waiting_to_push() == 0, "waiting counts without waiters");
    }
  }
}
static void SeqUnbounded(Rng& r) {
  UnboundedQueue<uint64_t> q; std::deque<uint64_t> m; bool closed = false, last = false; uint64_t next = 1;
  for (int i = 0; i < 60; i++) {
    switch (r.in(0, 5)) {
      case 0: case 1: { bool ok = q.Push(next); T("Push(%d) -> %d", (int)next, (int)ok); EXPECT(ok == !(closed || last), "push returned %d", (int)ok); if (ok) m.push_back(next); next++; break; }
      case 2: {
        if (!closed && m.empty()) break;
        uint64_t x = 0; bool ok = q.Pop(&x); T("Pop -> %d %d", (int)ok, (int)x);
        EXPECT(ok == !closed, "pop returned %d on a %s queue", (int)ok, closed ? "closed" : "open");
        if (ok) { EXPECT(x == m.front(), "pop returned %d instead of %d", (int)x, (int)m.front()); m.pop_front(); if (last && m.empty()) closed = true; }
        break;
      }
      case 3: if (r.p(0.1)) { q.SetLastItemPushed(); T("SetLastItemPushed"); last = true; if (m.empty()) closed = true; } break;
      case 4: if (r.p(0.04)) { q.Close(); T("Close"); closed = true; } break;
      default: EXPECT(q.size() == (int)m.size(), "size() is %d with %d buffered", q.size(), (int)m.size());
    }
  }
}
template <class Q> static void Threads(Rng& r, Q& q, int cap) {
  int np = r.in(1, 3), nc = r.in(1, 3), per = r.in(1, 60); bool close = r.p(0.3);
  T("threads: %d producers of %d items, %d consumers, %s", np, per, nc, close ? "closed midway" : "announced end");
  std::vector<std::vector<uint64_t>> got(nc), acc(np); std::vector<std::thread> ps, cs;
  std::atomic<int> over{0};
  for (int c = 0; c < nc; c++) cs.emplace_back([&, c] { uint64_t x; while (q.Pop(&x)) { got[c].push_back(x); if (cap && q.size() > cap) over++; } });
  for (int p = 0; p < np; p++) ps.emplace_back([&, p] { for (int i = 0; i < per; i++) { uint64_t v = p * 1000 + i; if (q.Push(v)) acc[p].push_back(v); } });
  if (close) { std::this_thread::sleep_for(std::chrono::microseconds(r.in(0, 300))); q.Close(); }
  for (auto& t : ps) t.join();
  if (!close) q.SetLastItemPushed();
  for (auto& t : cs) t.join();
  EXPECT(over == 0, "more items buffered than the capacity");
  std::multiset<uint64_t> a, g; for (auto& v : acc) a.insert(v.begin(), v.end()); for (auto& v : got) g.insert(v.begin(), v.end());
  if (!close) EXPECT(a == g, "%d items accepted, %d delivered", (int)a.size(), (int)g.size());
  for (auto x : g) EXPECT(g.count(x) == 1 && a.count(x) == 1, "item %d delivered %d times, accepted %d times", (int)x, (int)g.count(x), (int)a.count(x));
  for (auto& v : got) for (int p = 0; p < np; p++) { int64_t l = -1; for (auto x : v) if ((int)x / 1000 == p) { EXPECT((int64_t)x > l, "items of one producer were delivered out of order"); l = x; } }
}
void h::Run(const std::string&) {
  Trials("bounded", 0.35, 1000000, SeqBounded);
  Trials("unbounded", 0.15, 1000000, SeqUnbounded);
  Trials("threads_bounded", 0.3, 1000000, [](Rng& r) { int cap = r.in(1, 4); Queue<uint64_t> q(cap); Threads(r, q, cap); }, 20);
  Trials("threads_unbounded", 0.2, 1000000, [](Rng& r) { UnboundedQueue<uint64_t> q; Threads(r, q, 0); }, 20);
}
