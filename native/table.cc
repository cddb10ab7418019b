// C03-C07, C26: the table against a model of its contents.
#include "native/h.h"
#include <cfloat>
#include "absl/synchronization/notification.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/platform/tfrecord_checkpointer.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/support/task_executor.h"
#include "reverb/cc/table.h"
#include "reverb/cc/table_extensions/interface.h"
#include "tensorflow/core/platform/env.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
using CP = std::shared_ptr<ChunkStore::Chunk>;
using Item = Table::Item;
static const char* kSel[] = {"fifo", "lifo", "uniform", "min_heap", "max_heap", "prioritized"};
static std::shared_ptr<ItemSelector> MakeSel(int k) {
  switch (k) {
    case 0: return std::make_shared<FifoSelector>();
    case 1: return std::make_shared<LifoSelector>();
    case 2: return std::make_shared<UniformSelector>();
    case 3: return std::make_shared<HeapSelector>(true);
    case 4: return std::make_shared<HeapSelector>(false);
    default: return std::make_shared<PrioritizedSelector>(0.5);
  }
}
// forwards to a real selector, remembering what it was told and what it answered
struct Rec : ItemSelector {
  std::shared_ptr<ItemSelector> in; std::map<uint64_t, double> m; ItemSelector::KeyWithProbability last; long samples = 0;
  explicit Rec(int k) : in(MakeSel(k)) {}
  absl::Status Delete(Key k) override { auto s = in->Delete(k); if (s.ok()) m.erase(k); return s; }
  absl::Status Insert(Key k, double p) override { auto s = in->Insert(k, p); if (s.ok()) m[k] = p; return s; }
  absl::Status Update(Key k, double p) override { auto s = in->Update(k, p); if (s.ok()) m[k] = p; return s; }
  KeyWithProbability Sample() override { last = in->Sample(); samples++; return last; }
  void Clear() override { in->Clear(); m.clear(); }
  KeyDistributionOptions options() const override { return in->options(); }
  std::string DebugString() const override { return in->DebugString(); }
};
static ChunkStore& Store() { static auto* s = new ChunkStore(); return *s; }
static uint64_t g_chunk = 1;
static CP MakeChunk(uint64_t episode) {
  ChunkData d; d.set_chunk_key(g_chunk++); d.mutable_sequence_range()->set_episode_id(episode); d.mutable_sequence_range()->set_end(1);
  d.set_data_tensors_len(1); auto* t = d.mutable_data()->add_tensors(); t->set_dtype(tensorflow::DT_INT32); t->mutable_tensor_shape()->add_dim()->set_size(2);
  return std::make_shared<ChunkStore::Chunk>(d);
}
static Item MakeItem(uint64_t key, double prio, const std::vector<CP>& chunks, const std::string& table = "t") {
  Item it; it.item.set_key(key); it.item.set_priority(prio); it.item.set_table(table);
  auto* c = it.item.mutable_flat_trajectory()->add_columns();
  for (auto& x : chunks) { auto* s = c->add_chunk_slices(); s->set_chunk_key(x->key()); s->set_length(2); }
  it.chunks = chunks; return it;
}
struct M { double p; int n; std::vector<CP> ch; long order; };
struct Cfg { int s, r; int64_t max; int lim; double spi; int64_t min; double lo, hi; };
// observes the order in which the table applies operations
struct Ext : TableExtension {
  std::vector<uint64_t> ins; bool async; std::atomic<bool> hold{false}; std::atomic<int> seen{0};
  explicit Ext(bool a = false) : async(a) {}
  bool CanRunAsync() const override { return async; }
  std::string DebugString() const override { return "ext"; }
  void Slow() { seen++; while (hold) usleep(200); }
  void OnInsert(absl::Mutex*, const ExtensionItem& i) override { ins.push_back(i.ref->item.key()); Slow(); }
  void OnDelete(absl::Mutex*, const ExtensionItem&) override { Slow(); }
  void OnUpdate(absl::Mutex*, const ExtensionItem&) override { Slow(); }
  void OnSample(absl::Mutex*, const ExtensionItem&) override { Slow(); }
  void OnReset(absl::Mutex*) override {}
  absl::Status RegisterTable(absl::Mutex*, Table*) override { return absl::OkStatus(); }
  void UnregisterTable(absl::Mutex*, Table*) override {}
};
static bool Accepts(int k, double p) { return k != 5 || (p >= 0); }
struct Box {
  Cfg c; std::shared_ptr<Rec> s, r; std::shared_ptr<Table> t; bool worker = false;
  std::map<uint64_t, M> m; int64_t ins = 0, smp = 0, del = 0, uniq = 0, dele = 0; long order = 0;
  Box(Cfg c_, bool w, bool async_ext = false) : c(c_), s(std::make_shared<Rec>(c_.s)), r(std::make_shared<Rec>(c_.r)), worker(w) {
    std::vector<std::shared_ptr<TableExtension>> ex; if (async_ext) ex.push_back(std::make_shared<Ext>(true));
    t = std::make_shared<Table>("t", s, r, c.max, c.lim, std::make_shared<RateLimiter>(c.spi, c.min, c.lo, c.hi), ex);
    if (w) t->EnableTableWorker(std::make_shared<TaskExecutor>(1, "cb"));
  }
  std::string Desc() const { return h::Fmt("Table(sampler=%s, remover=%s, max_size=%d, max_times_sampled=%d, limiter(spi=%g, min_size=%d, min_diff=%g, max_diff=%g), worker=%d)", kSel[c.s], kSel[c.r], (int)c.max, c.lim, c.spi, (int)c.min, c.lo, c.hi, worker); }
  void Settle() { if (worker) { for (int i = 0; i < 200000 && !t->worker_is_sleeping(); i++) usleep(20); } }
  bool CanIns() const { double d = (ins + 1) * c.spi - smp; if (ins + 1 - del <= c.min) return true; return d <= c.hi; }
  bool CanSmp() const { if (ins - del < c.min) return false; double d = ins * c.spi - smp - 1; return d >= c.lo; }
  std::map<uint64_t, int> Eps() const { std::map<uint64_t, int> e; for (auto& x : m) for (auto& q : x.second.ch) e[q->episode_id()]++; return e; }
  void Remove(uint64_t k) { auto a = Eps().size(); m.erase(k); dele += a - Eps().size(); del++; }
  void Check() {
    Settle();
    auto items = t->Copy(); std::map<uint64_t, Item> got;
    for (auto& i : items) { EXPECT(!got.count(i.item.key()), "item %d is listed twice", (int)i.item.key()); got[i.item.key()] = i; }
    EXPECT((int64_t)items.size() <= c.max, "the table holds %d items, its capacity is %d", (int)items.size(), (int)c.max);
    EXPECT(t->size() == (int64_t)items.size(), "size() is %d with %d items stored", (int)t->size(), (int)items.size());
    EXPECT(items.size() == m.size(), "the table holds %d items, expected %d", (int)items.size(), (int)m.size());
    for (auto& x : m) {
      EXPECT(got.count(x.first), "item %d is missing", (int)x.first); auto& g = got[x.first];
      EXPECT(g.item.priority() == x.second.p, "item %d has priority %g, expected %g", (int)x.first, g.item.priority(), x.second.p);
      EXPECT(g.item.times_sampled() == x.second.n, "item %d was sampled %d times, the table says %d", (int)x.first, x.second.n, g.item.times_sampled());
      EXPECT(g.chunks == x.second.ch, "item %d has other chunks than inserted", (int)x.first);
    }
    for (auto* q : {s.get(), r.get()}) {
      const char* w = q == s.get() ? "sampler" : "remover";
      for (auto& x : q->m) { EXPECT(m.count(x.first), "the %s knows key %d which is not stored", w, (int)x.first); EXPECT(m[x.first].p == x.second, "the %s has priority %g for key %d, the item %g", w, x.second, (int)x.first, m[x.first].p); }
      for (auto& x : m) EXPECT(q->m.count(x.first), "the %s does not know the stored key %d", w, (int)x.first);
    }
    auto e = Eps();
    EXPECT(t->num_episodes() == (int64_t)e.size(), "num_episodes() is %d, stored items reference %d episodes", (int)t->num_episodes(), (int)e.size());
    EXPECT(t->num_deleted_episodes() == dele, "num_deleted_episodes() is %d, expected %d", (int)t->num_deleted_episodes(), (int)dele);
    auto inf = t->info();
    EXPECT(inf.current_size() == (int64_t)m.size() && inf.num_episodes() == (int64_t)e.size() && inf.num_deleted_episodes() == dele && inf.max_size() == c.max && inf.max_times_sampled() == c.lim, "info() does not agree with the table: %s", inf.ShortDebugString().c_str());
    EXPECT(inf.num_unique_samples() == uniq, "num_unique_samples is %d, expected %d", (int)inf.num_unique_samples(), (int)uniq);
    EXPECT(t->CanSample(1) == CanSmp(), "the limiter %s a sample after %d inserts, %d samples, %d deletes", t->CanSample(1) ? "admits" : "refuses", (int)ins, (int)smp, (int)del);
    EXPECT(t->CanInsert(1) == CanIns(), "the limiter %s an insert after %d inserts, %d samples, %d deletes", t->CanInsert(1) ? "admits" : "refuses", (int)ins, (int)smp, (int)del);
  }
  void Insert(Rng& g, uint64_t k, double p, const std::vector<CP>& ch) {
    bool okp = Accepts(c.s, p) && Accepts(c.r, p), had = m.count(k), can = CanIns();
    if (worker && !had && !can) return;            // would stay queued
    long rs = r->samples;
    auto st = t->InsertOrAssign(MakeItem(k, p, ch), worker ? absl::Seconds(60) : g.p(0.5) ? absl::ZeroDuration() : absl::Milliseconds(1)); Settle();
    T("InsertOrAssign(key %d, priority %g, %d chunks) -> %s", (int)k, p, (int)ch.size(), st.ok() ? "ok" : std::string(st.message()).substr(0, 60).c_str());
    if (!worker) {
      if (had) EXPECT(st.ok() == okp, "assigning priority %g to a stored key: %s", p, st.ToString().c_str());
      else if (!can) { EXPECT(absl::IsDeadlineExceeded(st), "insert while the limiter refuses: %s", st.ToString().c_str()); }
      else EXPECT(st.ok() == okp, "inserting priority %g: %s", p, st.ToString().c_str());
    }
    if (had) { EXPECT(r->samples == rs, "the remover was asked for a key although an existing item was assigned to"); if (okp) m[k].p = p; return; }
    if (!can || !okp) return;
    m[k] = M{p, 0, ch, order++}; 
    if ((int64_t)m.size() > c.max) {
      EXPECT(r->samples == rs + 1, "the remover was asked %d times for one insert into a full table", (int)(r->samples - rs));
      EXPECT(m.count(r->last.key), "the remover picked key %d which is not stored", (int)r->last.key);
      Remove(r->last.key);
    } else EXPECT(r->samples == rs, "the remover was asked although the table was not full");
    ins++;
  }
  void Sample(Rng& g, int n) {
    Settle();
    if (worker) { bool ok = CanSmp() && (c.lim == 0 || n <= 1); if (!ok) { if (!CanSmp()) return; n = 1; } for (int i = 0; i < n; i++) { smp += i; bool a = CanSmp(); smp -= i; if (!a) { n = i; break; } } if (n == 0) return; }
    std::vector<Table::SampledItem> out; bool can = CanSmp();
    auto st = t->SampleFlexibleBatch(&out, n, worker ? absl::Seconds(60) : absl::ZeroDuration()); Settle();
    std::string d; for (auto& x : out) d += h::Fmt(" %d(p=%g prio=%g n=%d size=%d)", (int)x.ref->item.key(), x.probability, x.priority, x.times_sampled, (int)x.table_size);
    T("SampleFlexibleBatch(%d) -> %s%s", n, st.ok() ? "ok" : "error", d.c_str());
    if (!can) { EXPECT(absl::IsDeadlineExceeded(st) && out.empty(), "sampling while the limiter refuses: %s", st.ToString().c_str()); return; }
    EXPECT(st.ok() && !out.empty() && (int)out.size() <= n, "a sample the limiter admits: %s, %d samples", st.ToString().c_str(), (int)out.size());
    for (auto& x : out) {
      EXPECT(CanSmp(), "more samples were returned than the limiter admits");
      uint64_t k = x.ref->item.key();
      EXPECT(m.count(k), "sample of key %d which is not stored", (int)k);
      auto& e = m[k]; e.n++; smp++; if (e.n == 1) uniq++;
      EXPECT(x.times_sampled == e.n, "sample %d of item %d carries the count %d", e.n, (int)k, x.times_sampled);
      EXPECT(x.priority == e.p, "the sample carries priority %g, the item has %g", x.priority, e.p);
      EXPECT(x.table_size == (int64_t)m.size(), "the sample carries table size %d, it is %d", (int)x.table_size, (int)m.size());
      if (out.size() == 1) EXPECT(x.probability == s->last.probability && k == s->last.key, "the sample is not what the sampler chose");
      if (c.s != 2 && c.s != 5) EXPECT(x.probability == 1.0, "probability %g for a deterministic sampler", x.probability);
      if (c.s == 2) EXPECT(std::abs(x.probability - 1.0 / m.size()) < 1e-9, "uniform sample with probability %g of %d items", x.probability, (int)m.size());
      EXPECT(c.lim == 0 || e.n <= c.lim, "item %d was returned %d times, the limit is %d", (int)k, e.n, c.lim);
      EXPECT(!x.rate_limited || worker, "a sample that did not wait is marked as rate limited");
      if (c.lim && e.n == c.lim) Remove(k);
    }
    if ((int)out.size() < n) EXPECT(!CanSmp(), "only %d of %d samples were returned although the limiter admits more", (int)out.size(), n);
  }
  void Mutate(Rng& g, const std::vector<std::pair<uint64_t, double>>& up, const std::vector<uint64_t>& de) {
    Settle();
    std::vector<KeyWithPriority> u; std::string d;
    for (auto& x : up) { KeyWithPriority q; q.set_key(x.first); q.set_priority(x.second); u.push_back(q); d += h::Fmt(" %d:=%g", (int)x.first, x.second); }
    for (auto k : de) d += h::Fmt(" -%d", (int)k);
    auto st = t->MutateItems(u, de); Settle();
    T("MutateItems(%s) -> %s", d.c_str(), st.ok() ? "ok" : "error");
    for (auto k : de) if (m.count(k)) Remove(k);
    bool ok = true;
    for (auto& x : up) if (m.count(x.first)) { if (!Accepts(c.s, x.second) || !Accepts(c.r, x.second)) { ok = false; break; } m[x.first].p = x.second; }
    EXPECT(st.ok() == ok, "MutateItems: %s", st.ToString().c_str());
  }
  void Reset() { Settle(); auto st = t->Reset(); Settle(); T("Reset"); EXPECT(st.ok(), "Reset: %s", st.ToString().c_str()); m.clear(); ins = smp = del = uniq = dele = 0; }
};
static std::vector<CP> Chunks(Rng& g, int eps, std::vector<CP>& pool) {
  std::vector<CP> out; int n = g.in(1, 3);
  for (int i = 0; i < n; i++) {
    CP c;
    if (!pool.empty() && g.p(0.5)) c = g.pick(pool); else { c = MakeChunk(g.in(1, eps)); pool.push_back(c); }
    if (std::find(out.begin(), out.end(), c) == out.end()) out.push_back(c);
  }
  return out;
}
static double Prio(Rng& g, bool bad) { int x = g.in(0, 9); if (x < 3) return g.in(0, 3); if (x < 8) return g.d() * 10; if (x == 8) return bad ? -1 - g.in(0, 2) : 0; return bad && g.p(0.3) ? std::nan("") : 1e6; }
static void Drive(Rng& g, Box& b, int steps, bool bad) {
  std::vector<CP> pool; int K = g.in(2, 9), E = g.in(1, 4);
  if (b.c.s == 3 || b.c.s == 4 || b.c.r == 3 || b.c.r == 4) bad = bad && b.c.s == 5;   // heaps are specified for non-NaN only
  for (int i = 0; i < steps; i++) {
    double p = Prio(g, bad); if (p != p && (b.c.s == 3 || b.c.s == 4 || b.c.r == 3 || b.c.r == 4 || !(b.c.s == 5 || b.c.r == 5))) p = -1;
    switch (g.in(0, 9)) {
      case 0: case 1: case 2: case 3: b.Insert(g, g.in(1, K), p, Chunks(g, E, pool)); break;
      case 4: case 5: case 6: b.Sample(g, g.in(1, 4)); break;
      case 7: case 8: {
        std::vector<std::pair<uint64_t, double>> up; std::vector<uint64_t> de;
        for (int j = g.in(0, 3); j > 0; j--) up.push_back({g.in(1, K + 1), Prio(g, bad && g.p(0.3))});
        for (auto& x : up) if (x.second != x.second) x.second = 1;
        if (g.p(0.4)) for (int j = g.in(0, 2); j > 0; j--) de.push_back(g.in(1, K + 1));
        b.Mutate(g, up, de); break;
      }
      default:
        if (g.p(0.15)) b.Reset();
        else { Item it; uint64_t k = g.in(1, K); bool f = b.t->Get(k, &it); T("Get(%d)", (int)k); b.Settle(); EXPECT(f == (b.m.count(k) > 0), "Get(%d) is %d", (int)k, f); if (f) EXPECT(it.item.key() == k && it.chunks == b.m[k].ch && it.item.priority() == b.m[k].p, "Get(%d) returned another item", (int)k); }
    }
    b.Check();
  }
}
static Cfg RandCfg(Rng& g, bool worker) {
  Cfg c; c.s = g.in(0, 5); c.r = g.p(0.4) ? 0 : g.in(0, 5); c.max = g.in(1, 6); c.lim = g.p(0.5) ? 0 : g.in(1, 3);
  if (worker || g.p(0.5)) { c.spi = 1; c.min = g.in(1, 2); if (c.min > c.max) c.min = c.max; c.lo = -DBL_MAX; c.hi = DBL_MAX; }
  else { c.spi = g.in(1, 4) / 2.0; c.min = g.in(1, 3); if (c.min > c.max) c.min = c.max; c.lo = -g.in(1, 6); c.hi = g.in(4, 12); if (c.hi - c.lo < 2 * std::max(1.0, c.spi)) c.hi = c.lo + 4 * std::max(1.0, c.spi); }
  return c;
}
static Box& Pooled(Rng& g, bool worker) {
  static std::vector<std::unique_ptr<Box>> pool[2]; auto& p = pool[worker];
  if (h::g_single || p.size() < 14) { p.push_back(std::make_unique<Box>(RandCfg(g, worker), worker, worker && g.p(0.5))); return *p.back(); }
  auto& b = *g.pick(p); return b;
}
static void Model(Rng& g) { Box& b = Pooled(g, false); T(b.Desc().c_str()); b.Reset(); b.Check(); Drive(g, b, g.in(5, 40), g.p(0.5)); }
static void Worker(Rng& g) { Box& b = Pooled(g, true); T(b.Desc().c_str()); b.Reset(); b.Check(); Drive(g, b, g.in(5, 25), g.p(0.3)); }
// several threads insert, sample and mutate; invariants at the end
static void Threads(Rng& g) {
  bool worker = g.p(0.5);
  Cfg c{(int)g.in(0, 5), (int)g.in(0, 5), g.in(1, 5), (int)g.in(0, 2), 1, 1, -DBL_MAX, DBL_MAX}; Box b(c, worker, worker && g.p(0.5)); T(b.Desc().c_str());
  int nt = g.in(2, 5); std::vector<std::thread> ts; std::vector<uint64_t> sd; for (int i = 0; i < nt; i++) sd.push_back(g.u64());
  T("%d threads insert, sample, update and delete", nt);
  std::mutex mu; std::map<uint64_t, CP> keep; std::atomic<long> got{0};
  for (int i = 0; i < nt; i++) ts.emplace_back([&, i] {
    Rng q(sd[i]);
    for (int j = 0; j < 60; j++) {
      uint64_t k = q.in(1, 8); double p = q.in(0, 3);
      switch (q.in(0, 4)) {
        case 0: case 1: { CP ch; { std::lock_guard<std::mutex> l(mu); ch = MakeChunk(q.in(1, 4)); } auto st = b.t->InsertOrAssign(MakeItem(k, p, {ch})); EXPECT(st.ok(), "insert: %s", st.ToString().c_str()); break; }
        case 2: case 3: { std::vector<Table::SampledItem> out; auto st = b.t->SampleFlexibleBatch(&out, worker ? 1 : q.in(1, 3), absl::Milliseconds(2)); EXPECT(st.ok() || absl::IsDeadlineExceeded(st), "sample: %s", st.ToString().c_str()); for (auto& x : out) EXPECT(c.lim == 0 || x.times_sampled <= c.lim, "count %d above the limit %d", x.times_sampled, c.lim); got += out.size(); break; }
        default: { KeyWithPriority u; u.set_key(k); u.set_priority(p); std::vector<uint64_t> de; if (q.p(0.5)) de.push_back(q.in(1, 8)); auto st = b.t->MutateItems({u}, de); EXPECT(st.ok(), "mutate: %s", st.ToString().c_str()); }
      }
    }
  });
  for (auto& t : ts) t.join();
  b.Settle();
  auto items = b.t->Copy(); EXPECT((int64_t)items.size() <= c.max, "%d items, capacity %d", (int)items.size(), (int)c.max);
  std::set<uint64_t> eps; std::map<uint64_t, double> pr; for (auto& x : items) { pr[x.item.key()] = x.item.priority(); for (auto& q : x.chunks) eps.insert(q->episode_id()); }
  EXPECT(pr.size() == items.size(), "a key is stored twice");
  EXPECT(b.s->m == pr, "the sampler does not know exactly the stored items"); EXPECT(b.r->m == pr, "the remover does not know exactly the stored items");
  EXPECT(b.t->num_episodes() == (int64_t)eps.size(), "%d episodes reported, %d referenced", (int)b.t->num_episodes(), (int)eps.size());
  auto cp = b.t->Checkpoint().checkpoint.rate_limiter();
  EXPECT(cp.insert_count() - cp.delete_count() == (int64_t)items.size(), "the limiter counts %d items, %d are stored", (int)(cp.insert_count() - cp.delete_count()), (int)items.size());
}
// an async extension that is slow fills the extension buffer
static void Buffer(Rng& g) {
  Cfg c{0, 0, 5, 0, 1, 1, -DBL_MAX, DBL_MAX}; c.max = g.in(1, 12); c.lim = g.in(0, 1); auto ext = std::make_shared<Ext>(true);
  std::shared_ptr<Rec> s = std::make_shared<Rec>(0), r = std::make_shared<Rec>(0);
  auto t = std::make_shared<Table>("t", s, r, c.max, c.lim, std::make_shared<RateLimiter>(1, 1, -DBL_MAX, DBL_MAX), std::vector<std::shared_ptr<TableExtension>>{ext});
  t->EnableTableWorker(std::make_shared<TaskExecutor>(1, "cb"));
  T("Table(fifo, fifo, max_size=%d, max_times_sampled=%d) with a slow asynchronous extension", (int)c.max, c.lim);
  CP ch = MakeChunk(1); int nt = g.in(1, 3);
  ext->hold = true;
  std::vector<std::thread> ts; std::atomic<bool> stop{false};
  for (int i = 0; i < 4 + g.in(0, 20); i++) { bool more; auto cb = std::make_shared<std::function<void(const absl::Status&)>>([](const absl::Status&) {}); EXPECT(t->InsertOrAssignAsync(MakeItem(100 + i, 1, {ch}), &more, cb).ok(), "insert"); }
  std::atomic<int> done{0};
  for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { for (int j = 0; j < 6; j++) { KeyWithPriority u; u.set_key(100 + j); u.set_priority(2 + j); EXPECT(t->MutateItems({u}, {(uint64_t)(100 + i + 3 * j)}).ok(), "mutate"); } done++; });
  if (c.lim) ts.emplace_back([&] { std::vector<Table::SampledItem> out; t->SampleFlexibleBatch(&out, 1, absl::Milliseconds(50)); });
  for (int i = 0; i < 40; i++) { EXPECT(t->size() <= c.max, "%d items visible, the capacity is %d", (int)t->size(), (int)c.max); auto inf = t->info(); EXPECT(inf.num_episodes() == (inf.current_size() ? 1 : 0), "%d episodes with %d items", (int)inf.num_episodes(), (int)inf.current_size()); usleep(300); }
  ext->hold = false;
  for (auto& x : ts) x.join();
  for (int i = 0; i < 20000 && !t->worker_is_sleeping(); i++) usleep(100);
  auto items = t->Copy(); std::map<uint64_t, double> pr; for (auto& x : items) pr[x.item.key()] = x.item.priority();
  EXPECT(items.size() <= (size_t)c.max, "%d items, capacity %d", (int)items.size(), (int)c.max);
  EXPECT(s->m == pr && r->m == pr, "the selectors do not know exactly the stored items");
  if (g.p(0.5)) { ext->hold = true; std::thread q([&] { usleep(20000); ext->hold = false; }); for (int i = 0; i < 10; i++) { bool more; auto cb = std::make_shared<std::function<void(const absl::Status&)>>([](const absl::Status&) {}); t->InsertOrAssignAsync(MakeItem(500 + i, 1, {ch}), &more, cb).IgnoreError(); } t->Close(); t = nullptr; q.join(); }
}
// ------------------------------------------------------------------ checkpoints
static std::string Bare(PrioritizedItem i) { return i.SerializeAsString(); }
static void Checkpoint(Rng& g) {
  static std::vector<std::unique_ptr<Box>> pool; Box* bp;
  if (h::g_single || pool.size() < 10) { Cfg c = RandCfg(g, false); c.max = g.in(2, 9); pool.push_back(std::make_unique<Box>(c, false)); bp = pool.back().get(); } else bp = g.pick(pool).get();
  Box& b = *bp; b.Reset(); T(b.Desc().c_str());
  Drive(g, b, g.in(5, 40), false);
  auto cp = b.t->Checkpoint(); auto& k = cp.checkpoint; T("Checkpoint");
  auto Order = [&](const PriorityTableCheckpoint& k) { std::vector<std::pair<long, uint64_t>> o; for (auto& x : b.m) o.push_back({x.second.order, x.first}); std::sort(o.begin(), o.end()); return o; };
  auto o = Order(k);
  EXPECT(k.items_size() == (int)o.size(), "the checkpoint lists %d of %d items", k.items_size(), (int)o.size());
  std::set<uint64_t> used;
  for (int i = 0; i < k.items_size(); i++) {
    EXPECT(k.items(i).key() == o[i].second, "item %d of the checkpoint has key %d, inserted as number %d was %d", i, (int)k.items(i).key(), i, (int)o[i].second);
    auto& e = b.m[k.items(i).key()];
    EXPECT(k.items(i).priority() == e.p && k.items(i).times_sampled() == e.n, "checkpointed priority or sample count differs");
    for (auto& q : e.ch) used.insert(q->key());
  }
  std::set<uint64_t> have; for (auto& q : cp.chunks) have.insert(q->key());
  EXPECT(have == used, "the checkpoint references %d chunks, its items use %d", (int)have.size(), (int)used.size());
  EXPECT(k.table_name() == "t" && k.max_size() == b.c.max && k.max_times_sampled() == b.c.lim && k.num_deleted_episodes() == b.dele && k.num_unique_samples() == b.uniq, "a limit or counter is not recorded");
  EXPECT(k.sampler().SerializeAsString() == b.s->options().SerializeAsString() && k.remover().SerializeAsString() == b.r->options().SerializeAsString(), "selector options are not recorded");
  auto& l = k.rate_limiter();
  EXPECT(l.samples_per_insert() == b.c.spi && l.min_diff() == b.c.lo && l.max_diff() == b.c.hi && l.min_size_to_sample() == b.c.min && l.insert_count() == b.ins && l.sample_count() == b.smp && l.delete_count() == b.del, "the limiter's state is not recorded");
  // restore
  char dir[] = "/tmp/verif_ckpt_XXXXXX"; EXPECT(mkdtemp(dir), "mkdtemp");
  {
    TFRecordCheckpointer w(dir, ""); std::string path; auto st = w.Save({b.t.get()}, 1, &path); EXPECT(st.ok(), "Save: %s", st.ToString().c_str());
    auto fresh = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 1, 0, std::make_shared<RateLimiter>(1, 1, -DBL_MAX, DBL_MAX));
    std::vector<std::shared_ptr<Table>> ts{fresh}; static auto* cs = new ChunkStore(); TFRecordCheckpointer rd(dir, "");
    st = rd.LoadLatest(cs, &ts); T("Save and LoadLatest"); EXPECT(st.ok(), "Load: %s", st.ToString().c_str());
    Table& t = *ts[0]; auto k2 = t.Checkpoint();
    EXPECT(k2.checkpoint.items_size() == k.items_size(), "restored %d of %d items", k2.checkpoint.items_size(), k.items_size());
    for (int i = 0; i < k.items_size(); i++) EXPECT(Bare(k2.checkpoint.items(i)) == Bare(k.items(i)), "restored item %d differs: %s / %s", i, k2.checkpoint.items(i).ShortDebugString().c_str(), k.items(i).ShortDebugString().c_str());
    k2.checkpoint.clear_items(); auto k1 = k; k1.clear_items();
    EXPECT(k2.checkpoint.SerializeAsString() == k1.SerializeAsString(), "restored settings differ: %s / %s", k2.checkpoint.ShortDebugString().c_str(), k1.ShortDebugString().c_str());
    auto i1 = b.t->info(), i2 = t.info();
    EXPECT(i1.num_episodes() == i2.num_episodes() && i1.num_deleted_episodes() == i2.num_deleted_episodes() && i1.current_size() == i2.current_size() && i1.num_unique_samples() == i2.num_unique_samples(), "restored counters differ");
    for (auto& x : t.Copy()) { auto& e = b.m[x.item.key()]; EXPECT(x.chunks.size() == e.ch.size(), "restored item with other chunks"); for (size_t j = 0; j < e.ch.size(); j++) EXPECT(x.chunks[j]->data().SerializeAsString() == e.ch[j]->data().SerializeAsString(), "restored chunk differs"); }
    for (int n = 1; n < 6; n++) EXPECT(t.CanInsert(n) == b.t->CanInsert(n) && t.CanSample(n) == b.t->CanSample(n), "the restored limiter decides differently for %d", n);
    // continue: eviction and sampling order of the restored table
    if (b.c.r <= 1 && !b.m.empty()) for (int n = 0; n < 12 && t.CanInsert(1) && !b.m.empty(); n++) {
      uint64_t key = 1000 + n; auto before = t.Copy(); auto st2 = t.InsertOrAssign(MakeItem(key, 1, {MakeChunk(9)}), absl::ZeroDuration()); EXPECT(st2.ok(), "insert into the restored table: %s", st2.ToString().c_str());
      if ((int64_t)before.size() < b.c.max) { b.m[key] = M{1, 0, {}, b.order++}; continue; }
      auto oo = Order(k); uint64_t victim = b.c.r == 0 ? oo.front().second : key; b.m[key] = M{1, 0, {}, b.order++}; b.m.erase(victim);
      std::set<uint64_t> now, exp; for (auto& x : t.Copy()) now.insert(x.item.key()); for (auto& x : b.m) exp.insert(x.first);
      EXPECT(now == exp, "the restored table did not evict key %d", (int)victim);
    }
  }
  tensorflow::int64 a, c; tensorflow::Env::Default()->DeleteRecursively(dir, &a, &c).IgnoreError();
  b.m.clear();
}
// ------------------------------------------------------------------ C26: requests to a table with a worker
static void Requests(Rng& g) {
  int64_t mx = g.in(3, 40); int lim = g.p(0.5) ? 0 : 1; bool tight = g.p(0.4);
  auto ext = std::make_shared<Ext>(false); bool useext = g.p(0.7);
  std::vector<std::shared_ptr<TableExtension>> exts; if (useext) exts.push_back(ext);
  auto t = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), mx, lim, tight ? std::make_shared<RateLimiter>(1, 1, -1, 4) : std::make_shared<RateLimiter>(1, 1, -DBL_MAX, DBL_MAX), exts);
  t->EnableTableWorker(std::make_shared<TaskExecutor>(1, "cb"));
  T("worker table(fifo, fifo, max_size=%d, max_times_sampled=%d, limiter %s), max enqueued inserts %d", (int)mx, lim, tight ? "spi 1, diff -1..4" : "min_size 1", t->max_enqueued_inserts());
  std::mutex mu; std::vector<int> answers; std::vector<int> count; struct Res { bool ok; absl::Status st; int n; }; std::map<int, Res> res; std::vector<std::shared_ptr<Table::SamplingCallback>> cbs; std::vector<int> want; std::vector<double> dl, born;
  std::vector<std::shared_ptr<std::function<void(const absl::Status&)>>> icb; std::vector<int> notified, expect; std::vector<uint64_t> keys; uint64_t next = 1;
  std::map<int, double> when;
  CP ch = MakeChunk(1); int ops = g.in(3, 40); icb.reserve(100); notified.assign(100, 0);
  for (int i = 0; i < ops; i++) {
    if (g.p(0.5)) {
      int n = g.in(1, 4), id = want.size(); double to = g.p(0.3) ? g.in(0, 30) * 1e-3 : 1000; 
      { std::lock_guard<std::mutex> l(mu); want.push_back(n); count.push_back(0); dl.push_back(to); born.push_back(h::Now()); }
      cbs.push_back(std::make_shared<Table::SamplingCallback>([&, id](Table::SampleRequest* r) { std::lock_guard<std::mutex> l(mu); count[id]++; answers.push_back(id); when[id] = h::Now(); res[id] = {r->status.ok(), r->status, (int)r->samples.size()}; }));
      t->EnqueSampleRequest(n, cbs.back(), absl::Seconds(to)); T("EnqueSampleRequest(#%d, %d samples, timeout %g s)", id, n, to);
    } else {
      bool more = true; int id = icb.size(); icb.push_back(std::make_shared<std::function<void(const absl::Status&)>>([&, id](const absl::Status&) { std::lock_guard<std::mutex> l(mu); notified[id]++; }));
      double bad = g.p(0.05); uint64_t key = next++; auto it = MakeItem(key, 1, {ch}); (void)bad;
      if (g.p(0.1)) { it.chunks.clear(); EXPECT(!t->InsertOrAssignAsync(it, &more, icb.back()).ok(), "an item without its chunks was accepted"); expect.push_back(0); continue; }
      EXPECT(t->InsertOrAssignAsync(it, &more, icb.back()).ok(), "InsertOrAssignAsync"); T("InsertOrAssignAsync(key %d) -> can_insert_more %d", (int)key, more); keys.push_back(key); expect.push_back(more ? 0 : 1);
    }
    if (g.p(0.2)) usleep(g.in(0, 3000));
  }
  if (g.p(0.3)) { usleep(35000); }
  bool reset = g.p(0.15); if (reset) { T("Reset"); EXPECT(t->Reset().ok(), "Reset"); }
  T("Close"); t->Close();
  double end = h::Now() + 20;
  while (h::Now() < end) { { std::lock_guard<std::mutex> l(mu); if (answers.size() >= want.size()) break; } usleep(500); }
  std::vector<uint64_t> applied;
  { std::lock_guard<std::mutex> l(mu); for (size_t i = 0; i < want.size(); i++) EXPECT(count[i] >= 1, "sample request #%d was not answered after closing the table", (int)i); }
  for (double e2 = h::Now() + 5; h::Now() < e2;) { bool all = true; { std::lock_guard<std::mutex> l(mu); for (size_t i = 0; i < expect.size(); i++) if (notified[i] < expect[i]) all = false; } if (all) break; usleep(500); }
  t = nullptr;                                   // joins the worker and runs what is still scheduled
  std::lock_guard<std::mutex> l(mu);
  for (size_t i = 0; i < want.size(); i++) {
    EXPECT(count[i] == 1, "sample request #%d was answered %d times", (int)i, count[i]);
    auto& r = res[i];
    if (r.ok) EXPECT(r.n == want[i] , "request #%d for %d samples was answered with %d", (int)i, want[i], r.n);
    else {
      EXPECT(r.n <= want[i], "request #%d for %d samples was answered with %d", (int)i, want[i], r.n);
      EXPECT(absl::IsCancelled(r.st) || absl::IsDeadlineExceeded(r.st), "request #%d: %s", (int)i, r.st.ToString().c_str());
      if (absl::IsDeadlineExceeded(r.st)) EXPECT(when[i] - born[i] >= dl[i] - 1e-3, "request #%d with timeout %g s reported a deadline error after %g s", (int)i, dl[i], when[i] - born[i]);
    }
  }
  int lastok = -1; for (int id : answers) if (res[id].ok) { EXPECT(id > lastok, "request #%d was served after #%d", id, lastok); lastok = id; }
  for (size_t i = 0; i < expect.size(); i++) EXPECT(notified[i] == expect[i], "insert #%d: told the queue is full %d times, notified %d times", (int)i, expect[i], notified[i]);
  if (useext) { size_t j = 0; for (auto k : ext->ins) { while (j < keys.size() && keys[j] != k) j++; EXPECT(j < keys.size(), "inserts were not applied in order, or one twice: key %d", (int)k); j++; } if (!tight && !reset) { size_t n = ext->ins.size(); for (size_t i = 0; i < n; i++) EXPECT(ext->ins[i] == keys[i], "insert of key %d was skipped", (int)keys[i]); } }
}
// every queued insert is applied, each once and in order, and every served request has its samples
static void Flow(Rng& g) {
  int64_t mx = g.in(2, 60); auto ext = std::make_shared<Ext>(false); bool prio = g.p(0.3);
  std::shared_ptr<ItemSelector> smp; if (prio) smp = std::make_shared<PrioritizedSelector>(1.0); else smp = std::make_shared<FifoSelector>();
  auto t = std::make_shared<Table>("t", smp, std::make_shared<FifoSelector>(), mx, 0, std::make_shared<RateLimiter>(1, 1, -DBL_MAX, DBL_MAX), std::vector<std::shared_ptr<TableExtension>>{ext});
  t->EnableTableWorker(std::make_shared<TaskExecutor>(2, "cb")); CP ch = MakeChunk(1);
  int np = g.in(1, 3), per = g.in(1, 30); T("worker table(max_size=%d): %d threads queue %d inserts each, waiting when the queue is full%s", (int)mx, np, per, prio ? ", some with a priority the sampler rejects" : "");
  std::vector<std::thread> ts; std::vector<uint64_t> sd; for (int i = 0; i < np; i++) sd.push_back(g.u64());
  std::atomic<int> bad{0};
  for (int i = 0; i < np; i++) ts.emplace_back([&, i] {
    Rng q(sd[i]);
    for (int j = 0; j < per; j++) {
      bool more = true; std::mutex m2; std::condition_variable cv; int n = 0;
      auto cb = std::make_shared<std::function<void(const absl::Status&)>>([&](const absl::Status&) { std::lock_guard<std::mutex> l(m2); n++; cv.notify_all(); });
      bool rej = prio && q.p(0.2); if (rej) bad++;
      EXPECT(t->InsertOrAssignAsync(MakeItem(1000 * i + j + 1, rej ? -1 : 1, {ch}), &more, cb).ok(), "InsertOrAssignAsync");
      if (!more) { std::unique_lock<std::mutex> l(m2); EXPECT(cv.wait_for(l, std::chrono::seconds(20), [&] { return n > 0; }), "a writer told that the queue is full was never notified"); }
      if (q.p(0.3)) { std::vector<Table::SampledItem> out; auto st = t->SampleFlexibleBatch(&out, q.in(1, 3), absl::Seconds(20)); if (!prio) EXPECT(st.ok() && !out.empty(), "sample: %s", st.ToString().c_str()); }
    }
  });
  for (auto& x : ts) x.join();
  for (int i = 0; i < 20000 && (int)(ext->seen) < np * per - bad; i++) usleep(200);
  for (int i = 0; i < 20000 && !t->worker_is_sleeping(); i++) usleep(100);
  std::map<int, uint64_t> last; std::set<uint64_t> once; int napp = 0;
  { t->Close(); }
  t = nullptr;
  for (auto k : ext->ins) { napp++; EXPECT(once.insert(k).second, "insert of key %d was applied twice", (int)k); int p = (k - 1) / 1000; EXPECT(k > last[p], "inserts of one writer were applied out of order"); last[p] = k; }
  EXPECT(napp == np * per - bad, "%d of %d queued inserts were applied", napp, np * per - (int)bad);
}
void h::Run(const std::string& p) {
  (void)Store();
  if (p == "C07") { Trials("checkpoint", 1.0, 1000000, Checkpoint); return; }
  if (p == "C26") { Trials("requests", 0.5, 1000000, Requests, 60); Trials("flow", 0.3, 1000000, Flow, 120); Trials("buffer", 0.2, 1000000, Buffer, 60); return; }
  Trials("model", 0.5, 1000000, Model); Trials("worker", 0.25, 1000000, Worker); Trials("threads", 0.13, 1000000, Threads, 60); Trials("buffer", 0.12, 1000000, Buffer, 60);
}
