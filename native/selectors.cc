// C08-C11: item selectors against list / map models.
#include "native/h.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/heap.h"
#include "reverb/cc/selectors/lifo.h"
#include "reverb/cc/selectors/prioritized.h"
#include "reverb/cc/selectors/uniform.h"
using namespace h;
using namespace deepmind::reverb;
typedef uint64_t Key;
static bool Inv(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }
struct Model {
  std::vector<Key> order;                // insertion order
  std::map<Key, std::pair<double, uint64_t>> pr;  // priority, time of last set
  uint64_t t = 0;
  bool has(Key k) { return pr.count(k); }
  void ins(Key k, double p) { order.push_back(k); pr[k] = {p, t++}; }
  void del(Key k) { order.erase(std::find(order.begin(), order.end(), k)); pr.erase(k); }
  void clear() { order.clear(); pr.clear(); }
};
enum Kind { kFifo, kLifo, kUniform, kMin, kMax, kPrio };
static void CheckSample(ItemSelector* s, Model& m, Kind kind, double expo, const char* when) {
  if (m.pr.empty()) return;
  auto r = s->Sample();
  T("Sample -> key %llu probability %.17g (%s)", (unsigned long long)r.key, r.probability, when);
  EXPECT(m.has(r.key), "sampled key %llu is not present", (unsigned long long)r.key);
  size_t n = m.pr.size();
  if (kind == kFifo) EXPECT(r.key == m.order.front(), "FIFO returned key %llu, oldest is %llu", (unsigned long long)r.key, (unsigned long long)m.order.front());
  if (kind == kLifo) EXPECT(r.key == m.order.back(), "LIFO returned key %llu, newest is %llu", (unsigned long long)r.key, (unsigned long long)m.order.back());
  if (kind == kFifo || kind == kLifo || kind == kMin || kind == kMax) EXPECT(r.probability == 1.0, "probability %g is not one", r.probability);
  if (kind == kUniform) EXPECT(r.probability == 1.0 / n, "probability %.17g, expected 1/%zu", r.probability, n);
  if (kind == kMin || kind == kMax) {
    Key best = 0; bool first = true;
    for (auto& e : m.pr) {
      if (first) { best = e.first; first = false; continue; }
      auto& b = m.pr[best];
      double pe = kind == kMin ? e.second.first : -e.second.first, pb = kind == kMin ? b.first : -b.first;
      if (pe < pb || (pe == pb && e.second.second < b.second)) best = e.first;
    }
    EXPECT(r.key == best, "heap returned key %llu (priority %g), expected key %llu (priority %g)", (unsigned long long)r.key, m.pr[r.key].first, (unsigned long long)best, m.pr[best].first);
  }
  if (kind == kPrio) {
    double tot = 0; bool pos = false;
    for (auto& e : m.pr) { double w = e.second.first == 0 ? 0 : std::pow(e.second.first, expo); tot += w; pos |= w > 0; }
    double w = m.pr[r.key].first == 0 ? 0 : std::pow(m.pr[r.key].first, expo);
    double want = pos ? w / tot : 1.0 / n;
    EXPECT(std::abs(r.probability - want) <= 1e-6 * std::max(1e-3, want), "probability %.12g, expected %.12g (weight %g of %g, %zu keys)", r.probability, want, w, tot, n);
    if (pos) EXPECT(w > 0, "key %llu of zero weight returned while a positive weight exists", (unsigned long long)r.key);
  }
}
static void Frequencies(ItemSelector* s, Model& m, Kind kind, double expo, int draws) {
  // observed frequencies have to match the reported distribution (8 sigma)
  std::map<Key, long> cnt;
  for (int i = 0; i < draws; i++) cnt[s->Sample().key]++;
  double tot = 0; for (auto& e : m.pr) tot += e.second.first == 0 ? 0 : std::pow(e.second.first, expo);
  for (auto& e : m.pr) {
    double p = kind == kUniform || tot == 0 ? 1.0 / m.pr.size() : (e.second.first == 0 ? 0 : std::pow(e.second.first, expo)) / tot;
    double mean = p * draws, sd = std::sqrt(draws * p * (1 - p)) + 1;
    EXPECT(std::abs(cnt[e.first] - mean) <= 8 * sd, "key %llu drawn %ld times in %d, expected about %.1f", (unsigned long long)e.first, cnt[e.first], draws, mean);
  }
}
static double Prio(Rng& r, Kind kind, double expo) {
  // weights that are exact in binary: rounding is outside the property
  static const double sq[] = {0, 0.25, 1, 4, 16};
  if (kind == kPrio && expo == 0.5) return sq[r.in(0, 4)];
  static const double grid[] = {0, 0.25, 0.5, 1, 1, 2, 2, 3, 4, 8, 16};
  double p = grid[r.in(0, 10)];
  if (kind == kMin || kind == kMax) { if (r.p(0.4)) p = -p; if (r.p(0.02)) p = std::numeric_limits<double>::infinity(); if (r.p(0.02)) p = -std::numeric_limits<double>::infinity(); if (r.p(0.1)) p = r.d() * 100; }
  return p;
}
static void Trial(Rng& r, Kind kind) {
  static const double expos[] = {1, 0, 0.5, 2, 1};
  double expo = expos[r.in(0, 4)];
  std::unique_ptr<ItemSelector> s;
  switch (kind) {
    case kFifo: s.reset(new FifoSelector); break;
    case kLifo: s.reset(new LifoSelector); break;
    case kUniform: s.reset(new UniformSelector); break;
    case kMin: s.reset(new HeapSelector(true)); break;
    case kMax: s.reset(new HeapSelector(false)); break;
    case kPrio: s.reset(new PrioritizedSelector(expo)); T("exponent %g", expo); break;
  }
  auto o = s->options();
  EXPECT(o.fifo() == (kind == kFifo) && o.lifo() == (kind == kLifo) && o.uniform() == (kind == kUniform) && o.has_heap() == (kind == kMin || kind == kMax) && o.has_prioritized() == (kind == kPrio), "options() name another distribution");
  EXPECT(o.is_deterministic() == (kind != kUniform && kind != kPrio), "options().is_deterministic is wrong");
  if (o.has_heap()) EXPECT(o.heap().min_heap() == (kind == kMin), "options().heap.min_heap is wrong");
  if (o.has_prioritized()) EXPECT(o.prioritized().priority_exponent() == expo, "options().prioritized.priority_exponent is wrong");
  Model m;
  int nops = r.in(1, r.p(0.2) ? 400 : 60);
  int range = r.in(1, r.p(0.2) ? 200 : 12);
  double pins = 0.2 + 0.6 * r.d();
  Key off = r.p(0.2) ? ~0ull - 300 : r.p(0.5) ? 0 : 1000;
  for (int i = 0; i < nops; i++) {
    Key k = off + r.in(0, range);
    double q = r.d();
    if (q < pins * 0.6) {
      double p = Prio(r, kind, expo);
      if (kind == kPrio && r.p(0.08)) p = r.p(0.5) ? -1.0 : NAN;
      bool bad = kind == kPrio && (std::isnan(p) || p < 0);
      auto st = s->Insert(k, p);
      T("Insert(%llu, %g) -> %s", (unsigned long long)k, p, st.ToString().c_str());
      if (bad || m.has(k)) EXPECT(Inv(st), "insert of a present key or invalid priority was not rejected as invalid argument");
      else { EXPECT(st.ok(), "insert of a new key failed"); m.ins(k, p); }
    } else if (q < 0.62) {
      auto st = s->Delete(k);
      T("Delete(%llu) -> %s", (unsigned long long)k, st.ToString().c_str());
      if (m.has(k)) { EXPECT(st.ok(), "delete of a present key failed"); m.del(k); }
      else EXPECT(Inv(st), "delete of an absent key was not rejected as invalid argument");
    } else if (q < 0.80) {
      double p = Prio(r, kind, expo);
      if (kind == kPrio && r.p(0.08)) p = r.p(0.5) ? -1.0 : NAN;
      bool bad = kind == kPrio && (std::isnan(p) || p < 0);
      auto st = s->Update(k, p);
      T("Update(%llu, %g) -> %s", (unsigned long long)k, p, st.ToString().c_str());
      if (bad || !m.has(k)) EXPECT(Inv(st), "update of an absent key or invalid priority was not rejected as invalid argument");
      else { EXPECT(st.ok(), "update of a present key failed"); m.pr[k] = {p, m.t++}; }
    } else if (q < 0.815) {
      s->Clear(); T("Clear()"); m.clear();
    } else { CheckSample(s.get(), m, kind, expo, "during history"); }
    if (r.p(0.3)) CheckSample(s.get(), m, kind, expo, "after operation");
  }
  if (!m.pr.empty() && (kind == kUniform || kind == kPrio) && r.p(0.15)) Frequencies(s.get(), m, kind, expo, 3000);
  // drain: every key has to be reachable and removable
  while (!m.pr.empty()) {
    CheckSample(s.get(), m, kind, expo, "drain");
    Key k = r.p(0.5) ? m.order[r.in(0, m.order.size() - 1)] : m.order.front();
    auto st = s->Delete(k); T("Delete(%llu) -> %s", (unsigned long long)k, st.ToString().c_str());
    EXPECT(st.ok(), "delete of a present key failed"); m.del(k);
  }
  auto st = s->Delete(off); EXPECT(Inv(st), "delete from an empty selector was not rejected");
}
static void BigPrio(Rng& r) {  // growth beyond the preallocated tree
  PrioritizedSelector s(1.0);
  const int N = 140000; double tot = 0;
  for (int i = 0; i < N; i++) { EXPECT(s.Insert(i, 1 + (i % 4)).ok(), "insert failed"); tot += 1 + i % 4; }
  T("insert keys 0..%d with priority 1 + key %% 4", N - 1);
  for (int i = 0; i < 2000; i++) { auto x = s.Sample(); EXPECT(x.key < N && std::abs(x.probability - (1 + x.key % 4) / tot) < 1e-9, "key %llu probability %g", (unsigned long long)x.key, x.probability); }
  for (int i = 0; i < N; i += 2) { EXPECT(s.Delete(i).ok(), "delete failed"); tot -= 1 + i % 4; }
  T("delete even keys");
  for (int i = 0; i < 2000; i++) { auto x = s.Sample(); EXPECT(x.key < N && x.key % 2 == 1 && std::abs(x.probability - (1 + x.key % 4) / tot) < 1e-9, "key %llu probability %g", (unsigned long long)x.key, x.probability); }
  s.Clear(); T("Clear()"); EXPECT(s.Insert(7, 2).ok(), "insert after clear failed"); auto x = s.Sample(); EXPECT(x.key == 7 && x.probability == 1, "after clear");
}
void h::Run(const std::string& p) {
  if (p == "C08") { Trials("fifo", 0.5, 100000, [](Rng& r) { Trial(r, kFifo); }); Trials("lifo", 0.5, 100000, [](Rng& r) { Trial(r, kLifo); }); }
  if (p == "C09") Trials("uniform", 1, 100000, [](Rng& r) { Trial(r, kUniform); });
  if (p == "C10") { Trials("minheap", 0.5, 100000, [](Rng& r) { Trial(r, kMin); }); Trials("maxheap", 0.5, 100000, [](Rng& r) { Trial(r, kMax); }); }
  if (p == "C11") { Trials("prioritized", 0.8, 100000, [](Rng& r) { Trial(r, kPrio); }); Trials("prioritized-growth", 0.2, 1, BigPrio); }
}
