// C12: the chunk store against a model of live holders.
#include "native/h.h"
#include "reverb/cc/chunk_store.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
using SP = std::shared_ptr<ChunkStore::Chunk>;
static ChunkData Data(uint64_t k, int tag) { ChunkData d; d.set_chunk_key(k); d.mutable_sequence_range()->set_episode_id(tag); d.mutable_sequence_range()->set_end(tag % 7); return d; }
// stores are expensive to create: reuse them with fresh keys
static uint64_t g_base = 0;
static ChunkStore& Store(int batch) { static std::map<int, ChunkStore*> m; auto& p = m[batch]; if (!p) p = new ChunkStore(batch); g_base += 10; return *p; }
static void Seq(Rng& r) {
  static std::vector<int> sizes{1, 1, 2, 3, 1000};
  int batch = r.pick(sizes);
  ChunkStore& cs = Store(batch); const uint64_t B = g_base; T("ChunkStore(cleanup_batch_size %d)", batch);
  std::map<uint64_t, std::vector<SP>> held; std::map<uint64_t, int> tag; int next = 1;
  int K = r.in(1, 5);
  for (int i = 0; i < 60; i++) {
    uint64_t k = r.in(1, K);
    switch (r.in(0, 4)) {
      case 0: case 1: {
        int t = next++; SP p = cs.Insert(Data(B + k, t)); T("Insert(key %d, version %d)", (int)k, t);
        EXPECT(p != nullptr, "Insert returned null");
        if (!held[k].empty()) EXPECT(p == held[k][0], "Insert of a live key returned a second chunk");
        else { EXPECT((int)p->episode_id() == t, "Insert of a dead key returned version %d instead of %d", (int)p->episode_id(), t); tag[k] = t; }
        EXPECT(p->key() == B + k, "chunk has key %d", (int)p->key());
        held[k].push_back(p); break;
      }
      case 2: if (!held[k].empty()) { held[k].pop_back(); T("release a holder of %d", (int)k); if (r.p(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.in(0, 200))); } break;
      default: {
        std::vector<uint64_t> ks, bs; int n = r.in(0, 4); bool live = true; std::string s;
        for (int j = 0; j < n; j++) { ks.push_back(r.in(1, K + (r.p(0.1) ? 1 : 0))); if (held[ks.back()].empty()) live = false; s += " " + std::to_string(ks.back()); bs.push_back(B + ks.back()); }
        std::vector<SP> out{nullptr};
        auto st = cs.Get(bs, &out); T("Get(%s) -> %s", s.c_str(), st.ok() ? "ok" : "error");
        EXPECT(st.ok() == live, "Get(%s) is %s but the chunks are %s", s.c_str(), st.ok() ? "ok" : "an error", live ? "all live" : "not all live");
        if (!live) EXPECT(st.code() == tensorflow::error::NOT_FOUND, "wrong error code %d", (int)st.code());
        if (live) { EXPECT(out.size() == ks.size(), "Get returned %d chunks for %d keys", (int)out.size(), n); for (int j = 0; j < n; j++) EXPECT(out[j] == held[ks[j]][0], "Get returned the wrong chunk at %d", j); }
      }
    }
  }
}
static void Threads(Rng& r) {
  int batch = r.in(1, 3); ChunkStore& cs = Store(batch); const uint64_t B = g_base; int nt = r.in(2, 5), K = r.in(1, 3);
  T("threads: %d threads insert, hold, fetch and release %d keys, cleanup batch %d", nt, K, batch);
  std::vector<std::thread> ts; std::vector<uint64_t> seeds; for (int t = 0; t < nt; t++) seeds.push_back(r.u64());
  for (int t = 0; t < nt; t++) ts.emplace_back([&, t] {
    Rng q(seeds[t]);
    for (int i = 0; i < 40; i++) {
      uint64_t k = B + q.in(1, K);
      SP p = cs.Insert(Data(k, 1)); EXPECT(p && p->key() == k, "Insert returned a wrong chunk");
      if (q.p(0.3)) std::this_thread::yield();
      std::vector<SP> out; std::vector<uint64_t> ks{k};
      auto st = cs.Get(ks, &out);
      EXPECT(st.ok() && out.size() == 1 && out[0] == p, "a chunk held by the caller (key %d) could not be fetched", (int)k);
      SP p2 = cs.Insert(Data(k, 2)); EXPECT(p2 == p, "a second chunk was created for a live key");
      out.clear();
    }
  });
  for (auto& t : ts) t.join();
}
void h::Run(const std::string&) {
  Trials("sequence", 0.6, 1000000, Seq);
  Trials("threads", 0.4, 1000000, Threads);
}
