// C15: chunks hold exactly the appended steps.  C24: chunking options.
#include "native/h.h"
#include "reverb/cc/chunker.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_util.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
static tf::Tensor Val(Rng& r, tf::DataType dt, const tf::TensorShape& sh) {
  tf::Tensor t(dt, sh);
  if (dt == tf::DT_STRING) { auto f = t.flat<tf::tstring>(); for (int i = 0; i < f.size(); i++) f(i) = std::string(r.in(0, 4), (char)r.in(1, 255)); return t; }
  auto* p = (unsigned char*)t.tensor_data().data(); for (size_t i = 0; i < t.tensor_data().size(); i++) p[i] = dt == tf::DT_BOOL ? r.in(0, 1) : dt == tf::DT_FLOAT ? 0 : r.u64();
  if (dt == tf::DT_FLOAT) for (int i = 0; i < t.NumElements(); i++) t.flat<float>()(i) = r.in(-1000, 1000) / 8.0f;
  return t;
}
static bool Same(const tf::Tensor& a, const tf::Tensor& b) {
  if (a.dtype() != b.dtype() || a.shape() != b.shape()) return false;
  if (a.dtype() == tf::DT_STRING) { auto x = a.flat<tf::tstring>(), y = b.flat<tf::tstring>(); for (int i = 0; i < x.size(); i++) if (x(i) != y(i)) return false; return true; }
  return a.tensor_data() == b.tensor_data();
}
struct Step { std::shared_ptr<CellRef> ref; tf::Tensor v; uint64_t ep; int step; int group, off; };
static void Steps(Rng& r) {
  static std::vector<tf::DataType> types{tf::DT_INT32, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_STRING, tf::DT_BOOL};
  tf::DataType dt = r.pick(types); tf::TensorShape sh; for (int i = r.in(0, 2); i > 0; i--) sh.AddDim(r.p(0.05) ? 0 : r.in(1, 3));
  int mx = r.in(1, 5), keep = mx + r.in(0, 6); bool delta = r.p(0.5); bool tuned = r.p(0.2);
  std::shared_ptr<ChunkerOptions> opt; if (tuned) opt = std::make_shared<AutoTunedChunkerOptions>(keep, 1.0, delta); else opt = std::make_shared<ConstantChunkerOptions>(mx, keep, delta);
  auto ck = std::make_shared<Chunker>(internal::TensorSpec{"x", dt, sh}, opt);
  T("chunker %s %s max %d keep %d delta %d tuned %d", tf::DataTypeString(dt).c_str(), sh.DebugString().c_str(), mx, keep, delta, tuned);
  std::vector<Step> all, active; int buffered = 0, group = 0; uint64_t ep = 7; int step = 0; size_t nops = r.in(5, 60);
  std::map<int, int> cap; std::map<int, bool> gdelta;
  auto flushed = [&] { if (buffered) { gdelta[group] = delta; group++; buffered = 0; } };
  auto check = [&](const char* when) {
    // every reference still kept by the chunker or by us can be read
    std::vector<uint64_t> want; for (auto& s : active) if (want.empty() || want.back() != s.ref->chunk_key()) want.push_back(s.ref->chunk_key());
    EXPECT(ck->GetKeepKeys() == want, "%s: keys to keep differ from the keys of the %d newest references", when, (int)active.size());
    std::map<int, std::vector<Step*>> by; for (auto& s : all) by[s.group].push_back(&s);
    for (auto& s : all) {
      bool built = s.group < group; EXPECT(s.ref->IsReady() == built, "%s: step %d of episode %d: chunk built %d, expected %d", when, s.step, (int)s.ep, s.ref->IsReady(), built);
      EXPECT(s.ref->episode_id() == s.ep && s.ref->episode_step() == s.step, "%s: episode of a reference", when);
      EXPECT(s.ref->offset() == s.off, "%s: offset of step %d is %d, expected %d", when, s.step, s.ref->offset(), s.off);
      tf::Tensor out; auto st = s.ref->GetData(&out); EXPECT(st.ok(), "%s: reading step %d failed: %s", when, s.step, st.ToString().c_str());
      EXPECT(Same(out, s.v), "%s: reading step %d of episode %d gives another value", when, s.step, (int)s.ep);
    }
    for (auto& kv : by) if (kv.first < group) {
      auto& ss = kv.second; const ChunkData& d = *ss[0]->ref->GetChunk()->get(); tf::Tensor col; EXPECT(internal::UnpackChunkColumn(d, 0, &col).ok(), "%s: unpacking", when);
      EXPECT(d.data().tensors_size() == 1 && d.data_tensors_len() == 1, "%s: columns of the chunk", when);
      EXPECT(col.dim_size(0) <= cap[kv.first], "%s: chunk of %d steps, configured %d", when, (int)col.dim_size(0), cap[kv.first]);
      EXPECT(d.delta_encoded() == gdelta[kv.first], "%s: delta encoding flag", when);
      bool sparse = false;
      for (size_t i = 0; i < ss.size(); i++) {
        EXPECT(ss[i]->ref->GetChunk() == ss[0]->ref->GetChunk() && d.chunk_key() == ss[i]->ref->chunk_key(), "%s: chunk of a reference", when);
        EXPECT(ss[i]->off < col.dim_size(0), "%s: offset", when); tf::Tensor row = col.SubSlice(ss[i]->off); tf::Tensor x = row.IsAligned() ? row : tf::tensor::DeepCopy(row); EXPECT(Same(x, ss[i]->v), "%s: row %d of the chunk is not step %d", when, ss[i]->off, ss[i]->step);
        if (i && ss[i]->step != ss[i - 1]->step + 1) sparse = true;
      }
      EXPECT((int)ss.size() == col.dim_size(0), "%s: chunk has %d rows for %d steps", when, (int)col.dim_size(0), (int)ss.size());
      EXPECT(d.sequence_range().episode_id() == ss[0]->ep && d.sequence_range().start() == ss[0]->step && d.sequence_range().end() == ss.back()->step, "%s: recorded range of the chunk", when);
      EXPECT(d.sequence_range().sparse() == sparse, "%s: sparse flag %d, expected %d", when, d.sequence_range().sparse(), sparse);
    }
  };
  for (size_t q = 0; q < nops; q++) {
    int op = r.in(0, 19);
    if (op < 13) {
      bool badtype = r.p(0.04), badshape = r.p(0.04), neg = r.p(0.05), newep = r.p(0.07);
      tf::TensorShape s2 = sh; if (badshape) s2.AddDim(2);
      tf::Tensor v = Val(r, badtype ? (dt == tf::DT_INT32 ? tf::DT_INT64 : tf::DT_INT32) : dt, s2);
      CellRef::EpisodeInfo e{newep ? ep + 1 : ep, neg ? step - (int)r.in(0, 2) : step + (int)(r.p(0.2) ? r.in(2, 4) : 1)};
      T("append episode %d step %d%s%s", (int)e.episode_id, e.step, badtype ? " (wrong type)" : "", badshape ? " (wrong shape)" : "");
      std::weak_ptr<CellRef> w; auto st = ck->Append(v, e, &w);
      bool order = buffered > 0 && (e.episode_id != ep || e.step <= step);
      if (badtype || badshape) { EXPECT(absl::IsInvalidArgument(st), "a value that does not fit was not refused: %s", st.ToString().c_str()); check("after a refused append"); continue; }
      if (order) { EXPECT(absl::IsFailedPrecondition(st), "a step out of order was not refused: %s", st.ToString().c_str()); check("after a refused append"); continue; }
      EXPECT(st.ok(), "append failed: %s", st.ToString().c_str()); auto ref = w.lock(); EXPECT(ref != nullptr, "the returned reference does not exist");
      ep = e.episode_id; step = e.step; int limit = tuned ? opt->GetMaxChunkLength() : mx; cap[group] = tuned ? keep : mx;
      all.push_back({ref, v, ep, step, group, buffered}); active.push_back(all.back()); buffered++;
      if (buffered >= limit) flushed();
      while ((int)active.size() > keep) active.erase(active.begin());
    } else if (op < 15) { T("flush"); EXPECT(ck->Flush().ok(), "flush failed"); flushed(); }
    else if (op == 15 && r.p(0.4)) { T("reset"); ck->Reset(); for (size_t i = 0; i < all.size();) if (all[i].group == group) all.erase(all.begin() + i); else i++; active.clear(); if (buffered) { buffered = 0; group++; gdelta[group - 1] = delta; } ep += 1; step = 0; }
    else if (op == 16 && !tuned) {
      int m2 = r.in(0, 5), k2 = r.in(0, 8); bool d2 = r.p(0.5); T("configure max %d keep %d delta %d", m2, k2, d2); auto o2 = std::make_shared<ConstantChunkerOptions>(m2, k2, d2);
      auto st = ck->ApplyConfig(o2); bool ok = m2 >= 1 && k2 >= m2;
      EXPECT(ValidateChunkerOptions(o2.get()).ok() == ok, "options max %d keep %d accepted: %d", m2, k2, !ok);
      if (buffered) EXPECT(absl::IsFailedPrecondition(st), "configuration while steps are buffered: %s", st.ToString().c_str());
      else EXPECT(st.ok() == ok, "configuration max %d keep %d: %s", m2, k2, st.ToString().c_str());
      if (st.ok()) { mx = m2; keep = k2; delta = d2; while ((int)active.size() > keep) active.erase(active.begin()); }
    } else if (op == 17) { if (all.size() > 12) { T("drop old references"); for (size_t i = 0; i + 12 < all.size();) { int g = all[i].group; bool last = false; for (size_t j = i; j < all.size() && all[j].group == g; j++) last |= all[j].group == group; if (last) break; while (i < all.size() && all[i].group == g) all.erase(all.begin() + i); break; } } }
    else if (tuned) {
      std::vector<std::shared_ptr<CellRef>> refs; int n = r.in(1, 6); for (auto it = all.rbegin(); it != all.rend() && (int)refs.size() < n; ++it) if (it->group < group) refs.insert(refs.begin(), it->ref);
      if (!refs.empty()) { int times = r.in(1, 12); T("%d items of %d references finalized", times, (int)refs.size()); for (int i = 0; i < times; i++) ck->OnItemFinalized(PrioritizedItem(), refs); }
      int m = opt->GetMaxChunkLength(); EXPECT(1 <= m && m <= keep, "tuned chunk length %d with window %d", m, keep);
    }
    if (r.p(0.5) || q + 1 == nops) check("after the operation");
  }
}
static void Options(Rng& r) {
  for (int q = 0; q < 30; q++) {
    int m = r.in(-2, 12), k = r.in(-2, 12); bool d = r.p(0.5); T("constant options max %d keep %d delta %d", m, k, d);
    if (r.p(0.05)) { m = r.p(0.5) ? INT32_MAX : INT32_MIN; } if (r.p(0.05)) k = r.p(0.5) ? INT32_MAX : INT32_MIN;
    ConstantChunkerOptions c(m, k, d); auto cc = c.Clone();
    for (ChunkerOptions* o : {(ChunkerOptions*)&c, cc.get()}) {
      EXPECT(o->GetMaxChunkLength() == m && o->GetNumKeepAliveRefs() == k && o->GetDeltaEncode() == d, "settings %d %d %d of constant options%s", m, k, d, o == &c ? "" : " (copy)");
      auto st = ValidateChunkerOptions(o); EXPECT(st.ok() == (m >= 1 && k >= m), "options max %d keep %d: %s", m, k, st.ToString().c_str()); EXPECT(st.ok() || absl::IsInvalidArgument(st), "status of refused options");
    }
    int k2 = r.in(-1, 10); T("tuned options keep %d delta %d", k2, d); AutoTunedChunkerOptions a(k2, 0.5, d); auto ac = a.Clone();
    for (ChunkerOptions* o : {(ChunkerOptions*)&a, ac.get()}) {
      EXPECT(o->GetNumKeepAliveRefs() == k2 && o->GetDeltaEncode() == d, "settings of tuned options%s", o == &a ? "" : " (copy)");
      EXPECT(ValidateChunkerOptions(o).ok() == (k2 >= 1), "tuned options keep %d", k2); if (k2 >= 1) EXPECT(o->GetMaxChunkLength() >= 1 && o->GetMaxChunkLength() <= k2, "tuned length out of range");
    }
    EXPECT(dynamic_cast<AutoTunedChunkerOptions*>(ac.get()) != nullptr && dynamic_cast<ConstantChunkerOptions*>(cc.get()) != nullptr, "kind of a copy");
  }
}
// automatic tuning never leaves its range, whatever items are finalized
static void Tuning(Rng& r) {
  int keep = r.in(1, 6); auto opt = std::make_shared<AutoTunedChunkerOptions>(keep, r.d() * 4, false); T("tuned options keep %d", keep);
  auto ck = std::make_shared<Chunker>(internal::TensorSpec{"x", tf::DT_INT32, tf::TensorShape({})}, opt); std::vector<std::shared_ptr<CellRef>> refs; int step = 0;
  for (int q = r.in(20, 120); q > 0; q--) {
    int n = r.in(1, 8); T("append %d, finalize", n);
    for (int i = 0; i < n; i++) { std::weak_ptr<CellRef> w; EXPECT(ck->Append(Val(r, tf::DT_INT32, {}), {1, ++step}, &w).ok(), "append"); refs.push_back(w.lock()); }
    if (r.p(0.7)) EXPECT(ck->Flush().ok(), "flush");
    std::vector<std::shared_ptr<CellRef>> ready; for (auto& x : refs) if (x->IsReady()) ready.push_back(x);
    if (ready.size() > 20) ready.erase(ready.begin(), ready.end() - r.in(1, 20)); if (ready.empty()) continue;
    opt->OnItemFinalized(PrioritizedItem(), ready); int m = opt->GetMaxChunkLength(); EXPECT(1 <= m && m <= keep, "tuned chunk length %d with window %d", m, keep);
    if (refs.size() > 40) refs.erase(refs.begin(), refs.begin() + 20);
  }
}
void h::Run(const std::string& prop) {
  if (prop == "C24") { Trials("options", 0.3, 2000, Options); Trials("tuning", 0.7, 100000, Tuning); }
  else Trials("steps", 1.0, 200000, Steps);
}
