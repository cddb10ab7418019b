// C20: sampled data is unpacked into exactly the steps the item describes.
#include "native/h.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/table.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/tensor_compression.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_util.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
static tf::Tensor Val(Rng& r, tf::DataType dt, const tf::TensorShape& sh) {
  tf::Tensor t(dt, sh);
  if (dt == tf::DT_STRING) { auto f = t.flat<tf::tstring>(); for (int i = 0; i < f.size(); i++) f(i) = std::string(r.in(0, 4), (char)r.in(1, 255)); return t; }
  if (dt == tf::DT_FLOAT) { for (int i = 0; i < t.NumElements(); i++) t.flat<float>()(i) = r.in(-1000, 1000) / 8.0f; return t; }
  auto* p = (unsigned char*)t.tensor_data().data(); for (size_t i = 0; i < t.tensor_data().size(); i++) p[i] = r.u64(); return t;
}
static bool Same(const tf::Tensor& a, const tf::Tensor& b) {
  if (a.dtype() != b.dtype() || a.shape() != b.shape()) return false;
  if (a.dtype() == tf::DT_STRING) { auto x = a.flat<tf::tstring>(), y = b.flat<tf::tstring>(); for (int i = 0; i < x.size(); i++) if (x(i) != y(i)) return false; return true; }
  return a.tensor_data() == b.tensor_data();
}
static tf::Tensor Row(const tf::Tensor& t, int i) { return tf::tensor::DeepCopy(t.SubSlice(i)); }
static tf::Tensor Cut(const tf::Tensor& t, int i, int j) { return tf::tensor::DeepCopy(t.Slice(i, j)); }
static std::vector<tf::DataType> types{tf::DT_INT32, tf::DT_INT64, tf::DT_UINT8, tf::DT_FLOAT, tf::DT_STRING};
struct Col { tf::Tensor whole; std::vector<int> cuts; bool squeeze = false; };     // cuts: lengths of the slices
static std::vector<Col> Columns(Rng& r, bool* uniform) {
  std::vector<Col> out; int n = r.in(1, 4), N = r.in(1, 9); *uniform = r.p(0.75); bool same_cuts = r.p(0.2);
  for (int c = 0; c < n; c++) {
    Col k; int len = *uniform ? N : r.in(1, 6); tf::TensorShape sh; sh.AddDim(len); for (int i = r.in(0, 2); i > 0; i--) sh.AddDim(r.in(1, 3)); k.whole = Val(r, r.pick(types), sh);
    if (same_cuts && c && *uniform) k.cuts = out[0].cuts; else for (int left = len; left > 0;) { int m = r.in(1, left); k.cuts.push_back(m); left -= m; }
    k.squeeze = len == 1 ? r.p(0.4) : r.p(0.02); out.push_back(k);
  }
  *uniform = true; for (auto& k : out) if (k.whole.dim_size(0) != out[0].whole.dim_size(0)) *uniform = false;
  return out;
}
static std::string Show(const std::vector<Col>& cs) { std::string s; for (auto& c : cs) { s += c.squeeze ? " squeezed(" : " ("; for (int x : c.cuts) s += " " + std::to_string(x); s += " )"; } return s; }
template <typename X> static X Sc(const tf::Tensor& t) { return t.scalar<X>()(); }
static void Meta(const std::vector<tf::Tensor>& d, int rows, const char* what) {     // key 7, probability .25, table size 11, priority 3.5
  for (int k = 0; k < 4; k++) EXPECT(rows < 0 ? d[k].dims() == 0 : d[k].dims() == 1 && d[k].dim_size(0) == rows, "%s: shape of metadata %d", what, k);
  for (int i = 0; i < std::max(rows, 1); i++) { EXPECT(d[0].flat<tf::uint64>()(i) == 7, "%s: key", what); EXPECT(d[1].flat<double>()(i) == 0.25, "%s: probability", what); EXPECT(d[2].flat<tf::int64>()(i) == 11, "%s: table size", what); EXPECT(d[3].flat<double>()(i) == 3.5, "%s: priority", what); }
}
static void Whole(Rng& r, const std::vector<Col>& cs, bool uniform, const std::function<absl::Status(std::vector<tf::Tensor>*)>& trajectory, const char* what) {
  std::vector<tf::Tensor> d; auto st = trajectory(&d); bool bad = false; for (auto& c : cs) if (c.squeeze && c.whole.dim_size(0) != 1) bad = true;
  EXPECT(st.ok() == !bad, "%s: status %s", what, st.ToString().c_str()); if (bad) return;
  EXPECT(d.size() == cs.size() + 4, "%s: %d tensors", what, (int)d.size());
  for (size_t c = 0; c < cs.size(); c++) EXPECT(Same(d[c + 4], cs[c].squeeze ? Row(cs[c].whole, 0) : cs[c].whole), "%s: column %d differs (shape %s)", what, (int)c, d[c + 4].shape().DebugString().c_str());
}
static std::unique_ptr<Sample> Make(const std::vector<Col>& cs) {
  std::vector<std::vector<tf::Tensor>> ch; std::vector<bool> sq;
  for (auto& c : cs) { std::vector<tf::Tensor> v; int at = 0; for (int m : c.cuts) { v.push_back(Cut(c.whole, at, at + m)); at += m; } ch.push_back(v); sq.push_back(c.squeeze); }
  return std::make_unique<Sample>(7, 0.25, 11, 3.5, true, ch, sq);
}
static void Steps(Rng& r) {
  bool uniform; auto cs = Columns(r, &uniform); T("sample with column slices%s", Show(cs).c_str()); int N = cs[0].whole.dim_size(0);
  { auto s = Make(cs); EXPECT(s->is_composed_of_timesteps() == uniform, "composed of timesteps is %d, expected %d", !uniform, uniform); EXPECT(!s->is_end_of_sample() && s->rate_limited(), "new sample"); Whole(r, cs, uniform, [&](auto* d) { return s->AsTrajectory(d); }, "AsTrajectory"); }
  { auto s = Make(cs); std::vector<tf::Tensor> d; auto st = s->AsBatchedTimesteps(&d); EXPECT(st.ok() == uniform, "AsBatchedTimesteps: %s", st.ToString().c_str());
    if (uniform) { EXPECT(d.size() == cs.size() + 4, "tensors"); Meta(d, N, "AsBatchedTimesteps"); for (size_t c = 0; c < cs.size(); c++) EXPECT(Same(d[c + 4], cs[c].whole), "AsBatchedTimesteps: column %d differs", (int)c); } }
  if (!uniform) return;
  auto s = Make(cs); int stop = r.in(1, N);
  for (int i = 0; i < stop; i++) {
    T("read step %d", i); EXPECT(!s->is_end_of_sample(), "end of sample reported after %d of %d steps", i, N); EXPECT(s->is_composed_of_timesteps(), "after %d steps the sample is no longer seen as composed of timesteps", i);
    auto d = s->GetNextTimestep(); EXPECT(d.size() == cs.size() + 4, "step %d: %d tensors", i, (int)d.size()); Meta(d, -1, "GetNextTimestep");
    for (size_t c = 0; c < cs.size(); c++) EXPECT(Same(d[c + 4], Row(cs[c].whole, i)), "step %d of column %d differs from the trajectory's row", i, (int)c);
    std::vector<tf::Tensor> x; EXPECT(!s->AsTrajectory(&x).ok() && !s->AsBatchedTimesteps(&x).ok(), "a partly read sample was returned as a whole");
  }
  EXPECT(s->is_end_of_sample() == (stop == N), "end of sample is %d after %d of %d steps", s->is_end_of_sample(), stop, N);
}
// chunks, items, a table and a local sampler
static ChunkData Chunk(Rng& r, uint64_t key, const tf::Tensor& col, int extra_before, bool delta) {
  ChunkData c; c.set_chunk_key(key); c.set_delta_encoded(delta); c.mutable_sequence_range()->set_episode_id(1); c.mutable_sequence_range()->set_start(0); c.mutable_sequence_range()->set_end(col.dim_size(0) - 1);
  for (int i = 0; i <= extra_before; i++) { tf::Tensor t = i == extra_before ? col : Val(r, tf::DT_INT32, {col.dim_size(0)}); CompressTensorAsProto(delta ? DeltaEncode(t, true) : t, c.mutable_data()->add_tensors()); }
  c.set_data_tensors_len(c.data().tensors_size()); return c;
}
static void Slices(Rng& r) {
  int rows = r.in(1, 8); tf::TensorShape sh; sh.AddDim(rows); for (int i = r.in(0, 2); i > 0; i--) sh.AddDim(r.in(0, 3)); auto t = Val(r, r.pick(types), sh); int col = r.in(0, 2); bool delta = r.p(0.5); auto c = Chunk(r, 5, t, col, delta);
  auto wild = [&](int lo, int hi) { return r.p(0.05) ? (r.p(0.5) ? INT32_MAX - (int)r.in(0, 3) : INT32_MIN + (int)r.in(0, 3)) : (int)r.in(lo, hi); };
  int k = r.p(0.7) ? col : wild(-1, col + 2), off = wild(-1, rows), len = r.p(0.5) ? wild(-1, rows + 1) : r.in(0, rows); T("chunk of %s rows %d columns %d delta %d: column %d offset %d length %d", tf::DataTypeString(t.dtype()).c_str(), rows, col + 1, delta, k, off, len);
  tf::Tensor out; auto st = internal::UnpackChunkColumn(c, k, &out); bool has = k >= 0 && k <= col; EXPECT(st.ok() == has, "UnpackChunkColumn: %s", st.ToString().c_str()); if (has && k == col) EXPECT(Same(out, t), "UnpackChunkColumn: another value");
  FlatTrajectory::ChunkSlice s; s.set_chunk_key(5); s.set_index(k); s.set_offset(off); s.set_length(len); tf::Tensor o2; st = internal::UnpackChunkColumnAndSlice(c, s, &o2); bool in = has && off >= 0 && len >= 0 && (int64_t)off + len <= rows;
  EXPECT(st.ok() == in, "slice: status %s, expected %s", st.ToString().c_str(), in ? "OK" : "an error"); if (in && k == col) EXPECT(Same(o2, Cut(t, off, off + len)), "slice: other rows");
}
static void Items(Rng& r) {
  bool uniform; auto cs = Columns(r, &uniform); int N = cs[0].whole.dim_size(0);
  Table::Item item; item.item.set_key(3); item.item.set_priority(1); item.item.set_table("t"); uint64_t key = 100; std::vector<std::shared_ptr<ChunkStore::Chunk>> chunks;
  for (auto& c : cs) {
    auto* col = item.item.mutable_flat_trajectory()->add_columns(); col->set_squeeze(c.squeeze); int at = 0;
    for (int m : c.cuts) {      // each slice lies somewhere inside of its own chunk
      tf::TensorShape sh = c.whole.shape(); int pre = r.in(0, 2), post = r.in(0, 2); sh.set_dim(0, pre + m + post); auto t = Val(r, c.whole.dtype(), sh); std::vector<tf::Tensor> parts; if (pre) parts.push_back(Cut(t, 0, pre)); parts.push_back(Cut(c.whole, at, at + m)); if (post) parts.push_back(Cut(t, 0, post));
      tf::Tensor full; TF_CHECK_OK(tf::tensor::Concat(parts, &full)); int extra = r.in(0, 2); at += m; chunks.push_back(std::make_shared<ChunkStore::Chunk>(Chunk(r, ++key, full, extra, r.p(0.5))));
      auto* s = col->add_chunk_slices(); s->set_chunk_key(key); s->set_offset(pre); s->set_length(m); s->set_index(extra);
    }
  }
  T("item with column slices%s", Show(cs).c_str());
  item.chunks = chunks;
  auto table = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 10, 0, std::make_shared<RateLimiter>(1, 1, -1e9, 1e9)); EXPECT(table->InsertOrAssign(item).ok(), "insert");
  Sampler::Options o; o.max_samples = 3; o.num_workers = 1; o.max_in_flight_samples_per_worker = 1;
  Sampler s(table, o); std::vector<tf::Tensor> d; bool lim, end;
  Whole(r, cs, uniform, [&](auto* d) { return s.GetNextTrajectory(d, &lim); }, "GetNextTrajectory"); for (auto& c : cs) if (c.squeeze && c.whole.dim_size(0) != 1) { s.Close(); return; }
  if (uniform) {
    for (int i = 0; i < N; i++) { auto st = s.GetNextTimestep(&d, &end, &lim); EXPECT(st.ok(), "GetNextTimestep %d: %s", i, st.ToString().c_str()); EXPECT(end == (i == N - 1), "end of sequence is %d at step %d of %d", end, i, N); for (size_t c = 0; c < cs.size(); c++) EXPECT(Same(d[c + 4], Row(cs[c].whole, i)), "step %d of column %d differs", i, (int)c); }
    EXPECT(s.GetNextSample(&d, &lim).ok(), "GetNextSample"); for (size_t c = 0; c < cs.size(); c++) EXPECT(Same(d[c + 4], cs[c].whole), "GetNextSample: column %d differs", (int)c);
    EXPECT(absl::IsOutOfRange(s.GetNextTrajectory(&d, &lim)), "more samples than configured");
  } else EXPECT(!s.GetNextTimestep(&d, &end, &lim).ok(), "columns of different lengths were read step by step");
  s.Close();
}
void h::Run(const std::string&) { Trials("steps", 0.45, 10000000, Steps); Trials("slices", 0.25, 10000000, Slices); Trials("items", 0.3, 10000000, Items, 40); }
