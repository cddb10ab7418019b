// C21: a sampler never requests or returns more samples than configured.
#include "native/h.h"
#include "reverb/cc/reverb_service_mock.grpc.pb.h"
#include "reverb/cc/client.h"
#include "reverb/cc/sampler.h"
#include "reverb/cc/errors.h"
#include "reverb/cc/chunk_store.h"
#include "reverb/cc/rate_limiter.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/table.h"
#include "reverb/cc/tensor_compression.h"
#include "reverb/cc/platform/status_macros.h"
#include "reverb/cc/support/grpc_util.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_util.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
typedef Sampler::Options Opt;
static bool Valid(const Opt& o) { return (o.max_samples == -1 || o.max_samples >= 1) && o.max_in_flight_samples_per_worker >= 1 && (o.num_workers == -1 || o.num_workers >= 1) && (o.max_samples_per_stream == -1 || o.max_samples_per_stream >= 1) && o.rate_limiter_timeout >= absl::ZeroDuration() && (o.flexible_batch_size == -1 || o.flexible_batch_size >= 1); }
static std::string Show(const Opt& o) { return h::Fmt("max_samples %lld, in flight %d, workers %d, per stream %lld, flexible batch %d, timeout %s", (long long)o.max_samples, o.max_in_flight_samples_per_worker, o.num_workers, (long long)o.max_samples_per_stream, o.flexible_batch_size, absl::FormatDuration(o.rate_limiter_timeout).c_str()); }
static ChunkData Chunk(uint64_t key, int rows) {
  ChunkData c; c.set_chunk_key(key); c.mutable_sequence_range()->set_episode_id(1); c.mutable_sequence_range()->set_end(rows - 1); tf::Tensor t(tf::DT_INT64, {rows}); for (int i = 0; i < rows; i++) t.flat<tf::int64>()(i) = (int64_t)key * 100 + i;
  CompressTensorAsProto(t, c.mutable_data()->add_tensors()); c.set_data_tensors_len(1); return c;
}
static PrioritizedItem Item(uint64_t key, const std::vector<std::pair<uint64_t, int>>& chunks) {
  PrioritizedItem it; it.set_key(key); it.set_table("t"); it.set_priority(1); auto* col = it.mutable_flat_trajectory()->add_columns();
  for (auto& c : chunks) { auto* s = col->add_chunk_slices(); s->set_chunk_key(c.first); s->set_length(c.second); }
  return it;
}
// ---- a server that keeps count of what is asked of it
struct Fake {
  std::mutex mu; Rng rng{1}; Opt opt; int64_t delivered = 0, outstanding = 0, requests = 0; uint64_t next = 1; std::map<uint64_t, int> rows; std::set<uint64_t> sent; double flaky = 0; int fail_after = -1; absl::StatusCode fail = absl::StatusCode::kInternal; bool failed = false; int cancelled = 0;
};
class Stream : public grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse> {
 public:
  Stream(Fake* f, grpc::ClientContext* c) : f_(f), ctx_(c) {}
  ~Stream() override { Settle(); }
  bool Write(const SampleStreamRequest& q, grpc::WriteOptions) override {
    std::lock_guard<std::mutex> l(f_->mu); int64_t n = q.num_samples(); T("request for %lld samples (delivered so far %lld, outstanding elsewhere %lld)", (long long)n, (long long)f_->delivered, (long long)f_->outstanding);
    if (broken_) return false;
    EXPECT(owed_ == 0, "a request was written while another one was unanswered"); EXPECT(n >= 1 && n <= f_->opt.max_in_flight_samples_per_worker, "%lld samples requested at a time, %d allowed in flight", (long long)n, f_->opt.max_in_flight_samples_per_worker);
    EXPECT(q.table() == "t" && q.flexible_batch_size() == f_->opt.flexible_batch_size, "request for table %s batch %d", q.table().c_str(), q.flexible_batch_size());
    total_ += n; int64_t per = f_->opt.max_samples_per_stream == -1 ? Sampler::kDefaultMaxSamplesPerStream : f_->opt.max_samples_per_stream; EXPECT(total_ <= per, "%lld samples requested on a stream, %lld allowed", (long long)total_, (long long)per);
    owed_ = n; f_->outstanding += n; f_->requests++;
    if (f_->opt.max_samples != -1) EXPECT(f_->delivered + f_->outstanding <= f_->opt.max_samples, "%lld samples delivered and %lld requested, %lld configured", (long long)f_->delivered, (long long)f_->outstanding, (long long)f_->opt.max_samples);
    return true;
  }
  bool Read(SampleStreamResponse* r) override {
    std::lock_guard<std::mutex> l(f_->mu); r->Clear(); if (broken_ || owed_ == 0) return false;
    if (f_->fail_after >= 0 && f_->delivered >= f_->fail_after) { f_->failed = true; broken_ = true; status_ = grpc::Status(static_cast<grpc::StatusCode>(f_->fail), "planned error"); return false; }
    if (f_->rng.p(f_->flaky)) { broken_ = true; status_ = grpc::Status(grpc::StatusCode::UNAVAILABLE, "try again"); return false; }
    for (int n = f_->rng.in(1, 4); n > 0 && owed_ > 0; n--) {
      if (todo_.empty()) { key_ = f_->next++; int parts = f_->rng.in(1, 3), all = 0; std::vector<std::pair<uint64_t, int>> cs; for (int i = 0; i < parts; i++) { int rows = f_->rng.in(1, 3); cs.push_back({key_ * 10 + i, rows}); all += rows; } f_->rows[key_] = all; todo_ = cs; first_ = true; item_ = Item(key_, cs); }
      auto* e = r->add_entries(); if (first_) { *e->mutable_info()->mutable_item() = item_; first_ = false; } int m = f_->rng.in(1, todo_.size()); while (m-- > 0) { *e->add_data() = Chunk(todo_[0].first, todo_[0].second); todo_.erase(todo_.begin()); }
      if (todo_.empty()) { e->set_end_of_sequence(true); owed_--; f_->outstanding--; f_->delivered++; f_->sent.insert(key_); }
    }
    return true;
  }
  void WaitForInitialMetadata() override {}
  bool WritesDone() override { return true; }
  bool NextMessageSize(uint32_t* s) override { *s = 0; return true; }
  grpc::Status Finish() override { Settle(); return status_; }
 private:
  void Settle() { std::lock_guard<std::mutex> l(f_->mu); f_->outstanding -= owed_; owed_ = 0; broken_ = true; }
  Fake* f_; grpc::ClientContext* ctx_; int64_t owed_ = 0, total_ = 0; bool broken_ = false, first_ = false; grpc::Status status_; uint64_t key_ = 0; std::vector<std::pair<uint64_t, int>> todo_; PrioritizedItem item_;
};
class Stub : public MockReverbServiceStub {
 public:
  explicit Stub(Fake* f) : f_(f) {}
  grpc::ClientReaderWriterInterface<SampleStreamRequest, SampleStreamResponse>* SampleStreamRaw(grpc::ClientContext* c) override { return new Stream(f_, c); }
  Fake* f_;
};
static Opt Options(Rng& r) {
  Opt o; o.max_samples = r.p(0.85) ? r.in(1, 12) : -1; o.max_in_flight_samples_per_worker = r.in(1, 5); o.num_workers = r.p(0.8) ? (int)r.in(1, 4) : -1; o.max_samples_per_stream = r.p(0.6) ? (int)r.in(1, 6) : -1; o.flexible_batch_size = r.p(0.5) ? (int)r.in(1, 5) : -1; return o;
}
static const char* kMode[] = {"GetNextTimestep", "GetNextSample", "GetNextTrajectory"};
// reads one sample; returns its key, or 0 with the error
static uint64_t ReadOne(Sampler& s, int mode, const std::map<uint64_t, int>* rows, std::mutex* mu, absl::Status* st) {
  std::vector<tf::Tensor> d; bool lim = false, end = false; uint64_t key = 0; int n = 0; auto len = [&](uint64_t k) { std::lock_guard<std::mutex> l(*mu); auto it = rows->find(k); return it == rows->end() ? -1 : it->second; };
  if (mode == 0) {
    do { *st = s.GetNextTimestep(&d, &end, &lim); if (!st->ok()) { EXPECT(n == 0, "reading stopped in the middle of a sample: %s", st->ToString().c_str()); return 0; } uint64_t k = d[0].scalar<tf::uint64>()(); EXPECT(n == 0 || k == key, "steps of another sample before the end of this one"); key = k; n++; } while (!end && n < 1000);
  } else { *st = mode == 1 ? s.GetNextSample(&d, &lim) : s.GetNextTrajectory(&d, &lim); if (!st->ok()) return 0; key = mode == 1 ? d[0].flat<tf::uint64>()(0) : d[0].flat<tf::uint64>()(0); n = d[4].dim_size(0); }
  EXPECT(n == len(key), "%s returned %d steps of sample %llu that has %d", kMode[mode], n, (unsigned long long)key, len(key)); return key;
}
static void Remote(Rng& r) {
  auto f = std::make_unique<Fake>(); f->rng = Rng(r.u64()); f->opt = Options(r); f->flaky = r.p(0.5) ? 0.15 : 0; bool err = r.p(0.3); if (err) { f->fail_after = r.in(0, 8); absl::StatusCode cs[] = {absl::StatusCode::kInternal, absl::StatusCode::kNotFound, absl::StatusCode::kDeadlineExceeded, absl::StatusCode::kInvalidArgument}; f->fail = cs[r.in(0, 3)]; }
  auto& o = f->opt; T("server: %s; flaky %.2f, error %d after %d samples", Show(o).c_str(), f->flaky, err ? (int)f->fail : 0, f->fail_after);
  auto stub = std::make_shared<Stub>(f.get());
  {
    Sampler s(stub, "t", o); std::set<uint64_t> seen; int64_t n = 0, stop = o.max_samples == -1 ? r.in(0, 30) : o.max_samples + 3; bool ended = false, failed = false;
    for (int64_t i = 0; i < stop; i++) {
      int mode = r.in(0, 2); absl::Status st; uint64_t k = ReadOne(s, mode, &f->rows, &f->mu, &st);
      if (k) { T("%s returned sample %llu", kMode[mode], (unsigned long long)k); n++; EXPECT(!failed && !ended, "a sample was returned after %s", ended ? "the end" : "an error"); EXPECT(seen.insert(k).second, "sample %llu was returned twice", (unsigned long long)k); { std::lock_guard<std::mutex> l(f->mu); EXPECT(f->sent.count(k), "an unfinished sample was returned"); } EXPECT(o.max_samples == -1 || n <= o.max_samples, "%lld samples returned, %lld configured", (long long)n, (long long)o.max_samples); continue; }
      T("%s: %s", kMode[mode], st.ToString().c_str());
      if (n == o.max_samples) { EXPECT(absl::IsOutOfRange(st), "after all samples were returned: %s", st.ToString().c_str()); ended = true; continue; }
      EXPECT(err && f->failed, "read failed without a server error: %s", st.ToString().c_str()); EXPECT(st.code() == f->fail, "the server failed with code %d, the reader got %s", (int)f->fail, st.ToString().c_str()); failed = true;
    }
    if (o.max_samples != -1 && !err) EXPECT(n == o.max_samples, "%lld of %lld samples returned", (long long)n, (long long)o.max_samples);
    if (o.max_samples == -1 && r.p(0.5)) { s.Close(); std::vector<tf::Tensor> d; bool x; absl::Status st = s.GetNextTrajectory(&d, &x); EXPECT(!st.ok(), "a closed sampler returned a sample"); }
  }
  std::lock_guard<std::mutex> l(f->mu); EXPECT(f->outstanding == 0, "streams left open");
}
static std::shared_ptr<Table> MakeTable(Rng& r, int items, std::map<uint64_t, int>* rows) {
  auto t = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 1000, r.p(0.3) ? 0 : 1, std::make_shared<RateLimiter>(1, 1, -1e9, 1e9));
  for (int i = 1; i <= items; i++) { int n = r.in(1, 4); (*rows)[i] = n; Table::Item it; it.item = Item(i, {{(uint64_t)i * 10, n}}); it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(Chunk(i * 10, n))); EXPECT(t->InsertOrAssign(it).ok(), "insert"); }
  return t;
}
static void Local(Rng& r) {
  Opt o = Options(r); if (o.max_samples == -1) o.max_samples = 7; std::map<uint64_t, int> rows; int items = r.in(1, 10); auto t = MakeTable(r, 30, &rows); std::mutex mu; o.rate_limiter_timeout = r.p(0.5) ? absl::InfiniteDuration() : absl::Seconds(5);
  T("local table with 30 items: %s", Show(o).c_str()); (void)items;
  Sampler s(t, o); int64_t n = 0;
  for (int i = 0; i < o.max_samples + 2; i++) {
    int mode = r.in(0, 2); absl::Status st; uint64_t k = ReadOne(s, mode, &rows, &mu, &st);
    if (k) { n++; EXPECT(n <= o.max_samples, "%lld samples returned, %lld configured", (long long)n, (long long)o.max_samples); } else { EXPECT(n == o.max_samples && absl::IsOutOfRange(st), "after %lld of %lld samples: %s", (long long)n, (long long)o.max_samples, st.ToString().c_str()); }
  }
  s.Close(); int64_t sampled = t->info().rate_limiter_info().sample_stats().completed(); EXPECT(sampled <= o.max_samples, "%lld samples taken from the table, %lld configured", (long long)sampled, (long long)o.max_samples);
}
static void Empty(Rng& r) {      // nothing to sample: the time limit reaches the reader
  Opt o = Options(r); o.max_samples = r.p(0.5) ? -1 : 5; o.rate_limiter_timeout = absl::Milliseconds(r.in(0, 30)); std::map<uint64_t, int> rows; int n = r.in(0, 2); auto t = std::make_shared<Table>("t", std::make_shared<FifoSelector>(), std::make_shared<FifoSelector>(), 1000, 1, std::make_shared<RateLimiter>(1, 1, -1e9, 1e9)); o.num_workers = 1; std::mutex mu;
  for (int i = 1; i <= n; i++) { rows[i] = 2; Table::Item it; it.item = Item(i, {{(uint64_t)i * 10, 2}}); it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(Chunk(i * 10, 2))); EXPECT(t->InsertOrAssign(it).ok(), "insert"); }
  T("local table with %d items, each sampled once: %s", n, Show(o).c_str()); Sampler s(t, o); int got = 0; absl::Status st;
  for (int i = 0; i < n + 2; i++) { uint64_t k = ReadOne(s, r.in(0, 2), &rows, &mu, &st); if (k) { got++; continue; } EXPECT(absl::IsDeadlineExceeded(st), "time limit: %s", st.ToString().c_str()); }
  EXPECT(got <= n, "more samples than items");
}
static void OptionsValid(Rng& r) {
  auto v = [&](int64_t lo, int64_t hi) { return r.p(0.7) ? r.in(1, 20) : r.in(lo, hi); }; Opt o; o.max_samples = v(-3, 3); o.max_in_flight_samples_per_worker = v(-3, 3); o.num_workers = v(-3, 3); o.max_samples_per_stream = v(-3, 3); o.flexible_batch_size = v(-3, 3); if (r.p(0.3)) o.rate_limiter_timeout = absl::Milliseconds(r.in(-3, 3));
  T("options: %s", Show(o).c_str()); auto st = o.Validate(); EXPECT(st.ok() == Valid(o), "Validate: %s", st.ToString().c_str()); EXPECT(st.ok() || absl::IsInvalidArgument(st), "%s", st.ToString().c_str());
  Fake f; f.opt = o; f.fail_after = 0; Client c(std::make_shared<Stub>(&f)); std::unique_ptr<Sampler> s; if (!Valid(o)) { st = c.NewSamplerWithoutSignatureCheck("t", o, &s); EXPECT(absl::IsInvalidArgument(st) && s == nullptr, "a sampler was made with invalid options: %s", st.ToString().c_str()); }
}
void h::Run(const std::string&) { Trials("remote", 0.5, 10000000, Remote, 40); Trials("local", 0.2, 10000000, Local, 40); Trials("empty", 0.15, 10000000, Empty, 40); Trials("options", 0.15, 10000000, OptionsValid); }
