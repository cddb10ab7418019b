// C19: items of the legacy writer cover exactly the last steps asked for and are sent after their chunks, once, in order.
#include "native/h.h"
#include "reverb/cc/reverb_service_mock.grpc.pb.h"
#include "absl/strings/str_cat.h"
#include "reverb/cc/errors.h"
#include "reverb/cc/writer.h"
#include "reverb/cc/support/signature.h"
#include "reverb/cc/support/trajectory_util.h"
#include "tensorflow/core/framework/tensor.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
struct Want { std::string table; double priority; std::vector<std::vector<int64_t>> steps; };
struct Server {
  std::mutex mu; std::condition_variable cv; Rng rng{1}; double fail = 0; absl::StatusCode code = absl::StatusCode::kUnavailable; int fail_at = -1, writes = 0;
  std::deque<Want> want; size_t got = 0; std::set<uint64_t> keys; int fails = 0;
};
static std::string Show(const std::vector<std::vector<int64_t>>& s) { std::string o; for (auto& r : s) { o += "("; for (auto x : r) absl::StrAppend(&o, x, " "); o += ")"; } return o; }
class Stream : public grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse> {
 public:
  explicit Stream(Server* s) : s_(s) {}
  bool Write(const InsertStreamRequest& q, grpc::WriteOptions) override {
    std::lock_guard<std::mutex> l(s_->mu); int w = s_->writes++;
    if (broken_) return false;
    if (s_->rng.p(s_->fail) || w == s_->fail_at) { broken_ = true; s_->fails++; T("the stream fails"); s_->cv.notify_all(); return false; }
    for (auto& c : q.chunks()) { if (chunks_.count(c.chunk_key())) EXPECT(chunks_[c.chunk_key()].SerializeAsString() == c.SerializeAsString(), "chunk %llu was sent twice with other content", (unsigned long long)c.chunk_key()); chunks_[c.chunk_key()] = c; }
    if (!q.has_item()) return true;
    auto& it = q.item().item(); EXPECT(!s_->want.empty(), "an item was sent that nobody created, or twice (priority %g)", it.priority()); Want w0 = s_->want.front(); s_->want.pop_front(); s_->got++;
    T("item %g received", it.priority());
    EXPECT(it.priority() == w0.priority && it.table() == w0.table, "item with priority %g in table %s was sent when %g in table %s was due", it.priority(), it.table().c_str(), w0.priority, w0.table.c_str());
    EXPECT(s_->keys.insert(it.key()).second, "an item was sent twice");
    std::set<uint64_t> keep; for (auto k : q.item().keep_chunk_keys()) { EXPECT(chunks_.count(k), "asked to keep chunk %llu which was not sent", (unsigned long long)k); keep.insert(k); }
    int cols = w0.steps.empty() ? 0 : w0.steps[0].size(); auto& t = it.flat_trajectory(); EXPECT(t.columns_size() == cols, "%d columns, expected %d", t.columns_size(), cols);
    for (int c = 0; c < cols; c++) {
      std::vector<int64_t> rows;
      for (auto& s : t.columns(c).chunk_slices()) {
        EXPECT(chunks_.count(s.chunk_key()), "an item was sent before its chunk %llu", (unsigned long long)s.chunk_key()); EXPECT(keep.count(s.chunk_key()), "the item's chunk is not kept");
        auto& ch = chunks_[s.chunk_key()]; auto r = ch.sequence_range(); EXPECT(s.offset() >= 0 && s.length() >= 1 && s.offset() + s.length() <= r.end() - r.start() + 1, "slice %d+%d of a chunk of %d steps", s.offset(), s.length(), r.end() - r.start() + 1);
        tf::Tensor out; auto st = internal::UnpackChunkColumnAndSlice(ch, s, &out); EXPECT(st.ok(), "cannot unpack: %s", st.ToString().c_str()); auto f = out.flat<tf::int64>(); for (int i = 0; i < f.size(); i++) rows.push_back(f(i));
      }
      std::vector<int64_t> exp; for (auto& s : w0.steps) exp.push_back(s[c]);
      std::string a, b; for (auto x : rows) absl::StrAppend(&a, x, " "); for (auto x : exp) absl::StrAppend(&b, x, " ");
      EXPECT(rows == exp, "column %d of item %g covers the steps %s, expected %s", c, it.priority(), a.c_str(), b.c_str());
    }
    if (q.item().send_confirmation()) { owed_.push_back(it.key()); s_->cv.notify_all(); }
    return true;
  }
  bool Read(InsertStreamResponse* r) override { std::unique_lock<std::mutex> l(s_->mu); s_->cv.wait(l, [&] { return broken_ || done_ || !owed_.empty(); }); r->Clear(); if (owed_.empty() || broken_) return false; int n = s_->rng.in(1, owed_.size()); for (int i = 0; i < n; i++) { r->add_keys(owed_.front()); owed_.pop_front(); } return true; }
  void WaitForInitialMetadata() override {}
  bool NextMessageSize(uint32_t* n) override { *n = 1; return true; }
  bool WritesDone() override { std::lock_guard<std::mutex> l(s_->mu); done_ = true; s_->cv.notify_all(); return true; }
  grpc::Status Finish() override { return broken_ ? grpc::Status(static_cast<grpc::StatusCode>(s_->code), "planned failure") : grpc::Status::OK; }
 private:
  Server* s_; bool broken_ = false, done_ = false; std::map<uint64_t, ChunkData> chunks_; std::deque<uint64_t> owed_;
};
struct Stub : MockReverbServiceStub {
  Server* s; explicit Stub(Server* s) : s(s) {}
  grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse>* InsertStreamRaw(grpc::ClientContext*) override { return new Stream(s); }
};
static std::vector<tf::Tensor> Step(const std::vector<int64_t>& row, bool wide) { std::vector<tf::Tensor> v; for (auto x : row) { tf::Tensor t(tf::DT_INT64, wide ? tf::TensorShape({1}) : tf::TensorShape({})); t.flat<tf::int64>()(0) = x; v.push_back(t); } return v; }
static void History(Rng& r, bool failures, bool hard) {
  Server s; s.rng = Rng(r.u64()); if (failures) { s.fail = r.p(0.5) ? 0.1 : 0.3; if (hard) { s.code = absl::StatusCode::kInternal; } }
  int L = r.in(1, 5), max = r.in(1, 12), cols = r.in(1, 3); bool delta = r.p(0.3), wide = r.p(0.2); absl::optional<int> inflight; if (!hard && r.p(0.3)) inflight = r.in(1, 3);
  std::shared_ptr<internal::FlatSignatureMap> sig; bool typed = r.p(0.25);
  if (typed) { sig = std::make_shared<internal::FlatSignatureMap>(); internal::DtypesAndShapes d(0); for (int c = 0; c < cols; c++) d->push_back({"x", tf::DT_INT64, tf::PartialTensorShape(wide ? tf::TensorShape({1}) : tf::TensorShape({}))}); (*sig)["t"] = d; (*sig)["u"] = absl::nullopt; }
  T("chunk length %d, at most %d steps, %d columns, delta %d, in flight %d, failures %d, signatures %d", L, max, cols, delta, inflight.value_or(-1), failures, typed);
  auto stub = std::make_shared<Stub>(&s); Writer w(stub, L, max, delta, sig, inflight);
  std::vector<std::vector<int64_t>> steps; int64_t id = 0; int buffered = 0; bool shorts = false, has_chunk = false; std::vector<Want> pending; double pr = 0; bool lost = false;
  auto flushed = [&] { if (buffered) { if (buffered < L) shorts = true; has_chunk = true; } buffered = 0; };
  auto dataloss = [&](const absl::Status& st) { return lost = lost || (inflight && s.fails && !st.ok()); };   // items in flight when a stream fails are lost; the writer reports that
  for (int op = r.in(1, 40); op > 0 && !lost; op--) {
    int k = r.in(0, 9);
    if (k < 6) {
      std::vector<int64_t> row; id++; for (int c = 0; c < cols; c++) row.push_back(id * 10 + c); bool bad = buffered > 0 && r.p(0.05);
      auto data = Step(row, wide); if (bad) data.pop_back(); auto st = w.Append(data); T("append %lld%s: %s", (long long)id, bad ? " with a column missing" : "", st.ToString().c_str());
      if (bad) { EXPECT(!st.ok(), "a step with a missing column was accepted"); continue; }
      if (dataloss(st)) break; if (!st.ok()) { EXPECT(failures && hard, "append failed: %s", st.ToString().c_str()); continue; }
      steps.push_back(row); if (++buffered == L) flushed();
    } else if (k < 9) {
      int n = r.p(0.08) ? -r.in(1, 3) : r.in(1, r.p(0.3) ? 14 : std::max(1, std::min<int>(max, steps.size()))); std::string table = typed && r.p(0.3) ? "u" : "t"; Want x; x.table = table; x.priority = ++pr;
      bool avail = n >= 1 && n <= (int)steps.size() && n <= max; if (avail) x.steps.assign(steps.end() - n, steps.end());
      { std::lock_guard<std::mutex> l(s.mu); s.want.push_back(x); }
      auto st = w.CreateItem(table, n, pr); T("create item %g of %d steps (%d appended): %s", pr, n, (int)steps.size(), st.ToString().c_str());
      if (avail && dataloss(st)) break;
      if (!avail) EXPECT(!st.ok(), "an item of %d steps was accepted: %d steps appended, %d allowed", n, (int)steps.size(), max);
      if (avail && !shorts && !(failures && hard)) EXPECT(st.ok(), "an item of %d available steps was rejected: %s", n, st.ToString().c_str());
      if (!st.ok()) { std::lock_guard<std::mutex> l(s.mu); EXPECT(!s.want.empty() && s.want.back().priority == pr, "an item whose creation failed was sent"); s.want.pop_back(); }
      else if (buffered == 0) { std::lock_guard<std::mutex> l(s.mu); EXPECT(s.want.empty(), "items are not sent although no step is buffered"); }
    } else {
      bool any; { std::lock_guard<std::mutex> l(s.mu); any = !s.want.empty(); }
      auto st = w.Flush(); T("flush: %s", st.ToString().c_str()); if (dataloss(st)) break;
      if (st.ok()) { if (any) flushed(); std::lock_guard<std::mutex> l(s.mu); EXPECT(s.want.empty(), "%d items were not sent by Flush", (int)s.want.size()); } else { EXPECT(failures, "flush failed: %s", st.ToString().c_str()); }
    }
  }
  { std::lock_guard<std::mutex> l(s.mu); s.fail = 0; }
  auto st = w.Close(false); T("close: %s", st.ToString().c_str());
  if (!lost) { EXPECT(st.ok(), "close failed: %s", st.ToString().c_str()); EXPECT(s.want.empty(), "%d items were not sent by Close", (int)s.want.size()); EXPECT(!w.Append(Step({1}, false)).ok() && !w.CreateItem("t", 1, 1).ok(), "a closed writer accepts data"); }
}
static void Signatures(Rng& r) {
  Server s; int L = r.in(1, 4), max = r.in(1, 8); auto sig = std::make_shared<internal::FlatSignatureMap>(); internal::DtypesAndShapes d(0); d->push_back({"x", tf::DT_INT64, tf::PartialTensorShape({-1})}); (*sig)["t"] = d;
  Writer w(std::make_shared<Stub>(&s), L, max, false, sig, absl::nullopt); std::vector<bool> good; std::vector<int64_t> ids; T("chunk length %d, at most %d steps, signature int64[?]", L, max); double pr = 0; int rows = 0;
  bool now = true;
  for (int i = r.in(1, 25); i > 0; i--) {
    if (r.p(0.6)) { if ((int)good.size() % L == 0) now = r.p(0.7); int64_t id = good.size() + 1; auto st = w.Append(Step({id}, now)); T("append %s step: %s", now ? "a matching" : "another", st.ToString().c_str()); EXPECT(st.ok(), "append: %s", st.ToString().c_str()); good.push_back(now); ids.push_back(id); rows++; }
    else if (rows) {
      int n = r.in(1, std::min(max, rows)); bool ok = true; Want x; x.table = "t"; x.priority = ++pr; for (int j = rows - n; j < rows; j++) { ok = ok && good[j]; x.steps.push_back({ids[j]}); }
      { std::lock_guard<std::mutex> l(s.mu); s.want.push_back(x); }
      auto st = w.CreateItem("t", n, pr); T("create item of %d steps: %s", n, st.ToString().c_str()); EXPECT(st.ok() == ok, "an item of %d steps %s the signature: %s", n, ok ? "matching" : "not matching", st.ToString().c_str()); if (!st.ok()) { std::lock_guard<std::mutex> l(s.mu); s.want.pop_back(); }
    }
  }
  EXPECT(w.Close().ok(), "close");  EXPECT(s.want.empty(), "%d items were not sent", (int)s.want.size());
}
namespace h { void Run(const std::string&) { Trials("steps", 0.4, 1 << 30, [](Rng& r) { History(r, false, false); }); Trials("retries", 0.25, 1 << 30, [](Rng& r) { History(r, true, false); }); Trials("errors", 0.25, 1 << 30, [](Rng& r) { History(r, true, true); }); Trials("signatures", 0.1, 1 << 30, Signatures); } }
