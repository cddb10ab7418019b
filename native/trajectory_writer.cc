// C17: items refer to exactly the data references they were built from; ill-formed columns are rejected.
// C18: a successful flush means confirmed; chunks precede items, items are sent in order; close ends waiting workers.
#include "native/h.h"
#include "reverb/cc/reverb_service_mock.grpc.pb.h"
#include "absl/strings/str_cat.h"
#include "reverb/cc/chunker.h"
#include "reverb/cc/trajectory_writer.h"
#include "reverb/cc/support/signature.h"
#include "reverb/cc/support/trajectory_util.h"
#include "tensorflow/core/framework/tensor.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
using Ref = std::pair<uint64_t, int>;      // key of a chunk and offset in it
struct Want { double priority; std::string table; std::vector<std::vector<Ref>> cols; std::vector<std::vector<int64_t>> vals; std::vector<bool> squeeze; };
struct Server {
  std::mutex mu; std::condition_variable cv; Rng rng{1}; double fail = 0; int fail_at = -1; absl::StatusCode code = absl::StatusCode::kUnavailable; int fails = 0, writes = 0; bool hold = false;
  std::vector<Want> all; size_t next_unsent = 0; std::map<double, size_t> at; std::set<double> confirmed, sent; std::map<uint64_t, double> prio;
};
class Stream : public grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse> {
 public:
  Stream(Server* s, grpc::ClientContext* c) : s_(s), c_(c) {}
  bool Write(const InsertStreamRequest& q, grpc::WriteOptions) override {
    std::lock_guard<std::mutex> l(s_->mu); int w = s_->writes++;
    if (broken_) return false;
    if (s_->rng.p(s_->fail) || w == s_->fail_at) { broken_ = true; s_->fails++; T("the stream fails"); s_->cv.notify_all(); return false; }
    for (auto& c : q.chunks()) { if (chunks_.count(c.chunk_key())) EXPECT(chunks_[c.chunk_key()].SerializeAsString() == c.SerializeAsString(), "chunk %llu was sent twice with other content", (unsigned long long)c.chunk_key()); chunks_[c.chunk_key()] = c; }
    if (!q.has_item()) return true;
    auto& it = q.item().item(); double p = it.priority(); EXPECT(s_->at.count(p), "an item was sent that nobody created (priority %g)", p); size_t pos = s_->at[p]; const Want& want = s_->all[pos];
    T("item %g received", p); EXPECT(on_stream_.insert(p).second, "item %g was sent twice on a stream", p);
    EXPECT(pos >= from_, "item %g was sent after a later one", p); EXPECT(pos <= s_->next_unsent, "item %g was sent before an earlier one", p); from_ = pos + 1; s_->next_unsent = std::max(s_->next_unsent, pos + 1); s_->sent.insert(p);
    EXPECT(it.table() == want.table, "item %g was created in table %s and sent to %s", p, want.table.c_str(), it.table().c_str());
    auto& t = it.flat_trajectory(); EXPECT(t.columns_size() == (int)want.cols.size(), "%d columns, expected %d", t.columns_size(), (int)want.cols.size());
    for (int c = 0; c < t.columns_size(); c++) {
      std::vector<Ref> got; std::vector<int64_t> vals; std::string a, b; EXPECT(t.columns(c).squeeze() == want.squeeze[c], "squeeze of column %d differs", c);
      for (auto& s : t.columns(c).chunk_slices()) {
        EXPECT(chunks_.count(s.chunk_key()), "item %g was sent before its chunk, or the chunk was not kept", p); for (int i = 0; i < s.length(); i++) got.push_back({s.chunk_key(), s.offset() + i});
        tf::Tensor out; auto st = internal::UnpackChunkColumnAndSlice(chunks_[s.chunk_key()], s, &out); EXPECT(st.ok(), "cannot unpack slice %d+%d: %s", s.offset(), s.length(), st.ToString().c_str()); auto f = out.flat<tf::int64>(); for (int i = 0; i < f.size(); i++) vals.push_back(f(i));
      }
      for (auto& x : got) absl::StrAppend(&a, x.first % 1000, ".", x.second, " "); for (auto& x : want.cols[c]) absl::StrAppend(&b, x.first % 1000, ".", x.second, " ");
      EXPECT(got == want.cols[c], "column %d of item %g refers to rows %s, expected %s (chunk.offset)", c, p, a.c_str(), b.c_str()); EXPECT(vals == want.vals[c], "column %d of item %g holds other data", c, p);
    }
    std::set<uint64_t> keep; for (auto k : q.item().keep_chunk_keys()) { EXPECT(chunks_.count(k), "asked to keep chunk %llu which is not there", (unsigned long long)k); keep.insert(k); }
    for (auto i = chunks_.begin(); i != chunks_.end();) if (keep.count(i->first)) ++i; else i = chunks_.erase(i);
    EXPECT(q.item().send_confirmation(), "no confirmation asked for"); s_->prio[it.key()] = p; owed_.push_back(it.key()); s_->cv.notify_all();
    return true;
  }
  bool Read(InsertStreamResponse* r) override {
    std::unique_lock<std::mutex> l(s_->mu);
    while (!(broken_ || (!owed_.empty() && !s_->hold))) { if (s_->cv.wait_for(l, std::chrono::milliseconds(2)) == std::cv_status::timeout && Cancelled()) return false; }
    r->Clear(); if (broken_) return false; int n = s_->rng.in(1, owed_.size()); for (int i = 0; i < n; i++) { r->add_keys(owed_.front()); s_->confirmed.insert(s_->prio[owed_.front()]); owed_.pop_front(); } return true;
  }
  bool Cancelled() { return finished_; }
  void WaitForInitialMetadata() override {}
  bool NextMessageSize(uint32_t* n) override { *n = 1; return true; }
  bool WritesDone() override { return true; }
  grpc::Status Finish() override { std::lock_guard<std::mutex> l(s_->mu); finished_ = true; s_->cv.notify_all(); return broken_ ? grpc::Status(static_cast<grpc::StatusCode>(s_->code), "planned failure") : grpc::Status::OK; }
 private:
  Server* s_; grpc::ClientContext* c_; bool broken_ = false; std::atomic<bool> finished_{false}; std::map<uint64_t, ChunkData> chunks_; std::deque<uint64_t> owed_; std::set<double> on_stream_; size_t from_ = 0;
};
struct Stub : MockReverbServiceStub {
  Server* s; explicit Stub(Server* s) : s(s) {}
  grpc::ClientReaderWriterInterface<InsertStreamRequest, InsertStreamResponse>* InsertStreamRaw(grpc::ClientContext* c) override { return new Stream(s, c); }
};
static tf::Tensor Val(int64_t x, bool wide) { tf::Tensor t(tf::DT_INT64, wide ? tf::TensorShape({1}) : tf::TensorShape({})); t.flat<tf::int64>()(0) = x; return t; }
struct Cell { std::weak_ptr<CellRef> ref; uint64_t key; int off; int64_t val; int col; std::shared_ptr<CellRef> hold; };
// drives a writer against a stand-in server
struct Driver {
  Rng& r; Server s; int L, keep, cols; bool delta, wide; std::unique_ptr<TrajectoryWriter> w; std::vector<Cell> cells; int64_t id = 0; double pr = 0; bool dead = false;
  explicit Driver(Rng& r, const TrajectoryWriter::Options* o = nullptr) : r(r) {
    s.rng = Rng(r.u64()); L = r.in(1, 5); keep = L + r.in(0, 8); cols = r.in(1, 3); delta = r.p(0.3); wide = r.p(0.2);
    TrajectoryWriter::Options opt; opt.chunker_options = std::make_shared<ConstantChunkerOptions>(L, keep, delta);
    T("chunk length %d, %d live references, %d columns, delta %d", L, keep, cols, delta); w = std::make_unique<TrajectoryWriter>(std::make_shared<Stub>(&s), opt);
  }
  absl::Status Append(bool partial = false) {
    std::vector<absl::optional<tf::Tensor>> data; id++; std::vector<int> which; for (int c = 0; c < cols; c++) if (r.p(0.9) || (c + 1 == cols && which.empty())) { data.push_back(Val(id * 10 + c, wide)); which.push_back(c); } else data.push_back(absl::nullopt);
    std::vector<absl::optional<std::weak_ptr<CellRef>>> refs; auto st = w->Append(std::move(data), &refs); T("append %lld: %s", (long long)id, st.ToString().c_str());
    if (st.ok()) { EXPECT((int)refs.size() == cols, "%d references", (int)refs.size()); for (int c : which) { EXPECT(refs[c].has_value(), "no reference"); auto p = refs[c]->lock(); EXPECT(p, "the reference is gone"); cells.push_back({*refs[c], p->chunk_key(), p->offset(), id * 10 + c, c}); } }
    return st;
  }
  std::vector<Cell> Live(int c) { std::vector<Cell> v; for (auto& x : cells) if (x.col == c) if (auto p = x.ref.lock()) { v.push_back(x); v.back().hold = p; } return v; }
  // a random list of live references of one column
  std::vector<Cell> Pick(int c) {
    auto v = Live(c); std::vector<Cell> o; if (v.empty()) return o; int n = r.in(1, 8), k = r.in(0, 4);
    if (k == 0) { int a = r.in(0, v.size() - 1); for (int i = a; i < (int)v.size() && (int)o.size() < n; i++) o.push_back(v[i]); }
    else if (k == 1) { int a = r.in(0, v.size() - 1), d = r.in(2, 3); for (int i = a; i < (int)v.size() && (int)o.size() < n; i += d) o.push_back(v[i]); }
    else if (k == 2) { int a = r.in(0, v.size() - 1); for (int i = a; i >= 0 && (int)o.size() < n; i--) o.push_back(v[i]); }
    else if (k == 3) { auto x = v[r.in(0, v.size() - 1)]; for (int i = 0; i < n; i++) o.push_back(x); }
    else for (int i = 0; i < n; i++) o.push_back(r.pick(v));
    return o;
  }
  absl::Status Create(const std::vector<std::vector<Cell>>& t, std::vector<bool> squeeze, bool expect_sent) {
    std::vector<TrajectoryColumn> v; Want x; x.priority = ++pr; x.table = r.p(0.5) ? "t" : "u"; x.squeeze = squeeze; std::string d;
    for (size_t c = 0; c < t.size(); c++) { std::vector<std::weak_ptr<CellRef>> q; std::vector<Ref> k; std::vector<int64_t> vals; absl::StrAppend(&d, "["); for (auto& y : t[c]) { q.push_back(y.ref); k.push_back({y.key, y.off}); vals.push_back(y.val); absl::StrAppend(&d, y.val, " "); } absl::StrAppend(&d, squeeze[c] ? "] squeezed " : "] "); v.emplace_back(q, squeeze[c]); x.cols.push_back(k); x.vals.push_back(vals); }
    if (expect_sent) { std::lock_guard<std::mutex> l(s.mu); s.at[x.priority] = s.all.size(); s.all.push_back(x); }
    auto st = w->CreateItem(x.table, x.priority, v); T("create item %g of %s: %s", x.priority, d.c_str(), st.ToString().c_str());
    if (expect_sent && !st.ok()) { std::lock_guard<std::mutex> l(s.mu); EXPECT(!s.sent.count(x.priority), "an item whose creation failed was sent"); s.at.erase(x.priority); s.all.pop_back(); }
    return st;
  }
  int Unconfirmed() { std::lock_guard<std::mutex> l(s.mu); int n = 0; for (auto& x : s.all) n += !s.confirmed.count(x.priority); return n; }
};
static void Exact(Rng& r) {
  Driver d(r); for (int i = r.in(1, 12); i > 0; i--) EXPECT(d.Append().ok(), "append failed");
  for (int op = r.in(1, 20); op > 0; op--) {
    int k = r.in(0, 9);
    if (k < 4) EXPECT(d.Append().ok(), "append failed");
    else if (k < 9) {
      std::vector<std::vector<Cell>> t; std::vector<bool> sq; for (int c = 0; c < d.cols; c++) { auto p = d.Pick(c); if (p.empty()) continue; bool s = p.size() == 1 && r.p(0.5); t.push_back(p); sq.push_back(s); }
      if (t.empty()) continue; auto st = d.Create(t, sq, true); EXPECT(st.ok(), "an item of live references was rejected: %s", st.ToString().c_str());
    } else { auto st = d.w->Flush(0, absl::Seconds(60)); T("flush: %s", st.ToString().c_str()); EXPECT(st.ok(), "flush failed: %s", st.ToString().c_str()); EXPECT(d.Unconfirmed() == 0, "%d items are not confirmed after Flush", d.Unconfirmed()); }
  }
  auto st = d.w->Flush(0, absl::Seconds(60)); T("flush: %s", st.ToString().c_str()); EXPECT(st.ok(), "flush failed: %s", st.ToString().c_str()); EXPECT(d.Unconfirmed() == 0, "%d items are not confirmed after Flush", d.Unconfirmed()); d.w->Close();
}
static void Rejected(Rng& r) {
  Driver d(r); for (int i = r.in(2, 20); i > 0; i--) EXPECT(d.Append().ok(), "append failed");
  // references of other columns, with another type or shape
  std::vector<absl::optional<tf::Tensor>> data(d.cols + 2); tf::Tensor f(tf::DT_FLOAT, tf::TensorShape({})); f.flat<float>()(0) = 1; tf::Tensor g(tf::DT_INT64, tf::TensorShape({2})); g.flat<tf::int64>().setZero(); data[d.cols] = f; data[d.cols + 1] = g;
  std::vector<absl::optional<std::weak_ptr<CellRef>>> refs; EXPECT(d.w->Append(data, &refs).ok(), "append failed"); Cell F{*refs[d.cols], 0, 0, -1, d.cols}, G{*refs[d.cols + 1], 0, 0, -2, d.cols + 1};
  for (int n = r.in(1, 8); n > 0; n--) {
    std::vector<std::vector<Cell>> t; std::vector<bool> sq; for (int c = 0; c < d.cols; c++) { auto p = d.Pick(c); if (p.empty()) continue; t.push_back(p); sq.push_back(false); }
    if (t.empty()) break; int c = r.in(0, t.size() - 1), k = r.in(0, 7); const char* why = "";
    std::vector<Cell> gone; for (auto& x : d.cells) if (x.ref.expired()) gone.push_back(x);
    if (k == 0 && !gone.empty()) { t[c].insert(t[c].begin() + r.in(0, t[c].size()), r.pick(gone)); why = "an expired reference"; }
    else if (k == 1) { t[c].insert(t[c].begin() + r.in(0, t[c].size()), F); why = "another type"; }
    else if (k == 2) { t[c].insert(t[c].begin() + r.in(0, t[c].size()), G); why = "another shape"; }
    else if (k == 3 && t[c].size() != 1) { sq[c] = true; why = "a squeezed column of several rows"; }
    else if (k == 4) { t[c].clear(); why = "an empty column"; }
    else if (k == 5) { t[c].clear(); sq[c] = true; why = "an empty squeezed column"; }
    else if (k == 6) { t.clear(); sq.clear(); why = "no column"; }
    else { for (auto& x : t) x.clear(); why = "only empty columns"; }
    if (!*why) continue;
    T("trajectory with %s", why); auto st = d.Create(t, sq, false); EXPECT(!st.ok(), "a trajectory with %s was accepted", why);
    if (r.p(0.5)) { EXPECT(d.Append().ok(), "append failed after a rejected item"); auto p = d.Pick(d.cells.back().col); if (!p.empty()) { auto st = d.Create({p}, {false}, true); EXPECT(st.ok(), "an item was rejected after a rejected item: %s", st.ToString().c_str()); } }
  }
  auto st = d.w->Flush(0, absl::Seconds(60)); T("flush: %s", st.ToString().c_str()); EXPECT(st.ok(), "flush failed after rejected items: %s", st.ToString().c_str()); EXPECT(d.Unconfirmed() == 0, "%d items are not confirmed after Flush", d.Unconfirmed()); d.w->Close();
}
// flushes, failures of streams, confirmations that are held back
static void History(Rng& r, bool failures, bool hard) {
  Driver d(r); if (failures) { { std::lock_guard<std::mutex> l(d.s.mu); if (r.p(0.5)) d.s.fail_at = r.in(0, 6); else d.s.fail = 0.15; if (hard) d.s.code = absl::StatusCode::kInternal; } }
  auto failed = [&] { std::lock_guard<std::mutex> l(d.s.mu); return d.s.fails > 0; }; bool dead = false;
  for (int op = r.in(1, 40); op > 0 && !dead; op--) {
    int k = r.in(0, 11);
    if (k < 4) { auto st = d.Append(); if (!st.ok()) { EXPECT(hard && failed(), "append: %s", st.ToString().c_str()); dead = true; } }
    else if (k < 9) { std::vector<std::vector<Cell>> t; std::vector<bool> sq; for (int c = 0; c < d.cols; c++) { auto p = d.Pick(c); if (p.empty()) continue; t.push_back(p); sq.push_back(false); } if (t.empty()) continue; auto st = d.Create(t, sq, true); if (!st.ok()) { EXPECT(hard && failed(), "create: %s", st.ToString().c_str()); dead = true; } }
    else if (k == 9) { std::lock_guard<std::mutex> l(d.s.mu); d.s.hold = !d.s.hold; T("confirmations %s", d.s.hold ? "are held back" : "are sent"); d.s.cv.notify_all(); }
    else {
      bool hold; { std::lock_guard<std::mutex> l(d.s.mu); hold = d.s.hold; } bool lossy = failures && failed(); int ignore = k == 10 ? r.in(0, 3) : 0; bool clear = r.p(0.5); auto limit = hold || failures ? absl::Milliseconds(20) : absl::Seconds(60);
      auto st = k == 10 ? d.w->Flush(ignore, limit) : d.w->EndEpisode(clear, limit); int left = d.Unconfirmed(); T("%s ignoring %d: %s, %d not confirmed", k == 10 ? "flush" : "end episode", ignore, st.ToString().c_str(), left);
      if (st.ok()) EXPECT(left <= ignore, "%s succeeded although %d items are not confirmed (%d allowed)", k == 10 ? "Flush" : "EndEpisode", left, ignore);
      else if (absl::IsDeadlineExceeded(st)) EXPECT(hold || failures || lossy, "%s timed out", k == 10 ? "Flush" : "EndEpisode");
      else { EXPECT(hard && failed(), "%s: %s", k == 10 ? "Flush" : "EndEpisode", st.ToString().c_str()); dead = true; }
    }
  }
  if (dead) { T("the writer has failed"); EXPECT(!d.w->Flush(0, absl::Seconds(60)).ok(), "Flush succeeds after an unrecoverable error"); EXPECT(!d.w->EndEpisode(true, absl::Seconds(60)).ok(), "EndEpisode succeeds after an unrecoverable error"); }
  else if (!failures) { { std::lock_guard<std::mutex> l(d.s.mu); d.s.hold = false; d.s.cv.notify_all(); } auto st = d.w->Flush(0, absl::Seconds(60)); EXPECT(st.ok() && d.Unconfirmed() == 0, "final flush: %s, %d not confirmed", st.ToString().c_str(), d.Unconfirmed()); }
  T("close"); d.w->Close(); EXPECT(!d.Append().ok(), "a closed writer accepts data"); EXPECT(!d.w->Flush(0, absl::Seconds(60)).ok(), "Flush succeeds on a closed writer");
}
// a worker that waits for data which is never completed is ended by Close
static void Closing(Rng& r) {
  Driver d(r); if (d.L == 1) return; EXPECT(d.Append().ok(), "append failed"); auto p = d.Pick(d.cells.back().col); EXPECT(d.Create({p}, {false}, true).ok(), "create failed"); int us = r.in(0, 3) ? r.in(0, 60) : 0;
  auto t0 = std::chrono::steady_clock::now(); while (std::chrono::steady_clock::now() - t0 < std::chrono::microseconds(us)) {} T("close after %d us", us); d.w->Close(); T("closed");
}
namespace h { void Run(const std::string& p) {
  if (p == "C17") { Trials("exact", 0.6, 1 << 30, Exact); Trials("rejected", 0.4, 1 << 30, Rejected); }
  else { Trials("close", 0.2, 1 << 30, Closing, 20); Trials("flush", 0.35, 1 << 30, [](Rng& r) { History(r, false, false); }); Trials("retries", 0.25, 1 << 30, [](Rng& r) { History(r, true, false); }); Trials("errors", 0.2, 1 << 30, [](Rng& r) { History(r, true, true); }); } } }
