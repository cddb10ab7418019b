// C22, C23: what the services (synchronous and asynchronous) store from insert streams and send on sample streams.
#include "native/h.h"
#include "absl/strings/str_cat.h"
#include "grpcpp/grpcpp.h"
#include "reverb/cc/reverb_service_async_impl.h"
#include "reverb/cc/reverb_service_impl.h"
#include "reverb/cc/selectors/fifo.h"
#include "reverb/cc/selectors/uniform.h"
#include "reverb/cc/support/trajectory_util.h"
#include "reverb/cc/table.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
typedef std::vector<uint64_t> Keys;
struct Server {
  std::map<std::string, std::shared_ptr<Table>> tables; bool async; std::unique_ptr<ReverbServiceImpl> a; std::unique_ptr<ReverbServiceAsyncImpl> b; std::unique_ptr<grpc::Server> s; std::unique_ptr<ReverbService::StubInterface> stub;
  Server(bool async, std::vector<std::shared_ptr<Table>> ts) : async(async) {
    for (auto& t : ts) tables[t->name()] = t;
    grpc::ServerBuilder sb; sb.SetMaxReceiveMessageSize(-1);
    if (async) { EXPECT(ReverbServiceAsyncImpl::Create(ts, &b).ok(), "service"); sb.RegisterService(b.get()); } else { EXPECT(ReverbServiceImpl::Create(ts, &a).ok(), "service"); sb.RegisterService(a.get()); }
    s = sb.BuildAndStart(); EXPECT(s != nullptr, "server"); grpc::ChannelArguments ca; ca.SetMaxReceiveMessageSize(-1); stub = ReverbService::NewStub(s->InProcessChannel(ca));
  }
  ~Server() { for (auto& t : tables) t.second->Close(); s->Shutdown(std::chrono::system_clock::now() + std::chrono::seconds(5)); s.reset(); }
};
static std::shared_ptr<Table> NewTable(Rng& r, const std::string& n, bool uniform, int times, int max = 100000) {
  std::shared_ptr<ItemSelector> sel; if (uniform) sel = std::make_shared<UniformSelector>(); else sel = std::make_shared<FifoSelector>();
  return std::make_shared<Table>(n, sel, std::make_shared<FifoSelector>(), max, times, std::make_shared<RateLimiter>(1, 1, -1e12, 1e12));
}
static ChunkData Chunk(Rng& r, uint64_t key, int bytes) {
  ChunkData c; c.set_chunk_key(key); c.mutable_sequence_range()->set_episode_id(key); c.mutable_sequence_range()->set_end(3); auto* t = c.mutable_data()->add_tensors(); t->set_dtype(tensorflow::DT_UINT8);
  std::string s(bytes, 0); for (int i = 0; i < bytes; i += 1 + bytes / 64) s[i] = r.in(1, 100); t->set_tensor_content(s); return c;
}
static Keys Firsts(const PrioritizedItem& it) { Keys v; for (auto& c : it.flat_trajectory().columns()) for (auto& s : c.chunk_slices()) if (std::find(v.begin(), v.end(), s.chunk_key()) == v.end()) v.push_back(s.chunk_key()); return v; }
static std::string Show(const Keys& k) { std::string s; for (auto x : k) absl::StrAppend(&s, s.empty() ? "" : " ", x); return s; }
static void Trajectory(Rng& r, PrioritizedItem* it, const Keys& refs) {
  int cols = r.in(1, 3); std::vector<Keys> c(cols); for (auto k : refs) c[r.in(0, cols - 1)].push_back(k);
  for (auto& v : c) { if (v.empty()) v.push_back(refs[r.in(0, refs.size() - 1)]); auto* col = it->mutable_flat_trajectory()->add_columns(); for (auto k : v) { auto* s = col->add_chunk_slices(); s->set_chunk_key(k); s->set_offset(0); s->set_length(1); s->set_index(r.in(0, 2)); } }
}
struct Expected { std::string table; Keys chunks; double priority; };
static void CheckTable(Server& sv, const std::map<uint64_t, Expected>& want, std::map<uint64_t, std::string>& data, const char* when) {
  double end = h::Now() + 10;
  while (true) {
    std::map<uint64_t, Table::Item> have; std::map<uint64_t, std::string> where;
    for (auto& t : sv.tables) for (auto& i : t.second->Copy()) { have[i.item.key()] = i; where[i.item.key()] = t.first; }
    for (auto& i : have) { auto w = want.find(i.first); EXPECT(w != want.end(), "%s: item %llu is stored which must not be", when, (unsigned long long)i.first); EXPECT(where[i.first] == w->second.table, "item %llu is in the wrong table", (unsigned long long)i.first);
      Keys k; for (auto& c : i.second.chunks) { EXPECT(c != nullptr, "item %llu is stored without a chunk", (unsigned long long)i.first); k.push_back(c->key()); EXPECT(c->data().SerializeAsString() == data[c->key()], "chunk %llu has other content than was sent", (unsigned long long)c->key()); }
      EXPECT(k == w->second.chunks, "item %llu is stored with the chunks [%s], its trajectory refers to [%s]", (unsigned long long)i.first, Show(k).c_str(), Show(w->second.chunks).c_str()); EXPECT(i.second.item.priority() == w->second.priority, "priority"); EXPECT(Firsts(i.second.item) == w->second.chunks, "the trajectory changed"); }
    if (have.size() == want.size()) return;
    EXPECT(h::Now() < end, "%s: %d items are stored, %d were accepted", when, (int)have.size(), (int)want.size()); usleep(500);
  }
}
static void Insert(Rng& r) {
  bool async = r.p(0.5); int nt = r.in(1, 3); std::vector<std::shared_ptr<Table>> ts; for (int i = 0; i < nt; i++) ts.push_back(NewTable(r, absl::StrCat("t", i), true, 0));
  Server sv(async, ts); T("%s service, %d tables", async ? "asynchronous" : "synchronous", nt); uint64_t next = 1, item = 1; std::map<uint64_t, Expected> want; std::map<uint64_t, std::string> data;
  int streams = r.in(5, 30);
  for (int q = 0; q < streams; q++) {
    Keys avail, all; bool failed = false, write_ok = true; Keys confirm; std::vector<InsertStreamRequest> reqs; grpc::StatusCode expect = grpc::StatusCode::OK; std::string why; double bad = r.p(0.5) ? 0 : 0.1; int n = r.in(1, 14);
    T("stream %d", q);
    std::map<uint64_t, Expected> added;
    for (int i = 0; i < n; i++) {
      InsertStreamRequest rq; int nc = r.in(0, 3); bool has_item = r.p(0.6);
      for (int c = 0; c < nc; c++) { uint64_t k = next++ * 7919 % 1000003; *rq.add_chunks() = Chunk(r, k, r.p(0.02) ? 300000 : r.in(1, 200)); data[k] = rq.chunks(rq.chunks_size() - 1).SerializeAsString(); avail.push_back(k); all.push_back(k); }
      if (!avail.empty() && r.p(0.15)) { uint64_t k = avail[r.in(0, avail.size() - 1)]; rq.add_chunks()->ParseFromString(data[k]); }   // a chunk sent again
      if (avail.empty()) has_item = false;
      if (!has_item && rq.chunks_size() == 0) continue;
      std::string s = absl::StrCat("  request:"); for (auto& c : rq.chunks()) absl::StrAppend(&s, " chunk ", c.chunk_key());
      if (has_item) {
        auto* pi = rq.mutable_item(); auto* it = pi->mutable_item(); it->set_key(item++); it->set_priority(r.in(1, 9)); it->set_table(absl::StrCat("t", r.in(0, nt - 1)));
        Keys refs; int m = r.in(1, std::min<int>(avail.size(), 5)); for (int c = 0; c < m; c++) refs.push_back(avail[r.in(0, avail.size() - 1)]);
        bool unknown = false, notable = false; Keys gone; for (auto k : all) if (std::find(avail.begin(), avail.end(), k) == avail.end()) gone.push_back(k);
        if (r.p(bad)) { unknown = true; refs.insert(refs.begin() + r.in(0, refs.size()), !gone.empty() && r.p(0.8) ? gone[r.in(0, gone.size() - 1)] : 999999999); }
        else if (r.p(bad)) { notable = true; it->set_table(r.p(0.5) ? "" : "nosuch"); }
        Trajectory(r, it, refs); pi->set_send_confirmation(r.p(0.6)); Keys keep; for (auto k : avail) if (r.p(0.5)) keep.push_back(k);
        for (size_t x = 1; x < keep.size(); x++) std::swap(keep[x], keep[r.in(0, x)]);
        for (auto k : keep) pi->add_keep_chunk_keys(k); absl::StrAppend(&s, " item ", it->key(), " (", Show(Firsts(*it)), ") for ", it->table(), pi->send_confirmation() ? " confirm" : "", " keep [", Show(keep), "]");
        if (!failed) {
          if (unknown || notable) { failed = true; expect = unknown ? grpc::StatusCode::INTERNAL : grpc::StatusCode::NOT_FOUND; why = s; }
          else { added[it->key()] = {it->table(), Firsts(*it), it->priority()}; if (pi->send_confirmation()) confirm.push_back(it->key()); }
        }
        avail = keep;
      }
      T("%s", s.c_str()); reqs.push_back(rq);
    }
    if (reqs.empty()) continue;
    grpc::ClientContext ctx; auto st = sv.stub->InsertStream(&ctx); Keys got; bool lockstep = r.p(0.3); int pauses = 0;
    std::thread reader([&] { InsertStreamResponse rs; while (st->Read(&rs)) for (auto k : rs.keys()) got.push_back(k); });
    for (auto& q : reqs) { if (lockstep && pauses++ < 5) usleep(500); if (!st->Write(q)) { write_ok = false; break; } }
    st->WritesDone(); reader.join(); auto status = st->Finish(); (void)write_ok;
    T("  stream %d ended: %d %s", q, (int)status.error_code(), status.error_message().c_str());
    EXPECT(status.error_code() == expect, "the stream ended with code %d (%s), expected %d; %s", (int)status.error_code(), status.error_message().c_str(), (int)expect, why.c_str());
    if (expect == grpc::StatusCode::OK || !async) EXPECT(got == confirm, "confirmed items [%s], expected [%s]", Show(got).c_str(), Show(confirm).c_str());
    else { EXPECT(got.size() <= confirm.size() && std::equal(got.begin(), got.end(), confirm.begin()), "confirmed items [%s], accepted [%s]", Show(got).c_str(), Show(confirm).c_str()); }
    for (auto& a : added) want.insert(a);
    CheckTable(sv, want, data, "after the stream");
  }
}
static void Sample(Rng& r) {
  bool async = r.p(0.5); int items = r.in(0, 12), times = r.p(0.3) ? 1 : 0; bool uniform = times == 0 || r.p(0.5); auto t = NewTable(r, "t", uniform, times); std::map<uint64_t, PrioritizedItem> want; std::map<uint64_t, std::string> data; uint64_t ck = 1; bool big = r.p(0.3);
  for (int i = 1; i <= items; i++) {
    Table::Item it; Keys refs; int n = r.p(0.2) ? r.in(5, 12) : r.in(1, 4); for (int c = 0; c < n; c++) refs.push_back(ck++); it.item.set_key(i * 101); it.item.set_table("t"); it.item.set_priority(i); Trajectory(r, &it.item, refs);
    for (auto k : Firsts(it.item)) { auto d = Chunk(r, k, big && r.p(0.4) ? (r.p(0.3) ? r.in(900000, 1200000) : r.in(100000, 600000)) : r.in(1, 3000)); data[k] = d.SerializeAsString(); it.chunks.push_back(std::make_shared<ChunkStore::Chunk>(d)); }
    want[it.item.key()] = it.item; EXPECT(t->InsertOrAssign(it).ok(), "insert");
  }
  Server sv(async, {t}); T("%s service, table with %d items of 1 to 12 %schunks, times %d, %s", async ? "asynchronous" : "synchronous", items, big ? "large " : "", times, uniform ? "uniform" : "fifo"); int left = times ? items : -1; std::map<uint64_t, int> seen;
  for (int q = 0, nq = times ? r.in(1, 4) : r.in(4, 20); q < nq; q++) {
    grpc::ClientContext ctx; auto st = sv.stub->SampleStream(&ctx); int nr = r.in(1, 4); bool ahead = r.p(0.4); std::vector<SampleStreamRequest> rqs; int64_t total = 0; grpc::StatusCode expect = grpc::StatusCode::OK; bool cancel = r.p(0.1); int64_t cancel_at = -1;
    for (int i = 0; i < nr; i++) {
      SampleStreamRequest rq; rq.set_table("t"); int n = r.p(0.3) ? r.in(1, 3) : r.in(1, big ? 12 : 60), fb = r.p(0.3) ? -1 : r.in(1, r.p(0.3) ? 100 : 6); rq.set_num_samples(n); rq.set_flexible_batch_size(fb); rq.mutable_rate_limiter_timeout()->set_milliseconds(items == 0 || (left >= 0 && left < total + n) ? 20 : 60000);
      if (r.p(0.08)) { rq.set_num_samples(-r.in(0, 2)); expect = grpc::StatusCode::INVALID_ARGUMENT; } else if (r.p(0.08)) { rq.set_flexible_batch_size(r.p(0.5) ? 0 : -r.in(2, 9)); expect = grpc::StatusCode::INVALID_ARGUMENT; } else if (r.p(0.08)) { rq.set_table("nosuch"); expect = grpc::StatusCode::NOT_FOUND; }
      else if (items == 0 || (left >= 0 && left < total + n)) { expect = grpc::StatusCode::DEADLINE_EXCEEDED; total = left < 0 ? 0 : std::max<int64_t>(left, 0); }
      else total += n;
      T("stream %d request: %lld samples from %s in batches of %lld", q, (long long)rq.num_samples(), rq.table().c_str(), (long long)rq.flexible_batch_size()); rqs.push_back(rq); if (expect != grpc::StatusCode::OK) break;
    }
    if (items && cancel && total > 0) cancel_at = r.in(0, total);
    size_t sent = 0; int64_t got = 0, due = 0, valid = 0; auto send = [&] { if (sent < rqs.size()) { int64_t n = rqs[sent].num_samples(); bool last = sent + 1 == rqs.size() && expect != grpc::StatusCode::OK; if (!last) valid += n; due = last ? (expect == grpc::StatusCode::DEADLINE_EXCEEDED ? total : valid) : valid; st->Write(rqs[sent++]); if (sent == rqs.size()) st->WritesDone(); } };
    std::thread writer; if (ahead) { for (size_t i = 0; i < rqs.size(); i++) { bool last = i + 1 == rqs.size() && expect != grpc::StatusCode::OK; if (!last) valid += rqs[i].num_samples(); } due = expect == grpc::StatusCode::DEADLINE_EXCEEDED ? total : valid; sent = rqs.size(); writer = std::thread([&] { for (auto& q : rqs) if (!st->Write(q)) break; st->WritesDone(); }); } else send();
    SampleStreamResponse rs; uint64_t cur = 0; Keys have; bool cancelled = false;
    if (cancel_at == 0) { ctx.TryCancel(); cancelled = true; }
    while (st->Read(&rs)) {
      for (auto& e : rs.entries()) {
        if (e.data_size() == 0 && !e.has_info()) { EXPECT(!e.end_of_sequence(), "an empty end marker"); continue; }
        if (cur == 0) { EXPECT(e.has_info() && e.info().has_item(), "the first message of a sample has no information"); cur = e.info().item().key(); have.clear(); auto w = want.find(cur); EXPECT(w != want.end(), "item %llu is not in the table", (unsigned long long)cur); auto& i = e.info(); EXPECT(i.item().priority() == w->second.priority() && i.item().table() == "t" && i.item().flat_trajectory().SerializeAsString() == w->second.flat_trajectory().SerializeAsString(), "wrong information on item %llu", (unsigned long long)cur);
          seen[cur]++; EXPECT(i.table_size() >= 1 && i.table_size() <= items && i.item().times_sampled() >= 1 && i.probability() > 0 && i.probability() <= 1, "wrong sample information"); if (times) EXPECT(seen[cur] <= 1, "item %llu was sampled twice", (unsigned long long)cur); }
        else EXPECT(!e.has_info(), "information on item %llu within another sample", (unsigned long long)e.info().item().key());
        for (auto& c : e.data()) { have.push_back(c.chunk_key()); EXPECT(data.count(c.chunk_key()) && data[c.chunk_key()] == c.SerializeAsString(), "chunk %llu has other content", (unsigned long long)c.chunk_key()); }
        auto w = Firsts(want[cur]); EXPECT(have.size() <= w.size() && std::equal(have.begin(), have.end(), w.begin()), "sample of item %llu has the chunks [%s], the item [%s]", (unsigned long long)cur, Show(have).c_str(), Show(w).c_str());
        EXPECT(e.end_of_sequence() == (have == w), "end marker %d after the chunks [%s] of [%s]", (int)e.end_of_sequence(), Show(have).c_str(), Show(w).c_str());
        if (e.end_of_sequence()) { cur = 0; got++; EXPECT(got <= due, "%lld samples received, %lld requested", (long long)got, (long long)due); if (cancel_at == got && !cancelled) { ctx.TryCancel(); cancelled = true; } }
      }
      rs.Clear(); if (got == due && !ahead) send();
    }
    if (!ahead) { while (sent < rqs.size()) send(); }
    if (writer.joinable()) writer.join(); auto status = st->Finish(); T("stream %d: %lld samples, code %d %s", q, (long long)got, (int)status.error_code(), status.error_message().c_str());
    if (cancelled) { left = left < 0 ? -1 : 0; if (times) break; continue; }
    if (expect != grpc::StatusCode::OK && async && (expect != grpc::StatusCode::DEADLINE_EXCEEDED || true)) EXPECT(got <= due, "samples"); else { EXPECT(got == due, "%lld samples received, %lld requested", (long long)got, (long long)due); }
    if (expect == grpc::StatusCode::OK) EXPECT(cur == 0, "the last sample is not complete");
    EXPECT(status.error_code() == expect, "the stream ended with code %d (%s), expected %d", (int)status.error_code(), status.error_message().c_str(), (int)expect);
    if (times) { if (expect != grpc::StatusCode::OK) break; left -= got; }
  }
}
void h::Run(const std::string& p) {
  bool all = p == "all";
  if (all || p == "C22") h::Trials("insert streams", 1, 1 << 30, Insert, 60);
  if (all || p == "C23") h::Trials("sample streams", 1, 1 << 30, Sample, 60);
}
