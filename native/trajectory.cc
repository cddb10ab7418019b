// C16: chunk keys, flat trajectories of a run of steps, timestep-shaped trajectories.
#include "native/h.h"
#include "absl/strings/str_cat.h"
#include "reverb/cc/support/trajectory_util.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
static std::string Show(const FlatTrajectory& t) {
  std::string s; for (auto& c : t.columns()) { s += "["; for (auto& x : c.chunk_slices()) absl::StrAppend(&s, " ", x.chunk_key(), ":", x.offset(), "+", x.length(), "@", x.index()); s += " ]"; } return s;
}
static FlatTrajectory Random(Rng& r) {
  FlatTrajectory t; int n = r.in(0, 5), keys = r.in(1, 6); bool tidy = r.p(0.7); std::vector<FlatTrajectory::ChunkSlice> first;
  for (int i = r.in(tidy ? 1 : 0, 5); i > 0; i--) { FlatTrajectory::ChunkSlice s; s.set_chunk_key(r.p(0.1) ? r.u64() : r.in(1, keys)); s.set_offset(first.empty() ? r.in(0, 3) : tidy ? 0 : r.in(0, 1)); s.set_length(r.in(1, 4)); first.push_back(s); }
  for (int c = 0; c < n; c++) {
    auto* col = t.add_columns(); if (r.p(0.1)) col->set_squeeze(true);
    if (tidy) { for (auto s : first) { s.set_index(c); *col->add_chunk_slices() = s; } }
    else for (int i = r.in(0, 5); i > 0; i--) { auto* s = col->add_chunk_slices(); s->set_chunk_key(r.in(1, keys)); s->set_offset(r.in(0, 2)); s->set_length(r.in(1, 3)); s->set_index(r.in(0, 3)); }
  }
  if (n && r.p(0.5)) {      // a small change somewhere
    auto* col = t.mutable_columns(r.in(0, n - 1)); int m = col->chunk_slices_size();
    switch (r.in(0, 5)) { case 0: if (m) col->mutable_chunk_slices(r.in(0, m - 1))->set_offset(r.in(0, 3)); break; case 1: if (m) col->mutable_chunk_slices(r.in(0, m - 1))->set_length(r.in(1, 5)); break; case 2: if (m) col->mutable_chunk_slices(r.in(0, m - 1))->set_index(r.in(0, 4)); break;
      case 3: if (m) col->mutable_chunk_slices(r.in(0, m - 1))->set_chunk_key(r.in(1, 9)); break; case 4: if (m) { auto s = col->chunk_slices(m - 1); *col->add_chunk_slices() = s; } break; default: if (m) col->mutable_chunk_slices()->RemoveLast(); }
  }
  return t;
}
static void Describe(Rng& r) {
  FlatTrajectory t = Random(r); T("trajectory %s", Show(t).c_str());
  std::vector<uint64_t> want; for (auto& c : t.columns()) for (auto& s : c.chunk_slices()) if (std::find(want.begin(), want.end(), s.chunk_key()) == want.end()) want.push_back(s.chunk_key());
  auto got = internal::GetChunkKeys(t); EXPECT(got == want, "GetChunkKeys lists %d keys, expected %d (or another order)", (int)got.size(), (int)want.size());
  // every column made of the same ranges of the same chunks, its own column, continuing at the start of each next chunk
  bool same = t.columns_size() > 0;
  for (int c = 0; c < t.columns_size() && same; c++) {
    auto& a = t.columns(0); auto& b = t.columns(c); if (a.chunk_slices_size() != b.chunk_slices_size()) { same = false; break; }
    for (int i = 0; i < a.chunk_slices_size(); i++) { auto &x = a.chunk_slices(i), &y = b.chunk_slices(i); if (x.chunk_key() != y.chunk_key() || x.offset() != y.offset() || x.length() != y.length() || y.index() != c || (i && y.offset() != 0)) same = false; }
  }
  EXPECT(internal::IsTimestepTrajectory(t) == same, "IsTimestepTrajectory is %d, expected %d", internal::IsTimestepTrajectory(t), same);
  for (int c = 0; c < t.columns_size(); c++) { int n = 0; for (auto& s : t.columns(c).chunk_slices()) n += s.length(); EXPECT(internal::ColumnLength(t, c) == n, "ColumnLength of column %d is %d, expected %d", c, internal::ColumnLength(t, c), n); }
  if (same) { int n = 0; for (auto& s : t.columns(0).chunk_slices()) n += s.length(); EXPECT(internal::TimestepTrajectoryLength(t) == n, "TimestepTrajectoryLength"); if (n) EXPECT(internal::TimestepTrajectoryOffset(t) == t.columns(0).chunk_slices(0).offset(), "TimestepTrajectoryOffset"); }
}
static void Runs(Rng& r) {
  int n = r.in(1, 7), cols = r.in(1, 4); std::vector<uint64_t> keys; std::vector<int> lens; int total = 0;
  for (int i = 0; i < n; i++) { keys.push_back(r.p(0.5) ? i + 1 : r.u64()); lens.push_back(r.in(1, 5)); total += lens.back(); }
  int off = r.in(0, lens[0] - 1), end = r.in(std::max(off + 1, total - lens[n - 1] + 1), total);
  std::string d; for (int i = 0; i < n; i++) absl::StrAppend(&d, " ", keys[i], "(", lens[i], ")"); T("chunks%s offset %d length %d columns %d", d.c_str(), off, end - off, cols);
  std::vector<std::pair<uint64_t, int>> steps; for (int i = 0, g = 0; i < n; i++) for (int k = 0; k < lens[i]; k++, g++) if (g >= off && g < end) steps.push_back({keys[i], k});
  auto check = [&](const FlatTrajectory& t, int cols, const char* what) {
    EXPECT(t.columns_size() == cols, "%s: %d columns, expected %d", what, t.columns_size(), cols);
    for (int c = 0; c < cols; c++) {
      std::vector<std::pair<uint64_t, int>> got; std::map<uint64_t, int> len; for (int i = 0; i < n; i++) len[keys[i]] = lens[i];
      for (auto& s : t.columns(c).chunk_slices()) { EXPECT(s.index() == c, "%s: slice of column %d in column %d", what, s.index(), c); EXPECT(s.offset() >= 0 && s.length() >= 1 && s.offset() + s.length() <= len[s.chunk_key()], "%s: slice outside of its chunk", what); for (int k = 0; k < s.length(); k++) got.push_back({s.chunk_key(), s.offset() + k}); }
      EXPECT(got == steps, "%s: column %d covers %d steps, expected %d (or others): %s", what, c, (int)got.size(), (int)steps.size(), Show(t).c_str());
      EXPECT(!t.columns(c).squeeze(), "%s: squeezed column", what);
    }
    EXPECT(internal::IsTimestepTrajectory(t), "%s: not recognised as timestep-shaped", what);
  };
  check(internal::FlatTimestepTrajectory(keys, lens, cols, off, end - off), cols, "from keys and lengths");
  std::vector<std::shared_ptr<ChunkStore::Chunk>> chunks; int base = r.in(0, 20);
  for (int i = 0; i < n; i++) { ChunkData c; c.set_chunk_key(keys[i]); c.mutable_sequence_range()->set_start(base); c.mutable_sequence_range()->set_end(base + lens[i] - 1); base += lens[i]; if (r.p(0.5)) c.set_data_tensors_len(cols); for (int k = 0; k < cols; k++) c.mutable_data()->add_tensors(); chunks.push_back(std::make_shared<ChunkStore::Chunk>(c)); }
  check(internal::FlatTimestepTrajectory(chunks, off, end - off), cols, "from chunks");
}
void h::Run(const std::string&) { Trials("describe", 0.5, 10000000, Describe); Trials("runs", 0.5, 10000000, Runs); }
