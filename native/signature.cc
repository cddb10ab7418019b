// C25: nested signatures against an independent flattener.
#include "native/h.h"
#include <map>
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "reverb/cc/support/signature.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
struct Leaf { std::string name; tf::DataType dtype; std::vector<int64_t> dims; bool unknown; };
static tf::DataType kTypes[] = {tf::DT_FLOAT, tf::DT_INT32, tf::DT_INT64, tf::DT_UINT8, tf::DT_BOOL, tf::DT_STRING};
static const char* kNames[] = {"", "a", "b", "action", "B", "a/b", "9", "10", "observation"};
static void Shape(Rng& r, tf::TensorShapeProto* p, Leaf* l) {
  if (r.p(0.15)) { p->set_unknown_rank(true); l->unknown = true; return; }
  l->unknown = false; for (int i = r.in(0, 3); i > 0; i--) { int d = r.p(0.2) ? -1 : r.in(0, 5); p->add_dim()->set_size(d); l->dims.push_back(d); }
}
static std::string Join(const std::string& c, const std::string& n) { return c.empty() || n.empty() ? c + n : c + "/" + n; }
// fills `v` with a random tree, appends its leaves; false if a leaf is no tensor specification
static bool Tree(Rng& r, int depth, tf::StructuredValue* v, const std::string& path, std::vector<Leaf>* out) {
  int kind = r.in(0, depth > 0 ? 9 : 3);
  if (kind >= 6 || kind == 4 || kind == 5) {
    int n = r.in(0, depth == 3 ? 13 : 4); bool ok = true;
    if (kind == 4 || kind == 5) { auto* l = kind == 4 ? v->mutable_list_value()->mutable_values() : v->mutable_tuple_value()->mutable_values(); for (int i = 0; i < n; i++) ok = Tree(r, depth - 1, l->Add(), Join(path, std::to_string(i)), out) && ok; return ok; }
    if (kind <= 7) { auto* t = v->mutable_named_tuple_value(); for (int i = 0; i < n; i++) { auto* p = t->add_values(); p->set_key(kNames[r.in(0, 8)]); ok = Tree(r, depth - 1, p->mutable_value(), Join(path, p->key()), out) && ok; } return ok; }
    auto* d = v->mutable_dict_value(); std::map<std::string, int> keys; for (int i = 0; i < n; i++) keys[r.p(0.5) ? kNames[r.in(0, 8)] : absl::StrCat("k", r.in(0, 12))] = 1;
    for (auto& k : keys) ok = Tree(r, depth - 1, &(*d->mutable_fields())[k.first], Join(path, k.first), out) && ok;
    return ok;
  }
  if (r.p(0.04)) { switch (r.in(0, 4)) { case 0: v->mutable_none_value(); break; case 1: v->set_string_value("x"); break; case 2: v->set_int64_value(3); break; case 3: v->set_tensor_dtype_value(tf::DT_FLOAT); break; default: break; } return false; }
  Leaf l; std::string name = kNames[r.in(0, 8)]; l.name = Join(path, name); l.dtype = kTypes[r.in(0, 5)];
  if (kind == 0) { auto* s = v->mutable_bounded_tensor_spec_value(); s->set_name(name); s->set_dtype(l.dtype); Shape(r, s->mutable_shape(), &l); }
  else { auto* s = v->mutable_tensor_spec_value(); s->set_name(name); s->set_dtype(l.dtype); Shape(r, s->mutable_shape(), &l); }
  out->push_back(l); return true;
}
static void Flatten(Rng& r) {
  TableInfo info; std::vector<Leaf> want; bool ok = true, has = !r.p(0.1);
  if (has) ok = Tree(r, r.in(0, 3), info.mutable_signature(), "", &want);
  internal::DtypesAndShapes got; if (r.p(0.5)) got = std::vector<internal::TensorSpec>{{"left over", tf::DT_FLOAT, tf::PartialTensorShape()}};
  T("signature %s", info.ShortDebugString().c_str());
  auto s = internal::FlatSignatureFromTableInfo(info, &got);
  if (!has) { EXPECT(s.ok() && !got.has_value(), "a table without a signature: %s, constraint %d", s.ToString().c_str(), got.has_value()); return; }
  EXPECT(s.ok() == ok, "flattening: %s, expected %s", s.ToString().c_str(), ok ? "success" : "a failure");
  if (!ok) { EXPECT(s.code() == absl::StatusCode::kInvalidArgument, "wrong error %s", s.ToString().c_str()); return; }
  EXPECT(got.has_value() && got->size() == want.size(), "%d leaves, expected %d", got.has_value() ? (int)got->size() : -1, (int)want.size());
  for (size_t i = 0; i < want.size(); i++) {
    auto& g = (*got)[i]; auto& w = want[i];
    EXPECT(g.name == w.name && g.dtype == w.dtype, "leaf %d is %s, expected %s", (int)i, g.name.c_str(), w.name.c_str());
    EXPECT(g.shape.unknown_rank() == w.unknown && (w.unknown || g.shape.dims() == (int)w.dims.size()), "rank of leaf %d: %s", (int)i, g.shape.DebugString().c_str());
    if (!w.unknown) for (size_t j = 0; j < w.dims.size(); j++) EXPECT(g.shape.dim_size(j) == w.dims[j], "shape of leaf %d: %s", (int)i, g.shape.DebugString().c_str());
  }
}
namespace h { void Run(const std::string&) { Trials("flatten", 1.0, 1 << 30, Flatten); } }
