// C14: tensors survive compression and delta encoding.
#include "native/h.h"
#include "reverb/cc/tensor_compression.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/framework/tensor_util.h"
using namespace deepmind::reverb;
using h::Rng; using h::T;
namespace tf = tensorflow;
static std::vector<tf::DataType> kTypes{tf::DT_INT8, tf::DT_INT16, tf::DT_INT32, tf::DT_INT64, tf::DT_UINT8, tf::DT_UINT16, tf::DT_UINT32, tf::DT_UINT64, tf::DT_FLOAT, tf::DT_DOUBLE, tf::DT_BOOL, tf::DT_STRING, tf::DT_HALF};
static tf::Tensor Random(Rng& r, std::string* desc) {
  tf::DataType dt = r.pick(kTypes);
  tf::TensorShape sh; int nd = r.in(0, 4);
  for (int i = 0; i < nd; i++) sh.AddDim(r.p(0.06) ? 0 : r.in(1, r.p(0.1) ? 40 : 5));
  tf::Tensor t(dt, sh); int mode = r.in(0, 3);
  if (dt == tf::DT_STRING) { auto f = t.flat<tf::tstring>(); for (int i = 0; i < f.size(); i++) { std::string s; int n = r.in(0, 9); for (int k = 0; k < n; k++) s.push_back((char)r.in(0, 255)); f(i) = s; } }
  else {
    auto* p = (unsigned char*)t.tensor_data().data(); size_t n = t.tensor_data().size(); int w = tf::DataTypeSize(dt);
    for (size_t i = 0; i < n; i++) p[i] = dt == tf::DT_BOOL ? r.in(0, 1) : mode == 0 ? (unsigned char)r.u64() : mode == 1 ? (r.p(0.5) ? 0 : 255) : mode == 2 ? ((i % w == (size_t)w - 1) ? (r.p(0.5) ? 0x80 : 0x7f) : (r.p(0.5) ? 0 : 255)) : (i / w) % 3;
  }
  *desc = tf::DataTypeString(dt) + " " + sh.DebugString(); return t;
}
static bool Same(const tf::Tensor& a, const tf::Tensor& b) {
  if (a.dtype() != b.dtype() || a.shape() != b.shape()) return false;
  if (a.dtype() == tf::DT_STRING) { auto x = a.flat<tf::tstring>(), y = b.flat<tf::tstring>(); for (int i = 0; i < x.size(); i++) if (x(i) != y(i)) return false; return true; }
  return a.tensor_data() == b.tensor_data();
}
static std::string Hex(const tf::Tensor& t) { std::string o; if (t.dtype() == tf::DT_STRING) return o; for (unsigned char c : t.tensor_data().substr(0, 64)) o += h::Fmt("%02x", c); return o; }
static void One(Rng& r) {
  for (int q = 0; q < 20; q++) {
    std::string d; tf::Tensor t = Random(r, &d); tf::Tensor keep = tf::tensor::DeepCopy(t);
    T("tensor %s content %s", d.c_str(), Hex(t).c_str());
    tf::Tensor e = DeltaEncode(t, true), back = DeltaEncode(e, false);
    EXPECT(Same(t, keep), "delta encoding changed its argument (%s)", d.c_str());
    EXPECT(e.dtype() == t.dtype() && e.shape() == t.shape(), "delta encoding changed type or shape of %s", d.c_str());
    EXPECT(Same(back, t), "delta encoding of %s is not undone by decoding: %s becomes %s", d.c_str(), Hex(t).c_str(), Hex(back).c_str());
    bool integral = tf::DataTypeIsInteger(t.dtype());
    if (!integral || t.dims() < 2) EXPECT(Same(e, t), "a tensor that is not delta encoded was changed (%s)", d.c_str());
    else if (t.NumElements()) {
      size_t w = tf::DataTypeSize(t.dtype()), row = t.NumElements() / t.dim_size(0); auto* a = (const unsigned char*)t.tensor_data().data(); auto* b = (const unsigned char*)e.tensor_data().data();
      for (size_t i = 0; i < (size_t)t.NumElements(); i++) { uint64_t x = 0, y = 0, z = 0; memcpy(&x, a + i * w, w); memcpy(&z, b + i * w, w); if (i >= row) memcpy(&y, a + (i - row) * w, w); uint64_t want = x - y; if (w < 8) want &= (1ull << (8 * w)) - 1; EXPECT(z == want, "delta of element %d of %s", (int)i, d.c_str()); }
    }
    tf::TensorProto p; CompressTensorAsProto(r.p(0.5) ? t : e, &p); const tf::Tensor& src = t;
    tf::Tensor u = DecompressTensorFromProto(p);
    EXPECT(Same(u, src) || Same(u, e), "%s does not survive compression", d.c_str());
    tf::TensorProto p2; CompressTensorAsProto(t, &p2);
    EXPECT(p2.dtype() == t.dtype() && tf::TensorShape(p2.tensor_shape()) == t.shape(), "the message does not record type and shape");
    std::string wire = p2.SerializeAsString(); tf::TensorProto p3; EXPECT(p3.ParseFromString(wire), "message cannot be parsed");
    EXPECT(Same(DecompressTensorFromProto(p3), t), "%s does not survive compression and transport", d.c_str());
  }
}
static void List(Rng& r) {
  std::vector<tf::Tensor> ts; std::string d; int n = r.in(0, 5);
  for (int i = 0; i < n; i++) { ts.push_back(Random(r, &d)); T("list tensor %d: %s", i, d.c_str()); }
  auto e = DeltaEncodeList(ts, true); EXPECT((int)e.size() == n, "list of %d tensors becomes %d", n, (int)e.size());
  auto b = DeltaEncodeList(e, false); EXPECT((int)b.size() == n, "list of %d tensors becomes %d", n, (int)b.size());
  for (int i = 0; i < n; i++) { EXPECT(Same(e[i], DeltaEncode(ts[i], true)), "list encoding differs from encoding of element %d", i); EXPECT(Same(b[i], ts[i]), "element %d of the list does not survive", i); }
}
static void Large(Rng& r) {
  std::string d; tf::Tensor t(tf::DT_INT32, tf::TensorShape({r.in(2, 20), r.in(1, 5000)})); auto f = t.flat<int>(); bool noise = r.p(0.5); for (int i = 0; i < f.size(); i++) f(i) = noise ? (int)r.u64() : i / 100;
  T("large tensor %s %s", t.shape().DebugString().c_str(), noise ? "noise" : "ramp");
  tf::TensorProto p; CompressTensorAsProto(t, &p); EXPECT(Same(DecompressTensorFromProto(p), t), "large tensor does not survive compression");
  EXPECT(Same(DeltaEncode(DeltaEncode(t, true), false), t), "large tensor does not survive delta encoding");
}
void h::Run(const std::string&) {
  Trials("tensor", 0.6, 1000000, One);
  Trials("list", 0.2, 1000000, List);
  Trials("large", 0.2, 1000000, Large);
}
