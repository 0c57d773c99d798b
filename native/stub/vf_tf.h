// Stand-in for the part of TensorFlow's C++ API the kernels of /repo/operations use: a contract of that API in executable form.
// Only the API is here; the kernels themselves are compiled from /repo's files, unchanged.
#ifndef VF_TF_H
#define VF_TF_H
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <memory>
#include <limits>
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <type_traits>
#include <utility>

extern "C" {
void vf_check_failed(int line);      // CHECK: aborts the process in TensorFlow; does not return
void* vf_alloc(unsigned long n);
}
#define VF_MAXD 10

struct VfTensor { int dtype; int ndims; int64_t dims[VF_MAXD]; void* data; };
struct VfCall {
  int n_in; int n_attr; int threads; int status;
  int64_t shard;                      // how many units a shard of Shard() gets
  int64_t attr_key[4]; int64_t attr_val[4];
  VfTensor in[4];
  VfTensor out;
  void* out_buf; int out_dtype;
};

namespace tensorflow {
using int8 = int8_t; using int16 = int16_t; using int32 = int32_t; using int64 = int64_t;
using uint8 = uint8_t; using uint16 = uint16_t; using uint32 = uint32_t; using uint64 = uint64_t;
enum DataType { DT_INVALID = 0, DT_DOUBLE = 2, DT_INT32 = 3, DT_INT16 = 5, DT_INT8 = 6, DT_INT64 = 9, DT_BOOL = 10, DT_UINT64 = 23 };
static const char* const DEVICE_CPU = "CPU";
template <class T> struct VfType { static constexpr int v = DT_INVALID; };
template <> struct VfType<double> { static constexpr int v = DT_DOUBLE; };
template <> struct VfType<int8> { static constexpr int v = DT_INT8; };
template <> struct VfType<int16> { static constexpr int v = DT_INT16; };
template <> struct VfType<int32> { static constexpr int v = DT_INT32; };
template <> struct VfType<int64> { static constexpr int v = DT_INT64; };
template <> struct VfType<bool> { static constexpr int v = DT_BOOL; };
template <> struct VfType<uint64> { static constexpr int v = DT_UINT64; };

class Status {
  bool ok_;
 public:
  Status() : ok_(true) {}
  explicit Status(bool ok) : ok_(ok) {}
  bool ok() const { return ok_; }
  static Status OK() { return Status(); }
};
namespace errors {
template <class... A> Status InvalidArgument(A&&...) { return Status(false); }
template <class... A> Status Internal(A&&...) { return Status(false); }
template <class... A> Status Unimplemented(A&&...) { return Status(false); }
template <class... A> Status OutOfRange(A&&...) { return Status(false); }
}  // namespace errors

#define VF_CHECK(c) do { if (!(c)) ::vf_check_failed(__LINE__); } while (0)
#define CHECK(c) VF_CHECK(c)
#define CHECK_EQ(a, b) VF_CHECK((a) == (b))
#define CHECK_NE(a, b) VF_CHECK((a) != (b))
#define CHECK_LT(a, b) VF_CHECK((a) < (b))
#define CHECK_LE(a, b) VF_CHECK((a) <= (b))
#define CHECK_GT(a, b) VF_CHECK((a) > (b))
#define CHECK_GE(a, b) VF_CHECK((a) >= (b))
#define TF_CHECK_OK(s) VF_CHECK((s).ok())
#define DCHECK(c) VF_CHECK(c)

class TensorShape {
  int n_ = 0;
  int64 d_[VF_MAXD] = {0};
 public:
  TensorShape() {}
  TensorShape(std::initializer_list<int64> l) { for (int64 x : l) AddDim(x); }
  int dims() const { return n_; }
  int64 dim_size(int i) const { VF_CHECK(i >= 0 && i < n_); return d_[i]; }
  int64 num_elements() const { int64 r = 1; for (int i = 0; i < n_; ++i) r *= d_[i]; return r; }
  void InsertDim(int at, int64 size) {
    VF_CHECK(at >= 0 && at <= n_ && n_ < VF_MAXD);
    for (int i = n_; i > at; --i) d_[i] = d_[i - 1];
    d_[at] = size; ++n_;
  }
  void AddDim(int64 size) { InsertDim(n_, size); }
  void RemoveDim(int at) { VF_CHECK(at >= 0 && at < n_); for (int i = at; i + 1 < n_; ++i) d_[i] = d_[i + 1]; --n_; }
  void RemoveLastDims(int k) { VF_CHECK(k <= n_); n_ -= k; }
  void set_dim(int at, int64 size) { VF_CHECK(at >= 0 && at < n_); d_[at] = size; }
  bool operator==(const TensorShape& o) const {
    if (n_ != o.n_) return false;
    for (int i = 0; i < n_; ++i) if (d_[i] != o.d_[i]) return false;
    return true;
  }
  bool operator!=(const TensorShape& o) const { return !(*this == o); }
  bool IsSameSize(const TensorShape& o) const { return *this == o; }
  const char* DebugString() const { return ""; }
};
struct TensorShapeUtils {
  static bool IsScalar(const TensorShape& s) { return s.dims() == 0; }
  static bool IsVector(const TensorShape& s) { return s.dims() == 1; }
  static bool IsMatrix(const TensorShape& s) { return s.dims() == 2; }
  template <class I> static Status MakeShape(const I* d, int64 n, TensorShape* out) {
    *out = TensorShape();
    for (int64 i = 0; i < n; ++i) out->AddDim(d[i]);
    return Status::OK();
  }
};

template <class T> struct VfFlat {
  T* p; int64 n;
  T* data() const { return p; }
  int64 size() const { return n; }
  T& operator()(int64 i) const { return p[i]; }
};
template <class T> struct VfScalar { T* p; T& operator()() const { return *p; } };

class Tensor {
  DataType t_ = DT_INVALID;
  TensorShape s_;
  void* p_ = nullptr;
  static int64 size_of(DataType t) {
    return t == DT_INT8 || t == DT_BOOL ? 1 : t == DT_INT16 ? 2 : t == DT_INT32 ? 4 : 8;
  }
 public:
  Tensor() {}
  Tensor(DataType t, const TensorShape& s) : t_(t), s_(s), p_(vf_alloc(size_of(t) * s.num_elements() + 16)) {}
  Tensor(DataType t, const TensorShape& s, void* p) : t_(t), s_(s), p_(p) {}
  DataType dtype() const { return t_; }
  const TensorShape& shape() const { return s_; }
  int dims() const { return s_.dims(); }
  int64 dim_size(int i) const { return s_.dim_size(i); }
  int64 NumElements() const { return s_.num_elements(); }
  template <class T> VfFlat<T> flat() const {
    VF_CHECK(VfType<T>::v == t_);                   // TensorFlow aborts on another type
    return VfFlat<T>{(T*)p_, s_.num_elements()};
  }
  template <class T> VfScalar<T> scalar() const { VF_CHECK(s_.num_elements() == 1); return VfScalar<T>{(T*)p_}; }
};
namespace tensor {
inline Status MakeShape(const Tensor& t, TensorShape* out) {
  *out = TensorShape();
  for (int64 i = 0; i < t.NumElements(); ++i)
    out->AddDim(t.dtype() == DT_INT32 ? (int64)t.flat<int32>()(i) : t.flat<int64>()(i));
  return Status::OK();
}
}  // namespace tensor

namespace thread {
class ThreadPool {
 public:
  int n;
  int NumThreads() const { return n; }
  template <class F> void TransformRangeConcurrently(int64 block, int64 total, F fn) {   // fixed blocks, any order
    int64 k = (total + block - 1) / block;
    for (int64 i = k - 1; i >= 0; --i) fn(i * block, std::min((i + 1) * block, total));
  }
};
}  // namespace thread
struct VfWorkers { int num_threads; thread::ThreadPool* workers; };
struct VfDevice { VfWorkers w; const VfWorkers* tensorflow_cpu_worker_threads() const { return &w; } };

class OpKernelContext {
  VfCall* c_; Tensor in_[4]; Tensor out_; thread::ThreadPool pool_; VfDevice dev_;
 public:
  explicit OpKernelContext(VfCall* c) : c_(c) {
    for (int i = 0; i < c->n_in; ++i) {
      TensorShape s;
      for (int k = 0; k < c->in[i].ndims; ++k) s.AddDim(c->in[i].dims[k]);
      in_[i] = Tensor((DataType)c->in[i].dtype, s, c->in[i].data);
    }
    pool_.n = c->threads; dev_.w.num_threads = c->threads; dev_.w.workers = &pool_;
  }
  const Tensor& input(int i) const { VF_CHECK(i >= 0 && i < c_->n_in); return in_[i]; }
  int num_inputs() const { return c_->n_in; }
  Status allocate_output(int i, const TensorShape& s, Tensor** out) {
    VF_CHECK(i == 0);
    c_->out.ndims = s.dims();
    for (int k = 0; k < s.dims(); ++k) c_->out.dims[k] = s.dim_size(k);
    c_->out.dtype = c_->out_dtype;
    out_ = Tensor((DataType)c_->out_dtype, s, c_->out_buf);
    *out = &out_;
    return Status::OK();
  }
  VfDevice* device() { return &dev_; }
  void CtxFailure(const Status&) { c_->status = 1; }
  void SetStatus(const Status& s) { if (!s.ok()) c_->status = 1; }
  int64 vf_shard() const { return c_->shard; }
};
class OpKernelConstruction {
  VfCall* c_;
 public:
  explicit OpKernelConstruction(VfCall* c) : c_(c) {}
  template <class T> Status GetAttr(const char* name, T* v) const {
    for (int i = 0; i < c_->n_attr; ++i)
      if (c_->attr_key[i] == (int64)name[0] * 65536 + (int64)name[1] * 256 + (int64)name[2]) { *v = (T)c_->attr_val[i]; return Status::OK(); }
    return Status(false);
  }
  void CtxFailure(const Status&) { c_->status = 1; }
};
class OpKernel {
 public:
  explicit OpKernel(OpKernelConstruction*) {}
  virtual ~OpKernel() {}
  virtual void Compute(OpKernelContext* ctx) = 0;
};
#define OP_REQUIRES(ctx, c, s) do { if (!(c)) { (ctx)->CtxFailure(s); return; } } while (0)
#define OP_REQUIRES_OK(ctx, s) do { if (!(s).ok()) { (ctx)->CtxFailure(::tensorflow::Status(false)); return; } } while (0)
#define TF_RETURN_IF_ERROR(s) do { auto vf_s = (s); if (!vf_s.ok()) return vf_s; } while (0)

extern "C" int64_t vf_shard_size;
// contract of Shard: `work` is called on contiguous disjoint ranges that cover [0, total)
template <class F> void Shard(int, thread::ThreadPool*, int64 total, int64, F work) {
  int64 step = vf_shard_size > 0 ? vf_shard_size : total;
  for (int64 i = 0; i < total; i += step) work(i, std::min(i + step, total));
}

namespace shape_inference {
struct DimensionHandle {}; struct ShapeHandle {};
struct InferenceContext {
  ShapeHandle input(int) { return {}; }
  int32 Rank(ShapeHandle) { return 0; }
  int64 Value(DimensionHandle) { return 0; }
  DimensionHandle Dim(ShapeHandle, int) { return {}; }
  DimensionHandle MakeDim(int64) { return {}; }
  ShapeHandle MakeShape(const std::vector<DimensionHandle>&) { return {}; }
  ShapeHandle MakeShape(std::initializer_list<DimensionHandle>) { return {}; }
  void set_output(int, ShapeHandle) {}
  Status MakeShapeFromShapeTensor(int, ShapeHandle*) { return {}; }
  Status WithRank(ShapeHandle, int64, ShapeHandle*) { return {}; }
  Status WithValue(DimensionHandle, int64, DimensionHandle*) { return {}; }
  template <class T> Status GetAttr(const char*, T*) { return {}; }
};
inline Status UnchangedShape(InferenceContext*) { return {}; }
inline Status BroadcastBinaryOpShapeFn(InferenceContext*) { return {}; }
inline Status BroadcastBinaryOpOutputShapeFnHelper(InferenceContext*, ShapeHandle, ShapeHandle, bool, ShapeHandle*) { return {}; }
inline Status ScalarShape(InferenceContext*) { return {}; }
}  // namespace shape_inference

struct VfOpDef {   // registration of the interface: types and static shapes, not behaviour
  VfOpDef& Input(const char*) { return *this; }
  VfOpDef& Output(const char*) { return *this; }
  VfOpDef& Attr(const char*) { return *this; }
  VfOpDef& SetIsStateful() { return *this; }
  VfOpDef& Doc(const char*) { return *this; }
  template <class F> VfOpDef& SetShapeFn(F) { return *this; }
};
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
#define REGISTER_OP(name) static ::tensorflow::VfOpDef VF_CAT(vf_opdef_, __COUNTER__) __attribute__((unused)) = ::tensorflow::VfOpDef()

struct VfKernelDef {
  const char* name; int type = 0;
  explicit VfKernelDef(const char* n) : name(n) {}
  VfKernelDef& Device(const char*) { return *this; }
  template <class T> VfKernelDef& TypeConstraint(const char*) { type = VfType<T>::v; return *this; }
  VfKernelDef& HostMemory(const char*) { return *this; }
};
#define Name(n) ::tensorflow::VfKernelDef(n)
#define REGISTER_KERNEL_BUILDER(def, ...) VF_REG(__COUNTER__, def, __VA_ARGS__)
#define VF_REG(k, def, ...) VF_REG_(k, def, __VA_ARGS__)
#define VF_REG_(k, def, ...)                                                                             \
  extern "C" int vf_kernel_##k(const char** n) { auto d = def; *n = d.name; return d.type; }             \
  extern "C" void vf_run_##k(VfCall* c) {                                                                \
    ::tensorflow::OpKernelConstruction cons(c);                                                          \
    __VA_ARGS__* kern = new (vf_alloc(sizeof(__VA_ARGS__))) __VA_ARGS__(&cons);                          \
    if (c->status) return;                                                                               \
    ::tensorflow::OpKernelContext ctx(c);                                                                \
    ::tensorflow::OpKernel* base = kern; base->Compute(&ctx);                                            \
  }
namespace random {
// as tensorflow/core/lib/random/random_distributions.h documents it: a + b without signed overflow
template <typename Int> Int SignedAdd(Int a, typename std::make_unsigned<Int>::type b) {
  auto b_div_2 = b >> 1;
  return a + static_cast<Int>(b_div_2) + static_cast<Int>(b - b_div_2);
}
}  // namespace random
}  // namespace tensorflow
#endif
