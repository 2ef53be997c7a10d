#include "ein.h"
#include "array/matrix.h"
using namespace ev;
using vc::dyn;

// ---- ein_reduce asserts exactly when the bounds do not match, before it touches an element.
#define ASSERTS(ok, ...)                                                                     \
  bool match = ok;                                                                           \
  vc_abort_if(!match);                                                                       \
  __VA_ARGS__;                                                                               \
  vc_ensures(match, "bounds that do not match reach an assert");

CONTRACT(P18_dot) {
  res<S0> r; opa<S1> a; opb<S1> b;
  ASSERTS(agree(a, 0, b, 0), ein_reduce(ein(*r.p) += ein<i>(a.r) * ein<i>(b.r)))
}
CONTRACT(P18_dot_types) {
  res<S0> r; opa<shape<dim<dyn, 5>>> a; opb<shape<dim<2, dyn, 3>>> b;
  ASSERTS(agree(a, 0, b, 0), ein_reduce(ein(*r.p) += ein<i>(a.r) * ein<i>(b.r)))
}
CONTRACT(P18_dot3) {
  res<S0> r; opa<S1> a; opb<D1> b;
  arr<S1, const V> c("C", "cmin", "cextent", "cstride");
  ASSERTS(agree(a, 0, b, 0) & agree(a, 0, c, 0), ein_reduce(ein(*r.p) -= (ein<i>(a.r) + ein<i>(b.r)) / ein<i>(c.r)))
}
CONTRACT(P18_sum3) {
  res<S0> r; opa<S1> a; opb<D1> b;
  arr<S1, const V> c("C", "cmin", "cextent", "cstride");
  ASSERTS(agree(a, 0, b, 0) & agree(a, 0, c, 0), ein_reduce(ein(*r.p) = ein<i>(a.r) - ein<i>(b.r) * -ein<i>(c.r)))
}
template <class R, class A> void copy() {
  res<R> r; opa<A> a;
  ASSERTS(fine(r, 0, a, 0), ein_reduce(ein<i>(r.r) = -ein<i>(a.r)))
}
CONTRACT(P18_copy) { copy<S1, S1>(); }
CONTRACT(P18_copyD1) { copy<D1, D1>(); }
CONTRACT(P18_copy_fixed) { copy<shape<dim<dyn, 5>>, S1>(); }
CONTRACT(P18_copy_fixed_operand) { copy<S1, shape<dim<-1, 6>>>(); }
template <class R, class A> void transposed() {
  res<R> r; opa<A> a;
  ASSERTS(fine(r, 0, a, 1) & fine(r, 1, a, 0), ein_reduce(ein<i, j>(r.r) = -ein<j, i>(a.r)))
}
CONTRACT(P18_transpose) { transposed<S2, S2>(); }
CONTRACT(P18_transposeD2) { transposed<D2, S2>(); }
CONTRACT(P18_transpose_matrix) { transposed<matrix_shape<>, matrix_shape<>>(); }
CONTRACT(P18_outer) {
  res<S2> r; opa<S1> a; opb<S1> b;
  ASSERTS(fine(r, 0, a, 0) & fine(r, 1, b, 0), ein_reduce(ein<i, j>(r.r) += ein<i>(a.r) * ein<j>(b.r)))
}
CONTRACT(P18_rows) {
  res<S1> r; opa<S2> a;
  ASSERTS(fine(r, 0, a, 0), ein_reduce(ein<i>(r.r) += -ein<i, j>(a.r)))
}
CONTRACT(P18_columns) {
  res<S1> r; opa<S2> a;
  ASSERTS(fine(r, 0, a, 1), ein_reduce(ein<j>(r.r) += -ein<i, j>(a.r)))
}
CONTRACT(P18_mat_vec) {
  res<S1> r; opa<S2> a; opb<S1> b;
  ASSERTS(fine(r, 0, a, 0) & agree(a, 1, b, 0), ein_reduce(ein<i>(r.r) += ein<i, j>(a.r) * ein<j>(b.r)))
}
template <class R, class A, class B, size_t I, size_t J, size_t K> void mat_mul() {
  res<R> r; opa<A> a; opb<B> b;
  ASSERTS(fine(r, 0, a, 0) & fine(r, 1, b, 1) & agree(a, 1, b, 0), ein_reduce(ein<I, J>(r.r) += ein<I, K>(a.r) * ein<K, J>(b.r)))
}
CONTRACT(P18_mat_mul) { mat_mul<S2, S2, S2, 0, 1, 2>(); }
CONTRACT(P18_mat_mul_order) { mat_mul<S2, S2, S2, 1, 2, 0>(); }
CONTRACT(P18_mat_mul_matrix) { mat_mul<matrix_shape<>, matrix_shape<>, matrix_shape<>, 1, 0, 2>(); }
CONTRACT(P18_mat_mul_fixed) { mat_mul<matrix_shape<dyn, 4>, D2, matrix_shape<3, 4>, 1, 0, 2>(); }
// A callable has no bounds.
struct any1 {
  const V* p;
  const V& operator()(index_t) const { return *p; }
};
CONTRACT(P18_callable) {
  res<S1> r; opa<S1> a;
  ASSERTS(fine(r, 0, a, 0), ein_reduce(ein<i>(r.r) += ein<i>(any1{r.p}) * ein<i>(a.r)))
}

// ---- inferred shapes
template <class S, size_t... Is> void get(const S& s, long* m, long* e, long* st, vc::index_sequence<Is...>) {
  int u[] = {0, (m[Is] = s.template dim<Is>().min(), e[Is] = s.template dim<Is>().extent(), st[Is] = s.template dim<Is>().stride(), 0)...};
  (void)u;
}
template <class S> void compact(const S& s, const long* mn, const long* ex) {
  constexpr size_t N = S::rank();
  long m[N + 1], e[N + 1], st[N + 1], n = 1;
  get(s, m, e, st, vc::make_index_sequence<N>());
  for (size_t d = 0; d < N; d++) vc_ensures((m[d] == mn[d]) & (e[d] == ex[d]), "a dimension has the bounds of the operand dimension named by its index"), n *= ex[d];
  if (n > 0) {
    vc_ensures((long)s.flat_extent() == n, "the result is compact");
    vc_ensures((long)s.flat_min() == 0, "the result is compact");
    for (size_t d = 0; d < N; d++) {
      vc_ensures(st[d] > 0, "the result is compact");
      for (size_t c = 0; c < d; c++) vc_ensures((ex[c] == 1) | (ex[d] == 1) | (st[c] >= st[d] * ex[d]) | (st[d] >= st[c] * ex[c]), "no two dimensions of the result overlap");
    }
  }
}
CONTRACT(P18_shape_dot) {
  vc_mode(1);
  opa<S1> a; opb<S1> b;
  auto s = make_ein_reduce_shape<>(ein<i>(a.r) * ein<i>(b.r));
  static_assert(decltype(s)::rank() == 0, "rank of the result");
  ENSURES((long)s.size() == 1);
}
template <class A> void shape1() {
  opa<A> a;
  auto s = make_ein_reduce_shape<i>(-ein<i>(a.r));
  compact(s, a.mn, a.ex);
}
CONTRACT(P18_shape1) { shape1<S1>(); }
CONTRACT(P18_shape1D) { shape1<D1>(); }
CONTRACT(P18_shape1_fixed) { shape1<shape<dim<2, 5, 7>>>(); }
template <class A, size_t I, size_t J> void shape2() {
  vc_mode(1);
  opa<A> a;
  auto s = make_ein_reduce_shape<I, J>(-ein<i, j>(a.r));
  long mn[] = {a.mn[I], a.mn[J]}, ex[] = {a.ex[I], a.ex[J]};
  compact(s, mn, ex);
  compact(make_ein_reduce_shape<J>(ein<i, j>(a.r)), mn + 1, ex + 1);
}
CONTRACT(P18_shape2) { shape2<S2, i, j>(); }
CONTRACT(P18_shape2t) { shape2<S2, j, i>(); }
CONTRACT(P18_shape2D) { shape2<D2, j, i>(); }
CONTRACT(P18_shape2_fixed) { shape2<shape<dim<-1, 3>, dim<dyn, dyn, 3>>, j, i>(); }
template <class A> void shape3() {
  vc_mode(1);
  opa<A> a;
  auto s = make_ein_reduce_shape<2, 0, 1>(ein<0, 1, 2>(a.r));
  long mn[] = {a.mn[2], a.mn[0], a.mn[1]}, ex[] = {a.ex[2], a.ex[0], a.ex[1]};
  compact(s, mn, ex);
}
CONTRACT(P18_shape3) { shape3<S3>(); }
CONTRACT(P18_shape_mat_mul) {
  vc_mode(1);
  opa<S2> a; opb<matrix_shape<>> b;
  auto e = ein<i, k>(a.r) * ein<k, j>(b.r);
  long mn[] = {a.mn[0], b.mn[1], a.mn[0]}, ex[] = {a.ex[0], b.ex[1], a.ex[0]};
  compact(make_ein_reduce_shape<i, j>(e), mn, ex);
  compact(make_ein_reduce_shape<j, i>(e), mn + 1, ex + 1);
}
// The first operand that has an index gives its bounds; the others contain them.
CONTRACT(P18_shape_contained) {
  vc_mode(1);
  opa<S1> a; opb<S1> b;
  bool match = contains(b, 0, a, 0);
  vc_abort_if(!match);
  auto s = make_ein_reduce_shape<i>(ein<i>(a.r) * ein<i>(b.r));
  vc_ensures(match, "bounds that do not match reach an assert");
  compact(s, a.mn, a.ex);
}

// ---- make_ein_sum
// Elements that come from this allocator are initialised by its construct.
static const V* init0;
template <class T> struct maker {
  using value_type = T;
  maker() {}
  template <class U> maker(const maker<U>&) {}
  T* allocate(size_t n) { vc::visit(vc::ALLOC, n); return (T*)vc_region("heap"); }
  void deallocate(T* p, size_t n) {}
  template <class... A> void construct(T* p, const A&... a) { made(p, a...); }
  void made(T* p) { vc::visit(vc::DCTOR, vc_rid(p), vc_off(p)); }
  void made(T* p, const T& v) { vc::visit(vc::CTOR, vc_rid(p), vc_off(p), calls, &v == init0); }
  template <class U> void destroy(U*) {}
  friend bool operator==(const maker&, const maker&) { return true; }
  friend bool operator!=(const maker&, const maker&) { return false; }
};
template <class S> void made(const void* p, const S& s, const long* ex) {
  constexpr size_t N = S::rank();
  long m[N + 1], e[N + 1], st[N + 1], n = 1;
  get(s, m, e, st, vc::make_index_sequence<N>());
  long base[4] = {vc_rid(p), vc_off(p), 0, 1}, dims[N * 5 + 1];
  for (size_t d = 0; d < N; d++) {
    long* v = dims + d * 5;
    v[0] = ex[d], v[1] = 0, v[2] = st[d], v[3] = 0, v[4] = 0;
    n *= ex[d];
  }
  vc_reset(vc::SPEC);
  vc_box(vc::SPEC, 1, 4, N, base, dims);
  vc_same(vc::CTOR, vc::SPEC, "each element of the result is initialised to the init value, once, before the sum");
  if (N == 0) return;  // an array of rank 0 has memory from the start
  vc::none(vc::DCTOR, "no element is initialised otherwise");
  vc_reset(vc::SPEC);
  vc::visit(vc::SPEC, n);
  vc_same(vc::ALLOC, vc::SPEC, "the result is compact");
}
static void reset() { calls = 0; vc_reset(vc::CTOR), vc_reset(vc::DCTOR), vc_reset(vc::ALLOC), vc_reset(vc::VISIT); }
// the result as an operand
template <size_t... I, class S> opd result(const void* p, const S& s) {
  opd o{p, sizeof...(I), {I...}, {}, {}};
  long e[S::rank() + 1];
  get(s, o.mn, e, o.st, vc::make_index_sequence<S::rank()>());
  return o;
}
CONTRACT(P18_sum_dot) {
  opa<S1> a; opb<S1> b;
  REQUIRES(agree(a, 0, b, 0));
  V init;
  init0 = &init;
  reset();
  auto x = make_ein_sum<V>(ein<i>(a.r) * ein<i>(b.r), init, maker<V>());
  made(x.base(), x.shape(), nullptr);
  evaluated<1>(op2(ADDTO, code(MUL)), {scalar(x.base()), operand<i>(a.p, a), operand<i>(b.p, b)}, a.mn, a.ex);
}
template <class A> void sum_rows() {
  opa<A> a(1);
  V init;
  init0 = &init;
  reset();
  auto x = make_ein_sum<V, i>(-ein<i, j>(a.r), init, maker<V>());
  compact(x.shape(), a.mn, a.ex);
  made(x.base(), x.shape(), a.ex);
  evaluated<2>(op2(ADDTO, NEG * 10000 + LEAF), {result<i>(x.base(), x.shape()), operand<i, j>(a.p, a)}, a.mn, a.ex);
}
CONTRACT(P18_sum_rows) { sum_rows<S2>(); }
CONTRACT(P18_sum_rowsD2) { sum_rows<D2>(); }
CONTRACT(P18_sum_outer) {
  opa<S1> a(1); opb<D1> b(1);
  V init;
  init0 = &init;
  reset();
  auto x = make_ein_sum<V, i, j>(ein<i>(a.r) - ein<j>(b.r), init, maker<V>());
  long mn[] = {a.mn[0], b.mn[0]}, ex[] = {a.ex[0], b.ex[0]};
  compact(x.shape(), mn, ex);
  made(x.base(), x.shape(), ex);
  evaluated<2>(op2(ADDTO, code(SUB)), {result<i, j>(x.base(), x.shape()), operand<i>(a.p, a), operand<j>(b.p, b)}, mn, ex);
}
template <class A, class B> void sum_mat_vec() {
  opa<A> a(1); opb<B> b(1);
  REQUIRES(agree(a, 1, b, 0));
  V init;
  init0 = &init;
  reset();
  auto x = make_ein_sum<V, i>(ein<i, j>(a.r) * ein<j>(b.r), init, maker<V>());
  compact(x.shape(), a.mn, a.ex);
  made(x.base(), x.shape(), a.ex);
  evaluated<2>(op2(ADDTO, code(MUL)), {result<i>(x.base(), x.shape()), operand<i, j>(a.p, a), operand<j>(b.p, b)}, a.mn, a.ex);
}
CONTRACT(P18_sum_mat_vec) { sum_mat_vec<S2, S1>(); }
CONTRACT(P18_sum_mat_vec_matrix) { sum_mat_vec<matrix_shape<>, D1>(); }
CONTRACT(P18_sum_mismatch) {
  opa<S2> a(1); opb<S1> b(1);
  V init;
  ASSERTS(agree(a, 1, b, 0), make_ein_sum<V, i>(ein<i, j>(a.r) * ein<j>(b.r), init, plain_alloc<V>()))
}
CONTRACT(P18_sum_mat_mul) {
  opa<S2> a(1, 1 << 11); opb<S2> b(1, 1 << 11);
  REQUIRES(agree(a, 1, b, 0));
  V init;
  init0 = &init;
  reset();
  auto x = make_ein_sum<V, i, j>(ein<i, k>(a.r) * ein<k, j>(b.r), init, maker<V>());
  long mn[] = {a.mn[0], b.mn[1], a.mn[1]}, ex[] = {a.ex[0], b.ex[1], a.ex[1]};
  compact(x.shape(), mn, ex);
  made(x.base(), x.shape(), ex);
  evaluated<3>(op2(ADDTO, code(MUL)), {result<i, j>(x.base(), x.shape()), operand<i, k>(a.p, a), operand<k, j>(b.p, b)}, mn, ex);
}
// values
constexpr long Z = 1L << 20;
CONTRACT(P18_values) {
  long a = vc_range("a", -Z, Z), b = vc_range("b", -Z, Z), c = vc_range("init", -Z, Z);
  auto x = make_ein_sum<long>(ein(a) * ein(b), c);
  ENSURES(x() == c + a * b);
  auto y = make_ein_sum<long>(ein(a) - ein(b), 0);
  ENSURES(y() == a - b);
  auto z = make_ein_sum<long>(ein(a));
  ENSURES(z() == a);
}
