#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

constexpr long SB = 1 << 18;

// An element that records what is assigned to it.
struct V;
struct Fresh { long id; };                       // a generator result
template <size_t N> struct At { long i[N + 1]; };  // the result of a pattern function for the index i
struct V {
  long id;
  V() { vc_touch1(vc::DCTOR, this); }
  explicit V(long id) : id(id) {}
  V(const V& o) : id(o.id) {}
  V& operator=(const V& o) { vc::visit(vc::ASSIGN, vc_rid(this), vc_off(this), o.id); return *this; }
  V& operator=(const Fresh& o) { vc_touch1(vc::ASSIGN, this); vc::visit(vc::READ, o.id); return *this; }
  template <size_t N> V& operator=(const At<N>& o) {
    long v[N + 3] = {vc_rid(this), vc_off(this)};
    for (size_t d = 0; d < N; d++) v[2 + d] = o.i[d];
    vc_visit(vc::ASSIGN, 2 + N, v);
    return *this;
  }
};
constexpr long W = sizeof(V);

// The multiset ASSIGN is { (p + offset(i), value) }.
template <size_t N> void filled(const void* p, const long* st, const long* ex, long value) {
  long base[] = {vc_rid(p), vc_off(p), value};
  long dims[N * 4 + 1];
  for (size_t d = 0; d < N; d++) dims[d * 4] = ex[d], dims[d * 4 + 1] = 0, dims[d * 4 + 2] = st[d] * W, dims[d * 4 + 3] = 0;
  vc_reset(vc::SPEC);
  vc_box(vc::SPEC, 1, 3, N, base, dims);
  vc_same(vc::ASSIGN, vc::SPEC, "the value is assigned to each element once");
}
template <class S> void fills() {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  V* p = (V*)vc_region("dst");
  long value = vc_range("value", -100, 100);
  fill(array_ref<V, S>(p, a.s), V(value));
  filled<S::rank()>(p, a.st, a.ex, value);
}
CONTRACT(P11_fill0) { fills<S0>(); }
CONTRACT(P11_fill1) { fills<S1>(); }
CONTRACT(P11_fill2) { fills<S2>(); }
CONTRACT(P11_fillD1) { fills<D1>(); }
CONTRACT(P11_fillD2) { fills<D2>(); }
CONTRACT(P11_fillB2) { fills<B2>(); }
CONTRACT(P11_fillF2) { fills<F2>(); }
CONTRACT(P11_fillM2) { fills<M2>(); }
CONTRACT(P11_fill_matrix) { fills<matrix_shape<>>(); }
CONTRACT(P11_fill_planar) { fills<planar_image_shape>(); }
CONTRACT(P11_fill_chunky) { fills<chunky_image_shape<3>>(); }
CONTRACT_T(P11_fill_chunky_strided) { fills<chunky_image_shape<3, dynamic>>(); }

// An array.
template <class S, class Al> void fill_array() {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  array<V, S, Al> x(a.s);
  long value = vc_range("value", -100, 100);
  fill(x, V(value));
  filled<S::rank()>(x.base(), a.st, a.ex, value);
}
CONTRACT(P11_fill_array1) { fill_array<S1, plain_alloc<V>>(); }
CONTRACT(P11_fill_arrayD2) { fill_array<D2, plain_alloc<V>>(); }

// generate: one new result per element.
template <size_t N> void generated(const void* p, const long* st, const long* ex) {
  long s[N + 1], c = 1;
  for (size_t d = 0; d < N; d++) s[d] = st[d] * W, c *= ex[d];
  vc::each<N>(vc::ASSIGN, p, s, ex, "each element is assigned once");
  vc_reset(vc::SPEC);
  long b[1] = {0}, d1[2] = {c, 1};
  vc_box(vc::SPEC, 1, 1, 1, b, d1);
  vc_same(vc::READ, vc::SPEC, "each element is assigned one fresh result");
}
static long calls;
struct Gen {
  Fresh operator()() const { return Fresh{calls++}; }
};
template <class S> void generates() {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  V* p = (V*)vc_region("dst");
  calls = 0;
  generate(array_ref<V, S>(p, a.s), Gen());
  generated<S::rank()>(p, a.st, a.ex);
  long c = 1;
  for (size_t d = 0; d < S::rank(); d++) c *= a.ex[d];
  vc_ensures(calls == c, "the generator is called once per element");
}
CONTRACT(P11_generate0) { generates<S0>(); }
CONTRACT(P11_generate1) { generates<S1>(); }
CONTRACT(P11_generate2) { generates<S2>(); }
CONTRACT(P11_generateD2) { generates<D2>(); }
CONTRACT(P11_generateF2) { generates<F2>(); }
CONTRACT(P11_generate_matrix) { generates<matrix_shape<>>(); }
CONTRACT(P11_generate_chunky) { generates<chunky_image_shape<3>>(); }
CONTRACT(P11_generate_array1) {
  vc::arb<S1> a(1, vc::B, "min", "extent", "stride", SB);
  array<V, S1, plain_alloc<V>> x(a.s);
  calls = 0;
  generate(x, Gen());
  generated<1>(x.base(), a.st, a.ex);
}

// transform_index and transform_indices: each element gets the result for its own index.
template <size_t N> void transformed(const void* p, const long* mn, const long* st, const long* ex) {
  constexpr size_t A = 2 + N;
  long base[A] = {vc_rid(p), vc_off(p)};
  long dims[N * (A + 1) + 1];
  for (size_t d = 0; d < N; d++) {
    base[2 + d] = mn[d];
    long* r = dims + d * (A + 1);
    r[0] = ex[d], r[1] = 0, r[2] = st[d] * W;
    for (size_t e = 0; e < N; e++) r[3 + e] = d == e;
  }
  vc_reset(vc::SPEC);
  vc_box(vc::SPEC, 1, A, N, base, dims);
  vc_same(vc::ASSIGN, vc::SPEC, "each element is assigned the result for its own index, once");
}
template <size_t... Is, class T> At<sizeof...(Is)> at_index(vc::index_sequence<Is...>, const T& t) {
  return At<sizeof...(Is)>{{(long)std::get<Is>(t)...}};
}
struct Fn {
  template <class T> At<std::tuple_size<T>::value> operator()(const T& t) const {
    return at_index(vc::make_index_sequence<std::tuple_size<T>::value>(), t);
  }
};
struct Fns {
  template <class... X> At<sizeof...(X)> operator()(X... x) const { return At<sizeof...(X)>{{(long)x...}}; }
};
template <class S> void transforms(bool tuple) {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  V* p = (V*)vc_region("dst");
  array_ref<V, S> x(p, a.s);
  if (tuple) {
    transform_index(x, Fn());
  } else {
    transform_indices(x, Fns());
  }
  transformed<S::rank()>(p, a.mn, a.st, a.ex);
}
CONTRACT(P11_transform_index0) { transforms<S0>(true); }
CONTRACT(P11_transform_index1) { transforms<S1>(true); }
CONTRACT(P11_transform_index2) { transforms<S2>(true); }
CONTRACT(P11_transform_index3) { transforms<S3>(true); }
CONTRACT(P11_transform_index4) { transforms<S4>(true); }
CONTRACT(P11_transform_indexD2) { transforms<D2>(true); }
CONTRACT(P11_transform_indexF2) { transforms<F2>(true); }
CONTRACT(P11_transform_indexM2) { transforms<M2>(true); }
CONTRACT(P11_transform_index_matrix) { transforms<matrix_shape<>>(true); }
CONTRACT(P11_transform_index_chunky) { transforms<chunky_image_shape<3>>(true); }
CONTRACT(P11_transform_index_planar) { transforms<planar_image_shape>(true); }
CONTRACT(P11_transform_indices0) { transforms<S0>(false); }
CONTRACT(P11_transform_indices1) { transforms<S1>(false); }
CONTRACT(P11_transform_indices2) { transforms<S2>(false); }
CONTRACT(P11_transform_indices3) { transforms<S3>(false); }
CONTRACT(P11_transform_indicesF3) { transforms<F3>(false); }
CONTRACT(P11_transform_indices_matrix) { transforms<matrix_shape<>>(false); }
CONTRACT(P11_transform_indices_chunky) { transforms<chunky_image_shape<>>(false); }

// Arrays (with the default allocator; the overloads take no other).
template <class S> void transform_array(bool tuple) {
  vc::arb<S> a(1, 1024, "min", "extent", "stride", SB);
  array<V, S> x(a.s);
  if (tuple) {
    transform_index(x, Fn());
  } else {
    transform_indices(x, Fns());
  }
  transformed<S::rank()>(x.base(), a.mn, a.st, a.ex);
}
CONTRACT(P11_transform_array1) { transform_array<S1>(true); }
CONTRACT(P11_transform_arrayD2) { transform_array<D2>(false); }

// Empty arrays: nothing happens.
template <class S, int K> void empties() {
  vc::arb<S> a(0, vc::B, "min", "extent", "stride", SB);
  REQUIRES(a.ex[K] == 0);
  array_ref<V, S> x(vc_bool("null") ? nullptr : (V*)vc_region("dst"), a.s);
  calls = 0;
  long k = vc_range("operation", 0, 3);
  if (k == 0) fill(x, V(1));
  if (k == 1) generate(x, Gen());
  if (k == 2) transform_index(x, Fn());
  if (k == 3) transform_indices(x, Fns());
  vc::none(vc::ASSIGN, "nothing is written");
  vc_ensures(calls == 0, "the generator is not called");
}
CONTRACT(P11_empty1) { empties<S1, 0>(); }
CONTRACT(P11_empty2_0) { empties<S2, 0>(); }
CONTRACT(P11_empty2_1) { empties<S2, 1>(); }
