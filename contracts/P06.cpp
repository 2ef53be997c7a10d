#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

// transpose: dimension d of the result is dimension P_d of the original; unlisted trailing dimensions stay.
template <class S, size_t... P> struct tr {
  static constexpr size_t N = S::rank(), L = sizeof...(P);
  vc::arb<S> a;
  size_t p[N + 1];
  tr(long exlo = 0) : a(exlo) {
    size_t l[] = {P...};
    for (size_t d = 0; d < N; d++) p[d] = d < L ? l[d] : d;
  }
  template <class V, size_t... Js> void shape(const V& v, vc::index_sequence<Js...>) const {
    const long min[] = {v.template dim<Js>().min()..., 0};
    const long extent[] = {v.template dim<Js>().extent()..., 0};
    const long stride[] = {v.template dim<Js>().stride()..., 0};
    for (size_t d = 0; d < sizeof...(Js); d++) {
      vc_ensures(min[d] == a.mn[p[d]], "min of the listed dimension");
      vc_ensures(extent[d] == a.ex[p[d]], "extent of the listed dimension");
      vc_ensures(stride[d] == a.st[p[d]], "stride of the listed dimension");
    }
  }
  template <class V> void shape(const V& v) const {
    static_assert(V::rank() == N, "all dimensions stay");
    shape(v, vc::make_index_sequence<N>());
  }
  template <class V, class R, size_t... Is> void view(const V& v, const R& r, vc::index_sequence<Is...>) const {
    shape(v.shape());
    vc_ensures(v.base() == r.base(), "the base stays");
    long x[] = {vc_rangei("x", Is, -vc::B, vc::B)...};
    typename R::index_type full{x[Is]...};
    typename std::decay<V>::type::index_type part{x[p[Is]]...};
    vc_ensures(vc::at(&v[part], &r[full], 0), "the element at the permuted index is the same element");
  }
  template <class V, class R> void view(const V& v, const R& r) const { view(v, r, vc::make_index_sequence<N>()); }
};

template <class S, size_t... P> void tref() {
  tr<S, P...> c;
  const S& s = c.a.s;
  c.shape(transpose<P...>(s));
  S copy = s;
  c.shape(transpose<P...>(copy));
}
// Array_refs: the full permutation.
template <class S, size_t... P> void trefs() {
  tr<S, P...> c;
  array_ref<X, S> r(xregion("a"), c.a.s);
  c.view(transpose<P...>(r), r);
  const_array_ref<X, S> q = r.cref();
  c.view(transpose<P...>(q), q);
  c.shape(reorder<P...>(c.a.s));
  c.view(reorder<P...>(r), r);
  c.view(reorder<P...>(q), q);
}
template <class S, size_t... P> void tarr() {
  tr<S, P...> c(1);
  array<X, S, plain_alloc<X>> r(c.a.s);
  const auto& q = r;
  c.view(transpose<P...>(r), r);
  c.view(transpose<P...>(q), q);
  c.view(reorder<P...>(r), r);
  c.view(reorder<P...>(q), q);
}
CONTRACT(P06_transpose1) { tref<S1, 0>(); }
CONTRACT(P06_transpose2_0) { tref<S2, 0>(); }
CONTRACT(P06_transpose2_10) { tref<S2, 1, 0>(); }
CONTRACT(P06_transpose2_01) { tref<S2, 0, 1>(); }
CONTRACT(P06_transpose3_10) { tref<S3, 1, 0>(); }
CONTRACT(P06_transpose3_210) { tref<S3, 2, 1, 0>(); }
CONTRACT(P06_transpose3_120) { tref<S3, 1, 2, 0>(); }
CONTRACT(P06_transpose3_201) { tref<S3, 2, 0, 1>(); }
CONTRACT(P06_transpose3_021) { tref<S3, 0, 2, 1>(); }
CONTRACT(P06_transpose4_2013) { tref<S4, 2, 0, 1, 3>(); }
CONTRACT(P06_transpose4_201) { tref<S4, 2, 0, 1>(); }
CONTRACT(P06_transpose4_3102) { tref<S4, 3, 1, 0, 2>(); }
CONTRACT(P06_transposeD3) { tref<D3, 1, 2, 0>(); }
CONTRACT(P06_transposeF3) { tref<F3, 1, 2, 0>(); }
CONTRACT(P06_transposeM2) { tref<M2, 1, 0>(); }
CONTRACT(P06_ref1) { trefs<S1, 0>(); }
CONTRACT(P06_ref2_10) { trefs<S2, 1, 0>(); }
CONTRACT(P06_ref3_120) { trefs<S3, 1, 2, 0>(); }
CONTRACT(P06_ref3_201) { trefs<S3, 2, 0, 1>(); }
CONTRACT(P06_ref3_210) { trefs<S3, 2, 1, 0>(); }
CONTRACT(P06_ref3_102) { trefs<S3, 1, 0, 2>(); }
CONTRACT(P06_ref4_3102) { trefs<S4, 3, 1, 0, 2>(); }
CONTRACT(P06_refD2) { trefs<D2, 1, 0>(); }
CONTRACT(P06_refF3) { trefs<F3, 1, 2, 0>(); }
CONTRACT(P06_refM2) { trefs<M2, 1, 0>(); }
CONTRACT(P06_ref_chunky) { trefs<chunky_image_shape<3>, 2, 0, 1>(); }
CONTRACT(P06_array1) { tarr<S1, 0>(); }
CONTRACT(P06_array2) { tarr<S2, 1, 0>(); }
CONTRACT(P06_arrayD2) { tarr<D2, 1, 0>(); }
CONTRACT(P06_arrayF2) { tarr<F2, 1, 0>(); }

// reorder of a subset or with repeated dimensions: the listed dimensions in the listed order.
template <class S, size_t... P> void re() {
  vc::arb<S> a(1);
  size_t p[] = {P...};
  auto v = reorder<P...>(a.s);
  static_assert(decltype(v)::rank() == sizeof...(P), "one dimension per argument");
  for (size_t d = 0; d < sizeof...(P); d++) {
    ENSURES(v.dim(d).min() == a.mn[p[d]]);
    ENSURES(v.dim(d).extent() == a.ex[p[d]]);
    ENSURES(v.dim(d).stride() == a.st[p[d]]);
  }
}
// A view of fewer dimensions: the elements of the dropped dimensions' min.
template <class S, size_t... P> void resub() {
  constexpr size_t N = S::rank();
  vc::arb<S> a(1);
  size_t p[] = {P...};
  bool in[N] = {};
  for (size_t d = 0; d < sizeof...(P); d++) in[p[d]] = true;
  X* b = xregion("a");
  array_ref<X, S> r(b, a.s);
  auto w = reorder<P...>(r);
  ENSURES(w.base() == b);
  ENSURES(w.shape() == reorder<P...>(a.s));
}
CONTRACT(P06_reorder_2_1) { re<S2, 1>(); }
CONTRACT(P06_reorder_2_0) { re<S2, 0>(); }
CONTRACT(P06_reorder_3_20) { re<S3, 2, 0>(); }
CONTRACT(P06_reorder_3_12) { re<S3, 1, 2>(); }
CONTRACT(P06_reorder_3_00) { re<S3, 0, 0>(); }
CONTRACT(P06_reorder_F3_20) { re<F3, 2, 0>(); }
CONTRACT(P06_reorder_4_312) { re<S4, 3, 1, 2>(); }
CONTRACT(P06_reorder_ref_2_1) { resub<S2, 1>(); }
CONTRACT(P06_reorder_ref_3_20) { resub<S3, 2, 0>(); }
CONTRACT_T(P06_reorder_ref_3_12) { resub<S3, 1, 2>(); }

// reinterpret: the same shape and address, another element type.
struct Y {};
template <class S> void rein() {
  vc::arb<S> a;
  X* b = xregion("a");
  array_ref<X, S> r(b, a.s);
  auto u = reinterpret<Y>(r);
  static_assert(std::is_same<decltype(u), array_ref<Y, S>>::value, "type");
  ENSURES((const void*)u.base() == (const void*)b);
  ENSURES(u.shape() == a.s);
  const_array_ref<X, S> q(b, a.s);
  auto v = reinterpret<const Y>(q);
  ENSURES((const void*)v.base() == (const void*)b);
  ENSURES(v.shape() == a.s);
  auto w = reinterpret_const<X>(q);
  static_assert(std::is_same<decltype(w), array_ref<X, S>>::value, "type");
  ENSURES(w.base() == b);
  ENSURES(w.shape() == a.s);
}
template <class S> void reina() {
  vc::arb<S> a(1);
  array<X, S, plain_alloc<X>> r(a.s);
  const auto& q = r;
  auto u = reinterpret<Y>(r);
  ENSURES((const void*)u.base() == (const void*)r.base());
  ENSURES(u.shape() == a.s);
  auto v = reinterpret<Y>(q);
  static_assert(std::is_same<decltype(v), const_array_ref<Y, S>>::value, "type");
  ENSURES((const void*)v.base() == (const void*)r.base());
  ENSURES(v.shape() == a.s);
}
CONTRACT(P06_reinterpret0) { rein<S0>(); }
CONTRACT(P06_reinterpret2) { rein<S2>(); }
CONTRACT(P06_reinterpretD3) { rein<D3>(); }
CONTRACT(P06_reinterpretF2) { rein<F2>(); }
CONTRACT(P06_reinterpret_array2) { reina<S2>(); }

// reinterpret_shape: any new shape with a given offset; it asserts exactly when flat offsets reach outside.
template <class S, class T> void reshape_(bool valid) {
  vc::arb<S> a(1);
  vc::arb<T> b(1, vc::B, "nmin", "nextent", "nstride");
  long off = vc_range("offset", -(1L << 30), 1L << 30);
  long lo = 0, hi = 0, nlo = off, nhi = off;
  for (size_t d = 0; d < S::rank(); d++) {
    long l = (a.ex[d] - 1) * a.st[d];
    lo += l < 0 ? l : 0;
    hi += l < 0 ? 0 : l;
  }
  for (size_t d = 0; d < T::rank(); d++) {
    long l = (b.ex[d] - 1) * b.st[d];
    nlo += l < 0 ? l : 0;
    nhi += l < 0 ? 0 : l;
  }
  vc_mode(1);
  if (valid) {
    REQUIRES(lo <= nlo);
    REQUIRES(nhi <= hi);
  } else {
    vc_abort_if(nlo < lo || nhi > hi);
  }
  X* p = xregion("a");
  array_ref<X, S> r(p, a.s);
  auto v = reinterpret_shape(r, b.s, off);
  if (!valid) {
    vc_ensures(lo <= nlo && nhi <= hi, "a shape outside the original asserts");
  }
  ENSURES(vc::at(v.base(), p, off));
  ENSURES(v.shape() == b.s);
}
CONTRACT(P06_reinterpret_shape_1_1) { reshape_<S1, S1>(true); }
CONTRACT(P06_reinterpret_shape_2_1) { reshape_<S2, S1>(true); }
CONTRACT(P06_reinterpret_shape_1_2) { reshape_<S1, S2>(true); }
CONTRACT(P06_reinterpret_shape_D1_D2) { reshape_<D1, D2>(true); }
CONTRACT(P06_reinterpret_shape_asserts_1_1) { reshape_<S1, S1>(false); }
CONTRACT(P06_reinterpret_shape_asserts_2_1) { reshape_<S2, S1>(false); }
CONTRACT(P06_reinterpret_shape_asserts_1_2) { reshape_<S1, S2>(false); }
CONTRACT(P06_reinterpret_shape_array) {
  vc::arb<S1> a(1);
  REQUIRES(a.st[0] > 0);
  array<X, S1, plain_alloc<X>> r(a.s);
  const auto& q = r;
  long off = vc_range("offset", 0, vc::B), n = vc_range("n", 1, vc::B);
  REQUIRES(off + n <= a.ex[0]);
  D1 s(dense_dim<>(vc_range("nmin", -vc::B, vc::B), n));
  auto v = reinterpret_shape(r, s, off);
  ENSURES(vc::at(v.base(), r.base(), off));
  ENSURES(v.shape() == s);
  auto w = reinterpret_shape(q, s, off);
  ENSURES(vc::at(w.base(), r.base(), off));
  ENSURES(w.shape() == s);
}

// convert_shape: dimensions in order; added ones have extent 1; only dimensions of extent 1 are dropped.
template <class S, class T> void conv(bool valid) {
  constexpr size_t N = S::rank(), M = T::rank(), K = N < M ? N : M;
  vc::arb<S> a;
  bool ok = true;
  for (size_t d = K; d < N; d++) ok = ok & (a.ex[d] == 1);
  if (valid) REQUIRES(ok);
  else vc_abort_if(!ok);
  T t = convert_shape<T>(a.s);
  if (!valid) vc_ensures(ok, "dropping a dimension of extent other than 1 asserts");
  for (size_t d = 0; d < M; d++) {
    if (d < K) {
      ENSURES(t.dim(d).min() == a.mn[d]);
      ENSURES(t.dim(d).extent() == a.ex[d]);
      ENSURES(t.dim(d).stride() == a.st[d]);
    } else {
      ENSURES(t.dim(d).min() == 0);
      ENSURES(t.dim(d).extent() == 1);
    }
  }
  if (valid) {
    X* p = xregion("a");
    array_ref<X, S> r(p, a.s);
    auto v = convert_shape<T>(r);
    ENSURES(v.base() == p);
    ENSURES(v.shape() == t);
    auto w = convert_shape<T>(r.cref());
    ENSURES(w.base() == p);
    ENSURES(w.shape() == t);
  }
}
CONTRACT(P06_convert_1_1) { conv<D1, S1>(true); }
CONTRACT(P06_convert_1_2) { conv<S1, S2>(true); }
CONTRACT(P06_convert_1_3) { conv<S1, S3>(true); }
CONTRACT(P06_convert_2_3) { conv<D2, S3>(true); }
CONTRACT(P06_convert_2_1) { conv<S2, S1>(true); }
CONTRACT(P06_convert_3_1) { conv<S3, S1>(true); }
CONTRACT(P06_convert_3_2) { conv<D3, D2>(true); }
CONTRACT(P06_convert_0_1) { conv<S0, S1>(true); }
CONTRACT(P06_convert_2_1_asserts) { conv<S2, S1>(false); }
CONTRACT(P06_convert_3_1_asserts) { conv<S3, S1>(false); }
CONTRACT(P06_convert_4_2_asserts) { conv<S4, S2>(false); }
CONTRACT(P06_convert_array) {
  vc::arb<S1> a(1);
  array<X, S1, plain_alloc<X>> r(a.s);
  const auto& q = r;
  auto v = convert_shape<S2>(r);
  ENSURES(v.base() == r.base());
  ENSURES(v.shape() == convert_shape<S2>(a.s));
  auto w = convert_shape<S2>(q);
  ENSURES(w.base() == r.base());
  ENSURES(w.shape() == v.shape());
}
