#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

constexpr long SB = 1 << 18;

// An element compared by an arbitrary relation.  differ: some comparison so far found a difference.
static bool differ;
template <int N> struct Q {};
template <int N, int M> bool operator!=(const Q<N>& a, const Q<M>& b) {
  vc_touch2(vc::CMP, &a, &b);
  bool r = vc_any();
  if (r) differ = true;
  return r;
}
template <int N, int M> bool operator==(const Q<N>& a, const Q<M>& b) { return !(a != b); }
using Q0 = Q<0>;
using Q1 = Q<1>;

// equal(a, b): a and b have the same mins and extents, and no pair with equal indices differs.
template <class S, class T, class QT = Q0> struct eq {
  static constexpr size_t N = S::rank();
  vc::arb<S> a;
  vc::arb<T> b;
  Q0* p;
  QT* q;
  bool same, strides;
  eq(long exlo = 1) : a(exlo, vc::B, "min", "extent", "stride", SB), b(exlo, vc::B, "bmin", "bextent", "bstride", SB) {
    p = (Q0*)vc_region("a");
    q = (QT*)vc_region("b");
    same = strides = true;
    for (size_t d = 0; d < N; d++) {
      same = same & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]);
      strides = strides & (a.st[d] == b.st[d]);
    }
    differ = false;
  }
  void check(bool r, bool comparable) {
    if (comparable) {
      vc_ensures(r == !differ, "equal exactly when no pair differs");
      vc::pairs<N>(vc::CMP, p, a.st, q, b.st, a.ex, 1, "each element compared with its counterpart, once");
    } else {
      vc_ensures(!r, "different bounds are different");
      vc::none(vc::CMP, "nothing compared");
    }
  }
};
template <class S, class T, class QT = Q0> void equals() {
  eq<S, T, QT> e;
  bool r = equal(array_ref<Q0, S>(e.p, e.a.s), array_ref<QT, T>(e.q, e.b.s));
  e.check(r, e.same);
}
CONTRACT(P10_equal0) { equals<S0, S0>(); }
CONTRACT(P10_equal1) { equals<S1, S1>(); }
CONTRACT(P10_equal1_types) { equals<S1, D1, Q1>(); }
CONTRACT(P10_equal2) { equals<S2, S2>(); }
CONTRACT(P10_equalD2) { equals<D2, D2>(); }
CONTRACT(P10_equalS2D2) { equals<S2, D2>(); }
CONTRACT(P10_equalD2S2) { equals<D2, S2>(); }
CONTRACT(P10_equalF2) { equals<S2, F2>(); }
CONTRACT(P10_equalM2) { equals<M2, S2>(); }
CONTRACT(P10_equal_matrix) { equals<matrix_shape<>, matrix_shape<>>(); }
CONTRACT(P10_equal_chunky_planar) { equals<chunky_image_shape<3>, planar_image_shape>(); }

template <class S> void sorted() {
  eq<S, S> e;
  for (size_t d = 0; d + 1 < S::rank(); d++) REQUIRES(e.a.st[d] <= e.a.st[d + 1]);
  bool r = equal(array_ref<Q0, S>(e.p, e.a.s), array_ref<Q0, S>(e.q, e.b.s));
  e.check(r, e.same);
}
CONTRACT_T(P10_equal3_sorted) { sorted<S3>(); }
CONTRACT_T(P10_equal4_sorted) { sorted<S4>(); }

// operator== and != of array_ref: also the strides.
template <class S> void ops() {
  eq<S, S> e;
  array_ref<Q0, S> x(e.p, e.a.s), y(e.q, e.b.s);
  bool ne = vc_bool("not equal");
  bool r = ne ? !(x != y) : x == y;
  e.check(r, e.same & e.strides);
}
CONTRACT(P10_op0) { ops<S0>(); }
CONTRACT(P10_op1) { ops<S1>(); }
CONTRACT(P10_op2) { ops<S2>(); }
CONTRACT(P10_opD2) { ops<D2>(); }
CONTRACT(P10_opB2) { ops<B2>(); }
CONTRACT(P10_op_matrix) { ops<matrix_shape<>>(); }
CONTRACT(P10_op_chunky) { ops<chunky_image_shape<3>>(); }

// Empty arrays (here: empty in dimension K) compare by their bounds only, even when they are null.
template <class S, int K> void empties() {
  eq<S, S> e(0);
  REQUIRES(e.a.ex[K] == 0);
  array_ref<Q0, S> x(vc_bool("a null") ? nullptr : e.p, e.a.s), y(vc_bool("b null") ? nullptr : e.q, e.b.s);
  long k = vc_range("operation", 0, 2);
  bool r = k == 0 ? equal(x, y) : k == 1 ? x == y : !(x != y);
  vc_ensures(r == (k == 0 ? e.same : e.same & e.strides), "empty arrays are equal when their bounds are");
  vc::none(vc::CMP, "nothing compared");
}
CONTRACT(P10_empty1) { empties<S1, 0>(); }
CONTRACT(P10_empty2_0) { empties<S2, 0>(); }
CONTRACT(P10_empty2_1) { empties<S2, 1>(); }
CONTRACT_T(P10_empty3_0) { empties<D3, 0>(); }
CONTRACT_T(P10_empty3_2) { empties<D3, 2>(); }

// A view and itself: every element is compared with itself.
template <class S> void self() {
  eq<S, S> e;
  array_ref<Q0, S> x(e.p, e.a.s);
  bool r = vc_bool("operator") ? x == x : equal(x, x);
  vc_ensures(r == !differ, "equal exactly when no pair differs");
  vc::pairs<S::rank()>(vc::CMP, e.p, e.a.st, e.p, e.a.st, e.a.ex, 1, "each element compared with itself, once");
}
CONTRACT(P10_self1) { self<S1>(); }
CONTRACT(P10_self2) { self<S2>(); }

// Two views of one memory, at any distance and with any strides.
template <class S> void alias() {
  eq<S, S> e;
  e.q = e.p + vc_range("distance", -(1L << 30), 1L << 30);
  bool r = equal(array_ref<Q0, S>(e.p, e.a.s), array_ref<Q0, S>(e.q, e.b.s));
  e.check(r, e.same);
}
CONTRACT(P10_alias1) { alias<S1>(); }
CONTRACT(P10_alias2) { alias<S2>(); }

// Arrays.
template <class S, class T> void arrays() {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  vc::arb<T> b(1, vc::B, "bmin", "bextent", "bstride", SB);
  constexpr size_t N = S::rank();
  array<Q0, S, plain_alloc<Q0>> x(a.s);
  array<Q0, T, plain_alloc<Q0>> y(b.s);
  bool same = true, strides = true;
  for (size_t d = 0; d < N; d++) {
    same = same & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]);
    strides = strides & (a.st[d] == b.st[d]);
  }
  differ = false;
  long k = vc_range("operation", 0, 2);
  bool r = k == 0 ? equal(x, y) : k == 1 ? equal(x, y.ref()) : equal(x.ref(), y);
  if (same) {
    vc_ensures(r == !differ, "equal exactly when no pair differs");
    vc::pairs<N>(vc::CMP, x.base(), a.st, y.base(), b.st, a.ex, 1, "each element compared with its counterpart, once");
  } else {
    vc_ensures(!r, "different bounds are different");
    vc::none(vc::CMP, "nothing compared");
  }
}
template <class S> void array_ops() {
  vc::arb<S> a(1, vc::B, "min", "extent", "stride", SB);
  vc::arb<S> b(1, vc::B, "bmin", "bextent", "bstride", SB);
  constexpr size_t N = S::rank();
  array<Q0, S, plain_alloc<Q0>> x(a.s), y(b.s);
  bool same = true;
  for (size_t d = 0; d < N; d++) same = same & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]) & (a.st[d] == b.st[d]);
  differ = false;
  bool r = vc_bool("not equal") ? !(x != y) : x == y;
  if (same) {
    vc_ensures(r == !differ, "equal exactly when no pair differs");
    vc::pairs<N>(vc::CMP, x.base(), a.st, y.base(), b.st, a.ex, 1, "each element compared with its counterpart, once");
  } else {
    vc_ensures(!r, "different shapes are different");
    vc::none(vc::CMP, "nothing compared");
  }
}
CONTRACT(P10_array1) { arrays<S1, S1>(); }
CONTRACT_T(P10_arrayD2) { arrays<D2, D2>(); }
CONTRACT(P10_array_op1) { array_ops<S1>(); }
CONTRACT(P10_array_opD2) { array_ops<D2>(); }

// Equality of a transposed or cropped view uses the indices of the view.
CONTRACT(P10_transposed) {
  vc::arb<S2> a(1, vc::B, "min", "extent", "stride", SB), b(1, vc::B, "bmin", "bextent", "bstride", SB);
  Q0 *p = (Q0*)vc_region("a"), *q = (Q0*)vc_region("b");
  array_ref<Q0, S2> x(p, a.s), y(q, b.s);
  bool same = (a.mn[0] == b.mn[1]) & (a.mn[1] == b.mn[0]) & (a.ex[0] == b.ex[1]) & (a.ex[1] == b.ex[0]);
  differ = false;
  bool r = equal(transpose<1, 0>(x), y);
  if (same) {
    vc_ensures(r == !differ, "equal exactly when no pair differs");
    long st[] = {a.st[1], a.st[0]};
    vc::pairs<2>(vc::CMP, p, st, q, b.st, b.ex, 1, "each element compared with its counterpart, once");
  } else {
    vc_ensures(!r, "different bounds are different");
    vc::none(vc::CMP, "nothing compared");
  }
}
