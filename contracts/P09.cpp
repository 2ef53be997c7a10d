#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

constexpr long SB = 1 << 18;

// Arbitrary shapes; inside(): dst lies within src.
template <class S, class T> struct two {
  static constexpr size_t N = S::rank();
  vc::arb<S> src;
  vc::arb<T> dst;
  long off;
  two(long exlo = 1) : src(exlo, vc::B, "min", "extent", "stride", SB), dst(exlo, vc::B, "dmin", "dextent", "dstride", SB), off(0) {
    for (size_t d = 0; d < N; d++) off += (dst.mn[d] - src.mn[d]) * src.st[d];
  }
  void inside() {
    for (size_t d = 0; d < N; d++) {
      REQUIRES(src.mn[d] <= dst.mn[d]);
      REQUIRES(dst.mn[d] + dst.ex[d] <= src.mn[d] + src.ex[d]);
    }
  }
};

// copy and move through array_refs.
template <class S, class T> void refs(bool mv) {
  two<S, T> a;
  a.inside();
  E* p = (E*)vc_region("src");
  E* q = (E*)vc_region("dst");
  array_ref<E, S> x(p, a.src.s);
  array_ref<E, T> y(q, a.dst.s);
  if (mv) {
    move(x, y);
  } else {
    copy(x, y);
  }
  vc::pairs<S::rank()>(mv ? vc::MASSIGN : vc::ASSIGN, q, a.dst.st, p + a.off, a.src.st, a.dst.ex, 1, "each destination element assigned once, from the same index");
  vc::none(mv ? vc::ASSIGN : vc::MASSIGN, "no other assignment");
}

CONTRACT(P09_copy0) { refs<S0, S0>(false); }
CONTRACT(P09_copy1) { refs<S1, S1>(false); }
CONTRACT(P09_copy2) { refs<S2, S2>(false); }
CONTRACT_T(P09_copy3) { refs<S3, S3>(false); }
CONTRACT(P09_copyD1) { refs<D1, D1>(false); }
CONTRACT(P09_copyD2) { refs<D2, D2>(false); }
CONTRACT(P09_copyS2D2) { refs<S2, D2>(false); }
CONTRACT(P09_copyD2S2) { refs<D2, S2>(false); }
CONTRACT(P09_copyB2) { refs<B2, S2>(false); }
CONTRACT(P09_copyF2) { refs<S2, F2>(false); }
CONTRACT(P09_copyM2) { refs<M2, S2>(false); }
CONTRACT(P09_copy_matrix) { refs<matrix_shape<>, matrix_shape<>>(false); }
CONTRACT(P09_copy_matrix34) { refs<S2, matrix_shape<3, 4>>(false); }
CONTRACT(P09_copy_chunky_planar) { refs<chunky_image_shape<3>, planar_image_shape>(false); }
CONTRACT(P09_copy_planar_chunky) { refs<planar_image_shape, chunky_image_shape<3>>(false); }
CONTRACT(P09_move0) { refs<S0, S0>(true); }
CONTRACT(P09_move1) { refs<S1, S1>(true); }
CONTRACT(P09_move2) { refs<S2, S2>(true); }
CONTRACT(P09_moveD2S2) { refs<D2, S2>(true); }

// Ranks 3 and 4 with the strides of the destination in order (any order: the thorough tier, rank 3).
template <class S, class T> void sorted(bool mv) {
  two<S, T> a;
  a.inside();
  for (size_t d = 0; d + 1 < S::rank(); d++) REQUIRES(a.dst.st[d] <= a.dst.st[d + 1]);
  E* p = (E*)vc_region("src");
  E* q = (E*)vc_region("dst");
  array_ref<E, S> x(p, a.src.s);
  array_ref<E, T> y(q, a.dst.s);
  if (mv) {
    move(x, y);
  } else {
    copy(x, y);
  }
  vc::pairs<S::rank()>(mv ? vc::MASSIGN : vc::ASSIGN, q, a.dst.st, p + a.off, a.src.st, a.dst.ex, 1, "each destination element assigned once, from the same index");
  vc::none(mv ? vc::ASSIGN : vc::MASSIGN, "no other assignment");
}
CONTRACT(P09_copy3_sorted) { sorted<S3, S3>(false); }
CONTRACT_T(P09_copy4_sorted) { sorted<S4, S4>(false); }
CONTRACT(P09_move3_sorted) { sorted<S3, S3>(true); }

// Source and destination in one allocation, at any distance.
template <class S, class T> void alias(bool mv) {
  two<S, T> a;
  a.inside();
  E* p = (E*)vc_region("memory");
  E* q = p + vc_range("distance", -(1L << 30), 1L << 30);
  array_ref<E, S> x(p, a.src.s);
  array_ref<E, T> y(q, a.dst.s);
  if (mv) {
    move(x, y);
  } else {
    copy(x, y);
  }
  vc::pairs<S::rank()>(mv ? vc::MASSIGN : vc::ASSIGN, q, a.dst.st, p + a.off, a.src.st, a.dst.ex, 1, "each destination element assigned once, from the same index");
}
CONTRACT(P09_copy_alias0) { alias<S0, S0>(false); }
CONTRACT(P09_copy_alias1) { alias<S1, S1>(false); }
CONTRACT(P09_copy_alias2) { alias<S2, S2>(false); }
CONTRACT(P09_move_alias1) { alias<S1, S1>(true); }
CONTRACT(P09_move_alias2) { alias<S2, S2>(true); }

// An empty destination: nothing happens, whatever the source.
template <class S, class T> void empty() {
  two<S, T> a(0);
  REQUIRES(!a.dst.nonempty());
  E* p = vc_bool("src null") ? nullptr : (E*)vc_region("src");
  E* q = vc_bool("dst null") ? nullptr : (E*)vc_region("dst");
  array_ref<E, S> x(p, a.src.s);
  array_ref<E, T> y(q, a.dst.s);
  if (vc_bool("move")) {
    move(x, y);
  } else {
    copy(x, y);
  }
  vc::none(vc::ASSIGN, "an empty destination does nothing");
  vc::none(vc::MASSIGN, "an empty destination does nothing");
}
CONTRACT(P09_empty1) { empty<S1, S1>(); }
CONTRACT(P09_empty2) { empty<S2, S2>(); }
CONTRACT(P09_empty3) { empty<S3, D3>(); }

// A destination that is not empty and not inside the source: an assertion fails before any element is accessed.
template <class S, class T> void outside(bool mv) {
  constexpr size_t N = S::rank();
  two<S, T> a(0);
  bool in = true;
  for (size_t d = 0; d < N; d++) {
    REQUIRES(a.dst.ex[d] > 0);
    in = in & (a.src.mn[d] <= a.dst.mn[d]) & (a.dst.mn[d] + a.dst.ex[d] <= a.src.mn[d] + a.src.ex[d]);
  }
  vc_abort_if(!in);
  E* p = (E*)vc_region("src");
  E* q = (E*)vc_region("dst");
  array_ref<E, S> x(p, a.src.s);
  array_ref<E, T> y(q, a.dst.s);
  if (mv) {
    move(x, y);
  } else {
    copy(x, y);
  }
  vc_ensures(in, "a destination outside the source asserts");
}
CONTRACT(P09_outside1) { outside<S1, S1>(false); }
CONTRACT(P09_outside2) { outside<S2, S2>(false); }
CONTRACT(P09_outsideD2S2) { outside<D2, S2>(false); }
CONTRACT(P09_outside_move1) { outside<S1, S1>(true); }
CONTRACT(P09_outside_move2) { outside<S2, S2>(true); }
CONTRACT(P09_outside_chunky) { outside<chunky_image_shape<3>, chunky_image_shape<3>>(false); }

// Overloads with owning arrays.
template <class S, class T> void arrays(bool mv, int which) {
  using A = array<E, S, plain_alloc<E>>;
  using B = array<E, T, plain_alloc<E>>;
  two<S, T> a;
  a.inside();
  const char* what = "each destination element assigned once, from the same index";
  long tag = mv ? vc::MASSIGN : vc::ASSIGN;
  if (which == 0) {  // array to array
    A x(a.src.s);
    B y(a.dst.s);
    if (mv) move(x, y);
    else copy(x, y);
    vc::pairs<S::rank()>(tag, y.base(), a.dst.st, x.base() + a.off, a.src.st, a.dst.ex, 1, what);
  } else if (which == 1) {  // array to ref
    A x(a.src.s);
    array_ref<E, T> y((E*)vc_region("dst"), a.dst.s);
    if (mv) move(x, y);
    else copy(x, y);
    vc::pairs<S::rank()>(tag, y.base(), a.dst.st, x.base() + a.off, a.src.st, a.dst.ex, 1, what);
  } else {  // ref to array
    array_ref<E, S> x((E*)vc_region("src"), a.src.s);
    B y(a.dst.s);
    if (mv) move(x, y);
    else copy(x, y);
    vc::pairs<S::rank()>(tag, y.base(), a.dst.st, x.base() + a.off, a.src.st, a.dst.ex, 1, what);
  }
  vc::none(mv ? vc::ASSIGN : vc::MASSIGN, "no other assignment");
}
CONTRACT(P09_array_array1) { arrays<S1, S1>(false, 0); }
CONTRACT(P09_array_array2) { arrays<D2, D2>(false, 0); }
CONTRACT(P09_array_ref1) { arrays<S1, S1>(false, 1); }
CONTRACT(P09_ref_array1) { arrays<S1, S1>(false, 2); }
CONTRACT(P09_ref_array2) { arrays<S2, D2>(false, 2); }
CONTRACT(P09_move_array_array1) { arrays<S1, S1>(true, 0); }
CONTRACT(P09_move_array_ref1) { arrays<S1, S1>(true, 1); }
CONTRACT(P09_move_ref_array1) { arrays<S1, S1>(true, 2); }

// make_copy and make_move: a new array of the same shape, each element assigned from the same index of the source.
enum { COPY, COPY_SHAPE, COPY_COMPACT, MOVE_SHAPE, MOVE_COMPACT };
template <class S, class R, class D> void result(const R& y, const vc::arb<S>& a, E* p, const long* mn, const long* ex, long off, bool mv) {
  constexpr size_t N = S::rank();
  long st[N + 1];
  vc::strides(y.shape(), st);
  for (size_t d = 0; d < N; d++) {
    ENSURES(y.shape().dim(d).min() == mn[d]);
    ENSURES(y.shape().dim(d).extent() == ex[d]);
  }
  vc_ensures(vc_rid(y.base()) != vc_rid(p), "the copy has storage of its own");
  vc::pairs<N>(mv ? vc::MASSIGN : vc::ASSIGN, y.base(), st, p + off, a.st, ex, 1, "each element assigned once, from the same index");
  vc::none(mv ? vc::ASSIGN : vc::MASSIGN, "no other assignment");
}
template <class S> void make(int kind, bool fromarray) {
  constexpr size_t N = S::rank();
  vc::arb<S> a(1);
  const plain_alloc<E> al;
  array_ref<E, S> x((E*)vc_region("src"), a.s);
  if (kind == COPY) {
    auto y = make_copy(x, al);
    vc_ensures(y.shape() == a.s, "the same shape, strides included");
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, false);
  } else if (kind == COPY_COMPACT) {
    auto y = make_compact_copy(x, al);
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, false);
  } else if (kind == MOVE_COMPACT) {
    auto y = make_compact_move(x, al);
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, true);
  }
}
template <class S> void make_a(int kind) {
  using A = array<E, S, plain_alloc<E>>;
  vc::arb<S> a(1);
  A x(a.s);
  const A& cx = x;
  if (kind == COPY) {
    auto y = make_copy(cx);
    vc_ensures(y.shape() == a.s, "the same shape, strides included");
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, false);
  } else if (kind == COPY_COMPACT) {
    auto y = make_compact_copy(cx);
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, false);
  } else if (kind == MOVE_COMPACT) {
    auto y = make_compact_move(x);
    result<S, decltype(y), S>(y, a, x.base(), a.mn, a.ex, 0, true);
  }
}
// With a shape: any shape within the source.
template <class S, class T> void make_s(int kind, bool arr) {
  two<S, T> a;
  a.inside();
  const plain_alloc<E> al;
  array_ref<E, S> r((E*)vc_region("src"), a.src.s);
  if (arr) {
    array<E, S, plain_alloc<E>> x(a.src.s);
    const auto& cx = x;
    if (kind == COPY_SHAPE) {
      auto y = make_copy(cx, a.dst.s);
      vc_ensures(y.shape() == a.dst.s, "the requested shape");
      result<S, decltype(y), T>(y, a.src, x.base(), a.dst.mn, a.dst.ex, a.off, false);
    } else {
      auto y = make_move(x, a.dst.s);
      vc_ensures(y.shape() == a.dst.s, "the requested shape");
      result<S, decltype(y), T>(y, a.src, x.base(), a.dst.mn, a.dst.ex, a.off, true);
    }
  } else if (kind == COPY_SHAPE) {
    auto y = make_copy(r, a.dst.s, al);
    vc_ensures(y.shape() == a.dst.s, "the requested shape");
    result<S, decltype(y), T>(y, a.src, r.base(), a.dst.mn, a.dst.ex, a.off, false);
  } else {
    auto y = make_move(r, a.dst.s, al);
    vc_ensures(y.shape() == a.dst.s, "the requested shape");
    result<S, decltype(y), T>(y, a.src, r.base(), a.dst.mn, a.dst.ex, a.off, true);
  }
}
CONTRACT(P09_make_copy1) { make<S1>(COPY, false); }
CONTRACT(P09_make_copyD2) { make<D2>(COPY, false); }
CONTRACT(P09_make_compact_copy1) { make<S1>(COPY_COMPACT, false); }
CONTRACT(P09_make_compact_copy2) { make<S2>(COPY_COMPACT, false); }
CONTRACT(P09_make_compact_move1) { make<S1>(MOVE_COMPACT, false); }
CONTRACT(P09_make_copy_array1) { make_a<S1>(COPY); }
CONTRACT(P09_make_compact_copy_array1) { make_a<S1>(COPY_COMPACT); }
CONTRACT(P09_make_compact_move_array1) { make_a<S1>(MOVE_COMPACT); }
CONTRACT(P09_make_copy_shape1) { make_s<S1, S1>(COPY_SHAPE, false); }
CONTRACT(P09_make_copy_shape2) { make_s<S2, D2>(COPY_SHAPE, false); }
CONTRACT(P09_make_copy_shape_array1) { make_s<S1, S1>(COPY_SHAPE, true); }
CONTRACT(P09_make_move_shape1) { make_s<S1, S1>(MOVE_SHAPE, false); }
CONTRACT(P09_make_move_shape2) { make_s<S2, D2>(MOVE_SHAPE, false); }
CONTRACT(P09_make_move_shape_array1) { make_s<S1, S1>(MOVE_SHAPE, true); }

// make_move of an expiring array: elements are moved or the allocation is handed over; nothing is copied.
template <class S> void expiring() {
  using A = array<E, S, plain_alloc<E>>;
  vc::arb<S> a(1);
  A x(a.s);
  E* p = x.base();
  auto y = make_move(std::move(x), a.s);
  vc_ensures(y.shape() == a.s, "the requested shape");
  vc_ensures(y.base() == p, "the allocation is handed over");
  vc::none(vc::ASSIGN, "nothing is copied");
  vc::none(vc::CCTOR, "nothing is copied");
  vc::none(vc::MASSIGN, "no element is touched");
  vc::none(vc::MCTOR, "no element is touched");
}
CONTRACT(P09_make_move_expiring1) { expiring<S1>(); }
// move(array&&, array&) is a move assignment.
CONTRACT(P09_move_expiring1) {
  using A = array<E, S1, plain_alloc<E>>;
  vc::arb<S1> a(1);
  A x(a.s), y;
  E* p = x.base();
  move(std::move(x), y);
  ENSURES(y.base() == p);
  ENSURES(y.shape() == a.s);
  vc::none(vc::ASSIGN, "nothing is copied");
  vc::none(vc::CCTOR, "nothing is copied");
}
