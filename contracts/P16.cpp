#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

constexpr long SB = 1 << 16;

template <class S, size_t... Is> bool is(const S& s, const long* mn, const long* ex, const long* st, vc::index_sequence<Is...>) {
  bool r = true;
  int u[] = {0, (r = r & (s.template dim<Is>().min() == mn[Is]) & (s.template dim<Is>().extent() == ex[Is]) & (s.template dim<Is>().stride() == st[Is]), 0)...};
  (void)u;
  return r;
}
template <class S> bool is(const S& s, const long* mn, const long* ex, const long* st) { return is(s, mn, ex, st, vc::make_index_sequence<S::rank()>()); }

// reshape: the elements of the intersection are moved to the same index, each once.
template <class S> void reshapes(long exlo = 0) {
  constexpr size_t N = S::rank();
  vc::arb<S> a(exlo, vc::B, "min", "extent", "stride", SB), b(exlo, vc::B, "nmin", "nextent", "nstride", SB);
  for (size_t d = 0; d < N; d++) REQUIRES(a.ex[d] >= 1);
  array<E, S, plain_alloc<E>> x(a.s);
  const E* old = x.base();
  vc_reset(vc::DCTOR);
  x.reshape(b.s);
  vc_ensures(is(x.shape(), b.mn, b.ex, b.st), "the array has the requested shape");
  bool same = true;
  for (size_t d = 0; d < N; d++) same = same & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]) & (a.st[d] == b.st[d]);
  if (same) {
    vc_ensures(x.base() == old, "the same shape: nothing happens");
    vc::none(vc::MASSIGN, "the same shape: nothing happens");
    vc::none(vc::DCTOR, "the same shape: nothing happens");
    return;
  }
  long ex[N + 1], off = 0, noff = 0;
  for (size_t d = 0; d < N; d++) {
    long lo = a.mn[d] > b.mn[d] ? a.mn[d] : b.mn[d];
    long ahi = a.mn[d] + a.ex[d], bhi = b.mn[d] + b.ex[d];
    long hi = ahi < bhi ? ahi : bhi;
    ex[d] = hi - lo;
    if (ex[d] <= 0) {
      vc::none(vc::MASSIGN, "no common element: nothing is moved");
      return;
    }
    off += (lo - a.mn[d]) * a.st[d];
    noff += (lo - b.mn[d]) * b.st[d];
  }
  vc::pairs<N>(vc::MASSIGN, x.base() + noff, b.st, old + off, a.st, ex, 1, "each common element is moved to the same index, once");
  vc::none(vc::ASSIGN, "nothing is copied");
  vc::none(vc::CCTOR, "nothing is copied");
}
CONTRACT(P16_reshape0) { reshapes<S0>(); }
CONTRACT(P16_reshape1) { reshapes<S1>(); }
CONTRACT(P16_reshapeD1) { reshapes<D1>(); }
CONTRACT(P16_reshapeE1) { reshapes<shape<dim<dynamic, 5>>>(); }
CONTRACT(P16_reshapeM1) { reshapes<shape<dim<3>>>(); }
CONTRACT(P16_reshapeZ2) { reshapes<shape<dense_dim<0>, dim<0>>>(); }
CONTRACT_T(P16_reshapeD2) { reshapes<D2>(); }

// set_shape and move_reinterpret_shape: the same memory, at the offset, when the new shape lies within it.
template <class S, class T> struct within {
  vc::arb<S> a;
  vc::arb<T> b;
  long offset;
  bool in;
  within() : a(1, vc::B, "min", "extent", "stride", SB), b(1, vc::B, "nmin", "nextent", "nstride", SB), offset(vc_range("offset", -(1L << 30), 1L << 30)) {
    long alo = 0, ahi = 0, blo = offset, bhi = offset;
    for (size_t d = 0; d < S::rank(); d++) {
      (a.st[d] < 0 ? alo : ahi) += (a.ex[d] - 1) * a.st[d];
    }
    for (size_t d = 0; d < T::rank(); d++) {
      (b.st[d] < 0 ? blo : bhi) += (b.ex[d] - 1) * b.st[d];
    }
    in = (alo <= blo) & (bhi <= ahi);
  }
};
// One bit per stride of the old (low bits) and of the new shape: negative or not. Sixteen cases cover rank 2.
template <class S, class T> bool signs(const within<S, T>& a, int m) {
  bool r = true;
  for (size_t d = 0; d < S::rank(); d++) r = r & ((a.a.st[d] < 0) == bool(m >> d & 1));
  for (size_t d = 0; d < T::rank(); d++) r = r & ((a.b.st[d] < 0) == bool(m >> (d + S::rank()) & 1));
  return r;
}
template <class S, int M = -1> void set_shapes() {
  within<S, S> a;
  if (M >= 0) REQUIRES(signs(a, M));
  array<X, S, plain_alloc<X>> x(a.a.s);
  const X* old = x.base();
  vc_abort_if(!a.in);
  x.set_shape(a.b.s, a.offset);
  vc_ensures(a.in, "a shape that reaches outside the old one asserts");
  vc_ensures(is(x.shape(), a.b.mn, a.b.ex, a.b.st), "the array has the given shape");
  vc_ensures(vc::at(x.base(), old, a.offset), "the base moves by the offset");
}
CONTRACT(P16_set_shape0) { set_shapes<S0>(); }
CONTRACT(P16_set_shape1) { set_shapes<S1>(); }
CONTRACT(P16_set_shape2_s0) { set_shapes<S2, 0>(); }
CONTRACT(P16_set_shape2_s1) { set_shapes<S2, 1>(); }
CONTRACT(P16_set_shape2_s2) { set_shapes<S2, 2>(); }
CONTRACT(P16_set_shape2_s3) { set_shapes<S2, 3>(); }
CONTRACT(P16_set_shape2_s4) { set_shapes<S2, 4>(); }
CONTRACT(P16_set_shape2_s5) { set_shapes<S2, 5>(); }
CONTRACT(P16_set_shape2_s6) { set_shapes<S2, 6>(); }
CONTRACT(P16_set_shape2_s7) { set_shapes<S2, 7>(); }
CONTRACT(P16_set_shape2_s8) { set_shapes<S2, 8>(); }
CONTRACT(P16_set_shape2_s9) { set_shapes<S2, 9>(); }
CONTRACT(P16_set_shape2_s10) { set_shapes<S2, 10>(); }
CONTRACT(P16_set_shape2_s11) { set_shapes<S2, 11>(); }
CONTRACT(P16_set_shape2_s12) { set_shapes<S2, 12>(); }
CONTRACT(P16_set_shape2_s13) { set_shapes<S2, 13>(); }
CONTRACT(P16_set_shape2_s14) { set_shapes<S2, 14>(); }
CONTRACT(P16_set_shape2_s15) { set_shapes<S2, 15>(); }
CONTRACT(P16_set_shapeD2) { set_shapes<D2>(); }
CONTRACT(P16_set_shapeF2) { set_shapes<F2>(); }
template <int M> void set_ref() {
  // array_ref::set_shape checks the same.
  within<S2, S2> a;
  REQUIRES(signs(a, M));
  X* p = xregion("p");
  array_ref<X, S2> x(p, a.a.s);
  vc_abort_if(!a.in);
  x.set_shape(a.b.s, a.offset);
  vc_ensures(a.in, "a shape that reaches outside the old one asserts");
  vc_ensures(is(x.shape(), a.b.mn, a.b.ex, a.b.st), "the ref has the given shape");
  vc_ensures(vc::at(x.base(), p, a.offset), "the base moves by the offset");
}
CONTRACT(P16_set_shape_ref2_s0) { set_ref<0>(); }
CONTRACT(P16_set_shape_ref2_s1) { set_ref<1>(); }
CONTRACT(P16_set_shape_ref2_s2) { set_ref<2>(); }
CONTRACT(P16_set_shape_ref2_s3) { set_ref<3>(); }
CONTRACT(P16_set_shape_ref2_s4) { set_ref<4>(); }
CONTRACT(P16_set_shape_ref2_s5) { set_ref<5>(); }
CONTRACT(P16_set_shape_ref2_s6) { set_ref<6>(); }
CONTRACT(P16_set_shape_ref2_s7) { set_ref<7>(); }
CONTRACT(P16_set_shape_ref2_s8) { set_ref<8>(); }
CONTRACT(P16_set_shape_ref2_s9) { set_ref<9>(); }
CONTRACT(P16_set_shape_ref2_s10) { set_ref<10>(); }
CONTRACT(P16_set_shape_ref2_s11) { set_ref<11>(); }
CONTRACT(P16_set_shape_ref2_s12) { set_ref<12>(); }
CONTRACT(P16_set_shape_ref2_s13) { set_ref<13>(); }
CONTRACT(P16_set_shape_ref2_s14) { set_ref<14>(); }
CONTRACT(P16_set_shape_ref2_s15) { set_ref<15>(); }
// The default offset.
CONTRACT(P16_set_shape_default) {
  within<S1, S1> a;
  REQUIRES(a.offset == 0);
  array<X, S1, plain_alloc<X>> x(a.a.s);
  const X* old = x.base();
  vc_abort_if(!a.in);
  x.set_shape(a.b.s);
  vc_ensures(a.in, "a shape that reaches outside the old one asserts");
  vc_ensures(vc::at(x.base(), old, 0), "the base stays");
}
template <class S, class T, int M = -1> void moves() {
  within<S, T> a;
  if (M >= 0) REQUIRES(signs(a, M));
  array<X, S, plain_alloc<X>> x(a.a.s);
  const X* old = x.base();
  vc_abort_if(!a.in);
  array<X, T, plain_alloc<X>> y = move_reinterpret_shape(std::move(x), a.b.s, a.offset);
  vc_ensures(a.in, "a shape that reaches outside the old one asserts");
  vc_ensures(is(y.shape(), a.b.mn, a.b.ex, a.b.st), "the result has the given shape");
  vc_ensures(vc::at(y.base(), old, a.offset), "the base moves by the offset");
  vc_ensures(x.base() != old, "the source gave its allocation away");
}
CONTRACT(P16_move0_1) { moves<S1, S0>(); }
CONTRACT(P16_move1_1) { moves<S1, S1>(); }
CONTRACT(P16_move1_2_s0) { moves<S1, S2, 0>(); }
CONTRACT(P16_move1_2_s1) { moves<S1, S2, 1>(); }
CONTRACT(P16_move1_2_s2) { moves<S1, S2, 2>(); }
CONTRACT(P16_move1_2_s3) { moves<S1, S2, 3>(); }
CONTRACT(P16_move1_2_s4) { moves<S1, S2, 4>(); }
CONTRACT(P16_move1_2_s5) { moves<S1, S2, 5>(); }
CONTRACT(P16_move1_2_s6) { moves<S1, S2, 6>(); }
CONTRACT(P16_move1_2_s7) { moves<S1, S2, 7>(); }
CONTRACT(P16_move2_1) { moves<S2, S1>(); }
CONTRACT(P16_move2_2_s0) { moves<S2, S2, 0>(); }
CONTRACT(P16_move2_2_s1) { moves<S2, S2, 1>(); }
CONTRACT(P16_move2_2_s2) { moves<S2, S2, 2>(); }
CONTRACT(P16_move2_2_s3) { moves<S2, S2, 3>(); }
CONTRACT(P16_move2_2_s4) { moves<S2, S2, 4>(); }
CONTRACT(P16_move2_2_s5) { moves<S2, S2, 5>(); }
CONTRACT(P16_move2_2_s6) { moves<S2, S2, 6>(); }
CONTRACT(P16_move2_2_s7) { moves<S2, S2, 7>(); }
CONTRACT(P16_move2_2_s8) { moves<S2, S2, 8>(); }
CONTRACT(P16_move2_2_s9) { moves<S2, S2, 9>(); }
CONTRACT(P16_move2_2_s10) { moves<S2, S2, 10>(); }
CONTRACT(P16_move2_2_s11) { moves<S2, S2, 11>(); }
CONTRACT(P16_move2_2_s12) { moves<S2, S2, 12>(); }
CONTRACT(P16_move2_2_s13) { moves<S2, S2, 13>(); }
CONTRACT(P16_move2_2_s14) { moves<S2, S2, 14>(); }
CONTRACT(P16_move2_2_s15) { moves<S2, S2, 15>(); }
CONTRACT(P16_moveD2_D2) { moves<D2, D2>(); }
CONTRACT(P16_moveD2_D1) { moves<D2, D1>(); }
CONTRACT(P16_moveD1_D2) { moves<D1, D2>(); }
CONTRACT(P16_move_F2) { moves<S2, F2>(); }
CONTRACT(P16_move_default) {
  within<S2, S1> a;
  REQUIRES(a.offset == 0);
  array<X, S2, plain_alloc<X>> x(a.a.s);
  const X* old = x.base();
  vc_abort_if(!a.in);
  auto y = move_reinterpret_shape(std::move(x), a.b.s);
  vc_ensures(a.in, "a shape that reaches outside the old one asserts");
  vc_ensures(vc::at(y.base(), old, 0), "the base stays");
}
// Without a shape: the source's shape converted to the new type.
CONTRACT(P16_move_convert) {
  vc::arb<S1> a(1, vc::B, "min", "extent", "stride", SB);
  array<X, S1, plain_alloc<X>> x(a.s);
  const X* old = x.base();
  auto y = move_reinterpret_shape<shape<dim<>>>(std::move(x));
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the shape is the source's");
  vc_ensures(vc::at(y.base(), old, 0), "the base stays");
}
CONTRACT(P16_move_convertD2) {
  vc::arb<D2> a(1, vc::B, "min", "extent", "stride", SB);
  array<X, D2, plain_alloc<X>> x(a.s);
  const X* old = x.base();
  auto y = move_reinterpret_shape<S2>(std::move(x));
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the shape is the source's");
  vc_ensures(vc::at(y.base(), old, 0), "the base stays");
}
// An array without an allocation stays without one.
CONTRACT(P16_move_null) {
  vc::arb<S1> b(0, 0, "nmin", "nextent", "nstride", SB);
  array<X, S1, plain_alloc<X>> x;
  long offset = vc_range("offset", -100, 100);
  vc_abort_if(true);
  auto y = move_reinterpret_shape(std::move(x), b.s, offset);
  vc_ensures(y.base() == nullptr, "null stays null");
}
