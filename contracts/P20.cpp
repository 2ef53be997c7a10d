#include "life.h"
#include "array/image.h"
#include "array/matrix.h"
using namespace life;
using vc::dyn;

template <class S, size_t K> using dim_of = typename std::tuple_element<K, typename S::dims_type>::type;
template <class S, class C, size_t... K> constexpr bool keeps_types(vc::index_sequence<K...>) {
  bool r = S::rank() == C::rank();
  bool u[] = {true, (dim_of<C, K>::Min == dim_of<S, K>::Min)..., (dim_of<C, K>::Extent == dim_of<S, K>::Extent)...,
              (dim_of<S, K>::Stride == dyn || dim_of<C, K>::Stride == dim_of<S, K>::Stride)...};
  for (bool b : u) r = r && b;
  return r;
}
// Mins and extents, and what is known at compile time, are kept.
template <class S, class C> void kept(const vc::arb<S>& a, const C& c) {
  vc_ensures((keeps_types<S, C>(vc::make_index_sequence<S::rank()>())), "compile-time mins, extents and strides are kept");
  for (size_t d = 0; d < S::rank(); d++) vc_ensures((c.dim(d).min() == a.mn[d]) & (c.dim(d).extent() == a.ex[d]), "mins and extents are kept");
  vc_ensures(c.is_resolved(), "all strides are known");
}
inline bool apart(long e, long s, long e2, long s2) {
  long u = s < 0 ? -s : s, v = s2 < 0 ? -s2 : s2;
  return (e2 * v <= u) | (e * u <= v);
}
template <class S> constexpr bool fixed(size_t d, vc::index_sequence<>) { return false; }
template <class S, size_t K, size_t... Ks> constexpr bool fixed(size_t d, vc::index_sequence<K, Ks...>) {
  return d == K ? dim_of<S, K>::Stride != dyn : fixed<S>(d, vc::index_sequence<Ks...>());
}

// No compile-time stride but a dense one: no padding, the dense dimension innermost, the others in order.
template <class S> void dense(int inner, bool big = true) {
  constexpr size_t N = S::rank();
  vc_mode(1);
  vc::arb<S> a(1);
  auto c = make_compact(a.s);
  kept(a, c);
  long st[N + 1];
  vc::strides(c, st);
  long next = 1;
  if (inner >= 0) {
    ENSURES(st[inner] == 1);
    next = a.ex[inner];
  }
  for (size_t d = 0; d < N; d++) {
    if ((int)d == inner) continue;
    if (a.ex[d] != 1) vc_ensures(st[d] == next, "each stride is the product of the extents inside it");
    else vc_ensures(st[d] > 0, "strides are positive");
    next = next * a.ex[d];
  }
  if (big) {
    vc_ensures((long)c.flat_extent() == next, "the flat extent is the size");
    vc_ensures(c.flat_min() == 0, "offsets start at 0");
    vc_ensures((long)c.size() == next, "the size is kept");
  }
}
CONTRACT(P20_dense1) { dense<S1>(-1); }
CONTRACT(P20_dense2) { dense<S2>(-1); }
CONTRACT(P20_dense3) { dense<S3>(-1); }
CONTRACT(P20_dense4) { dense<S4>(-1, false); }
CONTRACT(P20_denseD1) { dense<D1>(0); }
CONTRACT(P20_denseD2) { dense<D2>(0); }
CONTRACT(P20_denseD3) { dense<D3>(0); }
CONTRACT(P20_dense_matrix) { dense<matrix_shape<>>(1); }
CONTRACT(P20_dense_planar) { dense<planar_image_shape>(0); }
CONTRACT(P20_dense_chunkyd) { dense<shape<dim<>, dim<>, dense_dim<>>>(2); }
// with compile-time extents
CONTRACT(P20_dense_e1) { dense<shape<dim<dyn, 5>>>(-1); }
CONTRACT(P20_dense_e2a) { dense<shape<dim<0, 3>, dim<>>>(-1); }
CONTRACT(P20_dense_e2b) { dense<shape<dim<>, dim<-1, 4>>>(-1); }
CONTRACT(P20_dense_e2) { dense<shape<dim<0, 3>, dim<dyn, 4>>>(-1); }
CONTRACT(P20_dense_e3a) { dense<shape<dim<0, 3>, dim<>, dim<>>>(-1); }
CONTRACT(P20_dense_e3b) { dense<shape<dim<>, dim<0, 3>, dim<>>>(-1); }
CONTRACT(P20_dense_e3c) { dense<shape<dim<0, 2>, dim<0, 3>, dim<>>>(-1); }
CONTRACT(P20_dense_e4) { dense<shape<dim<0, 2>, dim<0, 3>, dim<0, 4>, dim<>>>(-1); }
// with a dense dimension of compile-time extent
CONTRACT(P20_dense_f2) { dense<shape<dim<dyn, 4, 1>, dim<>>>(0); }
CONTRACT(P20_dense_f2b) { dense<shape<dim<>, dim<dyn, 4, 1>>>(1); }
CONTRACT(P20_dense_f2c) { dense<shape<dim<0, 3, 1>, dim<0, 5>>>(0); }
CONTRACT(P20_dense_f3) { dense<shape<dim<0, 3, 1>, dim<>, dim<>>>(0); }
CONTRACT(P20_dense_f3b) { dense<shape<dim<>, dim<0, 3, 1>, dim<>>>(1); }
CONTRACT(P20_dense_f3c) { dense<shape<dim<>, dim<>, dim<0, 3, 1>>>(2); }
CONTRACT(P20_dense_f3d) { dense<shape<dim<0, 3>, dim<0, 5, 1>, dim<0, 2>>>(1); }
CONTRACT(P20_dense_f3e) { dense<shape<dim<0, 3>, dim<>, dim<0, 5, 1>>>(2); }
CONTRACT(P20_dense_f4) { dense<shape<dim<0, 3, 1>, dim<0, 2>, dim<>, dim<0, 4>>>(0); }
// the channels of a chunky image are inside, and x next
CONTRACT(P20_chunky) {
  vc_mode(1);
  vc::arb<chunky_image_shape<3>> a(1);
  auto c = make_compact(a.s);
  kept(a, c);
  long w = a.ex[0], h = a.ex[1];
  if (h != 1) ENSURES(c.y().stride() == 3 * w);
  ENSURES((long)c.flat_extent() == 3 * w * h);
}
// Broadcast dimensions take no memory.
template <class S> void broadcast(int zero) {
  constexpr size_t N = S::rank();
  vc_mode(1);
  vc::arb<S> a(1);
  auto c = make_compact(a.s);
  kept(a, c);
  long st[N + 1];
  vc::strides(c, st);
  ENSURES(st[zero] == 0);
  long n = 1;
  for (size_t d = 0; d < N; d++) if ((int)d != zero) n *= a.ex[d];
  vc_ensures((long)c.flat_extent() == n, "no padding between the other dimensions");
  for (size_t d = 0; d < N; d++)
    for (size_t e = 0; e < d; e++)
      if ((int)d != zero && (int)e != zero) vc_ensures(apart(a.ex[d], st[d], a.ex[e], st[e]), "no two dimensions overlap");
}
CONTRACT(P20_broadcast2) { broadcast<B2>(0); }
CONTRACT(P20_broadcast3) { broadcast<shape<dim<>, broadcast_dim<>, dim<>>>(1); }
CONTRACT(P20_broadcast_dense) { broadcast<shape<dense_dim<>, broadcast_dim<>, dim<>>>(1); }
CONTRACT(P20_broadcast_fixed) { broadcast<shape<dim<0, 4, 0>, dim<0, 3, 1>, dim<>>>(0); }

// Other compile-time strides are kept; the dimensions that get a stride overlap no other.
template <class S> void others() {
  constexpr size_t N = S::rank();
  constexpr auto is = vc::make_index_sequence<N>();
  vc_mode(1);
  vc::arb<S> a(1);
  auto c = make_compact(a.s);
  kept(a, c);
  long st[N + 1];
  vc::strides(c, st);
  for (size_t d = 0; d < N; d++) {
    if (fixed<S>(d, is)) { vc_ensures(st[d] == a.st[d], "a compile-time stride is kept"); continue; }
    vc_ensures(st[d] > 0, "strides are positive");
    for (size_t e = 0; e < N; e++)
      if (e != d && (fixed<S>(e, is) || e < d)) vc_ensures(apart(a.ex[d], st[d], a.ex[e], st[e]), "no two dimensions overlap");
  }
}
CONTRACT(P20_strided2) { others<shape<dim<>, strided_dim<8>>>(); }
CONTRACT(P20_strided2f) { others<shape<dim<0, 8>, dim<0, 4, 8>>>(); }
CONTRACT(P20_strided2g) { others<shape<strided_dim<3>, dim<>>>(); }
CONTRACT(P20_negative2) { others<shape<dim<dyn, 4, -1>, dim<>>>(); }
CONTRACT(P20_negative3) { others<shape<dim<0, 3, 1>, dim<0, 2, -5>, dim<>>>(); }
CONTRACT(P20_negative3b) { others<shape<dim<0, 1, 1>, dim<0, 4, -1>, dim<>>>(); }
CONTRACT(P20_strided3) { others<shape<dim<>, strided_dim<3>, dim<>>>(); }
CONTRACT(P20_strided3b) { others<shape<dim<0, 3, 1>, strided_dim<7>, dim<>>>(); }
CONTRACT(P20_othersF2) { others<F2>(); }
CONTRACT(P20_othersM2) { others<M2>(); }
CONTRACT(P20_othersF3) { others<F3>(); }
CONTRACT(P20_dense_twice) { others<shape<dim<0, 1, 1>, dim<>, dense_dim<>>>(); }
CONTRACT(P20_dense_ext1) { others<shape<dim<0, 1, 1>, dim<0, 5>, dim<>>>(); }

// Empty shapes: mins, extents and compile-time strides are kept.
template <class S> void empties(int k) {
  vc_mode(1);
  vc::arb<S> a;
  REQUIRES(a.ex[k] == 0);
  kept(a, make_compact(a.s));
}
CONTRACT(P20_empty1) { empties<S1>(0); }
CONTRACT(P20_empty2) { empties<S2>(0); }
CONTRACT(P20_empty2b) { empties<D2>(1); }
CONTRACT(P20_empty3) { empties<S3>(1); }
CONTRACT(P20_zero) {
  S0 s;
  auto c = make_compact(s);
  ENSURES(c.rank() == 0 && c.flat_extent() == 1 && c.size() == 1);
}

// ---- fixed_dense_shape and dense_shape
template <index_t... E> void fixed_dense() {
  using S = fixed_dense_shape<E...>;
  constexpr long ex[] = {E...};
  S s;
  long st[S::rank() + 1], next = 1;
  vc::strides(s, st);
  for (size_t d = 0; d < S::rank(); d++) {
    vc_ensures((s.dim(d).min() == 0) & (s.dim(d).extent() == ex[d]), "min 0 and the given extents");
    vc_ensures(st[d] == next, "each stride is the product of the extents inside it");
    next *= ex[d];
  }
  vc_ensures(((long)s.flat_extent() == next) & s.is_compact() & s.is_resolved(), "the flat extent is the size");
}
template <class S, size_t... K> void known(vc::index_sequence<K...>) {
  S s;
  long st[S::rank() + 1];
  vc::strides(s, st);
  bool u[] = {(dim_of<S, K>::Stride == st[K] && dim_of<S, K>::Extent == s.template dim<K>().extent() && dim_of<S, K>::Min == 0)...};
  for (bool b : u) vc_ensures(b, "known at compile time");
}
CONTRACT(P20_fixed_dense) { fixed_dense<4>(), fixed_dense<2, 3>(), fixed_dense<7, 1, 5>(), fixed_dense<2, 3, 4, 5>(), fixed_dense<1>(), fixed_dense<3, 3, 3, 3, 3>(); }
CONTRACT(P20_fixed_known) {
  known<fixed_dense_shape<4>>(vc::make_index_sequence<1>());
  known<fixed_dense_shape<2, 3>>(vc::make_index_sequence<2>());
  known<fixed_dense_shape<7, 1, 5>>(vc::make_index_sequence<3>());
  known<fixed_dense_shape<2, 3, 4, 5>>(vc::make_index_sequence<4>());
}
template <size_t N> void dense_shapes() {
  vc::arb<dense_shape<N>> a;
  ENSURES(a.s.template dim<0>().stride() == 1 && dim_of<dense_shape<N>, 0>::Stride == 1);
  for (size_t d = 0; d < N; d++) ENSURES((a.s.dim(d).min() == a.mn[d]) & (a.s.dim(d).extent() == a.ex[d]) & (a.s.dim(d).stride() == a.st[d]));
}
CONTRACT(P20_dense_shape1) { dense_shapes<1>(); }
CONTRACT(P20_dense_shape2) { dense_shapes<2>(); }
CONTRACT(P20_dense_shape4) { dense_shapes<4>(); }

// ---- bounds
template <class S> void bounds() {
  vc::arb<S> a;
  auto check = [&](auto b) {
    using B = decltype(b);
    vc_ensures((std::is_same<B, shape_of_rank<S::rank()>>::value), "nothing is known at compile time");
    for (size_t d = 0; d < S::rank(); d++) {
      vc_ensures((b.dim(d).min() == a.mn[d]) & (b.dim(d).extent() == a.ex[d]), "mins and extents are kept");
      vc_ensures(b.dim(d).stride() == unresolved, "strides are forgotten");
    }
  };
  check(a.s.bounds());
  array_ref<X, S> r(nullptr, a.s, nda::internal::no_resolve{});
  check(r.bounds());
  // any shape of the rank can be made of it
  dense_shape<S::rank()> d = r.bounds();
  for (size_t k = 0; k < S::rank(); k++) vc_ensures((d.dim(k).min() == a.mn[k]) & (d.dim(k).extent() == a.ex[k]), "mins and extents are kept");
}
CONTRACT(P20_bounds1) { bounds<S1>(); }
CONTRACT(P20_bounds2) { bounds<S2>(); }
CONTRACT(P20_bounds3) { bounds<S3>(); }
CONTRACT(P20_bounds4) { bounds<S4>(); }
CONTRACT(P20_boundsF2) { bounds<F2>(); }
CONTRACT(P20_boundsF3) { bounds<F3>(); }
CONTRACT(P20_boundsD3) { bounds<D3>(); }
CONTRACT(P20_bounds_chunky) { bounds<chunky_image_shape<3>>(); }
CONTRACT(P20_bounds_array) {
  vc::arb<D2> a(1);
  array<X, D2, plain_alloc<X>> x(a.s);
  auto b = x.bounds();
  for (size_t d = 0; d < 2; d++) vc_ensures((b.dim(d).min() == a.mn[d]) & (b.dim(d).extent() == a.ex[d]) & (b.dim(d).stride() == unresolved), "mins and extents are kept, strides are forgotten");
}

// ---- make_compact_copy and make_compact_move
template <class S> void copies(int how, long hi) {
  constexpr size_t N = S::rank();
  vc::arb<S> a(1, hi);
  if (N > 1) for (size_t d = 0; d < N; d++) REQUIRES(a.st[d] >= 0);
  const L* p = (const L*)vc_region("p");
  forget();
  auto want = make_compact(a.s);
  long st[N + 1];
  vc::strides(want, st);
  array_ref<L, S> r((L*)p, a.s);
  A0 al;
  auto check = [&](auto y) {
    vc_ensures((std::is_same<typename decltype(y)::shape_type, decltype(want)>::value), "the shape is the compact version of the source's");
    vc_ensures(y.shape() == want, "the shape is the compact version of the source's");
    vc::pairs<N>(how == 1 ? vc::MASSIGN : vc::ASSIGN, y.base(), st, p, a.st, a.ex, 1, "each element comes from the element at the same index");
    vc::none(how == 1 ? vc::ASSIGN : vc::MASSIGN, "copies copy and moves move");
  };
  if (how == 0) check(make_compact_copy(r, al));
  if (how == 1) check(make_compact_move(r, al));
  if (how == 2) { const_array_ref<L, S> q = r; check(make_compact_copy(q, al)); }
}
CONTRACT(P20_copy0) { copies<S0>(0, vc::B); }
CONTRACT(P20_copy1) { copies<S1>(0, vc::B); }
CONTRACT(P20_copy1c) { copies<S1>(2, vc::B); }
CONTRACT(P20_move1) { copies<S1>(1, vc::B); }
CONTRACT(P20_copyB2) { copies<B2>(0, vc::B); }
CONTRACT(P20_copyF2) { copies<shape<dim<0, 3, 1>, dim<>>>(0, vc::B); }
