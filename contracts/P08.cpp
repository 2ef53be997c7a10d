#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

struct touch {
  void operator()(const X& e) const { vc_touch1(vc::VISIT, &e); }
};
template <size_t N> void spec(const void* p, const long* ex, const long* st) {
  long e[N + 1], s[N + 1];
  for (size_t d = 0; d < N; d++) e[d] = ex[d], s[d] = st[d];
  vc::box1<N>(vc::SPEC, p, e, s);
  vc_same(vc::VISIT, vc::SPEC, "each element visited exactly once, nothing else");
}

template <class S> void ref(long exlo = 0) {
  vc::arb<S> a(exlo);
  X* p = (X*)vc_region("a");
  array_ref<X, S> r(p, a.s);
  r.for_each_value(touch());
  spec<S::rank()>(p, a.ex, a.st);
}
template <class S> void cref() {
  vc::arb<S> a;
  X* p = (X*)vc_region("a");
  const_array_ref<X, S> r(p, a.s);
  r.for_each_value(touch());
  spec<S::rank()>(p, a.ex, a.st);
}
// The owning array; elements of a non-empty shape only (an empty one has no memory).
template <class S> void arr() {
  vc::arb<S> a(1);
  array<X, S, plain_alloc<X>> v(a.s);
  const auto& cv = v;
  if (vc_bool("const")) cv.for_each_value(touch());
  else v.for_each_value(touch());
  spec<S::rank()>(v.base(), a.ex, a.st);
}

CONTRACT(P08_ref0) { ref<S0>(); }
CONTRACT(P08_ref1) { ref<S1>(); }
CONTRACT(P08_ref2) { ref<S2>(); }
CONTRACT(P08_ref3) { ref<S3>(); }
CONTRACT(P08_ref4) { ref<S4>(); }
CONTRACT(P08_refD1) { ref<D1>(); }
CONTRACT(P08_refD2) { ref<D2>(); }
CONTRACT(P08_refD3) { ref<D3>(); }
CONTRACT(P08_refB2) { ref<B2>(); }
CONTRACT(P08_refF2) { ref<F2>(); }
CONTRACT(P08_refM2) { ref<M2>(); }
CONTRACT(P08_refF3) { ref<F3>(); }
CONTRACT(P08_ref_dense_last) { ref<shape<dim<>, dense_dim<>>>(); }
CONTRACT(P08_ref_fixed) { ref<shape<dim<0, 3, 1>, dim<0, 4, 3>>>(); }
CONTRACT(P08_ref_fixed_padded) { ref<shape<dim<0, 3, 1>, dim<-1, 4, 5>>>(); }
CONTRACT(P08_ref_outer3) { ref<shape<dim<>, dim<>, fixed_dim<3>>>(); }
CONTRACT(P08_ref_broadcast1) { ref<shape<broadcast_dim<>>>(); }
CONTRACT(P08_ref_broadcast_mid) { ref<shape<dense_dim<>, broadcast_dim<>, dim<>>>(); }
CONTRACT(P08_cref2) { cref<S2>(); }
CONTRACT(P08_crefD2) { cref<D2>(); }
CONTRACT(P08_array0) { arr<S0>(); }
CONTRACT(P08_array1) { arr<S1>(); }
CONTRACT(P08_array2) { arr<S2>(); }
CONTRACT(P08_arrayD2) { arr<D2>(); }
CONTRACT(P08_arrayF2) { arr<F2>(); }

// Matrix and image shapes with their own traversals.
CONTRACT(P08_matrix) { ref<matrix_shape<>>(); }
CONTRACT(P08_matrix34) { ref<matrix_shape<3, 4>>(); }
CONTRACT(P08_matrix_dyn4) { ref<matrix_shape<dynamic, 4>>(); }
CONTRACT(P08_vector) { ref<vector_shape<>>(); }
CONTRACT(P08_chunky) { ref<chunky_image_shape<>>(); }
CONTRACT(P08_chunky3) { ref<chunky_image_shape<3>>(); }
CONTRACT(P08_chunky4) { ref<chunky_image_shape<4>>(); }
CONTRACT(P08_chunky34) { ref<chunky_image_shape<3, 4>>(); }
CONTRACT(P08_chunky_padded) { ref<chunky_image_shape<3, dynamic>>(); }
CONTRACT(P08_planar) { ref<planar_image_shape>(); }
CONTRACT(P08_image) { ref<image_shape>(); }

// A null reference to an empty shape calls nothing.
template <class S> void nul() {
  vc::arb<S> a;
  REQUIRES(!a.nonempty());
  array_ref<X, S> r(nullptr, a.s);
  r.for_each_value([](const X&) { vc_ensures(false, "an empty shape visits nothing"); });
  const_array_ref<X, S> q(nullptr, a.s);
  q.for_each_value([](const X&) { vc_ensures(false, "an empty shape visits nothing"); });
  ENSURES(r.base() == nullptr);
}
CONTRACT(P08_null1) { nul<S1>(); }
CONTRACT(P08_null2) { nul<S2>(); }
CONTRACT(P08_null3) { nul<S3>(); }
CONTRACT(P08_null_default) {
  array_ref<X, S2> r;
  r.for_each_value([](const X&) { vc_ensures(false, "an empty shape visits nothing"); });
  array<X, S2, plain_alloc<X>> v;
  v.for_each_value([](const X&) { vc_ensures(false, "an empty array visits nothing"); });
  ENSURES(r.base() == nullptr && v.base() == nullptr);
}

// The element type has a size: addresses advance by whole elements.
struct W { long pad[3]; };
CONTRACT(P08_wide) {
  vc::arb<S2> a(0, vc::B, "min", "extent", "stride", 1 << 16);
  W* p = (W*)vc_region("a");
  array_ref<W, S2> r(p, a.s);
  r.for_each_value([](const W& e) { vc_touch1(vc::VISIT, &e); });
  long st[] = {a.st[0] * (long)sizeof(W), a.st[1] * (long)sizeof(W)};
  spec<2>(p, a.ex, st);
}
