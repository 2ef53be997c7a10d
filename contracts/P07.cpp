#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

// Ghost: the number of calls so far.  Each call records (index..., calls so far), so one multiset equation states that
// every index is visited once and in which order.
static long calls;

struct record {
  template <class... I> void operator()(I... i) const {
    vc::visit(vc::VISIT, (long)i..., calls);
    calls++;
  }
};

// The box of all indices of a, with rank sum (x_d - min_d) * (product of the extents of the dimensions inside d);
// order[0] is innermost.
template <size_t N> void spec(const long* mn, const long* ex, const long* order) {
  long base[N + 2], dims[N * (N + 2) + 1];
  for (size_t d = 0; d < N; d++) base[d] = mn[d];
  base[N] = 0;
  long w = 1;
  for (size_t k = 0; k < N; k++) {
    long d = order[k];
    long* v = dims + k * (N + 2);
    v[0] = ex[d];
    for (size_t e = 0; e < N; e++) v[1 + e] = (long)e == d;
    v[1 + N] = w;
    w *= ex[d];
  }
  vc_box(vc::SPEC, 1, N + 1, N, base, dims);
  vc_same(vc::VISIT, vc::SPEC, "each index of the box visited once, in the documented order");
  ENSURES(calls == w);
}

template <class T, size_t... Is> void rec(const T& t, vc::index_sequence<Is...>) { record()((long)std::get<Is>(t)...); }

template <class S> void each1(const S& s, const long* mn, const long* ex, const long* order) {
  constexpr size_t N = S::rank();
  calls = 0;
  for_each_index(s, [](const typename S::index_type& i) { rec(i, vc::make_index_sequence<N>()); });
  spec<N>(mn, ex, order);
}
template <class S> void every1(const S& s, const long* mn, const long* ex, const long* order) {
  constexpr size_t N = S::rank();
  calls = 0;
  for_all_indices(s, record());
  spec<N>(mn, ex, order);
}

constexpr long ext(size_t n) { return n > 3 ? 1 << 11 : n > 2 ? 1 << 13 : vc::B; }

template <class S> void each() {
  vc::arb<S> a(0, ext(S::rank()));
  long o[] = {0, 1, 2, 3, 4, 5};
  each1(a.s, a.mn, a.ex, o);
}
template <class S> void every() {
  vc::arb<S> a(0, ext(S::rank()));
  long o[] = {0, 1, 2, 3, 4, 5};
  every1(a.s, a.mn, a.ex, o);
}

CONTRACT(P07_each0) {
  calls = 0;
  for_each_index(S0(), [](const std::tuple<>&) { record()(); });
  ENSURES(calls == 1);
}
CONTRACT(P07_all0) {
  calls = 0;
  for_all_indices(S0(), record());
  ENSURES(calls == 1);
}
CONTRACT(P07_each1) { each<S1>(); }
CONTRACT(P07_each2) { each<S2>(); }
CONTRACT(P07_each3) { each<S3>(); }
CONTRACT(P07_each4) { each<S4>(); }
CONTRACT(P07_each5) { each<shape_of_rank<5>>(); }
CONTRACT(P07_eachD2) { each<D2>(); }
CONTRACT(P07_eachF2) { each<F2>(); }
CONTRACT(P07_eachM2) { each<M2>(); }
CONTRACT(P07_eachF3) { each<F3>(); }
CONTRACT(P07_all1) { every<S1>(); }
CONTRACT(P07_all2) { every<S2>(); }
CONTRACT(P07_all3) { every<S3>(); }
CONTRACT(P07_all4) { every<S4>(); }
CONTRACT(P07_allF2) { every<F2>(); }

// Matrix shapes: columns innermost.
template <class S> void mat() {
  vc::arb<S> a;
  long o[] = {1, 0};
  if (vc_bool("all")) every1(a.s, a.mn, a.ex, o);
  else each1(a.s, a.mn, a.ex, o);
}
CONTRACT(P07_matrix) { mat<matrix_shape<>>(); }
CONTRACT(P07_matrix_static) { mat<matrix_shape<3, 4>>(); }

// Chunky image shapes: channels, then x, then y.
template <class S> void chunky() {
  vc::arb<S> a(0, ext(3));
  long o[] = {2, 0, 1};
  if (vc_bool("all")) every1(a.s, a.mn, a.ex, o);
  else each1(a.s, a.mn, a.ex, o);
}
CONTRACT(P07_chunky) { chunky<chunky_image_shape<>>(); }
CONTRACT(P07_chunky3) { chunky<chunky_image_shape<3>>(); }
CONTRACT(P07_chunky34) { chunky<chunky_image_shape<3, 4>>(); }
CONTRACT(P07_planar) { each<planar_image_shape>(); }

// Explicit loop orders.
template <size_t... O> void ordered() {
  constexpr size_t N = sizeof...(O);
  using S = shape_of_rank<N>;
  vc::arb<S> a(0, ext(N));
  long o[] = {(long)O...};
  calls = 0;
  if (vc_bool("all")) {
    for_all_indices<O...>(a.s, record());
  } else {
    for_each_index<O...>(a.s, [](const typename S::index_type& i) { rec(i, vc::make_index_sequence<N>()); });
  }
  spec<N>(a.mn, a.ex, o);
}
CONTRACT(P07_order01) { ordered<0, 1>(); }
CONTRACT(P07_order10) { ordered<1, 0>(); }
CONTRACT(P07_order012) { ordered<0, 1, 2>(); }
CONTRACT(P07_order021) { ordered<0, 2, 1>(); }
CONTRACT(P07_order102) { ordered<1, 0, 2>(); }
CONTRACT(P07_order120) { ordered<1, 2, 0>(); }
CONTRACT(P07_order201) { ordered<2, 0, 1>(); }
CONTRACT(P07_order210) { ordered<2, 1, 0>(); }
CONTRACT(P07_order1302) { ordered<1, 3, 0, 2>(); }
CONTRACT(P07_order3120) { ordered<3, 1, 2, 0>(); }
CONTRACT(P07_order2301) { ordered<2, 3, 0, 1>(); }

// An explicit order on a matrix overrides the matrix order.
CONTRACT(P07_matrix_order) {
  vc::arb<matrix_shape<>> a;
  long o[] = {0, 1};
  calls = 0;
  for_all_indices<0, 1>(a.s, record());
  spec<2>(a.mn, a.ex, o);
}
