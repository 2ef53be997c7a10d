#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

// Shapes of which the dimensions in the mask U have an unknown stride.
template <class S, unsigned U> struct part {
  static constexpr size_t N = S::rank();
  vc::arb<S> a;
  S s;
  template <size_t... Is> S make(vc::index_sequence<Is...>) const {
    using vc::dyn;
    return S(typename vc::arb<S>::template D<Is>(a.mn[Is], a.ex[Is], (U >> Is & 1) ? unresolved : a.st[Is])...);
  }
  part(long exlo = 1, long exhi = vc::B) : a(exlo, exhi, "min", "extent", "stride", 1 << 20), s(make(vc::make_index_sequence<N>())) {}
};
// Dimensions (extent, stride) that do not overlap: one fits between the elements of the other.
inline bool apart(long e, long s, long e2, long s2) {
  long u = s < 0 ? -s : s, v = s2 < 0 ? -s2 : s2;
  return (e2 * v <= u) | (e * u <= v);
}

template <class S, unsigned U> void check(const part<S, U>& p, const S& t) {
  constexpr size_t N = S::rank();
  long st[N + 1];
  vc::strides(t, st);
  for (size_t d = 0; d < N; d++) {
    ENSURES(t.dim(d).min() == p.a.mn[d]);
    ENSURES(t.dim(d).extent() == p.a.ex[d]);
    if (U >> d & 1) {
      vc_ensures(st[d] > 0, "an unknown stride becomes positive");
      for (size_t e = 0; e < N; e++) {
        if (e == d) continue;
        // The pair is looked at once if both were unknown.
        if ((U >> e & 1) && e < d) continue;
        vc_ensures(apart(p.a.ex[d], st[d], p.a.ex[e], st[e]), "a resolved dimension overlaps no other");
      }
    } else {
      vc_ensures(st[d] == p.a.st[d], "a given stride is kept");
    }
  }
}
template <class S, unsigned U> void res() {
  vc_mode(1);
  part<S, U> p;
  S t = p.s;
  ENSURES(t.is_resolved() == (U == 0));
  t.resolve();
  check<S, U>(p, t);
  ENSURES(t.is_resolved());
}
// Constructing array_refs and arrays resolves the same way.
template <class S, unsigned U> void refs() {
  vc_mode(1);
  part<S, U> p;
  S t = p.s;
  t.resolve();
  array_ref<X, S> r(xregion("a"), p.s);
  ENSURES(r.shape() == t);
  array_ref<X, S> q = make_array_ref(xregion("b"), p.s);
  ENSURES(q.shape() == t);
  // Resolving what is resolved changes nothing.
  S u = t;
  u.resolve();
  ENSURES(u == t);
}
CONTRACT(P04_resolve1_1) { res<S1, 1>(); }
CONTRACT(P04_resolve2_0) { res<S2, 0>(); }
CONTRACT(P04_resolve2_1) { res<S2, 1>(); }
CONTRACT(P04_resolve2_2) { res<S2, 2>(); }
CONTRACT(P04_resolve2_3) { res<S2, 3>(); }
CONTRACT(P04_resolve3_1) { res<S3, 1>(); }
CONTRACT(P04_resolve3_2) { res<S3, 2>(); }
CONTRACT(P04_resolve3_4) { res<S3, 4>(); }
CONTRACT(P04_resolve3_3) { res<S3, 3>(); }
CONTRACT(P04_resolve3_5) { res<S3, 5>(); }
CONTRACT(P04_resolve3_6) { res<S3, 6>(); }
CONTRACT(P04_resolve3_7) { res<S3, 7>(); }
CONTRACT(P04_resolveD2) { res<D2, 2>(); }
CONTRACT(P04_resolveD3) { res<D3, 6>(); }
CONTRACT(P04_resolveD3_2) { res<D3, 2>(); }
CONTRACT(P04_resolveF2) { res<F2, 2>(); }
CONTRACT(P04_resolveM2) { res<M2, 2>(); }
CONTRACT(P04_resolve_chunky) { res<chunky_image_shape<3>, 2>(); }
CONTRACT(P04_resolve_matrix) { res<matrix_shape<>, 1>(); }
CONTRACT(P04_ref1_1) { refs<S1, 1>(); }
CONTRACT(P04_ref2_2) { refs<S2, 2>(); }
CONTRACT(P04_ref2_3) { refs<S2, 3>(); }
CONTRACT(P04_refD2) { refs<D2, 2>(); }
CONTRACT(P04_ref3_7) { refs<S3, 7>(); }
CONTRACT(P04_resolve4_15) { res<S4, 15>(); }
CONTRACT_T(P04_resolve4_7) { res<S4, 7>(); }
CONTRACT_T(P04_resolve4_9) { res<S4, 9>(); }

// All strides unknown: compact, innermost first.  The dimension Inner (if any) has stride 1 already.
template <class S, unsigned U> void compact(int inner) {
  constexpr size_t N = S::rank();
  vc_mode(1);
  part<S, U> p;
  if (inner >= 0) REQUIRES(p.a.st[inner] == 1);
  S t = p.s;
  t.resolve();
  long st[N + 1];
  vc::strides(t, st);
  long next = 1;
  if (inner >= 0) {
    ENSURES(st[inner] == 1);
    next = p.a.ex[inner];
  }
  for (size_t d = 0; d < N; d++) {
    if ((int)d == inner) continue;
    vc_ensures(st[d] == next, "each stride is the product of the extents inside it");
    next = next * p.a.ex[d];
  }
  vc_ensures((long)t.flat_extent() == next, "compact");
  ENSURES(t.flat_min() == 0);
}
CONTRACT(P04_compact1) { compact<S1, 1>(-1); }
CONTRACT(P04_compact2) { compact<S2, 3>(-1); }
CONTRACT(P04_compact3) { compact<S3, 7>(-1); }
CONTRACT(P04_compactD1) { compact<D1, 0>(0); }
CONTRACT(P04_compactD2) { compact<D2, 2>(0); }
CONTRACT(P04_compactD3) { compact<D3, 6>(0); }
CONTRACT(P04_compact_chunky) { compact<shape<dim<>, dim<>, dense_dim<>>, 3>(2); }
CONTRACT(P04_compact_row_major) { compact<matrix_shape<>, 1>(1); }

// Any extents, including empty ones: no failure, positive strides, the rest is kept.
template <class S, unsigned U> void any() {
  constexpr size_t N = S::rank();
  vc_mode(1);
  part<S, U> p(0);
  S t = p.s;
  t.resolve();
  long st[N + 1];
  vc::strides(t, st);
  for (size_t d = 0; d < N; d++) {
    ENSURES(t.dim(d).min() == p.a.mn[d]);
    ENSURES(t.dim(d).extent() == p.a.ex[d]);
    if (U >> d & 1) vc_ensures(st[d] > 0, "an unknown stride becomes positive");
    else vc_ensures(st[d] == p.a.st[d], "a given stride is kept");
  }
}
CONTRACT(P04_any1) { any<S1, 1>(); }
CONTRACT(P04_any2_1) { any<S2, 1>(); }
CONTRACT(P04_any2_2) { any<S2, 2>(); }
CONTRACT(P04_any2_3) { any<S2, 3>(); }
CONTRACT(P04_any3_7) { any<S3, 7>(); }
CONTRACT(P04_any3_3) { any<S3, 3>(); }
CONTRACT(P04_any3_6) { any<S3, 6>(); }
CONTRACT(P04_anyD3) { any<D3, 6>(); }

// Distinct in-range indices have distinct offsets, through the real offsets of the resolved shape.
template <class S, unsigned U> void inj2() {
  vc_mode(1);
  part<S, U> p;
  S t = p.s;
  t.resolve();
  long st[3];
  vc::strides(t, st);
  // A given dimension maps its own indices to distinct offsets.
  for (size_t d = 0; d < S::rank(); d++) {
    if (!(U >> d & 1)) REQUIRES(p.a.st[d] != 0);
  }
  long x[2], y[2];
  for (size_t d = 0; d < S::rank(); d++) {
    x[d] = vc_rangei("x", d, 0, vc::B), y[d] = vc_rangei("y", d, 0, vc::B);
    REQUIRES(x[d] < p.a.ex[d]);
    REQUIRES(y[d] < p.a.ex[d]);
  }
  bool same = true;
  long o = 0;
  for (size_t d = 0; d < S::rank(); d++) {
    same = same & (x[d] == y[d]);
    o += (x[d] - y[d]) * st[d];
  }
  REQUIRES(!same);
  vc_ensures(o != 0, "distinct indices have distinct offsets");
}
CONTRACT(P04_injective1) { inj2<S1, 1>(); }
CONTRACT(P04_injective2_3) { inj2<S2, 3>(); }
CONTRACT(P04_injective2_1) { inj2<S2, 1>(); }
CONTRACT(P04_injective2_2) { inj2<S2, 2>(); }
CONTRACT(P04_injectiveD2) { inj2<D2, 2>(); }

// Lemma, by induction on the dimensions: if dimensions sorted by stride are pairwise apart, the offsets of the first k
// dimensions differ by less than the stride of dimension k, hence indices that differ have different offsets.  One step:
CONTRACT(P04_lemma_span) {
  vc_mode(1);
  long e = vc_range("extent", 1, vc::B), s = vc_range("stride", 1, 1L << 40);
  long span = vc_range("span", 0, 1L << 40);        // greatest difference of offsets of the dimensions inside
  long next = vc_range("next", 1, 1L << 56);
  REQUIRES(span < s);                                // induction hypothesis
  REQUIRES(e * s <= next);                           // apart from the next dimension
  long d = vc_range("d", 0, vc::B), in = vc_range("inner", -(1L << 40), 1L << 40);
  REQUIRES(d <= e - 1);
  REQUIRES(-span <= in);
  REQUIRES(in <= span);
  long o = d * s + in;
  vc_ensures(o < next, "the span stays below the next stride");
  if (d != 0) vc_ensures(o > 0, "indices that differ in this dimension have different offsets");
}

// The owning array resolves the shape it is given and allocates exactly its flat extent.
CONTRACT(P04_array2) {
  vc_mode(1);
  part<S2, 3> p;
  array<X, S2, plain_alloc<X>> v(p.s);
  S2 t = p.s;
  t.resolve();
  ENSURES(v.shape() == t);
}
