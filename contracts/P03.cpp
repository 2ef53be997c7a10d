#include "common.h"

// flat_min and flat_max bound the offset of every in-range index and are attained.
template <class S> void flat() {
  constexpr size_t N = S::rank();
  vc_mode(1);
  vc::arb<S> a(1);
  const S& s = a.s;
  long lo = 0, hi = 0, v = 0;
  for (size_t d = 0; d < N; d++) {
    long x = vc_rangei("x", d, 0, vc::B - 1);
    REQUIRES(x < a.ex[d]);
    long last = (a.ex[d] - 1) * a.st[d];
    lo += a.st[d] < 0 ? last : 0;
    hi += a.st[d] < 0 ? 0 : last;
    v += x * a.st[d];
  }
  ENSURES(s.flat_min() == lo);
  ENSURES(s.flat_max() == hi);
  ENSURES(s.flat_min() <= v && v <= s.flat_max());
  ENSURES((long)s.flat_extent() == hi - lo + 1);
}
CONTRACT(P03_flat0) { flat<S0>(); }
CONTRACT(P03_flat1) { flat<S1>(); }
CONTRACT(P03_flat2) { flat<S2>(); }
CONTRACT(P03_flat3) { flat<S3>(); }
CONTRACT(P03_flat4) { flat<S4>(); }
CONTRACT(P03_flatD1) { flat<D1>(); }
CONTRACT(P03_flatD3) { flat<D3>(); }
CONTRACT(P03_flatB2) { flat<B2>(); }
CONTRACT(P03_flatF2) { flat<F2>(); }
CONTRACT(P03_flatM2) { flat<M2>(); }
CONTRACT(P03_flatF3) { flat<F3>(); }

// The same at the real index: the offset of an in-range index lies within [flat_min, flat_max], and both corners attain them.
template <class S, size_t... Is> void attained(vc::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  vc_mode(1);
  vc::arb<S> a(1);
  const S& s = a.s;
  long x[N + 1] = {vc_rangei("x", Is, -vc::B, 2 * vc::B)...};
  typename S::index_type idx{x[Is]...};
  REQUIRES(s.is_in_range(idx));
  ENSURES(s.flat_min() <= s[idx]);
  ENSURES(s[idx] <= s.flat_max());
  typename S::index_type low{(a.st[Is] < 0 ? a.mn[Is] + a.ex[Is] - 1 : a.mn[Is])...};
  typename S::index_type high{(a.st[Is] < 0 ? a.mn[Is] : a.mn[Is] + a.ex[Is] - 1)...};
  ENSURES(s[low] == s.flat_min());
  ENSURES(s[high] == s.flat_max());
}
template <class S> void attained() { attained<S>(vc::make_index_sequence<S::rank()>()); }
CONTRACT(P03_attained1) { attained<S1>(); }
CONTRACT(P03_attained2) { attained<S2>(); }
CONTRACT(P03_attained3) { attained<S3>(); }
CONTRACT(P03_attainedF2) { attained<F2>(); }
CONTRACT(P03_attainedM2) { attained<M2>(); }

// size, empty, is_compact, is_one_to_one's ingredients.
template <class S> void sizes() {
  constexpr size_t N = S::rank();
  vc_mode(1);
  // Extents such that the size is representable.
  vc::arb<S> a(0, N > 3 ? 1 << 13 : vc::B, "min", "extent", "stride", 1 << 16);
  const S& s = a.s;
  long size = 1;
  bool empty = false;
  long lo = 0, hi = 0;
  for (size_t d = 0; d < N; d++) {
    size *= a.ex[d];
    empty = empty || a.ex[d] == 0;
    long last = (a.ex[d] - 1) * a.st[d];
    lo += a.st[d] < 0 ? last : 0;
    hi += a.st[d] < 0 ? 0 : last;
  }
  ENSURES((long)s.size() == size);
  ENSURES(s.empty() == empty);
  if (!empty) ENSURES(s.is_compact() == (hi - lo + 1 <= size));
  array_ref<X, S> r(xregion("a"), s);
  const auto& cr = r;
  ENSURES((long)cr.size() == size);
  ENSURES(cr.empty() == empty);
  if (!empty) ENSURES(cr.is_compact() == (hi - lo + 1 <= size));
}
CONTRACT(P03_size0) { sizes<S0>(); }
CONTRACT(P03_size1) { sizes<S1>(); }
CONTRACT(P03_size2) { sizes<S2>(); }
CONTRACT(P03_size3) { sizes<S3>(); }
CONTRACT(P03_size4) { sizes<S4>(); }
CONTRACT(P03_sizeF2) { sizes<F2>(); }
CONTRACT(P03_sizeF3) { sizes<F3>(); }
CONTRACT(P03_sizeB2) { sizes<B2>(); }

// data() is the first element in memory, null for a null base.
template <class S> void data() {
  vc_mode(2);
  vc::arb<S> a(1);
  long lo = 0;
  for (size_t d = 0; d < S::rank(); d++) lo += a.st[d] < 0 ? (a.ex[d] - 1) * a.st[d] : 0;
  X* p = xregion("a");
  array_ref<X, S> r(p, a.s);
  const auto& cr = r;
  ENSURES(vc::at(r.data(), p, lo));
  ENSURES(vc::at(cr.data(), p, lo));
  array_ref<X, S> nul(nullptr, a.s);
  ENSURES(nul.data() == nullptr);
  array<X, S, plain_alloc<X>> v(a.s);
  const auto& cv = v;
  ENSURES(vc::at(v.data(), v.base(), lo));
  ENSURES(vc::at(cv.data(), v.base(), lo));
  ENSURES((long)cv.size() == (long)a.s.size() && cv.empty() == a.s.empty() && cv.is_compact() == a.s.is_compact());
  array<X, S, plain_alloc<X>> e;
  const auto& ce = e;
  if (e.empty()) ENSURES(e.data() == nullptr && ce.data() == nullptr && e.base() == nullptr);
}
CONTRACT(P03_data0) { data<S0>(); }
CONTRACT(P03_data1) { data<S1>(); }
CONTRACT(P03_data2) { data<S2>(); }
CONTRACT_T(P03_data3) { data<S3>(); }
CONTRACT(P03_dataF2) { data<F2>(); }
CONTRACT(P03_dataM2) { data<M2>(); }

// An element wider than a byte: pointers move by whole elements.
CONTRACT(P03_data_wide) {
  vc::arb<S2> a(1);
  long lo = 0;
  for (int d = 0; d < 2; d++) lo += a.st[d] < 0 ? (a.ex[d] - 1) * a.st[d] : 0;
  long* p = (long*)vc_region("a");
  array_ref<long, S2> r(p, a.s);
  ENSURES(vc::at(r.data(), p, lo * (long)sizeof(long)));
}
