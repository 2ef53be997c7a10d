// Arbitrary shapes of a given type, and the abstract element types of the contracts.
#ifndef VC_COMMON_H
#define VC_COMMON_H
#include "vc.h"
#include "array/array.h"
using namespace nda;

namespace vc {
using nda::internal::index_sequence;
using nda::internal::make_index_sequence;
constexpr long dyn = nda::dynamic;

// An arbitrary shape of type S: mins in [-B, B], extents in [exlo, exhi], strides in [-2^20, 2^20]; static ones fixed.
template <class S>
struct arb {
  static constexpr size_t N = S::rank();
  long mn[N + 1], ex[N + 1], st[N + 1];
  S s;

  template <size_t I> using D = typename std::tuple_element<I, typename S::dims_type>::type;
  template <size_t I> int draw(const char* nm, const char* ne, const char* ns, long exlo, long exhi, long stb) {
    mn[I] = D<I>::Min == dyn ? vc_rangei(nm, I, -B, B) : D<I>::Min;
    ex[I] = D<I>::Extent == dyn ? vc_rangei(ne, I, exlo, exhi) : D<I>::Extent;
    st[I] = D<I>::Stride == dyn ? vc_rangei(ns, I, -stb, stb) : D<I>::Stride;
    return 0;
  }
  template <size_t... Is> S make(index_sequence<Is...>) const { return S(D<Is>(mn[Is], ex[Is], st[Is])...); }
  S make(index_sequence<>) const { return S(); }
  template <size_t... Is>
  void drawall(index_sequence<Is...>, const char* nm, const char* ne, const char* ns, long exlo, long exhi, long stb) {
    int u[] = {0, draw<Is>(nm, ne, ns, exlo, exhi, stb)...};
    (void)u;
  }
  arb(long exlo = 0, long exhi = B, const char* nm = "min", const char* ne = "extent", const char* ns = "stride", long stb = 1L << 20) {
    drawall(make_index_sequence<N>(), nm, ne, ns, exlo, exhi, stb);
    s = make(make_index_sequence<N>());
  }
  template <size_t... Is> bool nonempty(index_sequence<Is...>) const {
    bool r = true;
    int u[] = {0, (r = r && ex[Is] > 0, 0)...};
    (void)u;
    return r;
  }
  bool nonempty() const { return nonempty(make_index_sequence<N>()); }
};

// (x_d - min_d) * stride_d summed.
template <size_t N>
inline long offset(const long* x, const long* mn, const long* st) {
  long r = 0;
  for (size_t d = 0; d < N; d++) r += (x[d] - mn[d]) * st[d];
  return r;
}

// p is the address q + off
inline bool at(const void* p, const void* q, long off) { return vc_rid(p) == vc_rid(q) && vc_off(p) == vc_off(q) + off; }

}  // namespace vc

// An element that is only addressed.
struct X {};

// Fresh element memory.
inline X* xregion(const char* n) { return (X*)vc_region(n); }

template <class T>
struct plain_alloc {
  using value_type = T;
  plain_alloc() {}
  template <class U> plain_alloc(const plain_alloc<U>&) {}
  T* allocate(size_t n) { return (T*)vc_region("heap"); }
  void deallocate(T* p, size_t n) {}
  friend bool operator==(const plain_alloc&, const plain_alloc&) { return true; }
  friend bool operator!=(const plain_alloc&, const plain_alloc&) { return false; }
};

// Shapes used throughout.
using S0 = shape<>;
using S1 = shape<dim<>>;
using S2 = shape<dim<>, dim<>>;
using S3 = shape<dim<>, dim<>, dim<>>;
using S4 = shape<dim<>, dim<>, dim<>, dim<>>;
using D1 = dense_shape<1>;
using D2 = dense_shape<2>;
using D3 = dense_shape<3>;
using B2 = shape<broadcast_dim<>, dim<>>;
using F2 = shape<dim<2, 5, 3>, dim<dynamic, 4>>;
using M2 = shape<dim<0, dynamic, -1>, dim<3>>;
using F3 = shape<dim<0, 3, 1>, dim<-2, dynamic, 7>, dim<dynamic, 2, dynamic>>;


// An element whose operations are recorded: it has no data, so every access goes through these.
struct E {
  E() { vc_touch1(vc::DCTOR, this); }
  E(const E& o) { vc_touch2(vc::CCTOR, this, &o); }
  E(E&& o) { vc_touch2(vc::MCTOR, this, &o); }
  E& operator=(const E& o) { vc_touch2(vc::ASSIGN, this, &o); return *this; }
  E& operator=(E&& o) { vc_touch2(vc::MASSIGN, this, &o); return *this; }
  ~E() { vc_touch1(vc::DTOR, this); }
};

namespace vc {
// The multiset of tag is exactly { (p + offset_p(i), q + offset_q(i)) : i in the box of extents ex }.
template <size_t N>
inline void pairs(long tag, const void* p, const long* stp, const void* q, const long* stq, const long* ex, long count, const char* what) {
  long e[N + 1], s[N + 1], u[N + 1];
  for (size_t d = 0; d < N; d++) e[d] = ex[d], s[d] = stp[d], u[d] = stq[d];
  vc_reset(SPEC);
  box2<N>(SPEC, p, s, q, u, e, count);
  vc_same(tag, SPEC, what);
}
// The multiset of tag is exactly { p + offset(i) : i in the box of extents ex }.
template <size_t N>
inline void each(long tag, const void* p, const long* st, const long* ex, const char* what) {
  long e[N + 1], s[N + 1];
  for (size_t d = 0; d < N; d++) e[d] = ex[d], s[d] = st[d];
  vc_reset(SPEC);
  box1<N>(SPEC, p, e, s);
  vc_same(tag, SPEC, what);
}
inline void none(long tag, const char* what) {
  vc_reset(SPEC);
  vc_same(tag, SPEC, what);
}
// Strides of a resolved shape.
template <class S, size_t... Is> inline void strides(const S& s, long* st, index_sequence<Is...>) {
  int u[] = {0, (st[Is] = s.template dim<Is>().stride(), 0)...};
  (void)u;
}
template <class S> inline void strides(const S& s, long* st) { strides(s, st, make_index_sequence<S::rank()>()); }
}  // namespace vc

#endif
