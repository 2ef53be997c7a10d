// Every operation over wide ranges and degenerate values (empty and unit extents, zero and negative strides).  There
// are no postconditions: the obligations are that no arithmetic overflows, no division or shift is undefined, no null
// pointer is offset, no undefined value decides anything, each access is within its object, and each loop ends.
#include "common.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
using vc::dyn;

// |min|, extents and |strides| such that flat offsets stay below 2^61 in magnitude.
template <size_t N, long G = 29> struct width { static constexpr long mn = 1L << (N < 3 ? G : 19), ex = mn, st = 1L << (N < 3 ? G : G < 29 ? 20 : 36); };
template <class S, long G = 29> struct wide {
  static constexpr size_t N = S::rank();
  long mn[N + 1], ex[N + 1], st[N + 1];
  S s;
  template <size_t I> using D = typename std::tuple_element<I, typename S::dims_type>::type;
  template <size_t I> int draw(const char* nm, const char* ne, const char* ns) {
    using W = width<N, G>;
    mn[I] = D<I>::Min == dyn ? vc_rangei(nm, I, -W::mn, W::mn) : D<I>::Min;
    ex[I] = D<I>::Extent == dyn ? vc_rangei(ne, I, 0, W::ex) : D<I>::Extent;
    st[I] = D<I>::Stride == dyn ? vc_rangei(ns, I, -W::st, W::st) : D<I>::Stride;
    return 0;
  }
  template <size_t... Is> void all(const char* nm, const char* ne, const char* ns, vc::index_sequence<Is...>) {
    int u[] = {0, draw<Is>(nm, ne, ns)...};
    (void)u;
    s = S(D<Is>(mn[Is], ex[Is], st[Is])...);
  }
  wide(const char* nm = "min", const char* ne = "extent", const char* ns = "stride") { all(nm, ne, ns, vc::make_index_sequence<N>()); }
};
template <class S> struct wide2 : wide<S> { wide2() : wide<S>("min2_", "extent2_", "stride2_") {} };
constexpr long W = 1L << 60;
#define SAFE(name)                                                                   \
  static void S_##name();                                                            \
  CONTRACT(name) { S_##name(); vc_ensures(true, "the operations come to an end"); }  \
  static void S_##name()
template <class T> void use(const T&) {}
struct nop { template <class... A> void operator()(A&&...) const {} };

// intervals
SAFE(P24_interval) {
  interval<> a(vc_range("min", -W, W), vc_range("extent", 0, W)), b(vc_range("min2", -W, W), vc_range("extent2", 0, W));
  long x = vc_range("x", -W, W), y = vc_range("y", -W, W);
  use(a.max()), use(a.is_in_range(x)), use(a.is_in_range(b)), use(a == b), use(a != b), use(clamp(x, a)), use(clamp(x, y, x)), use(range(x, y)), use(r<5>(x));
  a.set_max(x), a.set_min(y);
  use(end(b) - begin(b));
  auto it = begin(b);
  it += x, it -= x, ++it, --it, it++, it--;
  use(it + 3), use(it - 3);
}
SAFE(P24_interval_loop) {
  interval<> b(vc_range("min", -W, W), vc_range("extent", 0, W));
  for (index_t i : b) use(i);
}
SAFE(P24_dim) {
  wide<S1> a; wide2<S1> b;
  use(a.s.i().flat_offset(vc_range("x", -(1L << 29), 1L << 29)));
  use(a.s.i() == b.s.i()), use(a.s.i() != b.s.i()), use(a.s.i().is_in_range(b.s.i()));
  a.s.i() = b.s.i();
}
// splits
// A loop over the tiles: each increment either reaches the end or moves on to a tile that lies further and within bounds.
template <class S> void tiles(const interval<>& b, const S& s, long tile) {
  use(s.size());
  if (b.extent() == 0) { vc_ensures(!(s.begin() != s.end()), "the loop over the tiles ends"); return; }
  long k = vc_range("k", 0, W);
  REQUIRES(k <= (b.extent() - 1) / tile);
  auto it = s.begin() + k;
  use(it->max()), use(*s[k]), use(it - s.begin());
  auto next = it;
  ++next;
  vc_ensures(!(next != s.end()) | (next->min() > it->min()), "the loop over the tiles moves on");
  vc_ensures(!(next != s.end()) | (next->max() <= b.max()), "the loop over the tiles ends");
}
SAFE(P24_split) {
  vc_mode(1);
  interval<> b(vc_range("min", -W, W), vc_range("extent", 0, W));
  long tile = vc_range("tile", 1, W);
  tiles(b, split(b, tile), tile);
}
template <long T> void split_fixed() {
  vc_mode(1);
  interval<> b(vc_range("min", -W, W), vc_range("extent", T, W));
  tiles(b, split<T>(b), T);
}
SAFE(P24_split1) { split_fixed<1>(); }
SAFE(P24_split7) { split_fixed<7>(); }
// shapes
template <class S, size_t... Is> typename S::index_type index(vc::index_sequence<Is...>) {
  return typename S::index_type(vc_rangei("x", Is, -width<S::rank()>::mn, width<S::rank()>::mn)...);
}
template <class S, size_t... Is> void forget(S& s, long known, vc::index_sequence<Is...>) {
  int u[] = {0, ((known >> Is) & 1 ? 0 : (s.template dim<Is>().set_stride(nda::unresolved), 0))...};
  (void)u;
}
template <class S> void queries() {
  vc_mode(1);
  wide<S> a; wide2<S> b;
  use(a.s.flat_min()), use(a.s.flat_max()), use(a.s.flat_extent()), use(a.s.size()), use(a.s.empty()), use(a.s.is_compact()), use(a.s.is_resolved());
  use(a.s.min()), use(a.s.max()), use(a.s.extent()), use(a.s.stride()), use(a.s.bounds()), use(a.s == b.s), use(a.s != b.s);
  auto x = index<S>(vc::make_index_sequence<S::rank()>());
  use(a.s.is_in_range(x));
  use(a.s.is_subset_of(b.s, vc_range("offset", -W / 4, W / 4)));
}
SAFE(P24_queries1) { queries<S1>(); }
SAFE(P24_queries2) { queries<S2>(); }
SAFE(P24_queries3) { queries<S3>(); }
SAFE(P24_queriesD2) { queries<D2>(); }
SAFE(P24_queriesF3) { queries<F3>(); }
SAFE(P24_queriesB2) { queries<B2>(); }
SAFE(P24_queriesM2) { queries<M2>(); }
template <class S, class T> void converts() {
  vc_mode(1);
  wide<S> a;
  if (is_compatible<T>(a.s)) { T t = convert_shape<T>(a.s); use(t); }
}
SAFE(P24_convert2) { converts<S2, D2>(); }
SAFE(P24_convertF2) { converts<S2, F2>(); }
template <class S> void resolves() {
  vc_mode(1);
  constexpr size_t N = S::rank();
  wide<S, 19> a;
  S s = a.s;
  // which strides are unknown
  long known = vc_range("known", 0, (1 << N) - 1);
  forget(s, known, vc::make_index_sequence<N>());
  s.resolve();
  use(s.flat_extent());
}
SAFE(P24_resolve1) { resolves<S1>(); }
#if VC_TIER
SAFE(P24_resolve2) { resolves<S2>(); }
#endif
SAFE(P24_resolveD2) { resolves<D2>(); }
template <class S> void resolves(long known) {
  vc_mode(1);
  wide<S, 19> a;
  S s = a.s;
  forget(s, known, vc::make_index_sequence<S::rank()>());
  s.resolve();
  use(s.flat_extent());
}
SAFE(P24_resolve2_outer) { resolves<S2>(1); }
SAFE(P24_resolve2_inner) { resolves<S2>(2); }
SAFE(P24_resolve2_none) { resolves<S2>(0); }
SAFE(P24_resolveB2) { resolves<B2>(0); }
SAFE(P24_resolve3_last) { resolves<S3>(3); }
SAFE(P24_resolve3_middle) { resolves<S3>(5); }
SAFE(P24_resolve3_first) { resolves<S3>(6); }
template <class S> void compacts() {
  vc_mode(1);
  wide<S> a;
  auto c = make_compact(a.s);
  use(c.flat_extent());
}
SAFE(P24_compact1) { compacts<S1>(); }
SAFE(P24_compact2) { compacts<S2>(); }
SAFE(P24_compact3) { compacts<S3>(); }
SAFE(P24_compactD2) { compacts<D2>(); }
SAFE(P24_compactF3) { compacts<F3>(); }
SAFE(P24_permute3) {
  vc_mode(1);
  wide<S3> a;
  use(transpose<2, 0, 1>(a.s)), use(reorder<1, 2, 0>(a.s)), use(transpose<1, 0>(a.s));
}
template <class S> void optimizes() {
  wide<S> a;
  auto o = internal::optimize_shape(a.s);
  use(o.flat_extent());
}
SAFE(P24_optimize1) { optimizes<S1>(); }
SAFE(P24_optimize2) { optimizes<S2>(); }

// loops
template <class S> void index_loops() {
  wide<S> a;
  for_each_index(a.s, nop());
  for_each_index_in_order(a.s, nop());
  for_all_indices(a.s, nop());
}
SAFE(P24_index_loops0) { index_loops<S0>(); }
SAFE(P24_index_loops1) { index_loops<S1>(); }
SAFE(P24_index_loops2) { index_loops<S2>(); }
SAFE(P24_index_loops3) { index_loops<S3>(); }
SAFE(P24_index_loops_image) { index_loops<planar_image_shape>(); }
SAFE(P24_index_loops_chunky) { index_loops<chunky_image_shape<3>>(); }
SAFE(P24_index_loops_matrix) { index_loops<matrix_shape<>>(); }
template <class S> void value_loops(bool null) {
  wide<S> a;
  if (null) vc_requires(a.s.empty());
  array_ref<X, S> x(null ? nullptr : xregion("p"), a.s);
  x.for_each_value(nop());
  for_each_value_in_order(a.s, x.base(), nop());
}
SAFE(P24_value_loops0) { value_loops<S0>(false); }
SAFE(P24_value_loops1) { value_loops<S1>(false); }
SAFE(P24_value_loops2) { value_loops<S2>(false); }
SAFE(P24_value_loopsD2) { value_loops<D2>(false); }
SAFE(P24_value_loops_null) { value_loops<S1>(true); }
SAFE(P24_value_loops_null2) { value_loops<S2>(true); }
SAFE(P24_value_loops_image) { value_loops<image_shape>(false); }

// refs
inline void contained(const long* mn, const long* ex, const long* mo, const long* eo, size_t n) {
  for (size_t d = 0; d < n; d++) vc_requires((mn[d] >= mo[d]) & (mn[d] + ex[d] <= mo[d] + eo[d]));
}
template <class S, class T> void refs(bool null_src, bool null_dst) {
  wide<S> a; wide2<T> b;
  array_ref<E, S> x(null_src ? nullptr : (E*)vc_region("p"), a.s);
  array_ref<E, T> y(null_dst ? nullptr : (E*)vc_region("q"), b.s);
  contained(b.mn, b.ex, a.mn, a.ex, S::rank());
  copy(x, y);
}
SAFE(P24_copy1) { refs<S1, S1>(false, false); }
SAFE(P24_copy2) { refs<S2, D2>(false, false); }
SAFE(P24_access) {
  vc_mode(1);
  wide<S2> a;
  array_ref<X, S2> x(xregion("p"), a.s);
  long i = vc_range("i", -(1L << 29), 1L << 29), j = vc_range("j", -(1L << 29), 1L << 29), n = vc_range("n", 1, 1L << 29);
  REQUIRES((i >= a.mn[0]) & (i < a.mn[0] + a.ex[0]));
  REQUIRES((j >= a.mn[1]) & (j < a.mn[1] + a.ex[1]));
  use(&x(i, j)), use(x(i, nda::_).base()), use(x(nda::_, j).base()), use(x(nda::_, nda::_).base()), use(x.data());
  REQUIRES(i + n <= a.mn[0] + a.ex[0]);
  use(x(r(i, i + n), j).base()), use(x(r(i, i + n), nda::_).base());
}
SAFE(P24_equal) {
  wide<S1> a; wide2<S1> b;
  struct C { bool operator==(const C&) const { return vc_any(); } bool operator!=(const C&) const { return vc_any(); } };
  array_ref<C, S1> x((C*)vc_region("p"), a.s), y((C*)vc_region("q"), b.s);
  use(x == y), use(x != y);
}
// arrays
template <class S> void arrays() {
  wide<S> a; wide2<S> b;
  for (size_t d = 0; d < S::rank(); d++) vc_requires(a.st[d] >= 0), vc_requires(b.st[d] >= 0);
  array<X, S, plain_alloc<X>> x(a.s), y(b.s, X()), z(x);
  z = y;
  z = std::move(x);
  z.set_shape(z.shape());
  z.clear();
  use(z.empty());
  x = array<X, S, plain_alloc<X>>();
}
SAFE(P24_arrays1) { arrays<S1>(); }
SAFE(P24_arraysD1) { arrays<D1>(); }
SAFE(P24_reshape) {
  wide<D1> a; wide2<D1> b;
  array<X, D1, plain_alloc<X>> x(a.s);
  x.reshape(b.s);
}
// images
SAFE(P24_crop) {
  vc_mode(1);
  constexpr long B = 1L << 36, A = 1L << 19;
  wide<image_shape> a;
  array_ref<X, image_shape> im(xregion("p"), a.s);
  long x0 = vc_range("x0", -B, B), y0 = vc_range("y0", -B, B), x1 = vc_range("x1", -B, B), y1 = vc_range("y1", -B, B);
  use(crop(im, x0, y0, x1, y1, crop_origin::crop));
  use(crop(im, x0, y0, x1, y1, crop_origin::zero));
  use(crop_image_shape(a.s, x0, y0, x1, y1));
}
SAFE(P24_channel) {
  vc_mode(1);
  wide<image_shape> a;
  array_ref<X, image_shape> im(xregion("p"), a.s);
  long c = vc_range("c", -(1L << 19), 1L << 20);
  REQUIRES((c >= a.mn[2]) & (c < a.mn[2] + a.ex[2]));
  use(slice_channel(im, c));
}
// Einstein reductions
struct Y {
  Y() {}
  Y(const Y&) {}
  Y& operator=(const Y&) { return *this; }
  Y& operator+=(const Y&) { return *this; }
  friend Y operator*(const Y&, const Y&) { return {}; }
};
SAFE(P24_mat_vec) {
  wide<S2> a; wide2<S1> b;
  wide<S1> r("rmin", "rextent", "rstride");
  array_ref<const Y, S2> x((Y*)vc_region("A"), a.s);
  array_ref<const Y, S1> y((Y*)vc_region("B"), b.s);
  array_ref<Y, S1> z((Y*)vc_region("R"), r.s);
  REQUIRES((r.mn[0] == a.mn[0]) & (r.ex[0] == a.ex[0]));
  REQUIRES((b.mn[0] == a.mn[1]) & (b.ex[0] == a.ex[1]));
  ein_reduce(ein<0>(z) += ein<0, 1>(x) * ein<1>(y));
}
SAFE(P24_ein_shape) {
  vc_mode(1);
  wide<S2> a;
  array_ref<const Y, S2> x((Y*)vc_region("A"), a.s);
  use(make_ein_reduce_shape<1, 0>(ein<0, 1>(x)));
}
