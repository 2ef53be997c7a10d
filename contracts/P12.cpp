#include "common.h"

// Tile k of [mn, mn + ex): k * inner < ex.  The run-time split cuts the last tile short; the compile-time split shifts it back.
inline long tile_min(bool fixed, long mn, long ex, long inner, long k) {
  return fixed && k * inner + inner > ex ? mn + ex - inner : mn + k * inner;
}
inline long tile_extent(bool fixed, long mn, long ex, long inner, long k) {
  return fixed || k * inner + inner <= ex ? inner : ex - k * inner;
}

// Iterators with the same interval and the same last word (the end of the split interval): what they do next is the same.
template <class It> bool same_state(const It& a, const It& b) {
  const long *x = (const long*)(&a + 1) - 1, *y = (const long*)(&b + 1) - 1;
  return (a->min() == b->min()) & (a->extent() == b->extent()) & (*x == *y);
}

template <class V> struct input {
  long mn, ex;
  V v;
  input(long exlo) : mn(V::Min == vc::dyn ? vc_range("min", -vc::B, vc::B) : V::Min), ex(V::Extent == vc::dyn ? vc_range("extent", exlo, vc::B) : V::Extent) {
    v = V(mn, ex);
  }
};
template <class V> internal::split_result<> do_split(const V& v, std::integral_constant<long, 0>, long inner) { return split(v, inner); }
template <class V, long I> internal::split_result<I> do_split(const V& v, std::integral_constant<long, I>, long) { return split<I>(v); }

// Tile k is what begin() + k and operator[](k) give.  I = 0: the run-time split.
template <class V, long I> void random() {
  vc_mode(1);
  input<V> a(I);
  long inner = I ? I : vc_range("inner", 1, 2 * vc::B);
  auto s = do_split(a.v, std::integral_constant<long, I>(), inner);
  long k = vc_range("k", 0, vc::B);
  REQUIRES(k * inner < a.ex);
  auto t = *(s.begin() + k);
  vc_ensures(t.min() == tile_min(I, a.mn, a.ex, inner, k), "begin() + k is tile k: min");
  vc_ensures(t.extent() == tile_extent(I, a.mn, a.ex, inner, k), "begin() + k is tile k: extent");
  auto u = *s[k];
  vc_ensures((u.min() == t.min()) & (u.extent() == t.extent()), "split_result::operator[](k) is tile k");
  auto w = s.begin()[k];
  vc_ensures((w.min() == t.min()) & (w.extent() == t.extent()), "iterator::operator[](k) is tile k");
  auto it = s.begin();
  it += k;
  vc_ensures((it->min() == t.min()) & (it->extent() == t.extent()), "+= k gives tile k");
  vc_ensures(same_state(s.begin() + 0, s.begin()), "adding 0 changes nothing");
  vc_ensures((it - s.begin() == k) & (s.begin() - s.begin() == 0), "the difference of iterators is the number of increments");
}
// Increments: the state after k + 1 increments is that of begin() + (k + 1), or that of end() after the last tile.
template <class V, long I> void steps() {
  vc_mode(1);
  input<V> a(I);
  long inner = I ? I : vc_range("inner", 1, 2 * vc::B);
  auto s = do_split(a.v, std::integral_constant<long, I>(), inner);
  long k = vc_range("k", 0, vc::B);
  REQUIRES(k * inner < a.ex);
  auto it = s.begin() + k;
  vc_ensures((it != s.end()) & !(it == s.end()), "no end before the last tile");
  auto next = it;
  auto& r = ++next;
  vc_ensures(&r == &next, "++ returns its operand");
  auto old = it, post = old++;
  vc_ensures(same_state(post, it) & same_state(old, next), "post-increment");
  if ((k + 1) * inner < a.ex) {
    vc_ensures(same_state(next, s.begin() + (k + 1)), "++ is + 1");
  } else {
    vc_ensures((next == s.end()) & !(next != s.end()), "the end follows the last tile");
  }
  long n = vc_range("n", 0, vc::B);
  REQUIRES((k + n) * inner < a.ex);
  // The iterator at the last tile is not that of begin() + k in the run-time split when it is cut short: n is then 0.
  vc_ensures(same_state(it + n, s.begin() + (k + n)), "adding k, then n, is adding k + n");
  vc_ensures((it + n) - it == n, "the difference of iterators is the number of increments");
}
// The number of tiles, and the empty interval.
template <class V, long I> void sizes() {
  vc_mode(1);
  input<V> a(I);
  long inner = I ? I : vc_range("inner", 1, 2 * vc::B);
  auto s = do_split(a.v, std::integral_constant<long, I>(), inner);
  long n = s.size();
  vc_ensures(((n - 1) * inner < a.ex) & (a.ex <= n * inner), "size() is the number of tiles");
  if (a.ex == 0) vc_ensures((n == 0) & (s.begin() == s.end()) & !(s.begin() != s.end()), "an empty interval has no tiles");
}
// Lemmas about tiles: in bounds, of the requested extent, covering, and disjoint (in the run-time split) or in order.
template <class V, long I> void cover() {
  vc_mode(1);
  input<V> a(I);
  long inner = I ? I : vc_range("inner", 1, 2 * vc::B);
  auto s = do_split(a.v, std::integral_constant<long, I>(), inner);
  long k = vc_range("k", 0, vc::B);
  REQUIRES(k * inner < a.ex);
  auto t = *s[k];
  bool last = (k + 1) * inner >= a.ex;
  vc_ensures((t.min() >= a.mn) & (t.max() < a.mn + a.ex) & (t.extent() >= 1), "a tile stays in bounds");
  if (I || !last) vc_ensures(t.extent() == inner, "a tile has the requested extent");
  vc_ensures(t.extent() <= inner, "no tile exceeds the requested extent");
  if (k == 0) vc_ensures(t.min() == a.mn, "the first tile starts at min");
  if (last) {
    vc_ensures(t.max() == a.mn + a.ex - 1, "the last tile ends at max");
  } else {
    auto u = *s[k + 1];
    vc_ensures((u.min() <= t.max() + 1) & (u.min() > t.min()) & (u.max() > t.max()), "tiles leave no gap and never move backwards");
    if (!I || (k + 2) * inner <= a.ex) vc_ensures(u.min() == t.max() + 1, "tiles do not overlap");
  }
}
template <class V, long I> void all() {
  random<V, I>();
}
#define SPLIT(NAME, V, I)                            \
  CONTRACT(P12_random_##NAME) { random<V, I>(); }    \
  CONTRACT(P12_steps_##NAME) { steps<V, I>(); }      \
  CONTRACT(P12_size_##NAME) { sizes<V, I>(); }       \
  CONTRACT(P12_cover_##NAME) { cover<V, I>(); }
using DimS2 = dim<dynamic, dynamic, 2>;
using DimM = dim<-3>;
using DimE = dim<dynamic, 12>;
using IntM = interval<5>;
using IntE = fixed_interval<10>;
SPLIT(dynamic, interval<>, 0)
SPLIT(dynamic_dim, dim<>, 0)
SPLIT(dynamic_min, IntM, 0)
SPLIT(dynamic_extent, DimE, 0)
SPLIT(1, interval<>, 1)
SPLIT(2, DimM, 2)
SPLIT(3, interval<>, 3)
SPLIT(4, dim<>, 4)
SPLIT(5, DimS2, 5)
SPLIT(8_extent, DimE, 8)
SPLIT(3_extent, IntE, 3)
SPLIT(10_extent, IntE, 10)
SPLIT(64, interval<>, 64)

// An interval shorter than a compile-time extent has no tiles: asserts.
template <class V, long I> void too_short() {
  input<V> a(0);
  vc_abort_if(a.ex < I);
  auto s = split<I>(a.v);
  vc_ensures(a.ex >= I, "an interval shorter than the tiles asserts");
  vc_ensures((*s.begin()).min() == a.mn, "the first tile starts at min");
}
CONTRACT(P12_short1) { too_short<interval<>, 1>(); }
CONTRACT(P12_short4) { too_short<interval<>, 4>(); }
CONTRACT(P12_short7_dim) { too_short<dim<>, 7>(); }

// The loop itself, iteration by iteration, for min -7 and extents up to 40 (bounded).
template <long I> void loop() {
  long mn = -7, k = 0;
  long inner = I ? I : 5;
  for (long ex = I; ex <= 40; ex++) {
    long end = mn;
    k = 0;
    for (auto t : do_split(interval<>(mn, ex), std::integral_constant<long, I>(), inner)) {
      vc_ensures((t.min() == tile_min(I, mn, ex, inner, k)) & (t.extent() == tile_extent(I, mn, ex, inner, k)), "tile k");
      k++;
    }
    vc_ensures(k == (ex + inner - 1) / inner, "as many tiles as size()");
  }
}
CONTRACT(P12_loop_bounded) { loop<0>(); }
CONTRACT(P12_loop4_bounded) { loop<4>(); }
