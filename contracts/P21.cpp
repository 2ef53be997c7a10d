#include "common.h"
#include "array/image.h"

using C_ = chunky_image_shape<>;          // x stride and channel count known only at run time
using C3 = chunky_image_shape<3>;
using C34 = chunky_image_shape<3, 4>;
using P_ = planar_image_shape;
using I_ = image_shape;

// A rectangle and the part of it that lies within the image, per axis: [b, e), empty if b >= e.
template <class S> struct rect {
  vc::arb<S> a;
  long p0[2], p1[2], b[2], e[2];
  bool meets;
  rect(long exlo = 0) : a(exlo, vc::B) {
    p0[0] = vc_range("x0", -2 * vc::B, 2 * vc::B);
    p0[1] = vc_range("y0", -2 * vc::B, 2 * vc::B);
    p1[0] = vc_range("x1", -2 * vc::B, 2 * vc::B);
    p1[1] = vc_range("y1", -2 * vc::B, 2 * vc::B);
    for (int d = 0; d < 2; d++) {
      long end = a.mn[d] + a.ex[d];
      b[d] = p0[d] < a.mn[d] ? a.mn[d] : p0[d];
      e[d] = p1[d] > end ? end : p1[d];
    }
    meets = (b[0] < e[0]) & (b[1] < e[1]);
  }
};
// The view v of the image at base p is the crop.
template <class S, class V> void cropped(const rect<S>& q, const V& v, const void* p, crop_origin o) {
  const auto& a = q.a;
  vc_ensures((v.c().min() == a.mn[2]) & (v.c().extent() == a.ex[2]) & (v.c().stride() == a.st[2]), "channels are unchanged");
  vc_ensures((v.x().stride() == a.st[0]) & (v.y().stride() == a.st[1]), "strides are unchanged");
  long ext[2] = {v.x().extent(), v.y().extent()}, mn[2] = {v.x().min(), v.y().min()};
  for (int d = 0; d < 2; d++) {
    if (q.b[d] >= q.e[d]) vc_ensures(ext[d] == 0, "no common pixel: empty");
  }
  if (q.meets) {
    vc_ensures((ext[0] == q.e[0] - q.b[0]) & (ext[1] == q.e[1] - q.b[1]), "the size is that of the common rectangle");
    vc_ensures((mn[0] == (o == crop_origin::crop ? q.b[0] : 0)) & (mn[1] == (o == crop_origin::crop ? q.b[1] : 0)), "the origin is as requested");
    long x = vc_range("x", -2 * vc::B, 2 * vc::B), y = vc_range("y", -2 * vc::B, 2 * vc::B), c = vc_range("c", -2 * vc::B, 2 * vc::B);
    REQUIRES(a.ex[2] > 0);
    REQUIRES((x >= mn[0]) & (x < mn[0] + ext[0]));
    REQUIRES((y >= mn[1]) & (y < mn[1] + ext[1]));
    REQUIRES((c >= a.mn[2]) & (c < a.mn[2] + a.ex[2]));
    long dx = o == crop_origin::crop ? 0 : q.b[0], dy = o == crop_origin::crop ? 0 : q.b[1];
    vc_ensures(vc::at(&v(x, y, c), p, (x + dx - a.mn[0]) * a.st[0] + (y + dy - a.mn[1]) * a.st[1] + (c - a.mn[2]) * a.st[2]), "each pixel is the pixel of the image it names");
  }
}
template <class S> void crop_ref(crop_origin o) {
  rect<S> q;
  X* p = xregion("p");
  array_ref<X, S> im(p, q.a.s);
  cropped(q, crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1], o), p, o);
}
template <class S> void crop_cref(crop_origin o) {
  rect<S> q;
  const X* p = xregion("p");
  array_ref<const X, S> im(p, q.a.s);
  cropped(q, crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1], o), p, o);
}
#define CROP(name, S)                                                    \
  CONTRACT(P21_crop_##name) { crop_ref<S>(crop_origin::crop); }          \
  CONTRACT(P21_zero_##name) { crop_ref<S>(crop_origin::zero); }
CROP(image, I_)
CROP(planar, P_)
CROP(chunky, C_)
CROP(chunky3, C3)
CROP(chunky34, C34)
CONTRACT(P21_crop_const) { crop_cref<I_>(crop_origin::crop); }
CONTRACT(P21_zero_const) { crop_cref<I_>(crop_origin::zero); }
// The default origin is crop_origin::crop.
CONTRACT(P21_crop_default) {
  rect<I_> q;
  X* p = xregion("p");
  array_ref<X, I_> im(p, q.a.s);
  cropped(q, crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1]), p, crop_origin::crop);
}
// Cropping an array gives a ref to its pixels.
template <class S> void crop_array(crop_origin o) {
  rect<S> q(1);
  for (size_t d = 0; d < 2; d++) REQUIRES((q.a.st[d] >= 0) & (q.a.ex[d] >= 1));
  array<X, S> im(q.a.s);
  cropped(q, crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1], o), im.base(), o);
}
template <class S> void crop_carray(crop_origin o) {
  rect<S> q(1);
  for (size_t d = 0; d < 2; d++) REQUIRES((q.a.st[d] >= 0) & (q.a.ex[d] >= 1));
  const array<X, S> im(q.a.s);
  cropped(q, crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1], o), im.base(), o);
}
CONTRACT(P21_crop_array) { crop_array<C34>(crop_origin::crop); }
CONTRACT(P21_zero_array) { crop_array<C3>(crop_origin::zero); }
CONTRACT(P21_crop_carray) { crop_carray<C3>(crop_origin::crop); }
CONTRACT(P21_zero_carray) { crop_carray<C34>(crop_origin::zero); }
// A crop of a ref without memory has none either.
CONTRACT(P21_crop_null) {
  rect<I_> q;
  array_ref<X, I_> im(nullptr, q.a.s);
  auto v = crop(im, q.p0[0], q.p0[1], q.p1[0], q.p1[1], vc_bool("zero") ? crop_origin::zero : crop_origin::crop);
  vc_ensures(v.base() == nullptr, "null stays null");
}
// A shape crop sets exactly the rectangle.
template <class S> void crop_shape() {
  vc::arb<S> a;
  long x0 = vc_range("x0", -vc::B, vc::B), y0 = vc_range("y0", -vc::B, vc::B), w = vc_range("w", 0, vc::B), h = vc_range("h", 0, vc::B);
  bool zero = vc_bool("zero");
  S s = zero ? crop_image_shape(a.s, x0, y0, x0 + w, y0 + h, crop_origin::zero) : crop_image_shape(a.s, x0, y0, x0 + w, y0 + h);
  vc_ensures((s.x().min() == (zero ? 0 : x0)) & (s.y().min() == (zero ? 0 : y0)), "the origin is as requested");
  vc_ensures((s.x().extent() == w) & (s.y().extent() == h), "the size is that of the rectangle");
  vc_ensures((s.x().stride() == a.st[0]) & (s.y().stride() == a.st[1]), "strides are unchanged");
  vc_ensures((s.c().min() == a.mn[2]) & (s.c().extent() == a.ex[2]) & (s.c().stride() == a.st[2]), "channels are unchanged");
}
CONTRACT(P21_shape_image) { crop_shape<I_>(); }
CONTRACT(P21_shape_planar) { crop_shape<P_>(); }
CONTRACT(P21_shape_chunky3) { crop_shape<C3>(); }

// One channel of an image.
template <class S, class V> void sliced(const vc::arb<S>& a, const V& v, const void* p, long c) {
  static_assert(V::rank() == 2, "a channel is two-dimensional");
  vc_ensures((v.x().min() == a.mn[0]) & (v.x().extent() == a.ex[0]) & (v.x().stride() == a.st[0]), "x is unchanged");
  vc_ensures((v.y().min() == a.mn[1]) & (v.y().extent() == a.ex[1]) & (v.y().stride() == a.st[1]), "y is unchanged");
  long x = vc_range("x", -2 * vc::B, 2 * vc::B), y = vc_range("y", -2 * vc::B, 2 * vc::B);
  REQUIRES((x >= a.mn[0]) & (x < a.mn[0] + a.ex[0]));
  REQUIRES((y >= a.mn[1]) & (y < a.mn[1] + a.ex[1]));
  vc_ensures(vc::at(&v(x, y), p, (x - a.mn[0]) * a.st[0] + (y - a.mn[1]) * a.st[1] + (c - a.mn[2]) * a.st[2]), "each pixel is the channel of the image's pixel");
}
template <class S> long channel(const vc::arb<S>& a) {
  long c = vc_range("channel", -2 * vc::B, 2 * vc::B);
  REQUIRES((c >= a.mn[2]) & (c < a.mn[2] + a.ex[2]));
  return c;
}
template <class S> void slice_ref() {
  vc::arb<S> a;
  X* p = xregion("p");
  array_ref<X, S> im(p, a.s);
  long c = channel(a);
  sliced(a, slice_channel(im, c), p, c);
}
CONTRACT(P21_slice_image) { slice_ref<I_>(); }
CONTRACT(P21_slice_planar) { slice_ref<P_>(); }
CONTRACT(P21_slice_chunky) { slice_ref<C_>(); }
CONTRACT(P21_slice_chunky3) { slice_ref<C3>(); }
CONTRACT(P21_slice_chunky34) { slice_ref<C34>(); }
CONTRACT(P21_slice_array) {
  vc::arb<C34> a(1);
  REQUIRES(a.st[1] >= 0);
  array<X, C34, plain_alloc<X>> im(a.s);
  long c = channel(a);
  sliced(a, slice_channel(im, c), im.base(), c);
}
CONTRACT(P21_slice_carray) {
  vc::arb<C3> a(1);
  const array<X, C3, plain_alloc<X>> im(a.s);
  long c = channel(a);
  sliced(a, slice_channel(im, c), im.base(), c);
}
