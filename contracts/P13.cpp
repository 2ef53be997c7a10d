#include "common.h"

// The contract of the recursion: with part of the current step done, it calls fn once for each index in the box from z
// that spans `step` in the dimensions above dim and 2 * step in the others, cut off at end.
// It is more specialised than the real function template, so every call that the real code makes (the recursive ones
// included) goes to the contract instead of the body; the body is verified against the contract below.
static long rec_step = 0, rec_dim = 0;
template <size_t N> void z_requires(const std::array<long, N>& end, const std::array<long, N>& z, long dim, long step) {
  bool pow2 = false;
  if (rec_step) {
    // Called from the body, whose own step is a power of two: so is the same step, and half of it when it is even.
    pow2 = (step == rec_step) | (2 * step == rec_step);
  } else {
    for (int m = 0; m <= 30; m++) pow2 = pow2 | (step == 1L << m);
  }
  vc_ensures(pow2, "precondition of the recursion: the step is a power of two");
  vc_ensures((dim >= 0) & (dim < (long)N), "precondition of the recursion: the dimension");
  for (size_t d = 0; d < N; d++) vc_ensures((z[d] >= 0) & (z[d] < end[d]), "precondition of the recursion: z is in bounds");
  if (rec_step) vc_ensures((step < rec_step) | ((step == rec_step) & (dim < rec_dim)), "the recursion terminates");
}
template <size_t N> std::array<long, N> z_extents(const std::array<long, N>& end, const std::array<long, N>& z, long dim, long step) {
  std::array<long, N> r;
  for (size_t d = 0; d < N; d++) {
    long s = (long)d <= dim ? 2 * step : step, e = end[d] - z[d];
    r[d] = e <= s ? e : s;
  }
  return r;
}
#ifndef VC_NATIVE
namespace nda { namespace internal {
#define UNIQ template <class Fn> __attribute__((always_inline)) inline void for_each_index_in_z_order_impl
UNIQ(const std::array<long, 1>& end, std::array<long, 1> z, long dim, long step, const Fn& fn) {
  z_requires<1>(end, z, dim, step);
  auto e = z_extents<1>(end, z, dim, step);
  for (long i = 0; i < e[0]; i++) fn(std::array<long, 1>{{z[0] + i}});
}
UNIQ(const std::array<long, 2>& end, std::array<long, 2> z, long dim, long step, const Fn& fn) {
  z_requires<2>(end, z, dim, step);
  auto e = z_extents<2>(end, z, dim, step);
  for (long j = 0; j < e[1]; j++)
    for (long i = 0; i < e[0]; i++) fn(std::array<long, 2>{{z[0] + i, z[1] + j}});
}
UNIQ(const std::array<long, 3>& end, std::array<long, 3> z, long dim, long step, const Fn& fn) {
  z_requires<3>(end, z, dim, step);
  auto e = z_extents<3>(end, z, dim, step);
  for (long k = 0; k < e[2]; k++)
    for (long j = 0; j < e[1]; j++)
      for (long i = 0; i < e[0]; i++) fn(std::array<long, 3>{{z[0] + i, z[1] + j, z[2] + k}});
}
#undef UNIQ
} }
#endif
#include "array/z_order.h"

// The body, for step 1, every even step and every dimension; fn records its index.
namespace nda { namespace internal {
struct record {
  void operator()(const std::array<long, 1>& i) const { vc::visit(vc::VISIT, i[0]); }
  void operator()(const std::array<long, 2>& i) const { vc::visit(vc::VISIT, i[0], i[1]); }
  void operator()(const std::array<long, 3>& i) const { vc::visit(vc::VISIT, i[0], i[1], i[2]); }
};
} }
// The multiset VISIT is the box from mn with extents ex.
template <size_t N> void visited(const long* mn, const long* ex, const char* what) {
  long base[N], dims[N * (N + 1)];
  for (size_t d = 0; d < N; d++) {
    base[d] = mn[d];
    long* r = dims + d * (N + 1);
    r[0] = ex[d];
    for (size_t e = 0; e < N; e++) r[1 + e] = d == e;
  }
  vc_reset(vc::SPEC);
  vc_box(vc::SPEC, 1, N, N, base, dims);
  vc_same(vc::VISIT, vc::SPEC, what);
}
template <size_t N> void body(long dim, bool one) {
  std::array<long, N> end, z;
  for (size_t d = 0; d < N; d++) {
    end[d] = vc_rangei("end", d, 1, 1L << 40);
    z[d] = vc_rangei("z", d, 0, 1L << 40);
    REQUIRES(z[d] < end[d]);
  }
  long half = vc_range("half", 1, 1L << 40), step = one ? 1 : 2 * half;
#ifdef VC_NATIVE
  REQUIRES((half & (half - 1)) == 0);
#endif
  rec_step = step, rec_dim = dim;
  internal::for_each_index_in_z_order_impl<N, internal::record>(end, z, dim, step, internal::record());
  auto ex = z_extents<N>(end, z, dim, step);
  visited<N>(&z[0], &ex[0], "the body visits the box of its contract once");
}
#define BODY(NAME, ONE)                                  \
  CONTRACT(P13_body1_0_##NAME) { body<1>(0, ONE); }      \
  CONTRACT(P13_body2_0_##NAME) { body<2>(0, ONE); }      \
  CONTRACT(P13_body2_1_##NAME) { body<2>(1, ONE); }      \
  CONTRACT(P13_body3_0_##NAME) { body<3>(0, ONE); }      \
  CONTRACT(P13_body3_1_##NAME) { body<3>(1, ONE); }      \
  CONTRACT(P13_body3_2_##NAME) { body<3>(2, ONE); }
BODY(step1, true)
BODY(even, false)

// The public functions, with the recursion replaced by its contract.
struct Record {
  void operator()(long i) const { vc::visit(vc::VISIT, i); }
  void operator()(long i, long j) const { vc::visit(vc::VISIT, i, j); }
  void operator()(long i, long j, long k) const { vc::visit(vc::VISIT, i, j, k); }
  void operator()(const std::tuple<long>& i) const { vc::visit(vc::VISIT, std::get<0>(i)); }
  void operator()(const std::tuple<long, long>& i) const { vc::visit(vc::VISIT, std::get<0>(i), std::get<1>(i)); }
};
inline interval<> any_interval(long d, long* mn, long* ex, long hi = vc::B) {
  mn[d] = vc_rangei("min", d, -vc::B, vc::B);
  ex[d] = vc_rangei("extent", d, 1, hi);
  return interval<>(mn[d], ex[d]);
}
CONTRACT(P13_all1) {
  long mn[1], ex[1];
  for_all_in_z_order(std::make_tuple(any_interval(0, mn, ex)), Record());
  visited<1>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_all2) {
  long mn[2], ex[2];
  auto a = any_interval(0, mn, ex), b = any_interval(1, mn, ex);
  for_all_in_z_order(std::make_tuple(a, b), Record());
  visited<2>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_all3) {
  long mn[3], ex[3];
  auto a = any_interval(0, mn, ex, 40), b = any_interval(1, mn, ex, 20), c = any_interval(2, mn, ex, 10);
  for_all_in_z_order(std::make_tuple(a, b, c), Record());
  visited<3>(mn, ex, "each combination is visited once");
}
CONTRACT_T(P13_all3_large) {
  long mn[3], ex[3];
  auto a = any_interval(0, mn, ex), b = any_interval(1, mn, ex), c = any_interval(2, mn, ex);
  for_all_in_z_order(std::make_tuple(a, b, c), Record());
  visited<3>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_each1) {
  long mn[1], ex[1];
  for_each_in_z_order(std::make_tuple(any_interval(0, mn, ex)), Record());
  visited<1>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_each2) {
  long mn[2], ex[2];
  auto a = any_interval(0, mn, ex), b = any_interval(1, mn, ex);
  for_each_in_z_order(std::make_tuple(a, b), Record());
  visited<2>(mn, ex, "each combination is visited once");
}
// Ranges of compile-time size, of dims, and of the elements of a C++ array.
CONTRACT(P13_fixed) {
  long mn[2] = {0, -4}, ex[2] = {7, 3};
  for_all_in_z_order(std::make_tuple(interval<0, 7>(), interval<-4, 3>()), Record());
  visited<2>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_dim) {
  long mn[2], ex[2];
  auto a = any_interval(0, mn, ex), b = any_interval(1, mn, ex);
  for_all_in_z_order(std::make_tuple(dim<>(a.min(), a.extent(), 7), b), Record());
  visited<2>(mn, ex, "each combination is visited once");
}
CONTRACT(P13_values) {
  long mn[2] = {100}, ex[2] = {3};
  std::array<long, 3> v = {{100, 101, 102}};
  auto b = any_interval(1, mn, ex);
  for_all_in_z_order(std::make_tuple(v, b), Record());
  visited<2>(mn, ex, "each combination is visited once");
}
// Tiles of splits: each pair of tiles is visited once (4 by compile-time, an arbitrary number of tiles).
struct Tiles {
  template <class A> void operator()(const A& a) const { vc::visit(vc::VISIT, a.min()); }
  template <class A, class B> void operator()(const A& a, const B& b) const { vc::visit(vc::VISIT, a.min(), b.min()); }
};
CONTRACT(P13_split) {
  long mn = vc_range("min", -vc::B, vc::B), n = vc_range("tiles", 1, 1024);
  for_all_in_z_order(std::make_tuple(split<4>(interval<>(mn, 4 * n))), Tiles());
  vc_reset(vc::SPEC);
  long base[1] = {mn}, dims[2] = {n, 4};
  vc_box(vc::SPEC, 1, 1, 1, base, dims);
  vc_same(vc::VISIT, vc::SPEC, "each tile is visited once");
}
CONTRACT(P13_split2) {
  long mn[2], n[2];
  for (int d = 0; d < 2; d++) mn[d] = vc_rangei("min", d, -vc::B, vc::B), n[d] = vc_rangei("tiles", d, 1, 64);
  for_all_in_z_order(std::make_tuple(split<4>(interval<>(mn[0], 4 * n[0])), split<3>(interval<>(mn[1], 3 * n[1]))), Tiles());
  vc_reset(vc::SPEC);
  long base[2] = {mn[0], mn[1]}, dims[6] = {n[0], 4, 0, n[1], 0, 3};
  vc_box(vc::SPEC, 1, 2, 2, base, dims);
  vc_same(vc::VISIT, vc::SPEC, "each pair of tiles is visited once");
}
