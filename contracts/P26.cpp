// Operations on const arrays and refs, and operations that read a const operand, write only memory of their own:
// not the array or ref, not its elements, no global and no allocation that was there before.  Calls that only read
// what they share cannot interfere, whatever the interleaving.
#include "common.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
using vc::dyn;

// An element whose operations that change it may not be applied to the shared elements, in the first regions.
static long shared;  // this many regions
struct Q {
  static void changes(const void* p) { vc_ensures(vc_rid(p) > shared, "no shared element is written"); }
  Q() { changes(this); }
  Q(const Q&) { changes(this); }
  Q(Q&&) { changes(this); }
  Q& operator=(const Q&) { changes(this); return *this; }
  Q& operator=(Q&&) { changes(this); return *this; }
  Q& operator+=(const Q&) { changes(this); return *this; }
  ~Q() { changes(this); }
  friend const Q& operator*(const Q& a, const Q&) { return a; }
  friend bool operator==(const Q&, const Q&) { return vc_any(); }
  friend bool operator!=(const Q&, const Q&) { return vc_any(); }
};
struct nop { template <class... A> void operator()(A&&...) const {} };
template <class T> void use(const T&) {}
// An array_ref (or an array) and its elements, which are constant within the scope of a `constant`.
struct constant {
  constant(const void* p, size_t n, const void* q = nullptr, size_t m = 0) { shared = q ? 2 : 1; vc_readonly(p, n); if (q) vc_readonly(q, m); }
  ~constant() {
    vc_ensures(true, "the operations come to an end");
    vc_readonly(nullptr, 0);
    shared = 0;
  }
};
template <class S> struct a_ref {
  vc::arb<S> a;
  array_ref<Q, S> o;
  const array_ref<Q, S>& c;
  a_ref(const char* p = "p", const char* mn = "min", const char* ex = "extent", const char* st = "stride", long lo = 1) : a((shared = 0, lo), vc::B, mn, ex, st), o((Q*)vc_region(p), a.s), c(o) {}
};
template <class S> struct b_ref : a_ref<S> { b_ref() : a_ref<S>("q", "bmin", "bextent", "bstride", 0) {} };
template <class S> const S& positive(const vc::arb<S>& a) { for (size_t d = 0; d < S::rank(); d++) vc_requires(a.st[d] >= 0); return a.s; }
template <class S> struct an_array {
  vc::arb<S> a;
  array<Q, S, plain_alloc<Q>> o;
  const array<Q, S, plain_alloc<Q>>& c;
  an_array(const char* mn = "min", const char* ex = "extent", const char* st = "stride") : a((shared = 0, 1), vc::B, mn, ex, st), o(positive(a)), c(o) {}
};
template <class S> struct another : an_array<S> { another() : an_array<S>("bmin", "bextent", "bstride") {} };

// an arbitrary index of the array
template <class S> struct index {
  long x[S::rank() + 1];
  index(const vc::arb<S>& a) {
    for (size_t d = 0; d < S::rank(); d++) {
      x[d] = vc_rangei("x", d, -vc::B, 2 * vc::B);
      vc_requires((x[d] >= a.mn[d]) & (x[d] < a.mn[d] + a.ex[d]));
    }
  }
};

// queries and access
template <class A, class S> void queries(const A& x, const vc::arb<S>& a) {
  use(x.base()), use(x.data()), use(x.size()), use(x.empty()), use(x.is_compact()), use(x.shape()), use(x.bounds());
  use(x.ref().base()), use(x.cref().base());
  const S& s = x.shape();
  use(s.flat_min()), use(s.flat_max()), use(s.flat_extent()), use(s.min()), use(s.max()), use(s.extent()), use(s.stride()), use(s.is_resolved());
  use(s == s), use(s != s), use(s.is_subset_of(s, 0)), use(make_compact(s));
}
template <class A> void access(const A& x, const vc::arb<S1>& a) {
  index<S1> i(a);
  use(&x(i.x[0])), use(&x[std::make_tuple((index_t)i.x[0])]), use(x(r(i.x[0], i.x[0] + 1)).base()), use(x(nda::_).base());
  use(x.template dim<0>()), use(x.dim(0)), use(x.i()), use(x.shape().is_in_range(i.x[0]));
}
template <class A> void access(const A& x, const vc::arb<S2>& a) {
  index<S2> i(a);
  use(&x(i.x[0], i.x[1])), use(x(nda::_, i.x[1]).base()), use(x(r(i.x[0], i.x[0] + 1), nda::_).base()), use(x(nda::_, nda::_).base());
  use(x.template dim<1>()), use(x.i()), use(x.j()), use(x.x()), use(x.y()), use(x.width()), use(x.height()), use(x.rows()), use(x.columns());
  use(x.shape().is_in_range(i.x[0], i.x[1])), use((transpose<1, 0>(x).base())), use((reorder<1, 0>(x).base()));
}
template <class A> void access(const A& x, const vc::arb<S0>& a) { use(&x()); }
template <class A, class S> void read(const A& x, const vc::arb<S>& a) {
  constant k(&x, sizeof x);
  queries(x, a);
  access(x, a);
}
template <class S> void ref_queries() {
  a_ref<S> x;
  read(x.c, x.a);
  vc_readonly(nullptr, 0);
  const array_ref<const Q, S> v(x.c);
  read(v, x.a);
}
CONTRACT(P26_ref_queries0) { ref_queries<S0>(); }
CONTRACT(P26_ref_queries1) { ref_queries<S1>(); }
CONTRACT(P26_ref_queries2) { ref_queries<S2>(); }
template <class S> void array_queries() {
  an_array<S> x;
  constant k(&x.o, sizeof x.o);
  queries(x.c, x.a);
  access(x.c, x.a);
  use(x.c.get_allocator());
}
CONTRACT(P26_array_queries0) { array_queries<S0>(); }
CONTRACT(P26_array_queries1) { array_queries<S1>(); }
CONTRACT(P26_array_queries2) { array_queries<S2>(); }

// loops over the elements
template <class A> void loops(const A& x) {
  constant k(&x, sizeof x);
  x.for_each_value(nop());
  for_each_index(x.shape(), nop());
  for_all_indices(x.shape(), nop());
  for_each_index_in_order(x.shape(), nop());
}
CONTRACT(P26_ref_loops0) { a_ref<S0> x; loops(x.c); }
CONTRACT(P26_ref_loops1) { a_ref<S1> x; loops(x.c); }
CONTRACT(P26_ref_loops2) { a_ref<S2> x; loops(x.c); }
CONTRACT(P26_ref_loopsD2) { a_ref<D2> x; loops(x.c); }
CONTRACT(P26_ref_loops_image) { a_ref<planar_image_shape> x; loops(x.c); }
CONTRACT(P26_ref_loops_matrix) { a_ref<matrix_shape<>> x; loops(x.c); }
CONTRACT(P26_array_loops1) { an_array<S1> x; loops(x.c); }
CONTRACT(P26_array_loopsD2) { an_array<D2> x; loops(x.c); }

// comparison
template <class A, class B> void compare(const A& x, const B& y) {
  constant k(&x, sizeof x, &y, sizeof y);
  use(equal(x, y)), use(equal(y, x));
}
template <class A> void compare_op(const A& x, const A& y) {
  constant k(&x, sizeof x, &y, sizeof y);
  use(x == y), use(x != y), use(x == x);
}
CONTRACT(P26_equal1) { a_ref<S1> x; b_ref<S1> y; compare(x.c, y.c); }
CONTRACT(P26_equal2) { a_ref<S2> x; b_ref<D2> y; compare(x.c, y.c); }
CONTRACT(P26_equal_array1) { an_array<D1> x; another<D1> y; compare(x.c, y.c); }
CONTRACT(P26_compare1) { a_ref<S1> x; b_ref<S1> y; compare_op(x.c, y.c); }
CONTRACT(P26_compareD2) { a_ref<D2> x; b_ref<D2> y; compare_op(x.c, y.c); }
CONTRACT(P26_compare_array1) { an_array<D1> x; another<D1> y; compare_op(x.c, y.c); }

// copies from it
template <class A> void copies(const A& x) {
  constant k(&x, sizeof x);
  auto c = make_copy(x, plain_alloc<Q>());
  auto d = make_compact_copy(x, plain_alloc<Q>());
  array_ref<Q, S1> y((Q*)vc_region("copy"), S1(dim<>(x.i().min(), x.i().extent(), vc_range("copystride", 1, 9))));
  copy(x, y);
}
CONTRACT(P26_ref_copies1) { a_ref<S1> x; positive(x.a); copies(x.c); }
CONTRACT(P26_ref_copiesD1) { a_ref<D1> x; copies(x.c); }
CONTRACT(P26_array_copiesD1) { an_array<D1> x; copies(x.c); }
CONTRACT(P26_array_copy1) {
  an_array<S1> x;
  constant k(&x.o, sizeof x.o);
  array<Q, S1, plain_alloc<Q>> c(x.c), d;
  d = x.c;
}
// converting views
CONTRACT(P26_views) {
  a_ref<D2> x;
  constant k(&x.o, sizeof x.o);
  array_ref<Q, S2> v(x.c);
  array_ref<Q, S2> w;
  w = x.c;
  use(convert_shape<S2>(x.c).base());
  use(reinterpret<Q>(x.c).base());
  use(reinterpret_shape(x.c, x.c.shape()).base());
}
// images
template <class A> void an_image(const A& x, const vc::arb<image_shape>& a) {
  constant k(&x, sizeof x);
  long x0 = vc_range("x0", -vc::B, vc::B), y0 = vc_range("y0", -vc::B, vc::B), x1 = vc_range("x1", -vc::B, vc::B), y1 = vc_range("y1", -vc::B, vc::B);
  use(crop(x, x0, y0, x1, y1, vc_bool("zero") ? crop_origin::zero : crop_origin::crop).base());
  use(slice_channel(x, a.mn[2]).base());
  use(x.channels());
}
CONTRACT(P26_ref_image) { a_ref<image_shape> x; an_image(x.c, x.a); }
// Einstein reductions read their operands
CONTRACT(P26_mat_vec) {
  a_ref<S2> x;
  b_ref<S1> y;
  REQUIRES((y.a.mn[0] == x.a.mn[1]) & (y.a.ex[0] == x.a.ex[1]));
  constant k(&x.o, sizeof x.o, &y.o, sizeof y.o);
  array_ref<Q, S1> z((Q*)vc_region("R"), S1(dim<>(x.a.mn[0], x.a.ex[0], vc_range("rstride", 1, 9))));
  ein_reduce(ein<0>(z) += ein<0, 1>(x.c) * ein<1>(y.c));
}
