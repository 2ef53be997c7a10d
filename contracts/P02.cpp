#include "common.h"

struct lim { long mn, ex; };
template <class I> lim draw(const char* a, const char* b, long exlo = 0) {
  lim l;
  l.mn = I::Min == vc::dyn ? vc_range(a, -vc::B, vc::B) : I::Min;
  l.ex = I::Extent == vc::dyn ? vc_range(b, exlo, vc::B) : I::Extent;
  return l;
}

// Membership, max, iteration of one interval or dim type.
template <class I> void member() {
  lim l = draw<I>("min", "extent");
  I v(l.mn, l.ex);
  const I& c = v;
  long x = vc_range("x", -4 * vc::B, 4 * vc::B);
  ENSURES(c.min() == l.mn && c.extent() == l.ex && c.size() == l.ex);
  ENSURES(c.max() == l.mn + l.ex - 1);
  ENSURES(c.is_in_range(x) == (l.mn <= x && x < l.mn + l.ex));
  ENSURES(*c.begin() == l.mn);
  ENSURES(*c.end() == l.mn + l.ex);
}
CONTRACT(P02_interval) { member<interval<>>(); }
CONTRACT(P02_interval_min) { member<interval<3>>(); }
CONTRACT(P02_interval_extent) { member<interval<vc::dyn, 5>>(); }
CONTRACT(P02_interval_static) { member<interval<-2, 4>>(); }
CONTRACT(P02_dim) { member<dim<>>(); }
CONTRACT(P02_dim_static) { member<dim<-2, 4, 3>>(); }
CONTRACT(P02_dim_dense) { member<dense_dim<>>(); }

// Range-for visits exactly the members, in increasing order.
template <class I> void iterate() {
  lim l = draw<I>("min", "extent");
  I v(l.mn, l.ex);
  long n = 0;
  for (index_t i : v) {
    vc::visit(vc::VISIT, i, n);
    n++;
  }
  long base[] = {l.mn, 0}, dims[] = {l.ex, 1, 1};
  vc_box(vc::SPEC, 1, 2, 1, base, dims);
  vc_same(vc::VISIT, vc::SPEC, "range-for visits min, min + 1, ..., max in order");
  ENSURES(n == l.ex);
}
CONTRACT(P02_iterate) { iterate<interval<>>(); }
CONTRACT(P02_iterate_extent) { iterate<interval<vc::dyn, 5>>(); }
CONTRACT(P02_iterate_dim) { iterate<dim<>>(); }
CONTRACT(P02_iterate_min) { iterate<dim<7>>(); }

// The free begin and end.
CONTRACT(P02_begin_end) {
  lim l = draw<interval<>>("min", "extent");
  interval<> v(l.mn, l.ex);
  ENSURES(*nda::begin(v) == l.mn && *nda::end(v) == l.mn + l.ex);
  ENSURES((nda::begin(v) == nda::end(v)) == (l.ex == 0));
  ENSURES((nda::begin(v) != nda::end(v)) == (l.ex != 0));
}

CONTRACT(P02_iterator) {
  long a = vc_range("a", -vc::B, vc::B), b = vc_range("b", -vc::B, vc::B);
  index_iterator i(a), j(b);
  ENSURES(*i == a && *j == b);
  ENSURES((i == j) == (a == b) && (i != j) == (a != b));
  index_iterator k = i++;
  ENSURES(*k == a && *i == a + 1);
  k = i--;
  ENSURES(*k == a + 1 && *i == a);
  k = ++i;
  ENSURES(*k == a + 1 && *i == a + 1);
  k = --i;
  ENSURES(*k == a && *i == a);
  k = i += b;
  ENSURES(*k == a + b && *i == a + b);
  k = i -= b;
  ENSURES(*k == a && *i == a);
  ENSURES(*(i + b) == a + b && *(i - b) == a - b && *i == a);
  ENSURES(i - j == a - b);
  ENSURES(i[b] == a + b);
}

// Containment of one interval or dim in another.
template <class I, class J> void contains() {
  lim l = draw<I>("min", "extent"), m = draw<J>("other_min", "other_extent", 1);
  I v(l.mn, l.ex);
  J w(m.mn, m.ex);
  ENSURES(v.is_in_range(w) == (l.mn <= m.mn && m.mn + m.ex <= l.mn + l.ex));
}
CONTRACT(P02_contains) { contains<interval<>, interval<>>(); }
CONTRACT(P02_contains_static) { contains<interval<2, 9>, interval<vc::dyn, 4>>(); }
CONTRACT(P02_contains_dim) { contains<interval<>, dim<>>(); }
CONTRACT(P02_dim_contains) { contains<dim<>, interval<>>(); }
CONTRACT(P02_dim_contains_dim) { contains<dim<vc::dyn, 6>, dim<>>(); }

// Setters.
template <class I> void setters() {
  lim l = draw<I>("min", "extent"), m = draw<I>("new_min", "new_extent");
  I v(l.mn, l.ex);
  v.set_min(m.mn);
  ENSURES(v.min() == m.mn && v.extent() == l.ex);
  v.set_extent(m.ex);
  ENSURES(v.min() == m.mn && v.extent() == m.ex);
  long x = I::Extent == vc::dyn ? vc_range("max", -vc::B, vc::B) : m.mn + m.ex - 1;
  v.set_max(x);
  ENSURES(v.max() == x && v.min() == m.mn && v.extent() == x - m.mn + 1);
}
CONTRACT(P02_set) { setters<interval<>>(); }
CONTRACT(P02_set_min) { setters<interval<4>>(); }
CONTRACT(P02_set_extent) { setters<interval<vc::dyn, 4>>(); }
CONTRACT(P02_set_dim) { setters<dim<>>(); }
CONTRACT(P02_set_dim_static) { setters<dim<1, vc::dyn, 2>>(); }

CONTRACT(P02_range) {
  long b = vc_range("begin", -vc::B, vc::B), e = vc_range("end", -vc::B, vc::B), x = vc_range("x", -vc::B, vc::B);
  REQUIRES(b <= e);
  interval<> v = range(b, e), w = r(b, e);
  ENSURES(v.is_in_range(x) == (b <= x && x < e));
  ENSURES(w.is_in_range(x) == (b <= x && x < e));
  ENSURES(v.min() == b && v.extent() == e - b && w.min() == b && w.extent() == e - b);
  auto f = range<6>(b);
  auto g = r<6>(b);
  ENSURES(f.min() == b && f.extent() == 6 && g.min() == b && g.extent() == 6);
}

template <class I> void clamps() {
  lim l = draw<I>("min", "extent", 1);
  I v(l.mn, l.ex);
  long x = vc_range("x", -4 * vc::B, 4 * vc::B);
  long c = clamp(x, v), d = clamp(x, l.mn, l.mn + l.ex - 1);
  ENSURES(c == d);
  ENSURES(v.is_in_range(c));
  ENSURES(!v.is_in_range(x) || c == x);
  ENSURES(x >= l.mn || c == l.mn);
  ENSURES(x < l.mn + l.ex || c == l.mn + l.ex - 1);
}
CONTRACT(P02_clamp) { clamps<interval<>>(); }
CONTRACT(P02_clamp_dim) { clamps<dim<>>(); }
CONTRACT(P02_clamp_static) { clamps<interval<-1, 4>>(); }

// Shapes: indices, intervals, and mixtures.
CONTRACT(P02_shape1) {
  vc::arb<S1> a;
  long x = vc_range("x", -4 * vc::B, 4 * vc::B);
  bool in = a.mn[0] <= x && x < a.mn[0] + a.ex[0];
  ENSURES(a.s.is_in_range(x) == in);
  ENSURES(a.s.is_in_range(std::make_tuple(x)) == in);
}
template <class S> void inrange2() {
  vc::arb<S> a;
  long x = vc_range("x", -4 * vc::B, 4 * vc::B), y = vc_range("y", -4 * vc::B, 4 * vc::B);
  long m = vc_range("m", -vc::B, vc::B), e = vc_range("e", 1, vc::B);
  bool inx = a.mn[0] <= x && x < a.mn[0] + a.ex[0];
  bool iny = a.mn[1] <= y && y < a.mn[1] + a.ex[1];
  bool inm = a.mn[0] <= m && m + e <= a.mn[0] + a.ex[0];
  bool inn = a.mn[1] <= m && m + e <= a.mn[1] + a.ex[1];
  const S& s = a.s;
  ENSURES(s.is_in_range(x, y) == (inx && iny));
  ENSURES(s.is_in_range(std::make_tuple(x, y)) == (inx && iny));
  ENSURES(s.is_in_range(interval<>(m, e), y) == (inm && iny));
  ENSURES(s.is_in_range(x, dim<>(m, e, 1)) == (inx && inn));
  ENSURES(s.is_in_range(std::make_tuple(interval<>(m, e), interval<>(m, e))) == (inm && inn));
}
CONTRACT(P02_shape2) { inrange2<S2>(); }
CONTRACT(P02_shapeF2) { inrange2<F2>(); }
CONTRACT(P02_shape3) {
  vc::arb<S3> a;
  long x = vc_range("x", -4 * vc::B, 4 * vc::B), y = vc_range("y", -4 * vc::B, 4 * vc::B), z = vc_range("z", -4 * vc::B, 4 * vc::B);
  bool in = a.mn[0] <= x && x < a.mn[0] + a.ex[0] && a.mn[1] <= y && y < a.mn[1] + a.ex[1] && a.mn[2] <= z && z < a.mn[2] + a.ex[2];
  ENSURES(a.s.is_in_range(x, y, z) == in);
  ENSURES(a.s.is_in_range(typename S3::index_type(x, y, z)) == in);
}
CONTRACT(P02_shape4) {
  vc::arb<S4> a;
  long x[4];
  bool in = true;
  for (int d = 0; d < 4; d++) {
    x[d] = vc_rangei("x", d, -4 * vc::B, 4 * vc::B);
    in = in && a.mn[d] <= x[d] && x[d] < a.mn[d] + a.ex[d];
  }
  ENSURES(a.s.is_in_range(x[0], x[1], x[2], x[3]) == in);
}

// Equality.
template <class I, class J> void ieq() {
  lim l = draw<I>("min", "extent"), m = draw<J>("other_min", "other_extent");
  I v(l.mn, l.ex);
  J w(m.mn, m.ex);
  bool same = l.mn == m.mn && l.ex == m.ex;
  ENSURES((v == w) == same);
  ENSURES((v != w) == !same);
}
CONTRACT(P02_eq_interval) { ieq<interval<>, interval<>>(); }
CONTRACT(P02_eq_interval_static) { ieq<interval<2>, interval<vc::dyn, 5>>(); }
template <class S, class T> void seq() {
  vc::arb<S> a;
  vc::arb<T> b(0, vc::B, "bmin", "bextent", "bstride");
  bool same = true;
  for (size_t d = 0; d < S::rank(); d++) same = same && a.mn[d] == b.mn[d] && a.ex[d] == b.ex[d] && a.st[d] == b.st[d];
  ENSURES((a.s == b.s) == same);
  ENSURES((a.s != b.s) == !same);
}
CONTRACT(P02_eq_dim) {
  vc::arb<S1> a, b(0, vc::B, "bmin", "bextent", "bstride");
  bool same = a.mn[0] == b.mn[0] && a.ex[0] == b.ex[0] && a.st[0] == b.st[0];
  ENSURES((a.s.dim<0>() == b.s.dim<0>()) == same);
  ENSURES((a.s.dim<0>() != b.s.dim<0>()) == !same);
}
CONTRACT(P02_eq1) { seq<S1, S1>(); }
CONTRACT(P02_eq2) { seq<S2, S2>(); }
CONTRACT(P02_eq2_static) { seq<S2, F2>(); }
CONTRACT(P02_eq3) { seq<S3, S3>(); }
CONTRACT(P02_eq4) { seq<S4, S4>(); }
