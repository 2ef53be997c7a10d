#include "common.h"

// Flat offsets and element addresses for an arbitrary index, in range or not.
template <class S, size_t... Is>
void addr(vc::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  vc::arb<S> a;
  long x[N + 1] = {vc_rangei("x", Is, -vc::B, vc::B)...};
  long off = vc::offset<N>(x, a.mn, a.st);
  const S& s = a.s;
  typename S::index_type idx{x[Is]...};
  ENSURES(s[idx] == off);
  ENSURES(s(x[Is]...) == off);

  X* p = xregion("a");
  array_ref<X, S> r(p, s);
  const array_ref<X, S> cr = r;
  ENSURES(r.base() == p);
  ENSURES(vc::at(&r[idx], p, off));
  ENSURES(vc::at(&r(x[Is]...), p, off));
  ENSURES(vc::at(&cr[idx], p, off));
  ENSURES(vc::at(&cr(x[Is]...), p, off));
  const_array_ref<X, S> q = r.cref();
  ENSURES(vc::at(&q[idx], p, off));
  ENSURES(vc::at(&q(x[Is]...), p, off));
  const_array_ref<X, S> q2 = r;
  ENSURES(vc::at(&q2[idx], p, off));
}
template <class S> void addr() { addr<S>(vc::make_index_sequence<S::rank()>()); }

CONTRACT(P01_addr0) { addr<S0>(); }
CONTRACT(P01_addr1) { addr<S1>(); }
CONTRACT(P01_addr2) { addr<S2>(); }
CONTRACT(P01_addr3) { addr<S3>(); }
CONTRACT(P01_addr4) { addr<S4>(); }
CONTRACT(P01_addr5) { addr<shape_of_rank<5>>(); }
CONTRACT(P01_addrD1) { addr<D1>(); }
CONTRACT(P01_addrD3) { addr<D3>(); }
CONTRACT(P01_addrB2) { addr<B2>(); }
CONTRACT(P01_addrF2) { addr<F2>(); }
CONTRACT(P01_addrM2) { addr<M2>(); }
CONTRACT(P01_addrF3) { addr<F3>(); }

// The same through an owning array.
template <class S, size_t... Is>
void arr(vc::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  vc::arb<S> a(1);
  long x[N + 1] = {vc_rangei("x", Is, -vc::B, vc::B)...};
  long off = vc::offset<N>(x, a.mn, a.st);
  typename S::index_type idx{x[Is]...};
  array<X, S, plain_alloc<X>> v(a.s);
  const auto& cv = v;
  X* p = v.base();
  ENSURES(vc_rid(p) == 1);
  ENSURES(cv.base() == p);
  ENSURES(v.shape() == a.s);
  ENSURES(vc::at(&v[idx], p, off));
  ENSURES(vc::at(&v(x[Is]...), p, off));
  ENSURES(vc::at(&cv[idx], p, off));
  ENSURES(vc::at(&cv(x[Is]...), p, off));
  ENSURES(vc::at(&v.ref()[idx], p, off));
  ENSURES(vc::at(&cv.ref()[idx], p, off));
  ENSURES(vc::at(&v.cref()(x[Is]...), p, off));
  array_ref<X, S> r = v;
  const_array_ref<X, S> cr = cv;
  ENSURES(r.base() == p && cr.base() == p);
  ENSURES(r.shape() == a.s && cr.shape() == a.s);
}
template <class S> void arr() { arr<S>(vc::make_index_sequence<S::rank()>()); }
CONTRACT(P01_array0) { arr<S0>(); }
CONTRACT(P01_array1) { arr<S1>(); }
CONTRACT(P01_array2) { arr<S2>(); }
CONTRACT(P01_arrayD2) { arr<D2>(); }
CONTRACT(P01_arrayF2) { arr<F2>(); }
CONTRACT(P01_arrayF3) { arr<F3>(); }

// A scalar array converts to its only element.
CONTRACT(P01_scalar) {
  X* p = xregion("a");
  array_ref<X, S0> r(p);
  X& e = r;
  ENSURES(&e == p);
  array<X, S0, plain_alloc<X>> v;
  const auto& cv = v;
  X& f = v;
  const X& g = cv;
  ENSURES(&f == v.base() && &g == v.base());
}

// Accessors.
template <size_t I, class Q, class A> int acc1(Q& q, const A& a) {
  ENSURES(q.template dim<I>().min() == a.mn[I]);
  ENSURES(q.template dim<I>().extent() == a.ex[I]);
  ENSURES(q.template dim<I>().size() == a.ex[I]);
  ENSURES(q.template dim<I>().max() == a.mn[I] + a.ex[I] - 1);
  ENSURES(q.template dim<I>().stride() == a.st[I]);
  ENSURES(q.dim(I).min() == a.mn[I]);
  ENSURES(q.dim(I).extent() == a.ex[I]);
  ENSURES(q.dim(I).stride() == a.st[I]);
  return 0;
}
template <class Q, class A, size_t... Is> void acc(Q& q, const A& a, vc::index_sequence<Is...>) {
  int u[] = {acc1<Is>(q, a)...};
  (void)u;
}
template <size_t I, class S, class A> int tup1(const S& s, const A& a) {
  ENSURES(std::get<I>(s.min()) == a.mn[I]);
  ENSURES(std::get<I>(s.extent()) == a.ex[I]);
  ENSURES(std::get<I>(s.max()) == a.mn[I] + a.ex[I] - 1);
  ENSURES(std::get<I>(s.stride()) == a.st[I]);
  ENSURES(std::get<I>(s.dims()).min() == a.mn[I]);
  return 0;
}
template <class S, class A, size_t... Is> void tup(const S& s, const A& a, vc::index_sequence<Is...>) {
  int u[] = {tup1<Is>(s, a)...};
  (void)u;
}
template <class S> void accessors() {
  constexpr auto seq = vc::make_index_sequence<S::rank()>();
  vc::arb<S> a;
  S s = a.s;
  const S& cs = s;
  acc(s, a, seq);
  acc(cs, a, seq);
  tup(cs, a, seq);
  array_ref<X, S> r(xregion("a"), s);
  const auto& cr = r;
  acc(r, a, seq);
  acc(cr, a, seq);
  tup(cr.shape(), a, seq);
  array<X, S, plain_alloc<X>> v(s);
  const auto& cv = v;
  acc(cv, a, seq);
  tup(cv.shape(), a, seq);
  ENSURES(S::rank() == vc::arb<S>::N && decltype(r)::rank() == vc::arb<S>::N && decltype(v)::rank() == vc::arb<S>::N);
  ENSURES(S::is_scalar() == false && decltype(r)::is_scalar() == false && decltype(v)::is_scalar() == false);
}
CONTRACT(P01_accessors1) { accessors<S1>(); }
CONTRACT(P01_accessors2) { accessors<S2>(); }
CONTRACT(P01_accessorsF2) { accessors<F2>(); }
CONTRACT(P01_accessorsF3) { accessors<F3>(); }

template <class D> bool is(const D& d, const long* mn, const long* ex, const long* st, int i) {
  return d.min() == mn[i] && d.extent() == ex[i] && d.stride() == st[i];
}
#define IS(e, i) ENSURES(is(e, a.mn, a.ex, a.st, i))
template <class Q, class A> void alias4(Q& q, const A& a) {
  IS(q.i(), 0); IS(q.j(), 1); IS(q.k(), 2);
  IS(q.x(), 0); IS(q.y(), 1); IS(q.z(), 2); IS(q.c(), 2); IS(q.w(), 3);
  ENSURES(q.width() == a.ex[0] && q.height() == a.ex[1] && q.channels() == a.ex[2]);
  ENSURES(q.rows() == a.ex[0] && q.columns() == a.ex[1]);
}
CONTRACT(P01_aliases) {
  vc::arb<S4> a;
  S4 s = a.s;
  const S4& cs = s;
  alias4(s, a);
  alias4(cs, a);
  array_ref<X, S4> r(xregion("a"), s);
  const auto& cr = r;
  alias4(r, a);
  alias4(cr, a);
}
CONTRACT(P01_aliases_array) {
  using SS = shape<dim<7, 2, 1>, dim<-3, 3, 2>, dim<1, 4, 6>, dim<5, 1, 24>>;
  vc::arb<SS> a;
  const array<X, SS, plain_alloc<X>> v(a.s);
  alias4(v, a);
}
