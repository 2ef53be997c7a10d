#include "common.h"
using vc::dyn;

// An arbitrary source of type D: unresolved strides included.
struct vals { long mn, ex, st; };
template <class D> vals draw(long d, bool unres = true) {
  vals v;
  v.mn = D::Min == dyn ? vc_rangei("min", d, -vc::B, vc::B) : D::Min;
  v.ex = D::Extent == dyn ? vc_rangei("extent", d, 0, vc::B) : D::Extent;
  v.st = D::Stride == dyn ? vc_rangei("stride", d, -(1L << 20), 1L << 20) : D::Stride;
  if (D::Stride == dyn && unres && vc_rangei("unresolved", d, 0, 1)) v.st = unresolved;
  return v;
}
// Do the compile time parameters of D allow these values, and what is the stride of the result then?
template <class D> bool fits(const vals& v) {
  return (D::Min == dyn || v.mn == D::Min) & (D::Extent == dyn || v.ex == D::Extent) & (D::Stride == dyn || v.st == unresolved || v.st == D::Stride);
}
template <class D> bool is(const D& d, const vals& v) {
  return (d.min() == v.mn) & (d.extent() == v.ex) & (d.stride() == (D::Stride == dyn ? v.st : D::Stride));
}

// ---- intervals
template <class T, class S> void intervals(bool assign) {
  using DS = dim<S::Min, S::Extent, 1>;
  using DT = dim<T::Min, T::Extent, dyn>;
  vals v = draw<DS>(0);
  S s(v.mn, v.ex);
  bool ok = fits<DT>(v);
  T t;
  vc_abort_if(!ok);
  if (assign) t = s; else { T c(s); t = c; }
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures((t.min() == v.mn) & (t.extent() == v.ex), "the values are kept");
  vc_ensures((s.min() == v.mn) & (s.extent() == v.ex), "the source is left alone");
  vc_ensures(t == s, "the values are kept");
}
#define INT_(name, T, S)                                                \
  CONTRACT(P19_interval_##name) { intervals<T, S>(false); }             \
  CONTRACT(P19_interval_##name##_assign) { intervals<T, S>(true); }
using I = interval<>;
using I3 = interval<3>;
using Ie = interval<dyn, 5>;
using I35 = interval<3, 5>;
INT_(dd, I, I)
INT_(d_min, I, I3)
INT_(d_ext, I, Ie)
INT_(d_both, I, I35)
INT_(min_d, I3, I)
INT_(min_ext, I3, Ie)
INT_(ext_d, Ie, I)
INT_(ext_min, Ie, I3)
INT_(both_d, I35, I)
INT_(both_min, I35, I3)
INT_(both_ext, I35, Ie)
INT_(ext_ext, Ie, Ie)

// ---- dims
template <class T, class S> void conv(bool assign) {
  vals v = draw<S>(0);
  S s(v.mn, v.ex, v.st);
  bool ok = fits<T>(v);
  T t;
  vc_abort_if(!ok);
  if (assign) t = s; else { T c(s); t = c; }
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures(is(t, v), "the values are kept");
  vc_ensures(is(s, v), "the source is left alone");
}
#define DIM_(name, T, S)                                           \
  CONTRACT(P19_dim_##name) { conv<T, S>(false); }                  \
  CONTRACT(P19_dim_##name##_assign) { conv<T, S>(true); }
using d000 = dim<>;
using dm = dim<-2>;
using de = dim<dyn, 4>;
using ds = dim<dyn, dyn, 3>;
using d1 = dense_dim<>;
using d0 = broadcast_dim<>;
using dn = dim<dyn, dyn, -1>;
using dme = dim<-2, 4>;
using des = dim<dyn, 4, 3>;
using dms = dim<-2, dyn, 3>;
using dall = dim<-2, 4, 3>;
DIM_(d_d, d000, d000)
DIM_(d_all, d000, dall)
DIM_(m_d, dm, d000)
DIM_(e_d, de, d000)
DIM_(s_d, ds, d000)
DIM_(1_d, d1, d000)
DIM_(0_d, d0, d000)
DIM_(n_d, dn, d000)
DIM_(all_d, dall, d000)
DIM_(all_m, dall, dm)
DIM_(all_es, dall, des)
DIM_(all_me, dall, dme)
DIM_(me_ms, dme, dms)
DIM_(es_m, des, dm)
DIM_(s_s, ds, ds)
DIM_(1_e, d1, de)

// From an interval and a stride; setters.
template <class T> void from_interval() {
  vals v = draw<d000>(0);
  vc_abort_if(!fits<T>(v));
  typename T::base_range r(I(v.mn, v.ex));
  T t(r, T::Stride != dyn && v.st == unresolved ? T::DefaultStride : v.st);
  vc_ensures(fits<T>(v), "a value other than the compile time one asserts");
  vc_ensures(is(t, v), "the values are kept");
  T u(r);
  vc_ensures((u.min() == v.mn) & (u.extent() == v.ex) & (u.stride() == (T::Stride == dyn ? unresolved : T::Stride)), "the stride is unknown unless it is a compile time one");
}
CONTRACT(P19_from_interval_d) { from_interval<d000>(); }
CONTRACT(P19_from_interval_m) { from_interval<dm>(); }
CONTRACT(P19_from_interval_es) { from_interval<des>(); }
CONTRACT(P19_from_interval_all) { from_interval<dall>(); }

template <class T> void constructs(int how) {
  vals v = draw<d000>(0);
  vals w = v;
  if (T::Stride != dyn && how == 1) v.st = T::Stride;
  if (T::Stride != dyn) vc_requires(v.st != unresolved);
  bool ok = fits<T>(v);
  T t;
  vc_abort_if(!ok);
  if (how == 0) t = T(v.mn, v.ex, v.st);
  if (how == 1) { t = T(v.mn, v.ex); v.st = T::Stride == dyn ? unresolved : T::Stride; }
  if (how == 2) t.set_min(v.mn), t.set_extent(v.ex), t.set_stride(v.st);
  if (how == 3) { t.set_min(v.mn); t.set_max(v.mn + v.ex - 1); t.set_stride(v.st); }
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures(is(t, v), "the values are the given ones");
}
#define CON_(name, T)                                        \
  CONTRACT(P19_construct_##name) { constructs<T>(0); }       \
  CONTRACT(P19_construct2_##name) { constructs<T>(1); }      \
  CONTRACT(P19_set_##name) { constructs<T>(2); }             \
  CONTRACT(P19_set_max_##name) { constructs<T>(3); }
CON_(d, d000)
CON_(m, dm)
CON_(e, de)
CON_(s, ds)
CON_(1, d1)
CON_(all, dall)
CON_(me, dme)

// ---- default values
template <class T> void dim_defaults() {
  vals v{T::Min == dyn ? 0 : T::Min, T::Extent == dyn ? 0 : T::Extent, T::Stride == dyn ? unresolved : T::Stride};
  T t;
  vc_ensures(is(t, v), "min 0, extent 0 and an unknown stride, or the compile time values");
  shape<T> s;
  vc_ensures(is(s.template dim<0>(), v), "min 0, extent 0 and an unknown stride, or the compile time values");
  long e = vc_range("extent", 0, vc::B);
  vc_abort_if(T::Extent != dyn && e != T::Extent);
  T u(e);
  v.ex = e;
  vc_ensures(is(u, v), "min 0 and an unknown stride, or the compile time values");
}
CONTRACT(P19_default_dim) { dim_defaults<d000>(), dim_defaults<dm>(), dim_defaults<de>(), dim_defaults<ds>(), dim_defaults<d1>(), dim_defaults<d0>(); }
CONTRACT(P19_default_dims) { dim_defaults<dn>(), dim_defaults<dme>(), dim_defaults<des>(), dim_defaults<dms>(), dim_defaults<dall>(); }
template <class T> void interval_defaults() {
  T t;
  vc_ensures((t.min() == (T::Min == dyn ? 0 : T::Min)) & (t.extent() == (T::Extent == dyn ? 1 : T::Extent)), "min 0 and extent 1, or the compile time values");
  long m = vc_range("min", -vc::B, vc::B);
  vc_abort_if(T::Min != dyn && m != T::Min);
  T u(m);
  vc_ensures((u.min() == m) & (u.extent() == (T::Extent == dyn ? 1 : T::Extent)), "extent 1, or the compile time value");
}
CONTRACT(P19_default_interval) { interval_defaults<I>(); interval_defaults<I3>(), interval_defaults<Ie>(), interval_defaults<I35>(); }

// ---- shapes
template <class D, size_t K> using dim_of = typename std::tuple_element<K, typename D::dims_type>::type;
template <class S> struct source {
  static constexpr size_t N = S::rank();
  vals v[N + 1];
  S s;
  template <size_t... K> void make(vc::index_sequence<K...>, bool unres) {
    int u[] = {0, (v[K] = draw<dim_of<S, K>>(K, unres), 0)...};
    (void)u;
    s = S(dim_of<S, K>(v[K].mn, v[K].ex, v[K].st)...);
  }
  source(bool unres = true) { make(vc::make_index_sequence<N>(), unres); }
  template <class T, size_t... K> bool fit(vc::index_sequence<K...>) const {
    bool r = true;
    int u[] = {0, (r = r & fits<dim_of<T, K>>(v[K]), 0)...};
    (void)u;
    return r;
  }
  template <class T> bool fit() const { return fit<T>(vc::make_index_sequence<N>()); }
  template <class T, size_t... K> bool are(const T& t, vc::index_sequence<K...>) const {
    bool r = true;
    int u[] = {0, (r = r & is(t.template dim<K>(), v[K]), 0)...};
    (void)u;
    return r;
  }
  template <class T> bool are(const T& t) const { return are(t, vc::make_index_sequence<N>()); }
};
template <class T, class S> void shapes(int how) {
  source<S> a;
  bool ok = a.template fit<T>();
  T t;
  if (how == 0) {
    vc_ensures(is_compatible<T>(a.s) == ok, "is_compatible is true exactly when the conversion does not assert");
    return;
  }
  vc_abort_if(!ok);
  if (how == 1) { T c(a.s); t = c; }
  if (how == 2) t = a.s;
  if (how == 3) { T c(a.s.dims()); t = c; }
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures(a.are(t), "the values are kept");
  vc_ensures(a.are(a.s), "the source is left alone");
}
#define SH_(name, T, S)                                           \
  CONTRACT(P19_compatible_##name) { shapes<T, S>(0); }            \
  CONTRACT(P19_shape_##name) { shapes<T, S>(1); }                 \
  CONTRACT(P19_shape_##name##_assign) { shapes<T, S>(2); }        \
  CONTRACT(P19_shape_##name##_tuple) { shapes<T, S>(3); }
SH_(D1_S1, D1, S1)
SH_(S1_D1, S1, D1)
SH_(D2_S2, D2, S2)
SH_(S2_F2, S2, F2)
SH_(F2_S2, F2, S2)
SH_(M2_S2, M2, S2)
SH_(B2_S2, B2, S2)
SH_(F3_S3, F3, S3)
SH_(S3_F3, S3, F3)
using P3 = shape<dim<dyn, 3>, dim<dyn, dyn, 7>, dim<-1>>;
SH_(F3_P3, F3, P3)
SH_(P3_F3, S3, P3)
CONTRACT(P19_shape0) {
  S0 a, b(a);
  b = a;
  vc_ensures(is_compatible<S0>(a) && a == b, "a shape without dimensions converts");
}
// A shape from dims of other types.
CONTRACT(P19_shape_dims) {
  source<S2> a;
  bool ok = a.template fit<F2>();
  vc_abort_if(!ok);
  F2 t(a.s.dim<0>(), a.s.dim<1>());
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures(a.are(t), "the values are kept");
}
CONTRACT(P19_shape_extents) {
  long e = vc_range("e", 0, vc::B), f = vc_range("f", 0, vc::B);
  vc_abort_if(f != 4);
  shape<dim<>, dim<0, 4>> t(e, f);
  vc_ensures(f == 4, "a value other than the compile time one asserts");
  vc_ensures((t.dim<0>().min() == 0) & (t.dim<0>().extent() == e) & (t.dim<1>().min() == 0) & (t.dim<1>().extent() == f), "the values are the given ones");
}

// ---- array_ref and array
template <class T, class S> void refs(int how) {
  source<S> a(false);
  X* base = vc_bool("null") ? nullptr : xregion("base");
  array_ref<X, S> r(base, a.s);
  bool ok = a.template fit<T>();
  array_ref<X, T> t(nullptr, T());
  vc_abort_if(!ok);
  if (how == 0) { array_ref<X, T> c(r); t = c; }
  if (how == 1) t = r;
  if (how == 2) t.set_shape(r.shape()), t = array_ref<X, T>(base, t.shape());
  vc_ensures(ok, "a value other than the compile time one asserts");
  vc_ensures((t.base() == base) & a.are(t.shape()), "the base and the values are kept");
}
#define REF_(name, T, S)                                        \
  CONTRACT(P19_ref_##name) { refs<T, S>(0); }                   \
  CONTRACT(P19_ref_##name##_assign) { refs<T, S>(1); }
REF_(D1_S1, D1, S1)
REF_(S2_F2, S2, F2)
REF_(F2_S2, F2, S2)
REF_(F3_S3, F3, S3)
