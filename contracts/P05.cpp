#include "common.h"
#include "array/image.h"
#include "array/matrix.h"

// The kinds of arguments of an indexing expression.  lo: the index the view starts at; keeps: the dimension stays.
struct Ix {  // an index
  static constexpr bool keeps = false;
  static constexpr long Min = vc::dyn, Extent = vc::dyn;
  long lo, ex;
  index_t get() const { return lo; }
  void draw(size_t d, long, long) { lo = vc_rangei("at", d, -vc::B, vc::B), ex = 1; }
};
struct I32 : Ix {  // an index of another integer type
  int get() const { return (int)lo; }
};
struct Iv {  // an interval
  static constexpr bool keeps = true;
  static constexpr long Min = vc::dyn, Extent = vc::dyn;
  long lo, ex;
  interval<> get() const { return interval<>(lo, ex); }
  void draw(size_t d, long, long) { lo = vc_rangei("begin", d, -vc::B, vc::B), ex = vc_rangei("count", d, 0, vc::B); }
};
struct Rg : Iv {  // r(begin, end)
  interval<> get() const { return nda::r(lo, lo + ex); }
};
struct Fx {  // an interval of static extent
  static constexpr bool keeps = true;
  static constexpr long Min = vc::dyn, Extent = 3;
  long lo, ex;
  fixed_interval<3> get() const { return nda::r<3>(lo); }
  void draw(size_t d, long, long) { lo = vc_rangei("begin", d, -vc::B, vc::B), ex = 3; }
};
struct Dm {  // a dimension: its stride does not matter
  static constexpr bool keeps = true;
  static constexpr long Min = vc::dyn, Extent = vc::dyn;
  long lo, ex, st;
  dim<> get() const { return dim<>(lo, ex, st); }
  void draw(size_t d, long, long) {
    lo = vc_rangei("begin", d, -vc::B, vc::B), ex = vc_rangei("count", d, 0, vc::B), st = vc_rangei("dstride", d, -vc::B, vc::B);
  }
};
struct Al {  // the whole dimension
  static constexpr bool keeps = true;
  long lo, ex;
  const interval<0, -1>& get() const { return _; }
  void draw(size_t d, long mn, long e) { lo = mn, ex = e; }
};

template <class... T> struct list {};
template <class S, class... K> struct sel {
  static constexpr size_t N = sizeof...(K);
  static_assert(N == S::rank(), "one argument per dimension");
  static constexpr size_t M() {
    bool k[] = {K::keeps...};
    size_t m = 0;
    for (size_t i = 0; i < N; i++) m += k[i];
    return m;
  }
  std::tuple<K...> k;
  vc::arb<S> a;
  long lo[N + 1], x[N + 1], off, xoff;
  long vmn[N + 1], vex[N + 1], vst[N + 1], i[N + 1];

  template <size_t... Is> int init(vc::index_sequence<Is...>) {
    int u[] = {0, (std::get<Is>(k).draw(Is, a.mn[Is], a.ex[Is]), 0)...};
    bool keeps[] = {K::keeps...};
    long l[] = {std::get<Is>(k).lo...}, e[] = {std::get<Is>(k).ex...};
    size_t m = 0;
    off = xoff = 0;
    for (size_t d = 0; d < N; d++) {
      lo[d] = l[d];
      off += (l[d] - a.mn[d]) * a.st[d];
      x[d] = l[d];
      if (keeps[d]) {
        vmn[m] = l[d], vex[m] = e[d], vst[m] = a.st[d];
        // An arbitrary index of the view.
        x[d] = i[m] = vc_rangei("i", d, -2 * vc::B, 2 * vc::B);
        m++;
      }
      xoff += (x[d] - a.mn[d]) * a.st[d];
    }
    (void)u;
    return 0;
  }
  sel() { init(vc::make_index_sequence<N>()); }
  template <class V, size_t... Js> void shape(const V& v, vc::index_sequence<Js...>) const {
    static_assert(V::rank() == M(), "the sliced dimensions are gone");
    const long min[] = {v.template dim<Js>().min()..., 0};
    const long extent[] = {v.template dim<Js>().extent()..., 0};
    const long stride[] = {v.template dim<Js>().stride()..., 0};
    for (size_t j = 0; j < M(); j++) {
      vc_ensures(min[j] == vmn[j], "the view has the requested min");
      vc_ensures(extent[j] == vex[j], "the view has the requested extent");
      vc_ensures(stride[j] == vst[j], "the view keeps the stride");
    }
  }
  template <class V> void shape(const V& v) const { shape(v, vc::make_index_sequence<M()>()); }
  template <class V, class R, size_t... Js, size_t... Is>
  void view(const V& v, const R& r, vc::index_sequence<Js...>, vc::index_sequence<Is...>) const {
    shape(v.shape());
    vc_ensures(vc::at(v.base(), r.base(), off), "base of the view");
    typename R::index_type full{x[Is]...};
    typename std::decay<V>::type::index_type part{i[Js]...};
    vc_ensures(vc::at(&v[part], &r[full], 0), "the element of the view is the element of the original");
    vc_ensures(vc::at(&v[part], r.base(), xoff), "the element of the view is where the index says");
  }
  template <class V, class R> void view(const V& v, const R& r) const {
    view(v, r, vc::make_index_sequence<M()>(), vc::make_index_sequence<N>());
  }
};

template <class S, class... K, size_t... Is> void ref_(vc::index_sequence<Is...>) {
  sel<S, K...> c;
  const S& s = c.a.s;
  c.shape(s(std::get<Is>(c.k).get()...));
  c.shape(s[std::make_tuple(std::get<Is>(c.k).get()...)]);
  array_ref<X, S> r(xregion("a"), s);
  c.view(r(std::get<Is>(c.k).get()...), r);
  c.view(r[std::make_tuple(std::get<Is>(c.k).get()...)], r);
  const_array_ref<X, S> q = r.cref();
  c.view(q(std::get<Is>(c.k).get()...), q);
  // Null stays null.
  array_ref<X, S> n(nullptr, s);
  auto nv = n(std::get<Is>(c.k).get()...);
  ENSURES(nv.base() == nullptr);
  c.shape(nv.shape());
}
template <class S, class... K> void ref() { ref_<S, K...>(vc::make_index_sequence<S::rank()>()); }

template <class S, class... K, size_t... Is> void arr_(vc::index_sequence<Is...>) {
  sel<S, K...> c;
  const S& s = c.a.s;
  for (size_t d = 0; d < S::rank(); d++) REQUIRES(c.a.ex[d] > 0);
  array<X, S, plain_alloc<X>> r(s);
  const auto& q = r;
  c.view(r(std::get<Is>(c.k).get()...), r);
  c.view(r[std::make_tuple(std::get<Is>(c.k).get()...)], r);
  c.view(q(std::get<Is>(c.k).get()...), q);
  c.view(q[std::make_tuple(std::get<Is>(c.k).get()...)], q);
}
template <class S, class... K> void arr() { arr_<S, K...>(vc::make_index_sequence<S::rank()>()); }

CONTRACT(P05_crop1) { ref<S1, Iv>(); }
CONTRACT(P05_crop1r) { ref<S1, Rg>(); }
CONTRACT(P05_crop1f) { ref<S1, Fx>(); }
CONTRACT(P05_crop1d) { ref<S1, Dm>(); }
CONTRACT(P05_all1) { ref<S1, Al>(); }
CONTRACT(P05_xa) { ref<S2, Ix, Al>(); }
CONTRACT(P05_ax) { ref<S2, Al, Ix>(); }
CONTRACT(P05_aa) { ref<S2, Al, Al>(); }
CONTRACT(P05_xv) { ref<S2, Ix, Iv>(); }
CONTRACT(P05_vx) { ref<S2, Iv, Ix>(); }
CONTRACT(P05_vv) { ref<S2, Iv, Rg>(); }
CONTRACT(P05_df) { ref<S2, Dm, Fx>(); }
CONTRACT(P05_ai) { ref<S2, Al, I32>(); }
CONTRACT(P05_iv) { ref<S2, I32, Iv>(); }
CONTRACT(P05_xva) { ref<S3, Ix, Iv, Al>(); }
CONTRACT(P05_vxd) { ref<S3, Iv, Ix, Dm>(); }
CONTRACT(P05_axx) { ref<S3, Al, Ix, Ix>(); }
CONTRACT(P05_xxa) { ref<S3, Ix, Ix, Al>(); }
CONTRACT(P05_xax) { ref<S3, Ix, Al, Ix>(); }
CONTRACT(P05_fvr) { ref<S3, Fx, Iv, Rg>(); }
CONTRACT(P05_xaxv) { ref<S4, Ix, Al, Ix, Iv>(); }
CONTRACT(P05_axvx) { ref<S4, Al, Ix, Iv, Ix>(); }
CONTRACT(P05_D1) { ref<D1, Iv>(); }
CONTRACT(P05_D2va) { ref<D2, Iv, Al>(); }
CONTRACT(P05_D2xv) { ref<D2, Ix, Iv>(); }
CONTRACT(P05_D2vx) { ref<D2, Rg, Ix>(); }
CONTRACT(P05_B2) { ref<B2, Iv, Iv>(); }
CONTRACT(P05_F2) { ref<F2, Iv, Al>(); }
CONTRACT(P05_F2x) { ref<F2, Ix, Fx>(); }
CONTRACT(P05_F2a) { ref<F2, Al, Ix>(); }
CONTRACT(P05_M2) { ref<M2, Al, Ix>(); }
CONTRACT(P05_F3) { ref<F3, Ix, Iv, Al>(); }
CONTRACT(P05_matrix_row) { ref<matrix_shape<>, Ix, Al>(); }
CONTRACT(P05_matrix_col) { ref<matrix_shape<>, Al, Ix>(); }
CONTRACT(P05_chunky) { ref<chunky_image_shape<3>, Iv, Iv, Al>(); }
CONTRACT(P05_planar_channel) { ref<planar_image_shape, Al, Al, Ix>(); }
CONTRACT(P05_array1) { arr<S1, Iv>(); }
CONTRACT(P05_array2) { arr<S2, Ix, Iv>(); }
CONTRACT(P05_array2a) { arr<S2, Al, Ix>(); }
CONTRACT_T(P05_array3) { arr<S3, Iv, Ix, Dm>(); }
CONTRACT(P05_arrayD2) { arr<D2, Rg, Ix>(); }
CONTRACT(P05_arrayF2) { arr<F2, Ix, Al>(); }
