#include "life.h"
using namespace life;

// The memory an array asked for is exactly the span of its shape, and it starts at data().
template <class S> void spans(const vc::arb<S>& a, const void* base) {
  if (!a.nonempty()) return;
  long lo = 0, hi = 0;
  for (size_t d = 0; d < S::rank(); d++) (a.st[d] < 0 ? lo : hi) += (a.ex[d] - 1) * a.st[d];
  vc_reset(vc::SPEC);
  vc::visit(vc::SPEC, vc_rid(base), 0L, hi - lo + 1, 7L);
  vc_same(vc::ALLOC, vc::SPEC, "one allocation, of the flat extent of the shape");
  vc_ensures(vc_off(base) == -lo, "the elements lie within the allocation");
}

// Default construction of every element, and destruction.
template <class S> void defaults() {
  vc::arb<S> a;
  forget();
  {
    array<L, S, A0> x(a.s, A0(7));
    spans(a, x.base());
    vc::each<S::rank()>(vc::DCTOR, x.base(), a.st, a.ex, "one default construction at each address of the shape");
    vc::none(vc::CCTOR, "no other construction");
    vc::none(vc::MCTOR, "no other construction");
    vc_ensures(!gone, "nothing is destroyed");
  }
  balanced();
}
CONTRACT(P14_default0) { defaults<S0>(); }
CONTRACT(P14_default1) { defaults<S1>(); }
CONTRACT(P14_defaultD1) { defaults<D1>(); }
CONTRACT(P14_defaultD2) { defaults<D2>(); }
CONTRACT(P14_defaultF2) { defaults<F2>(); }
CONTRACT(P14_defaultM2) { defaults<M2>(); }

// Is a default constructed shape S without elements?
template <class S> bool hollow() { return S().empty(); }

// Construction from a value.
template <class S> void values() {
  vc::arb<S> a;
  forget();
  const L& v = *(const L*)vc_region("v");
  {
    array<L, S, A0> x(a.s, v, A0(7));
    long z[S::rank() + 1] = {};
    vc::pairs<S::rank()>(vc::CCTOR, x.base(), a.st, &v, z, a.ex, 1, "one construction from the value at each address of the shape");
    if (hollow<S>()) {
      // (Otherwise the elements of the default shape are made first, and destroyed.)
      spans(a, x.base());
      vc::none(vc::DCTOR, "no other construction");
      vc_ensures(!gone, "nothing is destroyed");
    }
    vc::none(vc::MCTOR, "no other construction");
  }
  balanced();
}
CONTRACT(P14_value0) { values<S0>(); }
CONTRACT(P14_value1) { values<S1>(); }
CONTRACT(P14_valueD2) { values<D2>(); }
CONTRACT(P14_valueF2) { values<F2>(); }
CONTRACT(P14_valueM2) { values<M2>(); }

// Without a shape.
template <class S> void nothing() {
  forget();
  {
    array<L, S, A0> x(A0(7)), y;
    vc_ensures(!gone, "nothing is destroyed");
    if (hollow<S>()) {
      vc_ensures(!made & (x.base() == nullptr) & (y.base() == nullptr), "no element and no memory");
    }
  }
  balanced();
}
CONTRACT(P14_nothing0) { nothing<S0>(); }
CONTRACT(P14_nothing1) { nothing<S1>(); }
CONTRACT(P14_nothing2) { nothing<S2>(); }
CONTRACT(P14_nothingF) { nothing<shape<dim<1, 3>, dim<2, 2>>>(); }

// clear: each element is destroyed, the memory returned, and the array is as if default constructed.
template <class S> void clears() {
  vc::arb<S> a;
  forget();
  {
    array<L, S, A0> x(a.s, A0(7));
    const L* p = x.base();
    mark(p);
    vc_reset(vc::DCTOR);
    x.clear();
    vc_ensures(x.shape() == array<X, S>().shape(), "the shape is the default one");
    vc::each<S::rank()>(GONE, p, a.st, a.ex, "each element is destroyed once");
    if (hollow<S>()) {
      vc_ensures(!made & (x.base() == nullptr), "no element and no memory");
      vc_same(vc::ALLOC, vc::FREE, "the memory is returned");
    }
    mark();
  }
  balanced();
}
CONTRACT(P14_clear0) { clears<S0>(); }
CONTRACT(P14_clear1) { clears<S1>(); }
CONTRACT(P14_clearD2) { clears<D2>(); }
CONTRACT(P14_clearM2) { clears<M2>(); }
CONTRACT(P14_clearF) { clears<shape<dim<1, 3, 2>>>(); }

// Two arbitrary shapes, equal or not.
template <class S> struct shapes {
  vc::arb<S> a, b;
  bool same;
  // lo: the least extents.
  shapes(bool same, long lo) : a(lo, vc::B), b(lo, vc::B, "nmin", "nextent", "nstride"), same(same) {
    bool eq = true;
    for (size_t d = 0; d < S::rank(); d++) eq = eq & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]) & (a.st[d] == b.st[d]);
    REQUIRES(eq == same);
  }
};

// assign(shape, value): each old element is destroyed, each new one constructed from the value; the memory is kept
// exactly when the shape is the same.
template <class S> void refills(bool same, long lo = 0, int zero = -1) {
  shapes<S> q(same, lo);
  const auto &a = q.a, &b = q.b;
  if (zero >= 0) REQUIRES(a.ex[zero] == 0);
  forget();
  const L& v = *(const L*)vc_region("v");
  {
    array<L, S, A0> x(a.s, A0(7));
    const L* p = x.base();
    mark(p);
    vc_reset(vc::DCTOR);
    x.assign(b.s, v);
    vc_ensures(is(x.shape(), b.mn, b.ex, b.st), "the shape is the given one");
    vc::each<S::rank()>(GONE, p, a.st, a.ex, "each old element is destroyed once");
    long z[S::rank() + 1] = {};
    vc::pairs<S::rank()>(vc::CCTOR, x.base(), b.st, &v, z, b.ex, 1, "one construction from the value at each address of the new shape");
    vc::none(vc::DCTOR, "no other construction");
    vc::none(vc::MCTOR, "no other construction");
    vc::none(vc::ASSIGN, "nothing is assigned");
    if (same & a.nonempty()) vc_ensures(x.base() == p, "the same shape: the memory is kept");
    mark();
  }
  balanced();
}
CONTRACT(P14_refill0_same) { refills<S0>(true); }
CONTRACT(P14_refill1_same) { refills<S1>(true); }
CONTRACT(P14_refill1) { refills<S1>(false); }
CONTRACT(P14_refillD2_same) { refills<D2>(true, 1); }
CONTRACT(P14_refillD2_same_e0) { refills<D2>(true, 0, 0); }
CONTRACT(P14_refillD2_same_e1) { refills<D2>(true, 0, 1); }
CONTRACT(P14_refillD2) { refills<D2>(false); }
CONTRACT(P14_refillM2_same) { refills<M2>(true, 1); }
CONTRACT_T(P14_refillM2) { refills<M2>(false); }
// ... of an array that has no memory.
template <class S> void fills() {
  vc::arb<S> b(0, vc::B, "nmin", "nextent", "nstride");
  forget();
  const L& v = *(const L*)vc_region("v");
  {
    array<L, S, A0> x(A0(7));
    x.assign(b.s, v);
    long z[S::rank() + 1] = {};
    vc::pairs<S::rank()>(vc::CCTOR, x.base(), b.st, &v, z, b.ex, 1, "one construction from the value at each address of the new shape");
    vc_same(vc::CCTOR, vc::CCTOR, "no other construction");
  }
  balanced();
}
CONTRACT(P14_fill1) { fills<S1>(); }
CONTRACT(P14_fillD2) { fills<D2>(); }

// Copies.  How: 0 copy construction, 1 with an allocator, 2 assignment, 3 assign(); To: the state of the target,
// 0 no memory, 1 an array of another shape, 2 one of the same shape.
template <class S> void copies(int how) {
  vc::arb<S> a;
  forget();
  {
    array<L, S, A0> x(a.s, A0(7));
    mark();
    vc_reset(MADE);
    {
      array<L, S, A0> y = how ? array<L, S, A0>(x, A0(8)) : array<L, S, A0>(x);
      vc::each<S::rank()>(MADE, y.base(), a.st, a.ex, "one construction at each address of the copy");
      vc_ensures(!gone, "nothing is destroyed");
    }
    vc_same(MADE, GONE, "the copy is destroyed once, and nothing else");
    mark();
    vc_reset(GONE), vc_reset(MADE);
    vc::each<S::rank()>(vc::DCTOR, x.base(), a.st, a.ex, "(the source)");
  }
  vc_same(GONE, vc::DCTOR, "the source is destroyed once");
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
CONTRACT(P14_copy0) { copies<S0>(0); }
CONTRACT(P14_copy1) { copies<S1>(0); }
CONTRACT(P14_copyD2) { copies<D2>(0); }
CONTRACT(P14_copy1_alloc) { copies<S1>(1); }

// The histories below start with an array y in one of three states: 0 without memory, 1 of another shape than x,
// 2 of the same shape.  What an operation constructs and destroys is told apart from what came before; at the end
// every array is destroyed, and the total must balance.
template <class S, class A> struct pair {
  shapes<S> q;
  int to;
  pair(int to, long lo = 0) : q(to == 2, lo), to(to) {}
  template <class Op> void run(Op op, long idx = 7, long idy = 7) {
    forget();
    {
      array<L, S, A> x(q.a.s, A(idx));
      array<L, S, A> y = to ? array<L, S, A>(q.b.s, A(idy)) : array<L, S, A>(A(idy));
      mark();
      op(x, y);
      mark();
    }
    balanced();
  }
};

// Copy assignment.
template <class S, class A = A0> void assigns(int to, long lo, long idx, long idy) {
  pair<S, A> h(to, lo);
  h.run([&](array<L, S, A>& x, array<L, S, A>& y) {
    const L *p = x.base(), *o = y.base();
    from_here(o);
    y = x;
    vc::pairs<S::rank()>(vc::CCTOR, y.base(), h.q.a.st, x.base(), h.q.a.st, h.q.a.ex, 1, "one construction at each address of the copy");
    vc::none(vc::DCTOR, "no other construction"), vc::none(vc::MCTOR, "no other construction"), vc::none(vc::ASSIGN, "no assignment");
    if (to == 0) vc_ensures(!gone, "nothing is destroyed");
    else vc::each<S::rank()>(vc::DTOR, o, h.q.b.st, h.q.b.ex, "each old element is destroyed once");
    vc_ensures(x.base() == p, "the source is left alone");
  }, idx, idy);
}
CONTRACT(P14_assign1_null) { assigns<S1>(0, 0, 7, 7); }
CONTRACT(P14_assign1_other) { assigns<S1>(1, 0, 7, 7); }
CONTRACT(P14_assign1_same) { assigns<S1>(2, 0, 7, 7); }
CONTRACT(P14_assign0) { assigns<S0>(2, 0, 7, 7); }
CONTRACT(P14_assignD2_null) { assigns<D2>(0, 0, 7, 7); }
CONTRACT(P14_assignD2_same) { assigns<D2>(2, 1, 7, 7); }
CONTRACT_T(P14_assignD2_other) { assigns<D2>(1, 0, 7, 7); }
// The allocator is propagated: the memory goes back to the old one.
using AC = alloc<L, true, false, false>;
CONTRACT(P14_assign1_prop_other) { assigns<S1, AC>(1, 0, 7, 8); }
CONTRACT(P14_assign1_prop_same) { assigns<S1, AC>(2, 0, 7, 8); }
CONTRACT(P14_assign1_prop_equal) { assigns<S1, AC>(2, 0, 7, 7); }

// Move construction: the memory and its elements change hands, or (unequal allocators) new elements are made.
template <class S, class A> void moves(long id, long to) {
  vc::arb<S> a;
  forget();
  {
    array<L, S, A> x(a.s, A(id));
    from_here();
    array<L, S, A> y(std::move(x), A(to));
    if (id == to) untouched("the same allocation: no element is touched");
    else vc::pairs<S::rank()>(vc::MCTOR, y.base(), a.st, x.base(), a.st, a.ex, 1, "one construction at each address of the new array");
    vc_ensures(!gone, "nothing is destroyed");
    mark();
  }
  balanced();
}
CONTRACT(P14_move0) { moves<S0, A0>(7, 7); }
CONTRACT(P14_move0_uneq) { moves<S0, A0>(7, 8); }
CONTRACT(P14_move1) { moves<S1, A0>(7, 7); }
CONTRACT(P14_move1_uneq) { moves<S1, A0>(7, 8); }
CONTRACT(P14_moveD2) { moves<D2, A0>(7, 7); }
CONTRACT(P14_moveD2_uneq) { moves<D2, A0>(7, 8); }

// Move assignment.
template <class S, class A = A0> void moveto(int to, long lo, long idx, long idy) {
  pair<S, A> h(to, lo);
  h.run([&](array<L, S, A>& x, array<L, S, A>& y) {
    const L *p = x.base(), *o = y.base();
    from_here(o);
    y = std::move(x);
    if (idx == idy || A::propagate_on_container_move_assignment::value) {
      vc::none(vc::DCTOR, "no construction"), vc::none(vc::CCTOR, "no construction"), vc::none(vc::MCTOR, "no construction");
    } else {
      vc::pairs<S::rank()>(vc::MCTOR, y.base(), h.q.a.st, x.base(), h.q.a.st, h.q.a.ex, 1, "one construction at each address of the target");
      if (to == 0) vc_ensures(!gone, "nothing is destroyed");
      else vc::each<S::rank()>(vc::DTOR, o, h.q.b.st, h.q.b.ex, "each old element is destroyed once");
    }
  }, idx, idy);
}
using AM = alloc<L, false, true, false>;
CONTRACT(P14_moveto1_null) { moveto<S1>(0, 0, 7, 7); }
CONTRACT(P14_moveto1_other) { moveto<S1>(1, 0, 7, 7); }
CONTRACT(P14_moveto1_uneq_null) { moveto<S1>(0, 0, 7, 8); }
CONTRACT(P14_moveto1_uneq_other) { moveto<S1>(1, 0, 7, 8); }
CONTRACT(P14_moveto1_uneq_same) { moveto<S1>(2, 0, 7, 8); }
CONTRACT(P14_moveto1_prop) { moveto<S1, AM>(1, 0, 7, 8); }
CONTRACT(P14_movetoD2_uneq_same) { moveto<D2>(2, 1, 7, 8); }
CONTRACT(P14_movetoD2_other) { moveto<D2>(1, 0, 7, 7); }

// Swap.
template <class S, class A = A0> void swaps(int to, long idx, long idy) {
  pair<S, A> h(to);
  h.run([&](array<L, S, A>& x, array<L, S, A>& y) {
    swap(x, y);
    vc_ensures(is(y.shape(), h.q.a.mn, h.q.a.ex, h.q.a.st), "the shapes are exchanged");
    if (to) vc_ensures(is(x.shape(), h.q.b.mn, h.q.b.ex, h.q.b.st), "the shapes are exchanged");
  }, idx, idy);
}
using AS = alloc<L, false, false, true>;
CONTRACT(P14_swap1) { swaps<S1>(1, 0, 0); }
CONTRACT(P14_swap1_null) { swaps<S1>(0, 0, 0); }
CONTRACT(P14_swap1_id) { swaps<S1>(0, 7, 7); }
CONTRACT(P14_swap1_uneq) { swaps<S1>(0, 0, 7); }
CONTRACT_T(P14_swap1_uneq_other) { swaps<S1>(1, 0, 7); }
CONTRACT(P14_swap1_prop) { swaps<S1, AS>(1, 7, 8); }

// Reshape: the elements of the new shape are made, the common ones are moved, the old ones destroyed.
template <class S, class A = A0> void reshapes(long id) {
  shapes<S> q(false, 0);
  forget();
  {
    array<L, S, A> x(q.a.s, A(id));
    const L* p = x.base();
    from_here();
    x.reshape(q.b.s);
    vc_ensures(is(x.shape(), q.b.mn, q.b.ex, q.b.st), "the shape is the given one");
    mark();
  }
  balanced();
}
CONTRACT(P14_reshape1) { reshapes<S1>(0); }
CONTRACT(P14_reshape1_id) { reshapes<S1>(7); }
CONTRACT(P14_reshape1_move) { reshapes<S1, AM>(7); }

// Once the shape was replaced, the memory still goes back with the pointer and size it was allocated with.
using T0 = alloc<X, false, false, false>;
template <class S> struct smaller {
  vc::arb<S> a, b;
  long offset;
  smaller() : a(1, vc::B), b(1, vc::B, "nmin", "nextent", "nstride"), offset(vc_range("offset", -(1L << 30), 1L << 30)) {
    long alo = 0, ahi = 0, blo = offset, bhi = offset;
    for (size_t d = 0; d < S::rank(); d++) {
      (a.st[d] < 0 ? alo : ahi) += (a.ex[d] - 1) * a.st[d];
      (b.st[d] < 0 ? blo : bhi) += (b.ex[d] - 1) * b.st[d];
    }
    REQUIRES((alo <= blo) & (bhi <= ahi));
  }
};
template <class S, class A, class Fn> void shrinks(Fn fn, long id = 7) {
  smaller<S> q;
  forget();
  {
    array<X, S, A> x(q.a.s, A(id));
    x.set_shape(q.b.s, q.offset);
    fn(x, q);
  }
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
template <class S> using TA = array<X, S, T0>;
CONTRACT(P14_set_shape1) { shrinks<S1, T0>([](TA<S1>&, const smaller<S1>&) {}); }
CONTRACT(P14_set_shapeD2) { shrinks<D2, T0>([](TA<D2>&, const smaller<D2>&) {}); }
CONTRACT(P14_set_shape_clear) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>&) { x.clear(); }); }
CONTRACT(P14_set_shape_move) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>&) { TA<S1> y(std::move(x)); }); }
CONTRACT(P14_set_shape_move_uneq) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>&) { TA<S1> y(std::move(x), T0(8)); }); }
CONTRACT(P14_set_shape_moveto) {
  shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) {
    TA<S1> y(q.a.s, T0(7));
    y = std::move(x);
  });
}
CONTRACT(P14_set_shape_swap) {
  shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) {
    TA<S1> y(q.a.s, T0(7));
    swap(x, y);
  });
}
CONTRACT(P14_set_shape_reshape) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) { x.reshape(q.a.s); }); }
CONTRACT(P14_set_shape_assign) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) { x.assign(q.a.s, X()); }); }
CONTRACT(P14_set_shape_copy) {
  shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) {
    TA<S1> y(q.b.s, T0(7));
    x = y;
  });
}
CONTRACT(P14_set_shape_copyto) {
  shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) {
    TA<S1> y(q.a.s, T0(7));
    y = x;
  });
}
using TM = alloc<X, false, true, false>;
CONTRACT(P14_reinterpret) { shrinks<S1, T0>([](TA<S1>& x, const smaller<S1>& q) { auto y = move_reinterpret_shape(std::move(x), q.b.s); }, 0); }
CONTRACT(P14_reinterpret_prop) { shrinks<S1, TM>([](array<X, S1, TM>& x, const smaller<S1>& q) { auto y = move_reinterpret_shape(std::move(x), q.b.s); }); }
CONTRACT(P14_reinterpret_fixed) {
  using F = shape<dim<0, 3, 2>>;
  vc::arb<S1> a(1);
  REQUIRES((a.ex[0] - 1) * (a.st[0] < 0 ? -a.st[0] : a.st[0]) >= 4);
  forget();
  {
    TA<S1> x(a.s, T0(0));
    auto y = move_reinterpret_shape(std::move(x), F(), a.st[0] < 0 ? (a.ex[0] - 1) * a.st[0] : 0);
  }
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
