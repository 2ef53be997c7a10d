// NATIVE: g++
#include "life.h"
using namespace life;

template <bool C, bool M, bool S> using Al = alloc<L, C, M, S>;
inline long anyid(const char* n) { return vc_range(n, 0, 2); }

// Two arbitrary shapes, equal or not.
template <class S> struct shapes {
  vc::arb<S> a, b;
  shapes(bool same, long lo = 0) : a(lo, vc::B), b(lo, vc::B, "nmin", "nextent", "nstride") {
    bool eq = true;
    for (size_t d = 0; d < S::rank(); d++) eq = eq & (a.mn[d] == b.mn[d]) & (a.ex[d] == b.ex[d]) & (a.st[d] == b.st[d]);
    REQUIRES(eq == same);
  }
};
template <class S> void copied(const vc::arb<S>& a, const void* y, const void* x) {
  vc::pairs<S::rank()>(vc::CCTOR, y, a.st, x, a.st, a.ex, 1, "each element is a copy of the element at the same index");
  vc::none(vc::MCTOR, "the source is not moved from"), vc::none(vc::MASSIGN, "the source is not moved from"), vc::none(vc::ASSIGN, "no assignment");
}
template <class S> void moved(const vc::arb<S>& a, const void* y, const void* x) {
  vc::pairs<S::rank()>(vc::MCTOR, y, a.st, x, a.st, a.ex, 1, "each element is moved from the element at the same index");
  vc::none(vc::CCTOR, "nothing is copied"), vc::none(vc::ASSIGN, "nothing is copied");
}
template <class X> bool defaulted(const X& x) {
  return (x.base() == nullptr) & x.empty() & (x.bounds() == typename X::shape_type().bounds());
}

// The elements of a shape a at y come from those at x.
template <size_t N, class S> void add_pairs(const void* y, const void* x, const vc::arb<S>& a) {
  long e[N + 1], st[N + 1];
  for (size_t d = 0; d < N; d++) e[d] = a.ex[d], st[d] = a.st[d];
  vc::box2<N>(vc::SPEC, y, st, x, st, e);
}

// ---- copies
template <class S> void copy_ctor(bool with) {
  vc::arb<S> a;
  long id = anyid("id"), to = anyid("to");
  forget();
  array<L, S, Al<0, 0, 0>> x(a.s, Al<0, 0, 0>(id));
  const L* p = x.base();
  from_here();
  if (with) {
    array<L, S, Al<0, 0, 0>> y(x, Al<0, 0, 0>(to));
    vc_ensures(y.get_allocator().id == to, "the given allocator");
    vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the copy has the same shape");
    copied(a, y.base(), p);
    if (a.nonempty()) vc_ensures(vc_rid(y.base()) != vc_rid(p), "separate storage");
  } else {
    array<L, S, Al<0, 0, 0>> y(x);
    vc_ensures(y.get_allocator().id == id + 1000, "the allocator selected for copies");
    vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the copy has the same shape");
    copied(a, y.base(), p);
    if (a.nonempty()) vc_ensures(vc_rid(y.base()) != vc_rid(p), "separate storage");
  }
  vc_ensures((x.base() == p) & (x.get_allocator().id == id) & is(x.shape(), a.mn, a.ex, a.st), "the source is left alone");
}
CONTRACT(P15_copy0) { copy_ctor<S0>(false); }
CONTRACT(P15_copy1) { copy_ctor<S1>(false); }
CONTRACT(P15_copyD2) { copy_ctor<D2>(false); }
CONTRACT(P15_copyF2) { copy_ctor<F2>(false); }
CONTRACT(P15_copy1_alloc) { copy_ctor<S1>(true); }
CONTRACT(P15_copyM2_alloc) { copy_ctor<M2>(true); }

// Assignment: to an array without memory, of another shape, of the same shape.
template <class S, class A> void copy_assign(int to, bool method, long lo = 0) {
  shapes<S> q(to == 2, lo);
  const auto& a = q.a;
  long id = anyid("id"), idy = anyid("idy");
  constexpr bool prop = A::propagate_on_container_copy_assignment::value;
  forget();
  array<L, S, A> x(a.s, A(id));
  array<L, S, A> y = to ? array<L, S, A>(q.b.s, A(idy)) : array<L, S, A>(A(idy));
  REQUIRES(y.get_allocator().id == idy);
  const L *p = x.base(), *o = y.base();
  from_here();
  if (method) y.assign(x); else y = x;
  vc_ensures(y.get_allocator().id == (prop & !method ? id : idy), "the allocator is propagated exactly when it says so");
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the copy has the same shape");
  copied(a, y.base(), p);
  if (a.nonempty()) {
    vc_ensures(vc_rid(y.base()) != vc_rid(p), "separate storage");
    if (to == 2 && (!prop || method || id == idy)) vc_ensures(y.base() == o, "storage of the same shape is reused");
  }
  vc_ensures((x.base() == p) & (x.get_allocator().id == id) & is(x.shape(), a.mn, a.ex, a.st), "the source is left alone");
}
#define ASSIGN_(name, S, A, lo)                                             \
  CONTRACT(P15_assign##name##_null) { copy_assign<S, A>(0, false, lo); }    \
  CONTRACT(P15_assign##name##_other) { copy_assign<S, A>(1, false, lo); }   \
  CONTRACT(P15_assign##name##_same) { copy_assign<S, A>(2, false, lo); }
using A000 = Al<0, 0, 0>;
using A100 = Al<1, 0, 0>;
using A010 = Al<0, 1, 0>;
using A001 = Al<0, 0, 1>;
using A111 = Al<1, 1, 1>;
ASSIGN_(1, S1, A000, 0)
ASSIGN_(1p, S1, A100, 0)
CONTRACT(P15_assignD2_same) { copy_assign<D2, A000>(2, false, 1); }
CONTRACT(P15_assignD2p_same) { copy_assign<D2, A100>(2, false, 1); }
CONTRACT(P15_assignD2_null) { copy_assign<D2, A000>(0, false); }
CONTRACT(P15_method1_null) { copy_assign<S1, A100>(0, true); }
CONTRACT(P15_method1_other) { copy_assign<S1, A100>(1, true); }
CONTRACT(P15_method1_same) { copy_assign<S1, A100>(2, true); }

// ---- moves
template <class S, class A> void move_ctor() {
  vc::arb<S> a;
  long id = anyid("id");
  constexpr bool prop = A::propagate_on_container_move_assignment::value;
  forget();
  array<L, S, A> x(a.s, A(id));
  const L* p = x.base();
  from_here();
  array<L, S, A> y(std::move(x));
  vc_ensures(y.get_allocator().id == (prop ? id : 0), "the allocator is propagated exactly when it says so");
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the result has the same shape");
  if (prop || id == 0) {
    vc_ensures(y.base() == p, "the allocation is taken over");
    vc_ensures(defaulted(x), "the source is as if default constructed");
    untouched("no element is touched");
  } else {
    moved(a, y.base(), p);
    if (a.nonempty()) vc_ensures((x.base() == p) & is(x.shape(), a.mn, a.ex, a.st), "the source keeps its (moved from) elements");
  }
}
CONTRACT(P15_move1) { move_ctor<S1, A000>(); }
CONTRACT(P15_move1_prop) { move_ctor<S1, A010>(); }
CONTRACT(P15_moveD2) { move_ctor<D2, A000>(); }
CONTRACT(P15_moveD2_prop) { move_ctor<D2, A010>(); }
template <class S, class A> void move_ctor_with() {
  vc::arb<S> a;
  long id = anyid("id"), to = anyid("to");
  forget();
  array<L, S, A> x(a.s, A(id));
  const L* p = x.base();
  from_here();
  array<L, S, A> y(std::move(x), A(to));
  vc_ensures(y.get_allocator().id == to, "the given allocator");
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the result has the same shape");
  if (to == id) {
    vc_ensures(y.base() == p, "the allocation is taken over");
    vc_ensures(defaulted(x), "the source is as if default constructed");
    untouched("no element is touched");
  } else {
    moved(a, y.base(), p);
  }
}
CONTRACT(P15_move1_alloc) { move_ctor_with<S1, A000>(); }
CONTRACT(P15_move1_alloc_prop) { move_ctor_with<S1, A010>(); }
CONTRACT(P15_moveM2_alloc) { move_ctor_with<M2, A000>(); }

template <class S, class A> void move_assign(int to, bool method, long lo = 0) {
  shapes<S> q(to == 2, lo);
  const auto& a = q.a;
  long id = anyid("id"), idy = anyid("idy");
  constexpr bool prop = A::propagate_on_container_move_assignment::value;
  forget();
  array<L, S, A> x(a.s, A(id));
  array<L, S, A> y = to ? array<L, S, A>(q.b.s, A(idy)) : array<L, S, A>(A(idy));
  REQUIRES(y.get_allocator().id == idy);
  const L *p = x.base(), *o = y.base();
  from_here();
  if (method) y.assign(std::move(x)); else y = std::move(x);
  vc_ensures(y.get_allocator().id == (prop & !method ? id : idy), "the allocator is propagated exactly when it says so");
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the result has the same shape");
  if (!method && (prop || id == idy)) {
    vc_ensures(y.base() == p, "the allocation is taken over");
    vc::none(vc::DCTOR, "no element is touched"), vc::none(vc::CCTOR, "no element is touched"), vc::none(vc::MCTOR, "no element is touched");
    vc::none(vc::ASSIGN, "no element is touched"), vc::none(vc::MASSIGN, "no element is touched");
  } else {
    moved(a, y.base(), p);
    if (a.nonempty()) vc_ensures((x.base() == p) & is(x.shape(), a.mn, a.ex, a.st), "the source keeps its (moved from) elements");
    if (to == 2 && a.nonempty()) vc_ensures(y.base() == o, "storage of the same shape is reused");
  }
}
#define MOVE_(name, S, A, lo)                                               \
  CONTRACT(P15_moveto##name##_null) { move_assign<S, A>(0, false, lo); }    \
  CONTRACT(P15_moveto##name##_other) { move_assign<S, A>(1, false, lo); }   \
  CONTRACT(P15_moveto##name##_same) { move_assign<S, A>(2, false, lo); }
MOVE_(1, S1, A000, 0)
MOVE_(1p, S1, A010, 0)
CONTRACT(P15_movetoD2_same) { move_assign<D2, A000>(2, false, 1); }
CONTRACT(P15_movetoD2_null) { move_assign<D2, A000>(0, false); }
CONTRACT(P15_movemethod1_null) { move_assign<S1, A010>(0, true); }
CONTRACT(P15_movemethod1_other) { move_assign<S1, A010>(1, true); }
CONTRACT(P15_movemethod1_same) { move_assign<S1, A010>(2, true); }

// ---- self assignment
template <class S, class A> void selfs(int how) {
  vc::arb<S> a;
  long id = anyid("id");
  forget();
  array<L, S, A> x(a.s, A(id));
  array<L, S, A>& y = x;
  const L* p = x.base();
  from_here();
  if (how == 0) x = y;
  if (how == 1) x = std::move(y);
  if (how == 2) x.assign(y);
  if (how == 3) x.assign(std::move(y));
  vc_ensures((x.base() == p) & is(x.shape(), a.mn, a.ex, a.st) & (x.get_allocator().id == id), "self assignment changes nothing");
  untouched("self assignment changes nothing");
}
CONTRACT(P15_self_copy1) { selfs<S1, A000>(0); }
CONTRACT(P15_self_move1) { selfs<S1, A000>(1); }
CONTRACT(P15_self_method1) { selfs<S1, A000>(2); }
CONTRACT(P15_self_mmethod1) { selfs<S1, A000>(3); }
CONTRACT(P15_self_copyD2p) { selfs<D2, A111>(0); }
CONTRACT(P15_self_moveD2p) { selfs<D2, A111>(1); }
CONTRACT(P15_self_copy0p) { selfs<S0, A111>(0); }
CONTRACT(P15_self_move0p) { selfs<S0, A111>(1); }

// ---- arrays without memory
template <class A> void nulls(bool mv) {
  long id = anyid("id"), idy = anyid("idy");
  forget();
  array<L, S1, A> x((A(id))), y((A(idy)));
  constexpr bool cp = A::propagate_on_container_copy_assignment::value, mp = A::propagate_on_container_move_assignment::value;
  if (mv) y = std::move(x); else y = x;
  vc_ensures(y.get_allocator().id == ((mv ? mp : cp) ? id : idy), "the allocator is propagated exactly when it says so");
  vc_ensures(defaulted(y), "no memory");
}
CONTRACT(P15_nulls_copy) { nulls<A000>(false); }
CONTRACT(P15_nulls_copy_prop) { nulls<A100>(false); }
CONTRACT(P15_nulls_move) { nulls<A000>(true); }
CONTRACT(P15_nulls_move_prop) { nulls<A010>(true); }

// ---- swap
template <class S, class A> void swaps(int to, long lo, bool member) {
  shapes<S> q(to == 2, lo);
  const auto &a = q.a, &b = q.b;
  constexpr bool prop = A::propagate_on_container_swap::value;
  long id = prop ? anyid("id") : 0, idy = prop ? anyid("idy") : 0;
  forget();
  array<L, S, A> x(a.s, A(id));
  array<L, S, A> y = to ? array<L, S, A>(b.s, A(idy)) : array<L, S, A>(A(idy));
  REQUIRES(y.get_allocator().id == idy);
  const L *p = x.base(), *o = y.base();
  from_here();
  if (member) x.swap(y); else swap(x, y);
  vc_ensures((x.base() == o) & (y.base() == p), "the allocations are exchanged");
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the shapes are exchanged");
  if (to) vc_ensures(is(x.shape(), b.mn, b.ex, b.st), "the shapes are exchanged");
  vc_ensures((x.get_allocator().id == (prop ? idy : id)) & (y.get_allocator().id == (prop ? id : idy)), "the allocators are exchanged exactly when they say so");
  untouched("no element is touched");
}
CONTRACT(P15_swap1) { swaps<S1, A000>(1, 0, false); }
CONTRACT(P15_swap1_null) { swaps<S1, A000>(0, 0, true); }
CONTRACT(P15_swap1_prop) { swaps<S1, A001>(1, 0, true); }
CONTRACT(P15_swap1_prop_null) { swaps<S1, A001>(0, 0, false); }
CONTRACT(P15_swapD2_prop) { swaps<D2, A001>(1, 1, true); }
// Unequal allocators that are not exchanged: the elements are, by way of a temporary.
template <class S> void swaps_uneq(int to) {
  shapes<S> q(to == 2, 1);
  const auto &a = q.a, &b = q.b;
  constexpr size_t N = S::rank();
  long id = anyid("id"), idy = anyid("idy");
  REQUIRES(id != idy);
  forget();
  array<L, S, A000> x(a.s, A000(id));
  array<L, S, A000> y(b.s, A000(idy));
  const L *p = x.base(), *o = y.base();
  from_here();
  swap(x, y);
  vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the shapes are exchanged");
  vc_ensures(is(x.shape(), b.mn, b.ex, b.st), "the shapes are exchanged");
  vc_ensures((x.get_allocator().id == id) & (y.get_allocator().id == idy), "the allocators stay");
  vc::none(vc::CCTOR, "nothing is copied"), vc::none(vc::ASSIGN, "nothing is copied");
  // y's elements went to a temporary (whose allocator is a default one), x's elements to y, the temporary's to x.
  if (idy == 0) {
    // the temporary took y's allocation over, and gave its elements to x
    vc_reset(vc::SPEC);
    add_pairs<N>(y.base(), p, a);
    add_pairs<N>(x.base(), o, b);
    vc_same(vc::MCTOR, vc::SPEC, "each element is moved to the same index of the other array");
  } else {
    // (the strides of the contracts below are positive: the temporary's base is its memory)
    vc_reset(vc::SPEC);
    add_pairs<N>(first, o, b);
    add_pairs<N>(y.base(), p, a);
    if (id == 0) vc_ensures(x.base() == first, "the temporary's memory is taken over");
    else add_pairs<N>(x.base(), first, b);
    vc_same(vc::MCTOR, vc::SPEC, "each element is moved to the same index of the other array");
  }
}
CONTRACT(P15_swap0_uneq) { swaps_uneq<S0>(2); }
CONTRACT(P15_swapD1_uneq) { swaps_uneq<D1>(1); }
CONTRACT(P15_swapD1_uneq_same) { swaps_uneq<D1>(2); }

// ---- reshape keeps the allocator
template <class A> void reshaped() {
  shapes<S1> q(false);
  long id = anyid("id");
  forget();
  array<L, S1, A> x(q.a.s, A(id));
  x.reshape(q.b.s);
  vc_ensures(x.get_allocator().id == id, "reshape keeps the allocator");
  vc_ensures(is(x.shape(), q.b.mn, q.b.ex, q.b.st), "the shape is the given one");
  vc::none(vc::CCTOR, "nothing is copied"), vc::none(vc::ASSIGN, "nothing is copied");
}
CONTRACT(P15_reshape1) { reshaped<A000>(); }
CONTRACT(P15_reshape1_prop) { reshaped<A111>(); }

// ---- the allocator given is the allocator used
CONTRACT(P15_allocators) {
  vc::arb<S1> a;
  long id = anyid("id"), to = anyid("to");
  forget();
  const L& v = *(const L*)vc_region("v");
  array<L, S1, A000> x(a.s, A000(id)), y(a.s, v, A000(id)), z((A000(id)));
  vc_ensures((x.get_allocator().id == id) & (y.get_allocator().id == id) & (z.get_allocator().id == id), "construction uses the given allocator");
  auto m = make_array<L>(a.s, A000(id));
  vc_ensures((m.get_allocator().id == id) & is(m.shape(), a.mn, a.ex, a.st), "make_array uses the given allocator");
}
// make_copy and make_move, in a new allocation.
template <class A> void makes(bool mv, long lo, long hi) {
  vc::arb<S1> a;
  long id = anyid("id"), to = vc_range("to", lo, hi);
  forget();
  array<L, S1, A> x(a.s, A(id));
  const L* p = x.base();
  from_here();
  auto c = mv ? make_move(x, a.s, A(to)) : make_copy(x, A(to));
  vc_ensures(c.get_allocator().id == to, "make_copy and make_move use the given allocator");
  vc_ensures(is(c.shape(), a.mn, a.ex, a.st), "the shape is that of the source");
  if (!mv) {
    vc::pairs<1>(vc::ASSIGN, c.base(), a.st, p, a.st, a.ex, 1, "each element is a copy of the element at the same index");
    vc::none(vc::MASSIGN, "the source is not moved from");
  } else {
    vc::pairs<1>(vc::MASSIGN, c.base(), a.st, p, a.st, a.ex, 1, "each element is moved from the element at the same index");
    vc::none(vc::ASSIGN, "nothing is copied");
  }
}
CONTRACT(P15_make_copy) { makes<A010>(false, 0, 2); }
CONTRACT(P15_make_move) { makes<A010>(true, 0, 2); }
CONTRACT(P15_make_copy_default) { makes<A000>(false, 0, 0); }
CONTRACT(P15_make_move_default) { makes<A000>(true, 0, 0); }
// An allocator that does not propagate and is not the default one.
CONTRACT(P15_make_copy_alloc) {
  vc::arb<S1> a(1);
  forget();
  array<L, S1, A000> x(a.s, A000(1));
  auto c = make_copy(x, A000(2));
  vc_ensures(c.get_allocator().id == 2, "make_copy allocates with an allocator that does not propagate");
}
CONTRACT(P15_make_move_alloc) {
  vc::arb<S1> a(1);
  forget();
  array<L, S1, A000> x(a.s, A000(1));
  auto c = make_move(x, a.s, A000(2));
  vc_ensures(c.get_allocator().id == 2, "make_move allocates with an allocator that does not propagate");
}

// make_move and make_compact_move of an array that is given up: the memory is taken over when it can be.
template <class S> void make_moves(bool same, bool compact) {
  shapes<S> q(same, 1);
  const auto& a = q.a;
  long id = anyid("id"), to = anyid("to");
  forget();
  array<L, S, A000> x(a.s, A000(id));
  const L* p = x.base();
  REQUIRES((q.b.mn[0] >= a.mn[0]) & (q.b.mn[0] + q.b.ex[0] <= a.mn[0] + a.ex[0]));
  from_here();
  auto y = make_move(std::move(x), q.b.s, A000(to));
  vc_ensures(is(y.shape(), q.b.mn, q.b.ex, q.b.st), "the result has the given shape");
  vc::none(vc::CCTOR, "nothing is copied"), vc::none(vc::ASSIGN, "nothing is copied");
  if (same & (id == to) & (id == 0)) {
    vc_ensures(y.base() == p, "the same shape and allocator: the memory is taken over");
    vc::none(vc::DCTOR, "no element is touched"), vc::none(vc::MASSIGN, "no element is touched");
  }
}
CONTRACT(P15_make_move_same) { make_moves<S1>(true, false); }
CONTRACT(P15_make_move_other) { make_moves<D1>(false, false); }
// "the other array becomes a default constructed array": also when a default constructed array has elements.
CONTRACT(P15_moved_from_static) {
  forget();
  array<L, shape<dim<0, 3, 1>>, A000> x;
  array<L, shape<dim<0, 3, 1>>, A000> y(std::move(x));
  vc_ensures(x.base() != nullptr, "the source becomes a default constructed array, with the elements of its shape");
}
