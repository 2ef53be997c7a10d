#include "life.h"
using namespace life;

template <bool C, bool M, bool S> using UA = uninitialized_allocator<alloc<L, C, M, S>>;
using U0 = UA<false, false, false>;
template <class U> U made_of(long id) { U u; u.id = id; return u; }

template <class A> using tr = std::allocator_traits<A>;
template <class B> constexpr bool same_rules() {
  using U = uninitialized_allocator<B>;
  return tr<U>::propagate_on_container_copy_assignment::value == tr<B>::propagate_on_container_copy_assignment::value &&
         tr<U>::propagate_on_container_move_assignment::value == tr<B>::propagate_on_container_move_assignment::value &&
         tr<U>::propagate_on_container_swap::value == tr<B>::propagate_on_container_swap::value &&
         std::is_same<typename tr<U>::value_type, typename tr<B>::value_type>::value;
}
CONTRACT(P23_rules) {
  bool r = same_rules<alloc<L, false, false, false>>() & same_rules<alloc<L, true, false, false>>() & same_rules<alloc<L, false, true, false>>() &
           same_rules<alloc<L, false, false, true>>() & same_rules<alloc<L, true, true, true>>() & same_rules<std::allocator<int>>() & same_rules<auto_allocator<int, 4>>();
  vc_ensures(r, "the allocator propagates exactly when the underlying one does");
  bool s = std::is_same<uninitialized_std_allocator<int>, uninitialized_allocator<std::allocator<int>>>::value &
           std::is_same<uninitialized_auto_allocator<int, 7>, uninitialized_allocator<auto_allocator<int, 7, sizeof(int)>>>::value;
  vc_ensures(s, "the aliases name what they say");
}

// ---- the allocator itself
CONTRACT(P23_allocate) {
  long id = vc_range("id", 0, 2), n = vc_range("n", 0, vc::B), m = vc_range("m", 0, vc::B);
  U0 u = made_of<U0>(id);
  forget();
  L* p = u.allocate(n);
  vc_reset(vc::SPEC), vc::visit(vc::SPEC, vc_rid(p), vc_off(p), n, id);
  vc_same(vc::ALLOC, vc::SPEC, "memory comes from the underlying allocator");
  vc::none(vc::FREE, "nothing is returned");
  L* q = tr<U0>::allocate(u, m);
  u.deallocate(p, n);
  vc_reset(vc::SPEC), vc::visit(vc::SPEC, vc_rid(p), vc_off(p), n, id);
  vc_same(vc::FREE, vc::SPEC, "memory goes back to the underlying allocator, with its size");
  tr<U0>::deallocate(u, q, m);
  vc::visit(vc::SPEC, vc_rid(q), vc_off(q), m, id);
  vc_same(vc::FREE, vc::SPEC, "memory goes back to the underlying allocator, with its size");
  untouched("no element is touched");
}
CONTRACT(P23_construct) {
  U0 u = made_of<U0>(1);
  L* p = (L*)vc_region("p");
  const L& v = *(const L*)vc_region("v");
  forget();
  tr<U0>::construct(u, p);
  untouched("default construction is skipped");
  tr<U0>::construct(u, p, v);
  vc_reset(vc::SPEC), vc_touch2(vc::SPEC, p, &v);
  vc_same(vc::CCTOR, vc::SPEC, "construction from a value is that of the underlying allocator");
  vc::none(vc::MCTOR, "construction from a value is that of the underlying allocator"), vc::none(vc::DCTOR, "construction from a value is that of the underlying allocator");
  vc_reset(vc::SPEC), vc_touch2(vc::SPEC, p, &v);
  tr<U0>::construct(u, p, std::move(const_cast<L&>(v)));
  vc_same(vc::MCTOR, vc::SPEC, "construction from a value given up is that of the underlying allocator");
  vc_same(vc::CCTOR, vc::SPEC, "construction from a value given up is that of the underlying allocator");
  vc::none(vc::DTOR, "nothing is destroyed");
}
// An underlying allocator that constructs in its own way, from any number of arguments.
struct own_way : alloc<long, false, false, false> {
  using base = alloc<long, false, false, false>;
  template <class U> struct rebind { using other = own_way; };
  template <class... A> void construct(long* p, const A&... a) { vc::visit(vc::CTOR, vc_rid(p), vc_off(p), (long)sizeof...(A), (long)a...); }
};
CONTRACT(P23_construct_own) {
  uninitialized_allocator<own_way> u;
  long* p = (long*)vc_region("p");
  long v = vc_range("v", -9, 9), w = vc_range("w", -9, 9);
  vc_reset(vc::CTOR);
  tr<decltype(u)>::construct(u, p);
  vc::none(vc::CTOR, "default construction is skipped");
  tr<decltype(u)>::construct(u, p, v);
  vc_reset(vc::SPEC), vc::visit(vc::SPEC, vc_rid(p), vc_off(p), 1L, v);
  vc_same(vc::CTOR, vc::SPEC, "construction from a value is that of the underlying allocator");
  tr<decltype(u)>::construct(u, p, v, w);
  vc::visit(vc::SPEC, vc_rid(p), vc_off(p), 2L, v, w);
  vc_same(vc::CTOR, vc::SPEC, "construction from values is that of the underlying allocator");
}
CONTRACT(P23_equal) {
  long id = vc_range("id", -vc::B, vc::B), to = vc_range("to", -vc::B, vc::B);
  U0 u = made_of<U0>(id), v = made_of<U0>(to);
  vc_ensures(((u == v) == (id == to)) & ((u != v) == (id != to)), "equal exactly when the underlying allocators are");
  bool f = vc_bool("f"), g = vc_bool("g");
  uninitialized_auto_allocator<long, 3> a, b;
  a.allocated = f, b.allocated = g;
  vc_ensures(((a == b) == (!f & !g)) & ((a != b) == (f | g)), "equal exactly when the underlying allocators are");
  vc_ensures((a == a) & !(a != a), "equal exactly when the underlying allocators are");
}

// ---- arrays
template <class S> void defaults(int how) {
  vc::arb<S> a;
  long id = vc_range("id", 0, 2);
  forget();
  {
    array<L, S, U0> x = how == 0 ? array<L, S, U0>(a.s, made_of<U0>(id)) : array<L, S, U0>(made_of<U0>(id));
    if (how == 1) x.reshape(a.s);
    vc_ensures(is(x.shape(), a.mn, a.ex, a.st), "the array has the shape");
    vc::none(vc::DCTOR, "no element is constructed"), vc::none(MADE, "no element is constructed");
  }
  vc::none(MADE, "no element is constructed");
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
CONTRACT(P23_default0) { defaults<S0>(0); }
CONTRACT(P23_default1) { defaults<S1>(0); }
CONTRACT(P23_defaultD2) { defaults<D2>(0); }
CONTRACT_T(P23_defaultD3) { defaults<D3>(0); }
CONTRACT(P23_defaultM2) { defaults<M2>(0); }
CONTRACT(P23_default_reshape1) { defaults<S1>(1); }

template <class S> void filled(int how, long lo) {
  vc::arb<S> a(lo);
  long id = vc_range("id", 0, 2);
  const L& v = *(const L*)vc_region("v");
  forget();
  {
    array<L, S, U0> x = how == 0 ? array<L, S, U0>(a.s, v, made_of<U0>(id)) : array<L, S, U0>(made_of<U0>(id));
    if (how == 1) x.assign(a.s, v);
    long z[S::rank() + 1] = {0};
    vc::pairs<S::rank()>(vc::CCTOR, x.base(), a.st, &v, z, a.ex, 1, "each element is constructed from the value once");
    vc::none(vc::DCTOR, "nothing else is constructed"), vc::none(vc::MCTOR, "nothing else is constructed");
  }
  // (an array that has elements by default destroys those, which are not constructed, first)
  if (S::rank()) balanced();
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
CONTRACT(P23_fill0) { filled<S0>(0, 0); }
CONTRACT(P23_fill1) { filled<D1>(0, 1); }
CONTRACT(P23_fill2) { filled<D2>(0, 1); }
CONTRACT(P23_assign1) { filled<D1>(1, 1); }

template <class S, class A> void copies(bool mv, bool eq) {
  vc::arb<S> a(1);
  const L& v = *(const L*)vc_region("v");
  long id = vc_range("id", 0, 2), to = vc_range("to", 0, 2);
  REQUIRES((id == to) == eq);
  forget();
  {
    array<L, S, A> x(a.s, v, made_of<A>(id));
    const L* p = x.base();
    from_here();
    array<L, S, A> y = mv ? array<L, S, A>(std::move(x), made_of<A>(to)) : array<L, S, A>(x, made_of<A>(to));
    if (mv & eq) {
      vc_ensures(y.base() == p, "the allocation is taken over");
      untouched("no element is touched");
    } else {
      vc::pairs<S::rank()>(mv ? vc::MCTOR : vc::CCTOR, y.base(), a.st, p, a.st, a.ex, 1, "each element is constructed from the element at the same index");
      vc::none(vc::DCTOR, "nothing else is constructed"), vc::none(mv ? vc::CCTOR : vc::MCTOR, "nothing else is constructed");
    }
  }
  balanced();
}
using UP = UA<false, true, false>;
CONTRACT(P23_copy1) { copies<D1, UP>(false, false); }
CONTRACT(P23_copy2) { copies<D2, UP>(false, true); }
CONTRACT(P23_move1) { copies<D1, UP>(true, false); }
CONTRACT(P23_move1_taken) { copies<D1, UP>(true, true); }
CONTRACT(P23_move2) { copies<D2, UP>(true, false); }
