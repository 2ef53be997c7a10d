// ASSUME: the base allocator of the array contracts is a specialisation of std::allocator for the element type (the comparison of auto_allocators only accepts std::allocator as the other base).
#include "life.h"
using namespace life;

// The base allocator of arrays of L: std::allocator, instrumented.
namespace std {
template <> class allocator<life::L> : public life::alloc<life::L, false, true, false> {
public:
  using is_always_equal = std::true_type;
  template <class U> struct rebind { using other = allocator<U>; };
  allocator() {}
  template <class U> allocator(const allocator<U>&) {}
};
}
// An element with a size and an alignment.
struct alignas(8) W { long w[3]; };
using BA = alloc<W, false, false, false>;
constexpr size_t N0 = 6;

// An allocator in an arbitrary state (private members are accessible to the contracts).
template <class A> struct state {
  A a;
  bool used;
  state(const char* n) : used(vc_bool(n)) { a.allocated = used; }
};
template <class A> bool self(const A& a, const void* p) { return (vc_rid(p) == vc_rid(&a)) & (vc_off(p) >= vc_off(&a)) & (vc_off(p) <= vc_off(&a) + (long)sizeof(A)); }

template <class T, size_t N, size_t Al, class B> void allocates() {
  state<auto_allocator<T, N, Al, B>> s("used");
  s.a.alloc.id = vc_range("id", 0, 2);
  long n = vc_range("n", 0, vc::B);
  forget();
  T* p = s.a.allocate(n);
  bool fits = !s.used & (n <= (long)N);
  if (fits) {
    vc_ensures((const void*)p == (const void*)&s.a.buffer[0], "a request that fits gets the free buffer");
    vc_ensures(s.a.allocated, "the buffer is then in use");
    vc::none(vc::ALLOC, "the base allocator is left alone");
    vc_ensures((vc_off(p) - vc_off(&s.a)) % (long)(Al > alignof(T) ? Al : alignof(T)) == 0 && alignof(decltype(s.a)) >= Al, "the buffer has the alignment asked for");
    vc_ensures(vc_off(p) + N * sizeof(T) <= vc_off(&s.a) + sizeof(s.a), "the buffer has room for N elements");
    vc_ensures(((const char*)&s.a.alloc >= (const char*)p + N * sizeof(T)) | ((const char*)&s.a.alloc + sizeof(B) <= (const char*)p), "the buffer and the allocator's state are apart");
    vc_ensures(((const char*)&s.a.allocated >= (const char*)p + N * sizeof(T)) | ((const char*)&s.a.allocated < (const char*)p), "the buffer and the allocator's state are apart");
  } else {
    vc_ensures(!self(s.a, p), "any other request gets memory of the base allocator");
    vc_reset(vc::SPEC), vc::visit(vc::SPEC, vc_rid(p), vc_off(p), n, s.a.alloc.id);
    vc_same(vc::ALLOC, vc::SPEC, "the base allocator is asked once, for as many elements");
    vc_ensures(s.a.allocated == s.used, "the buffer stays as it was");
  }
  vc::none(vc::FREE, "nothing is returned");
}
CONTRACT(P22_allocate) { allocates<W, N0, 8, BA>(); }
CONTRACT(P22_allocate_aligned) { allocates<W, 3, 64, BA>(); }
CONTRACT(P22_allocate_small) { allocates<W, 1, 8, BA>(); }

// What was allocated is freed, and nothing else.
template <class T, size_t N, size_t Al, class B> void deallocates(bool own) {
  auto_allocator<T, N, Al, B> a;
  a.alloc.id = vc_range("id", 0, 2);
  long n = vc_range("n", 0, vc::B), m = vc_range("m", 0, vc::B);
  vc_ensures(!a.allocated, "the buffer of a new allocator is free");
  forget();
  T *p, *q;
  if (own) {
    // the buffer first, then memory of the base
    REQUIRES(n <= (long)N);
    p = a.allocate(n), q = a.allocate(m);
    vc_ensures(!self(a, q), "the buffer is not given out twice");
    bool first = vc_bool("first");
    if (first) a.deallocate(p, n);
    vc_ensures(a.allocated == !first, "the buffer is free again when it was returned");
    if (first) vc::none(vc::FREE, "the base allocator is left alone");
    a.deallocate(q, m);
    vc_ensures(a.allocated == !first, "returning other memory leaves the buffer as it was");
    vc_same(vc::ALLOC, vc::FREE, "memory of the base goes back to the base, with its size");
    if (!first) a.deallocate(p, n);
    vc_ensures(!a.allocated, "the buffer is free again when it was returned");
    vc_same(vc::ALLOC, vc::FREE, "memory of the base goes back to the base, with its size");
    vc_ensures((const void*)a.allocate(n) == (const void*)&a.buffer[0], "a buffer that was returned is given out again");
  } else {
    // memory of the base first
    REQUIRES(n > (long)N);
    p = a.allocate(n);
    vc_ensures(!self(a, p) & !a.allocated, "a request that does not fit leaves the buffer free");
    q = a.allocate(m);
    vc_ensures(((const void*)q == (const void*)&a.buffer[0]) == (m <= (long)N), "the buffer is given out when it fits");
    a.deallocate(p, n);
    vc_ensures(a.allocated == (m <= (long)N), "returning other memory leaves the buffer as it was");
    a.deallocate(q, m);
    vc_ensures(!a.allocated, "the buffer is free again when it was returned");
    vc_same(vc::ALLOC, vc::FREE, "memory of the base goes back to the base, with its size");
  }
}
CONTRACT(P22_deallocate_own) { deallocates<W, N0, 8, BA>(true); }
CONTRACT(P22_deallocate_base) { deallocates<W, N0, 8, BA>(false); }

// Returning the buffer of an allocator that is not using it is a mistake that is caught.
CONTRACT(P22_deallocate_twice) {
  state<auto_allocator<W, N0, 8, BA>> s("used");
  long n = vc_range("n", 0, N0);
  vc_abort_if(!s.used);
  s.a.deallocate((W*)&s.a.buffer[0], n);
  vc_ensures(s.used & !s.a.allocated, "the buffer is free again when it was returned");
}

// Copies and moves: the base allocator is taken along, the buffer is not, and the source keeps its own.
CONTRACT(P22_copies) {
  using A = auto_allocator<W, N0, 8, BA>;
  state<A> s("used");
  long id = vc_range("id", 0, 2);
  s.a.alloc.id = id;
  A c(s.a);
  vc_ensures(!c.allocated & (c.alloc.id == id), "a copy has the base allocator, and a free buffer of its own");
  A m(std::move(c));
  vc_ensures(!m.allocated & (m.alloc.id == id), "a moved allocator has the base allocator, and a free buffer of its own");
  vc_ensures((s.a.allocated == s.used) & (s.a.alloc.id == id), "the source is left alone");
  A d = A::select_on_container_copy_construction(s.a);
  vc_ensures(!d.allocated, "the allocator of a copied array has a free buffer");
  auto_allocator<long, 3> other((const A&)s.a);
  vc_ensures(!other.allocated, "a converted allocator has a free buffer");
  long n = vc_range("n", 0, N0);
  W *p = c.allocate(n), *q = m.allocate(n);
  vc_ensures(((const void*)p == (const void*)&c.buffer[0]) & ((const void*)q == (const void*)&m.buffer[0]) & ((const void*)p != (const void*)q), "each has its own buffer");
}
CONTRACT(P22_copy_used) {
  using A = auto_allocator<W, N0, 8, BA>;
  state<A> s("used");
  s.a.alloc.id = vc_range("id", 0, 2);
  A m(std::move(s.a));
  vc_ensures(!m.allocated, "a moved allocator has a free buffer of its own");
  vc_ensures(s.a.allocated == s.used, "the source keeps its buffer");
}
CONTRACT(P22_assign) {
  using A = auto_allocator<W, N0, 8, BA>;
  state<A> s("used"), d("dused");
  long id = vc_range("id", 0, 2);
  s.a.alloc.id = id;
  d.a.alloc.id = vc_range("did", 0, 2);
  if (vc_bool("move")) d.a = std::move(s.a); else d.a = s.a;
  vc_ensures((d.a.allocated == d.used) & (s.a.allocated == s.used), "assignment leaves both buffers as they were");
  vc_ensures(d.a.alloc.id == id, "assignment takes the base allocator along");
  d.a = *&d.a;
  vc_ensures((d.a.allocated == d.used) & (d.a.alloc.id == id), "self assignment changes nothing");
}
static_assert(!std::allocator_traits<auto_allocator<W, 3>>::propagate_on_container_copy_assignment::value, "");
static_assert(!std::allocator_traits<auto_allocator<W, 3>>::propagate_on_container_move_assignment::value, "");
static_assert(!std::allocator_traits<auto_allocator<W, 3>>::propagate_on_container_swap::value, "");

// Equality: with a buffer in use, only of an allocator with itself.
template <class A, class C> void equal() {
  state<A> s("used");
  state<C> d("dused");
  bool none = !s.used & !d.used;
  vc_ensures((s.a == d.a) == none, "two allocators are equal only when neither uses its buffer");
  vc_ensures((s.a != d.a) == !none, "two allocators are equal only when neither uses its buffer");
}
CONTRACT(P22_equal) { equal<auto_allocator<W, N0>, auto_allocator<W, N0>>(); }
CONTRACT(P22_equal_sizes) { equal<auto_allocator<W, N0>, auto_allocator<W, 2>>(); }
CONTRACT(P22_equal_self) {
  state<auto_allocator<W, N0>> s("used");
  const auto_allocator<W, N0>& c = s.a;
  vc_ensures((s.a == c) & !(s.a != c), "an allocator is equal to itself");
}

// ---- arrays
using Au = auto_allocator<L, N0>;
template <class S> long count(const vc::arb<S>& a) {
  long n = 1;
  for (size_t d = 0; d < S::rank(); d++) n *= a.ex[d];
  return n;
}
// The memory of an array: its own buffer when the elements fit, and never another array's.
template <class Y> void own(const Y& y, long n) {
  if (n > 0) {
    vc_ensures(((const void*)y.base() == (const void*)&y.alloc_.buffer[0]) == (n <= (long)N0), "elements that fit are in the array's own buffer, others are not");
    if (n > (long)N0) vc_ensures(!self(y, y.base()), "elements that do not fit are in memory of the base allocator");
  }
  vc_ensures(y.alloc_.allocated == ((n > 0) & (n <= (long)N0)), "the buffer is in use exactly when it has the elements");
}
template <class S> void constructs(long lo, long hi) {
  vc::arb<S> a(lo, hi);
  long n = count(a);
  if (S::rank() > 1) REQUIRES(a.st[1] == a.ex[0]);
  forget();
  {
    array<L, S, Au> x(a.s);
    own(x, n);
    vc::each<S::rank()>(vc::DCTOR, x.base(), a.st, a.ex, "each element is constructed once");
  }
  balanced();
}
CONTRACT(P22_construct_small) { constructs<D1>(1, N0); }
CONTRACT(P22_construct_large) { constructs<D1>(N0 + 1, vc::B); }
CONTRACT(P22_construct_empty) { constructs<D1>(0, 0); }
CONTRACT(P22_construct2) { constructs<D2>(1, 2); }

// how: 0 copy construction, 1 move construction, 2 copy assignment, 3 move assignment
template <class S> void transfers(int how, long lo, long hi, long lob = 0, long hib = 0) {
  vc::arb<S> a(lo, hi);
  long n = count(a);
  vc::arb<S> b(lob, hib, "nmin", "nextent", "nstride");
  if (how > 1 && lob == lo) REQUIRES(a.ex[0] != b.ex[0]);
  forget();
  {
    array<L, S, Au> x(a.s);
    const L* p = x.base();
    bool mv = how & 1;
    auto check = [&](const array<L, S, Au>& y) {
      own(y, n);
      vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the result has the same shape");
      vc_ensures((y.base() != p) | (mv & (n > (long)N0)), "no array adopts another's buffer");
      if (mv && n > (long)N0) {
        vc_ensures(y.base() == p, "memory of the base allocator is taken over");
        vc_ensures(x.base() != p, "memory that was taken over has one owner");
        vc::none(vc::MCTOR, "no element is touched"), vc::none(vc::CCTOR, "no element is touched");
      } else {
        vc::pairs<S::rank()>(mv ? vc::MCTOR : vc::CCTOR, y.base(), a.st, p, a.st, a.ex, 1, "each element is constructed from the element at the same index");
        own(x, n);
        vc_ensures(x.base() == p, "the source keeps its memory");
      }
    };
    from_here();
    if (how == 0) { array<L, S, Au> y(x); check(y); }
    if (how == 1) { array<L, S, Au> y(std::move(x)); check(y); }
    if (how >= 2) {
      array<L, S, Au> y(b.s);
      const L* o = y.base();
      from_here();
      if (how == 2) y = x; else y = std::move(x);
      if (!(how == 3 && n > (long)N0 && b.ex[0] > 0 && b.ex[0] <= (long)N0)) check(y);
      else {
        // y's buffer was in use, so the allocators were not equal
        vc_ensures(is(y.shape(), a.mn, a.ex, a.st), "the result has the same shape");
        vc_ensures(!self(y, y.base()) & !self(x, y.base()), "elements that do not fit are in memory of the base allocator");
        vc::pairs<S::rank()>(vc::MCTOR, y.base(), a.st, p, a.st, a.ex, 1, "each element is constructed from the element at the same index");
        vc_ensures(!y.alloc_.allocated, "the buffer is in use exactly when it has the elements");
      }
    }
  }
  balanced();
}
CONTRACT(P22_copy_small) { transfers<D1>(0, 1, N0); }
CONTRACT(P22_copy_large) { transfers<D1>(0, N0 + 1, vc::B); }
CONTRACT(P22_move_small) { transfers<D1>(1, 1, N0); }
CONTRACT(P22_move_large) { transfers<D1>(1, N0 + 1, vc::B); }
CONTRACT(P22_copyto_ss) { transfers<D1>(2, 1, N0, 1, N0); }
CONTRACT(P22_copyto_ls) { transfers<D1>(2, N0 + 1, vc::B, 1, N0); }
CONTRACT(P22_copyto_sl) { transfers<D1>(2, 1, N0, N0 + 1, vc::B); }
CONTRACT(P22_copyto_ll) { transfers<D1>(2, N0 + 1, vc::B, N0 + 1, vc::B); }
CONTRACT(P22_moveto_ss) { transfers<D1>(3, 1, N0, 1, N0); }
CONTRACT(P22_moveto_ls) { transfers<D1>(3, N0 + 1, vc::B, 1, N0); }
CONTRACT(P22_moveto_sl) { transfers<D1>(3, 1, N0, N0 + 1, vc::B); }
CONTRACT(P22_moveto_ll) { transfers<D1>(3, N0 + 1, vc::B, N0 + 1, vc::B); }
CONTRACT(P22_moveto_le) { transfers<D1>(3, N0 + 1, vc::B, 0, 0); }
CONTRACT(P22_moveto_se) { transfers<D1>(3, 1, N0, 0, 0); }

// Swap: each array ends up with the other's elements, in memory of its own.
template <class S> void swaps(long lo, long hi, long lob, long hib) {
  vc::arb<S> a(lo, hi), b(lob, hib, "nmin", "nextent", "nstride");
  long n = count(a), m = count(b);
  forget();
  {
    array<L, S, Au> x(a.s), y(b.s);
    const L *p = x.base(), *q = y.base();
    from_here();
    swap(x, y);
    vc_ensures(is(y.shape(), a.mn, a.ex, a.st) & is(x.shape(), b.mn, b.ex, b.st), "the shapes are exchanged");
    if ((n > (long)N0) & (m > (long)N0)) {
      vc_ensures((x.base() == q) & (y.base() == p), "memory of the base allocator is exchanged");
      untouched("no element is touched");
    }
    if (n <= (long)N0) own(y, n), vc_ensures(y.base() != p, "no array adopts another's buffer");
    if (m <= (long)N0) own(x, m), vc_ensures((m == 0) | (x.base() != q), "no array adopts another's buffer");
    vc_ensures(!self(y, x.base()) & !self(x, y.base()), "no array adopts another's buffer");
  }
  balanced();
}
CONTRACT(P22_swap_ss) { swaps<D1>(1, N0, 1, N0); }
CONTRACT(P22_swap_sl) { swaps<D1>(1, N0, N0 + 1, vc::B); }
CONTRACT(P22_swap_ll) { swaps<D1>(N0 + 1, vc::B, N0 + 1, vc::B); }
CONTRACT(P22_swap_sn) { swaps<D1>(1, N0, 0, 0); }
