// Elements and allocators whose lifetime operations are recorded.
#ifndef VC_LIFE_H
#define VC_LIFE_H
#include "common.h"

namespace life {
constexpr long MADE = 20, GONE = 21;  // objects constructed / destroyed, by whatever operation
static bool made, gone;               // has anything been constructed / destroyed since the last mark()
static long released;                 // the memory released last
static bool any;                      // has memory been allocated since the last mark()
static const void* first;             // the memory allocated first since the last mark()
static long full;                     // memory whose objects are live: none may be constructed in it before it is emptied
inline void mark() { made = gone = any = false, released = full = -1; }
inline void mark(const void* live) { mark(); full = vc_rid(live); }

// An element: constructions and destructions are recorded twice, by kind and in total.
struct L {
  L() { up(); vc_touch1(vc::DCTOR, this); }
  L(const L& o) { up(); vc_touch2(vc::CCTOR, this, &o); }
  L(L&& o) { up(); vc_touch2(vc::MCTOR, this, &o); }
  L& operator=(const L& o) { vc_touch2(vc::ASSIGN, this, &o); return *this; }
  L& operator=(L&& o) { vc_touch2(vc::MASSIGN, this, &o); return *this; }
  ~L() {
    vc_ensures(vc_rid(this) != released, "objects are destroyed before their memory is released");
    gone = true;
    vc_touch1(GONE, this);
    vc_touch1(vc::DTOR, this);
  }
  void up() {
    vc_ensures(vc_rid(this) != released, "objects are not constructed in released memory");
    vc_ensures((vc_rid(this) != full) | gone, "objects are destroyed before others are constructed in their place");
    made = true;
    vc_touch1(MADE, this);
  }
};

// An allocator with an identity and arbitrary propagation rules.
template <class T, bool CopyA, bool MoveA, bool Swap>
struct alloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, CopyA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, MoveA>;
  using propagate_on_container_swap = std::integral_constant<bool, Swap>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = alloc<U, CopyA, MoveA, Swap>; };
  long id;
  alloc() : id(0) {}
  explicit alloc(long id) : id(id) {}
  alloc select_on_container_copy_construction() const { return alloc(id + 1000); }
  T* allocate(size_t n) {
    T* p = (T*)vc_region("heap");
    if (!any) first = p;
    any = true;
    vc::visit(vc::ALLOC, vc_rid(p), vc_off(p), (long)n, id);
    return p;
  }
  void deallocate(T* p, size_t n) {
    released = vc_rid(p);
    vc::visit(vc::FREE, vc_rid(p), vc_off(p), (long)n, id);
  }
  friend bool operator==(const alloc& a, const alloc& b) { return a.id == b.id; }
  friend bool operator!=(const alloc& a, const alloc& b) { return a.id != b.id; }
};
using A0 = alloc<L, false, false, false>;

// After every array is gone: each object was destroyed as often as constructed, and the memory returned.
inline void balanced() {
  vc_same(MADE, GONE, "each object constructed is destroyed once");
  vc_same(vc::ALLOC, vc::FREE, "each allocation is returned once, same pointer and size, to an equal allocator");
}
// From here on what happens is told apart from what happened before; the totals go on.
inline void from_here() {
  vc_reset(vc::DCTOR), vc_reset(vc::CCTOR), vc_reset(vc::MCTOR), vc_reset(vc::ASSIGN), vc_reset(vc::MASSIGN), vc_reset(vc::DTOR);
  mark();
}
inline void from_here(const void* live) { from_here(), mark(live); }
inline void forget() {
  from_here();
  vc_reset(MADE), vc_reset(GONE), vc_reset(vc::ALLOC), vc_reset(vc::FREE);
}
inline void untouched(const char* what) {
  vc::none(vc::DCTOR, what), vc::none(vc::CCTOR, what), vc::none(vc::MCTOR, what), vc::none(vc::ASSIGN, what), vc::none(vc::MASSIGN, what);
  vc_ensures(!made & !gone, what);
}

template <class S, size_t... Is> bool is(const S& s, const long* mn, const long* ex, const long* st, vc::index_sequence<Is...>) {
  bool r = true;
  int u[] = {0, (r = r & (s.template dim<Is>().min() == mn[Is]) & (s.template dim<Is>().extent() == ex[Is]) & (s.template dim<Is>().stride() == st[Is]), 0)...};
  (void)u;
  return r;
}
template <class S> bool is(const S& s, const long* mn, const long* ex, const long* st) { return is(s, mn, ex, st, vc::make_index_sequence<S::rank()>()); }
}  // namespace life
#endif
