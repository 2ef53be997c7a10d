// The contract language.  Contracts are functions C_<name>() that draw arbitrary inputs, state preconditions,
// call the real functions of /repo/include/array and state postconditions.  The same text is (1) compiled to LLVM IR
// together with the real headers and verified for all inputs by engine/, and (2) compiled natively to replay
// counterexamples on the real code.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <array>
#include <tuple>
#include <utility>
#include <type_traits>

extern "C" {
long vc_range(const char* name, long lo, long hi);            // arbitrary integer in [lo, hi]
long vc_rangei(const char* name, long i, long lo, long hi);   // the same, named name+i
bool vc_bool(const char* name);                               // arbitrary boolean input
bool vc_any();                                                // arbitrary result of an uninterpreted operation
void vc_requires(bool);                                       // precondition
void vc_ensures(bool, const char* name);                      // postcondition (named obligation)
void vc_abort_if(bool);                                       // from here on an assert may fail only if this holds
void vc_mode(long);                                           // 0: merge equal paths, 1: merge all, 2: never merge
void* vc_region(const char* name);                            // fresh element memory (unbounded in both directions)
long vc_rid(const void*);                                     // identity of the object a pointer points into
long vc_off(const void*);                                     // byte offset in that object
void vc_visit(long tag, long n, const long* v);               // ghost: record the tuple v in multiset tag
void vc_touch1(long tag, const void* p);                      // ghost: record (rid(p), off(p))
void vc_touch2(long tag, const void* p, const void* q);
void vc_box(long tag, long count, long arity, long nd, const long* base, const long* dims);  // ghost: add a box of tuples
void vc_same(long tag_a, long tag_b, const char* name);       // postcondition: equal multisets
void vc_reset(long tag);
void vc_readonly(const void* p, long n);                      // from here on the n bytes at p, the allocations, the element memory and the globals that exist are not written (p null: no longer)
}

#ifdef VC_NATIVE
extern "C" void vc_register(const char* name, void (*fn)());
#define CONTRACT(name)                                                                                   \
  extern "C" void C_##name();                                                                            \
  static struct R_##name { R_##name() { vc_register(#name, C_##name); } } r_##name;                      \
  extern "C" void C_##name()
#else
#define CONTRACT(name) extern "C" void C_##name()
#endif
// A contract of the thorough tier only.
#if VC_TIER
#define CONTRACT_T(name) CONTRACT(name)
#else
#define CONTRACT_T(name) static inline void T_##name()
#endif

#define ENSURES(...) vc_ensures((__VA_ARGS__), #__VA_ARGS__)
#define REQUIRES(c) vc_requires(c)

namespace vc {

// An element: empty, so that every access to one goes through these operations.
enum tag { VISIT = 1, SPEC = 2, ASSIGN = 3, CTOR = 4, DTOR = 5, CMP = 6, READ = 7, MASSIGN = 8, DCTOR = 9, CCTOR = 10, MCTOR = 11, ALLOC = 12, FREE = 13, VCTOR = 14 };

// Dimension parameters of an arbitrary shape of rank N.
template <size_t N>
struct dims {
  long mn[N + 1], ex[N + 1], st[N + 1];
};

constexpr long B = 1L << 14;

template <size_t N>
inline dims<N> any_dims(long exlo = 0, long exhi = B, long stb = 1L << 20) {
  dims<N> r;
  for (size_t d = 0; d < N; d++) {
    r.mn[d] = vc_rangei("min", d, -B, B);
    r.ex[d] = vc_rangei("extent", d, exlo, exhi);
    r.st[d] = vc_rangei("stride", d, -stb, stb);
  }
  return r;
}

template <class... X>
inline void visit(long tag, X... x) {
  long v[] = {(long)x..., 0};
  vc_visit(tag, sizeof...(X), v);
}

// The set of addresses p + sum i_d * st_d, 0 <= i_d < ex_d.
template <size_t N>
inline void box1(long tag, const void* p, const long (&ex)[N + 1], const long (&st)[N + 1], long count = 1) {
  long base[2] = {vc_rid(p), vc_off(p)};
  long v[N * 3 + 1];
  for (size_t d = 0; d < N; d++) {
    v[d * 3] = ex[d];
    v[d * 3 + 1] = 0;
    v[d * 3 + 2] = st[d];
  }
  vc_box(tag, count, 2, N, base, v);
}
// Pairs of addresses.
template <size_t N>
inline void box2(long tag, const void* p, const long (&stp)[N + 1], const void* q, const long (&stq)[N + 1], const long (&ex)[N + 1], long count = 1) {
  long base[4] = {vc_rid(p), vc_off(p), vc_rid(q), vc_off(q)};
  long v[N * 5 + 1];
  for (size_t d = 0; d < N; d++) {
    v[d * 5] = ex[d];
    v[d * 5 + 1] = 0;
    v[d * 5 + 2] = stp[d];
    v[d * 5 + 3] = 0;
    v[d * 5 + 4] = stq[d];
  }
  vc_box(tag, count, 4, N, base, v);
}

}  // namespace vc
#endif
