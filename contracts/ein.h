// Elements whose combinations remember which elements, in which operations, they came from.
#ifndef VC_EIN_H
#define VC_EIN_H
#include "common.h"
#include "array/ein_reduce.h"

namespace ev {
static long calls;  // evaluations so far
enum { ADD = 1, SUB, MUL, DIV, NEG, SET, ADDTO, SUBTO, MULTO, LEAF = 10 };

struct val {
  long code;
  int n;
  const void* p[3];
};
struct V {
  V() {}
  V(const V&) {}
  inline V& operator=(const V& o);
  inline V& operator=(const val& o);
  template <class T> inline V& operator+=(const T& o);
  template <class T> inline V& operator-=(const T& o);
  template <class T> inline V& operator*=(const T& o);
};
inline val of(const V& v) { return {LEAF, 1, {&v, nullptr, nullptr}}; }
inline val of(const val& v) { return v; }
inline val join(long op, const val& a, const val& b) {
  val r{op * 10000 + a.code * 100 + b.code, a.n + b.n, {a.p[0], a.n > 1 ? a.p[1] : b.p[0], a.n > 2 ? a.p[2] : a.n > 1 ? b.p[0] : b.p[1]}};
  return r;
}
inline void record(long op, const V* r, const val& v) {
  long t[10] = {op * 1000000 + v.code, vc_rid(r), vc_off(r)};
  long k = 3;
  for (int i = 0; i < v.n; i++) t[k++] = vc_rid(v.p[i]), t[k++] = vc_off(v.p[i]);
  t[k++] = calls;
  vc_visit(vc::VISIT, k, t);
  calls++;
}
inline V& V::operator=(const V& o) { record(SET, this, of(o)); return *this; }
inline V& V::operator=(const val& o) { record(SET, this, o); return *this; }
template <class T> inline V& V::operator+=(const T& o) { record(ADDTO, this, of(o)); return *this; }
template <class T> inline V& V::operator-=(const T& o) { record(SUBTO, this, of(o)); return *this; }
template <class T> inline V& V::operator*=(const T& o) { record(MULTO, this, of(o)); return *this; }
template <class T> using element = std::enable_if_t<std::is_same<T, V>::value || std::is_same<T, val>::value>;
template <class A, class B, class = element<A>, class = element<B>> val operator+(const A& a, const B& b) { return join(ADD, of(a), of(b)); }
template <class A, class B, class = element<A>, class = element<B>> val operator-(const A& a, const B& b) { return join(SUB, of(a), of(b)); }
template <class A, class B, class = element<A>, class = element<B>> val operator*(const A& a, const B& b) { return join(MUL, of(a), of(b)); }
template <class A, class B, class = element<A>, class = element<B>> val operator/(const A& a, const B& b) { return join(DIV, of(a), of(b)); }
template <class A, class = element<A>> val operator-(const A& a) { return {NEG * 10000 + of(a).code, of(a).n, {of(a).p[0], of(a).p[1], of(a).p[2]}}; }
constexpr long code(long op, long a = LEAF, long b = LEAF) { return op * 10000 + a * 100 + b; }

// One operand: the memory, and for each of its dimensions the loop index, min and stride.
struct opd {
  const void* p;
  size_t n;
  size_t ix[4];
  long mn[4], st[4];
};
template <size_t... I, class S> opd operand(const void* p, const vc::arb<S>& a) {
  opd o{p, sizeof...(I), {I...}, {}, {}};
  for (size_t d = 0; d < sizeof...(I); d++) o.mn[d] = a.mn[d], o.st[d] = a.st[d];
  return o;
}
inline opd scalar(const void* p) { return {p, 0, {}, {}, {}}; }

// The evaluations of the loops mn, ex (index 0 innermost) over the operands (the result first), each once, in order.
template <size_t N, size_t M> void evaluated(long op, const opd (&o)[M], const long* mn, const long* ex) {
  constexpr size_t A = 2 * M + 2;
  long base[A], dims[N * (A + 1) + 1];
  base[0] = op;
  for (size_t m = 0; m < M; m++) {
    base[1 + 2 * m] = vc_rid(o[m].p);
    base[2 + 2 * m] = vc_off(o[m].p);
    for (size_t k = 0; k < o[m].n; k++) base[2 + 2 * m] += (mn[o[m].ix[k]] - o[m].mn[k]) * o[m].st[k];
  }
  base[A - 1] = 0;
  long w = 1;
  for (size_t d = 0; d < N; d++) {
    long* v = dims + d * (A + 1);
    v[0] = ex[d], v[1] = 0;
    for (size_t m = 0; m < M; m++) {
      v[2 + 2 * m] = 0, v[3 + 2 * m] = 0;
      for (size_t k = 0; k < o[m].n; k++) if (o[m].ix[k] == d) v[3 + 2 * m] += o[m].st[k];
    }
    v[A] = w;
    w *= ex[d];
  }
  vc_reset(vc::SPEC);
  vc_box(vc::SPEC, 1, A, N, base, dims);
  vc_same(vc::VISIT, vc::SPEC, "the expression is evaluated once for each combination of the loop indices, in order, on the elements they address");
  vc_ensures(calls == w, "the number of evaluations is the product of the extents");
}
inline V* mem(const char* n) { return (V*)vc_region(n); }
// dimension d of an operand has the bounds of dimension e of another one
template <class S, class T> bool agree(const vc::arb<S>& a, size_t d, const vc::arb<T>& b, size_t e) { return (a.mn[d] == b.mn[e]) & (a.ex[d] == b.ex[e]); }
// dimension d of a contains the bounds of dimension e of b
template <class S, class T> bool contains(const vc::arb<S>& a, size_t d, const vc::arb<T>& b, size_t e) { return (a.mn[d] <= b.mn[e]) & (b.mn[e] + b.ex[e] <= a.mn[d] + a.ex[d]); }

constexpr long EX = 1L << 12;
enum { i = 0, j = 1, k = 2 };
template <class S, class E = V> struct arr : vc::arb<S> {
  V* p;
  array_ref<E, S> r;
  arr(const char* m, const char* mn, const char* ex, const char* st, long lo = 0, long hi = EX) : vc::arb<S>(lo, hi, mn, ex, st), p(mem(m)), r(p, this->s) {}
};
template <class S> struct res : arr<S> { res(long lo = 0, long hi = EX) : arr<S>("R", "rmin", "rextent", "rstride", lo, hi) {} };
template <class S> struct opa : arr<S, const V> { opa(long lo = 0, long hi = EX) : arr<S, const V>("A", "amin", "aextent", "astride", lo, hi) {} };
template <class S> struct opb : arr<S, const V> { opb(long lo = 0, long hi = EX) : arr<S, const V>("B", "bmin", "bextent", "bstride", lo, hi) {} };
// Result dimensions whose stride is 0 are taken for loop indices that the result does not have (and must match exactly).
template <class S> void moving(const vc::arb<S>& r) { for (size_t d = 0; d < S::rank(); d++) vc_requires(r.st[d] != 0); }
constexpr long op1(long set) { return set * 1000000 + LEAF; }
constexpr long op2(long set, long c) { return set * 1000000 + c; }
// Is the result without a dimension of stride 0, or does it agree with the operands?
template <class S, class T> bool fine(const vc::arb<S>& r, size_t d, const vc::arb<T>& a, size_t e) { return (r.st[d] != 0 ? contains(a, e, r, d) : agree(a, e, r, d)); }
}  // namespace ev
#endif
