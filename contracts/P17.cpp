#include "ein.h"
#include "array/matrix.h"
using namespace ev;
using vc::dyn;

// dot product and copies of vectors
CONTRACT(P17_dot) {
  opa<S1> a; opb<S1> b;
  REQUIRES(a.mn[0] == b.mn[0]);
  REQUIRES(a.ex[0] == b.ex[0]);
  res<S0> r;
  calls = 0;
  auto x = ein_reduce(ein<>(array_ref<V, S0>(r.r)) += ein<i>(a.r) * ein<i>(b.r));
  evaluated<1>(ADDTO * 1000000 + code(MUL), {scalar(r.p), operand<0>(a.p, a), operand<0>(b.p, b)}, a.mn, a.ex);
  ENSURES(x.base() == r.p);
}
template <class S, class T> void copy1() {
  res<S> r; opa<T> a;
  moving(r);
  REQUIRES(contains(a, 0, r, 0));
  calls = 0;
  auto x = ein_reduce(ein<i>(r.r) = ein<i>(a.r));
  evaluated<1>(SET * 1000000 + LEAF, {operand<0>(r.p, r), operand<0>(a.p, a)}, r.mn, r.ex);
  ENSURES((x.base() == r.p) & (x.shape() == r.s));
}
CONTRACT(P17_copy1) { copy1<S1, S1>(); }
CONTRACT(P17_copy1_types) { copy1<shape<dim<vc::dyn, 5>>, D1>(); }
CONTRACT(P17_copy1_fixed) { copy1<S1, shape<dim<0, 5, 2>>>(); }

// outer product, transposed copy, row and column sums, broadcasts
template <class R, size_t I = 0, size_t J = 1> void outer() {
  res<R> r; opa<S1> a; opb<D1> b;
  REQUIRES(fine(r, 0, a, 0));
  REQUIRES(fine(r, 1, b, 0));
  calls = 0;
  ein_reduce(ein<I, J>(r.r) -= ein<I>(a.r) * ein<J>(b.r));
  long mn[] = {r.mn[I], r.mn[J]}, ex[] = {r.ex[I], r.ex[J]};
  evaluated<2>(op2(SUBTO, code(MUL)), {operand<I, J>(r.p, r), operand<I>(a.p, a), operand<J>(b.p, b)}, mn, ex);
}
CONTRACT(P17_outer) { outer<S2>(); }
CONTRACT(P17_outer_order) { outer<S2, 1, 0>(); }
CONTRACT(P17_outerD2) { outer<D2>(); }
CONTRACT(P17_outer_matrix) { outer<matrix_shape<>>(); }
template <class R, class A> void transposed() {
  res<R> r; opa<A> a;
  REQUIRES(fine(r, 0, a, 1));
  REQUIRES(fine(r, 1, a, 0));
  calls = 0;
  auto x = ein_reduce(ein<i, j>(r.r) = ein<j, i>(a.r));
  evaluated<2>(op1(SET), {operand<i, j>(r.p, r), operand<j, i>(a.p, a)}, r.mn, r.ex);
  ENSURES((x.base() == r.p) & (x.shape() == r.s));
}
CONTRACT(P17_transpose) { transposed<S2, S2>(); }
CONTRACT(P17_transpose_types) { transposed<D2, matrix_shape<>>(); }
CONTRACT(P17_transpose_fixed) { transposed<shape<dim<>, dim<0, 4>>, shape<dim<dyn, 4>, dense_dim<>>>(); }
template <class A, size_t I, size_t J> void sum1() {
  res<S1> r; opa<A> a;
  REQUIRES(fine(r, 0, a, 0));
  calls = 0;
  ein_reduce(ein<I>(r.r) += ein<I, J>(a.r));
  long mn[2], ex[2];
  mn[I] = r.mn[0], ex[I] = r.ex[0], mn[J] = a.mn[1], ex[J] = a.ex[1];
  evaluated<2>(op1(ADDTO), {operand<I>(r.p, r), operand<I, J>(a.p, a)}, mn, ex);
}
CONTRACT(P17_sum_rows) { sum1<S2, 0, 1>(); }
CONTRACT(P17_sum_rows_inner) { sum1<S2, 1, 0>(); }
CONTRACT(P17_sum_rowsB2) { sum1<B2, 0, 1>(); }
CONTRACT(P17_sum_rowsF2) { sum1<F2, 0, 1>(); }
CONTRACT(P17_sum_all) {
  res<S0> r; opa<S2> a;
  calls = 0;
  ein_reduce(ein(*r.p) += -ein<i, j>(a.r));
  evaluated<2>(op2(ADDTO, NEG * 10000 + LEAF), {scalar(r.p), operand<0, 1>(a.p, a)}, a.mn, a.ex);
}
CONTRACT(P17_broadcast) {
  res<S2> r; opa<S1> a;
  REQUIRES(fine(r, 0, a, 0));
  V s;
  calls = 0;
  ein_reduce(ein<i, j>(r.r) *= ein<i>(a.r) / ein(*r.p));
  evaluated<2>(op2(MULTO, code(DIV)), {operand<0, 1>(r.p, r), operand<0>(a.p, a), scalar(r.p)}, r.mn, r.ex);
}

// matrix-vector and matrix-matrix products
template <size_t I, size_t J> void mat_vec() {
  res<S1> r; opa<S2> a; opb<S1> b;
  REQUIRES(fine(r, 0, a, 0));
  REQUIRES(agree(a, 1, b, 0));
  calls = 0;
  ein_reduce(ein<I>(r.r) += ein<I, J>(a.r) * ein<J>(b.r));
  long mn[2], ex[2];
  mn[I] = r.mn[0], ex[I] = r.ex[0], mn[J] = a.mn[1], ex[J] = a.ex[1];
  evaluated<2>(op2(ADDTO, code(MUL)), {operand<I>(r.p, r), operand<I, J>(a.p, a), operand<J>(b.p, b)}, mn, ex);
}
CONTRACT(P17_mat_vec) { mat_vec<0, 1>(); }
CONTRACT(P17_mat_vec_inner) { mat_vec<1, 0>(); }
template <class R, class A, class B, size_t I, size_t J, size_t K> void mat_mul() {
  res<R> r(0, 1 << 11); opa<A> a(0, 1 << 11); opb<B> b(0, 1 << 11);
  REQUIRES(fine(r, 0, a, 0));
  REQUIRES(fine(r, 1, b, 1));
  REQUIRES(agree(a, 1, b, 0));
  calls = 0;
  ein_reduce(ein<I, J>(r.r) += ein<I, K>(a.r) * ein<K, J>(b.r));
  long mn[3], ex[3];
  mn[I] = r.mn[0], ex[I] = r.ex[0], mn[J] = r.mn[1], ex[J] = r.ex[1], mn[K] = a.mn[1], ex[K] = a.ex[1];
  evaluated<3>(op2(ADDTO, code(MUL)), {operand<I, J>(r.p, r), operand<I, K>(a.p, a), operand<K, J>(b.p, b)}, mn, ex);
}
CONTRACT(P17_mat_mul) { mat_mul<S2, S2, S2, 0, 1, 2>(); }
CONTRACT(P17_mat_mul_kij) { mat_mul<S2, S2, S2, 1, 2, 0>(); }
CONTRACT(P17_mat_mul_ikj) { mat_mul<matrix_shape<>, matrix_shape<>, matrix_shape<>, 2, 0, 1>(); }
CONTRACT(P17_mat_mul_fixed) { mat_mul<matrix_shape<dyn, 4>, D2, matrix_shape<3, 4>, 1, 0, 2>(); }

// diagonal and trace
CONTRACT(P17_diagonal) {
  res<S1> r; opa<S2> a;
  REQUIRES(fine(r, 0, a, 0));
  REQUIRES(contains(a, 1, r, 0));
  calls = 0;
  ein_reduce(ein<i>(r.r) = ein<i, i>(a.r));
  evaluated<1>(op1(SET), {operand<0>(r.p, r), operand<0, 0>(a.p, a)}, r.mn, r.ex);
}
CONTRACT(P17_trace) {
  res<S0> r; opa<S2> a;
  REQUIRES(agree(a, 0, a, 1));
  calls = 0;
  ein_reduce(ein(*r.p) += ein<i, i>(a.r));
  evaluated<1>(op1(ADDTO), {scalar(r.p), operand<0, 0>(a.p, a)}, a.mn, a.ex);
}
// three operands, the first of which does not have the index
CONTRACT(P17_three) {
  res<S0> r; opa<S1> a; opb<S1> b;
  arr<S1, const V> c("C", "cmin", "cextent", "cstride");
  REQUIRES(agree(a, 0, b, 0));
  REQUIRES(agree(a, 0, c, 0));
  calls = 0;
  ein_reduce(ein(*r.p) += (ein<i>(a.r) + ein<i>(b.r)) * ein<i>(c.r));
  evaluated<1>(op2(ADDTO, code(MUL, code(ADD), LEAF)), {scalar(r.p), operand<0>(a.p, a), operand<0>(b.p, b), operand<0>(c.p, c)}, a.mn, a.ex);
  calls = 0;
  vc_reset(vc::VISIT);
  ein_reduce(ein(*r.p) -= ein<i>(a.r) - ein<i>(b.r) / ein<i>(c.r));
  evaluated<1>(op2(SUBTO, code(SUB, LEAF, code(DIV))), {scalar(r.p), operand<0>(a.p, a), operand<0>(b.p, b), operand<0>(c.p, c)}, a.mn, a.ex);
}
// an index that is not used
CONTRACT(P17_skipped) {
  res<S1> r; opa<S2> a;
  REQUIRES(fine(r, 0, a, 1));
  calls = 0;
  ein_reduce(ein<2>(r.r) += ein<0, 2>(a.r));
  long mn[] = {a.mn[0], 0, r.mn[0]}, ex[] = {a.ex[0], 1, r.ex[0]};
  evaluated<3>(op1(ADDTO), {operand<2>(r.p, r), operand<0, 2>(a.p, a)}, mn, ex);
}
// rank 3
CONTRACT(P17_rank3) {
  res<S2> r(0, 1 << 11); opa<S3> a(0, 1 << 11);
  REQUIRES(fine(r, 0, a, 2));
  REQUIRES(fine(r, 1, a, 0));
  calls = 0;
  ein_reduce(ein<i, j>(r.r) += ein<j, k, i>(a.r));
  long mn[] = {r.mn[0], r.mn[1], a.mn[1]}, ex[] = {r.ex[0], r.ex[1], a.ex[1]};
  evaluated<3>(op1(ADDTO), {operand<i, j>(r.p, r), operand<j, k, i>(a.p, a)}, mn, ex);
}
// Callables are called with their indices.
struct table {
  const V* p;
  long w;
  const V& operator()(index_t x, index_t y) const { return *(const V*)((const char*)p + x + y * w); }
};
CONTRACT(P17_callable) {
  res<S2> r; opa<S1> a;
  REQUIRES(fine(r, 0, a, 0));
  const V* t = mem("T");
  calls = 0;
  ein_reduce(ein<i, j>(r.r) += ein<i>(a.r) * ein<j, i>(table{t, 1000}));
  opd o{t, 2, {1, 0}, {0, 0}, {1, 1000}};
  evaluated<2>(op2(ADDTO, code(MUL)), {operand<0, 1>(r.p, r), operand<0>(a.p, a), o}, r.mn, r.ex);
}
// Pointers with a size, and arrays.
CONTRACT(P17_pointer) {
  res<S0> r;
  V *x = mem("x"), *y = mem("y");
  long n = vc_range("n", 0, EX);
  calls = 0;
  ein_reduce(ein(*r.p) += ein<i>(x, n) * ein<i>(y, n));
  long mn[] = {0}, ex[] = {n};
  opd ox{x, 1, {0}, {0}, {1}}, oy{y, 1, {0}, {0}, {1}};
  evaluated<1>(op2(ADDTO, code(MUL)), {scalar(r.p), ox, oy}, mn, ex);
}
CONTRACT(P17_c_array) {
  V x[7], y[7];
  calls = 0;
  ein_reduce(ein<i>(x) += ein<i>(y) + ein<i>(x));
  long mn[] = {0}, ex[] = {7};
  opd ox{x, 1, {0}, {0}, {1}}, oy{y, 1, {0}, {0}, {1}};
  evaluated<1>(op2(ADDTO, code(ADD)), {ox, oy, ox}, mn, ex);
}
// Owning arrays.
CONTRACT(P17_arrays) {
  vc::arb<D1> r(1, EX, "rmin", "rextent"), a(1, EX, "amin", "aextent");
  REQUIRES(contains(a, 0, r, 0));
  array<V, D1, plain_alloc<V>> x(r.s);
  const array<V, D1, plain_alloc<V>> y(a.s);
  calls = 0;
  ein_reduce(ein<i>(x) += ein<i>(y) * ein<i>(x));
  evaluated<1>(op2(ADDTO, code(MUL)), {operand<0>(x.base(), r), operand<0>(y.base(), a), operand<0>(x.base(), r)}, r.mn, r.ex);
}

// ---- operators on values
constexpr long Z = 1L << 20;
CONTRACT(P17_values) {
  vc_mode(1);
  long a = vc_range("a", -Z, Z), b = vc_range("b", -Z, Z), c = vc_range("c", -Z, Z), r0 = vc_range("r", -Z, Z), r;
  r = r0; ein_reduce(ein(r) += (ein(a) - ein(b)) * ein(c)); vc_ensures(r == r0 + (a - b) * c, "+=, - and * combine values as written");
  r = r0; ein_reduce(ein(r) -= ein(a) + ein(b)); vc_ensures(r == r0 - (a + b), "-= and + combine values as written");
  r = r0; ein_reduce(ein(r) *= -ein(a)); vc_ensures(r == r0 * -a, "*= and unary - combine values as written");
  r = r0; ein_reduce(ein(r) = ein(a) - -ein(b)); vc_ensures(r == a + b, "= and unary - combine values as written");
}
CONTRACT(P17_minmax) {
  long a = vc_range("a", -Z, Z), b = vc_range("b", -Z, Z), c = vc_range("c", -Z, Z), r0 = vc_range("r", -Z, Z), r;
  r = r0; ein_reduce(ein(r) += nda::min(ein(a), ein(b))); vc_ensures(r == r0 + (a < b ? a : b), "min");
  r = r0; ein_reduce(ein(r) -= nda::max(ein(a), ein(b))); vc_ensures(r == r0 - (a < b ? b : a), "max");
  r = r0; ein_reduce(ein(r) = nda::max(ein(a), nda::min(ein(b), ein(c)))); vc_ensures(r == (a > (b < c ? b : c) ? a : (b < c ? b : c)), "min and max");
}
CONTRACT(P17_div) {
  long a = vc_range("a", -Z, Z), b = vc_range("b", 1, 1 << 10), r0 = vc_range("r", -Z, Z), r;
  r = r0; ein_reduce(ein(r) += ein(a) / ein(b)); vc_ensures(r == r0 + a / b, "/ combines values as written");
}
CONTRACT(P17_cast) {
  long a = vc_range("a", -Z, Z), r;
  ein_reduce(ein(r) = nda::cast<signed char>(ein(a)));
  vc_ensures(r == (signed char)a, "cast");
  int n = (int)a;
  ein_reduce(ein(r) = nda::cast<long>(ein(n)) * nda::cast<long>(ein(n)));
  vc_ensures(r == a * a, "cast");
}
