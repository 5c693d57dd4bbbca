// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Einstein reductions: one evaluation per combination of indices, lowest index innermost, each operand addressed by its own indices.
#include "array/array.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
// W: the value of an expression, built from uninterpreted functions.  X: an element; reading it is vfp_val of its address.
extern "C" { L vfp_val(const void*); L vfp_add(L, L); L vfp_sub(L, L); L vfp_mul(L, L); L vfp_div(L, L); L vfp_neg(L); L vfp_cast(L); L vfp_fn1(L); L vfp_fn2(L, L); L vfp_fn3(L, L, L);
void el_asg(const void*, L); void el_inc(const void*, L); void el_dec(const void*, L); void el_scl(const void*, L); }
struct X;
struct W { L t; explicit W(L t) : t(t) {} W(const X&); };
struct X {
  double v;
  X() {} X(const X&) = delete;
  void operator=(W w) { el_asg(this, w.t); }
  void operator=(const X& o) { el_asg(this, vfp_val(&o)); }
  void operator+=(W w) { el_inc(this, w.t); }
  void operator-=(W w) { el_dec(this, w.t); }
  void operator*=(W w) { el_scl(this, w.t); }
};
inline W::W(const X& x) : t(vfp_val(&x)) {}
struct Y { L t; explicit Y(W w) : t(vfp_cast(w.t)) {} operator W() const { return W(t); } };
#define OP(op, f) static W operator op(W a, W b) { return W(f(a.t, b.t)); }
OP(+, vfp_add) OP(-, vfp_sub) OP(*, vfp_mul) OP(/, vfp_div)
static W operator-(W a) { return W(vfp_neg(a.t)); }
// values are totally ordered
static bool operator<(W a, W b) { return a.t < b.t; }
static bool operator>(W a, W b) { return b.t < a.t; }
static bool operator>=(W a, W b) { return !(a < b); }
static bool operator<=(W a, W b) { return !(b < a); }
#define V(p) vfp_val(p)
#define US(s) ASSUME((s) != unresolved && (s) != 0)
typedef array_ref_of_rank<X, 1> R1; typedef array_ref_of_rank<X, 2> R2; typedef array_ref_of_rank<X, 3> R3; typedef array_ref<X, shape<>> R0;
typedef const_array_ref_of_rank<X, 1> C1; typedef const_array_ref_of_rank<X, 2> C2; typedef const_array_ref_of_rank<X, 3> C3;
static bool within(L a, L n, L b, L m) { return b <= a && a + n <= b + m; }   // [a,a+n) inside [b,b+m)
// copy: r(i) = x(i), result bounds inside the operand's
IMPL(copy1)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0); US(s); US(t); R1 r(p, shape_of_rank<1>(dim<>(a, n, s))); C1 x(q, shape_of_rank<1>(dim<>(b, m, t))); ein_reduce(ein<0>(r) = ein<0>(x)); }
SPEC(copy1)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0); US(s); US(t); REQUIRE(within(a, n, b, m)); FOR(i, a, n) el_asg(p + (i - a) * s, V(q + (i - b) * t)); }
// transpose: loops in the order of the indices, index 0 innermost
#define D2 L a, L n, L s, L b, L m, L t
#define PT ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && u != unresolved && v != unresolved); US(s); US(t)
IMPL(transpose)(X* p, const X* q, D2, L u, L v) { PT; R2 r(p, shape_of_rank<2>({a, n, s}, {b, m, t})); C2 x(q, shape_of_rank<2>({b, m, u}, {a, n, v})); ein_reduce(ein<0, 1>(r) = ein<1, 0>(x)); }
SPEC(transpose)(X* p, const X* q, D2, L u, L v) { PT; FOR(j, b, m) FOR(i, a, n) el_asg(p + (i - a) * s + (j - b) * t, V(q + (j - b) * u + (i - a) * v)); }
IMPL(order)(X* p, const X* q, D2, L u, L v) { PT; R2 r(p, shape_of_rank<2>({a, n, s}, {b, m, t})); C2 x(q, shape_of_rank<2>({b, m, u}, {a, n, v})); ein_reduce(ein<1, 0>(r) = ein<0, 1>(x)); }
SPEC(order)(X* p, const X* q, D2, L u, L v) { PT; FOR(i, a, n) FOR(j, b, m) el_asg(p + (i - a) * s + (j - b) * t, V(q + (j - b) * u + (i - a) * v)); }
// matrix product: i, j index the result; k is reduced
#define PM ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1)
IMPL(matmul)(X* p, const X* q, const X* r, L n, L m, L o, L e) { PM; array_ref<X, matrix_shape<>> c(p, matrix_shape<>(n, m)); array_ref<const X, matrix_shape<>> x(q, matrix_shape<>(n, o)), y(r, matrix_shape<>(e, m)); ein_reduce(ein<2, 1>(c) += ein<2, 0>(x) * ein<0, 1>(y)); }
SPEC(matmul)(X* p, const X* q, const X* r, L n, L m, L o, L e) { PM; REQUIRE(o == e); FOR(i, 0, n) FOR(j, 0, m) FOR(k, 0, o) el_inc(p + i * m + j, vfp_mul(V(q + i * o + k), V(r + k * m + j))); }
IMPL(matmul_k_outer)(X* p, const X* q, const X* r, L n, L m, L o, L e) { PM; array_ref<X, matrix_shape<>> c(p, matrix_shape<>(n, m)); array_ref<const X, matrix_shape<>> x(q, matrix_shape<>(n, o)), y(r, matrix_shape<>(e, m)); ein_reduce(ein<1, 0>(c) += ein<1, 2>(x) * ein<2, 0>(y)); }
SPEC(matmul_k_outer)(X* p, const X* q, const X* r, L n, L m, L o, L e) { PM; REQUIRE(o == e); FOR(k, 0, o) FOR(i, 0, n) FOR(j, 0, m) el_inc(p + i * m + j, vfp_mul(V(q + i * o + k), V(r + k * m + j))); }
// matrix-vector, with bounds that do not start at zero
IMPL(matvec)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1); R1 z(p, shape_of_rank<1>(dim<>(a, n))); C2 x(q, shape_of_rank<2>(dim<>(a, n, m), dim<>(b, m, 1))); C1 y(r, shape_of_rank<1>(dim<>(c, o, 1))); ein_reduce(ein<1>(z) += ein<1, 0>(x) * ein<0>(y)); }
SPEC(matvec)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1); REQUIRE(b == c && m == o); FOR(i, a, n) FOR(k, b, m) el_inc(p + (i - a), vfp_mul(V(q + (i - a) * m + (k - b)), V(r + (k - c)))); }
// scalar results
IMPL(dot)(X* p, const X* q, const X* r, const X* w, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && w != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); R0 z(p); C1 x(q, shape_of_rank<1>(dim<>(a, n, s))), y(r, shape_of_rank<1>(dim<>(b, m, t))), u(w, shape_of_rank<1>(dim<>(a, n, 1))); ein_reduce(ein<>(z) += (ein<0>(x) + ein<0>(y)) * ein<0>(u)); }
SPEC(dot)(X* p, const X* q, const X* r, const X* w, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && w != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); REQUIRE(a == b && n == m); FOR(i, a, n) el_inc(p, vfp_mul(vfp_add(V(q + (i - a) * s), V(r + (i - b) * t)), V(w + (i - a)))); }
IMPL(trace)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); ein_reduce(ein(*p) += ein<0, 0>(x)); }
SPEC(trace)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); REQUIRE(a == b && n == m); FOR(i, a, n) el_inc(p, V(q + (i - a) * s + (i - b) * t)); }
IMPL(diag)(X* p, const X* q, L c, L o, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 1 && s != unresolved && t != unresolved); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); R1 r(p, shape_of_rank<1>(dim<>(c, o, 1))); ein_reduce(ein<0>(r) = ein<0, 0>(x)); }
SPEC(diag)(X* p, const X* q, L c, L o, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 1 && s != unresolved && t != unresolved); REQUIRE(within(c, o, a, n) && within(c, o, b, m)); FOR(i, c, o) el_asg(p + (i - c), V(q + (i - a) * s + (i - b) * t)); }
IMPL(set_diag)(X* p, const X* q, L a, L n, L s, L b, L m, L t, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 0); US(s); US(t); R2 x(p, shape_of_rank<2>({a, n, s}, {b, m, t})); C1 r(q, shape_of_rank<1>(dim<>(c, o, 1))); ein_reduce(ein<0, 0>(x) = ein<0>(r)); }
SPEC(set_diag)(X* p, const X* q, L a, L n, L s, L b, L m, L t, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 0); US(s); US(t); REQUIRE(within(a, n, b, m) && within(a, n, c, o)); FOR(i, a, n) el_asg(p + (i - a) * s + (i - b) * t, V(q + (i - c))); }
// outer product and a scalar operand
IMPL(outer)(X* p, const X* q, const X* r, const X* w, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && w != nullptr && n >= 1 && m >= 1); R2 z(p, shape_of_rank<2>({a, n, 1}, {b, m, n})); C1 x(q, shape_of_rank<1>(dim<>(a, n, s))), y(r, shape_of_rank<1>(dim<>(b, m, t))); ASSUME(s != unresolved && t != unresolved); ein_reduce(ein<0, 1>(z) = ein(*w) * ein<0>(x) * ein<1>(y)); }
SPEC(outer)(X* p, const X* q, const X* r, const X* w, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && w != nullptr && n >= 1 && m >= 1); ASSUME(s != unresolved && t != unresolved); FOR(j, b, m) FOR(i, a, n) el_asg(p + (i - a) + (j - b) * n, vfp_mul(vfp_mul(V(w), V(q + (i - a) * s)), V(r + (j - b) * t))); }
// every operator, and the operands on their own sides
#define P4 ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 0)
#define DECL R1 z(p, shape_of_rank<1>(dim<>(0, n, 1))); C1 x(q, shape_of_rank<1>(dim<>(0, n, 1))), y(r, shape_of_rank<1>(dim<>(0, n, 1)))
#define BIN(id, asg, E, eff, S) \
  IMPL(id)(X* p, const X* q, const X* r, L n) { P4; ASSUME(n >= 1); DECL; ein_reduce(ein<0>(z) asg E); } \
  SPEC(id)(X* p, const X* q, const X* r, L n) { P4; ASSUME(n >= 1); FOR(i, 0, n) { L x = V(q + i), y = V(r + i); (void)x; (void)y; eff(p + i, S); } }
BIN(op_add, =, ein<0>(x) + ein<0>(y), el_asg, vfp_add(x, y))
BIN(op_sub, =, ein<0>(x) - ein<0>(y), el_asg, vfp_sub(x, y))
BIN(op_mul, =, ein<0>(x) * ein<0>(y), el_asg, vfp_mul(x, y))
BIN(op_div, =, ein<0>(x) / ein<0>(y), el_asg, vfp_div(x, y))
BIN(op_neg, =, -ein<0>(y), el_asg, vfp_neg(y))
BIN(op_cast, =, cast<Y>(ein<0>(y)), el_asg, vfp_cast(y))
BIN(op_cast_sum, =, cast<Y>(ein<0>(x) - ein<0>(y)), el_asg, vfp_cast(vfp_sub(x, y)))
BIN(op_nest, =, (ein<0>(x) - ein<0>(y)) / -(ein<0>(y) * ein<0>(x)), el_asg, vfp_div(vfp_sub(x, y), vfp_neg(vfp_mul(y, x))))
BIN(asg_add, +=, ein<0>(x), el_inc, x)
BIN(asg_sub, -=, ein<0>(y), el_dec, y)
BIN(asg_mul, *=, ein<0>(y), el_scl, y)
BIN(min_of, =, min(cast<W>(ein<0>(x)), cast<W>(ein<0>(y))), el_asg, (y < x ? y : x))
BIN(max_sum, +=, max(cast<W>(ein<0>(y)), ein<0>(x) + ein<0>(y)), el_inc, (y < vfp_add(x, y) ? vfp_add(x, y) : y))
// min and max of plain numbers
IMPL(imin)(L* p, const L* q, const L* r, L n) { P4; ASSUME(n >= 1); array_ref_of_rank<L, 1> z(p, shape_of_rank<1>(dim<>(0, n, 1))); const_array_ref_of_rank<L, 1> x(q, shape_of_rank<1>(dim<>(0, n, 1))), y(r, shape_of_rank<1>(dim<>(0, n, 1))); ein_reduce(ein<0>(z) = min(ein<0>(x), ein<0>(y))); }
SPEC(imin)(L* p, const L* q, const L* r, L n) { P4; ASSUME(n >= 1); FOR(i, 0, n) p[i] = q[i] < r[i] ? q[i] : r[i]; }
IMPL(imax)(L* p, const L* q, const L* r, L n) { P4; ASSUME(n >= 1); array_ref_of_rank<L, 1> z(p, shape_of_rank<1>(dim<>(0, n, 1))); const_array_ref_of_rank<L, 1> x(q, shape_of_rank<1>(dim<>(0, n, 1))), y(r, shape_of_rank<1>(dim<>(0, n, 1))); ein_reduce(ein<0>(z) = max(ein<0>(x), ein<0>(y))); }
SPEC(imax)(L* p, const L* q, const L* r, L n) { P4; ASSUME(n >= 1); FOR(i, 0, n) p[i] = q[i] > r[i] ? q[i] : r[i]; }
// callables as operands: called with their indices, in the written order
struct F1 { W operator()(L i) const { return W(vfp_fn1(i)); } };
struct F2 { W operator()(L i, L j) const { return W(vfp_fn2(i, j)); } };
struct F3 { W operator()(L i, L j, L k) const { return W(vfp_fn3(i, j, k)); } };
IMPL(fn)(X* p, L a, L n, L b, L m) { ASSUME(p != nullptr && n >= 1 && m >= 1); R2 z(p, shape_of_rank<2>({a, n, 1}, {b, m, n})); ein_reduce(ein<0, 1>(z) = ein<0>(F1()) + ein<1, 0>(F2())); }
SPEC(fn)(X* p, L a, L n, L b, L m) { ASSUME(p != nullptr && n >= 1 && m >= 1); FOR(j, b, m) FOR(i, a, n) el_asg(p + (i - a) + (j - b) * n, vfp_add(vfp_fn1(i), vfp_fn2(j, i))); }
IMPL(fn3)(X* p, const X* q, L n, L m, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); R1 z(p, shape_of_rank<1>(n)); C2 y(q, shape_of_rank<2>(m, o)); ein_reduce(ein<2>(z) += ein<2, 0, 1>(F3()) * ein<0, 1>(y)); }
SPEC(fn3)(X* p, const X* q, L n, L m, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); FOR(i, 0, n) FOR(k, 0, o) FOR(j, 0, m) el_inc(p + i, vfp_mul(vfp_fn3(i, j, k), V(q + j + k * m))); }
// an index nobody uses is one iteration
IMPL(gap)(X* p, const X* q, L a, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); R1 r(p, shape_of_rank<1>(dim<>(a, n, 1))); C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))); ein_reduce(ein<2>(r) += ein<2>(x)); }
SPEC(gap)(X* p, const X* q, L a, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); FOR(i, a, n) el_inc(p + (i - a), V(q + (i - a))); }
// the result may be an operand too
IMPL(self)(X* p, const X* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); R1 z(p, shape_of_rank<1>(n)); C2 x(q, shape_of_rank<2>(n, m)); auto r = ein<0>(z); ein_reduce(r = cast<W>(r) - ein<0, 1>(x)); }
SPEC(self)(X* p, const X* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); FOR(j, 0, m) FOR(i, 0, n) el_asg(p + i, vfp_sub(V(p + i), V(q + i + j * n))); }
// owning arrays, const arrays, pointers with a size and C arrays as operands
template <class S> using AR = array<X, S, vf_alloc<X>>;
IMPL(owners)(L n, L m) { ASSUME(n >= 1 && m >= 1); AR<shape_of_rank<2>> x(shape_of_rank<2>(n, m)); AR<shape_of_rank<1>> z(shape_of_rank<1>{n}); const AR<shape_of_rank<2>>& y = x; ein_reduce(ein<0>(z) += ein<0, 1>(y)); ein_reduce(ein<0, 1>(x) *= ein<0>(z)); }
SPEC(owners)(L n, L m) { ASSUME(n >= 1 && m >= 1); X* x = (X*)al_alloc(n * m); ASSUME(x != nullptr); X* z = (X*)al_alloc(n); ASSUME(z != nullptr); FOR(j, 0, m) FOR(i, 0, n) el_inc(z + i, V(x + i + j * n)); FOR(j, 0, m) FOR(i, 0, n) el_scl(x + i + j * n, V(z + i)); al_free(z, n); al_free(x, n * m); }
IMPL(pointers)(X* p, X* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); ein_reduce(ein<0>(p, n) = ein<0>(q, m)); }
SPEC(pointers)(X* p, X* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); REQUIRE(n <= m); FOR(i, 0, n) el_asg(p + i, V(q + i)); }
IMPL(carray)(X (*p)[4], X (*q)[4]) { ASSUME(p != nullptr && q != nullptr); ein_reduce(ein<0>(*p) -= ein<0>(*q)); }
SPEC(carray)(X (*p)[4], X (*q)[4]) { ASSUME(p != nullptr && q != nullptr); FOR(i, 0, 4) el_dec(&(*p)[i], V(&(*q)[i])); }
// static bounds; rank 3 contraction
IMPL(fixed)(X* p, const X* q) { ASSUME(p != nullptr && q != nullptr); array_ref<X, matrix_shape<2, 3>> z(p); array_ref<const X, matrix_shape<3, 2>> x(q); ein_reduce(ein<0, 1>(z) = ein<1, 0>(x)); }
SPEC(fixed)(X* p, const X* q) { ASSUME(p != nullptr && q != nullptr); FOR(j, 0, 3) FOR(i, 0, 2) el_asg(p + i * 3 + j, V(q + j * 2 + i)); }
IMPL(contract)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1); R1 z(p, shape_of_rank<1>(dim<>(a, n, 1))); C3 x(q, shape_of_rank<3>({a, n, 1}, {b, m, n}, {c, o, n * m})); C2 y(r, shape_of_rank<2>({c, o, 1}, {b, m, o})); ein_reduce(ein<0>(z) += ein<0, 1, 2>(x) * ein<2, 1>(y)); }
SPEC(contract)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1); FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) el_inc(p + (i - a), vfp_mul(V(q + (i - a) + (j - b) * n + (k - c) * n * m), V(r + (k - c) + (j - b) * o))); }
// the statement returns its result operand
IMPL(returns)(X* p, const X* q, L a, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); R1 r(p, shape_of_rank<1>(dim<>(a, n, 1))); C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))); auto y = ein_reduce(ein<0>(r) = ein<0>(x)); outp(0, y.base()); out(1, y.x().min()); out(2, y.x().extent()); }
SPEC(returns)(X* p, const X* q, L a, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); FOR(i, a, n) el_asg(p + (i - a), V(q + (i - a))); outp(0, p); out(1, a); out(2, n); }
// scalars only: no loop at all
typedef const_array_ref<X, shape<>> C0;
#define PS ASSUME(p != nullptr && q != nullptr && r != nullptr)
IMPL(scalars)(X* p, const X* q, const X* r) { PS; R0 z(p); C0 x(q); ein_reduce(ein<>(z) = ein<>(x)); ein_reduce(ein(*p) += ein(*q) * ein<>(x) - ein(*r)); ein_reduce(ein<>(z) *= -ein(*r)); }
SPEC(scalars)(X* p, const X* q, const X* r) { PS; el_asg(p, V(q)); el_inc(p, vfp_sub(vfp_mul(V(q), V(q)), V(r))); el_scl(p, vfp_neg(V(r))); }
// five loops; an index no operand to the left has; a result index that is neither first nor last
#define P5 ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1 && f >= 1)
IMPL(five)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e, L g, L f) { P5; R2 z(p, shape_of_rank<2>({a, n, 1}, {b, m, n})); C3 x(q, shape_of_rank<3>({c, o, n * e}, {a, n, e}, {d, e, 1})); const_array_ref_of_rank<X, 4> y(r, shape_of_rank<4>({d, e, m * o * f}, {b, m, 1}, {c, o, m * f}, {g, f, m})); ein_reduce(ein<3, 1>(z) += ein<2, 3, 0>(x) / ein<0, 1, 2, 4>(y)); }
SPEC(five)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e, L g, L f) { P5; FOR(i4, 0, f) FOR(i3, 0, n) FOR(i2, 0, o) FOR(i1, 0, m) FOR(i0, 0, e) el_inc(p + i3 + i1 * n, vfp_div(V(q + i2 * n * e + i3 * e + i0), V(r + i0 * m * o * f + i1 + i2 * m * f + i4 * m))); }
// a result visited backwards in memory, and an operand that repeats one element
IMPL(reversed)(X* p, const X* q, const X* r, L a, L n, L b, L m) { P4; ASSUME(n >= 1 && m >= 1); R2 z(p, shape_of_rank<2>({a, n, -1}, {b, m, -n})); C2 x(q, shape_of_rank<2>({b, m, 0}, {a, n, -m})); C1 y(r, shape_of_rank<1>(dim<>(a, n, 0))); ein_reduce(ein<0, 1>(z) -= ein<1, 0>(x) + ein<0>(y)); }
SPEC(reversed)(X* p, const X* q, const X* r, L a, L n, L b, L m) { P4; ASSUME(n >= 1 && m >= 1); FOR(j, 0, m) FOR(i, 0, n) el_dec(p - i - j * n, vfp_add(V(q - i * m), V(r))); }
// a result that repeats one element must have the operands' bounds
IMPL(into_one)(X* p, const X* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0); R1 z(p, shape_of_rank<1>(dim<>(a, n, 0))); C1 x(q, shape_of_rank<1>(dim<>(b, m, 1))); ein_reduce(ein<0>(z) += ein<0>(x)); }
SPEC(into_one)(X* p, const X* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0); REQUIRE(a == b && n == m); FOR(i, a, n) el_inc(p, V(q + (i - b))); }
