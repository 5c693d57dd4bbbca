// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Einstein reductions: which bounds must agree, with more operands and with parts of the bounds known at compile time; more loops.
#include "array/array.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
// W: the value of an expression, built from uninterpreted functions.  X: an element; reading it is vfp_val of its address.
extern "C" { L vfp_val(const void*); L vfp_add(L, L); L vfp_sub(L, L); L vfp_mul(L, L); L vfp_div(L, L); L vfp_neg(L); L vfp_cast(L); L vfp_fn1(L); L vfp_fn2(L, L); L vfp_fn3(L, L, L);
void el_asg(const void*, L); void el_inc(const void*, L); void el_dec(const void*, L); void el_scl(const void*, L); }
struct X;
struct W { L t; explicit W(L t) : t(t) {} W(const X&); };
struct X {
  double v;
  X() {} X(const X&) = delete;
  void operator=(W w) { el_asg(this, w.t); }
  void operator=(const X& o) { el_asg(this, vfp_val(&o)); }
  void operator+=(W w) { el_inc(this, w.t); }
  void operator-=(W w) { el_dec(this, w.t); }
  void operator*=(W w) { el_scl(this, w.t); }
};
inline W::W(const X& x) : t(vfp_val(&x)) {}
struct Y { L t; explicit Y(W w) : t(vfp_cast(w.t)) {} operator W() const { return W(t); } };
#define OP(op, f) static W operator op(W a, W b) { return W(f(a.t, b.t)); }
OP(+, vfp_add) OP(-, vfp_sub) OP(*, vfp_mul) OP(/, vfp_div)
static W operator-(W a) { return W(vfp_neg(a.t)); }
// values are totally ordered
static bool operator<(W a, W b) { return a.t < b.t; }
static bool operator>(W a, W b) { return b.t < a.t; }
static bool operator>=(W a, W b) { return !(a < b); }
static bool operator<=(W a, W b) { return !(b < a); }
#define V(p) vfp_val(p)
#define US(s) ASSUME((s) != unresolved && (s) != 0)
typedef array_ref_of_rank<X, 1> R1; typedef array_ref_of_rank<X, 2> R2; typedef array_ref_of_rank<X, 3> R3; typedef array_ref<X, shape<>> R0;
typedef const_array_ref_of_rank<X, 1> C1; typedef const_array_ref_of_rank<X, 2> C2; typedef const_array_ref_of_rank<X, 3> C3;
static bool within(L a, L n, L b, L m) { return b <= a && a + n <= b + m; }   // [a,a+n) inside [b,b+m)
#define NN(...) ASSUME(__VA_ARGS__)
// four operands with one index: into a scalar they must agree, into an indexed result they must contain it
#define FP X* p, const X* q, const X* r, const X* u, const X* v, L a, L n, L b, L m, L c, L o, L d, L e
#define FA ASSUME(p != nullptr && q != nullptr && r != nullptr && u != nullptr && v != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1)
#define FD C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))), y(r, shape_of_rank<1>(dim<>(b, m, 1))), z(u, shape_of_rank<1>(dim<>(c, o, 1))), w(v, shape_of_rank<1>(dim<>(d, e, 1)))
IMPL(sum4)(FP) { FA; FD; ein_reduce(ein(*p) += ein<0>(x) + ein<0>(y) * ein<0>(z) - ein<0>(w)); }
SPEC(sum4)(FP) { FA; REQUIRE((a == b) & (a == c) & (a == d) & (n == m) & (n == o) & (n == e)); FOR(i, 0, n) el_inc(p, vfp_sub(vfp_add(V(q + i), vfp_mul(V(r + i), V(u + i))), V(v + i))); }
IMPL(into4)(FP, L f, L g) { FA; ASSUME(g >= 1); FD; R1 t(p, shape_of_rank<1>(dim<>(f, g, 1))); ein_reduce(ein<0>(t) = ein<0>(x) + ein<0>(y) * ein<0>(z) - ein<0>(w)); }
SPEC(into4)(FP, L f, L g) { FA; ASSUME(g >= 1); REQUIRE(((a <= f) & (f + g <= a + n)) & ((b <= f) & (f + g <= b + m)) & ((c <= f) & (f + g <= c + o)) & ((d <= f) & (f + g <= d + e))); FOR(i, f, g) el_asg(p + (i - f), vfp_sub(vfp_add(V(q + (i - a)), vfp_mul(V(r + (i - b)), V(u + (i - c)))), V(v + (i - d)))); }
// parts known at compile time: S the operand or result whose bounds are used, with min SA, extent SN, stride SS and constructor arguments
#define RED(id, S, SA, SN, SS, ...) \
  IMPL(id##_red)(X* p, const X* q, const X* r, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); ein_reduce(ein(*p) += ein<0>(x) * ein<0>(y)); } \
  SPEC(id##_red)(X* p, const X* q, const X* r, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); REQUIRE((b == (SA)) & (m == (SN))); FOR(i, 0, SN) el_inc(p, vfp_mul(V(q + i * (SS)), V(r + i * t))); } \
  IMPL(id##_last)(X* p, const X* q, const X* r, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); ein_reduce(ein(*p) += ein<0>(y) - ein<0>(x)); } \
  SPEC(id##_last)(X* p, const X* q, const X* r, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); REQUIRE((b == (SA)) & (m == (SN))); FOR(i, 0, SN) el_inc(p, vfp_sub(V(r + i * t), V(q + i * (SS)))); } \
  IMPL(id##_out)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); US(s); US(t); array_ref<X, shape<S>> x(p, shape<S>(S(__VA_ARGS__))); C1 y(q, shape_of_rank<1>(dim<>(b, m, t))); ein_reduce(ein<0>(x) = ein<0>(y)); } \
  SPEC(id##_out)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); US(s); US(t); REQUIRE(within(SA, SN, b, m)); FOR(i, (SA), (SN)) el_asg(p + (i - (SA)) * (SS), V(q + (i - b) * t)); } \
  IMPL(id##_in)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); US(s); US(t); array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); R1 y(p, shape_of_rank<1>(dim<>(b, m, t))); ein_reduce(ein<0>(y) = ein<0>(x)); } \
  SPEC(id##_in)(X* p, const X* q, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); US(s); US(t); REQUIRE(within(b, m, SA, SN)); FOR(i, b, m) el_asg(p + (i - b) * t, V(q + (i - (SA)) * (SS))); }
typedef dim<3> DA; typedef dim<dynamic, 4> DN; typedef dim<dynamic, dynamic, 2> DS; typedef dim<-2, 3> DAN; typedef dim<0, dynamic, 1> DAS; typedef dim<dynamic, 3, -1> DNS; typedef dim<1, 4, 2> DANS;
RED(min, DA, 3, n, s, 3, n, s)
RED(ext, DN, a, 4, s, a, 4, s)
RED(str, DS, a, n, 2, a, n)
RED(minext, DAN, -2, 3, s, -2, 3, s)
RED(minstr, DAS, 0, n, 1, 0, n)
RED(extstr, DNS, a, 3, -1, a, 3)
RED(all, DANS, 1, 4, 2, )
// both sides partly known
IMPL(both)(X* p, const X* q, const X* r, L a, L n) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1); array_ref<const X, shape<DN>> x(q, shape<DN>(DN(a, 4, 1))); array_ref<const X, shape<DAS>> y(r, shape<DAS>(DAS(0, n))); ein_reduce(ein(*p) += ein<0>(x) * ein<0>(y)); }
SPEC(both)(X* p, const X* q, const X* r, L a, L n) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1); REQUIRE((a == 0) & (n == 4)); FOR(i, 0, 4) el_inc(p, vfp_mul(V(q + i), V(r + i))); }
IMPL(mat_static)(X* p, const X* q, const X* r, L n, L m) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); array_ref<X, matrix_shape<2>> z(p, matrix_shape<2>(2, m)); array_ref<const X, matrix_shape<2, 3>> x(q); array_ref<const X, matrix_shape<>> y(r, matrix_shape<>(n, m)); ein_reduce(ein<2, 1>(z) += ein<2, 0>(x) * ein<0, 1>(y)); }
SPEC(mat_static)(X* p, const X* q, const X* r, L n, L m) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1); REQUIRE(n == 3); FOR(i, 0, 2) FOR(j, 0, m) FOR(k, 0, 3) el_inc(p + i * m + j, vfp_mul(V(q + i * 3 + k), V(r + k * m + j))); }
// a diagonal of a cube, and of a cube of a matrix
IMPL(diag3)(X* p, const X* q, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); C3 x(q, shape_of_rank<3>({a, n, 1}, {b, m, n}, {c, o, n * m})); ein_reduce(ein(*p) += ein<0, 0, 0>(x)); }
SPEC(diag3)(X* p, const X* q, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); REQUIRE((a == b) & (a == c) & (n == m) & (n == o)); FOR(i, 0, n) el_inc(p, V(q + i + i * n + i * n * m)); }
IMPL(diag_of3)(X* p, const X* q, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); R2 z(p, shape_of_rank<2>({a, n, 1}, {b, m, n})); C3 x(q, shape_of_rank<3>({a, n, 1}, {c, o, n * m}, {b, m, n})); ein_reduce(ein<1, 0>(z) = ein<1, 1, 0>(x)); }
SPEC(diag_of3)(X* p, const X* q, L a, L n, L b, L m, L c, L o) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); REQUIRE(within(a, n, c, o)); FOR(i, a, n) FOR(j, b, m) el_asg(p + (i - a) + (j - b) * n, V(q + (i - a) + (i - c) * n * m + (j - b) * n)); }
// four loops, all orders of the operands' indices
typedef array_ref_of_rank<X, 4> R4; typedef const_array_ref_of_rank<X, 4> C4;
IMPL(perm4)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); R4 z(p, shape_of_rank<4>({a, n, 1}, {b, m, n}, {c, o, n * m}, {d, e, n * m * o})); C4 x(q, shape_of_rank<4>({d, e, 1}, {b, m, e}, {a, n, e * m}, {c, o, e * m * n})); C2 y(r, shape_of_rank<2>({c, o, 1}, {a, n, o})); ein_reduce(ein<0, 3, 2, 1>(z) -= ein<1, 3, 0, 2>(x) / ein<2, 0>(y)); }
SPEC(perm4)(X* p, const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e) { ASSUME(p != nullptr && q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); FOR(j, 0, m) FOR(k, 0, o) FOR(l, 0, e) FOR(i, 0, n) el_dec(p + i + j * n + k * n * m + l * n * m * o, vfp_div(V(q + l + j * e + i * e * m + k * e * m * n), V(r + k + i * o))); }
// three operands into an indexed result
#define TP X* p, const X* q, const X* r, const X* u, L a, L n, L b, L m, L c, L o, L f, L g
#define TA ASSUME(p != nullptr && q != nullptr && r != nullptr && u != nullptr && n >= 1 && m >= 1 && o >= 1 && g >= 1)
IMPL(into3)(TP) { TA; C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))), y(r, shape_of_rank<1>(dim<>(b, m, 1))), z(u, shape_of_rank<1>(dim<>(c, o, 1))); R1 t(p, shape_of_rank<1>(dim<>(f, g, 1))); ein_reduce(ein<0>(t) -= ein<0>(x) / (ein<0>(y) - ein<0>(z))); }
SPEC(into3)(TP) { TA; REQUIRE(((a <= f) & (f + g <= a + n)) & ((b <= f) & (f + g <= b + m)) & ((c <= f) & (f + g <= c + o))); FOR(i, f, g) el_dec(p + (i - f), vfp_div(V(q + (i - a)), vfp_sub(V(r + (i - b)), V(u + (i - c))))); }
// indices nobody uses, below the only one used
#define SKIP(id, k) \
  IMPL(id)(X* p, const X* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); R1 r(p, shape_of_rank<1>(dim<>(a, n, 1))); C1 x(q, shape_of_rank<1>(dim<>(b, m, 1))); ein_reduce(ein<k>(r) += ein<k>(x)); } \
  SPEC(id)(X* p, const X* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); REQUIRE(within(a, n, b, m)); FOR(i, a, n) el_inc(p + (i - a), V(q + (i - b))); }
SKIP(skip1, 1) SKIP(skip3, 3) SKIP(skip4, 4)
