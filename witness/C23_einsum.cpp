// modes: ndebug assert
// thorough: ndebug17 ndebug20
// make_ein_sum: shape inferred from the operands, compact, initialized, then every product accumulated once.
#include "array/array.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
extern "C" { L vfp_val(const void*); L vfp_add(L, L); L vfp_mul(L, L); L vfp_fn1(L);
void el_init(const void*, L); void el_inc(const void*, L); }
template <bool Zero> struct XX; typedef XX<false> X; typedef XX<true> X0; struct W { L t; explicit W(L t) : t(t) {} template <bool Z> W(const XX<Z>&); };
template <bool Zero> struct XX {                      // an element of an operand or a result; X(L) is an initial value
  double v;
  XX() { if (Zero) { L t = 0; __builtin_memcpy(&v, &t, 8); } }
  explicit XX(L t) { __builtin_memcpy(&v, &t, 8); }
  XX(const XX& o) { L t; __builtin_memcpy(&t, &o.v, 8); el_init(this, t); }
  ~XX() {}
  void operator+=(W w) { el_inc(this, w.t); }
};
template <bool Z> inline W::W(const XX<Z>& x) : t(vfp_val(&x)) {}
static W operator+(W a, W b) { return W(vfp_add(a.t, b.t)); }
static W operator*(W a, W b) { return W(vfp_mul(a.t, b.t)); }
#define V(p) vfp_val(p)
#define US(s) ASSUME((s) != unresolved && (s) != 0)
typedef const_array_ref_of_rank<X, 1> C1; typedef const_array_ref_of_rank<X, 2> C2; typedef const_array_ref_of_rank<X, 3> C3;
typedef lc_alloc<X> AL;
static bool within(L a, L n, L b, L m) { return b <= a && a + n <= b + m; }
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void sdm(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define RESULT(p, n) X* p = (X*)al_alloc(n); ASSUME(p != nullptr)
// the bounds come from the operand that has the index
IMPL(diag)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); auto r = make_ein_sum<X, 0>(ein<0, 0>(x), X(v), AL()); dm(0, r.x()); outp(1, r.base()); }
SPEC(diag)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); REQUIRE(within(a, n, b, m)); RESULT(p, n); FOR(i, 0, n) el_init(p + i, v); FOR(i, a, n) el_inc(p + (i - a), V(q + (i - a) * s + (i - b) * t)); sdm(0, a, n, 1); outp(1, p); al_free(p, n); }
IMPL(transpose)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); auto r = make_ein_sum<X, 0, 1>(ein<1, 0>(x), X(v), AL()); dm(0, r.x()); dm(3, r.y()); outp(1, r.base()); }
SPECU(transpose)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); RESULT(p, n * m); FOR(i, 0, n) FOR(j, 0, m) el_init(p + j + i * m, v); FOR(i, 0, n) FOR(j, 0, m) el_inc(p + j + i * m, V(q + i * s + j * t)); sdm(0, b, m, 1); sdm(3, a, n, m); outp(1, p); al_free(p, n * m); }
// result dims may be listed in any order and need not be the first indices
IMPL(swapped)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); auto r = make_ein_sum<X, 1, 0>(ein<0, 1>(x), X(v), AL()); dm(0, r.x()); dm(3, r.y()); outp(1, r.base()); }
SPECU(swapped)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1); US(s); US(t); RESULT(p, n * m); FOR(i, 0, n) FOR(j, 0, m) el_init(p + j + i * m, v); FOR(i, 0, n) FOR(j, 0, m) el_inc(p + j + i * m, V(q + i * s + j * t)); sdm(0, b, m, 1); sdm(3, a, n, m); outp(1, p); al_free(p, n * m); }
IMPL(middle)(const X* q, L a, L n, L b, L m, L c, L o, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1); C3 x(q, shape_of_rank<3>({a, n, 1}, {b, m, n}, {c, o, n * m})); auto r = make_ein_sum<X, 1>(ein<0, 1, 2>(x), X(v), AL()); dm(0, r.x()); outp(1, r.base()); }
SPEC(middle)(const X* q, L a, L n, L b, L m, L c, L o, L v) { ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1); RESULT(p, m); FOR(j, 0, m) el_init(p + j, v); FOR(k, 0, o) FOR(j, 0, m) FOR(i, 0, n) el_inc(p + j, V(q + i + j * n + k * n * m)); sdm(0, b, m, 1); outp(1, p); al_free(p, m); }
// scalar results
IMPL(dot)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 0 && m >= 0); C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))), y(r, shape_of_rank<1>(dim<>(b, m, 1))); auto z = make_ein_sum<X>(ein<0>(x) * ein<0>(y), X(v), AL()); out(0, z.size()); outp(1, z.base()); }
SPEC(dot)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 0 && m >= 0); RESULT(p, 1); el_init(p, v); REQUIRE(a == b && n == m); FOR(i, 0, n) el_inc(p, vfp_mul(V(q + i), V(r + i))); out(0, 1); outp(1, p); al_free(p, 1); }
IMPL(trace)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 0 && m >= 0); US(s); US(t); C2 x(q, shape_of_rank<2>({a, n, s}, {b, m, t})); auto z = make_ein_sum<X>(ein<0, 0>(x), X(v), AL()); outp(1, z.base()); }
SPEC(trace)(const X* q, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && n >= 0 && m >= 0); US(s); US(t); RESULT(p, 1); el_init(p, v); REQUIRE(a == b && n == m); FOR(i, a, n) el_inc(p, V(q + (i - a) * s + (i - b) * t)); outp(1, p); al_free(p, 1); }
// matrix product
IMPL(matmul)(const X* q, const X* r, L n, L m, L o, L e, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); array_ref<const X, matrix_shape<>> x(q, matrix_shape<>(n, o)), y(r, matrix_shape<>(e, m)); auto z = make_ein_sum<X, 0, 1>(ein<0, 2>(x) * ein<2, 1>(y), X(v), AL()); dm(0, z.x()); dm(3, z.y()); outp(1, z.base()); }
SPECU(matmul)(const X* q, const X* r, L n, L m, L o, L e, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); RESULT(p, n * m); FOR(j, 0, m) FOR(i, 0, n) el_init(p + i + j * n, v); REQUIRE(o == e); FOR(k, 0, o) FOR(j, 0, m) FOR(i, 0, n) el_inc(p + i + j * n, vfp_mul(V(q + i * o + k), V(r + k * m + j))); sdm(0, 0, n, 1); sdm(3, 0, m, n); outp(1, p); al_free(p, n * m); }
IMPL(matvec)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); C2 x(q, shape_of_rank<2>({a, n, m}, {b, m, 1})); C1 y(r, shape_of_rank<1>(dim<>(b, m, 1))); auto z = make_ein_sum<X, 0>(ein<0, 1>(x) * ein<1>(y), X(v), AL()); dm(0, z.x()); outp(1, z.base()); }
SPEC(matvec)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); RESULT(p, n); FOR(i, 0, n) el_init(p + i, v); FOR(k, 0, m) FOR(i, 0, n) el_inc(p + i, vfp_mul(V(q + i * m + k), V(r + k))); sdm(0, a, n, 1); outp(1, p); al_free(p, n); }
IMPL(outer)(const X* q, const X* r, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); C1 x(q, shape_of_rank<1>(dim<>(a, n, s))), y(r, shape_of_rank<1>(dim<>(b, m, t))); auto z = make_ein_sum<X, 0, 1>(ein<0>(x) * ein<1>(y), X(v), AL()); dm(0, z.x()); dm(3, z.y()); outp(1, z.base()); }
SPECU(outer)(const X* q, const X* r, L a, L n, L s, L b, L m, L t, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); US(s); US(t); RESULT(p, n * m); FOR(j, 0, m) FOR(i, 0, n) el_init(p + i + j * n, v); FOR(j, 0, m) FOR(i, 0, n) el_inc(p + i + j * n, vfp_mul(V(q + i * s), V(r + j * t))); sdm(0, a, n, 1); sdm(3, b, m, n); outp(1, p); al_free(p, n * m); }
// the first operand that has the index gives its bounds; the others must contain them
IMPL(first)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))), y(r, shape_of_rank<1>(dim<>(b, m, 1))); auto z = make_ein_sum<X, 0>(ein<0>(x) + ein<0>(y), X(v), AL()); dm(0, z.x()); outp(1, z.base()); }
SPEC(first)(const X* q, const X* r, L a, L n, L b, L m, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1); REQUIRE(within(a, n, b, m)); RESULT(p, n); FOR(i, 0, n) el_init(p + i, v); FOR(i, a, n) el_inc(p + (i - a), vfp_add(V(q + (i - a)), V(r + (i - b)))); sdm(0, a, n, 1); outp(1, p); al_free(p, n); }
// static bounds stay static
IMPL(fixed)(const X* q, L v) { ASSUME(q != nullptr); array_ref<const X, matrix_shape<3, 2>> x(q); auto z = make_ein_sum<X, 0, 1>(ein<1, 0>(x), X(v), AL()); dm(0, z.x()); dm(3, z.y()); outp(1, z.base()); }
SPECU(fixed)(const X* q, L v) { ASSUME(q != nullptr); RESULT(p, 6); FOR(i, 0, 2) FOR(j, 0, 3) el_init(p + i + j * 2, v); FOR(i, 0, 2) FOR(j, 0, 3) el_inc(p + i + j * 2, V(q + j * 2 + i)); sdm(0, 0, 2, 1); sdm(3, 0, 3, 2); outp(1, p); al_free(p, 6); }
// zero by default; the standard allocator by default
IMPL(zero)(const X* q, L a, L n) { ASSUME(q != nullptr && n >= 1 && n < (L(1) << 40)); C1 x(q, shape_of_rank<1>(dim<>(a, n, 1))); auto z = make_ein_sum<X0, 0>(ein<0>(x)); dm(0, z.x()); outp(1, z.base()); }
SPEC(zero)(const X* q, L a, L n) { ASSUME(q != nullptr && n >= 1 && n < (L(1) << 40)); X0* p = (X0*)::operator new(n * sizeof(X0)); FOR(i, 0, n) el_init(p + i, 0); FOR(i, a, n) el_inc(p + (i - a), V(q + (i - a))); sdm(0, a, n, 1); outp(1, p); ::operator delete(p); }
// the inferred shape on its own
IMPL(shape3)(const X* q, L a, L n, L s, L b, L m, L t, L c, L o, L u) { ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1); US(s); US(t); US(u); C3 x(q, shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})); auto r = make_ein_reduce_shape<2, 0>(ein<0, 1, 2>(x)); dm(0, r.x()); dm(3, r.y()); auto e = make_ein_reduce_shape<>(ein<0, 1, 2>(x)); out(9, e.size()); auto f = make_ein_reduce_shape<1, 2, 0>(ein<0, 1, 2>(x)); dm(10, f.x()); dm(13, f.y()); dm(16, f.z()); }
SPEC(shape3)(const X* q, L a, L n, L s, L b, L m, L t, L c, L o, L u) { ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1); US(s); US(t); US(u); sdm(0, c, o, 1); sdm(3, a, n, o); out(9, 1); sdm(10, b, m, 1); sdm(13, c, o, m); sdm(16, a, n, m * o); }
// scalar operands only
IMPL(scalar_sum)(const X* q, const X* r, L v) { ASSUME(q != nullptr && r != nullptr); const_array_ref<X, shape<>> x(q); auto z = make_ein_sum<X>(ein<>(x) * ein(*r) + ein(*q), X(v), AL()); out(0, z.size()); outp(1, z.base()); }
SPEC(scalar_sum)(const X* q, const X* r, L v) { ASSUME(q != nullptr && r != nullptr); RESULT(p, 1); el_init(p, v); el_inc(p, vfp_add(vfp_mul(V(q), V(r)), V(q))); out(0, 1); outp(1, p); al_free(p, 1); }
// a rank 3 result from operands of rank 2 and 3, with a reduced index
IMPL(batched)(const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); C3 x(q, shape_of_rank<3>({a, n, m * o}, {b, m, 1}, {c, o, m})); C2 y(r, shape_of_rank<2>({c, o, 1}, {d, e, o})); auto z = make_ein_sum<X, 2, 0, 1>(ein<0, 1, 3>(x) * ein<3, 2>(y), X(v), AL()); dm(0, z.x()); dm(3, z.y()); dm(6, z.z()); outp(1, z.base()); }
SPECU(batched)(const X* q, const X* r, L a, L n, L b, L m, L c, L o, L d, L e, L v) { ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1); RESULT(p, e * n * m); FOR(j, 0, m) FOR(i, 0, n) FOR(k, 0, e) el_init(p + k + i * e + j * e * n, v); FOR(l, 0, o) FOR(k, 0, e) FOR(j, 0, m) FOR(i, 0, n) el_inc(p + k + i * e + j * e * n, vfp_mul(V(q + i * m * o + j + l * m), V(r + l + k * o))); sdm(0, d, e, 1); sdm(3, a, n, e); sdm(6, b, m, n * e); outp(1, p); al_free(p, e * n * m); }
