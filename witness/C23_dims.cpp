// modes: ndebug assert
// thorough: ndebug17 ndebug20
// make_ein_sum: the inferred shape when parts of the operands' bounds are known at compile time, and at higher ranks.
#include "array/array.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
extern "C" { L vfp_val(const void*); L vfp_add(L, L); L vfp_mul(L, L); L vfp_fn1(L);
void el_init(const void*, L); void el_inc(const void*, L); }
template <bool Zero> struct XX; typedef XX<false> X; typedef XX<true> X0; struct W { L t; explicit W(L t) : t(t) {} template <bool Z> W(const XX<Z>&); };
template <bool Zero> struct XX {                      // an element of an operand or a result; X(L) is an initial value
  double v;
  XX() { if (Zero) { L t = 0; __builtin_memcpy(&v, &t, 8); } }
  explicit XX(L t) { __builtin_memcpy(&v, &t, 8); }
  XX(const XX& o) { L t; __builtin_memcpy(&t, &o.v, 8); el_init(this, t); }
  ~XX() {}
  void operator+=(W w) { el_inc(this, w.t); }
};
template <bool Z> inline W::W(const XX<Z>& x) : t(vfp_val(&x)) {}
static W operator+(W a, W b) { return W(vfp_add(a.t, b.t)); }
static W operator*(W a, W b) { return W(vfp_mul(a.t, b.t)); }
#define V(p) vfp_val(p)
#define US(s) ASSUME((s) != unresolved && (s) != 0)
typedef const_array_ref_of_rank<X, 1> C1; typedef const_array_ref_of_rank<X, 2> C2; typedef const_array_ref_of_rank<X, 3> C3;
typedef lc_alloc<X> AL;
static bool within(L a, L n, L b, L m) { return b <= a && a + n <= b + m; }
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void sdm(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define RESULT(p, n) X* p = (X*)al_alloc(n); ASSUME(p != nullptr)
// the first operand's dim S, with min SA, extent SN, stride SS and constructor arguments; in one dim, leading or trailing another
#define QQ const X* q, const X* r, L a, L n, L s, L b, L m, L t, L v
#define QA ASSUME(q != nullptr && r != nullptr && n >= 1 && m >= 1 && n < 1000000 && m < 1000000); US(s); US(t)
#define INF(id, S, SA, SN, SS, ...) \
  IMPL(id##_one)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto z = make_ein_sum<X, 0>(ein<0>(x) * ein<0>(y), X(v), AL()); dm(0, z.x()); outp(1, z.base()); } \
  SPEC(id##_one)(QQ) { QA; REQUIRE(within(SA, SN, b, m)); RESULT(p, SN); FOR(i, 0, SN) el_init(p + i, v); FOR(i, (SA), (SN)) el_inc(p + (i - (SA)), vfp_mul(V(q + (i - (SA)) * (SS)), V(r + (i - b) * t))); sdm(0, SA, SN, 1); outp(1, p); al_free(p, SN); } \
  IMPL(id##_two)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto z = make_ein_sum<X, 0, 1>(ein<0>(x) + ein<1>(y), X(v), AL()); dm(0, z.x()); dm(3, z.y()); outp(1, z.base()); } \
  SPECU(id##_two)(QQ) { QA; RESULT(p, (SN) * m); FOR(j, 0, m) FOR(i, 0, SN) el_init(p + i + j * (SN), v); FOR(j, 0, m) FOR(i, 0, SN) el_inc(p + i + j * (SN), vfp_add(V(q + i * (SS)), V(r + j * t))); sdm(0, SA, SN, 1); sdm(3, b, m, SN); outp(1, p); al_free(p, (SN) * m); } \
  IMPL(id##_swap)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto z = make_ein_sum<X, 1, 0>(ein<0>(x) * ein<1>(y), X(v), AL()); dm(0, z.x()); dm(3, z.y()); outp(1, z.base()); } \
  SPECU(id##_swap)(QQ) { QA; RESULT(p, (SN) * m); FOR(i, 0, SN) FOR(j, 0, m) el_init(p + j + i * m, v); FOR(i, 0, SN) FOR(j, 0, m) el_inc(p + j + i * m, vfp_mul(V(q + i * (SS)), V(r + j * t))); sdm(0, b, m, 1); sdm(3, SA, SN, m); outp(1, p); al_free(p, (SN) * m); } \
  IMPL(id##_later)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto z = make_ein_sum<X, 0>(ein<0>(y) + ein<0>(x), X(v), AL()); dm(0, z.x()); outp(1, z.base()); } \
  SPEC(id##_later)(QQ) { QA; REQUIRE(within(b, m, SA, SN)); RESULT(p, m); FOR(i, 0, m) el_init(p + i, v); FOR(i, b, m) el_inc(p + (i - b), vfp_add(V(r + (i - b) * t), V(q + (i - (SA)) * (SS)))); sdm(0, b, m, 1); outp(1, p); al_free(p, m); }
typedef dim<3> DA; typedef dim<dynamic, 4> DN; typedef dim<dynamic, dynamic, 2> DS; typedef dim<-2, 3> DAN; typedef dim<0, dynamic, 1> DAS; typedef dim<dynamic, 3, -1> DNS; typedef dim<1, 4, 2> DANS; typedef dim<dynamic, dynamic, 1> D1;
// the inferred shape alone
#define INS(id, S, SA, SN, SS, ...) \
  IMPL(id##_shape)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto f = make_ein_reduce_shape<0>(ein<0>(x)); dm(0, f.x()); auto g = make_ein_reduce_shape<0, 1>(ein<0>(x) * ein<1>(y)); dm(3, g.x()); dm(6, g.y()); auto h = make_ein_reduce_shape<1, 0>(ein<0>(x) - ein<1>(y)); dm(9, h.x()); dm(12, h.y()); } \
  SPEC(id##_shape)(QQ) { QA; sdm(0, SA, SN, 1); sdm(3, SA, SN, 1); sdm(6, b, m, SN); sdm(9, b, m, 1); sdm(12, SA, SN, m); } \
  IMPL(id##_first)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto f = make_ein_reduce_shape<0>(ein<0>(x) + ein<0>(y)); dm(0, f.x()); } \
  SPEC(id##_first)(QQ) { QA; REQUIRE(within(SA, SN, b, m)); sdm(0, SA, SN, 1); } \
  IMPL(id##_second)(QQ) { QA; array_ref<const X, shape<S>> x(q, shape<S>(S(__VA_ARGS__))); C1 y(r, shape_of_rank<1>(dim<>(b, m, t))); auto f = make_ein_reduce_shape<0>(ein<0>(y) + ein<0>(x)); dm(0, f.x()); } \
  SPEC(id##_second)(QQ) { QA; REQUIRE(within(b, m, SA, SN)); sdm(0, b, m, 1); }
INF(min, DA, 3, n, s, 3, n, s)
INF(str, DS, a, n, 2, a, n)
INF(dense1, D1, a, n, 1, a, n)
INF(minstr, DAS, 0, n, 1, 0, n)
INS(min, DA, 3, n, s, 3, n, s)
INS(ext, DN, a, 4, s, a, 4, s)
INS(str, DS, a, n, 2, a, n)
INS(dense1, D1, a, n, 1, a, n)
INS(minext, DAN, -2, 3, s, -2, 3, s)
INS(minstr, DAS, 0, n, 1, 0, n)
INS(extstr, DNS, a, 3, -1, a, 3)
INS(all, DANS, 1, 4, 2, )
// the inferred dims of every rank, in several orders
typedef const_array_ref_of_rank<X, 4> C4;
#define R4P const X* q, L a, L n, L b, L m, L c, L o, L d, L e
#define R4A ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1 && n < 10000 && m < 10000 && o < 10000 && e < 10000); C4 x(q, shape_of_rank<4>({a, n, 5}, {b, m, 7}, {c, o, -3}, {d, e, 11}))
IMPL(shape4a)(R4P) { R4A; auto f = make_ein_reduce_shape<2, 3, 1>(ein<1, 0, 3, 2>(x)); dm(12, f.x()); dm(15, f.y()); dm(18, f.z()); }
SPEC(shape4a)(R4P) { R4A; sdm(12, d, e, 1); sdm(15, c, o, e); sdm(18, a, n, e * o); }
IMPL(shape4b)(R4P) { R4A; auto g = make_ein_reduce_shape<0, 4>(ein<4, 0, 2, 1>(x)); dm(21, g.x()); dm(24, g.y()); auto h = make_ein_reduce_shape<3>(ein<1, 0, 3, 2>(x)); dm(0, h.x()); }
SPEC(shape4b)(R4P) { R4A; sdm(21, b, m, 1); sdm(24, a, n, m); sdm(0, c, o, 1); }
IMPL(shape4c)(R4P) { ASSUME(m == 2 && e == 3); R4A; auto r = make_ein_reduce_shape<3, 1, 0, 2>(ein<0, 1, 2, 3>(x)); dm(0, r.template dim<0>()); dm(3, r.template dim<1>()); dm(6, r.template dim<2>()); dm(9, r.template dim<3>()); }
SPEC(shape4c)(R4P) { ASSUME(m == 2 && e == 3); R4A; sdm(0, d, e, 1); sdm(3, b, m, e); sdm(6, a, n, e * m); sdm(9, c, o, e * m * n); }
// the first of several operands with an index gives the bounds, whichever expression they are in
typedef array_ref<const X, matrix_shape<>> M;
IMPL(nested)(const X* q, const X* r, const X* u, L n, L m, L o, L e, L f, L g) { ASSUME(q != nullptr && r != nullptr && u != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1 && f >= 1 && g >= 1 && n < 100000 && m < 100000 && o < 100000 && e < 100000 && f < 100000 && g < 100000); M x(q, matrix_shape<>(n, m)), y(r, matrix_shape<>(o, e)), z(u, matrix_shape<>(f, g)); auto w = make_ein_reduce_shape<2, 0, 1>((ein<0, 1>(x) + ein<1, 2>(y)) * ein<2, 0>(z)); dm(0, w.x()); dm(3, w.y()); dm(6, w.z()); }
SPEC(nested)(const X* q, const X* r, const X* u, L n, L m, L o, L e, L f, L g) { ASSUME(q != nullptr && r != nullptr && u != nullptr && n >= 1 && m >= 1 && o >= 1 && e >= 1 && f >= 1 && g >= 1 && n < 100000 && m < 100000 && o < 100000 && e < 100000 && f < 100000 && g < 100000); REQUIRE((m <= o) & (e <= f) & (n <= g)); sdm(0, 0, e, 1); sdm(3, 0, n, e); sdm(6, 0, m, e * n); }
