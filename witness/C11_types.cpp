// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Copies, moves, fills, generators and transforms at every rank for every size and kind of element.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
#define FOR(i, n) for (L i = 0; i < (n); i++)
typedef unsigned char byte_t;
// elements whose assignment is observable: G by value, EB and B by source
struct G { L v; G(L x) : v(x) {} G(const G&) = default; G& operator=(const G& o) { el_set2(this, o.v, 0); return *this; } };
struct G3 { L v, w, x; G3(L y) : v(y), w(y), x(y) {} G3(const G3&) = default; G3& operator=(const G3& o) { el_set2(this, o.v, o.x); return *this; } };
struct EB { double v[3]; EB& operator=(const EB& o) { el_ca(this, &o); return *this; } EB& operator=(EB&& o) { el_ma(this, &o); return *this; } };
struct EC { byte_t v; EC& operator=(const EC& o) { el_ca(this, &o); return *this; } EC& operator=(EC&& o) { el_ma(this, &o); return *this; } };
struct EI { int v; EI& operator=(const EI& o) { el_ca(this, &o); return *this; } EI& operator=(EI&& o) { el_ma(this, &o); return *this; } EI& operator=(const EC& o) { el_ca(this, &o); return *this; } EI& operator=(EC&& o) { el_ma(this, &o); return *this; } };
#define ARGS L n0, L n1, L n2, L n3, L n4, L n5
#define POS ASSUME(n0 >= 1 && n1 >= 1 && n2 >= 1 && n3 >= 1 && n4 >= 1 && n5 >= 1)
#define S0 shape<>()
#define S1 shape_of_rank<1>(dim<>(1, n0, 3))
#define S2 shape_of_rank<2>({1, n0, 3}, {2, n1, 40})
#define S3 shape_of_rank<3>({1, n0, 3}, {2, n1, 40}, {3, n2, -500})
#define S4 shape_of_rank<4>({1, n0, 3}, {2, n1, 40}, {3, n2, -500}, {4, n3, 6000})
#define S5 shape_of_rank<5>({1, n0, 3}, {2, n1, 40}, {3, n2, -500}, {4, n3, 6000}, {5, n4, 70000})
#define S6 shape_of_rank<6>({1, n0, 3}, {2, n1, 40}, {3, n2, -500}, {4, n3, 6000}, {5, n4, 70000}, {6, n5, 800000})
#define D0 shape<>()
#define D1 shape_of_rank<1>(dim<>(1, n0, 7))
#define D2 shape_of_rank<2>({1, n0, 900}, {2, n1, 8})
#define D3 shape_of_rank<3>({1, n0, 900}, {2, n1, 8}, {3, n2, 70})
#define D4 shape_of_rank<4>({1, n0, 900}, {2, n1, 8}, {3, n2, 70}, {4, n3, -11000})
#define D5 shape_of_rank<5>({1, n0, 900}, {2, n1, 8}, {3, n2, 70}, {4, n3, -11000}, {5, n4, 1})
#define D6 shape_of_rank<6>({1, n0, 900}, {2, n1, 8}, {3, n2, 70}, {4, n3, -11000}, {5, n4, 1}, {6, n5, 130000})
#define N0
#define N1 FOR(i, n0)
#define N2 FOR(j, n1) N1
#define N3 FOR(k, n2) N2
#define N4 FOR(l, n3) N3
#define N5 FOR(y, n4) N4
#define N6 FOR(z, n5) N5
#define A0 0
#define A1 i * 3
#define A2 A1 + j * 40
#define A3 A2 + k * -500
#define A4 A3 + l * 6000
#define A5 A4 + y * 70000
#define A6 A5 + z * 800000
#define B0 0
#define B1 i * 7
#define B2 i * 900 + j * 8
#define B3 B2 + k * 70
#define B4 B3 + l * -11000
#define B5 B4 + y
#define B6 B5 + z * 130000
#define FILL(id, T, R) \
  IMPL(id)(T* p, T v, ARGS) { POS; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); fill(r, v); } \
  SPECU(id)(T* p, T v, ARGS) { POS; ASSUME(p != nullptr); N##R p[A##R] = v; }
#define FILLG(id, T, R, W) \
  IMPL(id)(T* p, L v, ARGS) { POS; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); fill(r, T(v)); generate(r, [=]() { return T(v + 1); }); } \
  SPECP(id)(T* p, L v, ARGS) { POS; ASSUME(p != nullptr); N##R el_set2(p + (A##R), v, W(v)); N##R el_set2(p + (A##R), v + 1, W(v + 1)); }
#define ZERO(x) 0
#define SAME(x) x
#define GEN(id, T, R) \
  IMPL(id)(T* p, T v, ARGS) { POS; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); generate(r, [&]() { return v; }); } \
  SPECU(id)(T* p, T v, ARGS) { POS; ASSUME(p != nullptr); N##R p[A##R] = v; }
#define CM(id, T, U, R) \
  IMPL(id##_copy)(const T* p, U* q, ARGS) { POS; ASSUME(p != nullptr && q != nullptr); array_ref<const T, decltype(S##R)> r(p, S##R); array_ref<U, decltype(D##R)> s(q, D##R); copy(r, s); } \
  SPECU(id##_copy)(const T* p, U* q, ARGS) { POS; ASSUME(p != nullptr && q != nullptr); N##R el_ca(q + (B##R), p + (A##R)); } \
  IMPL(id##_move)(T* p, U* q, ARGS) { POS; ASSUME(p != nullptr && q != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); array_ref<U, decltype(D##R)> s(q, D##R); nda::move(r, s); } \
  SPECU(id##_move)(T* p, U* q, ARGS) { POS; ASSUME(p != nullptr && q != nullptr); N##R el_ma(q + (B##R), p + (A##R)); }
#define ALLR(M, id, ...) M(id##_0, __VA_ARGS__, 0) M(id##_1, __VA_ARGS__, 1) M(id##_2, __VA_ARGS__, 2) M(id##_3, __VA_ARGS__, 3) M(id##_4, __VA_ARGS__, 4) M(id##_5, __VA_ARGS__, 5) M(id##_6, __VA_ARGS__, 6)
#define SOME(M, id, ...) M(id##_1, __VA_ARGS__, 1) M(id##_2, __VA_ARGS__, 2) M(id##_3, __VA_ARGS__, 3)
ALLR(FILL, fill_d, double) SOME(FILL, fill_b, byte_t) SOME(FILL, fill_s, short) SOME(FILL, fill_i, int) SOME(FILL, fill_f, float)
ALLR(GEN, gen_d, double) SOME(GEN, gen_b, byte_t) SOME(GEN, gen_s, short) SOME(GEN, gen_i, int) SOME(GEN, gen_f, float)
FILLG(fillg_0, G, 0, ZERO) FILLG(fillg_1, G, 1, ZERO) FILLG(fillg_2, G, 2, ZERO) FILLG(fillg_4, G, 4, ZERO) FILLG(fillg3_0, G3, 0, SAME) FILLG(fillg3_1, G3, 1, SAME) FILLG(fillg3_3, G3, 3, SAME)
ALLR(CM, e, E, E) SOME(CM, eb, EB, EB) SOME(CM, ec, EC, EC) SOME(CM, ei, EI, EI) SOME(CM, eci, EC, EI)
// the pattern is called with the indices of each element
#define TR(id, T, R, X, ...) \
  IMPL(id)(T* p, ARGS) { POS; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); transform_indices(r, [](__VA_ARGS__) { return T(X); }); } \
  SPECU(id)(T* p, ARGS) { POS; ASSUME(p != nullptr); N##R { V##R; p[A##R] = T(X); } } \
  IMPL(id##_t)(T* p, ARGS) { POS; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); transform_index(r, [](const decltype(S##R)::index_type& ix) { U##R; return T(X); }); } \
  SPECU(id##_t)(T* p, ARGS) { POS; ASSUME(p != nullptr); N##R { V##R; p[A##R] = T(X); } }
#define V0
#define V1 L a = i + 1
#define V2 V1, b = j + 2
#define V3 V2, c = k + 3
#define V4 V3, d = l + 4
#define V5 V4, e = y + 5
#define V6 V5, f = z + 6
#define U0 (void)ix
#define U1 L a = std::get<0>(ix)
#define U2 U1, b = std::get<1>(ix)
#define U3 U2, c = std::get<2>(ix)
#define U4 U3, d = std::get<3>(ix)
#define U5 U4, e = std::get<4>(ix)
#define U6 U5, f = std::get<5>(ix)
TR(tr_0, L, 0, 42) TR(tr_1, L, 1, a * 7, L a) TR(tr_2, L, 2, a * 7 + b * 11, L a, L b) TR(tr_3, L, 3, a * 7 + b * 11 + c * 13, L a, L b, L c)
TR(tr_4, L, 4, a * 7 + b * 11 + c * 13 + d * 17, L a, L b, L c, L d) TR(tr_5, L, 5, a * 7 + b * 11 + c * 13 + d * 17 + e * 19, L a, L b, L c, L d, L e)
TR(tr_6, L, 6, a * 7 + b * 11 + c * 13 + d * 17 + e * 19 + f * 23, L a, L b, L c, L d, L e, L f)
TR(tri_1, int, 1, a, L a) TR(tri_2, int, 2, a + b, L a, L b) TR(trb_1, byte_t, 1, a, L a) TR(trs_2, short, 2, a - b, L a, L b) TR(trd_2, double, 2, a + b, L a, L b)
// the whole destination must be in the source: both ends of every dim
#define IN(b, m, a, n) (((a) <= (b)) & ((b) < (a) + (n)) & ((a) <= (b) + (m) - 1) & ((b) + (m) - 1 < (a) + (n)))
#define BX L a, L n, L b, L m, L c, L o, L e, L r
#define OKB ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && r >= 1)
#define RNG(id, F, EV, T, CT, U, SH, DH, C, LOOP, DA, SA) \
  IMPL(id)(CT* p, U* q, BX) { OKB; auto sh = SH; auto dh = DH; array_ref<CT, decltype(sh)> x(p, sh); array_ref<U, decltype(dh)> y(q, dh); F(x, y); } \
  SPECU(id)(CT* p, U* q, BX) { OKB; REQUIRE(C); LOOP EV(q + (DA), p + (SA)); }
// the dim under test is first, middle or last; the others agree
#define R2A(id, F, EV, T, CT, U) \
  RNG(id##_2a, F, EV, T, CT, U, (shape_of_rank<2>({a, n, 3}, {c, o, 40})), (shape_of_rank<2>({b, m, 50}, {c, o, 2})), IN(b, m, a, n), FOR(j, o) FOR(i, m), i * 50 + j * 2, (i + b - a) * 3 + j * 40) \
  RNG(id##_2b, F, EV, T, CT, U, (shape_of_rank<2>({c, o, 3}, {a, n, 40})), (shape_of_rank<2>({c, o, 50}, {b, m, 2})), IN(b, m, a, n), FOR(j, m) FOR(i, o), i * 50 + j * 2, i * 3 + (j + b - a) * 40) \
  RNG(id##_3a, F, EV, T, CT, U, (shape_of_rank<3>({a, n, 3}, {c, o, 40}, {e, r, 600})), (shape_of_rank<3>({b, m, 50}, {c, o, 2}, {e, r, 700})), IN(b, m, a, n), FOR(k, r) FOR(j, o) FOR(i, m), i * 50 + j * 2 + k * 700, (i + b - a) * 3 + j * 40 + k * 600) \
  RNG(id##_3b, F, EV, T, CT, U, (shape_of_rank<3>({e, r, 3}, {a, n, 40}, {c, o, 600})), (shape_of_rank<3>({e, r, 50}, {b, m, 2}, {c, o, 700})), IN(b, m, a, n), FOR(k, o) FOR(j, m) FOR(i, r), i * 50 + j * 2 + k * 700, i * 3 + (j + b - a) * 40 + k * 600) \
  RNG(id##_3c, F, EV, T, CT, U, (shape_of_rank<3>({e, r, 3}, {c, o, 40}, {a, n, 600})), (shape_of_rank<3>({e, r, 50}, {c, o, 2}, {b, m, 700})), IN(b, m, a, n), FOR(k, m) FOR(j, o) FOR(i, r), i * 50 + j * 2 + k * 700, i * 3 + j * 40 + (k + b - a) * 600) \
  RNG(id##_4, F, EV, T, CT, U, (shape_of_rank<4>({0, 2, 9000}, {c, o, 3}, {e, r, 40}, {a, n, 600})), (shape_of_rank<4>({0, 2, 9000}, {c, o, 50}, {e, r, 2}, {b, m, 700})), IN(b, m, a, n), FOR(l, m) FOR(k, r) FOR(j, o) FOR(i, 2), i * 9000 + j * 50 + k * 2 + l * 700, i * 9000 + j * 3 + k * 40 + (l + b - a) * 600) \
  RNG(id##_s, F, EV, T, CT, U, (shape<dim<>, fixed_dim<4, 3>>({a, n, 40}, {0, 4})), (shape<dense_dim<>, dim<dynamic, 4>>({b, m}, {0, 4, 700})), IN(b, m, a, n), FOR(j, 4) FOR(i, m), i + j * 700, (i + b - a) * 40 + j * 3) \
  RNG(id##_m, F, EV, T, CT, U, (matrix_shape<>({a, n, 90}, {c, o})), (matrix_shape<>({b, m, 80}, {c, o})), IN(b, m, a, n), FOR(i, m) FOR(j, o), i * 80 + j, (i + b - a) * 90 + j)
R2A(rc, copy, el_ca, E, const E, E) R2A(rm, nda::move, el_ma, E, E, E) R2A(rcx, copy, el_ca, EC, const EC, EI) R2A(rmx, nda::move, el_ma, EC, EC, EI)
