// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Changing the shape of a view moves its base by the offset, at every rank and for every size of element.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#include "ranks.h"
// the same shape again
#define ST(id, T, R) \
  IMPL(id)(T* p, ARGS, L x) { POS; ASSUME(x == 0); array_ref<T, decltype(S##R)> r(p, S##R); r.set_shape(S##R, x); view(0, r); r.set_shape(S##R); view(100, r); view(200, reinterpret_shape(r, S##R)); view(300, reinterpret_shape(r, S##R, x)); } \
  SPEC(id)(T* p, ARGS, L x) { POS; ASSUME(x == 0); outp(0, p); E##R(0) outp(100, p); E##R(100) outp(200, p); E##R(200) outp(300, p); E##R(300) }
#define STR(id, T) ST(id##_0, T, 0) ST(id##_1, T, 1) ST(id##_2, T, 2) ST(id##_3, T, 3)
STR(st_d, double) STR(st_f, float) STR(st_b, const byte_t)
#define FIX(k, v) sdm(k, 0, v, 1);
#define SH2(v, s) shape_of_rank<2>({0, 2, 30}, {0, v, s})
#define SH3(v, s) shape_of_rank<3>({0, 2, 30}, {0, v, s}, {0, 3, 100})
#define SH4(v, s) shape_of_rank<4>({0, 2, 30}, {0, v, s}, {0, 3, 100}, {0, 2, 7000})
#define SH1(v, s) shape_of_rank<1>(dim<>(0, v, s))
#define MV(id, T, SH, C, O) \
  IMPL(id)(T* p, L n, L m, L x) { ASSUME(p != nullptr && n >= 1 && m >= 1 && n <= 20 && m <= 20); REQUIRE(x >= (C) && x + (m - 1) <= (n - 1) + (C)); array_ref<T, decltype(SH(n, 1))> r(p, SH(n, 1)); r.set_shape(SH(m, 1), x); outp(0, r.base()); out(1, r.shape().size()); } \
  SPEC(id)(T* p, L n, L m, L x) { ASSUME(p != nullptr && n >= 1 && m >= 1 && n <= 20 && m <= 20); REQUIRE(x >= (C) && x + (m - 1) <= (n - 1) + (C)); outp(0, p + x); out(1, m * (O)); } \
  IMPL(id##_neg)(T* p, L n, L m, L x) { ASSUME(p != nullptr && n >= 1 && m >= 1 && n <= 20 && m <= 20); REQUIRE(x <= (C) && x - (m - 1) >= (C) - (n - 1)); array_ref<T, decltype(SH(n, 1))> r(p, SH(n, -1)); r.set_shape(SH(m, -1), x); outp(0, r.base()); out(1, r.shape().size()); } \
  SPEC(id##_neg)(T* p, L n, L m, L x) { ASSUME(p != nullptr && n >= 1 && m >= 1 && n <= 20 && m <= 20); REQUIRE(x <= (C) && x - (m - 1) >= (C) - (n - 1)); outp(0, p + x); out(1, m * (O)); }
#define MVR(id, T) MV(id##_1, T, SH1, 0, 1) MV(id##_2, T, SH2, 0, 2) MV(id##_3, T, SH3, 0, 6) MV(id##_4, T, SH4, 0, 12)
MVR(mv_d, double) MVR(mv_f, float) MVR(mv_b, const byte_t) MVR(mv_s, const short)
