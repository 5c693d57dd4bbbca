// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Views of the same elements at every rank for every size and kind of element.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#include "ranks.h"
// reinterpreted elements, constness removed and added, shapes of the same or another rank
#define RI(id, T, U, R) \
  IMPL(id)(T* p, ARGS) { POS; typedef decltype(S##R) S; array_ref<T, S> r(p, S##R); view(0, reinterpret<U>(r)); array_ref<const T, S> c(r); view(100, reinterpret<const U>(c)); view(200, reinterpret_const<T>(c)); view(300, c); view(400, r.cref()); view(500, r.ref()); view(600, reinterpret<T>(r)); view(700, reinterpret<const U>(r)); view(800, reinterpret_const<const T>(c)); } \
  SPEC(id)(T* p, ARGS) { POS; outp(0, p); E##R(0) outp(100, p); E##R(100) outp(200, p); E##R(200) outp(300, p); E##R(300) outp(400, p); E##R(400) outp(500, p); E##R(500) outp(600, p); E##R(600) outp(700, p); E##R(700) outp(800, p); E##R(800) }
#define RIR(id, T, U) RI(id##_0, T, U, 0) RI(id##_1, T, U, 1) RI(id##_2, T, U, 2) RI(id##_3, T, U, 3) RI(id##_4, T, U, 4) RI(id##_5, T, U, 5) RI(id##_6, T, U, 6)
RIR(ri_d, double, L) RIR(ri_b, byte_t, sbyte_t) RIR(ri_f, float, int) RIR(ri_s, short, unsigned short) RIR(ri_v, vec3, tri3)
// converting the shape of a view keeps its base: to itself, to more dims, to fewer
#define CV(id, T, R, Q, W, PRE, X) \
  IMPL(id)(T* p, ARGS) { POS; PRE; array_ref<T, decltype(S##R)> r(p, S##R); view(0, convert_shape<shape_of_rank<Q>>(r)); } \
  SPEC(id)(T* p, ARGS) { POS; PRE; outp(0, p); E##W(0) X }
#define ADD(k) out(1 + 3 * k, 0); out(2 + 3 * k, 1); out(3 + 3 * k, 0);
#define SAMER(id, T) CV(id##_00, T, 0, 0, 0, , ) CV(id##_11, T, 1, 1, 1, , ) CV(id##_22, T, 2, 2, 2, , ) CV(id##_33, T, 3, 3, 3, , ) CV(id##_44, T, 4, 4, 4, , ) CV(id##_55, T, 5, 5, 5, , ) CV(id##_66, T, 6, 6, 6, , )
#define FEWER(id, T) CV(id##_10, T, 1, 0, 0, ASSUME(n0 == 1), ) CV(id##_21, T, 2, 1, 1, ASSUME(n1 == 1), ) CV(id##_32, T, 3, 2, 2, ASSUME(n2 == 1), ) CV(id##_31, T, 3, 1, 1, ASSUME(n1 == 1 && n2 == 1), ) CV(id##_43, T, 4, 3, 3, ASSUME(n3 == 1), ) CV(id##_54, T, 5, 4, 4, ASSUME(n4 == 1), ) CV(id##_65, T, 6, 5, 5, ASSUME(n5 == 1), )
SAMER(cv_d, double) SAMER(cv_b, const byte_t) SAMER(cv_f, float) FEWER(cw_d, double) FEWER(cw_f, const float)
// more dims: the added ones have min zero and extent one
#define MORE(id, T, R, Q) \
  IMPL(id)(T* p, ARGS) { POS; array_ref<T, decltype(S##R)> r(p, S##R); auto v = convert_shape<shape_of_rank<Q>>(r); outp(0, v.base()); dims_of<0, R>::go(0, v.shape()); auto x = v.shape().template dim<Q - 1>(); out(90, x.min()); out(91, x.extent()); } \
  SPEC(id)(T* p, ARGS) { POS; outp(0, p); E##R(0) out(90, 0); out(91, 1); }
#define MORER(id, T) MORE(id##_01, T, 0, 1) MORE(id##_12, T, 1, 2) MORE(id##_13, T, 1, 3) MORE(id##_23, T, 2, 3) MORE(id##_34, T, 3, 4) MORE(id##_45, T, 4, 5) MORE(id##_56, T, 5, 6)
MORER(cx_d, double) MORER(cx_f, const float)
