// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Metrics of views at every rank and for every size and constness of element.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#include "ranks.h"
#define Z0 1
#define Z1 Z0 * n0
#define Z2 Z1 * n1
#define Z3 Z2 * n2
#define Z4 Z3 * n3
#define Z5 Z4 * n4
#define Z6 Z5 * n5
#define X0 0
#define X1 X0 | (n0 == 0)
#define X2 X1 | (n1 == 0)
#define X3 X2 | (n2 == 0)
#define X4 X3 | (n3 == 0)
#define X5 X4 | (n4 == 0)
#define X6 X5 | (n5 == 0)
#define GE(k) (n##k >= 0 && s##k != unresolved)
#define NN ASSUME(GE(0) && GE(1) && GE(2) && GE(3) && GE(4) && GE(5))
#define EM(id, T, R) \
  IMPL(id)(T* p, ARGS) { NN; ASSUME(p != nullptr); array_ref<T, decltype(S##R)> r(p, S##R); out(0, r.empty()); out(1, r.shape().empty()); const array_ref<const T, decltype(S##R)> c(r); out(2, c.empty()); array_ref<T, decltype(S##R)> z(nullptr, S##R); out(3, z.empty()); } \
  SPEC(id)(T* p, ARGS) { NN; ASSUME(p != nullptr); out(0, (X##R) != 0); out(1, (X##R) != 0); out(2, (X##R) != 0); out(3, 1); }
#define SZ(id, T, R) \
  IMPL(id)(T* p, ARGS) { POS; array_ref<T, decltype(S##R)> r(p, S##R); out(0, r.size()); view(10, r); } \
  SPEC(id)(T* p, ARGS) { POS; out(0, Z##R); outp(10, p); E##R(10) }
#define EMR(id, T) EM(id##_0, T, 0) EM(id##_1, T, 1) EM(id##_2, T, 2) EM(id##_3, T, 3)
EMR(em_d, double) EMR(em_f, float) EMR(em_b, byte_t) EMR(em_cd, const double) EMR(em_v, vec3) EM(em_d_4, double, 4) EM(em_f_4, const float, 4) EM(em_d_5, double, 5)
#define SZR(id, T) SZ(id##_0, T, 0) SZ(id##_1, T, 1) SZ(id##_2, T, 2) SZ(id##_3, T, 3) SZ(id##_4, T, 4)
SZR(sz_d, double) SZR(sz_f, float) SZR(sz_cb, const byte_t)
