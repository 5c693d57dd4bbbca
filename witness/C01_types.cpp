// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Where elements are, at every rank and for every size and constness of element.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#include "ranks.h"
#define O0 0
#define O_(k) (i##k - a##k) * s##k
#define O1 O_(0)
#define O2 O1 + O_(1)
#define O3 O2 + O_(2)
#define O4 O3 + O_(3)
#define O5 O4 + O_(4)
#define O6 O5 + O_(5)
#define I0
#define I1 i0
#define I2 I1, i1
#define I3 I2, i2
#define I4 I3, i3
#define I5 I4, i4
#define I6 I5, i5
#define M_(k) + (s##k < 0 ? (n##k - 1) * s##k : 0)
#define M0
#define M1 M_(0)
#define M2 M1 M_(1)
#define M3 M2 M_(2)
#define IXS L i0, L i1, L i2, L i3, L i4, L i5
#define EL(id, T, R) \
  IMPL(id)(T* p, ARGS, IXS) { POS; typedef decltype(S##R) S; array_ref<T, S> r(p, S##R); outp(0, &r(I##R)); outp(1, &r[S::index_type(I##R)]); outp(2, r.base()); array_ref<const T, S> c(r); outp(3, &c(I##R)); outp(4, &c[S::index_type(I##R)]); } \
  SPEC(id)(T* p, ARGS, IXS) { POS; outp(0, p + (O##R)); outp(1, p + (O##R)); outp(2, p); outp(3, p + (O##R)); outp(4, p + (O##R)); }
#define ELR(id, T) EL(id##_0, T, 0) EL(id##_1, T, 1) EL(id##_2, T, 2) EL(id##_3, T, 3) EL(id##_4, T, 4) EL(id##_5, T, 5) EL(id##_6, T, 6)
ELR(el_d, double) ELR(el_b, byte_t) ELR(el_s, short) ELR(el_f, float) ELR(el_v, vec3) ELR(el_cd, const double) ELR(el_cf, const float) ELR(el_cb, const byte_t)
#define DA(id, T, R) \
  IMPL(id)(T* p, ARGS) { POS; array_ref<T, decltype(S##R)> r(p, S##R); outp(0, r.data()); } \
  SPEC(id)(T* p, ARGS) { POS; outp(0, p M##R); }
#define DAR(id, T) DA(id##_0, T, 0) DA(id##_1, T, 1) DA(id##_2, T, 2) DA(id##_3, T, 3)
DAR(da_d, double) DAR(da_b, byte_t) DAR(da_f, float) DAR(da_cd, const double) DAR(da_cf, const float) DAR(da_v, vec3)
// with the strides' signs fixed, ranks four to six
#define NEG ASSUME(s0 < 0 && s1 > 0 && s2 < 0 && s3 < 0 && s4 > 0 && s5 < 0)
#define DN(id, T, R, X) \
  IMPL(id)(T* p, ARGS) { POS; NEG; array_ref<T, decltype(S##R)> r(p, S##R); outp(0, r.data()); } \
  SPEC(id)(T* p, ARGS) { POS; NEG; outp(0, p + (X)); }
#define N4 (n0 - 1) * s0 + (n2 - 1) * s2 + (n3 - 1) * s3
#define DNR(id, T) DN(id##_4, T, 4, N4) DN(id##_5, T, 5, N4) DN(id##_6, T, 6, N4 + (n5 - 1) * s5)
DNR(dn_d, double) DNR(dn_b, const byte_t)
