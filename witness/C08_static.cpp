// modes: ndebug assert
// thorough: ndebug17
// Conversion between dims and shapes for every compatible mix of parts known at compile time on either side.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void dmv(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define Q L a, L n, L s, L b, L m, L t
// constructed, assigned, and as the first or the last dim of a shape
#define CONV(id, T, S, A, N, W, ok) \
  IMPL(c_##id)(Q) { REQUIRE(ok); T x = S; dm(0, x); T y = T(); y = S; dm(3, y); shape<T, dim<>> h = shape<decltype(S), dim<>>(S, dim<>(b, m, t)); dm(6, h.template dim<0>()); dm(9, h.template dim<1>()); shape<dim<>, T> g; g = shape<dim<>, decltype(S)>(dim<>(b, m, t), S); dm(12, g.template dim<0>()); dm(15, g.template dim<1>()); auto v = convert_shape<shape<T>>(shape<decltype(S)>(S)); dm(18, v.template dim<0>()); } \
  SPEC(c_##id)(Q) { REQUIRE(ok); dmv(0, A, N, W); dmv(3, A, N, W); dmv(6, A, N, W); dmv(9, b, m, t); dmv(12, b, m, t); dmv(15, A, N, W); dmv(18, A, N, W); }
// the predicates, for shapes of rank one to three
#define PRED(id, T, S, ok) \
  IMPL(p_##id)(Q) { ASSUME(s != unresolved && t != unresolved); typedef decltype(S) U; dim<> o(b, m, t); \
    out(0, is_compatible<shape<T>>(shape<U>(S))); out(1, is_compatible<shape<T, dim<>>>(shape<U, dim<>>(S, o))); out(2, is_compatible<shape<dim<>, dim<>, T>>(shape<dim<>, dim<>, U>(o, o, S))); \
    out(3, is_explicitly_compatible<shape<T>>(shape<U>(S))); out(4, is_explicitly_compatible<shape<dim<>, T>>(shape<dim<>, U>(o, S))); out(5, is_explicitly_compatible<shape<T>>(shape<U, dim<>>(S, o))); out(6, is_explicitly_compatible<shape<T, dim<>>>(shape<U>(S))); } \
  SPEC(p_##id)(Q) { ASSUME(s != unresolved && t != unresolved); bool k = (ok); out(0, k); out(1, k); out(2, k); out(3, k); out(4, k); out(5, k & (m == 1)); out(6, k); }
typedef dim<3, dynamic, dynamic> T1; CONV(k0, T1, (dim<dynamic, dynamic, dynamic>(a, n, s)), 3, n, s, (a == 3))
PRED(k0, T1, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 3))
typedef dim<3, dynamic, dynamic> T2; CONV(k1, T2, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, s, true)
PRED(k1, T2, (dim<3, dynamic, dynamic>(3, n, s)), true)
typedef dim<3, dynamic, dynamic> T3; CONV(k2, T3, (dim<dynamic, 4, dynamic>(a, 4, s)), 3, 4, s, (a == 3))
PRED(k2, T3, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 3))
typedef dim<3, dynamic, dynamic> T4; CONV(k3, T4, (dim<dynamic, dynamic, 1>(a, n, 1)), 3, n, 1, (a == 3))
PRED(k3, T4, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 3))
typedef dim<3, dynamic, dynamic> T5; CONV(k4, T5, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, s, true)
PRED(k4, T5, (dim<3, 4, dynamic>(3, 4, s)), true)
typedef dim<3, dynamic, dynamic> T6; CONV(k5, T6, (dim<dynamic, 4, 1>(a, 4, 1)), 3, 4, 1, (a == 3))
PRED(k5, T6, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 3))
typedef dim<3, dynamic, dynamic> T7; CONV(k6, T7, (dim<3, dynamic, 1>(3, n, 1)), 3, n, 1, true)
PRED(k6, T7, (dim<3, dynamic, 1>(3, n, 1)), true)
typedef dim<3, dynamic, dynamic> T8; CONV(k7, T8, (dim<dynamic, 1, dynamic>(a, 1, s)), 3, 1, s, (a == 3))
PRED(k7, T8, (dim<dynamic, 1, dynamic>(a, 1, s)), (a == 3))
typedef dim<3, dynamic, dynamic> T9; CONV(k8, T9, (dim<dynamic, dynamic, -2>(a, n, -2)), 3, n, -2, (a == 3))
PRED(k8, T9, (dim<dynamic, dynamic, -2>(a, n, -2)), (a == 3))
typedef dim<3, dynamic, dynamic> T10; CONV(k9, T10, (dim<dynamic, dynamic, 0>(a, n, 0)), 3, n, 0, (a == 3))
PRED(k9, T10, (dim<dynamic, dynamic, 0>(a, n, 0)), (a == 3))
typedef dim<3, dynamic, dynamic> T11; CONV(k10, T11, (dim<dynamic, dynamic, 6>(a, n, 6)), 3, n, 6, (a == 3))
PRED(k10, T11, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == 3))
typedef dim<dynamic, 4, dynamic> T12; CONV(k11, T12, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, 4, s, (n == 4))
PRED(k11, T12, (dim<dynamic, dynamic, dynamic>(a, n, s)), (n == 4))
typedef dim<dynamic, 4, dynamic> T13; CONV(k12, T13, (dim<3, dynamic, dynamic>(3, n, s)), 3, 4, s, (n == 4))
PRED(k12, T13, (dim<3, dynamic, dynamic>(3, n, s)), (n == 4))
typedef dim<dynamic, 4, dynamic> T14; CONV(k13, T14, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, s, true)
PRED(k13, T14, (dim<dynamic, 4, dynamic>(a, 4, s)), true)
typedef dim<dynamic, 4, dynamic> T15; CONV(k14, T15, (dim<dynamic, dynamic, 1>(a, n, 1)), a, 4, 1, (n == 4))
PRED(k14, T15, (dim<dynamic, dynamic, 1>(a, n, 1)), (n == 4))
typedef dim<dynamic, 4, dynamic> T16; CONV(k15, T16, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, s, true)
PRED(k15, T16, (dim<3, 4, dynamic>(3, 4, s)), true)
typedef dim<dynamic, 4, dynamic> T17; CONV(k16, T17, (dim<dynamic, 4, 1>(a, 4, 1)), a, 4, 1, true)
PRED(k16, T17, (dim<dynamic, 4, 1>(a, 4, 1)), true)
typedef dim<dynamic, 4, dynamic> T18; CONV(k17, T18, (dim<3, dynamic, 1>(3, n, 1)), 3, 4, 1, (n == 4))
PRED(k17, T18, (dim<3, dynamic, 1>(3, n, 1)), (n == 4))
typedef dim<dynamic, 4, dynamic> T19; CONV(k18, T19, (dim<dynamic, dynamic, -2>(a, n, -2)), a, 4, -2, (n == 4))
PRED(k18, T19, (dim<dynamic, dynamic, -2>(a, n, -2)), (n == 4))
typedef dim<dynamic, 4, dynamic> T20; CONV(k19, T20, (dim<dynamic, dynamic, 0>(a, n, 0)), a, 4, 0, (n == 4))
PRED(k19, T20, (dim<dynamic, dynamic, 0>(a, n, 0)), (n == 4))
typedef dim<dynamic, 4, dynamic> T21; CONV(k20, T21, (dim<dynamic, dynamic, 6>(a, n, 6)), a, 4, 6, (n == 4))
PRED(k20, T21, (dim<dynamic, dynamic, 6>(a, n, 6)), (n == 4))
typedef dim<dynamic, 4, dynamic> T22; CONV(k21, T22, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, 4, s, (n == 4))
PRED(k21, T22, (dim<-5, dynamic, dynamic>(-5, n, s)), (n == 4))
typedef dim<dynamic, 4, dynamic> T23; CONV(k22, T23, (dim<0, dynamic, dynamic>(0, n, s)), 0, 4, s, (n == 4))
PRED(k22, T23, (dim<0, dynamic, dynamic>(0, n, s)), (n == 4))
typedef dim<dynamic, dynamic, 1> T24; CONV(k23, T24, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, n, 1, ((s == 1) | (s == unresolved)))
PRED(k23, T24, (dim<dynamic, dynamic, dynamic>(a, n, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T25; CONV(k24, T25, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, 1, ((s == 1) | (s == unresolved)))
PRED(k24, T25, (dim<3, dynamic, dynamic>(3, n, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T26; CONV(k25, T26, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k25, T26, (dim<dynamic, 4, dynamic>(a, 4, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T27; CONV(k26, T27, (dim<dynamic, dynamic, 1>(a, n, 1)), a, n, 1, true)
PRED(k26, T27, (dim<dynamic, dynamic, 1>(a, n, 1)), true)
typedef dim<dynamic, dynamic, 1> T28; CONV(k27, T28, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k27, T28, (dim<3, 4, dynamic>(3, 4, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T29; CONV(k28, T29, (dim<dynamic, 4, 1>(a, 4, 1)), a, 4, 1, true)
PRED(k28, T29, (dim<dynamic, 4, 1>(a, 4, 1)), true)
typedef dim<dynamic, dynamic, 1> T30; CONV(k29, T30, (dim<3, dynamic, 1>(3, n, 1)), 3, n, 1, true)
PRED(k29, T30, (dim<3, dynamic, 1>(3, n, 1)), true)
typedef dim<dynamic, dynamic, 1> T31; CONV(k30, T31, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, 1, ((s == 1) | (s == unresolved)))
PRED(k30, T31, (dim<dynamic, 1, dynamic>(a, 1, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T32; CONV(k31, T32, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, 1, ((s == 1) | (s == unresolved)))
PRED(k31, T32, (dim<-5, dynamic, dynamic>(-5, n, s)), (s == 1))
typedef dim<dynamic, dynamic, 1> T33; CONV(k32, T33, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, 1, ((s == 1) | (s == unresolved)))
PRED(k32, T33, (dim<0, dynamic, dynamic>(0, n, s)), (s == 1))
typedef dim<3, 4, dynamic> T34; CONV(k33, T34, (dim<dynamic, dynamic, dynamic>(a, n, s)), 3, 4, s, (a == 3) & (n == 4))
PRED(k33, T34, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 3) & (n == 4))
typedef dim<3, 4, dynamic> T35; CONV(k34, T35, (dim<3, dynamic, dynamic>(3, n, s)), 3, 4, s, (n == 4))
PRED(k34, T35, (dim<3, dynamic, dynamic>(3, n, s)), (n == 4))
typedef dim<3, 4, dynamic> T36; CONV(k35, T36, (dim<dynamic, 4, dynamic>(a, 4, s)), 3, 4, s, (a == 3))
PRED(k35, T36, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 3))
typedef dim<3, 4, dynamic> T37; CONV(k36, T37, (dim<dynamic, dynamic, 1>(a, n, 1)), 3, 4, 1, (a == 3) & (n == 4))
PRED(k36, T37, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 3) & (n == 4))
typedef dim<3, 4, dynamic> T38; CONV(k37, T38, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, s, true)
PRED(k37, T38, (dim<3, 4, dynamic>(3, 4, s)), true)
typedef dim<3, 4, dynamic> T39; CONV(k38, T39, (dim<dynamic, 4, 1>(a, 4, 1)), 3, 4, 1, (a == 3))
PRED(k38, T39, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 3))
typedef dim<3, 4, dynamic> T40; CONV(k39, T40, (dim<3, dynamic, 1>(3, n, 1)), 3, 4, 1, (n == 4))
PRED(k39, T40, (dim<3, dynamic, 1>(3, n, 1)), (n == 4))
typedef dim<3, 4, dynamic> T41; CONV(k40, T41, (dim<dynamic, dynamic, -2>(a, n, -2)), 3, 4, -2, (a == 3) & (n == 4))
PRED(k40, T41, (dim<dynamic, dynamic, -2>(a, n, -2)), (a == 3) & (n == 4))
typedef dim<3, 4, dynamic> T42; CONV(k41, T42, (dim<dynamic, dynamic, 0>(a, n, 0)), 3, 4, 0, (a == 3) & (n == 4))
PRED(k41, T42, (dim<dynamic, dynamic, 0>(a, n, 0)), (a == 3) & (n == 4))
typedef dim<3, 4, dynamic> T43; CONV(k42, T43, (dim<dynamic, dynamic, 6>(a, n, 6)), 3, 4, 6, (a == 3) & (n == 4))
PRED(k42, T43, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == 3) & (n == 4))
typedef dim<3, dynamic, 1> T44; CONV(k43, T44, (dim<dynamic, dynamic, dynamic>(a, n, s)), 3, n, 1, (a == 3) & ((s == 1) | (s == unresolved)))
PRED(k43, T44, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 3) & (s == 1))
typedef dim<3, dynamic, 1> T45; CONV(k44, T45, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, 1, ((s == 1) | (s == unresolved)))
PRED(k44, T45, (dim<3, dynamic, dynamic>(3, n, s)), (s == 1))
typedef dim<3, dynamic, 1> T46; CONV(k45, T46, (dim<dynamic, 4, dynamic>(a, 4, s)), 3, 4, 1, (a == 3) & ((s == 1) | (s == unresolved)))
PRED(k45, T46, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 3) & (s == 1))
typedef dim<3, dynamic, 1> T47; CONV(k46, T47, (dim<dynamic, dynamic, 1>(a, n, 1)), 3, n, 1, (a == 3))
PRED(k46, T47, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 3))
typedef dim<3, dynamic, 1> T48; CONV(k47, T48, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k47, T48, (dim<3, 4, dynamic>(3, 4, s)), (s == 1))
typedef dim<3, dynamic, 1> T49; CONV(k48, T49, (dim<dynamic, 4, 1>(a, 4, 1)), 3, 4, 1, (a == 3))
PRED(k48, T49, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 3))
typedef dim<3, dynamic, 1> T50; CONV(k49, T50, (dim<3, dynamic, 1>(3, n, 1)), 3, n, 1, true)
PRED(k49, T50, (dim<3, dynamic, 1>(3, n, 1)), true)
typedef dim<3, dynamic, 1> T51; CONV(k50, T51, (dim<dynamic, 1, dynamic>(a, 1, s)), 3, 1, 1, (a == 3) & ((s == 1) | (s == unresolved)))
PRED(k50, T51, (dim<dynamic, 1, dynamic>(a, 1, s)), (a == 3) & (s == 1))
typedef dim<dynamic, 4, 1> T52; CONV(k51, T52, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, 4, 1, (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k51, T52, (dim<dynamic, dynamic, dynamic>(a, n, s)), (n == 4) & (s == 1))
typedef dim<dynamic, 4, 1> T53; CONV(k52, T53, (dim<3, dynamic, dynamic>(3, n, s)), 3, 4, 1, (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k52, T53, (dim<3, dynamic, dynamic>(3, n, s)), (n == 4) & (s == 1))
typedef dim<dynamic, 4, 1> T54; CONV(k53, T54, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k53, T54, (dim<dynamic, 4, dynamic>(a, 4, s)), (s == 1))
typedef dim<dynamic, 4, 1> T55; CONV(k54, T55, (dim<dynamic, dynamic, 1>(a, n, 1)), a, 4, 1, (n == 4))
PRED(k54, T55, (dim<dynamic, dynamic, 1>(a, n, 1)), (n == 4))
typedef dim<dynamic, 4, 1> T56; CONV(k55, T56, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k55, T56, (dim<3, 4, dynamic>(3, 4, s)), (s == 1))
typedef dim<dynamic, 4, 1> T57; CONV(k56, T57, (dim<dynamic, 4, 1>(a, 4, 1)), a, 4, 1, true)
PRED(k56, T57, (dim<dynamic, 4, 1>(a, 4, 1)), true)
typedef dim<dynamic, 4, 1> T58; CONV(k57, T58, (dim<3, dynamic, 1>(3, n, 1)), 3, 4, 1, (n == 4))
PRED(k57, T58, (dim<3, dynamic, 1>(3, n, 1)), (n == 4))
typedef dim<dynamic, 4, 1> T59; CONV(k58, T59, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, 4, 1, (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k58, T59, (dim<-5, dynamic, dynamic>(-5, n, s)), (n == 4) & (s == 1))
typedef dim<dynamic, 4, 1> T60; CONV(k59, T60, (dim<0, dynamic, dynamic>(0, n, s)), 0, 4, 1, (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k59, T60, (dim<0, dynamic, dynamic>(0, n, s)), (n == 4) & (s == 1))
typedef dim<3, 4, 1> T61; CONV(k60, T61, (dim<dynamic, dynamic, dynamic>(a, n, s)), 3, 4, 1, (a == 3) & (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k60, T61, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 3) & (n == 4) & (s == 1))
typedef dim<3, 4, 1> T62; CONV(k61, T62, (dim<3, dynamic, dynamic>(3, n, s)), 3, 4, 1, (n == 4) & ((s == 1) | (s == unresolved)))
PRED(k61, T62, (dim<3, dynamic, dynamic>(3, n, s)), (n == 4) & (s == 1))
typedef dim<3, 4, 1> T63; CONV(k62, T63, (dim<dynamic, 4, dynamic>(a, 4, s)), 3, 4, 1, (a == 3) & ((s == 1) | (s == unresolved)))
PRED(k62, T63, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 3) & (s == 1))
typedef dim<3, 4, 1> T64; CONV(k63, T64, (dim<dynamic, dynamic, 1>(a, n, 1)), 3, 4, 1, (a == 3) & (n == 4))
PRED(k63, T64, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 3) & (n == 4))
typedef dim<3, 4, 1> T65; CONV(k64, T65, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 1, ((s == 1) | (s == unresolved)))
PRED(k64, T65, (dim<3, 4, dynamic>(3, 4, s)), (s == 1))
typedef dim<3, 4, 1> T66; CONV(k65, T66, (dim<dynamic, 4, 1>(a, 4, 1)), 3, 4, 1, (a == 3))
PRED(k65, T66, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 3))
typedef dim<3, 4, 1> T67; CONV(k66, T67, (dim<3, dynamic, 1>(3, n, 1)), 3, 4, 1, (n == 4))
PRED(k66, T67, (dim<3, dynamic, 1>(3, n, 1)), (n == 4))
typedef dim<0, dynamic, dynamic> T68; CONV(k67, T68, (dim<dynamic, dynamic, dynamic>(a, n, s)), 0, n, s, (a == 0))
PRED(k67, T68, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 0))
typedef dim<0, dynamic, dynamic> T69; CONV(k68, T69, (dim<dynamic, 4, dynamic>(a, 4, s)), 0, 4, s, (a == 0))
PRED(k68, T69, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 0))
typedef dim<0, dynamic, dynamic> T70; CONV(k69, T70, (dim<dynamic, dynamic, 1>(a, n, 1)), 0, n, 1, (a == 0))
PRED(k69, T70, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 0))
typedef dim<0, dynamic, dynamic> T71; CONV(k70, T71, (dim<dynamic, 4, 1>(a, 4, 1)), 0, 4, 1, (a == 0))
PRED(k70, T71, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 0))
typedef dim<0, dynamic, dynamic> T72; CONV(k71, T72, (dim<dynamic, 1, dynamic>(a, 1, s)), 0, 1, s, (a == 0))
PRED(k71, T72, (dim<dynamic, 1, dynamic>(a, 1, s)), (a == 0))
typedef dim<0, dynamic, dynamic> T73; CONV(k72, T73, (dim<dynamic, dynamic, -2>(a, n, -2)), 0, n, -2, (a == 0))
PRED(k72, T73, (dim<dynamic, dynamic, -2>(a, n, -2)), (a == 0))
typedef dim<0, dynamic, dynamic> T74; CONV(k73, T74, (dim<dynamic, dynamic, 0>(a, n, 0)), 0, n, 0, (a == 0))
PRED(k73, T74, (dim<dynamic, dynamic, 0>(a, n, 0)), (a == 0))
typedef dim<0, dynamic, dynamic> T75; CONV(k74, T75, (dim<dynamic, dynamic, 6>(a, n, 6)), 0, n, 6, (a == 0))
PRED(k74, T75, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == 0))
typedef dim<0, dynamic, dynamic> T76; CONV(k75, T76, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, s, true)
PRED(k75, T76, (dim<0, dynamic, dynamic>(0, n, s)), true)
typedef dim<dynamic, dynamic, 0> T77; CONV(k76, T77, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, n, 0, ((s == 0) | (s == unresolved)))
PRED(k76, T77, (dim<dynamic, dynamic, dynamic>(a, n, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T78; CONV(k77, T78, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, 0, ((s == 0) | (s == unresolved)))
PRED(k77, T78, (dim<3, dynamic, dynamic>(3, n, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T79; CONV(k78, T79, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, 0, ((s == 0) | (s == unresolved)))
PRED(k78, T79, (dim<dynamic, 4, dynamic>(a, 4, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T80; CONV(k79, T80, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 0, ((s == 0) | (s == unresolved)))
PRED(k79, T80, (dim<3, 4, dynamic>(3, 4, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T81; CONV(k80, T81, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, 0, ((s == 0) | (s == unresolved)))
PRED(k80, T81, (dim<dynamic, 1, dynamic>(a, 1, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T82; CONV(k81, T82, (dim<dynamic, dynamic, 0>(a, n, 0)), a, n, 0, true)
PRED(k81, T82, (dim<dynamic, dynamic, 0>(a, n, 0)), true)
typedef dim<dynamic, dynamic, 0> T83; CONV(k82, T83, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, 0, ((s == 0) | (s == unresolved)))
PRED(k82, T83, (dim<-5, dynamic, dynamic>(-5, n, s)), (s == 0))
typedef dim<dynamic, dynamic, 0> T84; CONV(k83, T84, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, 0, ((s == 0) | (s == unresolved)))
PRED(k83, T84, (dim<0, dynamic, dynamic>(0, n, s)), (s == 0))
typedef dim<dynamic, dynamic, -2> T85; CONV(k84, T85, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, n, -2, ((s == -2) | (s == unresolved)))
PRED(k84, T85, (dim<dynamic, dynamic, dynamic>(a, n, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T86; CONV(k85, T86, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, -2, ((s == -2) | (s == unresolved)))
PRED(k85, T86, (dim<3, dynamic, dynamic>(3, n, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T87; CONV(k86, T87, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, -2, ((s == -2) | (s == unresolved)))
PRED(k86, T87, (dim<dynamic, 4, dynamic>(a, 4, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T88; CONV(k87, T88, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, -2, ((s == -2) | (s == unresolved)))
PRED(k87, T88, (dim<3, 4, dynamic>(3, 4, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T89; CONV(k88, T89, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, -2, ((s == -2) | (s == unresolved)))
PRED(k88, T89, (dim<dynamic, 1, dynamic>(a, 1, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T90; CONV(k89, T90, (dim<dynamic, dynamic, -2>(a, n, -2)), a, n, -2, true)
PRED(k89, T90, (dim<dynamic, dynamic, -2>(a, n, -2)), true)
typedef dim<dynamic, dynamic, -2> T91; CONV(k90, T91, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, -2, ((s == -2) | (s == unresolved)))
PRED(k90, T91, (dim<-5, dynamic, dynamic>(-5, n, s)), (s == -2))
typedef dim<dynamic, dynamic, -2> T92; CONV(k91, T92, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, -2, ((s == -2) | (s == unresolved)))
PRED(k91, T92, (dim<0, dynamic, dynamic>(0, n, s)), (s == -2))
typedef dim<dynamic, dynamic, 6> T93; CONV(k92, T93, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, n, 6, ((s == 6) | (s == unresolved)))
PRED(k92, T93, (dim<dynamic, dynamic, dynamic>(a, n, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T94; CONV(k93, T94, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, 6, ((s == 6) | (s == unresolved)))
PRED(k93, T94, (dim<3, dynamic, dynamic>(3, n, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T95; CONV(k94, T95, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, 6, ((s == 6) | (s == unresolved)))
PRED(k94, T95, (dim<dynamic, 4, dynamic>(a, 4, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T96; CONV(k95, T96, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, 6, ((s == 6) | (s == unresolved)))
PRED(k95, T96, (dim<3, 4, dynamic>(3, 4, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T97; CONV(k96, T97, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, 6, ((s == 6) | (s == unresolved)))
PRED(k96, T97, (dim<dynamic, 1, dynamic>(a, 1, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T98; CONV(k97, T98, (dim<dynamic, dynamic, 6>(a, n, 6)), a, n, 6, true)
PRED(k97, T98, (dim<dynamic, dynamic, 6>(a, n, 6)), true)
typedef dim<dynamic, dynamic, 6> T99; CONV(k98, T99, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, 6, ((s == 6) | (s == unresolved)))
PRED(k98, T99, (dim<-5, dynamic, dynamic>(-5, n, s)), (s == 6))
typedef dim<dynamic, dynamic, 6> T100; CONV(k99, T100, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, 6, ((s == 6) | (s == unresolved)))
PRED(k99, T100, (dim<0, dynamic, dynamic>(0, n, s)), (s == 6))
typedef dim<-5, 1, dynamic> T101; CONV(k100, T101, (dim<dynamic, dynamic, dynamic>(a, n, s)), -5, 1, s, (a == -5) & (n == 1))
PRED(k100, T101, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == -5) & (n == 1))
typedef dim<-5, 1, dynamic> T102; CONV(k101, T102, (dim<dynamic, dynamic, 1>(a, n, 1)), -5, 1, 1, (a == -5) & (n == 1))
PRED(k101, T102, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == -5) & (n == 1))
typedef dim<-5, 1, dynamic> T103; CONV(k102, T103, (dim<dynamic, 1, dynamic>(a, 1, s)), -5, 1, s, (a == -5))
PRED(k102, T103, (dim<dynamic, 1, dynamic>(a, 1, s)), (a == -5))
typedef dim<-5, 1, dynamic> T104; CONV(k103, T104, (dim<dynamic, dynamic, -2>(a, n, -2)), -5, 1, -2, (a == -5) & (n == 1))
PRED(k103, T104, (dim<dynamic, dynamic, -2>(a, n, -2)), (a == -5) & (n == 1))
typedef dim<-5, 1, dynamic> T105; CONV(k104, T105, (dim<dynamic, dynamic, 0>(a, n, 0)), -5, 1, 0, (a == -5) & (n == 1))
PRED(k104, T105, (dim<dynamic, dynamic, 0>(a, n, 0)), (a == -5) & (n == 1))
typedef dim<-5, 1, dynamic> T106; CONV(k105, T106, (dim<dynamic, dynamic, 6>(a, n, 6)), -5, 1, 6, (a == -5) & (n == 1))
PRED(k105, T106, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == -5) & (n == 1))
typedef dim<-5, 1, dynamic> T107; CONV(k106, T107, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, 1, s, (n == 1))
PRED(k106, T107, (dim<-5, dynamic, dynamic>(-5, n, s)), (n == 1))
typedef dim<dynamic, 1, dynamic> T108; CONV(k107, T108, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, 1, s, (n == 1))
PRED(k107, T108, (dim<dynamic, dynamic, dynamic>(a, n, s)), (n == 1))
typedef dim<dynamic, 1, dynamic> T109; CONV(k108, T109, (dim<3, dynamic, dynamic>(3, n, s)), 3, 1, s, (n == 1))
PRED(k108, T109, (dim<3, dynamic, dynamic>(3, n, s)), (n == 1))
typedef dim<dynamic, 1, dynamic> T110; CONV(k109, T110, (dim<dynamic, dynamic, 1>(a, n, 1)), a, 1, 1, (n == 1))
PRED(k109, T110, (dim<dynamic, dynamic, 1>(a, n, 1)), (n == 1))
typedef dim<dynamic, 1, dynamic> T111; CONV(k110, T111, (dim<3, dynamic, 1>(3, n, 1)), 3, 1, 1, (n == 1))
PRED(k110, T111, (dim<3, dynamic, 1>(3, n, 1)), (n == 1))
typedef dim<dynamic, 1, dynamic> T112; CONV(k111, T112, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, s, true)
PRED(k111, T112, (dim<dynamic, 1, dynamic>(a, 1, s)), true)
typedef dim<dynamic, 1, dynamic> T113; CONV(k112, T113, (dim<dynamic, dynamic, -2>(a, n, -2)), a, 1, -2, (n == 1))
PRED(k112, T113, (dim<dynamic, dynamic, -2>(a, n, -2)), (n == 1))
typedef dim<dynamic, 1, dynamic> T114; CONV(k113, T114, (dim<dynamic, dynamic, 0>(a, n, 0)), a, 1, 0, (n == 1))
PRED(k113, T114, (dim<dynamic, dynamic, 0>(a, n, 0)), (n == 1))
typedef dim<dynamic, 1, dynamic> T115; CONV(k114, T115, (dim<dynamic, dynamic, 6>(a, n, 6)), a, 1, 6, (n == 1))
PRED(k114, T115, (dim<dynamic, dynamic, 6>(a, n, 6)), (n == 1))
typedef dim<dynamic, 1, dynamic> T116; CONV(k115, T116, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, 1, s, (n == 1))
PRED(k115, T116, (dim<-5, dynamic, dynamic>(-5, n, s)), (n == 1))
typedef dim<dynamic, 1, dynamic> T117; CONV(k116, T117, (dim<0, dynamic, dynamic>(0, n, s)), 0, 1, s, (n == 1))
PRED(k116, T117, (dim<0, dynamic, dynamic>(0, n, s)), (n == 1))
typedef dim<dynamic, 1, 0> T118; CONV(k117, T118, (dim<dynamic, dynamic, dynamic>(a, n, s)), a, 1, 0, (n == 1) & ((s == 0) | (s == unresolved)))
PRED(k117, T118, (dim<dynamic, dynamic, dynamic>(a, n, s)), (n == 1) & (s == 0))
typedef dim<dynamic, 1, 0> T119; CONV(k118, T119, (dim<3, dynamic, dynamic>(3, n, s)), 3, 1, 0, (n == 1) & ((s == 0) | (s == unresolved)))
PRED(k118, T119, (dim<3, dynamic, dynamic>(3, n, s)), (n == 1) & (s == 0))
typedef dim<dynamic, 1, 0> T120; CONV(k119, T120, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, 0, ((s == 0) | (s == unresolved)))
PRED(k119, T120, (dim<dynamic, 1, dynamic>(a, 1, s)), (s == 0))
typedef dim<dynamic, 1, 0> T121; CONV(k120, T121, (dim<dynamic, dynamic, 0>(a, n, 0)), a, 1, 0, (n == 1))
PRED(k120, T121, (dim<dynamic, dynamic, 0>(a, n, 0)), (n == 1))
typedef dim<dynamic, 1, 0> T122; CONV(k121, T122, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, 1, 0, (n == 1) & ((s == 0) | (s == unresolved)))
PRED(k121, T122, (dim<-5, dynamic, dynamic>(-5, n, s)), (n == 1) & (s == 0))
typedef dim<dynamic, 1, 0> T123; CONV(k122, T123, (dim<0, dynamic, dynamic>(0, n, s)), 0, 1, 0, (n == 1) & ((s == 0) | (s == unresolved)))
PRED(k122, T123, (dim<0, dynamic, dynamic>(0, n, s)), (n == 1) & (s == 0))
typedef dim<-5, dynamic, 6> T124; CONV(k123, T124, (dim<dynamic, dynamic, dynamic>(a, n, s)), -5, n, 6, (a == -5) & ((s == 6) | (s == unresolved)))
PRED(k123, T124, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == -5) & (s == 6))
typedef dim<-5, dynamic, 6> T125; CONV(k124, T125, (dim<dynamic, 4, dynamic>(a, 4, s)), -5, 4, 6, (a == -5) & ((s == 6) | (s == unresolved)))
PRED(k124, T125, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == -5) & (s == 6))
typedef dim<-5, dynamic, 6> T126; CONV(k125, T126, (dim<dynamic, 1, dynamic>(a, 1, s)), -5, 1, 6, (a == -5) & ((s == 6) | (s == unresolved)))
PRED(k125, T126, (dim<dynamic, 1, dynamic>(a, 1, s)), (a == -5) & (s == 6))
typedef dim<-5, dynamic, 6> T127; CONV(k126, T127, (dim<dynamic, dynamic, 6>(a, n, 6)), -5, n, 6, (a == -5))
PRED(k126, T127, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == -5))
typedef dim<-5, dynamic, 6> T128; CONV(k127, T128, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, 6, ((s == 6) | (s == unresolved)))
PRED(k127, T128, (dim<-5, dynamic, dynamic>(-5, n, s)), (s == 6))
typedef dim<dynamic, dynamic, dynamic> T129; CONV(k128, T129, (dim<3, dynamic, dynamic>(3, n, s)), 3, n, s, true)
PRED(k128, T129, (dim<3, dynamic, dynamic>(3, n, s)), true)
typedef dim<dynamic, dynamic, dynamic> T130; CONV(k129, T130, (dim<dynamic, 4, dynamic>(a, 4, s)), a, 4, s, true)
PRED(k129, T130, (dim<dynamic, 4, dynamic>(a, 4, s)), true)
typedef dim<dynamic, dynamic, dynamic> T131; CONV(k130, T131, (dim<dynamic, dynamic, 1>(a, n, 1)), a, n, 1, true)
PRED(k130, T131, (dim<dynamic, dynamic, 1>(a, n, 1)), true)
typedef dim<dynamic, dynamic, dynamic> T132; CONV(k131, T132, (dim<3, 4, dynamic>(3, 4, s)), 3, 4, s, true)
PRED(k131, T132, (dim<3, 4, dynamic>(3, 4, s)), true)
typedef dim<dynamic, dynamic, dynamic> T133; CONV(k132, T133, (dim<dynamic, 4, 1>(a, 4, 1)), a, 4, 1, true)
PRED(k132, T133, (dim<dynamic, 4, 1>(a, 4, 1)), true)
typedef dim<dynamic, dynamic, dynamic> T134; CONV(k133, T134, (dim<3, dynamic, 1>(3, n, 1)), 3, n, 1, true)
PRED(k133, T134, (dim<3, dynamic, 1>(3, n, 1)), true)
typedef dim<dynamic, dynamic, dynamic> T135; CONV(k134, T135, (dim<dynamic, 1, dynamic>(a, 1, s)), a, 1, s, true)
PRED(k134, T135, (dim<dynamic, 1, dynamic>(a, 1, s)), true)
typedef dim<dynamic, dynamic, dynamic> T136; CONV(k135, T136, (dim<dynamic, dynamic, -2>(a, n, -2)), a, n, -2, true)
PRED(k135, T136, (dim<dynamic, dynamic, -2>(a, n, -2)), true)
typedef dim<dynamic, dynamic, dynamic> T137; CONV(k136, T137, (dim<dynamic, dynamic, 0>(a, n, 0)), a, n, 0, true)
PRED(k136, T137, (dim<dynamic, dynamic, 0>(a, n, 0)), true)
typedef dim<dynamic, dynamic, dynamic> T138; CONV(k137, T138, (dim<dynamic, dynamic, 6>(a, n, 6)), a, n, 6, true)
PRED(k137, T138, (dim<dynamic, dynamic, 6>(a, n, 6)), true)
typedef dim<dynamic, dynamic, dynamic> T139; CONV(k138, T139, (dim<-5, dynamic, dynamic>(-5, n, s)), -5, n, s, true)
PRED(k138, T139, (dim<-5, dynamic, dynamic>(-5, n, s)), true)
typedef dim<dynamic, dynamic, dynamic> T140; CONV(k139, T140, (dim<0, dynamic, dynamic>(0, n, s)), 0, n, s, true)
PRED(k139, T140, (dim<0, dynamic, dynamic>(0, n, s)), true)
typedef dim<0, 4, dynamic> T141; CONV(k140, T141, (dim<dynamic, dynamic, dynamic>(a, n, s)), 0, 4, s, (a == 0) & (n == 4))
PRED(k140, T141, (dim<dynamic, dynamic, dynamic>(a, n, s)), (a == 0) & (n == 4))
typedef dim<0, 4, dynamic> T142; CONV(k141, T142, (dim<dynamic, 4, dynamic>(a, 4, s)), 0, 4, s, (a == 0))
PRED(k141, T142, (dim<dynamic, 4, dynamic>(a, 4, s)), (a == 0))
typedef dim<0, 4, dynamic> T143; CONV(k142, T143, (dim<dynamic, dynamic, 1>(a, n, 1)), 0, 4, 1, (a == 0) & (n == 4))
PRED(k142, T143, (dim<dynamic, dynamic, 1>(a, n, 1)), (a == 0) & (n == 4))
typedef dim<0, 4, dynamic> T144; CONV(k143, T144, (dim<dynamic, 4, 1>(a, 4, 1)), 0, 4, 1, (a == 0))
PRED(k143, T144, (dim<dynamic, 4, 1>(a, 4, 1)), (a == 0))
typedef dim<0, 4, dynamic> T145; CONV(k144, T145, (dim<dynamic, dynamic, -2>(a, n, -2)), 0, 4, -2, (a == 0) & (n == 4))
PRED(k144, T145, (dim<dynamic, dynamic, -2>(a, n, -2)), (a == 0) & (n == 4))
typedef dim<0, 4, dynamic> T146; CONV(k145, T146, (dim<dynamic, dynamic, 0>(a, n, 0)), 0, 4, 0, (a == 0) & (n == 4))
PRED(k145, T146, (dim<dynamic, dynamic, 0>(a, n, 0)), (a == 0) & (n == 4))
typedef dim<0, 4, dynamic> T147; CONV(k146, T147, (dim<dynamic, dynamic, 6>(a, n, 6)), 0, 4, 6, (a == 0) & (n == 4))
PRED(k146, T147, (dim<dynamic, dynamic, 6>(a, n, 6)), (a == 0) & (n == 4))
typedef dim<0, 4, dynamic> T148; CONV(k147, T148, (dim<0, dynamic, dynamic>(0, n, s)), 0, 4, s, (n == 4))
PRED(k147, T148, (dim<0, dynamic, dynamic>(0, n, s)), (n == 4))
