// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Every permutation of up to four dims, and selections of dims of every length, for shapes and views.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); out(k + 3, D::Min); out(k + 4, D::Extent); out(k + 5, D::Stride); }
static void d(int k, L a, L n, L s, L A, L N, L S) { out(k, a); out(k + 1, n); out(k + 2, s); out(k + 3, A); out(k + 4, N); out(k + 5, S); }
template <class X, size_t... I> static void dims(const X& x, internal::index_sequence<I...>) { int u[] = {0, (dm(10 * (int)I, x.template dim<I>()), 0)...}; (void)u; }
template <class X> static void all_dims(const X& x) { out(999, x.rank()); dims(x, internal::make_index_sequence<X::rank()>()); }
#define Q double* p, L a, L n, L s, L b, L m, L t, L c, L o, L u, L e, L q, L v
#define NN ASSUME(n >= 1 && m >= 1 && o >= 1 && q >= 1); ASSUME(p != nullptr && s != unresolved && t != unresolved && u != unresolved && v != unresolved)
// four kinds of dims: every part at run time, known extent, known stride, known min
#define K0 dim<>(a, n, s)
#define K1 dim<dynamic, 6>(b, 6, t)
#define K2 strided_dim<-7>(c, o)
#define K3 dim<2>(2, q, v)
#define K4 dense_dim<>(e, n)
#define E0(k) d(k, a, n, s, dynamic, dynamic, dynamic);
#define E1(k) d(k, b, 6, t, dynamic, 6, dynamic);
#define E2(k) d(k, c, o, -7, dynamic, dynamic, -7);
#define E3(k) d(k, 2, q, v, 2, dynamic, dynamic);
#define E4(k) d(k, e, n, 1, dynamic, dynamic, 1);
IMPL(t1_1_0)(Q) { NN; all_dims(transpose<0>(make_shape(K0))); array_ref<double, decltype(make_shape(K0))> z(p, make_shape(K0)); auto w = transpose<0>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t1_1_0)(Q) { NN; out(999, 1); E0(0) out(999, 1); E0(0) outp(9999, p); }
IMPL(t2_1_0)(Q) { NN; all_dims(transpose<0>(make_shape(K0, K1)));}
SPEC(t2_1_0)(Q) { NN; out(999, 2); E0(0) E1(10)}
IMPL(t2_2_0)(Q) { NN; all_dims(transpose<0, 1>(make_shape(K0, K1))); all_dims(transpose<1, 0>(make_shape(K0, K1))); array_ref<double, decltype(make_shape(K0, K1))> z(p, make_shape(K0, K1)); auto w = transpose<0, 1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t2_2_0)(Q) { NN; out(999, 2); E0(0) E1(10) out(999, 2); E1(0) E0(10) out(999, 2); E0(0) E1(10) outp(9999, p); }
IMPL(t3_1_0)(Q) { NN; all_dims(transpose<0>(make_shape(K0, K1, K2)));}
SPEC(t3_1_0)(Q) { NN; out(999, 3); E0(0) E1(10) E2(20)}
IMPL(t3_2_0)(Q) { NN; all_dims(transpose<0, 1>(make_shape(K0, K1, K2))); all_dims(transpose<1, 0>(make_shape(K0, K1, K2)));}
SPEC(t3_2_0)(Q) { NN; out(999, 3); E0(0) E1(10) E2(20) out(999, 3); E1(0) E0(10) E2(20)}
IMPL(t3_3_0)(Q) { NN; all_dims(transpose<0, 1, 2>(make_shape(K0, K1, K2))); all_dims(transpose<0, 2, 1>(make_shape(K0, K1, K2))); all_dims(transpose<1, 0, 2>(make_shape(K0, K1, K2))); all_dims(transpose<1, 2, 0>(make_shape(K0, K1, K2))); array_ref<double, decltype(make_shape(K0, K1, K2))> z(p, make_shape(K0, K1, K2)); auto w = transpose<0, 1, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t3_3_0)(Q) { NN; out(999, 3); E0(0) E1(10) E2(20) out(999, 3); E0(0) E2(10) E1(20) out(999, 3); E1(0) E0(10) E2(20) out(999, 3); E1(0) E2(10) E0(20) out(999, 3); E0(0) E1(10) E2(20) outp(9999, p); }
IMPL(t3_3_4)(Q) { NN; all_dims(transpose<2, 0, 1>(make_shape(K0, K1, K2))); all_dims(transpose<2, 1, 0>(make_shape(K0, K1, K2))); array_ref<double, decltype(make_shape(K0, K1, K2))> z(p, make_shape(K0, K1, K2)); auto w = transpose<2, 0, 1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t3_3_4)(Q) { NN; out(999, 3); E2(0) E0(10) E1(20) out(999, 3); E2(0) E1(10) E0(20) out(999, 3); E2(0) E0(10) E1(20) outp(9999, p); }
IMPL(t4_1_0)(Q) { NN; all_dims(transpose<0>(make_shape(K0, K1, K2, K3)));}
SPEC(t4_1_0)(Q) { NN; out(999, 4); E0(0) E1(10) E2(20) E3(30)}
IMPL(t4_2_0)(Q) { NN; all_dims(transpose<0, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 0>(make_shape(K0, K1, K2, K3)));}
SPEC(t4_2_0)(Q) { NN; out(999, 4); E0(0) E1(10) E2(20) E3(30) out(999, 4); E1(0) E0(10) E2(20) E3(30)}
IMPL(t4_3_0)(Q) { NN; all_dims(transpose<0, 1, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<0, 2, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 0, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 2, 0>(make_shape(K0, K1, K2, K3)));}
SPEC(t4_3_0)(Q) { NN; out(999, 4); E0(0) E1(10) E2(20) E3(30) out(999, 4); E0(0) E2(10) E1(20) E3(30) out(999, 4); E1(0) E0(10) E2(20) E3(30) out(999, 4); E1(0) E2(10) E0(20) E3(30)}
IMPL(t4_3_4)(Q) { NN; all_dims(transpose<2, 0, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<2, 1, 0>(make_shape(K0, K1, K2, K3)));}
SPEC(t4_3_4)(Q) { NN; out(999, 4); E2(0) E0(10) E1(20) E3(30) out(999, 4); E2(0) E1(10) E0(20) E3(30)}
IMPL(t4_4_0)(Q) { NN; all_dims(transpose<0, 1, 2, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<0, 1, 3, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<0, 2, 1, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<0, 2, 3, 1>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<0, 1, 2, 3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_0)(Q) { NN; out(999, 4); E0(0) E1(10) E2(20) E3(30) out(999, 4); E0(0) E1(10) E3(20) E2(30) out(999, 4); E0(0) E2(10) E1(20) E3(30) out(999, 4); E0(0) E2(10) E3(20) E1(30) out(999, 4); E0(0) E1(10) E2(20) E3(30) outp(9999, p); }
IMPL(t4_4_4)(Q) { NN; all_dims(transpose<0, 3, 1, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<0, 3, 2, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 0, 2, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 0, 3, 2>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<0, 3, 1, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_4)(Q) { NN; out(999, 4); E0(0) E3(10) E1(20) E2(30) out(999, 4); E0(0) E3(10) E2(20) E1(30) out(999, 4); E1(0) E0(10) E2(20) E3(30) out(999, 4); E1(0) E0(10) E3(20) E2(30) out(999, 4); E0(0) E3(10) E1(20) E2(30) outp(9999, p); }
IMPL(t4_4_8)(Q) { NN; all_dims(transpose<1, 2, 0, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 2, 3, 0>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 3, 0, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<1, 3, 2, 0>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<1, 2, 0, 3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_8)(Q) { NN; out(999, 4); E1(0) E2(10) E0(20) E3(30) out(999, 4); E1(0) E2(10) E3(20) E0(30) out(999, 4); E1(0) E3(10) E0(20) E2(30) out(999, 4); E1(0) E3(10) E2(20) E0(30) out(999, 4); E1(0) E2(10) E0(20) E3(30) outp(9999, p); }
IMPL(t4_4_12)(Q) { NN; all_dims(transpose<2, 0, 1, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<2, 0, 3, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<2, 1, 0, 3>(make_shape(K0, K1, K2, K3))); all_dims(transpose<2, 1, 3, 0>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<2, 0, 1, 3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_12)(Q) { NN; out(999, 4); E2(0) E0(10) E1(20) E3(30) out(999, 4); E2(0) E0(10) E3(20) E1(30) out(999, 4); E2(0) E1(10) E0(20) E3(30) out(999, 4); E2(0) E1(10) E3(20) E0(30) out(999, 4); E2(0) E0(10) E1(20) E3(30) outp(9999, p); }
IMPL(t4_4_16)(Q) { NN; all_dims(transpose<2, 3, 0, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<2, 3, 1, 0>(make_shape(K0, K1, K2, K3))); all_dims(transpose<3, 0, 1, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<3, 0, 2, 1>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<2, 3, 0, 1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_16)(Q) { NN; out(999, 4); E2(0) E3(10) E0(20) E1(30) out(999, 4); E2(0) E3(10) E1(20) E0(30) out(999, 4); E3(0) E0(10) E1(20) E2(30) out(999, 4); E3(0) E0(10) E2(20) E1(30) out(999, 4); E2(0) E3(10) E0(20) E1(30) outp(9999, p); }
IMPL(t4_4_20)(Q) { NN; all_dims(transpose<3, 1, 0, 2>(make_shape(K0, K1, K2, K3))); all_dims(transpose<3, 1, 2, 0>(make_shape(K0, K1, K2, K3))); all_dims(transpose<3, 2, 0, 1>(make_shape(K0, K1, K2, K3))); all_dims(transpose<3, 2, 1, 0>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = transpose<3, 1, 0, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(t4_4_20)(Q) { NN; out(999, 4); E3(0) E1(10) E0(20) E2(30) out(999, 4); E3(0) E1(10) E2(20) E0(30) out(999, 4); E3(0) E2(10) E0(20) E1(30) out(999, 4); E3(0) E2(10) E1(20) E0(30) out(999, 4); E3(0) E1(10) E0(20) E2(30) outp(9999, p); }
IMPL(t5_1_0)(Q) { NN; all_dims(transpose<0>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_1_0)(Q) { NN; out(999, 5); E0(0) E1(10) E2(20) E3(30) E4(40)}
IMPL(t5_2_0)(Q) { NN; all_dims(transpose<0, 1>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<1, 0>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_2_0)(Q) { NN; out(999, 5); E0(0) E1(10) E2(20) E3(30) E4(40) out(999, 5); E1(0) E0(10) E2(20) E3(30) E4(40)}
IMPL(t5_3_0)(Q) { NN; all_dims(transpose<0, 1, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<0, 2, 1>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<1, 0, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<1, 2, 0>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_3_0)(Q) { NN; out(999, 5); E0(0) E1(10) E2(20) E3(30) E4(40) out(999, 5); E0(0) E2(10) E1(20) E3(30) E4(40) out(999, 5); E1(0) E0(10) E2(20) E3(30) E4(40) out(999, 5); E1(0) E2(10) E0(20) E3(30) E4(40)}
IMPL(t5_3_4)(Q) { NN; all_dims(transpose<2, 0, 1>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<2, 1, 0>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_3_4)(Q) { NN; out(999, 5); E2(0) E0(10) E1(20) E3(30) E4(40) out(999, 5); E2(0) E1(10) E0(20) E3(30) E4(40)}
IMPL(t5_4_0)(Q) { NN; all_dims(transpose<0, 1, 2, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<0, 1, 3, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<0, 2, 1, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<0, 2, 3, 1>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_4_0)(Q) { NN; out(999, 5); E0(0) E1(10) E2(20) E3(30) E4(40) out(999, 5); E0(0) E1(10) E3(20) E2(30) E4(40) out(999, 5); E0(0) E2(10) E1(20) E3(30) E4(40) out(999, 5); E0(0) E2(10) E3(20) E1(30) E4(40)}
IMPL(t5_4_4)(Q) { NN; all_dims(transpose<0, 3, 1, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<0, 3, 2, 1>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<1, 2, 0, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<1, 2, 3, 0>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_4_4)(Q) { NN; out(999, 5); E0(0) E3(10) E1(20) E2(30) E4(40) out(999, 5); E0(0) E3(10) E2(20) E1(30) E4(40) out(999, 5); E1(0) E2(10) E0(20) E3(30) E4(40) out(999, 5); E1(0) E2(10) E3(20) E0(30) E4(40)}
IMPL(t5_4_8)(Q) { NN; all_dims(transpose<1, 3, 0, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<3, 0, 2, 1>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<3, 1, 0, 2>(make_shape(K0, K1, K2, K3, K4))); all_dims(transpose<3, 2, 0, 1>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(t5_4_8)(Q) { NN; out(999, 5); E1(0) E3(10) E0(20) E2(30) E4(40) out(999, 5); E3(0) E0(10) E2(20) E1(30) E4(40) out(999, 5); E3(0) E1(10) E0(20) E2(30) E4(40) out(999, 5); E3(0) E2(10) E0(20) E1(30) E4(40)}
IMPL(r1_1)(Q) { NN; all_dims(reorder<0>(make_shape(K0))); array_ref<double, decltype(make_shape(K0))> z(p, make_shape(K0)); auto w = reorder<0>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r1_1)(Q) { NN; out(999, 1); E0(0) out(999, 1); E0(0) outp(9999, p); }
IMPL(r1_2)(Q) { NN; all_dims(reorder<0, 0>(make_shape(K0)));}
SPEC(r1_2)(Q) { NN; out(999, 2); E0(0) E0(10)}
IMPL(r2_1)(Q) { NN; all_dims(reorder<0>(make_shape(K0, K1))); all_dims(reorder<1>(make_shape(K0, K1))); array_ref<double, decltype(make_shape(K0, K1))> z(p, make_shape(K0, K1)); auto w = reorder<1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r2_1)(Q) { NN; out(999, 1); E0(0) out(999, 1); E1(0) out(999, 1); E1(0) outp(9999, p); }
IMPL(r2_2)(Q) { NN; all_dims(reorder<0, 1>(make_shape(K0, K1))); all_dims(reorder<1, 0>(make_shape(K0, K1))); all_dims(reorder<1, 1>(make_shape(K0, K1))); array_ref<double, decltype(make_shape(K0, K1))> z(p, make_shape(K0, K1)); auto w = reorder<1, 0>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r2_2)(Q) { NN; out(999, 2); E0(0) E1(10) out(999, 2); E1(0) E0(10) out(999, 2); E1(0) E1(10) out(999, 2); E1(0) E0(10) outp(9999, p); }
IMPL(r2_3)(Q) { NN; all_dims(reorder<1, 0, 1>(make_shape(K0, K1))); all_dims(reorder<1, 1, 0>(make_shape(K0, K1)));}
SPEC(r2_3)(Q) { NN; out(999, 3); E1(0) E0(10) E1(20) out(999, 3); E1(0) E1(10) E0(20)}
IMPL(r3_1)(Q) { NN; all_dims(reorder<0>(make_shape(K0, K1, K2))); all_dims(reorder<1>(make_shape(K0, K1, K2))); all_dims(reorder<2>(make_shape(K0, K1, K2))); array_ref<double, decltype(make_shape(K0, K1, K2))> z(p, make_shape(K0, K1, K2)); auto w = reorder<2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r3_1)(Q) { NN; out(999, 1); E0(0) out(999, 1); E1(0) out(999, 1); E2(0) out(999, 1); E2(0) outp(9999, p); }
IMPL(r3_2)(Q) { NN; all_dims(reorder<0, 1>(make_shape(K0, K1, K2))); all_dims(reorder<1, 2>(make_shape(K0, K1, K2))); all_dims(reorder<2, 1>(make_shape(K0, K1, K2))); array_ref<double, decltype(make_shape(K0, K1, K2))> z(p, make_shape(K0, K1, K2)); auto w = reorder<2, 1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r3_2)(Q) { NN; out(999, 2); E0(0) E1(10) out(999, 2); E1(0) E2(10) out(999, 2); E2(0) E1(10) out(999, 2); E2(0) E1(10) outp(9999, p); }
IMPL(r3_3)(Q) { NN; all_dims(reorder<0, 1, 2>(make_shape(K0, K1, K2))); all_dims(reorder<0, 2, 1>(make_shape(K0, K1, K2))); all_dims(reorder<1, 0, 2>(make_shape(K0, K1, K2))); all_dims(reorder<2, 2, 0>(make_shape(K0, K1, K2))); array_ref<double, decltype(make_shape(K0, K1, K2))> z(p, make_shape(K0, K1, K2)); auto w = reorder<1, 0, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r3_3)(Q) { NN; out(999, 3); E0(0) E1(10) E2(20) out(999, 3); E0(0) E2(10) E1(20) out(999, 3); E1(0) E0(10) E2(20) out(999, 3); E2(0) E2(10) E0(20) out(999, 3); E1(0) E0(10) E2(20) outp(9999, p); }
IMPL(r3_4)(Q) { NN; all_dims(reorder<0, 0, 2, 0>(make_shape(K0, K1, K2))); all_dims(reorder<1, 2, 1, 1>(make_shape(K0, K1, K2))); all_dims(reorder<2, 2, 1, 1>(make_shape(K0, K1, K2)));}
SPEC(r3_4)(Q) { NN; out(999, 4); E0(0) E0(10) E2(20) E0(30) out(999, 4); E1(0) E2(10) E1(20) E1(30) out(999, 4); E2(0) E2(10) E1(20) E1(30)}
IMPL(r4_1)(Q) { NN; all_dims(reorder<2>(make_shape(K0, K1, K2, K3))); all_dims(reorder<3>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = reorder<3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r4_1)(Q) { NN; out(999, 1); E2(0) out(999, 1); E3(0) out(999, 1); E3(0) outp(9999, p); }
IMPL(r4_2)(Q) { NN; all_dims(reorder<0, 1>(make_shape(K0, K1, K2, K3))); all_dims(reorder<1, 0>(make_shape(K0, K1, K2, K3))); all_dims(reorder<2, 3>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = reorder<2, 3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r4_2)(Q) { NN; out(999, 2); E0(0) E1(10) out(999, 2); E1(0) E0(10) out(999, 2); E2(0) E3(10) out(999, 2); E2(0) E3(10) outp(9999, p); }
IMPL(r4_3)(Q) { NN; all_dims(reorder<1, 2, 3>(make_shape(K0, K1, K2, K3))); all_dims(reorder<3, 2, 1>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = reorder<3, 2, 1>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r4_3)(Q) { NN; out(999, 3); E1(0) E2(10) E3(20) out(999, 3); E3(0) E2(10) E1(20) out(999, 3); E3(0) E2(10) E1(20) outp(9999, p); }
IMPL(r4_4)(Q) { NN; all_dims(reorder<0, 1, 2, 3>(make_shape(K0, K1, K2, K3))); all_dims(reorder<1, 0, 3, 2>(make_shape(K0, K1, K2, K3))); all_dims(reorder<1, 2, 3, 0>(make_shape(K0, K1, K2, K3))); all_dims(reorder<2, 1, 3, 0>(make_shape(K0, K1, K2, K3))); array_ref<double, decltype(make_shape(K0, K1, K2, K3))> z(p, make_shape(K0, K1, K2, K3)); auto w = reorder<2, 1, 3, 0>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r4_4)(Q) { NN; out(999, 4); E0(0) E1(10) E2(20) E3(30) out(999, 4); E1(0) E0(10) E3(20) E2(30) out(999, 4); E1(0) E2(10) E3(20) E0(30) out(999, 4); E2(0) E1(10) E3(20) E0(30) out(999, 4); E2(0) E1(10) E3(20) E0(30) outp(9999, p); }
IMPL(r4_5)(Q) { NN; all_dims(reorder<2, 2, 0, 2, 0>(make_shape(K0, K1, K2, K3))); all_dims(reorder<2, 2, 2, 3, 2>(make_shape(K0, K1, K2, K3))); all_dims(reorder<3, 2, 1, 0, 3>(make_shape(K0, K1, K2, K3)));}
SPEC(r4_5)(Q) { NN; out(999, 5); E2(0) E2(10) E0(20) E2(30) E0(40) out(999, 5); E2(0) E2(10) E2(20) E3(30) E2(40) out(999, 5); E3(0) E2(10) E1(20) E0(30) E3(40)}
IMPL(r5_1)(Q) { NN; all_dims(reorder<0>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<2>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<4>(make_shape(K0, K1, K2, K3, K4))); array_ref<double, decltype(make_shape(K0, K1, K2, K3, K4))> z(p, make_shape(K0, K1, K2, K3, K4)); auto w = reorder<4>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r5_1)(Q) { NN; out(999, 1); E0(0) out(999, 1); E1(0) out(999, 1); E2(0) out(999, 1); E4(0) out(999, 1); E4(0) outp(9999, p); }
IMPL(r5_2)(Q) { NN; all_dims(reorder<2, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<3, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<4, 2>(make_shape(K0, K1, K2, K3, K4))); array_ref<double, decltype(make_shape(K0, K1, K2, K3, K4))> z(p, make_shape(K0, K1, K2, K3, K4)); auto w = reorder<4, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r5_2)(Q) { NN; out(999, 2); E2(0) E3(10) out(999, 2); E3(0) E4(10) out(999, 2); E4(0) E2(10) out(999, 2); E4(0) E2(10) outp(9999, p); }
IMPL(r5_3)(Q) { NN; all_dims(reorder<1, 2, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1, 3, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<2, 3, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<4, 1, 2>(make_shape(K0, K1, K2, K3, K4))); array_ref<double, decltype(make_shape(K0, K1, K2, K3, K4))> z(p, make_shape(K0, K1, K2, K3, K4)); auto w = reorder<4, 1, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r5_3)(Q) { NN; out(999, 3); E1(0) E2(10) E4(20) out(999, 3); E1(0) E3(10) E4(20) out(999, 3); E2(0) E3(10) E4(20) out(999, 3); E4(0) E1(10) E2(20) out(999, 3); E4(0) E1(10) E2(20) outp(9999, p); }
IMPL(r5_4)(Q) { NN; all_dims(reorder<0, 1, 4, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<0, 3, 1, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1, 2, 3, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<4, 3, 1, 2>(make_shape(K0, K1, K2, K3, K4))); array_ref<double, decltype(make_shape(K0, K1, K2, K3, K4))> z(p, make_shape(K0, K1, K2, K3, K4)); auto w = reorder<4, 3, 1, 2>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r5_4)(Q) { NN; out(999, 4); E0(0) E1(10) E4(20) E3(30) out(999, 4); E0(0) E3(10) E1(20) E4(30) out(999, 4); E1(0) E2(10) E3(20) E4(30) out(999, 4); E4(0) E3(10) E1(20) E2(30) out(999, 4); E4(0) E3(10) E1(20) E2(30) outp(9999, p); }
IMPL(r5_5)(Q) { NN; all_dims(reorder<0, 1, 2, 3, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1, 3, 0, 2, 4>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1, 4, 0, 2, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<1, 4, 2, 0, 3>(make_shape(K0, K1, K2, K3, K4))); array_ref<double, decltype(make_shape(K0, K1, K2, K3, K4))> z(p, make_shape(K0, K1, K2, K3, K4)); auto w = reorder<1, 4, 2, 0, 3>(z); all_dims(w); outp(9999, w.base()); }
SPEC(r5_5)(Q) { NN; out(999, 5); E0(0) E1(10) E2(20) E3(30) E4(40) out(999, 5); E1(0) E3(10) E0(20) E2(30) E4(40) out(999, 5); E1(0) E4(10) E0(20) E2(30) E3(40) out(999, 5); E1(0) E4(10) E2(20) E0(30) E3(40) out(999, 5); E1(0) E4(10) E2(20) E0(30) E3(40) outp(9999, p); }
IMPL(r5_6)(Q) { NN; all_dims(reorder<1, 1, 2, 0, 2, 3>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<2, 3, 0, 4, 2, 0>(make_shape(K0, K1, K2, K3, K4))); all_dims(reorder<3, 2, 3, 4, 0, 4>(make_shape(K0, K1, K2, K3, K4)));}
SPEC(r5_6)(Q) { NN; out(999, 6); E1(0) E1(10) E2(20) E0(30) E2(40) E3(50) out(999, 6); E2(0) E3(10) E0(20) E4(30) E2(40) E0(50) out(999, 6); E3(0) E2(10) E3(20) E4(30) E0(40) E4(50)}
