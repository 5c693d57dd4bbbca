// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Equality for every pair of element types, constness, and shape types.
#include "array/array.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
#define FOR(i, n) for (L i = 0; i < (n); i++)
typedef unsigned char byte_t;
struct Q { double v; friend bool operator!=(const Q& a, const Q& b) { return vfp_differs(&a, &b); } friend bool operator==(const Q& a, const Q& b) { return !vfp_differs(&a, &b); } };
struct Q1 { byte_t v; friend bool operator!=(const Q1& a, const Q1& b) { return vfp_differs(&a, &b); } friend bool operator!=(const Q1& a, const Q& b) { return vfp_differs(&a, &b); } };
struct Q4 { int v; friend bool operator!=(const Q4& a, const Q4& b) { return vfp_differs(&a, &b); } };
struct Q24 { double v[3]; friend bool operator!=(const Q24& a, const Q24& b) { return vfp_differs(&a, &b); } friend bool operator!=(const Q24& a, const Q1& b) { return vfp_differs(&a, &b); } };
#define AN L a, L n, L b, L m, L c, L o, L d, L w
#define PN ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && w >= 1)
// one dim, one side of each constness
#define EQ(id, TA, TB, V, W) \
  RIMPL(bool, id)(TA* p, TB* q, AN) { PN; array_ref<TA, shape_of_rank<1>> x(p, shape_of_rank<1>(dim<>(a, n, 2))); array_ref<TB, shape_of_rank<1>> y(q, shape_of_rank<1>(dim<>(b, m, 3))); return equal(x, y); } \
  RSPEC(bool, id)(TA* p, TB* q, AN) { PN; if (a != b || n != m) return false; bool r = true; FOR(i, n) if (W) r = false; return r; } \
  RIMPL(bool, id##_d)(TA* p, TB* q, AN) { PN; typedef shape<dim<>, dense_dim<>> S; array_ref<TA, shape<dense_dim<>, dim<>>> x(p, {{a, n}, {c, o, 70}}); array_ref<TB, S> y(q, S({b, m, 50}, {d, w})); return equal(x, y); } \
  RSPEC(bool, id##_d)(TA* p, TB* q, AN) { PN; if (a != b || n != m || c != d || o != w) return false; bool r = true; FOR(j, o) FOR(i, n) if (V) r = false; return r; }
#define EQQ(id, TA, TB) EQ(id, TA, TB, vfp_differs(p + i + j * 70, q + i * 50 + j), vfp_differs(p + i * 2, q + i * 3))
EQQ(q_mm, Q, Q) EQQ(q_cm, const Q, Q) EQQ(q_mc, Q, const Q) EQQ(q_cc, const Q, const Q) EQQ(q1_mm, Q1, Q1) EQQ(q1_mc, Q1, const Q1) EQQ(q1_cm, const Q1, Q1) EQQ(q4_mm, Q4, Q4) EQQ(q4_cc, const Q4, const Q4) EQQ(q24_mm, Q24, Q24) EQQ(q24_cm, const Q24, Q24)
EQQ(q1q, Q1, Q) EQQ(q1q_c, const Q1, const Q) EQQ(q24q1, Q24, Q1) EQQ(q24q1_c, Q24, const Q1)
#define EQA(id, TA, TB) EQ(id, TA, TB, p[i + j * 70] != q[i * 50 + j], p[i * 2] != q[i * 3])
EQA(i_i, int, int) EQA(i_ci, int, const int) EQA(d_d, double, double) EQA(cd_d, const double, double) EQA(f_f, float, float) EQA(cf_cf, const float, const float) EQA(b_b, byte_t, byte_t) EQA(cb_cb, const byte_t, const byte_t) EQA(s_s, short, short) EQA(i_d, int, double) EQA(f_d, const float, double) EQA(s_i, short, int) EQA(L_i, L, const int)
// the operators compare whole shapes, strides included
#define NE(id, T, V) \
  RIMPL(bool, id)(T* p, T* q, AN, L s, L t) { PN; ASSUME(s != unresolved && t != unresolved); array_ref_of_rank<T, 1> x(p, shape_of_rank<1>(dim<>(a, n, s))), y(q, shape_of_rank<1>(dim<>(b, m, t))); return x != y; } \
  RSPEC(bool, id)(T* p, T* q, AN, L s, L t) { PN; ASSUME(s != unresolved && t != unresolved); if (a != b || n != m || s != t) return true; bool r = false; FOR(i, n) if (vfp_differs(p + i * s, q + i * s)) r = true; return r; } \
  RIMPL(bool, id##_eq)(T* p, T* q, AN) { PN; array_ref_of_rank<T, 1> x(p, shape_of_rank<1>(dim<>(a, n, 3))), y(q, shape_of_rank<1>(dim<>(b, m, 3))); return x == y; } \
  RSPEC(bool, id##_eq)(T* p, T* q, AN) { PN; if (a != b || n != m) return false; bool r = true; FOR(i, n) if (vfp_differs(p + i * 3, q + i * 3)) r = false; return r; } \
  RIMPL(bool, id##_2)(T* p, T* q, AN) { PN; array_ref_of_rank<T, 2> x(p, shape_of_rank<2>({a, n, 3}, {c, o, 40})), y(q, shape_of_rank<2>({b, m, 3}, {d, w, 40})); return x != y; } \
  RSPEC(bool, id##_2)(T* p, T* q, AN) { PN; if (a != b || n != m || c != d || o != w) return true; bool r = false; FOR(j, o) FOR(i, n) if (vfp_differs(p + i * 3 + j * 40, q + i * 3 + j * 40)) r = true; return r; } \
  RIMPL(bool, id##_3)(T* p, T* q, AN, L e) { PN; ASSUME(e >= 1); array_ref_of_rank<T, 3> x(p, shape_of_rank<3>({a, n, 3}, {0, e, 700}, {c, o, 40})), y(q, shape_of_rank<3>({b, m, 3}, {0, e, 700}, {d, w, 40})); return x != y; } \
  RSPEC(bool, id##_3)(T* p, T* q, AN, L e) { PN; ASSUME(e >= 1); if (a != b || n != m || c != d || o != w) return true; bool r = false; FOR(j, o) FOR(k, e) FOR(i, n) if (vfp_differs(p + i * 3 + j * 40 + k * 700, q + i * 3 + j * 40 + k * 700)) r = true; return r; } \
  RIMPL(bool, id##_4)(T* p, T* q, L a, L b, L c, L d) { ASSUME(p != nullptr && q != nullptr); array_ref_of_rank<T, 4> x(p, shape_of_rank<4>({a, 1, 3}, {b, 1, 700}, {c, 1, 40}, {d, 1, 9000})), y(q, shape_of_rank<4>({0, 1, 3}, {1, 1, 700}, {2, 1, 40}, {3, 1, 9000})); return x != y; } \
  RSPEC(bool, id##_4)(T* p, T* q, L a, L b, L c, L d) { ASSUME(p != nullptr && q != nullptr); if ((a != 0) | (b != 1) | (c != 2) | (d != 3)) return true; return vfp_differs(p, q); }
NE(ne_q, Q, ) NE(ne_cq, const Q, ) NE(ne_1, Q1, ) NE(ne_4, const Q4, ) NE(ne_24, Q24, )
// same types of shape at ranks one to five: mins count
#define MIN5(id, TA, TB) \
  RIMPL(bool, id)(TA* p, TB* q, L a, L b, L c, L d, L e, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); shape_of_rank<5> h({a, n, 1}, {b, 1, 2}, {c, 1, 3}, {d, 1, 4}, {e, 1, 5}), g({0, n, 1}, {0, 1, 2}, {0, 1, 3}, {0, 1, 4}, {0, 1, 5}); array_ref_of_rank<TA, 5> x(p, h); array_ref_of_rank<TB, 5> y(q, g); return equal(x, y); } \
  RSPEC(bool, id)(TA* p, TB* q, L a, L b, L c, L d, L e, L n) { ASSUME(p != nullptr && q != nullptr && n >= 1); if ((a != 0) | (b != 0) | (c != 0) | (d != 0) | (e != 0)) return false; bool r = true; FOR(i, n) if (vfp_differs(p + i, q + i)) r = false; return r; }
MIN5(min5, Q, Q) MIN5(min5c, const Q, Q) MIN5(min5x, Q1, Q) MIN5(min524, Q24, Q24)
