// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Equality of three to five dimensions: every min, every extent, every element counts.
#include "array/array.h"
#include "vf.h"
using namespace nda;
struct Q { double v; friend bool operator!=(const Q& a, const Q& b) { return vfp_differs(&a, &b); } friend bool operator==(const Q& a, const Q& b) { return !vfp_differs(&a, &b); } };
#define FOR(i, n) for (L i = 0; i < (n); i++)
// Rank 4: for each dimension in turn, a pair of views differing in that dimension's min and extent only.
#define A4 const Q *p, const Q *q, L a, L n, L b, L m, L b0, L c0, L d0
#define N4 ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && b0 >= 1 && c0 >= 1 && d0 >= 1 && b < 100000 && b > -100000 && a < 100000 && a > -100000)
#define PAIR4(nm, d0, d1, d2, d3, e0, e1, e2, e3, same, i0, i1, i2, i3) \
RIMPL(bool, nm##_eq)(A4) { N4; const_array_ref_of_rank<Q, 4> x(p, shape_of_rank<4>(d0, d1, d2, d3)), y(q, shape_of_rank<4>(e0, e1, e2, e3)); return equal(x, y); } \
RSPEC(bool, nm##_eq)(A4) { N4; if (!(same)) return false; bool e = true; FOR(l, i3) FOR(k, i2) FOR(j, i1) FOR(i, i0) if (vfp_differs(p + i * 4 + j * 6 + k * 21 + l * 50, q + i * 4 + j * 6 + k * 21 + l * 50)) e = false; return e; } \
RIMPL(bool, nm##_ne)(A4) { N4; const_array_ref_of_rank<Q, 4> x(p, shape_of_rank<4>(d0, d1, d2, d3)), y(q, shape_of_rank<4>(e0, e1, e2, e3)); return x != y; } \
RSPEC(bool, nm##_ne)(A4) { N4; if (!(same)) return true; bool e = false; FOR(l, i3) FOR(k, i2) FOR(j, i1) FOR(i, i0) if (vfp_differs(p + i * 4 + j * 6 + k * 21 + l * 50, q + i * 4 + j * 6 + k * 21 + l * 50)) e = true; return e; }
using D = dim<>;
PAIR4(e0, D(a, n, 4), D(0, b0, 6), D(1, c0, 21), D(5, d0, 50), D(b, m, 4), D(0, b0, 6), D(1, c0, 21), D(5, d0, 50), a == b && n == m, n, b0, c0, d0)
PAIR4(e1, D(0, b0, 4), D(a, n, 6), D(1, c0, 21), D(5, d0, 50), D(0, b0, 4), D(b, m, 6), D(1, c0, 21), D(5, d0, 50), a == b && n == m, b0, n, c0, d0)
PAIR4(e2, D(0, b0, 4), D(1, c0, 6), D(a, n, 21), D(5, d0, 50), D(0, b0, 4), D(1, c0, 6), D(b, m, 21), D(5, d0, 50), a == b && n == m, b0, c0, n, d0)
PAIR4(e3, D(0, b0, 4), D(1, c0, 6), D(5, d0, 21), D(a, n, 50), D(0, b0, 4), D(1, c0, 6), D(5, d0, 21), D(b, m, 50), a == b && n == m, b0, c0, d0, n)
RIMPL(bool, eq3)(const Q* p, const Q* q, L n, L m, L o, L z) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); const_array_ref_of_rank<Q, 3> x(p, shape_of_rank<3>({0, n, 1}, {0, m, -50}, {0, o, 600})); const_array_ref<Q, shape<dim<0>, dim<>, dim<dynamic, dynamic, 7>>> y(q, shape<dim<0>, dim<>, dim<dynamic, dynamic, 7>>({0, n, 900}, {z, m, 80}, {0, o})); return equal(x, y); }
RSPEC(bool, eq3)(const Q* p, const Q* q, L n, L m, L o, L z) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1); if (z != 0) return false; bool e = true; FOR(k, o) FOR(j, m) FOR(i, n) if (vfp_differs(p + i - j * 50 + k * 600, q + i * 900 + j * 80 + k * 7)) e = false; return e; }
// rank 3 and 5: one dimension of each pair differs
#define P3(nm, x0, x1, x2, y0, y1, y2, i0, i1, i2) \
RIMPL(bool, nm##_eq)(A4) { N4; const_array_ref_of_rank<Q, 3> x(p, shape_of_rank<3>(x0, x1, x2)), y(q, shape_of_rank<3>(y0, y1, y2)); return equal(x, y); } \
RSPEC(bool, nm##_eq)(A4) { N4; if (!(a == b && n == m)) return false; bool e = true; FOR(k, i2) FOR(j, i1) FOR(i, i0) if (vfp_differs(p + i * 4 + j * 6 + k * 21, q + i * 4 + j * 6 + k * 21)) e = false; return e; }
P3(t0, D(a, n, 4), D(0, b0, 6), D(1, c0, 21), D(b, m, 4), D(0, b0, 6), D(1, c0, 21), n, b0, c0)
P3(t1, D(0, b0, 4), D(a, n, 6), D(1, c0, 21), D(0, b0, 4), D(b, m, 6), D(1, c0, 21), b0, n, c0)
P3(t2, D(0, b0, 4), D(1, c0, 6), D(a, n, 21), D(0, b0, 4), D(1, c0, 6), D(b, m, 21), b0, c0, n)
#define P5(nm, x0, x1, x2, x3, x4, y0, y1, y2, y3, y4, i0, i1, i2, i3, i4) \
RIMPL(bool, nm##_eq)(A4) { N4; const_array_ref_of_rank<Q, 5> x(p, shape_of_rank<5>(x0, x1, x2, x3, x4)), y(q, shape_of_rank<5>(y0, y1, y2, y3, y4)); return equal(x, y); } \
RSPEC(bool, nm##_eq)(A4) { N4; if (!(a == b && n == m)) return false; bool e = true; FOR(h, i4) FOR(l, i3) FOR(k, i2) FOR(j, i1) FOR(i, i0) if (vfp_differs(p + i * 4 + j * 6 + k * 21 + l * 50 + h * 333, q + i * 4 + j * 6 + k * 21 + l * 50 + h * 333)) e = false; return e; }
P5(f0, D(a, n, 4), D(0, b0, 6), D(1, c0, 21), D(2, 2, 50), D(5, d0, 333), D(b, m, 4), D(0, b0, 6), D(1, c0, 21), D(2, 2, 50), D(5, d0, 333), n, b0, c0, 2, d0)
P5(f2, D(0, b0, 4), D(2, 2, 6), D(a, n, 21), D(1, c0, 50), D(5, d0, 333), D(0, b0, 4), D(2, 2, 6), D(b, m, 21), D(1, c0, 50), D(5, d0, 333), b0, 2, n, c0, d0)
P5(f4, D(0, b0, 4), D(2, 2, 6), D(1, c0, 21), D(5, d0, 50), D(a, n, 333), D(0, b0, 4), D(2, 2, 6), D(1, c0, 21), D(5, d0, 50), D(b, m, 333), b0, 2, c0, d0, n)
// shapes of different types, elements of different types, arithmetic elements
#define A2 const Q *p, const Q *q, L a, L n, L b, L m, L c, L o
#define N2 ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && n < 100000 && m < 100000 && a < 100000 && a > -100000 && b < 100000 && b > -100000)
RIMPL(bool, types2)(A2) { N2; const_array_ref<Q, shape<dense_dim<>, dim<>>> x(p, {{a, n}, {c, o, 100000}}); const_array_ref<Q, shape<dim<>, dim<dynamic, dynamic, 7>>> y(q, {{b, m, 100}, {c, o}}); return equal(x, y); }
RSPEC(bool, types2)(A2) { N2; if (!(a == b && n == m)) return false; bool e = true; FOR(j, o) FOR(i, n) if (vfp_differs(p + i + j * 100000, q + i * 100 + j * 7)) e = false; return e; }
RIMPL(bool, types1)(A2) { N2; const_array_ref<Q, shape<dim<2, dynamic, 3>>> x(p, {{2, n, 3}}); const_array_ref<Q, shape<dim<dynamic, 4>>> y(q, {{b, 4, 1}}); return equal(x, y); }
RSPEC(bool, types1)(A2) { N2; if (!(b == 2 && n == 4)) return false; bool e = true; FOR(i, 4) if (vfp_differs(p + i * 3, q + i)) e = false; return e; }
RIMPL(bool, mixel)(const Q* p, Q* q, L a, L n, L b, L m, L c, L o) { N2; const_array_ref_of_rank<Q, 2> x(p, {{a, n, 1}, {c, o, 100000}}); array_ref_of_rank<Q, 2> y(q, {{b, m, 100}, {c, o, 7}}); return equal(x, y); }
RSPEC(bool, mixel)(const Q* p, Q* q, L a, L n, L b, L m, L c, L o) { N2; if (!(a == b && n == m)) return false; bool e = true; FOR(j, o) FOR(i, n) if (vfp_differs(p + i + j * 100000, q + i * 100 + j * 7)) e = false; return e; }
RIMPL(bool, arith)(const double* p, const double* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); const_array_ref_of_rank<double, 1> x(p, {{a, n, 2}}), y(q, {{b, m, 3}}); return equal(x, y); }
RSPEC(bool, arith)(const double* p, const double* q, L a, L n, L b, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); if (a != b || n != m) return false; bool e = true; FOR(i, n) if (p[i * 2] != q[i * 3]) e = false; return e; }
RIMPL(bool, arithi)(const int* p, const int* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); const_array_ref_of_rank<int, 1> x(p, {{0, n, 2}}), y(q, {{0, m, 2}}); return x != y; }
RSPEC(bool, arithi)(const int* p, const int* q, L n, L m) { ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1); if (n != m) return true; bool e = false; FOR(i, n) if (p[i * 2] != q[i * 2]) e = true; return e; }
