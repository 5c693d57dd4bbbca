// modes: ndebug assert
// Reshaping keeps the elements of the intersection (moved once), value-initialises nothing else twice, and owns storage of the new shape.
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef shape_of_rank<1> S1;
typedef shape_of_rank<2> S2;
typedef st_alloc<E, false, false, false> al_t;
typedef st_alloc<E, true, true, true> alp_t;
#define FOR(i, n) for (L i = 0; i < (n); i++)
static E* al(L id, L n) { E* p = (E*)ar_alloc(id, n); ASSUME(p != nullptr); return p; }
static void mk(E*& p, L id, L n) { p = al(id, n); FOR(i, n) el_def(p + i); }
static void rm(E* p, L id, L n) { FOR(i, n) el_dtor(p + i); ar_free(id, p, n); }
static L mx(L a, L b) { return a > b ? a : b; }
static L mn(L a, L b) { return a < b ? a : b; }
static void s1(L id, L a, L n, L b, L m, bool prop) {
  E *p, *q; mk(p, id, n); out(0, 0);
  if (a == b && n == m) { out(1, b); out(2, m); out(3, id); outp(4, p); rm(p, id, n); return; }
  mk(q, id, m); L lo = mx(a, b), hi = mn(a + n, b + m);
  FOR(i, hi - lo) el_ma(q + (lo - b) + i, p + (lo - a) + i);
  rm(p, id, n); out(1, b); out(2, m); out(3, id); outp(4, q); rm(q, id, m);
}
template <class AL> static void i1(L id, L a, L n, L b, L m) { array<E, S1, AL> x(S1(dim<>(a, n)), AL(id)); out(0, 0); x.reshape(S1(dim<>(b, m))); out(1, x.x().min()); out(2, x.x().extent()); out(3, x.get_allocator().id); outp(4, x.data()); }
#define P1 ASSUME(n >= 1 && m >= 1)
IMPL(r1)(L id, L a, L n, L b, L m) { P1; i1<al_t>(id, a, n, b, m); }
SPECP(r1)(L id, L a, L n, L b, L m) { P1; s1(id, a, n, b, m, false); }
IMPL(r1p)(L id, L a, L n, L b, L m) { P1; i1<alp_t>(id, a, n, b, m); }
SPECP(r1p)(L id, L a, L n, L b, L m) { P1; s1(id, a, n, b, m, true); }
// grow from empty, shrink to empty
IMPL(fromempty)(L id, L b, L m) { ASSUME(m >= 1); array<E, S1, al_t> x{al_t(id)}; x.reshape(S1(dim<>(b, m))); out(1, x.x().min()); out(2, x.x().extent()); }
SPECP(fromempty)(L id, L b, L m) { ASSUME(m >= 1); E* q; mk(q, id, m); out(1, b); out(2, m); rm(q, id, m); }
IMPL(toempty)(L id, L a, L n, L b) { ASSUME(n >= 1); array<E, S1, al_t> x(S1(dim<>(a, n)), al_t(id)); out(0, 0); x.reshape(S1(dim<>(b, 0))); out(1, x.empty() && x.base() == nullptr); }
SPECP(toempty)(L id, L a, L n, L b) { ASSUME(n >= 1); E* p; mk(p, id, n); out(0, 0); rm(p, id, n); out(1, 1); }
IMPL(fromempty2)(L b, L m, L c, L k) { ASSUME(m >= 1 && k >= 1); array<E, dense_shape<2>, lc_alloc<E>> x; x.reshape(dense_shape<2>({b, m}, {c, k})); out(1, x.size() == (size_t)(m * k)); }
SPECP(fromempty2)(L b, L m, L c, L k) { ASSUME(m >= 1 && k >= 1); E* q = (E*)al_alloc(m * k); ASSUME(q != nullptr); FOR(i, m * k) el_def(q + i); out(1, 1); FOR(i, m * k) el_dtor(q + i); al_free(q, m * k); }
// two dims, possibly disjoint in either or both
IMPL(r2)(L n0, L n1, L b0, L m0, L b1, L m1) {
  ASSUME(n0 >= 1 && n1 >= 1 && m0 >= 1 && m1 >= 1); array<E, S2, lc_alloc<E>> x(S2({0, n0}, {0, n1})); out(0, 0); x.reshape(S2({b0, m0}, {b1, m1}));
  out(1, x.x().min()); out(2, x.x().extent()); out(3, x.y().min()); out(4, x.y().extent()); out(5, 0);
}
SPECP(r2)(L n0, L n1, L b0, L m0, L b1, L m1) {
  ASSUME(n0 >= 1 && n1 >= 1 && m0 >= 1 && m1 >= 1);
  E* p = (E*)al_alloc(n0 * n1); ASSUME(p != nullptr); FOR(j, n1) FOR(i, n0) el_def(p + i + j * n0); out(0, 0);
  if (b0 == 0 && b1 == 0 && n0 == m0 && n1 == m1) { out(1, b0); out(2, m0); out(3, b1); out(4, m1); out(5, 0); FOR(j, n1) FOR(i, n0) el_dtor(p + i + j * n0); al_free(p, n0 * n1); return; }
  E* q = (E*)al_alloc(m0 * m1); ASSUME(q != nullptr); FOR(j, m1) FOR(i, m0) el_def(q + i + j * m0);
  L lo0 = mx(0, b0), hi0 = mn(n0, b0 + m0), lo1 = mx(0, b1), hi1 = mn(n1, b1 + m1);
  FOR(j, hi1 - lo1) FOR(i, hi0 - lo0) el_ma(q + (lo0 - b0 + i) + (lo1 - b1 + j) * m0, p + (lo0 + i) + (lo1 + j) * n0);
  FOR(j, n1) FOR(i, n0) el_dtor(p + i + j * n0); al_free(p, n0 * n1);
  out(1, b0); out(2, m0); out(3, b1); out(4, m1); out(5, 0); FOR(j, m1) FOR(i, m0) el_dtor(q + i + j * m0); al_free(q, m0 * m1);
}
// strides are part of the requested shape: a reshape to the same bounds with other strides re-lays the elements out
IMPL(restride)(L id, L a, L n) { ASSUME(n >= 2); array<E, S1, al_t> x(S1(dim<>(a, n, 2)), al_t(id)); out(0, 0); x.reshape(S1(dim<>(a, n, 3))); out(1, x.x().min()); out(2, x.x().extent()); out(3, x.x().stride()); outp(4, x.data()); }
SPECP(restride)(L id, L a, L n) {
  ASSUME(n >= 2); E* p = al(id, 2 * n - 1); FOR(i, n) el_def(p + 2 * i); out(0, 0);
  E* q = al(id, 3 * n - 2); FOR(i, n) el_def(q + 3 * i); FOR(i, n) el_ma(q + 3 * i, p + 2 * i);
  FOR(i, n) el_dtor(p + 2 * i); ar_free(id, p, 2 * n - 1); out(1, a); out(2, n); out(3, 3); outp(4, q); FOR(i, n) el_dtor(q + 3 * i); ar_free(id, q, 3 * n - 2);
}
IMPL(restride1)(L id, L a, L n, L b, L m) { ASSUME(n >= 2 && m >= 2); array<E, S1, al_t> x(S1(dim<>(a, n, 2)), al_t(id)); out(0, 0); x.reshape(S1(dim<>(b, m))); out(1, x.x().min()); out(2, x.x().extent()); out(3, x.x().stride()); outp(4, x.data()); }
SPECP(restride1)(L id, L a, L n, L b, L m) {
  ASSUME(n >= 2 && m >= 2); E* p = al(id, 2 * n - 1); FOR(i, n) el_def(p + 2 * i); out(0, 0);
  E* q = al(id, m); FOR(i, m) el_def(q + i); L lo = mx(a, b), hi = mn(a + n, b + m); FOR(i, hi - lo) el_ma(q + (lo - b) + i, p + 2 * (lo - a) + 2 * i);
  FOR(i, n) el_dtor(p + 2 * i); ar_free(id, p, 2 * n - 1); out(1, b); out(2, m); out(3, 1); outp(4, q); FOR(i, m) el_dtor(q + i); ar_free(id, q, m);
}
IMPL(relayout)(L n0, L n1) {
  ASSUME(n0 >= 2 && n1 >= 2 && n0 < 1000000 && n1 < 1000000); array<E, S2, lc_alloc<E>> x(S2({0, n0, 1}, {0, n1, n0})); out(0, 0); x.reshape(S2({0, n0, n1}, {0, n1, 1}));
  out(1, x.x().stride()); out(2, x.y().stride()); outp(3, x.data());
}
SPECP(relayout)(L n0, L n1) {
  ASSUME(n0 >= 2 && n1 >= 2 && n0 < 1000000 && n1 < 1000000);
  E* p = (E*)al_alloc(n0 * n1); ASSUME(p != nullptr); FOR(j, n1) FOR(i, n0) el_def(p + i + j * n0); out(0, 0);
  E* q = (E*)al_alloc(n0 * n1); ASSUME(q != nullptr); FOR(j, n1) FOR(i, n0) el_def(q + i * n1 + j);
  FOR(j, n1) FOR(i, n0) el_ma(q + i * n1 + j, p + i + j * n0);
  FOR(j, n1) FOR(i, n0) el_dtor(p + i + j * n0); al_free(p, n0 * n1);
  out(1, n1); out(2, 1); outp(3, q); FOR(j, n1) FOR(i, n0) el_dtor(q + i * n1 + j); al_free(q, n0 * n1);
}
// the same bounds with another stride is another layout
IMPL(flip)(L a, L n) { ASSUME(n >= 1); array<E, S1, lc_alloc<E>> x(S1(dim<>(a, n, 1))); out(0, 0); x.reshape(S1(dim<>(a, n, -1))); out(1, x.x().stride()); out(2, x.x().min()); out(3, x.x().extent()); }
SPECP(flip)(L a, L n) { ASSUME(n >= 1); E* p = (E*)al_alloc(n); ASSUME(p != nullptr); FOR(i, n) el_def(p + i); out(0, 0); E* q = (E*)al_alloc(n); ASSUME(q != nullptr && (q + n <= p || p + n <= q)); FOR(i, n) el_def(q + i); FOR(i, n) el_ma(q + (n - 1 - i), p + i); FOR(i, n) el_dtor(p + i); al_free(p, n); out(1, -1); out(2, a); out(3, n); FOR(i, n) el_dtor(q + i); al_free(q, n); }
IMPL(spread)(L a, L n, L t) { ASSUME(n >= 1 && t >= 2 && t < 100000); array<E, S1, lc_alloc<E>> x(S1(dim<>(a, n, 1))); out(0, 0); x.reshape(S1(dim<>(a, n, t))); out(1, x.x().stride()); out(2, x.x().min()); out(3, x.x().extent()); }
SPECP(spread)(L a, L n, L t) { ASSUME(n >= 1 && t >= 2 && t < 100000); E* p = (E*)al_alloc(n); ASSUME(p != nullptr); FOR(i, n) el_def(p + i); out(0, 0); L e = (n - 1) * t + 1; E* q = (E*)al_alloc(e); ASSUME(q != nullptr); FOR(i, n) el_def(q + i * t); FOR(i, n) el_ma(q + i * t, p + i); FOR(i, n) el_dtor(p + i); al_free(p, n); out(1, t); out(2, a); out(3, n); FOR(i, n) el_dtor(q + i * t); al_free(q, e); }
// three dims, one of them changing
IMPL(r3)(L n, L m, L b) { ASSUME(n >= 1 && m >= 1); array<E, shape_of_rank<3>, lc_alloc<E>> x(shape_of_rank<3>({0, 2, 1}, {0, n, 3}, {5, 2, 1000000})); ASSUME(n < 1000 && m < 1000); out(0, 0); x.reshape(shape_of_rank<3>({0, 2, 1}, {b, m, 7}, {5, 2, 1000000})); out(1, x.y().min()); out(2, x.y().extent()); }
SPECP(r3)(L n, L m, L b) {
  ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000); L e = 2 + (n - 1) * 3 + 1000000; E* p = (E*)al_alloc(e); ASSUME(p != nullptr); FOR(k, 2) FOR(j, n) FOR(i, 2) el_def(p + i + j * 3 + k * 1000000); out(0, 0);
  L f = 2 + (m - 1) * 7 + 1000000; E* q = (E*)al_alloc(f); ASSUME(q != nullptr); FOR(k, 2) FOR(j, m) FOR(i, 2) el_def(q + i + j * 7 + k * 1000000);
  L lo = mx(0, b), hi = mn(n, b + m); FOR(k, 2) FOR(j, hi - lo) FOR(i, 2) el_ma(q + i + (lo - b + j) * 7 + k * 1000000, p + i + (lo + j) * 3 + k * 1000000);
  FOR(k, 2) FOR(j, n) FOR(i, 2) el_dtor(p + i + j * 3 + k * 1000000); al_free(p, e); out(1, b); out(2, m); FOR(k, 2) FOR(j, m) FOR(i, 2) el_dtor(q + i + j * 7 + k * 1000000); al_free(q, f);
}
// shapes with parts known at compile time: the elements kept are those of both boxes
#define STAT1(id, D, x0, n0, s0, y0, n1, s1, pre) IMPL(id)(L a, L n, L b, L m) { pre; array<E, shape<D>, lc_alloc<E>> x(shape<D>(D(x0, n0, s0))); out(0, 0); x.reshape(shape<D>(D(y0, n1, s1))); out(1, x.x().min()); out(2, x.x().extent()); out(3, x.x().stride()); } \
  SPECP(id)(L a, L n, L b, L m) { pre; L u = (s0) < 0 ? -(s0) : (s0), v = (s1) < 0 ? -(s1) : (s1), eu = ((n0) - 1) * u + 1, ev = ((n1) - 1) * v + 1; E* p = (E*)al_alloc(eu); ASSUME(p != nullptr); FOR(i, n0) el_def(p + i * u); out(0, 0); \
    if ((x0) == (y0) && (n0) == (n1)) { out(1, y0); out(2, n1); out(3, s1); FOR(i, n0) el_dtor(p + i * u); al_free(p, eu); return; } \
    E* q = (E*)al_alloc(ev); ASSUME(q != nullptr); FOR(i, n1) el_def(q + i * v); L lo = mx(x0, y0), hi = mn((x0) + (n0), (y0) + (n1)); FOR(i, hi - lo) el_ma(q + (lo - (y0) + i) * v, p + (lo - (x0) + i) * u); \
    FOR(i, n0) el_dtor(p + i * u); al_free(p, eu); out(1, y0); out(2, n1); out(3, s1); FOR(i, n1) el_dtor(q + i * v); al_free(q, ev); }
typedef dim<3> smin; typedef dim<dynamic, 5> sext; typedef dim<dynamic, dynamic, 2> sstr; typedef dim<2, dynamic, 1> smins; typedef dim<dynamic, 4, 3> sexts;
STAT1(stmin, smin, 3, n, 1, 3, m, 1, P1)
STAT1(stext, sext, a, 5, 1, b, 5, 1, )
STAT1(ststr, sstr, a, n, 2, b, m, 2, P1)
STAT1(stmins, smins, 2, n, 1, 2, m, 1, P1)
STAT1(stexts, sexts, a, 4, 3, b, 4, 3, )
// higher ranks: the last dim changes
IMPL(r2l)(L n, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000); typedef shape_of_rank<2> S; array<E, S, lc_alloc<E>> x(S({0, 2, 1}, {0, n, 2})); out(0, 0); x.reshape(S({0, 2, 1}, {b, m, 3})); out(1, x.dim<1>().min()); out(2, x.dim<1>().extent()); }
SPECP(r2l)(L n, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000); L e = 2 + (n - 1) * 2; E* p = (E*)al_alloc(e); ASSUME(p != nullptr); FOR(j, n) FOR(i, 2) el_def(p + i + j * 2); out(0, 0);
  L f = 2 + (m - 1) * 3; E* q = (E*)al_alloc(f); ASSUME(q != nullptr); FOR(j, m) FOR(i, 2) el_def(q + i + j * 3);
  L lo = mx(0, b), hi = mn(n, b + m); FOR(j, hi - lo) FOR(i, 2) el_ma(q + i + (lo - b + j) * 3, p + i + (lo + j) * 2);
  FOR(j, n) FOR(i, 2) el_dtor(p + i + j * 2); al_free(p, e); out(1, b); out(2, m); FOR(j, m) FOR(i, 2) el_dtor(q + i + j * 3); al_free(q, f); }
#define RN(id, R, DA, DB, ea, eb) IMPL(id)(L n, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000); typedef shape_of_rank<R> S; array<E, S, lc_alloc<E>> x(S(DA)); out(0, 0); x.reshape(S(DB)); out(1, x.template dim<R - 1>().min()); out(2, x.template dim<R - 1>().extent()); } \
  SPECP(id)(L n, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000); L e = (ea) + (n - 1) * 50; E* p = (E*)al_alloc(e); ASSUME(p != nullptr); FOR(l, n) FOR(k, 2) el_def(p + k * 2 + l * 50); out(0, 0); \
  L f = (eb) + (m - 1) * 70; E* q = (E*)al_alloc(f); ASSUME(q != nullptr); FOR(l, m) FOR(k, 3) el_def(q + k * 5 + l * 70); \
  L lo = mx(0, b), hi = mn(n, b + m); FOR(l, hi - lo) FOR(k, 2) el_ma(q + k * 5 + (lo - b + l) * 70, p + k * 2 + (lo + l) * 50); \
  FOR(l, n) FOR(k, 2) el_dtor(p + k * 2 + l * 50); al_free(p, e); out(1, b); out(2, m); FOR(l, m) FOR(k, 3) el_dtor(q + k * 5 + l * 70); al_free(q, f); }
#define C_ ,
RN(r3l, 3, {4 C_ 1 C_ 1} C_ {0 C_ 2 C_ 2} C_ {0 C_ n C_ 50}, {4 C_ 1 C_ 1} C_ {0 C_ 3 C_ 5} C_ {b C_ m C_ 70}, 3, 11)
RN(r4l, 4, {4 C_ 1 C_ 1} C_ {0 C_ 2 C_ 2} C_ {-3 C_ 1 C_ 9} C_ {0 C_ n C_ 50}, {4 C_ 1 C_ 1} C_ {0 C_ 3 C_ 5} C_ {-3 C_ 1 C_ 9} C_ {b C_ m C_ 70}, 3, 11)
RN(r5l, 5, {4 C_ 1 C_ 1} C_ {0 C_ 2 C_ 2} C_ {-3 C_ 1 C_ 9} C_ {7 C_ 1 C_ 9} C_ {0 C_ n C_ 50}, {4 C_ 1 C_ 1} C_ {0 C_ 3 C_ 5} C_ {-3 C_ 1 C_ 9} C_ {7 C_ 1 C_ 9} C_ {b C_ m C_ 70}, 3, 11)
// a static min or extent in one of two dims
typedef shape<dim<2>, dim<dynamic, 3>> SE; typedef shape<dim<dynamic, 3>, dim<1>> SF;
IMPL(two_e)(L n, L a, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000 && n != m); array<E, SE, lc_alloc<E>> x(SE({2, n, 3}, {a, 3, 1})); out(0, 0); x.reshape(SE({2, m, 3}, {b, 3, 1})); out(1, x.y().min()); out(2, x.x().extent()); }
SPECP(two_e)(L n, L a, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000 && n != m); E* p = (E*)al_alloc(n * 3); ASSUME(p != nullptr); FOR(i, n) FOR(j, 3) el_def(p + i * 3 + j); out(0, 0); E* q = (E*)al_alloc(m * 3); ASSUME(q != nullptr); FOR(i, m) FOR(j, 3) el_def(q + i * 3 + j);
  L k = mn(n, m), lo = mx(a, b), hi = mn(a + 3, b + 3); FOR(i, k) FOR(j, hi - lo) el_ma(q + i * 3 + (lo - b + j), p + i * 3 + (lo - a + j));
  FOR(i, n) FOR(j, 3) el_dtor(p + i * 3 + j); al_free(p, n * 3); out(1, b); out(2, m); FOR(i, m) FOR(j, 3) el_dtor(q + i * 3 + j); al_free(q, m * 3); }
IMPL(two_f)(L n, L a, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000 && n != m); array<E, SF, lc_alloc<E>> x(SF({a, 3, 1}, {1, n, 3})); out(0, 0); x.reshape(SF({b, 3, 1}, {1, m, 3})); out(1, x.x().min()); out(2, x.y().extent()); }
SPECP(two_f)(L n, L a, L m, L b) { ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000 && n != m); E* p = (E*)al_alloc(n * 3); ASSUME(p != nullptr); FOR(i, n) FOR(j, 3) el_def(p + i * 3 + j); out(0, 0); E* q = (E*)al_alloc(m * 3); ASSUME(q != nullptr); FOR(i, m) FOR(j, 3) el_def(q + i * 3 + j);
  L k = mn(n, m), lo = mx(a, b), hi = mn(a + 3, b + 3); FOR(i, k) FOR(j, hi - lo) el_ma(q + i * 3 + (lo - b + j), p + i * 3 + (lo - a + j));
  FOR(i, n) FOR(j, 3) el_dtor(p + i * 3 + j); al_free(p, n * 3); out(1, b); out(2, m); FOR(i, m) FOR(j, 3) el_dtor(q + i * 3 + j); al_free(q, m * 3); }
