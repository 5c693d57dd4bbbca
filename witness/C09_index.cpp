// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Precondition: extents are not negative.  Index traversal: every index of the box exactly once, dimension 0 (or the first of LoopOrder) innermost, ascending.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
struct v0 { void operator()() const { visit0(); } };
#define IDX1 [](const index_of_rank<1>& i) { visit1(std::get<0>(i)); }
#define IDX2 [](const index_of_rank<2>& i) { visit2(std::get<0>(i), std::get<1>(i)); }
#define IDX3 [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }
#define IDX4 [](const index_of_rank<4>& i) { visit4(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i)); }
// rank 0: exactly one (empty) index
IMPL(r0)() { for_each_index(shape<>(), [](const index_of_rank<0>&) { visit0(); }); for_all_indices(shape<>(), [] { out(0, 7); }); for_each_index_in_order(shape<>(), [](const index_of_rank<0>&) { visit0(); }); }
SPEC(r0)() { visit0(); out(0, 7); visit0(); }
IMPL(r1)(L a, L n, L s) { ASSUME(n >= 0); shape_of_rank<1> h(dim<>(a, n, s)); for_each_index(h, IDX1); for_all_indices(h, visit1); for_each_index_in_order(h, IDX1); for_all_indices<0>(h, visit1); for_each_index<0>(h, IDX1); }
SPEC(r1)(L a, L n, L s) { ASSUME(n >= 0); FOR(i, a, n) visit1(i); FOR(i, a, n) visit1(i); FOR(i, a, n) visit1(i); FOR(i, a, n) visit1(i); FOR(i, a, n) visit1(i); }
IMPL(r2)(L a, L n, L s, L b, L m, L t) { ASSUME(n >= 0 && m >= 0); shape_of_rank<2> h({a, n, s}, {b, m, t}); for_each_index(h, IDX2); for_all_indices(h, visit2); }
SPEC(r2)(L a, L n, L s, L b, L m, L t) { ASSUME(n >= 0 && m >= 0); FOR(j, b, m) FOR(i, a, n) visit2(i, j); FOR(j, b, m) FOR(i, a, n) visit2(i, j); }
IMPL(r3)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); shape_of_rank<3> h({a, n, 5}, {b, m, -7}, {c, o, 0}); for_each_index(h, IDX3); for_all_indices(h, visit3); }
SPEC(r3)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit3(i, j, k); FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit3(i, j, k); }
IMPL(r4)(L a, L n, L b, L m, L c, L o, L d, L p) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0); shape_of_rank<4> h({a, n}, {b, m}, {c, o}, {d, p}); for_each_index(h, IDX4); for_all_indices(h, visit4); }
SPEC(r4)(L a, L n, L b, L m, L c, L o, L d, L p) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0); FOR(l, d, p) FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit4(i, j, k, l); FOR(l, d, p) FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit4(i, j, k, l); }
IMPL(r5)(L a, L n, L b, L m, L c, L o, L d, L p, L e, L q) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0); shape_of_rank<5> h({a, n}, {b, m}, {c, o}, {d, p}, {e, q}); for_all_indices(h, visit5); }
SPEC(r5)(L a, L n, L b, L m, L c, L o, L d, L p, L e, L q) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0); FOR(x, e, q) FOR(l, d, p) FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit5(i, j, k, l, x); }
IMPL(r6)(L n, L m, L o, L p, L q, L r) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0 && r >= 0); shape_of_rank<6> h(n, m, o, p, q, r); for_all_indices(h, visit6); }
SPEC(r6)(L n, L m, L o, L p, L q, L r) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0 && r >= 0); FOR(y, 0, r) FOR(x, 0, q) FOR(l, 0, p) FOR(k, 0, o) FOR(j, 0, m) FOR(i, 0, n) visit6(i, j, k, l, x, y); }
// compile-time mins and extents
IMPL(fixed)(L m) { ASSUME(m >= 0); shape<dense_dim<2, 5>, dim<-1, dynamic>, dim<0, 3>> h({}, dim<-1>(-1, m), {}); for_all_indices(h, visit3); }
SPEC(fixed)(L m) { ASSUME(m >= 0); FOR(k, 0, 3) FOR(j, -1, m) FOR(i, 2, 5) visit3(i, j, k); }
IMPL(dense)(L a, L n, L m) { ASSUME(n >= 0 && m >= 0); dense_shape<2> h(dense_dim<>(a, n), m); for_each_index(h, IDX2); }
SPEC(dense)(L a, L n, L m) { ASSUME(n >= 0 && m >= 0); FOR(j, 0, m) FOR(i, a, n) visit2(i, j); }
IMPL(mat)(L n, L m) { ASSUME(n >= 0 && m >= 0); matrix_shape<> h(n, m); for_all_indices(h, visit2); }
SPECU(mat)(L n, L m) { ASSUME(n >= 0 && m >= 0); FOR(j, 0, m) FOR(i, 0, n) visit2(i, j); }
IMPL(img)(L n, L m) { ASSUME(n >= 0 && m >= 0); chunky_image_shape<3> h(n, m, {}); for_all_indices(h, visit3); }
SPECU(img)(L n, L m) { ASSUME(n >= 0 && m >= 0); FOR(k, 0, 3) FOR(j, 0, m) FOR(i, 0, n) visit3(i, j, k); }
IMPL(empty)(L n, L m, L o) { ASSUME(n >= 0 && m == 0 && o >= 0); shape_of_rank<3> h(n, m, o); for_all_indices(h, visit3); for_each_index(h, IDX3); for_all_indices<1, 2, 0>(h, visit3); }
SPEC(empty)(L n, L m, L o) { ASSUME(n >= 0 && m == 0 && o >= 0); }
// LoopOrder: first listed is innermost; indices are still delivered in dimension order
IMPL(o10)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); shape_of_rank<2> h({a, n}, {b, m}); for_all_indices<1, 0>(h, visit2); for_each_index<1, 0>(h, IDX2); for_all_indices<0, 1>(h, visit2); }
SPEC(o10)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); FOR(i, a, n) FOR(j, b, m) visit2(i, j); FOR(i, a, n) FOR(j, b, m) visit2(i, j); FOR(j, b, m) FOR(i, a, n) visit2(i, j); }
#define O3(name, p, q, r, LI, LM, LO) \
  IMPL(o##name)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); shape_of_rank<3> h({a, n}, {b, m}, {c, o}); for_all_indices<p, q, r>(h, visit3); for_each_index<p, q, r>(h, IDX3); } \
  SPEC(o##name)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); LO LM LI visit3(i, j, k); LO LM LI visit3(i, j, k); }
#define LI_ FOR(i, a, n)
#define LJ_ FOR(j, b, m)
#define LK_ FOR(k, c, o)
O3(012, 0, 1, 2, LI_, LJ_, LK_)
O3(021, 0, 2, 1, LI_, LK_, LJ_)
O3(102, 1, 0, 2, LJ_, LI_, LK_)
O3(120, 1, 2, 0, LJ_, LK_, LI_)
O3(201, 2, 0, 1, LK_, LI_, LJ_)
O3(210, 2, 1, 0, LK_, LJ_, LI_)
IMPL(o4)(L a, L n, L b, L m, L c, L o, L d, L p) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0); shape_of_rank<4> h({a, n}, {b, m}, {c, o}, {d, p}); for_all_indices<3, 1, 0, 2>(h, visit4); for_each_index<2, 3, 1, 0>(h, IDX4); }
SPEC(o4)(L a, L n, L b, L m, L c, L o, L d, L p) { ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0); FOR(k, c, o) FOR(i, a, n) FOR(j, b, m) FOR(l, d, p) visit4(i, j, k, l); FOR(i, a, n) FOR(j, b, m) FOR(l, d, p) FOR(k, c, o) visit4(i, j, k, l); }
// a subset of the dimensions
IMPL(osub)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); shape_of_rank<3> h({a, n}, {b, m}, {c, o}); for_all_indices<1>(h, visit1); for_all_indices<2, 0>(h, visit2); for_each_index<0, 2>(h, IDX2); }
SPEC(osub)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); FOR(j, b, m) visit1(j); FOR(i, a, n) FOR(k, c, o) visit2(i, k); FOR(k, c, o) FOR(i, a, n) visit2(i, k); }
// ranges of a dim / interval
IMPL(ranges)(L a, L n) { ASSUME(n >= 0 && n >= a); for (L i : dim<>(a, n, 4)) visit1(i); for (L i : interval<>(a, n)) visit1(i); for (L i : dense_dim<2, 4>()) visit1(i); for (L i : range(a, n)) visit1(i); for (L i : range<4>(a)) visit1(i); }
SPEC(ranges)(L a, L n) { ASSUME(n >= 0 && n >= a); FOR(i, a, n) visit1(i); FOR(i, a, n) visit1(i); FOR(i, 2, 4) visit1(i); for (L i = a; i < n; i++) visit1(i); FOR(i, a, 4) visit1(i); }
// a shape of an array
template <class T> using P = const T*;
IMPL(arr)(double* p, L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); array_ref_of_rank<double, 2> r(p, shape_of_rank<2>({a, n}, {b, m})); for_all_indices(r.shape(), [&](L i, L j) { touch(&r(i, j)); }); }
SPEC(arr)(double* p, L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); FOR(j, b, m) FOR(i, a, n) touch(p + (i - a) + (j - b) * n); }
