// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Loop orders of five and six dimensions, tuples of five and six indices, and eight dimensions.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
#define N5 ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0)
#define S5 shape_of_rank<5> h({a, n}, {b, m}, {c, o}, {d, p}, {e, q});
#define A5 L a, L n, L b, L m, L c, L o, L d, L p, L e, L q
IMPL(each5)(A5) { N5; S5 for_each_index(h, [](const index_of_rank<5>& i) { visit5(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i), std::get<4>(i)); }); }
SPEC(each5)(A5) { N5; FOR(x, e, q) FOR(l, d, p) FOR(k, c, o) FOR(j, b, m) FOR(i, a, n) visit5(i, j, k, l, x); }
IMPL(o5)(A5) { N5; S5 for_all_indices<4, 2, 0, 3, 1>(h, visit5); }
SPEC(o5)(A5) { N5; FOR(j, b, m) FOR(l, d, p) FOR(i, a, n) FOR(k, c, o) FOR(x, e, q) visit5(i, j, k, l, x); }
IMPL(o5e)(A5) { N5; S5 for_each_index<1, 3, 4, 0, 2>(h, [](const index_of_rank<5>& i) { visit5(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i), std::get<4>(i)); }); }
SPEC(o5e)(A5) { N5; FOR(k, c, o) FOR(i, a, n) FOR(x, e, q) FOR(l, d, p) FOR(j, b, m) visit5(i, j, k, l, x); }
IMPL(sub5)(A5) { N5; S5 for_all_indices<3, 1>(h, visit2); for_each_index<4, 2, 0>(h, [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }); }
SPEC(sub5)(A5) { N5; FOR(j, b, m) FOR(l, d, p) visit2(j, l); FOR(i, a, n) FOR(k, c, o) FOR(x, e, q) visit3(i, k, x); }
#define N6 ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0 && r >= 0)
IMPL(o6)(L n, L m, L o, L p, L q, L r) { N6; shape_of_rank<6> h(n, m, o, p, q, r); for_all_indices<5, 4, 3, 2, 1, 0>(h, visit6); }
SPEC(o6)(L n, L m, L o, L p, L q, L r) { N6; FOR(i, 0, n) FOR(j, 0, m) FOR(k, 0, o) FOR(l, 0, p) FOR(x, 0, q) FOR(y, 0, r) visit6(i, j, k, l, x, y); }
IMPL(each6)(L n, L m, L o, L p, L q, L r) { N6; shape_of_rank<6> h(n, m, o, p, q, r); for_each_index(h, [](const index_of_rank<6>& i) { visit6(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i), std::get<4>(i), std::get<5>(i)); }); }
SPEC(each6)(L n, L m, L o, L p, L q, L r) { N6; FOR(y, 0, r) FOR(x, 0, q) FOR(l, 0, p) FOR(k, 0, o) FOR(j, 0, m) FOR(i, 0, n) visit6(i, j, k, l, x, y); }
IMPL(r8)(L n, L m, L o, L p, L q, L r) { N6; ASSUME(n >= 1 && m >= 1 && o >= 1); shape_of_rank<8> h(n, {1, m}, 2, {-3, o}, p, 2, {7, q}, r); for_all_indices(h, [](L a, L b, L c, L d, L e, L f, L g, L i) { visit4(a, b, c, d); visit4(e, f, g, i); }); }
SPEC(r8)(L n, L m, L o, L p, L q, L r) { N6; ASSUME(n >= 1 && m >= 1 && o >= 1); FOR(i, 0, r) FOR(g, 7, q) FOR(f, 0, 2) FOR(e, 0, p) FOR(d, -3, o) FOR(c, 0, 2) FOR(b, 1, m) FOR(a, 0, n) { visit4(a, b, c, d); visit4(e, f, g, i); } }
// all known at compile time
IMPL(fixed)() { fixed_dense_shape<2, 1, 3, 1, 2> h; for_all_indices<2, 0, 4, 3, 1>(h, visit5); }
SPEC(fixed)() { FOR(x, 0, 2) FOR(i, 0, 2) FOR(k, 0, 3) visit5(i, 0, k, 0, x); }
