// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Copies, fills and transforms of four and five dimensions.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define FOR(i, n) for (L i = 0; i < (n); i++)
#define P4 ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && r >= 1)
IMPL(copy4)(const E* p, E* q, L n, L m, L o, L r) { P4; const_array_ref_of_rank<E, 4> f(p, shape_of_rank<4>({0, n + 1, 3}, {0, m + 2, -500}, {0, o + 3, 70000}, {0, r + 4, 1})); array_ref_of_rank<E, 4> g(q, shape_of_rank<4>({1, n, 20}, {2, m, 3000}, {3, o, 2}, {4, r, 5000000})); copy(f, g); }
SPECU(copy4)(const E* p, E* q, L n, L m, L o, L r) { P4; FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_ca(q + i * 20 + j * 3000 + k * 2 + l * 5000000, p + (i + 1) * 3 - (j + 2) * 500 + (k + 3) * 70000 + l + 4); }
IMPL(copy5)(const E* p, E* q, L n, L m, L o, L r, L x) { P4; ASSUME(x >= 1); const_array_ref_of_rank<E, 5> f(p, shape_of_rank<5>({0, n, 2}, {0, m, 30}, {0, o, 400}, {0, r, 5000}, {0, x, 60000})); array_ref_of_rank<E, 5> g(q, shape_of_rank<5>({0, n, 70000}, {0, m, 6000}, {0, o, 500}, {0, r, 40}, {0, x, 3})); copy(f, g); }
SPECU(copy5)(const E* p, E* q, L n, L m, L o, L r, L x) { P4; ASSUME(x >= 1); FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_ca(q + i * 70000 + j * 6000 + k * 500 + l * 40 + y * 3, p + i * 2 + j * 30 + k * 400 + l * 5000 + y * 60000); }
IMPL(move4)(E* p, E* q, L n, L m, L o, L r) { P4; array_ref_of_rank<E, 4> f(p, shape_of_rank<4>({0, n, 2}, {0, m, 30}, {0, o, 400}, {0, r, 5000})), g(q, shape_of_rank<4>({0, n, 6000}, {0, m, 5}, {0, o, 40}, {0, r, 300})); nda::move(f, g); }
SPECU(move4)(E* p, E* q, L n, L m, L o, L r) { P4; FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_ma(q + i * 6000 + j * 5 + k * 40 + l * 300, p + i * 2 + j * 30 + k * 400 + l * 5000); }
// compact to compact fuses
IMPL(compact4)(const E* p, E* q, L n, L m, L o, L r) { ASSUME(p != nullptr && q != nullptr && n >= 2 && m >= 2 && o >= 2 && r >= 2); shape_of_rank<4> h({0, n, 1}, {0, m, n}, {0, o, n * m}, {0, r, n * m * o}); const_array_ref_of_rank<E, 4> f(p, h); array_ref_of_rank<E, 4> g(q, h); copy(f, g); }
SPECU(compact4)(const E* p, E* q, L n, L m, L o, L r) { ASSUME(p != nullptr && q != nullptr && n >= 2 && m >= 2 && o >= 2 && r >= 2); FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) { L x = i + j * n + k * n * m + l * n * m * o; el_ca(q + x, p + x); } }
#define G5 array_ref_of_rank<E, 5> g(q, shape_of_rank<5>({1, n, 70000}, {2, m, 6000}, {3, o, 500}, {4, r, 40}, {5, x, 3}))
#define A5 E *q, L n, L m, L o, L r, L x
#define B5 ASSUME(q != nullptr && n >= 1 && m >= 1 && o >= 1 && r >= 1 && x >= 1)
#define AT q + i * 70000 + j * 6000 + k * 500 + l * 40 + y * 3
IMPL(gen5)(A5) { B5; G5; generate(g, []() { return vf_tok(); }); }
SPECU(gen5)(A5) { B5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_set(AT); }
IMPL(fill5)(double* q, L n, L m, L o, L r, L x, double v) { B5; array_ref_of_rank<double, 5> g(q, shape_of_rank<5>({1, n, 70000}, {2, m, 6000}, {3, o, 500}, {4, r, 40}, {5, x, 3})); fill(g, v); }
SPECU(fill5)(double* q, L n, L m, L o, L r, L x, double v) { B5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) *(AT) = v; }
IMPL(tr5)(A5) { B5; G5; transform_indices(g, [](L a, L b, L c, L d, L e) { return vf_idx{a * 7 + b * 11 + c * 13, d * 17 + e * 19}; }); }
SPECU(tr5)(A5) { B5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_set2(AT, (i + 1) * 7 + (j + 2) * 11 + (k + 3) * 13, (l + 4) * 17 + (y + 5) * 19); }
// some dims fuse and others stay apart
#define Q5 ASSUME(p != nullptr && q != nullptr && n >= 2 && m >= 2 && o >= 2 && r >= 2 && x >= 2)
#define F5 const E *p, E *q, L n, L m, L o, L r, L x
IMPL(copy5_1_4)(F5) { Q5; shape_of_rank<5> h({0, n, 2}, {0, m, 2 * n}, {0, o, 2 * n * m}, {0, r, 2 * n * m * o}, {0, x, -7}); const_array_ref_of_rank<E, 5> f(p, h); array_ref_of_rank<E, 5> g(q, h); copy(f, g); }
SPECU(copy5_1_4)(F5) { Q5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) { L z = 2 * (i + j * n + k * n * m + l * n * m * o) - 7 * y; el_ca(q + z, p + z); } }
IMPL(copy5_3_2)(F5) { Q5; shape_of_rank<5> h({0, n, 2}, {0, m, -6}, {0, o, 2 * n}, {0, r, -77}, {0, x, -500}); const_array_ref_of_rank<E, 5> f(p, h); array_ref_of_rank<E, 5> g(q, h); copy(f, g); }
SPECU(copy5_3_2)(F5) { Q5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) { L z = 2 * (i + k * n) - 6 * j - 77 * l - 500 * y; el_ca(q + z, p + z); } }
// the destination would fuse, the source does not
IMPL(copy5_dst)(F5) { Q5; const_array_ref_of_rank<E, 5> f(p, shape_of_rank<5>({0, n, 4}, {0, m, 21}, {0, o, 6}, {0, r, 50}, {0, x, 9})); array_ref_of_rank<E, 5> g(q, shape_of_rank<5>({0, n, 2}, {0, m, 2 * n}, {0, o, 2 * n * m}, {0, r, 2 * n * m * o}, {0, x, -7})); copy(f, g); }
SPECU(copy5_dst)(F5) { Q5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) el_ca(q + 2 * (i + j * n + k * n * m + l * n * m * o) - 7 * y, p + i * 4 + j * 21 + k * 6 + l * 50 + y * 9); }
// a window of fused source dims
IMPL(copy4_window)(const E* p, E* q, L n, L m, L o, L r, L a, L b) { ASSUME(p != nullptr && q != nullptr && n >= 2 && m >= 2 && o >= 2 && r >= 2 && a >= 0 && b >= 0 && a + r <= b); const_array_ref_of_rank<E, 4> f(p, shape_of_rank<4>({0, n, 1}, {0, m, n}, {0, o, n * m}, {0, b, n * m * o})); array_ref_of_rank<E, 4> g(q, shape_of_rank<4>({0, n, 1}, {0, m, n}, {0, o, n * m}, {a, r, n * m * o})); copy(f, g); }
SPECU(copy4_window)(const E* p, E* q, L n, L m, L o, L r, L a, L b) { ASSUME(p != nullptr && q != nullptr && n >= 2 && m >= 2 && o >= 2 && r >= 2 && a >= 0 && b >= 0 && a + r <= b); FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) { L z = i + j * n + k * n * m; el_ca(q + z + l * n * m * o, p + z + (l + a) * n * m * o); } }
IMPL(move5_1_4)(E* p, E* q, L n, L m, L o, L r, L x) { Q5; shape_of_rank<5> h({0, n, 2}, {0, m, 2 * n}, {0, o, 2 * n * m}, {0, r, 2 * n * m * o}, {0, x, -7}); array_ref_of_rank<E, 5> f(p, h), g(q, h); nda::move(f, g); }
SPECU(move5_1_4)(E* p, E* q, L n, L m, L o, L r, L x) { Q5; FOR(y, x) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) { L z = 2 * (i + j * n + k * n * m + l * n * m * o) - 7 * y; el_ma(q + z, p + z); } }
// a window of an inner dim, both sides packed: the strides chain up but the elements do not
#define W_ ASSUME(p != nullptr && q != nullptr && a >= 0 && n >= 1 && a + n <= b && m >= 2 && o >= 2 && r >= 2 && x >= 2)
#define WA const E *p, E *q, L a, L n, L b, L m, L o, L r, L x
IMPL(win2)(WA) { W_; const_array_ref_of_rank<E, 2> f(p, shape_of_rank<2>({0, b, 1}, {0, m, b})); array_ref_of_rank<E, 2> g(q, shape_of_rank<2>({a, n, 1}, {0, m, n})); copy(f, g); }
SPECU(win2)(WA) { W_; FOR(j, m) FOR(i, n) el_ca(q + i + j * n, p + (i + a) + j * b); }
IMPL(win3)(WA) { W_; const_array_ref_of_rank<E, 3> f(p, shape_of_rank<3>({0, m, 1}, {0, b, m}, {0, o, m * b})); array_ref_of_rank<E, 3> g(q, shape_of_rank<3>({0, m, 1}, {a, n, m}, {0, o, m * n})); copy(f, g); }
SPECU(win3)(WA) { W_; FOR(k, o) FOR(j, n) FOR(i, m) el_ca(q + i + j * m + k * (m * n), p + i + (j + a) * m + k * (m * b)); }
IMPL(win3i)(WA) { W_; const_array_ref_of_rank<E, 3> f(p, shape_of_rank<3>({0, b, 1}, {0, m, b}, {0, o, m * b})); array_ref_of_rank<E, 3> g(q, shape_of_rank<3>({a, n, 1}, {0, m, n}, {0, o, m * n})); copy(f, g); }
SPECU(win3i)(WA) { W_; FOR(k, o) FOR(j, m) FOR(i, n) el_ca(q + i + j * n + k * (m * n), p + (i + a) + j * b + k * (m * b)); }
IMPL(win4)(WA) { W_; const_array_ref_of_rank<E, 4> f(p, shape_of_rank<4>({0, m, 2}, {0, b, -700}, {0, o, -700 * b}, {0, r, 50000})); array_ref_of_rank<E, 4> g(q, shape_of_rank<4>({0, m, 3}, {a, n, 70}, {0, o, 70 * n}, {0, r, -7})); copy(f, g); }
SPECU(win4)(WA) { W_; FOR(l, r) FOR(k, o) FOR(j, n) FOR(i, m) el_ca(q + i * 3 + j * 70 + k * (70 * n) + l * -7, p + i * 2 + (j + a) * -700 + k * (-700 * b) + l * 50000); }
IMPL(win5)(WA) { W_; const_array_ref_of_rank<E, 5> f(p, shape_of_rank<5>({0, m, 2}, {0, o, 31}, {0, b, -700}, {0, r, -700 * b}, {0, x, 90000})); array_ref_of_rank<E, 5> g(q, shape_of_rank<5>({0, m, 3}, {0, o, 17}, {a, n, 70}, {0, r, 70 * n}, {0, x, -9})); copy(f, g); }
SPECU(win5)(WA) { W_; FOR(y, x) FOR(l, r) FOR(k, n) FOR(j, o) FOR(i, m) el_ca(q + i * 3 + j * 17 + k * 70 + l * (70 * n) + y * -9, p + i * 2 + j * 31 + (k + a) * -700 + l * (-700 * b) + y * 90000); }
