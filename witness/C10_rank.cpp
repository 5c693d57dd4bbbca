// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Value traversal of four to six dimensions.
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
#define FOR(i, n) for (L i = 0; i < (n); i++)
#define TOUCH [](const T& x) { touch(&x); }
IMPL(r5)(T* p, L n, L m, L o, L q, L r) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1 && r >= 1); array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 70}, {0, m, -3}, {0, o, 1}, {0, q, 11}, {4, r, 500})); x.for_each_value(TOUCH); }
SPECU(r5)(T* p, L n, L m, L o, L q, L r) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1 && r >= 1); FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i * 70 - j * 3 + k + l * 11 + h * 500); }
IMPL(r6)(T* p, L n, L m, L o, L q, L r, L g) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1 && r >= 1 && g >= 1); array_ref_of_rank<T, 6> x(p, shape_of_rank<6>({0, n, 2}, {0, m, 30}, {0, o, 400}, {0, q, -5000}, {4, r, 60000}, {1, g, 0})); x.for_each_value(TOUCH); }
SPECU(r6)(T* p, L n, L m, L o, L q, L r, L g) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1 && r >= 1 && g >= 1); FOR(f, g) FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i * 2 + j * 30 + k * 400 - l * 5000 + h * 60000); }
// compact: everything fuses into one loop
IMPL(r5c)(T* p, L n, L m, L o, L q, L r) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2 && r >= 2); array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 1}, {0, m, n}, {0, o, n * m}, {0, q, n * m * o}, {0, r, n * m * o * q})); x.for_each_value(TOUCH); }
SPECU(r5c)(T* p, L n, L m, L o, L q, L r) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2 && r >= 2); FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i + j * n + k * n * m + l * n * m * o + h * n * m * o * q); }
// pairs of dims fuse, in either storage order
IMPL(r4p)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2 && n * m < 1000); array_ref_of_rank<T, 4> x(p, shape_of_rank<4>({0, n, 1}, {0, m, n}, {0, o, 1000}, {0, q, 1000 * o})); x.for_each_value(TOUCH); }
SPECU(r4p)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2 && n * m < 1000); FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i + j * n + k * 1000 + l * 1000 * o); }
IMPL(fixed5)(T* p) { ASSUME(p != nullptr); array_ref<T, fixed_dense_shape<2, 3, 1, 2, 2>> x(p); x.for_each_value(TOUCH); }
SPECU(fixed5)(T* p) { ASSUME(p != nullptr); FOR(i, 24) touch(p + i); }
IMPL(empty5)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && q >= 0); array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 70}, {0, m, -3}, {0, o, 1}, {0, 0, 11}, {4, q, 500})); x.for_each_value(TOUCH); }
SPEC(empty5)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && q >= 0); }
IMPL(inorder5)(T* p, L n, L s, L m, L t, L o, L u, L q, L v, L r, L w) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && q >= 0 && r >= 0); shape_of_rank<5> h({4, n, s}, {5, m, t}, {6, o, u}, {7, q, v}, {8, r, w}); for_each_value_in_order(h, p, TOUCH); }
SPEC(inorder5)(T* p, L n, L s, L m, L t, L o, L u, L q, L v, L r, L w) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && q >= 0 && r >= 0); FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i * s + j * t + k * u + l * v + h * w); }
// two arrays in step, each with its own mins and strides
IMPL(two4)(T* p, T* q, L n, L s, L x, L m, L t, L y, L o, L u, L z, L r, L v, L g) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 0 && r >= 0);
  shape_of_rank<4> h({1, n}, {2, m}, {3, o}, {4, r}), a({0, 99, s}, {0, 99, t}, {0, 99, u}, {0, 99, v}), b({1, 99, x}, {1, 99, y}, {1, 99, z}, {1, 99, g});
  for_each_value_in_order(h, a, p, b, q, [](const T& e, const T& f) { touch2(&e, &f); });
}
SPEC(two4)(T* p, T* q, L n, L s, L x, L m, L t, L y, L o, L u, L z, L r, L v, L g) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 0 && r >= 0);
  FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) touch2(p + (1 + i) * s + (2 + j) * t + (3 + k) * u + (4 + l) * v, q + i * x + (1 + j) * y + (2 + k) * z + (3 + l) * g);
}
IMPL(two6)(T* p, T* q, L n, L m, L o, L r, L f, L g) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 0 && r >= 0 && f >= 0 && g >= 0);
  shape_of_rank<6> h(n, m, o, r, f, g), a({0, n, 2}, {0, m, 3}, {0, o, 5}, {0, r, 7}, {0, f, 11}, {0, g, 13}), b({0, n, 17}, {0, m, 19}, {0, o, 23}, {0, r, 29}, {0, f, 31}, {0, g, 37});
  for_each_value_in_order(h, a, p, b, q, [](const T& e, const T& f) { touch2(&e, &f); });
}
SPEC(two6)(T* p, T* q, L n, L m, L o, L r, L f, L g) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && o >= 0 && r >= 0 && f >= 0 && g >= 0);
  FOR(y, g) FOR(x, f) FOR(l, r) FOR(k, o) FOR(j, m) FOR(i, n) touch2(p + i * 2 + j * 3 + k * 5 + l * 7 + x * 11 + y * 13, q + i * 17 + j * 19 + k * 23 + l * 29 + x * 31 + y * 37);
}
// some dims fuse and others stay apart
#define G5 ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2 && r >= 2)
IMPL(r5_1_4)(T* p, L n, L m, L o, L q, L r) { G5; array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 2}, {0, m, 2 * n}, {0, o, 2 * n * m}, {0, q, 2 * n * m * o}, {0, r, -7})); x.for_each_value(TOUCH); }
SPECU(r5_1_4)(T* p, L n, L m, L o, L q, L r) { G5; FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + 2 * (i + j * n + k * n * m + l * n * m * o) - 7 * h); }
IMPL(r5_2_3)(T* p, L n, L m, L o, L q, L r) { G5; array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, q, -77}, {0, n, 2}, {0, r, -6}, {0, m, 2 * n}, {0, o, 2 * n * m})); x.for_each_value(TOUCH); }
SPECU(r5_2_3)(T* p, L n, L m, L o, L q, L r) { G5; FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + 2 * (i + j * n + k * n * m) - 77 * l - 6 * h); }
IMPL(r5_3_2)(T* p, L n, L m, L o, L q, L r) { G5; array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 2}, {0, q, -77}, {0, m, 2 * n}, {0, r, -6}, {0, o, -500})); x.for_each_value(TOUCH); }
SPECU(r5_3_2)(T* p, L n, L m, L o, L q, L r) { G5; FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + 2 * (i + j * n) - 77 * l - 6 * h - 500 * k); }
IMPL(r5_122)(T* p, L n, L m, L o, L q, L r) { G5; ASSUME(n * m < 1000); array_ref_of_rank<T, 5> x(p, shape_of_rank<5>({0, n, 1}, {0, m, n}, {0, o, 1000}, {0, q, 1000 * o}, {0, r, -6})); x.for_each_value(TOUCH); }
SPECU(r5_122)(T* p, L n, L m, L o, L q, L r) { G5; ASSUME(n * m < 1000); FOR(h, r) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i + j * n + k * 1000 + l * 1000 * o - 6 * h); }
IMPL(r6_1_5)(T* p, L n, L m, L o, L q, L r, L g) { G5; ASSUME(g >= 2); array_ref_of_rank<T, 6> x(p, shape_of_rank<6>({0, n, 2}, {0, m, 2 * n}, {0, o, 2 * n * m}, {0, q, 2 * n * m * o}, {0, g, 2 * n * m * o * q}, {0, r, -7})); x.for_each_value(TOUCH); }
SPECU(r6_1_5)(T* p, L n, L m, L o, L q, L r, L g) { G5; ASSUME(g >= 2); FOR(h, r) FOR(f, g) FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + 2 * (i + j * n + k * n * m + l * n * m * o + f * n * m * o * q) - 7 * h); }
