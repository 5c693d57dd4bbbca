// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Value traversal: every element of the box exactly once, whatever the strides; the order is unspecified.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
typedef double T;
struct tch { void operator()(const T& x) const { touch(&x); } };
template <class S> using A = array<T, S, vf_alloc<T>>;
#define FOR(i, n) for (L i = 0; i < (n); i++)
#define TOUCH [](const T& x) { touch(&x); }
IMPL(r0)(T* p) { ASSUME(p != nullptr); array_ref<T, shape<>> r(p); r.for_each_value(TOUCH); }
SPEC(r0)(T* p) { ASSUME(p != nullptr); touch(p); }
IMPL(r1)(T* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); array_ref_of_rank<T, 1> r(p, shape_of_rank<1>(dim<>(a, n, s))); r.for_each_value(TOUCH); }
SPECU(r1)(T* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); FOR(i, n) touch(p + i * s); }
IMPL(r2)(T* p, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); array_ref_of_rank<T, 2> r(p, shape_of_rank<2>({a, n, s}, {b, m, t})); r.for_each_value(TOUCH); }
SPECU(r2)(T* p, L a, L n, L s, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved); FOR(j, m) FOR(i, n) touch(p + i * s + j * t); }
IMPL(r3)(T* p, L n, L s, L m, L t, L o, L u) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && s != unresolved && t != unresolved && u != unresolved); array_ref_of_rank<T, 3> r(p, shape_of_rank<3>({1, n, s}, {2, m, t}, {3, o, u})); r.for_each_value(TOUCH); }
SPECU(r3)(T* p, L n, L s, L m, L t, L o, L u) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && s != unresolved && t != unresolved && u != unresolved); FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i * s + j * t + k * u); }
// four dimensions: constant strides in every relative position, symbolic extents
IMPL(r4)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1); array_ref_of_rank<T, 4> r(p, shape_of_rank<4>({0, n, 70}, {0, m, -3}, {0, o, 1}, {0, q, 11})); r.for_each_value(TOUCH); }
SPECU(r4)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && q >= 1); FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i * 70 - j * 3 + k + l * 11); }
// compact rank 4 and 5: everything fuses
IMPL(r4c)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2); array_ref_of_rank<T, 4> r(p, shape_of_rank<4>({0, n, 1}, {0, m, n}, {0, o, n * m}, {0, q, n * m * o})); r.for_each_value(TOUCH); }
SPECU(r4c)(T* p, L n, L m, L o, L q) { ASSUME(p != nullptr && n >= 2 && m >= 2 && o >= 2 && q >= 2); FOR(l, q) FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i + j * n + k * n * m + l * n * m * o); }
IMPL(bcast)(T* p, L n, L m, L s) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved); array_ref<T, shape<dim<>, broadcast_dim<>>> r(p, shape<dim<>, broadcast_dim<>>(dim<>(0, n, s), broadcast_dim<>(0, m))); r.for_each_value(TOUCH); }
SPECU(bcast)(T* p, L n, L m, L s) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved); FOR(j, m) FOR(i, n) touch(p + i * s); }
IMPL(dense2)(T* p, L a, L n, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); dense_array_ref<T, 2> r(p, dense_shape<2>(dense_dim<>(a, n), dim<>(0, m, t))); r.for_each_value(TOUCH); }
SPECU(dense2)(T* p, L a, L n, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); FOR(j, m) FOR(i, n) touch(p + i + j * t); }
IMPL(fixed)(T* p) { ASSUME(p != nullptr); array_ref<T, fixed_dense_shape<3, 2, 2>> r(p); r.for_each_value(TOUCH); }
SPECU(fixed)(T* p) { ASSUME(p != nullptr); FOR(i, 12) touch(p + i); }
// owned arrays, through const and mutable access
IMPL(arr)(L n, L m, L s, L t) {
  ASSUME(n >= 1 && m >= 1 && s > 0 && t > 0 && s != unresolved && t != unresolved); A<shape_of_rank<2>> v(shape_of_rank<2>({0, n, s}, {0, m, t})); v.for_each_value(TOUCH); const auto& c = v; c.for_each_value(TOUCH);
}
SPECU(arr)(L n, L m, L s, L t) {
  ASSUME(n >= 1 && m >= 1 && s > 0 && t > 0 && s != unresolved && t != unresolved); T* d = (T*)al_alloc((n - 1) * s + (m - 1) * t + 1); ASSUME(d != nullptr);
  FOR(j, m) FOR(i, n) touch(d + i * s + j * t); FOR(j, m) FOR(i, n) touch(d + i * s + j * t); al_free(d, (n - 1) * s + (m - 1) * t + 1);
}
// matrices and images have traversals of their own
#define MAT(name, S, mk) \
  IMPL(name)(T* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && n >= 1 && m >= 1 && s != unresolved); array_ref<T, S> r(p, mk); r.for_each_value(TOUCH); } \
  SPECU(name)(T* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && n >= 1 && m >= 1 && s != unresolved); FOR(i, n) FOR(j, m) touch(p + i * s + j); }
MAT(mat, matrix_shape<>, (matrix_shape<>(dim<>(a, n, s), dense_dim<>(b, m))))
IMPL(mat34)(T* p) { ASSUME(p != nullptr); typedef matrix_shape<3, 4> S; array_ref<T, S> r(p); r.for_each_value(TOUCH); }
SPECU(mat34)(T* p) { ASSUME(p != nullptr); FOR(i, 3) FOR(j, 4) touch(p + i * 4 + j); }
IMPL(vec)(T* p, L a, L n) { ASSUME(p != nullptr && n >= 0); vector_ref<T> r(p, vector_shape<>(dense_dim<>(a, n))); r.for_each_value(TOUCH); }
SPECU(vec)(T* p, L a, L n) { ASSUME(p != nullptr && n >= 0); FOR(i, n) touch(p + i); }
IMPL(planar)(T* p, L n, L m, L t, L o, L u) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && t != unresolved && u != unresolved); planar_image_ref<T> r(p, planar_image_shape(n, dim<>(0, m, t), dim<>(0, o, u))); r.for_each_value(TOUCH); }
SPECU(planar)(T* p, L n, L m, L t, L o, L u) { ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && t != unresolved && u != unresolved); FOR(k, o) FOR(j, m) FOR(i, n) touch(p + i + j * t + k * u); }
// chunky: dynamic channels with any x stride; fixed channels; fixed channels with padding
IMPL(chunky)(T* p, L x0, L w, L xs, L y0, L h, L ys, L c) { ASSUME(p != nullptr && w >= 1 && h >= 1 && c >= 1 && xs != unresolved && ys != unresolved); chunky_image_ref<T> r(p, chunky_image_shape<>(strided_dim<dynamic>(x0, w, xs), dim<>(y0, h, ys), dense_dim<0>(0, c))); r.for_each_value(TOUCH); }
SPECU(chunky)(T* p, L x0, L w, L xs, L y0, L h, L ys, L c) { ASSUME(p != nullptr && w >= 1 && h >= 1 && c >= 1 && xs != unresolved && ys != unresolved); FOR(y, h) FOR(x, w) FOR(k, c) touch(p + x * xs + y * ys + k); }
IMPL(chunky3)(T* p, L x0, L w, L y0, L h, L ys) { ASSUME(p != nullptr && w >= 1 && h >= 1 && ys != unresolved); chunky_image_ref<T, 3> r(p, chunky_image_shape<3>(strided_dim<3>(x0, w), dim<>(y0, h, ys), {})); r.for_each_value(TOUCH); }
SPECU(chunky3)(T* p, L x0, L w, L y0, L h, L ys) { ASSUME(p != nullptr && w >= 1 && h >= 1 && ys != unresolved); FOR(y, h) FOR(x, w) FOR(k, 3) touch(p + x * 3 + y * ys + k); }
IMPL(chunky34)(T* p, L x0, L w, L y0, L h, L ys) { ASSUME(p != nullptr && w >= 1 && h >= 1 && ys != unresolved); chunky_image_ref<T, 3, 4> r(p, chunky_image_shape<3, 4>(strided_dim<4>(x0, w), dim<>(y0, h, ys), {})); r.for_each_value(TOUCH); }
SPECU(chunky34)(T* p, L x0, L w, L y0, L h, L ys) { ASSUME(p != nullptr && w >= 1 && h >= 1 && ys != unresolved); FOR(y, h) FOR(x, w) FOR(k, 3) touch(p + x * 4 + y * ys + k); }
// empty boxes and null bases touch nothing
IMPL(empty)(T* p, L n, L m, L s, L t) { ASSUME(p != nullptr && n >= 0 && m == 0 && s != unresolved && t != unresolved); array_ref_of_rank<T, 2> r(p, shape_of_rank<2>({0, n, s}, {0, m, t})); r.for_each_value(TOUCH); array_ref_of_rank<T, 2> z(nullptr, shape_of_rank<2>({0, n, s}, {0, m, t})); z.for_each_value(TOUCH); }
SPEC(empty)(T* p, L n, L m, L s, L t) { ASSUME(p != nullptr && n >= 0 && m == 0 && s != unresolved && t != unresolved); }
// in-order traversal and the two-array traversal
IMPL(inorder)(T* p, L n, L s, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0); shape_of_rank<2> h({4, n, s}, {5, m, t}); for_each_value_in_order(h, p, TOUCH); }
SPEC(inorder)(T* p, L n, L s, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0); FOR(j, m) FOR(i, n) touch(p + i * s + j * t); }
IMPL(two)(T* p, T* q, L x, L n, L y, L m, L a, L s, L b, L t, L c, L u, L d, L v) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0);
  shape_of_rank<2> h({x, n, 1}, {y, m, 2}), ha({a, n, s}, {b, m, t}), hb({c, n, u}, {d, m, v});
  for_each_value_in_order(h, ha, p, hb, q, [](const T& e, const T& f) { touch2(&e, &f); });
}
SPEC(two)(T* p, T* q, L x, L n, L y, L m, L a, L s, L b, L t, L c, L u, L d, L v) {
  ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0);
  FOR(j, m) FOR(i, n) touch2(p + (x + i - a) * s + (y + j - b) * t, q + (x + i - c) * u + (y + j - d) * v);
}
IMPL(two0)(T* p, T* q) { ASSUME(p != nullptr && q != nullptr); for_each_value_in_order(shape<>(), shape<>(), p, shape<>(), q, [](const T& e, const T& f) { touch2(&e, &f); }); }
SPEC(two0)(T* p, T* q) { ASSUME(p != nullptr && q != nullptr); touch2(p, q); }
