// modes: ndebug assert
// thorough: ndebug17
// Indexing with intervals and indices gives a view whose element at x is the original's element at x
// (with sliced dimensions fixed), whose bounds are the requested intervals, and which aliases the same memory.
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
#define P2 T *p, L a, L n, L s, L b, L m, L t
#define R2 array_ref_of_rank<T, 2>(p, shape_of_rank<2>({a, n, s}, {b, m, t}))
#define P3 T *p, L a, L n, L s, L b, L m, L t, L c, L o, L u
#define R3 array_ref_of_rank<T, 3>(p, shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u}))
#define NN2 ASSUME(p != nullptr && s != unresolved && t != unresolved)
#define NN3 ASSUME(p != nullptr && s != unresolved && t != unresolved && u != unresolved)
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void dmv(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }

IMPL(crop2)(P2, L c, L k, L d, L l, L x, L y) { NN2; auto v = R2(interval<>(c, k), interval<>(d, l)); out(99, v.rank()); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, y)); }
SPEC(crop2)(P2, L c, L k, L d, L l, L x, L y) { NN2; out(99, 2); dmv(0, c, k, s); dmv(3, d, l, t); outp(6, p + (x - a) * s + (y - b) * t); }
IMPL(crop2t)(P2, L c, L k, L d, L l, L x, L y) { NN2; auto v = R2[std::make_tuple(range(c, k), dim<>(d, l, 1234))]; dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, y)); }
SPEC(crop2t)(P2, L c, L k, L d, L l, L x, L y) { NN2; dmv(0, c, k - c, s); dmv(3, d, l, t); outp(6, p + (x - a) * s + (y - b) * t); }
IMPL(keep0)(P2, L d, L l, L x, L y) { NN2; auto v = R2(_, range(d, l)); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, y)); }
SPEC(keep0)(P2, L d, L l, L x, L y) { NN2; dmv(0, a, n, s); dmv(3, d, l - d, t); outp(6, p + (x - a) * s + (y - b) * t); }
IMPL(keep1)(P2, L d, L x, L y) { NN2; auto v = R2(range<4>(d), all); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, y)); }
SPEC(keep1)(P2, L d, L x, L y) { NN2; dmv(0, d, 4, s); dmv(3, b, m, t); outp(6, p + (x - a) * s + (y - b) * t); }
IMPL(keepboth)(P2, L x, L y) { NN2; auto v = R2(_, _); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, y)); outp(7, v.base()); }
SPEC(keepboth)(P2, L x, L y) { NN2; dmv(0, a, n, s); dmv(3, b, m, t); outp(6, p + (x - a) * s + (y - b) * t); outp(7, p); }
IMPL(slice0)(P2, L i, L y) { NN2; auto v = R2(i, _); out(99, v.rank()); dm(0, v.dim<0>()); outp(6, &v(y)); }
SPEC(slice0)(P2, L i, L y) { NN2; out(99, 1); dmv(0, b, m, t); outp(6, p + (i - a) * s + (y - b) * t); }
IMPL(slice1)(P2, L j, L c, L k, L x) { NN2; auto v = R2(range(c, k), j); out(99, v.rank()); dm(0, v.dim<0>()); outp(6, &v(x)); }
SPEC(slice1)(P2, L j, L c, L k, L x) { NN2; out(99, 1); dmv(0, c, k - c, s); outp(6, p + (x - a) * s + (j - b) * t); }
IMPL(slice3a)(P3, L i, L y, L z) { NN3; auto v = R3(i, _, _); out(99, v.rank()); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(y, z)); }
SPEC(slice3a)(P3, L i, L y, L z) { NN3; out(99, 2); dmv(0, b, m, t); dmv(3, c, o, u); outp(6, p + (i - a) * s + (y - b) * t + (z - c) * u); }
IMPL(slice3b)(P3, L i, L d, L l, L x, L z) { NN3; auto v = R3(_, i, interval<>(d, l)); out(99, v.rank()); dm(0, v.dim<0>()); dm(3, v.dim<1>()); outp(6, &v(x, z)); }
SPEC(slice3b)(P3, L i, L d, L l, L x, L z) { NN3; out(99, 2); dmv(0, a, n, s); dmv(3, d, l, u); outp(6, p + (x - a) * s + (i - b) * t + (z - c) * u); }
IMPL(slice3c)(P3, L i, L j, L z) { NN3; auto v = R3(i, range(j, j + 5), z); out(99, v.rank()); dm(0, v.dim<0>()); outp(6, &v(j + 2)); outp(7, v.base()); }
SPEC(slice3c)(P3, L i, L j, L z) { NN3; out(99, 1); dmv(0, j, 5, t); outp(6, p + (i - a) * s + (j + 2 - b) * t + (z - c) * u); outp(7, p + (i - a) * s + (j - b) * t + (z - c) * u); }
IMPL(slice3d)(P3, L i, L k) { NN3; auto v = R3(_, i, k); out(99, v.rank()); dm(0, v.dim<0>()); outp(7, v.base()); }
SPEC(slice3d)(P3, L i, L k) { NN3; out(99, 1); dmv(0, a, n, s); outp(7, p + (i - b) * t + (k - c) * u); }
// compile-time strides survive; interval with compile-time extent
IMPL(dense)(T* p, L a, L n, L b, L m, L t, L c, L x, L j) {
  ASSUME(p != nullptr && t != unresolved);
  dense_array_ref<T, 2> r(p, dense_shape<2>(dense_dim<>(a, n), dim<>(b, m, t)));
  auto v = r(range<8>(c), j); dm(0, v.dim<0>()); out(3, decltype(v)::shape_type::dims_type{} == decltype(v)::shape_type::dims_type{}); outp(6, &v(x));
  auto w = r(c, _); dm(7, w.dim<0>()); outp(10, &w(j));
}
SPEC(dense)(T* p, L a, L n, L b, L m, L t, L c, L x, L j) {
  ASSUME(p != nullptr && t != unresolved);
  dmv(0, c, 8, 1); out(3, 1); outp(6, p + (x - a) + (j - b) * t); dmv(7, b, m, t); outp(10, p + (c - a) + (j - b) * t);
}
// a view of a view
IMPL(nested)(P2, L c, L k, L d, L l, L i, L y) { NN2; auto v = R2(range(c, k), range(d, l)); auto w = v(i, _); dm(0, w.dim<0>()); outp(3, &w(y)); }
SPEC(nested)(P2, L c, L k, L d, L l, L i, L y) { NN2; dmv(0, d, l - d, t); outp(3, p + (i - a) * s + (y - b) * t); }
// null stays null
IMPL(nullview)(L a, L n, L s, L i) { array_ref_of_rank<T, 1> r(nullptr, shape_of_rank<1>(dim<>(a, n, 3))); auto v = r(range(i, i + 2)); outp(0, v.base()); }
SPEC(nullview)(L a, L n, L s, L i) { outp(0, nullptr); }
// arrays, const arrays and shapes
template <class S> using A = array<T, S, vf_alloc<T>>;
IMPL(arr)(L a, L n, L b, L m, L c, L k, L j, L x, L y) {
  ASSUME(n >= 1 && m >= 1);
  A<dense_shape<2>> v(dense_shape<2>(dense_dim<>(a, n), dim<>(b, m)));
  const auto& q = v;
  auto w = v(range(c, k), j); dm(0, w.dim<0>()); outp(3, &w(x));
  auto z = q(range(c, k), j); dm(4, z.dim<0>()); outp(7, &z(x));
  auto g = v[std::make_tuple(x, _)]; dm(8, g.template dim<0>()); outp(11, &g(y));
  auto h = q[std::make_tuple(x, _)]; dm(12, h.template dim<0>()); outp(15, &h(y));
}
SPEC(arr)(L a, L n, L b, L m, L c, L k, L j, L x, L y) {
  ASSUME(n >= 1 && m >= 1);
  T* p = (T*)al_alloc(n * m); ASSUME(p != nullptr);
  dmv(0, c, k - c, 1); outp(3, p + (x - a) + (j - b) * n);
  dmv(4, c, k - c, 1); outp(7, p + (x - a) + (j - b) * n);
  dmv(8, b, m, n); outp(11, p + (x - a) + (y - b) * n);
  dmv(12, b, m, n); outp(15, p + (x - a) + (y - b) * n);
  al_free(p, n * m);
}
IMPL(shp)(L a, L n, L s, L b, L m, L t, L c, L k, L j) {
  shape_of_rank<2> h({a, n, s}, {b, m, t});
  auto v = h(range(c, k), j); out(99, v.rank()); dm(0, v.dim<0>());
  auto w = h[std::make_tuple(j, _)]; dm(3, w.template dim<0>());
  auto z = h(_, interval<>(c, k)); dm(6, z.dim<0>()); dm(9, z.dim<1>());
}
SPEC(shp)(L a, L n, L s, L b, L m, L t, L c, L k, L j) { out(99, 1); dmv(0, c, k - c, s); dmv(3, b, m, t); dmv(6, a, n, s); dmv(9, c, k, t); }
// what is known at compile time stays known: the stride of the dimension, the bounds of the interval
template <class D> static void st(int k, const D&) { out(k, D::Min); out(k + 1, D::Extent); out(k + 2, D::Stride); }
static void stv(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
IMPL(statics)(T* p, L a, L n, L t, L j) {
  ASSUME(p != nullptr && t != unresolved);
  array_ref<T, shape<dim<dynamic, dynamic, 3>, dim<0, 6>, dim<dynamic, 4, 50>>> r(p, shape<dim<dynamic, dynamic, 3>, dim<0, 6>, dim<dynamic, 4, 50>>({a, n}, {0, 6, t}, {a, 4}));
  auto v = r(range<8>(j), interval<1, 2>(), _); st(0, v.template dim<0>()); st(3, v.template dim<1>()); st(6, v.template dim<2>());
  auto w = r(_, j, interval<>(j, 2)); st(9, w.template dim<0>()); st(12, w.template dim<1>());
  auto x = r(j, _, j); st(15, x.template dim<0>()); auto y = r(interval<5>(5, n), dim<2, 3, 7>(), j); st(18, y.template dim<0>()); st(21, y.template dim<1>());
}
SPEC(statics)(T* p, L a, L n, L t, L j) {
  ASSUME(p != nullptr && t != unresolved);
  stv(0, dynamic, 8, 3); stv(3, 1, 2, dynamic); stv(6, dynamic, 4, 50); stv(9, dynamic, dynamic, 3); stv(12, dynamic, dynamic, 50); stv(15, 0, 6, dynamic); stv(18, 5, dynamic, 3); stv(21, 2, 3, dynamic);
}
