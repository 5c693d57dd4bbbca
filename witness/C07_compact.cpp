// modes: ndebug assert
// thorough: ndebug17
// make_compact keeps every min and extent, keeps compile-time strides, and packs the rest without gaps or overlap.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
IMPL(c1)(L a, L n, L s) { ASSUME(n >= 1); auto c = make_compact(shape_of_rank<1>(dim<>(a, n, s))); dm(0, c.dim<0>()); }
SPEC(c1)(L a, L n, L s) { ASSUME(n >= 1); d(0, a, n, 1); }
IMPL(c2)(L a, L n, L s, L b, L m, L t) { ASSUME(n >= 1 && m >= 1); auto c = make_compact(shape_of_rank<2>({a, n, s}, {b, m, t})); dm(0, c.dim<0>()); dm(3, c.dim<1>()); out(6, c.is_compact()); out(7, c.is_one_to_one()); }
SPEC(c2)(L a, L n, L s, L b, L m, L t) { ASSUME(n >= 1 && m >= 1); d(0, a, n, 1); d(3, b, m, n); out(6, 1); out(7, 1); }
IMPL(c3)(L a, L n, L s, L b, L m, L t, L o) {
  ASSUME(n >= 2 && m >= 2 && o >= 2); auto c = make_compact(shape_of_rank<3>({a, n, s}, {b, m, t}, {0, o, 7}));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); 
}
SPEC(c3)(L a, L n, L s, L b, L m, L t, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); d(0, a, n, 1); d(3, b, m, n); d(6, 0, o, n * m); }
IMPL(dense2)(L a, L n, L b, L m, L t) { ASSUME(n >= 1 && m >= 2); auto c = make_compact(dense_shape<2>(dense_dim<>(a, n), dim<>(b, m, t))); dm(0, c.dim<0>()); dm(3, c.dim<1>()); }
SPEC(dense2)(L a, L n, L b, L m, L t) { ASSUME(n >= 1 && m >= 2); d(0, a, n, 1); d(3, b, m, n); }
IMPL(densemid)(L n, L s, L m, L o, L t) {
  ASSUME(n >= 2 && m >= 2 && o >= 2);
  auto c = make_compact(shape<dim<>, dense_dim<>, dim<>>(dim<>(0, n, s), dense_dim<>(0, m), dim<>(0, o, t)));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>());
}
SPEC(densemid)(L n, L s, L m, L o, L t) { ASSUME(n >= 2 && m >= 2 && o >= 2); d(0, 0, n, m); d(3, 0, m, 1); d(6, 0, o, n * m); }
// static extents around a static unit stride
IMPL(stat)(L o) {
  ASSUME(o >= 2);
  auto c = make_compact(shape<dense_dim<0, 4>, dim<0, 5>, dim<>>(dense_dim<0, 4>(), dim<0, 5>(), dim<>(0, o, 999)));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); out(9, c.is_compact());
  auto e = make_compact(shape<dim<0, 5>, dense_dim<0, 4>, dim<0, 6>>()); dm(10, e.dim<0>()); dm(13, e.dim<1>()); dm(16, e.dim<2>());
}
SPEC(stat)(L o) { ASSUME(o >= 2); d(0, 0, 4, 1); d(3, 0, 5, 4); d(6, 0, o, 20); out(9, 1); d(10, 0, 5, 4); d(13, 0, 4, 1); d(16, 0, 6, 20); }
// kept larger strides, positive or negative: nothing overlaps them
IMPL(keep)(L m) { ASSUME(m >= 2 && m <= 8); auto c = make_compact(shape<dim<0, 3, 8>, dim<>>(dim<0, 3, 8>(), dim<>(0, m, 5))); dm(0, c.dim<0>()); dm(3, c.dim<1>()); }
SPEC(keep)(L m) { ASSUME(m >= 2 && m <= 8); d(0, 0, 3, 8); d(3, 0, m, 1); }
IMPL(keepneg)(L o) {
  ASSUME(o >= 2);
  auto c = make_compact(shape<dim<0, 2, -8>, dense_dim<0, 4>, dim<>>(dim<0, 2, -8>(), dense_dim<0, 4>(), dim<>(0, o)));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>());
}
SPEC(keepneg)(L o) { ASSUME(o >= 2); d(0, 0, 2, -8); d(3, 0, 4, 1); d(6, 0, o, o * 4 <= 8 ? 4 : 16); }
IMPL(bcast)(L n, L m) { ASSUME(n >= 1 && m >= 2); auto c = make_compact(shape<broadcast_dim<>, dim<>>(broadcast_dim<>(0, n), dim<>(0, m, 9))); dm(0, c.dim<0>()); dm(3, c.dim<1>()); }
SPEC(bcast)(L n, L m) { ASSUME(n >= 1 && m >= 2); d(0, 0, n, 0); d(3, 0, m, 1); }
IMPL(chunky)(L n, L m, L s, L t) {
  ASSUME(n >= 2 && m >= 2);
  auto c = make_compact(chunky_image_shape<3, dynamic>(strided_dim<dynamic>(0, n, s), dim<>(0, m, t), dense_dim<0, 3>()));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>());
}
SPEC(chunky)(L n, L m, L s, L t) { ASSUME(n >= 2 && m >= 2); d(0, 0, n, 3); d(3, 0, m, 3 * n); d(6, 0, 3, 1); }
IMPL(zero)() { auto c = make_compact(shape<>()); out(0, c.rank()); }
SPEC(zero)() { out(0, 0); }
// bounds(): same mins and extents, strides unknown
IMPL(bounds)(L a, L n, L s, L b, L m) { auto c = shape<dim<>, dense_dim<>>(dim<>(a, n, s), dense_dim<>(b, m)).bounds(); out(0, c.dim<0>().min()); out(1, c.dim<0>().extent()); out(2, c.dim<0>().stride() == unresolved); out(3, c.dim<1>().min()); out(4, c.dim<1>().extent()); out(5, c.dim<1>().stride() == unresolved); }
SPEC(bounds)(L a, L n, L s, L b, L m) { out(0, a); out(1, n); out(2, 1); out(3, b); out(4, m); out(5, 1); }
IMPL(refbounds)(double* p, L a, L n, L s) { ASSUME(s != unresolved); auto c = array_ref_of_rank<double, 1>(p, shape_of_rank<1>(dim<>(a, n, s))).bounds(); out(0, c.dim<0>().min()); out(1, c.dim<0>().extent()); out(2, c.dim<0>().stride() == unresolved); }
SPEC(refbounds)(double* p, L a, L n, L s) { ASSUME(s != unresolved); out(0, a); out(1, n); out(2, 1); }
// a broadcast dim (static stride 0) takes no space, whatever its extent
IMPL(bcast_fixed)(L a, L n, L b, L m, L s, L t) { ASSUME(n >= 2 && m >= 2); auto c = make_compact(shape<dim<dynamic, 5, 0>, dim<>, dim<>>(dim<dynamic, 5, 0>(a, 5), dim<>(b, n, s), dim<>(0, m, t))); dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); }
SPEC(bcast_fixed)(L a, L n, L b, L m, L s, L t) { ASSUME(n >= 2 && m >= 2); d(0, a, 5, 0); d(3, b, n, 1); d(6, 0, m, n); }
IMPL(neg_fixed)(L n, L s) { ASSUME(n >= 2); auto c = make_compact(shape<dim<0, 5, -1>, dim<>>(dim<0, 5, -1>(), dim<>(0, n, s))); dm(0, c.dim<0>()); dm(3, c.dim<1>()); }
SPEC(neg_fixed)(L n, L s) { ASSUME(n >= 2); d(0, 0, 5, -1); d(3, 0, n, 5); }
