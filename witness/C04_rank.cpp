// modes: ndebug assert
// thorough: ndebug17
// Slices and crops of four to six dimensions.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
typedef double T;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void dmv(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define P5 T *p, L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L q, L v, L e, L r, L w
#define S5 shape_of_rank<5>({a, n, s}, {b, m, t}, {c, o, u}, {d, q, v}, {e, r, w})
#define R5 array_ref_of_rank<T, 5>(p, S5)
#define N5 ASSUME(p != nullptr && s != unresolved && t != unresolved && u != unresolved && v != unresolved && w != unresolved)
#define OFF(x, y, z, k, l) (((x) - a) * s + ((y) - b) * t + ((z) - c) * u + ((k) - d) * v + ((l) - e) * w)
IMPL(s5a)(P5, L i, L j, L k, L l, L g, L h) { N5; auto x = R5(_, i, interval<>(g, h), j, _); out(99, x.rank()); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); outp(9, &x(k, g, l)); outp(10, x.base()); }
SPEC(s5a)(P5, L i, L j, L k, L l, L g, L h) { N5; out(99, 3); dmv(0, a, n, s); dmv(3, g, h, u); dmv(6, e, r, w); outp(9, p + OFF(k, i, g, j, l)); outp(10, p + OFF(a, i, g, j, e)); }
IMPL(s5b)(P5, L i, L j, L k, L l) { N5; auto x = R5(i, j, k, l, _); out(99, x.rank()); dm(0, x.dim<0>()); outp(10, x.base()); auto y = R5(_, j, k, l, i); out(98, y.rank()); dm(20, y.dim<0>()); outp(30, y.base()); }
SPEC(s5b)(P5, L i, L j, L k, L l) { N5; out(99, 1); dmv(0, e, r, w); outp(10, p + OFF(i, j, k, l, e)); out(98, 1); dmv(20, a, n, s); outp(30, p + OFF(a, j, k, l, i)); }
IMPL(s5c)(P5, L g, L h, L f, L k) { N5; auto x = R5[std::make_tuple(range(g, h), range<3>(f), dim<>(k, g, 77), interval<2, 5>(), all)]; out(99, x.rank()); dm(0, x.template dim<0>()); dm(3, x.template dim<1>()); dm(6, x.template dim<2>()); dm(9, x.template dim<3>()); dm(12, x.template dim<4>()); outp(15, x.base()); }
SPEC(s5c)(P5, L g, L h, L f, L k) { N5; out(99, 5); dmv(0, g, h - g, s); dmv(3, f, 3, t); dmv(6, k, g, u); dmv(9, 2, 5, v); dmv(12, e, r, w); outp(15, p + OFF(g, f, k, 2, e)); }
IMPL(s5d)(P5, L i, L j) { N5; auto x = R5(_, _, i, _, j); auto y = x(j, _, i); out(99, y.rank()); dm(0, y.dim<0>()); outp(3, y.base()); }
SPEC(s5d)(P5, L i, L j) { N5; out(99, 1); dmv(0, b, m, t); outp(3, p + OFF(j, b, i, i, j)); }
IMPL(sh5)(P5, L i, L g, L h) { auto x = S5(i, _, interval<>(g, h), i, _); out(99, x.rank()); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(sh5)(P5, L i, L g, L h) { out(99, 3); dmv(0, b, m, t); dmv(3, g, h, u); dmv(6, e, r, w); }
// four dimensions: every single-index slice and every single-interval crop
#define P4 T *p, L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L q, L v
#define R4 array_ref_of_rank<T, 4>(p, shape_of_rank<4>({a, n, s}, {b, m, t}, {c, o, u}, {d, q, v}))
#define N4 ASSUME(p != nullptr && s != unresolved && t != unresolved && u != unresolved && v != unresolved)
#define O3(k, x) dm(k, x.template dim<0>()); dm(k + 3, x.template dim<1>()); dm(k + 6, x.template dim<2>()); outp(k + 9, x.base());
IMPL(one4)(P4, L i) { N4; auto x = R4(i, _, _, _); O3(0, x) auto y = R4(_, i, _, _); O3(10, y) auto z = R4(_, _, i, _); O3(20, z) auto w = R4(_, _, _, i); O3(30, w) }
SPEC(one4)(P4, L i) { N4; dmv(0, b, m, t); dmv(3, c, o, u); dmv(6, d, q, v); outp(9, p + (i - a) * s); dmv(10, a, n, s); dmv(13, c, o, u); dmv(16, d, q, v); outp(19, p + (i - b) * t);
  dmv(20, a, n, s); dmv(23, b, m, t); dmv(26, d, q, v); outp(29, p + (i - c) * u); dmv(30, a, n, s); dmv(33, b, m, t); dmv(36, c, o, u); outp(39, p + (i - d) * v); }
#define C4(name, A0, A1, A2, A3, off, ...) IMPL(name)(P4, L i, L j) { N4; auto x = R4(A0, A1, A2, A3); O3(0, x) dm(10, x.template dim<3>()); } SPEC(name)(P4, L i, L j) { N4; __VA_ARGS__ }
C4(crop4a, interval<>(i, j), _, _, _, , dmv(0, i, j, s); dmv(3, b, m, t); dmv(6, c, o, u); outp(9, p + (i - a) * s); dmv(10, d, q, v);)
C4(crop4b, _, interval<>(i, j), _, _, , dmv(0, a, n, s); dmv(3, i, j, t); dmv(6, c, o, u); outp(9, p + (i - b) * t); dmv(10, d, q, v);)
C4(crop4c, _, _, interval<>(i, j), _, , dmv(0, a, n, s); dmv(3, b, m, t); dmv(6, i, j, u); outp(9, p + (i - c) * u); dmv(10, d, q, v);)
C4(crop4d, _, _, _, interval<>(i, j), , dmv(0, a, n, s); dmv(3, b, m, t); dmv(6, c, o, u); outp(9, p + (i - d) * v); dmv(10, i, j, v);)
// a null view stays null whatever the slice
IMPL(null4)(L a, L i, L n, L s) { array_ref_of_rank<T, 4> r(nullptr, shape_of_rank<4>({a, n, 3}, {a, n, -5}, {1, n, 7}, {i, n, 9})); outp(0, r(i, _, range(a, i), _).base()); outp(1, r(_, i, i, i).base()); outp(2, r(interval<>(i, 1), _, _, a).base()); }
SPEC(null4)(L a, L i, L n, L s) { outp(0, nullptr); outp(1, nullptr); outp(2, nullptr); }
// images: a planar and an interleaved image
IMPL(img)(T* p, L x0, L w, L y0, L h, L t, L u, L i, L c) {
  ASSUME(p != nullptr && t != unresolved && u != unresolved);
  planar_image_ref<T> r(p, planar_image_shape(dense_dim<>(x0, w), dim<>(y0, h, t), dim<>(0, 3, u))); auto y = r(_, i, c); dm(0, y.dim<0>()); outp(3, y.base());
  chunky_image_ref<T, 3> k(p, chunky_image_shape<3>(strided_dim<3>(x0, w), dim<>(y0, h, t), {})); auto z = k(i, _, _); dm(4, z.dim<0>()); dm(7, z.dim<1>()); outp(10, z.base()); auto v = k(range(i, c), c, 1); dm(11, v.dim<0>()); outp(14, v.base());
}
SPEC(img)(T* p, L x0, L w, L y0, L h, L t, L u, L i, L c) {
  ASSUME(p != nullptr && t != unresolved && u != unresolved);
  dmv(0, x0, w, 1); outp(3, p + (i - y0) * t + c * u); dmv(4, y0, h, t); dmv(7, 0, 3, 1); outp(10, p + (i - x0) * 3); dmv(11, i, c - i, 3); outp(14, p + (i - x0) * 3 + (c - y0) * t + 1);
}
