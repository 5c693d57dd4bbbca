// modes: ndebug assert
// thorough: ndebug17
// make_compact of four to six dimensions.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
IMPL(c4)(L a, L n, L s, L b, L m, L t, L o, L u, L p, L v) {
  ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); auto c = make_compact(shape_of_rank<4>({a, n, s}, {b, m, t}, {7, o, u}, {8, p, v}));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); dm(9, c.dim<3>());
}
SPEC(c4)(L a, L n, L s, L b, L m, L t, L o, L u, L p, L v) { ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); d(0, a, n, 1); d(3, b, m, n); d(6, 7, o, n * m); d(9, 8, p, n * m * o); }
IMPL(c5)(L n, L q, L s, L t) {
  ASSUME(n >= 2 && q >= 2 && n < 100000 && q < 100000); auto c = make_compact(shape_of_rank<5>({1, n, 9}, {2, 3, s}, {3, 2, 0}, {4, q, 5}, {5, 4, t}));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); dm(9, c.dim<3>()); dm(12, c.dim<4>());
}
SPEC(c5)(L n, L q, L s, L t) { ASSUME(n >= 2 && q >= 2 && n < 100000 && q < 100000); d(0, 1, n, 1); d(3, 2, 3, n); d(6, 3, 2, n * 3); d(9, 4, q, n * 6); d(12, 5, 4, n * 6 * q); }
IMPL(dense4)(L n, L m, L o, L p, L t, L u, L v) {
  ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); auto c = make_compact(dense_shape<4>(dense_dim<>(-1, n), dim<>(0, m, t), dim<>(0, o, u), dim<>(0, p, v)));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); dm(9, c.dim<3>());
}
SPEC(dense4)(L n, L m, L o, L p, L t, L u, L v) { ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); d(0, -1, n, 1); d(3, 0, m, n); d(6, 0, o, n * m); d(9, 0, p, n * m * o); }
IMPL(last4)(L n, L m, L o, L p, L t) {
  ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); auto c = make_compact(shape<dim<>, dim<>, dim<>, dense_dim<>>(dim<>(0, n, t), m, o, dense_dim<>(0, p)));
  dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); dm(9, c.dim<3>());
}
SPEC(last4)(L n, L m, L o, L p, L t) { ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2); d(0, 0, n, p); d(3, 0, m, n * p); d(6, 0, o, n * m * p); d(9, 0, p, 1); }
IMPL(fixed5)() { auto c = make_compact(shape<dim<0, 2>, dim<1, 3>, dense_dim<2, 4>, dim<3, 5>, dim<-4, 6>>()); dm(0, c.dim<0>()); dm(3, c.dim<1>()); dm(6, c.dim<2>()); dm(9, c.dim<3>()); dm(12, c.dim<4>()); out(15, c.is_compact()); out(16, c.flat_extent()); }
SPEC(fixed5)() { d(0, 0, 2, 4); d(3, 1, 3, 8); d(6, 2, 4, 1); d(9, 3, 5, 24); d(12, -4, 6, 120); out(15, 1); out(16, 720); }
IMPL(ones)(L n, L o) { ASSUME(n >= 2 && o >= 2); auto c = make_compact(shape_of_rank<4>({3, n, 50}, {0, 1, 9}, {4, o, 70}, {0, 1, 3})); L x = c.dim<0>().stride(), y = c.dim<2>().stride(); out(0, x); out(1, y); out(2, c.is_compact()); out(3, c.dim<1>().extent()); out(4, c.dim<2>().min()); }
SPEC(ones)(L n, L o) { ASSUME(n >= 2 && o >= 2); out(0, 1); out(1, n); out(2, 1); out(3, 1); out(4, 4); }
// a static stride above one anywhere is laid out afresh
#define SP4(id, S, s0, s1, s2, s3) IMPL(id)(L n, L m, L s, L t) { ASSUME(n >= 2 && m >= 2 && n < 1000000 && m < 1000000); auto h = S; auto c = make_compact(h); out(0, c.template dim<0>().stride()); out(1, c.template dim<1>().stride()); out(2, c.template dim<2>().stride()); out(3, c.template dim<3>().stride()); } \
  SPEC(id)(L n, L m, L s, L t) { ASSUME(n >= 2 && m >= 2 && n < 1000000 && m < 1000000); out(0, s0); out(1, s1); out(2, s2); out(3, s3); }
typedef dense_dim<0, 2> d2; typedef dim<0, 3, 2> t2; typedef dim<0, 3, -2> u2; typedef dim<0, 3, 7> t7; typedef dim<> dd;
SP4(big3, (shape<d2, dd, dd, t2>({}, {0, n, s}, {0, m, t}, {})), 1, 6, 6 * n, 2)
SP4(big2, (shape<d2, dd, t2, dd>({}, {0, n, s}, {}, {0, m, t})), 1, 6, 2, 6 * n)
SP4(big1, (shape<dd, t2, dd, d2>({0, n, s}, {}, {0, m, t}, {})), 6, 2, 6 * n, 1)
SP4(big0, (shape<t2, dd, d2, dd>({}, {0, n, s}, {}, {0, m, t})), 2, 6, 1, 6 * n)
SP4(neg3, (shape<d2, dd, dd, u2>({}, {0, n, s}, {0, m, t}, {})), 1, 6, 6 * n, -2)
SP4(neg0, (shape<u2, dd, d2, dd>({}, {0, n, s}, {}, {0, m, t})), -2, 6, 1, 6 * n)
SP4(gap3, (shape<d2, dim<0, 3>, dd, t7>({}, {0, 3, s}, {0, m, t}, {})), 1, 2, 21, 7)
