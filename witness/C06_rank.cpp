// modes: ndebug assert
// thorough: ndebug17
// Automatic strides of four to six dimensions.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define N4 ASSUME(n >= 2 && m >= 2 && o >= 2 && p >= 2)
#define OUT4 dm(0, s.template dim<0>()); dm(3, s.template dim<1>()); dm(6, s.template dim<2>()); dm(9, s.template dim<3>());
IMPL(r4)(L a, L n, L m, L o, L p) { N4; shape_of_rank<4> s({a, n}, m, {-1, o}, p); s.resolve(); OUT4 }
SPEC(r4)(L a, L n, L m, L o, L p) { N4; d(0, a, n, 1); d(3, 0, m, n); d(6, -1, o, n * m); d(9, 0, p, n * m * o); }
IMPL(r5)(L n, L m) { ASSUME(n >= 2 && m >= 2 && n < 100000 && m < 100000); shape_of_rank<5> s(n, 3, m, 5, 2); s.resolve(); OUT4 dm(12, s.dim<4>()); }
SPEC(r5)(L n, L m) { ASSUME(n >= 2 && m >= 2 && n < 100000 && m < 100000); d(0, 0, n, 1); d(3, 0, 3, n); d(6, 0, m, n * 3); d(9, 0, 5, n * m * 3); d(12, 0, 2, n * m * 15); }
IMPL(r6)(L n) { ASSUME(n >= 2 && n < 1000000); shape_of_rank<6> s(2, 3, n, 4, 2, 7); s.resolve(); OUT4 dm(12, s.dim<4>()); dm(15, s.dim<5>()); }
SPEC(r6)(L n) { ASSUME(n >= 2 && n < 1000000); d(0, 0, 2, 1); d(3, 0, 3, 2); d(6, 0, n, 6); d(9, 0, 4, n * 6); d(12, 0, 2, n * 24); d(15, 0, 7, n * 48); }
IMPL(last4)(L n, L m, L o, L p) { N4; shape<dim<>, dim<>, dim<>, dense_dim<>> s(n, m, o, p); s.resolve(); OUT4 }
SPEC(last4)(L n, L m, L o, L p) { N4; d(0, 0, n, p); d(3, 0, m, n * p); d(6, 0, o, n * m * p); d(9, 0, p, 1); }
// known strides are kept wherever they are; the others go above all of them when there is no room below
IMPL(keep4)(L n, L m, L o, L p) { N4; shape_of_rank<4> s({0, n, 1}, m, {5, o, n}, p); s.resolve(); OUT4 }
SPEC(keep4)(L n, L m, L o, L p) { N4; d(0, 0, n, 1); d(3, 0, m, n * o); d(6, 5, o, n); d(9, 0, p, n * m * o); }
IMPL(keep4b)(L n, L m, L o, L p) { N4; shape_of_rank<4> s(n, {1, m, 1}, o, {2, p, m}); s.resolve(); OUT4 }
SPEC(keep4b)(L n, L m, L o, L p) { N4; d(0, 0, n, m * p); d(3, 1, m, 1); d(6, 0, o, n * m * p); d(9, 2, p, m); }
// three dims fixed, a hole of exactly the right size
IMPL(hole)(L n, L m, L o, L p) { N4; shape_of_rank<4> s({0, n, 1}, {0, m}, {0, o, n * m}, {0, p, n * m * o}); s.resolve(); OUT4 }
SPEC(hole)(L n, L m, L o, L p) { N4; d(0, 0, n, 1); d(3, 0, m, n); d(6, 0, o, n * m); d(9, 0, p, n * m * o); }
IMPL(fixed6)() { shape<dim<0, 2>, dim<0, 3>, dim<0, 4>, dense_dim<0, 5>, dim<0, 6>, dim<0, 2>> s; s.resolve(); OUT4 dm(12, s.dim<4>()); dm(15, s.dim<5>()); out(18, s.is_compact()); }
SPEC(fixed6)() { d(0, 0, 2, 5); d(3, 0, 3, 10); d(6, 0, 4, 30); d(9, 0, 5, 1); d(12, 0, 6, 120); d(15, 0, 2, 720); out(18, 1); }
// nothing to resolve
IMPL(known5)(L n, L s0, L m, L t, L o, L u, L p, L v, L q, L w) { ASSUME(s0 != unresolved && t != unresolved && u != unresolved && v != unresolved && w != unresolved); shape_of_rank<5> s({1, n, s0}, {2, m, t}, {3, o, u}, {4, p, v}, {5, q, w}); s.resolve(); OUT4 dm(12, s.dim<4>()); }
SPEC(known5)(L n, L s0, L m, L t, L o, L u, L p, L v, L q, L w) { ASSUME(s0 != unresolved && t != unresolved && u != unresolved && v != unresolved && w != unresolved); d(0, 1, n, s0); d(3, 2, m, t); d(6, 3, o, u); d(9, 4, p, v); d(12, 5, q, w); }
