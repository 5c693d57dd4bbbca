// modes: ndebug assert
// thorough: ndebug17
// Automatic strides: known strides, mins and extents are never changed; unknown strides become the smallest
// ones that keep the dimensions disjoint.
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
static L ab(L a) { return a < 0 ? -a : a; }
template <class S> static void dump1(const S& s) { out(0, s.template dim<0>().min()); out(1, s.template dim<0>().extent()); out(2, s.template dim<0>().stride()); }
template <class S> static void dump2(const S& s) { dump1(s); out(3, s.template dim<1>().min()); out(4, s.template dim<1>().extent()); out(5, s.template dim<1>().stride()); }
template <class S> static void dump3(const S& s) { dump2(s); out(6, s.template dim<2>().min()); out(7, s.template dim<2>().extent()); out(8, s.template dim<2>().stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
IMPL(r1)(L a, L n) { ASSUME(n >= 0); shape_of_rank<1> s(dim<>(a, n)); s.resolve(); dump1(s); out(9, s.is_resolved()); }
SPEC(r1)(L a, L n) { ASSUME(n >= 0); d(0, a, n, 1); out(9, 1); }
IMPL(r1k)(L a, L n, L s) { ASSUME(s != unresolved); shape_of_rank<1> h(dim<>(a, n, s)); h.resolve(); dump1(h); }
SPEC(r1k)(L a, L n, L s) { ASSUME(s != unresolved); d(0, a, n, s); }
IMPL(r2)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); shape_of_rank<2> s(dim<>(a, n), dim<>(b, m)); s.resolve(); dump2(s); out(9, s.is_resolved()); }
SPEC(r2)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); d(0, a, n, 1); d(3, b, m, n); out(9, 1); }
IMPL(r2kk)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved && t != unresolved); shape_of_rank<2> h({a, n, s}, {b, m, t}); h.resolve(); dump2(h); }
SPEC(r2kk)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved && t != unresolved); d(0, a, n, s); d(3, b, m, t); }
// one known (positive) stride: below it if there is room, otherwise above it
IMPL(r2uk)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 1 && t >= 1 && t != unresolved); shape_of_rank<2> h({a, n}, {b, m, t}); h.resolve(); dump2(h); }
SPEC(r2uk)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 1 && t >= 1 && t != unresolved); d(0, a, n, n <= t ? 1 : m * t); d(3, b, m, t); }
IMPL(r2ku)(L a, L n, L s, L b, L m) { ASSUME(n >= 1 && m >= 2 && s >= 1 && s != unresolved); shape_of_rank<2> h({a, n, s}, {b, m}); h.resolve(); dump2(h); }
SPEC(r2ku)(L a, L n, L s, L b, L m) { ASSUME(n >= 1 && m >= 2 && s >= 1 && s != unresolved); d(0, a, n, s); d(3, b, m, m <= s ? 1 : n * s); }
// negative known stride: disjointness uses the magnitude
IMPL(r2neg)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 1 && t <= -1 && t > -1000000); shape_of_rank<2> h({a, n}, {b, m, t}); h.resolve(); dump2(h); }
SPEC(r2neg)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 1 && t <= -1 && t > -1000000); d(0, a, n, n <= -t ? 1 : m * -t); d(3, b, m, t); }
// compile-time stride of the inner dimension
IMPL(dense2)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 2); dense_shape<2> s(dense_dim<>(a, n), dim<>(b, m)); s.resolve(); dump2(s); }
SPEC(dense2)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 2); d(0, a, n, 1); d(3, b, m, n); }
IMPL(r3)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); shape_of_rank<3> s(n, m, o); s.resolve(); dump3(s); }
SPEC(r3)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); d(0, 0, n, 1); d(3, 0, m, n); d(6, 0, o, n * m); }
// dense last dimension (chunky layout): the documented example generalised
IMPL(chunky)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); shape<dim<>, dim<>, dense_dim<>> s(n, m, o); s.resolve(); dump3(s); }
SPEC(chunky)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); d(0, 0, n, o); d(3, 0, m, o * n); d(6, 0, o, 1); }
IMPL(mid)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); shape<dim<>, dense_dim<>, dim<>> s(n, m, o); s.resolve(); dump3(s); }
SPEC(mid)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); d(0, 0, n, m); d(3, 0, m, 1); d(6, 0, o, n * m); }
// documented examples
IMPL(doc)() {
  shape_of_rank<2> s(5, 10); s.resolve(); dump2(s);
  shape_of_rank<3> t({0, 5}, {0, 10}, {0, 3, 1}); t.resolve(); dump3(t);
}
SPEC(doc)() { d(0, 0, 5, 1); d(3, 0, 10, 5); d(0, 0, 5, 3); d(3, 0, 10, 15); d(6, 0, 3, 1); }
// array_ref and array resolve what they are given
IMPL(ref)(double* p, L n, L m) { ASSUME(n >= 1 && m >= 1); array_ref_of_rank<double, 2> r(p, shape_of_rank<2>(n, m)); dump2(r.shape()); outp(9, r.base()); }
SPEC(ref)(double* p, L n, L m) { ASSUME(n >= 1 && m >= 1); d(0, 0, n, 1); d(3, 0, m, n); outp(9, p); }
// rank 3, one known stride in the middle: every resolved stride keeps the three dims disjoint
RIMPL(bool, disjoint3)(L n, L m, L o, L t) {
  ASSUME(n >= 2 && m >= 2 && o >= 2 && t >= 1 && t < 1000000000);
  shape_of_rank<3> s({0, n}, {0, m, t}, {0, o}); s.resolve();
  L p = s.dim<0>().stride(), q = s.dim<1>().stride(), r = s.dim<2>().stride();
  bool dpq = p * n <= q || q * m <= p, dqr = q * m <= r || r * o <= q, dpr = p * n <= r || r * o <= p;
  return p >= 1 && q == t && r >= 1 && dpq && dqr && dpr;
}
RSPEC(bool, disjoint3)(L n, L m, L o, L t) { ASSUME(n >= 2 && m >= 2 && o >= 2 && t >= 1 && t < 1000000000); return true; }
