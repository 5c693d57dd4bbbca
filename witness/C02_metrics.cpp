// modes: ndebug assert
// thorough: ndebug17
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
static L ab(L a) { return a < 0 ? -a : a; }
#define P2 L a, L n, L s, L b, L m, L t
#define S2 shape_of_rank<2>({a, n, s}, {b, m, t})
#define P3 L a, L n, L s, L b, L m, L t, L c, L o, L u
#define S3 shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})

IMPL(bounds2)(P2) {
  auto sh = S2;
  out(0, std::get<0>(sh.min())); out(1, std::get<1>(sh.min()));
  out(2, std::get<0>(sh.max())); out(3, std::get<1>(sh.max()));
  out(4, std::get<0>(sh.extent())); out(5, std::get<1>(sh.extent()));
  out(6, std::get<0>(sh.stride())); out(7, std::get<1>(sh.stride()));
  out(8, sh.rank()); out(9, sh.is_scalar());
}
SPEC(bounds2)(P2) {
  out(0, a); out(1, b); out(2, a + n - 1); out(3, b + m - 1); out(4, n); out(5, m); out(6, s); out(7, t); out(8, 2); out(9, 0);
}
IMPL(dims3)(P3) {
  auto sh = S3; const auto& cs = sh;
  out(0, sh.i().min()); out(1, sh.j().extent()); out(2, cs.k().stride());
  out(3, sh.x().extent()); out(4, cs.y().min()); out(5, sh.z().min()); out(6, cs.c().extent());
  out(7, sh.width()); out(8, sh.height()); out(9, sh.channels()); out(10, sh.rows()); out(11, sh.columns());
  out(12, sh.template dim<0>().max()); out(13, cs.template dim<1>().max()); out(14, cs.template dim<2>().size());
}
SPEC(dims3)(P3) {
  out(0, a); out(1, m); out(2, u); out(3, n); out(4, b); out(5, c); out(6, o);
  out(7, n); out(8, m); out(9, o); out(10, n); out(11, m); out(12, a + n - 1); out(13, b + m - 1); out(14, o);
}
IMPL(dimrt)(P3, L d) { REQUIRE(d >= 0 && d < 3); auto x = S3.dim((size_t)d); out(0, x.min()); out(1, x.extent()); out(2, x.stride()); }
SPEC(dimrt)(P3, L d) {
  REQUIRE(d >= 0 && d < 3);
  if (d == 0) { out(0, a); out(1, n); out(2, s); } else if (d == 1) { out(0, b); out(1, m); out(2, t); } else { out(0, c); out(1, o); out(2, u); }
}
// a runtime dim index out of range stops checked builds
#define NONNEG2 ASSUME(n >= 0 && m >= 0)
#define NONNEG3 ASSUME(n >= 0 && m >= 0 && o >= 0)
RIMPL(L, size1)(L a, L n, L s) { ASSUME(n >= 0); return shape_of_rank<1>(dim<>(a, n, s)).size(); }
RSPEC(L, size1)(L a, L n, L s) { ASSUME(n >= 0); return n; }
RIMPL(L, size2)(P2) { NONNEG2; return S2.size(); }
RSPEC(L, size2)(P2) { NONNEG2; return n * m; }
RIMPL(L, size3)(P3) { NONNEG3; return S3.size(); }
RSPEC(L, size3)(P3) { NONNEG3; return n * m * o; }
RIMPL(L, size0)() { return shape<>().size(); }
RSPEC(L, size0)() { return 1; }
RIMPL(bool, empty3)(P3) { NONNEG3; return S3.empty(); }
RSPEC(bool, empty3)(P3) { NONNEG3; return n == 0 || m == 0 || o == 0; }
// extents of the flat image of a non-empty shape
RIMPL(L, fmin2)(P2) { ASSUME(n >= 1 && m >= 1); return S2.flat_min(); }
RSPEC(L, fmin2)(P2) { ASSUME(n >= 1 && m >= 1); return (n - 1) * mn(s, 0) + (m - 1) * mn(t, 0); }
RIMPL(L, fmax2)(P2) { ASSUME(n >= 1 && m >= 1); return S2.flat_max(); }
RSPEC(L, fmax2)(P2) { ASSUME(n >= 1 && m >= 1); return (n - 1) * mx(s, 0) + (m - 1) * mx(t, 0); }
RIMPL(L, fext2)(P2) { ASSUME(n >= 1 && m >= 1); return S2.flat_extent(); }
RSPEC(L, fext2)(P2) { ASSUME(n >= 1 && m >= 1); return (n - 1) * ab(s) + (m - 1) * ab(t) + 1; }
RIMPL(L, fmin3)(P3) { ASSUME(n >= 1 && m >= 1 && o >= 1); return S3.flat_min(); }
RSPEC(L, fmin3)(P3) { ASSUME(n >= 1 && m >= 1 && o >= 1); return (n - 1) * mn(s, 0) + (m - 1) * mn(t, 0) + (o - 1) * mn(u, 0); }
RIMPL(L, fmax3)(P3) { ASSUME(n >= 1 && m >= 1 && o >= 1); return S3.flat_max(); }
RSPEC(L, fmax3)(P3) { ASSUME(n >= 1 && m >= 1 && o >= 1); return (n - 1) * mx(s, 0) + (m - 1) * mx(t, 0) + (o - 1) * mx(u, 0); }
RIMPL(L, fext0)() { return shape<>().flat_extent() * 100 + shape<>().flat_min() * 10 + shape<>().flat_max(); }
RSPEC(L, fext0)() { return 100; }
RIMPL(L, fext1e)(L a, L s) { ASSUME(s != 0); return shape_of_rank<1>(dim<>(a, 0, s)).flat_extent(); }
RSPEC(L, fext1e)(L a, L s) { ASSUME(s != 0); return ab(s) > 1 ? 0 : 0; }
RIMPL(bool, compact2)(P2) { ASSUME(n >= 1 && m >= 1); return S2.is_compact(); }
RSPEC(bool, compact2)(P2) { ASSUME(n >= 1 && m >= 1); return (n - 1) * ab(s) + (m - 1) * ab(t) + 1 <= n * m; }
RIMPL(bool, onetoone2)(P2) { ASSUME(n >= 1 && m >= 1); return S2.is_one_to_one(); }
RSPEC(bool, onetoone2)(P2) { ASSUME(n >= 1 && m >= 1); return (n - 1) * ab(s) + (m - 1) * ab(t) + 1 >= n * m; }
RIMPL(bool, subset2)(L n, L s, L m, L t, L o, L u, L f) {
  ASSUME(n >= 1 && m >= 1 && o >= 1 && s != unresolved && t != unresolved && u != unresolved);
  return shape_of_rank<2>({0, n, s}, {0, m, t}).is_subset_of(shape_of_rank<1>(dim<>(0, o, u)), f);
}
RSPEC(bool, subset2)(L n, L s, L m, L t, L o, L u, L f) {
  ASSUME(n >= 1 && m >= 1 && o >= 1 && s != unresolved && t != unresolved && u != unresolved);
  L lo = (n - 1) * mn(s, 0) + (m - 1) * mn(t, 0), hi = (n - 1) * mx(s, 0) + (m - 1) * mx(t, 0);
  return lo >= (o - 1) * mn(u, 0) + f && hi <= (o - 1) * mx(u, 0) + f;
}
// membership
RIMPL(bool, in2)(P2, L x, L y) { return S2.is_in_range(x, y); }
RSPEC(bool, in2)(P2, L x, L y) { return a <= x && x < a + n && b <= y && y < b + m; }
RIMPL(bool, in2t)(P2, L x, L y) { return S2.is_in_range(std::make_tuple(x, y)); }
RSPEC(bool, in2t)(P2, L x, L y) { return a <= x && x < a + n && b <= y && y < b + m; }
RIMPL(bool, in2iv)(P2, L x, L e, L y) { return S2.is_in_range(interval<>(x, e), y); }
RSPEC(bool, in2iv)(P2, L x, L e, L y) { return a <= x && x + e <= a + n && b <= y && y < b + m; }
RIMPL(bool, in2dim)(P2, L x, L e, L y, L g) { return S2.is_in_range(dim<>(x, e, 7), interval<>(y, g)); }
RSPEC(bool, in2dim)(P2, L x, L e, L y, L g) { return a <= x && x + e <= a + n && b <= y && y + g <= b + m; }
RIMPL(bool, in1)(L a, L n, L x) { return interval<>(a, n).is_in_range(x) && dim<>(a, n).is_in_range(x); }
RSPEC(bool, in1)(L a, L n, L x) { return a <= x && x < a + n; }
// resolvedness
RIMPL(bool, isres)(P2) { return S2.is_resolved(); }
RSPEC(bool, isres)(P2) { return s != unresolved && t != unresolved; }
// array_ref forwarding
IMPL(refmetrics)(double* p, P2) {
  ASSUME(n >= 1 && m >= 1 && s != unresolved && t != unresolved);
  array_ref_of_rank<double, 2> r(p, S2);
  out(0, r.size()); out(1, r.empty()); out(2, r.is_compact()); outp(3, r.data()); outp(4, r.base());
  out(5, r.width()); out(6, r.height()); out(7, r.rows()); out(8, r.columns());
  out(9, r.dim<0>().min()); out(10, r.dim(1).stride()); out(11, r.x().min()); out(12, r.j().min());
}
SPEC(refmetrics)(double* p, P2) {
  ASSUME(n >= 1 && m >= 1 && s != unresolved && t != unresolved);
  out(0, n * m); out(1, p == nullptr); out(2, (n - 1) * ab(s) + (m - 1) * ab(t) + 1 <= n * m);
  outp(3, p == nullptr ? p : p + ((n - 1) * mn(s, 0) + (m - 1) * mn(t, 0))); outp(4, p);
  out(5, n); out(6, m); out(7, n); out(8, m); out(9, a); out(10, t); out(11, a); out(12, b);
}
