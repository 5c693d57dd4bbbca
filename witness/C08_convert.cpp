// modes: ndebug assert
// thorough: ndebug17
// Converting between shape types keeps min, extent and stride of every dimension; impossible values stop checked builds.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
// static <- dynamic
IMPL(todense)(L a, L n, L s, L b, L m, L t) { REQUIRE(s == 1 || s == unresolved); dense_shape<2> x = shape_of_rank<2>({a, n, s}, {b, m, t}); dm(0, x.dim<0>()); dm(3, x.dim<1>()); }
SPEC(todense)(L a, L n, L s, L b, L m, L t) { REQUIRE(s == 1 || s == unresolved); d(0, a, n, 1); d(3, b, m, t); }
IMPL(tofix)(L a, L n, L s) { REQUIRE(a == 3 && n == 4); shape<dim<3, 4>> x = shape_of_rank<1>(dim<>(a, n, s)); dm(0, x.dim<0>()); }
SPEC(tofix)(L a, L n, L s) { REQUIRE(a == 3 && n == 4); d(0, 3, 4, s); }
IMPL(asg)(L a, L n, L s) { REQUIRE(n == 4); shape<fixed_dim<4>> x; x = shape_of_rank<1>(dim<>(a, n, s)); dm(0, x.dim<0>()); }
SPEC(asg)(L a, L n, L s) { REQUIRE(n == 4); d(0, a, 4, s); }
// dynamic <- static
IMPL(fromfix)() { shape_of_rank<2> x = shape<dim<3, 4, 5>, dim<6, 7, 8>>(); dm(0, x.dim<0>()); dm(3, x.dim<1>()); shape_of_rank<2> y; y = shape<dim<3, 4, 5>, dim<6, 7, 8>>(); dm(6, y.dim<0>()); dm(9, y.dim<1>()); }
SPEC(fromfix)() { d(0, 3, 4, 5); d(3, 6, 7, 8); d(6, 3, 4, 5); d(9, 6, 7, 8); }
// interval and dim conversions
IMPL(ivconv)(L a, L n) { interval<> x = interval<2, 6>(); out(0, x.min()); out(1, x.extent()); interval<dynamic, 6> y = interval<>(a, 6); out(2, y.min()); out(3, y.extent()); interval<> z; z = interval<>(a, n); out(4, z.min()); out(5, z.extent()); z = interval<dynamic, 3>(n); out(6, z.min()); out(7, z.extent()); }
SPEC(ivconv)(L a, L n) { out(0, 2); out(1, 6); out(2, a); out(3, 6); out(4, a); out(5, n); out(6, n); out(7, 3); }
IMPL(dimconv)(L a, L n, L s) { dim<> x = dense_dim<>(a, n); dm(0, x); dim<> y; y = strided_dim<4>(a, n); dm(3, y); dense_dim<> z = dim<>(a, n, 1); dm(6, z); dim<dynamic, 5> w = dim<>(a, 5, s); dm(9, w); }
SPEC(dimconv)(L a, L n, L s) { d(0, a, n, 1); d(3, a, n, 4); d(6, a, n, 1); d(9, a, 5, s); }
// converting compile-time constants that do not match stops checked builds
IMPL(ivbad)(L a, L n) { REQUIRE(n == 6); interval<dynamic, 6> y = interval<>(a, n); out(0, y.min()); out(1, y.extent()); }
SPEC(ivbad)(L a, L n) { REQUIRE(n == 6); out(0, a); out(1, 6); }
IMPL(dimbad)(L a, L n, L s) { REQUIRE(s == 2 || s == unresolved); dim<dynamic, dynamic, 2> y = dim<>(a, n, s); dm(0, y); }
SPEC(dimbad)(L a, L n, L s) { REQUIRE(s == 2 || s == unresolved); d(0, a, n, 2); }
IMPL(setbad)(L v) { REQUIRE(v == 4); dim<dynamic, 4> y(0, 4, 1); y.set_extent(v); dm(0, y); }
SPEC(setbad)(L v) { REQUIRE(v == 4); d(0, 0, 4, 1); }
// explicit conversion between ranks
IMPL(up)(L a, L n, L s) { ASSUME(s != unresolved); auto x = convert_shape<shape_of_rank<3>>(shape_of_rank<1>(dim<>(a, n, s))); dm(0, x.dim<0>()); out(3, x.dim<1>().min()); out(4, x.dim<1>().extent()); out(5, x.dim<2>().min()); out(6, x.dim<2>().extent()); out(7, x.rank()); }
SPEC(up)(L a, L n, L s) { ASSUME(s != unresolved); d(0, a, n, s); out(3, 0); out(4, 1); out(5, 0); out(6, 1); out(7, 3); }
IMPL(down)(L a, L n, L s, L b, L m, L t) { REQUIRE(m == 1); auto x = convert_shape<shape_of_rank<1>>(shape_of_rank<2>({a, n, s}, {b, m, t})); dm(0, x.dim<0>()); out(3, x.rank()); }
SPEC(down)(L a, L n, L s, L b, L m, L t) { REQUIRE(m == 1); d(0, a, n, s); out(3, 1); }
IMPL(same)(L a, L n, L b, L m, L t) { auto x = convert_shape<dense_shape<2>>(shape_of_rank<2>({a, n, 1}, {b, m, t})); dm(0, x.dim<0>()); dm(3, x.dim<1>()); }
SPEC(same)(L a, L n, L b, L m, L t) { d(0, a, n, 1); d(3, b, m, t); }
// the compatibility predicate says exactly when the conversion preserves the values
RIMPL(bool, compat)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return is_compatible<shape<dense_dim<>, dim<2, 7>>>(shape_of_rank<2>({a, n, s}, {b, m, t})); }
RSPEC(bool, compat)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return s == 1 && b == 2 && m == 7; }
RIMPL(bool, compat2)(L a, L n, L s) { return is_compatible<shape<dim<>>>(shape_of_rank<1>(dim<>(a, n, s))); }
RSPEC(bool, compat2)(L a, L n, L s) { return true; }
RIMPL(bool, excompat)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return is_explicitly_compatible<shape<dense_dim<>, dim<2, 7>>>(shape_of_rank<2>({a, n, s}, {b, m, t})); }
RSPEC(bool, excompat)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return s == 1 && b == 2 && m == 7; }
// array_ref conversions keep base and shape
IMPL(refconv)(double* p, L a, L n, L b, L m, L t) {
  ASSUME(t != unresolved);
  dense_array_ref<double, 2> r(p, dense_shape<2>(dense_dim<>(a, n), dim<>(b, m, t)));
  array_ref_of_rank<double, 2> q(r); outp(0, q.base()); dm(1, q.dim<0>()); dm(4, q.dim<1>());
  array_ref_of_rank<double, 2> w; w = r; outp(7, w.base()); dm(8, w.dim<0>()); dm(11, w.dim<1>());
  const_array_ref<double, dense_shape<2>> c = r; outp(14, c.base()); dm(15, c.dim<0>()); dm(18, c.dim<1>());
  auto v = convert_shape<shape_of_rank<2>>(r); outp(21, v.base()); dm(22, v.dim<0>()); dm(25, v.dim<1>());
}
SPEC(refconv)(double* p, L a, L n, L b, L m, L t) {
  ASSUME(t != unresolved);
  outp(0, p); d(1, a, n, 1); d(4, b, m, t); outp(7, p); d(8, a, n, 1); d(11, b, m, t); outp(14, p); d(15, a, n, 1); d(18, b, m, t); outp(21, p); d(22, a, n, 1); d(25, b, m, t);
}
// the explicit predicate also covers conversions that add or drop dimensions
RIMPL(bool, exdown)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return is_explicitly_compatible<dense_shape<1>>(shape_of_rank<2>({a, n, s}, {b, m, t})); }
RSPEC(bool, exdown)(L a, L n, L s, L b, L m, L t) { ASSUME(s != unresolved); return s == 1 && m == 1; }
RIMPL(bool, exup)(L a, L n, L s) { return is_explicitly_compatible<shape<dim<2>, dim<>>>(shape_of_rank<1>(dim<>(a, n, s))); }
RSPEC(bool, exup)(L a, L n, L s) { return a == 2; }
RIMPL(bool, exup2)(L a, L n, L s) { return is_explicitly_compatible<shape<dim<>, fixed_dim<3>>>(shape_of_rank<1>(dim<>(a, n, s))) || !is_explicitly_compatible<shape<dim<>, fixed_dim<1>>>(shape_of_rank<1>(dim<>(a, n, s))); }
RSPEC(bool, exup2)(L a, L n, L s) { return false; }
