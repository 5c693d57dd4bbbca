// modes: ndebug assert
// thorough: ndebug17
// Shape conversion of three to five dimensions, and between different ranks.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define P4 L a, L n, L s, L b, L m, L t, L c, L o, L u, L e, L q, L v
#define S4 shape_of_rank<4>({a, n, s}, {b, m, t}, {c, o, u}, {e, q, v})
#define OK(x, y) ((x) == (y) || (x) == unresolved)
IMPL(dense4)(P4) { REQUIRE(OK(s, 1)); dense_shape<4> x = S4; dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); }
SPEC(dense4)(P4) { REQUIRE(OK(s, 1)); d(0, a, n, 1); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); }
IMPL(last4)(P4) { REQUIRE(OK(v, 1) && c == 2 && m == 7); shape<dim<>, dim<dynamic, 7>, dim<2>, dense_dim<>> x; x = S4; dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); }
SPEC(last4)(P4) { REQUIRE(OK(v, 1) && c == 2 && m == 7); d(0, a, n, s); d(3, b, 7, t); d(6, 2, o, u); d(9, e, q, 1); }
typedef shape<dim<>, dim<dynamic, 7>, dim<2>, dense_dim<>> M4;
RIMPL(bool, compat4)(P4) { ASSUME(v != unresolved); return is_compatible<M4>(S4); }
RSPEC(bool, compat4)(P4) { ASSUME(v != unresolved); return v == 1 && c == 2 && m == 7; }
// images
IMPL(img)(P4) { REQUIRE(OK(s, 3) && c == 0 && o == 3 && OK(u, 1)); chunky_image_shape<3> x = shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u}); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(img)(P4) { REQUIRE(OK(s, 3) && c == 0 && o == 3 && OK(u, 1)); d(0, a, n, 3); d(3, b, m, t); d(6, 0, 3, 1); }
IMPL(planar)(P4) { REQUIRE(OK(s, 1)); planar_image_shape x = shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u}); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(planar)(P4) { REQUIRE(OK(s, 1)); d(0, a, n, 1); d(3, b, m, t); d(6, c, o, u); }
// dropping dims: each must hold a single index
IMPL(down31)(P4) { REQUIRE(m == 1 && o == 1); auto x = convert_shape<shape_of_rank<1>>(shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})); dm(0, x.dim<0>()); }
SPEC(down31)(P4) { REQUIRE(m == 1 && o == 1); d(0, a, n, s); }
IMPL(down42)(P4) { REQUIRE(o == 1 && q == 1); auto x = convert_shape<shape_of_rank<2>>(S4); dm(0, x.dim<0>()); dm(3, x.dim<1>()); }
SPEC(down42)(P4) { REQUIRE(o == 1 && q == 1); d(0, a, n, s); d(3, b, m, t); }
RIMPL(bool, ex31)(P4) { ASSUME(s != unresolved); return is_explicitly_compatible<shape_of_rank<1>>(shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})); }
RSPEC(bool, ex31)(P4) { ASSUME(s != unresolved); return m == 1 && o == 1; }
RIMPL(bool, ex42)(P4) { ASSUME(s != unresolved); return is_explicitly_compatible<dense_shape<2>>(S4); }
RSPEC(bool, ex42)(P4) { ASSUME(s != unresolved); return s == 1 && o == 1 && q == 1; }
IMPL(down0)(P4) { REQUIRE(n == 1 && m == 1); auto x = convert_shape<shape<>>(shape_of_rank<2>({a, n, s}, {b, m, t})); out(0, x.rank()); }
SPEC(down0)(P4) { REQUIRE(n == 1 && m == 1); out(0, 0); }
// adding dims
RIMPL(bool, upst)(P4) { ASSUME(s != unresolved); shape_of_rank<1> x(dim<>(a, n, s)); return is_explicitly_compatible<shape<dim<>, dim<0, 0>>>(x) || is_explicitly_compatible<shape<dim<>, dim<>, dim<0, 2>>>(x) || !is_explicitly_compatible<shape<dim<>, dim<5, 1>>>(x); }
RSPEC(bool, upst)(P4) { ASSUME(s != unresolved); return false; }
IMPL(up14)(P4) { ASSUME(s != unresolved); auto x = convert_shape<shape_of_rank<4>>(shape_of_rank<1>(dim<>(a, n, s))); dm(0, x.dim<0>()); out(3, x.dim<1>().min()); out(4, x.dim<1>().extent()); out(5, x.dim<2>().min()); out(6, x.dim<2>().extent()); out(7, x.dim<3>().min()); out(8, x.dim<3>().extent()); }
SPEC(up14)(P4) { ASSUME(s != unresolved); d(0, a, n, s); out(3, 0); out(4, 1); out(5, 0); out(6, 1); out(7, 0); out(8, 1); }
IMPL(up23)(P4) { ASSUME(s != unresolved && t != unresolved); auto x = convert_shape<shape<dim<>, dim<>, dim<0, 1, 0>>>(shape_of_rank<2>({a, n, s}, {b, m, t})); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(up23)(P4) { ASSUME(s != unresolved && t != unresolved); d(0, a, n, s); d(3, b, m, t); d(6, 0, 1, 0); }
IMPL(up0)() { auto x = convert_shape<shape_of_rank<2>>(shape<>()); out(0, x.dim<0>().min()); out(1, x.dim<0>().extent()); out(2, x.dim<1>().min()); out(3, x.dim<1>().extent()); out(4, x.size()); }
SPEC(up0)() { out(0, 0); out(1, 1); out(2, 0); out(3, 1); out(4, 1); }
// five dims both ways
IMPL(five)(P4, L g) {
  ASSUME(s == 1 && t != unresolved && u != unresolved && v != unresolved); dense_shape<5> x = shape_of_rank<5>({a, n, s}, {b, m, t}, {c, o, u}, {e, q, v}, {g, 4, 1000}); shape_of_rank<5> y; y = x;
  dm(0, y.dim<0>()); dm(3, y.dim<1>()); dm(6, y.dim<2>()); dm(9, y.dim<3>()); dm(12, y.dim<4>());
}
SPEC(five)(P4, L g) { ASSUME(s == 1 && t != unresolved && u != unresolved && v != unresolved); d(0, a, n, 1); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); d(12, g, 4, 1000); }
// explicit conversion at every pair of ranks
#define P5 P4, L g, L r, L w
#define S5 shape_of_rank<5>({a, n, s}, {b, m, t}, {c, o, u}, {e, q, v}, {g, r, w})
#define S3 shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})
#define S2 shape_of_rank<2>({a, n, s}, {b, m, t})
#define R5 ASSUME(s != unresolved && t != unresolved && u != unresolved && v != unresolved && w != unresolved)
template <class X> static void mn_ext(int k, const X& x) { out(k, x.min()); out(k + 1, x.extent()); }
IMPL(x33)(P5) { auto x = convert_shape<shape<dim<>, dim<>, strided_dim<9>>>(shape<dim<>, dim<>, dim<>>({a, n, s}, {b, m, t}, {c, o, 9})); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(x33)(P5) { d(0, a, n, s); d(3, b, m, t); d(6, c, o, 9); }
IMPL(x44)(P5) { R5; auto x = convert_shape<shape_of_rank<4>>(S4); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); }
SPEC(x44)(P5) { R5; d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); }
IMPL(x55)(P5) { R5; auto x = convert_shape<shape_of_rank<5>>(S5); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); dm(12, x.dim<4>()); }
SPEC(x55)(P5) { R5; d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); d(12, g, r, w); }
IMPL(x54)(P5) { R5; REQUIRE(r == 1); auto x = convert_shape<shape_of_rank<4>>(S5); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); }
SPEC(x54)(P5) { R5; REQUIRE(r == 1); d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); }
IMPL(x53)(P5) { R5; REQUIRE(q == 1 && r == 1); auto x = convert_shape<shape_of_rank<3>>(S5); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(x53)(P5) { R5; REQUIRE(q == 1 && r == 1); d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); }
IMPL(x43)(P5) { R5; REQUIRE(q == 1); auto x = convert_shape<shape_of_rank<3>>(S4); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(x43)(P5) { R5; REQUIRE(q == 1); d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); }
IMPL(x32)(P5) { R5; REQUIRE(o == 1); auto x = convert_shape<shape_of_rank<2>>(S3); dm(0, x.dim<0>()); dm(3, x.dim<1>()); }
SPEC(x32)(P5) { R5; REQUIRE(o == 1); d(0, a, n, s); d(3, b, m, t); }
IMPL(x10)(P5) { R5; REQUIRE(n == 1); auto x = convert_shape<shape<>>(shape_of_rank<1>(dim<>(a, n, s))); out(0, x.size()); }
SPEC(x10)(P5) { R5; REQUIRE(n == 1); out(0, 1); }
IMPL(x12)(P5) { R5; auto x = convert_shape<shape_of_rank<2>>(shape_of_rank<1>(dim<>(a, n, s))); dm(0, x.dim<0>()); mn_ext(3, x.dim<1>()); }
SPEC(x12)(P5) { R5; d(0, a, n, s); out(3, 0); out(4, 1); }
IMPL(x24)(P5) { R5; auto x = convert_shape<shape_of_rank<4>>(S2); dm(0, x.dim<0>()); dm(3, x.dim<1>()); mn_ext(6, x.dim<2>()); mn_ext(9, x.dim<3>()); }
SPEC(x24)(P5) { R5; d(0, a, n, s); d(3, b, m, t); out(6, 0); out(7, 1); out(9, 0); out(10, 1); }
IMPL(x35)(P5) { R5; auto x = convert_shape<shape_of_rank<5>>(S3); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); mn_ext(9, x.dim<3>()); mn_ext(12, x.dim<4>()); }
SPEC(x35)(P5) { R5; d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); out(9, 0); out(10, 1); out(12, 0); out(13, 1); }
IMPL(x45)(P5) { R5; auto x = convert_shape<shape_of_rank<5>>(S4); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); mn_ext(12, x.dim<4>()); }
SPEC(x45)(P5) { R5; d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); d(9, e, q, v); out(12, 0); out(13, 1); }
IMPL(xpred)(P5) { R5;
  out(0, is_explicitly_compatible<shape<>>(shape_of_rank<1>(dim<>(a, n, s)))); out(1, is_explicitly_compatible<shape<>>(S2)); out(2, is_explicitly_compatible<shape_of_rank<2>>(S3)); out(3, is_explicitly_compatible<shape_of_rank<3>>(S4)); out(4, is_explicitly_compatible<shape_of_rank<3>>(S5)); out(5, is_explicitly_compatible<shape_of_rank<4>>(S5));
  out(6, is_explicitly_compatible<shape<dim<>, dim<>, dim<>, dim<2>>>(S4)); out(7, is_explicitly_compatible<shape<dim<>, dim<>, dim<>, dim<>, dim<2>>>(S5)); out(8, is_compatible<shape<dim<>, dim<>, dim<>, dim<2>, fixed_dim<6>>>(S5)); out(9, is_compatible<shape<dim<>, dim<>, strided_dim<6>>>(S3)); out(10, is_compatible<shape<dim<1, 2, 3>>>(shape_of_rank<1>(dim<>(a, n, s))));
  out(11, is_explicitly_compatible<shape<dim<>, dim<>, dim<dynamic, 1>>>(shape<dim<>, dim<>, fixed_dim<1>>({a, n, s}, {b, m, t}, {c, 1, u}))); out(12, is_explicitly_compatible<shape_of_rank<1>>(shape<dim<>, fixed_dim<1>>({a, n, s}, {b, 1, t}))); out(13, is_explicitly_compatible<shape_of_rank<1>>(shape<dim<>, fixed_dim<2>>({a, n, s}, {b, 2, t}))); out(14, is_explicitly_compatible<shape<dim<>, fixed_dim<1>, fixed_dim<1>, fixed_dim<2>>>(S2)); out(15, is_explicitly_compatible<shape<dim<>, dim<>, dim<>, dim<>, fixed_dim<1>>>(S4)); out(16, is_explicitly_compatible<shape<dim<>, dim<>, dim<>, dim<>, fixed_dim<3>>>(S4));
}
SPEC(xpred)(P5) { R5;
  out(0, n == 1); out(1, (n == 1) & (m == 1)); out(2, o == 1); out(3, q == 1); out(4, (q == 1) & (r == 1)); out(5, r == 1); out(6, e == 2); out(7, g == 2); out(8, (e == 2) & (r == 6)); out(9, u == 6); out(10, (a == 1) & (n == 2) & (s == 3));
  out(11, 1); out(12, 1); out(13, 0); out(14, 0); out(15, 1); out(16, 0);
}
