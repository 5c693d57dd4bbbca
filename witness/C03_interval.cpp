// modes: ndebug assert
// thorough: ndebug17
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
IMPL(iv)(L a, L n) { interval<> v(a, n); out(0, v.min()); out(1, v.extent()); out(2, v.max()); out(3, v.size()); out(4, *v.begin()); out(5, *v.end()); out(6, *begin(v)); out(7, *end(v)); }
SPEC(iv)(L a, L n) { out(0, a); out(1, n); out(2, a + n - 1); out(3, n); out(4, a); out(5, a + n); out(6, a); out(7, a + n); }
IMPL(ivdef)(L a) {
  interval<> d; out(0, d.min()); out(1, d.extent());
  interval<> o(a); out(2, o.min()); out(3, o.extent());
  interval<5> m; out(4, m.min()); out(5, m.extent());
  interval<dynamic, 6> e(a); out(6, e.min()); out(7, e.extent());
  interval<2, 3> s; out(8, s.min()); out(9, s.extent()); out(10, s.max());
  interval<dynamic, 6> e0; out(11, e0.min()); out(12, e0.extent());
}
SPEC(ivdef)(L a) {
  out(0, 0); out(1, 1); out(2, a); out(3, 1); out(4, 5); out(5, 1); out(6, a); out(7, 6); out(8, 2); out(9, 3); out(10, 4); out(11, 0); out(12, 6);
}
IMPL(dimdef)(L a, L n, L s) {
  dim<> d; out(0, d.min()); out(1, d.extent()); out(2, d.stride() == unresolved);
  dim<> e(n); out(3, e.min()); out(4, e.extent()); out(5, e.stride() == unresolved);
  dim<> f(a, n); out(6, f.min()); out(7, f.extent()); out(8, f.stride() == unresolved);
  dim<> g(a, n, s); out(9, g.min()); out(10, g.extent()); out(11, g.stride()); out(12, g.max());
  dim<4> h(n + 1); out(13, h.min()); out(14, h.extent()); 
  fixed_dim<7, 3> k(a, 7); out(15, k.min()); out(16, k.extent()); out(17, k.stride());
  dense_dim<> l(n); out(18, l.min()); out(19, l.extent()); out(20, l.stride());
  broadcast_dim<> b(a, n); out(21, b.min()); out(22, b.extent()); out(23, b.stride());
  strided_dim<12> q(a, n); out(24, q.stride());
  dim<1, 2, 3> z; out(25, z.min()); out(26, z.extent()); out(27, z.stride());
  dim<> w(interval<>(a, n), s); out(28, w.min()); out(29, w.extent()); out(30, w.stride());
}
SPEC(dimdef)(L a, L n, L s) {
  out(0, 0); out(1, 0); out(2, 1); out(3, 0); out(4, n); out(5, 1); out(6, a); out(7, n); out(8, 1);
  out(9, a); out(10, n); out(11, s); out(12, a + n - 1); out(13, 4); out(14, n + 1);
  out(15, a); out(16, 7); out(17, 3); out(18, 0); out(19, n); out(20, 1); out(21, a); out(22, n); out(23, 0); out(24, 12);
  out(25, 1); out(26, 2); out(27, 3); out(28, a); out(29, n); out(30, s);
}
IMPL(setters)(L a, L n, L s, L p, L q, L r, L w) {
  dim<> d(a, n, s); d.set_min(p); d.set_extent(q); d.set_stride(r); out(0, d.min()); out(1, d.extent()); out(2, d.stride());
  d.set_max(w); out(3, d.min()); out(4, d.extent()); out(5, d.max());
  interval<> v(a, n); v.set_max(w); out(6, v.min()); out(7, v.extent()); v.set_min(p); out(8, v.min()); out(9, v.extent());
}
SPEC(setters)(L a, L n, L s, L p, L q, L r, L w) {
  out(0, p); out(1, q); out(2, r); out(3, p); out(4, w - p + 1); out(5, w); out(6, a); out(7, w - a + 1); out(8, p); out(9, w - a + 1);
}
IMPL(ranges)(L a, L e) {
  auto u = range(a, e); out(0, u.min()); out(1, u.extent()); auto v = r(a, e); out(2, v.min()); out(3, v.extent());
  auto w = range<5>(a); out(4, w.min()); out(5, w.extent()); auto x = r<8>(a); out(6, x.min()); out(7, x.extent());
}
SPEC(ranges)(L a, L e) { out(0, a); out(1, e - a); out(2, a); out(3, e - a); out(4, a); out(5, 5); out(6, a); out(7, 8); }
RIMPL(L, clamp3)(L x, L lo, L hi) { ASSUME(lo <= hi); return clamp(x, lo, hi); }
RSPEC(L, clamp3)(L x, L lo, L hi) { ASSUME(lo <= hi); return x < lo ? lo : x > hi ? hi : x; }
RIMPL(L, clampiv)(L x, L a, L n) { ASSUME(n >= 1); return clamp(x, interval<>(a, n)); }
RSPEC(L, clampiv)(L x, L a, L n) { ASSUME(n >= 1); return x < a ? a : x > a + n - 1 ? a + n - 1 : x; }
RIMPL(L, clampdim)(L x, L a, L n, L s) { ASSUME(n >= 1); return clamp(x, dim<>(a, n, s)); }
RSPEC(L, clampdim)(L x, L a, L n, L s) { ASSUME(n >= 1); return mn(mx(x, a), a + n - 1); }
RIMPL(bool, iveq)(L a, L n, L b, L m) { return interval<>(a, n) == interval<>(b, m); }
RSPEC(bool, iveq)(L a, L n, L b, L m) { return a == b && n == m; }
RIMPL(bool, ivne)(L a, L n, L b) { return interval<>(a, n) != interval<dynamic, 4>(b); }
RSPEC(bool, ivne)(L a, L n, L b) { return a != b || n != 4; }
RIMPL(bool, dimeq)(L a, L n, L s, L b, L m, L t) { return dim<>(a, n, s) == dim<>(b, m, t); }
RSPEC(bool, dimeq)(L a, L n, L s, L b, L m, L t) { return a == b && n == m && s == t; }
RIMPL(bool, dimne)(L a, L n, L b, L m, L t) { return dense_dim<>(a, n) != dim<>(b, m, t); }
RSPEC(bool, dimne)(L a, L n, L b, L m, L t) { return a != b || n != m || t != 1; }
RIMPL(bool, shapeeq)(L a, L n, L s, L b, L m, L t, L a2, L n2, L s2, L b2, L m2, L t2) {
  return shape_of_rank<2>({a, n, s}, {b, m, t}) == shape_of_rank<2>({a2, n2, s2}, {b2, m2, t2});
}
RSPEC(bool, shapeeq)(L a, L n, L s, L b, L m, L t, L a2, L n2, L s2, L b2, L m2, L t2) {
  return a == a2 && n == n2 && s == s2 && b == b2 && m == m2 && t == t2;
}
RIMPL(bool, shapene)(L a, L n, L s, L b, L m, L t, L a2, L n2, L b2, L m2, L t2) {
  return shape_of_rank<2>({a, n, s}, {b, m, t}) != dense_shape<2>(dense_dim<>(a2, n2), dim<>(b2, m2, t2));
}
RSPEC(bool, shapene)(L a, L n, L s, L b, L m, L t, L a2, L n2, L b2, L m2, L t2) {
  return !(a == a2 && n == n2 && s == 1 && b == b2 && m == m2 && t == t2);
}
// iteration visits exactly min..max in order
IMPL(iter)(L a, L n) { ASSUME(n >= 0); for (L i : interval<>(a, n)) visit1(i); }
SPEC(iter)(L a, L n) { ASSUME(n >= 0); for (L k = 0; k < n; k++) visit1(a + k); }
IMPL(iterdim)(L a, L n, L s) { ASSUME(n >= 0); for (L i : dim<>(a, n, s)) visit1(i); }
SPEC(iterdim)(L a, L n, L s) { ASSUME(n >= 0); for (L k = 0; k < n; k++) visit1(a + k); }
IMPL(iterstat)() { for (L i : interval<-3, 9>()) visit1(i); }
SPEC(iterstat)() { for (L k = -3; k < 6; k++) visit1(k); }
IMPL(iterator)(L i, L n) {
  index_iterator it(i); out(0, *it); out(1, it[n]); out(2, *(it + n)); out(3, *(it - n)); out(4, (it + n) - it);
  out(5, *it++); out(6, *it); out(7, *++it); out(8, *it--); out(9, *--it); it += n; out(10, *it); it -= 3; out(11, *it);
  out(12, index_iterator(i) == index_iterator(n)); out(13, index_iterator(i) != index_iterator(n));
}
SPEC(iterator)(L i, L n) {
  out(0, i); out(1, i + n); out(2, i + n); out(3, i - n); out(4, n); out(5, i); out(6, i + 1); out(7, i + 2); out(8, i + 2); out(9, i);
  out(10, i + n); out(11, i + n - 3); out(12, i == n); out(13, i != n);
}
// containment of points, intervals and dims, static and dynamic
IMPL(inpt)(L a, L n, L x) {
  out(0, interval<>(a, n).is_in_range(x)); out(1, dim<>(a, n, 3).is_in_range(x)); out(2, interval<2, 5>().is_in_range(x));
  out(3, dim<dynamic, 6>(a, 6).is_in_range(x)); out(4, interval<-4>(-4, n).is_in_range(x)); out(5, dense_dim<0>(0, n).is_in_range(x));
  out(6, fixed_dim<4>(a, 4).is_in_range(x));
}
SPEC(inpt)(L a, L n, L x) {
  out(0, a <= x && x <= a + n - 1); out(1, a <= x && x <= a + n - 1); out(2, 2 <= x && x <= 6);
  out(3, a <= x && x <= a + 5); out(4, -4 <= x && x <= n - 5); out(5, 0 <= x && x <= n - 1); out(6, a <= x && x <= a + 3);
}
IMPL(iniv)(L a, L n, L b, L m) {
  out(0, interval<>(a, n).is_in_range(interval<>(b, m))); out(1, dim<>(a, n, 3).is_in_range(interval<>(b, m)));
  out(2, interval<2, 5>().is_in_range(interval<>(b, m))); out(3, interval<>(a, n).is_in_range(interval<1, 4>()));
  out(4, dim<dynamic, 6>(a, 6).is_in_range(interval<dynamic, 2>(b)));
}
SPEC(iniv)(L a, L n, L b, L m) {
  out(0, a <= b && b + m - 1 <= a + n - 1); out(1, a <= b && b + m - 1 <= a + n - 1);
  out(2, 2 <= b && b + m - 1 <= 6); out(3, a <= 1 && 4 <= a + n - 1); out(4, a <= b && b + 1 <= a + 5);
}
IMPL(indim)(L a, L n, L b, L m, L s) {
  out(0, interval<>(a, n).is_in_range(dim<>(b, m, s))); out(1, dim<>(a, n, 3).is_in_range(dim<>(b, m, s)));
  out(2, interval<2, 5>().is_in_range(dim<>(b, m, s))); out(3, interval<>(a, n).is_in_range(dim<1, 4, 2>()));
  out(4, dim<dynamic, 6>(a, 6).is_in_range(dense_dim<dynamic, 2>(b, 2)));
}
SPEC(indim)(L a, L n, L b, L m, L s) {
  out(0, a <= b && b + m - 1 <= a + n - 1); out(1, a <= b && b + m - 1 <= a + n - 1);
  out(2, 2 <= b && b + m - 1 <= 6); out(3, a <= 1 && 4 <= a + n - 1); out(4, a <= b && b + 1 <= a + 5);
}
// the bounds a type states
IMPL(stat)() { out(0, interval<3, 5>::Min); out(1, interval<3, 5>::Extent); out(2, interval<3, 5>::Max); out(3, dim<-2, 4, 7>::Min); out(4, dim<-2, 4, 7>::Extent); out(5, dim<-2, 4, 7>::Max); out(6, dim<-2, 4, 7>::Stride); out(7, interval<dynamic, 5>::Max == dynamic); out(8, interval<3>::Max == dynamic); out(9, dense_dim<>::Stride); out(10, broadcast_dim<>::Stride); out(11, fixed_dim<6, 2>::Extent); out(12, fixed_interval<9>::Extent); out(13, strided_dim<8>::Stride); out(14, dim<>::Stride == dynamic); }
SPEC(stat)() { out(0, 3); out(1, 5); out(2, 7); out(3, -2); out(4, 4); out(5, 1); out(6, 7); out(7, 1); out(8, 1); out(9, 1); out(10, 0); out(11, 6); out(12, 9); out(13, 8); out(14, 1); }
// assignment and construction across static and dynamic forms takes every part of the source
template <class D> static void parts(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void parts(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
IMPL(dim_assign)(L p, L q, L r, L a, L n, L s) {
  dim<> d(p, q, r); d = dim<>(a, n, s); parts(0, d);
  d = dim<3>(3, n, s); parts(3, d); d = fixed_dim<4>(a, 4, s); parts(6, d); d = dense_dim<>(a, n); parts(9, d); d = broadcast_dim<2, 5>(); parts(12, d);
  dim<> e(dim<3>(3, n, s)); parts(15, e); dim<> f(dense_dim<>(a, n)); parts(18, f); d = dim<dynamic, 4>(a, 4); parts(21, d);
  interval<> v(p, q); v = interval<2>(2, n); out(24, v.min()); out(25, v.extent()); v = fixed_interval<7>(a); out(26, v.min()); out(27, v.extent()); v = interval<1, 6>(); out(28, v.min()); out(29, v.max());
}
SPEC(dim_assign)(L p, L q, L r, L a, L n, L s) {
  parts(0, a, n, s); parts(3, 3, n, s); parts(6, a, 4, s); parts(9, a, n, 1); parts(12, 2, 5, 0); parts(15, 3, n, s); parts(18, a, n, 1); parts(21, a, 4, unresolved);
  out(24, 2); out(25, n); out(26, a); out(27, 7); out(28, 1); out(29, 6);
}
IMPL(static_assign)(L p, L q, L a, L n, L s) {
  dense_dim<> d(p, q); d = dim<>(a, n, s); parts(0, d);
  dim<2> e(2, q, p); e = dim<>(a, n, s); parts(3, e);
  dim<dynamic, 5> f(p, 5, q); f = dim<>(a, n, s); parts(6, f);
}
SPEC(static_assign)(L p, L q, L a, L n, L s) {
  REQUIRE(s == 1 || s == unresolved); parts(0, a, n, 1); REQUIRE(a == 2); parts(3, 2, n, s); REQUIRE(n == 5); parts(6, a, 5, s);
}
IMPL(static_iv_assign)(L p, L q, L a, L n) { interval<2> v(2, q); v = interval<>(a, n); out(0, v.min()); out(1, v.extent()); fixed_interval<4> w(p); w = interval<>(a, n); out(2, w.min()); out(3, w.extent()); }
SPEC(static_iv_assign)(L p, L q, L a, L n) { REQUIRE(a == 2); out(0, 2); out(1, n); REQUIRE(n == 4); out(2, a); out(3, 4); }
