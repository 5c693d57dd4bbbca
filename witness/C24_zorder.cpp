// modes: ndebug
// thorough: assert ndebug17 ndebug20
// Z-order traversal of ranges with arbitrary mins; the extents are those of the table.
#include "array/array.h"
#include "array/z_order.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
// The z-order curve: boxes are visited quadrant by quadrant, the first range fastest,
// skipping what lies outside the ranges.
#define INL static inline __attribute__((always_inline)) void go
template <int S, int I, int N, bool In = (I < N)> struct q1 { INL(L a) { q1<S - 1, I, N>::go(a); q1<S - 1, I + (1 << (S - 1)), N>::go(a); } };
template <int I, int N> struct q1<0, I, N, true> { INL(L a) { visit1(a + I); } };
template <int S, int I, int N> struct q1<S, I, N, false> { INL(L) {} };
template <int S, int I, int J, int N, int M, bool In = (I < N && J < M)> struct q2 { INL(L a, L b) { const int h = 1 << (S - 1);
  q2<S - 1, I, J, N, M>::go(a, b); q2<S - 1, I + h, J, N, M>::go(a, b); q2<S - 1, I, J + h, N, M>::go(a, b); q2<S - 1, I + h, J + h, N, M>::go(a, b); } };
template <int I, int J, int N, int M> struct q2<0, I, J, N, M, true> { INL(L a, L b) { visit2(a + I, b + J); } };
template <int S, int I, int J, int N, int M> struct q2<S, I, J, N, M, false> { INL(L, L) {} };
template <int S, int I, int J, int K, int N, int M, int O, bool In = (I < N && J < M && K < O)> struct q3 { INL(L a, L b, L c) { const int h = 1 << (S - 1);
  q3<S - 1, I, J, K, N, M, O>::go(a, b, c); q3<S - 1, I + h, J, K, N, M, O>::go(a, b, c); q3<S - 1, I, J + h, K, N, M, O>::go(a, b, c); q3<S - 1, I + h, J + h, K, N, M, O>::go(a, b, c);
  q3<S - 1, I, J, K + h, N, M, O>::go(a, b, c); q3<S - 1, I + h, J, K + h, N, M, O>::go(a, b, c); q3<S - 1, I, J + h, K + h, N, M, O>::go(a, b, c); q3<S - 1, I + h, J + h, K + h, N, M, O>::go(a, b, c); } };
template <int I, int J, int K, int N, int M, int O> struct q3<0, I, J, K, N, M, O, true> { INL(L a, L b, L c) { visit3(a + I, b + J, c + K); } };
template <int S, int I, int J, int K, int N, int M, int O> struct q3<S, I, J, K, N, M, O, false> { INL(L, L, L) {} };
template <int S, int I, int J, int K, int H, int N, int M, int O, int P, bool In = (I < N && J < M && K < O && H < P)> struct q4 {
  template <int X> static inline __attribute__((always_inline)) void gox(L a, L b, L c, L d) { const int h = 1 << (S - 1); q4<S - 1, I + (X & 1) * h, J + (X >> 1 & 1) * h, K + (X >> 2 & 1) * h, H + (X >> 3) * h, N, M, O, P>::go(a, b, c, d); }
  INL(L a, L b, L c, L d) { gox<0>(a, b, c, d); gox<1>(a, b, c, d); gox<2>(a, b, c, d); gox<3>(a, b, c, d); gox<4>(a, b, c, d); gox<5>(a, b, c, d); gox<6>(a, b, c, d); gox<7>(a, b, c, d);
    gox<8>(a, b, c, d); gox<9>(a, b, c, d); gox<10>(a, b, c, d); gox<11>(a, b, c, d); gox<12>(a, b, c, d); gox<13>(a, b, c, d); gox<14>(a, b, c, d); gox<15>(a, b, c, d); } };
template <int I, int J, int K, int H, int N, int M, int O, int P> struct q4<0, I, J, K, H, N, M, O, P, true> { INL(L a, L b, L c, L d) { visit4(a + I, b + J, c + K, d + H); } };
template <int S, int I, int J, int K, int H, int N, int M, int O, int P> struct q4<S, I, J, K, H, N, M, O, P, false> { INL(L, L, L, L) {} };
// five and six ranges: two visits per point name its coordinates
template <int S, int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R, bool In = (I < N && J < M && K < O && H < P && G < Q && F < R)> struct q6;
template <int X, int S, int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R> struct q6x { INL(L a, L b, L c, L d, L e, L f) { const int h = 1 << (S - 1);
  q6<S - 1, I + (X & 1) * h, J + (X >> 1 & 1) * h, K + (X >> 2 & 1) * h, H + (X >> 3 & 1) * h, G + (X >> 4 & 1) * h, F + (X >> 5 & 1) * h, N, M, O, P, Q, R>::go(a, b, c, d, e, f);
  q6x<X + 1, S, I, J, K, H, G, F, N, M, O, P, Q, R>::go(a, b, c, d, e, f); } };
template <int S, int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R> struct q6x<64, S, I, J, K, H, G, F, N, M, O, P, Q, R> { INL(L, L, L, L, L, L) {} };
template <int S, int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R> struct q6<S, I, J, K, H, G, F, N, M, O, P, Q, R, true> { INL(L a, L b, L c, L d, L e, L f) { q6x<0, S, I, J, K, H, G, F, N, M, O, P, Q, R>::go(a, b, c, d, e, f); } };
template <int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R> struct q6<0, I, J, K, H, G, F, N, M, O, P, Q, R, true> { INL(L a, L b, L c, L d, L e, L f) { visit3(a + I, b + J, c + K); visit3(d + H, e + G, f + F); } };
template <int S, int I, int J, int K, int H, int G, int F, int N, int M, int O, int P, int Q, int R> struct q6<S, I, J, K, H, G, F, N, M, O, P, Q, R, false> { INL(L, L, L, L, L, L) {} };
constexpr int lg(int n) { return n <= 1 ? 0 : 1 + lg((n + 1) / 2); }
constexpr int mx(int a, int b) { return a > b ? a : b; }
#define Z1(n) IMPL(z1_##n)(L a) { for_all_in_z_order(std::make_tuple(interval<>(a, n)), [](L i) { visit1(i); }); } SPEC(z1_##n)(L a) { q1<lg(n), 0, n>::go(a); }
#define Z2(n, m) IMPL(z2_##n##_##m)(L a, L b) { for_all_in_z_order(std::make_tuple(interval<>(a, n), interval<>(b, m)), [](L i, L j) { visit2(i, j); }); } SPEC(z2_##n##_##m)(L a, L b) { q2<lg(mx(n, m)), 0, 0, n, m>::go(a, b); }
#define Z3(n, m, o) IMPL(z3_##n##_##m##_##o)(L a, L b, L c) { for_all_in_z_order(std::make_tuple(interval<>(a, n), interval<>(b, m), interval<>(c, o)), [](L i, L j, L k) { visit3(i, j, k); }); } SPEC(z3_##n##_##m##_##o)(L a, L b, L c) { q3<lg(mx(n, mx(m, o))), 0, 0, 0, n, m, o>::go(a, b, c); }
#define Z4(n, m, o, p) IMPL(z4_##n##_##m##_##o##_##p)(L a, L b, L c, L d) { for_all_in_z_order(std::make_tuple(interval<>(a, n), interval<>(b, m), interval<>(c, o), interval<>(d, p)), [](L i, L j, L k, L l) { visit4(i, j, k, l); }); } SPEC(z4_##n##_##m##_##o##_##p)(L a, L b, L c, L d) { q4<lg(mx(mx(n, m), mx(o, p))), 0, 0, 0, 0, n, m, o, p>::go(a, b, c, d); }
Z1(0) Z1(1) Z1(2) Z1(3) Z1(4) Z1(5) Z1(6) Z1(7) Z1(8) Z1(9) Z1(15) Z1(16) Z1(17) Z1(31) Z1(32) Z1(33) Z1(63) Z1(64) Z1(65) Z1(100) Z1(127) Z1(128) Z1(129) Z1(255) Z1(257) Z1(300)
Z2(1, 33) Z2(33, 1) Z2(2, 65) Z2(65, 2) Z2(129, 1) Z2(1, 257) Z2(3, 100) Z2(33, 33)
#define ROW(n) Z2(n, 0) Z2(n, 1) Z2(n, 2) Z2(n, 3) Z2(n, 4) Z2(n, 5) Z2(n, 6) Z2(n, 7) Z2(n, 8) Z2(n, 9) Z2(n, 17)
ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) ROW(5) ROW(6) ROW(7) ROW(8) ROW(9) ROW(17)
#define ROW3(n, m) Z3(n, m, 0) Z3(n, m, 1) Z3(n, m, 2) Z3(n, m, 3) Z3(n, m, 4) Z3(n, m, 5)
#define PLANE3(n) ROW3(n, 0) ROW3(n, 1) ROW3(n, 2) ROW3(n, 3) ROW3(n, 5)
PLANE3(0) PLANE3(1) PLANE3(2) PLANE3(3) PLANE3(5)
Z3(2, 9, 4) Z3(9, 1, 2) Z3(1, 4, 17) Z3(4, 7, 1) Z3(8, 8, 8)
#define ROW4(n, m, o) Z4(n, m, o, 0) Z4(n, m, o, 1) Z4(n, m, o, 2) Z4(n, m, o, 3)
#define PLANE4(n, m) ROW4(n, m, 0) ROW4(n, m, 1) ROW4(n, m, 2) ROW4(n, m, 3)
PLANE4(0, 1) PLANE4(1, 0) PLANE4(1, 1) PLANE4(1, 3) PLANE4(2, 2) PLANE4(3, 2) PLANE4(3, 3)
#define Z5(n, m, o, p, q) IMPL(z5_##n##m##o##p##q)(L a, L b, L c, L d, L e) { for_all_in_z_order(std::make_tuple(interval<>(a, n), interval<>(b, m), interval<>(c, o), interval<>(d, p), interval<>(e, q)), [](L i, L j, L k, L l, L g) { visit3(i, j, k); visit3(l, g, 0); }); } SPEC(z5_##n##m##o##p##q)(L a, L b, L c, L d, L e) { q6<lg(mx(mx(mx(n, m), mx(o, p)), q)), 0, 0, 0, 0, 0, 0, n, m, o, p, q, 1>::go(a, b, c, d, e, 0); }
#define Z6(n, m, o, p, q, r) IMPL(z6_##n##m##o##p##q##r)(L a, L b, L c, L d, L e, L f) { for_all_in_z_order(std::make_tuple(interval<>(a, n), interval<>(b, m), interval<>(c, o), interval<>(d, p), interval<>(e, q), interval<>(f, r)), [](L i, L j, L k, L l, L g, L h) { visit3(i, j, k); visit3(l, g, h); }); } SPEC(z6_##n##m##o##p##q##r)(L a, L b, L c, L d, L e, L f) { q6<lg(mx(mx(mx(n, m), mx(o, p)), mx(q, r))), 0, 0, 0, 0, 0, 0, n, m, o, p, q, r>::go(a, b, c, d, e, f); }
Z5(1, 1, 1, 1, 1) Z5(2, 2, 2, 2, 2) Z5(3, 1, 2, 1, 2) Z5(1, 2, 3, 2, 1) Z5(2, 1, 1, 3, 3) Z5(1, 5, 1, 2, 4) Z5(2, 2, 0, 2, 2) Z5(3, 2, 2, 2, 3) Z5(4, 1, 1, 1, 5)
Z6(1, 1, 1, 1, 1, 1) Z6(2, 2, 2, 2, 2, 2) Z6(3, 1, 2, 1, 2, 1) Z6(1, 2, 1, 3, 1, 3) Z6(1, 1, 1, 1, 2, 5) Z6(2, 2, 2, 2, 2, 0) Z6(2, 1, 3, 1, 2, 4)
// tuples instead of separate arguments
IMPL(each)(L a, L b) { for_each_in_z_order(std::make_tuple(interval<>(a, 5), interval<>(b, 3)), [](const std::tuple<L, L>& i) { visit2(std::get<0>(i), std::get<1>(i)); }); }
SPEC(each)(L a, L b) { q2<3, 0, 0, 5, 3>::go(a, b); }
// tiles: the ranges are splits
IMPL(tiles)(L a, L b) { for_all_in_z_order(std::make_tuple(split(interval<>(a, 10), 4), split(interval<>(b, 7), 3)), [](const interval<>& i, const interval<>& j) { visit4(i.min(), i.extent(), j.min(), j.extent()); }); }
SPEC(tiles)(L a, L b) { visit4(a + 0, 4, b + 0, 3); visit4(a + 4, 4, b + 0, 3); visit4(a + 0, 4, b + 3, 3); visit4(a + 4, 4, b + 3, 3); visit4(a + 8, 2, b + 0, 3); visit4(a + 8, 2, b + 3, 3); visit4(a + 0, 4, b + 6, 1); visit4(a + 4, 4, b + 6, 1); visit4(a + 8, 2, b + 6, 1); }
IMPL(tiles_static)(L a, L b) { for_all_in_z_order(std::make_tuple(split<4>(interval<>(a, 10)), split<3>(interval<>(b, 7))), [](const interval<dynamic, 4>& i, const interval<dynamic, 3>& j) { visit2(i.min(), j.min()); }); }
SPEC(tiles_static)(L a, L b) { visit2(a + 0, b + 0); visit2(a + 4, b + 0); visit2(a + 0, b + 3); visit2(a + 4, b + 3); visit2(a + 6, b + 0); visit2(a + 6, b + 3); visit2(a + 0, b + 4); visit2(a + 4, b + 4); visit2(a + 6, b + 4); }
// dims of an array and mixed kinds of range
IMPL(dims)(L a, L n, L b) { dim<> x(a, 3, n); interval<2, 5> y; for_all_in_z_order(std::make_tuple(x, y, interval<>(b, 2)), [](L i, L j, L k) { visit3(i, j, k); }); }
SPEC(dims)(L a, L n, L b) { q3<3, 0, 0, 0, 3, 5, 2>::go(a, 2, b); }
