// modes: ndebug assert
// thorough: ndebug17
// Tiling intervals and dims whose bounds and strides are partly known at compile time, and other tile sizes.
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L cdiv(L a, L b) { return (a + b - 1) / b; }
// run-time tile size: size, tile k, and the step out of tile k
template <class I> static void tile(const I& v, L in, L k) {
  auto s = split(v, in); out(0, s.size()); auto x = *s[k]; out(1, x.min()); out(2, x.extent()); out(3, s[k] == s.end());
  auto it = s.begin() + k; ++it; out(4, it->min()); out(5, it == s.end()); out(6, it->extent());
}
static void tile(L a, L N, L in, L k) {
  bool end = (k + 1) * in >= N; out(0, cdiv(N, in)); out(1, a + k * in); out(2, mn(in, N - k * in)); out(3, 0);
  out(4, a + mn(N, (k + 1) * in)); out(5, end); out(6, end ? 0 : mn(in, N - (k + 1) * in));
}
#define TILE(id, v, A, N_) IMPL(id)(L a, L n, L s, L in, L k) { ASSUME(N_ >= 1 && in >= 1 && k >= 0 && k * in < N_); ASSUME(k >= 1 || in <= N_); tile(v, in, k); } \
  SPEC(id)(L a, L n, L s, L in, L k) { ASSUME(N_ >= 1 && in >= 1 && k >= 0 && k * in < N_); ASSUME(k >= 1 || in <= N_); tile(A, N_, in, k); }
TILE(t0, (interval<4>(4, n)), 4, n)
TILE(t1, (interval<-3>(-3, n)), -3, n)
TILE(t2, (interval<dynamic, 30>(a)), a, 30)
TILE(t3, (interval<-6, 25>()), -6, 25)
TILE(t4, (dim<4>(4, n, s)), 4, n)
TILE(t5, (dense_dim<>(a, n)), a, n)
TILE(t6, (broadcast_dim<>(a, n)), a, n)
TILE(t7, (strided_dim<-5>(a, n)), a, n)
TILE(t8, (fixed_dim<30, 3>(a, 30)), a, 30)
TILE(t9, (dim<2, dynamic, 7>(2, n)), 2, n)
TILE(t10, (dim<2, 20>(2, 20, s)), 2, 20)
TILE(t11, (dim<dynamic, 40>(a, 40, s)), a, 40)
// compile-time tile size
template <int W, class I> static void stile(const I& v, L k) {
  auto s = split<W>(v); out(0, s.size()); auto x = *s[k]; out(1, x.min()); out(2, x.extent()); out(3, s[k] != s.end()); out(7, decltype(x)::Extent);
  auto it = s.begin() + k; ++it; out(4, it->min()); out(5, it == s.end());
}
static void stile(L W, L a, L N, L k) {
  bool end = (k + 1) * W >= N; out(0, cdiv(N, W)); out(1, a + mn(W * k, N - W)); out(2, W); out(3, 1); out(7, W); out(4, end ? a + N : a + mn(W * (k + 1), N - W)); out(5, end);
}
#define STILE(id, W, v, A, N_) IMPL(id)(L a, L n, L s, L k) { ASSUME(N_ >= W && k >= 0 && k * W < N_); stile<W>(v, k); } \
  SPEC(id)(L a, L n, L s, L k) { ASSUME(N_ >= W && k >= 0 && k * W < N_); stile(W, A, N_, k); }
STILE(s0, 4, (interval<4>(4, n)), 4, n)
STILE(s1, 3, (interval<-3>(-3, n)), -3, n)
STILE(s2, 7, (interval<dynamic, 30>(a)), a, 30)
STILE(s3, 4, (interval<-6, 25>()), -6, 25)
STILE(s4, 5, (dim<4>(4, n, s)), 4, n)
STILE(s5, 2, (dense_dim<>(a, n)), a, n)
STILE(s6, 4, (broadcast_dim<>(a, n)), a, n)
STILE(s7, 6, (strided_dim<-5>(a, n)), a, n)
STILE(s8, 4, (fixed_dim<30, 3>(a, 30)), a, 30)
STILE(s9, 16, (dim<2, dynamic, 7>(2, n)), 2, n)
STILE(s10, 8, (dim<2, 20>(2, 20, s)), 2, 20)
STILE(s11, 1, (interval<>(a, n)), a, n)
STILE(s12, 1, (dim<>(a, n, s)), a, n)
STILE(s13, 16, (interval<>(a, n)), a, n)
STILE(s14, 9, (dim<>(a, n, s)), a, n)
STILE(s15, 64, (interval<>(a, n)), a, n)
// documented precondition: the interval is at least one tile long
#define SHORT(id, W, v, N_) IMPL(id)(L a, L n, L s) { out(0, split<W>(v).size()); } SPEC(id)(L a, L n, L s) { REQUIRE(N_ >= W); ASSUME(N_ >= 0); out(0, cdiv(N_, W)); }
SHORT(p0, 4, (interval<4>(4, n)), n)
SHORT(p1, 3, (dense_dim<>(a, n)), n)
SHORT(p2, 9, (dim<2, dynamic, 7>(2, n)), n)
SHORT(p3, 1, (interval<>(a, n)), n)
SHORT(p4, 5, (broadcast_dim<>(a, n)), n)
// whole traversals
IMPL(loops)(L a, L s) {
  for (auto t : split(interval<4, 10>(), 4)) visit2(t.min(), t.extent());
  for (auto t : split(dim<-2, 9, 3>(), 5)) visit2(t.min(), t.extent());
  for (auto t : split(dim<dynamic, 6>(a, 6, s), 3)) visit2(t.min(), t.extent());
  for (auto t : split<4>(interval<4, 10>())) visit2(t.min(), t.extent());
  for (auto t : split<5>(dim<-2, 9, 3>())) visit2(t.min(), t.extent());
  for (auto t : split<3>(dim<dynamic, 6>(a, 6, s))) visit2(t.min(), t.extent());
  for (auto t : split<1>(interval<>(a, 3))) visit2(t.min(), t.extent());
  for (auto t : split<9>(interval<>(a, 12))) visit2(t.min(), t.extent());
  for (auto t : split<7>(interval<3>(3, 7))) visit2(t.min(), t.extent());
  for (auto t : split<4>(broadcast_dim<>(a, 5))) visit2(t.min(), t.extent());
}
SPEC(loops)(L a, L s) {
  visit2(4, 4); visit2(8, 4); visit2(12, 2); visit2(-2, 5); visit2(3, 4); visit2(a, 3); visit2(a + 3, 3);
  visit2(4, 4); visit2(8, 4); visit2(10, 4); visit2(-2, 5); visit2(2, 5); visit2(a, 3); visit2(a + 3, 3);
  visit2(a, 1); visit2(a + 1, 1); visit2(a + 2, 1); visit2(a, 9); visit2(a + 3, 9); visit2(3, 7); visit2(a, 4); visit2(a + 1, 4);
}
