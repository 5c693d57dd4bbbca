// modes: ndebug assert
// thorough: ndebug17
// Tiling an interval: number of tiles, every tile's bounds, and the step relation of the iteration
// (tile n followed by tile n+1, the last one followed by end).
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L cdiv(L a, L b) { return (a + b - 1) / b; }
#define PRE ASSUME(N >= 1 && in >= 1)
IMPL(size)(L a, L N, L in) { PRE; out(0, split(interval<>(a, N), in).size()); out(1, split(dim<>(a, N, 5), in).size()); }
SPEC(size)(L a, L N, L in) { PRE; out(0, cdiv(N, in)); out(1, cdiv(N, in)); }
IMPL(size0)(L a, L in) { ASSUME(in >= 1); auto s = split(interval<>(a, 0), in); out(0, s.size()); out(1, s.begin() == s.end()); out(2, s.begin() != s.end()); }
SPEC(size0)(L a, L in) { ASSUME(in >= 1); out(0, 0); out(1, 1); out(2, 0); }
IMPL(first)(L a, L N, L in) { PRE; auto s = split(interval<>(a, N), in); auto t = *s.begin(); out(0, t.min()); out(1, t.extent()); out(2, s.begin() != s.end()); out(3, s.begin()->min()); }
SPEC(first)(L a, L N, L in) { PRE; out(0, a); out(1, mn(in, N)); out(2, 1); out(3, a); }
// tile k through operator[], operator+ and iterator indexing
#define K_ ASSUME(N >= 1 && in >= 1 && k >= 0 && k * in < N)
IMPL(tile)(L a, L N, L in, L k) {
  K_; auto s = split(interval<>(a, N), in);
  auto x = *s[k]; out(0, x.min()); out(1, x.extent());
  auto y = *(s.begin() + k); out(2, y.min()); out(3, y.extent());
  auto z = s.begin()[k]; out(4, z.min()); out(5, z.extent());
  out(6, s[k] == s.end()); 
}
SPEC(tile)(L a, L N, L in, L k) {
  K_; L m = a + k * in, e = mn(in, N - k * in);
  out(0, m); out(1, e); out(2, m); out(3, e); out(4, m); out(5, e); out(6, 0);
}
// ++ moves from tile k to tile k+1, or to the end after the last tile
IMPL(step)(L a, L N, L in, L k) {
  K_; ASSUME(k >= 1 || in <= N);
  auto s = split(interval<>(a, N), in); auto it = s.begin() + k; ++it; out(0, it->min()); out(1, it == s.end()); out(2, it != s.end()); out(3, it->extent());
  auto jt = s.begin() + k; auto old = jt++; out(4, old->min()); out(5, jt->min());
}
SPEC(step)(L a, L N, L in, L k) {
  K_; ASSUME(k >= 1 || in <= N);
  L nx = a + mn(N, (k + 1) * in); bool end = (k + 1) * in >= N;
  out(0, nx); out(1, end); out(2, !end); out(3, end ? 0 : mn(in, N - (k + 1) * in)); out(4, a + k * in); out(5, nx);
}
// whole traversals
IMPL(loop2)(L a, L in) { ASSUME(in >= 1); for (auto t : split(interval<>(a, 2 * in), in)) visit2(t.min(), t.extent()); }
SPEC(loop2)(L a, L in) { ASSUME(in >= 1); visit2(a, in); visit2(a + in, in); }
IMPL(loop3)(L a, L in, L r) { ASSUME(in >= 1 && r >= 1 && r < in); for (auto t : split(interval<>(a, 2 * in + r), in)) visit2(t.min(), t.extent()); }
SPEC(loop3)(L a, L in, L r) { ASSUME(in >= 1 && r >= 1 && r < in); visit2(a, in); visit2(a + in, in); visit2(a + 2 * in, r); }
IMPL(loop1)(L a, L in, L r) { ASSUME(in >= 1 && r >= 1 && r < in); for (auto t : split(interval<>(a, r), in)) visit2(t.min(), t.extent()); }
SPEC(loop1)(L a, L in, L r) { ASSUME(in >= 1 && r >= 1 && r < in); visit2(a, r); }
// compile-time inner extent: the last tile is shifted back so that every tile has the full extent
#define Q_ REQUIRE(N >= 4)
IMPL(ssize)(L a, L N) { Q_; out(0, split<4>(interval<>(a, N)).size()); out(1, split<4>(dim<>(a, N, 3)).size()); }
SPEC(ssize)(L a, L N) { Q_; out(0, cdiv(N, 4)); out(1, cdiv(N, 4)); }
#define KS ASSUME(N >= 4 && k >= 0 && k * 4 < N)
IMPL(stile)(L a, L N, L k) { KS; auto s = split<4>(interval<>(a, N)); auto x = *s[k]; out(0, x.min()); out(1, x.extent()); auto z = s.begin()[k]; out(2, z.min()); out(3, s[k] != s.end()); }
SPEC(stile)(L a, L N, L k) { KS; L m = a + mn(4 * k, N - 4); out(0, m); out(1, 4); out(2, m); out(3, 1); }
IMPL(sstep)(L a, L N, L k) { KS; auto s = split<4>(interval<>(a, N)); auto it = s.begin() + k; ++it; out(0, it->min()); out(1, it == s.end()); }
SPEC(sstep)(L a, L N, L k) { KS; bool end = (k + 1) * 4 >= N; out(0, end ? a + N : a + mn(4 * (k + 1), N - 4)); out(1, end); }
IMPL(sloop)(L a) { for (auto t : split<5>(interval<>(a, 12))) visit2(t.min(), t.extent()); }
SPEC(sloop)(L a) { visit2(a, 5); visit2(a + 5, 5); visit2(a + 7, 5); }
IMPL(sloop2)(L a) { for (auto t : split<4>(dim<dynamic, 8>(a, 8))) visit2(t.min(), t.extent()); }
SPEC(sloop2)(L a) { visit2(a, 4); visit2(a + 4, 4); }
// dims and intervals with static members split into the same tiles as the plain interval
IMPL(dtile)(L a, L N, L in, L k) {
  K_; auto s = split(dim<>(a, N, 5), in); auto x = *s[k]; out(0, x.min()); out(1, x.extent()); out(2, s[k] == s.end());
  ASSUME(k >= 1 || in <= N); auto it = s.begin() + k; ++it; out(3, it->min()); out(4, it == s.end()); out(5, it->extent());
}
SPEC(dtile)(L a, L N, L in, L k) {
  K_; out(0, a + k * in); out(1, mn(in, N - k * in)); out(2, 0);
  ASSUME(k >= 1 || in <= N); bool end = (k + 1) * in >= N;
  out(3, a + mn(N, (k + 1) * in)); out(4, end); out(5, end ? 0 : mn(in, N - (k + 1) * in));
}
IMPL(dstile)(L a, L N, L k) {
  KS; auto s = split<4>(dim<>(a, N, 5)); auto x = *s[k]; out(0, x.min()); out(1, x.extent()); out(2, s[k] != s.end());
  auto it = s.begin() + k; ++it; out(3, it->min()); out(4, it == s.end());
}
SPEC(dstile)(L a, L N, L k) {
  KS; bool end = (k + 1) * 4 >= N; out(0, a + mn(4 * k, N - 4)); out(1, 4); out(2, 1); out(3, end ? a + N : a + mn(4 * (k + 1), N - 4)); out(4, end);
}
IMPL(ststile)(L in) { ASSUME(in >= 1 && in < 9); auto s = split(interval<-3, 9>(), in); out(0, s.begin()->min()); out(1, s.begin()->extent()); auto it = s.begin() + 1; out(2, it->min()); out(3, it->extent()); auto t = split(dim<2, 9, 4>(), in); auto x = *t[1]; out(4, x.min()); out(5, x.extent()); out(6, t.size()); }
SPEC(ststile)(L in) { ASSUME(in >= 1 && in < 9); out(0, -3); out(1, in); out(2, in - 3); out(3, mn(in, 9 - in)); out(4, in + 2); out(5, mn(in, 9 - in)); out(6, cdiv(9, in)); }
IMPL(dloop)(L a) {
  for (auto t : split(dim<>(a, 11, 3), 4)) visit2(t.min(), t.extent());
  for (auto t : split<4>(dim<>(a, 11, 3))) visit2(t.min(), t.extent());
  for (auto t : split<4>(interval<3, 9>())) visit2(t.min(), t.extent());
  for (auto t : split(dense_dim<>(a, 7), 4)) visit2(t.min(), t.extent());
}
SPEC(dloop)(L a) {
  visit2(a, 4); visit2(a + 4, 4); visit2(a + 8, 3);
  visit2(a, 4); visit2(a + 4, 4); visit2(a + 7, 4);
  visit2(3, 4); visit2(7, 4); visit2(8, 4);
  visit2(a, 4); visit2(a + 4, 3);
}
