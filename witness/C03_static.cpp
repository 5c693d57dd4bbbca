// modes: ndebug assert
// thorough: ndebug17
// Every combination of parts fixed at compile time and parts chosen at run time answers like the plain interval.
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
template <class I> static void ask(const I& v, L x, L b, L m) {
  out(0, v.min()); out(1, v.extent()); out(2, v.max()); out(3, v.size()); out(4, *v.begin()); out(5, *v.end());
  out(8, v.is_in_range(x)); out(9, v.is_in_range(interval<>(b, m))); out(10, v.is_in_range(dim<>(b, m, 2))); out(11, v.is_in_range(interval<dynamic, 1>(b))); out(12, v.is_in_range(interval<3>(3, m)));
  out(13, interval<>(b, m).is_in_range(v)); out(14, dim<>(b, m, 2).is_in_range(v)); out(15, interval<dynamic, 4>(b).is_in_range(v));
}
static void told(L a, L n, L x, L b, L m) {
  out(0, a); out(1, n); out(2, a + n - 1); out(3, n); out(4, a); out(5, a + n);
  out(8, (a <= x) & (x < a + n)); out(9, (a <= b) & (b + m <= a + n)); out(10, (a <= b) & (b + m <= a + n)); out(11, (a <= b) & (b < a + n)); out(12, (a <= 3) & (3 + m <= a + n));
  out(13, (b <= a) & (a + n <= b + m)); out(14, (b <= a) & (a + n <= b + m)); out(15, (b <= a) & (a + n <= b + 4));
}
#define Q L a, L n, L s, L x, L b, L m
#define ASK(id, v, A, N) IMPL(id)(Q) { ask(v, x, b, m); } SPEC(id)(Q) { told(A, N, x, b, m); }
ASK(iv_0, (interval<4>(4, n)), 4, n)
ASK(iv_1, (interval<-7>(-7, n)), -7, n)
ASK(iv_2, (interval<0>(0, n)), 0, n)
ASK(iv_3, (interval<dynamic, 1>(a)), a, 1)
ASK(iv_4, (interval<dynamic, 2>(a)), a, 2)
ASK(iv_5, (interval<dynamic, 10>(a)), a, 10)
ASK(iv_6, (interval<5, 1>()), 5, 1)
ASK(iv_7, (interval<0, 1>()), 0, 1)
ASK(iv_8, (interval<-2, 6>()), -2, 6)
ASK(iv_9, (interval<>(a)), a, 1)
ASK(dm_0, (dim<4>(4, n, s)), 4, n)
ASK(dm_1, (dense_dim<>(a, n)), a, n)
ASK(dm_2, (broadcast_dim<>(a, n)), a, n)
ASK(dm_3, (strided_dim<-3>(a, n)), a, n)
ASK(dm_4, (fixed_dim<1>(a, 1, s)), a, 1)
ASK(dm_5, (fixed_dim<6, 2>(a, 6)), a, 6)
ASK(dm_6, (dim<1, 1, 1>()), 1, 1)
ASK(dm_7, (dim<-2, 5>(-2, 5, s)), -2, 5)
ASK(dm_8, (dim<3, dynamic, 5>(3, n)), 3, n)
ASK(dm_9, (dim<dynamic, 8, 0>(a, 8)), a, 8)
// clamping into intervals and dims with parts known at compile time
#define LIM(lo, hi) mn(mx(x, lo), hi)
IMPL(clampst)(L x, L a, L n) {
  ASSUME(n >= 1); out(0, clamp(x, interval<4>(4, n))); out(1, clamp(x, interval<dynamic, 1>(a))); out(2, clamp(x, interval<dynamic, 6>(a))); out(3, clamp(x, interval<-2, 6>())); out(4, clamp(x, dense_dim<>(a, n))); out(5, clamp(x, fixed_dim<5, 3>(a, 5))); out(6, clamp(x, dim<-2, 1, 0>())); out(7, clamp(x, broadcast_dim<>(a, n))); out(8, clamp(x, dim<7>(7, n, -2))); out(9, clamp(x, strided_dim<4>(a, n)));
}
SPEC(clampst)(L x, L a, L n) {
  ASSUME(n >= 1); out(0, LIM(4, n + 3)); out(1, a); out(2, LIM(a, a + 5)); out(3, LIM(-2, 3)); out(4, LIM(a, a + n - 1)); out(5, LIM(a, a + 4)); out(6, -2); out(7, LIM(a, a + n - 1)); out(8, LIM(7, n + 6)); out(9, LIM(a, a + n - 1));
}
// equality between all the ways of stating an interval
template <class I> static void eqs(const I& v, L b, L m) {
  out(0, v == interval<>(b, m)); out(1, v == interval<4>(4, m)); out(3, v == interval<dynamic, 1>(b)); out(4, v == interval<dynamic, 6>(b)); out(5, v == interval<4, 6>());
  out(10, v != interval<>(b, m)); out(11, v != interval<-7>(-7, m)); out(14, v != interval<dynamic, 6>(b)); out(16, v != interval<-7, 1>());
}
static void eqd(L a, L n, L b, L m) {
  out(0, (a == b) & (n == m)); out(1, (a == 4) & (n == m)); out(3, (a == b) & (n == 1)); out(4, (a == b) & (n == 6)); out(5, (a == 4) & (n == 6));
  out(10, (a != b) | (n != m)); out(11, (a != -7) | (n != m)); out(14, (a != b) | (n != 6)); out(16, (a != -7) | (n != 1));
}
#define EQS(id, v, A, N) IMPL(id)(Q) { eqs(v, b, m); } SPEC(id)(Q) { eqd(A, N, b, m); }
EQS(eqiv_0, (interval<>(a, n)), a, n)
EQS(eqiv_1, (interval<4>(4, n)), 4, n)
EQS(eqiv_2, (interval<dynamic, 6>(a)), a, 6)
EQS(eqiv_3, (interval<dynamic, 1>(a)), a, 1)
EQS(eqiv_4, (interval<4, 6>()), 4, 6)
EQS(eqiv_5, (interval<-7, 6>()), -7, 6)
// equality between dims: bounds and strides, each known at compile time or not
template <class D> static void deqs(const D& v, L b, L m, L t) {
  out(0, v == dim<>(b, m, t)); out(2, v == dense_dim<>(b, m)); out(5, v == fixed_dim<6>(b, 6, t)); out(6, v == dim<4, 6, 3>()); out(9, v == dim<4, dynamic, 0>(4, m));
  out(11, v != dim<4>(4, m, t)); out(14, v != strided_dim<3>(b, m)); out(17, v != dim<dynamic, 6, 1>(b, 6));
}
static void deqd(L a, L n, L s, L b, L m, L t) {
  out(0, (a == b) & (n == m) & (s == t)); out(2, (a == b) & (n == m) & (s == 1)); out(5, (a == b) & (n == 6) & (s == t)); out(6, (a == 4) & (n == 6) & (s == 3)); out(9, (a == 4) & (n == m) & (s == 0));
  out(11, (a != 4) | (n != m) | (s != t)); out(14, (a != b) | (n != m) | (s != 3)); out(17, (a != b) | (n != 6) | (s != 1));
}
#define V L a, L n, L s, L b, L m, L t
#define DEQS(id, v, A, N, S) IMPL(id)(V) { deqs(v, b, m, t); } SPEC(id)(V) { deqd(A, N, S, b, m, t); }
DEQS(eqdm_0, (dim<>(a, n, s)), a, n, s)
DEQS(eqdm_1, (dim<4>(4, n, s)), 4, n, s)
DEQS(eqdm_2, (dense_dim<>(a, n)), a, n, 1)
DEQS(eqdm_3, (broadcast_dim<>(a, n)), a, n, 0)
DEQS(eqdm_4, (strided_dim<3>(a, n)), a, n, 3)
DEQS(eqdm_5, (fixed_dim<6>(a, 6, s)), a, 6, s)
DEQS(eqdm_6, (dim<4, 6, 3>()), 4, 6, 3)
DEQS(eqdm_7, (dim<dynamic, 6, 1>(a, 6)), a, 6, 1)
DEQS(eqdm_8, (dim<4, 6>(4, 6, s)), 4, 6, s)
DEQS(eqdm_9, (dim<4, dynamic, 0>(4, n)), 4, n, 0)
