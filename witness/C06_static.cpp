// modes: ndebug assert
// thorough: ndebug17
// Automatic strides when some bounds and strides are known at compile time: the same rule as at run time.
#include "array/array.h"
#include "vf.h"
using namespace nda;
static L mx(L a, L b) { return a > b ? a : b; }
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void dmv(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
// one unknown stride U beside one known stride K: stride 1 if U fits below K, else just above K's span
template <class U, class K> static void pair(const U& u, const K& k) {
  shape<U, K> h(u, k); h.resolve(); dm(0, h.template dim<0>()); dm(3, h.template dim<1>());
  shape<K, U> g(k, u); g.resolve(); dm(10, g.template dim<1>()); dm(13, g.template dim<0>()); out(20, h.is_resolved()); out(21, g.is_resolved());
}
static void pair(L a, L n, L b, L m, L t) {
  L at = t < 0 ? -t : t, s = n <= at ? 1 : mx(1, m * at);
  dmv(0, a, n, s); dmv(3, b, m, t); dmv(10, a, n, s); dmv(13, b, m, t); out(20, 1); out(21, 1);
}
#define PAIR(id, u, A, N, k, B, M, S) IMPL(id)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 2 && m < 1000000000); ASSUME(t > 0 && t < 1000000); pair(u, k); } SPEC(id)(L a, L n, L b, L m, L t) { ASSUME(n >= 2 && m >= 2 && m < 1000000000); ASSUME(t > 0 && t < 1000000); pair(A, N, B, M, S); }
PAIR(p0, (dim<>(a, n)), a, n, (dim<>(b, m, t)), b, m, t)
PAIR(p1, (dim<>(a, n)), a, n, (dense_dim<>(b, m)), b, m, 1)
PAIR(p2, (dim<>(a, n)), a, n, (strided_dim<4>(b, m)), b, m, 4)
PAIR(p3, (dim<>(a, n)), a, n, (strided_dim<-4>(b, m)), b, m, -4)
PAIR(p4, (dim<>(a, n)), a, n, (broadcast_dim<>(b, m)), b, m, 0)
PAIR(p5, (dim<>(a, n)), a, n, (fixed_dim<6, 3>(b, 6)), b, 6, 3)
PAIR(p6, (dim<>(a, n)), a, n, (dim<dynamic, 6>(b, 6, t)), b, 6, t)
PAIR(p7, (dim<>(a, n)), a, n, (dim<2>(2, m, t)), 2, m, t)
PAIR(p8, (dim<>(a, n)), a, n, (dim<2, 5, 7>()), 2, 5, 7)
PAIR(p9, (dim<>(a, n)), a, n, (dim<-2, 5, -7>()), -2, 5, -7)
PAIR(p10, (dim<3>(3, n)), 3, n, (dim<>(b, m, t)), b, m, t)
PAIR(p11, (dim<dynamic, 4>(a, 4)), a, 4, (dim<>(b, m, t)), b, m, t)
PAIR(p12, (dim<3, 4>()), 3, 4, (dim<>(b, m, t)), b, m, t)
PAIR(p13, (dim<3, 4>()), 3, 4, (dense_dim<>(b, m)), b, m, 1)
PAIR(p14, (dim<3, 4>()), 3, 4, (strided_dim<4>(b, m)), b, m, 4)
PAIR(p15, (dim<3, 4>()), 3, 4, (strided_dim<-3>(b, m)), b, m, -3)
PAIR(p16, (dim<dynamic, 7>(a, 7)), a, 7, (dim<2, 5, 7>()), 2, 5, 7)
PAIR(p17, (dim<dynamic, 8>(a, 8)), a, 8, (dim<2, 5, 7>()), 2, 5, 7)
PAIR(p18, (dim<dynamic, 8>(a, 8)), a, 8, (dim<2, 5, -7>()), 2, 5, -7)
PAIR(p19, (dim<5>(5, n)), 5, n, (dim<0, dynamic, 9>(0, m)), 0, m, 9)
PAIR(p20, (dim<>(a, n)), a, n, (dim<dynamic, 2>(b, 2, t)), b, 2, t)
PAIR(p21, (dim<dynamic, 2>(a, 2)), a, 2, (dim<>(b, m, t)), b, m, t)
PAIR(p22, (dim<dynamic, 2>(a, 2)), a, 2, (strided_dim<2>(b, m)), b, m, 2)
PAIR(p23, (dim<>(a, n)), a, n, (fixed_dim<2, 1>(b, 2)), b, 2, 1)
PAIR(p24, (dim<>(a, n)), a, n, (fixed_dim<2, -5>(b, 2)), b, 2, -5)
// every stride unknown, some bounds known: cumulative products
template <class A, class B, class C> static void trio(const A& a, const B& b, const C& c) { shape<A, B, C> h(a, b, c); h.resolve(); dm(0, h.template dim<0>()); dm(3, h.template dim<1>()); dm(6, h.template dim<2>()); }
static void trio(L a, L n, L b, L m, L c, L o) { dmv(0, a, n, 1); dmv(3, b, m, n); dmv(6, c, o, n * m); }
#define TRIO(id, x, A, N, y, B, M, z, C, O) IMPL(id)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2 && m < 1000000000); trio(x, y, z); } SPEC(id)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2 && m < 1000000000); trio(A, N, B, M, C, O); }
TRIO(t0, (dim<4>(4, n)), 4, n, (dim<>(b, m)), b, m, (dim<>(c, o)), c, o)
TRIO(t1, (dim<>(a, n)), a, n, (dim<dynamic, 3>(b, 3)), b, 3, (dim<>(c, o)), c, o)
TRIO(t2, (dim<dynamic, 2>(a, 2)), a, 2, (dim<1>(1, m)), 1, m, (dim<0, 5>()), 0, 5)
TRIO(t3, (dim<2, 3>()), 2, 3, (dim<dynamic, 2>(b, 2)), b, 2, (dim<>(c, o)), c, o)
TRIO(t4, (dense_dim<>(a, n)), a, n, (dim<2, 3>()), 2, 3, (dim<7>(7, o)), 7, o)
TRIO(t5, (dense_dim<1, 4>()), 1, 4, (dim<>(b, m)), b, m, (dim<dynamic, 6>(c, 6)), c, 6)
TRIO(t6, (fixed_dim<5, 1>(a, 5)), a, 5, (strided_dim<5>(b, m)), b, m, (dim<>(c, o)), c, o)
TRIO(t7, (fixed_dim<5, 1>(a, 5)), a, 5, (dim<>(b, m)), b, m, (dim<>(c, o)), c, o)
// dims of extent zero or one never push the others apart more than their (clamped) span
IMPL(unit)(L a, L n, L b) { ASSUME(n >= 2); shape<fixed_dim<1>, dim<>> h(fixed_dim<1>(a, 1), dim<>(b, n)); h.resolve(); dm(0, h.dim<0>()); dm(3, h.dim<1>()); shape<dim<>, dim<>> g(dim<>(a, 1), dim<>(b, n)); g.resolve(); dm(6, g.dim<0>()); dm(9, g.dim<1>()); shape<dim<>, fixed_dim<1>> k(dim<>(b, n), fixed_dim<1>(a, 1)); k.resolve(); dm(12, k.dim<0>()); dm(15, k.dim<1>()); }
SPEC(unit)(L a, L n, L b) { ASSUME(n >= 2); dmv(0, a, 1, 1); dmv(3, b, n, 1); dmv(6, a, 1, 1); dmv(9, b, n, 1); dmv(12, b, n, 1); dmv(15, a, 1, n); }
// one unknown stride beside two known ones: the smallest candidate clear of both
static bool clear(L c, L n, L m, L t) { return (n * c <= t) | (m * t <= c); }
template <class U, class K, class J> static void among(const U& u, const K& k, const J& j) {
  shape<U, K, J> h(u, k, j); h.resolve(); out(0, h.template dim<0>().stride()); out(1, h.template dim<1>().stride()); out(2, h.template dim<2>().stride());
  shape<K, U, J> g(k, u, j); g.resolve(); out(3, g.template dim<1>().stride()); shape<K, J, U> f(k, j, u); f.resolve(); out(4, f.template dim<2>().stride());
}
static void among(L n, L m, L t, L o, L w) {
  L at = t < 0 ? -t : t, aw = w < 0 ? -w : w, c1 = mx(1, m * at), c2 = mx(1, o * aw), lo = c1 < c2 ? c1 : c2, hi = c1 < c2 ? c2 : c1;
  L s = clear(1, n, m, at) & clear(1, n, o, aw) ? 1 : clear(lo, n, m, at) & clear(lo, n, o, aw) ? lo : hi;
  out(0, s); out(1, t); out(2, w); out(3, s); out(4, s);
}
#define AMONG(id, u, N, k, M, S, j, O, W) IMPL(id)(L a, L n, L m, L t, L o, L w) { ASSUME(n >= 2 && m >= 2 && o >= 2 && m < 1000000 && o < 1000000 && n < 1000000); ASSUME(t > 0 && t < 1000000 && w > 0 && w < 1000000); among(u, k, j); } \
  SPEC(id)(L a, L n, L m, L t, L o, L w) { ASSUME(n >= 2 && m >= 2 && o >= 2 && m < 1000000 && o < 1000000 && n < 1000000); ASSUME(t > 0 && t < 1000000 && w > 0 && w < 1000000); among(N, M, S, O, W); }
AMONG(a0, (dim<>(n)), n, (dense_dim<>(a, m)), m, 1, (strided_dim<100>(a, o)), o, 100)
AMONG(a1, (dim<dynamic, 3>(a, 3)), 3, (dense_dim<>(a, m)), m, 1, (fixed_dim<2, 3>(a, 2)), 2, 3)
AMONG(a2, (dim<dynamic, 3>(a, 3)), 3, (fixed_dim<5, 1>(a, 5)), 5, 1, (strided_dim<-3>(a, o)), o, -3)
AMONG(a3, (dim<dynamic, 2>(a, 2)), 2, (fixed_dim<5, -1>(a, 5)), 5, -1, (dim<2>(2, 2, t)), 2, t)
AMONG(a4, (dim<dynamic, 4>(a, 4)), 4, (dim<dynamic, 3>(a, 3, t)), 3, t, (dim<1, 2, 12>()), 2, 12)
AMONG(a5, (dim<>(n)), n, (dense_dim<0, 4>()), 4, 1, (dim<0, 2, -12>()), 2, -12)
AMONG(a6, (dim<>(n)), n, (dense_dim<0, 4>()), 4, 1, (dim<>(a, 3, t)), 3, t)
// a dim of one element never shares its stride with a longer dim
static void lone(L a, L b, L m, L t) {
  L at = t < 0 ? -t : t, s = at == 1 ? m : 1;
  dmv(0, a, 1, s); dmv(3, b, m, t); dmv(10, a, 1, s); dmv(13, b, m, t); out(20, 1); out(21, 1);
}
#define LONE(id, u, A, k, B, M, S) IMPL(id)(L a, L b, L m, L t) { ASSUME(m >= 2 && m < 1000000000); ASSUME(t > -1000000 && t < 1000000); pair(u, k); } SPEC(id)(L a, L b, L m, L t) { ASSUME(m >= 2 && m < 1000000000); ASSUME(t > -1000000 && t < 1000000); lone(A, B, M, S); }
LONE(l0, (dim<>(a, 1)), a, (dim<>(b, m, t)), b, m, t)
LONE(l1, (fixed_dim<1>(a, 1)), a, (dim<>(b, m, t)), b, m, t)
LONE(l2, (dim<>(a, 1)), a, (dense_dim<>(b, m)), b, m, 1)
LONE(l3, (dim<3, 1>()), 3, (strided_dim<-1>(b, m)), b, m, -1)
LONE(l4, (dim<>(a, 1)), a, (strided_dim<-1>(b, m)), b, m, -1)
LONE(l5, (fixed_dim<1>(a, 1)), a, (fixed_dim<4, 2>(b, 4)), b, 4, 2)
LONE(l6, (fixed_dim<1>(a, 1)), a, (dim<2, 5, -1>()), 2, 5, -1)
LONE(l7, (dim<2>(2, 1)), 2, (fixed_dim<4>(b, 4, t)), b, 4, t)
LONE(l8, (dim<2>(2, 1)), 2, (broadcast_dim<>(b, m)), b, m, 0)
IMPL(lone_both)(L a, L t) { ASSUME(t > 0 && t < 1000000); shape_of_rank<2> h({a, 1}, {a, 1, t}); h.resolve(); dm(0, h.dim<0>()); dm(3, h.dim<1>()); shape<dim<>, fixed_dim<1, -1>> g({a, 1}, {a, 1}); g.resolve(); dm(6, g.dim<0>()); }
SPEC(lone_both)(L a, L t) { ASSUME(t > 0 && t < 1000000); dmv(0, a, 1, 1); dmv(3, a, 1, t); dmv(6, a, 1, 1); }
IMPL(lone3)(L a, L n, L m) { ASSUME(n >= 2 && m >= 2 && n < 1000000 && m < 1000000); shape_of_rank<3> h({a, n, -1}, {a, 1}, {a, m, n}); h.resolve(); out(0, h.dim<1>().stride()); shape_of_rank<3> g({a, n}, {a, 1}, {a, m}); g.resolve(); out(1, g.dim<0>().stride()); out(2, g.dim<1>().stride()); out(3, g.dim<2>().stride()); }
SPEC(lone3)(L a, L n, L m) { ASSUME(n >= 2 && m >= 2 && n < 1000000 && m < 1000000); out(0, n * m); out(1, 1); out(2, n); out(3, n); }
