// modes: ndebug assert
// thorough: ndebug17
// Every kind of index applied to every kind of dimension (each of min, extent, stride known at compile time or not).
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); out(k + 3, D::Min); out(k + 4, D::Extent); out(k + 5, D::Stride); }
static void dmv(int k, L a, L n, L s, L A, L N, L S) { out(k, a); out(k + 1, n); out(k + 2, s); out(k + 3, A); out(k + 4, N); out(k + 5, S); }
// the dimension under test is the first or the second of two; the other is kept or sliced
#define Q T *p, L a, L n, L s, L b, L m, L t, L i, L k
#define NN ASSUME(p != nullptr && s != unresolved && t != unresolved)
template <class D> static void every(T* p, const D& d, const dim<>& e, L i, L k) {
  array_ref<T, shape<D, dim<>>> r(p, shape<D, dim<>>(d, e)); array_ref<T, shape<dim<>, D>> q(p, shape<dim<>, D>(e, d));
#define ONE(K, X) { auto v = r(X, k); dm(K, v.template dim<0>()); outp(K + 6, v.base()); auto w = q(_, X); dm(K + 7, w.template dim<1>()); outp(K + 13, w.base()); out(K + 14, w.template dim<0>().min()); }
  ONE(0, _) ONE(20, (interval<>(i, k))) ONE(40, (interval<3>(3, k))) ONE(60, (interval<dynamic, 1>(i))) ONE(80, (interval<dynamic, 6>(i))) ONE(100, (interval<-2, 5>())) ONE(120, (range(i, k))) ONE(140, (range<2>(i)))
  ONE(160, (dim<>(i, k, 99))) ONE(180, (dim<4, 3, 99>())) ONE(200, (dim<1, dynamic, 0>(1, k))) ONE(220, (fixed_dim<1>(i, 1, 7))) ONE(240, (fixed_interval<9>(i))) ONE(260, (interval<0, 1>()))
  auto x = r(i, _); dm(300, x.template dim<0>()); outp(306, x.base()); auto y = q(_, i); dm(310, y.template dim<0>()); outp(316, y.base());
#undef ONE
}
static void every(T* p, L a, L n, L s, L A, L N, L S, const dim<>& e, L i, L k) {
#define ONE(K, c, l, C, M) { L c_ = c; dmv(K, c_, l, s, C, M, S); outp(K + 6, p + (c_ - a) * s + (k - e.min()) * e.stride()); dmv(K + 7, c_, l, s, C, M, S); outp(K + 13, p + (c_ - a) * s); out(K + 14, e.min()); }
  ONE(0, a, n, A, N) ONE(20, i, k, dynamic, dynamic) ONE(40, 3, k, 3, dynamic) ONE(60, i, 1, dynamic, 1) ONE(80, i, 6, dynamic, 6) ONE(100, -2, 5, -2, 5) ONE(120, i, k - i, dynamic, dynamic) ONE(140, i, 2, dynamic, 2)
  ONE(160, i, k, dynamic, dynamic) ONE(180, 4, 3, 4, 3) ONE(200, 1, k, 1, dynamic) ONE(220, i, 1, dynamic, 1) ONE(240, i, 9, dynamic, 9) ONE(260, 0, 1, 0, 1)
  dmv(300, e.min(), e.extent(), e.stride(), dynamic, dynamic, dynamic); outp(306, p + (i - a) * s); dmv(310, e.min(), e.extent(), e.stride(), dynamic, dynamic, dynamic); outp(316, p + (i - a) * s);
#undef ONE
}
#define EVERY(id, d, A, N, S, sA, sN, sS) IMPL(id)(Q) { NN; every(p, d, dim<>(b, m, t), i, k); } SPEC(id)(Q) { NN; every(p, A, N, S, sA, sN, sS, dim<>(b, m, t), i, k); }
EVERY(d0, (dim<>(a, n, s)), a, n, s, dynamic, dynamic, dynamic)
EVERY(d1, (dim<5>(5, n, s)), 5, n, s, 5, dynamic, dynamic)
EVERY(d2, (dim<0>(0, n, s)), 0, n, s, 0, dynamic, dynamic)
EVERY(d3, (dim<dynamic, 8>(a, 8, s)), a, 8, s, dynamic, 8, dynamic)
EVERY(d4, (dim<dynamic, 1>(a, 1, s)), a, 1, s, dynamic, 1, dynamic)
EVERY(d5, (dense_dim<>(a, n)), a, n, 1, dynamic, dynamic, 1)
EVERY(d6, (broadcast_dim<>(a, n)), a, n, 0, dynamic, dynamic, 0)
EVERY(d7, (strided_dim<-3>(a, n)), a, n, -3, dynamic, dynamic, -3)
EVERY(d8, (strided_dim<12>(a, n)), a, n, 12, dynamic, dynamic, 12)
EVERY(d9, (fixed_dim<8, 3>(a, 8)), a, 8, 3, dynamic, 8, 3)
EVERY(d10, (dim<-6, 20, 1>()), -6, 20, 1, -6, 20, 1)
EVERY(d11, (dim<-6, 20>(-6, 20, s)), -6, 20, s, -6, 20, dynamic)
EVERY(d12, (dim<2, dynamic, 0>(2, n)), 2, n, 0, 2, dynamic, 0)
EVERY(d13, (dense_dim<0>(0, n)), 0, n, 1, 0, dynamic, 1)
// shapes alone
template <class D> static void shp(const D& d, L i, L k) {
  shape<D, dim<>> h(d, dim<>(1, 2, 3)); auto v = h(interval<>(i, k), i); dm(0, v.template dim<0>()); auto w = h(_, i); dm(10, w.template dim<0>()); auto x = h(interval<2, 3>(), _); dm(20, x.template dim<0>()); dm(30, x.template dim<1>()); auto y = h[std::make_tuple(range<4>(i), k)]; dm(40, y.template dim<0>());
}
static void shp(L a, L n, L s, L A, L N, L S, L i, L k) { dmv(0, i, k, s, dynamic, dynamic, S); dmv(10, a, n, s, A, N, S); dmv(20, 2, 3, s, 2, 3, S); dmv(30, 1, 2, 3, dynamic, dynamic, dynamic); dmv(40, i, 4, s, dynamic, 4, S); }
#define SHP(id, d, A, N, S, sA, sN, sS) IMPL(id)(Q) { shp(d, i, k); } SPEC(id)(Q) { shp(A, N, S, sA, sN, sS, i, k); }
SHP(h0, (dim<>(a, n, s)), a, n, s, dynamic, dynamic, dynamic)
SHP(h1, (dim<5>(5, n, s)), 5, n, s, 5, dynamic, dynamic)
SHP(h2, (dim<dynamic, 8>(a, 8, s)), a, 8, s, dynamic, 8, dynamic)
SHP(h3, (dense_dim<>(a, n)), a, n, 1, dynamic, dynamic, 1)
SHP(h4, (dim<-6, 20, 7>()), -6, 20, 7, -6, 20, 7)
SHP(h5, (broadcast_dim<>(a, n)), a, n, 0, dynamic, dynamic, 0)
