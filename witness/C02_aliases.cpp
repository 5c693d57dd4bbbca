// modes: ndebug assert
// thorough: ndebug17
// Every name for a dimension, on shapes, views and owning arrays, mutable and const.
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
typedef shape_of_rank<4> S4;
typedef array<T, S4, vf_alloc<T>> A4;
#define P4 L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L q, L v
#define PRE ASSUME(n >= 1 && m >= 1 && o >= 1 && q >= 1 && s > 0 && t > 0 && u > 0 && v > 0 && s != unresolved && t != unresolved && u != unresolved && v != unresolved)
#define F4 S4({a, n, s}, {b, m, t}, {c, o, u}, {d, q, v})
template <class D> void obs(int k, const D& d) { out(k, d.min()); out(k, d.extent()); out(k, d.stride()); out(k, d.max()); }
static void ref(int k, L a, L n, L s) { out(k, a); out(k, n); out(k, s); out(k, a + n - 1); }
template <class X> void all_of(X& x) {
  obs(0, x.i()); obs(1, x.j()); obs(2, x.k()); obs(3, x.x()); obs(4, x.y()); obs(5, x.z()); obs(6, x.c()); obs(7, x.w());
  obs(8, x.template dim<0>()); obs(9, x.template dim<1>()); obs(10, x.template dim<2>()); obs(11, x.template dim<3>());
  out(12, x.width()); out(13, x.height()); out(14, x.channels()); out(15, x.rows()); out(16, x.columns());
  obs(17, x.dim(0)); obs(18, x.dim(1)); obs(19, x.dim(2)); obs(20, x.dim(3));
  auto bs = x.bounds();
  obs(21, bs.template dim<0>()); obs(22, bs.template dim<1>()); obs(23, bs.template dim<2>()); obs(24, bs.template dim<3>());
  out(25, x.size()); out(26, x.empty()); out(27, X::rank()); out(28, X::is_scalar());
}
static void spec_all(bool e, L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L q, L v) {
  ref(0, a, n, s); ref(1, b, m, t); ref(2, c, o, u); ref(3, a, n, s); ref(4, b, m, t); ref(5, c, o, u); ref(6, c, o, u); ref(7, d, q, v);
  ref(8, a, n, s); ref(9, b, m, t); ref(10, c, o, u); ref(11, d, q, v);
  out(12, n); out(13, m); out(14, o); out(15, n); out(16, m);
  ref(17, a, n, s); ref(18, b, m, t); ref(19, c, o, u); ref(20, d, q, v);
  ref(21, a, n, unresolved); ref(22, b, m, unresolved); ref(23, c, o, unresolved); ref(24, d, q, unresolved);
  out(25, n * m * o * q); out(26, e); out(27, 4); out(28, 0);
}
IMPL(shape4)(P4) { PRE; S4 h = F4; all_of(h); const S4& ch = h; all_of(ch); }
SPEC(shape4)(P4) { PRE; spec_all(false, a, n, s, b, m, t, c, o, u, d, q, v); spec_all(false, a, n, s, b, m, t, c, o, u, d, q, v); }
IMPL(ref4)(T* p, P4) { PRE; array_ref<T, S4> h(p, F4); all_of(h); const array_ref<T, S4>& ch = h; all_of(ch); }
SPEC(ref4)(T* p, P4) { PRE; spec_all(p == nullptr, a, n, s, b, m, t, c, o, u, d, q, v); spec_all(p == nullptr, a, n, s, b, m, t, c, o, u, d, q, v); }
#define PA ASSUME(s > 0 && t > 2 * s && u > 3 * t && v > 4 * u && s != unresolved && t != unresolved && u != unresolved && v != unresolved); const L n = 2, m = 3, o = 4, q = 5
IMPL(arr4)(L a, L s, L b, L t, L c, L u, L d, L v) { PA; A4 h(F4); all_of(h); out(30, h.is_compact()); }
SPEC(arr4)(L a, L s, L b, L t, L c, L u, L d, L v) {
  PA; L e = s + 2 * t + 3 * u + 4 * v + 1; T* z = (T*)al_alloc(e); ASSUME(z != nullptr);
  spec_all(false, a, n, s, b, m, t, c, o, u, d, q, v); out(30, e <= 120); al_free(z, e);
}
IMPL(carr4)(L a, L s, L b, L t, L c, L u, L d, L v) { PA; const A4 h(F4); all_of(h); out(30, h.is_compact()); out(31, h.shape() == F4); }
SPEC(carr4)(L a, L s, L b, L t, L c, L u, L d, L v) {
  PA; L e = s + 2 * t + 3 * u + 4 * v + 1; T* z = (T*)al_alloc(e); ASSUME(z != nullptr);
  spec_all(false, a, n, s, b, m, t, c, o, u, d, q, v); out(30, e <= 120); out(31, 1); al_free(z, e);
}
// an empty array keeps its metrics
IMPL(arr0)(L a, L n, L b) { ASSUME(n >= 1); array<T, shape_of_rank<2>, vf_alloc<T>> h(shape_of_rank<2>({a, n, 1}, {b, 0, 1})); out(0, h.size()); out(1, h.empty()); out(2, h.width()); out(3, h.height()); out(4, h.rows()); out(5, h.columns()); out(6, h.base() == nullptr); out(7, h.data() == nullptr); }
SPEC(arr0)(L a, L n, L b) { ASSUME(n >= 1); bool al = n - 1 >= 1; T* z = nullptr; if (al) { z = (T*)al_alloc(n - 1); ASSUME(z != nullptr); } out(0, 0); out(1, 1); out(2, n); out(3, 0); out(4, n); out(5, 0); out(6, !al); out(7, !al); if (al) al_free(z, n - 1); }
// dims reached through a mutable shape or view are the dims themselves
#define SET(k, acc) h.acc.set_min(k)
IMPL(mutshape)(P4) {
  PRE; S4 h = F4; h.i().set_min(100); h.j().set_min(101); h.k().set_min(102); h.w().set_min(103); obs(0, h.template dim<0>()); obs(1, h.template dim<1>()); obs(2, h.template dim<2>()); obs(3, h.template dim<3>());
  h.x().set_extent(104); h.y().set_extent(105); h.z().set_extent(106); obs(4, h.template dim<0>()); obs(5, h.template dim<1>()); obs(6, h.template dim<2>());
  h.c().set_stride(7); h.template dim<1>().set_stride(8); std::get<0>(h.dims()).set_stride(9); obs(7, h.template dim<2>()); obs(8, h.template dim<1>()); obs(9, h.template dim<0>());
}
SPEC(mutshape)(P4) {
  PRE; ref(0, 100, n, s); ref(1, 101, m, t); ref(2, 102, o, u); ref(3, 103, q, v); ref(4, 100, 104, s); ref(5, 101, 105, t); ref(6, 102, 106, u); ref(7, 102, 106, 7); ref(8, 101, 105, 8); ref(9, 100, 104, 9);
}
IMPL(mutref)(T* p, P4) {
  PRE; array_ref<T, S4> h(p, F4); h.i().set_min(100); h.j().set_min(101); h.k().set_min(102); h.w().set_min(103); obs(0, h.template dim<0>()); obs(1, h.template dim<1>()); obs(2, h.template dim<2>()); obs(3, h.template dim<3>());
  h.x().set_extent(104); h.y().set_extent(105); h.z().set_extent(106); obs(4, h.template dim<0>()); obs(5, h.template dim<1>()); obs(6, h.template dim<2>());
  h.c().set_stride(7); h.template dim<1>().set_stride(8); h.shape().template dim<0>().set_stride(9); obs(7, h.template dim<2>()); obs(8, h.template dim<1>()); obs(9, h.template dim<0>());
  outp(10, h.base());
}
SPEC(mutref)(T* p, P4) {
  PRE; ref(0, 100, n, s); ref(1, 101, m, t); ref(2, 102, o, u); ref(3, 103, q, v); ref(4, 100, 104, s); ref(5, 101, 105, t); ref(6, 102, 106, u); ref(7, 102, 106, 7); ref(8, 101, 105, 8); ref(9, 100, 104, 9); outp(10, p);
}
// compile-time parameters
typedef shape<dim<3, 4, 2>, dense_dim<dynamic, 5>, broadcast_dim<1>> SS;
IMPL(stat)(L b, L o) { ASSUME(o >= 1); SS h({}, {b, 5}, {1, o}); obs(0, h.i()); obs(1, h.j()); obs(2, h.k()); out(3, h.size()); out(4, h.flat_extent()); out(5, h.flat_min()); out(6, h.flat_max()); auto g = h.bounds(); obs(7, g.i()); obs(8, g.j()); obs(9, g.k()); obs(10, h.dim(0)); obs(11, h.dim(2)); }
SPEC(stat)(L b, L o) { ASSUME(o >= 1); ref(0, 3, 4, 2); ref(1, b, 5, 1); ref(2, 1, o, 0); out(3, 20 * o); out(4, 11); out(5, 0); out(6, 10); ref(7, 3, 4, unresolved); ref(8, b, 5, unresolved); ref(9, 1, o, unresolved); ref(10, 3, 4, 2); ref(11, 1, o, 0); }
