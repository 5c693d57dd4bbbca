// modes: ndebug assert
// thorough: ndebug17
// array<> accessors: base is one allocation of exactly flat_extent elements, offset by -flat_min.
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
template <class S> using A = array<T, S, vf_alloc<T>>;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
#define PRE ASSUME(n >= 1 && m >= 1 && n <= 100000000 && m <= 100000000); ASSUME(s != unresolved && t != unresolved)
IMPL(arr2)(L a, L n, L s, L b, L m, L t, L x, L y) {
  PRE;
  A<shape_of_rank<2>> v(shape_of_rank<2>({a, n, s}, {b, m, t}));
  const auto& c = v;
  outp(0, &v(x, y)); outp(1, &v[std::make_tuple(x, y)]); outp(2, &c(x, y)); outp(3, &c[std::make_tuple(x, y)]);
  outp(4, v.base()); outp(5, c.base()); outp(6, v.data()); outp(7, c.data());
  outp(8, &v.ref()(x, y)); outp(9, &v.cref()(x, y)); outp(10, &c.ref()(x, y));
}
SPEC(arr2)(L a, L n, L s, L b, L m, L t, L x, L y) {
  PRE;
  L fmin = (n - 1) * mn(s, 0) + (m - 1) * mn(t, 0), fmax = (n - 1) * mx(s, 0) + (m - 1) * mx(t, 0);
  T* d = (T*)al_alloc(fmax - fmin + 1); ASSUME(d != nullptr);
  T* base = d - fmin; T* e = base + (x - a) * s + (y - b) * t;
  outp(0, e); outp(1, e); outp(2, e); outp(3, e);
  outp(4, base); outp(5, base); outp(6, d); outp(7, d);
  outp(8, e); outp(9, e); outp(10, e);
  al_free(d, fmax - fmin + 1);
}
// dense shape, compile-time mins
IMPL(arrdense)(L a, L n, L m, L x, L y) {
  ASSUME(n >= 1 && m >= 1);
  A<dense_shape<2>> v(dense_shape<2>(dense_dim<>(a, n), m));
  outp(0, &v(x, y)); outp(1, v.data());
}
SPEC(arrdense)(L a, L n, L m, L x, L y) {
  ASSUME(n >= 1 && m >= 1);
  T* d = (T*)al_alloc(n * m); ASSUME(d != nullptr);
  outp(0, d + (x - a) + y * n); outp(1, d);
  al_free(d, n * m);
}
IMPL(arrfixed)(L x, L y, L z) {
  A<fixed_dense_shape<4, 3, 2>> v;
  outp(0, &v(x, y, z));
}
SPEC(arrfixed)(L x, L y, L z) {
  T* d = (T*)al_alloc(24); ASSUME(d != nullptr);
  outp(0, d + x + 4 * y + 12 * z);
  al_free(d, 24);
}
// rank 0
IMPL(arr0)() { A<shape<>> v; const auto& c = v; outp(0, &v()); outp(1, &c()); outp(2, v.data()); T& r = v; outp(3, &r); const T& q = c; outp(4, &q); }
SPEC(arr0)() { T* d = (T*)al_alloc(1); ASSUME(d != nullptr); outp(0, d); outp(1, d); outp(2, d); outp(3, d); outp(4, d); al_free(d, 1); }
