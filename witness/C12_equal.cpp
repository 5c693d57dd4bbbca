// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Equality: same mins and extents (operator==: same shape) and no pair of corresponding elements that differs.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
struct Q { double v; friend bool operator!=(const Q& a, const Q& b) { return vfp_differs(&a, &b); } friend bool operator==(const Q& a, const Q& b) { return !vfp_differs(&a, &b); } };
template <class S, class T = Q> using A = array<T, S, vf_alloc<T>>;
#define FOR(i, n) for (L i = 0; i < (n); i++)
typedef const_array_ref_of_rank<Q, 1> R1;
typedef const_array_ref_of_rank<Q, 2> R2;
typedef shape_of_rank<1> S1;
typedef shape_of_rank<2> S2;
#define PN ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved)
#define AN const Q *p, const Q *q, L a, L n, L s, L b, L m, L t
#define X1 R1 x(p, S1(dim<>(a, n, s))); R1 y(q, S1(dim<>(b, m, t)));
RIMPL(bool, eq1)(AN) { PN; X1 return equal(x, y); }
RSPEC(bool, eq1)(AN) { PN; if (a != b || n != m) return false; bool r = true; FOR(i, n) if (vfp_differs(p + i * s, q + i * t)) r = false; return r; }
RIMPL(bool, opne)(AN) { PN; X1 return x != y; }
RSPEC(bool, opne)(AN) { PN; if (a != b || n != m || s != t) return true; bool r = false; FOR(i, n) if (vfp_differs(p + i * s, q + i * s)) r = true; return r; }
RIMPL(bool, opeq)(AN) { PN; X1 return x == y; }
RSPEC(bool, opeq)(AN) { PN; if (a != b || n != m || s != t) return false; bool r = true; FOR(i, n) if (vfp_differs(p + i * s, q + i * s)) r = false; return r; }
// two dimensions; mins, extents and strides of both dimensions count
#define P2 ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && z >= 1)
#define A2 const Q *p, const Q *q, L a, L n, L b, L m, L c, L o, L d, L z
#define X2 R2 x(p, S2({a, n, 1}, {b, m, 1000})); R2 y(q, S2({c, o, 1}, {d, z, 2000}));
RIMPL(bool, eq2)(A2) { P2; ASSUME(n < 1000 && o < 1000); X2 return equal(x, y); }
RSPEC(bool, eq2)(A2) { P2; ASSUME(n < 1000 && o < 1000); if (a != c || b != d || n != o || m != z) return false; bool r = true; FOR(j, m) FOR(i, n) if (vfp_differs(p + i + j * 1000, q + i + j * 2000)) r = false; return r; }
#define X2S R2 x(p, S2({a, n, 1}, {b, m, 1000})); R2 y(q, S2({c, o, 1}, {d, z, 1000}));
RIMPL(bool, ne2)(A2) { P2; ASSUME(n < 1000 && o < 1000); X2S return x != y; }
RSPEC(bool, ne2)(A2) { P2; ASSUME(n < 1000 && o < 1000); if (a != c || b != d || n != o || m != z) return true; bool r = false; FOR(j, m) FOR(i, n) if (vfp_differs(p + i + j * 1000, q + i + j * 1000)) r = true; return r; }
RIMPL(bool, ne2s)(A2) { P2; X2 return x != y; }
RSPEC(bool, ne2s)(A2) { P2; return true; }
// different layouts of the same box: planar and chunky
RIMPL(bool, layout)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); const_array_ref<Q, fixed_dense_shape<2, 2>> x(p); const_array_ref<Q, shape<dim<0, 2, 2>, dim<0, 2, 1>>> y(q); return equal(x, y); }
RSPEC(bool, layout)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); return !(vfp_differs(p, q) || vfp_differs(p + 1, q + 2) || vfp_differs(p + 2, q + 1) || vfp_differs(p + 3, q + 3)); }
// scalars, empty arrays
RIMPL(bool, scalar)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); const_array_ref<Q, shape<>> x(p), y(q); return equal(x, y); }
RSPEC(bool, scalar)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); return !vfp_differs(p, q); }
RIMPL(bool, scalarne)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); const_array_ref<Q, shape<>> x(p), y(q); return x != y; }
RSPEC(bool, scalarne)(const Q* p, const Q* q) { ASSUME(p != nullptr && q != nullptr); return vfp_differs(p, q); }
RIMPL(bool, empty)(const Q* q, L n, L m) { ASSUME(q != nullptr && n >= 0 && m == 0); R2 x(nullptr, S2(n, m)), y(q, S2(n, m)); return equal(x, y) && x == x && !(y != y) && equal(y, x); }
RSPEC(bool, empty)(const Q* q, L n, L m) { ASSUME(q != nullptr && n >= 0 && m == 0); return true; }
// owned arrays, and mixes of arrays and refs
#define PO ASSUME(n >= 1 && m >= 1 && n <= 100000 && m <= 100000)
IMPL(owned)(L a, L n, L b, L m) { PO; A<S1> x(S1(dim<>(a, n))), y(S1(dim<>(b, m))); bool e = x == y; out(0, e); }
SPEC(owned)(L a, L n, L b, L m) { PO; Q* x = (Q*)al_alloc(n); ASSUME(x != nullptr); Q* y = (Q*)al_alloc(m); ASSUME(y != nullptr); bool r = a == b && n == m; if (r) FOR(i, n) if (vfp_differs(x + i, y + i)) r = false; out(0, r); al_free(y, m); al_free(x, n); }
IMPL(owned2)(L a, L n, L b, L m) { PO; A<S1> x(S1(dim<>(a, n))), y(S1(dim<>(b, m))); bool e = x != y; out(0, e); }
SPEC(owned2)(L a, L n, L b, L m) { PO; Q* x = (Q*)al_alloc(n); ASSUME(x != nullptr); Q* y = (Q*)al_alloc(m); ASSUME(y != nullptr); bool r = a != b || n != m; if (!r) FOR(i, n) if (vfp_differs(x + i, y + i)) r = true; out(0, r); al_free(y, m); al_free(x, n); }
IMPL(mixed)(const Q* q, L n, L m) { PO; ASSUME(q != nullptr); const A<S1> x(S1{n}); const_array_ref_of_rank<Q, 1> y(q, S1{m}); out(0, equal(x, y)); out(1, equal(y, x)); out(2, equal(x, x)); }
SPEC(mixed)(const Q* q, L n, L m) {
  PO; ASSUME(q != nullptr); Q* x = (Q*)al_alloc(n); ASSUME(x != nullptr);
  bool r = n == m; if (r) FOR(i, n) if (vfp_differs(x + i, q + i)) r = false; out(0, r);
  r = n == m; if (r) FOR(i, n) if (vfp_differs(q + i, x + i)) r = false; out(1, r);
  r = true; FOR(i, n) if (vfp_differs(x + i, x + i)) r = false; out(2, r); al_free(x, n);
}
// shapes
RIMPL(bool, shapes)(L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L z, L v) { return S2({a, n, s}, {b, m, t}) == S2({c, o, u}, {d, z, v}); }
RSPEC(bool, shapes)(L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L z, L v) { return a == c && n == o && s == u && b == d && m == z && t == v; }
RIMPL(bool, shapesne)(L n, L m, L t) { return dense_shape<2>(n, dim<>(0, m, t)) != S2({0, 4, 1}, {0, 5, 4}); }
RSPEC(bool, shapesne)(L n, L m, L t) { return !(n == 4 && m == 5 && t == 4); }
// an array equals itself only if its elements do
RIMPL(bool, selfne)(const Q* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); R1 x(p, S1(dim<>(a, n, s))); return x != x; }
RSPEC(bool, selfne)(const Q* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); bool r = false; FOR(i, n) if (vfp_differs(p + i * s, p + i * s)) r = true; return r; }
RIMPL(bool, selfeq)(const Q* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); R1 x(p, S1(dim<>(a, n, s))); return x == x; }
RSPEC(bool, selfeq)(const Q* p, L a, L n, L s) { ASSUME(p != nullptr && n >= 0 && s != unresolved); bool r = true; FOR(i, n) if (vfp_differs(p + i * s, p + i * s)) r = false; return r; }
