// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Every element is constructed once, before use, destroyed once; every allocation is freed once with its size, after the destructors.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
template <class S, class T = E> using A = array<T, S, lc_alloc<T>>;
typedef shape_of_rank<1> S1;
typedef shape_of_rank<2> S2;
#define FOR(i, n) for (L i = 0; i < (n); i++)
static E* al(L n) { E* p = (E*)al_alloc(n); ASSUME(p != nullptr); return p; }
#define P1 ASSUME(n >= 1)
IMPL(ctor1)(L a, L n) { P1; A<S1> x(S1(dim<>(a, n))); out(0, 1); }
SPECP(ctor1)(L a, L n) { P1; E* p = al(n); FOR(i, n) el_def(p + i); out(0, 1); FOR(i, n) el_dtor(p + i); al_free(p, n); }
IMPL(fill1)(const E& e, L a, L n) { P1; A<S1> x(S1(dim<>(a, n)), e); out(0, 1); }
SPECP(fill1)(const E& e, L a, L n) { P1; E* p = al(n); FOR(i, n) el_cc(p + i, &e); out(0, 1); FOR(i, n) el_dtor(p + i); al_free(p, n); }
// padded (gaps are never constructed), negative strides
#define P2 ASSUME(n >= 1 && m >= 1 && t >= n && t <= 1000000)
IMPL(pad2)(L a, L n, L b, L m, L t) { P2; A<S2> x(S2({a, n, 1}, {b, m, t})); out(0, 1); }
SPECP(pad2)(L a, L n, L b, L m, L t) { P2; L e = n + (m - 1) * t; E* p = al(e); FOR(j, m) FOR(i, n) el_def(p + i + j * t); out(0, 1); FOR(j, m) FOR(i, n) el_dtor(p + i + j * t); al_free(p, e); }
IMPL(neg2)(L n, L m) { ASSUME(n >= 1 && m >= 1); A<S2> x(S2({0, n, -1}, {0, m, -n})); out(0, 1); }
SPECP(neg2)(L n, L m) { ASSUME(n >= 1 && m >= 1); L e = n * m; E* p = al(e); FOR(j, m) FOR(i, n) el_def(p + (m - 1 - j) * n + (n - 1 - i)); out(0, 1); FOR(j, m) FOR(i, n) el_dtor(p + (m - 1 - j) * n + (n - 1 - i)); al_free(p, e); }
IMPL(dense3)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); A<dense_shape<3>> x(dense_shape<3>(n, m, o)); out(0, 1); }
SPECP(dense3)(L n, L m, L o) { ASSUME(n >= 2 && m >= 2 && o >= 2); E* p = al(n * m * o); FOR(i, n * m * o) el_def(p + i); out(0, 1); FOR(i, n * m * o) el_dtor(p + i); al_free(p, n * m * o); }
IMPL(fixed)() { A<fixed_dense_shape<3, 2>> x; out(0, 1); }
SPECP(fixed)() { E* p = al(6); FOR(i, 6) el_def(p + i); out(0, 1); FOR(i, 6) el_dtor(p + i); al_free(p, 6); }
IMPL(scalar)() { A<shape<>> x; out(0, 1); }
SPECP(scalar)() { E* p = al(1); el_def(p); out(0, 1); el_dtor(p); al_free(p, 1); }
IMPL(matrix)(L n, L m) { ASSUME(n >= 1 && m >= 1); nda::matrix<E, dynamic, dynamic, lc_alloc<E>> x({n, m}); out(0, 1); }
SPECP(matrix)(L n, L m) { ASSUME(n >= 1 && m >= 1); E* p = al(n * m); FOR(i, n) FOR(j, m) el_def(p + i * m + j); out(0, 1); FOR(i, n) FOR(j, m) el_dtor(p + i * m + j); al_free(p, n * m); }
IMPL(chunky)(L w, L h) { ASSUME(w >= 2 && h >= 2); array<E, chunky_image_shape<3, 4>, lc_alloc<E>> x(chunky_image_shape<3, 4>(w, h, {})); out(0, 1); }
SPECP(chunky)(L w, L h) { ASSUME(w >= 2 && h >= 2); L e = ((w - 1) * 4 + (h - 1) * w * 4 + 2) + 1; E* p = al(e); FOR(y, h) FOR(x, w) FOR(c, 3) el_def(p + x * 4 + y * w * 4 + c); out(0, 1); FOR(y, h) FOR(x, w) FOR(c, 3) el_dtor(p + x * 4 + y * w * 4 + c); al_free(p, e); }
// empty arrays own nothing
IMPL(empty)(const E& e, L a, L n) { ASSUME(n >= 0); A<S2> x; A<S1> y(S1(dim<>(a, 0))); A<S1> z(S1(dim<>(a, 0)), e); A<S1> w(lc_alloc<E>{}); out(0, x.base() == nullptr); out(1, y.base() == nullptr); out(2, x.empty() && y.empty() && z.empty() && w.empty()); x.clear(); y.clear(); }
SPECP(empty)(const E& e, L a, L n) { ASSUME(n >= 0); out(0, 1); out(1, 1); out(2, 1); }
// assign: same shape reuses the storage, another shape reallocates
IMPL(assignv)(const E& e, L n, L m, L a) { ASSUME(n >= 1 && m >= 1); A<S1> x(S1{n}); out(0, 1); x.assign(S1(dim<>(a, m)), e); out(1, 1); }
SPECP(assignv)(const E& e, L n, L m, L a) {
  ASSUME(n >= 1 && m >= 1); E* p = al(n); FOR(i, n) el_def(p + i); out(0, 1); FOR(i, n) el_dtor(p + i);
  if (a != 0 || n != m) { al_free(p, n); p = al(m); }
  FOR(i, m) el_cc(p + i, &e); out(1, 1); FOR(i, m) el_dtor(p + i); al_free(p, m);
}
IMPL(assignc)(L n, L m, L a) { ASSUME(n >= 1 && m >= 1); A<S1> x(S1{n}), y(S1(dim<>(a, m))); out(0, 1); x.assign(y); out(1, 1); }
SPECP(assignc)(L n, L m, L a) {
  ASSUME(n >= 1 && m >= 1); E* p = al(n); FOR(i, n) el_def(p + i); E* q = al(m); FOR(i, m) el_def(q + i); out(0, 1); FOR(i, n) el_dtor(p + i);
  if (a != 0 || n != m) { al_free(p, n); p = al(m); }
  FOR(i, m) el_cc(p + i, q + i); out(1, 1); FOR(i, m) el_dtor(q + i); al_free(q, m); FOR(i, m) el_dtor(p + i); al_free(p, m);
}
IMPL(assignm)(L n, L m, L a) { ASSUME(n >= 1 && m >= 1); A<S1> x(S1{n}), y(S1(dim<>(a, m))); out(0, 1); x.assign(std::move(y)); out(1, 1); }
SPECP(assignm)(L n, L m, L a) {
  ASSUME(n >= 1 && m >= 1); E* p = al(n); FOR(i, n) el_def(p + i); E* q = al(m); FOR(i, m) el_def(q + i); out(0, 1); FOR(i, n) el_dtor(p + i);
  if (a != 0 || n != m) { al_free(p, n); p = al(m); }
  FOR(i, m) el_mc(p + i, q + i); out(1, 1); FOR(i, m) el_dtor(q + i); al_free(q, m); FOR(i, m) el_dtor(p + i); al_free(p, m);
}
IMPL(assignempty)(L n) { ASSUME(n >= 1); A<S1> x(S1{n}), y; out(0, 1); x.assign(y); out(1, x.base() == nullptr && x.empty()); }
SPECP(assignempty)(L n) { ASSUME(n >= 1); E* p = al(n); FOR(i, n) el_def(p + i); out(0, 1); FOR(i, n) el_dtor(p + i); al_free(p, n); out(1, 1); }
IMPL(clear)(L n) { ASSUME(n >= 1); A<S1> x(S1{n}); out(0, 1); x.clear(); out(1, x.base() == nullptr && x.empty() && x.x().min() == 0 && x.x().extent() == 0); }
SPECP(clear)(L n) { ASSUME(n >= 1); E* p = al(n); FOR(i, n) el_def(p + i); out(0, 1); FOR(i, n) el_dtor(p + i); al_free(p, n); out(1, 1); }
IMPL(clearfixed)() { A<fixed_dense_shape<2>> x; out(0, 1); x.clear(); out(1, x.x().extent()); }
SPECP(clearfixed)() { E* p = al(2); FOR(i, 2) el_def(p + i); out(0, 1); FOR(i, 2) el_dtor(p + i); al_free(p, 2); p = al(2); FOR(i, 2) el_def(p + i); out(1, 2); FOR(i, 2) el_dtor(p + i); al_free(p, 2); }
// make_array
IMPL(make)(const E& e, L n) { P1; auto x = make_array<E>(S1{n}, lc_alloc<E>()); out(0, 1); auto y = make_array<E>(S1{n}, e, lc_alloc<E>()); out(1, 1); }
SPECP(make)(const E& e, L n) { P1; E* p = al(n); FOR(i, n) el_def(p + i); out(0, 1); E* q = al(n); FOR(i, n) el_cc(q + i, &e); out(1, 1); FOR(i, n) el_dtor(q + i); al_free(q, n); FOR(i, n) el_dtor(p + i); al_free(p, n); }
// an allocator that keeps the books: whatever is taken is given back with its size, also for shapes without elements whose strides span storage
template <class T> struct bk_alloc {
  using value_type = T; L* c; T* buf;
  explicit bk_alloc(L* c = nullptr, T* b = nullptr) : c(c), buf(b) {}
  T* allocate(std::size_t n) { *c += (L)n; return buf; }
  void deallocate(T*, std::size_t n) { *c -= (L)n; }
  friend bool operator==(const bk_alloc& a, const bk_alloc& b) { return a.c == b.c; } friend bool operator!=(const bk_alloc& a, const bk_alloc& b) { return !(a == b); }
};
#define BK ASSUME(buf != nullptr && s >= 1 && s < 1000 && t != unresolved && m >= 2)
IMPL(books_e1)(E* buf, L a, L b, L m, L s, L t) { BK; L c = 0; { array<E, S2, bk_alloc<E>> x(S2({a, 0, s}, {b, m, t}), bk_alloc<E>(&c, buf)); out(0, x.empty()); } out(1, c); }
SPEC(books_e1)(E* buf, L a, L b, L m, L s, L t) { BK; out(0, 1); out(1, 0); }
IMPL(books_e2)(E* buf, const E& e, L a, L b, L m, L s, L t) { BK; L c = 0; { array<E, S2, bk_alloc<E>> x(S2({a, m, s}, {b, 0, t}), e, bk_alloc<E>(&c, buf)); out(0, x.size()); } out(1, c); }
SPEC(books_e2)(E* buf, const E& e, L a, L b, L m, L s, L t) { BK; out(0, 0); out(1, 0); }
IMPL(books_e3)(E* buf, const E& e, L m, L t) { ASSUME(buf != nullptr && t != unresolved && m >= 2); L c = 0; array<E, S2, bk_alloc<E>> x(S2({0, 0, 1}, {0, m, t}), bk_alloc<E>(&c, buf)); x.clear(); out(1, c); x.assign(S2({0, m, 1}, {0, 0, t}), e); x.clear(); out(2, c); }
SPEC(books_e3)(E* buf, const E& e, L m, L t) { ASSUME(buf != nullptr && t != unresolved && m >= 2); out(1, 0); out(2, 0); }
IMPL(books_reuse)(E* buf, L m, L t) {
  ASSUME(buf != nullptr && m >= 0 && t != unresolved); L c = 0; { array<E, S2, bk_alloc<E>> x(S2({0, 0, 1}, {0, m, t}), bk_alloc<E>(&c, buf)), y(S2({0, 0, 1}, {0, 0, 1}), bk_alloc<E>(&c, buf)); x = y; swap(x, y); y = std::move(x); y.reshape(S2({3, 0, 1}, {4, 5, 1})); out(0, y.empty()); } out(1, c); }
SPEC(books_reuse)(E* buf, L m, L t) { ASSUME(buf != nullptr && m >= 0 && t != unresolved); out(0, 1); out(1, 0); }
// trivial elements: the allocator's own construct and destroy still see each of them once
template <class T> struct ob_alloc {
  using value_type = T;
  T* allocate(std::size_t n) { T* p = (T*)al_alloc(n); ASSUME(p != nullptr); return p; }
  void deallocate(T* p, std::size_t n) { al_free(p, n); }
  void construct(T* p) { el_def(p); } void construct(T* p, const T&) { el_set(p); } void destroy(T* p) { el_dtor(p); }
  friend bool operator==(const ob_alloc&, const ob_alloc&) { return true; } friend bool operator!=(const ob_alloc&, const ob_alloc&) { return false; }
};
IMPL(trivial)(L n, L m, L t) { P2; array<double, S2, ob_alloc<double>> x(S2({0, n, 1}, {0, m, t})); out(0, 1); }
SPECP(trivial)(L n, L m, L t) { P2; L e = n + (m - 1) * t; double* p = (double*)al_alloc(e); ASSUME(p != nullptr); FOR(j, m) FOR(i, n) el_def(p + i + j * t); out(0, 1); FOR(j, m) FOR(i, n) el_dtor(p + i + j * t); al_free(p, e); }
IMPL(trivialv)(L n, double v) { P1; array<double, S1, ob_alloc<double>> x(S1{n}, v); out(0, 1); x.clear(); out(1, 1); }
SPECP(trivialv)(L n, double v) { P1; double* p = (double*)al_alloc(n); ASSUME(p != nullptr); FOR(i, n) el_set(p + i); out(0, 1); FOR(i, n) el_dtor(p + i); al_free(p, n); out(1, 1); }
// a shape with the same indices but other strides is another shape
IMPL(assignstr)(const E& e, L n, L m, L t, L u) { P2; ASSUME(u >= n && u <= 1000000 && n >= 2 && m >= 2); A<S2> x(S2({0, n, 1}, {0, m, t})); out(0, 1); x.assign(S2({0, n, 1}, {0, m, u}), e); out(1, x.dim<1>().stride()); }
SPECP(assignstr)(const E& e, L n, L m, L t, L u) {
  P2; ASSUME(u >= n && u <= 1000000 && n >= 2 && m >= 2); L f = n + (m - 1) * t, g = n + (m - 1) * u; E* p = al(f); FOR(j, m) FOR(i, n) el_def(p + i + j * t); out(0, 1); FOR(j, m) FOR(i, n) el_dtor(p + i + j * t);
  if (t != u) { al_free(p, f); p = al(g); }
  FOR(j, m) FOR(i, n) el_cc(p + i + j * u, &e); out(1, u); FOR(j, m) FOR(i, n) el_dtor(p + i + j * u); al_free(p, g);
}
