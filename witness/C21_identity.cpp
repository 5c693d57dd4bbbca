// modes: ndebug assert
// thorough: ndebug17 ndebug20
// The function object that is called is the caller's own: its address is observed in every call, and copies and moves of it are observed too.
// The moving operations observe only element moves.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
#include "vf.h"
using namespace nda;
extern "C" { void visit1a(const void*, L); void visit2a(const void*, L, L); void visit3a(const void*, L, L, L); double vfp_g1(L); double vfp_g2(L, L); void out_gen(const void*); }
struct Cal {
  L pad;
  Cal(const Cal& o) { el_cc(this, &o); }
  Cal(Cal&& o) { el_mc(this, &o); }
  Cal& operator=(const Cal& o) { el_ca(this, &o); return *this; }
  Cal& operator=(Cal&& o) { el_ma(this, &o); return *this; }
  void operator()(L i) const { visit1a(this, i); }
  void operator()(L i, L j) const { visit2a(this, i, j); }
  void operator()(L i, L j, L k) const { visit3a(this, i, j, k); }
  void operator()(const std::tuple<L>& i) const { visit1a(this, std::get<0>(i)); }
  void operator()(const std::tuple<L, L>& i) const { visit2a(this, std::get<0>(i), std::get<1>(i)); }
  void operator()(const std::tuple<L, L, L>& i) const { visit3a(this, std::get<0>(i), std::get<1>(i), std::get<2>(i)); }
  void operator()(const double& x) const { touch2(this, &x); }
};
struct Mut {  // a stateful callable: every call increments the caller's counter
  L n;
  Mut(const Mut& o) { el_cc(this, &o); }
  Mut(Mut&& o) { el_mc(this, &o); }
  Mut& operator=(const Mut&) = delete;
  Mut& operator=(Mut&&) = delete;
  vf_idx operator()() { vf_idx r{n, 0}; n += 1; return r; }
  vf_idx operator()(const std::tuple<L>& i) { vf_idx r{n, std::get<0>(i)}; n += 1; return r; }
  vf_idx operator()(L i) { vf_idx r{n, i}; n += 1; return r; }
};
typedef shape_of_rank<1> S1; typedef shape_of_rank<2> S2; typedef shape_of_rank<3> S3;
#define FOR(i, n) for (L i = 0; i < (n); i++)
#define PF ASSUME(f != nullptr && p != nullptr && n >= 0 && m >= 0)
IMPL(ix1)(Cal* f, L a, L n) { ASSUME(f && n >= 0); for_each_index(S1(dim<>(a, n)), *f); for_all_indices(S1(dim<>(a, n)), *f); }
SPEC(ix1)(Cal* f, L a, L n) { ASSUME(f && n >= 0); FOR(i, n) visit1a(f, a + i); FOR(i, n) visit1a(f, a + i); }
IMPL(ix2)(Cal* f, L a, L n, L b, L m) { ASSUME(f && n >= 0 && m >= 0); for_each_index(S2(dim<>(a, n), dim<>(b, m)), *f); for_all_indices(S2(dim<>(a, n), dim<>(b, m)), *f); }
SPEC(ix2)(Cal* f, L a, L n, L b, L m) { ASSUME(f && n >= 0 && m >= 0); FOR(j, m) FOR(i, n) visit2a(f, a + i, b + j); FOR(j, m) FOR(i, n) visit2a(f, a + i, b + j); }
IMPL(lo2)(Cal* f, L a, L n, L b, L m) { ASSUME(f && n >= 0 && m >= 0); for_each_index<1, 0>(S2(dim<>(a, n), dim<>(b, m)), *f); for_all_indices<1, 0>(S2(dim<>(a, n), dim<>(b, m)), *f); }
SPEC(lo2)(Cal* f, L a, L n, L b, L m) { ASSUME(f && n >= 0 && m >= 0); FOR(i, n) FOR(j, m) visit2a(f, a + i, b + j); FOR(i, n) FOR(j, m) visit2a(f, a + i, b + j); }
IMPL(lo3)(Cal* f, L n, L m, L o) { ASSUME(f && n >= 0 && m >= 0 && o >= 0); for_all_indices<2, 0, 1>(S3(n, m, o), *f); }
SPEC(lo3)(Cal* f, L n, L m, L o) { ASSUME(f && n >= 0 && m >= 0 && o >= 0); FOR(j, m) FOR(i, n) FOR(k, o) visit3a(f, i, j, k); }
IMPL(inord)(Cal* f, double* p, L n, L m) { PF; for_each_index_in_order(S2(n, m), *f); for_each_value_in_order(S2({0, n, 1}, {0, m, n}), p, *f); }
SPEC(inord)(Cal* f, double* p, L n, L m) { PF; FOR(j, m) FOR(i, n) visit2a(f, i, j); FOR(j, m) FOR(i, n) touch2(f, p + i + j * n); }
IMPL(val)(Cal* f, double* p, L n, L m) { PF; dense_array_ref<double, 2>(p, dense_shape<2>(n, m)).for_each_value(*f); }
SPECU(val)(Cal* f, double* p, L n, L m) { PF; FOR(j, m) FOR(i, n) touch2(f, p + i + j * n); }
IMPL(vala)(Cal* f, L n, L m) { ASSUME(f && n >= 1 && m >= 1); array<double, S2, vf_alloc<double>> x(S2(n, m)); x.for_each_value(*f); const auto& c = x; c.for_each_value(*f); }
SPECU(vala)(Cal* f, L n, L m) { ASSUME(f && n >= 1 && m >= 1); double* p = (double*)al_alloc(n * m); ASSUME(p != nullptr); FOR(j, m) FOR(i, n) touch2(f, p + i + j * n); FOR(j, m) FOR(i, n) touch2(f, p + i + j * n); al_free(p, n * m); }
IMPL(img)(Cal* f, double* p, L n, L m) { PF; planar_image_ref<double>(p, planar_image_shape(n, m, 3)).for_each_value(*f); chunky_image_ref<double, 3>(p, chunky_image_shape<3>(n, m, {})).for_each_value(*f); }
SPECU(img)(Cal* f, double* p, L n, L m) { PF; FOR(c, 3) FOR(j, m) FOR(i, n) touch2(f, p + i + j * n + c * n * m); FOR(j, m) FOR(i, n) FOR(c, 3) touch2(f, p + c + i * 3 + j * 3 * n); }
IMPL(imgix)(Cal* f, double* p, L n, L m) { PF; for_each_index(planar_image_shape(n, m, 2), *f); for_all_indices(chunky_image_shape<2>(n, m, {}), *f); }
SPECU(imgix)(Cal* f, double* p, L n, L m) { PF; FOR(c, 2) FOR(j, m) FOR(i, n) visit3a(f, i, j, c); FOR(j, m) FOR(i, n) FOR(c, 2) visit3a(f, i, j, c); }
IMPL(mat)(Cal* f, double* p, L n, L m) { PF; matrix_ref<double>(p, matrix_shape<>(n, m)).for_each_value(*f); for_each_index(matrix_shape<>(n, m), *f); }
SPECU(mat)(Cal* f, double* p, L n, L m) { PF; FOR(i, n) FOR(j, m) touch2(f, p + j + i * m); FOR(i, n) FOR(j, m) visit2a(f, i, j); }
IMPL(zo)(Cal* f, L a, L b) { ASSUME(f); for_all_in_z_order(std::make_tuple(interval<>(a, 3), interval<>(b, 2)), *f); }
SPECU(zo)(Cal* f, L a, L b) { ASSUME(f); FOR(i, 3) FOR(j, 2) visit2a(f, a + i, b + j); }
// a generator with state: consecutive elements get consecutive states, and the caller's object ends up advanced
IMPL(gen)(Mut* f, E* p, L n) { ASSUME(f && p && n >= 0); f->n = 0; generate(array_ref_of_rank<E, 1>(p, S1(dim<>(0, n))), *f); out(0, f->n); }
SPEC(gen)(Mut* f, E* p, L n) { ASSUME(f && p && n >= 0); f->n = 0; FOR(i, n) { L k = f->n; f->n += 1; el_set2(p + i, k, 0); } out(0, f->n); }
IMPL(gena)(Mut* f, L n) { ASSUME(f && n >= 1); array<E, S1, vf_alloc<E>> x(S1(dim<>(0, n))); f->n = 0; generate(x, *f); out(0, f->n); }
SPEC(gena)(Mut* f, L n) { ASSUME(f && n >= 1); E* p = (E*)al_alloc(n); ASSUME(p != nullptr); f->n = 0; FOR(i, n) { L k = f->n; f->n += 1; el_set2(p + i, k, 0); } out(0, f->n); al_free(p, n); }
IMPL(tri)(Mut* f, E* p, L a, L n) { ASSUME(f && p && n >= 0); f->n = 0; transform_index(array_ref_of_rank<E, 1>(p, S1(dim<>(a, n))), *f); out(0, f->n); }
SPEC(tri)(Mut* f, E* p, L a, L n) { ASSUME(f && p && n >= 0); f->n = 0; FOR(i, n) { L k = f->n; f->n += 1; el_set2(p + i, k, a + i); } out(0, f->n); }
IMPL(tris)(Mut* f, E* p, L a, L n) { ASSUME(f && p && n >= 0); f->n = 0; transform_indices(array_ref_of_rank<E, 1>(p, S1(dim<>(a, n))), *f); out(0, f->n); }
SPEC(tris)(Mut* f, E* p, L a, L n) { ASSUME(f && p && n >= 0); f->n = 0; FOR(i, n) { L k = f->n; f->n += 1; el_set2(p + i, k, a + i); } out(0, f->n); }
// moving: the elements are moved, once each, and the rest of the source is left alone
template <class T> using V = array<T, S1, vf_alloc<T>>;
IMPL(mk)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1 && b >= a && b + m <= a + n); V<E> x(S1(dim<>(a, n))); auto y = make_move(x, S1(dim<>(b, m)), vf_alloc<E>()); outp(0, y.base()); }
SPECU(mk)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1 && b >= a && b + m <= a + n); E* x = (E*)al_alloc(n); ASSUME(x != nullptr); E* y = (E*)al_alloc(m); ASSUME(y != nullptr); FOR(i, m) el_ma(y + i, x + (b - a) + i); outp(0, y); al_free(y, m); al_free(x, n); }
IMPL(mkr)(E* x, L a, L n, L s, L b, L m) { ASSUME(x && n >= 1 && m >= 1 && s != unresolved && b >= a && b + m <= a + n); auto y = make_move(array_ref_of_rank<E, 1>(x, S1(dim<>(a, n, s))), S1(dim<>(b, m)), vf_alloc<E>()); outp(0, y.base()); }
SPECU(mkr)(E* x, L a, L n, L s, L b, L m) { ASSUME(x && n >= 1 && m >= 1 && s != unresolved && b >= a && b + m <= a + n); E* y = (E*)al_alloc(m); ASSUME(y != nullptr); FOR(i, m) el_ma(y + i, x + (b - a + i) * s); outp(0, y); al_free(y, m); }
IMPL(mkx)(L a, L n) { ASSUME(n >= 1); V<E> x(S1(dim<>(a, n))); auto y = make_move(std::move(x), S1(dim<>(a, n, 1)), vf_alloc<E>()); outp(0, y.base()); out(1, x.empty()); }
SPECU(mkx)(L a, L n) { ASSUME(n >= 1); E* x = (E*)al_alloc(n); ASSUME(x != nullptr); outp(0, x); out(1, 1); al_free(x, n); }
IMPL(mkc)(L n, L m, L s) { ASSUME(n >= 2 && m >= 1 && s > n && s < 1000000); array<E, S2, vf_alloc<E>> x(S2({0, n, 1}, {0, m, s})); auto y = make_compact_move(x, vf_alloc<E>()); outp(0, y.base()); }
SPECU(mkc)(L n, L m, L s) { ASSUME(n >= 2 && m >= 1 && s > n && s < 1000000); L e = n + (m - 1) * s; E* x = (E*)al_alloc(e); ASSUME(x != nullptr); E* y = (E*)al_alloc(n * m); ASSUME(y != nullptr); FOR(j, m) FOR(i, n) el_ma(y + i + j * n, x + i + j * s); outp(0, y); al_free(y, n * m); al_free(x, e); }
IMPL(mkcx)(L n, L m, L s) { ASSUME(n >= 2 && m >= 1 && s > n && s < 1000000); array<E, S2, vf_alloc<E>> x(S2({0, n, 1}, {0, m, s})); auto y = make_compact_move(std::move(x), vf_alloc<E>()); outp(0, y.base()); }
SPECU(mkcx)(L n, L m, L s) { ASSUME(n >= 2 && m >= 1 && s > n && s < 1000000); L e = n + (m - 1) * s; E* x = (E*)al_alloc(e); ASSUME(x != nullptr); E* y = (E*)al_alloc(n * m); ASSUME(y != nullptr); FOR(j, m) FOR(i, n) el_ma(y + i + j * n, x + i + j * s); outp(0, y); al_free(y, n * m); al_free(x, e); }
