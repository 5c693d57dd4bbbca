// modes: ndebug assert
// thorough: ndebug17 ndebug20
// copy, move, fill, generate, transform: every destination element, the source element with the same indices, nothing else.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
template <class S, class T = E> using A = array<T, S, vf_alloc<T>>;
#define FOR(i, n) for (L i = 0; i < (n); i++)
static bool in(L x, L a, L n) { return a <= x && x < a + n; }
#define P1 ASSUME(p != nullptr && q != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved)
IMPL(copy1)(const E* p, E* q, L a, L n, L s, L b, L m, L t) { P1; const_array_ref_of_rank<E, 1> x(p, shape_of_rank<1>(dim<>(a, n, s))); array_ref_of_rank<E, 1> y(q, shape_of_rank<1>(dim<>(b, m, t))); copy(x, y); }
SPECU(copy1)(const E* p, E* q, L a, L n, L s, L b, L m, L t) { P1; if (m == 0) return; REQUIRE(in(b, a, n) && in(b + m - 1, a, n)); FOR(i, m) el_ca(q + i * t, p + (b + i - a) * s); }
IMPL(move1)(E* p, E* q, L a, L n, L s, L b, L m, L t) { P1; array_ref_of_rank<E, 1> x(p, shape_of_rank<1>(dim<>(a, n, s))), y(q, shape_of_rank<1>(dim<>(b, m, t))); nda::move(x, y); }
SPECU(move1)(E* p, E* q, L a, L n, L s, L b, L m, L t) { P1; if (m == 0) return; REQUIRE(in(b, a, n) && in(b + m - 1, a, n)); FOR(i, m) el_ma(q + i * t, p + (b + i - a) * s); }
#define P2 ASSUME(p != nullptr && q != nullptr && s != unresolved && t != unresolved && u != unresolved && v != unresolved && n >= 1 && m >= 1 && x >= a && y >= b && w >= 0 && h >= 0 && x + w <= a + n && y + h <= b + m)
#define A2 L a, L n, L s, L b, L m, L t, L x, L w, L u, L y, L h, L v
#define R2 shape_of_rank<2>({a, n, s}, {b, m, t})
#define Q2 shape_of_rank<2>({x, w, u}, {y, h, v})
IMPL(copy2)(const E* p, E* q, A2) { P2; const_array_ref_of_rank<E, 2> f(p, R2); array_ref_of_rank<E, 2> g(q, Q2); copy(f, g); }
SPECU(copy2)(const E* p, E* q, A2) { P2; FOR(j, h) FOR(i, w) el_ca(q + i * u + j * v, p + (x + i - a) * s + (y + j - b) * t); }
IMPL(move2)(E* p, E* q, A2) { P2; array_ref_of_rank<E, 2> f(p, R2), g(q, Q2); nda::move(f, g); }
SPECU(move2)(E* p, E* q, A2) { P2; FOR(j, h) FOR(i, w) el_ma(q + i * u + j * v, p + (x + i - a) * s + (y + j - b) * t); }
// rank 3, dense source and padded destination
#define P3 ASSUME(p != nullptr && q != nullptr && n >= 1 && m >= 1 && o >= 1 && t != unresolved && u != unresolved)
IMPL(copy3)(const E* p, E* q, L n, L m, L o, L t, L u) { P3; const_array_ref_of_rank<E, 3> f(p, shape_of_rank<3>(n, m, o)); array_ref<E, dense_shape<3>> g(q, dense_shape<3>(n, dim<>(0, m, t), dim<>(0, o, u))); copy(f, g); }
SPECU(copy3)(const E* p, E* q, L n, L m, L o, L t, L u) { P3; FOR(k, o) FOR(j, m) FOR(i, n) el_ca(q + i + j * t + k * u, p + i + j * n + k * n * m); }
// layout change: planar to chunky
IMPL(layout)(const E* p, E* q, L w, L h) { ASSUME(p != nullptr && q != nullptr && w >= 2 && h >= 2); const_planar_image_ref<E> f(p, planar_image_shape(w, h, 3)); chunky_image_ref<E, 3> g(q, chunky_image_shape<3>(w, h, {})); copy(f, g); }
SPECU(layout)(const E* p, E* q, L w, L h) { ASSUME(p != nullptr && q != nullptr && w >= 2 && h >= 2); FOR(y, h) FOR(x, w) FOR(c, 3) el_ca(q + x * 3 + y * w * 3 + c, p + x + y * w + c * w * h); }
IMPL(fixed)(const E* p, E* q) { ASSUME(p != nullptr && q != nullptr); const_array_ref<E, fixed_dense_shape<4, 3>> f(p); matrix_ref<E, 2, 3> g(q, matrix_shape<2, 3>(dim<dynamic, 2>(1, 2), dense_dim<dynamic, 3>(0, 3))); copy(f, g); }
SPECU(fixed)(const E* p, E* q) { ASSUME(p != nullptr && q != nullptr); FOR(i, 2) FOR(j, 3) el_ca(q + i * 3 + j, p + (i + 1) + j * 4); }
IMPL(scalar)(const E* p, E* q) { ASSUME(p != nullptr && q != nullptr); const_array_ref<E, shape<>> f(p); array_ref<E, shape<>> g(q); copy(f, g); array_ref<E, shape<>> f2(const_cast<E*>(p)); nda::move(f2, g); }
SPEC(scalar)(const E* p, E* q) { ASSUME(p != nullptr && q != nullptr); el_ca(q, p); el_ma(q, p); }
// array / array_ref overloads all reach the same elements
IMPL(over)(E* q, L n) {
  ASSUME(n >= 1 && q != nullptr); A<shape_of_rank<1>> x(shape_of_rank<1>{n}), y(shape_of_rank<1>{n}); array_ref_of_rank<E, 1> r(q, shape_of_rank<1>{n});
  copy(x, y); copy(x, r); copy(r, y); nda::move(x, y); nda::move(x, r); nda::move(r, y);
}
SPEC(over)(E* q, L n) {
  ASSUME(n >= 1 && q != nullptr); E* x = (E*)al_alloc(n); ASSUME(x != nullptr); E* y = (E*)al_alloc(n); ASSUME(y != nullptr);
  FOR(i, n) el_ca(y + i, x + i); FOR(i, n) el_ca(q + i, x + i); FOR(i, n) el_ca(y + i, q + i);
  FOR(i, n) el_ma(y + i, x + i); FOR(i, n) el_ma(q + i, x + i); FOR(i, n) el_ma(y + i, q + i);
  al_free(y, n); al_free(x, n);
}
// copies into new arrays keep mins and extents; compact copies have no padding
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
#define PM ASSUME(p != nullptr && n >= 2 && m >= 2 && s >= 1 && t >= 1 && s <= 1000000 && t <= 1000000)
IMPL(mkcopy)(const E* p, L a, L n, L s, L b, L m, L t) { PM; const_array_ref_of_rank<E, 2> f(p, shape_of_rank<2>({a, n, s}, {b, m, t})); auto c = make_copy(f, vf_alloc<E>()); dm(0, c.x()); dm(3, c.y()); outp(9, c.base()); }
SPECU(mkcopy)(const E* p, L a, L n, L s, L b, L m, L t) { PM; L e = (n - 1) * s + (m - 1) * t + 1; E* q = (E*)al_alloc(e); ASSUME(q != nullptr); FOR(j, m) FOR(i, n) el_ca(q + i * s + j * t, p + i * s + j * t); out(0, a); out(1, n); out(2, s); out(3, b); out(4, m); out(5, t); outp(9, q); al_free(q, e); }
IMPL(mkcompact)(const E* p, L a, L n, L s, L b, L m, L t) { PM; const_array_ref_of_rank<E, 2> f(p, shape_of_rank<2>({a, n, s}, {b, m, t})); auto c = make_compact_copy(f, vf_alloc<E>()); dm(0, c.x()); dm(3, c.y()); outp(9, c.base()); }
SPECU(mkcompact)(const E* p, L a, L n, L s, L b, L m, L t) { PM; E* q = (E*)al_alloc(n * m); ASSUME(q != nullptr); FOR(j, m) FOR(i, n) el_ca(q + i + j * n, p + i * s + j * t); out(0, a); out(1, n); out(2, 1); out(3, b); out(4, m); out(5, n); outp(9, q); al_free(q, n * m); }
IMPL(mkmove)(E* p, L a, L n, L s, L b, L m, L t) { PM; array_ref_of_rank<E, 2> f(p, shape_of_rank<2>({a, n, s}, {b, m, t})); auto c = make_compact_move(f, vf_alloc<E>()); dm(0, c.x()); dm(3, c.y()); outp(9, c.base()); }
SPECU(mkmove)(E* p, L a, L n, L s, L b, L m, L t) { PM; E* q = (E*)al_alloc(n * m); ASSUME(q != nullptr); FOR(j, m) FOR(i, n) el_ma(q + i + j * n, p + i * s + j * t); out(0, a); out(1, n); out(2, 1); out(3, b); out(4, m); out(5, n); outp(9, q); al_free(q, n * m); }
IMPL(mkshape)(const E* p, L n, L m) { ASSUME(p != nullptr && n >= 3 && m >= 3); const_array_ref_of_rank<E, 2> f(p, shape_of_rank<2>(n, m)); auto c = make_copy(f, matrix_shape<>(dim<>(1, n - 1), dense_dim<>(1, m - 1)), vf_alloc<E>()); dm(0, c.i()); dm(3, c.j()); }
SPECU(mkshape)(const E* p, L n, L m) { ASSUME(p != nullptr && n >= 3 && m >= 3); E* q = (E*)al_alloc((n - 1) * (m - 1)); ASSUME(q != nullptr); FOR(i, n - 1) FOR(j, m - 1) el_ca(q + i * (m - 1) + j, p + i + 1 + (j + 1) * n); out(0, 1); out(1, n - 1); out(2, m - 1); out(3, 1); out(4, m - 1); out(5, 1); al_free(q, (n - 1) * (m - 1)); }
// fill, generate, transform
#define PF ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved && t != unresolved)
#define F2 shape_of_rank<2>({a, n, s}, {b, m, t})
IMPL(fill2)(double* p, double x, L a, L n, L s, L b, L m, L t) { PF; array_ref_of_rank<double, 2> r(p, F2); fill(r, x); }
SPECU(fill2)(double* p, double x, L a, L n, L s, L b, L m, L t) { PF; FOR(j, m) FOR(i, n) p[i * s + j * t] = x; }
IMPL(gen2)(E* p, L a, L n, L s, L b, L m, L t) { PF; array_ref_of_rank<E, 2> r(p, F2); generate(r, []() { visit0(); return vf_tok(); }); }
SPECU(gen2)(E* p, L a, L n, L s, L b, L m, L t) { PF; FOR(j, m) FOR(i, n) { visit0(); el_set(p + i * s + j * t); } }
IMPL(gen1)(double* p, L n) { ASSUME(p != nullptr && n >= 0); array_ref_of_rank<double, 1> r(p, shape_of_rank<1>{n}); double x = 0; generate(r, [&]() { return x += 1.0; }); }
SPEC(gen1)(double* p, L n) { ASSUME(p != nullptr && n >= 0); double x = 0; FOR(i, n) p[i] = x += 1.0; }
IMPL(tri)(E* p, L a, L n, L s, L b, L m, L t) { PF; array_ref_of_rank<E, 2> r(p, F2); transform_index(r, [](const index_of_rank<2>& i) { return vf_idx{std::get<0>(i), std::get<1>(i)}; }); }
SPECU(tri)(E* p, L a, L n, L s, L b, L m, L t) { PF; FOR(j, m) FOR(i, n) el_set2(p + i * s + j * t, a + i, b + j); }
IMPL(tris)(E* p, L a, L n, L s, L b, L m, L t) { PF; array_ref_of_rank<E, 2> r(p, F2); transform_indices(r, [](L i, L j) { return vf_idx{i, j}; }); }
SPECU(tris)(E* p, L a, L n, L s, L b, L m, L t) { PF; FOR(j, m) FOR(i, n) el_set2(p + i * s + j * t, a + i, b + j); }
IMPL(owned)(double x, L n) { ASSUME(n >= 1); A<shape_of_rank<1>, double> r(shape_of_rank<1>{n}); fill(r, x); generate(r, [&]() { return x; }); }
SPEC(owned)(double x, L n) { ASSUME(n >= 1); double* p = (double*)al_alloc(n); ASSUME(p != nullptr); FOR(i, n) p[i] = x; FOR(i, n) p[i] = x; al_free(p, n); }
// the copy- and move-making forms allocate the result from the allocator they are given, or from a default
// constructed one of the right type
typedef st_alloc<double, true, true, true> ST;
typedef shape_of_rank<1> R1;
static double* arn(L id, L n) { double* p = (double*)ar_alloc(id, n); ASSUME(p != nullptr); return p; }
static void cpd(double* q, const double* p, L n) { FOR(i, n) q[i] = p[i]; }
#define RF array_ref_of_rank<double, 1> f(p, R1(dim<>(a, n, 1)))
#define PA ASSUME(p != nullptr && n >= 2)
#define ZERO(q, n) FOR(i, n) q[i] = 0
IMPL(ma1)(double* p, L a, L n, L id) { PA; RF; auto c = make_copy(f, ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(ma1)(double* p, L a, L n, L id) { PA; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); out(1, id); ar_free(id, q, n); }
IMPL(ma2)(double* p, L a, L n, L id) { PA; RF; auto c = make_copy(f, R1(dim<>(a + 1, n - 1)), ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); out(2, c.dim<0>().min()); }
SPEC(ma2)(double* p, L a, L n, L id) { PA; double* q = arn(id, n - 1); ZERO(q, n - 1); cpd(q, p + 1, n - 1); outp(0, q); out(1, id); out(2, a + 1); ar_free(id, q, n - 1); }
IMPL(ma3)(double* p, L a, L n, L id) { PA; RF; auto c = make_compact_copy(f, ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(ma3)(double* p, L a, L n, L id) { PA; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); out(1, id); ar_free(id, q, n); }
IMPL(ma4)(double* p, L a, L n, L id) { PA; RF; auto c = make_move(f, R1(dim<>(a + 1, n - 1)), ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(ma4)(double* p, L a, L n, L id) { PA; double* q = arn(id, n - 1); ZERO(q, n - 1); cpd(q, p + 1, n - 1); outp(0, q); out(1, id); ar_free(id, q, n - 1); }
IMPL(ma5)(double* p, L a, L n, L id) { PA; RF; auto c = make_compact_move(f, ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(ma5)(double* p, L a, L n, L id) { PA; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); out(1, id); ar_free(id, q, n); }
// from owning arrays
#define OWN array<double, R1, ST> x(R1(dim<>(a, n)), ST(7))
#define PO ASSUME(n >= 2)
#define SOWN double* p = arn(7, n); ZERO(p, n)
IMPL(mo1)(L a, L n, L id) { PO; OWN; auto c = make_copy(x, ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(mo1)(L a, L n, L id) { PO; SOWN; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); out(1, id); ar_free(id, q, n); ar_free(7, p, n); }
IMPL(mo2)(L a, L n, L id) { PO; OWN; auto c = make_copy(x, R1(dim<>(a + 1, n - 1)), ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(mo2)(L a, L n, L id) { PO; SOWN; double* q = arn(id, n - 1); ZERO(q, n - 1); cpd(q, p + 1, n - 1); outp(0, q); out(1, id); ar_free(id, q, n - 1); ar_free(7, p, n); }
IMPL(mo3)(L a, L n, L id) { PO; OWN; auto c = make_compact_copy(x, ST(id)); outp(0, c.base()); auto d = make_compact_move(x, ST(id)); outp(1, d.base()); }
SPEC(mo3)(L a, L n, L id) { PO; SOWN; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); double* r = arn(id, n); ZERO(r, n); cpd(r, p, n); outp(1, r); ar_free(id, r, n); ar_free(id, q, n); ar_free(7, p, n); }
IMPL(mo4)(L a, L n, L id) { PO; OWN; auto c = make_move(x, R1(dim<>(a + 1, n - 1)), ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(mo4)(L a, L n, L id) { PO; SOWN; double* q = arn(id, n - 1); ZERO(q, n - 1); cpd(q, p + 1, n - 1); outp(0, q); out(1, id); ar_free(id, q, n - 1); ar_free(7, p, n); }
IMPL(mo5)(L a, L n, L id) { PO; OWN; auto c = make_compact_move(std::move(x), ST(id)); outp(0, c.base()); out(1, c.get_allocator().id); }
SPEC(mo5)(L a, L n, L id) { PO; SOWN; double* q = arn(id, n); ZERO(q, n); cpd(q, p, n); outp(0, q); out(1, id); ar_free(id, q, n); ar_free(7, p, n); }
IMPL(mk)(L a, L n, L id, double v) { PO; auto x = make_array<double>(R1(dim<>(a, n)), ST(id)); outp(0, x.base()); out(1, x.get_allocator().id); auto y = make_array<double>(R1(dim<>(a, n)), v, ST(id)); outp(2, y.base()); out(3, y.get_allocator().id); }
SPEC(mk)(L a, L n, L id, double v) { PO; double* p = arn(id, n); ZERO(p, n); outp(0, p); out(1, id); double* q = arn(id, n); FOR(i, n) q[i] = v; outp(2, q); out(3, id); ar_free(id, q, n); ar_free(id, p, n); }
