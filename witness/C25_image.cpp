// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Image and matrix helpers.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
static L mx(L a, L b) { return a > b ? a : b; }
static L mn(L a, L b) { return a < b ? a : b; }
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void sdm(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
template <class R> static void im(const R& r) { outp(0, r.base()); dm(1, r.x()); dm(4, r.y()); dm(7, r.c()); }
static void sim(const double* p, L a, L n, L s, L b, L m, L t, L c, L o, L u) { outp(0, p); sdm(1, a, n, s); sdm(4, b, m, t); sdm(7, c, o, u); }
#define D3 L a, L n, L s, L b, L m, L t, L c, L o, L u
#define PRE ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 1 && s != unresolved && t != unresolved && u != unresolved)
#define IM3 image_ref<double> r(p, image_shape({a, n, s}, {b, m, t}, {c, o, u}))
#define BOX L x0, L y0, L x1, L y1
#define CUT L X0 = mx(a, x0), Y0 = mx(b, y0), X1 = mn(a + n, x1), Y1 = mn(b + m, y1)
// crop: exactly the intersection of the box and the image, same coordinates, same elements; the box is arbitrary in one dim at a time
#define YIN ASSUME(b <= y0 && y0 < y1 && y1 <= b + m && n >= 1)
#define XIN ASSUME(a <= x0 && x0 < x1 && x1 <= a + n && m >= 1)
#define CROP(id, in, o1, MX, MY) \
  IMPL(id)(double* p, D3, BOX) { PRE; in; IM3; auto q = crop(r, x0, y0, x1, y1, o1); if (q.x().extent() <= 0 || q.y().extent() <= 0) out(99, 0); else im(q); } \
  SPEC(id)(double* p, D3, BOX) { PRE; in; CUT; if (X1 <= X0 || Y1 <= Y0) out(99, 0); else sim(p + (X0 - a) * s + (Y0 - b) * t, MX, X1 - X0, s, MY, Y1 - Y0, t, c, o, u); }
CROP(crop_x, YIN, crop_origin::crop, X0, Y0) CROP(crop_y, XIN, crop_origin::crop, X0, Y0)
// with origin zero only the coordinates change
CROP(crop_zero_x, YIN, crop_origin::zero, 0, 0) CROP(crop_zero_y, XIN, crop_origin::zero, 0, 0)
// a crop that misses the image is empty, not negative
IMPL(crop_miss)(double* p, D3, BOX) { PRE; ASSUME(n >= 1 && m >= 1); IM3; ASSUME(x1 <= a || x0 >= a + n || x1 <= x0); auto q = crop(r, x0, y0, x1, y1); out(0, q.x().extent()); }
SPEC(crop_miss)(double* p, D3, BOX) { PRE; ASSUME(n >= 1 && m >= 1); ASSUME(x1 <= a || x0 >= a + n || x1 <= x0); out(0, 0); }
IMPL(crop_miss_y)(double* p, D3, BOX) { PRE; ASSUME(n >= 1 && m >= 1); IM3; ASSUME(y1 <= b || y0 >= b + m || y1 <= y0); auto q = crop(r, x0, y0, x1, y1); out(0, q.y().extent()); }
SPEC(crop_miss_y)(double* p, D3, BOX) { PRE; ASSUME(n >= 1 && m >= 1); ASSUME(y1 <= b || y0 >= b + m || y1 <= y0); out(0, 0); }
// an element of a crop is the element of the image
IMPL(crop_at)(double* p, D3, BOX, L x, L y, L z) { PRE; IM3; auto q = crop(r, x0, y0, x1, y1); ASSUME(q.shape().is_in_range(x, y, z)); outp(0, &q(x, y, z)); }
SPEC(crop_at)(double* p, D3, BOX, L x, L y, L z) { PRE; CUT; ASSUME(X0 <= x && x < X1 && Y0 <= y && y < Y1 && c <= z && z < c + o); outp(0, p + (x - a) * s + (y - b) * t + (z - c) * u); }
IMPL(crop_null)(D3, BOX) { double* p = nullptr; (void)p; ASSUME(n >= 0 && m >= 0 && o >= 1 && s != unresolved && t != unresolved && u != unresolved); image_ref<double> r(nullptr, image_shape({a, n, s}, {b, m, t}, {c, o, u})); outp(0, crop(r, x0, y0, x1, y1).base()); outp(0, crop(r, x0, y0, x1, y1, crop_origin::zero).base()); }
SPEC(crop_null)(D3, BOX) { ASSUME(n >= 0 && m >= 0 && o >= 1 && s != unresolved && t != unresolved && u != unresolved); outp(0, nullptr); outp(0, nullptr); }
// other storage layouts, arrays and const arrays
#define PPL ASSUME(p != nullptr && n >= 1 && m >= 1 && o >= 1 && t != unresolved && u != unresolved && b <= y0 && y0 < y1 && y1 <= b + m && a <= x0 && x0 < x1)
IMPL(crop_planar)(double* p, L a, L n, L b, L m, L t, L c, L o, L u, BOX) { PPL; const_planar_image_ref<double> r(p, planar_image_shape({a, n}, {b, m, t}, {c, o, u})); auto q = crop(r, x0, y0, x1, y1); if (q.x().extent() <= 0) out(99, 0); else im(q); }
SPEC(crop_planar)(double* p, L a, L n, L b, L m, L t, L c, L o, L u, BOX) { PPL; CUT; if (X1 <= X0) out(99, 0); else sim(p + (X0 - a) + (Y0 - b) * t, X0, X1 - X0, 1, Y0, Y1 - Y0, t, c, o, u); }
#define PCH ASSUME(p != nullptr && n >= 1 && m >= 1 && t != unresolved && a <= x0 && x0 < x1 && x1 <= a + n && y0 >= b && y1 > y0)
IMPL(crop_chunky)(double* p, L a, L n, L b, L m, L t, BOX) { PCH; chunky_image_ref<double, 3, 4> r(p, chunky_image_shape<3, 4>({a, n}, {b, m, t}, {})); auto q = crop(r, x0, y0, x1, y1, crop_origin::zero); if (q.y().extent() <= 0) out(99, 0); else im(q); }
SPEC(crop_chunky)(double* p, L a, L n, L b, L m, L t, BOX) { PCH; CUT; if (Y1 <= Y0) out(99, 0); else sim(p + (X0 - a) * 4 + (Y0 - b) * t, 0, X1 - X0, 4, 0, Y1 - Y0, t, 0, 3, 1); }
IMPL(crop_shape)(D3, BOX) { image_shape s0({a, n, s}, {b, m, t}, {c, o, u}); auto q = crop_image_shape(s0, x0, y0, x1, y1); dm(0, q.x()); dm(3, q.y()); dm(6, q.c()); auto z = crop_image_shape(s0, x0, y0, x1, y1, crop_origin::zero); dm(10, z.x()); dm(13, z.y()); dm(16, z.c()); }
SPEC(crop_shape)(D3, BOX) { sdm(0, x0, x1 - x0, s); sdm(3, y0, y1 - y0, t); sdm(6, c, o, u); sdm(10, 0, x1 - x0, s); sdm(13, 0, y1 - y0, t); sdm(16, c, o, u); }
// one channel
template <class R> static void ch(const R& r) { outp(0, r.base()); dm(1, r.x()); dm(4, r.y()); }
static void sch(const double* p, L a, L n, L s, L b, L m, L t) { outp(0, p); sdm(1, a, n, s); sdm(4, b, m, t); }
IMPL(channel)(double* p, D3, L k) { PRE; IM3; ch(slice_channel(r, k)); }
SPEC(channel)(double* p, D3, L k) { PRE; sch(p + (k - c) * u, a, n, s, b, m, t); }
IMPL(channel_at)(double* p, D3, L k, L x, L y) { PRE; IM3; ASSUME(r.shape().is_in_range(x, y, k)); outp(0, &slice_channel(r, k)(x, y)); }
SPEC(channel_at)(double* p, D3, L k, L x, L y) { PRE; ASSUME(a <= x && x < a + n && b <= y && y < b + m && c <= k && k < c + o); outp(0, p + (x - a) * s + (y - b) * t + (k - c) * u); }
IMPL(channel_chunky)(double* p, L a, L n, L b, L m, L t, L k) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); const_chunky_image_ref<double, 3> r(p, chunky_image_shape<3>({a, n}, {b, m, t}, {})); ch(slice_channel(r, k)); }
SPEC(channel_chunky)(double* p, L a, L n, L b, L m, L t, L k) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); sch(p + k, a, n, 3, b, m, t); }
// documented layouts
IMPL(layout)(L w, L h, L k) { ASSUME(w >= 1 && h >= 1 && k >= 1); planar_image_shape p(w, h, k); p.resolve(); dm(0, p.x()); dm(3, p.y()); dm(6, p.c()); }
SPEC(layout)(L w, L h, L k) { ASSUME(w >= 1 && h >= 1 && k >= 1); sdm(0, 0, w, 1); sdm(3, 0, h, w); sdm(6, 0, k, w * h); }
IMPL(layout_chunky)(L w, L h) { ASSUME(w >= 2 && h >= 2); chunky_image_shape<4> p(w, h, {}); p.resolve(); dm(0, p.x()); dm(3, p.y()); dm(6, p.c()); chunky_image_shape<3, 4> q(w, h, {}); q.resolve(); dm(10, q.x()); dm(13, q.y()); dm(16, q.c()); }
SPEC(layout_chunky)(L w, L h) { ASSUME(w >= 2 && h >= 2); sdm(0, 0, w, 4); sdm(3, 0, h, w * 4); sdm(6, 0, 4, 1); sdm(10, 0, w, 4); sdm(13, 0, h, w * 4); sdm(16, 0, 3, 1); }
IMPL(layout_dynamic)(L w, L h, L k) { ASSUME(w >= 2 && h >= 2 && k >= 2); chunky_image_shape<> p(w, h, k); p.resolve(); dm(0, p.x()); dm(3, p.y()); dm(6, p.c()); }
SPEC(layout_dynamic)(L w, L h, L k) { ASSUME(w >= 2 && h >= 2 && k >= 2); sdm(0, 0, w, k); sdm(3, 0, h, w * k); sdm(6, 0, k, 1); }
IMPL(layout_matrix)(L n, L m, L q) { ASSUME(n >= 1 && m >= 1 && q >= 1); matrix_shape<> s(n, m); s.resolve(); dm(0, s.i()); dm(3, s.j()); matrix_shape<3, 5> f; f.resolve(); dm(10, f.i()); dm(13, f.j()); vector_shape<> v(q); v.resolve(); dm(20, v.i()); vector_shape<7> w; dm(30, w.i()); out(40, s.rows()); out(41, s.columns()); }
SPEC(layout_matrix)(L n, L m, L q) { ASSUME(n >= 1 && m >= 1 && q >= 1); sdm(0, 0, n, m); sdm(3, 0, m, 1); sdm(10, 0, 3, 5); sdm(13, 0, 5, 1); sdm(20, 0, q, 1); sdm(30, 0, 7, 1); out(40, n); out(41, m); }
// traversals: c innermost for images; rows outermost for matrices
IMPL(img_index)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); for_each_image_index(image_shape({a, n, 1}, {b, m, 1}, {c, o, 1}), [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }); }
SPEC(img_index)(L a, L n, L b, L m, L c, L o) { ASSUME(n >= 0 && m >= 0 && o >= 0); FOR(y, b, m) FOR(x, a, n) FOR(z, c, o) visit3(x, y, z); }
IMPL(chunky_index)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); auto f = [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }; for_each_index(chunky_image_shape<3>({a, n}, {b, m, 1}, {}), f); for_each_index(chunky_image_shape<3, 4>({a, n}, {b, m, 1}, {}), f); }
SPEC(chunky_index)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); FOR(y, b, m) FOR(x, a, n) FOR(z, 0, 3) visit3(x, y, z); FOR(y, b, m) FOR(x, a, n) FOR(z, 0, 3) visit3(x, y, z); }
IMPL(mat_index)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); auto f = [](const index_of_rank<2>& i) { visit2(std::get<0>(i), std::get<1>(i)); }; for_each_index(matrix_shape<>({a, n}, {b, m}), f); for_each_matrix_index(shape_of_rank<2>({a, n}, {b, m}), f); for_each_index(matrix_shape<2, 3>(dim<dynamic, 2>(a, 2), dense_dim<dynamic, 3>(b, 3)), f); }
SPEC(mat_index)(L a, L n, L b, L m) { ASSUME(n >= 0 && m >= 0); FOR(i, a, n) FOR(j, b, m) visit2(i, j); FOR(i, a, n) FOR(j, b, m) visit2(i, j); FOR(i, a, 2) FOR(j, b, 3) visit2(i, j); }
IMPL(mat_value)(double* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved); matrix_ref<double> r(p, matrix_shape<>({a, n, s}, {b, m})); r.for_each_value([](double& x) { touch(&x); }); }
SPECU(mat_value)(double* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && n >= 0 && m >= 0 && s != unresolved); FOR(i, 0, n) FOR(j, 0, m) touch(p + i * s + j); }
IMPL(chunky_value)(double* p, L a, L n, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); chunky_image_ref<double, 3> r(p, chunky_image_shape<3>({a, n}, {b, m, t}, {})); r.for_each_value([](double& x) { touch(&x); }); }
SPECU(chunky_value)(double* p, L a, L n, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); FOR(y, 0, m) FOR(x, 0, n) FOR(z, 0, 3) touch(p + x * 3 + y * t + z); }
IMPL(padded_value)(double* p, L a, L n, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); chunky_image_ref<double, 3, 4> r(p, chunky_image_shape<3, 4>({a, n}, {b, m, t}, {})); r.for_each_value([](double& x) { touch(&x); }); }
SPECU(padded_value)(double* p, L a, L n, L b, L m, L t) { ASSUME(p != nullptr && n >= 0 && m >= 0 && t != unresolved); FOR(y, 0, m) FOR(x, 0, n) FOR(z, 0, 3) touch(p + x * 4 + y * t + z); }
IMPL(dyn_chunky_value)(double* p, L a, L n, L s, L b, L m, L t, L o) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && s != unresolved && t != unresolved); chunky_image_ref<double> r(p, chunky_image_shape<>({a, n, s}, {b, m, t}, o)); r.for_each_value([](double& x) { touch(&x); }); }
SPECU(dyn_chunky_value)(double* p, L a, L n, L s, L b, L m, L t, L o) { ASSUME(p != nullptr && n >= 0 && m >= 0 && o >= 0 && s != unresolved && t != unresolved); FOR(y, 0, m) FOR(x, 0, n) FOR(z, 0, o) touch(p + x * s + y * t + z); }
// overloads for owning arrays do what the ones for views do
#define PO ASSUME(i->base() != nullptr && i->x().extent() >= 1 && i->y().extent() >= 1 && i->y().min() <= y0 && y0 < y1 && y1 <= i->y().min() + i->y().extent())
IMPL(crop_owner)(image<double>* i, BOX) { PO; im(crop(*i, x0, y0, x1, y1)); }
SPEC(crop_owner)(image<double>* i, BOX) { PO; im(crop(i->ref(), x0, y0, x1, y1, crop_origin::crop)); }
IMPL(crop_const_owner)(const image<double>* i, BOX) { PO; im(crop(*i, x0, y0, x1, y1, crop_origin::zero)); }
SPEC(crop_const_owner)(const image<double>* i, BOX) { PO; im(crop(i->cref(), x0, y0, x1, y1, crop_origin::zero)); }
IMPL(crop_owner_zero)(image<double>* i, BOX) { PO; im(crop(*i, x0, y0, x1, y1, crop_origin::zero)); }
SPEC(crop_owner_zero)(image<double>* i, BOX) { PO; im(crop(i->cref(), x0, y0, x1, y1, crop_origin::zero)); }
IMPL(channel_owner)(image<double>* i, const chunky_image<double, 3>* j, L k) { ch(slice_channel(*i, k)); ch(slice_channel(*j, k)); }
SPEC(channel_owner)(image<double>* i, const chunky_image<double, 3>* j, L k) { ch(slice_channel(i->ref(), k)); ch(slice_channel(j->cref(), k)); }
