// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Image and matrix helpers for every storage layout and element size.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
static L mx(L a, L b) { return a > b ? a : b; }
static L mn(L a, L b) { return a < b ? a : b; }
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void sdm(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
// min, extent and stride of x, y and c, with the parts a layout fixes replaced
struct Q { L a, n, s, b, m, t, c, o, u; };
struct vec3 { double x, y, z; }; typedef unsigned char byte_t;
#define LAYOUT(id, fixes, ...) struct id { typedef __VA_ARGS__ S; static Q fix(Q q) { fixes; return q; } static S mk(Q q) { typedef typename S::dims_type D; return S(typename std::tuple_element<0, D>::type(q.a, q.n, q.s), typename std::tuple_element<1, D>::type(q.b, q.m, q.t), typename std::tuple_element<2, D>::type(q.c, q.o, q.u)); } };
LAYOUT(general, , image_shape)
LAYOUT(planar, q.s = 1, planar_image_shape)
LAYOUT(chunky, (q.c = 0, q.u = 1), chunky_image_shape<>)
LAYOUT(chunky1, (q.c = 0, q.u = 1, q.o = 1, q.s = 1), chunky_image_shape<1>)
LAYOUT(chunky2, (q.c = 0, q.u = 1, q.o = 2, q.s = 2), chunky_image_shape<2>)
LAYOUT(chunky3, (q.c = 0, q.u = 1, q.o = 3, q.s = 3), chunky_image_shape<3>)
LAYOUT(chunky4, (q.c = 0, q.u = 1, q.o = 4, q.s = 4), chunky_image_shape<4>)
LAYOUT(chunky34, (q.c = 0, q.u = 1, q.o = 3, q.s = 4), chunky_image_shape<3, 4>)
LAYOUT(chunky38, (q.c = 0, q.u = 1, q.o = 3, q.s = 8), chunky_image_shape<3, 8>)
LAYOUT(chunky48, (q.c = 0, q.u = 1, q.o = 4, q.s = 8), chunky_image_shape<4, 8>)
LAYOUT(chunky4d, (q.c = 0, q.u = 1, q.o = 4), chunky_image_shape<4, dynamic>)
LAYOUT(chunky1d, (q.c = 0, q.u = 1, q.o = 1), chunky_image_shape<1, dynamic>)
LAYOUT(chunkyd4, (q.c = 0, q.u = 1, q.s = 4), chunky_image_shape<dynamic, 4>)
LAYOUT(chunky3d, (q.c = 0, q.u = 1, q.o = 3), chunky_image_shape<3, dynamic>)
LAYOUT(chunkyback, (q.c = 0, q.u = 1, q.o = 2, q.s = -2), chunky_image_shape<2, -2>)
LAYOUT(rows, (q.t = 512, q.s = 1), shape<dense_dim<>, strided_dim<512>, dim<>>)
LAYOUT(channels2, (q.c = 1, q.o = 2), shape<dim<>, dim<>, dim<1, 2>>)
#define D3 L a, L n, L s, L b, L m, L t, L c, L o, L u
#define BOX L x0, L y0, L x1, L y1
#define QQ(lay) Q q = lay::fix(Q{a, n, s, b, m, t, c, o, u})
#define OK ASSUME(p != nullptr && q.n >= 1 && q.m >= 1 && q.o >= 1 && q.s != unresolved && q.t != unresolved && q.u != unresolved)
#define YIN ASSUME(q.b <= y0 && y0 < y1 && y1 <= q.b + q.m)
#define XIN ASSUME(q.a <= x0 && x0 < x1 && x1 <= q.a + q.n)
#define CUT L X0 = mx(q.a, x0), Y0 = mx(q.b, y0), X1 = mn(q.a + q.n, x1), Y1 = mn(q.b + q.m, y1)
template <class R> static void im(const R& r) { outp(0, r.base()); dm(1, r.x()); dm(4, r.y()); dm(7, r.c()); }
static void sim(const void* p, L a, L n, L s, L b, L m, L t, L c, L o, L u) { outp(0, p); sdm(1, a, n, s); sdm(4, b, m, t); sdm(7, c, o, u); }
#define CROP(id, T, lay, in, o1, MX, MY) \
  IMPL(id)(T* p, D3, BOX) { QQ(lay); OK; in; array_ref<T, lay::S> r(p, lay::mk(q)); auto z = crop(r, x0, y0, x1, y1, o1); if (z.x().extent() <= 0 || z.y().extent() <= 0) out(99, 0); else im(z); } \
  SPEC(id)(T* p, D3, BOX) { QQ(lay); OK; in; CUT; if (X1 <= X0 || Y1 <= Y0) out(99, 0); else sim(p + (X0 - q.a) * q.s + (Y0 - q.b) * q.t, MX, X1 - X0, q.s, MY, Y1 - Y0, q.t, q.c, q.o, q.u); }
#define ALL(id, T, lay) \
  CROP(id##_x, T, lay, YIN, crop_origin::crop, X0, Y0) CROP(id##_y, T, lay, XIN, crop_origin::crop, X0, Y0) CROP(id##_zx, T, lay, YIN, crop_origin::zero, 0, 0) CROP(id##_zy, T, lay, XIN, crop_origin::zero, 0, 0) \
  IMPL(id##_at)(T* p, D3, BOX, L x, L y, L z) { QQ(lay); OK; array_ref<T, lay::S> r(p, lay::mk(q)); auto w = crop(r, x0, y0, x1, y1); ASSUME(w.shape().is_in_range(x, y, z)); outp(0, &w(x, y, z)); } \
  SPEC(id##_at)(T* p, D3, BOX, L x, L y, L z) { QQ(lay); OK; CUT; ASSUME(X0 <= x && x < X1 && Y0 <= y && y < Y1 && q.c <= z && z < q.c + q.o); outp(0, p + (x - q.a) * q.s + (y - q.b) * q.t + (z - q.c) * q.u); } \
  IMPL(id##_ch)(T* p, D3, L k) { QQ(lay); OK; array_ref<T, lay::S> r(p, lay::mk(q)); auto z = slice_channel(r, k); outp(0, z.base()); dm(1, z.x()); dm(4, z.y()); } \
  SPEC(id##_ch)(T* p, D3, L k) { QQ(lay); OK; outp(0, p + (k - q.c) * q.u); sdm(1, q.a, q.n, q.s); sdm(4, q.b, q.m, q.t); }
ALL(general_b, byte_t, general) ALL(general_f, const float, general) ALL(general_v, vec3, general)
ALL(planar_d, double, planar) ALL(planar_b, const byte_t, planar) ALL(planar_s, short, planar)
ALL(chunky_d, double, chunky) ALL(chunky_b, byte_t, chunky) ALL(chunky1_d, double, chunky1) ALL(chunky2_d, const double, chunky2)
ALL(chunky3_d, const double, chunky3) ALL(chunky3_b, byte_t, chunky3) ALL(chunky4_f, float, chunky4) ALL(chunky34_b, const byte_t, chunky34) ALL(chunky34_v, vec3, chunky34)
ALL(chunky38_d, double, chunky38) ALL(chunkyd4_d, double, chunkyd4) ALL(chunkyd4_b, const byte_t, chunkyd4) ALL(chunky3d_d, double, chunky3d) ALL(chunkyback_d, double, chunkyback)
ALL(rows_d, double, rows) ALL(channels2_i, int, channels2)
// the shape alone
#define SHP(id, lay) \
  IMPL(id)(D3, BOX) { QQ(lay); auto z = crop_image_shape(lay::mk(q), x0, y0, x1, y1); dm(0, z.x()); dm(3, z.y()); dm(6, z.c()); auto w = crop_image_shape(lay::mk(q), x0, y0, x1, y1, crop_origin::zero); dm(10, w.x()); dm(13, w.y()); dm(16, w.c()); } \
  SPEC(id)(D3, BOX) { QQ(lay); sdm(0, x0, x1 - x0, q.s); sdm(3, y0, y1 - y0, q.t); sdm(6, q.c, q.o, q.u); sdm(10, 0, x1 - x0, q.s); sdm(13, 0, y1 - y0, q.t); sdm(16, q.c, q.o, q.u); }
SHP(shp_planar, planar) SHP(shp_chunky, chunky) SHP(shp_chunky1, chunky1) SHP(shp_chunky2, chunky2) SHP(shp_chunky3, chunky3) SHP(shp_chunky4, chunky4) SHP(shp_chunky34, chunky34) SHP(shp_chunkyd4, chunkyd4) SHP(shp_chunky3d, chunky3d) SHP(shp_rows, rows) SHP(shp_channels2, channels2)
// traversals: every index in order, c innermost; every value once
#define TRV(id, lay) \
  IMPL(id##_index)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); for_each_image_index(lay::mk(q), [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }); } \
  SPEC(id##_index)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); FOR(y, q.b, q.m) FOR(x, q.a, q.n) FOR(z, q.c, q.o) visit3(x, y, z); } \
  IMPL(id##_value)(double* p, D3) { QQ(lay); OK; array_ref<double, lay::S> r(p, lay::mk(q)); r.for_each_value([](double& v) { touch(&v); }); } \
  SPECU(id##_value)(double* p, D3) { QQ(lay); OK; FOR(y, 0, q.m) FOR(x, 0, q.n) FOR(z, 0, q.o) touch(p + x * q.s + y * q.t + z * q.u); }
TRV(t_chunky, chunky) TRV(t_chunky1, chunky1) TRV(t_chunky2, chunky2) TRV(t_chunky3, chunky3) TRV(t_chunky4, chunky4) TRV(t_chunky34, chunky34) TRV(t_chunky38, chunky38) TRV(t_chunky48, chunky48) TRV(t_chunky4d, chunky4d) TRV(t_chunky1d, chunky1d) TRV(t_chunkyd4, chunkyd4) TRV(t_chunky3d, chunky3d) TRV(t_chunkyback, chunkyback)
#define TRI(id, lay) \
  IMPL(id)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); for_each_index(lay::mk(q), [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }); } \
  SPEC(id)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); FOR(y, q.b, q.m) FOR(x, q.a, q.n) FOR(z, q.c, q.o) visit3(x, y, z); }
TRI(i_chunky, chunky) TRI(i_chunky1, chunky1) TRI(i_chunky2, chunky2) TRI(i_chunky4, chunky4) TRI(i_chunky34, chunky34) TRI(i_chunky38, chunky38) TRI(i_chunky48, chunky48) TRI(i_chunky4d, chunky4d) TRI(i_chunky1d, chunky1d) TRI(i_chunkyd4, chunkyd4) TRI(i_chunky3d, chunky3d) TRI(i_chunkyback, chunkyback)
#define TPI(id, lay) \
  IMPL(id)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); for_each_image_index(lay::mk(q), [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }); } \
  SPEC(id)(D3) { QQ(lay); ASSUME(q.n >= 0 && q.m >= 0 && q.o >= 0); FOR(y, q.b, q.m) FOR(x, q.a, q.n) FOR(z, q.c, q.o) visit3(x, y, z); }
TPI(p_planar, planar) TPI(p_rows, rows) TPI(p_channels2, channels2)
// matrices: rows outermost
#define MAT(id, R, C, N, M) \
  IMPL(id##_index)(L a, L n, L s, L b, L m) { ASSUME((N) >= 0 && (M) >= 0); typedef matrix_shape<R, C> S; for_each_index(S(dim<dynamic, R>(a, N, s), dense_dim<dynamic, C>(b, M)), [](const index_of_rank<2>& i) { visit2(std::get<0>(i), std::get<1>(i)); }); } \
  SPEC(id##_index)(L a, L n, L s, L b, L m) { ASSUME((N) >= 0 && (M) >= 0); FOR(i, a, N) FOR(j, b, M) visit2(i, j); } \
  IMPL(id##_value)(double* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && (N) >= 0 && (M) >= 0 && s != unresolved); typedef matrix_shape<R, C> S; matrix_ref<double, R, C> r(p, S(dim<dynamic, R>(a, N, s), dense_dim<dynamic, C>(b, M))); r.for_each_value([](double& v) { touch(&v); }); } \
  SPECU(id##_value)(double* p, L a, L n, L s, L b, L m) { ASSUME(p != nullptr && (N) >= 0 && (M) >= 0 && s != unresolved); FOR(i, 0, N) FOR(j, 0, M) touch(p + i * s + j); }
MAT(m_dd, dynamic, dynamic, n, m) MAT(m_1d, 1, dynamic, 1, m) MAT(m_d1, dynamic, 1, n, 1) MAT(m_11, 1, 1, 1, 1) MAT(m_33, 3, 3, 3, 3) MAT(m_2d, 2, dynamic, 2, m) MAT(m_d4, dynamic, 4, n, 4) MAT(m_52, 5, 2, 5, 2)
