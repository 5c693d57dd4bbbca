// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Views of the same elements: transpose, reorder, reinterpret, convert, ref/cref, and the order dims come in.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
typedef shape_of_rank<1> S1; typedef shape_of_rank<2> S2; typedef shape_of_rank<3> S3; typedef shape_of_rank<4> S4; typedef shape_of_rank<5> S5;
#define RES(s) ASSUME(s != unresolved)
#define NZ(n) ASSUME(n >= 1)
#define P2 L a, L n, L s, L b, L m, L t
#define P3 P2, L c, L o, L u
#define D2 {a, n, s}, {b, m, t}
#define D3 D2, {c, o, u}
#define PRE2 RES(s); RES(t); NZ(n); NZ(m)
#define PRE3 PRE2; RES(u); NZ(o)
typedef array<double, S2, vf_alloc<double>> A2;
typedef array<double, S3, vf_alloc<double>> A3;
// shapes
IMPL(st10)(P2) { auto x = transpose<1, 0>(S2(D2)); dm(0, x.dim<0>()); dm(3, x.dim<1>()); }
SPEC(st10)(P2) { d(0, b, m, t); d(3, a, n, s); }
IMPL(st201)(P3) { auto x = transpose<2, 0, 1>(S3(D3)); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(st201)(P3) { d(0, c, o, u); d(3, a, n, s); d(6, b, m, t); }
IMPL(st120)(P3) { auto x = transpose<1, 2, 0>(S3(D3)); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(st120)(P3) { d(0, b, m, t); d(3, c, o, u); d(6, a, n, s); }
IMPL(st_static)(L a, L n, L b, L c, L o, L u) { auto x = transpose<2, 0, 1>(shape<dense_dim<>, dim<dynamic, 4, 7>, dim<>>({a, n}, {b, 4}, {c, o, u})); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(st_static)(L a, L n, L b, L c, L o, L u) { d(0, c, o, u); d(3, a, n, 1); d(6, b, 4, 7); }
IMPL(st5)(P3, L e, L p, L v, L f, L q, L w) { auto x = transpose<4, 2, 0, 3, 1>(S5(D3, {e, p, v}, {f, q, w})); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); dm(9, x.dim<3>()); dm(12, x.dim<4>()); }
SPEC(st5)(P3, L e, L p, L v, L f, L q, L w) { d(0, f, q, w); d(3, c, o, u); d(6, a, n, s); d(9, e, p, v); d(12, b, m, t); }
// dims that are not mentioned keep their order behind the mentioned ones
#define P5 P3, L e, L p, L v, L f, L q, L w
#define D5 D3, {e, p, v}, {f, q, w}
#define PRE5 PRE3; RES(v); RES(w); NZ(p); NZ(q)
template <class V> static void dm5(const V& x) { dm(0, x.template dim<0>()); dm(3, x.template dim<1>()); dm(6, x.template dim<2>()); dm(9, x.template dim<3>()); dm(12, x.template dim<4>()); }
IMPL(ext10)(P5) { auto x = transpose<1, 0>(S5(D5)); out(20, x.rank()); dm5(x); }
SPEC(ext10)(P5) { out(20, 5); d(0, b, m, t); d(3, a, n, s); d(6, c, o, u); d(9, e, p, v); d(12, f, q, w); }
IMPL(ext201)(P5) { auto x = transpose<2, 0, 1>(S5(D5)); out(20, x.rank()); dm5(x); }
SPEC(ext201)(P5) { out(20, 5); d(0, c, o, u); d(3, a, n, s); d(6, b, m, t); d(9, e, p, v); d(12, f, q, w); }
IMPL(ext0)(P5) { auto x = transpose<0>(S5(D5)); out(20, x.rank()); dm5(x); auto y = transpose<1, 0>(S3(D3)); out(21, y.rank()); dm(22, y.dim<0>()); dm(25, y.dim<1>()); dm(28, y.dim<2>()); }
SPEC(ext0)(P5) { out(20, 5); d(0, a, n, s); d(3, b, m, t); d(6, c, o, u); d(9, e, p, v); d(12, f, q, w); out(21, 3); d(22, b, m, t); d(25, a, n, s); d(28, c, o, u); }
IMPL(extv)(double* z, P5) { PRE5; auto x = transpose<1, 0, 2, 3, 4>(array_ref_of_rank<double, 5>(z, S5(D5))); outp(20, x.base()); dm5(x); auto y = transpose<3, 1, 2, 0, 4>(const_array_ref_of_rank<double, 5>(z, S5(D5))); outp(21, y.base()); dm5(y); }
SPEC(extv)(double* z, P5) { PRE5; outp(20, z); d(0, b, m, t); d(3, a, n, s); d(6, c, o, u); d(9, e, p, v); d(12, f, q, w); outp(21, z); d(0, e, p, v); d(3, b, m, t); d(6, c, o, u); d(9, a, n, s); d(12, f, q, w); }
IMPL(reo5)(double* z, P5) { PRE5; auto x = reorder<4, 0, 2>(array_ref_of_rank<double, 5>(z, S5(D5))); outp(20, x.base()); out(21, x.rank()); dm(0, x.dim<0>()); dm(3, x.dim<1>()); dm(6, x.dim<2>()); }
SPEC(reo5)(double* z, P5) { PRE5; outp(20, z); out(21, 3); d(0, f, q, w); d(3, a, n, s); d(6, c, o, u); }
IMPL(sr2)(P3) { auto x = reorder<2>(S3(D3)); out(0, x.rank()); dm(1, x.dim<0>()); auto y = reorder<2, 0>(S3(D3)); out(4, y.rank()); dm(5, y.dim<0>()); dm(8, y.dim<1>()); auto z = reorder<0, 1, 2>(S3(D3)); dm(11, z.dim<0>()); dm(14, z.dim<1>()); dm(17, z.dim<2>()); }
SPEC(sr2)(P3) { out(0, 1); d(1, c, o, u); out(4, 2); d(5, c, o, u); d(8, a, n, s); d(11, a, n, s); d(14, b, m, t); d(17, c, o, u); }
// indices and tuples keep their order too
IMPL(addr)(P3, L i, L j, L k) { out(0, transpose<2, 0, 1>(S3(D3))(k, i, j)); out(1, reorder<1, 2, 0>(S3(D3))(j, k, i)); }
SPEC(addr)(P3, L i, L j, L k) { L o_ = (i - a) * s + (j - b) * t + (k - c) * u; ASSUME(a <= i && i < a + n && b <= j && j < b + m && c <= k && k < c + o); out(0, o_); out(1, o_); }
// views
#define VDM2(v) outp(0, v.base()), dm(1, v.template dim<0>()), dm(4, v.template dim<1>())
IMPL(rt10)(double* p, P2) { PRE2; auto v = transpose<1, 0>(array_ref_of_rank<double, 2>(p, S2(D2))); VDM2(v); }
SPEC(rt10)(double* p, P2) { PRE2; outp(0, p); d(1, b, m, t); d(4, a, n, s); }
IMPL(crt10)(const double* p, P2) { PRE2; auto v = transpose<1, 0>(const_array_ref_of_rank<double, 2>(p, S2(D2))); VDM2(v); }
SPEC(crt10)(const double* p, P2) { PRE2; outp(0, p); d(1, b, m, t); d(4, a, n, s); }
IMPL(rt201)(double* p, P3) { PRE3; auto v = transpose<2, 0, 1>(array_ref_of_rank<double, 3>(p, S3(D3))); VDM2(v); dm(7, v.dim<2>()); }
SPEC(rt201)(double* p, P3) { PRE3; outp(0, p); d(1, c, o, u); d(4, a, n, s); d(7, b, m, t); }
IMPL(rr)(double* p, P3) { PRE3; auto v = reorder<2, 0>(array_ref_of_rank<double, 3>(p, S3(D3))); VDM2(v); }
SPEC(rr)(double* p, P3) { PRE3; outp(0, p); d(1, c, o, u); d(4, a, n, s); }
IMPL(at)(A2& x) { auto v = transpose<1, 0>(x); VDM2(v); }
SPEC(at)(A2& x) { outp(0, x.base()); auto s = x.shape(); dm(1, s.dim<1>()); dm(4, s.dim<0>()); ASSUME(s.is_resolved() && s.dim<0>().extent() >= 1 && s.dim<1>().extent() >= 1); }
IMPL(cat)(const A2& x) { auto v = transpose<1, 0>(x); VDM2(v); }
SPEC(cat)(const A2& x) { outp(0, x.base()); auto s = x.shape(); dm(1, s.dim<1>()); dm(4, s.dim<0>()); ASSUME(s.is_resolved() && s.dim<0>().extent() >= 1 && s.dim<1>().extent() >= 1); }
IMPL(ar)(A3& x) { auto v = reorder<2, 0>(x); VDM2(v); }
SPEC(ar)(A3& x) { outp(0, x.base()); auto s = x.shape(); dm(1, s.dim<2>()); dm(4, s.dim<0>()); ASSUME(s.is_resolved() && s.dim<0>().extent() >= 1 && s.dim<1>().extent() >= 1 && s.dim<2>().extent() >= 1); }
IMPL(car)(const A3& x) { auto v = reorder<1>(x); outp(0, v.base()); dm(1, v.dim<0>()); }
SPEC(car)(const A3& x) { outp(0, x.base()); auto s = x.shape(); dm(1, s.dim<1>()); ASSUME(s.is_resolved() && s.dim<0>().extent() >= 1 && s.dim<1>().extent() >= 1 && s.dim<2>().extent() >= 1); }
// reinterpretation of the element type
IMPL(ri)(double* p, P2) { PRE2; array_ref_of_rank<double, 2> r(p, S2(D2)); auto v = reinterpret<L>(r); VDM2(v); const_array_ref_of_rank<double, 2> c(r); auto w = reinterpret_const<double>(c); outp(10, w.base()); dm(11, w.dim<0>()); dm(14, w.dim<1>()); auto z = reinterpret<const L>(c); outp(20, z.base()); dm(21, z.dim<0>()); dm(24, z.dim<1>()); }
SPEC(ri)(double* p, P2) { PRE2; outp(0, p); d(1, a, n, s); d(4, b, m, t); outp(10, p); d(11, a, n, s); d(14, b, m, t); outp(20, p); d(21, a, n, s); d(24, b, m, t); }
IMPL(ari)(A2& x, const A2& y) { auto v = reinterpret<L>(x); VDM2(v); auto w = reinterpret<L>(y); outp(10, w.base()); dm(11, w.dim<0>()); dm(14, w.dim<1>()); }
SPEC(ari)(A2& x, const A2& y) { outp(0, x.base()); dm(1, x.dim<0>()); dm(4, x.dim<1>()); outp(10, y.base()); dm(11, y.dim<0>()); dm(14, y.dim<1>()); }
// shape conversion of arrays
IMPL(acv)(A2& x, const A2& y) { ASSUME(x.shape().is_resolved() && y.shape().is_resolved()); auto v = convert_shape<S3>(x); VDM2(v); out(7, v.dim<2>().min()); out(8, v.dim<2>().extent()); auto w = convert_shape<S3>(y); outp(10, w.base()); dm(11, w.dim<0>()); dm(14, w.dim<1>()); out(17, w.dim<2>().min()); out(18, w.dim<2>().extent()); }
SPEC(acv)(A2& x, const A2& y) { ASSUME(x.shape().is_resolved() && y.shape().is_resolved()); outp(0, x.base()); dm(1, x.dim<0>()); dm(4, x.dim<1>()); out(7, 0); out(8, 1); outp(10, y.base()); dm(11, y.dim<0>()); dm(14, y.dim<1>()); out(17, 0); out(18, 1); }
// references to arrays
IMPL(refs)(A2& x, const A2& y) {
  auto v = x.ref(); VDM2(v); auto w = x.cref(); outp(10, w.base()); dm(11, w.dim<0>()); dm(14, w.dim<1>()); auto z = y.ref(); outp(20, z.base()); dm(21, z.dim<0>()); dm(24, z.dim<1>()); auto q = y.cref(); outp(30, q.base()); dm(31, q.dim<0>()); dm(34, q.dim<1>());
  array_ref_of_rank<double, 2> e = x; outp(40, e.base()); dm(41, e.dim<0>()); dm(44, e.dim<1>()); const_array_ref_of_rank<double, 2> f = x; outp(50, f.base()); dm(51, f.dim<0>()); dm(54, f.dim<1>()); const_array_ref_of_rank<double, 2> g = y; outp(60, g.base()); dm(61, g.dim<0>()); dm(64, g.dim<1>());
}
template <class X> static void obs(int k, X& x) { outp(k, x.base()); dm(k + 1, x.template dim<0>()); dm(k + 4, x.template dim<1>()); }
SPEC(refs)(A2& x, const A2& y) { obs(0, x); obs(10, x); obs(20, y); obs(30, y); obs(40, x); obs(50, x); obs(60, y); }
IMPL(rrefs)(double* p, P2) { PRE2; array_ref_of_rank<double, 2> y; array_ref_of_rank<double, 2> r(p, S2(D2)); obs(0, r.ref()); auto c = r.cref(); obs(10, c); const_array_ref_of_rank<double, 2> e = r; obs(20, e); array_ref_of_rank<double, 2> q(r); obs(30, q); y = r; obs(40, y); array_ref_of_rank<double, 2> w(std::move(q)); obs(50, w); }
SPEC(rrefs)(double* p, P2) { PRE2; array_ref_of_rank<double, 2> r(p, S2(D2)); obs(0, r); obs(10, r); obs(20, r); obs(30, r); obs(40, r); obs(50, r); }
// base, data and emptiness of a view
IMPL(vdata)(double* p, P2) { PRE2; array_ref_of_rank<double, 2> r(p, S2(D2)); outp(0, r.base()); outp(1, r.data()); out(2, r.empty()); out(3, r.size()); }
SPEC(vdata)(double* p, P2) { PRE2; outp(0, p); outp(1, p + (s < 0 ? (n - 1) * s : 0) + (t < 0 ? (m - 1) * t : 0)); ASSUME(p != nullptr); out(2, 0); out(3, n * m); }
IMPL(vnull)() { array_ref_of_rank<double, 2> r; outp(0, r.base()); out(1, r.empty()); array_ref_of_rank<double, 2> q(nullptr, {3, 4}); out(2, q.empty()); array_ref_of_rank<double, 0> z(nullptr, {}); out(3, z.empty()); }
SPEC(vnull)() { outp(0, nullptr); out(1, 1); out(2, 1); out(3, 1); }
IMPL(vempty)(double* p, P2) { RES(s); RES(t); ASSUME(n >= 0 && m >= 0); ASSUME(p != nullptr); array_ref_of_rank<double, 2> r(p, S2(D2)); out(0, r.empty()); }
SPEC(vempty)(double* p, P2) { RES(s); RES(t); ASSUME(n >= 0 && m >= 0); ASSUME(p != nullptr); out(0, n == 0 || m == 0); }
// a view with unspecified strides gets compact ones
IMPL(vres)(double* p, L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); array_ref_of_rank<double, 2> r(p, S2({a, n}, {b, m})); obs(0, r); dense_array_ref<double, 2> q(p, {{a, n}, {b, m}}); obs(10, q); }
SPEC(vres)(double* p, L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); outp(0, p); d(1, a, n, 1); d(4, b, m, n); outp(10, p); d(11, a, n, 1); d(14, b, m, n); }
// scalars convert to their element
IMPL(scalar)(double* p) { array_ref_of_rank<double, 0> r(p, {}); double& x = r; outp(0, &x); outp(1, &r()); outp(2, &r[std::tuple<>()]); out(3, r.size()); }
SPEC(scalar)(double* p) { ASSUME(p != nullptr); outp(0, p); outp(1, p); outp(2, p); out(3, 1); }
// assigning a view takes everything from the other one, a null base too
IMPL(vasg)(double* p, double* q, P2, L e, L f, L g, L h) { RES(s); RES(t); RES(g); RES(h); ASSUME(n >= 1 && m >= 1 && e >= 1 && f >= 1); array_ref_of_rank<double, 2> x(p, S2(D2)), y(q, S2({3, e, g}, {4, f, h})); x = y; obs(0, x); obs(10, y); array_ref_of_rank<double, 2> z; x = z; outp(20, x.base()); x = std::move(y); obs(30, x); const_array_ref_of_rank<double, 2> c; c = y; obs(40, c); }
SPEC(vasg)(double* p, double* q, P2, L e, L f, L g, L h) { RES(s); RES(t); RES(g); RES(h); ASSUME(n >= 1 && m >= 1 && e >= 1 && f >= 1); outp(0, q); d(1, 3, e, g); d(4, 4, f, h); outp(10, q); d(11, 3, e, g); d(14, 4, f, h); outp(20, nullptr); outp(30, q); d(31, 3, e, g); d(34, 4, f, h); outp(40, q); d(41, 3, e, g); d(44, 4, f, h); }
// assigning a view of another shape type
IMPL(vasg2)(double* p, double* q, L a, L n, L b, L m, L t, L e, L f) { RES(t); ASSUME(n >= 1 && m >= 1 && e >= 1 && f >= 1); array_ref_of_rank<double, 2> x(p, S2({a, n}, {b, m})); dense_array_ref<double, 2> y(q, dense_shape<2>({3, e}, {4, f, t})); x = y; obs(0, x); dense_array_ref<double, 2> z; z = x; obs(10, z); }
SPEC(vasg2)(double* p, double* q, L a, L n, L b, L m, L t, L e, L f) { RES(t); ASSUME(n >= 1 && m >= 1 && e >= 1 && f >= 1); outp(0, q); d(1, 3, e, 1); d(4, 4, f, t); outp(10, q); d(11, 3, e, 1); d(14, 4, f, t); }
