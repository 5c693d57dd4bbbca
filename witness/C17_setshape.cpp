// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Changing the shape over the same storage: the base moves by the offset, and checked builds stop iff the new box leaves the old storage.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void d(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
typedef shape_of_rank<1> S1; typedef shape_of_rank<2> S2;
#define RES(s) ASSUME(s != unresolved)
#define NZ(n) ASSUME(n >= 1)
static L lo(L n, L s) { return s < 0 ? (n - 1) * s : 0; }
static L hi(L n, L s) { return s < 0 ? 0 : (n - 1) * s; }
#define O1 L a, L n, L s
#define N1 L b, L m, L t
#define PRE1 RES(s); RES(t); NZ(n); NZ(m)
// 1-D: new box at offset x inside the old one
#define IN1 (x + lo(m, t) >= lo(n, s) && x + hi(m, t) <= hi(n, s))
// is_subset_of(other, o): every flat offset of this lies within other's, shifted by o
RIMPL(bool, sub1)(O1, N1, L o) { PRE1; return S1(dim<>(b, m, t)).is_subset_of(S1(dim<>(a, n, s)), o); }
RSPEC(bool, sub1)(O1, N1, L o) { PRE1; return lo(m, t) >= lo(n, s) + o && hi(m, t) <= hi(n, s) + o; }
RIMPL(bool, sub2)(O1, L a2, L n2, L s2, N1, L o) { PRE1; RES(s2); NZ(n2); ASSUME(s > 0 && s2 > 0 && t > 0); return S1(dim<>(b, m, t)).is_subset_of(S2({a, n, s}, {a2, n2, s2}), o); }
RSPEC(bool, sub2)(O1, L a2, L n2, L s2, N1, L o) { PRE1; RES(s2); NZ(n2); ASSUME(s > 0 && s2 > 0 && t > 0); return o <= 0 && (m - 1) * t <= (n - 1) * s + (n2 - 1) * s2 + o; }
// views
IMPL(set1)(double* p, O1, N1, L x) { PRE1; ASSUME(p != nullptr); REQUIRE(IN1); array_ref_of_rank<double, 1> r(p, S1(dim<>(a, n, s))); r.set_shape(S1(dim<>(b, m, t)), x); outp(0, r.base()); dm(1, r.dim<0>()); }
SPEC(set1)(double* p, O1, N1, L x) { PRE1; ASSUME(p != nullptr); REQUIRE(IN1); outp(0, p + x); d(1, b, m, t); }
IMPL(set1d)(double* p, O1, N1) { PRE1; const L x = 0; REQUIRE(IN1); array_ref_of_rank<double, 1> r(p, S1(dim<>(a, n, s))); r.set_shape(S1(dim<>(b, m, t))); outp(0, r.base()); dm(1, r.dim<0>()); }
SPEC(set1d)(double* p, O1, N1) { PRE1; const L x = 0; REQUIRE(IN1); outp(0, p); d(1, b, m, t); }
IMPL(set_unres)(double* p, O1, L b, L m) { RES(s); NZ(n); NZ(m); array_ref_of_rank<double, 1> r(p, S1(dim<>(a, n, s))); r.set_shape(S1(dim<>(b, m))); out(0, 1); }
#ifdef NDEBUG
SPEC(set_unres)(double* p, O1, L b, L m) { RES(s); NZ(n); NZ(m); out(0, 1); }
#else
SPEC(set_unres)(double* p, O1, L b, L m) { RES(s); NZ(n); NZ(m); vf_abort(); }
#endif
IMPL(set2)(double* p, O1, L c, L o, L u, N1, L e, L q, L v, L x) {
  PRE1; NZ(o); NZ(q); ASSUME(p != nullptr); ASSUME(s > 0 && t > 0 && u > 0 && v > 0); REQUIRE(x >= 0 && x + (m - 1) * t + (q - 1) * v <= (n - 1) * s + (o - 1) * u);
  array_ref_of_rank<double, 2> r(p, S2({a, n, s}, {c, o, u})); r.set_shape(S2({b, m, t}, {e, q, v}), x); outp(0, r.base()); dm(1, r.dim<0>()); dm(4, r.dim<1>());
}
SPEC(set2)(double* p, O1, L c, L o, L u, N1, L e, L q, L v, L x) {
  PRE1; NZ(o); NZ(q); ASSUME(p != nullptr); ASSUME(s > 0 && t > 0 && u > 0 && v > 0); REQUIRE(x >= 0 && x + (m - 1) * t + (q - 1) * v <= (n - 1) * s + (o - 1) * u);
  outp(0, p + x); d(1, b, m, t); d(4, e, q, v);
}
// reinterpret_shape of views and arrays
IMPL(re1)(double* p, O1, N1, L x) { PRE1; REQUIRE(IN1); array_ref_of_rank<double, 1> r(p, S1(dim<>(a, n, s))); auto v = reinterpret_shape(r, S1(dim<>(b, m, t)), x); outp(0, v.base()); dm(1, v.dim<0>()); outp(4, r.base()); dm(5, r.dim<0>()); }
SPEC(re1)(double* p, O1, N1, L x) { PRE1; REQUIRE(IN1); outp(0, p + x); d(1, b, m, t); outp(4, p); d(5, a, n, s); }
IMPL(re1d)(const double* p, O1, N1) { PRE1; const L x = 0; REQUIRE(IN1); const_array_ref_of_rank<double, 1> r(p, S1(dim<>(a, n, s))); auto v = reinterpret_shape(r, S1(dim<>(b, m, t))); outp(0, v.base()); dm(1, v.dim<0>()); }
SPEC(re1d)(const double* p, O1, N1) { PRE1; const L x = 0; REQUIRE(IN1); outp(0, p); d(1, b, m, t); }
IMPL(re_res)(double* p, L n, L b, L m, L q, L x) { NZ(n); NZ(m); NZ(q); REQUIRE(x >= 0 && x + m * q <= n); array_ref_of_rank<double, 1> r(p, S1(dim<>(0, n, 1))); auto v = reinterpret_shape(r, S2({b, m}, {0, q}), x); outp(0, v.base()); dm(1, v.dim<0>()); out(4, v.dim<1>().min()); out(5, v.dim<1>().extent()); out(6, v.dim<1>().stride()); }
SPEC(re_res)(double* p, L n, L b, L m, L q, L x) { NZ(n); NZ(m); NZ(q); REQUIRE(x >= 0 && x + m * q <= n); outp(0, p + x); d(1, b, m, 1); d(4, 0, q, m); }
typedef array<double, S1, vf_alloc<double>> A1;
#define GET(X) const L n = X.shape().dim<0>().extent(), s = X.shape().dim<0>().stride(); PRE1
IMPL(rea)(A1& y, N1, L x) { GET(y); REQUIRE(IN1); auto v = reinterpret_shape(y, S1(dim<>(b, m, t)), x); outp(0, v.base()); dm(1, v.dim<0>()); }
SPEC(rea)(A1& y, N1, L x) { GET(y); REQUIRE(IN1); outp(0, y.base() + x); d(1, b, m, t); }
IMPL(rec)(const A1& y, N1, L x) { GET(y); REQUIRE(IN1); auto v = reinterpret_shape(y, S1(dim<>(b, m, t)), x); outp(0, v.base()); dm(1, v.dim<0>()); }
SPEC(rec)(const A1& y, N1, L x) { GET(y); REQUIRE(IN1); outp(0, y.base() + x); d(1, b, m, t); }
// owning arrays
static double* al(L n) { double* p = (double*)al_alloc(n); ASSUME(p != nullptr); return p; }
#define FLAT(n, s) (hi(n, s) - lo(n, s) + 1)
IMPL(aset)(O1, N1, L x) { PRE1; REQUIRE(IN1); A1 y(S1(dim<>(a, n, s))); y.set_shape(S1(dim<>(b, m, t)), x); outp(0, y.base()); dm(1, y.dim<0>()); }
SPEC(aset)(O1, N1, L x) { PRE1; REQUIRE(IN1); double* p = al(FLAT(n, s)); outp(0, p - lo(n, s) + x); d(1, b, m, t); al_free(p, FLAT(n, s)); }
IMPL(aset_unres)(O1, L b, L m) { RES(s); NZ(n); NZ(m); A1 y(S1(dim<>(a, n, s))); y.set_shape(S1(dim<>(b, m))); out(0, 1); }
#ifdef NDEBUG
SPEC(aset_unres)(O1, L b, L m) { RES(s); NZ(n); NZ(m); double* p = al(FLAT(n, s)); out(0, 1); al_free(p, FLAT(n, s)); }
#else
SPEC(aset_unres)(O1, L b, L m) { RES(s); NZ(n); NZ(m); al(FLAT(n, s)); vf_abort(); }
#endif
// moving to a new shape keeps the storage
IMPL(mv)(O1, N1, L x) { PRE1; REQUIRE(IN1); A1 y(S1(dim<>(a, n, s))); auto z = move_reinterpret_shape(std::move(y), S1(dim<>(b, m, t)), x); outp(0, z.base()); dm(1, z.dim<0>()); outp(4, y.base()); out(5, y.empty()); }
SPEC(mv)(O1, N1, L x) { PRE1; REQUIRE(IN1); double* p = al(FLAT(n, s)); outp(0, p - lo(n, s) + x); d(1, b, m, t); outp(4, nullptr); out(5, 1); al_free(p, FLAT(n, s)); }
IMPL(mv12)(L n, L a, L b, L m, L c, L o, L x) { NZ(n); NZ(m); NZ(o); REQUIRE(x >= 0 && x + m * o <= n); A1 y(S1(dim<>(a, n, 1))); auto z = move_reinterpret_shape(std::move(y), dense_shape<2>(dense_dim<>(b, m), dim<>(c, o, m)), x); outp(0, z.base()); dm(1, z.dim<0>()); dm(4, z.dim<1>()); }
SPEC(mv12)(L n, L a, L b, L m, L c, L o, L x) { NZ(n); NZ(m); NZ(o); REQUIRE(x >= 0 && x + m * o <= n); double* p = al(n); outp(0, p + x); d(1, b, m, 1); d(4, c, o, m); al_free(p, n); }
IMPL(mvc)(O1) { RES(s); NZ(n); REQUIRE(s == 1); A1 y(S1(dim<>(a, n, s))); auto z = move_reinterpret_shape<dense_shape<1>>(std::move(y)); outp(0, z.base()); dm(1, z.dim<0>()); outp(4, y.base()); }
#ifdef NDEBUG
SPEC(mvc)(O1) { RES(s); NZ(n); REQUIRE(s == 1); double* p = al(n); outp(0, p); d(1, a, n, 1); outp(4, nullptr); al_free(p, n); }
#else
SPEC(mvc)(O1) { RES(s); NZ(n); REQUIRE(s == 1); double* p = al(n); outp(0, p); d(1, a, n, 1); outp(4, nullptr); al_free(p, n); }
#endif
template <bool M> using ST = st_alloc<double, false, M, false>;
template <bool M> static void mvst(L ia, L n, L m, L x) { array<double, S1, ST<M>> y(S1(dim<>(0, n, 1)), ST<M>(ia)); auto z = move_reinterpret_shape(std::move(y), S1(dim<>(0, m, 1)), x); outp(0, z.base()); out(1, z.get_allocator().id); outp(2, y.base()); }
IMPL(mvst_t)(L ia, L n, L m, L x) { NZ(n); NZ(m); ASSUME(x >= 0 && x + m <= n); mvst<true>(ia, n, m, x); }
#define ARA(p, id, n) double* p = (double*)ar_alloc(id, n); ASSUME(p != nullptr)
#define FOR(i, n) for (L i = 0; i < (n); i++)
SPEC(mvst_t)(L ia, L n, L m, L x) { NZ(n); NZ(m); ASSUME(x >= 0 && x + m <= n); ARA(p, ia, n); FOR(i, n) p[i] = 0; outp(0, p + x); out(1, ia); outp(2, nullptr); ar_free(ia, p, n); }
IMPL(mvst_f)(L ia, L n, L m, L x) { NZ(n); NZ(m); ASSUME(x >= 0 && x + m <= n); REQUIRE(ia == 0); mvst<false>(ia, n, m, x); }
SPEC(mvst_f)(L ia, L n, L m, L x) { NZ(n); NZ(m); ASSUME(x >= 0 && x + m <= n); REQUIRE(ia == 0); ARA(p, 0, n); FOR(i, n) p[i] = 0; outp(0, p + x); out(1, 0); outp(2, nullptr); ar_free(0, p, n); }
