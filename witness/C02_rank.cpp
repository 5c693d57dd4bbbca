// modes: ndebug assert
// thorough: ndebug17
// The metrics of shapes of rank 4 to 6, and of shapes known at compile time.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
static L mn(L a, L b) { return a < b ? a : b; }
static L mx(L a, L b) { return a > b ? a : b; }
static L ab(L a) { return a < 0 ? -a : a; }
#define P5 L a, L n, L s, L b, L m, L t, L c, L o, L u, L d, L p, L v, L e, L q, L w
#define S5 shape_of_rank<5>({a, n, s}, {b, m, t}, {c, o, u}, {d, p, v}, {e, q, w})
template <class T> static void five(int k, const T& x) { out(k, std::get<0>(x)); out(k + 1, std::get<1>(x)); out(k + 2, std::get<2>(x)); out(k + 3, std::get<3>(x)); out(k + 4, std::get<4>(x)); }
static void five_(int k, L a, L b, L c, L d, L e) { out(k, a); out(k + 1, b); out(k + 2, c); out(k + 3, d); out(k + 4, e); }
IMPL(bounds5)(P5) { auto h = S5; five(0, h.min()); five(5, h.max()); five(10, h.extent()); five(15, h.stride()); out(20, h.rank()); }
SPEC(bounds5)(P5) { five_(0, a, b, c, d, e); five_(5, a + n - 1, b + m - 1, c + o - 1, d + p - 1, e + q - 1); five_(10, n, m, o, p, q); five_(15, s, t, u, v, w); out(20, 5); }
IMPL(dimrt5)(P5, L i) { REQUIRE(i >= 0 && i < 5); auto x = S5.dim((size_t)i); out(0, x.min()); out(1, x.extent()); out(2, x.stride()); }
SPEC(dimrt5)(P5, L i) { REQUIRE(i >= 0 && i < 5); out(0, i == 0 ? a : i == 1 ? b : i == 2 ? c : i == 3 ? d : e); out(1, i == 0 ? n : i == 1 ? m : i == 2 ? o : i == 3 ? p : q); out(2, i == 0 ? s : i == 1 ? t : i == 2 ? u : i == 3 ? v : w); }
IMPL(dimct5)(P5) { auto h = S5; five_(0, h.dim<0>().min(), h.dim<1>().min(), h.dim<2>().min(), h.dim<3>().min(), h.dim<4>().min()); const auto& k = h; five_(5, k.dim<0>().stride(), k.dim<1>().stride(), k.dim<2>().stride(), k.dim<3>().stride(), k.dim<4>().stride()); five_(10, h.i().extent(), h.j().extent(), h.k().extent(), std::get<3>(h.dims()).extent(), std::get<4>(h.dims()).extent()); }
SPEC(dimct5)(P5) { five_(0, a, b, c, d, e); five_(5, s, t, u, v, w); five_(10, n, m, o, p, q); }
#define NN ASSUME(n >= 0 && m >= 0 && o >= 0 && p >= 0 && q >= 0)
RIMPL(L, size5)(P5) { NN; return S5.size(); }
RSPEC(L, size5)(P5) { NN; return n * m * o * p * q; }
RIMPL(bool, empty5)(P5) { NN; return S5.empty(); }
RSPEC(bool, empty5)(P5) { NN; return n == 0 || m == 0 || o == 0 || p == 0 || q == 0; }
RIMPL(bool, in5)(P5, L x, L y, L z, L f, L g) { return S5.is_in_range(x, y, z, f, g); }
RSPEC(bool, in5)(P5, L x, L y, L z, L f, L g) { return a <= x && x < a + n && b <= y && y < b + m && c <= z && z < c + o && d <= f && f < d + p && e <= g && g < e + q; }
RIMPL(bool, res5)(P5) { return S5.is_resolved(); }
RSPEC(bool, res5)(P5) { return s != unresolved && t != unresolved && u != unresolved && v != unresolved && w != unresolved; }
// offsets of the corners, four strides of either sign
#define P4 L n, L s, L m, L t, L o, L u, L p, L v
#define S4 shape_of_rank<4>({1, n, s}, {-2, m, t}, {3, o, u}, {0, p, v})
#define N4 ASSUME(n >= 1 && m >= 1 && o >= 1 && p >= 1)
RIMPL(L, fmin4)(P4) { N4; return S4.flat_min(); }
RSPEC(L, fmin4)(P4) { N4; return (n - 1) * mn(s, 0) + (m - 1) * mn(t, 0) + (o - 1) * mn(u, 0) + (p - 1) * mn(v, 0); }
RIMPL(L, fmax4)(P4) { N4; return S4.flat_max(); }
RSPEC(L, fmax4)(P4) { N4; return (n - 1) * mx(s, 0) + (m - 1) * mx(t, 0) + (o - 1) * mx(u, 0) + (p - 1) * mx(v, 0); }
RIMPL(L, fext4)(P4) { N4; return S4.flat_extent(); }
RSPEC(L, fext4)(P4) { N4; return (n - 1) * ab(s) + (m - 1) * ab(t) + (o - 1) * ab(u) + (p - 1) * ab(v) + 1; }
#define P3 L n, L s, L m, L t, L o, L u
#define S3 shape_of_rank<3>({1, n, s}, {-2, m, t}, {3, o, u})
#define N3 ASSUME(n >= 1 && m >= 1 && o >= 1)
RIMPL(bool, compact3)(P3) { N3; return S3.is_compact(); }
RSPEC(bool, compact3)(P3) { N3; return (n - 1) * ab(s) + (m - 1) * ab(t) + (o - 1) * ab(u) + 1 <= n * m * o; }
RIMPL(bool, onetoone3)(P3) { N3; return S3.is_one_to_one(); }
RSPEC(bool, onetoone3)(P3) { N3; return (n - 1) * ab(s) + (m - 1) * ab(t) + (o - 1) * ab(u) + 1 >= n * m * o; }
RIMPL(bool, scalar)(P3) { return shape<>().is_scalar() && !S3.is_scalar() && !shape_of_rank<1>().is_scalar(); }
RSPEC(bool, scalar)(P3) { return true; }
RIMPL(bool, fixed)() { fixed_dense_shape<4, 3, 2> f; fixed_dense_shape<4, 0> z; shape<dim<2, 3, -5>, dim<-1, 2, 20>> g; return f.size() == 24 && !f.empty() && f.flat_extent() == 24 && f.flat_min() == 0 && f.flat_max() == 23 && f.is_compact() && z.empty() && z.size() == 0 && g.flat_min() == -10 && g.flat_max() == 20 && g.flat_extent() == 31 && !g.is_compact() && g.is_one_to_one(); }
RSPEC(bool, fixed)() { return true; }
// six dimensions
#define P6 L n, L m, L o, L p, L q, L r
#define S6 shape_of_rank<6>({1, n, 7}, {-2, m, -11}, {3, o, 13}, {0, p, -17}, {5, q, 0}, {6, r, 23})
#define N6 ASSUME(n >= 1 && m >= 1 && o >= 1 && p >= 1 && q >= 1 && r >= 1)
IMPL(six)(P6) { N6; auto h = S6; out(0, h.flat_min()); out(1, h.flat_max()); out(2, h.flat_extent()); out(3, h.size()); out(4, h.dim(5).min()); out(5, h.dim(4).extent()); out(6, std::get<5>(h.max())); out(7, h.rank()); }
SPEC(six)(P6) { N6; out(0, (m - 1) * -11 + (p - 1) * -17); out(1, (n - 1) * 7 + (o - 1) * 13 + (r - 1) * 23); out(2, (n - 1) * 7 + (m - 1) * 11 + (o - 1) * 13 + (p - 1) * 17 + (r - 1) * 23 + 1); out(3, n * m * o * p * q * r); out(4, 6); out(5, q); out(6, 5 + r); out(7, 6); }
// the metrics at every rank, and with parts known at compile time, strides of both signs
template <class S> static void metrics(const S& h) { out(0, h.flat_min()); out(1, h.flat_max()); out(2, h.flat_extent()); out(3, h.size()); out(4, h.rank()); out(5, h.is_compact()); out(6, h.is_one_to_one()); out(7, h.empty()); }
static void metrics(L lo, L hi, L size, L rank) { out(0, lo); out(1, hi); out(2, hi - lo + 1); out(3, size); out(4, rank); out(5, hi - lo + 1 <= size); out(6, hi - lo + 1 >= size); out(7, 0); }
#define E7 L n, L m, L o, L p, L q, L r, L v, L a
#define N7 ASSUME(n >= 1 && m >= 1 && o >= 1 && p >= 1 && q >= 1 && r >= 1 && v >= 1)
#define MET(id, shp, lo, hi, size, rank) IMPL(id)(E7) { N7; metrics(shp); } SPEC(id)(E7) { N7; metrics(lo, hi, size, rank); }
MET(met1, (shape_of_rank<1>({a, n, -3})), (n - 1) * -3, 0, n, 1)
MET(met1b, (shape_of_rank<1>({a, n, 2})), 0, (n - 1) * 2, n, 1)
MET(met1c, (shape_of_rank<1>({a, n, 0})), 0, 0, n, 1)
MET(met1d, (shape<broadcast_dim<>>({a, n})), 0, 0, n, 1)
MET(met2b, (shape_of_rank<2>({a, n, 2}, {a, m, 0})), 0, (n - 1) * 2, n * m, 2)
MET(met2, (shape_of_rank<2>({a, n, -3}, {a, m, 5})), (n - 1) * -3, (m - 1) * 5, n * m, 2)
MET(met3, (shape_of_rank<3>({a, n, 3}, {a, m, -5}, {a, o, 7})), (m - 1) * -5, (n - 1) * 3 + (o - 1) * 7, n * m * o, 3)
MET(met4, (shape_of_rank<4>({a, n, 3}, {a, m, -5}, {a, o, 7}, {a, p, -4})), (m - 1) * -5 + (p - 1) * -4, (n - 1) * 3 + (o - 1) * 7, n * m * o * p, 4)
MET(met5, (shape_of_rank<5>({a, n, -3}, {a, m, 5}, {a, o, -7}, {a, p, 4}, {a, q, 20})), (n - 1) * -3 + (o - 1) * -7, (m - 1) * 5 + (p - 1) * 4 + (q - 1) * 20, n * m * o * p * q, 5)
MET(met7, (shape_of_rank<7>({a, n, -3}, {a, m, 5}, {a, o, -7}, {a, p, 4}, {a, q, 20}, {a, r, -2}, {a, v, 0})), (n - 1) * -3 + (o - 1) * -7 + (r - 1) * -2, (m - 1) * 5 + (p - 1) * 4 + (q - 1) * 20, n * m * o * p * q * r * v, 7)
MET(mets1, (shape<dim<2, 5, -3>, dim<dynamic, 3>, dense_dim<>>({}, {a, 3, 11}, {a, n})), -12, 22 + n - 1, 15 * n, 3)
MET(mets2, (shape<dim<2>, dim<dynamic, dynamic, -4>, broadcast_dim<>>({2, n, 6}, {a, m}, {a, o})), (m - 1) * -4, (n - 1) * 6, n * m * o, 3)
MET(mets3, (shape<dim<dynamic, 1>, dim<1, 4>, dim<0, dynamic, 100>, dim<>>({a, 1, -50}, {1, 4, 9}, {0, m}, {a, n, -2})), (n - 1) * -2, 27 + (m - 1) * 100, 4 * n * m, 4)
MET(mets4, (shape<fixed_dim<6>, dim<>>({a, 6, -9}, {a, n, 54})), -45, (n - 1) * 54, 6 * n, 2)
// an extent of zero anywhere makes it empty and of size zero
#define EMP(id, shp, n_) IMPL(id)(L a, L n, L m) { ASSUME(n >= 0 && m >= 1); auto h = shp; out(0, h.empty()); out(1, h.size()); } SPEC(id)(L a, L n, L m) { ASSUME(n >= 0 && m >= 1); out(0, (n_) == 0); out(1, n_); }
EMP(emp1, (shape_of_rank<1>({a, n, -3})), n)
EMP(emp2, (shape<dense_dim<>, dim<>>({a, m}, {a, n})), n * m)
EMP(emp3, (shape<dim<1, 3>, dim<>, dim<dynamic, 0>>({1, 3, m}, {a, n}, {a, 0, 2})), 0)
EMP(emp4, (shape<dim<1>, fixed_dim<3>, dim<>, dim<>>({1, n, m}, {a, 3}, {a, m, 0}, {a, 2, 2})), n * m * 6)
EMP(emp5, (shape_of_rank<5>({1, m, m}, {a, 3}, {a, m, 0}, {a, 2, 2}, {2, n, 9})), n * m * m * 6)
