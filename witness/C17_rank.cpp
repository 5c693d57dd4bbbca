// modes: ndebug assert
// thorough: ndebug17
// Reinterpreting shapes of any rank as shapes of any rank: the base moves by the offset; checked builds stop iff the new box leaves the old one.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static void dd(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define ARGS L a, L n, L b, L m, L c, L o, L d, L q, L x
#define PRE ASSUME(n >= 1 && m >= 1 && o >= 1 && q >= 1 && n < 1000000 && m < 1000000 && o < 1000000 && q < 1000000)
IMPL(re1_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape<> N; array_ref<double, S> r(p, S{{a, n, 2}}); auto v = reinterpret_shape(r, N{}, x); outp(0, v.base()); }
SPEC(re1_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2); outp(0, p + x); }
IMPL(re1_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape_of_rank<1> N; array_ref<double, S> r(p, S{{a, n, 2}}); auto v = reinterpret_shape(r, N{{c, o, 3}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); }
SPEC(re1_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2); outp(0, p + x); dd(1, c, o, 3); }
IMPL(mv1_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape_of_rank<1> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv1_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2); L f = (n - 1) * 2 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re1_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape<dim<>, dim<5>> N; array_ref<double, S> r(p, S{{a, n, 2}}); auto v = reinterpret_shape(r, N{{c, o, 3}, {5, 4, 1}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); }
SPEC(re1_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); }
IMPL(mv1_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape<dim<>, dim<5>> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}, {5, 4, 1}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv1_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2); L f = (n - 1) * 2 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re1_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape_of_rank<3> N; array_ref<double, S> r(p, S{{a, n, 2}}); auto v = reinterpret_shape(r, N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); dm(7, v.template dim<2>()); }
SPEC(re1_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); }
IMPL(mv1_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2); typedef shape_of_rank<1> S; typedef shape_of_rank<3> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}}); auto z = move_reinterpret_shape(std::move(y), N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); dm(7, z.template dim<2>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv1_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2); L f = (n - 1) * 2 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re2_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape<> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}}); auto v = reinterpret_shape(r, N{}, x); outp(0, v.base()); }
SPEC(re2_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2 + (m - 1) * 3); outp(0, p + x); }
IMPL(re2_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape_of_rank<1> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}}); auto v = reinterpret_shape(r, N{{c, o, 3}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); }
SPEC(re2_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3); outp(0, p + x); dd(1, c, o, 3); }
IMPL(mv2_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape_of_rank<1> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv2_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3); L f = (n - 1) * 2 + (m - 1) * 3 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re2_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape<dim<>, dim<5>> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}}); auto v = reinterpret_shape(r, N{{c, o, 3}, {5, 4, 1}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); }
SPEC(re2_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); }
IMPL(mv2_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape<dim<>, dim<5>> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}, {5, 4, 1}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv2_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3); L f = (n - 1) * 2 + (m - 1) * 3 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re2_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape_of_rank<3> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}}); auto v = reinterpret_shape(r, N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); dm(7, v.template dim<2>()); }
SPEC(re2_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); }
IMPL(mv2_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3); typedef shape_of_rank<2> S; typedef shape_of_rank<3> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}}); auto z = move_reinterpret_shape(std::move(y), N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); dm(7, z.template dim<2>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv2_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3); L f = (n - 1) * 2 + (m - 1) * 3 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re3_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape<> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto v = reinterpret_shape(r, N{}, x); outp(0, v.base()); }
SPEC(re3_0)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + 0 <= (n - 1) * 2 + (m - 1) * 3 + 28); outp(0, p + x); }
IMPL(re3_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape_of_rank<1> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto v = reinterpret_shape(r, N{{c, o, 3}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); }
SPEC(re3_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); outp(0, p + x); dd(1, c, o, 3); }
IMPL(mv3_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape_of_rank<1> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv3_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); L f = (n - 1) * 2 + (m - 1) * 3 + 28 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re3_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape<dim<>, dim<5>> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto v = reinterpret_shape(r, N{{c, o, 3}, {5, 4, 1}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); }
SPEC(re3_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); }
IMPL(mv3_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape<dim<>, dim<5>> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}, {5, 4, 1}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv3_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) * 3 + 28); L f = (n - 1) * 2 + (m - 1) * 3 + 28 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re3_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape_of_rank<3> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto v = reinterpret_shape(r, N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); dm(7, v.template dim<2>()); }
SPEC(re3_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3 + 28); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); }
IMPL(mv3_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3 + 28); typedef shape_of_rank<3> S; typedef shape_of_rank<3> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m, 3}, {1, 5, 7}}); auto z = move_reinterpret_shape(std::move(y), N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); dm(7, z.template dim<2>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv3_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) * 3 + 28); L f = (n - 1) * 2 + (m - 1) * 3 + 28 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re4_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape_of_rank<1> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto v = reinterpret_shape(r, N{{c, o, 3}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); }
SPEC(re4_1)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); outp(0, p + x); dd(1, c, o, 3); }
IMPL(mv4_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape_of_rank<1> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv4_1)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); L f = (n - 1) * 2 + (m - 1) + 50 + 27 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re4_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape<dim<>, dim<5>> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto v = reinterpret_shape(r, N{{c, o, 3}, {5, 4, 1}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); }
SPEC(re4_2)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); }
IMPL(mv4_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape<dim<>, dim<5>> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto z = move_reinterpret_shape(std::move(y), N{{c, o, 3}, {5, 4, 1}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv4_2)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 3 + 3 <= (n - 1) * 2 + (m - 1) + 50 + 27); L f = (n - 1) * 2 + (m - 1) + 50 + 27 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, c, o, 3); dd(4, 5, 4, 1); outp(20, nullptr); out(21, 0); al_free(p, f); }
IMPL(re4_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape_of_rank<3> N; array_ref<double, S> r(p, S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto v = reinterpret_shape(r, N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, v.base()); dm(1, v.template dim<0>()); dm(4, v.template dim<1>()); dm(7, v.template dim<2>()); }
SPEC(re4_3)(double* p, ARGS) { PRE; ASSUME(p != nullptr); REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) + 50 + 27); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); }
IMPL(mv4_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) + 50 + 27); typedef shape<dim<>, dense_dim<>, dim<3, 2>, dim<dynamic, 4>> S; typedef shape_of_rank<3> N; array<double, S, vf_alloc<double>> y(S{{a, n, 2}, {b, m}, {3, 2, 50}, {1, 4, 9}}); auto z = move_reinterpret_shape(std::move(y), N{{2, 2, 50}, {c, o, 4}, {d, q, 2}}, x); outp(0, z.base()); dm(1, z.template dim<0>()); dm(4, z.template dim<1>()); dm(7, z.template dim<2>()); outp(20, y.base()); out(21, y.size()); }
SPEC(mv4_3)(ARGS) { PRE; REQUIRE(x >= 0 && x + (o - 1) * 4 + (q - 1) * 2 + 50 <= (n - 1) * 2 + (m - 1) + 50 + 27); L f = (n - 1) * 2 + (m - 1) + 50 + 27 + 1; double* p = (double*)al_alloc(f); ASSUME(p != nullptr); outp(0, p + x); dd(1, 2, 2, 50); dd(4, c, o, 4); dd(7, d, q, 2); outp(20, nullptr); out(21, 0); al_free(p, f); }
