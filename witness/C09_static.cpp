// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Index loops over dims with parts known at compile time, at each position of each rank.
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define FOR(i, a, n) for (L i = (a); i < (a) + (n); i++)
#define Q L a, L n, L b, L m, L c, L o, L s
#define NN ASSUME(n >= 0 && m >= 0 && o >= 0 && s != unresolved)
#define IDX1 [](const index_of_rank<1>& i) { visit1(std::get<0>(i)); }
#define IDX2 [](const index_of_rank<2>& i) { visit2(std::get<0>(i), std::get<1>(i)); }
#define IDX3 [](const index_of_rank<3>& i) { visit3(std::get<0>(i), std::get<1>(i), std::get<2>(i)); }
#define IDX4 [](const index_of_rank<4>& i) { visit4(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i)); }
#define IDX5 [](const index_of_rank<5>& i) { visit5(std::get<0>(i), std::get<1>(i), std::get<2>(i), std::get<3>(i), std::get<4>(i)); }
// the dim under test (kind K, range A.., N) alone, and first, middle and last among run-time ones
#define KIND(id, K, D, A, N) \
  IMPL(one_##id)(Q) { NN; shape<K> h(D); for_each_index(h, IDX1); for_all_indices<0>(h, visit1); } SPEC(one_##id)(Q) { NN; FOR(i, A, N) visit1(i); FOR(i, A, N) visit1(i); } \
  IMPL(fst_##id)(Q) { NN; shape<K, dim<>> h(D, dim<>(b, m)); for_each_index(h, IDX2); } SPEC(fst_##id)(Q) { NN; FOR(j, b, m) FOR(i, A, N) visit2(i, j); } \
  IMPL(snd_##id)(Q) { NN; shape<dim<>, K> h(dim<>(b, m), D); for_each_index(h, IDX2); } SPEC(snd_##id)(Q) { NN; FOR(i, A, N) FOR(j, b, m) visit2(j, i); } \
  IMPL(mid_##id)(Q) { NN; shape<dim<>, K, dim<>> h(dim<>(b, m), D, dim<>(c, o)); for_each_index(h, IDX3); } SPEC(mid_##id)(Q) { NN; FOR(k, c, o) FOR(i, A, N) FOR(j, b, m) visit3(j, i, k); } \
  IMPL(lst_##id)(Q) { NN; shape<dim<>, dim<>, K> h(dim<>(b, m), dim<>(c, o), D); for_all_indices(h, visit3); } SPEC(lst_##id)(Q) { NN; FOR(i, A, N) FOR(k, c, o) FOR(j, b, m) visit3(j, k, i); } \
  IMPL(f3_##id)(Q) { NN; shape<K, dim<>, dim<>> h(D, dim<>(b, m), dim<>(c, o)); for_all_indices<1, 2, 0>(h, visit3); } SPEC(f3_##id)(Q) { NN; FOR(i, A, N) FOR(k, c, o) FOR(j, b, m) visit3(i, j, k); } \
  IMPL(p4_##id)(Q) { NN; shape<dim<>, K, dim<>, dim<>> h(dim<>(b, m), D, dim<>(c, o), dim<>(a, m)); for_each_index(h, IDX4); } SPEC(p4_##id)(Q) { NN; FOR(l, a, m) FOR(k, c, o) FOR(i, A, N) FOR(j, b, m) visit4(j, i, k, l); } \
  IMPL(q4_##id)(Q) { NN; shape<dim<>, dim<>, K, dim<>> h(dim<>(b, m), dim<>(c, o), D, dim<>(a, m)); for_each_index(h, IDX4); } SPEC(q4_##id)(Q) { NN; FOR(l, a, m) FOR(i, A, N) FOR(k, c, o) FOR(j, b, m) visit4(j, k, i, l); } \
  IMPL(r4_##id)(Q) { NN; shape<dim<>, dim<>, dim<>, K> h(dim<>(b, m), dim<>(c, o), dim<>(a, m), D); for_each_index(h, IDX4); } SPEC(r4_##id)(Q) { NN; FOR(i, A, N) FOR(l, a, m) FOR(k, c, o) FOR(j, b, m) visit4(j, k, l, i); } \
  IMPL(p5_##id)(Q) { NN; shape<dim<>, dim<>, K, dim<>, dim<>> h(dim<>(b, m), dim<>(c, o), D, dim<>(a, m), dim<>(2, o)); for_each_index(h, IDX5); } SPEC(p5_##id)(Q) { NN; FOR(x, 2, o) FOR(l, a, m) FOR(i, A, N) FOR(k, c, o) FOR(j, b, m) visit5(j, k, i, l, x); }
KIND(dyn, dim<>, dim<>(a, n, s), a, n)
KIND(min, dim<-4>, dim<-4>(-4, n, s), -4, n)
KIND(ext, fixed_dim<2>, fixed_dim<2>(a, 2, s), a, 2)
KIND(unit, fixed_dim<1>, fixed_dim<1>(a, 1, s), a, 1)
KIND(dense, dense_dim<>, dense_dim<>(a, n), a, n)
KIND(bc, broadcast_dim<>, broadcast_dim<>(a, n), a, n)
KIND(neg, strided_dim<-3>, strided_dim<-3>(a, n), a, n)
typedef dim<5, 2> K52; typedef dim<0, 3, 7> K037; typedef dim<dynamic, 2, 1> KD21; typedef dim<3, dynamic, 0> K3D0;
KIND(minext, K52, K52(5, 2, s), 5, 2)
KIND(all, K037, K037{}, 0, 3)
KIND(extst, KD21, KD21(a, 2), a, 2)
KIND(minst, K3D0, K3D0(3, n), 3, n)
KIND(empty, fixed_dim<0>, fixed_dim<0>(a, 0, s), a, 0)
