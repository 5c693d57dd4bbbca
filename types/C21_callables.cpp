// std: cxx14 cxx20 gcc
// thorough: cxx17 int
// Every traversal and algorithm accepts, by lvalue, a callable that can be neither copied nor moved; every moving
// operation works for elements that can only be moved.  A program that copied (or moved from) either would not compile.
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "array/z_order.h"
#include <memory>
#include <vector>
using namespace nda;
typedef index_t I;
struct Pin { Pin(); Pin(const Pin&) = delete; Pin(Pin&&) = delete; Pin& operator=(const Pin&) = delete; Pin& operator=(Pin&&) = delete; };
// callable with any arguments; as a const object only when F is fn_c
struct Fn : Pin { template <class... T> void operator()(T&&...) {} };
struct FnC : Pin { template <class... T> void operator()(T&&...) const {} };
struct Gen : Pin { int operator()() { return n++; } int n = 0; };
struct Ix : Pin { template <class T> int operator()(const T&) { return n++; } int n = 0; };
struct Ixs : Pin { int operator()(I, I) { return n++; } int n = 0; };
typedef std::unique_ptr<int> U;
struct MO { MO(); MO(MO&&); MO& operator=(MO&&); MO(const MO&) = delete; MO& operator=(const MO&) = delete; ~MO(); };
extern Fn fn; extern FnC fc; extern Gen gen; extern Ix ix; extern Ixs ixs;
extern shape_of_rank<2> s2; extern shape_of_rank<3> s3; extern shape_of_rank<1> s1; extern shape<> s0; extern dense_shape<4> s4;
extern dense_array<int, 2> a; extern const dense_array<int, 2> ca; extern dense_array_ref<int, 2> rf; extern dense_array<int, 0> a0;
extern planar_image<int> pl; extern chunky_image<int, 3> ch; extern matrix<int> m; extern matrix_ref<int> mr;
#define T(name, ...) void name() { __VA_ARGS__; }
#if defined(CASE_index) // compile
T(f, for_each_index(s2, fn); for_all_indices(s2, fn); for_each_index(s1, fn); for_all_indices(s3, fn); for_each_index(s0, fn); for_all_indices(s4, fn); for_each_index(s2, Fn()); for_all_indices(s2, Fn()))
#elif defined(CASE_index_const) // compile
T(f, const FnC& c = fc; for_each_index(s2, c); for_all_indices(s2, c); for_each_index<1, 0>(s2, c); for_all_indices<1, 0>(s2, c))
#elif defined(CASE_order) // compile
T(f, for_each_index<1, 0>(s2, fn); for_all_indices<1, 0>(s2, fn); for_each_index<0>(s1, fn); for_all_indices<2, 0, 1>(s3, fn); for_each_index<2, 1, 0>(s3, fn); for_each_index<1, 0>(s2, Fn()); for_all_indices<1, 0>(s2, Fn()))
#elif defined(CASE_in_order) // compile
T(f, for_each_index_in_order(s2, fn); for_each_index_in_order(s0, fn); for_each_index_in_order(s3, fn); for_each_value_in_order(s2, a.base(), fn))
#elif defined(CASE_traits) // compile
T(f, shape_traits<shape_of_rank<3>>::for_each_index(s3, fn); shape_traits<shape_of_rank<2>>::for_each_value(s2, a.base(), fn); shape_traits<planar_image_shape>::for_each_index(pl.shape(), fn); shape_traits<planar_image_shape>::for_each_value(pl.shape(), pl.base(), fn); shape_traits<chunky_image_shape<3>>::for_each_index(ch.shape(), fn); shape_traits<chunky_image_shape<3>>::for_each_value(ch.shape(), ch.base(), fn); shape_traits<matrix_shape<>>::for_each_index(m.shape(), fn); shape_traits<matrix_shape<>>::for_each_value(m.shape(), m.base(), fn))
#elif defined(CASE_traits_temp) // compile
#define TT(S, s, b) shape_traits<S>::for_each_index(s, Fn()); shape_traits<S>::for_each_value(s, b, Fn()); shape_traits<S>::for_each_index(s, fc); shape_traits<S>::for_each_value(s, b, fc)
T(f, chunky_image<int, 3, 4> cp; chunky_image<int> cd; TT(shape_of_rank<2>, s2, a.base()); TT(shape_of_rank<3>, s3, a.base()); TT(planar_image_shape, pl.shape(), pl.base()); TT(chunky_image_shape<3>, ch.shape(), ch.base()); typedef chunky_image_shape<3, 4> CP; TT(CP, cp.shape(), cp.base()); TT(chunky_image_shape<>, cd.shape(), cd.base()); TT(matrix_shape<>, m.shape(), m.base()); shape_traits<CP>::for_each_index(cp.shape(), fn); shape_traits<CP>::for_each_value(cp.shape(), cp.base(), fn); shape_traits<chunky_image_shape<>>::for_each_index(cd.shape(), fn); shape_traits<chunky_image_shape<>>::for_each_value(cd.shape(), cd.base(), fn); for_each_image_index(pl.shape(), fn); for_each_image_index(pl.shape(), Fn()); for_each_image_index(pl.shape(), fc); for_each_image_index(ch.shape(), fn); for_each_index_in_order(s2, Fn()); for_each_index_in_order(s2, fc); for_each_value_in_order(s2, a.base(), Fn()); for_each_value_in_order(s2, a.base(), fc))
#elif defined(CASE_copy_traits) // compile
T(f, typedef copy_shape_traits<shape_of_rank<2>, dense_shape<2>> CT; CT::for_each_value(s2, a.base(), rf.shape(), rf.base(), fn); CT::for_each_value(s2, a.base(), rf.shape(), rf.base(), Fn()); CT::for_each_value(s2, a.base(), rf.shape(), rf.base(), fc); typedef copy_shape_traits<shape<>, shape<>> C0; C0::for_each_value(s0, a0.base(), s0, a0.base(), fn); C0::for_each_value(s0, a0.base(), s0, a0.base(), Fn()))
#elif defined(CASE_traits_fixed) // compile
T(f, small_matrix<int, 2, 3> x; shape_traits<matrix_shape<2, 3>>::for_each_index(x.shape(), fn); shape_traits<matrix_shape<2, 3>>::for_each_value(x.shape(), x.base(), fn))
#elif defined(CASE_value) // compile
T(f, a.for_each_value(fn); ca.for_each_value(fn); rf.for_each_value(fn); a0.for_each_value(fn); pl.for_each_value(fn); ch.for_each_value(fn); m.for_each_value(fn); mr.for_each_value(fn); a.for_each_value(Fn()); rf.for_each_value(Fn()))
#elif defined(CASE_value_const) // compile
T(f, const FnC& c = fc; a.for_each_value(c); ca.for_each_value(c); rf.for_each_value(c); pl.for_each_value(c); ch.for_each_value(c); m.for_each_value(c))
#elif defined(CASE_generate) // compile
T(f, generate(a, gen); generate(rf, gen); generate(a, Gen()); generate(rf, Gen()); generate(a0, gen); generate(pl, gen); generate(ch, gen); generate(m, gen))
#elif defined(CASE_transform) // compile
T(f, transform_index(a, ix); transform_index(rf, ix); transform_index(a, Ix()); transform_index(rf, Ix()); transform_indices(a, ixs); transform_indices(rf, ixs); transform_indices(a, Ixs()); transform_indices(rf, Ixs()))
#elif defined(CASE_z_order) // compile
T(f, std::vector<int> v; std::vector<double> w; auto t = std::make_tuple(v, w); for_each_in_z_order(t, fc); for_all_in_z_order(t, fc); auto u = std::make_tuple(split<4>(interval<>(0, 10)), split(interval<>(0, 9), 3)); for_each_in_z_order(u, fc); for_all_in_z_order(u, fc))
// ---- the caller's object is called as the lvalue it is, also when it was passed as a temporary
#elif defined(CASE_lvalue_call) // compile
struct L : Pin { template <class... X> void operator()(X&&...) & {} template <class... X> void operator()(X&&...) && = delete; }; struct LG : Pin { int operator()() & { return 1; } int operator()() && = delete; };
T(f, L l; LG g; for_each_index(s2, l); for_all_indices(s2, l); for_each_index<1, 0>(s2, l); for_all_indices<1, 0>(s2, l); pl.for_each_value(l); ch.for_each_value(l); shape_traits<planar_image_shape>::for_each_index(pl.shape(), l); shape_traits<matrix_shape<>>::for_each_index(m.shape(), l))
// ---- move-only elements
#elif defined(CASE_mo_move) // compile
T(f, dense_array<MO, 2> x({2, 3}); dense_array<MO, 2> y({2, 3}); array_of_rank<MO, 2> z({2, 3}); nda::move(x, y); nda::move(x, y.ref()); nda::move(x.ref(), y); nda::move(x.ref(), y.ref()); nda::move(x, z); nda::move(std::move(x), y))
#elif defined(CASE_mo_make_move) // compile
T(f, dense_array<MO, 2> x({2, 3}); auto y = make_move(x, x.shape()); auto z = make_move(x.ref(), x.shape()); auto w = make_move(std::move(x), x.shape()); auto v = make_move(y, shape_of_rank<2>(2, 3)); auto u = make_move(y.ref(), shape_of_rank<2>(2, 3)); auto q = make_move(std::move(y), y.shape(), y.get_allocator()))
#elif defined(CASE_mo_compact) // compile
T(f, dense_array<MO, 2> x({2, 3}); auto y = make_compact_move(x); auto z = make_compact_move(x.ref()); auto w = make_compact_move(std::move(x)); auto v = make_compact_move(y, std::allocator<MO>()); array_of_rank<U, 3> t({1, 2, 3}); auto u = make_compact_move(t); auto u2 = make_compact_move(std::move(t)))
#elif defined(CASE_mo_array) // compile
T(f, dense_array<MO, 2> x({2, 3}); dense_array<MO, 2> y(std::move(x)); x = std::move(y); dense_array<MO, 2> z(std::move(x), std::allocator<MO>()); x.clear(); swap(x, z); x.assign(std::move(z)); dense_array<MO, 2> w; w = dense_array<MO, 2>({1, 1}); x.swap(w))
#elif defined(CASE_mo_small) // compile
T(f, dense_array<MO, 1, auto_allocator<MO, 8>> x({4}); dense_array<MO, 1, auto_allocator<MO, 8>> y(std::move(x)); x = std::move(y); array<U, fixed_dense_shape<2, 3>, auto_allocator<U, 6>> p; auto q = std::move(p); p = std::move(q))
#elif defined(CASE_mo_reshape) // compile
T(f, dense_array<MO, 2> x({2, 3}); x.reshape({3, 4}); auto c = reinterpret_shape(x, dense_shape<1>(4)); array_of_rank<U, 1> u({5}); u.reshape({7}))
#elif defined(CASE_mo_views) // compile
T(f, dense_array<MO, 2> x({2, 3}); x(0, _); x.ref(); x.cref(); x(1, 2) = MO(); x[std::make_tuple(I(0), I(1))] = MO(); x.for_each_value(fn); rf.for_each_value(fn); transform_index(x, [](const std::tuple<I, I>&) { return MO(); }); transform_indices(x, [](I, I) { return MO(); }); generate(x, [] { return MO(); }); transpose<1, 0>(x); reorder<0>(x); split<1>(x.i()))
// ---- copying never changes the source
#elif defined(CASE_copy_const) // compile
T(f, dense_array<int, 2> x(ca.shape()); copy(ca, x); copy(ca.ref(), x); copy(ca, x.ref()); copy(ca.cref(), x.ref()); dense_array<int, 2> y(ca); y = ca; y.assign(ca); auto z = make_copy(ca); auto w = make_copy(ca, shape_of_rank<2>(2, 3)); auto v = make_compact_copy(ca); auto c = make_copy(ca.ref()); auto d = make_compact_copy(ca.cref()); equal(ca, y); (void)(ca == y); fill(y, 3))
#elif defined(CASE_move_const) // reject
T(f, dense_array<MO, 2> x({2, 3}); const dense_array<MO, 2>& c = x; dense_array<MO, 2> y({2, 3}); nda::move(c, y))
#elif defined(CASE_copy_move_only) // reject
T(f, dense_array<MO, 2> x({2, 3}); dense_array<MO, 2> y({2, 3}); copy(x, y))
#elif defined(CASE_copy_ctor_move_only) // reject
T(f, dense_array<MO, 2> x({2, 3}); dense_array<MO, 2> y(x))
#endif
