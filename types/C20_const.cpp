// std: cxx14
// thorough: cxx17 cxx20 gcc int
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include <type_traits>
#include <utility>
using namespace nda;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class X> X&& dv();
struct EL { int v; EL(); EL(int); EL& operator+=(const EL&); };
typedef dense_array<int, 2> A2;
typedef array_of_rank<int, 3> A3;
typedef dense_array<int, 0> A0;
typedef array<int, fixed_dense_shape<4, 3>, auto_allocator<int, 12>> AX;
typedef array<int, image_shape, uninitialized_std_allocator<int>> AI;
typedef dense_array<EL, 2> AE;
typedef dense_array_ref<int, 2> R2;
typedef const_dense_array_ref<int, 2> CR2;
typedef array_ref_of_rank<int, 3> R3;
typedef const_array_ref_of_rank<int, 3> CR3;
typedef index_t I;
typedef interval<> V;
template <class Ref> using elem = typename std::remove_reference<Ref>::type::value_type;
// Is the element type handed out by a reference, pointer or view const?
template <class X> struct con;
template <class T> struct con<T&> : con<typename std::remove_cv<T>::type> {};
template <class T> struct con<T&&> : con<typename std::remove_cv<T>::type> {};
template <class T> struct con<T*> : std::is_const<T> {};
template <> struct con<int&> : std::false_type {};
template <> struct con<EL&> : std::false_type {};
template <> struct con<const EL&> : std::true_type {};
template <> struct con<const int&> : std::true_type {};
template <> struct con<int> : std::true_type {};
template <class T, class S> struct con<array_ref<T, S>> : std::is_const<T> {};
template <class T, class S> struct con<const array_ref<T, S>> : std::is_const<T> {};
template <class T, class S, class A> struct con<array<T, S, A>> : std::false_type {};
template <class T, class S, class A> struct con<const array<T, S, A>> : std::true_type {};
#define CONST(...) static_assert(con<decltype(__VA_ARGS__)>::value, "hands out mutable access")
#define MUT(...) static_assert(!con<decltype(__VA_ARGS__)>::value, "hands out const access")
// what: a functor that accepts only mutable / any references
struct wants_mut { void operator()(int&) const; };
struct wants_const { void operator()(const int&) const; };
template <class A, class F> auto can_each(int) -> decltype(dv<A>().for_each_value(dv<F>()), std::true_type());
template <class A, class F> std::false_type can_each(...);
#define EACH(A, F) (decltype(can_each<A, F>(0))::value)
template <class A, class F> auto can_fev(int) -> decltype(for_each_value_in_order(dv<A>(), dv<F>()), std::true_type());
#define DET(name, ...) \
  template <class A> auto name##_f(int) -> decltype(__VA_ARGS__, std::true_type()); \
  template <class A> std::false_type name##_f(...); \
  template <class A> constexpr bool name = decltype(name##_f<A>(0))::value;

#if defined(CASE_array_access) // compile
template <class A> void check2() {
  typedef const A C;
  CONST(dv<C&>()(I(), I())); CONST(dv<C&>()[dv<typename A::index_type>()]); CONST(dv<C&>().base()); CONST(dv<C&>().data());
  CONST(dv<C>()(I(), I())); CONST(dv<C>().base()); CONST(dv<C>()[dv<typename A::index_type>()]); CONST(dv<C>().data());
  MUT(dv<A&>()(I(), I())); MUT(dv<A&>()[dv<typename A::index_type>()]); MUT(dv<A&>().base()); MUT(dv<A&>().data());
}
template void check2<A2>(); template void check2<AX>(); template void check2<AE>(); template void check2<matrix<int>>();
CONST(dv<const A3&>()(I(), I(), I())); MUT(dv<A3&>()(I(), I(), I())); CONST(dv<const AI&>()(I(), I(), I())); MUT(dv<AI&>()(I(), I(), I()));
CONST(dv<const A0&>()()); MUT(dv<A0&>()()); CONST(dv<const A0&>()[std::tuple<>()]); MUT(dv<A0&>()[std::tuple<>()]);
#elif defined(CASE_array_slices) // compile
template <class A> void check2() {
  typedef const A C;
  CONST(dv<C&>()(I(), _)); CONST(dv<C&>()(_, I())); CONST(dv<C&>()(_, _)); CONST(dv<C&>()(V(), V())); CONST(dv<C&>()(V(), I()));
  CONST(dv<C&>()(I(), range(0, 1))); CONST(dv<C&>()(range<2>(0), _)); CONST(dv<C&>()(dim<>(0, 2), _)); CONST(dv<C&>()(dense_dim<>(0, 2), I()));
  CONST(dv<C&>()[std::make_tuple(I(), _)]); CONST(dv<C&>()[std::make_tuple(_, _)]); CONST(dv<C&>()[std::make_tuple(V(), I())]);
  CONST(dv<C&>()[std::make_tuple(V(), V())]); CONST(dv<C&>()[std::make_tuple(range<2>(0), _)]);
  CONST(dv<C>()(I(), _)); CONST(dv<C>()(V(), V())); CONST(dv<C>()[std::make_tuple(_, _)]);
  MUT(dv<A&>()(I(), _)); MUT(dv<A&>()(_, I())); MUT(dv<A&>()(_, _)); MUT(dv<A&>()(V(), V())); MUT(dv<A&>()(V(), I()));
  MUT(dv<A&>()[std::make_tuple(I(), _)]); MUT(dv<A&>()[std::make_tuple(_, _)]); MUT(dv<A&>()[std::make_tuple(V(), I())]);
  MUT(dv<A&>()(range<2>(0), _));
}
template void check2<A2>(); template void check2<AX>(); template void check2<AE>();
CONST(dv<const A3&>()(_, I(), _)); MUT(dv<A3&>()(_, I(), _)); CONST(dv<const AI&>()(_, _, I())); MUT(dv<AI&>()(_, _, I()));
#elif defined(CASE_ref_access) // compile
// The constness of a view's elements is that of its element type, not of the view object.
CONST(dv<CR2&>()(I(), I())); CONST(dv<const CR2&>()(I(), I())); CONST(dv<CR2&>()[index_of_rank<2>()]); CONST(dv<CR2&>().base()); CONST(dv<CR2&>().data()); CONST(dv<CR2>().data());
CONST(dv<CR2&>()(I(), _)); CONST(dv<CR2&>()(V(), V())); CONST(dv<CR2&>()[std::make_tuple(_, I())]); CONST(dv<const CR2&>()(_, _)); CONST(dv<const CR2&>()[std::make_tuple(V(), _)]);
MUT(dv<R2&>()(I(), I())); MUT(dv<const R2&>()(I(), I())); MUT(dv<const R2&>()[index_of_rank<2>()]); MUT(dv<const R2&>().base()); MUT(dv<const R2&>().data());
MUT(dv<R2&>()(I(), _)); MUT(dv<const R2&>()(V(), V())); MUT(dv<const R2&>()[std::make_tuple(_, I())]); MUT(dv<const R3&>()(_, _, I())); CONST(dv<const CR3&>()(_, _, I()));
#elif defined(CASE_views) // compile
CONST(dv<const A2&>().ref()); CONST(dv<const A2&>().cref()); CONST(dv<A2&>().cref()); MUT(dv<A2&>().ref()); CONST(dv<const AX&>().ref()); CONST(dv<const AX&>().cref()); CONST(dv<AX&>().cref()); MUT(dv<AX&>().ref());
CONST(dv<R2&>().cref()); CONST(dv<CR2&>().cref()); CONST(dv<CR2&>().ref()); MUT(dv<R2&>().ref()); MUT(dv<const R2&>().ref());
static_assert(same<std::decay_t<decltype(dv<const A2&>().cref())>, CR2>, ""); static_assert(same<std::decay_t<decltype(dv<A2&>().ref())>, R2>, "");
static_assert(same<std::decay_t<decltype(dv<R2&>().cref())>, CR2>, "");
#elif defined(CASE_conversions) // compile
template <class F, class T> constexpr bool conv = std::is_convertible<F, T>::value;
template <class F, class T> constexpr bool ctor = std::is_constructible<T, F>::value;
template <class F, class T> constexpr bool asg = std::is_assignable<T&, F>::value;
static_assert(conv<A2&, R2> && conv<A2&, CR2> && conv<const A2&, CR2> && conv<R2, CR2> && conv<R2&, CR2> && conv<const R2&, CR2>, "documented conversions");
static_assert(!conv<const A2&, R2> && !ctor<const A2&, R2> && !asg<const A2&, R2>, "const array to mutable view");
static_assert(!conv<CR2, R2> && !ctor<CR2, R2> && !asg<CR2, R2> && !ctor<CR2&, R2> && !ctor<const CR2&, R2>, "const view to mutable view");
static_assert(!ctor<const AX&, array_ref<int, AX::shape_type>> && !conv<const AX&, array_ref<int, AX::shape_type>>, "");
static_assert(!ctor<CR2, array_ref_of_rank<int, 2>> && !asg<CR2, array_ref_of_rank<int, 2>> && !ctor<CR3, R3> && !asg<CR3, R3>, "with a change of shape type");
static_assert(!ctor<const A2&, array_ref_of_rank<int, 2>> && !asg<const A2&, array_ref_of_rank<int, 2>>, "");
static_assert(conv<R2, array_ref_of_rank<int, 2>> && conv<CR2, const_array_ref_of_rank<int, 2>>, "shape conversion keeps constness");
static_assert(!ctor<CR2, A2&> && !conv<CR2, A2&>, "");
static_assert(conv<A0&, int&> && conv<const A0&, const int&> && !conv<const A0&, int&>, "scalar conversion");
static_assert(conv<array_ref_of_rank<int, 0>, int&> && !conv<const_array_ref_of_rank<int, 0>, int&> && conv<const_array_ref_of_rank<int, 0>, const int&>, "");
static_assert(!ctor<const int*, R2> && ctor<const int*, CR2>, "");
static_assert(same<decltype(make_array_ref(dv<const int*>(), dv<A2::shape_type>())), CR2>, ""); static_assert(same<decltype(make_array_ref(dv<int*>(), dv<A2::shape_type>())), R2>, "");
#elif defined(CASE_traversal) // compile
static_assert(EACH(A2&, wants_mut) && EACH(A2&, wants_const) && EACH(const A2&, wants_const) && EACH(R2&, wants_mut) && EACH(const R2&, wants_mut) && EACH(CR2&, wants_const), "valid traversals");
static_assert(!EACH(const A2&, wants_mut) && !EACH(const AX&, wants_mut) && !EACH(CR2&, wants_mut) && !EACH(const CR2&, wants_mut) && !EACH(const CR3&, wants_mut) && !EACH(const A0&, wants_mut), "mutable traversal of const elements");
#elif defined(CASE_traversal_generic) // compile
// A generic callable sees const references.
struct only_const { template <class T> void operator()(T& x) const { static_assert(std::is_const<T>::value, "sees a mutable element"); (void)x; } };
void f(const A2& a, const AX& b, CR2 c, const A3& d, const AI& e, const A0& z, const R2& r) {
  a.for_each_value(only_const()); b.for_each_value(only_const()); c.for_each_value(only_const()); d.for_each_value(only_const()); e.for_each_value(only_const()); z.for_each_value(only_const());
  for_each_value_in_order(a.shape(), a.base(), only_const()); r.cref().for_each_value(only_const());
}
struct only_mut { template <class T> void operator()(T& x) const { static_assert(!std::is_const<T>::value, "sees a const element"); (void)x; } };
void g(A2& a, AX& b, R2 c, const R3& d, A0& z) { a.for_each_value(only_mut()); b.for_each_value(only_mut()); c.for_each_value(only_mut()); d.for_each_value(only_mut()); z.for_each_value(only_mut()); }
#elif defined(CASE_shape_views) // compile
CONST(transpose<1, 0>(dv<const A2&>())); MUT(transpose<1, 0>(dv<A2&>())); CONST(transpose<1, 0>(dv<CR2>())); MUT(transpose<1, 0>(dv<R2>())); CONST(transpose<1, 0>(dv<const AX&>()));
CONST(reorder<0>(dv<const A2&>())); MUT(reorder<0>(dv<A2&>())); CONST(reorder<1>(dv<CR2>())); MUT(reorder<1>(dv<R2>())); CONST(reorder<1, 0>(dv<const A3&>())); MUT(reorder<1, 0>(dv<A3&>()));
CONST(convert_shape<shape_of_rank<2>>(dv<const A2&>())); MUT(convert_shape<shape_of_rank<2>>(dv<A2&>())); CONST(convert_shape<shape_of_rank<2>>(dv<CR2>())); MUT(convert_shape<shape_of_rank<2>>(dv<R2>()));
CONST(reinterpret_shape(dv<const A2&>(), shape_of_rank<1>())); MUT(reinterpret_shape(dv<A2&>(), shape_of_rank<1>())); CONST(reinterpret_shape(dv<CR2>(), shape_of_rank<1>())); MUT(reinterpret_shape(dv<R2>(), shape_of_rank<1>()));
CONST(reinterpret<unsigned>(dv<const A2&>())); MUT(reinterpret<unsigned>(dv<A2&>())); MUT(reinterpret<unsigned>(dv<R2>()));
// The const-removing cast is spelled out; it is the only one.
MUT(reinterpret_const<int>(dv<CR2>()));
#elif defined(CASE_copies) // compile
// Making a copy gives an array of the plain element type, whatever the source's constness.
static_assert(same<decltype(make_copy(dv<CR2>())), A2> && same<decltype(make_copy(dv<const A2&>())), A2> && same<decltype(make_copy(dv<R2>())), A2>, "");
static_assert(same<decltype(make_copy(dv<CR2>(), dv<shape_of_rank<2>>())), array_of_rank<int, 2>> && same<decltype(make_compact_copy(dv<CR2>()))::value_type, int>, "");
#elif defined(CASE_images) // compile
typedef planar_image<int> P; typedef const_planar_image_ref<int> CP; typedef planar_image_ref<int> RP;
CONST(crop(dv<const P&>(), I(), I(), I(), I())); MUT(crop(dv<P&>(), I(), I(), I(), I())); CONST(crop(dv<CP>(), I(), I(), I(), I())); MUT(crop(dv<RP>(), I(), I(), I(), I()));
CONST(slice_channel(dv<const P&>(), I())); MUT(slice_channel(dv<P&>(), I())); CONST(slice_channel(dv<CP>(), I())); MUT(slice_channel(dv<RP>(), I()));
static_assert(same<const_image_ref<int>, array_ref<const int, image_shape>> && same<CP, array_ref<const int, planar_image_shape>> && same<const_chunky_image_ref<int>, array_ref<const int, chunky_image_shape<>>> && same<const_chunky_image_ref<int, 3, 4>, array_ref<const int, chunky_image_shape<3, 4>>>, "");
static_assert(same<image_ref<int>, array_ref<int, image_shape>> && same<RP, array_ref<int, planar_image_shape>>, "");
typedef const_matrix_ref<int> CM; typedef matrix_ref<int> RM; CONST(dv<CM>()(I(), I())); MUT(dv<RM>()(I(), I())); CONST(dv<const_vector_ref<int>>()(I())); MUT(dv<vector_ref<int>>()(I())); CONST(dv<const matrix<int>&>()(I(), I())); CONST(dv<const vector<int>&>()(I()));
#elif defined(CASE_const_ref_alias) // compile
static_assert(same<const_array_ref<int, shape<>>, array_ref<const int, shape<>>> && same<CR3, array_ref<const int, shape_of_rank<3>>> && same<CR2, array_ref<const int, dense_shape<2>>>, "");
static_assert(same<A2::const_reference, const int&> && same<A2::reference, int&> && same<CR2::reference, const int&> && same<CR2::pointer, const int*> && same<R2::reference, int&> && same<A2::const_pointer, const int*>, "");
#elif defined(CASE_ein_operands) // compile
// Reading through a reduction never hands out mutable operands from const arrays.
typedef index_of_rank<2> IX;
CONST(ein<0, 1>(dv<const A2&>())(dv<IX>())); CONST(ein<0, 1>(dv<CR2>())(dv<IX>())); MUT(ein<0, 1>(dv<A2&>())(dv<IX>())); MUT(ein<1, 0>(dv<R2>())(dv<IX>())); CONST(ein(dv<const int&>())(dv<IX>())); MUT(ein(dv<int&>())(dv<IX>()));
#elif defined(CASE_algorithms_ok) // compile
void f(A2& a, const A2& b, R2 c, CR2 d) {
  copy(b, a); copy(b, c); copy(d, c); copy(d, a); move(a, c); fill(a, 3); fill(c, 3); generate(a, []() { return 1; }); generate(c, []() { return 1; });
  transform_index(a, [](const index_of_rank<2>&) { return 1; }); transform_indices(c, [](I, I) { return 1; }); (void)equal(b, d); (void)equal(d, d); (void)equal(c, b); ein_reduce(ein<0, 1>(a) = ein<0, 1>(b)); swap(a, a);
}
#elif defined(CASE_fill_const_array) // reject
void f(const A2& a) { fill(a, 3); }
#elif defined(CASE_fill_const_ref) // reject
void f(CR2 a) { fill(a, 3); }
#elif defined(CASE_generate_const_array) // reject
void f(const A2& a) { generate(a, []() { return 3; }); }
#elif defined(CASE_generate_const_ref) // reject
void f(CR2 a) { generate(a, []() { return 3; }); }
#elif defined(CASE_transform_index_const) // reject
void f(CR2 a) { transform_index(a, [](const index_of_rank<2>&) { return 3; }); }
#elif defined(CASE_transform_indices_const) // reject
void f(CR2 a) { transform_indices(a, [](I, I) { return 3; }); }
#elif defined(CASE_transform_index_const_array) // reject
void f(const A2& a) { transform_index(a, [](const index_of_rank<2>&) { return 3; }); }
#elif defined(CASE_transform_indices_const_array) // reject
void f(const A2& a) { transform_indices(a, [](I, I) { return 3; }); }
#elif defined(CASE_copy_to_const_array) // reject
void f(const A2& a, const A2& b) { copy(b, a); }
#elif defined(CASE_copy_to_const_ref) // reject
void f(CR2 a, const A2& b) { copy(b, a); }
#elif defined(CASE_copy_ref_to_const_array) // reject
void f(const A2& a, CR2 b) { copy(b, a); }
#elif defined(CASE_copy_ref_to_const_ref) // reject
void f(CR2 a, CR2 b) { copy(b, a); }
#elif defined(CASE_move_to_const_ref) // reject
void f(A2& a, CR2 b) { move(a, b); }
#elif defined(CASE_move_to_const_array) // reject
void f(A2& a, const A2& b) { move(a, b); }
#elif defined(CASE_assign_const_array) // reject
void f(const A2& a) { a = A2({2, 2}); }
#elif defined(CASE_set_shape_const_array) // reject
void f(const A2& a) { a.set_shape(A2::shape_type(2, 2)); }
#elif defined(CASE_reshape_const_array) // reject
void f(const A2& a) { a.reshape(A2::shape_type(2, 2)); }
#elif defined(CASE_clear_const_array) // reject
void f(const A2& a) { a.clear(); }
#elif defined(CASE_swap_const_array) // reject
void f(const A2& a, A2& b) { swap(a, b); }
#elif defined(CASE_element_const_array) // reject
void f(const A2& a) { a(0, 0) = 3; }
#elif defined(CASE_element_const_ref) // reject
void f(CR2 a) { a(0, 0) = 3; }
#elif defined(CASE_slice_element_const) // reject
void f(const A2& a) { a(_, 0)(1) = 3; }
#elif defined(CASE_slice_element_const_tuple) // reject
void f(const A2& a) { a[std::make_tuple(_, I(0))](1) = 3; }
#elif defined(CASE_scalar_const) // reject
void f(const A0& a) { a() = 3; }
#elif defined(CASE_ein_assign_const) // reject
void f(const A2& a, A2& b) { ein_reduce(ein<0, 1>(a) = ein<0, 1>(b)); }
#elif defined(CASE_ein_plus_assign_const_ref) // reject
void f(CR2 a, A2& b) { ein_reduce(ein<0, 1>(a) += ein<0, 1>(b)); }
#elif defined(CASE_dim_of_const_array) // reject
void f(const A2& a) { a.dim<1>().set_extent(3); }
#elif defined(CASE_shape_of_const_array) // reject
void f(const A2& a) { a.shape().dim<1>().set_extent(3); }
#elif defined(CASE_reinterpret_drops_const) // reject
R2 f(const A2& a) { return reinterpret<int>(a); }
#elif defined(CASE_reinterpret_const_other_type) // reject
void f(CR2 a) { reinterpret_const<float>(a); }
#endif
