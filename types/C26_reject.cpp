// std: cxx14
// thorough: cxx17 cxx20 gcc int
#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/ein_reduce.h"
#include "array/z_order.h"
#include <memory>
using namespace nda;
typedef index_t I;
extern shape_of_rank<2> s; extern shape_of_rank<3> s3; extern shape_of_rank<4> s4; extern shape_of_rank<5> s5; extern shape_of_rank<6> s6; extern shape<> s0;
extern dense_array_ref<int, 2> ref; extern dense_array<int, 3> a; extern const dense_array<int, 3> ca; extern dense_array<int, 1> v; extern dense_array<int, 0> z; extern dense_array<int, 2> m;
struct incomparable {};
#define T(name, ...) void name() { __VA_ARGS__; }
// ---- intervals and dims
#if defined(CASE_interval_convert_ok) // compile
T(f1, fixed_interval<3> x(0); interval<> y(x); interval<dynamic, 3> q(y); y = x; x = y) T(f2, interval<0, 2> x; interval<> y(x); interval<0> w(x); interval<dynamic, 2> u(x); fixed_interval<2> t(x); y = x; w = x) T(f3, interval<> i; interval<1, 2> j(i); j = i)
#elif defined(CASE_interval_extent_mismatch) // reject
T(f, fixed_interval<3> x; interval<0, 2> y(x))
#elif defined(CASE_interval_min_mismatch) // reject
T(f, interval<1, 2> x; interval<0, 2> y(x))
#elif defined(CASE_interval_assign_mismatch) // reject
T(f, fixed_interval<3> x; x = interval<0, 2>())
#elif defined(CASE_interval_assign_min_mismatch) // reject
T(f, interval<1> x; x = interval<0, 2>())
#elif defined(CASE_dim_convert_ok) // compile
T(f1, dim<0, 1, 2> x; dim<> y(x); strided_dim<2> w(x); y = x; w = x) T(f2, dense_dim<> x; dim<> y(x); x = y; dense_dim<0, 4> q; dense_dim<> r(q); dim<> t(q); r = q) T(f3, dim<0> d; dim<> e(d); broadcast_dim<> b; dim<> c(b))
#elif defined(CASE_dim_stride_mismatch) // reject
T(f, dim<0, 1, 2> x; dense_dim<> y(x))
#elif defined(CASE_dim_extent_mismatch) // reject
T(f, dim<0, 3> x; dim<0, 4> y(x))
#elif defined(CASE_dim_min_mismatch) // reject
T(f, dim<1, 3> x; dim<0, 3> y(x))
#elif defined(CASE_dim_assign_stride_mismatch) // reject
T(f, dense_dim<> x; x = dim<0, 1, 2>())
#elif defined(CASE_dim_assign_extent_mismatch) // reject
T(f, dim<0, 3> x; x = dim<0, 4>())
// ---- shapes
#elif defined(CASE_shape_ok) // compile
T(f1, shape<dim<>, dim<>> x(1, 2); shape<dim<>, dim<>> y({0, 1}, 2); shape<dense_dim<>, dim<>> w(x); x = w; s = s) T(f2, (void)s.dim<0>(); (void)s.dim<1>(); (void)s.dim(1); (void)s3.dim<2>()) T(f3, (void)s(0, 1); (void)s[std::make_tuple(I(0), I(1))]; (void)s(interval<>(), 1); (void)s0(); (void)s.is_in_range(1, 2)) T(f4, (void)(s == s); shape<dense_dim<>, dim<>> q; (void)(s == q); (void)(s != q))
#elif defined(CASE_shape_bad_index) // reject
T(f, auto d = s.dim<2>(); (void)d)
#elif defined(CASE_shape_bad_index_scalar) // reject
T(f, auto d = s0.dim<0>(); (void)d)
#elif defined(CASE_shape_const_bad_index) // reject
T(f, const auto& c = s; auto d = c.dim<2>(); (void)d)
#elif defined(CASE_shape_k_of_rank_2) // reject
T(f, auto d = s.k(); (void)d)
#elif defined(CASE_shape_too_many_dims) // reject
T(f, shape<dim<>> x(0, 1))
#elif defined(CASE_shape_too_few_dims) // reject
T(f, shape<dim<>, dim<>, dim<>> x(0, 1))
#elif defined(CASE_shape_different_rank) // reject
T(f, shape_of_rank<3> x(s))
#elif defined(CASE_shape_different_rank_down) // reject
T(f, shape_of_rank<1> x(s))
#elif defined(CASE_shape_assign_different_rank) // reject
T(f, shape_of_rank<3> x; x = s)
#elif defined(CASE_shape_static_extent_mismatch) // reject
T(f, shape<dim<0, 3>> x; shape<dim<0, 4>> y(x))
#elif defined(CASE_shape_too_many_indices) // reject
T(f, (void)s(0, 1, 2))
#elif defined(CASE_shape_too_few_indices) // reject
T(f, (void)s(0))
#elif defined(CASE_shape_no_indices) // reject
T(f, (void)s())
#elif defined(CASE_shape_tuple_too_many) // reject
T(f, (void)s[std::make_tuple(I(0), I(1), I(2))])
#elif defined(CASE_shape_string_index) // reject
T(f, (void)s("a", 1))
#elif defined(CASE_shape_in_range_too_many) // reject
T(f, (void)s.is_in_range(1, 2, 3))
#elif defined(CASE_shape_eq_different_rank) // reject
T(f, (void)(s == s3))
#elif defined(CASE_shape_ne_different_rank) // reject
T(f, (void)(s != s3))
#elif defined(CASE_shape_modify_runtime_dim) // reject
T(f, s.dim(1).set_min(0))
#elif defined(CASE_compatible_ok) // compile
T(f, (void)is_compatible<shape_of_rank<2>>(s); (void)is_compatible<dense_shape<2>>(s); (void)is_explicitly_compatible<shape_of_rank<3>>(s); (void)is_explicitly_compatible<shape_of_rank<1>>(s))
#elif defined(CASE_compatible_different_rank) // reject
T(f, (void)is_compatible<shape_of_rank<3>>(s))
// ---- permutations
#elif defined(CASE_transpose_ok) // compile
T(f, transpose<1, 0>(s); transpose<0, 1>(s); transpose<2, 0, 1>(s3); transpose<3, 0, 2, 1>(s4); transpose<4, 3, 2, 1, 0>(s5); transpose<1, 0>(ref); transpose<2, 1, 0>(a); transpose<5, 0, 4, 1, 3, 2>(s6); reorder<0>(s); reorder<1, 0>(s3); reorder<2, 0>(a); reorder<>(s); transpose<>(s0))
#elif defined(CASE_transpose_prefix_ok) // compile
T(f, transpose<0>(s); transpose<1, 0>(s3); transpose<1, 0, 2>(s4); static_assert(std::is_same<decltype(transpose<1, 0>(s3)), shape_of_rank<3>>::value, ""))
#elif defined(CASE_transpose_not_prefix) // reject
T(f, transpose<1>(s))
#elif defined(CASE_transpose_repeat) // reject
T(f, transpose<0, 0>(s))
#elif defined(CASE_transpose_out_of_range) // reject
T(f, transpose<0, 2>(s))
#elif defined(CASE_transpose_hole3) // reject
T(f, transpose<0, 0, 4>(s3))
#elif defined(CASE_transpose_two_of_three) // reject
T(f, transpose<1, 2>(s3))
#elif defined(CASE_transpose_repeat3) // reject
T(f, transpose<0, 2, 2>(s3))
#elif defined(CASE_transpose_repeat3b) // reject
T(f, transpose<1, 1, 1>(s3))
#elif defined(CASE_transpose_repeat4) // reject
T(f, transpose<1, 1, 2, 2>(s4))
#elif defined(CASE_transpose_repeat4b) // reject
T(f, transpose<0, 3, 3, 0>(s4))
#elif defined(CASE_transpose_repeat5) // reject
T(f, transpose<0, 1, 1, 3, 4>(s5))
#elif defined(CASE_transpose_repeat5b) // reject
T(f, transpose<0, 0, 2, 4, 4>(s5))
#elif defined(CASE_transpose_repeat5c) // reject
T(f, transpose<1, 1, 1, 3, 4>(s5))
#elif defined(CASE_transpose_repeat6) // reject
T(f, transpose<0, 1, 2, 3, 5, 5>(s6))
#elif defined(CASE_transpose_ref_repeat) // reject
T(f, transpose<1, 1>(ref))
#elif defined(CASE_transpose_ref_few) // reject
T(f, transpose<1>(ref))
#elif defined(CASE_transpose_array_range) // reject
T(f, transpose<0, 1, 3>(a))
#elif defined(CASE_transpose_array_repeat) // reject
T(f, transpose<0, 2, 2>(a))
#elif defined(CASE_transpose_const_array_repeat) // reject
T(f, transpose<0, 2, 2>(ca))
#elif defined(CASE_reorder_out_of_range) // reject
T(f, reorder<0, 2>(s))
#elif defined(CASE_reorder_array_out_of_range) // reject
T(f, reorder<3>(a))
// ---- traversals
#elif defined(CASE_traverse_ok) // compile
T(f, for_each_index(s, [](const index_of_rank<2>&) {}); for_all_indices(s, [](I, I) {}); for_all_indices(s, [](int, int) {}); for_all_indices<1, 0>(s, [](I, I) {}); for_each_index<1, 0>(s, [](const index_of_rank<2>&) {}); for_all_indices(s0, []() {}); for_each_index_in_order(s, [](const index_of_rank<2>&) {}))
#elif defined(CASE_each_index_unpacked) // reject
T(f, for_each_index(s, [](int, int) {}))
#elif defined(CASE_each_index_wrong_rank) // reject
T(f, for_each_index(s, [](const index_of_rank<3>&) {}))
#elif defined(CASE_all_indices_too_many) // reject
T(f, for_all_indices(s, [](int, int, int) {}))
#elif defined(CASE_all_indices_too_few) // reject
T(f, for_all_indices(s, [](int) {}))
#elif defined(CASE_all_indices_tuple) // reject
T(f, for_all_indices(s, [](const index_of_rank<2>&) {}))
#elif defined(CASE_all_indices_order_too_many) // reject
T(f, for_all_indices<0>(s, [](int, int) {}))
#elif defined(CASE_all_indices_order_too_few) // reject
T(f, for_all_indices<0, 1>(s, [](int) {}))
#elif defined(CASE_each_index_order_wrong_rank) // reject
T(f, for_each_index<0, 1>(s, [](const index_of_rank<3>&) {}))
#elif defined(CASE_all_indices_not_callable) // reject
T(f, for_all_indices(s, 3))
#elif defined(CASE_value_ok) // compile
T(f, ref.for_each_value([](int&) {}); ref.for_each_value([](const int&) {}); ref.for_each_value([](int) {}); a.for_each_value([](int&) {}); ca.for_each_value([](const int&) {}); ca.for_each_value([](int) {}))
#elif defined(CASE_value_bad_type) // reject
T(f, ref.for_each_value([](float&) {}))
#elif defined(CASE_value_too_many) // reject
T(f, ref.for_each_value([](int, int) {}))
#elif defined(CASE_value_too_few) // reject
T(f, ref.for_each_value([]() {}))
#elif defined(CASE_array_value_bad_type) // reject
T(f, a.for_each_value([](float&) {}))
#elif defined(CASE_array_value_too_many) // reject
T(f, a.for_each_value([](int, int) {}))
#elif defined(CASE_const_array_value_mutable) // reject
T(f, ca.for_each_value([](int&) {}))
// ---- element access
#elif defined(CASE_access_ok) // compile
T(f, ref(0, 1) = 1; a(0, 1, 2) = ca(0, 1, 2); a[std::make_tuple(I(0), I(1), I(2))] = 3; (void)a(0, _, 2); (void)a(_, _, _); (void)ref(range(0, 1), 1); (void)ref(range<2>(1), _); z() = 3; int q = z; (void)q; (void)ref(short(1), 2u); (void)a.dim<2>(); (void)a.i(); (void)a.dim(1))
#elif defined(CASE_ref_not_scalar) // reject
T(f, int q = ref; (void)q)
#elif defined(CASE_array_not_scalar) // reject
T(f, int q = a; (void)q)
#elif defined(CASE_const_array_not_scalar) // reject
T(f, int q = ca; (void)q)
#elif defined(CASE_ref_too_many) // reject
T(f, (void)ref(0, 1, 2))
#elif defined(CASE_ref_too_few) // reject
T(f, (void)ref(0))
#elif defined(CASE_ref_none) // reject
T(f, (void)ref())
#elif defined(CASE_ref_tuple_too_many) // reject
T(f, (void)ref[std::make_tuple(I(0), I(1), I(2))])
#elif defined(CASE_ref_tuple_too_few) // reject
T(f, (void)ref[std::make_tuple(I(0))])
#elif defined(CASE_array_too_many) // reject
T(f, (void)a(0, 1, 2, 3))
#elif defined(CASE_array_too_few) // reject
T(f, (void)a(0, 1))
#elif defined(CASE_array_none) // reject
T(f, (void)a())
#elif defined(CASE_const_array_too_few) // reject
T(f, (void)ca(0, 1))
#elif defined(CASE_array_tuple_too_few) // reject
T(f, (void)a[std::make_tuple(I(0), I(1))])
#elif defined(CASE_slice_too_few) // reject
T(f, (void)a(_, 1))
#elif defined(CASE_slice_too_many) // reject
T(f, (void)a(_, 1, _, _))
#elif defined(CASE_slice_ref_too_few) // reject
T(f, (void)ref(_))
#elif defined(CASE_slice_ref_too_many) // reject
T(f, (void)ref(_, _, 1))
#elif defined(CASE_slice_tuple_too_few) // reject
T(f, (void)ref[std::make_tuple(_)])
#elif defined(CASE_slice_string) // reject
T(f, (void)ref(_, "1"))
#elif defined(CASE_index_pointer) // reject
T(f, (void)ref(nullptr, 1))
#elif defined(CASE_array_dim_out_of_range) // reject
T(f, (void)a.dim<3>())
#elif defined(CASE_ref_dim_out_of_range) // reject
T(f, (void)ref.dim<2>())
#elif defined(CASE_ref_k_of_rank_2) // reject
T(f, (void)ref.k())
#elif defined(CASE_array_w_of_rank_3) // reject
T(f, (void)a.w())
// ---- copies, moves, comparisons
#elif defined(CASE_copy_ok) // compile
T(f, copy(ref, ref); copy(a, a); copy(m, ref); copy(ref, m); move(a, a); move(ref, ref); move(m, ref); (void)make_copy(a); (void)make_copy(ref); (void)make_copy(a, s3); (void)make_copy(ref, s); (void)make_copy(ref, std::allocator<int>()); (void)make_copy(ref, s, std::allocator<int>()); (void)make_copy(a, std::allocator<int>()); (void)make_copy(ca); (void)make_copy(ca, s3); (void)make_move(a, s3); (void)make_move(ref, s); (void)make_compact_copy(a); (void)make_compact_copy(ref); (void)equal(a, ca); (void)equal(ref, m); (void)(a == ca); (void)(a != a); (void)(ref == ref); dense_array<long, 2> w; copy(m, w); array_of_rank<int, 2> u(s); copy(m, u); (void)equal(u, m))
#elif defined(CASE_copy_different_rank) // reject
T(f, copy(a, ref))
#elif defined(CASE_copy_ref_different_rank) // reject
T(f, copy(ref, a))
#elif defined(CASE_copy_arrays_different_rank) // reject
T(f, copy(a, m))
#elif defined(CASE_copy_refs_different_rank) // reject
T(f, copy(ref, a.ref()))
#elif defined(CASE_make_copy_different_rank) // reject
T(f, (void)make_copy(a, s))
#elif defined(CASE_make_copy_ref_different_rank) // reject
T(f, (void)make_copy(ref, s3))
#elif defined(CASE_make_copy_not_shape) // reject
T(f, (void)make_copy(ref, 3))
#elif defined(CASE_move_different_rank) // reject
T(f, move(a, ref))
#elif defined(CASE_move_arrays_different_rank) // reject
T(f, move(a, m))
#elif defined(CASE_move_refs_different_rank) // reject
T(f, move(ref, a.ref()))
#elif defined(CASE_make_move_different_rank) // reject
T(f, (void)make_move(a, s))
#elif defined(CASE_make_move_ref_different_rank) // reject
T(f, (void)make_move(ref, s3))
#elif defined(CASE_equal_different_rank) // reject
T(f, (void)equal(a, m))
#elif defined(CASE_equal_ref_different_rank) // reject
T(f, (void)equal(ref, a.ref()))
#elif defined(CASE_eq_different_rank) // reject
T(f, (void)(a == m))
#elif defined(CASE_copy_incompatible_value) // reject
T(f, dense_array<incomparable, 2> w; copy(m, w))
#elif defined(CASE_ref_from_other_type) // reject
T(f, dense_array_ref<float, 2> r(ref))
#elif defined(CASE_ref_from_other_rank) // reject
T(f, array_ref_of_rank<int, 3> r(ref))
#elif defined(CASE_ref_assign_other_rank) // reject
T(f, array_ref_of_rank<int, 3> r; r = ref)
#elif defined(CASE_array_from_other_rank) // reject
T(f, dense_array<int, 2> r(a))
#elif defined(CASE_array_assign_other_rank) // reject
T(f, m = a)
#elif defined(CASE_swap_other_rank) // reject
T(f, m.swap(a))
// ---- generators
#elif defined(CASE_generate_ok) // compile
T(f, generate(m, []() { return 3; }); generate(ref, []() { return 3; }); transform_index(m, [](const index_of_rank<2>&) { return 1; }); transform_indices(m, [](I, I) { return 1; }); transform_index(ref, [](const index_of_rank<2>&) { return 1; }); transform_indices(ref, [](I, I) { return 1; }); fill(m, 3); fill(ref, 3))
#elif defined(CASE_generate_with_args) // reject
T(f, generate(m, [](int) { return 3; }))
#elif defined(CASE_generate_ref_with_args) // reject
T(f, generate(ref, [](int) { return 3; }))
#elif defined(CASE_transform_index_unpacked) // reject
T(f, transform_index(m, [](I, I) { return 1; }))
#elif defined(CASE_transform_indices_too_few) // reject
T(f, transform_indices(m, [](I) { return 1; }))
#elif defined(CASE_transform_indices_too_many) // reject
T(f, transform_indices(m, [](I, I, I) { return 1; }))
#elif defined(CASE_transform_indices_ref_too_many) // reject
T(f, transform_indices(ref, [](I, I, I) { return 1; }))
// ---- reinterpretation
#elif defined(CASE_reinterpret_ok) // compile
T(f, (void)reinterpret<unsigned>(m); (void)reinterpret<float>(ref); (void)reinterpret<unsigned>(ca); (void)reinterpret_const<int>(ca.cref()); (void)reinterpret_shape(m, s3); (void)convert_shape<shape_of_rank<2>>(m); (void)convert_shape<shape_of_rank<3>>(ref); (void)convert_shape<shape_of_rank<1>>(m))
#elif defined(CASE_reinterpret_other_size) // reject
T(f, (void)reinterpret<char>(m))
#elif defined(CASE_reinterpret_ref_other_size) // reject
T(f, (void)reinterpret<double>(ref))
#elif defined(CASE_reinterpret_const_array_other_size) // reject
T(f, (void)reinterpret<short>(ca))
#elif defined(CASE_reinterpret_const_wrong_type) // reject
T(f, (void)reinterpret_const<float>(ca.cref()))
// ---- splits
#elif defined(CASE_split_ok) // compile
T(f, for (auto i : split<3>(interval<>(0, 9))) { (void)i; } for (auto i : split(interval<>(0, 9), 3)) { (void)i; } for (auto i : split<2>(a.x())) { (void)i; })
#elif defined(CASE_split_not_interval) // reject
T(f, for (auto i : split<3>(m)) { (void)i; })
// ---- uninitialized storage is for trivial types
#elif defined(CASE_uninit_ok) // compile
T(f, array<int, dense_shape<1>, uninitialized_std_allocator<int>> q; array<int, fixed_dense_shape<4>, uninitialized_auto_allocator<int, 4>> r)
#elif defined(CASE_uninit_nontrivial) // reject
struct nt { nt() {} nt(const nt&) {} }; T(f, array<nt, dense_shape<1>, uninitialized_std_allocator<nt>> q)
#elif defined(CASE_uninit_auto_nontrivial) // reject
struct nt { nt() {} nt(const nt&) {} }; T(f, array<nt, fixed_dense_shape<4>, uninitialized_auto_allocator<nt, 4>> q)
// ---- Einstein reductions
#elif defined(CASE_ein_ok) // compile
T(f, ein_reduce(ein<0>(v) = ein<0>(v)); ein_reduce(ein<0>(v) += ein<0, 1>(m) * ein<1>(v)); ein_reduce(ein<>(z) += ein<0>(v)); ein_reduce(ein<0, 1>(m) -= ein<1, 0>(m)); ein_reduce(ein<0>(v) *= -ein<0>(v)); ein_reduce(ein<0>(v) = cast<int>(ein<0>(v) / ein<0>(v))); ein_reduce(ein<0>(v) = min(ein<0>(v), ein<0>(v))); ein_reduce(ein<0>(v) = max(ein<0>(v), ein<0>(v) + ein<0>(v))); (void)make_ein_sum<int, 0>(ein<0, 1>(m)); (void)make_ein_sum<int>(ein<0>(v)); int q = 0; ein_reduce(ein(q) += ein<0>(v)); int c[4]; ein_reduce(ein<0>(c) = ein<0>(c)); (void)make_ein_reduce_shape<0>(ein<0, 1>(m)); ein_reduce(ein<0>(v) = ein<0>([](I i) { return int(i); }));  array_ref_of_rank<int, 0> r0(&q); ein_reduce(ein<>(r0) += ein<0>(v)))
#elif defined(CASE_ein_too_few) // reject
T(f, (void)ein<0, 1>(a))
#elif defined(CASE_ein_too_many) // reject
T(f, (void)ein<0, 1, 2>(m))
#elif defined(CASE_ein_const_too_few) // reject
T(f, (void)ein<0, 1>(ca))
#elif defined(CASE_ein_ref_too_many) // reject
T(f, (void)ein<0, 1, 2>(ref))
#elif defined(CASE_ein_ref_too_few) // reject
T(f, (void)ein<0>(ref))
#elif defined(CASE_ein_rvalue_ref_too_few) // reject
T(f, (void)ein<0>(m.ref()))
#elif defined(CASE_ein_callable_args) // reject
T(f, (void)ein<0, 1>([](I) { return 1; }))
#elif defined(CASE_ein_scalar_arithmetic) // reject
T(f, (void)(ein<0, 1, 2>(a) + 2))
#elif defined(CASE_ein_scalar_product) // reject
T(f, (void)(ein<0, 1, 2>(a) * 2))
#elif defined(CASE_ein_assign_scalar) // reject
T(f, ein_reduce(ein<0, 1, 2>(a) = 2))
#elif defined(CASE_ein_plus_assign_scalar) // reject
T(f, ein_reduce(ein<0, 1, 2>(a) += 2))
#elif defined(CASE_ein_not_assignment) // reject
T(f, ein_reduce(ein<0, 1, 2>(a)))
#elif defined(CASE_ein_sum_not_assignment) // reject
T(f, ein_reduce(ein<0, 1, 2>(a) + ein<0, 1, 2>(a)))
#elif defined(CASE_ein_assign_to_expression) // reject
T(f, ein_reduce((ein<0>(v) + ein<0>(v)) = ein<0>(v)))
#elif defined(CASE_ein_static_mismatch) // reject
T(f, matrix<int, 3, 4> p; matrix<int, 5, 6> q; matrix<int, 3, 6> r; ein_reduce(ein<0, 1>(r) += ein<0, 2>(p) * ein<2, 1>(q)))
#elif defined(CASE_ein_static_result_mismatch) // reject
T(f, matrix<int, 3, 4> p; matrix<int, 4, 3> q; ein_reduce(ein<0, 1>(p) = ein<0, 1>(q)))
#elif defined(CASE_ein_static_match) // compile
T(f, matrix<int, 3, 4> p; matrix<int, 4, 6> q; matrix<int, 3, 6> r; ein_reduce(ein<0, 1>(r) += ein<0, 2>(p) * ein<2, 1>(q)); matrix<int, 4, 3> u; ein_reduce(ein<0, 1>(p) = ein<1, 0>(u)))
#elif defined(CASE_ein_sum_of_scalar) // reject
T(f, (void)make_ein_sum<int, 0>(3))
// ---- allocators
#elif defined(CASE_make_array_ok) // compile
T(f, (void)make_array<int>(s); (void)make_array<int>(s, 7); (void)make_array<int>(s, std::allocator<int>()); (void)make_array<int>(s, 7, std::allocator<int>()); (void)make_array_ref((int*)nullptr, s))
#elif defined(CASE_make_array_wrong_value) // reject
T(f, (void)make_array<int>(s, "seven"))
// ---- conversions between views are offered only where they can work
#elif defined(CASE_ref_convertible_traits) // compile
template <class A, class B> constexpr bool conv() { return std::is_convertible<A, B>::value && std::is_constructible<B, A>::value && std::is_assignable<B&, A>::value; }
template <class A, class B> constexpr bool noconv() { return !std::is_convertible<A, B>::value && !std::is_constructible<B, A>::value && !std::is_assignable<B&, A>::value; }
static_assert(conv<dense_array_ref<int, 2>, array_ref_of_rank<int, 2>>() && conv<array_ref_of_rank<int, 2>, dense_array_ref<int, 2>>() && conv<dense_array_ref<int, 2>, const_array_ref_of_rank<int, 2>>() == false, "");
static_assert(conv<const_dense_array_ref<int, 2>, const_array_ref_of_rank<int, 2>>() && conv<array_ref_of_rank<int, 2>, const_array_ref_of_rank<int, 2>>(), "");
static_assert(noconv<array_ref_of_rank<int, 3>, array_ref_of_rank<int, 2>>() && noconv<array_ref_of_rank<int, 2>, array_ref_of_rank<int, 3>>(), "");
static_assert(noconv<array_ref_of_rank<int, 1>, array_ref_of_rank<int, 0>>() && noconv<array_ref_of_rank<int, 0>, dense_array_ref<int, 2>>(), "");
static_assert(noconv<array_ref_of_rank<int, 2>, array_ref_of_rank<float, 2>>() && noconv<const_array_ref_of_rank<int, 2>, array_ref_of_rank<int, 2>>() && noconv<const_dense_array_ref<int, 2>, array_ref_of_rank<int, 2>>(), "");
static_assert(noconv<shape_of_rank<3>, shape_of_rank<2>>() && noconv<shape_of_rank<2>, shape_of_rank<3>>() && noconv<shape_of_rank<4>, dense_shape<2>>() && conv<dense_shape<3>, shape_of_rank<3>>(), "");
static_assert(noconv<interval<0, 3>, interval<0, 4>>() && noconv<interval<1>, interval<0>>() && conv<interval<0, 3>, interval<>>() && conv<interval<>, interval<0, 3>>(), "");
static_assert(noconv<dim<0, 3>, dim<0, 4>>() && noconv<dim<1>, dim<0>>() && noconv<broadcast_dim<>, dense_dim<>>() && conv<dense_dim<>, dim<>>() && conv<dim<>, dense_dim<>>(), "");
#elif defined(CASE_temporary_views_ok) // compile
T(f1, (void)equal(m, m.ref()); (void)equal(m.ref(), m); (void)equal(m.ref(), m.ref()); (void)equal(m.cref(), m.ref()); (void)equal(m, m)) T(f2, copy(m.ref(), m.ref()); copy(m, m.ref()); copy(m.cref(), m); move(m.ref(), m.ref()); move(m, m.ref()); move(m.ref(), m); fill(m.ref(), 3); generate(m.ref(), []() { return 1; })) T(f3, transform_index(m.ref(), [](const index_of_rank<2>&) { return 1; }); transform_indices(m.ref(), [](I, I) { return 1; })) T(f4, (void)transpose<1, 0>(m.ref()); (void)reorder<1, 0>(m.cref()); (void)reinterpret<unsigned>(m.ref()); (void)reinterpret_const<int>(m.cref()); (void)reinterpret_shape(m.ref(), shape_of_rank<1>(1)); (void)convert_shape<shape_of_rank<2>>(m.ref()); (void)make_copy(m.ref()); (void)make_compact_copy(m.cref()); (void)make_move(m.ref(), m.shape()); (void)make_compact_move(m.ref()); move(make_copy(m), m); (void)make_move(make_copy(m), m.shape()); (void)make_compact_move(make_copy(m)))
T(f5, using namespace nda; dense_array<int, 2> q = make_copy(m); move(std::move(q), m); swap(q, m); const dense_array<int, 2>& cm = m; (void)equal(cm, m); (void)equal(cm.ref(), m); copy(cm, m); (void)make_copy(cm); (void)make_compact_copy(cm))
#endif
