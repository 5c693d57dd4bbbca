// std: cxx17
// Every operation on shapes and array references that the library marks as usable on the device compiles in device code.
#ifndef __device__
#define __device__ __attribute__((device))
#define __host__ __attribute__((host))
#endif
__device__ void* malloc(int size);
__device__ void free(void* p);
template<typename... Args> __device__ int printf(const char* format, Args...);
#include "array/array.h"
using namespace nda;
// The placeholder _ is a host variable; device code spells its type.
typedef interval<0, -1> all_t;
typedef dense_array_ref<int, 2> R2;
__device__ void use(index_t);
#if defined(CASE_construct) // compile
__device__ void f(int* p) { R2 a(p, {4, 5}); array_ref_of_rank<int, 3> b(p, {1, 2, 3}); array_ref<int, shape<>> c(p, {}); dense_array_ref<int, 1> d(p, {10}); const_array_ref_of_rank<int, 3> e(b); (void)a; (void)c; (void)d; (void)e; }
#elif defined(CASE_index) // compile
__device__ int f(R2 a, index_t i, index_t j) { a(i, j) = 3; return a(i, j) + a[std::tuple<index_t, index_t>(i, j)]; }
#elif defined(CASE_slice) // compile
__device__ int f(R2 a, index_t i) { auto r = a(all_t(), i); auto c = a(interval<>(1, 2), i); auto d = a(range(1, 2), all_t()); auto e = a(range<2>(1), i); return r(0) + c(1) + d(1, 1) + e(1); }
#elif defined(CASE_metrics) // compile
__device__ void f(R2 a) { use(a.width()); use(a.height()); use(a.rows()); use(a.columns()); use(a.size()); use(a.empty()); use(a.is_compact()); use(a.shape().flat_extent()); use(a.shape().flat_min()); use(a.shape().flat_max()); use(a.i().min()); use(a.j().max()); use(a.x().extent()); use(a.y().stride()); use(a.shape().is_resolved()); use(a.shape().is_one_to_one()); }
#elif defined(CASE_extents) // compile
__device__ void f(R2 a) { use(std::get<0>(a.shape().min())); use(std::get<0>(a.shape().max())); use(std::get<0>(a.shape().extent())); use(std::get<0>(a.shape().stride())); use(a.shape().is_in_range(1, 2)); use(a.shape()(1, 2)); }
#elif defined(CASE_dim_runtime) // compile
__device__ void f(shape_of_rank<2> s, size_t d) { use(s.dim(d).extent()); }
#elif defined(CASE_ref_dim_runtime) // compile
__device__ void f(R2 a, size_t d) { use(a.dim(d).extent()); }
#elif defined(CASE_resolve) // compile
__device__ void f(index_t n, index_t m) { shape_of_rank<2> s(n, m); s.resolve(); use(s.is_resolved()); dense_shape<2> d(n, m); d.resolve(); use(d.flat_extent()); auto c = make_compact(s); use(c.flat_extent()); }
#elif defined(CASE_for_each_index) // compile
__device__ void f(shape_of_rank<2> s) { for_each_index(s, [](const index_of_rank<2>& i) { use(std::get<0>(i)); }); for_all_indices(s, [](index_t i, index_t j) { use(i + j); }); for_all_indices<1, 0>(s, [](index_t i, index_t j) { use(i + j); }); for_each_index_in_order(s, [](const index_of_rank<2>& i) { use(std::get<0>(i)); }); }
#elif defined(CASE_for_each_value) // compile
__device__ void f(array_ref_of_rank<int, 1> a) { a.for_each_value([](int& x) { x = 1; }); }
#elif defined(CASE_for_each_value2) // compile
__device__ void f(array_ref_of_rank<int, 2> a, R2 b) { a.for_each_value([](int& x) { x = 1; }); b.for_each_value([](int& x) { x = 1; }); }
#elif defined(CASE_fill) // compile
__device__ void f(R2 a) { fill(a, 7); }
#elif defined(CASE_generate) // compile
__device__ void f(R2 a) { generate(a, []() { return 7; }); }
#elif defined(CASE_transform) // compile
__device__ void f(R2 a) { transform_index(a, [](const R2::index_type& i) { return 3; }); transform_indices(a, [](index_t i, index_t j) { return (int)(i + j); }); }
#elif defined(CASE_equal) // compile
__device__ bool f(R2 a, array_ref_of_rank<int, 2> b) { return equal(a, b) || a == a || a != a; }
#elif defined(CASE_range_for) // compile
__device__ void f(interval<> v, dim<> d) { for (index_t i : v) use(i); for (index_t i : d) use(i); }
#elif defined(CASE_split) // compile
__device__ void f(interval<> v, index_t n) { for (auto o : split<4>(v)) for (index_t i : o) use(i); for (auto o : split(v, n)) for (index_t i : o) use(i); }
#elif defined(CASE_split_iterator) // compile
__device__ void f(interval<> v, index_t n) { auto s = split<4>(v); auto b = s.begin(), e = s.end(); use(e - b); use(b == e); use(b != e); use((*b).min()); use((*(b + 1)).min()); ++b; b++; b += 2; auto q = split(v, n); auto c = q.begin(), g = q.end(); use(g - c); use(c == g); use(c != g); use((*c).extent()); use((*(c + 1)).min()); ++c; c++; c += 2; }
#elif defined(CASE_index_iterator) // compile
__device__ void f(interval<> v) { auto b = begin(v), e = end(v); use(e - b); use(b == e); use(b != e); use(*b); use(*(b + 1)); use(*(e - 1)); ++b; b++; --b; b--; b += 2; b -= 1; use(b[1]); }
#elif defined(CASE_mutable_shape) // compile
__device__ void f(R2 a, const R2 b, shape_of_rank<3> s) { (void)b.shape().rank(); a.shape().dim<0>().set_min(2); a.dim<1>().set_min(3); a.i().set_min(1); a.j().set_extent(2); a.x().set_min(1); a.y().set_extent(2); s.i().set_min(0); s.j().set_min(0); s.k().set_min(0); s.x().set_min(0); s.y().set_min(0); s.z().set_min(0); s.c().set_min(0); s.dim<2>().set_stride(4); const shape_of_rank<3>& cs = s; use(cs.i().min() + cs.j().min() + cs.k().min() + cs.x().min() + cs.y().min() + cs.z().min() + cs.c().min() + cs.dim<1>().max()); use(b.i().min() + b.j().max() + b.x().min() + b.y().min() + b.dim<0>().min()); use(s.width() + s.height() + s.channels() + s.rows() + s.columns()); shape_of_rank<4> q; q.w().set_min(0); const shape_of_rank<4>& cq = q; use(cq.w().min()); array_ref_of_rank<int, 4> r4; r4.k().set_min(0); r4.z().set_min(0); r4.c().set_min(0); r4.w().set_min(0); use(r4.channels()); const array_ref_of_rank<int, 4>& c4 = r4; use(c4.k().min() + c4.z().min() + c4.c().min() + c4.w().min()); }
#elif defined(CASE_ref_assign) // compile
__device__ void f(R2 a, R2 b, const_array_ref_of_rank<int, 2> c) { array_ref_of_rank<int, 2> g = a; const_array_ref_of_rank<int, 2> k = g;  use(k.data() == c.data()); R2 d(b); use(d.empty()); auto e = a.ref(); use(e.base() == nullptr); use(a == b); use(a != b); use(c.shape().is_resolved()); }
#elif defined(CASE_intervals) // compile
__device__ void f(interval<> v, interval<2, 5> w, index_t x) { use(v.is_in_range(x)); use(v.is_in_range(w)); use(v == w); use(v != w); use(clamp(x, v)); use(v.min() + v.max() + v.extent()); v.set_min(3); v.set_extent(4); v.set_max(9); use(*begin(v)); use(*end(v)); }
#elif defined(CASE_dims) // compile
__device__ void f(dim<> a, dense_dim<> b, fixed_dim<3> c) { use(a.flat_offset(4)); a.set_stride(2); a.set_min(1); a.set_extent(2); use(a == b); use(b != c); dim<> e = b; a = c; use(e.is_in_range(3)); use(e.is_in_range(a)); }
#elif defined(CASE_static_interval_dim) // compile
__device__ void f(interval<0, 4> s, fixed_interval<4> h, interval<> v, dim<0, 4, 1> d, dense_dim<> g, dim<> e) { interval<> a(s); interval<0> b(h); a = s; h = s; v = h; use(a == s); use(b != h); dim<> i(d); dense_dim<> j(d); i = d; g = d; e = g; dim<> k(v); dim<> l(v, 3); dim<> m; interval<> n; interval<2, 3> o; dim<2, 3, 1> q; use(i == d); use(j != g); use(k.min() + l.stride() + m.extent() + n.extent() + o.max() + q.stride()); }
#elif defined(CASE_convert) // compile
__device__ void f(R2 a) { array_ref_of_rank<int, 2> b = a; auto c = convert_shape<dense_shape<2>>(b); auto d = convert_shape<shape_of_rank<3>>(b); use(c.size() + d.size()); use(is_compatible<dense_shape<2>>(b.shape())); use(is_explicitly_compatible<dense_shape<1>>(b.shape())); }
#elif defined(CASE_reinterpret) // compile
__device__ void f(R2 a, const_array_ref_of_rank<int, 2> b) { auto c = reinterpret<unsigned>(a); auto d = reinterpret_const<int>(b); use(c.size() + d.size()); auto e = reinterpret_shape(a, shape_of_rank<1>(3), 2); use(e.size()); }
#elif defined(CASE_transpose) // compile
__device__ void f(R2 a, shape_of_rank<3> s) { auto b = transpose<1, 0>(a); auto c = reorder<1>(a); use(b.size() + c.size()); auto t = transpose<2, 0, 1>(s); auto u = reorder<2, 0>(s); use(t.size() + u.size()); }
#elif defined(CASE_shape_compare) // compile
__device__ bool f(shape_of_rank<2> s, shape_of_rank<2> t) { return s == t || s != t || s.is_subset_of(t, 3); }
#elif defined(CASE_offset_ref) // compile
__device__ void f(R2 a) { use(*a.data() + *a.base()); use(a.shape().rank()); auto c = a.cref(); use(c.size()); }
#elif defined(CASE_copy) // compile
__device__ void f(array_ref_of_rank<int, 2> a, R2 b) { copy_shape_traits<shape_of_rank<2>, dense_shape<2>>::for_each_value(a.shape(), a.base(), b.shape(), b.base(), [](int& x, int& y) { y = x; }); }
#elif defined(CASE_bounds) // compile
__device__ void f(R2 a, shape_of_rank<3> s) { auto b = a.bounds(); b.resolve(); auto c = s.bounds(); use(c.size() + b.size()); }
#elif defined(CASE_host_only) // reject host
__host__ void h(); __device__ void f() { h(); }
#endif
