// std: cxx20
// From C++20 on std::tuple can be assigned in device code, and with it shapes and array references.
#ifndef __device__
#define __device__ __attribute__((device))
#define __host__ __attribute__((host))
#endif
__device__ void* malloc(int size);
__device__ void free(void* p);
template<typename... Args> __device__ int printf(const char* format, Args...);
#include "array/array.h"
using namespace nda;
typedef dense_array_ref<int, 2> R2;
__device__ void use(index_t);
#if defined(CASE_shape_assign) // compile
__device__ void f(shape_of_rank<2> s, shape_of_rank<2> t, dense_shape<2> d) { s = t; s = d; use(s.flat_extent()); }
#elif defined(CASE_ref_assign) // compile
__device__ void f(R2 a, R2 b, array_ref_of_rank<int, 2> c) { a = b; c = a; a.shape() = b.shape(); a.set_shape(b.shape(), 0); use(a.size() + c.size()); }
#elif defined(CASE_host_only) // reject host
__host__ void h(); __device__ void f() { h(); }
#endif
