// Shapes of every rank with arbitrary mins, extents and strides, for the *_types witnesses.
#pragma once
#define ARGS L a0, L n0, L s0, L a1, L n1, L s1, L a2, L n2, L s2, L a3, L n3, L s3, L a4, L n4, L s4, L a5, L n5, L s5
#define OK(k) (n##k >= 1 && s##k != unresolved)
#define POS ASSUME(p != nullptr && OK(0) && OK(1) && OK(2) && OK(3) && OK(4) && OK(5))
#define D_(k) {a##k, n##k, s##k}
#define S0 shape<>()
#define S1 shape_of_rank<1>(dim<>(a0, n0, s0))
#define S2 shape_of_rank<2>(D_(0), D_(1))
#define S3 shape_of_rank<3>(D_(0), D_(1), D_(2))
#define S4 shape_of_rank<4>(D_(0), D_(1), D_(2), D_(3))
#define S5 shape_of_rank<5>(D_(0), D_(1), D_(2), D_(3), D_(4))
#define S6 shape_of_rank<6>(D_(0), D_(1), D_(2), D_(3), D_(4), D_(5))
template <class D> static void dm(int k, const D& d) { out(k, d.min()); out(k + 1, d.extent()); out(k + 2, d.stride()); }
static inline void sdm(int k, L a, L n, L s) { out(k, a); out(k + 1, n); out(k + 2, s); }
#define E_(q, k) sdm((q) + 1 + 3 * k, a##k, n##k, s##k);
#define E0(q)
#define E1(q) E_(q, 0)
#define E2(q) E1(q) E_(q, 1)
#define E3(q) E2(q) E_(q, 2)
#define E4(q) E3(q) E_(q, 3)
#define E5(q) E4(q) E_(q, 4)
#define E6(q) E5(q) E_(q, 5)
template <size_t I, size_t R, bool In = (I < R)> struct dims_of { template <class S> static inline void go(int k, const S& s) { dm(k + 1 + 3 * I, s.template dim<I>()); dims_of<I + 1, R>::go(k, s); } };
template <size_t I, size_t R> struct dims_of<I, R, false> { template <class S> static inline void go(int, const S&) {} };
template <class V> static inline void view(int k, const V& v) { outp(k, v.base()); dims_of<0, V::rank()>::go(k, v.shape()); }
typedef unsigned char byte_t; typedef signed char sbyte_t;
struct vec3 { double x, y, z; }; struct tri3 { std::int64_t x, y, z; };
