// std: cxx14
// thorough: cxx17 cxx20
#include "array/array.h"
#include "array/image.h"
#include <type_traits>
using namespace nda;
template <class S, size_t I> using D = std::decay_t<decltype(std::declval<S>().template dim<I>())>;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class S> using MC = decltype(make_compact(std::declval<S>()));
template <class S> using BD = decltype(std::declval<S>().bounds());
#if defined(CASE_dynamic) // compile
static_assert(same<MC<shape_of_rank<1>>, dense_shape<1>>, "");
static_assert(same<MC<shape_of_rank<3>>, dense_shape<3>>, "");
static_assert(same<MC<shape<>>, shape<>>, "");
#elif defined(CASE_fixed) // compile
typedef fixed_dense_shape<4, 3, 2> F;
static_assert(D<F, 0>::Stride == 1 && D<F, 1>::Stride == 4 && D<F, 2>::Stride == 12, "");
static_assert(D<F, 0>::Extent == 4 && D<F, 1>::Extent == 3 && D<F, 2>::Extent == 2, "");
static_assert(D<F, 0>::Min == 0 && D<F, 1>::Min == 0 && D<F, 2>::Min == 0, "");
#elif defined(CASE_fixed_dynamic_tail) // compile
typedef fixed_dense_shape<4, dynamic, 2> G;
static_assert(D<G, 0>::Stride == 1 && D<G, 1>::Stride == 4 && D<G, 2>::Stride == dynamic, "");
#elif defined(CASE_keep_static) // compile
typedef MC<shape<dim<1, 5, 7>, dim<0, 3>>> S;
static_assert(D<S, 0>::Stride == 7 && D<S, 0>::Min == 1 && D<S, 0>::Extent == 5, "");
static_assert(D<S, 1>::Min == 0 && D<S, 1>::Extent == 3, "");
#elif defined(CASE_static_product) // compile
typedef MC<shape<dim<0, 5>, dim<0, 6>, dim<>>> T;
static_assert(D<T, 0>::Stride == 1 && D<T, 1>::Stride == 5 && D<T, 2>::Stride == 30, "");
#elif defined(CASE_dense_shape) // compile
static_assert(D<dense_shape<3>, 0>::Stride == 1 && D<dense_shape<3>, 1>::Stride == dynamic, "");
static_assert(dense_shape<0>::rank() == 0 && dense_shape<3>::rank() == 3 && shape_of_rank<4>::rank() == 4, "");
#elif defined(CASE_bounds_type) // compile
static_assert(same<BD<shape<dense_dim<0, 4>, dim<1>>>, shape_of_rank<2>>, "");
static_assert(same<BD<fixed_dense_shape<4, 3>>, shape_of_rank<2>>, "");
#endif
