// modes: ndebug assert
// thorough: ndebug17
#include "array/array.h"
#include "vf.h"
using namespace nda;
typedef double T;
typedef array_ref_of_rank<T, 2> R2;
#define P T *p, L a, L n, L s, L b, L m, L t
#define MK R2(p, shape_of_rank<2>({a, n, s}, {b, m, t}))

IMPL(ref_call)(P, L x, L y) { R2 r = MK; outp(0, &r(x, y)); }
SPEC(ref_call)(P, L x, L y) { outp(0, p + (x - a) * s + (y - b) * t); }
IMPL(ref_index)(P, L x, L y) { R2 r = MK; outp(0, &r[std::make_tuple(x, y)]); }
SPEC(ref_index)(P, L x, L y) { outp(0, p + (x - a) * s + (y - b) * t); }
IMPL(ref_ctor2)(P, L x, L y) {
  shape_of_rank<2> sh({a, n, s}, {b, m, t});
  R2 r(p, sh); outp(0, &r(x, y)); outp(1, r.base()); 
  const R2 c(r); outp(2, &c(x, y)); outp(3, c.base());
}
SPEC(ref_ctor2)(P, L x, L y) { T* e = p + (x - a) * s + (y - b) * t; outp(0, e); outp(1, p); outp(2, e); outp(3, p); }
