// modes: ndebug assert
// thorough: ndebug17 ndebug20
// The address of element (x0..xn-1) is base + sum (x_d - min_d) * stride_d, through every accessor.
#include "array/array.h"
#include "vf.h"
using namespace nda;

// --- shape::operator() and operator[], ranks 0..5, dynamic dims
RIMPL(L, off0)() { shape<> s; return s(); }
RSPEC(L, off0)() { return 0; }
RIMPL(L, off1)(L a, L n, L s, L x) { return shape_of_rank<1>(dim<>(a, n, s))(x); }
RSPEC(L, off1)(L a, L n, L s, L x) { return (x - a) * s; }
RIMPL(L, off1b)(L a, L n, L s, L x) { return shape_of_rank<1>(dim<>(a, n, s))[std::tuple<L>(x)]; }
RSPEC(L, off1b)(L a, L n, L s, L x) { return (x - a) * s; }
RIMPL(L, off2)(L a, L n, L s, L b, L m, L t, L x, L y) { return shape_of_rank<2>({a, n, s}, {b, m, t})(x, y); }
RSPEC(L, off2)(L a, L n, L s, L b, L m, L t, L x, L y) { return (x - a) * s + (y - b) * t; }
RIMPL(L, off2b)(L a, L n, L s, L b, L m, L t, L x, L y) { return shape_of_rank<2>({a, n, s}, {b, m, t})[std::make_tuple(x, y)]; }
RSPEC(L, off2b)(L a, L n, L s, L b, L m, L t, L x, L y) { return (x - a) * s + (y - b) * t; }
RIMPL(L, off3)(L a, L n, L s, L b, L m, L t, L c, L o, L u, L x, L y, L z) {
  return shape_of_rank<3>({a, n, s}, {b, m, t}, {c, o, u})(x, y, z);
}
RSPEC(L, off3)(L a, L n, L s, L b, L m, L t, L c, L o, L u, L x, L y, L z) { return (x - a) * s + (y - b) * t + (z - c) * u; }
RIMPL(L, off4)(L a, L s, L b, L t, L c, L u, L d, L v, L x, L y, L z, L w) {
  return shape_of_rank<4>({a, 1, s}, {b, 1, t}, {c, 1, u}, {d, 1, v})(x, y, z, w);
}
RSPEC(L, off4)(L a, L s, L b, L t, L c, L u, L d, L v, L x, L y, L z, L w) {
  return (x - a) * s + (y - b) * t + (z - c) * u + (w - d) * v;
}
RIMPL(L, off5)(L a, L s, L t, L u, L v, L q, L x, L y, L z, L w, L p) {
  return shape_of_rank<5>({a, 1, s}, {0, 1, t}, {0, 1, u}, {0, 1, v}, {0, 1, q})(x, y, z, w, p);
}
RSPEC(L, off5)(L a, L s, L t, L u, L v, L q, L x, L y, L z, L w, L p) { return (x - a) * s + y * t + z * u + w * v + p * q; }
RIMPL(L, off6)(L s, L t, L u, L v, L q, L r, L x, L y, L z, L w, L p, L o) {
  return shape_of_rank<6>({0, 1, s}, {0, 1, t}, {0, 1, u}, {0, 1, v}, {0, 1, q}, {0, 1, r})(x, y, z, w, p, o);
}
RSPEC(L, off6)(L s, L t, L u, L v, L q, L r, L x, L y, L z, L w, L p, L o) { return x * s + y * t + z * u + w * v + p * q + o * r; }
RIMPL(L, off7)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L x0, L x1, L x2, L x3, L x4, L x5, L x6) { return shape_of_rank<7>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6})(x0, x1, x2, x3, x4, x5, x6); }
RSPEC(L, off7)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L x0, L x1, L x2, L x3, L x4, L x5, L x6) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6; }
RIMPL(L, off7b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L x0, L x1, L x2, L x3, L x4, L x5, L x6) { return shape_of_rank<7>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6})[std::make_tuple(x0, x1, x2, x3, x4, x5, x6)]; }
RSPEC(L, off7b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L x0, L x1, L x2, L x3, L x4, L x5, L x6) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6; }
RIMPL(L, off8)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7) { return shape_of_rank<8>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6}, {0, 1, s7})(x0, x1, x2, x3, x4, x5, x6, x7); }
RSPEC(L, off8)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6 + (x7 - (0)) * s7; }
RIMPL(L, off8b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7) { return shape_of_rank<8>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6}, {0, 1, s7})[std::make_tuple(x0, x1, x2, x3, x4, x5, x6, x7)]; }
RSPEC(L, off8b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6 + (x7 - (0)) * s7; }
RIMPL(L, off10)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L s8, L s9, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7, L x8, L x9) { return shape_of_rank<10>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6}, {0, 1, s7}, {1, 1, s8}, {-1, 1, s9})(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9); }
RSPEC(L, off10)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L s8, L s9, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7, L x8, L x9) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6 + (x7 - (0)) * s7 + (x8 - (1)) * s8 + (x9 - (-1)) * s9; }
RIMPL(L, off10b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L s8, L s9, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7, L x8, L x9) { return shape_of_rank<10>({-1, 1, s0}, {0, 1, s1}, {1, 1, s2}, {-1, 1, s3}, {0, 1, s4}, {1, 1, s5}, {-1, 1, s6}, {0, 1, s7}, {1, 1, s8}, {-1, 1, s9})[std::make_tuple(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9)]; }
RSPEC(L, off10b)(L s0, L s1, L s2, L s3, L s4, L s5, L s6, L s7, L s8, L s9, L x0, L x1, L x2, L x3, L x4, L x5, L x6, L x7, L x8, L x9) { return (x0 - (-1)) * s0 + (x1 - (0)) * s1 + (x2 - (1)) * s2 + (x3 - (-1)) * s3 + (x4 - (0)) * s4 + (x5 - (1)) * s5 + (x6 - (-1)) * s6 + (x7 - (0)) * s7 + (x8 - (1)) * s8 + (x9 - (-1)) * s9; }

// --- compile-time mins, extents and strides
RIMPL(L, stat1)(L n, L m, L t, L x, L y) { return shape<dense_dim<3>, dim<-2>>(dense_dim<3>(3, n), dim<-2>(-2, m, t))(x, y); }
RSPEC(L, stat1)(L n, L m, L t, L x, L y) { return (x - 3) + (y + 2) * t; }
RIMPL(L, stat2)(L x, L y) { return shape<dim<1, 4, -2>, dim<0, 5, 8>>()(x, y); }
RSPEC(L, stat2)(L x, L y) { return (x - 1) * -2 + y * 8; }
RIMPL(L, stat3)(L n, L b, L m, L t, L x, L y) { return shape<broadcast_dim<>, dim<>>(broadcast_dim<>(0, n), dim<>(b, m, t))(x, y); }
RSPEC(L, stat3)(L n, L b, L m, L t, L x, L y) { return (y - b) * t; }
RIMPL(L, stat4)(L a, L n, L b, L m, L x, L y) { return shape<strided_dim<3>, fixed_dim<7, 21>>(strided_dim<3>(a, n), fixed_dim<7, 21>(b, 7))(x, y); }
RSPEC(L, stat4)(L a, L n, L b, L m, L x, L y) { return (x - a) * 3 + (y - b) * 21; }
RIMPL(L, dimoff)(L a, L n, L s, L x) { return dim<>(a, n, s).flat_offset(x); }
RSPEC(L, dimoff)(L a, L n, L s, L x) { return (x - a) * s; }
