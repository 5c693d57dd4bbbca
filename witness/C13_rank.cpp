// modes: ndebug assert
// thorough: ndebug17
// Lifetimes at every rank, with parts known at compile time and with larger elements: construct, copy, fill, assign, move, clear.
#include "array/array.h"
#include "array/image.h"
#include "vf.h"
using namespace nda;
struct B {
  double v[3];
  B() { el_def(this); } B(const B& o) { el_cc(this, &o); } B(B&& o) { el_mc(this, &o); }
  B& operator=(const B& o) { el_ca(this, &o); return *this; } B& operator=(B&& o) { el_ma(this, &o); return *this; } ~B() { el_dtor(this); }
};
template <class T, class S> using A = array<T, S, lc_alloc<T>>;
#define FOR(i, n) for (L i = 0; i < (n); i++)
template <class T> static T* al(L n) { T* p = (T*)al_alloc(n); ASSUME(p != nullptr); return p; }
#define L_NEW(id, T, S, args, pre, LOOPS, off, flat) \
  IMPL(id##_new)(const T& e, L n, L m, L t) { pre; S h args; A<T, S> x(h); out(0, x.size()); A<T, S> y(x); out(1, y.size()); A<T, S> z(h, e); out(2, 0); } \
  SPECP(id##_new)(const T& e, L n, L m, L t) { pre; T* p = al<T>(flat); L c = 0; LOOPS el_def(p + off); out(0, (SZ)); T* q = al<T>(flat); LOOPS el_cc(q + off, p + off); out(1, (SZ)); T* r = al<T>(flat); LOOPS el_cc(r + off, &e); out(2, 0); \
    LOOPS el_dtor(r + off); al_free(r, flat); LOOPS el_dtor(q + off); al_free(q, flat); LOOPS el_dtor(p + off); al_free(p, flat); } 
#define L_ASG(id, T, S, args, pre, LOOPS, off, flat) \
  IMPL(id##_asg)(const T& e, L n, L m, L t) { pre; S h args; A<T, S> x(h), y(h); out(0, 0); y.assign(x); out(1, 0); y.assign(std::move(x)); out(2, 0); y.assign(h, e); out(3, 0); A<T, S> z(std::move(y)); out(4, 0); } \
  SPECP(id##_asg)(const T& e, L n, L m, L t) { pre; T* p = al<T>(flat); LOOPS el_def(p + off); T* q = al<T>(flat); LOOPS el_def(q + off); out(0, 0); LOOPS el_dtor(q + off); LOOPS el_cc(q + off, p + off); out(1, 0); LOOPS el_dtor(q + off); LOOPS el_mc(q + off, p + off); out(2, 0); \
    LOOPS el_dtor(q + off); LOOPS el_cc(q + off, &e); out(3, 0); out(4, 0); LOOPS el_dtor(q + off); al_free(q, flat); LOOPS el_dtor(p + off); al_free(p, flat); } 
#define L_CLR(id, T, S, args, pre, LOOPS, off, flat) \
  IMPL(id##_clr)(L n, L m, L t) { pre; S h args; A<T, S> x(h); out(0, 0); x.clear(); out(1, x.empty()); } \
  SPECP(id##_clr)(L n, L m, L t) { pre; T* p = al<T>(flat); LOOPS el_def(p + off); out(0, 0); LOOPS el_dtor(p + off); al_free(p, flat); out(1, 1); }
#define LIFE(...) L_NEW(__VA_ARGS__) L_ASG(__VA_ARGS__) L_CLR(__VA_ARGS__)
#define PN ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000 && t >= 1 && t < 1000)
#define PS PN; ASSUME(n >= 2 && m >= 2)
typedef shape_of_rank<1> S1; typedef shape_of_rank<3> S3; typedef shape_of_rank<4> S4; typedef shape_of_rank<5> S5;
#define SZ n
LIFE(r1, E, S1, (dim<>(m, n, 3)), PN, FOR(i, n), i * 3, (n - 1) * 3 + 1)
LIFE(r1n, B, S1, (dim<>(m, n, -2)), PN, FOR(i, n), (n - 1 - i) * 2, (n - 1) * 2 + 1)
#undef SZ
#define SZ 2 * n * m
LIFE(r3, E, S3, ({1, 2, 1}, {0, n, 4}, {-5, m, n * 4 + t}), PN, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * (n * 4 + t), (m - 1) * (n * 4 + t) + (n - 1) * 4 + 2)
LIFE(r3n, B, S3, ({0, n, 3}, {1, 2, 1}, {-5, m, -(n * 3 + t)}), PN, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 3 + (m - 1 - k) * (n * 3 + t), (m - 1) * (n * 3 + t) + (n - 1) * 3 + 2)
LIFE(r4, E, S4, ({1, 2, 1}, {7, 1, 1}, {0, n, 4}, {-5, m, n * 4 + t}), PN, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * (n * 4 + t), (m - 1) * (n * 4 + t) + (n - 1) * 4 + 2)
LIFE(r4n, E, S4, ({1, 2, 1}, {7, 1, 1}, {0, n, 4}, {-5, m, -(n * 4 + t)}), PN, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + (m - 1 - k) * (n * 4 + t), (m - 1) * (n * 4 + t) + (n - 1) * 4 + 2)
LIFE(r5, E, S5, ({0, 1, 1}, {1, 2, 1}, {7, 1, 1}, {0, n, 4}, {-5, m, n * 4 + t}), PN, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * (n * 4 + t), (m - 1) * (n * 4 + t) + (n - 1) * 4 + 2)
#undef SZ
// (a default shape with only some extents fixed may hold storage although it has no elements: copies and assignments only)
#define SZ 3 * n
typedef shape<dim<>, dim<2, 3>> SS1; typedef shape<fixed_dim<3>, dim<4>> SS2; typedef shape<dim<dynamic, dynamic, 5>, dense_dim<0, 3>> SS3;
L_ASG(s1, E, SS1, ({0, n, 1}, {2, 3, n + t}), PN, FOR(j, 3) FOR(i, n), i + j * (n + t), 2 * (n + t) + n)
L_ASG(s2, B, SS2, ({m, 3, 2}, {4, n, 7}), PN, FOR(j, n) FOR(i, 3), i * 2 + j * 7, (n - 1) * 7 + 5)
LIFE(s3, E, SS3, ({m, n, 5}, {}), PN, FOR(j, n) FOR(i, 3), i + j * 5, (n - 1) * 5 + 3)
#undef SZ
// shapes that are never empty: scalars and fixed extents
#define FIX(id, T, S, args, LOOPS, off, flat) \
  IMPL(id##_new)(const T& e) { S h args; A<T, S> x(h); out(0, 0); A<T, S> y(x); out(1, 0); } \
  SPECP(id##_new)(const T& e) { T* p = al<T>(flat); LOOPS el_def(p + off); out(0, 0); T* q = al<T>(flat); LOOPS el_cc(q + off, p + off); out(1, 0); \
    LOOPS el_dtor(q + off); al_free(q, flat); LOOPS el_dtor(p + off); al_free(p, flat); } \
  IMPL(id##_asg)(const T& e) { S h args; A<T, S> x(h), y(h); out(0, 0); y = x; out(1, 0); y.assign(std::move(x)); out(2, 0); y.assign(h, e); out(3, 0); x = std::move(y); out(4, 0); } \
  SPECP(id##_asg)(const T& e) { T* p = al<T>(flat); LOOPS el_def(p + off); T* q = al<T>(flat); LOOPS el_def(q + off); out(0, 0); LOOPS el_dtor(q + off); LOOPS el_cc(q + off, p + off); out(1, 0); LOOPS el_dtor(q + off); LOOPS el_mc(q + off, p + off); out(2, 0); \
    LOOPS el_dtor(q + off); LOOPS el_cc(q + off, &e); out(3, 0); out(4, 0); LOOPS el_dtor(p + off); al_free(p, flat); LOOPS el_dtor(q + off); al_free(q, flat); } \
  IMPL(id##_clr)() { S h args; A<T, S> x(h); out(0, 0); x.clear(); out(1, x.empty()); } \
  SPECP(id##_clr)() { T* p = al<T>(flat); LOOPS el_def(p + off); out(0, 0); LOOPS el_dtor(p + off); al_free(p, flat); p = al<T>(flat); LOOPS el_def(p + off); out(1, 0); LOOPS el_dtor(p + off); al_free(p, flat); }
typedef shape<dim<0, 2, 5>, dim<1, 3, -1>> F2; typedef fixed_dense_shape<2, 1, 2> F3;
FIX(f0, E, shape<>, , , 0, 1)
FIX(f0b, B, shape<>, , , 0, 1)
FIX(f2, E, F2, , FOR(j, 3) FOR(i, 2), i * 5 + (2 - j), 8)
FIX(f3, B, F3, , FOR(k, 2) FOR(i, 2), i + k * 2, 4)
