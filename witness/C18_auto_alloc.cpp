// modes: ndebug assert
// thorough: ndebug17
// Allocators with an in-place buffer: the buffer is handed out at most once at a time, blocks go back where they came from.
#include <new>
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define NB 4
#define FOR(i, n) for (L i = 0; i < (n); i++)
typedef auto_allocator<double, NB, alignof(double), lc_alloc<double>> AA;
typedef uninitialized_allocator<AA> UA;
template <class A> static bool in(const A& a, const void* p) { return vf_in(p, &a, sizeof(A)); }
template <class A> static void hist(L n, L m, L k) {
  ASSUME(n >= 0 && m >= 0 && k >= 0);
  A a; double* p = a.allocate(n); out(0, in(a, p)); double* q = a.allocate(m); out(1, in(a, q)); a.deallocate(p, n); double* r = a.allocate(k); out(2, in(a, r)); a.deallocate(q, m); a.deallocate(r, k);
  double* z = a.allocate(1); out(3, in(a, z)); a.deallocate(z, 1);
}
static void* get(L n, bool b) { return b ? (void*)0 : al_alloc(n); }
static void put(void* p, L n, bool b) { if (!b) al_free(p, n); }
#define AL(p, n, b) void* p = get(n, b); ASSUME(b || p != nullptr)
static void s_hist(L n, L m, L k) {
  ASSUME(n >= 0 && m >= 0 && k >= 0);
  bool b1 = n <= NB, b2 = !b1 && m <= NB, b3 = !b2 && k <= NB;
  AL(p, n, b1); out(0, b1); AL(q, m, b2); out(1, b2); put(p, n, b1); AL(r, k, b3); out(2, b3); put(q, m, b2); put(r, k, b3); out(3, 1);
}
IMPL(hist)(L n, L m, L k) { hist<AA>(n, m, k); }
SPEC(hist)(L n, L m, L k) { s_hist(n, m, k); }
IMPL(uhist)(L n, L m, L k) { hist<UA>(n, m, k); }
SPEC(uhist)(L n, L m, L k) { s_hist(n, m, k); }
// through allocator_traits, in the order the blocks were taken and in reverse
IMPL(order)(L n, L m) {
  ASSUME(n >= 1 && m >= 1); typedef std::allocator_traits<AA> T;
  AA a; double* p = T::allocate(a, n); double* q = T::allocate(a, m); out(0, in(a, p)); out(1, in(a, q)); T::deallocate(a, q, m); double* r = T::allocate(a, m); out(2, in(a, r)); T::deallocate(a, r, m); T::deallocate(a, p, n);
}
SPEC(order)(L n, L m) {
  ASSUME(n >= 1 && m >= 1); bool b1 = n <= NB, b2 = !b1 && m <= NB;
  AL(p, n, b1); AL(q, m, b2); out(0, b1); out(1, b2); put(q, m, b2); AL(r, m, b2); out(2, b2); put(r, m, b2); put(p, n, b1);
}
// copies, moves and rebinds start with their own free buffer
template <class A, class F> static void dup(L n, L m, F f) {
  ASSUME(n >= 1 && m >= 1); A a; double* p = a.allocate(n); A b(f(a)); double* q = b.allocate(m); out(0, in(a, p)); out(1, in(b, q)); out(2, in(a, q)); a.deallocate(p, n); b.deallocate(q, m);
  double* r = a.allocate(m); out(3, in(a, r)); a.deallocate(r, m);
}
static void s_dup(L n, L m) {
  ASSUME(n >= 1 && m >= 1); bool b1 = n <= NB, b2 = m <= NB;
  AL(p, n, b1); AL(q, m, b2); out(0, b1); out(1, b2); out(2, 0); put(p, n, b1); put(q, m, b2); AL(r, m, b2); out(3, b2); put(r, m, b2);
}
IMPL(copy)(L n, L m) { dup<AA>(n, m, [](AA& a) -> AA& { return a; }); }
SPEC(copy)(L n, L m) { s_dup(n, m); }
IMPL(move)(L n, L m) { dup<AA>(n, m, [](AA& a) -> AA&& { return std::move(a); }); }
SPEC(move)(L n, L m) { s_dup(n, m); }
IMPL(ucopy)(L n, L m) { dup<UA>(n, m, [](UA& a) -> UA& { return a; }); }
SPEC(ucopy)(L n, L m) { s_dup(n, m); }
IMPL(umove)(L n, L m) { dup<UA>(n, m, [](UA& a) -> UA&& { return std::move(a); }); }
SPEC(umove)(L n, L m) { s_dup(n, m); }
IMPL(soccc)(L n, L m) { dup<AA>(n, m, [](AA& a) { return std::allocator_traits<AA>::select_on_container_copy_construction(a); }); }
SPEC(soccc)(L n, L m) { s_dup(n, m); }
typedef auto_allocator<int, 9, 16, lc_alloc<int>> AI;
IMPL(rebind)(L n, L m) { ASSUME(n >= 1 && m >= 1); AI a; int* p = a.allocate(n); AA b(a); double* q = b.allocate(m); out(0, in(a, p)); out(1, in(b, q)); a.deallocate(p, n); b.deallocate(q, m); }
SPEC(rebind)(L n, L m) { ASSUME(n >= 1 && m >= 1); bool b1 = n <= 9, b2 = m <= NB; AL(p, n, b1); AL(q, m, b2); out(0, b1); out(1, b2); put(p, n, b1); put(q, m, b2); }
// assignment leaves the buffers and their use alone
template <class A, class F> static void asg(L n, L m, L k, F f) {
  ASSUME(n >= 1 && m >= 1 && k >= 1); A a, b; double* p = a.allocate(n); double* q = b.allocate(m); out(0, &(b = f(a)) == &b); double* r = b.allocate(k); out(1, in(b, r)); b.deallocate(r, k); b.deallocate(q, m); double* z = a.allocate(k); out(2, in(a, z)); a.deallocate(z, k); a.deallocate(p, n);
}
static void s_asg(L n, L m, L k) {
  ASSUME(n >= 1 && m >= 1 && k >= 1); bool b1 = n <= NB, b2 = m <= NB, b3 = !b2 && k <= NB, b4 = !b1 && k <= NB;
  AL(p, n, b1); AL(q, m, b2); out(0, 1); AL(r, k, b3); out(1, b3); put(r, k, b3); put(q, m, b2); AL(z, k, b4); out(2, b4); put(z, k, b4); put(p, n, b1);
}
IMPL(casg)(L n, L m, L k) { asg<AA>(n, m, k, [](AA& a) -> AA& { return a; }); }
SPEC(casg)(L n, L m, L k) { s_asg(n, m, k); }
IMPL(masg)(L n, L m, L k) { asg<AA>(n, m, k, [](AA& a) -> AA&& { return std::move(a); }); }
SPEC(masg)(L n, L m, L k) { s_asg(n, m, k); }
// equal means: either can free what the other allocated
typedef auto_allocator<double, NB, alignof(double), st_alloc<double, true, true, true>> SA;
IMPL(cmp)(L n, L m) { ASSUME(n >= 1 && m >= 1); AA a, b; double* p = a.allocate(n); out(0, a == a); out(1, a == b); out(2, b == a); out(3, a != b); double* q = b.allocate(m); out(4, a == b); out(5, b == a); out(6, a != b); a.deallocate(p, n); out(7, a == b); out(8, b != a); b.deallocate(q, m); out(9, a == b); }
SPEC(cmp)(L n, L m) { ASSUME(n >= 1 && m >= 1); bool b1 = n <= NB, b2 = m <= NB; AL(p, n, b1); out(0, 1); out(1, !b1); out(2, !b1); out(3, b1); AL(q, m, b2); out(4, !b1 && !b2); out(5, !b1 && !b2); out(6, b1 || b2); put(p, n, b1); out(7, !b2); out(8, b2); put(q, m, b2); out(9, 1); }
IMPL(cmp_n)() { auto_allocator<double, 2, 8, lc_alloc<double>> a; auto_allocator<double, 7, 8, lc_alloc<double>> b; out(0, a == b); out(1, a != b); double* p = a.allocate(1); out(2, a == b); out(3, b == a); a.deallocate(p, 1); out(4, a == b); uninitialized_auto_allocator<double, 4> u, v; out(5, u == u); out(6, u == v); double* q = v.allocate(2); out(7, u == v); out(8, u != v); v.deallocate(q, 2); }
SPEC(cmp_n)() { out(0, 1); out(1, 0); out(2, 0); out(3, 0); out(4, 1); out(5, 1); out(6, 1); out(7, 0); out(8, 1); }
// traits
IMPL(traits)() { typedef std::allocator_traits<AA> T; out(0, T::propagate_on_container_copy_assignment::value); out(1, T::propagate_on_container_move_assignment::value); out(2, T::propagate_on_container_swap::value); typedef std::allocator_traits<UA> U; out(3, U::propagate_on_container_copy_assignment::value); out(4, U::propagate_on_container_move_assignment::value); out(5, U::propagate_on_container_swap::value); out(6, T::is_always_equal::value); out(7, U::is_always_equal::value); out(8, std::is_same<T::value_type, double>::value && std::is_same<U::value_type, double>::value); }
SPEC(traits)() { FOR(i, 8) out(i, 0); out(8, 1); }
// the base allocator is carried along
IMPL(base)(L n) { ASSUME(n > NB); SA a; double* p = a.allocate(n); SA b(a), c(std::move(b)); double* q = c.allocate(n); a.deallocate(q, n); c.deallocate(p, n); out(0, a == c); }
SPEC(base)(L n) { ASSUME(n > NB); double* p = (double*)ar_alloc(0, n); ASSUME(p != nullptr); double* q = (double*)ar_alloc(0, n); ASSUME(q != nullptr); ar_free(0, q, n); ar_free(0, p, n); out(0, 1); }
// every base allocator is an arena of its own unless it is a copy: copies, moves and assignments take their source's
template <class T> struct uq_alloc : st_alloc<T, true, true, true> { uq_alloc() : st_alloc<T, true, true, true>((L)al_alloc(3)) {} };
typedef auto_allocator<double, NB, alignof(double), uq_alloc<double>> QA;
template <class A, class F> static void arena(L n, F f) { ASSUME(n > NB); A a; A b(f(a)); double* p = b.allocate(n); out(0, a == b); out(1, a != b); a.deallocate(p, n); A c; out(2, c == a); c = f(b); out(3, c == a); double* q = c.allocate(n); b.deallocate(q, n); }
static void s_arena(L n) { ASSUME(n > NB); void* a = al_alloc(3); void* p = ar_alloc((L)a, n); ASSUME(p != nullptr); out(0, 1); out(1, 0); ar_free((L)a, p, n); void* c = al_alloc(3); out(2, c == a); out(3, 1); void* q = ar_alloc((L)a, n); ASSUME(q != nullptr); ar_free((L)a, q, n); }
IMPL(arena_copy)(L n) { arena<QA>(n, [](QA& a) -> const QA& { return a; }); }
SPEC(arena_copy)(L n) { s_arena(n); }
IMPL(arena_move)(L n) { arena<QA>(n, [](QA& a) -> QA&& { return std::move(a); }); }
SPEC(arena_move)(L n) { s_arena(n); }
typedef uninitialized_allocator<uq_alloc<double>> QU;
IMPL(arena_ucopy)(L n) { arena<QU>(n, [](QU& a) -> const QU& { return a; }); }
SPEC(arena_ucopy)(L n) { s_arena(n); }
IMPL(arena_umove)(L n) { arena<QU>(n, [](QU& a) -> QU&& { return std::move(a); }); }
SPEC(arena_umove)(L n) { s_arena(n); }
// Arrays that use the buffer.  x and y live in named stack objects, so that elements inside them have names too.
typedef shape_of_rank<1> S1;
typedef auto_allocator<E, NB, alignof(E), lc_alloc<E>> AE;
typedef array<E, S1, AE> Arr;
static E* buf(int id) { AE t; E* p = t.allocate(1); L off = (char*)p - (char*)&t; t.deallocate(p, 1); return (E*)((char*)&((Arr*)vf_stack(id))->get_allocator() + off); }
struct blk { E* p; L n; bool b; };
static blk take(int id, L n) { blk r; r.n = n; r.b = n <= NB; r.p = r.b ? buf(id) : (E*)al_alloc(n); ASSUME(r.b || r.p != nullptr); return r; }
static void drop(const blk& x) { FOR(i, x.n) el_dtor(x.p + i); if (!x.b) al_free(x.p, x.n); }
static blk make(int id, L n) { blk r = take(id, n); FOR(i, r.n) el_def(r.p + i); return r; }
#define NEW(x, id, ...) Arr& x = *new (vf_stack(id)) Arr(__VA_ARGS__)
#define OBS(k, x) out(k, x.i().min()), out(k + 1, x.i().extent()), outp(k + 2, x.base()), outp(k + 3, x.data())
static void obs(int k, L a, L n, const void* p) { out(k, a); out(k + 1, n); outp(k + 2, p); outp(k + 3, p); }
IMPL(a_ctor)(L a, L n) { ASSUME(n >= 1); NEW(x, 0, S1(dim<>(a, n))); OBS(0, x); x.~Arr(); }
SPECP(a_ctor)(L a, L n) { ASSUME(n >= 1); blk x = make(0, n); obs(0, a, n, x.p); drop(x); }
IMPL(a_copy)(L a, L n) { ASSUME(n >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, x); OBS(0, y); OBS(4, x); x.~Arr(); y.~Arr(); }
SPECP(a_copy)(L a, L n) { ASSUME(n >= 1); blk x = make(0, n), y = take(1, n); FOR(i, n) el_cc(y.p + i, x.p + i); obs(0, a, n, y.p); obs(4, a, n, x.p); drop(x); drop(y); }
IMPL(a_move)(L a, L n) { ASSUME(n >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, std::move(x)); OBS(0, y); x.~Arr(); y.~Arr(); }
SPECP(a_move)(L a, L n) { ASSUME(n >= 1); blk x = make(0, n); if (x.b) { blk y = take(1, n); FOR(i, n) el_mc(y.p + i, x.p + i); obs(0, a, n, y.p); drop(x); drop(y); } else { obs(0, a, n, x.p); drop(x); } }
IMPL(a_casg)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, S1(dim<>(b, m))); out(9, 0); y = x; OBS(0, y); OBS(4, x); x.~Arr(); y.~Arr(); }
SPECP(a_casg)(L a, L n, L b, L m) {
  ASSUME(n >= 1 && m >= 1); blk x = make(0, n), y = make(1, m); out(9, 0);
  FOR(i, m) el_dtor(y.p + i);
  if (a != b || n != m) { if (!y.b) al_free(y.p, m); y = take(1, n); }
  FOR(i, n) el_cc(y.p + i, x.p + i); obs(0, a, n, y.p); obs(4, a, n, x.p); drop(x); drop(y);
}
IMPL(a_masg)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, S1(dim<>(b, m))); out(9, 0); y = std::move(x); OBS(0, y); y.~Arr(); x.~Arr(); }
SPECP(a_masg)(L a, L n, L b, L m) {
  ASSUME(n >= 1 && m >= 1); blk x = make(0, n), y = make(1, m); out(9, 0);
  if (!x.b && !y.b) { obs(0, a, n, x.p); drop(x); drop(y); return; }
  FOR(i, m) el_dtor(y.p + i);
  if (a != b || n != m) { if (!y.b) al_free(y.p, m); y = take(1, n); }
  FOR(i, n) el_mc(y.p + i, x.p + i); obs(0, a, n, y.p); drop(y); drop(x);
}
// move into an empty array, out of an empty array
IMPL(a_masg_e)(L a, L n) { ASSUME(n >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, S1()); y = std::move(x); OBS(0, y); y.~Arr(); x.~Arr(); }
SPECP(a_masg_e)(L a, L n) { ASSUME(n >= 1); blk x = make(0, n); if (!x.b) { obs(0, a, n, x.p); drop(x); return; } blk y = take(1, n); FOR(i, n) el_mc(y.p + i, x.p + i); obs(0, a, n, y.p); drop(y); drop(x); }
IMPL(a_clear)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); NEW(x, 0, S1(dim<>(a, n))); out(9, 0); x.clear(); out(9, 1); x.assign(S1(dim<>(b, m)), *(const E*)vf_stack(7)); OBS(0, x); x.~Arr(); }
SPECP(a_clear)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); blk x = make(0, n); out(9, 0); drop(x); out(9, 1); x = take(0, m); FOR(i, m) el_cc(x.p + i, vf_stack(7)); obs(0, b, m, x.p); drop(x); }
// reshape and swap go through a temporary array with a buffer of its own
static blk ltake(void* t, L n) { blk r; r.n = n; r.b = n <= NB; r.p = r.b ? (E*)((char*)t + ((char*)buf(0) - (char*)vf_stack(0))) : (E*)al_alloc(n); ASSUME(r.b || r.p != nullptr); return r; }
IMPL(a_reshape)(L a, L n, L m) { ASSUME(n >= 1 && m >= 1 && n != m); NEW(x, 0, S1(dim<>(a, n))); out(9, 0); x.reshape(S1(dim<>(a, m))); OBS(0, x); x.~Arr(); }
SPECP(a_reshape)(L a, L n, L m) {
  ASSUME(n >= 1 && m >= 1 && n != m); char t[sizeof(Arr)]; blk x = make(0, n); out(9, 0);
  blk y = ltake(t, m); FOR(i, m) el_def(y.p + i);
  FOR(i, n < m ? n : m) el_ma(y.p + i, x.p + i);
  if (!x.b && !y.b) { drop(x); obs(0, a, m, y.p); drop(y); return; }
  drop(x); x = take(0, m); FOR(i, m) el_mc(x.p + i, y.p + i); drop(y);
  obs(0, a, m, x.p); drop(x);
}
IMPL(a_swap)(L a, L n, L b, L m) { ASSUME(n >= 1 && m >= 1); NEW(x, 0, S1(dim<>(a, n))); NEW(y, 1, S1(dim<>(b, m))); out(9, 0); swap(x, y); OBS(0, x); OBS(4, y); x.~Arr(); y.~Arr(); }
SPECP(a_swap)(L a, L n, L b, L m) {
  ASSUME(n >= 1 && m >= 1); char tb[sizeof(Arr)]; bool same = a == b && n == m; blk x = make(0, n), y = make(1, m); out(9, 0);
  blk t;
  if (y.b) { t = ltake(tb, m); FOR(i, m) el_mc(t.p + i, y.p + i); } else t = y;
  if (!y.b) {                                    // y is empty now
    if (!x.b) { y = x; x = t; obs(0, b, m, x.p); obs(4, a, n, y.p); drop(x); drop(y); return; }
    y = take(1, n); FOR(i, n) el_mc(y.p + i, x.p + i);
  } else {
    FOR(i, m) el_dtor(y.p + i);
    y = take(1, n); FOR(i, n) el_mc(y.p + i, x.p + i);
  }
  // x still holds its (moved-from) elements; t holds y's
  if (!x.b && !t.b) { blk u = x; x = t; drop(u); }
  else {
    FOR(i, n) el_dtor(x.p + i);
    if (!same && !x.b) al_free(x.p, n);
    if (!same) x = take(0, m);
    FOR(i, m) el_mc(x.p + i, t.p + i);
    drop(t);
  }
  obs(0, b, m, x.p); obs(4, a, n, y.p); drop(x); drop(y);
}
// moving to a new shape never takes a buffer along
typedef auto_allocator<double, NB, 8, lc_alloc<double>> AD;
typedef array<double, S1, AD> ArrD;
IMPL(d_mvre)(L n, L m) { ASSUME(n >= 1 && m >= 1 && m <= n); REQUIRE(n > NB); ArrD& x = *new (vf_stack(0)) ArrD(S1(dim<>(0, n, 1))); ArrD& y = *new (vf_stack(1)) ArrD(move_reinterpret_shape(std::move(x), S1(dim<>(0, m, 1)))); outp(0, y.base()); outp(1, x.base()); out(2, y.i().extent()); y.~ArrD(); }
SPECP(d_mvre)(L n, L m) { ASSUME(n >= 1 && m >= 1 && m <= n); REQUIRE(n > NB); double* p = (double*)al_alloc(n); ASSUME(p != nullptr); FOR(i, n) p[i] = 0; outp(0, p); outp(1, nullptr); out(2, m); al_free(p, n); }
