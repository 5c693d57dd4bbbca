// modes: ndebug assert
// thorough: ndebug17 ndebug20
// Copy, move and swap: where the elements go, which allocator owns them, and what is left behind.
#include "array/array.h"
#include "vf.h"
using namespace nda;
template <bool PCA, bool PMA, bool PS, class S = shape_of_rank<1>> using A = array<E, S, st_alloc<E, PCA, PMA, PS>>;
template <bool PCA, bool PMA, bool PS> using AL = st_alloc<E, PCA, PMA, PS>;
typedef shape_of_rank<1> S1;
typedef shape_of_rank<2> S2;
#define FOR(i, n) for (L i = 0; i < (n); i++)
static E* al(L id, L n) { E* p = (E*)ar_alloc(id, n); ASSUME(p != nullptr); return p; }
static void mk(E*& p, L id, L n) { p = al(id, n); FOR(i, n) el_def(p + i); }
static void rm(E* p, L id, L n) { FOR(i, n) el_dtor(p + i); ar_free(id, p, n); }
#define PRE ASSUME(n >= 1 && m >= 1)
#define MK(x, id, a, n) x(S1(dim<>(a, n)), al_t(id))
#define OBS(k, X) out(k, X.get_allocator().id), out(k + 1, X.shape().template dim<0>().min()), out(k + 2, X.shape().template dim<0>().extent()), outp(k + 3, X.base()), outp(k + 4, X.data())
static void obs(int k, L id, L a, L n, const void* p) { out(k, id); out(k + 1, a); out(k + 2, n); outp(k + 3, p); outp(k + 4, p); }

template <bool C, bool M, bool S> static void cctor(L ia, L a, L n) { typedef AL<C, M, S> al_t; A<C, M, S> MK(x, ia, a, n); out(0, 0); A<C, M, S> y(x); OBS(10, y); OBS(20, x); }
static void s_cctor(L ia, L a, L n) { E *p, *q; mk(p, ia, n); out(0, 0); q = al(ia + 1000, n); FOR(i, n) el_cc(q + i, p + i); obs(10, ia + 1000, a, n, q); obs(20, ia, a, n, p); rm(q, ia + 1000, n); rm(p, ia, n); }
IMPL(cctor)(L ia, L a, L n) { ASSUME(n >= 1); cctor<false, false, false>(ia, a, n); }
SPECP(cctor)(L ia, L a, L n) { ASSUME(n >= 1); s_cctor(ia, a, n); }
IMPL(cctor_t)(L ia, L a, L n) { ASSUME(n >= 1); cctor<true, true, true>(ia, a, n); }
SPECP(cctor_t)(L ia, L a, L n) { ASSUME(n >= 1); s_cctor(ia, a, n); }
IMPL(cctor_al)(L ia, L ib, L a, L n) { ASSUME(n >= 1); typedef AL<false, false, false> al_t; A<false, false, false> MK(x, ia, a, n); out(0, 0); A<false, false, false> y(x, al_t(ib)); OBS(10, y); }
SPECP(cctor_al)(L ia, L ib, L a, L n) { ASSUME(n >= 1); E *p, *q; mk(p, ia, n); out(0, 0); q = al(ib, n); FOR(i, n) el_cc(q + i, p + i); obs(10, ib, a, n, q); rm(q, ib, n); rm(p, ia, n); }
// move construction
IMPL(mctor_prop)(L ia, L a, L n) { ASSUME(n >= 1); typedef AL<false, true, false> al_t; A<false, true, false> MK(x, ia, a, n); out(0, 0); A<false, true, false> y(std::move(x)); OBS(10, y); out(1, x.empty() && x.base() == nullptr); }
SPECP(mctor_prop)(L ia, L a, L n) { ASSUME(n >= 1); E* p; mk(p, ia, n); out(0, 0); obs(10, ia, a, n, p); out(1, 1); rm(p, ia, n); }
IMPL(mctor_noprop)(L ia, L a, L n) { ASSUME(n >= 1); typedef AL<false, false, false> al_t; A<false, false, false> MK(x, ia, a, n); out(0, 0); A<false, false, false> y(std::move(x)); OBS(10, y); }
SPECP(mctor_noprop)(L ia, L a, L n) {
  ASSUME(n >= 1); E *p, *q; mk(p, ia, n); out(0, 0);
  if (ia == 0) { obs(10, 0, a, n, p); rm(p, 0, n); }
  else { q = al(0, n); FOR(i, n) el_mc(q + i, p + i); obs(10, 0, a, n, q); rm(q, 0, n); rm(p, ia, n); }
}
IMPL(mctor_al)(L ia, L ib, L a, L n) { ASSUME(n >= 1); typedef AL<true, true, true> al_t; A<true, true, true> MK(x, ia, a, n); out(0, 0); A<true, true, true> y(std::move(x), al_t(ib)); OBS(10, y); }
SPECP(mctor_al)(L ia, L ib, L a, L n) {
  ASSUME(n >= 1); E *p, *q; mk(p, ia, n); out(0, 0);
  if (ia == ib) { obs(10, ib, a, n, p); rm(p, ib, n); }
  else { q = al(ib, n); FOR(i, n) el_mc(q + i, p + i); obs(10, ib, a, n, q); rm(q, ib, n); rm(p, ia, n); }
}
// copy assignment
template <bool C, bool M, bool S> static void casg(L ia, L a, L n, L ib, L b, L m) { typedef AL<C, M, S> al_t; A<C, M, S> MK(x, ia, a, n), MK(y, ib, b, m); out(0, 0); A<C, M, S>& r = (y = x); out(1, &r == &y); OBS(10, y); OBS(20, x); }
IMPL(casg_prop)(L ia, L a, L n, L ib, L b, L m) { PRE; casg<true, false, false>(ia, a, n, ib, b, m); }
SPECP(casg_prop)(L ia, L a, L n, L ib, L b, L m) {
  PRE; E *p, *q; mk(p, ia, n); mk(q, ib, m); out(0, 0);
  FOR(i, m) el_dtor(q + i);
  if (ia != ib || a != b || n != m) { ar_free(ib, q, m); q = al(ia, n); }
  FOR(i, n) el_cc(q + i, p + i);
  out(1, 1); obs(10, ia, a, n, q); obs(20, ia, a, n, p); rm(q, ia, n); rm(p, ia, n);
}
IMPL(casg_noprop)(L ia, L a, L n, L ib, L b, L m) { PRE; casg<false, true, true>(ia, a, n, ib, b, m); }
SPECP(casg_noprop)(L ia, L a, L n, L ib, L b, L m) {
  PRE; E *p, *q; mk(p, ia, n); mk(q, ib, m); out(0, 0);
  FOR(i, m) el_dtor(q + i);
  if (a != b || n != m) { ar_free(ib, q, m); q = al(ib, n); }
  FOR(i, n) el_cc(q + i, p + i);
  out(1, 1); obs(10, ib, a, n, q); obs(20, ia, a, n, p); rm(q, ib, n); rm(p, ia, n);
}
// move assignment
template <bool C, bool M, bool S> static void masg(L ia, L a, L n, L ib, L b, L m) { typedef AL<C, M, S> al_t; A<C, M, S> MK(x, ia, a, n), MK(y, ib, b, m); out(0, 0); A<C, M, S>& r = (y = std::move(x)); out(1, &r == &y); OBS(10, y); }
IMPL(masg_prop)(L ia, L a, L n, L ib, L b, L m) { PRE; masg<false, true, false>(ia, a, n, ib, b, m); }
SPECP(masg_prop)(L ia, L a, L n, L ib, L b, L m) { PRE; E *p, *q; mk(p, ia, n); mk(q, ib, m); out(0, 0); out(1, 1); obs(10, ia, a, n, p); rm(p, ia, n); rm(q, ib, m); }
IMPL(masg_noprop)(L ia, L a, L n, L ib, L b, L m) { PRE; masg<true, false, true>(ia, a, n, ib, b, m); }
SPECP(masg_noprop)(L ia, L a, L n, L ib, L b, L m) {
  PRE; E *p, *q; mk(p, ia, n); mk(q, ib, m); out(0, 0);
  if (ia == ib) { out(1, 1); obs(10, ib, a, n, p); rm(p, ib, n); rm(q, ib, m); return; }
  FOR(i, m) el_dtor(q + i);
  if (a != b || n != m) { ar_free(ib, q, m); q = al(ib, n); }
  FOR(i, n) el_mc(q + i, p + i);
  out(1, 1); obs(10, ib, a, n, q); rm(q, ib, n); rm(p, ia, n);
}
// to and from empty arrays
IMPL(casg_toempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); typedef AL<false, false, false> al_t; A<false, false, false> MK(x, ia, a, n), y{al_t(ib)}; out(0, 0); y = x; OBS(10, y); }
SPECP(casg_toempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); E *p, *q; mk(p, ia, n); out(0, 0); q = al(ib, n); FOR(i, n) el_cc(q + i, p + i); obs(10, ib, a, n, q); rm(q, ib, n); rm(p, ia, n); }
IMPL(casg_fromempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); typedef AL<true, false, false> al_t; A<true, false, false> MK(x, ia, a, n), y{al_t(ib)}; out(0, 0); x = y; out(1, x.empty() && x.base() == nullptr && y.empty()); out(2, x.get_allocator().id); }
SPECP(casg_fromempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); E* p; mk(p, ia, n); out(0, 0); rm(p, ia, n); out(1, 1); out(2, ib); }
IMPL(masg_fromempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); typedef AL<false, false, false> al_t; A<false, false, false> MK(x, ia, a, n), y{al_t(ib)}; out(0, 0); x = std::move(y); out(1, x.empty() && x.base() == nullptr); out(2, x.get_allocator().id); }
SPECP(masg_fromempty)(L ia, L a, L n, L ib) { ASSUME(n >= 1); E* p; mk(p, ia, n); out(0, 0); if (ia != ib) rm(p, ia, n); out(1, 1); out(2, ia); if (ia == ib) rm(p, ia, n); }
// self assignment changes nothing
IMPL(self)(L ia, L a, L n) { ASSUME(n >= 1); typedef AL<true, true, true> al_t; A<true, true, true> MK(x, ia, a, n); out(0, 0); A<true, true, true>& y = x; x = y; x = std::move(y); x.assign(y); x.assign(std::move(y)); x.swap(y); OBS(10, x); }
SPECP(self)(L ia, L a, L n) { ASSUME(n >= 1); E* p; mk(p, ia, n); out(0, 0); obs(10, ia, a, n, p); rm(p, ia, n); }
IMPL(self_np)(L ia, L a, L n) { ASSUME(n >= 1); typedef AL<false, false, false> al_t; A<false, false, false> MK(x, ia, a, n); out(0, 0); A<false, false, false>& y = x; x = y; x = std::move(y); x.assign(y); x.assign(std::move(y)); OBS(10, x); }
SPECP(self_np)(L ia, L a, L n) { ASSUME(n >= 1); E* p; mk(p, ia, n); out(0, 0); obs(10, ia, a, n, p); rm(p, ia, n); }
// swap
IMPL(swap_prop)(L ia, L a, L n, L ib, L b, L m) { PRE; typedef AL<false, false, true> al_t; A<false, false, true> MK(x, ia, a, n), MK(y, ib, b, m); out(0, 0); swap(x, y); OBS(10, x); OBS(20, y); }
SPECP(swap_prop)(L ia, L a, L n, L ib, L b, L m) { PRE; E *p, *q; mk(p, ia, n); mk(q, ib, m); out(0, 0); obs(10, ib, b, m, q); obs(20, ia, a, n, p); rm(p, ia, n); rm(q, ib, m); }
IMPL(swap_mprop)(L ia, L a, L n, L ib, L b, L m) { PRE; typedef AL<false, true, false> al_t; A<false, true, false> MK(x, ia, a, n), MK(y, ia, b, m); out(0, 0); x.swap(y); OBS(10, x); OBS(20, y); }
SPECP(swap_mprop)(L ia, L a, L n, L ib, L b, L m) { PRE; E *p, *q; mk(p, ia, n); mk(q, ia, m); out(0, 0); obs(10, ia, b, m, q); obs(20, ia, a, n, p); rm(p, ia, n); rm(q, ia, m); }
// padded 2-D copies: the gaps are not touched
#define P2 ASSUME(n >= 1 && m >= 1 && t >= n && t <= 1000000)
IMPL(pad_cctor)(L a, L n, L b, L m, L t) { P2; typedef AL<false, false, false> al_t; A<false, false, false, S2> x(S2({a, n, 1}, {b, m, t}), al_t(7)); out(0, 0); A<false, false, false, S2> y(x); out(1, y.y().stride()); }
SPECP(pad_cctor)(L a, L n, L b, L m, L t) {
  P2; L e = n + (m - 1) * t; E* p = al(7, e); FOR(j, m) FOR(i, n) el_def(p + i + j * t); out(0, 0);
  E* q = al(1007, e); FOR(j, m) FOR(i, n) el_cc(q + i + j * t, p + i + j * t); out(1, t);
  FOR(j, m) FOR(i, n) el_dtor(q + i + j * t); ar_free(1007, q, e); FOR(j, m) FOR(i, n) el_dtor(p + i + j * t); ar_free(7, p, e);
}
IMPL(pad_mctor)(L a, L n, L b, L m, L t) { P2; typedef AL<false, false, false> al_t; A<false, false, false, S2> x(S2({a, n, 1}, {b, m, t}), al_t(7)); out(0, 0); A<false, false, false, S2> y(std::move(x), al_t(8)); out(1, y.y().stride()); }
SPECP(pad_mctor)(L a, L n, L b, L m, L t) {
  P2; L e = n + (m - 1) * t; E* p = al(7, e); FOR(j, m) FOR(i, n) el_def(p + i + j * t); out(0, 0);
  E* q = al(8, e); FOR(j, m) FOR(i, n) el_mc(q + i + j * t, p + i + j * t); out(1, t);
  FOR(j, m) FOR(i, n) el_dtor(q + i + j * t); ar_free(8, q, e); FOR(j, m) FOR(i, n) el_dtor(p + i + j * t); ar_free(7, p, e);
}
// make_move of an rvalue: the storage is reused iff shape and allocator are the requested ones
IMPL(make_move)(L ia, L a, L n, L ib, L b, L m) { PRE; ASSUME(b >= a && b + m <= a + n); typedef AL<false, true, false> al_t; A<false, true, false> MK(x, ia, a, n); out(0, 0); auto y = make_move(std::move(x), S1(dim<>(b, m, 1)), al_t(ib)); OBS(10, y); }
SPECP(make_move)(L ia, L a, L n, L ib, L b, L m) {
  PRE; ASSUME(b >= a && b + m <= a + n); E *p, *q; mk(p, ia, n); out(0, 0);
  if (a == b && n == m && ia == ib) { obs(10, ib, b, m, p); rm(p, ib, m); }
  else { mk(q, ib, m); FOR(i, m) el_ma(q + i, p + i + b - a); obs(10, ib, b, m, q); rm(q, ib, m); rm(p, ia, n); }
}
// assignment between two empty arrays still propagates the allocator
IMPL(empties)(L ia, L ib, L n) { ASSUME(n >= 1); typedef AL<true, true, true> al_t; typedef A<true, true, true> T; T x{al_t(ia)}, y{al_t(ib)}; x = y; out(0, x.get_allocator().id); T z{al_t(n)}; x = std::move(z); out(1, x.get_allocator().id); out(2, x.empty() && x.base() == nullptr); }
SPECP(empties)(L ia, L ib, L n) { ASSUME(n >= 1); out(0, ib); out(1, n); out(2, 1); }
IMPL(empties_np)(L ia, L ib) { typedef AL<false, false, false> al_t; typedef A<false, false, false> T; T x{al_t(ia)}, y{al_t(ib)}; x = y; out(0, x.get_allocator().id); x = std::move(y); out(1, x.get_allocator().id); out(2, x.empty() && x.base() == nullptr); }
SPECP(empties_np)(L ia, L ib) { out(0, ia); out(1, ia); out(2, 1); }
// the same at every rank, with larger elements, and with shapes known at compile time
struct B {
  double v[3];
  B() { el_def(this); } B(const B& o) { el_cc(this, &o); } B(B&& o) { el_mc(this, &o); }
  B& operator=(const B& o) { el_ca(this, &o); return *this; } B& operator=(B&& o) { el_ma(this, &o); return *this; } ~B() { el_dtor(this); }
};
// trivial elements, constructed and destroyed through the allocator
template <class T, bool C> struct ob_alloc : st_alloc<T, C, C, C> {
  ob_alloc() = default; explicit ob_alloc(L i) : st_alloc<T, C, C, C>(i) {}
  ob_alloc select_on_container_copy_construction() const { return ob_alloc(this->id + 1000); }
  void construct(T* p) { el_def(p); } void construct(T* p, const T& v) { el_cc(p, &v); } void construct(T* p, T&& v) { el_mc(p, &v); } void destroy(T* p) { el_dtor(p); }
};
template <class T, bool C> using al_of = std::conditional_t<std::is_trivial<T>::value, ob_alloc<T, C>, st_alloc<T, C, C, C>>;
#define SHP(nm, T, S, C, args, pre, LOOPS, off, flat) \
  IMPL(nm)(L ia, L ib, L n, L m) { pre; S h args; typedef al_of<T, C> al_t; array<T, S, al_t> x(h, al_t(ia)), y(h, al_t(ib)); out(0, 0); y = x; out(1, y.get_allocator().id); outp(2, y.data()); array<T, S, al_t> z(x, al_t(ib)); out(3, 0); array<T, S, al_t> w(std::move(x), al_t(ib)); out(4, 0); outp(5, w.data()); } \
  SPECP(nm)(L ia, L ib, L n, L m) { pre; T* p = (T*)ar_alloc(ia, flat); ASSUME(p != nullptr); LOOPS el_def(p + off); T* q = (T*)ar_alloc(ib, flat); ASSUME(q != nullptr); LOOPS el_def(q + off); out(0, 0); \
    L iq = C ? ia : ib; LOOPS el_dtor(q + off); if (iq != ib) { ar_free(ib, q, flat); q = (T*)ar_alloc(iq, flat); ASSUME(q != nullptr); } LOOPS el_cc(q + off, p + off); out(1, iq); outp(2, q); \
    T* r = (T*)ar_alloc(ib, flat); ASSUME(r != nullptr); LOOPS el_cc(r + off, p + off); out(3, 0); \
    if (ia == ib) { out(4, 0); outp(5, p); LOOPS el_dtor(p + off); ar_free(ib, p, flat); LOOPS el_dtor(r + off); ar_free(ib, r, flat); LOOPS el_dtor(q + off); ar_free(iq, q, flat); } \
    else { T* w = (T*)ar_alloc(ib, flat); ASSUME(w != nullptr); LOOPS el_mc(w + off, p + off); out(4, 0); outp(5, w); LOOPS el_dtor(w + off); ar_free(ib, w, flat); LOOPS el_dtor(r + off); ar_free(ib, r, flat); LOOPS el_dtor(q + off); ar_free(iq, q, flat); LOOPS el_dtor(p + off); ar_free(ia, p, flat); } }
#define NEW(T, flat, p, id) T* p = (T*)ar_alloc(id, flat); ASSUME(p != nullptr)
#define SHM(nm, T, S, C, args, pre, LOOPS, off, flat) \
  IMPL(nm##_mv)(L ia, L ib, L n, L m) { pre; S h args; typedef al_of<T, C> al_t; array<T, S, al_t> x(h, al_t(ia)), y(h, al_t(ib)); out(0, 0); y = std::move(x); out(1, y.get_allocator().id); outp(2, y.data()); array<T, S, al_t> w(std::move(y)); out(3, w.get_allocator().id); outp(4, w.data()); out(5, w.size()); } \
  SPECP(nm##_mv)(L ia, L ib, L n, L m) { pre; NEW(T, flat, p, ia); LOOPS el_def(p + off); NEW(T, flat, q, ib); LOOPS el_def(q + off); out(0, 0); \
    if (C) { out(1, ia); outp(2, p); out(3, ia); outp(4, p); out(5, SZ); LOOPS el_dtor(p + off); ar_free(ia, p, flat); LOOPS el_dtor(q + off); ar_free(ib, q, flat); return; } \
    T *u = p, *v = q; if (ia == ib) { u = q; v = p; } else { LOOPS el_dtor(q + off); LOOPS el_mc(q + off, p + off); } out(1, ib); outp(2, v); \
    if (ib == 0) { out(3, 0); outp(4, v); out(5, SZ); LOOPS el_dtor(v + off); ar_free(0, v, flat); } else { NEW(T, flat, w, 0); LOOPS el_mc(w + off, v + off); out(3, 0); outp(4, w); out(5, SZ); LOOPS el_dtor(w + off); ar_free(0, w, flat); LOOPS el_dtor(v + off); ar_free(ib, v, flat); } \
    LOOPS el_dtor(u + off); ar_free(ia, u, flat); } \
  IMPL(nm##_sw)(L ia, L ib, L n, L m) { pre; S h args; typedef al_of<T, true> al_t; array<T, S, al_t> x(h, al_t(ia)), y(h, al_t(ib)); out(0, 0); swap(x, y); out(1, x.get_allocator().id); outp(2, x.data()); out(3, y.get_allocator().id); outp(4, y.data()); } \
  SPECP(nm##_sw)(L ia, L ib, L n, L m) { pre; NEW(T, flat, p, ia); LOOPS el_def(p + off); NEW(T, flat, q, ib); LOOPS el_def(q + off); out(0, 0); out(1, ib); outp(2, q); out(3, ia); outp(4, p); LOOPS el_dtor(p + off); ar_free(ia, p, flat); LOOPS el_dtor(q + off); ar_free(ib, q, flat); }
#define SHX(...) SHP(__VA_ARGS__) SHM(__VA_ARGS__)
#define PNM ASSUME(n >= 1 && m >= 1 && n < 1000 && m < 1000)
#define SZ n
SHX(rk1, B, S1, true, (dim<>(m, n, 3)), PNM, FOR(i, n), i * 3, (n - 1) * 3 + 1)
#undef SZ
#define SZ n * m
SHX(rk2, B, S2, false, ({1, n, 2}, {-5, m, 2 * n}), PNM, FOR(k, m) FOR(j, n), j * 2 + k * n * 2, (m - 1) * n * 2 + (n - 1) * 2 + 1)
#undef SZ
#define SZ 2 * n * m
SHX(rk3, E, shape_of_rank<3>, true, ({1, 2, 1}, {0, n, 4}, {-5, m, n * 4}), PNM, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * n * 4, (m - 1) * n * 4 + (n - 1) * 4 + 2)
SHX(rk3f, E, shape_of_rank<3>, false, ({1, 2, 1}, {0, n, 4}, {-5, m, n * 4}), PNM, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * n * 4, (m - 1) * n * 4 + (n - 1) * 4 + 2)
SHX(rk4, E, shape_of_rank<4>, false, ({1, 2, 1}, {7, 1, 1}, {0, n, 4}, {-5, m, n * 4}), PNM, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * n * 4, (m - 1) * n * 4 + (n - 1) * 4 + 2)
SHX(rk4t, E, shape_of_rank<4>, true, ({1, 2, 1}, {7, 1, 1}, {0, n, 4}, {-5, m, n * 4}), PNM, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * n * 4, (m - 1) * n * 4 + (n - 1) * 4 + 2)
SHX(rk5, B, shape_of_rank<5>, true, ({1, 2, 1}, {7, 1, 1}, {3, 1, 9}, {0, n, 4}, {-5, m, n * 4}), PNM, FOR(k, m) FOR(j, n) FOR(i, 2), i + j * 4 + k * n * 4, (m - 1) * n * 4 + (n - 1) * 4 + 2)
typedef shape<dim<dynamic, dynamic, 5>, dense_dim<0, 3>> SS3;
#undef SZ
#define SZ 3 * n
SHX(rks, E, SS3, true, ({m, n, 5}, {}), PNM, FOR(j, n) FOR(i, 3), i + j * 5, (n - 1) * 5 + 3)
SHX(tks, double, SS3, false, ({m, n, 5}, {}), PNM, FOR(j, n) FOR(i, 3), i + j * 5, (n - 1) * 5 + 3)
SHX(tkt, double, SS3, true, ({m, n, 5}, {}), PNM, FOR(j, n) FOR(i, 3), i + j * 5, (n - 1) * 5 + 3)
#undef SZ
#define SZ n
SHX(tk1, double, S1, false, (dim<>(m, n, -2)), PNM, FOR(i, n), (n - 1 - i) * 2, (n - 1) * 2 + 1)
#undef SZ
#define SZ 1
#define NOP ASSUME(n == 0 && m == 0)
SHM(rk0, B, shape<>, true, , NOP, , 0, 1)
SHM(tk0, double, shape<>, false, , NOP, , 0, 1)
IMPL(ca0)(L ia, L ib) { typedef AL<true, true, true> al_t; array<B, shape<>, st_alloc<B, true, true, true>> x(shape<>{}, st_alloc<B, true, true, true>{ia}), y(shape<>{}, st_alloc<B, true, true, true>{ib}); out(0, 0); y = x; out(1, y.get_allocator().id); outp(2, y.data()); }
SPECP(ca0)(L ia, L ib) { B* p = (B*)ar_alloc(ia, 1); ASSUME(p != nullptr); el_def(p); B* q = (B*)ar_alloc(ib, 1); ASSUME(q != nullptr); el_def(q); out(0, 0); el_dtor(q); if (ia != ib) { ar_free(ib, q, 1); q = (B*)ar_alloc(ia, 1); ASSUME(q != nullptr); } el_cc(q, p); out(1, ia); outp(2, q); el_dtor(q); ar_free(ia, q, 1); el_dtor(p); ar_free(ia, p, 1); }
