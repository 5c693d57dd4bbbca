// modes: ndebug assert
// thorough: ndebug17
// Allocators with an in-place buffer, for elements and buffers of every kind of size and alignment.
#include <new>
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define FOR(i, n) for (L i = 0; i < (n); i++)
template <class A> static bool in(const A& a, const void* p) { return vf_in(p, &a, sizeof(A)); }
static void* get(L n, bool b) { return b ? (void*)0 : al_alloc(n); }
static void put(void* p, L n, bool b) { if (!b) al_free(p, n); }
#define AL(p, n, b) void* p = get(n, b); ASSUME(b || p != nullptr)
// The whole buffer is inside the allocator and aligned; requests are served as for any other size.
template <class T, size_t N, size_t Al, class B> static void room() {
  typedef auto_allocator<T, N, Al, B> A; A a; T* p = a.allocate(N); L off = (char*)p - (char*)&a; out(0, off >= 0 && off + N * sizeof(T) <= sizeof(A)); out(1, off % Al); out(2, alignof(A) % Al); __builtin_memset((void*)p, 0, N * sizeof(T)); T* r = a.allocate(1); out(4, in(a, r)); a.deallocate(r, 1); a.deallocate(p, N); T* q = a.allocate(1); out(3, q == p); a.deallocate(q, 1);
}
static void s_room() { out(0, 1); out(1, 0); out(2, 0); void* r = al_alloc(1); ASSUME(r != nullptr); out(4, 0); al_free(r, 1); out(3, 1); }
template <class T> static void s_room_std() { out(0, 1); out(1, 0); out(2, 0); void* r = ::operator new(sizeof(T)); out(4, 0); ::operator delete(r); out(3, 1); }
template <class T, size_t N, size_t Al> static void hist(L n, L m, L k) {
  typedef auto_allocator<T, N, Al, lc_alloc<T>> A;
  ASSUME(n >= 0 && m >= 0 && k >= 0);
  A a; T* p = a.allocate(n); out(0, in(a, p)); T* q = a.allocate(m); out(1, in(a, q)); a.deallocate(p, n); T* r = a.allocate(k); out(2, in(a, r)); a.deallocate(q, m); a.deallocate(r, k);
  T* z = a.allocate(1); out(3, in(a, z)); a.deallocate(z, 1);
}
template <L NB> static void s_hist(L n, L m, L k) {
  ASSUME(n >= 0 && m >= 0 && k >= 0);
  bool b1 = n <= NB, b2 = !b1 && m <= NB, b3 = !b2 && k <= NB;
  AL(p, n, b1); out(0, b1); AL(q, m, b2); out(1, b2); put(p, n, b1); AL(r, k, b3); out(2, b3); put(q, m, b2); put(r, k, b3); out(3, 1);
}
// a copy, a move or an assignment made while the buffer is in use
template <class T, size_t N, size_t Al> static void dup(L n, L m) {
  typedef auto_allocator<T, N, Al, lc_alloc<T>> A;
  ASSUME(n >= 1 && m >= 1); A a; T* p = a.allocate(n);
  { A b(a); T* q = b.allocate(m); out(0, in(b, q)); out(1, in(a, q)); b.deallocate(q, m); }
  { A c(std::move(a)); T* q = c.allocate(m); out(2, in(c, q)); out(3, in(a, q)); c.deallocate(q, m); }
  { A d; d = a; T* q = d.allocate(m); out(4, in(d, q)); d = std::move(a); T* r = d.allocate(1); out(5, in(d, r)); d.deallocate(r, 1); d.deallocate(q, m); }
  a.deallocate(p, n); T* z = a.allocate(m); out(6, in(a, z)); a.deallocate(z, m);
}
template <L NB> static void s_dup(L n, L m) {
  ASSUME(n >= 1 && m >= 1); bool b1 = n <= NB, b2 = m <= NB;
  AL(p, n, b1); { AL(q, m, b2); out(0, b2); out(1, 0); put(q, m, b2); } { AL(q, m, b2); out(2, b2); out(3, 0); put(q, m, b2); }
  { AL(q, m, b2); out(4, b2); bool b3 = !b2 && 1 <= NB; AL(r, 1, b3); out(5, b3); put(r, 1, b3); put(q, m, b2); }
  put(p, n, b1); AL(z, m, b2); out(6, b2); put(z, m, b2);
}
// equal while neither uses its buffer; unequal as soon as one does, unless they are one object
template <class T, size_t N, size_t Al, size_t M, size_t Am> static void cmp(L n, L m) {
  typedef auto_allocator<T, N, Al, lc_alloc<T>> A; typedef auto_allocator<T, M, Am, lc_alloc<T>> B; ASSUME(n >= 1 && m >= 1);
  A a; B b; out(0, a == b); out(1, b != a); T* p = a.allocate(n); out(2, a == b); out(3, b == a); out(4, a != b); out(5, a == a); T* q = b.allocate(m); out(6, a == b); out(7, b != a); a.deallocate(p, n); out(8, a == b); out(9, b == a); b.deallocate(q, m); out(10, a == b);
}
template <L NB, L MB> static void s_cmp(L n, L m) {
  ASSUME(n >= 1 && m >= 1); bool b1 = n <= NB, b2 = m <= MB; out(0, 1); out(1, 0); AL(p, n, b1); out(2, !b1); out(3, !b1); out(4, b1); out(5, 1); AL(q, m, b2); out(6, !b1 & !b2); out(7, b1 | b2); put(p, n, b1); out(8, !b2); out(9, !b2); put(q, m, b2); out(10, 1);
}
struct three { L a, b, c; }; struct nontriv { short a; nontriv() : a(1) {} nontriv(const nontriv& o) : a(o.a) {} ~nontriv() {} }; struct alignas(32) wide { double v[4]; };
#define KIND(id, T, N, Al) \
  IMPL(id##_room)() { room<T, N, Al, lc_alloc<T>>(); } SPEC(id##_room)() { s_room(); } \
  IMPL(id##_hist)(L n, L m, L k) { hist<T, N, Al>(n, m, k); } SPEC(id##_hist)(L n, L m, L k) { s_hist<N>(n, m, k); } \
  IMPL(id##_dup)(L n, L m) { dup<T, N, Al>(n, m); } SPEC(id##_dup)(L n, L m) { s_dup<N>(n, m); } \
  IMPL(id##_cmp)(L n, L m) { cmp<T, N, Al, N, Al>(n, m); } SPEC(id##_cmp)(L n, L m) { s_cmp<N, N>(n, m); } \
  IMPL(id##_cmpn)(L n, L m) { cmp<T, N, Al, N + 2, 2 * Al>(n, m); } SPEC(id##_cmpn)(L n, L m) { s_cmp<N, N + 2>(n, m); }
#define STD(id, T, N, Al) IMPL(id##_std)() { room<T, N, Al, std::allocator<T>>(); } SPEC(id##_std)() { s_room_std<T>(); }
KIND(chr, char, 5, 1)
KIND(chr_al, char, 3, 16)
KIND(sht, short, 7, 2)
KIND(flt, float, 1, 4)
KIND(flt_al, float, 4, 32)
KIND(dbl, double, 32, 8)
KIND(big, three, 2, 8)
KIND(big_al, three, 3, 64)
KIND(nt, nontriv, 6, 2)
KIND(el, E, 3, alignof(E))
KIND(wid, wide, 2, 32)
// the std::allocator as base: equal however the blocks were taken from it
IMPL(std_cmp)(L n) { auto_allocator<int, 4> a; auto_allocator<int, 4> b; ASSUME(n >= 1 && n < (L(1) << 40)); int* p = a.allocate(n); out(0, a == b); out(1, b == a); out(2, in(a, p)); a.deallocate(p, n); out(3, a == b); }
SPEC(std_cmp)(L n) { ASSUME(n >= 1 && n < (L(1) << 40)); void* p = n <= 4 ? nullptr : ::operator new(n * sizeof(int)); out(0, n > 4); out(1, n > 4); out(2, n <= 4); if (n > 4) ::operator delete(p); out(3, 1); }
STD(chr, char, 5, 1) STD(sht, short, 3, 2) STD(flt, float, 1, 4) STD(int, int, 6, 16) STD(dbl, double, 9, 8) STD(big, three, 2, 8) STD(nt, nontriv, 6, 2)
KIND(one, three, 1, 8)
KIND(int1, int, 1, 4)
typedef auto_allocator<int, 4> IA;
#define NEWD(n) (n <= 4 ? nullptr : ::operator new((n) * sizeof(int)))
#define SMALL ASSUME(n >= 1 && m >= 1 && n < (L(1) << 40) && m < (L(1) << 40))
IMPL(std_hist)(L n, L m) { SMALL; IA a; int* p = a.allocate(n); out(0, in(a, p)); int* q = a.allocate(m); out(1, in(a, q)); a.deallocate(p, n); a.deallocate(q, m); int* r = a.allocate(2); out(2, in(a, r)); a.deallocate(r, 2); }
SPEC(std_hist)(L n, L m) { SMALL; bool b1 = n <= 4, b2 = !b1 && m <= 4; void* p = b1 ? nullptr : ::operator new(n * sizeof(int)); out(0, b1); void* q = b2 ? nullptr : ::operator new(m * sizeof(int)); out(1, b2); if (!b1) ::operator delete(p); if (!b2) ::operator delete(q); out(2, 1); }
IMPL(std_dup)(L n, L m) { SMALL; IA a; int* p = a.allocate(n); IA b(a), c(std::move(a)); int* q = b.allocate(m); out(0, in(b, q)); int* r = c.allocate(m); out(1, in(c, r)); b.deallocate(q, m); c.deallocate(r, m); a.deallocate(p, n); }
SPEC(std_dup)(L n, L m) { SMALL; void* p = n <= 4 ? nullptr : ::operator new(n * sizeof(int)); void* q = m <= 4 ? nullptr : ::operator new(m * sizeof(int)); out(0, m <= 4); void* r = m <= 4 ? nullptr : ::operator new(m * sizeof(int)); out(1, m <= 4); if (m > 4) ::operator delete(q); if (m > 4) ::operator delete(r); if (n > 4) ::operator delete(p); }
