// modes: ndebug assert
// thorough: ndebug17
// Uninitialized allocators skip default construction and nothing else; in-place buffers are aligned and large enough.
#include <new>
#include "array/array.h"
#include "vf.h"
using namespace nda;
#define FOR(i, n) for (L i = 0; i < (n); i++)
typedef uninitialized_allocator<lc_alloc<E>> UE;
typedef std::allocator_traits<UE> T;
// construction
IMPL(ctor)(E* p, const E* q) { UE a; T::construct(a, p); out(0, 1); T::construct(a, p + 1, *q); T::construct(a, p + 2, std::move(*const_cast<E*>(q))); T::destroy(a, p + 1); }
SPEC(ctor)(E* p, const E* q) { out(0, 1); el_cc(p + 1, q); el_mc(p + 2, q); el_dtor(p + 1); }
IMPL(ctord)(double* p, L x) { uninitialized_std_allocator<double> a; typedef std::allocator_traits<decltype(a)> D; D::construct(a, p); D::construct(a, p + 1, 3.0); D::construct(a, p + 2, p[1]); D::destroy(a, p); }
SPEC(ctord)(double* p, L x) { p[1] = 3.0; p[2] = 3.0; }
struct two { L a, b; two() = default; two(L x, L y) : a(x), b(y) {} };
IMPL(ctor2)(two* p, L x, L y) { uninitialized_std_allocator<two> a; typedef std::allocator_traits<decltype(a)> D; D::construct(a, p); D::construct(a, p, x, y); }
SPEC(ctor2)(two* p, L x, L y) { p->a = x; p->b = y; }
// allocation goes to the base allocator with the same counts
IMPL(alloc)(L n) { UE a; E* p = T::allocate(a, n); outp(0, p); T::deallocate(a, p, n); }
SPEC(alloc)(L n) { E* p = (E*)al_alloc(n); ASSUME(p != nullptr); outp(0, p); al_free(p, n); }
IMPL(alloc_id)(L n) { typedef uninitialized_allocator<st_alloc<double, true, false, true>> S; S a; a.id = 5; double* p = a.allocate(n); a.deallocate(p, n); S b(a); out(0, a == b); out(1, a != b); b.id = 6; out(2, a == b); out(3, a != b); }
SPEC(alloc_id)(L n) { double* p = (double*)ar_alloc(5, n); ASSUME(p != nullptr); ar_free(5, p, n); out(0, 1); out(1, 0); out(2, 0); out(3, 1); }
IMPL(traits)() {
  typedef std::allocator_traits<uninitialized_allocator<st_alloc<double, true, false, true>>> S; out(0, S::propagate_on_container_copy_assignment::value); out(1, S::propagate_on_container_move_assignment::value); out(2, S::propagate_on_container_swap::value);
  typedef std::allocator_traits<uninitialized_allocator<st_alloc<double, false, true, false>>> R; out(3, R::propagate_on_container_copy_assignment::value); out(4, R::propagate_on_container_move_assignment::value); out(5, R::propagate_on_container_swap::value);
}
SPEC(traits)() { out(0, 1); out(1, 0); out(2, 1); out(3, 0); out(4, 1); out(5, 0); }
// arrays: no default construction, everything else as usual
typedef shape_of_rank<2> S2;
typedef array<E, S2, UE> AE;
IMPL(arr)(L n, L m) { ASSUME(n >= 1 && m >= 1); AE x(S2{n, m}); outp(0, x.base()); }
SPECP(arr)(L n, L m) { ASSUME(n >= 1 && m >= 1); E* p = (E*)al_alloc(n * m); ASSUME(p != nullptr); outp(0, p); FOR(i, n * m) el_dtor(p + i); al_free(p, n * m); }
IMPL(arrv)(const E* v, L n, L m) { ASSUME(n >= 1 && m >= 1); AE x(S2{n, m}, *v); outp(0, x.base()); }
SPECP(arrv)(const E* v, L n, L m) { ASSUME(n >= 1 && m >= 1); E* p = (E*)al_alloc(n * m); ASSUME(p != nullptr); FOR(i, n * m) el_cc(p + i, v); outp(0, p); FOR(i, n * m) el_dtor(p + i); al_free(p, n * m); }
IMPL(arrc)(L n, L m) { ASSUME(n >= 1 && m >= 1); AE x(S2{n, m}); AE y(x); outp(0, y.base()); }
SPECP(arrc)(L n, L m) { ASSUME(n >= 1 && m >= 1); E* p = (E*)al_alloc(n * m); ASSUME(p != nullptr); E* q = (E*)al_alloc(n * m); ASSUME(q != nullptr); FOR(i, n * m) el_cc(q + i, p + i); outp(0, q); FOR(i, n * m) el_dtor(q + i); al_free(q, n * m); FOR(i, n * m) el_dtor(p + i); al_free(p, n * m); }
// uninitialized doubles are not written at all
IMPL(arrd)(L n, L m) { ASSUME(n >= 1 && m >= 1); array<double, S2, uninitialized_allocator<lc_alloc<double>>> x(S2{n, m}); outp(0, x.base()); }
SPECP(arrd)(L n, L m) { ASSUME(n >= 1 && m >= 1); double* p = (double*)al_alloc(n * m); ASSUME(p != nullptr); outp(0, p); al_free(p, n * m); }
IMPL(arrd0)(L n, L m) { ASSUME(n >= 1 && m >= 1); array<double, S2, lc_alloc<double>> x(S2{n, m}); outp(0, x.base()); }
SPECP(arrd0)(L n, L m) { ASSUME(n >= 1 && m >= 1); double* p = (double*)al_alloc(n * m); ASSUME(p != nullptr); FOR(i, n * m) p[i] = 0; outp(0, p); al_free(p, n * m); }
// buffers: aligned for the type or as asked, and holding N elements
template <class A> static void lay(int k, L n) { A a; auto* p = a.allocate(n); L off = (char*)p - (char*)&a; out(k, vf_in(p, &a, sizeof(a)) && vf_in((char*)(p + n) - 1, &a, sizeof(a))); out(k + 1, off % 64); a.deallocate(p, n); }
template <class A> static constexpr L al_of() { return alignof(A); }
template <class A> static void lay_ok(int k, L n, L align) { A a; auto* p = a.allocate(n); L off = (char*)p - (char*)&a; out(k, vf_in(p, &a, sizeof(a)) && vf_in((char*)(p + n) - 1, &a, sizeof(a))); out(k + 1, (L)alignof(A) % align == 0 && off % align == 0); a.deallocate(p, n); }
struct alignas(32) vec { double v[4]; };
struct s3 { char c[3]; };
IMPL(layout)() {
  lay_ok<auto_allocator<char, 5>>(0, 5, 1); lay_ok<auto_allocator<double, 1>>(10, 1, 8); lay_ok<auto_allocator<short, 7, 64>>(20, 7, 64); lay_ok<auto_allocator<vec, 3>>(30, 3, 32); lay_ok<auto_allocator<s3, 4>>(40, 4, 1); lay_ok<auto_allocator<s3, 4, 16>>(50, 4, 16);
  lay_ok<uninitialized_auto_allocator<double, 3>>(60, 3, 8); lay_ok<uninitialized_auto_allocator<vec, 2>>(70, 2, 32); lay_ok<uninitialized_auto_allocator<s3, 9>>(80, 9, 1); lay_ok<uninitialized_auto_allocator<float, 6, 128>>(90, 6, 128); lay_ok<auto_allocator<L, 100, 8, lc_alloc<L>>>(100, 100, 8);
}
SPEC(layout)() { FOR(i, 11) { out(10 * i, 1); out(10 * i + 1, 1); } }
// the type's own alignment is what is asked for, not something else
IMPL(align)() { out(0, alignof(uninitialized_auto_allocator<s3, 9>) == alignof(auto_allocator<s3, 9>)); out(1, alignof(auto_allocator<char, 3>)); out(2, std::is_same<uninitialized_auto_allocator<float, 6>, uninitialized_allocator<auto_allocator<float, 6>>>::value); out(3, std::is_same<uninitialized_std_allocator<float>, uninitialized_allocator<std::allocator<float>>>::value); }
SPEC(align)() { out(0, 1); out(1, 1); out(2, 1); out(3, 1); }
// elements of every size, built from up to four arguments
template <class X> static void set1(X* p, X v) { typedef uninitialized_allocator<lc_alloc<X>> A; A a; std::allocator_traits<A>::construct(a, p); std::allocator_traits<A>::construct(a, p + 1, v); std::allocator_traits<A>::destroy(a, p + 1); }
#define ONE(id, X) IMPL(id)(X* p, X v) { set1<X>(p, v); } SPEC(id)(X* p, X v) { p[1] = v; }
ONE(one_c, signed char) ONE(one_s, short) ONE(one_i, int) ONE(one_l, L)
struct quad { L a, b, c, d; quad() = default; quad(L x, L y, L z) : a(x), b(y), c(z), d(4) {} quad(L x, L y, L z, L w) : a(x), b(y), c(z), d(w) {} };
IMPL(ctor34)(quad* p, L x, L y, L z, L w) { uninitialized_std_allocator<quad> a; typedef std::allocator_traits<decltype(a)> D; D::construct(a, p); D::construct(a, p, x, y, z); D::construct(a, p + 1, x, y, z, w); }
SPEC(ctor34)(quad* p, L x, L y, L z, L w) { p->a = x; p->b = y; p->c = z; p->d = 4; p[1].a = x; p[1].b = y; p[1].c = z; p[1].d = w; }
struct blank { int v; blank() : v(7) {} blank(const blank& o) : v(o.v) {} };
IMPL(nontriv)(blank* p, const blank* q) { uninitialized_allocator<lc_alloc<blank>> a; typedef std::allocator_traits<decltype(a)> D; D::construct(a, p); D::construct(a, p + 1, *q); }
SPEC(nontriv)(blank* p, const blank* q) { p[1].v = q->v; }
// arrays of each of them
#define ARR(id, X) \
  IMPL(id)(L n, L m) { ASSUME(n >= 1 && m >= 1); array<X, S2, uninitialized_allocator<lc_alloc<X>>> x(S2{n, m}); outp(0, x.base()); } \
  SPECP(id)(L n, L m) { ASSUME(n >= 1 && m >= 1); X* p = (X*)al_alloc(n * m); ASSUME(p != nullptr); outp(0, p); al_free(p, n * m); } \
  IMPL(id##_v)(L n, L m, X v) { ASSUME(n >= 1 && m >= 1); array<X, S2, uninitialized_allocator<lc_alloc<X>>> x(S2{n, m}, v); outp(0, x.base()); } \
  SPECP(id##_v)(L n, L m, X v) { ASSUME(n >= 1 && m >= 1); X* p = (X*)al_alloc(n * m); ASSUME(p != nullptr); FOR(i, n * m) p[i] = v; outp(0, p); al_free(p, n * m); }
ARR(arr_c, signed char) ARR(arr_s, short) ARR(arr_i, int)
