// Vocabulary shared by the witness translation units.  These functions are never
// defined: the analyser treats calls to them as observable effects.
#ifndef VF_H
#define VF_H
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <tuple>
#include <utility>
typedef nda::index_t L;
extern "C" {
void vf_assume(bool);
[[noreturn]] void vf_abort();
void vf_require();  // see REQUIRE
// out(k, v): the program observes value v
void out(int k, std::ptrdiff_t v);
void outp(int k, const void* p);
void visit0();
void visit1(std::ptrdiff_t);
void visit2(std::ptrdiff_t, std::ptrdiff_t);
void visit3(std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t);
void visit4(std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t);
void visit5(std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t);
void visit6(std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t, std::ptrdiff_t);
void touch(const void*);
void touch2(const void*, const void*);
// a stack object that implementation and specification share by name
void* vf_stack(int id);
bool vf_in(const void* p, const void* obj, std::size_t size);
}
extern "C" { void* al_alloc(std::size_t n); void al_free(const void* p, std::size_t n); }
// Stateless allocator whose (de)allocations are observable and whose element
// construction is a no-op: used where only addressing matters.
template <class T>
struct vf_alloc {
  using value_type = T;
  vf_alloc() = default;
  template <class U> vf_alloc(const vf_alloc<U>&) {}
  T* allocate(std::size_t n) { T* p = (T*)al_alloc(n); vf_assume(p != nullptr); return p; }
  void deallocate(T* p, std::size_t n) { al_free(p, n); }
  template <class... A> void construct(T*, A&&...) {}
  void destroy(T*) {}
  friend bool operator==(const vf_alloc&, const vf_alloc&) { return true; }
  friend bool operator!=(const vf_alloc&, const vf_alloc&) { return false; }
};
// Element type whose special members are observable.
struct vf_tok {};                       // "a result of the generator"
struct vf_idx { L i, j; };              // "a result computed from these indices"
extern "C" {
void el_def(const void*);
void el_cc(const void* dst, const void* src);
void el_mc(const void* dst, const void* src);
void el_ca(const void* dst, const void* src);
void el_ma(const void* dst, const void* src);
void el_dtor(const void*);
void el_set(const void*);
void el_set2(const void*, L, L);
bool vfp_differs(const void*, const void*);
}
struct E {
  double v;
  E() { el_def(this); }
  E(const E& o) { el_cc(this, &o); }
  E(E&& o) { el_mc(this, &o); }
  E& operator=(const E& o) { el_ca(this, &o); return *this; }
  E& operator=(E&& o) { el_ma(this, &o); return *this; }
  E& operator=(vf_tok) { el_set(this); return *this; }
  E& operator=(vf_idx x) { el_set2(this, x.i, x.j); return *this; }
  ~E() { el_dtor(this); }
};
// Stateless allocator with observable (de)allocations and real element lifetimes.
template <class T>
struct lc_alloc {
  using value_type = T;
  lc_alloc() = default;
  template <class U> lc_alloc(const lc_alloc<U>&) {}
  T* allocate(std::size_t n) { T* p = (T*)al_alloc(n); vf_assume(p != nullptr); return p; }
  void deallocate(T* p, std::size_t n) { al_free(p, n); }
  friend bool operator==(const lc_alloc&, const lc_alloc&) { return true; }
  friend bool operator!=(const lc_alloc&, const lc_alloc&) { return false; }
};
// Stateful allocator: `id` is the arena; POCCA/POCMA/POCS choose the propagation traits.
extern "C" { void* ar_alloc(L id, std::size_t n); void ar_free(L id, const void* p, std::size_t n); }
template <class T, bool PCA, bool PMA, bool PS>
struct st_alloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, PCA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, PMA>;
  using propagate_on_container_swap = std::integral_constant<bool, PS>;
  L id;
  st_alloc() : id(0) {}
  explicit st_alloc(L i) : id(i) {}
  st_alloc select_on_container_copy_construction() const { return st_alloc(id + 1000); }
  T* allocate(std::size_t n) { T* p = (T*)ar_alloc(id, n); vf_assume(p != nullptr); return p; }
  void deallocate(T* p, std::size_t n) { ar_free(id, p, n); }
  friend bool operator==(const st_alloc& a, const st_alloc& b) { return a.id == b.id; }
  friend bool operator!=(const st_alloc& a, const st_alloc& b) { return a.id != b.id; }
};
// REQUIRE: documented precondition.  Checked builds must stop iff it fails;
// NDEBUG builds promise nothing when it fails.
#ifdef NDEBUG
#define REQUIRE(c) vf_assume(c)
#else
#define REQUIRE(c) do { if (!(c)) vf_require(); } while (0)
#endif
#define ASSUME(c) vf_assume(c)
// IMPL(id)(params) { uses the library }   SPEC(id)(params) { plain arithmetic }
#define IMPL(id) extern "C" void impl_##id
#define SPEC(id) extern "C" void spec_##id
#define SPECU(id) extern "C" void specu_##id   /* order of effects is not part of the contract */
#define SPECP(id) extern "C" void specp_##id   /* phases in order; order inside a phase is not part of the contract */
#define RIMPL(T, id) extern "C" T impl_##id
#define RSPEC(T, id) extern "C" T spec_##id
#endif
