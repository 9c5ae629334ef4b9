// Intrinsics of the contracts.  They have no definition: the verifier interprets them.
#ifndef VC_H
#define VC_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <string_view>
#include <memory>
#include <new>
#include <utility>
typedef std::uint64_t u64;
extern "C" {
void vc_assume(bool);
void vc_assert(bool, const char*);
void vc_cover(const char*);
u64 vc_any64(); std::uint32_t vc_any32(); std::uint16_t vc_any16(); std::uint8_t vc_any8(); bool vc_any_bool();
u64 vc_any_size();
void* vc_any_ptr();
void* vc_any_obj();
void* vc_alloc(u64);
void* vc_heap(u64);
void* vc_node(u64);
void vc_havoc(void*, u64);
u64 vc_peek(const void*);         // ghost read of 8 bytes, allowed even after the block was released
u64 vc_uf(u64 id, u64 a, u64 b, u64 c);
bool vc_ufb(u64 id, u64 a, u64 b, u64 c);
u64 vc_gld(u64 space, const void*);
void vc_gst(u64 space, const void*, u64);
void vc_gdefault(u64 space, u64);
u64 vc_sid(const char*, u64);
u64 vc_slen(u64);
u64 vc_cat(u64, u64);
void vc_str_axiom(const char*, u64, u64);
void vc_stop();
bool vc_choice();
void vc_hint(u64);
u64 vc_map_new();
void* vc_map_get(u64 m, u64 lo, u64 hi);
void vc_map_put(u64 m, u64 lo, u64 hi, void*);
void vc_assume_forall(u64 n, bool (*)(void*, u64), void*);
void vc_assume_forall64(bool (*)(void*, u64), void*);
void vc_replace(const char*, void*);
void vc_unreplace(const char*);
void vc_indirect(void*);               // calls through unknown function pointers use the stub: stub(pointer, arguments...)
void vc_virtual(u64 slot, void*);      // virtual calls of that slot on objects of unknown dynamic type use the stub
void vc_recursive(const char*, void*);  // recursive calls of the function use the stub (its contract)
void vc_guard(const void* lock, const void*, u64);
void vc_unguard();
void vc_on_lock(void (*)(const void* lock, std::uint32_t mode));  // runs after each acquisition: interference by other threads

void vc_on_atomic(void (*)(const void*));   // runs right before each atomic read-modify-write: interference by other threads
std::uint32_t vc_lock_state(const void*);
std::uint32_t vc_locks_held();
std::uint32_t vc_lock_ops();
void vc_set_lock(const void*, std::uint32_t);
u64 vc_live_heap();
bool vc_is_freed(const void*);
bool vc_is_heap(const void*);
void vc_alloc_may_fail(bool);   // from here on every allocation may throw std::bad_alloc
bool vc_may_throw();
u64 vc_align(const void*);     // alignment the allocation function promised for the heap block starting here (0: none starts here)
void vc_node_free(void*);
bool vc_str_freed(const void*);
bool vc_str_is_copy(const void*);   // the characters were copied by the code under contract
void vc_static_init();              // run the translation unit's static initialisers
void vc_unroll(u64);
void vc_merge(u64);        // 1: both sides of an undecided branch are joined again, outside contracts; 2: everywhere
bool vc_same_region(const void*, const void*);
u64 vc_out_count(const void*, u64); u64 vc_out_n(const void*); u64 vc_out_at(const void*, u64);
void vc_note(const char*);
void vc_show(const char*, u64);
bool vc_guard_done(const char*);
void* vc_global(const char*);
}
namespace vc {
template<class F> void assume_forall(u64 n, F f) { vc_assume_forall(n, [](void *c, u64 i) -> bool { return (*static_cast<F*>(c))(i); }, &f); }
template<class F> void assume_forall64(F f) { vc_assume_forall64([](void *c, u64 i) -> bool { return (*static_cast<F*>(c))(i); }, &f); }
// prove: for an arbitrary index below n (n may be 0)
template<class F> void assert_forall(u64 n, F f, const char *label) {
    if (vc_choice()) { u64 i = vc_any_size(); vc_assume(i < n); vc_assert(f(i), label); vc_stop(); }
}
inline u64 sid(std::string_view s) { return vc_sid(s.data(), s.size()); }
inline u64 sid(std::string const &s) { return vc_sid(s.data(), s.size()); }
template<class T> T* input() { return static_cast<T*>(vc_alloc(sizeof(T))); }
template<class T> T* input_array(u64 n) { return static_cast<T*>(vc_alloc(n * sizeof(T))); }
// an object built by its real constructor that outlives the contract
template<class T, class... A> T* make(A&&... a) { return ::new (vc_alloc(sizeof(T))) T(std::forward<A>(a)...); }
// an arbitrary string_view with a non-null data pointer
inline std::string_view any_view() { auto p = static_cast<const char*>(vc_any_obj()); u64 n = vc_any_size(); return std::string_view{p, n}; }
}
#define CONTRACT(name) extern "C" void contract_##name()
#endif
