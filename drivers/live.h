// Objects that keep a register of who is alive.
#pragma once
#include "inv.h"
#include <map>
#include <new>
namespace live {
inline std::map<void const*, int> who; inline long bad = 0, made = 0; inline int boom_at = -1;     // boom_at: constructions until one throws
struct Boom {};
inline void boom() { if (boom_at >= 0 && boom_at-- == 0) throw Boom{}; }
inline void born(void const *p, int tag) { ++made; if (who.count(p)) { ++bad; drv::fail("an object is constructed on top of a live one"); } who[p] = tag; }
inline void died(void const *p) { if (!who.erase(p)) { ++bad; drv::fail("a dead object is destroyed"); } }
inline void used(void const *p) { if (!who.count(p)) { ++bad; drv::fail("a dead object is used"); } }
// W extra words, NX: moving does not throw
template<int W, bool NX, int A = 8> struct alignas(A) Obj {
    long v; long pad[W + 1];
    Obj(): v{-7} { boom(); mis(); born(this, 0); } explicit Obj(long x): v{x} { mis(); born(this, 0); }
    Obj(Obj const &o): v{o.v} { used(&o); boom(); mis(); born(this, 1); }
    Obj(Obj &&o) noexcept(NX): v{o.v} { used(&o); if (!NX) boom(); mis(); o.v = -1; born(this, 2); }
    Obj& operator=(Obj const &o) { used(this); used(&o); v = o.v; return *this; }
    Obj& operator=(Obj &&o) noexcept { used(this); used(&o); v = o.v; if (this != &o) o.v = -1; return *this; }
    ~Obj() { died(this); }
    bool operator==(Obj const &o) const { used(this); used(&o); return v == o.v; }
    void mis() { if (std::uintptr_t(this) % A) drv::fail("an object is misaligned"); }
};
template<bool NX> struct Obj<-1, NX, 8> {
    long v;
    Obj(): v{-7} { boom(); born(this, 0); } explicit Obj(long x): v{x} { born(this, 0); }
    Obj(Obj const &o): v{o.v} { used(&o); boom(); born(this, 1); }
    Obj(Obj &&o) noexcept(NX): v{o.v} { used(&o); if (!NX) boom(); o.v = -1; born(this, 2); }
    Obj& operator=(Obj const &o) { used(this); used(&o); v = o.v; return *this; }
    Obj& operator=(Obj &&o) noexcept { used(this); used(&o); v = o.v; if (this != &o) o.v = -1; return *this; }
    ~Obj() { died(this); }
    bool operator==(Obj const &o) const { used(this); used(&o); return v == o.v; }
};
using Small = Obj<-1, true>; using SmallX = Obj<-1, false>; using Big = Obj<2, true>; using BigX = Obj<2, false>; using Edge = Obj<0, true>; using Over = Obj<0, true, 64>;
struct MoveOnly: Small { using Small::Obj; MoveOnly() = default; MoveOnly(MoveOnly const&) = delete; MoveOnly(MoveOnly&&) = default; };
struct CopyOnly: Small { using Small::Obj; CopyOnly() = default; CopyOnly(CopyOnly const&) = default; CopyOnly(CopyOnly&&) = delete; };
struct Pinned: Small { using Small::Obj; Pinned() = default; Pinned(Pinned const&) = delete; Pinned(Pinned&&) = delete; };
struct NoDefault: Small { explicit NoDefault(long x): Small{x} {} };
// storage in use, as AddressSanitizer's allocator sees it
inline long blocks = 0;
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
inline int live_hooks = __sanitizer_install_malloc_and_free_hooks([](const volatile void*, std::size_t) { ++live::blocks; }, [](const volatile void*) { --live::blocks; });
