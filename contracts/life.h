// Objects with ghost lifetimes: constructing over a live object, using or destroying a dead one and copying from a dead one are failures.
#pragma once
#include "all.h"
namespace vc {
enum: u64 { LIFE = 90 };
struct Boom {};
inline u64 n_live, n_default, n_copies, n_moves, n_assigns, n_eqs, n_boom; inline bool may_boom;
inline bool alive(void const *p) { return vc_gld(LIFE, p) == 1; }
inline void life_begin() { vc_gdefault(LIFE, 0); n_live = n_default = n_copies = n_moves = n_assigns = n_eqs = n_boom = 0; may_boom = false; }
inline void born(void const *p) { vc_assert(!alive(p), "nothing is constructed on top of a live object"); vc_gst(LIFE, p, 1); ++n_live; }
inline void died(void const *p) { vc_assert(alive(p), "only live objects are destroyed, once"); vc_gst(LIFE, p, 0); --n_live; }
inline void used(void const *p) { vc_assert(alive(p), "only live objects are used"); }
inline void boom() { if (may_boom && vc_choice()) { ++n_boom; throw Boom{}; } }
constexpr u64 DEFAULT = 0xDEFA, MOVED = 0x303ED;
// W words; NX: operations that move do not throw
template<std::size_t W, bool NX> struct Life {
    u64 v; u64 pad[W];
    Life() { boom(); v = DEFAULT; ++n_default; born(this); }
    explicit Life(u64 x): v{x} { born(this); }
    Life(Life const &o) { used(&o); boom(); v = o.v; ++n_copies; born(this); }
    Life(Life &&o) noexcept(NX) { used(&o); if constexpr(!NX) boom(); v = o.v; o.v = MOVED; ++n_moves; born(this); }
    Life& operator=(Life const &o) { used(&o); used(this); boom(); v = o.v; ++n_assigns; return *this; }
    Life& operator=(Life &&o) noexcept(NX) { used(&o); used(this); if constexpr(!NX) boom(); v = o.v; if (this != &o) o.v = MOVED; ++n_assigns; return *this; }
    ~Life() { died(this); }
};
template<bool NX> struct Life<0, NX> {
    u64 v;
    Life() { boom(); v = DEFAULT; ++n_default; born(this); }
    explicit Life(u64 x): v{x} { born(this); }
    Life(Life const &o) { used(&o); boom(); v = o.v; ++n_copies; born(this); }
    Life(Life &&o) noexcept(NX) { used(&o); if constexpr(!NX) boom(); v = o.v; o.v = MOVED; ++n_moves; born(this); }
    Life& operator=(Life const &o) { used(&o); used(this); boom(); v = o.v; ++n_assigns; return *this; }
    Life& operator=(Life &&o) noexcept(NX) { used(&o); used(this); if constexpr(!NX) boom(); v = o.v; if (this != &o) o.v = MOVED; ++n_assigns; return *this; }
    ~Life() { died(this); }
};
#define EQ(T) friend bool operator==(T const &a, T const &b) { used(&a); used(&b); ++n_eqs; return a.v == b.v; }
struct Small: Life<0, true> { using Life::Life; EQ(Small) };               // fits in place, moves do not throw
struct SmallX: Life<0, false> { using Life::Life; EQ(SmallX) };            // one word, moves may throw
struct Edge: Life<1, true> { using Life::Life; EQ(Edge) };                 // two words
struct Big: Life<2, true> { using Life::Life; EQ(Big) };
struct BigX: Life<2, false> { using Life::Life; EQ(BigX) };
struct MoveOnly: Life<0, true> { using Life::Life; MoveOnly() = default; MoveOnly(MoveOnly const&) = delete; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; EQ(MoveOnly) };
struct BigMoveOnly: Life<2, true> { using Life::Life; BigMoveOnly() = default; BigMoveOnly(BigMoveOnly const&) = delete; BigMoveOnly(BigMoveOnly&&) = default; EQ(BigMoveOnly) };
struct CopyOnly: Life<0, true> { using Life::Life; CopyOnly() = default; CopyOnly(CopyOnly const&) = default; CopyOnly(CopyOnly&&) = delete; CopyOnly& operator=(CopyOnly const&) = default; EQ(CopyOnly) };
struct BigCopyOnly: Life<2, true> { using Life::Life; BigCopyOnly() = default; BigCopyOnly(BigCopyOnly const&) = default; BigCopyOnly(BigCopyOnly&&) = delete; EQ(BigCopyOnly) };
struct NoDefault: Life<0, true> { explicit NoDefault(u64 x): Life{x} {} EQ(NoDefault) };
struct NoEq: Life<0, true> { using Life::Life; };
struct Pinned: Life<0, true> { using Life::Life; Pinned() = default; Pinned(Pinned const&) = delete; Pinned(Pinned&&) = delete; };
struct alignas(64) Aligned: Life<0, true> { using Life::Life; EQ(Aligned) };
struct Pod { u64 v; std::uint32_t w; bool operator==(Pod const &o) const { return v == o.v && w == o.w; } };
#undef EQ
}
