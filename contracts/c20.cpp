// C20: type-erased construction, destruction and comparison act on exactly one object of the type.
#include "types.h"
#include "life.h"
using namespace vc;

// --- the protocol, for any type: an arbitrary function table -------------------------------------------------------------------
static void *blk; static u64 n_alloc, n_dealloc, n_dflt, n_copy, n_move, n_mc, n_destroy, n_cmp; static void const *a_src, *a_where, *a_freed, *a_dead, *a_l, *a_r; static bool fail_op, fail_alloc, cmp_r, mc_last;
static void* s_allocate() { ++n_alloc; if (fail_alloc) throw Boom{}; return blk; }
static void s_deallocate(void *p) { ++n_dealloc; a_freed = p; if (a_dead) vc_assert(n_destroy == 1, "the object is destroyed before its storage is released"); }
static void s_default(void *w) { ++n_dflt; a_where = w; if (fail_op) throw Boom{}; }
static void s_copy(void const *s, void *w) { ++n_copy; a_src = s; a_where = w; if (fail_op) throw Boom{}; }
static void s_move(void *s, void *w) { ++n_move; a_src = s; a_where = w; if (fail_op) throw Boom{}; }
static void s_move_or_copy(void *s, void *w) { ++n_mc; a_src = s; a_where = w; if (fail_op) throw Boom{}; }
static void s_destroy(void *p) { ++n_destroy; a_dead = p; }
static bool s_eq(void const *l, void const *r) { ++n_cmp; a_l = l; a_r = r; return cmp_r; }
static MetaType any_type()
{
    auto d = static_cast<TypeInfo*>(vc_alloc(sizeof(TypeInfo)));
    d->manager = make<metatype_manager_t>(&s_allocate, &s_deallocate, &s_default, &s_copy, &s_move, &s_move_or_copy, &s_destroy, &s_eq);
    blk = vc_any_obj();
    n_alloc = n_dealloc = n_dflt = n_copy = n_move = n_mc = n_destroy = n_cmp = 0; a_src = a_where = a_freed = a_dead = nullptr;
    fail_op = vc_any_bool(); fail_alloc = vc_any_bool(); cmp_r = vc_any_bool();
    return MetaType{MetaType_ID{u64(d)}};
}
CONTRACT(construct)
{
    auto t = any_type();
    void *src = vc_any_bool() ? nullptr : vc_any_obj(); bool movable = vc_any_bool();
    void *r = nullptr; bool threw = false;
    try { r = t.construct(src, movable); } catch (Boom&) { threw = true; }
    vc_assert(n_alloc == 1 && n_destroy == 0, "storage is obtained once");
    if (fail_alloc) { vc_assert(threw && !n_dflt && !n_copy && !n_mc && !n_move && !n_dealloc, "without storage nothing happens"); vc_cover("no storage"); return; }
    vc_assert(n_dflt + n_copy + n_mc + n_move == 1, "exactly one object is constructed");
    vc_assert(n_dflt == u64(!src), "default construction exactly when there is no source");
    if (src) { vc_assert(movable || n_copy == 1, "an unmovable source is copied"); vc_assert(!movable || n_mc + n_move == 1, "a movable source is moved if the type can"); vc_assert(a_src == src, "from the given source"); }
    vc_assert(a_where == blk, "in the storage obtained");
    if (fail_op) { vc_assert(threw, "the constructor's exception reaches the caller"); vc_assert(n_dealloc == 1 && a_freed == blk, "a failed construction releases the storage"); vc_cover("throws"); }
    else { vc_assert(!threw && r == blk && n_dealloc == 0, "the object is handed to the caller"); vc_cover("constructed"); }
}
CONTRACT(destruct)
{
    auto t = any_type();
    void *p = vc_any_bool() ? nullptr : vc_any_obj();
    t.destruct(p);
    vc_assert(!n_alloc && !n_dflt && !n_copy && !n_mc && !n_move, "nothing is constructed");
    if (p) { vc_assert(n_destroy == 1 && a_dead == p, "the object is destroyed once"); vc_assert(n_dealloc == 1 && a_freed == p, "its storage is released once"); vc_cover("instance"); }
    else { vc_assert(!n_destroy && !n_dealloc, "a null instance is ignored"); vc_cover("null"); }
}
CONTRACT(destruct_invalid)
{
    MetaType t; any_type();
    vc_assert(t.construct(vc_any_ptr(), vc_any_bool()) == nullptr, "an invalid type constructs nothing");
    t.destruct(vc_any_ptr());
    vc_cover("reached");
}
CONTRACT(compare)
{
    auto t = any_type(); auto l = vc_any_ptr(), r = vc_any_ptr();
    bool x = t.compare_eq(l, r);
    vc_assert(n_cmp == 1 && a_l == l && a_r == r && x == cmp_r, "comparison is the type's own"); vc_cover("reached");
    vc_assert(!MetaType{}.compare_eq(l, r) && n_cmp == 1, "an invalid type has no equal objects");
}

// --- the functions of each type ------------------------------------------------------------------------------------------------
template<class T> using Elem = std::remove_all_extents_t<T>;
template<class T> constexpr std::size_t count = sizeof(T) / sizeof(Elem<T>);
template<class E> constexpr bool tracked = std::is_base_of_v<Life<0, true>, E> || std::is_base_of_v<Life<0, false>, E> || std::is_base_of_v<Life<1, true>, E> || std::is_base_of_v<Life<2, true>, E> || std::is_base_of_v<Life<2, false>, E>;
template<class E> u64 val(E const &e) { if constexpr(tracked<E> || std::is_same_v<E, Pod>) return e.v; else if constexpr(std::is_pointer_v<E>) return u64(e); else return u64(e); }
// T: what the descriptor says; throws: may its constructors throw
template<class T> struct Family {
    using E = Elem<T>; static constexpr std::size_t N = count<T>;
    static E* source(u64 *want) {
        auto s = static_cast<E*>(vc_alloc(sizeof(T)));
        for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) ::new (s + i) E(vc_any64()); want[i] = val(s[i]); }
        return s;
    }
    static void sources_intact(E *s, u64 *want, bool moved) { for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) { used(s + i); if (!moved) vc_assert(val(s[i]) == want[i], "a copied source keeps its value"); } } }
    static void construct() {
        life_begin();
        auto t = metaType<T>(); vc_assert(t.valid(), "the type is registered");
        u64 want[N]; u64 heap0 = vc_live_heap();
        bool from = vc_choice(), movable = from && vc_choice();
        E *s = from ? source(want) : nullptr;
        constexpr bool can_default = std::is_default_constructible_v<E>, can_copy = std::is_copy_constructible_v<E>, can_move = std::is_move_constructible_v<E>;
        bool can = !from ? can_default : movable ? can_move || can_copy : can_copy;
        bool moves = movable && can_move;
        u64 live0 = n_live; may_boom = true;
        void *r = nullptr; bool threw = false, unsupported = false;
        try { r = t.construct(s, movable); } catch (Boom&) { threw = true; } catch (runtime_error&) { unsupported = true; }
        may_boom = false;
        vc_assert(unsupported == !can, "operations the type does not support raise an error, others do not");
        if (!r) {
            vc_assert(threw || unsupported, "construction gives an object or raises an error");
            vc_assert(n_live == live0, "a failed construction leaves no object"); vc_assert(vc_live_heap() == heap0, "a failed construction leaves no storage");
            if (from && !moves) sources_intact(s, want, false);
            if (threw) vc_cover("throws"); else vc_cover("unsupported");
            return;
        }
        vc_assert(!threw && n_boom == 0, "an exception of a constructor reaches the caller");
        vc_assert(vc_align(r) >= alignof(T), "the storage is aligned for the type");
        auto o = static_cast<E*>(r);
        if constexpr(tracked<E>) {
            vc_assert(n_live == live0 + N, "exactly one object (every element once) is constructed");
            vc_assert(n_default == (from ? 0 : N) && n_moves == (moves ? N : 0) && n_copies == (from && !moves ? N : 0) && n_assigns == 0, "by the constructor asked for, nothing else");
        } else vc_havoc(reinterpret_cast<char*>(r) + sizeof(T) - 1, from ? 0 : 1);
        for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) used(o + i); if (from || tracked<E>) vc_assert(val(o[i]) == (from ? want[i] : DEFAULT), "with the source's value, element by element"); }
        if (from) sources_intact(s, want, moves);
        t.destruct(r);
        vc_assert(n_live == live0, "destructing destroys exactly that object"); vc_assert(vc_live_heap() == heap0, "and releases its storage");
        if (from) { if (moves) vc_cover("moved"); else vc_cover("copied"); } else vc_cover("default");
    }
    static void compare() {
        life_begin();
        auto t = metaType<T>();
        u64 l[N], r[N]; E *a = source(l), *b = source(r);
        bool threw = false, x = false, eq = true;
        for (std::size_t i = 0; i < N; ++i) if (l[i] != r[i]) eq = false;
        if constexpr(std::is_same_v<E, Pod>) for (std::size_t i = 0; i < N; ++i) if (a[i].w != b[i].w) eq = false;
        int which = vc_choice() ? 0 : vc_choice() ? 1 : vc_choice() ? 2 : vc_choice() ? 3 : 4;
        try { x = which == 0 ? t.compare_eq(a, b) : which == 1 ? t.compare_eq(a, a) : which == 2 ? t.compare_eq(a, nullptr) : which == 3 ? t.compare_eq(nullptr, b) : t.compare_eq(nullptr, nullptr); } catch (runtime_error&) { threw = true; }
        constexpr bool can = has_eq_v<E, E>;
        vc_assert(threw == !can, "comparing raises an error exactly when the type has no equality");
        if (!threw) vc_assert(x == (which == 0 ? eq : which == 1 || which == 4), "equality is the type's own, reflexive, and false against null");
        vc_assert(n_live == (tracked<E> ? 2 * N : 0), "comparing keeps the objects");
        vc_cover("reached");
    }
    static void nulls() {
        life_begin(); may_boom = true;
        using M = type_manager_t<T>;
        u64 w[N]; E *s = source(w); auto to = vc_alloc(sizeof(T)); u64 live0 = n_live;
        try { M::default_construct(nullptr); } catch (runtime_error&) {}
        try { M::copy_construct(nullptr, to); M::copy_construct(s, nullptr); M::copy_construct(nullptr, nullptr); } catch (runtime_error&) {}
        try { M::move_construct(nullptr, to); M::move_construct(s, nullptr); M::move_construct(nullptr, nullptr); } catch (runtime_error&) {}
        try { M::move_or_copy(nullptr, to); M::move_or_copy(s, nullptr); M::move_or_copy(nullptr, nullptr); } catch (runtime_error&) {}
        M::destroy(nullptr); M::deallocate(nullptr);
        vc_assert(n_live == live0 && n_boom == 0, "null sources, targets and instances are ignored");
        vc_cover("reached");
    }
};
enum class Color: int { red };
#define FAMILY(name, ...) CONTRACT(construct_##name) { Family<__VA_ARGS__>::construct(); } CONTRACT(compare_##name) { Family<__VA_ARGS__>::compare(); } CONTRACT(null_##name) { Family<__VA_ARGS__>::nulls(); }
FAMILY(small, Small)
FAMILY(smallx, SmallX)
FAMILY(big, Big)
FAMILY(bigx, BigX)
FAMILY(move_only, MoveOnly)
FAMILY(copy_only, CopyOnly)
FAMILY(no_default, NoDefault)
FAMILY(no_eq, NoEq)
FAMILY(pinned, Pinned)
FAMILY(aligned, Aligned)
FAMILY(pod, Pod)
FAMILY(word, u64)
FAMILY(pointer, Pod*)
FAMILY(byte, unsigned char)
FAMILY(enumeration, Color)
FAMILY(array, Small[3])
FAMILY(arrayx, BigX[2])
FAMILY(matrix, SmallX[2][2])
FAMILY(array_no_eq, NoEq[2][2])
FAMILY(array_move_only, MoveOnly[2])
FAMILY(array_copy_only, CopyOnly[2])
FAMILY(array_aligned, Aligned[2])
FAMILY(words, u64[3])
FAMILY(pods, Pod[2])
