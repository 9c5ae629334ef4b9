// C11 and C12 share this file: the functions under contract are the same, C11 (LIFETIMES) states what happens to the objects,
// C12 (VALUES) what the variants say afterwards.
#pragma once
#include "life.h"
#ifdef LIFETIMES
#define L(c, label) vc_assert(c, label)
#define V(c, label) (void)0
#else
#define L(c, label) (void)0
#define V(c, label) vc_assert(c, label)
#endif
namespace vc {
using rtti::internal::variant_function_table; using rtti::internal::variant_type_storage; using rtti::internal::type_attribute; using rtti::internal::variant_function_table_for;
// --- variants of any content: function tables that only keep a ghost object per storage -------------------------------------------
// OBJ: 0 nothing, 1 a live object, 2 an object already moved from (in place, its storage is abandoned); VAL its value; TAG its table.
// Every table may keep its objects in place (a move makes a second object) or on the heap (a move hands the object over).
enum: u64 { OBJ = 91, VAL = 92, TAG = 93 };
inline u64 g_copies, g_moves, g_destroys, g_throws, g_live, g_left; inline bool g_inplace[3], g_may_throw;
inline u64 obj(void const *s) { return vc_gld(OBJ, s); }
inline void place(void const *s, u64 tag, u64 v) { vc_gst(OBJ, s, 1); vc_gst(VAL, s, v); vc_gst(TAG, s, tag); ++g_live; }
template<u64 K> struct Table {
    static MetaType_ID type(type_attribute a) { return MetaType_ID{1000 + 10 * K + u64(a)}; }
    static void const* access(variant_type_storage const &s) { return &s; }
    static void copy_construct(void const *, variant_type_storage &) { vc_assert(false, "only construction from a value uses f_copy_construct"); }
    static void move_construct(void *, variant_type_storage &) { vc_assert(false, "only construction from a value uses f_move_construct"); }
    static void copy(variant_type_storage const &src, variant_type_storage &dst) {
        ++g_copies;
        L(obj(&src) == 1 && vc_gld(TAG, &src) == K, "only a live object of the table's type is copied");
        L(obj(&dst) != 1, "nothing is constructed on top of a live object");
        if (g_may_throw && vc_choice()) { ++g_throws; throw Boom{}; }
        place(&dst, K, vc_gld(VAL, &src));
    }
    static void move(variant_type_storage &src, variant_type_storage &dst) {
        ++g_moves;
        u64 v = vc_gld(VAL, &src);
        if (&src == &dst) return;                     // (a self-swap moves the emptied storage to itself on its way)
        L(obj(&src) == 1, "only a live object is moved"); L(vc_gld(TAG, &src) == K, "an object is moved by its own type's function");
        L(obj(&dst) != 1, "nothing is constructed on top of a live object");
        vc_gst(OBJ, &src, g_inplace[K] ? 2 : 0); --g_live; if (g_inplace[K]) ++g_left;
        vc_gst(VAL, &src, MOVED);
        place(&dst, K, v);
    }
    static void destroy(variant_type_storage &s) {
        ++g_destroys;
        L(obj(&s) == 1, "only a live object is destroyed, once"); L(vc_gld(TAG, &s) == K, "an object is destroyed by its own type's function");
        vc_gst(OBJ, &s, 0); --g_live;
    }
    static bool eq(variant_type_storage const &, void const *) { return vc_any_bool(); }
    static ClassInfo info(variant_type_storage const &) { return ClassInfo{}; }
    static variant_function_table const* get() { return make<variant_function_table>(&type, &access, &copy_construct, &move_construct, &copy, &move, &destroy, &eq, &info); }
};
inline variant_function_table const *tables[3];
inline void tables_begin() {
    vc_gdefault(OBJ, 0); vc_gdefault(VAL, 0); vc_gdefault(TAG, 0);
    g_copies = g_moves = g_destroys = g_throws = g_live = g_left = 0; g_may_throw = true;
    tables[0] = variant_function_table_for<void>();
    tables[1] = Table<1>::get(); tables[2] = Table<2>::get();
    g_inplace[1] = vc_any_bool(); g_inplace[2] = vc_any_bool();
}
// a variant in any state
inline variant* any_variant() {
    auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
    u64 k = vc_choice() ? 0 : vc_choice() ? 1 : 2;
    v->manager = tables[k];
    if (k) place(&v->storage, k, vc_any64());
    return v;
}
// what a variant holds: the table's number and the object's value
struct Held {
    u64 tag, val;
    explicit Held(variant const &v): tag{v.manager == tables[1] ? u64(1) : v.manager == tables[2] ? u64(2) : v.manager == tables[0] ? u64(0) : u64(9)}, val{tag && obj(&v.storage) == 1 ? vc_gld(VAL, &v.storage) : u64(0)} {}
    bool operator==(Held const &o) const { return tag == o.tag && val == o.val; }
};
// the invariant of a variant: a table and a live object of its type, or the empty table and none
inline bool consistent(variant const &v) {
    Held h{v};
    return h.tag < 3 && (h.tag ? obj(&v.storage) == 1 && vc_gld(TAG, &v.storage) == h.tag : obj(&v.storage) != 1);
}
inline u64 full(variant const &v) { return u64(Held{v}.tag != 0); }
}
using namespace vc;

// --- the special members, any content -----------------------------------------------------------------------------------------------
CONTRACT(default_construct)
{
    tables_begin();
    auto v = static_cast<variant*>(vc_alloc(sizeof(variant))); ::new (v) variant;
    V(v->empty() && !*v && Held{*v}.tag == 0, "a default variant is empty"); V(v->typeId() == MetaType_ID{}, "an empty variant reports the invalid type");
    v->~variant();
    L(g_live == 0 && g_copies + g_moves + g_destroys == 0, "an empty variant owns nothing");
    vc_cover("reached");
}
CONTRACT(emptiness)
{
    tables_begin();
    auto v = any_variant(); Held h{*v};
    V(v->empty() == (h.tag == 0) && bool(*v) == (h.tag != 0), "a variant is empty exactly when it holds no object");
    V((v->typeId() == MetaType_ID{}) == (h.tag == 0), "an empty variant reports the invalid type, another one its own");
    V(h == Held{*v}, "asking changes nothing"); L(g_copies + g_moves + g_destroys == 0, "asking touches no object");
    vc_cover("reached");
}
CONTRACT(copy_construct)
{
    tables_begin();
    auto o = any_variant(); Held h{*o}; u64 live0 = g_live;
    auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
    bool threw = false; try { ::new (v) variant(*o); } catch (Boom&) { threw = true; }
    V(threw == (g_throws != 0), "an exception of the copy reaches the caller, nothing else throws");
    V(Held{*o} == h, "the source is unchanged"); L(consistent(*o), "the source keeps its object");
    if (threw) { L(g_live == live0 && g_destroys == 0 && obj(&v->storage) == 0, "a failed copy owns nothing"); vc_cover("throws"); return; }
    V(Held{*v} == h && v->empty() == (h.tag == 0) && v->typeId() == o->typeId(), "a copy holds an equal object of the same type");
    L(consistent(*v) && g_live == live0 + full(*o) && g_copies <= 1, "exactly one object is made");
    if (h.tag) vc_cover("copied"); else vc_cover("empty");
}
CONTRACT(move_construct)
{
    tables_begin(); g_may_throw = false;
    auto o = any_variant(); Held h{*o}; u64 live0 = g_live;
    auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
    ::new (v) variant(std::move(*o));
    V(Held{*v} == h && v->empty() == (h.tag == 0), "the target holds the source's object and type"); V(o->empty(), "the source is left empty");
    L(consistent(*v) && consistent(*o) && g_live == live0, "the object changes hands");
    if (h.tag) vc_cover("moved"); else vc_cover("empty");
}
CONTRACT(copy_assign)
{
    tables_begin();
    auto a = any_variant(), b = vc_choice() ? a : any_variant(); Held ha{*a}, hb{*b};
    bool threw = false; variant *r = nullptr; try { r = &(*a = *b); } catch (Boom&) { threw = true; }
    V(threw == (g_throws != 0), "an exception of the copy reaches the caller, nothing else throws");
    L(consistent(*a) && consistent(*b), "both own what they hold"); L(g_live == full(*a) + (a == b ? 0 : full(*b)), "no object is left unowned or destroyed twice");
    V(Held{*b} == hb, "the source is unchanged");
    if (threw) { V(Held{*a} == ha, "a failed copy assignment leaves the target as it was"); vc_cover("throws"); return; }
    V(Held{*a} == hb && a->empty() == (hb.tag == 0), "the target holds an equal object of the same type"); V(r == a, "assignment gives the target");
    if (a == b) vc_cover("self"); else vc_cover("assigned");
}
CONTRACT(move_assign)
{
    tables_begin(); g_may_throw = false;
    auto a = any_variant(), b = vc_choice() ? a : any_variant(); Held hb{*b};
    variant *r = &(*a = std::move(*b));
    L(consistent(*a) && consistent(*b), "both own what they hold"); L(g_live == full(*a) + (a == b ? 0 : full(*b)), "no object is left unowned or destroyed twice");
    V(Held{*a} == hb && a->empty() == (hb.tag == 0), "the target holds the source's object and type"); V(r == a, "assignment gives the target");
    V(a == b || b->empty(), "the source is left empty");
    if (a == b) vc_cover("self"); else vc_cover("assigned");
}
CONTRACT(swapped)
{
    tables_begin(); g_may_throw = false;
    auto a = any_variant(), b = vc_choice() ? a : any_variant(); Held ha{*a}, hb{*b}; u64 live0 = g_live;
    if (vc_choice()) swap(*a, *b); else a->swap(*b);
    L(consistent(*a) && consistent(*b) && g_live == live0, "objects change hands, none is made or lost");
    V(Held{*a} == hb && Held{*b} == ha, "swap exchanges contents and types"); V(a->empty() == (hb.tag == 0) && b->empty() == (ha.tag == 0), "and emptiness");
    if (a == b) vc_cover("self"); else if (ha.tag && hb.tag) vc_cover("full"); else vc_cover("other");
}
CONTRACT(cleared)
{
    tables_begin();
    auto a = any_variant(), b = any_variant(); Held hb{*b}; u64 had = full(*a);
    a->clear();
    V(a->empty() && Held{*a}.tag == 0, "clear makes the variant empty"); L(g_destroys == had && consistent(*a), "its object is destroyed once");
    V(Held{*b} == hb, "other variants are unaffected");
    a->clear(); V(a->empty(), "clearing an empty variant changes nothing"); L(g_destroys == had, "an empty variant has nothing to destroy");
    if (had) vc_cover("object"); else vc_cover("empty");
}
CONTRACT(destructor)
{
    tables_begin();
    auto a = any_variant(); u64 had = full(*a);
    a->~variant();
    L(g_destroys == had && obj(&a->storage) != 1 && g_live == 0, "the object of a destroyed variant is destroyed once");
    vc_cover("reached");
}

// --- contents of each type: the function tables behind the special members, and construction from a value --------------------------
namespace vc {
template<class T> using Elem = std::remove_cv_t<std::remove_all_extents_t<T>>;
template<class T> constexpr std::size_t count = sizeof(T) / sizeof(Elem<T>);
template<class E> constexpr bool tracked = std::is_base_of_v<Life<0, true>, E> || std::is_base_of_v<Life<0, false>, E> || std::is_base_of_v<Life<1, true>, E> || std::is_base_of_v<Life<2, true>, E> || std::is_base_of_v<Life<2, false>, E>;
template<class E> u64 val(E const &e) { if constexpr(tracked<E> || std::is_same_v<E, Pod>) return e.v; else return u64(e); }
// the object a variant of T contains
template<class T> Elem<T>* where(variant const &v) {
    auto p = v.manager->f_access(v.storage);
    if constexpr(std::is_array_v<T>) return *static_cast<Elem<T> *const *>(p); else return static_cast<Elem<T>*>(const_cast<void*>(p));
}
template<class T> void fits(variant const &v) {
    auto p = where<T>(v);
    if (vc_same_region(p, &v)) L(alignof(T) <= alignof(variant_type_storage) && static_cast<void const*>(p) == &v.storage && sizeof(T) <= sizeof(v.storage), "the object fits the storage inside the variant");
    else L(vc_is_heap(p) && vc_align(p) >= alignof(T), "the object's storage is its own and aligned for it");
}
// C: how the variant's table sees the type (const or not)
template<class T> struct Content {
    using E = Elem<T>; static constexpr std::size_t N = count<T>;
    using Array = std::conditional_t<std::is_array_v<T>, T, E>;
    static constexpr bool can_copy = std::is_copy_constructible_v<E>, can_move = std::is_move_constructible_v<E>;
    static inline u64 want[N], live0, heap0;
    static Array* source() {
        auto s = static_cast<E*>(vc_alloc(sizeof(T)));
        for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) ::new (s + i) E(vc_any64()); want[i] = val(s[i]); }
        live0 = n_live; heap0 = vc_live_heap(); n_copies = n_moves = 0;
        return reinterpret_cast<Array*>(s);
    }
    static bool holds(variant const &v) {
        auto o = where<T>(v); bool r = true;
        for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) { L(alive(o + i), "the contained object is alive"); } if (val(o[i]) != want[i]) r = false; }
        return r;
    }
    static bool intact(Array const *s) { auto o = reinterpret_cast<E const*>(s); bool r = true; for (std::size_t i = 0; i < N; ++i) { if constexpr(tracked<E>) L(alive(o + i), "the source stays alive"); if (val(o[i]) != want[i]) r = false; } return r; }
    static void made(variant const &v, bool moved, Array const *s) {
        L(n_live == live0 + (tracked<E> ? N : 0), "exactly one object (each element once) is made");
        if constexpr(tracked<E>) L(moved ? n_copies == 0 && n_moves == N : n_copies == N && n_moves == 0, "by the constructor for the source's value category");
        fits<T>(v);
        V(!v.empty() && bool(v), "it is not empty"); V(v.typeId() == metaTypeId<std::remove_cv_t<T>>(), "it reports the value's type");
        V(holds(v), "it holds exactly the value"); if (!moved) V(intact(s), "a copied source is unchanged");
    }
    static void gone(variant &v, char const*) {
        v.~variant();
        L(n_live == live0, "destruction destroys the object, each element once"); L(vc_live_heap() == heap0, "and releases its storage");
    }
    static void failed() { L(n_live == live0 && vc_live_heap() == heap0, "a failed construction leaves no object and no storage"); V(true, "the exception reaches the caller"); }
    // construction from a value
    template<class A> static void build(Array *s, bool moved) {
        auto m = vc_alloc(sizeof(variant)); may_boom = true; variant *v = nullptr;
        try { v = ::new (m) variant(static_cast<A>(*s)); } catch (Boom&) { V(n_boom != 0, "only constructors throw"); }
        may_boom = false;
        if (!v) { failed(); if (!moved) V(intact(s), "a failed copy leaves the source unchanged"); vc_cover("throws"); return; }
        V(n_boom == 0, "an exception of the constructor reaches the caller");
        made(*v, moved, s); gone(*v, ""); vc_cover("built");
    }
    static void value() {
        life_begin(); auto s = source();
        u64 k = vc_choice() ? 0 : vc_choice() ? 1 : vc_choice() ? 2 : 3;
        if constexpr(can_copy) { if (k == 0) return build<Array&>(s, false); if (k == 1) return build<Array const&>(s, false); }
        if (k == 2) return build<Array&&>(s, can_move);
        if constexpr(can_copy) if (k == 3) return build<Array const&&>(s, false);
    }
    static variant* full_variant() {
        auto s = source(); (void)s;
        auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
        if constexpr(can_move || !can_copy) ::new (v) variant(std::move(*s)); else ::new (v) variant(*s);
        live0 = n_live; n_copies = n_moves = 0;
        return v;
    }
    // the table keeps the contract the special members were verified against
    static void copies() {
        life_begin(); auto v = full_variant(); u64 heap1 = vc_live_heap();
        variant_type_storage *d = static_cast<variant_type_storage*>(vc_alloc(sizeof(variant_type_storage)));
        auto w = static_cast<variant*>(vc_alloc(sizeof(variant))); w->manager = v->manager; (void)d;
        bool ok = false, unsupported = false; may_boom = true;
        try { v->manager->f_copy(v->storage, w->storage); ok = true; } catch (Boom&) {} catch (runtime_error&) { unsupported = true; }
        may_boom = false;
        V(unsupported == !can_copy, "copying fails exactly when the type cannot be copied"); V(holds(*v), "the source is unchanged");
        if (!ok) { L(n_live == live0 && vc_live_heap() == heap1, "a failed copy leaves no object and no storage"); V(unsupported || n_boom, "only constructors throw"); vc_cover("fails"); return; }
        V(n_boom == 0, "an exception of the copy reaches the caller");
        if constexpr(tracked<E>) L(n_live == live0 + N && n_copies == N && n_moves == 0, "every element is copied once");
        L(where<T>(*v) != where<T>(*w), "the copy is an object of its own"); fits<T>(*w); V(holds(*w), "the copy is equal");
        w->manager->f_destroy(w->storage);
        L(n_live == live0 && vc_live_heap() == heap1, "destroying the copy leaves the original"); V(holds(*v), "the original keeps its value");
        vc_cover("copied");
    }
    static void moves() {
        life_begin(); auto v = full_variant(); u64 heap1 = vc_live_heap(); auto old = where<T>(*v); bool inside = vc_same_region(old, v);
        auto w = static_cast<variant*>(vc_alloc(sizeof(variant))); w->manager = v->manager; may_boom = true;
        v->manager->f_move(v->storage, w->storage);
        may_boom = false;
        V(holds(*w), "the target holds the value"); fits<T>(*w);
        L(n_copies == 0 || !can_move, "a movable object is not copied");
        if (inside) { if constexpr(tracked<E>) L(n_live == live0 + (alive(old) ? N : 0), "one object is made"); }
        else { L(n_live == live0 && where<T>(*w) == old, "the object itself is handed over"); }
        L(vc_live_heap() == heap1, "no storage is obtained or lost");
        w->manager->f_destroy(w->storage);
        if constexpr(tracked<E>) { if (!inside) L(!alive(old), "the object is destroyed with its new owner"); }
        vc_cover("moved");
    }
    static void clears() {
        life_begin(); auto v = full_variant();
        v->clear();
        V(v->empty() && v->typeId() == MetaType_ID{}, "clear makes the variant empty");
        L(n_live == live0 - (tracked<E> ? N : 0) && n_copies + n_moves == 0, "its object is destroyed, each element once"); L(vc_live_heap() == heap0, "and its storage released");
        v->~variant(); L(n_live == live0 - (tracked<E> ? N : 0), "once");
        vc_cover("reached");
    }
    static void types() {
        life_begin(); auto v = full_variant();
        using U = std::remove_cv_t<T>;
        V(v->internalTypeId(type_attribute::NONE) == metaTypeId<U>() && v->typeId() == metaTypeId<U>(), "the content's type");
        V(v->internalTypeId(type_attribute::LREF) == metaTypeId<U&>() && v->internalTypeId(type_attribute::RREF) == metaTypeId<U&&>(), "its reference types");
        V(v->internalTypeId(type_attribute::LREF_CONST) == metaTypeId<std::add_const_t<U>&>(), "and that of a const reference to it");
        L(n_live == live0, "asking for the type touches no object"); vc_cover("reached");
    }
    // assignment of a value to a variant in any state
    template<class A> static void put(variant &a, Array *s, bool moved) {
        Held h{a}; u64 before = g_live, destroyed = g_destroys; may_boom = true; bool threw = false; variant *r = nullptr;
        try { r = &(a = static_cast<A>(*s)); } catch (Boom&) { threw = true; }
        may_boom = false;
        V(threw == (n_boom != 0), "an exception of the constructor reaches the caller");
        if (threw) { L(n_live == live0 && vc_live_heap() == heap0 && consistent(a) && g_live == before, "a failed assignment leaves no object and no storage"); V(Held{a} == h, "a failed assignment leaves the target as it was"); vc_cover("throws"); return; }
        V(r == &a, "assignment gives the target"); L(g_destroys - destroyed == u64(h.tag != 0) && g_live == 0, "the old content is destroyed once");
        V(a.typeId() == metaTypeId<std::remove_cv_t<T>>(), "the target reports the value's type"); V(holds(a), "and holds exactly the value"); if (!moved) V(intact(s), "a copied source is unchanged");
        fits<T>(a);
        vc_cover("assigned");
    }
    static void assigns() {
        life_begin(); tables_begin(); g_may_throw = false;
        auto a = any_variant(); auto s = source();
        if constexpr(can_copy) if (vc_choice()) return put<Array const&>(*a, s, false);
        put<Array&&>(*a, s, can_move);
    }
};
// contents held through a reference wrapper: U may be const
template<class U> struct Wrapped {
    using E = Elem<U>; static constexpr std::size_t N = count<U>;
    static void all() {
        life_begin();
        auto s = Content<std::remove_cv_t<U>>::source(); auto const want = Content<std::remove_cv_t<U>>::want;
        U &u = *reinterpret_cast<U*>(s); u64 live = n_live, heap = vc_live_heap(); may_boom = true;
        auto v = static_cast<variant*>(vc_alloc(sizeof(variant))), w = static_cast<variant*>(vc_alloc(sizeof(variant)));
        if (vc_choice()) ::new (v) variant(std::reference_wrapper<U>{u}); else { auto const r = std::reference_wrapper<U>{u}; ::new (v) variant(r); }
        auto designates = [&u](variant const &x) { void const *p = x.manager->f_access(x.storage); if constexpr(std::is_array_v<U>) p = *static_cast<void const *const *>(p); return p == static_cast<void const*>(std::addressof(u)); };
        V(!v->empty() && v->typeId() == metaTypeId<U>(), "it reports the type referred to"); V(designates(*v), "it designates the caller's object");
        V(v->internalTypeId(type_attribute::LREF) == metaTypeId<U&>() && v->internalTypeId(type_attribute::RREF) == metaTypeId<U&&>() && v->internalTypeId(type_attribute::LREF_CONST) == metaTypeId<std::add_const_t<U>&>(), "as the object's own reference types");
        ::new (w) variant(*v);
        V(designates(*w) && w->typeId() == v->typeId() && designates(*v), "a copy designates the same object");
        { variant m{std::move(*w)}; V(designates(m) && w->empty(), "so does the target of a move"); *w = m; V(designates(*w) && designates(m), "and of an assignment"); swap(*w, m); V(designates(*w) && designates(m), "and of a swap"); }
        w->clear(); V(w->empty() && designates(*v), "clearing lets go of it");
        w->~variant(); v->~variant();
        L(n_live == live && n_copies + n_moves + n_assigns == 0 && n_boom == 0, "an object passed by reference wrapper is only referred to, never copied or destroyed"); L(vc_live_heap() == heap, "and needs no storage");
        for (std::size_t i = 0; i < N; ++i) { auto o = reinterpret_cast<E const*>(s); if constexpr(tracked<E>) L(alive(o + i), "the object stays alive"); V(val(o[i]) == Content<std::remove_cv_t<U>>::want[i], "its value is untouched"); }
        (void)want; vc_cover("reached");
    }
};
enum class Color: int { red };
}
#define CONTENT(name, ...) CONTRACT(value_##name) { Content<__VA_ARGS__>::value(); } CONTRACT(copy_##name) { Content<__VA_ARGS__>::copies(); } CONTRACT(move_##name) { Content<__VA_ARGS__>::moves(); } \
    CONTRACT(clear_##name) { Content<__VA_ARGS__>::clears(); } CONTRACT(types_##name) { Content<__VA_ARGS__>::types(); } CONTRACT(assign_##name) { Content<__VA_ARGS__>::assigns(); }
#define WRAPPED(name, ...) CONTRACT(ref_##name) { Wrapped<__VA_ARGS__>::all(); }
CONTENT(small, Small)
CONTENT(smallx, SmallX)
CONTENT(edge, Edge)
CONTENT(big, Big)
CONTENT(bigx, BigX)
CONTENT(move_only, MoveOnly)
CONTENT(big_move_only, BigMoveOnly)
CONTENT(copy_only, CopyOnly)
CONTENT(big_copy_only, BigCopyOnly)
CONTENT(no_default, NoDefault)
CONTENT(no_eq, NoEq)
CONTENT(aligned, Aligned)
CONTENT(pod, Pod)
CONTENT(word, u64)
CONTENT(byte, unsigned char)
CONTENT(pointer, Small*)
CONTENT(pointer_to_const, Pod const*)
CONTENT(enumeration, Color)
CONTENT(array, Small[3])
CONTENT(array_one, Small[1])
CONTENT(arrayx, BigX[2])
CONTENT(matrix, SmallX[2][2])
CONTENT(array_aligned, Aligned[2])
CONTENT(words, u64[3])
CONTENT(bytes, unsigned char[2])
CONTENT(pointers, Pod const*[2])
WRAPPED(object, Small)
WRAPPED(object_const, Small const)
WRAPPED(big, BigX)
WRAPPED(unmovable, Pinned)
WRAPPED(word, u64)
WRAPPED(word_const, u64 const)
WRAPPED(pointer, Small*)
WRAPPED(pointer_const, Pod const *const)
WRAPPED(array, Small[2])
WRAPPED(array_const, u64 const[2])
#ifdef LIFETIMES
// Strict form of the same obligations: an object moved out of its place inside a variant is destroyed as well.  Expected to fail
// (KF-C11-1): the variant forgets it without running its destructor.
CONTRACT(left_behind)
{
    tables_begin(); g_may_throw = false;
    auto o = any_variant();
    variant v{std::move(*o)};
    vc_assert(g_left == 0, "an object moved out of a variant is destroyed");
    vc_cover("reached");
}
#endif
