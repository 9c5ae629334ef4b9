// C14: variant equality compares contained values of the same type and nothing else.
#include "life.h"
#include "c03_spec.h"
using namespace vc;
using rtti::internal::variant_function_table; using rtti::internal::variant_type_storage; using rtti::internal::type_attribute; using rtti::internal::variant_function_table_for;

// --- any two contents: function tables that only record what they are asked ---------------------------------------------------------
namespace {
TypeInfo *desc[3]; variant *side[3]; u64 n_cmp, n_other; void const *c_lhs, *c_rhs; u64 c_table; bool c_result, c_throws; void const *elements[3], *where[3];
template<u64 K> struct Table {
    static MetaType_ID type(type_attribute a) { vc_assert(a == type_attribute::LREF_CONST, "contents are compared as const"); return MetaType_ID{u64(desc[K])}; }
    // the content, or, for arrays, the place of a pointer to its elements
    static void const* access(variant_type_storage const &s) { if (arr(static_cast<TypeInfo const*>(desc[K]))) return &elements[K]; return where[K]; }
    static void cc(void const *, variant_type_storage &) { ++n_other; }
    static void mc(void *, variant_type_storage &) { ++n_other; }
    static void copy(variant_type_storage const &, variant_type_storage &) { ++n_other; }
    static void move(variant_type_storage &, variant_type_storage &) { ++n_other; }
    static void destroy(variant_type_storage &) { ++n_other; }
    static bool eq(variant_type_storage const &l, void const *r) { ++n_cmp; c_table = K; c_lhs = &l; c_rhs = r; if (c_throws) throw Boom{}; return c_result; }
    static ClassInfo info(variant_type_storage const &) { return ClassInfo{}; }
    static variant_function_table const* get() { return make<variant_function_table>(&type, &access, &cc, &mc, &copy, &move, &destroy, &eq, &info); }
};
TypeInfo* const_reference()
{
    auto t = input<TypeInfo>();
    vc_assume(t->arity <= 14);
    vc_assume(fl(t, TypeFlags::LvalueReference) && !fl(t, TypeFlags::RvalueReference) && fl(t, TypeFlags::Const));
    vc_assume(t->decay.value() != 0);
    return t;
}
void *shared;
template<u64 K> variant* any_variant()
{
    auto v = input<variant>(); side[K] = v;
    // (held by reference, it may share its address with the other one)
    elements[K] = where[K] = vc_choice() ? static_cast<void const*>(&v->storage) : shared;
    v->manager = vc_choice() ? variant_function_table_for<void>() : Table<K>::get();
    return v;
}
bool related(MetaType *from, MetaType *to) { auto F = from->m_typeInfo, T = to->m_typeInfo; return F && T && spec(F, T); }
}
CONTRACT(any_contents)
{
    desc[1] = const_reference(); desc[2] = vc_choice() ? desc[1] : const_reference(); bool same = desc[1] == desc[2];
    shared = vc_any_obj();
    auto a = any_variant<1>(), b = any_variant<2>(); u64 bits = vc_peek(b), bits2 = vc_peek(a);
    vc_replace("rtti::MetaType::compatible", (void*)+[](TypeInfo const *f, TypeInfo const *t) -> bool { return f && t && spec(f, t); });
    n_cmp = n_other = 0; c_result = vc_any_bool(); c_throws = vc_any_bool();
    bool threw = false, r = false; try { r = *a == *b; } catch (Boom&) { threw = true; }
    vc_assert(n_other == 0 && vc_peek(b) == bits && vc_peek(a) == bits2, "comparing changes neither side");
    bool ea = a->empty(), eb = b->empty();
    if (ea || eb) { vc_assert(!threw && n_cmp == 0 && r == (ea && eb), "two empty variants are equal, an empty and a non-empty one are not"); if (ea && eb) vc_cover("empty"); else vc_cover("one empty"); return; }
    auto l = static_cast<TypeInfo const*>(desc[1]), rr = static_cast<TypeInfo const*>(desc[2]);
    auto dl = l->decay.value(), dr = rr->decay.value();
    if (dl != dr || arr(l) != arr(rr) || (arr(l) && l->size != rr->size)) vc_assert(!threw && !r && n_cmp == 0, "contents of different types or sizes are not equal and are not read");
    bool one = same && elements[1] == elements[2];
    if (same) vc_assert(n_cmp == 1 || (one && r), "contents of the same type are compared");
    vc_assert(n_cmp <= 1 && (n_cmp || one || (!r && !threw)), "only the contents decide");
    if (n_cmp) {
        vc_assert(threw == c_throws && (threw || r == c_result), "the result is the contents' own");
        bool forward = c_table == 1;
        vc_assert(c_lhs == &(forward ? a : b)->storage, "one side is one variant's content");
        vc_assert(c_rhs == (arr(forward ? rr : l) ? elements[forward ? 2 : 1] : where[forward ? 2 : 1]), "the other side is the other variant's content");
        vc_cover("compared");
    } else vc_cover("different");
}

// --- contents of each type ------------------------------------------------------------------------------------------------------------
namespace {
template<class T> using Elem = std::remove_cv_t<std::remove_all_extents_t<T>>;
template<class T> constexpr std::size_t count = sizeof(T) / sizeof(Elem<T>);
template<class E> constexpr bool tracked = std::is_base_of_v<Life<0, true>, E> || std::is_base_of_v<Life<0, false>, E> || std::is_base_of_v<Life<1, true>, E> || std::is_base_of_v<Life<2, true>, E> || std::is_base_of_v<Life<2, false>, E>;
template<class E> u64 val(E const &e) { if constexpr(tracked<E> || std::is_same_v<E, Pod>) return e.v; else return u64(e); }
template<class T> struct Same {
    using E = Elem<T>; static constexpr std::size_t N = count<T>; using A = std::conditional_t<std::is_array_v<T>, T, E>;
    static A* source() { auto s = static_cast<E*>(vc_alloc(sizeof(T))); for (std::size_t i = 0; i < N; ++i) if constexpr(tracked<E>) ::new (s + i) E(vc_any64()); return reinterpret_cast<A*>(s); }
    static bool equal(A *x, A *y) {
        auto a = reinterpret_cast<E*>(x), b = reinterpret_cast<E*>(y); bool r = true;
        for (std::size_t i = 0; i < N; ++i) { if (val(a[i]) != val(b[i])) r = false; if constexpr(std::is_same_v<E, Pod>) if (a[i].w != b[i].w) r = false; }
        return r;
    }
    static void put(variant *m, A &a, u64 how) {
        if (how == 0) ::new (m) variant(std::ref(a)); else if (how == 1) ::new (m) variant(std::cref(a));
        else if constexpr(std::is_copy_constructible_v<E>) ::new (m) variant(a); else ::new (m) variant(std::move(a));
    }
    static u64 way() { return vc_choice() ? 0 : vc_choice() ? 1 : 2; }
    static void all() {
        life_begin();
        auto a = source(), b = vc_choice() ? a : source(); bool eq = equal(a, b), self = a == b;
        constexpr bool can = has_eq_v<E, E>;
        auto v = static_cast<variant*>(vc_alloc(sizeof(variant))), w = static_cast<variant*>(vc_alloc(sizeof(variant)));
        u64 hv = way(), hw = way(); constexpr bool once = !std::is_copy_constructible_v<E>; vc_assume(!once || !self || hv != 2 || hw != 2);
        if constexpr(once) { eq = equal(a, b); if (self && (hv == 2 || hw == 2)) vc_stop(); }
        put(v, *a, hv); put(w, *b, hw);
        u64 live = n_live, copies = n_copies + n_moves;
        bool threw = false, r = false; u64 op = vc_choice() ? 0 : vc_choice() ? 1 : vc_choice() ? 2 : 3;
        try { r = op == 0 ? *v == *w : op == 1 ? !(*v != *w) : op == 2 ? v->eq(*b) : !v->neq(*b); } catch (runtime_error&) { threw = true; }
        if (op >= 2 && hw == 2 && once) vc_stop();           // (*b was moved into the other variant)
        bool same_object = self && (op >= 2 ? hv != 2 : hv != 2 && hw != 2);
        if (can || !same_object) vc_assert(threw == !can, "a type without equality raises an error");
        if (!threw) vc_assert(r == (eq || same_object), "variants of one type are equal exactly when their contents are, held directly or by reference");
        vc_assert(n_live == live && n_copies + n_moves == copies, "comparing neither copies nor destroys a content");
        vc_cover("reached");
    }
};
enum class Color: int { red };
}
#define SAME(name, ...) CONTRACT(same_##name) { Same<__VA_ARGS__>::all(); }
SAME(small, Small)
SAME(edge, Edge)
SAME(big, Big)
SAME(bigx, BigX)
SAME(move_only, MoveOnly)
SAME(copy_only, CopyOnly)
SAME(aligned, Aligned)
SAME(no_eq, NoEq)
SAME(pod, Pod)
SAME(word, u64)
SAME(byte, unsigned char)
SAME(pointer, Small*)
SAME(enumeration, Color)
SAME(array, Small[3])
SAME(arrayx, BigX[2])
SAME(matrix, Small[2][2])
SAME(array_no_eq, NoEq[2])
SAME(array_copy_only, CopyOnly[2])
SAME(words, u64[3])
SAME(bytes, unsigned char[2])
SAME(pods, Pod[2])

// different types: never equal, whatever the bits
template<class A, class B> static void differ()
{
    life_begin();
    auto a = Same<A>::source(); auto b = Same<B>::source();
    auto v = static_cast<variant*>(vc_alloc(sizeof(variant))), w = static_cast<variant*>(vc_alloc(sizeof(variant)));
    Same<A>::put(v, *a, Same<A>::way()); Same<B>::put(w, *b, Same<B>::way());
    vc_assert(!(*v == *w) && !(*w == *v) && *v != *w, "contents of different types are not equal"); vc_assert(n_eqs == 0, "and are not compared");
    variant e; vc_assert(!(*v == e) && !(e == *v) && e == variant{}, "nor is an empty variant equal to one that is not");
    vc_cover("reached");
}
CONTRACT(differ_words) { differ<u64, std::int64_t>(); }
CONTRACT(differ_width) { differ<u64, unsigned char>(); }
CONTRACT(differ_class) { differ<Small, Pod>(); }
CONTRACT(differ_level) { differ<u64, u64*>(); }
CONTRACT(differ_array_pointer) { differ<u64[2], u64*>(); }
CONTRACT(differ_array_length) { differ<u64[2], u64[3]>(); }
CONTRACT(differ_array_one) { differ<Small[1], Small>(); }
CONTRACT(differ_pointers) { differ<Small*, Pod*>(); }

// eq() also looks through converters, in either direction
namespace {
bool has_forward, has_backward, conv_ok; u64 conv_value, n_conv; bool conv_forward; void const *conv_from; void *conv_to; MetaType_ID id_big, id_word;
bool s_has(TypeInfo const *f, TypeInfo const *t) { if (f == (TypeInfo const*)id_big.value()) return vc_assert(t == (TypeInfo const*)id_word.value(), "between the two types"), has_forward; vc_assert(f == (TypeInfo const*)id_word.value() && t == (TypeInfo const*)id_big.value(), "between the two types"); return has_backward; }
bool s_convert(void const *from, TypeInfo const *f, void *to, TypeInfo const *)
{
    ++n_conv; conv_from = from; conv_to = to; conv_forward = f == (TypeInfo const*)id_big.value();
    if (!conv_ok) return false;
    if (conv_forward) *static_cast<u64*>(to) = conv_value; else ::new (to) Big(conv_value);
    return true;
}
}
CONTRACT(eq_through_converter)
{
    life_begin();
    id_big = metaTypeId<Big>(); id_word = metaTypeId<u64>(); (void)metaTypeId<u64 const&>(); (void)metaTypeId<Big const&>();
    Big x{vc_any64()}; u64 y = vc_any64();
    variant v{x};
    u64 live = n_live, heap = vc_live_heap();
    has_forward = vc_any_bool(); has_backward = vc_any_bool(); conv_ok = vc_any_bool(); conv_value = vc_any64(); n_conv = 0;
    vc_replace("rtti::MetaType::hasConverter(rtti::MetaType, rtti::MetaType)", (void*)&s_has);
    vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)&s_convert);
    bool r = vc_choice() ? v.eq(y) : !v.neq(y);
    vc_assert(n_live == live && vc_live_heap() == heap, "whatever was converted is destroyed and its storage released");
    vc_assert(n_conv == u64(has_forward) + u64(has_backward && !(has_forward && conv_ok)), "converters are asked once each until one succeeds");
    if (!n_conv || !conv_ok) { vc_assert(!r, "without a converter contents of different types are not equal"); vc_cover("none"); return; }
    if (has_forward) { vc_assert(conv_forward && conv_from == v.raw_data_ptr(), "the content is converted"); vc_assert(r == (conv_value == y), "and compared with the value"); vc_cover("forward"); }
    else { vc_assert(!conv_forward && conv_from == &y, "the value is converted"); vc_assert(r == (conv_value == x.v), "and compared with the content"); vc_cover("backward"); }
}
