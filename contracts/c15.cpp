// C15: an argument reaches a parameter by exactly the value category the parameter demands.
#include "content.h"
namespace {
// --- any argument, given to a parameter of type P ---------------------------------------------------------------------------------------------
// The caller's expression is any lvalue or rvalue of a type known by its descriptors only, or a variant (const or not) of any content.
enum Form { DIRECT, INNER, INNER_CONST };
template<class T> struct Give: AnyContent<T> {
    using Any = AnyContent<T>; using V = std::remove_cv_t<T>; using Any::v; using Any::empty; using Any::inside; using Any::begin; using Any::viewed; using Any::place; using Any::same; using Any::s_value; using Any::equal; using Any::tracked; using Any::cls; using Any::ptr;
    template<class To> static TypeInfo const* to() { return Any::template to<To>(); }
    argument *a; bool rvalue; Form form;
    void setup()
    {
        begin();
        vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)&s_convert<V>); conv_target = to<V>();
        if constexpr(std::is_class_v<V>) {
            V *content = static_cast<V*>(vc_alloc(sizeof(V))), *part = static_cast<V*>(vc_alloc(sizeof(V)));
            ::new (content) V(vc_any64()); ::new (part) V(vc_any64());
            if (!inside) where = content; else ::new (&v->storage) V(vc_any64());
            if (instance) { instance = vc_any_obj(); base_part = part; }
        } else if (!inside) where = vc_alloc(8);
        if (same() && !empty) { if constexpr(std::is_pointer_v<V>) if (!arr(desc[0])) elements = *static_cast<void *const *>(where); }
        to<variant>(); to<variant&>(); to<variant const&>(); to<variant const>(); to<V&>(); to<V const&>();   // (registered, not made)
        rvalue = vc_choice(); form = vc_choice() ? DIRECT : vc_choice() ? INNER : INNER_CONST;
        a = static_cast<argument*>(vc_alloc(sizeof(argument)));
        if (form == DIRECT) {     // (what the constructor makes of an expression: category_*, below)
            vc_assume(!fl(desc[0], TypeFlags::Class) || desc[0]->decay != metaTypeId<variant>());
            ::new (a) argument; a->m_rvalue = rvalue; a->m_value.manager = v->manager; a->m_value.storage = v->storage;
            if (inside) where = &a->m_value.storage;
            if constexpr(std::is_class_v<V>) if (inside) ::new (&a->m_value.storage) V(vc_any64());
            v = &a->m_value;
        } else if (form == INNER) { if (rvalue) ::new (a) argument(std::move(*v)); else ::new (a) argument(*v); }
        else { variant const &c = *v; if (rvalue) ::new (a) argument(std::move(c)); else ::new (a) argument(c); }
    }
    // MODE 0: T const&, 1: T&, 2: T&&, 3: T
    template<int MODE> void run()
    {
        setup();
        using P = std::conditional_t<MODE == 0, T const&, std::conditional_t<MODE == 1, T&, std::conditional_t<MODE == 2, T&&, T>>>;
        bool absent = form == DIRECT && empty;
        bool ref = MODE == 0 ? viewed(3, to<T const&>()) : viewed(1, to<T&>());
        void const *q = MODE != 3 && ref ? place() : nullptr;
        bool copy = MODE == 2 ? viewed(1, to<V>()) : viewed(3, to<V>());
        bool ok = copy || (!empty && has_conv && conv_ok);
        V want{}; s_value(want, copy);
        u64 live = n_live, heap = vc_live_heap();
        u64 s0 = vc_peek(v), s1 = vc_peek(reinterpret_cast<u64 const*>(v) + 1), s2 = vc_peek(reinterpret_cast<u64 const*>(v) + 2);
        void const *p = nullptr; V *r = static_cast<V*>(vc_alloc(sizeof(V))); bool bad_arg = false; Got got;
        try {
            got = outcome([&] { try { if constexpr(MODE == 3) ::new (r) V(a->template value<P>()); else { P x = a->template value<P>(); p = &x; } } catch (bad_argument_cast&) { bad_arg = true; } });
        } catch (...) { got = Got::other; }
        vc_assert(s0 == vc_peek(v) && s1 == vc_peek(reinterpret_cast<u64 const*>(v) + 1) && s2 == vc_peek(reinterpret_cast<u64 const*>(v) + 2) && n_destroyed == 0 && n_other == 0, "the caller's object is not touched");
        vc_assert(bad_arg == absent, "an absent argument is always an error, and only that one"); if (absent) { vc_cover("absent"); return; }
        vc_assert(got != Got::other, "only casts and conversions fail");
        bool refused = (MODE == 1 && rvalue) || (MODE == 2 && !rvalue) || (MODE != 0 && MODE != 3 && form == INNER_CONST);
        if (refused) { vc_assert(got == Got::cast, "the wrong value category is refused"); vc_assert(n_conv == 0 && n_live == live, "and nothing is made"); vc_cover("category"); return; }
        if (MODE == 1) { vc_assert(got == (q ? Got::value : Got::cast) && p == q, "a mutable reference designates the caller's own object, its base part, or is refused"); vc_assert(n_conv == 0 && n_live == live && vc_live_heap() == heap, "nothing is made for it"); if (q) vc_cover("bound"); else vc_cover("refused"); return; }
        if (q) { vc_assert(got == Got::value && p == q, "a reference designates the caller's own object or its base part"); vc_assert(n_conv == 0 && n_live == live && vc_live_heap() == heap, "nothing is made for it"); vc_cover("bound"); return; }
        vc_assert(got == (ok ? Got::value : Got::convert), "otherwise the value is converted or an error is raised");
        vc_assert(n_conv == u64(!copy && !empty), "a converter is asked once, when the content is no such value");
        if (!ok) { vc_assert(n_live == live && vc_live_heap() == heap, "a refused argument leaves nothing behind"); vc_cover("refused"); return; }
        V const *made = MODE == 3 ? r : static_cast<V const*>(p);
        if constexpr(tracked && (MODE == 3 || !std::is_same_v<V, Small>)) vc_assert(n_live == live + 1, "one object is made");    // (KF-C11-1: an object moved out of place is not destroyed)
        vc_assert(equal(*made, want), "it has the caller's value, its base part's or the converter's");
        if (MODE != 3) { vc_assert(p == a->m_dummy.raw_data_ptr() && a->m_dummy.typeId() == metaTypeId<V>(), "it lives as long as the argument"); a->~argument(); vc_assert((std::is_same_v<V, Small> || n_live == live) && vc_live_heap() == heap, "and no longer"); }
        vc_cover("made");
    }
};
}
#define GIVE(name, ...) \
  CONTRACT(constant_##name) { Give<__VA_ARGS__>{}.run<0>(); } \
  CONTRACT(mutable_##name) { Give<__VA_ARGS__>{}.run<1>(); } \
  CONTRACT(rvalue_##name) { Give<__VA_ARGS__>{}.run<2>(); } \
  CONTRACT(value_##name) { Give<__VA_ARGS__>{}.run<3>(); }
namespace { enum class Color: int { red }; }
GIVE(word, u64)
GIVE(klass, Small)
GIVE(throwing_class, SmallX)
GIVE(big_class, Big)
GIVE(class_pointer, Small*)
GIVE(pointer_to_const_class, Small const*)
GIVE(word_pointer, u64*)
GIVE(pointer_to_const_word, u64 const*)
GIVE(pointers, u64 const *const *)
GIVE(enumeration, Color)

// --- every kind of expression of each C++ type of a family, given to parameters of each: the language decides --------------------------------
namespace {
template<class...> struct Types {};
using Params = Types<u64, u64*, u64 const*, u64**, u64 const**, u64 *const*, u64 const *const*, u64*const, u64(*)[3], u64 const(*)[3], SmallX, Small*, Small const*, Pod, Color, unsigned char, Big>;
template<class U, class T> constexpr bool seen() { if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false; else return std::is_convertible_v<U&, T&>; }
template<class U, class T> constexpr bool made() { if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false; else return std::is_convertible_v<U&, T>; }
template<class U> struct Giving {
    using E = std::remove_all_extents_t<U>;
    static U* source() { auto p = static_cast<std::remove_cv_t<E>*>(vc_alloc(sizeof(U))); if constexpr(std::is_same_v<std::remove_cv_t<E>, SmallX> || std::is_same_v<std::remove_cv_t<E>, Big>) for (std::size_t i = 0; i < sizeof(U) / sizeof(E); ++i) ::new (p + i) E(vc_any64()); return reinterpret_cast<U*>(p); }
    template<class F> static Got how(F f) { try { return outcome(f); } catch (...) { return Got::other; } }
    template<class T> static bool same(T const &x, U const &o) {
        if constexpr(std::is_array_v<U>) { if constexpr(std::is_pointer_v<T>) return static_cast<void const*>(x) == static_cast<void const*>(&o); else return false; }
        else if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false;
        else if constexpr(std::is_class_v<T>) return x.v == o.v; else return x == o;
    }
    // C: the content as the language sees it (U or U const); shut: a const variant, which gives no mutable access at all
    template<class C, class T> static void as(argument const &a, bool rvalue, bool shut, U const &o) {
        using K = std::add_const_t<C>; using TC = std::add_const_t<T>; constexpr bool array = std::is_array_v<U>;
        void const *p = nullptr; Got g; bool eq = false;
        // mutable reference
        g = how([&] { if constexpr(!std::is_const_v<T>) p = std::addressof(a.value<T&>()); });
        if constexpr(!std::is_const_v<T>) { bool can = seen<C, T>() && !rvalue && !shut; vc_assert(g == (can ? Got::value : Got::cast) && p == (can ? &o : nullptr), "a mutable reference is bound exactly when the language allows it, to the caller's object"); }
        // constant reference
        p = nullptr; g = how([&] { auto &x = a.value<TC&>(); p = std::addressof(x); eq = same(x, o); });
        { bool direct = seen<K, TC>(), can = direct || made<K, T>(); vc_assert(g == (can ? Got::value : Got::convert) && eq == can && (array || (p == &o) == direct), "a constant reference designates the caller's object, or a value made of it"); }
        // rvalue references
        p = nullptr; eq = false; g = how([&] { if constexpr(!std::is_const_v<T>) { auto &&x = a.value<T&&>(); p = std::addressof(x); eq = same(x, o); } });
        if constexpr(!std::is_const_v<T>) { bool open = rvalue && !shut, direct = seen<C, T>(), can = direct || made<C, T>(); vc_assert(g == (open && can ? Got::value : open ? Got::convert : Got::cast) && eq == (open && can) && (array || (p == &o) == (open && direct)), "an rvalue reference takes temporaries only"); }
        p = nullptr; eq = false; g = how([&] { auto &&x = a.value<TC&&>(); eq = same(x, o); });
        { bool open = rvalue && !shut, can = seen<C, T>() || made<C, T>(); vc_assert(g == (open && can ? Got::value : open ? Got::convert : Got::cast) && eq == (open && can), "also when constant"); }
        // value
        eq = false; g = how([&] { T x = a.value<T>(); eq = same(x, o); });
        { bool can = made<K, T>(); vc_assert(g == (can ? Got::value : Got::convert) && eq == can, "a value is the caller's"); }
    }
    template<class C, class... T> static void every(Types<T...>, argument const &a, bool rvalue, bool shut, U const &o) { (as<C, T>(a, rvalue, shut, o), ...); vc_cover("reached"); }
    static void expression(u64 form) {
        life_begin(); U &o = *source(); U const &c = o;
        if (form == 0) { argument a(o); every<U>(Params{}, a, false, false, o); }
        if (form == 1) { argument a(c); every<U const>(Params{}, a, false, false, o); }
        if (form == 2) { argument a(std::move(o)); every<U>(Params{}, a, true, false, o); }
        if (form == 3) { argument a(std::move(c)); every<U const>(Params{}, a, true, false, o); }
        if (form == 4) { argument a(std::ref(o)); every<U>(Params{}, a, false, false, o); }
        if (form == 5) { argument a(std::cref(o)); every<U const>(Params{}, a, false, false, o); }
    }
    static void in_variant(u64 form) {
        life_begin(); U &o = *source(); auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
        if (form < 3) ::new (v) variant(std::ref(o)); else if (form < 5) ::new (v) variant(std::cref(o)); else ::new (v) variant(o);
        variant const &w = *v; auto raw = v->raw_data_ptr(); if constexpr(std::is_array_v<U>) raw = *static_cast<void const *const *>(raw);
        U const &held = *static_cast<U const*>(raw);
        if (form == 0) { argument a(*v); every<U>(Params{}, a, false, false, held); }
        if (form == 1) { argument a(w); every<U>(Params{}, a, false, true, held); }
        if (form == 2) { argument a(std::move(*v)); every<U>(Params{}, a, true, false, held); }
        if (form == 3) { argument a(*v); every<U const>(Params{}, a, false, false, held); }
        if (form == 4) { argument a(std::move(w)); every<U const>(Params{}, a, true, true, held); }
        if (form == 5) { argument a(*v); every<U>(Params{}, a, false, false, held); }
        if (form == 6) { argument a(std::move(*v)); every<U>(Params{}, a, true, false, held); }
    }
};
}
#define EXPRESSIONS(name, ...) \
  CONTRACT(lvalue_##name) { Giving<__VA_ARGS__>::expression(vc_choice() ? 0 : 1); } CONTRACT(temporary_##name) { Giving<__VA_ARGS__>::expression(vc_choice() ? 2 : 3); } CONTRACT(wrapped_##name) { Giving<__VA_ARGS__>::expression(vc_choice() ? 4 : 5); } \
  CONTRACT(variant_of_##name) { Giving<__VA_ARGS__>::in_variant(vc_choice() ? 5 : 6); } CONTRACT(variant_referring_##name) { Giving<__VA_ARGS__>::in_variant(vc_choice() ? 0 : vc_choice() ? 1 : vc_choice() ? 2 : vc_choice() ? 3 : 4); }
EXPRESSIONS(word, u64)
EXPRESSIONS(pointer, u64*)
EXPRESSIONS(to_const, u64 const*)
EXPRESSIONS(two_levels, u64**)
EXPRESSIONS(const_middle, u64 *const*)
EXPRESSIONS(words, u64[2])
EXPRESSIONS(matrix, u64[2][3])
EXPRESSIONS(klass, SmallX)
EXPRESSIONS(class_pointer, Small*)
EXPRESSIONS(class_to_const, Small const*)
EXPRESSIONS(big_class, Big)
EXPRESSIONS(pod, Pod)
EXPRESSIONS(enumeration, Color)
CONTRACT(absent)
{
    auto e = static_cast<argument*>(vc_alloc(sizeof(argument))); ::new (e) argument;
    vc_assert(e->empty(), "an argument not given is absent"); auto refused = [&](auto f) { try { f(); } catch (bad_argument_cast&) { return true; } return false; };
    vc_assert(refused([&] { e->value<u64>(); }) && refused([&] { e->value<u64&>(); }) && refused([&] { e->value<u64 const&>(); }) && refused([&] { e->value<u64&&>(); }) && refused([&] { e->value<Small>(); }), "an absent argument is an error");
    variant none; argument a(none); vc_assert(!a.empty(), "an empty variant is given");
    auto got = [&](auto f) { try { f(); } catch (bad_variant_cast&) { return true; } return false; };
    vc_assert(got([&] { a.value<u64>(); }) && got([&] { a.value<u64&>(); }) && got([&] { a.value<u64 const&>(); }) && got([&] { a.value<Small>(); }), "but has no value");
    u64 x = vc_any64(); argument m(x); argument n(std::move(m)); vc_assert(&n.value<u64&>() == &x, "an argument passed on is the same argument");
    argument r(std::move(x)); argument s(std::move(r)); u64 &&y = s.value<u64&&>(); vc_assert(&y == &x, "with its category");
}
