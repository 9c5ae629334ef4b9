// C13: typed access to a variant is type-safe and const-safe.
#include "content.h"
namespace {
enum Op { IS, IS_C, REF, REF_C, REF_R, RREF, CREF, CREF_C, DATA, DATA_C, TO, TO_C, CAN, CAN_C, CONVERT, TRY };
template<class T> struct Ask: AnyContent<T> {
    using Any = AnyContent<T>; using R = typename Any::R; using Any::v; using Any::empty; using Any::inside; using Any::begin; using Any::viewed; using Any::place; using Any::same; using Any::s_value; using Any::equal; using Any::tracked; using Any::cls; using Any::ptr;
    template<class To> static TypeInfo const* to() { return Any::template to<To>(); }
    void run(Op op)
    {
        using U = R; using UC = std::add_const_t<R>;
        begin();
        auto &V = *v; auto const &W = *v;
        u64 s0 = vc_peek(v), s1 = vc_peek(reinterpret_cast<u64 const*>(v) + 1), s2 = vc_peek(reinterpret_cast<u64 const*>(v) + 2);
        bool answer = false; void const *p = nullptr; Got got = Got::value;
        bool test = op == IS || op == IS_C, data = op == DATA || op == DATA_C;
        u64 from = op == IS_C || op == REF_C || op == CREF_C || op == DATA_C ? 3 : op == RREF ? 2 : op == REF_R ? 0 : 1;
        TypeInfo const *target = op == IS || op == IS_C ? to<T>() : op == REF || op == DATA ? to<U&>() : op == RREF ? to<U&&>() : to<UC&>();
        vc_merge(1);
        if (op == IS) answer = V.template is<T>(); else if (op == IS_C) answer = W.template is<T>();
        else got = outcome([&] {
            if (op == REF) p = &V.template ref<R>(); else if (op == REF_C) p = &W.template ref<R>(); else if (op == REF_R) p = &std::move(V).template ref<R>();
            else if (op == RREF) { auto &&r = std::move(V).template rref<R>(); p = &r; }
            else if (op == CREF) p = &V.template cref<R>(); else if (op == CREF_C) p = &W.template cref<R>();
            else if (op == DATA) p = V.template data<R>(); else p = W.template data<R>();
        });
        vc_merge(0);
        bool can = viewed(from, target);
        vc_assert(n_other == 0 && n_destroyed == 0 && n_conv == 0 && s0 == vc_peek(v) && s1 == vc_peek(reinterpret_cast<u64 const*>(v) + 1) && s2 == vc_peek(reinterpret_cast<u64 const*>(v) + 2), "the variant is unchanged");
        if (test) { vc_assert(answer == can, "the test answers whether the content can be viewed as the type"); if (answer) vc_cover("is"); else vc_cover("is not"); return; }
        if (empty) vc_assert(data ? p == nullptr : got == Got::cast, "an empty variant never grants access");
        void const *q = can ? place() : nullptr;
        if (data) { vc_assert(got == Got::value, "the pointer form raises nothing"); vc_assert(p == q, "the pointer form gives the contained object, its base part or null"); }
        else if (!q) vc_assert(got == Got::cast, "otherwise a cast error is raised");
        else { vc_assert(got == Got::value, "access succeeds exactly when the content can be viewed as the type"); vc_assert(p == q, "the reference designates the contained object or its base part"); }
        if (q) { if (same()) vc_cover("granted"); else vc_cover("granted to a base"); } else vc_cover("refused");
    }
    // values: a copy of the content or of its base part, else what a converter makes of the content
    void values(Op op)
    {
        using V = std::remove_cv_t<T>;
        begin();
        auto &v1 = *v; auto const &v2 = *v;
        vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)&s_convert<V>); conv_target = to<T>();
        if (tracked && (op == CONVERT || op == TRY)) vc_assume(!inside);   // (moving out of place: C11)
        V *content = static_cast<V*>(vc_alloc(sizeof(V))), *part = static_cast<V*>(vc_alloc(sizeof(V)));
        if constexpr(tracked) { ::new (content) V(vc_any64()); ::new (part) V(vc_any64()); }
        if (!inside) where = content;
        else { if constexpr(tracked) { ::new (&v->storage) V(vc_any64()); } }
        elements = vc_any_obj();
        if constexpr(cls) if (instance) { instance = vc_any_obj(); base_part = part; }
        if (same() && !empty) { if constexpr(std::is_pointer_v<V>) if (!arr(desc[0])) elements = *static_cast<void *const *>(where); }
        u64 from = op == TO_C || op == CAN_C ? 3 : 1;
        bool can = viewed(from, to<T>());
        V want{}; 
        s_value(want, can);
        u64 live = n_live, heap = vc_live_heap();
        u64 s0 = vc_peek(v), s1 = vc_peek(reinterpret_cast<u64 const*>(v) + 1), s2 = vc_peek(reinterpret_cast<u64 const*>(v) + 2);
        bool answer = false; Got got = Got::value; V *made = nullptr; V *r = static_cast<V*>(vc_alloc(sizeof(V)));
        (void)made;
        if (op == CAN) answer = v1.template canConvert<T>(); else if (op == CAN_C) answer = v2.template canConvert<T>(); else if (op == TRY) answer = v1.template tryConvert<T>();
        else got = outcome([&] { if (op == TO) ::new (r) V(v1.template to<T>()); else if (op == TO_C) ::new (r) V(v2.template to<T>()); else v1.template convert<T>(); });
        bool ok = can || (!empty && has_conv && conv_ok);
        vc_assert(n_conv == u64(op != CAN && op != CAN_C && !empty && !can), "a converter is asked once, and only when the content cannot be viewed as the type");
        bool keeps = op == TO || op == TO_C || op == CAN || op == CAN_C || !ok;
        if (keeps) vc_assert(n_other == 0 && n_destroyed == 0 && s0 == vc_peek(v) && s1 == vc_peek(reinterpret_cast<u64 const*>(v) + 1) && s2 == vc_peek(reinterpret_cast<u64 const*>(v) + 2), "the variant is unchanged");
        if (op == CAN || op == CAN_C) { vc_assert(answer == (can || (!empty && has_conv)), "the test answers whether there is a view or a converter"); vc_assert(n_live == live && vc_live_heap() == heap, "testing makes nothing"); vc_cover("asked"); return; }
        if (op == TRY) vc_assert(answer == ok, "the try form answers whether the conversion succeeds");
        else vc_assert(got == (ok ? Got::value : Got::convert), "otherwise a conversion error is raised");
        if (!ok) { vc_assert(n_live == live && vc_live_heap() == heap, "a failed conversion leaves nothing behind"); vc_cover("refused"); return; }
        if (op == TO || op == TO_C) {
            vc_assert(equal(*r, want), "the value is the content's, its base part's or the converter's");
            if constexpr(tracked) vc_assert(n_live == live + 1, "one object is made");
            vc_assert(vc_live_heap() == heap, "no storage is kept");
        } else {
            vc_assert(n_destroyed == 1 || empty, "the old content is destroyed once");
            vc_assert(v->typeId() == metaTypeId<V>(), "the variant now holds a value of the type");
            vc_assert(equal(*static_cast<V const*>(v->manager->f_access(v->storage)), want), "the value converted");
        }
        if (can) { if (same()) vc_cover("content"); else vc_cover("base part"); } else vc_cover("converter");
    }
};
}
#define ASK(name, ...) \
  CONTRACT(is_##name) { Ask<__VA_ARGS__>{}.run(vc_choice() ? IS : IS_C); } \
  CONTRACT(ref_##name) { Ask<__VA_ARGS__>{}.run(vc_choice() ? REF : vc_choice() ? REF_C : vc_choice() ? REF_R : RREF); } \
  CONTRACT(cref_##name) { Ask<__VA_ARGS__>{}.run(vc_choice() ? CREF : CREF_C); } \
  CONTRACT(data_##name) { Ask<__VA_ARGS__>{}.run(vc_choice() ? DATA : DATA_C); }
#define TO(name, ...) \
  CONTRACT(to_##name) { Ask<__VA_ARGS__>{}.values(vc_choice() ? TO : TO_C); } \
  CONTRACT(can_##name) { Ask<__VA_ARGS__>{}.values(vc_choice() ? CAN : CAN_C); } \
  CONTRACT(convert_##name) { Ask<__VA_ARGS__>{}.values(vc_choice() ? CONVERT : TRY); }
namespace { enum class Color: int { red }; }
ASK(word, u64)
ASK(const_word, u64 const)
ASK(klass, Small)
ASK(const_class, Small const)
ASK(class_pointer, Small*)
ASK(pointer_to_const_class, Small const*)
ASK(word_pointer, u64*)
ASK(pointer_to_const_word, u64 const*)
ASK(const_pointer, u64* const)
ASK(pointers, u64 const *const *)
ASK(class_pointers, Small**)
ASK(words, u64[2])
ASK(const_words, u64 const[2])
ASK(classes, Small[3])
ASK(class_pointer_array, Small*[2])
ASK(pointer_to_const_array, u64 const*[2])
ASK(matrix, u64[2][3])
ASK(pointer_to_array, u64(*)[3])
ASK(enumeration, Color)
CONTRACT(is_reference) { Ask<u64&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_const_reference) { Ask<u64 const&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_rvalue) { Ask<u64&&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_class_reference) { Ask<Small&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_const_class_reference) { Ask<Small const&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_pointer_reference) { Ask<Small*&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_pointer_const_reference) { Ask<Small const *const&>{}.run(vc_choice() ? IS : IS_C); }
CONTRACT(is_array_reference) { Ask<u64(&)[2]>{}.run(vc_choice() ? IS : IS_C); }
TO(word, u64)
TO(klass, Small)
TO(class_pointer, Small*)
TO(pointer_to_const_class, Small const*)
TO(word_pointer, u64*)
TO(pointer_to_const_word, u64 const*)
TO(pointers, u64 const *const *)
TO(enumeration, Color)

// --- contents of each C++ type, seen as each C++ type of a family: the language decides what may be viewed as what ----------------------
namespace {
template<class...> struct Types {};
using Family = Types<u64, u64*, u64 const*, u64**, u64 const**, u64 *const*, u64 const *const*, u64[2], u64[3], u64*[2], u64 const*[2], u64[2][3], u64(*)[3], u64 const(*)[3], Small, Small*, Small const*, Small[2], Pod, Color, unsigned char>;
// whether an lvalue of type U may be seen as a T&; arrays also as shorter arrays and, as constants, as pointers to their elements
template<class U, class T> constexpr bool seen()
{
    if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false;
    else if constexpr(std::is_array_v<U> && std::is_array_v<T>) return std::is_convertible_v<std::remove_extent_t<U>(&)[1], std::remove_extent_t<T>(&)[1]> && std::extent_v<T> <= std::extent_v<U>;
    else return std::is_convertible_v<U&, T&>;
}
template<class U, class T> constexpr bool made() { if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false; else return std::is_convertible_v<U&, T>; }
template<class U> struct Holding {
    using E = std::remove_all_extents_t<U>;
    static U* source() { auto p = static_cast<std::remove_cv_t<E>*>(vc_alloc(sizeof(U))); if constexpr(std::is_same_v<std::remove_cv_t<E>, Small>) for (std::size_t i = 0; i < sizeof(U) / sizeof(E); ++i) ::new (p + i) Small(vc_any64()); return reinterpret_cast<U*>(p); }
    static void const* held(variant const &v) { auto p = v.raw_data_ptr(); if constexpr(std::is_array_v<U>) return *static_cast<void const *const *>(p); else return p; }
    template<class F> static void const* got(F f) { try { return f(); } catch (bad_variant_cast&) { return nullptr; } }
    template<class T> static void as(variant &v) {
        variant const &c = v; using R = U; using RC = std::add_const_t<U>; using TC = std::add_const_t<T>;
        void const *at = std::is_array_v<U> && !std::is_array_v<T> ? v.raw_data_ptr() : held(v);
        auto want = [at](bool ok) { return ok ? at : nullptr; };
        vc_assert(got([&]() -> void const* { return std::addressof(v.ref<T>()); }) == want(seen<R, T>()), "a mutable reference is given exactly when the language allows it");
        vc_assert(got([&]() -> void const* { return std::addressof(v.cref<T>()); }) == want(seen<R, TC>()), "so is a constant one");
        vc_assert(got([&]() -> void const* { return std::addressof(c.ref<T>()); }) == want(seen<RC, TC>()), "a const variant gives only constant references");
        vc_assert(got([&]() -> void const* { return std::addressof(c.cref<T>()); }) == want(seen<RC, TC>()), "in both forms");
        vc_assert(v.data<T>() == want(seen<R, T>()) && c.data<T>() == want(seen<RC, TC>()), "the pointer form agrees");
        vc_assert(v.is<T&>() == seen<R, T>() && v.is<TC&>() == seen<R, TC>() && c.is<T&>() == seen<RC, T>() && c.is<TC&>() == seen<RC, TC>(), "the test form agrees");
        if constexpr(!std::is_array_v<T>) { vc_assert(v.is<T>() == made<R, T>() && c.is<T>() == made<RC, T>(), "a value can be made exactly when the language allows it"); vc_assert(v.canConvert<T>() == made<R, T>(), "or a converter is there"); }
        vc_assert(v.typeId() == metaTypeId<U>() && held(v) != nullptr, "the variant is unchanged");
    }
    template<class... T> static void every(Types<T...>, variant &v) { (as<T>(v), ...); }
    static void all(u64 how) {
        life_begin(); auto s = source(); auto v = static_cast<variant*>(vc_alloc(sizeof(variant)));
        if constexpr(!std::is_const_v<U>) if (how == 0) ::new (v) variant(*s);
        if (how == 1) ::new (v) variant(std::ref(*s));
        every(Family{}, *v); vc_cover("reached");
    }
};
}
#define HOLD(name, ...) CONTRACT(value_##name) { Holding<__VA_ARGS__>::all(0); } CONTRACT(referred_##name) { Holding<__VA_ARGS__>::all(1); } CONTRACT(const_##name) { Holding<std::add_const_t<__VA_ARGS__>>::all(1); }
HOLD(word, u64)
HOLD(pointer, u64*)
HOLD(to_const, u64 const*)
HOLD(two_levels, u64**)
HOLD(two_const, u64 const**)
HOLD(const_middle, u64 *const*)
HOLD(words, u64[2])
HOLD(more_words, u64[3])
HOLD(pointer_array, u64*[2])
HOLD(pointer_to_const_array, u64 const*[2])
HOLD(matrix, u64[2][3])
HOLD(pointer_to_array, u64(*)[3])
HOLD(klass, Small)
HOLD(class_pointer, Small*)
HOLD(class_to_const, Small const*)
HOLD(classes, Small[2])
HOLD(enumeration, Color)

// --- what a content says about its class ----------------------------------------------------------------------------------------------------
namespace {
struct Virtual { virtual ~Virtual() = default; u64 a; DECLARE_CLASSINFO };
struct Second { virtual ~Second() = default; u64 b; };
struct Deep: Second, Virtual { u64 c; DECLARE_CLASSINFO };
bool says(variant const &v, MetaType_ID id, void const *p) { auto i = v.classInfo(); return i.typeId == id && i.instance == p; }
}
CONTRACT(class_of_content)
{
    life_begin();
    auto s = static_cast<Small*>(vc_alloc(sizeof(Small))); ::new (s) Small(vc_any64()); auto b = static_cast<BigX*>(vc_alloc(sizeof(BigX))); ::new (b) BigX(vc_any64());
    variant v{*s}; vc_assert(says(v, metaTypeId<Small>(), v.raw_data_ptr()), "a class content is reported where it lies");
    variant w{*b}; vc_assert(says(w, metaTypeId<BigX>(), w.raw_data_ptr()), "also when kept on the heap");
    variant r{std::ref(*s)}; vc_assert(says(r, metaTypeId<Small>(), s), "one referred to is reported where it lies"); variant cr{std::cref(*b)}; vc_assert(says(cr, metaTypeId<BigX>(), b), "also as a constant");
    variant p{s}; vc_assert(says(p, metaTypeId<Small>(), s), "a pointer leads to its object"); Small const *const cp = s; variant q{cp}; vc_assert(says(q, metaTypeId<Small>(), s), "also a pointer to const");
    variant rp{std::ref(cp)}; vc_assert(says(rp, metaTypeId<Small>(), s), "also one referred to");
    Small *none = nullptr; variant n{none}; vc_assert(says(n, metaTypeId<Small>(), nullptr), "a null pointer has its static class");
    variant e; vc_assert(says(e, MetaType_ID{}, nullptr), "an empty variant has none"); variant i{vc_any64()}; vc_assert(says(i, MetaType_ID{}, nullptr), "nor has a number");
    Small **pp = &none; variant d{pp}; vc_assert(says(d, MetaType_ID{}, nullptr), "nor a pointer to a pointer");
    auto a = reinterpret_cast<Small(*)[1]>(s); variant ar{std::ref(*a)}; vc_assert(says(ar, MetaType_ID{}, nullptr), "nor an array");
}
CONTRACT(dynamic_class_of_content)
{
    Deep *d = ::new (vc_alloc(sizeof(Deep))) Deep; Virtual *b = d; Virtual *o = ::new (vc_alloc(sizeof(Virtual))) Virtual;
    variant v{b}; vc_assert(says(v, metaTypeId<Deep>(), d), "a pointer leads to the most derived object"); variant r{std::ref(*b)}; vc_assert(says(r, metaTypeId<Deep>(), d), "so does a reference");
    variant c{std::cref(*b)}; vc_assert(says(c, metaTypeId<Deep>(), d), "and a constant one"); variant rp{std::ref(b)}; vc_assert(says(rp, metaTypeId<Deep>(), d), "and a reference to a pointer");
    variant x{o}; vc_assert(says(x, metaTypeId<Virtual>(), o), "an object of the class itself is reported as such");
    Virtual *none = nullptr; variant n{none}; vc_assert(says(n, metaTypeId<Virtual>(), nullptr), "a null pointer has its static class");
}
