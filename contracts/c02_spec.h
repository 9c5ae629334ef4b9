// What a type's descriptor must say (C02), from the language's own traits; shared by the contract and the driver.
#pragma once
#include <type_traits>
#include <cstdint>
namespace c02 {
template<class T> struct Shape {                       // neither pointer nor array: the base
    using Base = std::remove_cv_t<T>; using Plain = std::remove_cv_t<T>;
    static constexpr unsigned levels = 0; static constexpr std::uint32_t consts = std::is_const_v<T>;
};
template<class T> struct Ptr {                         // T: what it points to
    using Base = typename Shape<T>::Base; using Plain = typename Shape<T>::Plain*;
    static constexpr unsigned levels = Shape<T>::levels + 1; static constexpr std::uint32_t consts = Shape<T>::consts;
};
template<class T> struct Shape<T*>: Ptr<T> {};
template<class T> struct Shape<T* volatile>: Ptr<T> {};
template<class T> struct Shape<T* const>: Ptr<T> { static constexpr std::uint32_t consts = Ptr<T>::consts | (1u << Ptr<T>::levels); };
template<class T> struct Shape<T* const volatile>: Shape<T* const> {};
// an array shares the levels and consts of its elements
template<class T, std::size_t N> struct Shape<T[N]>: Shape<T> { using Plain = typename Shape<T>::Plain[N]; };
template<class T, std::size_t N> struct Shape<T const[N]>: Shape<T const> { using Plain = typename Shape<T const>::Plain[N]; };
template<class T, std::size_t N> struct Shape<T volatile[N]>: Shape<T volatile> { using Plain = typename Shape<T volatile>::Plain[N]; };
template<class T, std::size_t N> struct Shape<T const volatile[N]>: Shape<T const volatile> { using Plain = typename Shape<T const volatile>::Plain[N]; };
template<class T, class = void> struct Compares: std::false_type {};
template<class T> struct Compares<T, std::void_t<decltype(bool(std::declval<T const&>() == std::declval<T const&>()))>>: std::true_type {};
// the decayed type: no reference, the outermost array a pointer, no const or volatile at any level
template<class T> struct DecayOf { using type = typename Shape<T>::Plain; };
template<class T> struct DecayOf<T&>: DecayOf<T> {};
template<class T> struct DecayOf<T&&>: DecayOf<T> {};
template<class T, std::size_t N> struct DecayOf<T[N]> { using type = typename Shape<T>::Plain*; };
template<class R, class... A> struct DecayOf<R(A...)> { using type = R(*)(A...); };
template<class T> constexpr std::uint32_t flags()
{
    using F = rtti::TypeFlags; using U = std::remove_reference_t<T>; using B = typename Shape<U>::Base;
    using Elem = std::remove_all_extents_t<U>;
    std::uint32_t r = 0; auto set = [&r](bool b, F f) { if (b) r |= std::uint32_t(f); };
    set(std::is_const_v<U>, F::Const); set(std::is_pointer_v<U>, F::Pointer); set(std::is_member_pointer_v<U>, F::MemberPointer);
    set(std::is_lvalue_reference_v<T>, F::LvalueReference); set(std::is_rvalue_reference_v<T>, F::RvalueReference);
    set(std::is_array_v<U> || std::is_array_v<std::remove_pointer_t<U>>, F::Array);
    set(std::is_void_v<B>, F::Void); set(std::is_integral_v<B>, F::Integral); set(std::is_floating_point_v<B>, F::FloatPoint); set(std::is_enum_v<B>, F::Enum); set(std::is_function_v<B>, F::Function);
    set(std::is_union_v<B>, F::Union); set(std::is_class_v<B>, F::Class); set(std::is_standard_layout_v<B>, F::StandardLayout); set(std::is_trivial_v<B>, F::Trivial); set(std::is_abstract_v<B>, F::Abstract); set(std::is_polymorphic_v<B>, F::Polymorphic);
    set(std::is_default_constructible_v<B>, F::DefaultConstructible); set(std::is_copy_constructible_v<B>, F::CopyConstructible); set(std::is_copy_assignable_v<B>, F::CopyAssignable);
    set(std::is_move_constructible_v<B>, F::MoveConstructible); set(std::is_move_assignable_v<B>, F::MoveAssignable); set(std::is_destructible_v<B>, F::Destructible);
    set(Compares<Elem>::value, F::EQ_Comparable);
    return r;
}
template<class T> constexpr std::size_t size() { using U = std::remove_reference_t<T>; if constexpr(std::is_function_v<U>) return 1; else return sizeof(U); }
template<class T> struct Id { using type = T; };
// shapes of a type T
template<class... T> struct List {};
template<class T> using Plainly = List<T, T const, T&, T const&, T&&, T const&&, T volatile, T*, T* const, T const*, T const* const, T*&, T const*&, T *const&, T*&&, T**, T *const*, T const**, T const *const*, T const *const *const, T const **const&, T***, T *const **, T const *const *const *const>;
template<class T> using Arrays = List<T[2], T const[3], T[2][3], T const[2][3], T(&)[2], T const(&)[2], T(&&)[4], T*[2], T const*[2], T *const[2], T const *const[2], T**[2], T(*)[2], T const(*)[2], T(*const)[2], T*(*)[2], T const*(*)[2], T*(&)[3]>;
template<class T> using Pointers = List<T*, T* const, T const*, T const* const, T**, T *const*, T *const&, T*&>;
// what the descriptor of T must say, reported through A(condition, text)
template<class T, class A> void describes(A claim)
{
    using rtti::TypeFlags;
    auto t = rtti::metaType<T>(); using U = std::remove_reference_t<T>; using S = Shape<U>;
    claim(t.valid() && t.typeId() == rtti::metaTypeId<T>() && t.typeId().value() != 0, "the type has an id and a descriptor");
    claim(t.typeSize() == size<T>(), "size");
    claim(t.pointerArity() == S::levels, "pointer levels");
    claim(std::uint32_t(t.typeFlags()) == flags<T>(), "flags");
    using D = typename DecayOf<T>::type;
    claim(t.decayId() == rtti::metaTypeId<D>(), "decayed id"); claim(t.decayed() == std::is_same_v<T, D>, "whether it is decayed");
    claim(t.isConst() == std::is_const_v<U> && t.isLvalueReference() == std::is_lvalue_reference_v<T> && t.isRvalueReference() == std::is_rvalue_reference_v<T> && t.isReference() == std::is_reference_v<T>, "const and reference");
    claim(t.isPointer() == std::is_pointer_v<U> && t.isArray() == std::is_array_v<U>, "pointer and array");
    claim(t.isVoidPtr() == (std::is_pointer_v<U> && std::is_void_v<typename S::Base>), "void pointer");
    claim(t.isFunctionPtr() == (std::is_pointer_v<U> && S::levels == 1 && std::is_function_v<typename S::Base>), "function pointer");
    if constexpr(!std::is_pointer_v<U>) claim(t.isClass() == std::is_class_v<typename S::Base>, "class");
    if constexpr(std::is_pointer_v<U> && !std::is_array_v<std::remove_pointer_t<U>>) claim(t.isClassPtr() == std::is_class_v<std::remove_pointer_t<U>>, "class pointer");
}
}
