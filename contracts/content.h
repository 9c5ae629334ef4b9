// A variant of any content (C13, C15): see the comment below.
#pragma once
#include "life.h"
#include "c03_spec.h"
using namespace vc;
using rtti::internal::variant_function_table; using rtti::internal::variant_type_storage; using rtti::internal::type_attribute; using rtti::internal::variant_function_table_for;

// --- any content ------------------------------------------------------------------------------------------------------------------------
// Its type U is known by four descriptors (U, U&, U&&, U const&) that agree with each other as C02 states, and by nothing else; where the
// content lies, what class it reports and how that class relates to others are arbitrary.
namespace {
TypeInfo *desc[4]; u64 n_other, n_destroyed; void const *where, *elements; u64 info_id; void const *instance;
// a class descriptor is only a name here
MetaClass *from_class, *to_class; MetaType_ID to_class_id; bool inherits; void const *base_part;
bool has_conv, conv_ok, conv_throws; u64 conv_value, n_conv; TypeInfo const *conv_target;

struct Content {
    static MetaType_ID type(type_attribute a) { return MetaType_ID{u64(desc[u64(a) & 3])}; }
    // the content or, for arrays, the place of a pointer to its elements
    static void const* access(variant_type_storage const &) { if (arr(static_cast<TypeInfo const*>(desc[0]))) return &elements; return where; }
    static void cc(void const *, variant_type_storage &) { ++n_other; }
    static void mc(void *, variant_type_storage &) { ++n_other; }
    static void copy(variant_type_storage const &, variant_type_storage &) { ++n_other; }
    static void move(variant_type_storage &s, variant_type_storage &d) { d = s; }
    static void destroy(variant_type_storage &) { ++n_destroyed; }
    static bool eq(variant_type_storage const &, void const *) { ++n_other; return false; }
    static ClassInfo info(variant_type_storage const &) { return ClassInfo{MetaType_ID{info_id}, instance}; }
    static variant_function_table const* get() { return make<variant_function_table>(&type, &access, &cc, &mc, &copy, &move, &destroy, &eq, &info); }
};

void any_content_type()
{
    u64 size = vc_any64(), arity = vc_any64(), mask = vc_any64(), decay = vc_any64(), flags = vc_any64();
    vc_assume(arity <= 14 && mask <= 0xFFFF && flags <= 0xFFFFFFFF && decay != 0);
    u64 const refs = u64(TypeFlags::LvalueReference) | u64(TypeFlags::RvalueReference);
    vc_assume((flags & refs) == 0);
    for (u64 k = 0; k < 4; ++k) {
        auto t = desc[k] = input<TypeInfo>();
        u64 f = k == 1 ? flags | u64(TypeFlags::LvalueReference) : k == 2 ? flags | u64(TypeFlags::RvalueReference) : k == 3 ? flags | u64(TypeFlags::LvalueReference) | u64(TypeFlags::Const) : flags;
        u64 m = k == 3 ? mask | (u64(1) << arity) : mask;
        vc_assume(t->size == size && t->arity == arity && t->const_mask == m && t->decay.value() == decay && u64(std::uint32_t(t->flags)) == f);
    }
}
bool s_compatible(TypeInfo const *f, TypeInfo const *t) { return f && t && spec(f, t); }
MetaClass const* s_find(MetaType_ID id)
{
    if (id == to_class_id) return id.value() == info_id ? from_class : to_class;
    vc_assert(id.value() == info_id, "the class looked up is the content's or the requested one"); return from_class;
}
// (MetaClass::find(id) and MetaType{id}.metaClass() are the same: C09)
MetaClass const* s_class(MetaType const *t) { auto id = reinterpret_cast<MetaType_ID const&>(*t); return id.value() ? s_find(id) : nullptr; }
bool s_inherited(MetaClass const *c, MetaClass const *b) { if (!b) return false; vc_assert(c == from_class && b == to_class, "the content's class is asked"); return inherits; }
void const* s_cast(MetaClass const *c, MetaClass const *b, void const *p)
{
    if (!b) return nullptr;
    vc_assert(c == from_class && b == to_class && p == instance, "the content is cast from its own class");
    return inherits ? base_part : nullptr;
}
bool s_has(TypeInfo const *f, TypeInfo const *t) { return f && t && has_conv; }
template<class T> bool s_convert(void const *from, TypeInfo const *f, void *to, TypeInfo const *t)
{
    ++n_conv;
    vc_assert(from == Content::access(variant_type_storage{}), "the content is converted");
    vc_assert(f->decay == desc[0]->decay && t == conv_target, "from its type to the requested one");
    if (!has_conv || !conv_ok) return false;
    ::new (to) T(T(conv_value)); return true;
}
std::string s_text(std::string_view) { return std::string{"?"}; }
enum class Got { value, cast, convert, other };
template<class F> Got outcome(F f)
{
    try { f(); return Got::value; } catch (bad_variant_convert&) { return Got::convert; } catch (bad_variant_cast&) { return Got::cast; } catch (...) { return Got::other; }
}

// what the C++ type a content of decayed type D has can look like (C02)
template<class D> void shapes(TypeInfo const *t)
{
    bool a = arr(t);
    if (a) vc_assume(std::is_pointer_v<D> && t->arity + 1u == pointer_arity_v<D>);
    else {
        vc_assume(t->arity == pointer_arity_v<D> && fl(t, TypeFlags::Pointer) == std::is_pointer_v<D>);
        vc_assume(fl(t, TypeFlags::Class) == std::is_class_v<base_type_t<D>>);
    }
}
template<class T> struct AnyContent {
    using D = full_decay_t<T>; using C = std::remove_pointer_t<D>;
    using R = std::remove_reference_t<T>;
    static constexpr bool cls = std::is_class_v<D>, ptr = is_class_ptr_v<D>;
    variant *v; u64 d; void const *at; bool empty, inside;
    void begin()
    {
        life_begin();
        n_other = n_destroyed = n_conv = 0;
        any_content_type();
        to_class_id = metaTypeId<C>();
        if (desc[0]->decay == metaTypeId<D>()) shapes<D>(desc[0]);
        v = input<variant>(); empty = vc_choice(); inside = false;
        if (empty) v->manager = variant_function_table_for<void>();
        else {
            v->manager = Content::get();
            inside = vc_choice();
            where = inside ? static_cast<void const*>(&v->storage) : vc_any_obj(); elements = vc_any_obj();
        }
        info_id = vc_any64(); instance = vc_any_ptr();
        from_class = static_cast<MetaClass*>(vc_any_ptr()); to_class = static_cast<MetaClass*>(vc_any_ptr());
        vc_assume(info_id != to_class_id.value() || from_class == to_class);
        inherits = vc_any_bool(); vc_assume(inherits || from_class != to_class);
        base_part = vc_any_ptr();
        // C09: a cast moves a pointer to its base part, and null to null
        vc_assume((instance == nullptr) == (base_part == nullptr));
        // only a class pointer can point nowhere
        vc_assume(info_id == 0 || !fl(desc[0], TypeFlags::Class) || fl(desc[0], TypeFlags::Pointer) || instance != nullptr);
        if (inside && ptr) { v->storage.ptr = const_cast<void*>(instance); }
        vc_replace("rtti::MetaType::compatible", (void*)&s_compatible);
        vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&s_find);
        vc_replace("rtti::MetaType::metaClass() const", (void*)&s_class);
        vc_replace("rtti::MetaClass::inheritedFrom", (void*)&s_inherited);
        vc_replace("rtti::MetaClass::cast(rtti::MetaClass const*, void const*) const", (void*)&s_cast);
        vc_replace("rtti::MetaType::hasConverter(rtti::MetaType, rtti::MetaType)", (void*)&s_has);
        has_conv = vc_any_bool(); conv_ok = vc_any_bool(); conv_value = vc_any64();
    }
    // the content as a T, given the descriptor it is seen through
    bool derived() const {
        if constexpr(cls || ptr) {
            auto t = desc[0]; bool shape = cls ? fl(t, TypeFlags::Class) && !fl(t, TypeFlags::Pointer) : fl(t, TypeFlags::Class) && fl(t, TypeFlags::Pointer) && t->arity == 1;
            return shape && info_id != 0 && from_class && to_class && inherits;
        } else return false;
    }
    bool same() const { return desc[0]->decay == metaTypeId<D>(); }
    bool viewed(u64 from, TypeInfo const *to) const { return !empty && spec(const_cast<TypeInfo const*>(desc[from]), to) && (same() || derived()); }
    // where the reference leads; null: refused
    void const* place() const {
        if (same()) { if constexpr(std::is_array_v<R>) return elements; else return Content::access(v->storage); }
        if constexpr(cls) return base_part;
        else return inside && base_part == instance ? static_cast<void const*>(&v->storage) : nullptr;
    }
    template<class To> static TypeInfo const* to() { return reinterpret_cast<TypeInfo const*>(metaTypeId<To>().value()); }
    static constexpr bool tracked = std::is_class_v<std::remove_cv_t<T>>;
    static bool equal(std::remove_cv_t<T> const &a, std::remove_cv_t<T> const &b) { if constexpr(tracked) return a.v == b.v; else return a == b; }
    void s_value(std::remove_cv_t<T> &want, bool can) const
    {
        using V = std::remove_cv_t<T>;
        if constexpr(std::is_pointer_v<V>) {
            if (!can) want = reinterpret_cast<V>(conv_value);
            else if (same()) want = static_cast<V>(const_cast<void*>(elements));
            else want = static_cast<V>(const_cast<void*>(base_part));
        } else if constexpr(tracked) want.v = !can ? conv_value : same() ? static_cast<V const*>(where)->v : static_cast<V const*>(base_part)->v;
        else want = !can ? V(conv_value) : *static_cast<V const*>(where);
    }
};
}
