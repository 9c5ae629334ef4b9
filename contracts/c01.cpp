// C01: type id, name and descriptor are in one-to-one correspondence.
#include "types.h"
using namespace vc;

struct Args { std::string_view name; u64 size, decay; std::uint16_t arity, mask; TypeFlags flags; metatype_manager_t const *manager; };
static Args any_args(std::string_view name)
{
    return {name, vc_any64(), vc_any64(), vc_any16(), vc_any16(), TypeFlags(vc_any32()), static_cast<metatype_manager_t const*>(vc_any_ptr())};
}
// what registering does to an arbitrary registry
template<class Reg> void registers(CustomTypes &t, Reg reg)
{
    auto v = any_types(t);
    auto a = any_args(nonempty_view());
    u64 id = sid(a.name);
    u64 other = vc_any64(); vc_hint(other); vc_assume(other != id);   // any other registered name
    auto onode = type_lookup(v.names, other);
    auto was = type_lookup(v.names, id);
    auto old = was ? was->second : nullptr;
    if (was) {
        vc_cover("taken");
        Desc before{old};
        auto r = reg(a);
        vc_assert(r == old, "registering a taken name returns the descriptor that carries it");
        vc_assert(before.same(), "the first descriptor is left unchanged");
        vc_assert(t.m_names.vc_count == v.count && t.m_items._M_impl._M_head._M_next == v.head, "registering a taken name adds nothing");
        auto node = type_lookup(t.m_names.vc_id, id);
        vc_assert(node && node->second == old, "the name still names its descriptor");
    } else if (onode) {
        vc_cover("new, others present");
        auto od = onode->second; Desc before{od};
        auto r = reg(a);
        vc_assert(r != od, "a different name gets a different descriptor");
        vc_assert(before.same(), "no later registration changes an existing descriptor");
        auto node = type_lookup(t.m_names.vc_id, other);
        vc_assert(node && node->second == od, "no later registration moves an existing descriptor");
    } else {
        vc_cover("new");
        auto r = reg(a);
        vc_assert(r != nullptr, "a new name gets a descriptor");
        vc_assert(vc_is_heap(r) && !vc_is_freed(r), "a new name gets a new descriptor, in storage that lives on");
        vc_assert(sid(r->name) == id && r->size == a.size && r->arity == a.arity && r->const_mask == a.mask && r->flags == a.flags && r->manager == a.manager,
                  "the descriptor says what was registered");
        vc_assert(r->decay.value() == (a.decay ? a.decay : u64(r)), "the decayed id is the one registered, or the type itself");
        vc_assert(r->metaClass.load() == nullptr, "a new type has no class");
        auto node = type_lookup(t.m_names.vc_id, id);
        vc_assert(node && node->second == r && sid(node->first) == id, "the name names the new descriptor");
        vc_assert(type_lookup(t.m_names.vc_id, other) == nullptr, "no other name is registered");
        vc_assert(t.getTypeInfo(a.name) == r, "looking the name up gives the descriptor");
        vc_assert(t.getTypeInfo(t.getTypeId(r)) == r, "looking the id up gives the descriptor");
    }
}
CONTRACT(register_type)
{
    auto &t = *make<CustomTypes>();
    registers(t, [&](Args const &a) { return t.addTypeInfo(a.name, a.size, MetaType_ID{a.decay}, a.arity, a.mask, a.flags, a.manager); });
}
CONTRACT(register_empty_name)
{
    auto &t = *make<CustomTypes>();
    auto v = any_types(t);
    auto a = any_args(std::string_view{static_cast<const char*>(vc_any_ptr()), 0});
    vc_assert(t.addTypeInfo(a.name, a.size, MetaType_ID{a.decay}, a.arity, a.mask, a.flags, a.manager) == nullptr, "an empty name registers nothing");
    vc_assert(t.m_names.vc_id == v.names && t.m_names.vc_count == v.count && t.m_items._M_impl._M_head._M_next == v.head, "an empty name leaves the registry alone");
    vc_cover("reached");
}
CONTRACT(lookup_type)
{
    auto &t = *make<CustomTypes>();
    auto v = any_types(t);
    auto name = any_view(); u64 id = sid(name); vc_hint(id);
    auto r = t.getTypeInfo(name);
    auto node = type_lookup(v.names, id);
    if (node) { vc_cover("found"); vc_assert(r == node->second, "a registered name gives its descriptor"); }
    else { vc_cover("missing"); vc_assert(r == nullptr, "an unregistered name gives an invalid type"); }
    vc_assert(t.m_names.vc_id == v.names && t.m_names.vc_count == v.count, "lookup changes nothing");
}
CONTRACT(id_is_one_to_one)
{
    auto &t = *make<CustomTypes>();
    auto a = static_cast<TypeInfo const*>(vc_any_ptr()), b = static_cast<TypeInfo const*>(vc_any_ptr());
    vc_assert(t.getTypeInfo(t.getTypeId(a)) == a, "the id leads back to its descriptor");
    vc_assert((t.getTypeId(a) == t.getTypeId(b)) == (a == b), "different descriptors have different ids");
    vc_assert(t.getTypeId(a).valid() == (a != nullptr), "only the missing descriptor has the invalid id");
    vc_cover("reached");
}

// --- the public face ---------------------------------------------------------------------------------------------------------
static CustomTypes& the_types() { return *customTypes(); }
CONTRACT(public_register)
{
    auto &t = the_types();
    registers(t, [&](Args const &a) {
        auto id = MetaType::registerMetaType(a.name, a.size, MetaType_ID{a.decay}, a.arity, a.mask, a.flags, a.manager);
        MetaType byId{id}, byName{a.name};
        vc_assert(id.valid() && byId.m_typeInfo == byName.m_typeInfo && byId.typeId() == id, "name and id lead to the same type");
        return byId.m_typeInfo;
    });
}
CONTRACT(public_register_empty)
{
    auto a = any_args(std::string_view{static_cast<const char*>(vc_any_ptr()), 0});
    auto id = MetaType::registerMetaType(a.name, a.size, MetaType_ID{a.decay}, a.arity, a.mask, a.flags, a.manager);
    vc_assert(!id.valid(), "an empty name yields the invalid id");
    vc_assert(!MetaType{id}.valid() && !MetaType{a.name}.valid(), "the invalid id and the empty name give an invalid type");
    vc_cover("reached");
}
CONTRACT(public_lookup_by_name)
{
    auto &t = the_types(); auto v = any_types(t);
    auto name = any_view(); u64 id = sid(name); vc_hint(id);
    MetaType m{name};
    auto node = type_lookup(v.names, id);
    if (node) { vc_cover("found"); vc_assert(m.valid() && m.m_typeInfo == node->second && m.typeId().value() == u64(node->second), "a registered name gives its type"); }
    else { vc_cover("missing"); vc_assert(!m.valid(), "an unregistered name gives an invalid type"); }
}
CONTRACT(public_queries)
{
    the_types();
    auto d = static_cast<TypeInfo*>(vc_any_obj());
    MetaType m{MetaType_ID{u64(d)}};
    vc_assert(m.valid() && m.typeId().value() == u64(d), "a type is its id's type");
    vc_assert(m.typeName().data() == d->name.data() && m.typeName().size() == d->name.size(), "the name is the descriptor's");
    vc_assert(m.typeSize() == d->size, "the size is the descriptor's");
    vc_assert(m.typeFlags() == d->flags, "the flags are the descriptor's");
    vc_assert(m.pointerArity() == d->arity, "the arity is the descriptor's");
    vc_assert(m.decayId() == d->decay, "the decayed id is the descriptor's");
    vc_assert(m.decayed() == (d->decay.value() == u64(d)), "a type is decayed when it is its own decayed type");
    vc_assert(m.metaClass() == d->metaClass.load(), "the class is the descriptor's");
    // the trait queries read the flags
    auto f = u64(d->flags); auto has = [&](TypeFlags x) { return (f & u64(x)) != 0; };
    bool ptr = has(TypeFlags::Pointer);
    vc_assert(m.isConst() == has(TypeFlags::Const), "isConst"); vc_assert(m.isLvalueReference() == has(TypeFlags::LvalueReference), "isLvalueReference");
    vc_assert(m.isRvalueReference() == has(TypeFlags::RvalueReference), "isRvalueReference");
    vc_assert(m.isReference() == (has(TypeFlags::LvalueReference) || has(TypeFlags::RvalueReference)), "isReference");
    vc_assert(m.isClass() == (has(TypeFlags::Class) && !ptr), "isClass"); vc_assert(m.isPointer() == ptr, "isPointer");
    vc_assert(m.isVoidPtr() == (has(TypeFlags::Void) && ptr), "isVoidPtr");
    vc_assert(m.isClassPtr() == (has(TypeFlags::Class) && ptr && d->arity == 1), "isClassPtr");
    vc_assert(m.isFunctionPtr() == (has(TypeFlags::Function) && ptr && d->arity == 1), "isFunctionPtr");
    vc_assert(m.isArray() == (has(TypeFlags::Array) && !ptr), "isArray");
    vc_cover("reached");
}
static void neutral(MetaType m)
{
    vc_assert(!m.valid(), "the type is invalid");
    vc_assert(!m.typeId().valid() && !m.decayId().valid(), "its ids are invalid");
    vc_assert(m.typeName() == "void", "its name is void");
    vc_assert(m.typeSize() == 0 && m.pointerArity() == 0, "its size and arity are 0");
    vc_assert(m.typeFlags() == TypeFlags::Void, "its only flag is Void");
    vc_assert(m.metaClass() == nullptr, "it has no class");
    vc_assert(!m.decayed(), "it is not decayed");
    MetaType any{MetaType_ID{vc_any64()}};
    vc_assert(!MetaType::compatible(m, any) && !MetaType::compatible(any, m), "it is compatible with nothing");
    vc_assert(!m.isConst() && !m.isReference() && !m.isClass() && !m.isPointer() && !m.isArray() && !m.isVoidPtr() && !m.isClassPtr() && !m.isFunctionPtr(), "it has no traits");
    vc_assert(m.construct(vc_any_ptr(), vc_any_bool()) == nullptr, "it constructs nothing");
    m.destruct(vc_any_ptr());
}
CONTRACT(invalid_type) { neutral(MetaType{}); vc_cover("reached"); }
CONTRACT(invalid_id) { neutral(MetaType{MetaType_ID{}}); vc_cover("reached"); }
CONTRACT(after_destruction)
{
    CustomTypes::Destroyed = true;
    auto a = any_args(any_view());
    vc_assert(!MetaType::registerMetaType(a.name, a.size, MetaType_ID{a.decay}, a.arity, a.mask, a.flags, a.manager).valid(), "a destroyed registry registers nothing");
    vc_assert(!MetaType{a.name}.valid() && !MetaType{MetaType_ID{vc_any64()}}.valid(), "a destroyed registry finds nothing");
    vc_cover("reached");
}
