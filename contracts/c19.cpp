// C19: names, owners, qualified names and categories.
#include "containers.h"
using namespace vc;

// the owner's qualified name by its contract: one string per item
static std::string const* name_of(MetaItem const *i)
{
    auto p = (char const*)vc_uf(8, u64(i), 0, 0); auto n = vc_uf(9, u64(i), 0, 0);
    vc_assume(p != nullptr); vc_assume(n < (u64(1) << 32));
    return make<std::string>(std::string_view{p, n});
}
static u64 named(MetaItem const *i) { return sid(*name_of(i)); }
struct NoProp final: IPropertyInvoker {
    bool isStatic() const override { return true; } MetaType_ID typeId() const override { return {}; } bool readOnly() const override { return true; }
    variant get_static() const override { return {}; } void set_static(argument) const override {} variant get_field(variant const&) const override { return {}; }
    void set_field(variant&, argument) const override {} void set_field(variant const&, argument) const override {}
};
// an item of every category, and the category it was made as
static MetaItem* an_item(MetaCategory cat, std::string_view name, MetaContainer &owner)
{
    switch (cat) {
    case mcatNamespace: return make<MetaNamespace>(name, owner);
    case mcatClass: return make<MetaClass>(name, owner, MetaType_ID{vc_any64()});
    case mcatProperty: return make<MetaProperty>(name, owner, std::unique_ptr<IPropertyInvoker>{});
    case mcatMethod: return make<MetaMethod>(name, owner, std::unique_ptr<IMethodInvoker>{});
    case mcatEnum: return make<MetaEnum>(name, owner, MetaType_ID{vc_any64()});
    default: return make<MetaConstructor>(name, owner, std::unique_ptr<IConstructorInvoker>{});
    }
}
static void item(MetaCategory cat)
{
    auto owner = static_cast<MetaContainer*>(vc_any_obj());
    auto name = any_view(); u64 id = sid(name);
    MetaItem const *it = an_item(cat, name, *owner);
    vc_assert(it->category() == cat, "an item reports the category it was made as");
    vc_assert(nameid(it) == id, "an item keeps the name it was made with");
    vc_assert(vc_str_is_copy(it->name().data()), "an item owns a copy of its name");
    vc_assert(it->owner() == owner, "an item keeps the owner it was made with");
    vc_recursive("rtti::MetaItem::qualifiedName", (void*)&name_of);
    u64 want = vc_cat(named(owner), vc_cat(vc_sid("::", 2), id));
    auto &q = it->qualifiedName();
    vc_assert(sid(q) == want, "the qualified name is the owner's, two colons and the own name");
    auto &again = it->qualifiedName();
    vc_assert(sid(again) == want && sid(q) == want, "asking again gives the same answer");
    vc_assert(nameid(it) == id && it->owner() == owner && it->category() == cat, "asking for the qualified name changes nothing");
    vc_cover("reached");
}
CONTRACT(in_namespace) { item(mcatNamespace); }
CONTRACT(in_class) { item(mcatClass); }
CONTRACT(in_property) { item(mcatProperty); }
CONTRACT(in_method) { item(mcatMethod); }
CONTRACT(in_enum) { item(mcatEnum); }
CONTRACT(in_constructor) { item(mcatConstructor); }
CONTRACT(namespaces)
{
    auto owner = static_cast<MetaContainer*>(vc_any_obj());
    auto n = make<MetaNamespace>(any_view(), *owner);
    vc_assert(!n->isGlobal(), "a namespace with an owner is not the global one");
    vc_cover("reached");
}
CONTRACT(global)
{
    auto g = MetaNamespace::global();
    vc_assert(g->isGlobal(), "the global namespace reports itself global");
    vc_assert(g->owner() == nullptr, "the global namespace has no owner");
    vc_assert(g->category() == mcatNamespace, "the global namespace is a namespace");
    vc_assert(g->qualifiedName().empty() && g->qualifiedName().empty(), "the global namespace has the empty qualified name");
    vc_assert(MetaNamespace::global() == g, "there is one global namespace");
    vc_cover("reached");
}
// names and owners are fixed for good: nothing done to an item afterwards moves or renames it
CONTRACT(later_changes)
{
    auto owner = static_cast<MetaContainer*>(vc_any_obj());
    auto name = any_view(); u64 id = sid(name);
    auto c = make<MetaNamespace>(name, *owner);
    Box<MetaNamespace> b{c, mcatNamespace};
    auto child_name = nonempty_view(); u64 cid = sid(child_name);
    bool taken = b.taken(cid);
    auto r = MetaNamespace::create(child_name, *c);
    vc_assert(nameid(c) == id && c->owner() == owner, "adding an item renames and moves nothing");
    vc_assert(static_cast<MetaItem*>(r)->category() == mcatNamespace || taken, "a new item has its category");
    if (!taken) { vc_cover("new"); vc_assert(nameid(r) == cid && static_cast<MetaItem*>(r)->owner() == c, "a new item has its name and owner"); }
}
