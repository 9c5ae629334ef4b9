// C05: creating and finding items through their containers.
#include "containers.h"
using namespace vc;

template<class C, class F> void creates(C *c, MetaCategory cat, F f)
{
    Box<C> b{c, cat};
    auto name = nonempty_view();
    u64 id = sid(name);
    bool t = b.taken(id);
    auto r = f(name, *c);
    b.created(r, id, t);
}
CONTRACT(create_namespace) { creates(a_namespace(), mcatNamespace, [](std::string_view n, MetaContainer &o) { return MetaNamespace::create(n, o); }); }
CONTRACT(create_namespace_in_class) { creates(a_class(), mcatNamespace, [](std::string_view n, MetaContainer &o) { return MetaNamespace::create(n, o); }); }
CONTRACT(create_enum) { creates(a_namespace(), mcatEnum, [](std::string_view n, MetaContainer &o) { return MetaEnum::create(n, o, MetaType_ID{vc_any64()}); }); }
CONTRACT(create_enum_in_class) { creates(a_class(), mcatEnum, [](std::string_view n, MetaContainer &o) { return MetaEnum::create(n, o, MetaType_ID{vc_any64()}); }); }


// a member's invoker, of which creation uses the signature only
struct PInv: IPropertyInvoker {
    bool isStatic() const override { return vc_any_bool(); }
    MetaType_ID typeId() const override { return MetaType_ID{vc_any64()}; }
    bool readOnly() const override { return vc_any_bool(); }
    variant get_static() const override { vc_assert(false, "creation does not use the property"); return {}; }
    void set_static(argument) const override { vc_assert(false, "creation does not use the property"); }
    variant get_field(variant const&) const override { vc_assert(false, "creation does not use the property"); return {}; }
    void set_field(variant&, argument) const override { vc_assert(false, "creation does not use the property"); }
    void set_field(variant const&, argument) const override { vc_assert(false, "creation does not use the property"); }
};
template<class B> struct MInv: B {
    std::string_view sig; u64 asked;
    MInv(std::string_view s, u64 a): sig{s}, asked{a} {}
    bool isStatic() const override { return vc_any_bool(); }
    MetaType_ID returnTypeId() const override { return MetaType_ID{vc_any64()}; }
    std::vector<MetaType_ID> parametersTypeId() const override { return {}; }
    std::string signature(std::string_view n) const override { vc_assert(sid(n) == asked, "the signature is made from the given name"); return std::string{sig}; }
    variant invoke_static(argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { vc_assert(false, "creation calls nothing"); return {}; }
    variant invoke_method(variant const&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { vc_assert(false, "creation calls nothing"); return {}; }
    variant invoke_method(variant&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { vc_assert(false, "creation calls nothing"); return {}; }
};

template<class C> void creates_property(C *c)
{
    Box<C> b{c, mcatProperty};
    auto name = any_view();
    u64 id = sid(name);
    PInv *inv = vc_choice() ? new PInv : nullptr;
    if (name.empty() || !inv) {
        auto r = MetaProperty::create(name, *c, std::unique_ptr<IPropertyInvoker>{inv});
        vc_cover("refused");
        vc_assert(!r, "no property is created without a name or an invoker");
        assert_list(*b.v.l, b.v.n, [&](u64 i) { return b.v.at(i); }); b.others();
        return;
    }
    bool t = b.taken(id);
    auto r = MetaProperty::create(name, *c, std::unique_ptr<IPropertyInvoker>{inv});
    b.created(r, id, t);
    if (!t) vc_assert(r->invoker() == inv, "the new property uses the given invoker");
}
CONTRACT(create_property) { creates_property(a_namespace()); }
CONTRACT(create_property_in_class) { creates_property(a_class()); }

// contract of MetaContainerPrivate::findMethod for a full signature (C07 proves it of the real function)
static MetaContainerPrivate const *fm_owner; static MetaCategory fm_cat; static u64 fm_table; static MetaItem **fm_items;
static MetaItem* find_by_signature(MetaContainerPrivate const *d, MetaCategory cat, std::string_view name)
{
    vc_assert(d == fm_owner && cat == fm_cat, "the owner's own items of the category are searched");
    u64 id = sid(name);
    auto node = List::lookup(d->m_lists[cat]->m_names.vc_id, id);
    if (!node) return nullptr;
    return d->m_lists[cat]->m_items[node->second].get();
}
template<class C, class B, class M> void creates_method(C *c, MetaCategory cat, M *(*create)(std::string_view, MetaContainer&, std::unique_ptr<B>))
{
    Box<C> b{c, cat};
    fm_owner = b.d; fm_cat = cat;
    vc_replace("rtti::MetaContainerPrivate::findMethod(", (void*)&find_by_signature);
    auto name = nonempty_view(); auto sig = nonempty_view();
    u64 id = sid(sig);
    auto inv = vc_choice() ? new MInv<B>{sig, sid(name)} : nullptr;
    bool t = b.taken(id);
    auto r = create(name, *c, std::unique_ptr<B>{inv});
    if (!inv) {
        vc_cover("refused");
        vc_assert(!r, "nothing is created without an invoker");
        assert_list(*b.v.l, b.v.n, [&](u64 i) { return b.v.at(i); }); b.others();
        return;
    }
    b.created(r, id, t);
}
CONTRACT(create_method) { creates_method<MetaNamespace, IMethodInvoker, MetaMethod>(a_namespace(), mcatMethod, [](std::string_view n, MetaContainer &o, std::unique_ptr<IMethodInvoker> i) { return MetaMethod::create(n, o, std::move(i)); }); }
CONTRACT(create_method_in_class) { creates_method<MetaClass, IMethodInvoker, MetaMethod>(a_class(), mcatMethod, [](std::string_view n, MetaContainer &o, std::unique_ptr<IMethodInvoker> i) { return MetaMethod::create(n, o, std::move(i)); }); }
CONTRACT(create_constructor) { creates_method<MetaClass, IConstructorInvoker, MetaConstructor>(a_class(), mcatConstructor, [](std::string_view n, MetaContainer &o, std::unique_ptr<IConstructorInvoker> i) { return MetaConstructor::create(n, o, std::move(i)); }); }

// every way of looking an item up reaches the list of the category asked for
template<class C> void lookups(C *c, int which)
{
    MetaCategory cat = MetaCategory(which);
    Box<C> b{c, cat};
    MetaContainer const &k = *c;
    u64 i = vc_any_size(); auto name = nonempty_view(); u64 id = sid(name);
    MetaItem const *byIndex = nullptr, *byName = nullptr; u64 count = 0; bool named = true;
    switch (cat) {
    case mcatNamespace: byIndex = k.getNamespace(std::size_t(i)); byName = k.getNamespace(name); count = k.namespaceCount(); break;
    case mcatClass: byIndex = k.getClass(std::size_t(i)); byName = k.getClass(name); count = k.classCount(); break;
    case mcatProperty: byIndex = k.getProperty(std::size_t(i)); if (cat == mcatProperty && !std::is_same_v<C, MetaClass>) byName = k.getProperty(name); else named = false; count = k.propertyCount(); break;
    case mcatEnum: byIndex = k.getEnum(std::size_t(i)); byName = k.getEnum(name); count = k.enumCount(); break;
    case mcatMethod: byIndex = k.getMethod(std::size_t(i)); named = false; count = k.methodCount(); break;
    default: byIndex = k.getConstructor(std::size_t(i)); named = false; count = k.constructorCount(); break;
    }
    vc_assert(count == b.v.n, "the count is the number of items of the category");
    vc_assert(byIndex == (i < b.v.n ? b.v.at(i) : nullptr), "lookup by index returns the item at that position");
    if (i < b.v.n) vc_cover("index in range");
    if (named) {
        vc_assert(byName == (b.taken(id) ? b.named(id) : nullptr), "lookup by name returns the item of that name");
        if (byName) vc_cover("name found");
    }
    assert_list(*b.v.l, b.v.n, [&](u64 j) { return b.v.at(j); });
    b.others();
}
CONTRACT(lookup_namespace) { lookups(a_namespace(), mcatNamespace); }
CONTRACT(lookup_class) { lookups(a_namespace(), mcatClass); }
CONTRACT(lookup_property) { lookups(a_namespace(), mcatProperty); }
CONTRACT(lookup_method) { lookups(a_namespace(), mcatMethod); }
CONTRACT(lookup_enum) { lookups(a_namespace(), mcatEnum); }
CONTRACT(lookup_constructor) { lookups(a_namespace(), mcatConstructor); }
CONTRACT(lookup_namespace_in_class) { lookups(a_class(), mcatNamespace); }
CONTRACT(lookup_class_in_class) { lookups(a_class(), mcatClass); }
CONTRACT(lookup_property_in_class) { lookups(a_class(), mcatProperty); }
CONTRACT(lookup_method_in_class) { lookups(a_class(), mcatMethod); }
CONTRACT(lookup_enum_in_class) { lookups(a_class(), mcatEnum); }
CONTRACT(lookup_constructor_in_class) { lookups(a_class(), mcatConstructor); }

// iteration over a category, and whether it is there at all
static u64 visits; static bool stopped;
template<class C> void visit(C *c, int which)
{
    MetaCategory cat = MetaCategory(which);
    Box<C> b{c, cat};
    MetaContainer const &k = *c;
    visits = 0; stopped = false;
    bool some = vc_choice();
    auto each = [&](MetaItem const *it) -> bool {
        vc_assert(!stopped, "iteration stops when told to");
        vc_assert(visits < b.v.n, "iteration calls no more often than there are items");
        vc_assert(it == b.v.at(visits), "iteration visits the category's items in registration order");
        ++visits;
        if (vc_any_bool()) { stopped = true; return false; }
        return true;
    };
    auto go = [&](auto f, auto const *item) { using I = decltype(item); using Fn = std::function<bool(I)>; if (some) { Fn fn = [&](I it) { return each(it); }; f(fn); } else { Fn fn; f(fn); } };
    switch (cat) {
    case mcatClass: go([&](auto const &f) { k.for_each_class(f); }, (MetaClass const*)nullptr); break;
    default: go([&](auto const &f) { k.for_each_method(f); }, (MetaMethod const*)nullptr); break;
    }
    if (some) vc_assert(stopped || visits == b.v.n, "iteration visits every item unless told to stop"); else vc_assert(visits == 0, "without a function nothing is visited");
    if (!some) vc_cover("no function"); else if (stopped) vc_cover("stopped"); else vc_cover("complete");
    assert_list(*b.v.l, b.v.n, [&](u64 j) { return b.v.at(j); });
    b.others();
}
#define VISIT(name, cat) CONTRACT(visit_##name) { visit(a_namespace(), cat); } CONTRACT(visit_##name##_in_class) { visit(a_class(), cat); }
VISIT(classes, mcatClass)
VISIT(methods, mcatMethod)
