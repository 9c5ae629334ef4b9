// C10: lazy definitions run exactly once, before the first query's answer is computed; scope-exit actions run exactly once.
#include "bases.h"
#include <rtti/finally.h>
using namespace vc;

struct Boom {};
static MetaContainer *the; static unsigned invoked, destroyed, second; static bool throws, inside;
static void queries();      // queries made while the definition runs
struct Def: IDefinitionCallbackHolder {
    unsigned *count; explicit Def(unsigned *n): count{n} {}
    void invoke(MetaContainer &c) override
    {
        vc_assert(&c == the, "the definition is given its own container");
        ++*count; vc_unguard();
        vc_assert(*count == 1, "a definition never runs a second time");
        if (inside) queries();
        if (throws) { vc_cover("definition throws"); throw Boom{}; }
    }
    ~Def() override { ++destroyed; }
};
template<class C> static void guard_all(C *c)
{
    static int fake;
    auto d = c->MetaContainer::d_func();
    vc_guard(&fake, &d->m_namespaces, sizeof d->m_namespaces); vc_guard(&fake, &d->m_classes, sizeof d->m_classes);
    vc_guard(&fake, &d->m_properties, sizeof d->m_properties); vc_guard(&fake, &d->m_methods, sizeof d->m_methods);
    vc_guard(&fake, &d->m_enums, sizeof d->m_enums); vc_guard(&fake, &d->m_constructors, sizeof d->m_constructors);
    vc_guard(&fake, &d->m_attributes, sizeof d->m_attributes);
    if constexpr (std::is_same_v<C, MetaClass>) {
        auto e = c->MetaClass::d_func();
        vc_guard(&fake, &e->m_baseClasses, sizeof e->m_baseClasses); vc_guard(&fake, &e->m_derivedClasses, sizeof e->m_derivedClasses);
    }
}
static void attach(MetaContainer *c, unsigned *count) { c->setDeferredDefine(std::unique_ptr<IDefinitionCallbackHolder>{new Def{count}}); }
template<class C> static C* lazy(C *c) { the = c; invoked = destroyed = second = 0; throws = inside = false; attach(c, &invoked); guard_all(c); return c; }

// a query of a container with a pending definition, from any state of the container
template<class C, class Q> static void query(C *c0, Q q)
{
    C const *c = lazy(c0);
    throws = vc_any_bool();
    bool threw = false;
    try { q(*c); } catch (Boom&) { threw = true; }
    vc_unguard();
    vc_assert(invoked == 1, "the first query runs the definition, before it reads anything");
    vc_assert(threw == throws, "an error in the definition reaches the query");
    vc_assert(destroyed == 1, "a definition that ran is disposed of once");
    q(*c);
    vc_assert(invoked == 1, "later queries do not run the definition again, whether it returned or threw");
    throws = false;
    attach(c0, &second);
    q(*c);
    vc_assert(second == 1 && destroyed == 2, "another definition attached after one has run runs in turn");
    vc_cover("reached");
}
// the definition makes queries of its own container while it runs
static void (*the_query)();
static void queries() { the_query(); }
template<class C, class Q> static void nested(C *c0, Q q)
{
    static C *c; static Q *qq; c = c0; qq = &q;
    the_query = [] { (*qq)(*const_cast<C const*>(c)); };
    lazy(c0); inside = true;
    q(*const_cast<C const*>(c0));
    vc_unguard();
    vc_assert(invoked == 1, "queries made while the definition runs do not start it again and do not wait for it");
    vc_cover("reached");
}
// the definition is attached to a container on which a definition is running in another thread
#define NS [](MetaContainer const &c)
#define CL [](MetaClass const &c)
#define QUERY(name, expr) \
    CONTRACT(name) { if (vc_choice()) query(a_namespace(), NS { expr; }); else query(a_class(), CL { expr; }); } \
    CONTRACT(name##_inside) { if (vc_choice()) nested(a_namespace(), NS { expr; }); else nested(a_class(), CL { expr; }); }
#define CLASS_QUERY(name, expr) \
    CONTRACT(name) { query(a_class(), CL { expr; }); } \
    CONTRACT(name##_inside) { nested(a_class(), CL { expr; }); }
static std::string_view name() { static std::string_view n = nonempty_view(); return n; }
static u64 index() { return vc_any_size(); }
QUERY(namespace_by_name, c.getNamespace(nonempty_view()))
QUERY(namespace_by_index, c.getNamespace(std::size_t(index())))
QUERY(namespace_count, c.namespaceCount())
QUERY(class_by_name, c.getClass(nonempty_view()))
QUERY(class_by_index, c.getClass(std::size_t(index())))
QUERY(class_count, c.classCount())
QUERY(class_listing, c.for_each_class([](MetaClass const*) { return true; }))
QUERY(constructor_by_name, c.getConstructor(nonempty_view()))
QUERY(constructor_by_index, c.getConstructor(std::size_t(index())))
QUERY(constructor_count, c.constructorCount())
QUERY(constructor_default, c.defaultConstructor())
QUERY(constructor_copy, c.copyConstructor())
QUERY(constructor_move, c.moveConstructor())
QUERY(method_by_name, c.getMethod(nonempty_view()))
QUERY(method_by_index, c.getMethod(std::size_t(index())))
QUERY(method_count, c.methodCount())
QUERY(method_listing, c.for_each_method([](MetaMethod const*) { return true; }))
QUERY(property_by_name, c.getProperty(nonempty_view()))
QUERY(property_by_index, c.getProperty(std::size_t(index())))
QUERY(property_count, c.propertyCount())
QUERY(enum_by_name, c.getEnum(nonempty_view()))
QUERY(enum_by_index, c.getEnum(std::size_t(index())))
QUERY(enum_count, c.enumCount())
QUERY(attribute_by_name, c.attribute(nonempty_view()))
QUERY(attribute_by_index, c.attribute(std::size_t(index())))
QUERY(attribute_name, c.attributeName(std::size_t(index())))
QUERY(attribute_count, c.attributeCount())
QUERY(attribute_listing, c.for_each_attribute([](std::string_view, variant const&) { return true; }))
QUERY(forced, c.forceDeferredDefine())
QUERY(forced_recursively, c.forceDeferredDefine(MetaContainer::ForceDeferred::Recursive))
static MetaClass const* no_class(MetaType_ID) { return nullptr; }
#define FIND vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&no_class)
static MetaClass const* other() { auto o = static_cast<MetaClass const*>(vc_any_obj()); vc_assume((MetaContainer const*)o != the); return o; }
CLASS_QUERY(base_count, c.baseClassCount())
CLASS_QUERY(base_by_index, FIND; c.baseClass(index()))
CLASS_QUERY(derived_count, c.derivedClassCount())
CLASS_QUERY(derived_by_index, FIND; c.derivedClass(index()))
CLASS_QUERY(inherited_from, FIND; c.inheritedFrom(other()))
CLASS_QUERY(cast, FIND; c.cast(other(), static_cast<void const*>(vc_any_ptr())))

CONTRACT(attach_pending)
{
    auto c = a_namespace(); lazy(c); vc_unguard();
    vc_replace("rtti::MetaItem::qualifiedName", (void*)+[](MetaItem const*) -> std::string const* { return make<std::string>("q"); });
    bool threw = false;
    try { attach(c, &second); } catch (definition_error&) { threw = true; }
    vc_assert(threw, "attaching a definition while one is pending raises an error");
    vc_assert(destroyed == 1, "the definition that was refused is disposed of");
    c->forceDeferredDefine();
    vc_assert(invoked == 1 && second == 0, "the first definition is kept");
    vc_cover("reached");
}
CONTRACT(attach_while_running)
{
    auto c = a_namespace(); lazy(c);
    vc_replace("rtti::MetaItem::qualifiedName", (void*)+[](MetaItem const*) -> std::string const* { return make<std::string>("q"); });
    static bool threw; threw = false;
    the_query = [] { try { attach(the, &second); } catch (definition_error&) { threw = true; } };
    inside = true;
    c->forceDeferredDefine();
    inside = false;
    vc_assert(invoked == 1, "a definition never runs a second time");
    c->forceDeferredDefine();
    vc_assert(invoked == 1 && second == (threw ? 0 : 1), "a definition attached while another runs is refused or runs in turn");
    vc_cover("reached");
}
CONTRACT(never_run)
{
    {
        auto c = new MetaNamespace{nonempty_view(), any_owner()};
        lazy(c); vc_unguard();
        delete static_cast<MetaItem*>(c);
    }
    vc_assert(invoked == 0 && destroyed == 1, "a definition whose container goes away first does not run and is disposed of");
    vc_cover("reached");
}
// a query in another thread may run completely between any two steps of this one
static unsigned depth;
static void other_thread(const void*) { if (!depth && vc_choice()) { ++depth; vc_cover("other thread"); the->MetaContainer::checkDeferredDefine(); --depth; } }
CONTRACT(two_threads)
{
    auto c = a_namespace(); lazy(c);
    depth = 0;
    vc_on_atomic(&other_thread);
    static_cast<MetaContainer const*>(c)->methodCount();
    vc_on_atomic(nullptr);
    vc_unguard();
    vc_assert(invoked == 1, "the definition runs exactly once");
    attach(c, &second);
    static_cast<MetaContainer const*>(c)->methodCount();
    vc_assert(second == 1, "another definition attached after one has run runs in turn");
}

// recursion: each nested class and namespace is forced recursively, once
static List f_classes, f_spaces; static u64 nc, nn;
static void force_contract(MetaContainer const *c, MetaContainer::ForceDeferred how)
{
    vc_assert(how == MetaContainer::ForceDeferred::Recursive, "nested containers are forced recursively");
    if (nc < f_classes.n && f_classes.at(nc) == c) ++nc;
    else if (nn < f_spaces.n && f_spaces.at(nn) == c) ++nn;
    else vc_assert(false, "each nested class and namespace is forced once, and nothing else");
}
template<class C> static void force_all(C *c)
{
    auto d = c->MetaContainer::d_func();
    lazy(c);
    vc_unguard();
    f_classes = any_list(d->m_classes); f_spaces = any_list(d->m_namespaces); nc = nn = 0; vc_hint(f_classes.n); vc_hint(f_spaces.n);
    vc_recursive("rtti::MetaContainer::forceDeferredDefine(", (void*)&force_contract);
    c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
    vc_assert(invoked == 1, "forcing runs the container's own definition");
    vc_assert(nc == f_classes.n, "forcing recursively reaches every nested class");
    vc_assert(nn == f_spaces.n, "forcing recursively reaches every nested namespace");
    vc_cover("reached");
}
CONTRACT(force_namespace) { force_all(a_namespace()); }
CONTRACT(force_class) { force_all(a_class()); }
CONTRACT(force_self)
{
    auto c = a_class(); auto d = c->MetaContainer::d_func();
    lazy(c); vc_unguard();
    f_classes = any_list(d->m_classes); f_spaces = any_list(d->m_namespaces); nc = nn = 0; vc_hint(f_classes.n); vc_hint(f_spaces.n);
    vc_recursive("rtti::MetaContainer::forceDeferredDefine(", (void*)&force_contract);
    c->forceDeferredDefine(MetaContainer::ForceDeferred::SelfOnly);
    vc_assert(invoked == 1 && nc == 0 && nn == 0, "forcing a container alone runs its own definition only");
    vc_cover("reached");
}

// scope guard
static unsigned actions;
CONTRACT(scope_exit)
{
    actions = 0;
    bool dismiss = vc_any_bool(), raise = vc_any_bool();
    try {
        FINALLY_EX(guard) { ++actions; };
        if (dismiss) guard.dismiss();
        vc_assert(actions == 0, "the action does not run before the scope ends");
        if (raise) throw Boom{};
        if (vc_any_bool()) { vc_cover("early"); goto out; }
    } catch (Boom&) { vc_cover("throws"); }
out:
    vc_assert(actions == (dismiss ? 0 : 1), "the action runs exactly once on every exit from the scope unless dismissed");
    if (dismiss) vc_cover("dismissed"); else vc_cover("ran");
}
CONTRACT(scope_exit_moved)
{
    actions = 0;
    bool before = vc_any_bool(), after = vc_any_bool();
    {
        FINALLY_EX(guard) { ++actions; };
        if (before) guard.dismiss();
        auto moved = std::move(guard);
        vc_assert(actions == 0, "the action does not run before the scope ends");
        if (after) moved.dismiss();
    }
    vc_assert(actions == (before || after ? 0 : 1), "a guard that was handed over runs its action once");
    vc_cover("reached");
}
static unsigned ran_a, ran_b;
CONTRACT(scope_exit_assigned)
{
    ran_a = ran_b = 0;
    bool x = vc_any_bool(), y = vc_any_bool(), self = vc_any_bool();
    {
        using F = void (*)() noexcept;
        auto a = ::internal::scope_guard_constructor() << F([]() noexcept { ++ran_a; });
        auto b = ::internal::scope_guard_constructor() << F([]() noexcept { ++ran_b; });
        if (x) a.dismiss();
        if (y) b.dismiss();
        if (self) a = std::move(a); else a = std::move(b);
        vc_assert(ran_b == 0, "the action does not run before the scope ends");
    }
    vc_assert(ran_a == (x ? 0 : 1) && ran_b == (y ? 0 : 1), "an action handed over by assignment runs once");
    vc_cover("reached");
}
// the definition given to _lazy
#include <rtti/metadefine.h>
static unsigned given; static MetaContainer *given_container; static MetaItem *given_item;
struct Given { template<class M> void operator()(M const &m) const { ++given; given_container = m.m_currentContainer; given_item = m.m_currentItem; vc_assert(m.m_containerStack && m.m_containerStack->empty(), "a definition starts at its own container"); if (vc_any_bool()) throw Boom{}; } };
template<class T, class C> static void lazy_callback(C *c)
{
    given = 0;
    Given g;
    auto cb = vc_choice() ? rtti::internal::make_definition_callback<T>(g) : rtti::internal::make_definition_callback<T>(Given{});
    vc_assert(given == 0, "a definition does not run when it is attached");
    try { cb->invoke(*c); vc_cover("returns"); } catch (Boom&) { vc_cover("throws"); }
    vc_assert(given == 1 && given_container == c && given_item == c, "the definition runs once, for its own container");
}
namespace h10 { struct K {}; }
CONTRACT(lazy_callback_namespace) { lazy_callback<void>(a_namespace()); }
CONTRACT(lazy_callback_class) { lazy_callback<h10::K>(a_class()); }
CONTRACT(lazy_declared)
{
    auto c = a_namespace(); given = 0;
    struct M: meta_define<void> { M(MetaContainer *c): meta_define<void>{c, c, nullptr} {} } m{c};
    m._lazy(Given{});
    vc_assert(given == 0, "a definition does not run when it is attached");
    bool threw = false;
    try { static_cast<MetaContainer const*>(c)->methodCount(); } catch (Boom&) { threw = true; }
    vc_assert(given == 1, "the declared definition runs before the first query's answer");
    static_cast<MetaContainer const*>(c)->methodCount();
    vc_assert(given == 1, "the declared definition runs once");
    if (threw) vc_cover("throws"); else vc_cover("returns");
}
