// C18: registry state is touched only under its lock; every lock taken is released on every path; an operation works on one state.
// Each time an operation takes the list's lock, the list is replaced by an arbitrary one (what other threads left behind).
#include "containers.h"
#include "cells.h"
using namespace vc;
using rtti::internal::NamedVariantList; using rtti::internal::named_variant;
using rtti::internal::BaseClassList; using rtti::internal::DerivedClassList;

struct CbError {};
#define DONE() do { vc_unguard(); vc_assert(vc_locks_held() == 0, "every lock is released on every path"); } while (0)

// --- item lists ----------------------------------------------------------------------------------------------------------------
static MetaItemList *the_list; static List now; static u64 the_name; static bool taken;
static void list_guard()
{
    auto &l = *the_list;
    vc_guard(&l.m_lock, &l.m_items, sizeof l.m_items); vc_guard(&l.m_lock, &l.m_names, sizeof l.m_names);
    vc_guard(&l.m_lock, now.items, vc_any_size());
}
static void list_interference(const void *lock, std::uint32_t)
{
    if (lock != (const void*)&the_list->m_lock) return;
    vc_unguard(); now = any_list(*the_list); taken = List::lookup(now.names, the_name) != nullptr; list_guard();
}
static MetaItemList& shared_list()
{
    the_list = make<MetaItemList>(); now = any_list(*the_list); list_guard(); vc_on_lock(&list_interference);
    return *the_list;
}
CONTRACT(lock_list_add)
{
    auto &l = shared_list();
    MetaItem *value = new Item{nonempty_view(), any_owner(), mcatMethod};
    the_name = nameid(value);
    vc_alloc_may_fail(true);
    bool r = false, threw = false;
    try { r = l.add(value); } catch (...) { threw = true; }
    DONE();
    if (threw) { vc_cover("out of memory"); return; }
    vc_assert(r == !taken, "the check and the insertion are one critical section");
    if (r) { vc_cover("added"); assert_list(l, now.n + 1, [&](u64 i) { return i < now.n ? now.at(i) : value; }); }
    else vc_cover("refused");
}
CONTRACT(lock_list_get)
{
    auto &l = shared_list();
    if (vc_choice()) {
        u64 i = vc_any_size(); auto r = l.get(std::size_t(i)); DONE();
        vc_assert(r == (i < now.n ? now.at(i) : nullptr), "lookup by index answers from one state of the list"); vc_cover("index");
    } else if (vc_choice()) {
        auto name = any_view(); u64 id = sid(name); vc_hint(id); auto r = l.get(name); DONE();
        auto node = List::lookup(now.names, id);
        if (r) vc_assert(node && now.at(node->second) == r, "lookup by name answers from one state of the list");
        else assert_forall(now.n, [&](u64 i) { return name.empty() || nameid(now.at(i)) != id; }, "lookup by name misses nothing of that state");
        vc_cover("name");
    } else {
        auto r = l.size(); DONE();
        vc_assert(r == now.n, "the count is that of one state of the list"); vc_cover("size");
    }
}
CONTRACT(lock_list_for_each)
{
    auto &l = shared_list();
    bool threw = false;
    try {
        l.for_each([&](MetaItem *) -> bool { if (vc_any_bool()) throw CbError{}; return vc_any_bool(); });
    } catch (CbError&) { threw = true; }
    DONE();
    if (threw) vc_cover("callback throws"); else vc_cover("complete");
}
// --- attribute and enum tables -------------------------------------------------------------------------------------------------
static NamedVariantList *the_table; static u64 t_name; static bool t_taken; static named_variant **t_items; static u64 t_n, t_names;
static named_variant* t_at(u64 i) { return reinterpret_cast<named_variant*>(vc_peek(t_items + i)); }
static u64 t_nid(named_variant const *v) { return sid(v->name); }
static void table_fresh()
{
    auto &l = *the_table;
    u64 n = vc_any_size(); t_n = n;
    auto items = reinterpret_cast<named_variant**>(any_vector(l.m_items, n, vc_any_size())); t_items = items;
    u64 names = vc_any64(); l.m_names.vc_id = names; l.m_names.vc_count = n; t_names = names;
    assume_forall(n, [=](u64 i) {
        auto it = items[i];
        if (!it) return false;
        auto node = List::lookup(names, t_nid(it));
        return node && node->second == i && sid(node->first) == t_nid(it) && !it->name.empty();
    });
    assume_forall64([=](u64 name) {
        auto node = List::lookup(names, name);
        if (!node) return true;
        if (sid(node->first) != name || !(node->second < n)) return false;
        auto it = items[node->second];
        return it && t_nid(it) == name;
    });
    t_taken = List::lookup(names, t_name) != nullptr;
    vc_guard(&l.m_lock, &l.m_items, sizeof l.m_items); vc_guard(&l.m_lock, &l.m_names, sizeof l.m_names);
    vc_guard(&l.m_lock, items, vc_any_size());
}
static void table_interference(const void *lock, std::uint32_t) { if (lock == (const void*)&the_table->m_lock) { vc_unguard(); table_fresh(); } }
static void throwing_copy(variant *t, variant const &o) { if (vc_may_throw()) throw CbError{}; cell_set(*t, cell(o)); }
static variant* throwing_assign(variant *t, variant const &o) { if (vc_may_throw()) throw CbError{}; cell_set(*t, cell(o)); return t; }
static NamedVariantList& shared_table()
{
    abstract_variants();
    the_table = make<NamedVariantList>(); table_fresh(); vc_on_lock(&table_interference);
    return *the_table;
}
template<class Set> void lock_sets(Set set)
{
    auto &l = shared_table();
    vc_replace("rtti::variant::variant(rtti::variant const&)", (void*)&throwing_copy);
    vc_replace("rtti::variant::operator=(rtti::variant const&)", (void*)&throwing_assign);
    auto name = nonempty_view(); u64 id = sid(name); t_name = id;
    auto value = static_cast<variant*>(vc_any_obj());
    vc_alloc_may_fail(true);
    bool threw = false;
    try { set(l, name, *value); } catch (...) { threw = true; }
    DONE();
    if (threw) { vc_cover("throws"); return; }
    if (t_taken) { vc_assert(l.m_items.size() == t_n, "setting an existing entry adds none"); vc_cover("replaced"); }
    else { vc_assert(l.m_items.size() == t_n + 1 && t_nid(l.m_items[t_n].get()) == id, "the check and the insertion are one critical section"); vc_cover("added"); }
}
CONTRACT(lock_table_set_copy) { lock_sets([](NamedVariantList &l, std::string_view n, variant &v) { l.set(n, static_cast<variant const&>(v)); }); }
CONTRACT(lock_table_set_move) { lock_sets([](NamedVariantList &l, std::string_view n, variant &v) { l.set(n, std::move(v)); }); }
CONTRACT(lock_table_get)
{
    auto &l = shared_table();
    vc_alloc_may_fail(true);
    bool threw = false;
    try {
        if (vc_choice()) { l.get(std::size_t(vc_any_size())); vc_cover("value by index"); }
        else if (vc_choice()) { l.get(any_view()); vc_cover("value by name"); }
        else if (vc_choice()) { l.name(vc_any_size()); vc_cover("name by index"); }
        else { auto n = l.size(); vc_assert(n == t_n, "the count is that of one state of the table"); vc_cover("size"); }
    } catch (...) { threw = true; }
    DONE();
}
CONTRACT(lock_table_for_each)
{
    auto &l = shared_table();
    bool threw = false;
    try {
        l.for_each([&](std::string const&, variant const&) -> bool { if (vc_any_bool()) throw CbError{}; return vc_any_bool(); });
    } catch (CbError&) { threw = true; }
    DONE();
    if (threw) vc_cover("callback throws"); else vc_cover("complete");
}

// --- base and derived class lists ----------------------------------------------------------------------------------------------
static u64 idv(rtti::internal::BaseClassList::item_t const &x) { return x.first.value(); }
static u64 idv(MetaType_ID const &x) { return x.value(); }
template<class L> struct Rel {
    static inline L *l; static inline u64 n; static inline void *items;
    static void fresh() {
        n = vc_any_size(); auto p = any_vector(l->m_items, n, vc_any_size()); items = p;
        vc_guard(&l->m_lock, &l->m_items, sizeof l->m_items); vc_guard(&l->m_lock, p, vc_any_size());
    }
    static void interference(const void *lock, std::uint32_t) { if (lock == (const void*)&l->m_lock) { vc_unguard(); fresh(); } }
    static L& shared() { l = make<L>(); fresh(); vc_on_lock(&interference); return *l; }
    static u64 idof(u64 i) { return vc_peek(static_cast<decltype(l->m_items._M_impl._M_start)>(items) + i); }
    template<class Add> static void add(Add f) {
        auto &x = shared(); u64 id = vc_any64();
        vc_alloc_may_fail(true);
        bool threw = false;
        try { f(x, MetaType_ID{id}); } catch (...) { threw = true; }
        DONE();
        if (threw) { vc_cover("out of memory"); return; }
        if (x.m_items.size() != n) {
            vc_cover("added");
            vc_assert(x.m_items.size() == n + 1 && idv(x.m_items[n]) == id, "one entry is added");
            assert_forall(n, [&](u64 i) { return idof(i) != id; }, "the check and the insertion are one critical section");
        } else vc_cover("already there");
    }
    static void get() {
        auto &x = shared();
        if (vc_choice()) {
            u64 i = vc_any_size(); auto r = x.get(i); DONE();
            vc_assert(r.value() == (i < n ? idof(i) : MetaType_ID{}.value()), "lookup by index answers from one state of the list"); vc_cover("index");
        } else if (vc_choice()) {
            u64 id = vc_any64(); bool r = x.find(MetaType_ID{id}); DONE();
            if (!r) assert_forall(n, [&](u64 i) { return idof(i) != id; }, "find misses nothing of one state of the list");
            vc_cover("find");
        } else { auto r = x.count(); DONE(); vc_assert(r == n, "the count is that of one state of the list"); vc_cover("count"); }
    }
};
static void const* no_cast(void const *p) { return p; }
CONTRACT(lock_bases_add) { Rel<BaseClassList>::add([](BaseClassList &l, MetaType_ID id) { l.add(id, &no_cast); }); }
CONTRACT(lock_bases_get) { Rel<BaseClassList>::get(); }
CONTRACT(lock_derived_add) { Rel<DerivedClassList>::add([](DerivedClassList &l, MetaType_ID id) { l.add(id); }); }
CONTRACT(lock_derived_get) { Rel<DerivedClassList>::get(); }
CONTRACT(lock_bases_for_each)
{
    auto &l = Rel<BaseClassList>::shared();
    bool threw = false;
    try { l.for_each([&](auto const&) -> bool { if (vc_any_bool()) throw CbError{}; return vc_any_bool(); }); } catch (CbError&) { threw = true; }
    DONE();
    if (threw) vc_cover("callback throws"); else vc_cover("complete");
}

// --- the type registry and the converter table ---------------------------------------------------------------------------------
#include "types.h"
static CustomTypes *the_types; static Types t_now; static TypeInfo const *t_was;
static u64 t_id;
static void types_fresh()
{
    t_now = any_types(*the_types);
    auto node = type_lookup(t_now.names, t_id); t_was = node ? node->second : nullptr;
    vc_guard(&the_types->m_lock, &the_types->m_items, sizeof the_types->m_items); vc_guard(&the_types->m_lock, &the_types->m_names, sizeof the_types->m_names);
}
static void types_interference(const void *lock, std::uint32_t) { if (lock == (const void*)&the_types->m_lock) { vc_unguard(); types_fresh(); } }
static CustomTypes& shared_types(std::string_view name) { t_id = sid(name); the_types = make<CustomTypes>(); types_fresh(); vc_on_lock(&types_interference); return *the_types; }
CONTRACT(lock_types_add)
{
    auto name = nonempty_view(); auto &t = shared_types(name);
    vc_alloc_may_fail(true);
    TypeInfo const *r = nullptr; bool threw = false;
    try { r = t.addTypeInfo(name, vc_any64(), MetaType_ID{vc_any64()}, vc_any16(), vc_any16(), TypeFlags(vc_any32()), static_cast<metatype_manager_t const*>(vc_any_ptr())); } catch (...) { threw = true; }
    DONE();
    if (threw) { vc_cover("out of memory"); return; }
    if (t_was) { vc_cover("taken"); vc_assert(r == t_was, "the check and the insertion are one critical section"); }
    else {
        vc_cover("added");
        auto node = type_lookup(t_now.names, t_id);
        vc_assert(r && node && node->second == r && t.m_names.vc_count == t_now.count + 1, "one descriptor is added to the state found under the lock");
    }
}
CONTRACT(lock_types_get)
{
    auto name = any_view(); auto &t = shared_types(name); vc_hint(t_id);
    auto r = t.getTypeInfo(name);
    DONE();
    vc_assert(r == (name.empty() ? nullptr : t_was), "lookup answers from one state of the registry");
    if (r) vc_cover("found"); else vc_cover("missing");
}
CONTRACT(lock_types_destroy)
{
    auto name = any_view(); auto &t = shared_types(name);
    vc_unguard(); vc_on_lock(nullptr);             // members are destroyed after the lock was released: nobody shares them then
    t.m_items._M_impl._M_head._M_next = nullptr;   // the nodes' release is the standard library's
    t.~CustomTypes();
    vc_assert(CustomTypes::Destroyed, "the registry is marked destroyed"); vc_cover("reached");
}
using ConvList = rtti::MetaTypeFunctionList<rtti::internal::ConvertFunctionBase>;
using Conv = rtti::internal::ConvertFunctionBase;
using conv_node = std::pair<ConvList::key_t const, Conv const*>;
static ConvList *the_conv; static u64 c_from, c_to, c_table, c_count; static Conv const *c_was;
static Conv const* conv_of() { auto n = static_cast<conv_node*>(vc_map_get(the_conv->m_items.vc_id, c_from, c_to)); return n ? n->second : nullptr; }
static void conv_fresh()
{
    auto &l = *the_conv;
    l.m_items.vc_id = c_table = vc_any64(); l.m_items.vc_count = c_count = vc_any_size();
    auto n = static_cast<conv_node*>(vc_map_get(c_table, c_from, c_to)); if (n) vc_assume(n->second != nullptr);
    c_was = n ? n->second : nullptr;
    vc_guard(&l.m_lock, &l.m_items, sizeof l.m_items);
}
static void conv_interference(const void *lock, std::uint32_t) { if (lock == (const void*)&the_conv->m_lock) { vc_unguard(); conv_fresh(); } }
CONTRACT(lock_converters)
{
    c_from = vc_any64(); c_to = vc_any64();
    the_conv = make<ConvList>(); conv_fresh(); vc_on_lock(&conv_interference);
    auto &l = *the_conv; ConvList::key_t key{MetaType_ID{c_from}, MetaType_ID{c_to}};
    vc_alloc_may_fail(true);
    if (vc_choice()) { bool r = l.find(key); DONE(); vc_assert(r == (c_was != nullptr), "find answers from one state of the table"); vc_cover("find"); }
    else if (vc_choice()) { auto r = l.get(key); DONE(); vc_assert(r == c_was, "get answers from one state of the table"); vc_cover("get"); }
    else if (vc_choice()) {
        auto f = static_cast<Conv const*>(vc_any_obj()); bool r = false, threw = false;
        try { r = l.add(key, f); } catch (...) { threw = true; }
        DONE();
        if (threw) { vc_cover("out of memory"); return; }
        vc_assert(r == !c_was && conv_of() == (c_was ? c_was : f), "the check and the insertion are one critical section"); vc_cover("add");
    }
    else if (vc_choice()) { l.remove(key); DONE(); vc_assert(conv_of() == nullptr, "remove works on the state found under the lock"); vc_cover("remove"); }
    else if (vc_choice()) { auto f = static_cast<Conv const*>(vc_any_obj()); l.remove(key, f); DONE(); vc_assert(conv_of() == (c_was == f ? nullptr : c_was), "the check and the removal are one critical section"); vc_cover("remove one"); }
    else { vc_unguard(); vc_on_lock(nullptr); l.~ConvList(); vc_assert(ConvList::Destroyed, "the table is marked destroyed"); vc_cover("destroyed"); }
}
