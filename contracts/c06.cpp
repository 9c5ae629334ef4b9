// C06: attributes and enum elements are an ordered name-to-value table.
#include "containers.h"
#include "cells.h"
using namespace vc;
using rtti::internal::NamedVariantList; using rtti::internal::named_variant;

struct Table {
    NamedVariantList *l; named_variant **items; u64 n, names;
    named_variant* at(u64 i) const { return reinterpret_cast<named_variant*>(vc_peek(items + i)); }
    static List::node_t* lookup(u64 table, u64 name) { return List::lookup(table, name); }
};
static u64 nid(named_variant const *v) { return sid(v->name); }
static Table any_table(NamedVariantList &l)
{
    Table r;
    r.l = &l; r.n = vc_any_size();
    r.items = reinterpret_cast<named_variant**>(any_vector(l.m_items, r.n, vc_any_size()));
    l.m_names.vc_id = r.names = vc_any64(); l.m_names.vc_count = r.n;
    auto items = r.items; auto names = r.names; auto n = r.n;
    assume_forall(n, [=](u64 i) {
        auto it = items[i];
        if (!it) return false;
        auto node = Table::lookup(names, nid(it));
        return node && node->second == i && sid(node->first) == nid(it) && !it->name.empty();
    });
    assume_forall64([=](u64 name) {
        auto node = Table::lookup(names, name);
        if (!node) return true;
        if (sid(node->first) != name) return false;
        if (!(node->second < n)) return false;
        auto it = items[node->second];
        return it && nid(it) == name;
    });
    return r;
}
template<class At> void assert_table(NamedVariantList &l, u64 n, At at)
{
    vc_assert(l.m_items.size() == n, "the table has exactly the expected number of entries");
    assert_forall(n, [&](u64 i) { return l.m_items[i].get() == at(i); }, "every entry keeps its position");
    assert_forall(n, [&](u64 i) {
        auto it = l.m_items[i].get();
        auto node = Table::lookup(l.m_names.vc_id, nid(it));
        return node && node->second == i && !vc_str_freed(node->first.data()) && !vc_str_freed(it->name.data());
    }, "every entry's name is mapped to its position, by a key that outlives the call");
    u64 name = vc_any64(); vc_hint(name);
    auto node = Table::lookup(l.m_names.vc_id, name);
    if (node) vc_assert(node->second < n && nid(l.m_items[node->second].get()) == name && sid(node->first) == name, "the name map names only entries of the table");
}
// what setting (name, value) through `set` does to the table
template<class Set> void sets(NamedVariantList &l, bool moving, Set set)
{
    auto t = any_table(l);
    auto name = any_view(); u64 id = sid(name);
    auto value = static_cast<variant*>(vc_any_obj());
    u64 x = cell(*value);
    auto was = Table::lookup(t.names, id);
    u64 k = vc_any_size(); vc_assume(k < t.n); u64 old = cell(t.at(k)->value);
    vc_assume(value != &t.at(k)->value);
    if (was) vc_assume(value != &t.at(was->second)->value);
    set(name, *value);
    if (name.empty()) {
        vc_cover("empty name");
        assert_table(l, t.n, [&](u64 i) { return t.at(i); });
        vc_assert(cell(t.at(k)->value) == old && cell(*value) == x, "setting an empty name changes nothing");
        return;
    }
    if (was) {
        vc_cover("existing name");
        u64 w = was->second;
        vc_assert(cell(t.at(w)->value) == x, "the entry of that name has the value set");
        if (k != w) vc_assert(cell(t.at(k)->value) == old, "every other entry keeps its value");
        vc_assert(nid(t.at(w)) == id, "the entry keeps its name");
        assert_table(l, t.n, [&](u64 i) { return t.at(i); });
    } else {
        vc_cover("new name");
        vc_assert(l.m_items.size() == t.n + 1, "a new name appends one entry");
        auto it = l.m_items[t.n].get();
        vc_assert(it != nullptr && nid(it) == id, "the new entry has the name set");
        vc_assert(cell(it->value) == x, "the new entry has the value set");
        vc_assert(cell(t.at(k)->value) == old, "earlier entries keep their values");
        vc_assert(vc_str_is_copy(it->name.data()), "the entry owns a copy of its name");
        auto node = Table::lookup(l.m_names.vc_id, id);
        vc_assert(node && vc_str_is_copy(node->first.data()), "the name map owns a copy of the name");
        assert_table(l, t.n + 1, [&](u64 i) { return i < t.n ? t.at(i) : it; });
    }
    if (!moving) vc_assert(cell(*value) == x, "the value set from is unchanged");
}
CONTRACT(set_copy) { abstract_variants(); auto &l = *make<NamedVariantList>(); sets(l, false, [&](std::string_view n, variant &v) { l.set(n, const_cast<variant const&>(v)); }); }
CONTRACT(set_move) { abstract_variants(); auto &l = *make<NamedVariantList>(); sets(l, true, [&](std::string_view n, variant &v) { l.set(n, std::move(v)); }); }

CONTRACT(set_without_memory)
{
    abstract_variants(); auto &l = *make<NamedVariantList>();
    auto t = any_table(l); auto name = any_view();
    auto value = static_cast<variant*>(vc_any_obj());
    u64 k = vc_any_size(); vc_assume(k < t.n); u64 old = cell(t.at(k)->value);
    vc_assume(value != &t.at(k)->value);
    bool threw = false;
    vc_alloc_may_fail(true);
    try { l.set(name, const_cast<variant const&>(*value)); } catch (std::bad_alloc&) { threw = true; }
    vc_alloc_may_fail(false);
    if (!threw) { vc_cover("enough memory"); return; }
    vc_cover("out of memory");
    assert_table(l, t.n, [&](u64 i) { return t.at(i); });
    vc_assert(cell(t.at(k)->value) == old, "no entry changes its value");
    u64 w = vc_any64(); vc_hint(w);
    vc_assert(Table::lookup(l.m_names.vc_id, w) == Table::lookup(t.names, w), "the name map is as it was");
}

struct Plain: MetaItem {
    Plain(std::string_view n, MetaContainer const &o): MetaItem{n, o} {}
    MetaCategory category() const override { return mcatProperty; }
};
static Plain* a_plain() { return make<Plain>(nonempty_view(), any_owner()); }
static NamedVariantList& attrs(MetaItem *i) { return i->MetaItem::d_func()->m_attributes; }
CONTRACT(attribute_set_copy) { abstract_variants(); auto i = a_plain(); sets(attrs(i), false, [&](std::string_view n, variant &v) { i->setAttribute(n, const_cast<variant const&>(v)); }); }
CONTRACT(attribute_set_move) { abstract_variants(); auto i = a_plain(); sets(attrs(i), true, [&](std::string_view n, variant &v) { i->setAttribute(n, std::move(v)); }); }
static MetaEnum* an_enum() { return make<MetaEnum>(nonempty_view(), any_owner(), MetaType_ID{vc_any64()}); }
static NamedVariantList& elems(MetaEnum *e) { return e->MetaEnum::d_func()->m_elements; }
CONTRACT(element_set)
{
    abstract_variants(); auto e = an_enum();
    auto before = attrs(e).m_names.vc_id;
    sets(elems(e), true, [&](std::string_view n, variant &v) { e->addElement(n, std::move(v)); });
    vc_assert(attrs(e).m_names.vc_id == before && attrs(e).m_items.empty(), "setting an element does not touch the attributes");
}

// reads
template<class ByI, class ByN, class Nm, class Cnt> void reads(NamedVariantList &l, ByI byi, ByN byn, Nm nm, Cnt cnt)
{
    auto t = any_table(l);
    u64 i = vc_any_size(); auto name = any_view(); u64 id = sid(name);
    vc_assert(cnt() == t.n, "the count is the number of entries");
    if (i < t.n) {
        vc_cover("index in range");
        vc_assert(&byi(i) == &t.at(i)->value, "reading by index gives that entry's value");
        vc_assert(&nm(i) == &t.at(i)->name, "the name by index is that entry's name");
    } else {
        vc_cover("index out of range");
        vc_assert(&byi(i) == &variant::empty_variant, "reading beyond the end gives the empty value");
        vc_assert(nm(i).empty(), "the name beyond the end is empty");
    }
    vc_hint(id);
    auto node = name.empty() ? nullptr : Table::lookup(t.names, id);
    auto &r = byn(name);
    if (node) { vc_cover("known name"); vc_assert(&r == &t.at(node->second)->value, "reading by name gives the value of the entry of that name"); }
    else { vc_cover("unknown name"); vc_assert(&r == &variant::empty_variant, "an unknown name gives the empty value"); }
    assert_table(l, t.n, [&](u64 k) { return t.at(k); });
}
CONTRACT(read_table) { vc_static_init(); auto &l = *make<NamedVariantList>(); reads(l, [&](u64 i) -> variant const& { return l.get(std::size_t(i)); }, [&](std::string_view n) -> variant const& { return l.get(n); }, [&](u64 i) -> std::string const& { return l.name(i); }, [&] { return l.size(); }); }
CONTRACT(read_attributes) { vc_static_init(); MetaItem const *p = a_plain(); auto &l = attrs(const_cast<MetaItem*>(p)); reads(l, [&](u64 i) -> variant const& { return p->attribute(std::size_t(i)); }, [&](std::string_view n) -> variant const& { return p->attribute(n); }, [&](u64 i) -> std::string const& { return p->attributeName(i); }, [&] { return p->attributeCount(); }); }
CONTRACT(read_elements) { vc_static_init(); MetaEnum const *p = an_enum(); auto &l = elems(const_cast<MetaEnum*>(p)); reads(l, [&](u64 i) -> variant const& { return p->element(std::size_t(i)); }, [&](std::string_view n) -> variant const& { return p->element(n); }, [&](u64 i) -> std::string const& { return p->elementName(i); }, [&] { return p->elementCount(); }); }

template<class Each> void iterates(NamedVariantList &l, Each each)
{
    auto t = any_table(l);
    auto calls = input<u64>(); auto stopped = input<bool>();
    *calls = 0; *stopped = false;
    each([=](std::string_view name, variant const &value) -> bool {
        vc_assert(!*stopped, "iteration stops when told to");
        vc_assert(*calls < t.n, "each entry is visited once");
        vc_assert(sid(name) == nid(t.at(*calls)), "entries are visited in order, by name");
        vc_assert(&value == &t.at(*calls)->value, "entries are visited in order, with their values");
        ++*calls;
        if (vc_any_bool()) { *stopped = true; return false; }
        return true;
    });
    vc_assert(*stopped || *calls == t.n, "every entry is visited unless iteration is stopped");
    if (*stopped) vc_cover("stopped"); else vc_cover("complete");
}
CONTRACT(iterate_table) { auto &l = *make<NamedVariantList>(); iterates(l, [&](auto f) { l.for_each(f); }); }
CONTRACT(iterate_attributes) { auto p = a_plain(); iterates(attrs(p), [&](auto f) { p->for_each_attribute(f); }); }
CONTRACT(iterate_elements) { auto p = an_enum(); iterates(elems(p), [&](auto f) { p->for_each_element([&](std::string_view n, variant const &v) { return f(n, v); }); }); }
CONTRACT(iterate_nothing) { auto p = an_enum(); any_table(elems(p)); any_table(attrs(p)); p->for_each_element(nullptr); p->for_each_attribute(nullptr); vc_cover("an empty function is not called"); }
