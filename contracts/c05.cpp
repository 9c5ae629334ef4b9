// C05: item registries: unique names, registration order, consistent lookup.
#include "lists.h"
using namespace vc;

CONTRACT(list_starts_empty)
{
    auto &l = *make<MetaItemList>();
    vc_assert(l.size() == 0, "a new list has no items");
    vc_assert(l.get(vc_any64()) == nullptr, "a new list has nothing at any index");
    vc_assert(l.get(any_view()) == nullptr, "a new list has nothing under any name");
    vc_cover("reached");
}

CONTRACT(list_add)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    MetaItem *value;
    if (vc_choice()) value = new Item{nonempty_view(), any_owner(), mcatMethod};
    else { u64 i = vc_any_size(); vc_assume(i < v.n); value = v.at(i); vc_cover("an item already in the list"); }
    u64 name = nameid(value);
    bool taken = List::lookup(v.names, name) != nullptr;
    bool r = l.add(value);
    vc_assert(r == !taken, "add succeeds exactly when the name is not taken");
    if (r) {
        vc_cover("added");
        assert_list(l, v.n + 1, [&](u64 i) { return i < v.n ? v.at(i) : value; });
    } else {
        vc_cover("refused");
        assert_list(l, v.n, [&](u64 i) { return v.at(i); });
        u64 k = vc_any64(); vc_hint(k);
        vc_assert(List::lookup(l.m_names.vc_id, k) == List::lookup(v.names, k), "a refused add leaves the name table alone");
    }
}

CONTRACT(list_add_without_memory)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    MetaItem *value = new Item{nonempty_view(), any_owner(), mcatMethod};
    bool threw = false;
    vc_alloc_may_fail(true);
    try { l.add(value); } catch (std::bad_alloc&) { threw = true; }
    vc_alloc_may_fail(false);
    if (!threw) { vc_cover("enough memory"); return; }
    vc_cover("out of memory");
    assert_list(l, v.n, [&](u64 i) { return v.at(i); });
    u64 k = vc_any64(); vc_hint(k);
    vc_assert(List::lookup(l.m_names.vc_id, k) == List::lookup(v.names, k), "an addition that runs out of memory leaves the name table alone");
}

CONTRACT(list_add_null)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    vc_assert(!l.add(nullptr), "adding null fails");
    assert_list(l, v.n, [&](u64 i) { return v.at(i); });
    vc_cover("reached");
}

CONTRACT(list_get_index)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    u64 i = vc_any_size();
    auto r = l.get(std::size_t(i));
    if (i < v.n) { vc_cover("in range"); vc_assert(r == v.at(i), "lookup by index returns the item registered at that position"); }
    else { vc_cover("out of range"); vc_assert(r == nullptr, "lookup beyond the end returns nothing"); }
    vc_assert(l.size() == v.n, "the count is the number of items");
    assert_list(l, v.n, [&](u64 k) { return v.at(k); });
}

CONTRACT(list_get_name)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    auto name = any_view();
    u64 id = sid(name);
    vc_hint(id);
    auto r = l.get(name);
    if (r) {
        vc_cover("found");
        vc_assert(nameid(r) == id, "lookup by name returns an item of that name");
        auto node = List::lookup(v.names, id);
        vc_assert(node && v.at(node->second) == r, "lookup by name returns the registered item");
    } else {
        vc_cover("missing");
        assert_forall(v.n, [&](u64 i) { return nameid(v.at(i)) != id; }, "lookup by name finds nothing only when no item has the name");
    }
    assert_list(l, v.n, [&](u64 k) { return v.at(k); });
}

CONTRACT(list_iteration)
{
    auto &l = *make<MetaItemList>();
    auto v = any_list(l);
    u64 calls = 0; bool stopped = false;
    l.for_each([&](MetaItem *it) -> bool {
        vc_assert(!stopped, "iteration stops when told to");
        vc_assert(calls < v.n, "iteration calls no more often than there are items");
        vc_assert(it == v.at(calls), "iteration visits items in registration order");
        ++calls;
        if (vc_any_bool()) { stopped = true; return false; }
        return true;
    });
    vc_assert(stopped || calls == v.n, "iteration visits every item unless told to stop");
    if (stopped) vc_cover("stopped"); else vc_cover("complete");
}
