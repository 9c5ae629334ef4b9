// Arbitrary item lists: representation invariant of MetaItemList and its abstract view (a sequence of items with distinct names).
#pragma once
#include "all.h"
#include <new>
namespace vc {
using rtti::internal::MetaItemList;

inline u64 nameid(MetaItem const *i) { return sid(i->name()); }

// point a (constructed) vector at n arbitrary elements with room for cap
template<class T, class A> T* any_vector(std::vector<T, A> &v, u64 n, u64 cap)
{
    vc_assume(n <= cap); vc_assume(cap <= (u64(1) << 36));
    auto p = input_array<T>(cap);
    v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + cap;
    return p;
}

struct List {
    MetaItemList *l;
    MetaItem **items;        // the pre-state's items
    u64 n;                   // their number
    u64 names;               // the pre-state's name table

    MetaItem* at(u64 i) const { return reinterpret_cast<MetaItem*>(vc_peek(items + i)); }
    using node_t = std::pair<std::string_view const, std::size_t>;
    static node_t* lookup(u64 table, u64 name) { return static_cast<node_t*>(vc_map_get(table, name, 0)); }
    static bool item_ok(MetaItem *it) { return it != nullptr; }
};

// the list in an arbitrary state satisfying the invariant
//   every item is non-null; the name table maps exactly the items' names to their positions (so names are pairwise different)
inline List any_list(MetaItemList &l)
{
    List r;
    r.l = &l; r.n = vc_any_size();
    r.items = reinterpret_cast<MetaItem**>(any_vector(l.m_items, r.n, vc_any_size()));
    l.m_names.vc_id = r.names = vc_any64();
    l.m_names.vc_count = r.n;
    auto items = r.items; auto names = r.names; auto n = r.n;
    assume_forall(n, [=](u64 i) {
        auto it = items[i];
        if (!it) return false;
        if (!*reinterpret_cast<void**>(&it->d_ptr)) return false;
        auto node = List::lookup(names, nameid(it));
        return node && node->second == i && sid(node->first) == nameid(it) && !it->name().empty();
    });
    assume_forall64([=](u64 name) {
        auto node = List::lookup(names, name);
        if (!node) return true;
        if (sid(node->first) != name) return false;
        if (!(node->second < n)) return false;
        auto it = items[node->second];
        return it && *reinterpret_cast<void**>(&it->d_ptr) && nameid(it) == name;
    });
    return r;
}

// invariant after an operation: the list holds `n` items, item i being `at(i)`
template<class At> void assert_list(MetaItemList &l, u64 n, At at)
{
    vc_assert(l.m_items.size() == n, "the list has exactly the expected number of items");
    assert_forall(n, [&](u64 i) { return l.m_items[i].get() == at(i); }, "every item keeps its position");
    assert_forall(n, [&](u64 i) {
        auto it = l.m_items[i].get();
        auto node = List::lookup(l.m_names.vc_id, nameid(it));
        return node && node->second == i && !vc_str_freed(node->first.data());
    }, "every item's name is mapped to its position, by a key that outlives the call");
    {
        u64 name = vc_any64(); vc_hint(name);
        auto node = List::lookup(l.m_names.vc_id, name);
        if (node) vc_assert(node->second < n && nameid(l.m_items[node->second].get()) == name && sid(node->first) == name, "the name table names only items of the list");
    }
}

// an item created by the real constructor, of the given category
struct Item: MetaItem {
    MetaCategory cat;
    Item(std::string_view name, MetaContainer const &owner, MetaCategory c): MetaItem{name, owner}, cat{c} {}
    MetaCategory category() const override { return cat; }
};
inline MetaContainer const& any_owner() { return *static_cast<MetaContainer const*>(vc_any_obj()); }
inline std::string_view nonempty_view() { auto s = any_view(); vc_assume(!s.empty()); return s; }
}
