// Arbitrary containers: a real namespace or class object whose six item lists are in arbitrary states.
#pragma once
#include "lists.h"
namespace vc {
struct Snap {               // a list not expected to change
    MetaItemList *l; void *s, *f, *e; u64 names, count; u64 n;
    void take(MetaItemList &x) {
        l = &x; n = vc_any_size();
        auto p = any_vector(x.m_items, n, vc_any_size());
        x.m_names.vc_id = names = vc_any64(); x.m_names.vc_count = count = vc_any64();
        s = p; f = x.m_items._M_impl._M_finish; e = x.m_items._M_impl._M_end_of_storage;
    }
    void same() {
        vc_assert(l->m_items._M_impl._M_start == s && l->m_items._M_impl._M_finish == f && l->m_items._M_impl._M_end_of_storage == e, "lists of other categories keep their items");
        vc_assert(l->m_names.vc_id == names && l->m_names.vc_count == count, "lists of other categories keep their names");
    }
};
// container c (built by its real constructor): list `cat` arbitrary with its invariant known, the others arbitrary
template<class C> struct Box {
    C *c; MetaContainerPrivate *d; MetaCategory cat; List v; Snap o[mcatCount];
    Box(C *c_, MetaCategory cat_): c{c_}, cat{cat_} {
        d = c->MetaContainer::d_func();
        for (int i = 0; i < mcatCount; ++i) if (i != cat) o[i].take(list(i));
        v = any_list(list(cat));
    }
    MetaItemList& list(int i) { return *listp(i); }
    MetaItemList* listp(int i) {
        switch (i) {
        case mcatNamespace: return &d->m_namespaces; case mcatClass: return &d->m_classes; case mcatProperty: return &d->m_properties;
        case mcatMethod: return &d->m_methods; case mcatEnum: return &d->m_enums; default: return &d->m_constructors;
        }
    }
    void others() { for (int i = 0; i < mcatCount; ++i) if (i != cat) o[i].same(); }
    bool taken(u64 name) { return List::lookup(v.names, name) != nullptr; }
    MetaItem* named(u64 name) { return v.at(List::lookup(v.names, name)->second); }
    // the outcome of creating `r` under `name`
    template<class R> void created(R *r, u64 name, bool was_taken) {
        vc_assert(r != nullptr, "create returns an item");
        if (was_taken) {
            vc_cover("taken");
            vc_assert(r == named(name), "creating under a taken name returns the existing item");
            assert_list(*v.l, v.n, [&](u64 i) { return v.at(i); });
        } else {
            vc_cover("new");
            vc_assert(nameid(r) == name, "the new item has the given name");
            vc_assert(static_cast<MetaItem*>(r)->owner() == c, "the new item has the given owner");
            vc_assert(static_cast<MetaItem*>(r)->category() == cat, "the new item has the category asked for");
            assert_list(*v.l, v.n + 1, [&](u64 i) { return i < v.n ? v.at(i) : static_cast<MetaItem*>(r); });
        }
        others();
    }
};
inline MetaNamespace* a_namespace() { return make<MetaNamespace>(nonempty_view(), any_owner()); }
inline MetaClass* a_class() { return make<MetaClass>(nonempty_view(), any_owner(), MetaType_ID{vc_any64()}); }
}
