// A class whose registered bases are an arbitrary list of ids of registered classes.
#pragma once
#include "containers.h"
namespace vc {
using base_item_t = rtti::internal::BaseClassList::item_t;
struct Bases { u64 n; base_item_t *items; };
inline MetaClass const* class_of(MetaType_ID id) { return (MetaClass const*)vc_uf(1, id.value(), 0, 0); }
inline MetaClass const* class_of_type(MetaType const *t) { return class_of(reinterpret_cast<MetaType_ID const&>(*t)); }
// MetaClass::find and MetaType::metaClass by their contract (C09): a function of the id, giving a class for every registered base
inline Bases any_bases(MetaClass *c)
{
    auto &l = c->MetaClass::d_func()->m_baseClasses;
    Bases r; r.n = vc_any_size(); r.items = any_vector(l.m_items, r.n, vc_any_size());
    auto items = r.items;
    assume_forall(r.n, [=](u64 i) { return class_of(items[i].first) != nullptr; });
    vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&class_of);
    vc_replace("rtti::MetaType::metaClass() const", (void*)&class_of_type);
    return r;
}
}
