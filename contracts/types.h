// The type registry in an arbitrary state satisfying its invariant: every key maps to a descriptor of that name.
#pragma once
#include "all.h"
#include "lists.h"
namespace vc {
using rtti::CustomTypes; using rtti::TypeInfo;
using type_node = std::pair<std::string_view const, TypeInfo const*>;
inline type_node* type_lookup(u64 table, u64 name) { return static_cast<type_node*>(vc_map_get(table, name, 0)); }
struct Types { CustomTypes *t; u64 names, count; void *head; };
inline Types any_types(CustomTypes &t)
{
    Types r; r.t = &t;
    t.m_names.vc_id = r.names = vc_any64(); t.m_names.vc_count = r.count = vc_any_size();
    t.m_items._M_impl._M_head._M_next = static_cast<std::_Fwd_list_node_base*>(vc_any_ptr());
    r.head = t.m_items._M_impl._M_head._M_next;
    auto names = r.names;
    assume_forall64([=](u64 name) {
        auto node = type_lookup(names, name);
        if (!node) return true;
        auto d = node->second;
        return d && sid(node->first) == name && sid(d->name) == name && !d->name.empty();
    });
    return r;
}
// everything a descriptor says
struct Desc {
    TypeInfo const *p; u64 name, size, decay, arity, mask, flags; void const *manager; MetaClass *cls;
    explicit Desc(TypeInfo const *d): p{d}, name{sid(d->name)}, size{d->size}, decay{d->decay.value()}, arity{d->arity}, mask{d->const_mask},
        flags{u64(d->flags)}, manager{d->manager}, cls{d->metaClass.load()} {}
    bool same() const {
        Desc o{p};
        return name == o.name && size == o.size && decay == o.decay && arity == o.arity && mask == o.mask && flags == o.flags && manager == o.manager && cls == o.cls;
    }
};
}
