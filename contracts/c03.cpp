// C03: MetaType::compatible is exactly the const-, reference- and arity-safe relation.
#include "vc.h"
#include "metatype.cpp"
using namespace rtti;
#include "c03_spec.h"

namespace {
TypeInfo* descriptor()
{
    auto t = vc::input<TypeInfo>();
    vc_assume(t->arity <= 14);                           // const_mask has 16 bits: levels 0..15
    return t;
}
}

CONTRACT(compatible)
{
    auto F = descriptor(), T = descriptor();
    if (vc_choice()) T = F;
    MetaType from, to;
    from.m_typeInfo = F; to.m_typeInfo = T;
    vc_merge(1);
    bool r = MetaType::compatible(from, to);
    vc_merge(0);
    if (r) vc_cover("accepts"); else vc_cover("refuses");
    vc_assert(r == spec(F, T), "compatible(F, T) holds exactly when reference kind, array size, arity and const at every exposed level allow it");
}

CONTRACT(compatible_invalid)
{
    auto F = descriptor();
    MetaType good, bad;
    good.m_typeInfo = F; bad.m_typeInfo = nullptr;
    vc_assert(!MetaType::compatible(bad, good), "an invalid source type is compatible with nothing");
    vc_assert(!MetaType::compatible(good, bad), "nothing is compatible with an invalid target type");
    vc_assert(!MetaType::compatible(bad, bad), "two invalid types are not compatible");
}

// consequences stated in the property, proved of the specification relation itself
CONTRACT(spec_lemmas)
{
    auto F = descriptor(), T = descriptor(), U = descriptor();
    vc_assert(!spec(F, T) || fl(F, TypeFlags::LvalueReference) || !fl(T, TypeFlags::LvalueReference) || fl(T, TypeFlags::Const),
              "never a non-lvalue as a mutable lvalue reference");
    vc_assert(!(spec(F, T) && fl(F, TypeFlags::LvalueReference) && fl(T, TypeFlags::RvalueReference)), "never an lvalue as an rvalue reference");
    vc_assert(!(spec(F, T) && arr(F) && arr(T) && F->size < T->size), "never an array as a larger array");
    bool plain = !arr(F) && !arr(T) && !arr(U)
              && !fl(F, TypeFlags::LvalueReference) && !fl(T, TypeFlags::LvalueReference) && !fl(U, TypeFlags::LvalueReference)
              && !fl(F, TypeFlags::RvalueReference) && !fl(T, TypeFlags::RvalueReference) && !fl(U, TypeFlags::RvalueReference);
    vc_assert(!plain || spec(F, F), "the relation is reflexive on non-reference types");
    vc_assert(!(plain && spec(F, T) && spec(T, U)) || spec(F, U), "the relation composes on non-reference types");
}
