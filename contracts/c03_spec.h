// The relation MetaType::compatible must compute (C03), shared by the contract and the driver.  I: a type descriptor.
#pragma once
namespace {
template<class I> inline bool fl(I const *t, rtti::TypeFlags f) { return (std::uint32_t(t->flags) & std::uint32_t(f)) != 0; }

// an array proper: a pointer to an array is a pointer
template<class I> inline bool arr(I const *t) { return fl(t, rtti::TypeFlags::Array) & !fl(t, rtti::TypeFlags::Pointer); }

// The relation, written down without looking at bit positions one by one: masks are compared below and at `top`, the highest
// pointer level the target exposes.
template<class I> bool spec(I const *F, I const *T)
{
    using rtti::TypeFlags;
    bool fl_ = fl(F, TypeFlags::LvalueReference);
    bool tl = fl(T, TypeFlags::LvalueReference), tr = fl(T, TypeFlags::RvalueReference), tc = fl(T, TypeFlags::Const);
    bool fa = arr(F), ta = arr(T), tp = fl(T, TypeFlags::Pointer);
    bool ok = !(!fl_ & tl & !tc) & !(fl_ & tr) & !(fa & ta & (F->size < T->size));
    std::uint32_t arity = std::uint32_t(F->arity) + std::uint32_t(fa & tp);
    ok = ok & (arity == T->arity);
    bool tref = tl | tr;
    std::uint32_t f = F->const_mask, t = T->const_mask;
    bool all = !tref & (arity == 0);                     // only the top level is left and its const does not matter
    std::uint32_t top = tref ? arity : arity - 1;
    f = f | (std::uint32_t(fa & !ta & tref) << (arity & 15));
    std::uint32_t m = (2u << (top & 15)) - 1;
    std::uint32_t dropped = f & ~t & m;                  // const in the source, not in the target
    std::uint32_t added = ~f & t & m;                    // const in the target only
    std::uint32_t low = added & (~added + 1);            // the lowest such level
    std::uint32_t above = m & ~(low | (low - 1));        // every exposed level above it
    bool masks = (dropped == 0) & ((added == 0) | ((above & ~t) == 0));
    return ok & (all | masks);
}
}
