// C08: inheritance queries and casts follow the registered base-class graph.
#include "bases.h"
using namespace vc;

// contracts of the recursive calls (on a base): arbitrary functions of their arguments
static bool inherits(MetaClass const *c, MetaClass const *base) { return vc_ufb(2, u64(c), u64(base), 0); }
static void const* cast_of(MetaClass const *c, MetaClass const *base, void const *p) { return (void const*)vc_uf(3, u64(c), u64(base), u64(p)); }
static u64 converted(u64 func, void const *p) { return vc_uf(4, func, u64(p), 0); }
static u64 calls;
static void const* convert(u64 func, void const *p) { ++calls; return (void const*)converted(func, p); }
static MetaClass const *queried; static bool by_query;
static bool inherits_contract(MetaClass const *c, MetaClass const *base) { return base && (c == base || inherits(c, base)); }

CONTRACT(inherited_from)
{
    auto c = a_class(); auto b = any_bases(c);
    vc_recursive("rtti::MetaClass::inheritedFrom(", (void*)&inherits_contract);
    MetaClass const *base = vc_choice() ? c : static_cast<MetaClass const*>(vc_any_ptr());
    MetaClass const &k = *c;
    bool r = k.inheritedFrom(base);
    if (!base) { vc_cover("null class"); vc_assert(!r, "a null class is inherited by nothing"); return; }
    if (base == c) { vc_cover("the same class"); vc_assert(r, "a class counts as inheriting from itself"); return; }
    if (r) {
        vc_cover("inherits");
        if (vc_choice()) {
            assume_forall(b.n, [=](u64 i) { return !inherits_contract(class_of(b.items[i].first), base); });
            vc_assert(false, "inheritance is reported only when a direct base inherits");
        }
    } else {
        vc_cover("does not inherit");
        assert_forall(b.n, [&](u64 i) { return !inherits_contract(class_of(b.items[i].first), base); }, "inheritance is reported whenever a direct base inherits");
    }
}
template<class Cast> void casts(Cast cast)
{
    auto c = a_class(); auto b = any_bases(c);
    vc_replace("rtti::MetaClass::inheritedFrom(", (void*)&inherits_contract);
    vc_recursive("rtti::MetaClass::cast(rtti::MetaClass const*, void const*) const", (void*)&cast_of);
    vc_indirect((void*)&convert);
    calls = 0;
    MetaClass const *base = vc_choice() ? c : static_cast<MetaClass const*>(vc_any_ptr());
    auto p = vc_any_ptr();
    void const *r = cast(*c, base, p);
    if (!base) { vc_cover("null class"); vc_assert(!r, "a cast to a null class gives null"); return; }
    if (base == c) { vc_cover("the same class"); vc_assert(r == p && calls == 0, "a cast to the class itself gives the same pointer"); return; }
    // some base that inherits, none before it doing so
    if (vc_choice()) {
        u64 i = vc_any_size(); vc_assume(i < b.n); vc_hint(i);
        assume_forall(i, [=](u64 j) { return !inherits_contract(class_of(b.items[j].first), base); });
        auto direct = class_of(b.items[i].first);
        vc_assume(inherits_contract(direct, base));
        vc_cover("inherited");
        vc_assert(calls == 1, "exactly one direct-base conversion is applied");
        vc_assert(r == cast_of(direct, base, (void const*)converted(u64(b.items[i].second), p)), "the result is the first inheriting base's cast of the converted pointer");
    } else {
        assume_forall(b.n, [=](u64 j) { return !inherits_contract(class_of(b.items[j].first), base); });
        vc_cover("unrelated");
        vc_assert(!r && calls == 0, "a cast to an unrelated class gives null");
    }
}
CONTRACT(cast_const) { casts([](MetaClass const &c, MetaClass const *b, void *p) -> void const* { return c.cast(b, const_cast<void const*>(p)); }); }
CONTRACT(cast_mutable) { casts([](MetaClass const &c, MetaClass const *b, void *p) -> void const* { return c.cast(b, p); }); }

// direct-base conversions registered by _base<>()
#include <rtti/metadefine.h>
namespace h {
struct A { long a; }; struct B { long b, b2; }; struct E {};
struct M: A, B { long m; }; struct N: E, M { }; struct P { virtual void f() const {} long p; }; struct Q: A, P { };
}
template<class D, class Base> static void conversion()
{
    auto p = vc_any_ptr();
    D const *d = static_cast<D const*>(p);
    Base const *want = d;
    vc_assert(rtti::internal::metacast_to_base<D, Base>(p) == want, "a direct-base conversion gives the base sub-object, and null for null");
    if (p) vc_cover("object"); else vc_cover("null");
}
CONTRACT(conversion_first) { conversion<h::M, h::A>(); }
CONTRACT(conversion_second) { conversion<h::M, h::B>(); }
CONTRACT(conversion_empty) { conversion<h::N, h::E>(); }
CONTRACT(conversion_after_empty) { conversion<h::N, h::M>(); }
CONTRACT(conversion_polymorphic) { conversion<h::Q, h::P>(); }
CONTRACT(conversion_nonprimary) { conversion<h::Q, h::A>(); }

// checked casts
struct From { ClassInfo info; ClassInfo classInfo() const { return info; } };
struct To { long x; };
struct NoInfo { long x; };
static u64 to_id; static MetaType_ID to_type() { return MetaType_ID{to_id}; }
static void const* cast_any(MetaClass const *c, MetaClass const *base, void const *p) { vc_assert(c && base, "casts start from and lead to registered classes"); return cast_of(c, base, p); }
static To const* expected(From const *f)
{
    if (!f) return nullptr;
    auto a = class_of(f->info.typeId), b = class_of(MetaType_ID{to_id});
    if (!a || !b) return nullptr;
    return static_cast<To const*>(cast_of(a, b, f->info.instance));
}
static void checked_setup()
{
    to_id = vc_any64();
    vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&class_of);
    vc_replace("mpl::ID<rtti::internal::meta_type_tag, unsigned long, 0ul> rtti::metaTypeId<To>(", (void*)&to_type);
    vc_replace("rtti::MetaClass::cast(rtti::MetaClass const*, void const*) const", (void*)&cast_any);
}
static From* any_from() { auto f = input<From>(); f->info = ClassInfo{MetaType_ID{vc_any64()}, vc_any_ptr()}; return f; }
CONTRACT(meta_cast_pointer)
{
    checked_setup();
    From *f = vc_choice() ? any_from() : nullptr;
    auto want = expected(f);
    vc_assert(meta_cast<To>(f) == want, "the checked pointer cast gives the class cast's result, null when unrelated or unregistered");
    vc_assert(meta_cast<To>(const_cast<From const*>(f)) == want, "the checked const pointer cast agrees");
    if (want) vc_cover("cast"); else vc_cover("null");
}
CONTRACT(meta_cast_reference)
{
    checked_setup();
    From *f = any_from();
    auto want = expected(f);
    bool threw = false; To const *r = nullptr;
    try { r = vc_choice() ? &meta_cast<To>(*f) : &meta_cast<To>(*const_cast<From const*>(f)); }
    catch (bad_meta_cast const&) { threw = true; }
    vc_assert(threw == !want, "the checked reference cast raises a bad-cast error exactly when the pointer cast gives null");
    if (threw) vc_cover("refused"); else { vc_cover("cast"); vc_assert(r == want, "the checked reference cast designates the cast object"); }
}
CONTRACT(meta_cast_without_class_info)
{
    auto p = static_cast<NoInfo*>(vc_any_ptr());
    vc_assert(meta_cast<To>(p) == nullptr, "an object without class information casts to nothing else");
    vc_assert(meta_cast<NoInfo>(p) == p && meta_cast<NoInfo>(const_cast<NoInfo const*>(p)) == p, "an object casts to its own class");
    vc_cover("reached");
}
