// C09: class registration keeps type-class and base-derived links mutually consistent.
#include "types.h"
#include "bases.h"
using namespace vc;

// a registered type with (cls) or without (null) a class
static TypeInfo* a_type(MetaClass *cls)
{
    auto name = nonempty_view();
    auto t = make<TypeInfo>(name, vc_any64(), MetaType_ID{vc_any64()}, vc_any16(), vc_any16(), TypeFlags(vc_any32()), static_cast<metatype_manager_t const*>(vc_any_ptr()));
    t->metaClass.store(cls);
    return t;
}
static MetaType_ID id_of(TypeInfo const *t) { return MetaType_ID{u64(t)}; }
static std::string const* some_name(MetaItem const*) { return make<std::string>("q"); }
static void plain_texts() { vc_replace("rtti::MetaItem::qualifiedName", (void*)&some_name); }
enum class Got { value, invalid, duplicate, unregistered, memory };
template<class F> static Got outcome(F f)
{
    try { f(); return Got::value; }
    catch (invalid_metatype_id&) { return Got::invalid; }
    catch (duplicate_metaclass&) { return Got::duplicate; }
    catch (unregistered_metaclass&) { return Got::unregistered; }
    catch (std::bad_alloc&) { return Got::memory; }
}

template<class C> static void creates(C *owner, bool memory)
{
    plain_texts();
    Box<C> b{owner, mcatClass};
    auto name = nonempty_view(); u64 id = sid(name);
    auto other = vc_choice() ? a_class() : nullptr;
    auto t = vc_choice() ? a_type(other) : nullptr;
    bool taken = b.taken(id);
    auto unchanged = [&] { assert_list(*b.v.l, b.v.n, [&](u64 i) { return b.v.at(i); }); b.others(); if (t) vc_assert(t->metaClass.load() == other, "the type keeps the class it had"); };
    MetaClass *r = nullptr;
    vc_alloc_may_fail(memory);
    auto got = outcome([&] { r = MetaClass::create(name, *owner, id_of(t)); });
    vc_alloc_may_fail(false);
    vc_assert(got != Got::unregistered, "no other error");
    if (got == Got::memory) { vc_cover("out of memory"); vc_assert(memory, "memory"); unchanged(); return; }
    if (taken) {
        vc_cover("taken");
        if (t && !other) vc_assert(got == Got::value, "registering a taken name is no error");
        if (got == Got::value) vc_assert(r == b.named(id), "registering a taken name returns the existing class");
        unchanged();
    } else if (!t) { vc_cover("invalid type"); vc_assert(got == Got::invalid, "a class is registered only for a valid type"); unchanged(); }
    else if (other) { vc_cover("type has a class"); vc_assert(got == Got::duplicate, "a class is registered only for a type that has no class yet"); unchanged(); }
    else {
        vc_cover("registered");
        vc_assert(got == Got::value, "registration succeeds");
        b.created(r, id, false);
        vc_assert(t->metaClass.load() == r, "the type leads to the new class");
        vc_assert(r->metaTypeId() == id_of(t), "the class reports the type it was registered for");
        vc_assert(MetaClass::find(id_of(t)) == r, "finding the class by its type gives it");
        vc_assert(r->baseClassCount() == 0 && r->derivedClassCount() == 0, "a new class has no relatives");
    }
}
CONTRACT(create_in_namespace) { creates(a_namespace(), false); }
CONTRACT(create_in_class) { creates(a_class(), false); }
CONTRACT(create_without_memory) { creates(a_namespace(), true); }

// another thread takes the name between the first look-up and the insertion
static MetaContainerPrivate *raced; static List now; static u64 the_name; static bool came;
static void intrude(const void *lock, std::uint32_t mode) {
    if (lock != (const void*)&raced->m_classes.m_lock || mode != 2 || came) return;
    came = true; now = any_list(raced->m_classes);
}
CONTRACT(create_raced)
{
    auto owner = a_namespace(); raced = owner->MetaContainer::d_func();
    any_list(raced->m_classes); came = false;
    auto name = nonempty_view(); the_name = sid(name);
    auto t = a_type(nullptr);
    vc_on_lock(&intrude);
    auto r = MetaClass::create(name, *owner, id_of(t));
    vc_on_lock(nullptr);
    if (!came) { vc_cover("taken before"); vc_assert(t->metaClass.load() == nullptr, "the type stays without a class"); return; }
    auto node = List::lookup(now.names, the_name);
    if (t->metaClass.load() != nullptr) {
        vc_cover("ours");
        vc_assert(t->metaClass.load() == r && r->metaTypeId() == id_of(t), "the type leads to the class that was registered");
        vc_assert(raced->m_classes.m_items.size() == now.n + 1 && raced->m_classes.m_items[now.n].get() == r, "the registered class is the one in the owner");
    } else {
        vc_cover("theirs");
        vc_assert(node && now.at(node->second) == r, "the class that won the name is returned");
        assert_list(raced->m_classes, now.n, [&](u64 i) { return now.at(i); });
    }
}

CONTRACT(find_by_id)
{
    auto cls = vc_choice() ? a_class() : nullptr;
    auto t = a_type(cls);
    vc_assert(MetaClass::find(id_of(t)) == cls, "finding by id gives the class of the type, if it has one");
    vc_assert(MetaClass::find(MetaType_ID{}) == nullptr, "no class has the invalid id");
    vc_assert(MetaType{id_of(t)}.metaClass() == cls, "a type reports its class");
    vc_cover("reached");
}
CONTRACT(find_by_name)
{
    auto &types = *customTypes(); auto v = any_types(types);
    auto name = any_view(); u64 id = sid(name); vc_hint(id);
    auto node = name.empty() ? nullptr : type_lookup(v.names, id);
    auto want = node ? node->second->metaClass.load() : nullptr;
    vc_assert(MetaClass::find(name) == want, "finding by name gives the class of the type of that name, if it has one");
    if (node) { vc_cover("known"); vc_assert(MetaClass::find(id_of(node->second)) == want, "finding by name and by id agree"); } else vc_cover("unknown");
}

// --- bases and derived classes -------------------------------------------------------------------------------------------------
struct Relatives {
    rtti::internal::BaseClassList *bl; rtti::internal::DerivedClassList *dl;
    base_item_t *b; u64 nb; MetaType_ID *d; u64 nd;
    u64 bid(u64 i) const { return vc_peek(&b[i].first); } u64 bf(u64 i) const { return vc_peek(&b[i].second); } u64 did(u64 i) const { return vc_peek(d + i); }
    explicit Relatives(MetaClass *c) {
        auto p = c->MetaClass::d_func(); bl = &p->m_baseClasses; dl = &p->m_derivedClasses;
        nb = vc_any_size(); b = any_vector(bl->m_items, nb, vc_any_size()); nd = vc_any_size(); d = any_vector(dl->m_items, nd, vc_any_size());
        vc_hint(nb); vc_hint(nd);
    }
    // the lists hold what they held, and n more base / derived entries
    void bases(u64 more, u64 id, u64 f) const {
        if (more) vc_assert(bl->m_items.size() == nb + 1, "a new base is added once"); else vc_assert(bl->m_items.size() == nb, "no base is added");
        assert_forall(nb, [&](u64 i) { return bl->m_items[i].first.value() == bid(i) && u64(bl->m_items[i].second) == bf(i); }, "earlier bases keep their places");
        if (more) vc_assert(bl->m_items[nb].first.value() == id && u64(bl->m_items[nb].second) == f, "the new base comes after earlier ones, with its conversion");
    }
    void derived(u64 more, u64 id) const {
        if (more) vc_assert(dl->m_items.size() == nd + 1, "a new derived class is listed once"); else vc_assert(dl->m_items.size() == nd, "no derived class is added");
        assert_forall(nd, [&](u64 i) { return dl->m_items[i].value() == did(i); }, "earlier derived classes keep their places");
        if (more) vc_assert(dl->m_items[nd].value() == id, "the new derived class comes after earlier ones");
    }
};
static MetaClass* class_with(TypeInfo *t) { auto c = make<MetaClass>(nonempty_view(), any_owner(), id_of(t)); t->metaClass.store(c); return c; }
static void const* conv(void const *p) { return p; }
CONTRACT(add_base)
{
    auto tc = a_type(nullptr); auto c = class_with(tc); Relatives rc{c};
    auto tb = a_type(nullptr); auto base = class_with(tb); Relatives rb{base};
    bool has_b = vc_choice(), has_d = vc_choice();
    u64 idb = u64(tb), idc = u64(tc);
    if (has_b) { u64 i = vc_any_size(); vc_assume(i < rc.nb); vc_assume(rc.bid(i) == idb); vc_hint(i); } else { auto r = rc; assume_forall(rc.nb, [=](u64 i) { return r.bid(i) != idb; }); }
    if (has_d) { u64 i = vc_any_size(); vc_assume(i < rb.nd); vc_assume(rb.did(i) == idc); vc_hint(i); } else { auto r = rb; assume_forall(rb.nd, [=](u64 i) { return r.did(i) != idc; }); }
    auto got = outcome([&] { c->addBaseClass(id_of(tb), &conv); });
    vc_assert(got == Got::value, "a registered base is accepted");
    rc.bases(has_b ? 0 : 1, idb, u64(&conv)); rc.derived(0, 0);
    rb.bases(0, 0, 0); rb.derived(has_d ? 0 : 1, idc);
    if (has_b && has_d) vc_cover("repeated"); else if (!has_b && !has_d) vc_cover("new"); else vc_cover("mixed");
}
CONTRACT(add_base_refused)
{
    plain_texts();
    auto tc = a_type(nullptr); auto c = class_with(tc); Relatives rc{c};
    bool valid = vc_choice();
    auto tb = a_type(nullptr);
    auto got = outcome([&] { c->addBaseClass(valid ? id_of(tb) : MetaType_ID{}, &conv); });
    vc_assert(got == (valid ? Got::unregistered : Got::invalid), "a base must be a valid type with a registered class");
    rc.bases(0, 0, 0); rc.derived(0, 0);
    vc_assert(tb->metaClass.load() == nullptr, "a refused base registers nothing");
    if (valid) vc_cover("no class"); else vc_cover("invalid");
}
CONTRACT(add_base_without_memory)
{
    auto tc = a_type(nullptr); auto c = class_with(tc); Relatives rc{c};
    auto tb = a_type(nullptr); auto base = class_with(tb); Relatives rb{base};
    u64 idb = u64(tb), idc = u64(tc);
    { auto r = rc; assume_forall(rc.nb, [=](u64 i) { return r.bid(i) != idb; }); } { auto r = rb; assume_forall(rb.nd, [=](u64 i) { return r.did(i) != idc; }); }
    vc_alloc_may_fail(true);
    auto got = outcome([&] { c->addBaseClass(id_of(tb), &conv); });
    vc_alloc_may_fail(false);
    if (got == Got::value) { vc_cover("added"); return; }
    vc_cover("out of memory");
    // repeating the declaration completes it
    auto again = outcome([&] { c->addBaseClass(id_of(tb), &conv); });
    vc_assert(again == Got::value, "a declaration that ran out of memory can be repeated");
    rc.bases(1, idb, u64(&conv)); rb.derived(1, idc);
}
CONTRACT(list_bases)
{
    auto c = a_class(); Relatives rc{c}; MetaClass const *k = c;
    vc_assert(k->baseClassCount() == rc.nb, "the number of bases");
    vc_assert(k->derivedClassCount() == rc.nd, "the number of derived classes");
    u64 i = vc_any_size();
    if (vc_choice()) {
        if (i < rc.nb) { vc_assume(rc.bid(i) != 0); vc_cover("base"); vc_assert(k->baseClass(i) == ((TypeInfo const*)rc.bid(i))->metaClass.load(), "bases are listed in order, by their classes"); }
        else { vc_cover("no base"); vc_assert(k->baseClass(i) == nullptr, "there is no base out of range"); }
    } else {
        if (i < rc.nd) { vc_assume(rc.did(i) != 0); vc_cover("derived"); vc_assert(k->derivedClass(i) == ((TypeInfo const*)rc.did(i))->metaClass.load(), "derived classes are listed in order, by their classes"); }
        else { vc_cover("no derived"); vc_assert(k->derivedClass(i) == nullptr, "there is no derived class out of range"); }
    }
    rc.bases(0, 0, 0); rc.derived(0, 0);
}
