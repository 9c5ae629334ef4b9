// C07: lookup of methods, constructors and properties.
#include "bases.h"
using namespace vc;

// the item answers to the name: it is its full name, or the part before its parameter list
static bool answers(MetaItem const *it, std::string_view name)
{
    auto const &n = it->name();
    auto pos = n.find('(');
    if (pos != std::string::npos) {      // strings are equal exactly when both their parts are
        vc_str_axiom(n.data(), pos, n.size());
        if (pos <= name.size()) vc_str_axiom(name.data(), pos, name.size());
    }
    if (sid(n) == sid(name)) return true;
    return pos != std::string::npos && vc_sid(n.data(), pos) == sid(name);
}
template<class C> void finds(C *c, MetaCategory cat)
{
    Box<C> b{c, cat};
    auto name = any_view();
    auto r = b.d->findMethod(cat, name);
    if (r) {
        vc_cover("found");
        vc_assert(answers(r, name), "what is found answers to the name");
        auto node = List::lookup(b.v.names, nameid(r));
        vc_assert(node && b.v.at(node->second) == r, "what is found is one of the container's items of the category");
        assert_forall(node->second, [&](u64 i) { return !answers(b.v.at(i), name); }, "what is found is the first item that answers to the name");
    } else {
        vc_cover("missing");
        assert_forall(b.v.n, [&](u64 i) { return !answers(b.v.at(i), name); }, "nothing is found only when no item answers to the name");
    }
    assert_list(*b.v.l, b.v.n, [&](u64 j) { return b.v.at(j); });
}
CONTRACT(find_method) { finds(a_namespace(), mcatMethod); }
CONTRACT(find_constructor) { finds(a_class(), mcatConstructor); }
template<class C> void empty_name(C *c)
{
    auto d = c->MetaContainer::d_func();
    Snap m, p; m.take(d->m_methods); p.take(d->m_properties);
    vc_assert(static_cast<MetaContainer const*>(c)->getMethod(std::string_view{}) == nullptr, "no method has an empty name");
    vc_assert(static_cast<MetaContainer const*>(c)->getProperty(std::string_view{}) == nullptr, "no property has an empty name");
    vc_cover("reached");
}
CONTRACT(find_empty_name) { empty_name(a_namespace()); }
CONTRACT(find_empty_name_in_class) { empty_name(a_class()); }

// below: findMethod by its contract (proved above), as an arbitrary function of container, category and name
static MetaItem* find_stub(MetaContainerPrivate const *d, MetaCategory cat, std::string_view name) { return (MetaItem*)vc_uf(7, u64(d), u64(cat), sid(name)); }
static u64 found(MetaContainerPrivate const *d, MetaCategory cat, std::string_view name) { return vc_uf(7, u64(d), u64(cat), sid(name)); }
template<class C> void through(C *c)
{
    vc_replace("rtti::MetaContainerPrivate::findMethod(", (void*)&find_stub);
    auto d = c->MetaContainer::d_func();
    auto name = nonempty_view();
    vc_assert(u64(c->getConstructor(name)) == found(d, mcatConstructor, name), "constructors are looked up among the container's own constructors");
    vc_assert(u64(c->defaultConstructor()) == found(d, mcatConstructor, "d_constructor"), "the default constructor is looked up by its name");
    vc_assert(u64(c->copyConstructor()) == found(d, mcatConstructor, "c_constructor"), "the copy constructor is looked up by its name");
    vc_assert(u64(c->moveConstructor()) == found(d, mcatConstructor, "m_constructor"), "the move constructor is looked up by its name");
    if constexpr (!std::is_same_v<C, MetaClass>) vc_assert(u64(c->getMethod(name)) == found(d, mcatMethod, name), "methods are looked up among the namespace's own methods");
    vc_cover("reached");
}
CONTRACT(get_in_namespace) { through(a_namespace()); }
CONTRACT(get_in_class) { through(a_class()); }

static u64 in_base(u64 what, MetaClass const *c, u64 name) { return vc_uf(what, u64(c), name, 0); }
static MetaMethod const* method_stub(MetaClass const *c, std::string_view name) { return (MetaMethod const*)in_base(2, c, sid(name)); }
static MetaProperty const* property_stub(MetaClass const *c, std::string_view name) { return (MetaProperty const*)in_base(3, c, sid(name)); }
static void first_in_bases(Bases const &b, u64 own, u64 r, u64 what, u64 name)
{
    if (own) { vc_cover("own"); vc_assert(r == own, "a member of the class itself comes first"); return; }
    if (r) {
        vc_cover("in a base");
        if (vc_choice()) {
            assume_forall(b.n, [=](u64 j) { return in_base(what, class_of(b.items[j].first), name) == 0; });
            vc_assert(false, "something is found only when a base has the member");
        }
        // the bases from which r cannot come do not end the search
        u64 i = vc_any_size(); vc_assume(i < b.n);
        u64 x = in_base(what, class_of(b.items[i].first), name);
        if (x != 0) {
            // the first base that has the member decides
            bool earlier = false;
            if (vc_choice()) {
                u64 j = vc_any_size(); vc_assume(j < i);
                vc_assume(in_base(what, class_of(b.items[j].first), name) != 0);
                earlier = true;
            } else {
                vc_hint(i);
                assume_forall(i, [=](u64 j) { return in_base(what, class_of(b.items[j].first), name) == 0; });
            }
            if (!earlier) vc_assert(r == x, "the first base in registration order that has the member gives it");
        }
    } else {
        vc_cover("nowhere");
        assert_forall(b.n, [&](u64 i) { return in_base(what, class_of(b.items[i].first), name) == 0; }, "nothing is found only when no base has the member");
    }
}
CONTRACT(method_in_class)
{
    auto c = a_class(); auto b = any_bases(c);
    vc_replace("rtti::MetaContainerPrivate::findMethod(", (void*)&find_stub);
    vc_recursive("rtti::MetaClass::getMethodInternal(", (void*)&method_stub);
    auto name = nonempty_view();
    u64 own = found(c->MetaContainer::d_func(), mcatMethod, name);
    auto r = static_cast<MetaContainer const*>(c)->getMethod(name);
    first_in_bases(b, own, u64(r), 2, sid(name));
}
CONTRACT(property_in_class)
{
    auto c = a_class(); auto b = any_bases(c);
    Box<MetaClass> box{c, mcatProperty};
    vc_recursive("rtti::MetaClass::getPropertyInternal(", (void*)&property_stub);
    auto name = nonempty_view();
    u64 own = box.taken(sid(name)) ? u64(box.named(sid(name))) : 0;
    auto r = static_cast<MetaContainer const*>(c)->getProperty(name);
    first_in_bases(b, own, u64(r), 3, sid(name));
    box.others();
}

// --- the texts items are registered under: name(parameter types), a method's instance first ---------------------------------------------------------------------
namespace {
template<class ...A> u64 text(u64 name)
{
    std::string_view types[] = {type_name<A>()..., std::string_view{}};
    u64 t = sid(std::string_view{")"});
    for (int i = int(sizeof...(A)) - 1; i >= 0; --i) { t = vc_cat(sid(types[i]), t); if (i) t = vc_cat(sid(std::string_view{", "}), t); }
    return vc_cat(name, vc_cat(sid(std::string_view{"("}), t));
}
template<class ...A, class F> void signed_as(F f)
{
    auto name = nonempty_view(); u64 id = sid(name);
    std::string r = f(name);
    vc_assert(sid(std::string_view{r}) == text<A...>(id), "the signature is the name and the parameter types in order");
    vc_cover("reached");
}
using rtti::internal::MethodInvoker; using rtti::internal::ConstructorInvoker;
struct K { K(); K(K const&); K(K&&); K(int, K const&); explicit K(double); void f(int, K const&) const; int g(char*); static void s(K, unsigned&); void none(); };
void free_one(int const&); int free_none(); void many(int, int, int, int, int, int, int, int, int, int);
template<class F, class ...A> void method(F f) { signed_as<A...>([=](std::string_view n) { auto &m = *make<MethodInvoker<F>>(f); return static_cast<IMethodInvoker const&>(m).signature(n); }); }
template<class ...A> std::string constructed(std::string_view n) { auto &m = *make<ConstructorInvoker<K, A...>>(); return static_cast<IConstructorInvoker const&>(m).signature(n); }
template<class ...A> void constructor() { signed_as<A...>([](std::string_view n) { return constructed<A...>(n); }); }
template<class ...A> void special(std::string_view fixed)
{
    vc_assert(sid(std::string_view{constructed<A...>(any_view())}) == sid(fixed), "a default, copy or move constructor has its fixed signature");
    vc_cover("reached");
}
}
CONTRACT(signature_const_method) { method<decltype(&K::f), K const&, int, K const&>(&K::f); }
CONTRACT(signature_method) { method<decltype(&K::g), K&, char*>(&K::g); }
CONTRACT(signature_method_none) { method<decltype(&K::none), K&>(&K::none); }
CONTRACT(signature_static_method) { method<decltype(&K::s), K, unsigned&>(&K::s); }
CONTRACT(signature_function) { method<decltype(&free_one), int const&>(&free_one); }
CONTRACT(signature_function_none) { method<decltype(&free_none)>(&free_none); }
CONTRACT(signature_function_many) { method<decltype(&many), int, int, int, int, int, int, int, int, int, int>(&many); }
CONTRACT(signature_default_constructor) { special<>("d_constructor"); }
CONTRACT(signature_copy_constructor) { special<K const&>("c_constructor"); }
CONTRACT(signature_move_constructor) { special<K&&>("m_constructor"); }
CONTRACT(signature_constructor_one) { constructor<double>(); }
CONTRACT(signature_constructor_two) { constructor<int, K const&>(); }
