// C07: lookups in random containers and class graphs against a straightforward model.
#include "inv.h"
#include <map>
using namespace rtti;
struct Node { MetaContainer *c; std::vector<Node*> bases; std::vector<std::pair<std::string, MetaItem const*>> l[mcatCount]; };
static MetaItem const* model_own(Node const &n, int cat, std::string const &name) {
    for (auto &x: n.l[cat]) {
        if (x.first == name) return x.second;
        if (cat == mcatProperty) continue;
        auto pos = x.first.find('(');
        if (pos != std::string::npos && x.first.substr(0, pos) == name) return x.second;
    }
    return nullptr;
}
static MetaItem const* model(Node const &n, int cat, std::string const &name) {
    if (name.empty()) return nullptr;
    if (auto r = model_own(n, cat, name)) return r;
    if (cat != mcatConstructor) for (auto b: n.bases) if (auto r = model(*b, cat, name)) return r;
    return nullptr;
}
static MetaItem const* real(Node const &n, int cat, std::string_view name) {
    MetaContainer const &c = *n.c;
    switch (cat) { case mcatMethod: return c.getMethod(name); case mcatProperty: return c.getProperty(name); default: return c.getConstructor(name); }
}
static char const *stems[] = {"get", "getAll", "g", "set", "a", "ab", "operator()", "op", "value", "a_rather_long_name_that_does_not_fit_small_string_storage"};
static char const *sigs[] = {"()", "(int)", "(int, int)", "(int) const", "(std::string const&)", "(void (*)(int))", ""};
static std::string name() {
    std::string s = std::string{stems[drv::rng.below(10)]} + sigs[drv::rng.below(7)];
    switch (drv::rng.below(8)) { case 0: return s.substr(0, drv::rng.below(s.size() + 1)); case 1: return s + "x"; case 2: return s + "("; case 3: return s.substr(drv::rng.below(s.size())); default: return s; }
}
static void query(Node const &n, std::string const &what) {
    for (int cat: {mcatMethod, mcatProperty, mcatConstructor}) {
        auto copy = std::make_unique<std::string>(what);
        auto r = real(n, cat, *copy); auto m = model(n, cat, what);
        EXPECT(r == m, "looking up ", what, " in category ", cat, " gives ", r ? r->owner()->name() + "::" + r->name() : std::string{"nothing"}, ", expected ", m ? m->owner()->name() + "::" + m->name() : std::string{"nothing"});
    }
}
// the texts real functions are registered under
namespace {
struct K { K() {} K(K const&) {} K(K&&) {} K(int, K const&) {} explicit K(double) {} void f(int, K const&) const {} int g(char*) { return 0; } static void s(K, unsigned&) {} void none() {} };
void free_one(int const&) {} int free_none() { return 0; } void many(int, int, int, int, int, int, int, int, int, char) {}
template<class ...A> std::string text(std::string const &n) { std::string r = n + "("; bool first = true; (void)first; ((r += first ? "" : ", ", first = false, r += type_name<A>()), ...); return r + ")"; }
void registered(MetaContainer &c, std::string const &stem, std::string const &want, std::unique_ptr<IMethodInvoker> i, bool ctor = false) {
    MetaItem const *m = ctor ? static_cast<MetaItem*>(MetaConstructor::create(stem, c, std::unique_ptr<IConstructorInvoker>{static_cast<IConstructorInvoker*>(i.release())})) : static_cast<MetaItem*>(MetaMethod::create(stem, c, std::move(i)));
    EXPECT(m && m->name() == want, "registering ", stem, " gives the signature ", m ? m->name() : std::string{"(nothing)"}, ", expected ", want);
    MetaItem const *r = ctor ? static_cast<MetaItem const*>(c.getConstructor(want)) : static_cast<MetaItem const*>(c.getMethod(want));
    EXPECT(r == m, "looking up ", want, " does not give the item registered as such");
}
template<class ...A, class F> void method(MetaContainer &c, F f) { std::string n = stems[drv::rng.below(10)]; n += std::to_string(drv::rng.below(100000000)); registered(c, n, text<A...>(n), std::make_unique<rtti::internal::MethodInvoker<F>>(f)); }
template<class ...A> void constructor(MetaContainer &c, std::string const &fixed = {}) { std::string n = stems[drv::rng.below(10)]; n += std::to_string(drv::rng.below(100000000)); registered(c, n, fixed.empty() ? text<A...>(n) : fixed, std::make_unique<rtti::internal::ConstructorInvoker<K, A...>>(), true); }
void signatures(MetaNamespace &ns) {
    method<K const&, int, K const&>(ns, &K::f); method<K&, char*>(ns, &K::g); method<K&>(ns, &K::none); method<K, unsigned&>(ns, &K::s);
    method<int const&>(ns, &free_one); method<>(ns, &free_none); method<int, int, int, int, int, int, int, int, int, char>(ns, &many);
    auto c = MetaClass::create("S", ns, fresh_type());
    constructor<>(*c, "d_constructor"); constructor<K const&>(*c, "c_constructor"); constructor<K&&>(*c, "m_constructor"); constructor<double>(*c); constructor<int, K const&>(*c);
}
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    for (int i = 0; i < 50 && !drv::fails; ++i) signatures(*fresh_namespace());
    while (drv::time_left() && drv::fails < 5) {
        auto ns = fresh_namespace();
        std::vector<std::unique_ptr<Node>> nodes;
        nodes.push_back(std::make_unique<Node>(Node{ns}));
        int k = 2 + drv::rng.below(6);
        std::vector<MetaType_ID> ids{MetaType_ID{}};
        for (int i = 1; i <= k; ++i) { auto t = fresh_type(); ids.push_back(t); nodes.push_back(std::make_unique<Node>(Node{MetaClass::create("C" + std::to_string(i), *ns, t)})); }
        auto link = [&] {
            for (int i = 2; i <= k; ++i) for (int j = i - 1; j >= 1; --j) if (drv::rng.below(3) == 0) {
                bool have = false; for (auto b: nodes[i]->bases) have |= b == nodes[j].get();
                static_cast<MetaClass*>(nodes[i]->c)->addBaseClass(ids[j], [](void const *p) { return p; });
                if (!have) nodes[i]->bases.push_back(nodes[j].get());
            }
        };
        if (drv::rng.flip()) link();
        int items = drv::rng.below(40);
        for (int i = 0; i < items; ++i) {
            auto &n = *nodes[drv::rng.below(nodes.size())];
            int cat = std::array{mcatMethod, mcatProperty, mcatConstructor}[drv::rng.below(3)];
            std::string stem = stems[drv::rng.below(10)], sig = sigs[drv::rng.below(cat == mcatMethod ? 6 : 7)], full = cat == mcatProperty ? stem : stem + sig;
            MetaItem const *r = cat == mcatMethod ? static_cast<MetaItem*>(MetaMethod::create(stem, *n.c, std::make_unique<Inv>(sig))) : cat == mcatProperty ? static_cast<MetaItem*>(MetaProperty::create(stem, *n.c, std::make_unique<PInv>()))
                              : static_cast<MetaItem*>(MetaConstructor::create(stem, *n.c, std::make_unique<CInv>(sig)));
            bool known = false; for (auto &x: n.l[cat]) known |= x.second == r;
            if (!known) n.l[cat].push_back({full, r});
        }
        link();
        for (int q = 0; q < 60; ++q) query(*nodes[drv::rng.below(nodes.size())], name());
        for (auto &n: nodes) { query(*n, ""); for (auto &l: n->l) for (auto &x: l) { query(*n, x.first); query(*n, x.first.substr(0, x.first.find('('))); query(*n, x.first.substr(0, x.first.size() - 1)); } }
        auto ctor = [&](char const *nm) { return model(*nodes[1], mcatConstructor, nm); };
        auto def = MetaConstructor::create("d_constructor", *nodes[1]->c, std::make_unique<CInv>("()")), cp = MetaConstructor::create("c_constructor", *nodes[1]->c, std::make_unique<CInv>("(x)")), mv = MetaConstructor::create("m_constructor", *nodes[1]->c, std::make_unique<CInv>("(y)"));
        EXPECT(nodes[1]->c->defaultConstructor() == def, "wrong default constructor"); EXPECT(nodes[1]->c->copyConstructor() == cp, "wrong copy constructor"); EXPECT(nodes[1]->c->moveConstructor() == mv, "wrong move constructor");
    }
    return drv::finish();
}
