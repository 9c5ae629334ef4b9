// C05: random histories of item creation in several containers against a list model.
#include "inv.h"
#include <map>
#include <set>
struct Model { std::vector<std::pair<std::string, MetaItem const*>> l[mcatCount]; };
static std::map<MetaContainer*, Model> models;
static std::vector<MetaContainer*> boxes;
static std::string trace;

static MetaItem const* by_index(MetaContainer const &c, int cat, std::size_t i) {
    switch (cat) { case mcatNamespace: return c.getNamespace(i); case mcatClass: return c.getClass(i); case mcatProperty: return c.getProperty(i); case mcatMethod: return c.getMethod(i); case mcatEnum: return c.getEnum(i); default: return c.getConstructor(i); }
}
static std::size_t count(MetaContainer const &c, int cat) {
    switch (cat) { case mcatNamespace: return c.namespaceCount(); case mcatClass: return c.classCount(); case mcatProperty: return c.propertyCount(); case mcatMethod: return c.methodCount(); case mcatEnum: return c.enumCount(); default: return c.constructorCount(); }
}
static MetaItem const* by_name(MetaContainer const &c, int cat, std::string_view n) {
    switch (cat) { case mcatNamespace: return c.getNamespace(n); case mcatClass: return c.getClass(n); case mcatProperty: return c.getProperty(n); case mcatMethod: return c.getMethod(n); case mcatEnum: return c.getEnum(n); default: return c.getConstructor(n); }
}
static std::string word() {
    static char const *w[] = {"a", "ab", "abc", "b", "x", "get", "getAll", "value", "value2", "", "item with spaces", "operator()", "a_rather_long_name_that_does_not_fit_small_string_storage", "a_rather_long_name_that_does_not_fit_small_string_storage2"};
    auto s = std::string{w[drv::rng.below(sizeof w / sizeof *w)]};
    if (s.empty() || drv::rng.below(5) == 0) s += std::to_string(drv::rng.below(40));
    return s;
}
static void check(MetaContainer &c, int cat) {
    auto &m = models[&c].l[cat];
    EXPECT(count(c, cat) == m.size(), "category ", cat, " has ", count(c, cat), " items, expected ", m.size(), " after", trace);
    for (std::size_t i = 0; i < m.size(); ++i) {
        EXPECT(by_index(c, cat, i) == m[i].second, "category ", cat, ": item ", i, " of ", m.size(), " is not the one registered there, after", trace);
        if (m[i].second) EXPECT(m[i].second->name() == m[i].first, "item ", i, " is called ", m[i].second->name(), " not ", m[i].first);
        EXPECT(by_name(c, cat, m[i].first) == m[i].second, "category ", cat, ": lookup of ", m[i].first, " fails after", trace);
    }
    for (auto i: {m.size(), m.size() + 1, m.size() + 100, std::size_t(-1), std::size_t(1) << 32})
        EXPECT(by_index(c, cat, i) == nullptr, "category ", cat, ": an item at index ", i, " of ", m.size());
    auto n = "no such name " + std::to_string(drv::rng.below(1000));
    EXPECT(by_name(c, cat, n) == nullptr, "category ", cat, ": found the unregistered name ", n);
    if (cat == mcatMethod || cat == mcatClass) {
        std::size_t stop = m.empty() ? 0 : drv::rng.below(m.size() + 2), calls = 0; bool ok = true;
        auto f = [&](MetaItem const *it) { ok = ok && calls < m.size() && it == m[calls].second; ++calls; return calls != stop; };
        if (cat == mcatMethod) c.for_each_method(f); else c.for_each_class(f);
        EXPECT(ok && calls == (stop >= 1 && stop <= m.size() ? stop : m.size()), "iteration over category ", cat, " made ", calls, " calls of ", m.size(), " (told to stop after ", stop, ") or in another order");
    }
}
static void create(MetaContainer &c, int cat) {
    auto name = std::make_unique<std::string>(word());
    std::string full = *name; MetaItem *r = nullptr;
    static char const *sigs[] = {"()", "(int)", "(int, char)", "(int) const", "(rtti::variant const&)"};
    std::string sig = sigs[drv::rng.below(5)];
    if (cat == mcatMethod || cat == mcatConstructor) full += sig;
    auto tid = cat == mcatClass ? fresh_type() : MetaType_ID{};
    auto &m = models[&c].l[cat];
    MetaItem const *old = nullptr;
    for (auto &x: m) if (x.first == full) old = x.second;
    if (trace.size() > 300) trace.erase(0, 100);
    trace += drv::cat(" create(", cat, ", ", full, ")");
    switch (cat) {
    case mcatNamespace: r = MetaNamespace::create(*name, c); break;
    case mcatClass: r = MetaClass::create(*name, c, tid); break;
    case mcatProperty: r = MetaProperty::create(*name, c, std::make_unique<PInv>()); break;
    case mcatMethod: r = MetaMethod::create(*name, c, std::make_unique<Inv>(sig)); break;
    case mcatEnum: r = MetaEnum::create(*name, c, MetaType_ID{}); break;
    default: r = MetaConstructor::create(*name, c, std::make_unique<CInv>(sig)); break;
    }
    std::memset(name->data(), '#', name->size()); name.reset();
    EXPECT(r != nullptr, "create returned nothing:", trace);
    if (old) EXPECT(r == old, "creating under the taken name ", full, " did not return the existing item, after", trace);
    else {
        for (auto &b: models) for (auto &l: b.second.l) for (auto &x: l) EXPECT(x.second != r, "creating ", full, " returned an item of another name, container or category (", x.first, "), after", trace);
        if (r) {
            EXPECT(r->name() == full, "the new item is called ", r->name(), " not ", full);
            EXPECT(r->owner() == &c, "the new item ", full, " has another owner");
            EXPECT(r->category() == cat, "the new item ", full, " has category ", r->category(), " not ", cat);
        }
        m.push_back({full, r});
        if (r && (cat == mcatNamespace || cat == mcatClass) && boxes.size() < 12) boxes.push_back(static_cast<MetaContainer*>(r));
    }
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    int round = 0;
    while (drv::time_left() && drv::fails < 5) {
        models.clear(); boxes.clear(); trace.clear();
        auto root = MetaNamespace::create("round" + std::to_string(round++), const_cast<MetaNamespace&>(*MetaNamespace::global()));
        boxes.push_back(root);
        for (int k = 0; k < 120 && drv::fails < 5; ++k) {
            auto &c = *boxes[drv::rng.below(boxes.size())];
            int cat = drv::rng.below(mcatCount);
            create(c, cat);
            check(c, cat);
            if (k % 30 == 29) for (auto b: boxes) for (int i = 0; i < mcatCount; ++i) check(*b, i);
        }
        // a class whose base has members of the same names keeps its own
        auto bt = fresh_type(), dt = fresh_type();
        auto base = MetaClass::create("Base 0", *root, bt); auto derived = MetaClass::create("Derived 0", *root, dt);
        models[root].l[mcatClass].push_back({"Base 0", base}); models[root].l[mcatClass].push_back({"Derived 0", derived});
        derived->addBaseClass(bt, [](void const *p) { return p; });
        trace = " derived class of a base with the same members:";
        for (int k = 0; k < 10; ++k) { int cat = drv::rng.below(mcatCount); create(*base, cat); create(*derived, drv::rng.flip() ? cat : int(drv::rng.below(mcatCount))); }
        for (auto x: {mcatMethod, mcatProperty}) {
            auto &m = models[derived].l[x]; auto &mb = models[base].l[x];
            for (auto &e: mb) { bool own = false; for (auto &o: m) own |= o.first == e.first;
                if (!own && (x == mcatMethod || true)) { auto r = x == mcatMethod ? static_cast<MetaItem*>(MetaMethod::create(e.first.substr(0, e.first.rfind('(')), *derived, std::make_unique<Inv>(e.first.substr(e.first.rfind('(') == std::string::npos ? 0 : e.first.rfind('(')))))
                                                                         : static_cast<MetaItem*>(MetaProperty::create(e.first, *derived, std::make_unique<PInv>()));
                    EXPECT(r != e.second, "creating ", e.first, " in a derived class returned the base's item");
                    m.push_back({e.first, r}); } }
        }
        for (int i = 0; i < mcatCount; ++i) { check(*base, i); check(*derived, i); }
        EXPECT(!MetaProperty::create("", *root, std::make_unique<PInv>()), "a property with no name");
        EXPECT(!MetaProperty::create("no invoker", *root, nullptr), "a property with no invoker");
        EXPECT(!MetaMethod::create("no invoker", *root, nullptr), "a method with no invoker");
        EXPECT(!MetaConstructor::create("no invoker", *root, nullptr), "a constructor with no invoker");
        for (int i = 0; i < mcatCount; ++i) check(*root, i);
        EXPECT(!root->addItem(nullptr), "null added");
    }
    return drv::finish();
}
