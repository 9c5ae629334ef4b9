// C10: lazy definitions: random containers, random first queries, definitions that nest, query, throw or re-attach; racing first queries.
#include "inv.h"
#include <rtti/finally.h>
#include <atomic>
#include <thread>
#include <memory>
using namespace rtti;
struct Boom: std::runtime_error { using std::runtime_error::runtime_error; };
static int value_;
static int method_() { return value_; }
struct Base_ {}; struct Derived_ {};
struct Log { std::atomic<int> runs{0}, gone{0}; };
struct Token { std::shared_ptr<Log> log; explicit Token(std::shared_ptr<Log> l): log{std::move(l)} {} };
static std::vector<std::pair<char const*, std::function<bool(MetaContainer const&)>>> const queries = {
    {"getNamespace(name)", [](auto &c) { return c.getNamespace("N") != nullptr; }}, {"getNamespace(0)", [](auto &c) { return c.getNamespace(std::size_t(0)) != nullptr; }}, {"namespaceCount", [](auto &c) { return c.namespaceCount() == 1; }},
    {"getMethod(name)", [](auto &c) { return c.getMethod("m") != nullptr; }}, {"getMethod(0)", [](auto &c) { return c.getMethod(std::size_t(0)) != nullptr; }}, {"methodCount", [](auto &c) { return c.methodCount() == 1; }},
    {"for_each_method", [](auto &c) { int n = 0; c.for_each_method([&](MetaMethod const*) { ++n; return true; }); return n == 1; }},
    {"for_each_class", [](auto &c) { int n = 0; c.for_each_class([&](MetaClass const*) { ++n; return true; }); return n == 1; }},
    {"getClass(name)", [](auto &c) { return c.getClass("K") != nullptr; }}, {"getClass(0)", [](auto &c) { return c.getClass(std::size_t(0)) != nullptr; }}, {"classCount", [](auto &c) { return c.classCount() == 1; }},
    {"getProperty(name)", [](auto &c) { return c.getProperty("p") != nullptr; }}, {"getProperty(0)", [](auto &c) { return c.getProperty(std::size_t(0)) != nullptr; }}, {"propertyCount", [](auto &c) { return c.propertyCount() == 1; }},
    {"getEnum(name)", [](auto &c) { return c.getEnum("E") != nullptr; }}, {"getEnum(0)", [](auto &c) { return c.getEnum(std::size_t(0)) != nullptr; }}, {"enumCount", [](auto &c) { return c.enumCount() == 1; }},
    {"attribute(name)", [](auto &c) { return c.attribute("a").template ref<int>() == 1; }}, {"attribute(0)", [](auto &c) { return !c.attribute(std::size_t(0)).empty(); }}, {"attributeCount", [](auto &c) { return c.attributeCount() == 1; }},
    {"attributeName", [](auto &c) { return c.attributeName(0) == "a"; }}, {"for_each_attribute", [](auto &c) { int n = 0; c.for_each_attribute([&](std::string_view, variant const&) { ++n; return true; }); return n == 1; }},
    {"force", [](auto &c) { c.forceDeferredDefine(); return true; }}, {"force recursive", [](auto &c) { c.forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); return true; }},
};
static std::vector<std::pair<char const*, std::function<bool(MetaClass const&, MetaClass const*)>>> const class_queries = {
    {"baseClassCount", [](auto &c, auto) { return c.baseClassCount() == 1; }}, {"baseClass(0)", [](auto &c, auto b) { return c.baseClass(0) == b; }}, {"inheritedFrom", [](auto &c, auto b) { return c.inheritedFrom(b); }},
    {"cast", [](auto &c, auto b) { return c.cast(b, (void const*)16) == (void const*)17; }},
    {"getMethod(inherited)", [](auto &c, auto) { return c.getMethod("inherited") != nullptr; }},
    {"getConstructor(name)", [](auto &c, auto) { return c.getConstructor("c(int)") != nullptr; }}, {"getConstructor(0)", [](auto &c, auto) { return c.getConstructor(std::size_t(0)) != nullptr; }}, {"constructorCount", [](auto &c, auto) { return c.constructorCount() == 1; }},
    {"derivedClassCount", [](auto &c, auto) { return c.derivedClassCount() == 1; }}, {"derivedClass(0)", [](auto &c, auto) { return c.derivedClass(0) != nullptr; }},
};
enum class En { x };
static void const* bump(void const *p) { return (char const*)p + 1; }
struct Holder: IDefinitionCallbackHolder {
    std::shared_ptr<Log> log; std::function<void(MetaContainer&)> f;
    Holder(std::shared_ptr<Log> l, std::function<void(MetaContainer&)> g): log{std::move(l)}, f{std::move(g)} {}
    void invoke(MetaContainer &c) override { ++log->runs; f(c); }
    ~Holder() override { ++log->gone; }
};
struct Access: rtti::meta_define<void> { Access(MetaContainer *c): rtti::meta_define<void>{c, c, nullptr} {} };
// attach through the public path (_lazy) or directly
static std::shared_ptr<Log> attach(MetaContainer &c, std::function<void(MetaContainer&)> f) {
    auto log = std::make_shared<Log>();
    if (drv::rng.flip()) c.setDeferredDefine(std::make_unique<Holder>(log, f));
    else Access{&c}._lazy([log, f, &c](rtti::meta_define<void> const&) { ++log->runs; f(c); });
    return log;
}
static void fill(MetaContainer &c) {
    MetaNamespace::create("N", c); MetaMethod::create("m", c, std::make_unique<Inv>("()")); MetaClass::create("K", c, fresh_type());
    MetaProperty::create("p", c, std::make_unique<PInv>()); MetaEnum::create("E", c, metaTypeId<En>()); c.setAttribute("a", variant{1});
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    int round = 0;
    while (drv::time_left() && drv::fails < 5) {
        ++round;
        auto ns = fresh_namespace();
        bool cls = drv::rng.flip(); MetaContainer *c; MetaClass *k = nullptr, *base = nullptr;
        auto bid = fresh_type(), kid = fresh_type(), did = fresh_type();
        base = MetaClass::create("Base", *ns, bid); MetaMethod::create("inherited", *base, std::make_unique<Inv>("()"));
        if (cls) c = k = MetaClass::create("Derived", *ns, kid); else c = MetaNamespace::create("Inner", *ns);
        MetaClass *d = MetaClass::create("Lower", *ns, did);
        int mode = drv::rng.below(4);       // 0 returns, 1 throws, 2 queries itself, 3 tries to attach another
        bool refused = false, nested_ok = true;
        auto log = attach(*c, [&](MetaContainer &x) {
            EXPECT(&x == c, "definition got another container");
            fill(x);
            if (cls) { k->addBaseClass(bid, &bump); d->addBaseClass(kid, &bump); MetaConstructor::create("c", *k, std::make_unique<CInv>("(int)")); }
            if (mode == 2) for (auto &q: queries) nested_ok &= q.second(x);
            if (mode == 3) try { attach(x, [](MetaContainer&) {}); } catch (definition_error&) { refused = true; }
            if (mode == 1) throw Boom{"boom"};
        });
        try { attach(*c, [](MetaContainer&) { drv::fail("the refused definition ran"); }); drv::fail("attaching a second definition did not raise"); } catch (definition_error const&) {}
        EXPECT(log->runs == 0, "the definition ran before any query");
        c->name(); c->owner(); c->category();
        std::size_t qi = drv::rng.below(queries.size() + (cls ? class_queries.size() : 0));
        char const *qn = qi < queries.size() ? queries[qi].first : class_queries[qi - queries.size()].first;
        auto ask = [&] { return qi < queries.size() ? queries[qi].second(*c) : class_queries[qi - queries.size()].second(*k, base); };
        bool threw = false, good = false;
        try { good = ask(); } catch (Boom&) { threw = true; }
        EXPECT(log->runs == 1, "first query ", qn, " ran the definition ", log->runs.load(), " times, mode ", mode);
        EXPECT(threw == (mode == 1), "error of the definition and query ", qn);
        EXPECT(threw || good, "query ", qn, " did not see the definition's items, mode ", mode);
        EXPECT(nested_ok, "queries made by the definition see what it defined");
        try { good = ask(); } catch (...) { drv::fail(drv::cat("later query ", qn, " threw")); }
        EXPECT(good, "later query ", qn, " does not see the definition's items");
        for (auto &q: queries) EXPECT(q.second(*c), "later query ", q.first, " is wrong after first query ", qn);
        EXPECT(log->runs == 1, "definition ran ", log->runs.load(), " times after later queries");
        if (mode == 3 && !refused) continue;
        bool again = false;
        NOTHROW(attach(*c, [&](MetaContainer&) { again = true; }), "attaching after the definition ran");
        ask(); EXPECT(again, "a definition attached later did not run on query ", qn);
        EXPECT(log->runs == 1, "the first definition ran again");

        // nested forcing
        {
            std::vector<std::shared_ptr<Log>> logs; std::vector<MetaContainer*> all{MetaNamespace::create("tree", *ns)};
            int n = drv::rng.below(9); std::string shape;
            for (int i = 0; i < n; ++i) {
                int p = drv::rng.below(all.size()); bool nc = drv::rng.flip();
                shape += drv::cat(" ", i + 1, nc ? "c" : "n", "<", p);
                all.push_back(nc ? static_cast<MetaContainer*>(MetaClass::create("x" + std::to_string(i), *all[p], fresh_type())) : MetaNamespace::create("x" + std::to_string(i), *all[p]));
            }
            for (auto x: all) logs.push_back(attach(*x, [](MetaContainer&) {}));
            bool rec = drv::rng.flip();
            all[0]->forceDeferredDefine(rec ? MetaContainer::ForceDeferred::Recursive : MetaContainer::ForceDeferred::SelfOnly);
            for (std::size_t i = 0; i < all.size(); ++i) EXPECT(logs[i]->runs == (rec || i == 0 ? 1 : 0), "forcing ", rec ? "recursively" : "one container", " ran definition ", i, " ", logs[i]->runs.load(), " times in tree", shape);
        }
        // scope guards
        {
            int ran = 0; bool dismiss = drv::rng.flip(), raise = drv::rng.flip(), move = drv::rng.flip();
            try {
                FINALLY_EX(guard) { ++ran; };
                if (move) { auto g2 = std::move(guard); if (dismiss) g2.dismiss(); if (raise) throw 1; } else { if (dismiss) guard.dismiss(); if (raise) throw 1; }
            } catch (int) {}
            EXPECT(ran == (dismiss ? 0 : 1), "scope action ran ", ran, " times, dismissed ", dismiss, " moved ", move, " raised ", raise);
        }
        // racing first queries
        if (round % 3 == 0) {
            auto x = MetaNamespace::create("raced", *ns);
            std::atomic<int> runs{0}, go{0};
            x->setDeferredDefine(std::make_unique<Holder>(std::make_shared<Log>(), [&](MetaContainer&) { ++runs; }));
            auto f = [&] { ++go; while (go < 4) {} x->methodCount(); };
            std::thread a{f}, b{f}, e{f}, g{f}; a.join(); b.join(); e.join(); g.join();
            EXPECT(runs == 1, "four racing queries ran the definition ", runs.load(), " times");
        }
    }
    return drv::finish();
}
