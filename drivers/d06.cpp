// C06: random histories of attribute and element setting against an ordered-table model.
#include "drv.h"
#include <rtti/metatype.h>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/metanamespace.h>
#include <rtti/metaenum.h>
using namespace rtti;
struct Counted { static inline long live = 0; long v; Counted(long x): v{x} { ++live; } Counted(Counted const &o): v{o.v} { ++live; } Counted(Counted &&o) noexcept: v{o.v} { ++live; o.v = -1; } ~Counted() { --live; }
    Counted &operator=(Counted const&) = default; bool operator==(Counted const &o) const { return v == o.v; } };
static std::string word() {
    static char const *w[] = {"a", "ab", "abc", "abcd", "b", "display name", "a_rather_long_name_that_does_not_fit_small_string_storage", "a_rather_long_name_that_does_not_fit_small_string_storage2", "", "#"};
    auto s = std::string{w[drv::rng.below(sizeof w / sizeof *w)]};
    if (drv::rng.below(4) == 0) s += std::to_string(drv::rng.below(60));
    if (drv::rng.below(20) == 0) s += std::string(1, '\0') + "x";
    return s;
}
struct Val { int kind; long n; std::string s;
    variant make() const { switch (kind) { case 0: return variant{n}; case 1: return variant{s}; case 2: return variant{Counted{n}}; default: return variant{}; } }
    bool is(variant const &v) const {
        switch (kind) { case 0: return v.is<long>() && v.cref<long>() == n; case 1: return v.is<std::string>() && v.cref<std::string>() == s; case 2: return v.is<Counted>() && v.cref<Counted>().v == n; default: return v.empty(); }
    } };
static Val value() { long n = drv::rng.below(100000); return Val{int(drv::rng.below(4)), n, "value " + std::to_string(n) + std::string(drv::rng.below(40), '.')}; }
using Model = std::vector<std::pair<std::string, Val>>;
static std::string trace;
struct Face { std::function<std::size_t()> count; std::function<variant const&(std::size_t)> at; std::function<variant const&(std::string_view)> named; std::function<std::string const&(std::size_t)> name;
    std::function<void(std::function<bool(std::string_view, variant const&)>)> each; char const *what; };
static void check(Face const &f, Model const &m) {
    EXPECT(f.count() == m.size(), f.what, " count is ", f.count(), ", expected ", m.size(), " after", trace);
    for (std::size_t i = 0; i < m.size(); ++i) {
        EXPECT(f.name(i) == m[i].first, f.what, " ", i, " is called ", f.name(i), ", expected ", m[i].first, " after", trace);
        EXPECT(m[i].second.is(f.at(i)), f.what, " ", i, " (", m[i].first, ") does not hold the value last set, after", trace);
        EXPECT(m[i].second.is(f.named(std::string{m[i].first})), f.what, " ", m[i].first, " does not hold the value last set, after", trace);
    }
    for (auto i: {m.size(), m.size() + 1, std::size_t(-1)}) {
        EXPECT(f.at(i).empty(), f.what, ": a value at index ", i, " of ", m.size());
        EXPECT(f.name(i).empty(), f.what, ": a name at index ", i, " of ", m.size());
    }
    EXPECT(f.named("").empty() && f.named("no such name").empty(), f.what, ": a value for an unknown name");
    std::size_t stop = drv::rng.below(m.size() + 2), calls = 0; bool ok = true;
    f.each([&](std::string_view n, variant const &v) { ok = ok && calls < m.size() && n == m[calls].first && m[calls].second.is(v); ++calls; return calls != stop; });
    EXPECT(ok && calls == (stop >= 1 && stop <= m.size() ? stop : m.size()), f.what, ": iteration made ", calls, " calls of ", m.size(), " (told to stop after ", stop, ") or in another order");
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    int round = 0;
    while (drv::time_left() && drv::fails < 5) {
        trace.clear();
        auto ns = MetaNamespace::create("round" + std::to_string(round++), const_cast<MetaNamespace&>(*MetaNamespace::global()));
        auto en = MetaEnum::create("e", *ns, MetaType_ID{});
        MetaItem *item = round % 2 ? static_cast<MetaItem*>(ns) : en;
        Face fa{[&] { return item->attributeCount(); }, [&](std::size_t i) -> variant const& { return item->attribute(i); }, [&](std::string_view n) -> variant const& { return item->attribute(n); },
                [&](std::size_t i) -> std::string const& { return item->attributeName(i); }, [&](auto g) { item->for_each_attribute(g); }, "attribute"};
        Face fe{[&] { return en->elementCount(); }, [&](std::size_t i) -> variant const& { return en->element(i); }, [&](std::string_view n) -> variant const& { return en->element(n); },
                [&](std::size_t i) -> std::string const& { return en->elementName(i); }, [&](auto g) { en->for_each_element([&](std::string_view n, variant const &v) { return g(n, v); }); }, "element"};
        Model ma, me;
        for (int k = 0; k < 60 && drv::fails < 5; ++k) {
            bool attr = drv::rng.flip();
            auto &m = attr ? ma : me;
            auto name = std::make_unique<std::string>(word()); auto v = value();
            if (trace.size() > 300) trace.erase(0, 100);
            trace += drv::cat(attr ? " attribute(" : " element(", *name, ")");
            if (!name->empty()) {
                bool found = false;
                for (auto &x: m) if (x.first == *name) { x.second = v; found = true; }
                if (!found) m.push_back({*name, v});
            }
            if (!attr) en->addElement(*name, v.make());
            else if (drv::rng.flip()) { auto x = v.make(); auto const &c = x; item->setAttribute(*name, c); EXPECT(v.is(x), "setting an attribute from a copy changed the source"); }
            else item->setAttribute(*name, v.make());
            std::memset(name->data(), '!', name->size()); name.reset();
            check(fa, ma); check(fe, me);
        }
    }
    return drv::finish();
}
