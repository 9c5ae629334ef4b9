// C22: random nestings of definitions written through the builder against a model tree.
#include "inv.h"
#include <memory>
#include <deque>
using namespace rtti;
#ifndef DEPTH
#define DEPTH 2
#endif
namespace {
struct Model {
    MetaCategory cat = mcatNamespace; std::string name; u_int64_t type = 0; long value = 0; bool lazy = false;
    std::deque<Model> items[mcatCount]; std::vector<std::pair<std::string, int>> attributes, elements; std::vector<u_int64_t> bases;
    Model& add(MetaCategory c, std::string const &n) { items[c].emplace_back(); auto &r = items[c].back(); r.cat = c; r.name = n; return r; }
};
std::string fresh() {
    static int k = 0; static char const *stems[] = {"a", "value", "get", "a_rather_long_name_that_does_not_fit_small_string_storage", "_", "N"};
    return std::string{stems[drv::rng.below(6)]} + std::to_string(k++);
}
template<int I> int fun() { return I; }
template<int I> int var = I;
int acc; int get_acc() { return acc; } void set_acc(int v) { acc = v; }
enum E0 { e0 }; enum class E1: char { e1 };
struct B0 { int b0 = 0; }; struct B1 { int b1 = 1; virtual ~B1() {} }; struct B2 { int b2 = 2; };
template<class Site, int K> struct Cls;
template<class S> struct Cls<S, 0>: B0, B1, B2 { Cls() {} Cls(int) {} explicit Cls(char*) {} Cls(Cls const&) = default; Cls(Cls&&) = default; int m() const { return 41; } };
template<class S> struct Cls<S, 1> { explicit Cls(int, int) {} Cls(Cls const&) = default; Cls(Cls&&) = default; };
template<class S> struct Cls<S, 2> { Cls() {} Cls(Cls&&) = default; Cls(Cls const&) = delete; };

void check_container(MetaContainer const &c, Model const &m, std::string const &at);
void check_item(MetaItem const *i, Model const &m, MetaItem const *owner, std::string const &at) {
    EXPECT(i, at, " has no item where ", m.name, " was defined"); if (!i) return;
    EXPECT(i->name() == m.name, at, " has ", i->name(), " where ", m.name, " was defined");
    EXPECT(i->owner() == owner, m.name, " written in ", at, " is not owned by it");
    EXPECT(i->category() == m.cat, m.name, " written in ", at, " has category ", int(i->category()), " instead of ", int(m.cat));
}
void check_attributes(MetaItem const &i, Model const &m, std::string const &at) {
    EXPECT(i.attributeCount() == m.attributes.size(), at, " has ", i.attributeCount(), " attributes, ", m.attributes.size(), " were written for it");
    for (auto &a: m.attributes) { auto &v = i.attribute(a.first); EXPECT(!v.empty() && v == variant{a.second}, "attribute ", a.first, " written for ", at, " is not found there with its value"); }
}
void check_container(MetaContainer const &c, Model const &m, std::string const &at) {
    auto n = [&](MetaCategory k) { return m.items[k].size(); };
#define COUNT(what, k) EXPECT(c.what() == n(k), at, " has " #what " ", c.what(), ", ", n(k), " were written in it")
    COUNT(namespaceCount, mcatNamespace); COUNT(classCount, mcatClass); COUNT(methodCount, mcatMethod); COUNT(propertyCount, mcatProperty); COUNT(enumCount, mcatEnum); COUNT(constructorCount, mcatConstructor);
    if (drv::fails) return;
    check_attributes(c, m, at);
    std::size_t k = 0;
    for (auto &x: m.items[mcatMethod]) { auto i = c.getMethod(k++); check_item(i, x, &c, at); if (i && x.value >= 0) EXPECT(i->invoke().to<int>() == x.value, "method ", x.name, " of ", at, " is not the function given"); }
    k = 0;
    for (auto &x: m.items[mcatProperty]) { auto i = c.getProperty(k++); check_item(i, x, &c, at); if (i && x.value >= 0) EXPECT(i->get().to<int>() == x.value, "property ", x.name, " of ", at, " is not the variable given"); }
    k = 0; for (auto &x: m.items[mcatConstructor]) check_item(c.getConstructor(k++), x, &c, at);
    k = 0;
    for (auto &x: m.items[mcatEnum]) {
        auto i = c.getEnum(k++); check_item(i, x, &c, at); if (!i) continue;
        auto where = at + "::" + x.name;
        EXPECT(i->elementCount() == x.elements.size(), where, " has ", i->elementCount(), " elements, ", x.elements.size(), " were written for it");
        for (auto &e: x.elements) { auto &v = i->element(e.first); EXPECT(!v.empty() && v == variant{e.second}, "element ", e.first, " written for ", where, " is not found there with its value"); }
        check_attributes(*i, x, where);
    }
    k = 0; for (auto &x: m.items[mcatNamespace]) { auto i = c.getNamespace(k++); check_item(i, x, &c, at); if (i) check_container(*i, x, at + "::" + x.name); }
    k = 0;
    for (auto &x: m.items[mcatClass]) {
        auto i = c.getClass(k++); check_item(i, x, &c, at); if (!i) continue;
        EXPECT(i->metaTypeId().value() == x.type, "class ", x.name, " of ", at, " is of another type");
        EXPECT(i->baseClassCount() == x.bases.size(), "class ", x.name, " of ", at, " has ", i->baseClassCount(), " bases, ", x.bases.size(), " were written");
        for (std::size_t b = 0; b < x.bases.size() && b < i->baseClassCount(); ++b) { auto base = i->baseClass(b); EXPECT(base && base->metaTypeId().value() == x.bases[b], "base ", b, " of ", x.name, " is another class"); }
        check_container(*i, x, at + "::" + x.name);
    }
}
template<class T, class A, class ...R> std::string csig(std::string const &n) { std::string r = n + "(" + std::string{type_name<A>()}; ((r += ", " + std::string{type_name<R>()}), ...); return r + ")"; }

template<int D, class T, class MB> meta_define<T, MB> fill(meta_define<T, MB> b, Model &m);
template<int D, int K, class T, class MB> meta_define<T, MB> with_class(meta_define<T, MB> b, Model &m) {
    using C = Cls<meta_define<T, MB>, K>;
    static bool used = false; if (used) return b; used = true;
    bool named = drv::rng.flip(); auto n = fresh();
    auto &x = m.add(mcatClass, named ? n : std::string{type_name<C>()}); x.type = metaTypeId<C>().value();
    if (std::is_default_constructible_v<C>) x.add(mcatConstructor, "d_constructor");
    if (std::is_copy_constructible_v<C>) x.add(mcatConstructor, "c_constructor");
    if (std::is_move_constructible_v<C>) x.add(mcatConstructor, "m_constructor");
    auto inner = named ? b.template _class<C>(n) : b.template _class<C>();
    if constexpr (K == 0) {
        inner = drv::rng.flip() ? inner.template _base<B2, B0>().template _base<B1>() : inner.template _base<B2, B0, B1>(); x.bases = {metaTypeId<B2>().value(), metaTypeId<B0>().value(), metaTypeId<B1>().value()};
        EXPECT(!(MetaType::hasConverter<int, C>()), "a class has a conversion before its constructor is written");
        inner = inner.template _constructor<int>("make").template _constructor<char*>("make");
        x.add(mcatConstructor, csig<C, int>("make")); x.add(mcatConstructor, csig<C, char*>("make"));
        EXPECT((MetaType::hasConverter<int, C>()), "a converting constructor registers no conversion");
        EXPECT(!(MetaType::hasConverter<char*, C>()), "an explicit constructor registers a conversion");
        auto mn = fresh(); inner = inner._method(mn, &C::m); x.add(mcatMethod, csig<C, C const&>(mn)).value = -1;
    }
    if constexpr (D > 0) inner = fill<D - 1>(inner, x);
    return inner._end();
}
template<int D, class T, class MB> meta_define<T, MB> fill(meta_define<T, MB> b, Model &m) {
    Model *current = &m;
    for (int k = int(drv::rng.below(9)); k > 0; --k) {
        auto n = fresh(); int v = int(drv::rng.below(1000));
        switch (drv::rng.below(11)) {
        case 0: case 1: current->attributes.emplace_back(n, v); b = drv::rng.flip() ? b._attribute(n, v) : b._attribute(n, variant{v}); break;
        case 2: { auto &x = m.add(mcatMethod, n + "()"); if (drv::rng.flip()) { x.value = 17; b = b._method(n, &fun<17>); } else { x.value = 19; b = b._method(n, &fun<19>); } break; }
        case 3: { auto &x = m.add(mcatProperty, n); x.value = 23; b = b._property(n, &var<23>); break; }
        case 4: { auto &x = m.add(mcatProperty, n); x.value = acc = 31; b = b._property(n, &get_acc, &set_acc); break; }
        case 5: case 6: {
            current = &m.add(mcatEnum, n); b = drv::rng.flip() ? b.template _enum<E0>(n) : b.template _enum<E1>(n);
            for (int j = int(drv::rng.below(4)); j > 0; --j) { auto en = fresh(); current->elements.emplace_back(en, j); b = b._element(en, j); }
            break; }
        case 7: case 8:
            if constexpr (D > 0 && std::is_void_v<T>) { b = fill<D - 1>(b._namespace(n), m.add(mcatNamespace, n))._end(); current = &m; }
            break;
        case 9:
            if constexpr (std::is_void_v<T> && D > 0) {
                auto x = &m.add(mcatNamespace, n);
                b = b._namespace(n)._lazy([x](meta_define<void> d) { fill<0>(d, *x); })._end(); current = &m;
            }
            break;
        default:
            if constexpr (D > 0) {
                auto before = m.items[mcatClass].size();
                switch (drv::rng.below(3)) { case 0: b = with_class<D, 0>(b, m); break; case 1: b = with_class<D, 1>(b, m); break; default: b = with_class<D, 2>(b, m); }
                if (m.items[mcatClass].size() != before) current = &m;
            }
        }
    }
    return b;
}
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    meta_global start = global_define();
    meta_define<void> first = start;
    Model all;
    auto scope = first._namespace("bases22")._class<B0>("B0")._end()._class<B1>("B1")._end()._class<B2>("B2")._end();
    EXPECT(MetaNamespace::global()->getNamespace("bases22") && MetaNamespace::global()->getNamespace("bases22")->classCount() == 3, "definitions of a chain that starts at the global namespace are not there");
    auto back = scope._end();
    for (int round = 0; drv::time_left() && !drv::fails && round < 3000; ++round) {
        auto n = "round" + fresh();
        Model m; m.name = n;
        auto inner = fill<DEPTH>(back._namespace(n), m);
        auto c = MetaNamespace::global()->getNamespace(n);
        EXPECT(c, "namespace ", n, " written in the global namespace is not there");
        if (!c) break;
        c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        check_container(*c, m, n);
        back = inner._end();
    }
    return drv::finish();
}
