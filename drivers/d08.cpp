// C08: inheritance and casts over random class graphs (each conversion leaves its mark) and over real C++ hierarchies.
#include "inv.h"
#include <map>
using namespace rtti;
struct Node { MetaClass *c; std::vector<std::pair<int, int>> bases; };   // (class, conversion)
static std::vector<Node> g;
template<int K> static void const* conv(void const *p) { return (void const*)((std::uintptr_t)p * 37 + 2 * K + 1); }
template<std::size_t... I> static std::vector<MetaClass::cast_func_t> convs(std::index_sequence<I...>) { return {&conv<I>...}; }
static auto const table = convs(std::make_index_sequence<40>{});
static bool inherits(int a, int b) { if (a == b) return true; for (auto &x: g[a].bases) if (inherits(x.first, b)) return true; return false; }
static void const* cast(int a, int b, void const *p) { if (a == b) return p; for (auto &x: g[a].bases) if (inherits(x.first, b)) return cast(x.first, b, table[x.second](p)); return nullptr; }

namespace r {
struct A { virtual ~A() = default; long a = 1; DECLARE_CLASSINFO };
struct B { virtual ~B() = default; long b = 2; DECLARE_CLASSINFO };
struct C: A, B { long c = 3; DECLARE_CLASSINFO };
struct V1: virtual A { long v1 = 4; DECLARE_CLASSINFO };
struct V2: virtual A { long v2 = 5; DECLARE_CLASSINFO };
struct W: B, V1, V2 { long w = 6; DECLARE_CLASSINFO };
struct X: C { long x = 7; DECLARE_CLASSINFO };
struct Lone { virtual ~Lone() = default; DECLARE_CLASSINFO };       // registered, unrelated
struct Unknown: A { DECLARE_CLASSINFO };                             // not registered
}
template<class To, class From> static void real_cast(From &f, bool related) {
    To *want = related ? dynamic_cast<To*>(&f) : nullptr;
    EXPECT(meta_cast<To>(&f) == want, "pointer cast to ", std::string{type_name<To>()}, related ? " is wrong" : " of an unrelated object is not null");
    EXPECT(meta_cast<To>(static_cast<From const*>(&f)) == want, "const pointer cast to ", std::string{type_name<To>()}, " is wrong");
    EXPECT(meta_cast<To>(static_cast<From*>(nullptr)) == nullptr, "cast of null is not null");
    if (related) { NOTHROW(EXPECT(&meta_cast<To>(f) == want, "reference cast is wrong"), "reference cast"); NOTHROW(EXPECT(&meta_cast<To>(static_cast<From const&>(f)) == want, "reference cast is wrong"), "reference cast"); }
    else { THROWS(bad_meta_cast, meta_cast<To>(f), "reference cast of an unrelated object"); THROWS(bad_meta_cast, meta_cast<To>(static_cast<From const&>(f)), "reference cast of an unrelated object"); }
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    global_define()._namespace("d08")
        ._class<r::A>("A")._end()._class<r::B>("B")._end()._class<r::C>("C")._base<r::A, r::B>()._end()._class<r::V1>("V1")._base<r::A>()._end()._class<r::V2>("V2")._base<r::A>()._end()
        ._class<r::W>("W")._base<r::B, r::V1, r::V2>()._end()._class<r::X>("X")._base<r::C>()._end()._class<r::Lone>("Lone")._end()._end();
    { r::C c; real_cast<r::A>(c, true); real_cast<r::B>(c, true); real_cast<r::C>(c, true); real_cast<r::W>(c, false); real_cast<r::Lone>(c, false); real_cast<r::X>(c, false); real_cast<r::Unknown>(c, false);
      real_cast<r::C>(static_cast<r::A&>(c), true); real_cast<r::B>(static_cast<r::A&>(c), true); real_cast<r::A>(static_cast<r::B&>(c), true); real_cast<r::C>(static_cast<r::B&>(c), true); }
    { r::X x; real_cast<r::A>(x, true); real_cast<r::B>(x, true); real_cast<r::C>(x, true); real_cast<r::X>(static_cast<r::B&>(x), true); real_cast<r::A>(static_cast<r::B&>(x), true); }
    { r::W w; real_cast<r::A>(w, true); real_cast<r::B>(w, true); real_cast<r::V1>(w, true); real_cast<r::V2>(w, true); real_cast<r::W>(static_cast<r::V2&>(w), true); real_cast<r::B>(static_cast<r::A&>(w), true); real_cast<r::C>(w, false); }
    { r::Unknown u; EXPECT(meta_cast<r::A>(&u) == nullptr, "cast of an unregistered class"); THROWS(bad_meta_cast, meta_cast<r::A>(u), "reference cast of an unregistered class"); }
    while (drv::time_left() && drv::fails < 5) {
        auto ns = fresh_namespace();
        int k = 2 + drv::rng.below(9);
        g.clear(); std::vector<MetaType_ID> ids;
        for (int i = 0; i < k; ++i) { ids.push_back(fresh_type()); g.push_back({MetaClass::create("C" + std::to_string(i), *ns, ids[i]), {}}); }
        std::vector<int> perm(k); for (int i = 0; i < k; ++i) perm[i] = i;
        for (int i = k - 1; i > 0; --i) std::swap(perm[i], perm[drv::rng.below(i + 1)]);
        int edges = drv::rng.below(2 * k + 1); std::string shape;
        for (int e = 0; e < edges; ++e) {
            int x = drv::rng.below(k), y = drv::rng.below(k); if (x <= y) continue;
            int a = perm[x], b = perm[y]; int f = drv::rng.below(40);
            g[a].c->addBaseClass(ids[b], table[f]);
            bool have = false; for (auto &q: g[a].bases) have |= q.first == b;
            if (!have) { g[a].bases.push_back({b, f}); shape += drv::cat(" ", a, "->", b, "[", f, "]"); }
        }
        for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) {
            EXPECT(g[a].c->inheritedFrom(g[b].c) == inherits(a, b), "class ", a, " inherited from ", b, " is reported ", !inherits(a, b), " in graph", shape);
            auto p = (void*)(drv::rng.next() >> 20);
            EXPECT(static_cast<MetaClass const*>(g[a].c)->cast(g[b].c, (void const*)p) == cast(a, b, p), "cast from class ", a, " to ", b, " gives ", g[a].c->cast(g[b].c, (void const*)p), " for ", p, ", expected ", cast(a, b, p), " in graph", shape);
            EXPECT(g[a].c->cast(g[b].c, p) == cast(a, b, p), "mutable cast from class ", a, " to ", b, " is wrong in graph", shape);
        }
        for (int a = 0; a < k; ++a) { EXPECT(!g[a].c->inheritedFrom(nullptr), "inherits from null"); EXPECT(!g[a].c->cast(nullptr, &g), "cast to null class"); }
    }
    return drv::finish();
}
