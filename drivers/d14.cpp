// C14: variant equality against the contents' own equality, for contents held directly and by reference, and across types.
#include "inv.h"
#include <memory>
static long n_eq = 0;
struct P { long x, y; bool operator==(P const &o) const { ++n_eq; return x == o.x && y == o.y; } };
struct Q { long x, y; bool operator==(Q const &o) const { ++n_eq; return x == o.x && y == o.y; } };
struct Big { long x[5]; bool operator==(Big const &o) const { ++n_eq; return x[0] == o.x[0] && x[4] == o.x[4]; } };
struct NoEq { int x; };
struct Thrower { int x; bool operator==(Thrower const &) const { throw 42; } };
enum class E1 { a, b, c };
struct Item { int type; long value; std::shared_ptr<void> keep; std::function<variant(int)> hold; std::function<bool(variant const&, int)> ask; const char *name; };
template<class T> Item item(int type, const char *name, T x, long value) {
    auto p = std::make_shared<T>(x);
    return {type, value, p, [p](int how) { return how == 0 ? variant{*p} : how == 1 ? variant{std::ref(*p)} : variant{std::cref(*p)}; }, [p](variant const &v, int how) { switch (how) { case 0: return v == *p; case 1: return !(v != *p); case 2: return v.eq(*p); default: return !v.neq(*p); } }, name};
}
template<class T, std::size_t N> Item array(int type, const char *name, std::vector<T> x, long value) {
    struct Box { T a[N]; }; auto p = std::make_shared<Box>(); for (std::size_t i = 0; i < N; ++i) p->a[i] = x[i];
    return {type, value, p, [p](int how) { return how == 0 ? variant{p->a} : how == 1 ? variant{std::ref(p->a)} : variant{std::cref(p->a)}; }, [p](variant const &v, int how) { switch (how) { case 0: return v == p->a; case 1: return !(v != p->a); case 2: return v.eq(p->a); default: return !v.neq(p->a); } }, name};
}
int main(int argc, char **argv) {
    drv::init(argc, argv); static int c1 = 1, c2 = 1;
    do {
        std::vector<Item> items; auto r = [](long n) { return long(drv::rng.below(n)); };
        for (int k = 0; k < 3; ++k) {
            long a = r(2), b = r(2), c = r(2), d = r(2);
            items.push_back(item<int>(0, "int", int(a), a)); items.push_back(item<long>(1, "long", a, a)); items.push_back(item<unsigned char>(2, "byte", (unsigned char)(a), a)); items.push_back(item<double>(3, "double", double(a), a));
            items.push_back(item<P>(4, "P", P{a, b}, a * 2 + b)); items.push_back(item<Q>(5, "Q", Q{a, b}, a * 2 + b)); items.push_back(item<Big>(6, "Big", Big{{a, 0, 0, 0, b}}, a * 2 + b)); items.push_back(item<E1>(7, "E1", E1(a), a)); items.push_back(item<std::string>(8, "string", std::string(40, char('a' + a)), a));
            items.push_back(item<int*>(9, "int*", a ? &c1 : &c2, a)); items.push_back(array<int, 2>(10, "int[2]", {int(a), int(b)}, a * 2 + b)); items.push_back(array<int, 3>(11, "int[3]", {int(a), int(b), int(c)}, a * 4 + b * 2 + c)); items.push_back(array<P, 2>(12, "P[2]", {P{a, b}, P{c, d}}, a * 8 + b * 4 + c * 2 + d)); items.push_back(array<unsigned char, 1>(13, "byte[1]", {(unsigned char)(a)}, a));
        }
        items.push_back({-1, 0, {}, [](int) { return variant{}; }, {}, "empty"}); items.push_back({-1, 0, {}, [](int) { variant v{1}; v.clear(); return v; }, {}, "cleared"});
        for (auto &x : items) for (auto &y : items) {
            int hx = int(r(3)), hy = int(r(3)); variant v = x.hold(hx), w = y.hold(hy); bool want = x.type == y.type && x.value == y.value; long before = n_eq;
            NOTHROW(({ EXPECT((v == w) == want, x.name, "/", hx, " == ", y.name, "/", hy, " is ", !want); EXPECT((v != w) == !want, x.name, " != ", y.name); if (x.type != y.type) EXPECT(n_eq == before, x.name, " == ", y.name, " compared the contents"); }), x.name, " == ", y.name);
            if (y.ask && !(x.type == 8 && y.type == 9)) { int how = int(r(4)); NOTHROW(({ bool got = y.ask(v, how); EXPECT(got == want, x.name, " against a ", y.name, " (", how, ") is ", !want); }), x.name, " against a ", y.name); }
        }
        { NoEq a{1}, b{1}; variant v{a}, w{b}; THROWS(runtime_error, (void)(v == w), "comparing without equality"); variant x{1}; NOTHROW(EXPECT(!(v == x), "NoEq == int"), "NoEq == int"); }
        { Thrower a{1}, b{1}; variant v{a}, w{b}; THROWS(int, (void)(v == w), "a throwing equality"); Thrower p[2]{}, q[2]{}; variant s{p}, t{std::ref(q)}; THROWS(int, (void)(s == t), "a throwing equality of arrays"); THROWS(int, (void)(t == s), "a throwing equality of arrays"); }
        { MetaType::registerConverter<P, long>([](P const &p) { return p.x * 10 + p.y; }); long a = r(3), b = r(3), y = r(33); P p{a, b}; variant v{p}; EXPECT(v.eq(y) == (a * 10 + b == y), "eq through a converter"); EXPECT(v.neq(y) != (a * 10 + b == y), "neq through a converter"); variant w{y}; EXPECT(w.eq(p) == (a * 10 + b == y), "eq through a converter, backwards"); EXPECT(!(v == y) && !(w == p), "== does not convert"); MetaType::unregisterConverter<P, long>(); EXPECT(!v.eq(y) && !w.eq(p), "eq without a converter"); }
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
