// C13: typed access against the language's own conversions, for contents held by value and by reference, and over real hierarchies.
#include "inv.h"
#include <type_traits>
using namespace rtti; using drv::cat;
namespace r {
struct A { virtual ~A() = default; long a = 1; DECLARE_CLASSINFO };
struct B { virtual ~B() = default; long b = 2; DECLARE_CLASSINFO };
struct D: A, B { long d = 3; DECLARE_CLASSINFO };
struct V: virtual A { long v = 4; DECLARE_CLASSINFO };
struct P1 { long p; }; struct P2 { long q; }; struct PD: P1, P2 { long s; };       // without class information
struct Lone { long l; }; struct Unknown: P1 { long u; };
static inline long part(A const &x) { return x.a; } static inline long part(B const &x) { return x.b; } static inline long part(D const &x) { return x.a * 100 + x.b * 10 + x.d; } static inline long part(P1 const &x) { return x.p; } static inline long part(P2 const &x) { return x.q; } static inline long part(PD const &x) { return x.s; } static inline long part(Lone const &x) { return x.l; }
struct Empty {}; struct Knot: Empty { Knot *self; long x; };
}
enum class Color: int { red };
struct S { long x; };
template<class...> struct Types {};
using Family = Types<int, long, int*, int const*, int**, int const**, int *const*, int const *const*, int[2], int[3], int*[2], int const*[2], int[2][3], int(*)[3], int const(*)[3], S, S*, S const*, S[2], Color>;
template<class U, class T> constexpr bool same() { return std::is_same_v<full_decay_t<U>, full_decay_t<T>>; }
template<class U, class T> constexpr bool seen() {
    if constexpr(!same<U, T>()) return false;
    else if constexpr(std::is_array_v<U> && std::is_array_v<T>) return std::is_convertible_v<std::remove_extent_t<U>(&)[1], std::remove_extent_t<T>(&)[1]> && std::extent_v<T> <= std::extent_v<U>;
    else return std::is_convertible_v<U&, T&>;
}
template<class U, class T> constexpr bool moved() {
    if constexpr(!same<U, T>()) return false;
    else if constexpr(std::is_array_v<U> && std::is_array_v<T>) return std::is_convertible_v<std::remove_extent_t<U>(&&)[1], std::remove_extent_t<T>(&&)[1]> && std::extent_v<T> <= std::extent_v<U>;
    else if constexpr(std::is_array_v<U>) return std::is_const_v<T> && std::is_convertible_v<U&&, T&&>;     // the pointer made of it is not the caller's
    else return std::is_convertible_v<U&&, T&&>;
}
template<class U, class T> constexpr bool made() { if constexpr(!same<U, T>()) return false; else return std::is_convertible_v<U&, T>; }
template<class F> void const* got(F f) { try { return f(); } catch (bad_variant_cast const&) { return nullptr; } }
// in: the element the view must designate
template<class U, class T> void as(variant &v, void const *obj) {
    variant const &c = v; using TC = std::add_const_t<T>; using UC = std::add_const_t<U>;
    constexpr bool ptr = std::is_array_v<U> && !std::is_array_v<T>;
    auto at = [&](void const *p) -> void const* { if constexpr(ptr) return p ? *static_cast<void const *const *>(p) : p; else return p; };
    auto n = cat(type_name<U>(), " as ", type_name<T>());
#define CHECK(what, form, expr, can) EXPECT(at(got([&]() -> void const* { return expr; })) == ((can) ? obj : nullptr), form, " access to ", n, (can) ? " is refused or leads elsewhere" : " is granted")
    CHECK(ref, "mutable", std::addressof(v.ref<T>()), (seen<U, T>()));
    CHECK(cref, "constant", std::addressof(v.cref<T>()), (seen<U, TC>()));
    CHECK(cref, "constant", std::addressof(c.ref<T>()), (seen<UC, TC>()));
    CHECK(cref, "constant", std::addressof(c.cref<T>()), (seen<UC, TC>()));
    CHECK(data, "pointer", v.data<T>(), (seen<U, T>()));
    CHECK(data, "const pointer", c.data<T>(), (seen<UC, TC>()));
    CHECK(rref, "rvalue", ([&] { auto &&x = std::move(v).rref<T>(); return std::addressof(x); }()), (moved<U, T>()));
    EXPECT(v.is<T&>() == (seen<U, T>()) && v.is<TC&>() == (seen<U, TC>()) && c.is<T&>() == (seen<UC, T>()) && c.is<TC&>() == (seen<UC, TC>()), "is<> of ", n);
    if constexpr(!std::is_array_v<T>) {
        EXPECT(v.is<T>() == (made<U, T>()) && c.is<T>() == (made<UC, T>()) && v.canConvert<T>() == (made<U, T>()), "is<> of ", n);
        bool ok = true, bad = false; std::remove_cv_t<T> x{}; try { x = c.to<std::remove_cv_t<T>>(); } catch (bad_variant_convert const&) { ok = false; } catch (...) { bad = true; }
        EXPECT(!bad && ok == (made<UC, T>()), "to<> of ", n);
        if (ok) { if constexpr(ptr && std::is_pointer_v<T>) EXPECT((void const*)x == obj, "to<> of ", n, " gives another pointer"); else EXPECT(!std::memcmp(&x, obj, sizeof(T)), "to<> of ", n, " gives another value"); }
    }
}
template<class U, class... T> void every(Types<T...>, variant &v, void const *obj) { (as<U, T>(v, obj), ...); }
template<class U> void const* object(variant const &v) { auto c = v.data<std::remove_cv_t<U>>(); return c; }
template<class U> void hold() {
    using E = std::remove_cv_t<std::remove_all_extents_t<U>>; constexpr int N = sizeof(U) / sizeof(E);
    static E mem[N]; for (auto &e : mem) { auto b = reinterpret_cast<unsigned char*>(&e); for (unsigned i = 0; i < sizeof(E); ++i) b[i] = (unsigned char)drv::rng.next(); }
    U &u = *reinterpret_cast<U*>(mem);
    { variant v{u}; auto o = object<U>(v); EXPECT(o && !std::memcmp(o, mem, sizeof(U)), type_name<U>(), " by value"); every<U>(Family{}, v, o); EXPECT(!std::memcmp(o, mem, sizeof(U)) && v.typeId() == metaTypeId<U>(), type_name<U>(), " was changed by looking"); }
    { variant v{std::ref(u)}; every<U>(Family{}, v, mem); } { variant v{std::cref(u)}; every<U const>(Family{}, v, mem); }
}
// the driver is compiled in parts, each holding every PARTS-th type
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template<std::size_t... I, class... T> void slice(std::index_sequence<I...>, Types<T...>) { ([] { if constexpr(I % PARTS == PART) hold<T>(); }(), ...); }
template<class... T> constexpr auto indices(Types<T...>) { return std::index_sequence_for<T...>{}; }
using Part = void(*)(); Part &the_part(int i);
static bool const given = (the_part(PART) = [] { slice(indices(Family{}), Family{}); }, true);
#if PART == 0
Part &the_part(int i) { static Part p[PARTS]; return p[i]; }
// a class content as class T
template<class T, class U> void klass(U &u, T const *want, bool registered) {
    auto check = [&](variant &v, T const *w, const char *how) {
        variant const &c = v; auto n = cat(type_name<U>(), " ", how, " as ", type_name<T>()); bool ok = registered && w; bool constant = std::is_const_v<U>;
        EXPECT(v.data<T const>() == (ok ? w : nullptr) && c.data<T>() == (ok ? w : nullptr), n, ": wrong place");
        EXPECT((void const*)v.data<T>() == (void const*)(ok && !constant ? w : nullptr), n, ": wrong mutable place"); EXPECT(v.is<T>() == ok && c.is<T const&>() == ok && v.is<T&>() == (ok && !constant) && !c.is<T&>(), n, ": is");
        if (ok) NOTHROW(EXPECT(&v.cref<T>() == w, n, ": cref"), n); else THROWS(bad_variant_cast, v.cref<T>(), n);
        if (ok && std::is_copy_constructible_v<T>) { NOTHROW(({ T x = c.to<T>(); EXPECT(r::part(x) == r::part(*w), n, ": to gives another part"); }), n); }
    };
    { variant v{std::ref(u)}; check(v, want, "by reference"); }
    { variant v{u}; auto o = v.data<U const>(); EXPECT(o, "by value"); long d = want ? (char*)want - (char*)&u : 0; if (o) { bool was = std::is_const_v<U>; if (!was) check(v, want ? reinterpret_cast<T const*>((char const*)o + d) : nullptr, "by value"); } }
    { auto p = &u; variant v{p}; auto n = cat(type_name<U>(), "* as ", type_name<T>(), "*"); bool ok = registered && want; bool direct = ok && (void const*)want == (void const*)p;
      using TP = std::conditional_t<std::is_const_v<U>, T const*, T*>;
      EXPECT(v.is<TP>() == ok, n, ": is"); TP x{}; bool made = true; try { x = v.to<TP>(); } catch (bad_variant_convert const&) { made = false; }
      EXPECT(made == ok && (!ok || x == want), n, ": to"); auto d = v.data<TP>(); EXPECT(bool(d) == direct && (!d || *d == want), n, ": data"); if (std::is_const_v<U>) EXPECT(!v.is<T*>(), n, ": const is lost"); }
    { U *none = nullptr; variant v{none}; using TP = std::conditional_t<std::is_const_v<U>, T const*, T*>; constexpr bool rel = std::is_convertible_v<U*, TP>; if (rel && registered) { TP x = reinterpret_cast<TP>(8); NOTHROW(x = v.to<TP>(), "null as ", type_name<TP>()); EXPECT(!x && v.is<TP>() && v.data<TP>() && !*v.data<TP>(), "null as ", type_name<TP>()); } }
}
int main(int argc, char **argv) {
    drv::init(argc, argv); using namespace r;
    global_define()._namespace("d13")._class<A>("A")._end()._class<B>("B")._end()._class<D>("D")._base<A, B>()._end()._class<V>("V")._base<A>()._end()._class<P1>("P1")._end()._class<P2>("P2")._end()._class<PD>("PD")._base<P1, P2>()._end()._class<Lone>("Lone")._end()._class<Empty>("Empty")._end()._class<Knot>("Knot")._base<Empty>()._end()._end();
    do {
        for (int i = 0; i < PARTS; ++i) the_part(i)();
        { D d; klass<A>(d, &d, true); klass<B>(d, &d, true); klass<D>(d, &d, true); klass<Lone>(d, nullptr, false); D const c; klass<B>(c, &c, true); }
        { D d; B &b = d; variant v{std::ref(b)}; EXPECT(v.data<D>() == &d && v.data<A>() == &d && v.data<B>() == &b, "a base reference leads to the whole object"); B *p = &d; variant w{p}; EXPECT(w.is<D*>() && w.to<D*>() == &d && w.to<A*>() == &d, "a base pointer leads to the whole object"); }
        { PD d{}; d.p = 5; d.q = 6; d.s = 7; klass<P1>(d, &d, true); klass<P2>(d, &d, true); klass<Lone>(d, nullptr, false); Unknown u{}; klass<P1>(u, nullptr, false); }
        { V x; A *a = &x; variant v{std::ref(x)}; EXPECT(v.data<A>() == a, "a virtual base"); variant p{&x}; EXPECT(p.to<A*>() == a, "a pointer to a virtual base"); }
        { Knot k{}; k.self = &k; variant v{std::ref(k.self)}; EXPECT(!v.data<Empty*>(), "a pointer referred to is seen as a pointer to base"); EXPECT(v.data<Knot*>() == &k.self, "a pointer referred to"); }
        { variant e; variant const c; EXPECT(!e.is<int>() && !e.data<int>() && !c.data<int>() && !e.canConvert<int>() && !e.tryConvert<int>() && e.empty(), "an empty variant grants access"); THROWS(bad_variant_cast, e.ref<int>(), "an empty variant"); THROWS(bad_variant_convert, e.to<int>(), "an empty variant"); THROWS(bad_variant_cast, std::move(e).rref<int>(), "an empty variant"); }
        { long x = long(drv::rng.below(1000)); MetaType::registerConverter<long, S>([](long l) { if (l & 1) throw 1; return S{l * 2}; }); variant v{x}; EXPECT(v.canConvert<S>() && !v.is<S>(), "canConvert"); bool ok = true; S s{}; try { s = v.to<S>(); } catch (bad_variant_convert const&) { ok = false; } EXPECT(ok == !(x & 1) && (!ok || s.x == 2 * x), "to<> through a converter"); EXPECT(v.tryConvert<S>() == ok && v.is<S>() == ok && (ok ? v.cref<S>().x == 2 * x : v.cref<long>() == x), "tryConvert"); MetaType::unregisterConverter<long, S>(); }
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
#endif
