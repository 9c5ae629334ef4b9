// C15: arguments of every category and type given to parameters of every kind, against the language's own rules.
#include "inv.h"
#include <type_traits>
#include <memory>
using namespace rtti; using drv::cat;
namespace r {
struct A { virtual ~A() = default; long a = 1; DECLARE_CLASSINFO };
struct B { virtual ~B() = default; long b = 2; DECLARE_CLASSINFO };
struct D: A, B { long d = 3; DECLARE_CLASSINFO };
struct Lone { long l = 0; };
struct Moved { std::string s; Moved(std::string x = {}): s{std::move(x)} {} };
}
enum class Color: int { red };
struct S { long x; }; struct M { long x; explicit M(long v = 0): x{v} {} };
template<class...> struct Types {};
using Family = Types<int, long, int*, int const*, int**, int const**, int *const*, int const *const*, int[2], int*[2], int[2][3], int(*)[3], S, S*, S const*, Color>;
using Params = Types<int, long, int*, int const*, int**, int const**, int *const*, int const *const*, int(*)[3], int const(*)[3], S, S*, S const*, Color>;
template<class U, class T> constexpr bool seen() { if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false; else return std::is_convertible_v<U&, T&>; }
template<class U, class T> constexpr bool made() { if constexpr(!std::is_same_v<full_decay_t<U>, full_decay_t<T>>) return false; else return std::is_convertible_v<U&, T>; }
enum Got { VALUE, CAST, CONVERT, OTHER };
struct How { void const *at; Got got; void const *in; };        // where it lies, how it ended, the first eight bytes of it
template<class F> How how(F f) { How h{nullptr, VALUE, nullptr}; try { f(h); } catch (bad_variant_convert&) { h.got = CONVERT; } catch (bad_variant_cast&) { h.got = CAST; } catch (...) { h.got = OTHER; } return h; }
template<class T> bool same(T const &x, void const *o, bool array, std::size_t n) { if (array) return *(void const *const*)&x == o; return sizeof(T) == n && !std::memcmp(&x, o, n); }
struct Sort { bool rvalue, shut, array; std::size_t n; std::string_view u; const char *form; };
__attribute__((noinline)) static void judge(How h, Got want, bool eq, bool at, void const *o, Sort const &s, std::string_view t, const char *ref) {
    EXPECT(h.got == want, s.u, " given as ", s.form, " to ", t, ref, want == VALUE ? " is refused" : h.got == VALUE ? " is accepted" : " ends in the wrong error");
    if (want == VALUE && h.got == VALUE) { EXPECT(eq, s.u, " given as ", s.form, " to ", t, ref, ": another value arrives"); EXPECT(!at || h.at == o, s.u, " given as ", s.form, " to ", t, ref, ": not the caller's object"); EXPECT(at || s.array || h.at != o, s.u, " given as ", s.form, " to ", t, ref, ": the caller's object itself"); }
}
template<class C, class T> void as(argument const &a, Sort const &s, void const *o) {
    using K = std::add_const_t<C>; using TC = std::add_const_t<T>; auto t = type_name<T>(); bool eq = false; How h;
#define GIVE(P) eq = false; h = how([&](How &h_) { P x = a.value<P>(); h_.at = std::addressof(x); eq = same<std::remove_cv_t<std::remove_reference_t<P>>>(x, o, s.array, s.n); })
    GIVE(T&); judge(h, seen<C, T>() && !s.rvalue && !s.shut ? VALUE : CAST, eq, true, o, s, t, "&");
    GIVE(TC&); { constexpr bool d = seen<K, TC>(), can = d || made<K, T>(); judge(h, can ? VALUE : CONVERT, eq, d && !s.array, o, s, t, " const&"); }
    { bool open = s.rvalue && !s.shut; constexpr bool d = seen<C, T>(), can = d || made<C, T>(); GIVE(T&&); judge(h, open && can ? VALUE : open ? CONVERT : CAST, eq, d && !s.array, o, s, t, "&&"); GIVE(TC&&); judge(h, open && can ? VALUE : open ? CONVERT : CAST, eq, d && !s.array, o, s, t, " const&&"); }
    GIVE(T); judge(h, made<K, T>() ? VALUE : CONVERT, eq, false, o, s, t, "");
}
template<class C, class... T> void every(Types<T...>, argument const &a, Sort s, void const *o) { (as<C, T>(a, s, o), ...); }
template<class U> void give() {
    using E = std::remove_all_extents_t<U>; constexpr int N = sizeof(U) / sizeof(E);
    static E mem[N]; for (auto &e : mem) { auto b = reinterpret_cast<unsigned char*>(&e); for (unsigned i = 0; i < sizeof(E); ++i) b[i] = (unsigned char)drv::rng.next(); }
    U &o = *reinterpret_cast<U*>(mem); U const &c = o; Sort s{false, false, std::is_array_v<U>, sizeof(U), type_name<U>(), ""};
    auto with = [&](bool rv, bool shut, const char *f) { Sort x = s; x.rvalue = rv; x.shut = shut; x.form = f; return x; };
    { argument a(o); every<U>(Params{}, a, with(false, false, "an lvalue"), mem); } { argument a(c); every<U const>(Params{}, a, with(false, false, "a constant lvalue"), mem); }
    { argument a(std::move(o)); every<U>(Params{}, a, with(true, false, "a temporary"), mem); } { argument a(std::move(c)); every<U const>(Params{}, a, with(true, false, "a constant temporary"), mem); }
    { argument a(std::ref(o)); every<U>(Params{}, a, with(false, false, "std::ref"), mem); } { argument a(std::cref(o)); every<U const>(Params{}, a, with(false, false, "std::cref"), mem); }
    auto held = [](variant const &v) { auto p = v.raw_data_ptr(); return std::is_array_v<U> ? *static_cast<void const *const *>(p) : p; };
    { variant v{std::ref(o)}; variant const &w = v; { argument a(v); every<U>(Params{}, a, with(false, false, "a variant referring to it"), mem); } { argument a(w); every<U>(Params{}, a, with(false, true, "a constant variant referring to it"), mem); } { argument a(std::move(v)); every<U>(Params{}, a, with(true, false, "a temporary variant referring to it"), mem); } }
    { variant v{std::cref(o)}; argument a(v); every<U const>(Params{}, a, with(false, false, "a variant referring to a constant"), mem); }
    { variant v{o}; variant const &w = v; { argument a(v); every<U>(Params{}, a, with(false, false, "a variant"), held(v)); } { argument a(w); every<U>(Params{}, a, with(false, true, "a constant variant"), held(v)); } { argument a(std::move(v)); every<U>(Params{}, a, with(true, false, "a temporary variant"), held(v)); } { argument a(std::move(w)); every<U>(Params{}, a, with(true, true, "a constant temporary variant"), held(v)); } }
}
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
template<std::size_t... I, class... T> void slice(std::index_sequence<I...>, Types<T...>) { ([] { if constexpr(I % PARTS == PART) give<T>(); }(), ...); }
template<class... T> constexpr auto indices(Types<T...>) { return std::index_sequence_for<T...>{}; }
using Part = void(*)(); Part &the_part(int i);
static bool const given = (the_part(PART) = [] { slice(indices(Family{}), Family{}); }, true);
#if PART == 0
Part &the_part(int i) { static Part p[PARTS]; return p[i]; }
template<class P> How how(argument const &a) { return how([&](How &h) { P x = a.value<P>(); h.at = std::addressof(x); }); }
int main(int argc, char **argv) {
    drv::init(argc, argv); using namespace r;
    global_define()._namespace("d15")._class<A>("A")._end()._class<B>("B")._end()._class<D>("D")._base<A, B>()._end()._class<Lone>("Lone")._end()._end();
    do {
        for (int i = 0; i < PARTS; ++i) the_part(i)();
        { D d; D const &c = d; B *b = &d;
          { argument a(d); EXPECT(how<B&>(a).at == b && how<B const&>(a).at == b && how<A&>(a).at == &d && how<D&>(a).at == &d, "a derived object is not bound to its base part"); EXPECT(how<Lone&>(a).got == CAST && how<Lone const&>(a).got == CONVERT && how<B&&>(a).got == CAST, "a derived object is given where it must not"); d.b = 77; B x = a.value<B>(); EXPECT(x.b == 77, "the base part is copied"); }
          { argument a(c); EXPECT(how<B const&>(a).at == b && how<B&>(a).got == CAST, "a constant derived object"); }
          { argument a(std::move(d)); EXPECT(how<B&&>(a).at == b && how<B&>(a).got == CAST && how<B const&>(a).at == b, "a temporary derived object"); }
          { D *p = &d; argument a(p); B *x = nullptr; NOTHROW(x = a.value<B*>(), "a pointer to derived"); EXPECT(x == b, "a pointer to derived"); EXPECT(how<B*&>(a).got == CAST && how<B const*>(a).got == VALUE && how<Lone*>(a).got == CONVERT, "a pointer to derived"); B *const &y = a.value<B *const&>(); EXPECT(y == b, "a constant reference to a pointer to base"); }
          { D const *p = &d; argument a(p); EXPECT(how<B*>(a).got == CONVERT && how<B const*>(a).got == VALUE && how<B*&&>(a).got == CAST, "a pointer to a constant derived object"); }
          { variant v{std::ref(d)}; argument a(v); EXPECT(how<B&>(a).at == b, "a variant of a derived object"); variant const &w = v; argument e(w); EXPECT(how<B&>(e).got == CAST && how<B const&>(e).at == b, "a constant variant of a derived object"); }
          { B &base = d; argument a(base); EXPECT(how<D&>(a).at == &d, "the whole of a polymorphic object"); } }
        { long x = long(drv::rng.below(1000)); MetaType::registerConverter<long, M>([](long l) { if (l & 1) throw 1; return M{l * 2}; }); bool ok = !(x & 1);
          argument a(x); EXPECT(how<M>(a).got == (ok ? VALUE : CONVERT) && how<M const&>(a).got == (ok ? VALUE : CONVERT) && how<M&>(a).got == CAST && how<M&&>(a).got == CAST, "a converter"); if (ok) { M m = a.value<M>(); M const &n = a.value<M const&>(); EXPECT(m.x == 2 * x && n.x == 2 * x, "the converter's value"); }
          argument t(std::move(x)); EXPECT(how<M&&>(t).got == (ok ? VALUE : CONVERT) && how<M&>(t).got == CAST, "a converter of a temporary"); if (ok) { M &&n = t.value<M&&>(); EXPECT(n.x == 2 * x, "the converter's value"); } MetaType::unregisterConverter<long, M>(); }
        { Moved m{std::string(40, 'x')}; { argument a(m); Moved n = a.value<Moved>(); Moved const &k = a.value<Moved const&>(); EXPECT(n.s == std::string(40, 'x') && m.s == n.s && &k == &m, "the caller's object is not emptied"); } { argument a(std::ref(m)); EXPECT(how<Moved&&>(a).got == CAST && how<Moved&>(a).at == &m && m.s.size() == 40, "std::ref is not a temporary"); } { argument a(std::move(m)); EXPECT(m.s.size() == 40, "giving alone moves nothing"); Moved n{a.value<Moved&&>()}; EXPECT(n.s.size() == 40 && m.s.empty(), "a temporary is moved from"); } }
        { argument e; auto absent = [&](auto f) { ++drv::evals; try { f(); } catch (bad_argument_cast&) { return true; } catch (...) {} return false; }; EXPECT(absent([&] { e.value<int>(); }) && absent([&] { e.value<int&>(); }) && absent([&] { e.value<int const&>(); }) && absent([&] { e.value<int&&>(); }), "an absent argument is delivered"); variant v; argument a(v); EXPECT(how<int>(a).got == CONVERT && how<int&>(a).got == CAST && how<int const&>(a).got == CONVERT, "an empty variant is delivered"); }
        { int x = 5; argument m(x); argument n(std::move(m)); EXPECT(how<int&>(n).at == &x, "an argument passed on"); argument t(std::move(x)); argument u(std::move(t)); EXPECT(how<int&&>(u).at == &x && how<int&>(u).got == CAST, "a temporary passed on"); }
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
#endif
