// C11 (and, with VALUES, C12): random histories of operations on a few variants against a model; every object is registered.
// An object that was moved out of its place inside a variant counts as gone: its destruction is optional here (KF-C11-1).
#include "inv.h"
#include <map>
#include <set>
#include <memory>
#ifdef VALUES
#define LX(c, ...) (void)(c)
#define VX EXPECT
#define LFAIL(x) (void)0
#else
#define LX EXPECT
#define VX(c, ...) (void)(c)
#define LFAIL(x) drv::fail(x)
#endif
static std::map<void const*, int> who; static std::set<void const*> left; static int boom_at = -1; static long n_copied, n_moved; static long blocks;
struct Boom {};
static bool counting() { return boom_at >= 0; }
static void boom() { if (boom_at >= 0 && boom_at-- == 0) throw Boom{}; }
static void born(void const *p) { left.erase(p); if (who.count(p)) LFAIL("an object is constructed on top of a live one"); who[p] = 1; }
static void died(void const *p) { if (!who.erase(p) && !left.erase(p)) LFAIL("a dead object is destroyed"); }
static void used(void const *p) { if (!who.count(p) && !left.count(p)) LFAIL("a dead object is used"); }
template<int W, bool NX, int A = 8> struct alignas(A) Obj {
    long v; long pad[W ? W : 1];
    explicit Obj(long x = -7): v{x} { mis(); born(this); }
    Obj(Obj const &o): v{o.v} { used(&o); boom(); ++n_copied; mis(); born(this); }
    Obj(Obj &&o) noexcept(NX): v{o.v} { used(&o); if (!NX) boom(); ++n_moved; mis(); o.v = -1; if ((void*)this == (void*)&o) return; if (who.erase(&o)) left.insert(&o); born(this); }
    Obj& operator=(Obj const &o) = delete;
    ~Obj() { died(this); }
    bool operator==(Obj const &o) const { used(this); used(&o); return v == o.v; }
    void mis() { if (std::uintptr_t(this) % A) LFAIL("an object is misaligned"); }
};
template<bool NX> struct Obj<0, NX, 8> {
    long v;
    explicit Obj(long x = -7): v{x} { born(this); }
    Obj(Obj const &o): v{o.v} { used(&o); boom(); ++n_copied; born(this); }
    Obj(Obj &&o) noexcept(NX): v{o.v} { used(&o); if (!NX) boom(); ++n_moved; o.v = -1; if ((void*)this == (void*)&o) return; if (who.erase(&o)) left.insert(&o); born(this); }
    Obj& operator=(Obj const &o) = delete;
    ~Obj() { died(this); }
    bool operator==(Obj const &o) const { used(this); used(&o); return v == o.v; }
};
struct S1: Obj<0, true> { using Obj::Obj; }; struct S2: Obj<1, true> { using Obj::Obj; }; struct SX: Obj<0, false> { using Obj::Obj; }; struct B1: Obj<4, true> { using Obj::Obj; }; struct BX: Obj<4, false> { using Obj::Obj; }; struct AL: Obj<1, true, 64> { using Obj::Obj; };
struct CO: Obj<0, true> { using Obj::Obj; CO(CO const&) = default; CO(CO&&) = delete; }; struct BCO: Obj<3, true> { using Obj::Obj; BCO(BCO const&) = default; BCO(BCO&&) = delete; };
struct MO: Obj<0, true> { using Obj::Obj; MO(MO const&) = delete; MO(MO&&) = default; };
enum class E1: int { a };
template<class T> using El = std::remove_cv_t<std::remove_all_extents_t<T>>;
template<class T> constexpr int N = sizeof(T) / sizeof(El<T>);
template<class E> constexpr bool obj = std::is_class_v<E>;
template<class E> long get(E const &e) { if constexpr(obj<E>) return e.v; else if constexpr(std::is_pointer_v<E>) return long(std::uintptr_t(e)); else return long(e); }
struct Kind { const char *name; int objs; bool copyable; std::function<bool(variant&, std::vector<long>&, int how, bool assign)> make; std::function<std::vector<long>(variant const&)> read; MetaType_ID id; };
template<class T> static Kind kind(const char *name) {
    using E = El<T>; using Arr = std::conditional_t<std::is_array_v<T>, std::remove_cv_t<T>, E>;
    Kind k; k.name = name; k.objs = obj<E> ? N<T> : 0; k.copyable = std::is_copy_constructible_v<E>; k.id = metaTypeId<std::remove_cv_t<T>>();
    k.make = [name](variant &v, std::vector<long> &want, int how, bool assign) {
        void *raw = ::operator new(sizeof(T) + 128); auto s = reinterpret_cast<E*>((std::uintptr_t(raw) + 63) / 64 * 64); want.clear();
        int at = boom_at; boom_at = -1;
        for (int i = 0; i < N<T>; ++i) { long x = long(drv::rng.below(200)); if constexpr(obj<E>) ::new (s + i) E(x); else if constexpr(std::is_pointer_v<E>) s[i] = reinterpret_cast<E>(x * 8); else s[i] = E(x); want.push_back(get(s[i])); }
        boom_at = at; auto &a = *reinterpret_cast<Arr*>(s); bool ok = true, moved = false; n_copied = n_moved = 0;
        try {
            constexpr bool cc = std::is_copy_constructible_v<E>;
            if (assign) { if constexpr(cc) { if (how == 0) v = a; else if (how == 1) v = const_cast<Arr const&>(a); } if constexpr(cc) if (how == 3) v = std::move(const_cast<Arr const&>(a)); if (how == 2 || !cc) { moved = std::is_move_constructible_v<E>; v = std::move(a); } }
            else { v.~variant(); try { if constexpr(cc) { if (how == 0) ::new (&v) variant(a); else if (how == 1) ::new (&v) variant(const_cast<Arr const&>(a)); } if constexpr(cc) if (how == 3) ::new (&v) variant(std::move(const_cast<Arr const&>(a))); if (how == 2 || !cc) { moved = std::is_move_constructible_v<E>; ::new (&v) variant(std::move(a)); } } catch (...) { ::new (&v) variant; throw; } }
        } catch (Boom&) { ok = false; } catch (std::exception &e) { ok = false; drv::fail(drv::cat(name, ": ", e.what())); }
        boom_at = -1;
        if (ok && obj<E> && !assign) { LX(moved ? n_copied == 0 && n_moved == N<T> : n_copied == N<T> && n_moved == 0, name, ": ", n_copied, " copies and ", n_moved, " moves to make one variant"); }
        for (int i = 0; i < N<T>; ++i) { if (!moved) VX(get(s[i]) == want[i], name, ": the source changed"); if constexpr(obj<E>) s[i].~E(); }
        ::operator delete(raw);
        return ok;
    };
    k.read = [name](variant const &v) {
        std::vector<long> r; Arr const *p = nullptr;
        try { p = v.template data<Arr>(); } catch (...) {}
        if (!p) { VX(false, name, ": no access to the content"); return r; }
        auto e = reinterpret_cast<E const*>(p); if (std::uintptr_t(e) % alignof(E)) LFAIL("an object is misaligned");
        for (int i = 0; i < N<T>; ++i) { if constexpr(obj<E>) LX(who.count(e + i), name, ": the contained object is not alive"); r.push_back(get(e[i])); }
        return r;
    };
    return k;
}
// values, conversions, comparisons and arguments on the way leave no object behind
template<class F, class T> void around(const char *what) {
    long x = long(drv::rng.below(5)), y = long(drv::rng.below(5)); std::size_t n0 = who.size();
    { variant v{F(x)}; variant const &c = v; auto keep = std::make_unique<T>(y); T &w = *keep; std::size_t n = who.size();
      auto same = [&](const char *how) { LX(who.size() == n, what, ": ", who.size(), " objects alive instead of ", n, " after ", how); };
      for (int at: {-1, 0, 1, 2}) { auto run = [&](const char *how, auto f) { boom_at = at; try { f(); } catch (Boom&) {} catch (runtime_error&) {} boom_at = -1; same(how); };
        run("eq", [&] { bool r = v.eq(w); VX(r == (x == y), "eq"); }); run("neq", [&] { (void)c.neq(w); }); run("to", [&] { T t = v.to<T>(); }); run("to, constant", [&] { T t = c.to<T>(); }); run("to itself", [&] { F t = v.to<F>(); });
        run("an argument by value", [&] { argument a{w}; F t = a.value<F>(); }); run("an argument by reference", [&] { argument a{w}; F const &t = a.value<F const&>(); (void)t; }); run("an argument by rvalue", [&] { argument a{std::move(v)}; T &&t = a.value<T&&>(); (void)t; }); } }
    LX(who.size() == n0, what, ": objects left");
}
struct Model { int kind = -1; std::vector<long> v; };
int main(int argc, char **argv) {
    drv::init(argc, argv);
    std::vector<Kind> kinds{kind<S1>("small"), kind<S2>("two words"), kind<SX>("throwing move"), kind<B1>("big"), kind<BX>("big, throwing move"), kind<AL>("over-aligned"), kind<CO>("copy-only"), kind<BCO>("big copy-only"), kind<MO>("move-only"),
        kind<S1[3]>("array"), kind<BX[2]>("array, throwing move"), kind<SX[2][2]>("matrix"), kind<long>("long"), kind<char>("char"), kind<E1>("enum"), kind<int const*>("pointer"), kind<int[3]>("int[3]"), kind<short const*[2]>("pointer array")};
    constexpr int V = 4; alignas(variant) static char mem[V][sizeof(variant)]; auto v = [&](int i) -> variant& { return *reinterpret_cast<variant*>(mem[i]); };
    { auto conv = [](auto *f, auto *t) { using F = std::remove_reference_t<decltype(*f)>; using T = std::remove_reference_t<decltype(*t)>; MetaType::registerConverter<F, T>(+[](F const &f) { return T(f.v); }); MetaType::registerConverter<T, F>(+[](T const &t) { return F(t.v); }); };
      conv((B1*)0, (BX*)0); conv((BX*)0, (S2*)0); conv((BCO*)0, (BX*)0);
      auto back = [](auto *f, auto *t) { using F = std::remove_reference_t<decltype(*f)>; using T = std::remove_reference_t<decltype(*t)>; MetaType::registerConverter<T, F>(+[](T const &x) { return F(get(x)); }); }; back((B1*)0, (AL*)0); back((BCO*)0, (B1*)0); back((SX*)0, (BX*)0); back((S1*)0, (long*)0); back((BX*)0, (long*)0); }
    do {
        Model m[V]; std::string log; who.clear(); left.clear();
        for (int i = 0; i < V; ++i) ::new (mem[i]) variant;
        for (int step = 0; step < 25 && drv::fails < 10; ++step) {
            int i = int(drv::rng.below(V)), j = int(drv::rng.below(V)), op = int(drv::rng.below(7)), k = int(drv::rng.below(kinds.size())), how = int(drv::rng.below(4)); std::vector<long> want; bool b = drv::rng.below(3) == 0;
            boom_at = b ? int(drv::rng.below(5)) : -1; n_copied = n_moved = 0; bool threw = false; Model mi = m[i];
            auto name = [&](int x) { return m[x].kind < 0 ? "empty" : kinds[m[x].kind].name; };
            switch (op) {
            case 0: log += drv::cat(" v", i, "{", kinds[k].name, "/", how, boom_at, "}"); if (kinds[k].make(v(i), want, how, false)) m[i] = {k, want}; else m[i] = {}; break;
            case 1: case 2: log += drv::cat(" v", i, "=", kinds[k].name, "/", how, boom_at); if (kinds[k].make(v(i), want, how, true)) m[i] = {k, want}; else threw = true; break;
            case 3: { log += drv::cat(" v", i, "=v", j, boom_at); bool un = m[j].kind >= 0 && !kinds[m[j].kind].copyable && i != j;
                try { v(i) = const_cast<variant const&>(v(j)); m[i] = m[j]; VX(!un, "copying an uncopyable object succeeded"); } catch (Boom&) { threw = true; } catch (runtime_error &) { threw = true; VX(un, "copy refused"); } break; }
            case 4: boom_at = -1; log += drv::cat(" v", i, "=move(v", j, ")"); v(i) = std::move(v(j)); if (i != j) { m[i] = m[j]; m[j] = {}; } break;
            case 5: boom_at = -1; log += drv::cat(" swap(v", i, ",v", j, ")"); if (how) swap(v(i), v(j)); else { using std::swap; swap(v(j), v(i)); } std::swap(m[i], m[j]); break;
            case 6: boom_at = -1; if (how == 0) { log += drv::cat(" clear v", i); v(i).clear(); m[i] = {}; }
                else { log += drv::cat(" copy/move v", i); bool un = m[i].kind >= 0 && !kinds[m[i].kind].copyable; try { variant c{const_cast<variant const&>(v(i))}; VX(!un, "copying an uncopyable object succeeded"); if (m[i].kind >= 0) { VX(c.typeId() == kinds[m[i].kind].id && kinds[m[i].kind].read(c) == m[i].v, "a copy differs from its source after", log); variant d{std::move(c)}; VX(c.empty() && kinds[m[i].kind].read(d) == m[i].v, "a move loses the object after", log); } else { VX(c.empty(), "a copy of an empty variant is not empty"); variant d{std::move(c)}; VX(c.empty() && d.empty(), "a move of an empty variant"); } } catch (Boom&) {} catch (runtime_error&) { VX(un, "copy refused"); } } break;
            }
            if (threw) VX(b || op == 3, "threw"); boom_at = -1; (void)name;
            long objs = 0;
            for (int x = 0; x < V; ++x) {
                VX(v(x).empty() == (m[x].kind < 0), "v", x, (m[x].kind < 0 ? " is not empty" : " is empty"), " after", log);
                if (m[x].kind < 0) { VX(!v(x).typeId().valid(), "an empty variant has a type after", log); continue; }
                auto &K = kinds[m[x].kind]; objs += K.objs; if (v(x).empty()) continue;
                VX(v(x).typeId() == K.id, "v", x, " has the wrong type after", log); if (v(x).typeId() == K.id) { auto r = K.read(v(x)); VX(r == m[x].v, "v", x, " (", K.name, ") holds ", (r.empty() ? -1 : r[0]), ", not ", m[x].v[0], " after", log); }
            }
            LX(long(who.size()) == objs, who.size(), " objects alive, the variants hold ", objs, " after", log);
        }
        for (int i = 0; i < V; ++i) v(i).~variant();
        LX(who.empty(), who.size(), " objects left at the end of", log);
        around<B1, BX>("big to big"); around<BX, S2>("big to two words"); around<BCO, BX>("copy-only to big"); around<BX, BCO>("big to copy-only"); around<B1, AL>("big from over-aligned"); around<BCO, B1>("copy-only from big"); around<SX, BX>("small from big"); around<S1, long>("small from a number"); around<BX, long>("big from a number");
        { BX o{5}; long n = long(who.size()); { variant r{std::ref(o)}, r2{std::cref(o)}; variant c{r}; r2 = c; swap(r, r2); VX(c.template data<BX>() == &o && r.template data<BX>() && r.template data<BX>() != nullptr, "a reference designates another object"); } LX(long(who.size()) == n && who.count(&o), "an object passed by reference was destroyed or copied"); }
        { S1 o[2]; { variant r{std::ref(o)}; variant c = r; } LX(who.count(&o[0]) && who.count(&o[1]), "an array passed by reference was destroyed"); }
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
