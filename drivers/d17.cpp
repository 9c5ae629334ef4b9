// C17: properties of every kind, on every kind of instance, against plain access.
#include "live.h"
using namespace rtti; using drv::cat;
namespace r {
using live::SmallX; using live::Boom;
struct First { virtual ~First() = default; long f = 1; DECLARE_CLASSINFO };
enum class Color: int { red, green, blue };
struct Guts { long a, b; bool operator==(Guts const &o) const { return a == o.a && b == o.b; } };
struct Rec { virtual ~Rec() = default; long before = 1; long word = 2; char byte = 3; long const fixed = 4; std::string text; SmallX live{5}; long *ptr = nullptr; Color color = Color::red; Guts guts{6, 7}; bool flag = false; double real = 0; long const list[2] = {8, 9}; long after = 10;
    long got = 0, set = 0, n_get = 0, n_set = 0; bool boom = false; Rec() = default; Rec(Rec const &o): before{o.before}, word{o.word}, fixed{o.fixed}, text{o.text}, live{o.live}, ptr{o.ptr}, guts{o.guts}, after{o.after}, got{o.got} {}
    long read() const { ++const_cast<Rec*>(this)->n_get; if (boom) throw Boom{}; return got; } void write(long x) { ++n_set; if (boom) throw Boom{}; set = x; }
    std::string const& view() const { ++const_cast<Rec*>(this)->n_get; return text; } void change(std::string const &s) { ++n_set; text = s; }
    DECLARE_CLASSINFO };
struct Derived: First, Rec { long d = 3; DECLARE_CLASSINFO };
struct Lone { long l = 0; };
long g_word; long const g_fixed = 77; std::string g_text; SmallX g_live{3}; long *g_ptr; Color g_color; Guts g_guts; long s_get_n, s_set_n, s_value;
long s_read() { ++s_get_n; return s_value; } void s_write(long x) { ++s_set_n; s_value = x; }
long const& s_view() { ++s_get_n; return s_value; } void s_change(long const &x) { ++s_set_n; s_value = x; }
}
using namespace r;
enum End { VALUE, INVOKE, CAST, BOOM, RUN, OTHER };
template<class F> End end_of(F f) { try { f(); return VALUE; } catch (invoke_error&) { return INVOKE; } catch (bad_variant_cast&) { return CAST; } catch (live::Boom&) { return BOOM; } catch (runtime_error&) { return RUN; } catch (...) { return OTHER; } }
static long word() { return long(drv::rng.next() >> 8); }
static std::string text() { return std::string(drv::rng.below(60), char('a' + drv::rng.below(26))); }
// everything there is, to see what changed
struct All { std::vector<std::string> v; template<class T> void add(T const &x) { if constexpr(std::is_same_v<T, std::string>) v.push_back(x); else v.emplace_back((char const*)&x, sizeof x); }
    void add(Rec const &o) { add(o.before); add(o.word); add(o.byte); add(o.fixed); add(o.text); add(o.live.v); add(o.ptr); add(o.color); add(o.guts); add(o.flag); add(o.real); add(o.list); add(o.after); add(o.got); add(o.set); }
    int changed(All const &o) const { int n = 0; for (std::size_t i = 0; i < v.size(); ++i) n += v[i] != o.v[i]; return n; } };
static All globals() { All a; a.add(g_word); a.add(g_fixed); a.add(g_text); a.add(g_live.v); a.add(g_ptr); a.add(g_color); a.add(g_guts); a.add(s_value); return a; }
static All whole(Rec const &o, Rec const &p, Rec const &q) { All a = globals(); a.add(o); a.add(p); a.add(q); return a; }
MetaClass const *c; MetaNamespace const *ns;
static MetaProperty const* prop(const char *n) { auto p = c->getProperty(n); if (!p) p = ns->getProperty(n); if (!p) { drv::fail(cat("no property ", n)); std::exit(1); } return p; }
template<class T> bool same(T const &a, T const &b) { return a == b; }
template<class T, class V> void a_static(const char *n, T &x, V next, bool fixed) {
    auto p = prop(n); All g0 = globals(); Rec o, *po = &o; variant v{std::ref(o)};
    EXPECT(p->readOnly() == fixed, n, ": readOnly");
    { variant r; End e = end_of([&] { r = p->get(); }); EXPECT(e == VALUE && &r.cref<V>() == &x && !r.data<V>(), n, ": not the variable, or open"); }
    for (int k = 0; k < 3; ++k) { variant r; End e = end_of([&] { if (k == 0) r = p->get(o); else if (k == 1) r = p->get(po); else r = p->get(v); }); EXPECT(e == INVOKE && r.empty(), n, ": a static property of an instance"); e = end_of([&] { if (k == 0) p->set(o, next); else if (k == 1) p->set(po, next); else p->set(v, next); }); EXPECT(e == INVOKE, n, ": a static property is set in an instance"); }
    { Lone l; End e = end_of([&] { p->set(l); }); EXPECT(e == (fixed ? INVOKE : CAST), n, ": another type is written"); } EXPECT(!globals().changed(g0), n, ": something is written");
    V keep = next; End e = end_of([&] { p->set(next); }); EXPECT(e == (fixed ? INVOKE : VALUE), n, fixed ? ": a constant is written" : ": is not written"); EXPECT(same(keep, next), n, ": the value given is changed");
    if (!fixed) { EXPECT(same<V>(x, next), n, ": has not the value given"); EXPECT(globals().changed(g0) <= 1, n, ": something else is written"); } else EXPECT(!globals().changed(g0), n, ": something is written");
}
template<class T, class V> void a_field(const char *n, T Rec::*f, V next, bool fixed) {
    using X = std::remove_const_t<T>; auto p = prop(n); EXPECT(p->readOnly() == fixed, n, ": readOnly");
    Rec o; Rec const &co = o; Derived d; Rec *po = &o, *null = nullptr; Rec const *pco = &o; Derived *pd = &d; Lone lone, *pl = &lone; long number = 5; Rec *base = &d; o.text = text(); o.got = word();
    variant held{o}, vr{std::ref(o)}, vc{std::cref(o)}, vp{po}, vpc{pco}, vd{std::ref(d)}, vpd{pd}, none, vn{null}, vl{std::ref(lone)}, vpl{pl}, vw{number}; Rec *in = &held.ref<Rec>();
    struct Way { const char *what; std::function<variant()> get; std::function<void()> set; Rec *at; bool open; End wrong; };
    auto V1 = [&](const char *w, variant &v, Rec *at, bool open, End wrong) { return Way{w, [&v, p] { return p->get(v); }, [&v, p, &next] { p->set(v, next); }, at, open, wrong}; };
    auto V2 = [&](const char *w, variant const &v, Rec *at, bool open, End wrong) { return Way{w, [&v, p] { return p->get(v); }, [&v, p, &next] { p->set(v, next); }, at, open, wrong}; };
    auto V3 = [&](const char *w, variant &v, Rec *at, bool open, End wrong) { return Way{w, [&v, n] { return v.get_property(n); }, [&v, n, &next] { v.set_property(n, next); }, at, open, wrong}; };
    std::vector<Way> ways{V1("a variant", held, in, true, CAST), V2("a constant variant", held, in, false, CAST), V1("a variant referring", vr, &o, true, CAST), V2("a constant variant referring", vr, &o, false, CAST), V1("a variant referring to a constant", vc, &o, false, CAST), V1("a variant of a pointer", vp, &o, true, CAST), V2("a constant variant of a pointer", vp, &o, true, CAST), V1("a variant of a pointer to constant", vpc, &o, false, CAST),
        V1("a variant referring to a derived object", vd, base, true, CAST), V2("a constant variant referring to a derived object", vd, base, false, CAST), V1("a variant of a pointer to derived", vpd, base, true, CAST), V1("no instance", none, nullptr, false, CAST), V1("a null pointer", vn, nullptr, false, INVOKE), V1("another class", vl, nullptr, false, CAST), V1("a pointer to another class", vpl, nullptr, false, CAST), V1("a number", vw, nullptr, false, CAST),
        V3("get_property", held, in, true, CAST), V3("get_property", vr, &o, true, CAST), V3("get_property of a pointer", vp, &o, true, CAST), V3("get_property of a derived object", vd, base, true, CAST), V3("get_property of a pointer to derived", vpd, base, true, CAST), V3("get_property of no object", vw, nullptr, false, RUN), V3("get_property of nothing", none, nullptr, false, RUN)};
    ways.push_back(Way{"a pointer", [&] { return p->get(po); }, [&] { p->set(po, next); }, &o, true, CAST}); ways.push_back(Way{"a pointer to constant", [&] { return p->get(pco); }, [&] { p->set(pco, next); }, &o, false, CAST}); ways.push_back(Way{"std::cref", [&] { return p->get(std::cref(o)); }, [&] { p->set(std::cref(o), next); }, &o, false, CAST});
    for (auto &w : ways) {
        All a0 = whole(o, d, *in); variant r; End e = end_of([&] { r = w.get(); });
        EXPECT(e == (w.at ? VALUE : w.wrong), n, " of ", w.what, w.at ? " can't be got" : " can be got, or ends in another error"); if (w.at && e == VALUE) EXPECT(&r.cref<X>() == &(w.at->*f) && !r.data<X>(), n, " of ", w.what, ": not the object's own field, or open"); EXPECT(!whole(o, d, *in).changed(a0), n, " of ", w.what, ": reading writes");
        e = end_of(w.set); End want = fixed ? (w.wrong == RUN ? RUN : INVOKE) : w.at && w.open ? VALUE : w.wrong; EXPECT(e == want, n, " of ", w.what, want == VALUE ? " can't be set" : " can be set, or ends in another error");
        if constexpr(!std::is_const_v<T>) if (e == VALUE) { EXPECT(same<V>(w.at->*f, next), n, " of ", w.what, ": has not the value given"); EXPECT(whole(o, d, *in).changed(a0) <= 1, n, " of ", w.what, ": something else is written"); w.at->*f = X{}; continue; }
        EXPECT(!whole(o, d, *in).changed(a0), n, " of ", w.what, ": a refused write changes something");
    }
    All a0 = whole(o, d, *in); { variant r; EXPECT(end_of([&] { r = p->get(); }) == INVOKE && r.empty(), n, ": a field without an instance"); EXPECT(end_of([&] { p->set(next); }) == INVOKE, n, ": a field is set without an instance"); }
    { Lone l; EXPECT(end_of([&] { p->set(vr, l); }) == (fixed ? INVOKE : CAST), n, ": another type is written"); variant vx{next}; (void)co; EXPECT(!whole(o, d, *in).changed(a0), n, ": a refused value changes something"); if (!fixed) { EXPECT(end_of([&] { p->set(vr, vx); }) == VALUE, n, ": a variant is not given"); if constexpr(!std::is_const_v<T>) EXPECT(same<V>(o.*f, next), n, ": a variant's content is not given"); } }
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    global_define()._namespace("d17")._class<First>("First")._end()._class<Lone>("Lone")._end()
        ._class<Rec>("Rec")._property("word", &Rec::word)._property("byte", &Rec::byte)._property("fixed", &Rec::fixed)._property("text", &Rec::text)._property("live", &Rec::live)._property("ptr", &Rec::ptr)._property("color", &Rec::color)._property("guts", &Rec::guts)._property("flag", &Rec::flag)._property("real", &Rec::real)._property("list", &Rec::list)
            ._property("access", &Rec::read, &Rec::write)._property("access_text", &Rec::view, &Rec::change)._property("class_word", &g_word)._end()
        ._class<Derived>("Derived")._base<First, Rec>()._end()
        ._property("g_word", &g_word)._property("g_fixed", &g_fixed)._property("g_text", &g_text)._property("g_live", &g_live)._property("g_ptr", &g_ptr)._property("g_color", &g_color)._property("g_guts", &g_guts)
        ._property("s_access", &s_read, &s_write)._property("s_access_ref", &s_view, &s_change)._end();
    ns = MetaNamespace::global()->getNamespace("d17"); c = MetaClass::find(metaTypeId<Rec>());
    do {
        auto alive = live::who.size(); static long cell[4];
        a_static("g_word", g_word, word(), false); a_static("class_word", g_word, word(), false); a_static("g_fixed", g_fixed, word(), true); a_static("g_text", g_text, text(), false); a_static("g_live", g_live, SmallX{word()}, false); a_static("g_ptr", g_ptr, &cell[drv::rng.below(4)], false); a_static("g_color", g_color, Color(drv::rng.below(3)), false); a_static("g_guts", g_guts, Guts{word(), word()}, false);
        a_field("word", &Rec::word, word(), false); a_field("byte", &Rec::byte, char(word()), false); a_field("fixed", &Rec::fixed, word(), true); a_field("text", &Rec::text, text(), false); a_field("live", &Rec::live, SmallX{word()}, false); a_field("ptr", &Rec::ptr, &cell[drv::rng.below(4)], false); a_field("color", &Rec::color, Color(drv::rng.below(3)), false); a_field("guts", &Rec::guts, Guts{word(), word()}, false); a_field("flag", &Rec::flag, drv::rng.flip(), false); a_field("real", &Rec::real, double(word()), false);
        { Rec o; variant v{std::ref(o)}, r = prop("list")->get(v); EXPECT((&r.cref<long[2]>() == &o.list), "an array field"); EXPECT(prop("list")->readOnly() && end_of([&] { prop("list")->set(v, o.list); }) == INVOKE, "an array of constants is written"); }
        { Rec o; Derived d; variant v{std::ref(o)}, vd{std::ref(d)}, vc{std::cref(o)}, none; variant const &k = v; auto p = prop("access"); o.got = word(); d.got = word(); long x = word(); Rec *po = &o, *null = nullptr; Rec const *pc = &o;
          EXPECT(!p->readOnly(), "an accessor is read-only"); { variant r = p->get(v); EXPECT(r.is<long>() && r.cref<long>() == o.got && o.n_get == 1, "a getter"); } { variant r = p->get(vd); EXPECT(r.cref<long>() == d.got && d.n_get == 1, "a getter of a derived object"); } { variant r = p->get(vc); EXPECT(r.cref<long>() == o.got && o.n_get == 2, "a getter of a constant"); }
          p->set(v, x); EXPECT(o.set == x && o.n_set == 1, "a setter"); p->set(vd, x); EXPECT(d.set == x && d.n_set == 1 && o.n_set == 1, "a setter of a derived object"); p->set(po, x + 1); EXPECT(o.set == x + 1 && o.n_set == 2, "a setter through a pointer"); v.set_property("access", x); EXPECT(o.set == x && o.n_set == 3, "set_property");
          EXPECT(end_of([&] { p->set(k, x); }) == CAST && end_of([&] { p->set(vc, x); }) == CAST && end_of([&] { p->set(pc, x); }) == CAST && end_of([&] { p->set(null, x); }) == INVOKE && end_of([&] { p->set(none, x); }) == CAST && end_of([&] { p->set(x); }) == INVOKE && end_of([&] { p->get(); }) == INVOKE && end_of([&] { p->set(v, text()); }) == CAST && o.n_set == 3, "a setter is called when it must not");
          o.boom = true; EXPECT(end_of([&] { p->get(v); }) == BOOM && end_of([&] { p->set(v, x); }) == BOOM && o.n_set == 4 && o.n_get == 3, "an accessor's exception");
          auto q = prop("access_text"); o.text = text(); std::string t = text(); { variant r = q->get(v); EXPECT(&r.cref<std::string>() == &o.text && !r.data<std::string>(), "a getter's reference"); } q->set(v, t); EXPECT(o.text == t && o.n_set == 5, "a setter by reference"); }
        { s_value = word(); s_get_n = s_set_n = 0; long x = word(); Rec o; variant v{std::ref(o)}; auto p = prop("s_access"), q = prop("s_access_ref"); { variant r = p->get(); EXPECT(r.cref<long>() == s_value && s_get_n == 1, "a static getter"); } { variant r = q->get(); EXPECT(&r.cref<long>() == &s_value && s_get_n == 2, "a static getter's reference"); } p->set(x); EXPECT(s_value == x && s_set_n == 1, "a static setter"); q->set(x + 1); EXPECT(s_value == x + 1 && s_set_n == 2, "a static setter by reference");
          EXPECT(end_of([&] { p->get(v); }) == INVOKE && end_of([&] { p->set(v, x); }) == INVOKE && end_of([&] { p->set(text()); }) == CAST && s_get_n == 2 && s_set_n == 2, "a static accessor is called when it must not"); }
        { Rec o; variant v{std::ref(o)}; EXPECT(end_of([&] { v.get_property("wor"); }) == RUN && end_of([&] { v.set_property("wordy", 1l); }) == RUN, "a property that isn't there"); Derived d; EXPECT(end_of([&] { variant{std::ref(d)}.get_property("d"); }) == RUN, "a property that isn't there"); variant u{Guts{1, 2}}; EXPECT(end_of([&] { u.get_property("a"); }) == RUN, "a class not registered"); }
        EXPECT(live::who.size() == alive, "objects are left behind");
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
