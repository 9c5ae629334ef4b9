// C04: converter tables against a model; built-in converters.
#include "inv.h"
#include <map>
#include <set>
using Base = rtti::internal::ConvertFunctionBase;
struct Probe: Base {
    mutable int calls = 0; mutable void const *in = nullptr; mutable void *out = nullptr; bool answer = true;
    Probe(): Base{[](Base const &s, void const *i, void *o) { auto &p = static_cast<Probe const&>(s); ++p.calls; p.in = i; p.out = o; return p.answer; }} {}
};
static std::set<void const*> live; static long made = 0, bad = 0;
struct Counted { int v; explicit Counted(int x): v{x} { live.insert(this); ++made; } Counted(Counted const &o): v{o.v} { live.insert(this); ++made; } ~Counted() { if (!live.erase(this)) ++bad; } };
struct S0 { int x; bool refuse = false, boom = false; Counted get() const { if (boom) throw 1; return Counted{x + 1}; } Counted get_ok(bool &ok) const { if (boom) throw 1; ok = !refuse; return Counted{x + 2}; } };
struct S1: S0 {}; struct S2: S0 {}; struct S3: S0 { Counted m() const { return get(); } }; struct S4: S0 { Counted m(bool &ok) const { return get_ok(ok); } }; struct S5: S0 {}; struct S6: S0 {};
static Counted from5(S5 s) { return s.get(); }
static Counted other5(S5 s) { return Counted{s.x + 50}; }
template<class S> static void run(const char *what, int add, bool has_ok) {
    struct { std::aligned_storage_t<sizeof(Counted), alignof(Counted)> b; } buf;
    auto from = metaTypeId<S>(), to = metaTypeId<Counted>();
    EXPECT(MetaType::hasConverter(from, to) && MetaType::hasConverter(metaTypeId<S const&>(), metaTypeId<Counted const>()) && (MetaType::template hasConverter<S&, Counted&&>()), what, ": no converter after registration");
    for (int k = 0; k < 6; ++k) {
        S s{}; s.x = int(drv::rng.below(1000)); s.boom = k % 3 == 2; s.refuse = k % 3 == 1;
        auto n = live.size(); bool want = !s.boom && !(has_ok && s.refuse), r = false;
        NOTHROW(r = MetaType::convert(&s, k & 1 ? from : metaTypeId<S const&>(), &buf.b, to), what, ": converter of a throwing functor");
        EXPECT(r == want, what, ": conversion ", r ? "succeeded" : "failed", s.boom ? " (functor threw)" : s.refuse ? " (functor refused)" : "");
        EXPECT(live.size() == n + (want ? 1 : 0), what, ": ", live.size() - n, " objects left after a ", r ? "successful" : "failed", " conversion");
        if (r && live.count(&buf)) { EXPECT(reinterpret_cast<Counted*>(&buf)->v == s.x + add, what, ": wrong result"); reinterpret_cast<Counted*>(&buf)->~Counted(); }
        variant v{s};
        try { auto c = v.to<Counted>(); EXPECT(want && c.v == s.x + add, what, ": to<> gives ", c.v); } catch (bad_variant_convert&) { EXPECT(!want, what, ": to<> failed"); } catch (...) { drv::fail(drv::cat(what, ": to<> let another exception out")); }
    }
    live.clear();
}
// the end of a converter takes it out of the table, and no other
template<class From, class C, class A> void ends(char const *what, A a) {
    auto f = metaTypeId<From>(), t = metaTypeId<Counted>();
    bool had = MetaType::hasConverter(f, t);
    { C c{a}; EXPECT(MetaType::registerConverter(f, t, c) == !had, what, ": registering"); EXPECT(MetaType::hasConverter(f, t), what, ": no converter after registering"); }
    EXPECT(MetaType::hasConverter(f, t) == had, what, had ? ": the end of a refused converter removes the one in force" : ": a converter outlives its object");
}
template<class S> void all_end() {
    auto l = [](S const &) { return Counted{1}; }; auto l_ok = [](S const &, bool &ok) { ok = true; return Counted{1}; };
    ends<S, rtti::internal::ConvertFunctor<S, Counted, decltype(l)>>("functor", l); ends<S, rtti::internal::ConvertFunctorOk<S, Counted, decltype(l_ok)>>("functor with verdict", l_ok);
    ends<S, rtti::internal::ConvertMethod<S, Counted>>("method", static_cast<Counted (S::*)() const>(nullptr)); ends<S, rtti::internal::ConvertMethodOk<S, Counted>>("method with verdict", static_cast<Counted (S::*)(bool&) const>(nullptr));
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    all_end<S1>();
    std::vector<std::function<MetaType_ID()>> fam;
    EXPECT((MetaType::registerConverter<S1, Counted>([](S1 s) { return s.get(); })), "functor refused");
    EXPECT((MetaType::registerConverter<S2 const&, Counted>([](S2 const &s, bool &ok) { return s.get_ok(ok); })), "functor refused");
    EXPECT((MetaType::registerConverter<S3, Counted>(&S3::m)), "method refused"); EXPECT((MetaType::registerConverter<S4, Counted>(&S4::m)), "method refused");
    EXPECT((MetaType::registerConverter<S5, Counted>(&from5)), "function refused");
    EXPECT(!(MetaType::registerConverter<S1, Counted>([](S1) { return Counted{0}; })), "a second converter is accepted");
    EXPECT(!(MetaType::registerConverter<S5 const, Counted>([](S5) { return Counted{0}; })), "a second converter is accepted");
    EXPECT(!(MetaType::hasConverter<S6, Counted>()) && !(MetaType::hasConverter<Counted, S1>()), "a converter nobody registered");
    EXPECT((MetaType::registerConverter<int, double>()), "default converter refused");
    { int i = 42; double d = 0; EXPECT(MetaType::convert(&i, metaTypeId<int>(), &d, metaTypeId<double>()) && d == 42, "default converter gives ", d); EXPECT(variant{7}.to<double>() == 7.0, "to<double>"); }
    all_end<S1>(); all_end<S3>(); all_end<S6>();
    run<S1>("functor", 1, false); run<S2>("functor with verdict", 2, true); run<S3>("method", 1, false); run<S4>("method with verdict", 2, true); run<S5>("function", 1, false);
    {
        MetaType::unregisterConverter<S1, Counted>(); EXPECT(!(MetaType::hasConverter<S1, Counted>()) && (MetaType::hasConverter<S2, Counted>()), "unregistering removes exactly one pair");
        THROWS(bad_variant_convert, variant{S1{}}.to<Counted>(), "conversion without converter");
        MetaType::unregisterConverter<S5, Counted>();
        EXPECT((MetaType::registerConverter<S5, Counted>(&other5)), "registering after unregistering refused");
        S5 s{}; s.x = 3; auto v = variant{s}.to<Counted>().v;
        if (v == 4) drv::known("KF-C04-1", "registerConverter<From, To>(f), unregisterConverter, registerConverter<From, To>(g) with g of f's type: conversions still run f");
        else EXPECT(v == 53, "the converter registered after unregistering gives ", v);
    }
    while (drv::time_left() && drv::fails < 5) {
        int k = 2 + drv::rng.below(5);
        struct T { MetaType_ID id; int decay; }; std::vector<T> ts; static int fresh = 0;
        for (int i = 0; i < k; ++i) ts.push_back({fresh_type(), i});
        for (int i = 0, n = drv::rng.below(4); i < n; ++i) { int d = drv::rng.below(k); ts.push_back({MetaType::registerMetaType(*new std::string(drv::cat("variant type ", fresh++)), 8, ts[d].id, 0, 0, TypeFlags::None, nullptr), d}); }
        std::map<std::pair<int, int>, Probe*> model; static std::vector<std::unique_ptr<Probe>> keep;
        std::string hist; MetaType_ID inv{};
        for (int step = 0; step < 40; ++step) {
            auto &a = ts[drv::rng.below(ts.size())], &b = ts[drv::rng.below(ts.size())]; std::pair<int, int> key{a.decay, b.decay};
            Probe *want = model.count(key) ? model[key] : nullptr; int op = drv::rng.below(8);
            if (op < 3) { keep.emplace_back(new Probe); keep.back()->answer = drv::rng.flip(); bool r = MetaType::registerConverter(a.id, b.id, *keep.back()); EXPECT(r == !want, "registering ", a.decay, "->", b.decay, r ? " accepted" : " refused", hist); if (r) model[key] = keep.back().get(); hist += drv::cat(" reg", a.decay, ">", b.decay); }
            else if (op == 3) { MetaType::unregisterConverter(a.id, b.id); model.erase(key); hist += drv::cat(" unreg", a.decay, ">", b.decay); }
            else if (op == 4) { EXPECT(!MetaType::hasConverter(inv, b.id) && !MetaType::hasConverter(a.id, inv) && !MetaType::hasConverter(inv, inv), "an invalid type has a converter"); EXPECT(!MetaType::registerConverter(inv, b.id, *new Probe) && !MetaType::registerConverter(a.id, inv, *new Probe), "converter for an invalid type accepted"); MetaType::unregisterConverter(inv, b.id); MetaType::unregisterConverter(a.id, inv); EXPECT(!MetaType::convert(&a, inv, &b, b.id) && !MetaType::convert(&a, a.id, &b, inv), "conversion of an invalid type"); }
            else {
                for (auto &p : model) p.second->calls = 0;
                char in[8], out[8]; bool r = drv::rng.flip() ? MetaType::convert(in, a.id, out, b.id) : MetaType::convert(in, MetaType{a.id}, out, MetaType{b.id});
                EXPECT(r == (want && want->answer), "convert ", a.decay, "->", b.decay, " gives ", r, hist);
                for (auto &p : model) EXPECT(p.second->calls == (p.second == want ? 1 : 0), "convert ", a.decay, "->", b.decay, " calls the converter of ", p.first.first, "->", p.first.second, " ", p.second->calls, " times", hist);
                if (want) EXPECT(want->in == in && want->out == out, "converter called with other objects", hist);
            }
            for (int i = 0; i < 3; ++i) { auto &x = ts[drv::rng.below(ts.size())], &y = ts[drv::rng.below(ts.size())]; bool w = model.count({x.decay, y.decay}); EXPECT(MetaType::hasConverter(x.id, y.id) == w && MetaType::hasConverter(MetaType{x.id}, MetaType{y.id}) == w, "hasConverter ", x.decay, "->", y.decay, " is ", !w, hist); }
        }
        for (auto &p : model) MetaType::unregisterConverter(ts[p.first.first].id, ts[p.first.second].id);
        keep.clear();
    }
    return drv::finish();
}
