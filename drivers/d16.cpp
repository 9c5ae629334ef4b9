// C16: methods and constructors of every kind, number of arguments and instance, against plain calls.
#include "live.h"
using namespace rtti; using drv::cat;
namespace r {
inline std::vector<std::string> calls; inline long args[10]; inline int n_args; inline void const *self; inline long answer;
template<class... A> void seen(const char *name, void const *s, A... a) { calls.push_back(name); self = s; n_args = 0; ((args[n_args++] = a), ...); }
inline bool once(const char *name, std::vector<long> const &x) { bool ok = calls.size() == 1 && calls[0] == name && n_args == int(x.size()); for (int i = 0; ok && i < n_args; ++i) ok = args[i] == x[i]; calls.clear(); return ok; }
inline bool nothing() { bool ok = calls.empty(); calls.clear(); return ok; }
template<std::size_t> using L = long;
template<class> struct Ar;
// a member of another class first: the base part lies elsewhere
struct First { virtual ~First() = default; long f = 1; DECLARE_CLASSINFO };
template<std::size_t... I> struct Ar<std::index_sequence<I...>> {
    long v = 0; Ar() = default; Ar(Ar const&) = default; virtual ~Ar() = default;
    long get(L<I>... a) const { seen("get", this, a...); return answer; }
    long set(L<I>... a) { seen("set", this, a...); return answer; }
    void cvoid(L<I>... a) const { seen("cvoid", this, a...); }
    void mvoid(L<I>... a) { seen("mvoid", this, a...); }
    virtual long virt(L<I>... a) const { seen("virt", this, a...); return answer; }
    long& ref(L<I>... a) { seen("ref", this, a...); return v; }
    long const& cref(L<I>... a) const { seen("cref", this, a...); return v; }
    static long stat(L<I>... a) { seen("stat", nullptr, a...); return answer; }
    static void svoid(L<I>... a) { seen("svoid", nullptr, a...); }
    long calm(L<I>... a) const noexcept { seen("calm", this, a...); return answer; }
    long loud(L<I>... a) const { seen("loud", this, a...); throw live::Boom{}; }
    DECLARE_CLASSINFO
};
template<std::size_t N> struct An: Ar<std::make_index_sequence<N>> { using Ar<std::make_index_sequence<N>>::Ar; };
template<std::size_t N> using A = Ar<std::make_index_sequence<N>>;
template<std::size_t N> struct D: First, A<N> { long d = 3; template<std::size_t... I> long over(L<I>... a) const { seen("over", static_cast<A<N> const*>(this), a...); return answer; } DECLARE_CLASSINFO };
template<> struct D<2>: First, A<2> { long virt(long a, long b) const override { seen("over", static_cast<A<2> const*>(this), a, b); return answer; } DECLARE_CLASSINFO };
struct Lone { long l = 0; };
template<class> struct Bu;
template<std::size_t... I> struct Bu<std::index_sequence<I...>> { long v; explicit Bu(L<I>... a): v{answer} { seen("built", nullptr, a...); if (answer < 0) throw live::Boom{}; } };
}
using namespace r;
enum End { VALUE, INVOKE, CAST, BOOM, RUN, OTHER };
template<class F> End end_of(F f) { try { f(); return VALUE; } catch (invoke_error&) { return INVOKE; } catch (bad_variant_cast&) { return CAST; } catch (live::Boom&) { return BOOM; } catch (runtime_error&) { return RUN; } catch (...) { return OTHER; } }
static long word() { return long(drv::rng.next() >> 8); }
template<std::size_t N> struct Arity {
    using C = A<N>; MetaClass const *c; std::vector<long> x; std::vector<long> X() { return std::vector<long>(x.begin(), x.begin() + N); }
    MetaMethod const* m(const char *n) { auto r = c->getMethod(n); if (!r) { drv::fail(cat("no method ", n)); std::exit(1); } return r; }
    // f(call): the calls that must succeed or fail
    template<std::size_t... K> void with(std::index_sequence<K...>) {
        constexpr std::size_t k = sizeof...(K); constexpr bool right = k == N; auto at = cat(" of arity ", N, " with ", k, " arguments");
        C o; C const &co = o; C *p = &o; C const *cp = &o; D<N> d; D<N> *dp = &d; C *null = nullptr; Lone lone, *lp = &lone; long number = 5; answer = word(); o.v = word();
        auto call = [&](const char *n, auto &&... inst) { variant res; End e = end_of([&] { res = m(n)->invoke(std::forward<decltype(inst)>(inst)..., x[K]...); }); return std::pair<End, variant>{e, std::move(res)}; };
        auto good = [&](const char *n, const char *what, const char *seen_as, void const *self_, bool voided, std::pair<End, variant> got) {
            End want = right ? VALUE : INVOKE; EXPECT(got.first == want, what, ".", n, at, right ? " is refused" : " is accepted or ends in another error");
            if (!right) { EXPECT(nothing() && got.second.empty(), what, ".", n, at, ": something is called"); return; }
            auto s = self; EXPECT(once(seen_as, X()), what, ".", n, at, ": not called once with the arguments in order"); EXPECT(s == self_, what, ".", n, at, ": another instance");
            if (voided) EXPECT(got.second.empty(), what, ".", n, at, ": a result of a void function"); else EXPECT(got.second.template is<long>() && got.second.template cref<long>() == answer, what, ".", n, at, ": another result");
        };
        auto bad = [&](const char *n, const char *what, End want, std::pair<End, variant> got) { EXPECT(got.first == (right ? want : INVOKE) && got.second.empty() && nothing(), what, ".", n, at, ": ", got.first == VALUE ? "is accepted" : "another error, or something is called"); };
        good("stat", "class", "stat", nullptr, false, call("stat")); good("svoid", "class", "svoid", nullptr, true, call("svoid"));
        if constexpr(k < 10) {
            variant vr{std::ref(o)}, vc{std::cref(o)}, vv{o}, vp{p}, vcp{cp}, vd{std::ref(d)}, vdp{dp}, ve, vn{null}, vl{std::ref(lone)}, vlp{lp}, vw{number}, vpp{std::ref(p)}, vppp{&p}; variant const &kr = vr, &kv = vv, &kp = vp, &kd = vd;
            C *in = &vv.ref<C>(); C *base = &d;
            struct Row { const char *n; bool open, voided; }; 
            for (Row r : {Row{"get", false, false}, Row{"cvoid", false, true}, Row{"set", true, false}, Row{"mvoid", true, true}, Row{"calm", false, false}}) {
                auto n = r.n; auto when = [&](bool ok, const char *what, void const *s, End err, std::pair<End, variant> got) { if (ok) good(n, what, n, s, r.voided, std::move(got)); else bad(n, what, err, std::move(got)); };
                bool c_only = !r.open;
                when(true, "a variant", in, CAST, call(n, vv)); when(c_only, "a constant variant", in, CAST, call(n, kv)); when(true, "a variant referring", &o, CAST, call(n, vr)); when(c_only, "a constant variant referring", &o, CAST, call(n, kr)); when(c_only, "a variant referring to a constant", &o, CAST, call(n, vc));
                when(true, "a pointer", &o, CAST, call(n, p)); when(c_only, "a pointer to constant", &o, CAST, call(n, cp)); when(true, "a variant of a pointer", &o, CAST, call(n, vp)); when(true, "a constant variant of a pointer", &o, CAST, call(n, kp)); when(c_only, "a variant of a pointer to constant", &o, CAST, call(n, vcp)); when(true, "a reference to a pointer", &o, CAST, call(n, vpp));
                when(true, "a variant referring to a derived object", base, CAST, call(n, vd)); when(c_only, "a constant variant referring to a derived object", base, CAST, call(n, kd)); when(true, "a pointer to a derived object", base, CAST, call(n, dp)); when(true, "a variant of a pointer to a derived object", base, CAST, call(n, vdp));
                when(false, "no instance", nullptr, CAST, call(n, ve)); when(false, "a null pointer", nullptr, INVOKE, call(n, null)); when(false, "a variant of a null pointer", nullptr, INVOKE, call(n, vn)); when(false, "another class", nullptr, CAST, call(n, vl)); when(false, "a pointer to another class", nullptr, CAST, call(n, vlp)); when(false, "a number", nullptr, CAST, call(n, vw)); when(false, "a pointer to a pointer", nullptr, CAST, call(n, vppp));
            }
            o.v = word();
            { auto got = call("ref", vr); EXPECT(!right || (got.first == VALUE && got.second.template data<long>() == &o.v), "ref", at, ": not the same object"); calls.clear(); } { auto got = call("cref", vr); EXPECT(!right || (got.first == VALUE && &got.second.template cref<long>() == &o.v && !got.second.template data<long>()), "cref", at, ": not the same object, or open"); calls.clear(); }
            good("virt", "an object", "virt", &o, false, call("virt", vr)); if constexpr(N == 2) { good("virt", "a derived object", "over", base, false, call("virt", vd)); good("virt", "a pointer to a base part", "over", base, false, call("virt", base)); }
            { auto got = call("loud", vr); EXPECT(got.first == (right ? BOOM : INVOKE) && got.second.empty(), "loud", at, ": the exception is lost"); EXPECT(right ? once("loud", X()) : nothing(), "loud", at); }
            { variant res; End e = end_of([&] { res = vr.invoke("set", x[K]...); }); good("set", "variant::invoke", "set", &o, false, {e, std::move(res)}); } { variant res; End e = end_of([&] { res = kr.invoke("get", x[K]...); }); good("get", "constant variant::invoke", "get", &o, false, {e, std::move(res)}); } { variant res; End e = end_of([&] { res = kr.invoke("set", x[K]...); }); bad("set", "constant variant::invoke", CAST, {e, std::move(res)}); }
            { variant res; End e = end_of([&] { res = vd.invoke("set", x[K]...); }); good("set", "variant::invoke of a derived object", "set", base, false, {e, std::move(res)}); } { variant res; End e = end_of([&] { res = vdp.invoke("get", x[K]...); }); good("get", "variant::invoke of a pointer to derived", "get", base, false, {e, std::move(res)}); }
            for (auto v : {&vw, &ve, &vppp}) { variant res; End e = end_of([&] { res = v->invoke("get", x[K]...); }); EXPECT(e == RUN && nothing(), "variant::invoke of no object", at); } { End e = end_of([&] { vr.invoke("gets", x[K]...); }); EXPECT(e == RUN && nothing(), "variant::invoke of no method", at); }
        }
        { using B = Bu<std::make_index_sequence<N>>; auto cc = MetaClass::find(metaTypeId<B>()); auto ctor = N ? cc->getConstructor("built") : cc->defaultConstructor(); answer = word(); if (!ctor) { drv::fail("no constructor"); return; }
          if (drv::rng.below(4) == 0) answer = -1; variant res; End e = end_of([&] { res = ctor->invoke(x[K]...); }); bool boom = answer < 0;
          EXPECT(e == (!right ? INVOKE : boom ? BOOM : VALUE), "the constructor", at, right ? " is refused" : " is accepted or ends in another error"); EXPECT(right ? once("built", X()) : nothing(), "the constructor", at); if (e == VALUE && right) EXPECT(res.typeId() == metaTypeId<B>() && res.template cref<B>().v == answer, "the constructor", at, ": another object"); else EXPECT(res.empty(), "the constructor", at, ": an object"); }
    }
    template<std::size_t... K> void all(std::index_sequence<K...>) { (with(std::make_index_sequence<K>{}), ...); }
    static void define() {
        global_define()._namespace("d16")._class<First>("First")._end()
            .template _class<C>(cat("A", N))._method("get", &C::get)._method("set", &C::set)._method("cvoid", &C::cvoid)._method("mvoid", &C::mvoid)._method("virt", &C::virt)._method("ref", &C::ref)._method("cref", &C::cref)._method("stat", &C::stat)._method("svoid", &C::svoid)._method("calm", &C::calm)._method("loud", &C::loud)._end()
            .template _class<D<N>>(cat("D", N)).template _base<First, C>()._end().template _class<Lone>("Lone")._end()._end();
        defb(std::make_index_sequence<N>{});
    }
    template<std::size_t... I> static void defb(std::index_sequence<I...>) { using B = Bu<std::make_index_sequence<N>>; global_define()._namespace("d16").template _class<B>(cat("B", N)).template _constructor<L<I>...>("built")._end()._end(); }
    void run() { c = MetaClass::find(metaTypeId<C>()); x.clear(); for (int i = 0; i < 10; ++i) x.push_back(word()); all(std::make_index_sequence<11>{}); }
};
#ifndef PARTS
#define PARTS 1
#define PART 0
#endif
using Part = void(*)(bool); Part &the_part(int i);
template<std::size_t... N> void each(bool define, std::index_sequence<N...>) { ([&] { if constexpr(N % PARTS == PART) { if (define) Arity<N>::define(); else Arity<N>{}.run(); } }(), ...); }
static bool const given = (the_part(PART) = [](bool d) { each(d, std::make_index_sequence<11>{}); }, true);
#if PART == 0
Part &the_part(int i) { static Part p[PARTS]; return p[i]; }
namespace r {
using namespace live;
void by_value(SmallX a, Big b) { used(&a); used(&b); seen("by_value", &a, a.v, b.v); if (answer & 1) throw Boom{}; }
void by_cref(SmallX const &a, Big const &b) { used(&a); used(&b); seen("by_cref", &a, a.v, b.v); }
void by_ref(SmallX &a, long &b) { used(&a); seen("by_ref", &a, a.v, b); ++a.v; ++b; }
void by_rvalue(SmallX &&a, long &&b) { used(&a); seen("by_rvalue", &a, a.v, b); SmallX c{std::move(a)}; }
SmallX made(long x) { seen("made", nullptr, x); return SmallX{x}; }
Big big_made(long x) { seen("big_made", nullptr, x); return Big{x}; }
variant as_variant(variant v) { seen("as_variant", nullptr); return v; }
long over(long x) { seen("over1", nullptr, x); return x; }
long over(long x, long y) { seen("over2", nullptr, x, y); return x; }
long over(long *x) { seen("over3", nullptr, *x); return *x; }
inline Big kept{1}; inline SmallX kept_small{1}; inline long kept_word = 1;
Big& big_ref() { seen("big_ref", nullptr); return kept; } Big const& big_cref() { seen("big_cref", nullptr); return kept; } SmallX const& small_cref(long x) { seen("small_cref", nullptr, x); return kept_small; } long const& word_cref() { seen("word_cref", nullptr); return kept_word; } long& word_ref() { seen("word_ref", nullptr); return kept_word; }
struct Host { SmallX s; explicit Host(SmallX const &x): s{x} { if (answer & 1) throw Boom{}; } explicit Host(SmallX &&x): s{std::move(x)} {} Host(long a, long b): s{a ^ b} {} };
}
int main(int argc, char **argv) {
    drv::init(argc, argv); using namespace live;
    for (int i = 0; i < PARTS; ++i) the_part(i)(true);
    global_define()._namespace("d16")._method("by_value", &by_value)._method("by_cref", &by_cref)._method("by_ref", &by_ref)._method("by_rvalue", &by_rvalue)._method("made", &r::made)._method("big_made", &big_made)._method("as_variant", &as_variant)
        ._method("big_ref", &big_ref)._method("big_cref", &big_cref)._method("small_cref", &small_cref)._method("word_cref", &word_cref)._method("word_ref", &word_ref)._method("over", static_cast<long(*)(long)>(&over))._method("over", static_cast<long(*)(long, long)>(&over))._method("over", static_cast<long(*)(long*)>(&over))
        ._class<r::Host>("Host")._constructor<SmallX const&>("copied")._constructor<SmallX&&>("moved")._constructor<long, long>("xor")._end()._end();
    auto ns = MetaNamespace::global()->getNamespace("d16"); auto m = [&](const char *n) { auto r = ns->getMethod(n); if (!r) { drv::fail(cat("no function ", n)); std::exit(1); } return r; };
    auto types = [](std::vector<MetaType_ID> const &a, std::vector<MetaType_ID> const &b) { return a == b; };
    do {
        for (int i = 0; i < PARTS; ++i) the_part(i)(false);
        { SmallX s{word()}; Big b{word()}; long w = word(), sv = s.v, bv = b.v; answer = word(); calls.clear(); auto alive = who.size();
          { End e = end_of([&] { m("by_value")->invoke(s, b); }); EXPECT(e == (answer & 1 ? BOOM : VALUE) && self != &s && s.v == sv && b.v == bv, "by value"); EXPECT(once("by_value", {sv, bv}), "by value: other arguments"); EXPECT(who.size() == alive, "by value: objects are left behind"); }
          { End e = end_of([&] { m("by_cref")->invoke(s, b); }); EXPECT(e == VALUE && self == &s, "by constant reference: not the caller's"); EXPECT(once("by_cref", {sv, bv}), "by constant reference"); }
          { End e = end_of([&] { m("by_ref")->invoke(s, w); }); EXPECT(e == VALUE && self == &s && s.v == sv + 1, "by reference: not the caller's"); EXPECT(once("by_ref", {sv, w - 1}), "by reference"); }
          { End e = end_of([&] { m("by_ref")->invoke(s, 5l); }); EXPECT(e == CAST && nothing(), "a temporary for a reference"); }
          { End e = end_of([&] { m("by_rvalue")->invoke(s, w); }); EXPECT(e == CAST && nothing(), "an lvalue for an rvalue reference"); } long s1 = s.v, w1 = w; { End e = end_of([&] { m("by_rvalue")->invoke(std::move(s), std::move(w)); }); EXPECT(e == VALUE && self == &s && s.v == -1, "an rvalue"); EXPECT(once("by_rvalue", {s1, w1}), "an rvalue"); }
          { variant r; End e = end_of([&] { r = m("made")->invoke(w); }); EXPECT(e == VALUE && r.cref<SmallX>().v == w && once("made", {w}) && who.size() == alive + 1, "an object made"); } { variant r; End e = end_of([&] { r = m("big_made")->invoke(w); }); EXPECT(e == VALUE && r.cref<Big>().v == w && once("big_made", {w}) && who.size() == alive + 1, "a big object made"); } EXPECT(who.size() == alive, "a result is left behind"); }
        { auto alive = who.size(); auto same = [&](const char *n, auto *want, bool open, auto... a) { using T = std::remove_pointer_t<decltype(want)>; variant r; End e = end_of([&] { r = m(n)->invoke(a...); }); EXPECT(e == VALUE && calls.size() == 1 && calls[0] == n && r.is<T>() && r.is<T&>() == open && r.is<T const&>(), n, ": not called once, or another type of result"); calls.clear(); auto const &k = r;
            EXPECT(&k.template cref<T>() == want && r.template data<T>() == (open ? want : nullptr), n, ": the result is not the object referred to, or is open"); EXPECT(who.size() == alive, n, ": an object is made"); };
          same("big_ref", &kept, true); same("big_cref", &kept, false); same("small_cref", &kept_small, false, word()); same("word_cref", &kept_word, false); same("word_ref", &kept_word, true); }
        { long a = word(), b = word(); auto o1 = ns->getMethod<long>("over"), o2 = ns->getMethod<long, long>("over"), o3 = ns->getMethod<long*>("over"); if (!o1 || !o2 || !o3) { drv::fail("an overload is missing"); break; }
          o1->invoke(a); EXPECT(once("over1", {a}), "the overload of one"); o2->invoke(a, b); EXPECT(once("over2", {a, b}), "the overload of two"); o3->invoke(&a); EXPECT(once("over3", {a}), "the overload of a pointer"); EXPECT(end_of([&] { o1->invoke(a, b); }) == INVOKE && end_of([&] { o2->invoke(a); }) == INVOKE && nothing(), "an overload with another number of arguments"); }
        { auto c = MetaClass::find(metaTypeId<Host>()); SmallX s{word()}; long sv = s.v; answer = word(); auto alive = who.size();
          { variant h; End e = end_of([&] { h = c->getConstructor("copied")->invoke(s); }); EXPECT(e == (answer & 1 ? BOOM : VALUE) && s.v == sv, "a constructor from a constant"); if (e == VALUE) EXPECT(h.cref<Host>().s.v == sv, "a constructor: another object"); } EXPECT(who.size() == alive, "a constructor leaves objects behind");
          { End e = end_of([&] { c->getConstructor("moved")->invoke(s); }); EXPECT(e == CAST && s.v == sv, "an lvalue for a moving constructor"); } { variant h; End e = end_of([&] { h = c->getConstructor("moved")->invoke(std::move(s)); }); EXPECT(e == VALUE && h.cref<Host>().s.v == sv && s.v == -1, "a moving constructor"); } EXPECT(who.size() == alive, "a constructor leaves objects behind");
          { long a = word(), b = word(); variant h = c->getConstructor("xor")->invoke(a, b); EXPECT(h.cref<Host>().s.v == (a ^ b), "a constructor's arguments"); } }
        { using F = Host& (*)(long const&, SmallX*, char&&); rtti::internal::MethodInvoker<F> i{nullptr}; IMethodInvoker const &k = i; EXPECT(k.isStatic() && k.returnTypeId() == metaTypeId<Host&>() && types(k.parametersTypeId(), {metaTypeId<long const&>(), metaTypeId<SmallX*>(), metaTypeId<char&&>()}), "reported types");
          using M = void (Host::*)(Big) const; rtti::internal::MethodInvoker<M> j{nullptr}; IMethodInvoker const &l = j; EXPECT(!l.isStatic() && l.returnTypeId() == metaTypeId<void>() && types(l.parametersTypeId(), {metaTypeId<Big>()}), "reported types of a member"); }
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
#endif
