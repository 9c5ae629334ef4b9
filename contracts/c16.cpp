// C16: invocation calls exactly the registered function with exactly the given arguments, on exactly the given instance.
#include "calls.h"
using rtti::internal::ConstructorInvoker; using rtti::internal::pack_arguments;
namespace {
// --- the list of arguments ends at the first absent one ------------------------------------------------------------------------------------
CONTRACT(pack_arguments)
{
    argument a[10]; bool given[10]; u64 n = 0; bool open = true;
    for (u64 i = 0; i < 10; ++i) { given[i] = vc_any_bool(); a[i].m_value.manager = given[i] ? Content::get() : variant_function_table_for<void>(); if (!given[i]) open = false; if (open) ++n; }
    u64 count = vc_any64(); rtti::internal::argument_array_t r{}; End e;
    e = end_of([&] { r = pack_arguments(count, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); });
    vc_assert(e == (n == count ? End::value : End::invoke), "an error is raised unless the number of arguments is the declared one");
    if (e == End::value) { for (u64 i = 0; i < 10; ++i) vc_assert(r[i] == &a[i], "arguments keep their order"); vc_cover("packed"); } else vc_cover("refused");
    for (auto &x : a) x.m_value.manager = variant_function_table_for<void>();
}

// --- every number of arguments given to functions of every arity ------------------------------------------------------------------------------
template<std::size_t> using W = u64;
template<class> struct Make;
template<std::size_t... I> struct Make<std::index_sequence<I...>> {
    struct Obj {
        u64 v = 0;
        u64 value(W<I>... a) const { called(this); (put(a), ...); return result; }
        void nothing(W<I>... a) { called(this); (put(a), ...); }
        static u64 s_value(W<I>... a) { called(nullptr); (put(a), ...); return result; }
        static void s_nothing(W<I>... a) { called(nullptr); (put(a), ...); }
    };
    struct Built { u64 v; explicit Built(W<I>... a) { called(nullptr); (put(a), ...); v = result; } };
    template<class C> using Ctor = ConstructorInvoker<C, W<I>...>;
};
// exactly n arguments x[0], x[1], ... arrived
bool arrived(u64 n, u64 const *x) { bool ok = n_calls == 1 && n_args == n; for (u64 i = 0; i < n && i < 10; ++i) ok = ok && arg[i] == x[i]; return ok; }
template<std::size_t N> struct Counts {
    using M = Make<std::make_index_sequence<N>>; using O = typename M::Obj; using B = typename M::Built;
    u64 x[10];
    bool judge(End e, std::size_t k) {
        if (k == N) { vc_assert(e == End::value && arrived(N, x), "the function is called once with the given arguments in order"); vc_cover("called"); }
        else { vc_assert(e == End::invoke && n_calls == 0, "with another number of arguments nothing is called and an error is raised"); vc_cover("refused"); }
        return k == N;
    }
    template<std::size_t... K> void run(std::index_sequence<K...>) {
        constexpr std::size_t k = sizeof...(K);
        for (auto &e : x) e = vc_any64();
        O o; variant r, v{std::ref(o)}; variant const &c = v; O *p = &o; variant vp{p}; bool constant = vc_any_bool();
        { log_begin(); auto i = make<MethodInvoker<decltype(&O::s_value)>>(&O::s_value); IMethodInvoker const &m = *i; End e = end_of([&] { r = m.invoke_static(x[K]...); }); vc_assert(judge(e, k) ? holds(r, result) : r.empty(), "its result is returned"); r.clear(); }
        { log_begin(); auto i = make<MethodInvoker<decltype(&O::s_nothing)>>(&O::s_nothing); IMethodInvoker const &m = *i; End e = end_of([&] { r = m.invoke_static(x[K]...); }); judge(e, k); vc_assert(r.empty(), "a void function gives an empty result"); }
        { log_begin(); auto i = make<MethodInvoker<decltype(&O::value)>>(&O::value); IMethodInvoker const &m = *i; End e = end_of([&] { if (constant) r = m.invoke_method(c, x[K]...); else r = m.invoke_method(v, x[K]...); }); vc_assert(judge(e, k) ? self == &o && holds(r, result) : r.empty(), "on the given instance, and its result is returned"); r.clear(); }
        { log_begin(); auto i = make<MethodInvoker<decltype(&O::nothing)>>(&O::nothing); IMethodInvoker const &m = *i; End e = end_of([&] { if (constant) r = m.invoke_method(static_cast<variant const&>(vp), x[K]...); else r = m.invoke_method(vp, x[K]...); }); if (judge(e, k)) vc_assert(self == &o, "on the given instance"); vc_assert(r.empty(), "a void function gives an empty result"); }
        { log_begin(); auto i = make<typename M::template Ctor<B>>(); IMethodInvoker const &m = *i; End e = end_of([&] { r = m.invoke_static(x[K]...); }); if (judge(e, k)) vc_assert(r.typeId() == metaTypeId<B>() && r.cref<B>().v == result, "the object constructed is returned"); else vc_assert(r.empty(), "nothing is constructed"); }
    }
    template<std::size_t... K> void upto(std::index_sequence<K...>) { u64 k = vc_any64(); ((k == K ? run(std::make_index_sequence<K>{}) : void()), ...); }
    static void all() { vc_static_init(); life_begin(); Counts c; c.upto(std::make_index_sequence<11>{}); }
};
}
CONTRACT(count_0) { Counts<0>::all(); }
CONTRACT(count_1) { Counts<1>::all(); }
CONTRACT(count_2) { Counts<2>::all(); }
CONTRACT(count_3) { Counts<3>::all(); }
CONTRACT(count_4) { Counts<4>::all(); }
CONTRACT(count_5) { Counts<5>::all(); }
CONTRACT(count_6) { Counts<6>::all(); }
CONTRACT(count_7) { Counts<7>::all(); }
CONTRACT(count_8) { Counts<8>::all(); }
CONTRACT(count_9) { Counts<9>::all(); }
CONTRACT(count_10) { Counts<10>::all(); }

#define INSTANCES(name, method, constant, empty) \
  CONTRACT(instance_##name) { Instances<decltype(&Inst::method), constant, empty, Inst>{}.run(&Inst::method, CLASS); } \
  CONTRACT(pointer_##name) { Instances<decltype(&Inst::method), constant, empty, std::conditional_t<constant, Inst const*, Inst*>>{}.run(&Inst::method, POINTER); } \
  CONTRACT(neither_##name) { Instances<decltype(&Inst::method), constant, empty, Inst>{}.run(&Inst::method, NEITHER); }
INSTANCES(const_value, value, true, false)
INSTANCES(const_void, look, true, true)
INSTANCES(value, change, false, false)
INSTANCES(void, touch, false, true)

// --- results and parameters of every kind ----------------------------------------------------------------------------------------------------------
namespace {
u64 cell; u64 cells[3]; Small *s_cell; Big *b_cell; u64 seen_v; void const *seen_at;
u64& ref_of() { ++n_calls; return cell; }
u64 const& cref_of() { ++n_calls; return cell; }
u64* pointer_of() { ++n_calls; return &cell; }
u64 (&array_of())[3] { ++n_calls; return cells; }
Small& object_of() { ++n_calls; return *s_cell; }
Big const& big_object_of() { ++n_calls; return *b_cell; }
Small* object_pointer_of() { ++n_calls; return s_cell; }
SmallX made() { ++n_calls; return SmallX{result}; }
Big big_made() { ++n_calls; return Big{result}; }
MoveOnly only_moved() { ++n_calls; return MoveOnly{result}; }
variant any_of() { ++n_calls; return variant{result}; }
variant none_of() { ++n_calls; return variant{}; }
variant& any_held(); variant *held;
variant& any_held() { ++n_calls; return *held; }
template<class R, class... A> struct Call {
    using F = R(*)(A...); MethodInvoker<F> *i; variant r; End e;
    explicit Call(F f): i{make<MethodInvoker<F>>(f)} { log_begin(); }
    template<class... X> void go(X&&... x) { IMethodInvoker const &m = *i; e = end_of([&] { r = m.invoke_static(std::forward<X>(x)...); }); }
};
template<class R, class... A> Call<R, A...> call(R (*f)(A...)) { return Call<R, A...>{f}; }
// the result refers to x: mutable access is granted exactly when the function returns a mutable reference
template<class T> void refers(variant &r, T const *x, bool open) {
    vc_assert(!r.empty() && &r.cref<T>() == x, "a reference result designates the same object"); vc_assert(r.data<T>() == (open ? x : nullptr), "and gives mutable access exactly when the function does");
}
}
CONTRACT(result_references)
{
    vc_static_init(); life_begin(); cell = vc_any64(); s_cell = make<Small>(vc_any64()); b_cell = make<Big>(vc_any64()); u64 live = n_live;
    { auto c = call(&ref_of); c.go(); vc_assert(c.e == End::value && n_calls == 1, "called"); refers(c.r, &cell, true); vc_cover("word"); }
    { auto c = call(&cref_of); c.go(); vc_assert(c.e == End::value && n_calls == 1, "called"); refers(c.r, &cell, false); }
    { auto c = call(&object_of); c.go(); vc_assert(c.e == End::value && n_calls == 1, "called"); refers(c.r, s_cell, true); }
    { auto c = call(&big_object_of); c.go(); vc_assert(c.e == End::value && n_calls == 1, "called"); refers(c.r, b_cell, false); }
    { auto c = call(&array_of); c.go(); vc_assert(c.e == End::value && n_calls == 1 && c.r.is<u64(&)[3]>() && &c.r.ref<u64[3]>() == &cells, "a reference to an array designates the same array"); }
    vc_assert(n_live == live && n_copies == 0 && n_moves == 0, "nothing is copied"); vc_cover("objects");
}
CONTRACT(result_values)
{
    vc_static_init(); life_begin(); cell = vc_any64(); s_cell = make<Small>(vc_any64()); { SmallX w; variant a{w}; Big b; variant c{b}; variant d{MoveOnly{}}; variant e{s_cell}; variant f{&cell}; a.cref<SmallX>(); c.cref<Big>(); f.cref<u64*>(); e.cref<Small*>(); a.typeId(); metaTypeId<SmallX>(); metaTypeId<Big>(); metaTypeId<u64*>(); metaTypeId<Small*>(); } u64 live = n_live, heap = vc_live_heap(), born0 = n_copies;
    { auto c = call(&pointer_of); c.go(); vc_assert(c.e == End::value && n_calls == 1 && holds(c.r, &cell), "a pointer is returned"); }
    { auto c = call(&object_pointer_of); c.go(); vc_assert(c.e == End::value && n_calls == 1 && holds(c.r, s_cell), "a pointer to an object is returned"); }
    { auto c = call(&made); c.go(); vc_assert(c.e == End::value && n_calls == 1 && c.r.typeId() == metaTypeId<SmallX>() && c.r.cref<SmallX>().v == result && n_live == live + 1, "an object is returned"); vc_cover("object"); }
    { auto c = call(&big_made); c.go(); vc_assert(c.e == End::value && n_calls == 1 && c.r.typeId() == metaTypeId<Big>() && c.r.cref<Big>().v == result && n_live == live + 1, "a large object is returned"); }
    vc_assert(n_live == live, "results are destroyed with the variant"); vc_assert(n_copies == born0, "results are moved"); vc_assert(vc_live_heap() == heap, "no storage is kept");
    { auto c = call(&only_moved); c.go(); vc_assert(c.e == End::value && n_calls == 1 && c.r.typeId() == metaTypeId<MoveOnly>() && c.r.cref<MoveOnly>().v == result, "a move-only object is returned"); }
    { auto c = call(&any_of); c.go(); vc_assert(c.e == End::value && n_calls == 1 && holds(c.r, result), "a variant is returned as it is"); }
    { auto c = call(&none_of); c.go(); vc_assert(c.e == End::value && n_calls == 1 && c.r.empty(), "an empty one too"); vc_cover("variant"); }
}
namespace {
void by_value(SmallX a, Big b) { ++n_calls; used(&a); used(&b); seen_v = a.v ^ b.v; seen_at = &a; if (booms) throw Boom{}; }
void by_cref(SmallX const &a, Big const &b) { ++n_calls; used(&a); used(&b); seen_v = a.v ^ b.v; seen_at = &a; if (booms) throw Boom{}; }
void by_ref(SmallX &a, u64 &b) { ++n_calls; used(&a); seen_v = a.v ^ b; seen_at = &a; a.v += 1; b = a.v; if (booms) throw Boom{}; }
void by_rvalue(SmallX &&a, u64 &&b) { ++n_calls; used(&a); seen_v = a.v ^ b; seen_at = &a; if (booms) throw Boom{}; }
void by_pointer(SmallX const *a, u64 *b) { ++n_calls; used(a); seen_v = a->v ^ *b; seen_at = a; *b = a->v; if (booms) throw Boom{}; }
struct Args { SmallX &s; Big &b; u64 live, heap; };
template<class F> void parameters(F f)
{
    vc_static_init(); life_begin(); auto s = make<SmallX>(vc_any64()); auto b = make<Big>(vc_any64()); u64 a0 = s->v, b0 = b->v, w0 = vc_any64(); u64 w = w0; SmallX const *sp = s; u64 *wp = &w;
    { u64 t = 0; argument x(t); x.value<u64>(); x.value<u64&>(); argument y(std::move(t)); y.value<u64&&>(); argument p(wp); p.value<u64*>(); argument q(sp); q.value<SmallX const*>(); }
    { argument x(*s); x.value<SmallX>(); x.value<SmallX&>(); x.value<SmallX const&>(); argument y(std::move(*s)); y.value<SmallX&&>(); argument z(*b); z.value<Big>(); z.value<Big const&>(); s->v = a0; }
    u64 live = n_live, heap = vc_live_heap(), copies = n_copies; booms = vc_any_bool(); bool throws = booms; n_calls = 0;
    End e = f(*s, *b, w, sp, wp, throws);
    vc_assert(e == (throws ? End::boom : End::value) && n_calls == 1, "called once; its exception comes through");
    vc_assert(n_live == live && vc_live_heap() == heap, "objects made for the call are gone after it"); (void)a0; (void)b0; (void)w0; (void)copies;
    if (throws) vc_cover("thrown"); else vc_cover("returned");
}
template<class R, class... A, class... X> End calls(R (*f)(A...), X&&... x) { auto i = make<MethodInvoker<R(*)(A...)>>(f); IMethodInvoker const &m = *i; return end_of([&] { m.invoke_static(std::forward<X>(x)...); }); }
}
CONTRACT(parameters_by_value) { parameters([](SmallX &s, Big &b, u64&, SmallX const*, u64*, bool) { u64 want = s.v ^ b.v; End e = calls(&by_value, s, b); vc_assert(seen_v == want && seen_at != &s && (s.v ^ b.v) == want, "copies of the arguments arrive"); return e; }); }
CONTRACT(parameters_by_const_reference) { parameters([](SmallX &s, Big &b, u64&, SmallX const*, u64*, bool) { u64 want = s.v ^ b.v, c = n_copies; End e = calls(&by_cref, s, b); vc_assert(seen_v == want && seen_at == &s && n_copies == c, "the arguments themselves arrive"); return e; }); }
CONTRACT(parameters_by_reference) { parameters([](SmallX &s, Big&, u64 &w, SmallX const*, u64*, bool) { u64 want = s.v ^ w, v = s.v; End e = calls(&by_ref, s, w); vc_assert(seen_v == want && seen_at == &s && s.v == v + 1 && w == s.v, "and can be changed"); return e; }); }
CONTRACT(parameters_by_rvalue) { parameters([](SmallX &s, Big&, u64 &w, SmallX const*, u64*, bool) { u64 want = s.v ^ w; End e = calls(&by_rvalue, std::move(s), std::move(w)); vc_assert(seen_v == want && seen_at == &s, "temporaries arrive themselves"); return e; }); }
CONTRACT(parameters_by_pointer) { parameters([](SmallX &s, Big&, u64 &w, SmallX const *sp, u64 *wp, bool) { u64 want = s.v ^ w; End e = calls(&by_pointer, sp, wp); vc_assert(seen_v == want && seen_at == sp && w == s.v, "pointers arrive"); return e; }); }

// --- what is reported about a function is the function's own (its signature: C07) -----------------------------------------------------------------
namespace {
template<class... P> bool same_types(std::vector<MetaType_ID> const &v) { MetaType_ID want[] = {metaTypeId<P>()..., MetaType_ID{}}; bool ok = v.size() == sizeof...(P); for (std::size_t i = 0; i < sizeof...(P); ++i) ok = ok && v[i] == want[i]; return ok; }
struct Host {
    u64 m0(); u64& m1(u64 const&) const; void m2(Small, u64*, Small const&) noexcept; void m3(u64&&) const; Host(u64, Small&); Host();
    u64 v;
};
enum Color_: int; u64 const& f0(u64, u64 const*); void f1(); Small* f2(Small&&, Color_*);
template<class R, class... P, class F> void reports(F f, bool is_static) {
    auto i = make<MethodInvoker<F>>(f); IMethodInvoker const &m = *i;
    vc_assert(m.isStatic() == is_static, "a member needs an instance and a free function none"); vc_assert(m.returnTypeId() == metaTypeId<R>(), "the return type is the function's"); vc_assert(same_types<P...>(m.parametersTypeId()), "the parameter types are the function's, in order");
}
}
CONTRACT(reported_types)
{
    vc_static_init(); life_begin();
    reports<u64>(&Host::m0, false); reports<u64&, u64 const&>(&Host::m1, false); reports<void, Small, u64*, Small const&>(static_cast<void (Host::*)(Small, u64*, Small const&)>(&Host::m2), false); reports<void, u64&&>(&Host::m3, false);
    reports<u64 const&, u64, u64 const*>(&f0, true); reports<void>(&f1, true); reports<Small*, Small&&, Color_*>(&f2, true);
    { ConstructorInvoker<Host, u64, Small&> c; IMethodInvoker const &m = c; vc_assert(m.isStatic() && m.returnTypeId() == metaTypeId<Host>() && same_types<u64, Small&>(m.parametersTypeId()), "a constructor makes its class from its parameters"); }
    { ConstructorInvoker<Host> c; IMethodInvoker const &m = c; vc_assert(m.isStatic() && m.returnTypeId() == metaTypeId<Host>() && same_types<>(m.parametersTypeId()), "also without any"); }
    vc_cover("reached");
}

// --- through the method item, the constructor item or the variant ----------------------------------------------------------------------------------
namespace {
// what reaches the invoker: what it does with it is above
struct Spy: IConstructorInvoker {
    bool is_static; explicit Spy(bool s): is_static{s} {}
    bool isStatic() const override { return is_static; }
    MetaType_ID returnTypeId() const override { return {}; }
    std::vector<MetaType_ID> parametersTypeId() const override { return {}; }
    std::string signature(std::string_view) const override { return {}; }
    variant invoke_static(argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override;
    variant invoke_method(variant const&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override;
    variant invoke_method(variant&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override;
};
enum How { NOT, STATIC, ON, ON_CONST };
How how; u64 n_how; Spy const *spied; variant const *instance_v; void const *got_arg[10]; bool got_rvalue[10]; u64 n_got; bool instance_is; u64 instance_value;
variant hit(How h, Spy const *s, variant const *v, argument const *(&a)[10])
{
    how = h; ++n_how; spied = s; instance_v = v; n_got = 0;
    bool open = true; for (auto x : a) { if (x->empty()) open = false; else { vc_assert(open, "arguments have no gaps"); got_arg[n_got] = x->m_value.typeId() == metaTypeId<variant>() ? x->m_value.raw_data_ptr() : x->m_value.raw_data_ptr(); got_rvalue[n_got] = x->m_rvalue; ++n_got; } }
    if (v) { instance_is = v->is<u64>(); if (instance_is) instance_value = v->cref<u64>(); }
    if (booms) throw Boom{};
    return variant{result};
}
variant Spy::invoke_static(argument a, argument b, argument c, argument d, argument e, argument f, argument g, argument h, argument i, argument j) const { argument const *all[10] = {&a, &b, &c, &d, &e, &f, &g, &h, &i, &j}; return hit(STATIC, this, nullptr, all); }
variant Spy::invoke_method(variant const &v, argument a, argument b, argument c, argument d, argument e, argument f, argument g, argument h, argument i, argument j) const { argument const *all[10] = {&a, &b, &c, &d, &e, &f, &g, &h, &i, &j}; return hit(ON_CONST, this, &v, all); }
variant Spy::invoke_method(variant &v, argument a, argument b, argument c, argument d, argument e, argument f, argument g, argument h, argument i, argument j) const { argument const *all[10] = {&a, &b, &c, &d, &e, &f, &g, &h, &i, &j}; return hit(ON, this, &v, all); }
std::string qname; std::string const& s_qualified(MetaItem const*) { return qname; }
MetaMethod const *a_method; Spy *a_spy; variant out; u64 y[10];
void spy_begin(bool is_static) { vc_static_init(); life_begin(); log_begin(); booms = vc_any_bool(); how = NOT; n_how = n_got = 0; instance_v = nullptr; instance_is = false; for (auto &e : y) e = vc_any64(); vc_replace("rtti::MetaItem::qualifiedName", (void*)&s_qualified); a_spy = new Spy{is_static}; a_method = make<MetaMethod>(nonempty_view(), const_cast<MetaContainer&>(any_owner()), std::unique_ptr<IMethodInvoker>{a_spy}); out.clear(); }
template<std::size_t... I> bool passed(std::index_sequence<I...>) { return n_got == sizeof...(I) && ((got_arg[I] == &y[I] && got_rvalue[I] == (I % 2 == 1)) && ...); }
// alternately lvalues and temporaries
template<std::size_t I> decltype(auto) give() { if constexpr(I % 2 == 0) return (y[I]); else return std::move(y[I]); }
template<std::size_t N> bool passed() { return passed(std::make_index_sequence<N>{}); }
void returned(End e) { vc_assert(e == (booms ? End::boom : End::value) && n_how == 1 && spied == a_spy, "exactly this function is called, once, and its exception comes through"); vc_assert(booms ? out.empty() : holds(out, result), "its result is the result"); vc_cover("called"); }
template<std::size_t... I> void through_item(std::index_sequence<I...>)
{
    constexpr auto N = sizeof...(I);
    bool is_static = vc_choice(); spy_begin(is_static);
    if (is_static) { End e = end_of([&] { out = a_method->invoke(give<I>()...); }); vc_assert(how == STATIC && passed<N>(), "a function without instance gets the arguments"); returned(e); return; }
    if constexpr(N < 10) {
        variant v{vc_any64()}; variant const &w = v; u64 o = vc_any64(); u64 kind = vc_any64() % 4; u64 v0 = v.cref<u64>();
        End e = kind == 0 ? end_of([&] { out = a_method->invoke(v, give<I>()...); }) : kind == 1 ? end_of([&] { out = a_method->invoke(w, give<I>()...); }) : kind == 2 ? end_of([&] { out = a_method->invoke(std::move(v), give<I>()...); }) : end_of([&] { out = a_method->invoke(o, give<I>()...); });
        vc_assert(how == (kind == 0 ? ON : ON_CONST), "the instance is constant unless it was given as a variant that is not"); vc_assert((kind == 3 ? instance_is && instance_value == o : instance_v == &v) && v.cref<u64>() == v0, "the first argument is the instance");
        vc_assert(passed<N>(), "and the others the arguments"); returned(e);
    }
}
template<std::size_t... N> void through_items(std::index_sequence<N...>) { u64 n = vc_any64(); ((n == N ? through_item(std::make_index_sequence<N>{}) : void()), ...); }
}
CONTRACT(method_item) { through_items(std::make_index_sequence<11>{}); }
CONTRACT(method_item_without_instance)
{
    spy_begin(false); End e = end_of([&] { out = a_method->invoke(); });
    vc_assert(e == End::invoke && how == NOT && out.empty(), "a member isn't called without an instance"); vc_cover("refused");
}
namespace { template<std::size_t... I> void construct(std::index_sequence<I...>) {
    spy_begin(vc_any_bool()); auto s = new Spy{vc_any_bool()}; a_spy = s; MetaConstructor const *c = make<MetaConstructor>(nonempty_view(), const_cast<MetaContainer&>(any_owner()), std::unique_ptr<IConstructorInvoker>{s});
    End e = end_of([&] { out = c->invoke(give<I>()...); }); vc_assert(how == STATIC && passed<sizeof...(I)>(), "a constructor gets the arguments"); returned(e);
}
template<std::size_t... N> void constructs(std::index_sequence<N...>) { u64 n = vc_any64(); ((n == N ? construct(std::make_index_sequence<N>{}) : void()), ...); } }
CONTRACT(constructor_item) { constructs(std::make_index_sequence<11>{}); }
namespace {
MetaClass const *v_class; u64 v_class_id, v_name; bool v_method;
MetaClass const* s_the_class(MetaType_ID id) { vc_assert(id.value() == v_class_id, "the class of the instance is asked"); return v_class; }
MetaMethod const* s_the_method(MetaContainer const *c, std::string_view n) { vc_assert(c == v_class && sid(n) == v_name, "for the method of that name"); return v_method ? a_method : nullptr; }
template<std::size_t... I> void through_variant(std::index_sequence<I...>)
{
    spy_begin(vc_choice()); any_content_type(); info_id = v_class_id = vc_any64(); instance = vc_any_ptr(); where = vc_any_obj();
    v_class = vc_any_bool() ? static_cast<MetaClass const*>(vc_any_obj()) : nullptr; v_method = vc_any_bool();
    vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&s_the_class); vc_replace("rtti::MetaContainer::getMethod(std::basic_string_view", (void*)&s_the_method);
    auto v = input<variant>(); bool empty = vc_choice(); v->manager = empty ? variant_function_table_for<void>() : Content::get(); variant const &w = *v;
    u64 flags = empty ? 0 : u64(std::uint32_t(desc[0]->flags)); bool cls = flags & u64(TypeFlags::Class), ptr = flags & u64(TypeFlags::Pointer); bool object = cls && (!ptr || desc[0]->arity == 1);
    auto name = any_view(); v_name = sid(name); bool constant = vc_choice(), error = false; End e = End::other;
    // what the invoker sees of the variant is above: here it only looks at its place
    n_other = n_destroyed = 0;
    try { e = [&] { try { if (constant) out = w.invoke(name, give<I>()...); else out = v->invoke(name, give<I>()...); return End::value; } catch (runtime_error &) { error = true; return End::other; } catch (Boom&) { return End::boom; } }(); } catch (...) { e = End::other; }
    if (!object || !v_class || !v_method) { vc_assert(error && how == NOT && out.empty(), "no class, no registered class or no such method: an error, and nothing is called"); vc_cover("refused"); return; }
    if (a_spy->is_static) vc_assert(how == STATIC, "called");
    else { vc_assert(how == (constant ? ON_CONST : ON) && instance_v == v && passed<sizeof...(I)>(), "the method is called on the variant's content with the arguments"); }
    vc_assert(n_other == 0 && n_destroyed == 0, "the content is not touched"); returned(e);
}
}
CONTRACT(through_variant_0) { through_variant(std::make_index_sequence<0>{}); }
CONTRACT(through_variant_1) { through_variant(std::make_index_sequence<1>{}); }
CONTRACT(through_variant_9) { through_variant(std::make_index_sequence<9>{}); }
