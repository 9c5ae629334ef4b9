// C04: converters are keyed by decayed types, the first registration wins, and convert runs exactly the registered one.
#include "types.h"
using namespace vc;
using ConvList = rtti::MetaTypeFunctionList<rtti::internal::ConvertFunctionBase>;
using Conv = rtti::internal::ConvertFunctionBase;
using conv_node = std::pair<ConvList::key_t const, Conv const*>;
static conv_node* conv(u64 table, u64 from, u64 to) { return static_cast<conv_node*>(vc_map_get(table, from, to)); }
static Conv const* conv_of(u64 table, u64 from, u64 to) { auto n = conv(table, from, to); return n ? n->second : nullptr; }
static Conv const* any_conv() { return static_cast<Conv const*>(vc_any_obj()); }
struct Pairs { u64 table, count; u64 from, to, ofrom, oto; Conv const *was, *owas; };
// an arbitrary table, one pair of interest and any other pair
static Pairs any_pairs(ConvList &l, u64 from, u64 to)
{
    Pairs p;
    l.m_items.vc_id = p.table = vc_any64(); l.m_items.vc_count = p.count = vc_any_size();
    p.from = from; p.to = to; p.ofrom = vc_any64(); p.oto = vc_any64();
    vc_assume(p.ofrom != from || p.oto != to);
    auto n = conv(p.table, from, to); if (n) vc_assume(n->second != nullptr && n->first.first.value() == from && n->first.second.value() == to);
    auto o = conv(p.table, p.ofrom, p.oto); if (o) vc_assume(o->second != nullptr && o->first.first.value() == p.ofrom && o->first.second.value() == p.oto);
    p.was = n ? n->second : nullptr; p.owas = o ? o->second : nullptr;
    return p;
}
static void others_same(ConvList &l, Pairs const &p) { vc_assert(conv_of(l.m_items.vc_id, p.ofrom, p.oto) == p.owas, "every other pair keeps its converter"); }
static Conv const* now(ConvList &l, Pairs const &p) { return conv_of(l.m_items.vc_id, p.from, p.to); }

CONTRACT(converter_table)
{
    auto &l = *make<ConvList>();
    auto p = any_pairs(l, vc_any64(), vc_any64());
    ConvList::key_t key{MetaType_ID{p.from}, MetaType_ID{p.to}};
    if (vc_choice()) {
        vc_assert(l.find(key) == (p.was != nullptr), "a converter is found exactly when one is registered for the pair"); vc_cover("find");
        vc_assert(now(l, p) == p.was, "asking changes nothing");
    } else if (vc_choice()) {
        vc_assert(l.get(key) == p.was, "the converter given is the one registered for the pair"); vc_cover("get");
        vc_assert(now(l, p) == p.was, "asking changes nothing");
    } else if (vc_choice()) {
        auto f = any_conv();
        bool r = l.add(key, f);
        vc_assert(r == (p.was == nullptr), "registering succeeds exactly when the pair has no converter");
        vc_assert(now(l, p) == (p.was ? p.was : f), "the first registration stays in force");
        if (r) vc_cover("added"); else vc_cover("refused");
    } else if (vc_choice()) {
        vc_assert(!l.add(key, nullptr), "no converter, no registration"); vc_cover("null");
        vc_assert(now(l, p) == p.was, "nothing changes");
    } else {
        l.remove(key);
        vc_assert(now(l, p) == nullptr, "unregistering removes the pair's converter");
        if (p.was) vc_cover("removed"); else vc_cover("nothing to remove");
    }
    others_same(l, p);
}

// --- the public face -----------------------------------------------------------------------------------------------------------
static u64 decay_of(u64 id) { return reinterpret_cast<TypeInfo const*>(id)->decay.value(); }
static u64 calls; static bool verdict; static void const *c_self, *c_in, *c_out;
static bool run_converter(void*, Conv const &self, void const *in, void *out) { ++calls; c_self = &self; c_in = in; c_out = out; return verdict; }
template<class Op> void publicly(Op op)
{
    auto &l = *customConverters();
    u64 f = u64(vc_any_obj()), t = u64(vc_any_obj());
    auto p = any_pairs(l, decay_of(f), decay_of(t));
    vc_indirect((void*)&run_converter);
    calls = 0; verdict = vc_any_bool();
    op(l, f, t, p);
    others_same(l, p);
}
CONTRACT(public_has) { publicly([](ConvList &l, u64 f, u64 t, Pairs const &p) {
    vc_assert(MetaType::hasConverter(MetaType_ID{f}, MetaType_ID{t}) == (p.was != nullptr), "there is a converter exactly when one is registered for the decayed pair");
    vc_assert(MetaType::hasConverter(MetaType{MetaType_ID{f}}, MetaType{MetaType_ID{t}}) == (p.was != nullptr), "asking by type agrees");
    vc_assert(now(l, p) == p.was && calls == 0, "asking changes nothing");
    if (p.was) vc_cover("there is"); else vc_cover("there is none");
}); }
CONTRACT(public_register) { publicly([](ConvList &l, u64 f, u64 t, Pairs const &p) {
    auto c = any_conv();
    bool r = MetaType::registerConverter(MetaType_ID{f}, MetaType_ID{t}, *c);
    vc_assert(r == !p.was && now(l, p) == (p.was ? p.was : c) && calls == 0, "registering sets the decayed pair's converter unless there is one");
    if (r) vc_cover("added"); else vc_cover("refused");
}); }
CONTRACT(public_unregister) { publicly([](ConvList &l, u64 f, u64 t, Pairs const &p) {
    MetaType::unregisterConverter(MetaType_ID{f}, MetaType_ID{t});
    vc_assert(now(l, p) == nullptr && calls == 0, "unregistering removes exactly the decayed pair's converter");
    vc_cover("reached");
}); }
template<class Convert> void converts(Convert convert) { publicly([=](ConvList &l, u64 f, u64 t, Pairs const &p) {
    auto in = vc_any_ptr(); auto out = vc_any_ptr();
    bool r = convert(in, f, out, t);
    if (p.was) {
        vc_assert(calls == 1, "a conversion calls the registered converter once");
        vc_assert(c_self == p.was && c_in == in && c_out == out, "the converter registered for the decayed pair is called with the caller's source and destination");
        vc_assert(r == verdict, "the verdict is the converter's");
        vc_cover("converted");
    } else {
        vc_assert(calls == 0 && !r, "without a converter nothing is called and the answer is false");
        vc_cover("no converter");
    }
    vc_assert(now(l, p) == p.was, "converting leaves the table alone");
}); }
CONTRACT(public_convert_types) { converts([](void const *in, u64 f, void *out, u64 t) { return MetaType::convert(in, MetaType{MetaType_ID{f}}, out, MetaType{MetaType_ID{t}}); }); }
CONTRACT(public_convert_ids) { converts([](void const *in, u64 f, void *out, u64 t) { return MetaType::convert(in, MetaType_ID{f}, out, MetaType_ID{t}); }); }
CONTRACT(public_invalid)
{
    auto &l = *customConverters();
    auto p = any_pairs(l, vc_any64(), vc_any64());
    vc_indirect((void*)&run_converter); calls = 0;
    u64 ok = u64(vc_any_obj()), f = vc_any_bool() ? 0 : ok, t = f ? 0 : vc_any_bool() ? 0 : ok;
    MetaType_ID fi{f}, ti{t};
    vc_assert(!MetaType::hasConverter(fi, ti) && !MetaType::hasConverter(MetaType{fi}, MetaType{ti}), "an invalid type has no converter");
    vc_assert(!MetaType::registerConverter(fi, ti, *any_conv()), "no converter is registered for an invalid type");
    vc_assert(!MetaType::convert(vc_any_ptr(), fi, vc_any_ptr(), ti) && calls == 0, "nothing is converted from or to an invalid type");
    MetaType::unregisterConverter(fi, ti);
    vc_assert(l.m_items.vc_id == p.table && l.m_items.vc_count == p.count && now(l, p) == p.was, "nothing changes for an invalid type");
    others_same(l, p);
    vc_cover("reached");
}
CONTRACT(public_after_destruction)
{
    ConvList::Destroyed = true;
    u64 f = u64(vc_any_obj()), t = u64(vc_any_obj());
    vc_indirect((void*)&run_converter); calls = 0;
    vc_assert(!MetaType::hasConverter(MetaType_ID{f}, MetaType_ID{t}) && !MetaType::registerConverter(MetaType_ID{f}, MetaType_ID{t}, *any_conv()) && !MetaType::convert(vc_any_ptr(), MetaType_ID{f}, vc_any_ptr(), MetaType_ID{t}), "a destroyed table has no converters");
    MetaType::unregisterConverter(MetaType_ID{f}, MetaType_ID{t});
    vc_assert(calls == 0, "and calls none"); vc_cover("reached");
}

// --- built-in converters ---------------------------------------------------------------------------------------------------------
// the target type counts its objects and remembers its value; making it from the functor's result may throw
struct Boom {};
struct Src { u64 x; struct Dst fn() const; struct Dst fn_ok(bool &ok) const; };
static u64 made, killed, f_calls; static u64 f_seen, f_gives; static bool f_ok; static Src const *f_from;
struct Dst {
    u64 v;
    explicit Dst(u64 x): v{x} { if (vc_any_bool()) throw Boom{}; ++made; }
    Dst(Dst const &o): v{o.v} { if (vc_any_bool()) throw Boom{}; ++made; }
    ~Dst() { ++killed; }
};
static u64 body(Src const &s) { ++f_calls; f_seen = s.x; f_from = &s; if (vc_any_bool()) throw Boom{}; return f_gives = vc_any64(); }
Dst Src::fn() const { return Dst{body(*this)}; }
Dst Src::fn_ok(bool &ok) const { ok = f_ok = vc_any_bool(); return Dst{body(*this)}; }
struct F { u64 tag; Dst operator()(Src s) const { return Dst{body(s)}; } };
struct FOk { u64 tag; Dst operator()(Src s, bool &ok) const { ok = f_ok = vc_any_bool(); return Dst{body(s)}; } };
static bool p_ok() { return f_ok; }
template<class C> void builtin(C &c, bool by_ref)
{
    auto in = static_cast<Src const*>(vc_any_obj()); u64 x = in->x;
    auto out = static_cast<Dst*>(vc_alloc(sizeof(Dst)));
    made = killed = f_calls = 0; f_ok = true;
    Conv const &base = c;
    bool r = base.invoke(in, out);
    vc_assert(f_calls == 1 && f_seen == x, "the functor is called once with the source");
    if (by_ref) vc_assert(f_from == in, "the member function is called on the source itself");
    vc_assert(in->x == x, "the source is unchanged");
    if (r) { vc_cover("converted"); vc_assert(made == killed + 1 && out->v == f_gives && p_ok(), "success: the target is constructed from the functor's result"); }
    else { vc_cover("failed"); vc_assert(made == killed, "failure: no object is left behind"); }
    if (!f_ok) vc_assert(!r, "the functor's refusal is a failed conversion");
}
CONTRACT(functor_converter) { auto &c = *make<rtti::internal::ConvertFunctor<Src, Dst, F>>(F{1}); builtin(c, false); }
CONTRACT(functor_ok_converter) { auto &c = *make<rtti::internal::ConvertFunctorOk<Src, Dst, FOk>>(FOk{1}); builtin(c, false); }
CONTRACT(method_converter) { auto &c = *make<rtti::internal::ConvertMethod<Src, Dst>>(&Src::fn); builtin(c, true); }
CONTRACT(method_ok_converter) { auto &c = *make<rtti::internal::ConvertMethodOk<Src, Dst>>(&Src::fn_ok); builtin(c, true); }
// the registering templates hand over the functor given, for the decayed types
static u64 r_calls, r_from, r_to; static Conv const *r_conv; static bool r_answer;
static bool take(MetaType_ID f, MetaType_ID t, Conv const &c) { ++r_calls; r_from = f.value(); r_to = t.value(); r_conv = &c; return r_answer; }
template<class Reg> void handed_over(Reg reg, bool by_ref)
{
    vc_replace("rtti::MetaType::registerConverter(mpl::ID", (void*)&take);
    r_calls = 0; r_answer = vc_any_bool();
    bool r = reg();
    vc_assert(r_calls == 1 && r == r_answer, "the converter is registered once and the table's answer is returned");
    vc_assert(r_from == metaTypeId<Src>().value() && r_to == metaTypeId<Dst>().value(), "it is registered for the decayed types");
    builtin(*r_conv, by_ref);
}
static u64 free_tag;
static Dst free_function(Src s) { ++free_tag; return Dst{body(s)}; }
CONTRACT(register_functor) { handed_over([] { return MetaType::registerConverter<Src const&, Dst const>(F{1}); }, false); }
CONTRACT(register_functor_ok) { handed_over([] { return MetaType::registerConverter<Src const, Dst>(FOk{1}); }, false); }
CONTRACT(register_function) { handed_over([] { return MetaType::registerConverter<Src, Dst>(&free_function); }, false); vc_assert(free_tag == 1, "the function itself is called"); }
CONTRACT(register_method) { handed_over([] { return MetaType::registerConverter<Src, Dst>(&Src::fn); }, true); }
CONTRACT(register_method_ok) { handed_over([] { return MetaType::registerConverter<Src, Dst>(&Src::fn_ok); }, true); }
CONTRACT(register_default) { static u64 n; n = 0; struct Small { operator Dst() const { ++n; return Dst{9}; } }; vc_replace("rtti::MetaType::registerConverter(mpl::ID", (void*)&take);
    r_calls = 0; r_answer = vc_any_bool(); made = killed = 0;
    bool r = MetaType::registerConverter<Small, Dst>();
    vc_assert(r_calls == 1 && r == r_answer && r_from == metaTypeId<Small>().value() && r_to == metaTypeId<Dst>().value(), "the converter is registered once, for the decayed types, and the table's answer is returned");
    Small s; auto out = static_cast<Dst*>(vc_alloc(sizeof(Dst)));
    bool ok = r_conv->invoke(&s, out);
    vc_assert(n == 1, "the types' own conversion is used");
    vc_assert(ok ? made == killed + 1 && out->v == 9 : made == killed, "success exactly when the target is constructed");
    if (ok) vc_cover("converted"); else vc_cover("failed");
}
// by type: the pair asked about is the types' pair, whatever variant of them is named
template<class Op> static void by_type(Op op)
{
    metaTypeId<Src const&>(); metaTypeId<Src&&>(); metaTypeId<Dst const>(); metaTypeId<Dst const&>();       // (registered by now)
    auto &l = *customConverters();
    auto p = any_pairs(l, metaTypeId<Src>().value(), metaTypeId<Dst>().value());
    op(l, p);
    others_same(l, p);
    vc_cover("reached");
}
CONTRACT(has_by_type) { by_type([](ConvList &l, Pairs const &p) {
    bool r = vc_choice() ? MetaType::hasConverter<Src, Dst>() : vc_choice() ? MetaType::hasConverter<Src const&, Dst>() : MetaType::hasConverter<Src&&, Dst const>();
    vc_assert(r == (p.was != nullptr) && now(l, p) == p.was, "there is a converter exactly when one is registered for the decayed pair");
}); }
CONTRACT(unregister_by_type) { by_type([](ConvList &l, Pairs const &p) {
    if (vc_choice()) MetaType::unregisterConverter<Src, Dst>(); else if (vc_choice()) MetaType::unregisterConverter<Src const&, Dst>(); else MetaType::unregisterConverter<Src, Dst const&>();
    vc_assert(now(l, p) == nullptr, "unregistering removes exactly the decayed pair's converter");
}); }
// the end of a converter: it takes itself out of the table, and only itself
template<class C, class ...A> static void ends(A ...a)
{
    by_type([=](ConvList &l, Pairs const &p) {
        auto c = make<C>(a...);
        bool mine = p.was == static_cast<Conv const*>(c);
        c->~C();
        vc_assert(now(l, p) == (mine ? nullptr : p.was), "the end of a converter removes it, and no other converter of its pair");
        if (mine) vc_cover("registered"); else vc_cover("not registered");
    });
}
CONTRACT(functor_end) { ends<rtti::internal::ConvertFunctor<Src, Dst, F>>(F{1}); }
CONTRACT(functor_ok_end) { ends<rtti::internal::ConvertFunctorOk<Src, Dst, FOk>>(FOk{1}); }
CONTRACT(method_end) { ends<rtti::internal::ConvertMethod<Src, Dst>>(&Src::fn); }
CONTRACT(method_ok_end) { ends<rtti::internal::ConvertMethodOk<Src, Dst>>(&Src::fn_ok); }
