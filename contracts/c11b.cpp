// C11, part two: objects made on the way of an access (values, conversions, temporaries of a comparison or of an argument).
#include "life.h"
using namespace vc;
namespace {
// the converter from the content's type, by contract: it makes a target object, or refuses, or throws and leaves nothing behind
bool has_fwd, has_back; u64 n_conv, conv_value; MetaType_ID from_id, to_id;
bool forward(TypeInfo const *f) { return f->decay == from_id; }
bool s_has(TypeInfo const *f, TypeInfo const *) { return forward(f) ? has_fwd : has_back; }
template<class From, class To> bool s_convert(void const *from, TypeInfo const *f, void *to, TypeInfo const *)
{
    ++n_conv;
    if (vc_choice()) return false;
    if (forward(f)) { if constexpr(std::is_class_v<From>) used(from); ::new (to) To(conv_value); }
    else { if constexpr(std::is_class_v<To>) used(from); ::new (to) From(conv_value); }
    return true;
}
template<class From, class To> void replace_converter()
{
    from_id = metaTypeId<From>(); to_id = metaTypeId<To>(); has_fwd = vc_any_bool(); has_back = vc_any_bool(); conv_value = vc_any64(); n_conv = 0;
    vc_replace("rtti::MetaType::hasConverter(rtti::MetaType, rtti::MetaType)", (void*)&s_has);
    vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)static_cast<bool (*)(void const*, TypeInfo const*, void*, TypeInfo const*)>(&s_convert<From, To>));
}
template<class T> void know() { (void)metaTypeId<T>(); (void)metaTypeId<T&>(); (void)metaTypeId<T const&>(); (void)metaTypeId<T&&>(); (void)metaTypeId<T const>(); }
template<class T> variant* keep() { auto v = static_cast<variant*>(vc_alloc(sizeof(variant))); ::new (v) variant(T(vc_any64())); return v; }
#define LIVE(extra, label) vc_assert(n_live == live + (extra) && vc_live_heap() == heap, label)
// (a target kept in place is left behind when the argument keeps it: KF-C11-1, so the targets of arguments here live on the heap)
// --- taking a value ------------------------------------------------------------------------------------------------------------------------
template<class T> void take()
{
    life_begin(); know<T>();
    variant *v = keep<T>(); auto p = static_cast<T const*>(v->raw_data_ptr()); u64 x = p->v; u64 live = n_live, heap = vc_live_heap(); may_boom = true;
    try { { T t = vc_choice() ? v->to<T>() : std::as_const(*v).to<T>(); vc_assert(t.v == x, "the value is the content's"); LIVE(1, "one object is made"); vc_assert(&t != p, "of its own"); vc_cover("taken"); } LIVE(0, "and it is destroyed with its owner"); }
    catch (Boom&) { LIVE(0, "a copy that throws leaves nothing behind"); }
    vc_assert(alive(p) && p->v == x, "the content stays");
}
// --- converting ---------------------------------------------------------------------------------------------------------------------------
template<class From, class To> void through()
{
    life_begin(); know<From>(); know<To>(); (void)type_name<From>();
    variant *v = keep<From>(); auto p = static_cast<From const*>(v->raw_data_ptr()); u64 live = n_live, heap = vc_live_heap(); replace_converter<From, To>(); may_boom = true;
    try { { To t = vc_choice() ? v->to<To>() : std::as_const(*v).to<To>(); LIVE(std::is_class_v<To>, "one object is made"); vc_assert(n_conv == 1, "by one conversion"); vc_cover("taken"); } LIVE(0, "and it is destroyed with its owner"); }
    catch (Boom&) { LIVE(0, "a move that throws leaves nothing behind"); }
    catch (bad_variant_convert&) { LIVE(0, "a refused conversion leaves nothing behind"); vc_cover("refused"); }
    if constexpr(std::is_class_v<From>) vc_assert(alive(p), "the content stays");
}
// --- comparing with a value ---------------------------------------------------------------------------------------------------------------
struct Odd: Life<2, true> { using Life::Life; friend bool operator==(Odd const &a, Odd const &b) { used(&a); used(&b); ++n_eqs; if (vc_choice()) throw Boom{}; return a.v == b.v; } };
template<class From, class To> void compared()
{
    life_begin(); know<From>(); know<To>(); know<From const>(); know<To const>();
    variant *v = keep<From>(); auto w = static_cast<To*>(vc_alloc(sizeof(To))); ::new (w) To(vc_any64()); (void)v->eq(*w); u64 live = n_live, heap = vc_live_heap(); replace_converter<From, To>();
    try { (void)(vc_choice() ? v->eq(*w) : !v->neq(*w)); LIVE(0, "what a comparison converts is destroyed, and its storage released"); vc_cover("compared"); }
    catch (Boom&) { LIVE(0, "also when the comparison throws"); vc_cover("thrown"); }
    vc_assert(n_conv <= 2, "two conversions at most");
}
// --- arguments ----------------------------------------------------------------------------------------------------------------------------
template<class From, class To> void handed()
{
    life_begin(); know<From>(); know<To>(); (void)type_name<From>(); { From warm(0); argument a(warm); } (void)metaTypeId<variant>(); know<variant>();
    auto x = static_cast<From*>(vc_alloc(sizeof(From))); ::new (x) From(vc_any64()); u64 live = n_live, heap = vc_live_heap(); replace_converter<From, To>();
    bool form = vc_choice(), cref = vc_choice();
    {
        auto a = form ? new argument(*x) : new argument(std::move(*x));
        vc_assert(n_live == live, "an argument makes no object of its own");
        try { if (cref) { To const &t = a->template value<To const&>(); if constexpr(std::is_class_v<To>) used(&t); vc_assert(n_live <= live + 1, "one object is made at most"); vc_cover("by reference"); }
              else { To t = a->template value<To>(); vc_assert(n_live <= live + 2, "one object is made"); vc_cover("by value"); } }
        catch (bad_variant_convert&) { vc_cover("refused"); }
        delete a;
    }
    vc_assert(n_live == live, "what an argument converts is destroyed with it, its storage released");
    vc_assert(vc_live_heap() == heap, "its storage released");
    if constexpr(std::is_class_v<From>) vc_assert(alive(x), "the caller's object stays");
}
}
#define TAKE(name, T) CONTRACT(take_##name) { take<T>(); }
TAKE(small, Small) TAKE(small_throwing, SmallX) TAKE(edge, Edge) TAKE(big, Big) TAKE(big_throwing, BigX) TAKE(copy_only, CopyOnly) TAKE(big_copy_only, BigCopyOnly) TAKE(aligned, Aligned)
#define THROUGH(name, F, T) CONTRACT(convert_##name) { through<F, T>(); }
THROUGH(word_to_small, u64, Small) THROUGH(word_to_throwing, u64, SmallX) THROUGH(big_to_small, Big, Small) THROUGH(small_to_big, Small, BigX) THROUGH(small_to_copy_only, SmallX, CopyOnly) THROUGH(big_to_aligned, BigX, Aligned) THROUGH(big_to_word, Big, u64)
#define COMPARED(name, F, T) CONTRACT(compare_##name) { compared<F, T>(); }
COMPARED(word_small, u64, Small) COMPARED(small_word, Small, u64) COMPARED(small_big, Small, BigX) COMPARED(big_aligned, Big, Aligned) COMPARED(odd_small, Odd, Small) COMPARED(small_odd, Small, Odd) COMPARED(odd_word, Odd, u64) COMPARED(copy_only_word, CopyOnly, u64)
#define HANDED(name, F, T) CONTRACT(argument_##name) { handed<F, T>(); }
HANDED(word_big, u64, BigX) HANDED(small_word, Small, u64) HANDED(small_big, Small, Big) HANDED(big_aligned, Big, Aligned) HANDED(word_copy_only, u64, BigCopyOnly)
