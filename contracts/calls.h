// Functions that record what reaches them, and methods called on any instance (C16, C17).
#pragma once
#include "content.h"
#include "containers.h"
using rtti::internal::MethodInvoker;
namespace {
// what the functions under invocation saw
u64 n_calls, n_args, arg[10]; void const *self; u64 result; bool booms;
void log_begin() { n_calls = n_args = 0; self = nullptr; result = vc_any64(); booms = false; for (auto &a : arg) a = 0; }
void put(u64 x) { if (n_args < 10) arg[n_args] = x; ++n_args; }
void called(void const *s) { ++n_calls; n_args = 0; self = s; if (booms) throw Boom{}; }
enum class End { value, invoke, absent, cast, boom, other };
template<class F> End end_of(F f)
{
    try { f(); return End::value; } catch (invoke_error&) { return End::invoke; } catch (bad_argument_cast&) { return End::absent; } catch (bad_variant_cast&) { return End::cast; } catch (Boom&) { return End::boom; } catch (...) { return End::other; }
}
template<class V> bool holds(variant const &r, V const &x) { return r.typeId() == metaTypeId<V>() && r.cref<V>() == x; }
}

// --- any instance: its type is known by its descriptors only (C02), and how its class relates to others by an arbitrary relation (C09) ----------
namespace {
struct Inst: Small {
    using Small::Small;
    u64 value(u64 x) const { called(this); put(x); return result; }
    void look(u64 x) const { called(this); put(x); }
    u64 change(u64 x) { called(this); put(x); return result; }
    void touch(u64 x) { called(this); put(x); }
    u64 read() const { called(this); return result; }
    u64 take() { called(this); return result; }
};
static_assert(sizeof(Inst) == sizeof(Small));
enum Kind { CLASS, POINTER, NEITHER };
// how the method is called: as a method, or as a getter or setter of a property
struct AsMethod { static constexpr bool only_const = false; static constexpr u64 n = 1; template<class F, class V> static variant go(F f, V &v, u64 &x) { auto i = make<MethodInvoker<F>>(f); IMethodInvoker const &m = *i; return m.invoke_method(v, x); } };
template<class F, bool CONST, bool VOID, class T, class By = AsMethod> struct Instances: AnyContent<T> {
    using Any = AnyContent<T>; using V = std::remove_cv_t<T>; using Any::v; using Any::empty; using Any::inside; using Any::begin; using Any::viewed; using Any::place; using Any::same; using Any::s_value; using Any::cls;
    template<class To> static TypeInfo const* to() { return Any::template to<To>(); }
    void run(F f, Kind kind)
    {
        vc_static_init(); begin(); log_begin(); booms = vc_any_bool();
        u64 flags = empty ? 0 : u64(std::uint32_t(desc[0]->flags)); bool c = flags & u64(TypeFlags::Class), p = flags & u64(TypeFlags::Pointer);
        vc_assume(kind == (c && !p ? CLASS : c && p && desc[0]->arity == 1 ? POINTER : NEITHER));
        if constexpr(!cls) {
            vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)&s_convert<V>); conv_target = to<V>();
            if (!inside) where = vc_alloc(8);
            if (same() && !empty && !arr(desc[0])) elements = *static_cast<void *const *>(where);
        }
        bool constant = By::only_const || vc_any_bool(); variant const &w = *v; u64 x = vc_any64();
        // where the method is called; an error otherwise
        void const *at = nullptr; End want = End::cast;
        if (kind == CLASS) { if (CONST || !constant) at = viewed(constant ? 3 : 1, to<std::conditional_t<CONST, Inst const&, Inst&>>()) ? place() : nullptr; }
        else if constexpr(!cls) if (kind == POINTER) { bool can = viewed(constant ? 3 : 1, to<V>()), ok = can || (has_conv && conv_ok); V q{}; s_value(q, can); at = ok ? q : nullptr; if (ok) want = End::invoke; }
        if (at) want = booms ? End::boom : End::value;
        variant r;
        { argument warm(x); warm.value<u64>(); metaTypeId<u64&>(); variant b{x}; b.cref<u64>(); } to<Inst>(); to<Inst&>(); to<Inst const&>(); to<V>(); to<V&>(); to<V const&>(); to<V&&>(); u64 heap = vc_live_heap(), s0 = vc_peek(v), s1 = vc_peek(reinterpret_cast<u64 const*>(v) + 1), s2 = vc_peek(reinterpret_cast<u64 const*>(v) + 2);
        End e = end_of([&] { if (constant) r = By::go(f, w, x); else r = By::go(f, *v, x); });
        vc_assert(e == want, "the method is called on the instance, its base part or the object it points at, or an error is raised; the callee's exception comes through");
        vc_assert(n_calls == u64(at != nullptr), "called once, or not at all");
        if (at) vc_assert(self == at && (booms || (n_args == By::n && (By::n == 0 || arg[0] == x))), "on exactly that object, with the argument given");
        if (e == End::value && !VOID) vc_assert(holds(r, result), "the result is returned"); else vc_assert(r.empty(), "no result");
        vc_assert(vc_live_heap() == heap, "nothing is kept"); vc_assert(n_other == 0 && n_destroyed == 0, "the instance is not copied"); vc_assert(s0 == vc_peek(v) && s1 == vc_peek(reinterpret_cast<u64 const*>(v) + 1) && s2 == vc_peek(reinterpret_cast<u64 const*>(v) + 2), "the instance is left as it was");
        vc_cover("reached"); if (kind != NEITHER) { if (at) { vc_cover("called"); if (!same()) vc_cover("on the base part"); } else vc_cover("refused"); }
    }
};
}
