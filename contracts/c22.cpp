// C22: the definition builder registers each definition in the scope it is written in.
// Creation itself (MetaNamespace::create and its like, addBaseClass, setAttribute, addElement, registerConverter) is known here by what it is
// asked to do; what it then does is C05, C08, C09 and C11.  The stack of enclosing scopes is std::stack over a deque, known by its contract:
// a sequence of any length.
#include "containers.h"
#include <rtti/metadefine.h>
using namespace vc;
using rtti::internal::container_stack_t;
static_assert(std::is_same_v<container_stack_t, std::stack<MetaContainer*>>, "the enclosing scopes are a std::stack");

namespace {
// --- the enclosing scopes ------------------------------------------------------------------------------------------------------------------
container_stack_t *scopes; MetaContainer **scope; u64 depth, depth0;
void s_push(void *, MetaContainer *const *c) { scope[depth] = *c; ++depth; }
MetaContainer** s_emplace(void *, MetaContainer *const *c) { scope[depth] = *c; return &scope[depth++]; }
MetaContainer** s_back(void *) { vc_assert(depth > 0, "there is an enclosing scope"); return &scope[depth - 1]; }
void s_pop(void *) { vc_assert(depth > 0, "there is an enclosing scope"); --depth; }
bool s_empty(void const *) { return depth == 0; }
u64 s_size(void const *) { return depth; }
#define DEQUE "std::deque<rtti::MetaContainer*, std::allocator<rtti::MetaContainer*>>::"
void any_scopes(bool some = false)
{
    scopes = make<container_stack_t>();
    depth = depth0 = vc_any_size(); vc_assume(depth < (u64(1) << 30)); if (some) vc_assume(depth > 0);
    scope = input_array<MetaContainer*>(depth + 2);
    vc_replace(DEQUE "push_back(", (void*)&s_push);
    vc_replace("rtti::MetaContainer*& " DEQUE "emplace_back<", (void*)&s_emplace); vc_replace(DEQUE "emplace_back", (void*)&s_emplace);
    vc_replace(DEQUE "back(", (void*)&s_back); vc_replace(DEQUE "pop_back(", (void*)&s_pop);
    vc_replace(DEQUE "empty(", (void*)&s_empty); vc_replace(DEQUE "size(", (void*)&s_size);
}
u64 below(u64 i) { return u64(scope[i]); }

// --- what is asked of the containers -------------------------------------------------------------------------------------------------------
struct Created { MetaCategory cat; u64 name; MetaContainer *owner; u64 type; MetaItem *item; void *invoker; };
Created log[8]; u64 n_log;
u64 view(std::string_view s) { return vc_sid(s.data(), s.size()); }
MetaItem* created(MetaCategory cat, std::string_view name, MetaContainer &owner, MetaItem *item, u64 type = 0, void *invoker = nullptr)
{ vc_assert(n_log < 8, "no more definitions than written"); log[n_log++] = {cat, view(name), &owner, type, item, invoker}; return item; }
MetaNamespace* s_namespace(std::string_view n, MetaContainer &o) { auto r = a_namespace(); created(mcatNamespace, n, o, r); return r; }
MetaClass* s_class(std::string_view n, MetaContainer &o, MetaType_ID t) { auto r = a_class(); created(mcatClass, n, o, r, t.value()); return r; }
MetaEnum* s_enum(std::string_view n, MetaContainer &o, MetaType_ID t) { auto r = make<MetaEnum>(nonempty_view(), o, t); created(mcatEnum, n, o, r, t.value()); return r; }
template<class I, MetaCategory cat> MetaItem* s_invoked(std::string_view n, MetaContainer &o, std::unique_ptr<I> i) { return created(cat, n, o, static_cast<MetaItem*>(vc_any_obj()), 0, i.release()); }

struct Base { u64 type; MetaClass::cast_func_t cast; MetaClass *to; } bases[4]; u64 n_bases;
void s_base(MetaClass *c, MetaType_ID t, MetaClass::cast_func_t f) { vc_assert(n_bases < 4, "no more bases than written"); bases[n_bases++] = {t.value(), f, c}; }
int content(variant const &v) { return *static_cast<int const*>(v.raw_data_ptr()); }
u64 n_attributes, attribute_name, attribute_value; MetaItem *attribute_of; bool attribute_taken;
void s_attribute(MetaItem *i, std::string_view n, variant const &v) { ++n_attributes; attribute_of = i; attribute_name = view(n); attribute_value = u64(content(v)); }
u64 n_elements, element_name, element_value; MetaEnum *element_of;
void s_element(MetaEnum *e, std::string_view n, variant &&v) { ++n_elements; element_of = e; element_name = view(n); element_value = u64(content(v)); }
u64 n_converters, converter_from, converter_to;
bool s_converter(MetaType_ID f, MetaType_ID t, void const*) { ++n_converters; converter_from = f.value(); converter_to = t.value(); return true; }

void stubs()
{
    n_log = n_bases = n_attributes = n_elements = n_converters = 0;
    vc_replace("rtti::MetaNamespace::create(", (void*)&s_namespace);
    vc_replace("rtti::MetaClass::create(", (void*)&s_class);
    vc_replace("rtti::MetaEnum::create(", (void*)&s_enum);
    vc_replace("rtti::MetaMethod::create(", (void*)&s_invoked<IMethodInvoker, mcatMethod>);
    vc_replace("rtti::MetaProperty::create(", (void*)&s_invoked<IPropertyInvoker, mcatProperty>);
    vc_replace("rtti::MetaConstructor::create(", (void*)&s_invoked<IConstructorInvoker, mcatConstructor>);
    vc_replace("rtti::MetaClass::addBaseClass(", (void*)&s_base);
    vc_replace("rtti::MetaItem::setAttribute(", (void*)&s_attribute);
    vc_replace("rtti::MetaEnum::addElement(", (void*)&s_element);
    vc_replace("rtti::MetaType::registerConverter(mpl::ID", (void*)&s_converter);
}
void nothing_else(u64 definitions, u64 b = 0, u64 a = 0, u64 e = 0)
{ vc_assert(n_log == definitions && n_bases == b && n_attributes == a && n_elements == e, "nothing else is defined"); }
void is(Created const &c, MetaCategory cat, u64 name, MetaContainer *owner)
{
    vc_assert(c.cat == cat, "the definition written is the one made");
    vc_assert(c.name == name, "it has the name given");
    vc_assert(c.owner == owner, "it is made in the scope it is written in");
}
// a builder at any point of a chain: in container c, with item i current
template<class T, class MB> struct At: meta_define<T, MB> { At(MetaItem *i, MetaContainer *c): meta_define<T, MB>{i, c, scopes} { stubs(); } };
template<class D> void at(D const &d, MetaItem *item, MetaContainer *c)
{
    vc_assert(d.m_currentContainer == c, "what follows is written in the right scope");
    vc_assert(d.m_currentItem == item, "attributes that follow go to the right item");
    vc_assert(d.m_containerStack == scopes, "the chain goes on with the same enclosing scopes");
}
MetaContainer* any_scope() { if (vc_choice()) return a_namespace(); return a_class(); }
MetaItem* any_item(MetaContainer *c) { if (vc_choice()) return c; return make<MetaEnum>(nonempty_view(), *c, MetaType_ID{vc_any64()}); }
}

// --- opening and closing scopes ------------------------------------------------------------------------------------------------------------
template<class D> static void opened(D const &r, MetaContainer *c, u64 old_at, u64 probe)
{
    auto made = static_cast<MetaContainer*>(log[0].item);
    at(r, made, made);
    vc_assert(depth == depth0 + 1 && scope[depth0] == c, "the scope left is the innermost enclosing one");
    if (probe < depth0) vc_assert(below(probe) == old_at, "the other enclosing scopes are unchanged");
}
template<class MB> static void open_namespace()
{
    any_scopes();
    auto c = a_namespace(); At<void, MB> b{any_item(c), c};
    u64 probe = vc_any_size(), old = 0; if (probe < depth0) old = below(probe);
    auto name = nonempty_view();
    auto r = b._namespace(name);
    vc_assert(n_log == 1, "one definition is made"); nothing_else(1);
    is(log[0], mcatNamespace, view(name), c);
    opened(r, c, old, probe);
    vc_cover("reached");
}
CONTRACT(open_namespace_first) { open_namespace<void>(); }
CONTRACT(open_namespace_inside) { open_namespace<meta_define<void>>(); }

namespace h22 {
struct Full { Full() {} Full(Full const&) {} Full(Full&&) {} };
struct NoDefault { explicit NoDefault(int) {} NoDefault(NoDefault const&) {} NoDefault(NoDefault&&) {} };
struct MoveOnly { MoveOnly() {} MoveOnly(MoveOnly&&) {} MoveOnly(MoveOnly const&) = delete; };
struct None { None() = delete; None(None const&) = delete; };
struct Copyable { Copyable() = delete; Copyable(Copyable const&) {} };
struct Abstract { virtual void f() = 0; virtual ~Abstract() {} };
}
template<class T> static void open_class(bool named)
{
    any_scopes();
    auto c = any_scope(); At<void, void> b{any_item(c), c};
    u64 probe = vc_any_size(), old = 0; if (probe < depth0) old = below(probe);
    auto name = named ? nonempty_view() : std::string_view{};
    auto r = named ? b.template _class<T>(name) : b.template _class<T>();
    vc_assert(n_log >= 1, "the class is defined");
    is(log[0], mcatClass, named ? view(name) : view(type_name<T>()), c);
    vc_assert(log[0].type == metaTypeId<T>().value(), "the class is that of the type");
    constexpr u64 dflt = std::is_default_constructible_v<T>, copy = std::is_copy_constructible_v<T>, move = std::is_move_constructible_v<T>;
    vc_assert(n_log == 1 + dflt + copy + move, "a class has exactly the default, copy and move constructors its type has"); nothing_else(1 + dflt + copy + move);
    vc_assert(n_converters == 0, "no conversion is registered for them");
    auto made = static_cast<MetaContainer*>(log[0].item);
    u64 k = 1;
    auto next = [&](std::string_view text) {
        auto &l = log[k++];
        is(l, mcatConstructor, view(""), made);
        vc_assert(sid(static_cast<IConstructorInvoker*>(l.invoker)->signature("")) == view(text), "it is the constructor of that kind");
    };
    if (dflt) next("d_constructor");
    if (copy) next("c_constructor");
    if (move) next("m_constructor");
    opened(r, c, old, probe);
    vc_cover("reached");
}
CONTRACT(open_class) { open_class<h22::Full>(true); }
CONTRACT(open_class_unnamed) { open_class<h22::Full>(false); }
CONTRACT(open_class_no_default) { open_class<h22::NoDefault>(true); }
CONTRACT(open_class_move_only) { open_class<h22::MoveOnly>(true); }
CONTRACT(open_class_no_constructors) { open_class<h22::None>(true); }
CONTRACT(open_class_copyable) { open_class<h22::Copyable>(true); }
CONTRACT(open_class_abstract) { open_class<h22::Abstract>(true); }

template<class T, class MB> static void close()
{
    any_scopes(true);
    auto c = any_scope(); At<T, MB> b{any_item(c), c};
    auto outer = scope[depth0 - 1] = any_scope();
    u64 probe = vc_any_size(); vc_assume(probe < depth0 - 1 || depth0 == 1); u64 old = depth0 == 1 ? 0 : below(probe);
    auto r = b._end();
    nothing_else(0);
    at(r, outer, outer);
    vc_assert(depth == depth0 - 1, "one scope is closed");
    if (depth0 != 1) vc_assert(below(probe) == old, "the other enclosing scopes are unchanged");
    vc_cover("reached");
}
CONTRACT(close_outermost) { close<void, meta_define<void>>(); }
CONTRACT(close_namespace) { close<void, meta_define<void, meta_define<void>>>(); }
CONTRACT(close_class) { close<h22::Full, meta_define<void>>(); }
CONTRACT(close_class_in_class) { close<h22::Full, meta_define<h22::None, meta_define<void>>>(); }

// --- items ---------------------------------------------------------------------------------------------------------------------------------
// a definition of one item: the chain stays where it is
template<class F> static void one(MetaContainer *c, MetaCategory cat, bool current, F f)
{
    any_scopes();
    auto i = any_item(c); At<void, void> b{i, c};
    u64 probe = vc_any_size(), old = 0; if (probe < depth0) old = below(probe);
    auto name = nonempty_view();
    auto r = f(b, name);
    vc_assert(n_log == 1, "one definition is made"); nothing_else(1);
    is(log[0], cat, view(name), c);
    at(r, current ? log[0].item : i, c);
    at(b, current ? log[0].item : i, c);
    vc_assert(depth == depth0, "the enclosing scopes are unchanged");
    if (probe < depth0) vc_assert(below(probe) == old, "the enclosing scopes are unchanged");
    vc_assert(n_converters == 0, "no conversion is registered");
}
namespace {
enum E { e0 }; enum class F: unsigned char { f0 };
u64 calls, got; void fn() { ++calls; } void setter(int v) { ++calls; got = u64(v); } int getter() { ++calls; return 5; } int vari; int const cvari = 3;
}
CONTRACT(define_enum) { one(any_scope(), mcatEnum, true, [](auto &b, auto n) { return b.template _enum<E>(n); }); vc_assert(log[0].type == metaTypeId<E>().value(), "it is the enum of that type"); vc_cover("reached"); }
CONTRACT(define_scoped_enum) { one(any_scope(), mcatEnum, true, [](auto &b, auto n) { return b.template _enum<F>(n); }); vc_assert(log[0].type == metaTypeId<F>().value(), "it is the enum of that type"); vc_cover("reached"); }
CONTRACT(define_method)
{
    vc_static_init(); calls = 0;
    one(any_scope(), mcatMethod, false, [](auto &b, auto n) { return b._method(n, &fn); });
    static_cast<IMethodInvoker*>(log[0].invoker)->invoke_static();
    vc_assert(calls == 1, "the method is the function given");
    vc_cover("reached");
}
CONTRACT(define_lambda)
{
    vc_static_init(); calls = 0;
    one(any_scope(), mcatMethod, false, [](auto &b, auto n) { return b._method(n, +[] { calls += 7; }); });
    static_cast<IMethodInvoker*>(log[0].invoker)->invoke_static();
    vc_assert(calls == 7, "the method is the function given");
    vc_cover("reached");
}
CONTRACT(define_variable)
{
    bool k = vc_choice();
    one(any_scope(), mcatProperty, false, [=](auto &b, auto n) { return k ? b._property(n, &vari) : b._property(n, &cvari); });
    auto p = static_cast<IPropertyInvoker*>(log[0].invoker);
    vc_assert(p->isStatic() && p->readOnly() == !k, "the property is the variable given");
    vc_cover("reached");
}
CONTRACT(define_accessors)
{
    calls = got = 0;
    one(any_scope(), mcatProperty, false, [](auto &b, auto n) { return b._property(n, &getter, &setter); });
    auto p = static_cast<IPropertyInvoker*>(log[0].invoker);
    vc_assert(p->isStatic() && !p->readOnly() && p->typeId() == metaTypeId<int>(), "the property is of the functions given");
    auto v = p->get_static();
    vc_assert(calls == 1 && got == 0 && content(v) == 5, "it is read by the getter");
    vc_cover("reached");
}

// --- constructors and the conversions they give -----------------------------------------------------------------------------------------------
namespace h22 {
struct C { C() {} C(int) {} explicit C(char*) {} C(C const&) {} C(int, C const&) {} C(Full const&) {} };
}
template<class T, class ...A> static void define_constructor(bool converting)
{
    any_scopes();
    auto c = a_class(); auto i = any_item(c); At<T, meta_define<void>> b{i, c};
    bool named = vc_choice(); auto name = nonempty_view();
    auto r = named ? b.template _constructor<A...>(name) : b.template _constructor<A...>();
    vc_assert(n_log == 1, "one definition is made"); nothing_else(1);
    is(log[0], mcatConstructor, named ? view(name) : view(""), c);
    at(r, i, c);
    vc_assert(depth == depth0, "the enclosing scopes are unchanged");
    vc_assert(n_converters == (converting ? 1 : 0), "a conversion is registered exactly for a constructor that converts");
    if (converting) {
        using From = full_decay_t<std::tuple_element_t<0, std::tuple<A..., int>>>;
        vc_assert(converter_from == metaTypeId<From>().value() && converter_to == metaTypeId<T>().value(), "the conversion is from the argument's type to the class's");
    }
    vc_cover("reached");
}
CONTRACT(constructor_none) { define_constructor<h22::C>(false); }
CONTRACT(constructor_int) { define_constructor<h22::C, int>(true); }
CONTRACT(constructor_explicit) { define_constructor<h22::C, char*>(false); }
CONTRACT(constructor_copy) { define_constructor<h22::C, h22::C const&>(false); }
CONTRACT(constructor_two) { define_constructor<h22::C, int, h22::C const&>(false); }
CONTRACT(constructor_object) { define_constructor<h22::C, h22::Full const&>(true); }

// --- base classes ------------------------------------------------------------------------------------------------------------------------------
namespace h22 { struct B0 { int a; }; struct B1 { virtual ~B1() {} int b; }; struct B2 { int c; }; struct D: B0, B1, B2 { int d; }; }
template<class B> static void is_base(Base const &b, MetaClass *c, h22::D *d)
{
    vc_assert(b.to == c, "the base is that of the class being defined");
    vc_assert(b.type == metaTypeId<B>().value(), "the bases are those given, in order");
    vc_assert(b.cast(d) == static_cast<void const*>(static_cast<B*>(d)), "the cast gives the base's part");
}
CONTRACT(define_bases)
{
    any_scopes();
    auto c = a_class(); auto i = any_item(c); At<h22::D, meta_define<void>> b{i, c};
    h22::D d;
    auto r = b._base<h22::B2, h22::B0, h22::B1>();
    nothing_else(0, 3);
    is_base<h22::B2>(bases[0], c, &d); is_base<h22::B0>(bases[1], c, &d); is_base<h22::B1>(bases[2], c, &d);
    at(r, i, c);
    auto r2 = r._base<>();
    nothing_else(0, 3); at(r2, i, c);
    vc_assert(depth == depth0, "the enclosing scopes are unchanged");
    vc_cover("reached");
}

// --- attributes and elements ---------------------------------------------------------------------------------------------------------------------
CONTRACT(attribute)
{
    any_scopes();
    auto c = any_scope(); auto i = any_item(c); At<void, void> b{i, c};
    auto name = nonempty_view(); int v = int(vc_any32()); bool lv = vc_choice();
    variant var{v};
    auto r = lv ? b._attribute(name, var) : b._attribute(name, v);
    nothing_else(0, 0, 1);
    vc_assert(attribute_of == i, "an attribute goes to the scope opened or returned to last, or the enum defined last");
    vc_assert(attribute_name == view(name) && int(attribute_value) == v, "it has the name and value given");
    vc_assert(content(var) == v, "a value given by reference is kept");
    at(r, i, c);
    vc_assert(depth == depth0, "the enclosing scopes are unchanged");
    vc_cover("reached");
}
CONTRACT(element)
{
    any_scopes();
    auto c = any_scope(); auto e = make<MetaEnum>(nonempty_view(), *c, MetaType_ID{vc_any64()}); At<void, void> b{e, c};
    auto name = nonempty_view(); int v = int(vc_any32());
    auto r = b._element(name, v);
    nothing_else(0, 0, 0, 1);
    vc_assert(element_of == e, "an element goes to the enum defined last");
    vc_assert(element_name == view(name) && int(element_value) == v, "it has the name and value given");
    at(r, e, c);
    vc_assert(depth == depth0, "the enclosing scopes are unchanged");
    vc_cover("reached");
}

// --- where a chain starts ------------------------------------------------------------------------------------------------------------------------
static MetaNamespace *the_global;
CONTRACT(start)
{
    the_global = a_namespace();
    vc_replace("rtti::MetaNamespace::global()", (void*)+[]() -> MetaNamespace const* { return the_global; });
    auto g = global_define();
    vc_assert(g.m_currentContainer == the_global && g.m_currentItem == the_global, "a chain starts in the global namespace");
    vc_assert(g.m_containerStack != nullptr && g.m_containerStack->empty(), "it has no enclosing scope");
    vc_cover("reached");
}
