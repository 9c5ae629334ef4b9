// C17: property access reads and writes exactly the designated object.
#include "calls.h"
using rtti::internal::PropertyInvoker; using rtti::internal::PropertyInvokerEx;
namespace {
void begin_() { vc_static_init(); life_begin(); }
template<class T> T any_value() { if constexpr(std::is_class_v<T>) return T(vc_any64()); else if constexpr(std::is_pointer_v<T>) return static_cast<T>(vc_any_obj()); else return T(vc_any64()); }
template<class T> u64 code(T const &x) { if constexpr(std::is_class_v<T>) return x.v; else return u64(x); }
// the result refers to x, which it doesn't open for writing
template<class T> void shows(variant &r, T const &x) { vc_assert(!r.empty() && &r.cref<T>() == &x, "what is got is the designated object itself"); vc_assert(r.data<T>() == nullptr, "for reading"); vc_assert(r.typeId() == metaTypeId<T const>(), "under its own type"); }

// --- variables ------------------------------------------------------------------------------------------------------------------------------------
template<class T> void variable()
{
    begin_(); using V = std::remove_const_t<T>; auto block = static_cast<V*>(vc_alloc(3 * sizeof(V))); u64 before[3];
    for (u64 i = 0; i < 3; ++i) { ::new (block + i) V(any_value<V>()); before[i] = code(block[i]); }
    V *x = block + 1; V given = any_value<V>(); u64 g = code(given);
    { argument w(given); w.value<V>(); variant c{std::cref(given)}; c.cref<V>(); c.typeId(); c.data<V>(); metaTypeId<T>(); metaTypeId<V>(); argument q(std::move(given)); q.value<V>(); }
    if constexpr(std::is_class_v<V>) given.v = g;
    auto p = make<PropertyInvoker<T*>>(x); IPropertyInvoker const &i = *p; constexpr bool fixed = std::is_const_v<T>;
    vc_assert(i.isStatic() && i.readOnly() == fixed && i.typeId() == metaTypeId<T>(), "what is reported is the variable's");
    u64 live = n_live, heap = vc_live_heap(), kind = vc_any64() % 4; u64 wrote = code(*x);
    if (kind == 0) { u64 copies = n_copies; { variant r; End e = end_of([&] { r = i.get_static(); }); vc_assert(e == End::value, "a variable can be read"); shows<V>(r, *x); vc_assert(code(r.cref<V>()) == before[1], "its current value"); vc_cover("got"); } vc_assert(n_copies == copies, "nothing is copied"); }
    else if (kind == 3) { End e = end_of([&] { i.set_static(argument{}); }); vc_assert(e == (fixed ? End::invoke : End::absent), "without a value nothing is written"); }
    else {
        End e = end_of([&] { if (kind == 1) i.set_static(given); else i.set_static(std::move(given)); });
        vc_assert(e == (fixed ? End::invoke : End::value), fixed ? "a constant isn't written" : "a variable can be written"); if (!fixed) wrote = g; vc_cover("set");
        vc_assert(code(given) == g || (kind == 2 && std::is_class_v<V>), "the value given is left as it was");
    }
    vc_assert(code(block[0]) == before[0] && code(block[2]) == before[2] && code(*x) == wrote, "exactly the variable has the given value, nothing else is written"); vc_assert(n_live == live && vc_live_heap() == heap, "nothing is kept");
}
}
CONTRACT(variable_word) { variable<u64>(); }
CONTRACT(variable_byte) { variable<unsigned char>(); }
CONTRACT(variable_class) { variable<Small>(); }
CONTRACT(variable_throwing_class) { variable<SmallX>(); }
CONTRACT(variable_big_class) { variable<Big>(); }
CONTRACT(variable_pointer) { variable<u64*>(); }
CONTRACT(constant_word) { variable<u64 const>(); }
CONTRACT(constant_class) { variable<SmallX const>(); }

// --- fields of any instance (its type known by its descriptors only) -----------------------------------------------------------------------------------
namespace {
struct Rec: Small { u64 before, word, after; u64 const fixed; SmallX obj; u64 last; explicit Rec(u64 x): Small{x}, before{0}, word{0}, after{0}, fixed{0}, obj{0}, last{0} {} Rec(): Rec(0) {} Rec(Rec const &o): Small{o}, before{o.before}, word{o.word}, after{o.after}, fixed{o.fixed}, obj{o.obj}, last{o.last} {} };
template<class F, class T, bool SET> struct Fields: AnyContent<T> {
    using Any = AnyContent<T>; using V = std::remove_cv_t<T>; using Any::v; using Any::empty; using Any::inside; using Any::begin; using Any::viewed; using Any::place; using Any::same; using Any::s_value; using Any::cls;
    template<class To> static TypeInfo const* to() { return Any::template to<To>(); }
    using X = rtti::internal::property_type_t<F>; using XV = std::remove_const_t<X>; static constexpr bool fixed = std::is_const_v<X>;
    static Rec* a_place() { auto p = static_cast<Rec*>(vc_alloc(sizeof(Rec))); ::new (p) Rec(vc_any64()); p->before = vc_any64(); p->word = vc_any64(); p->after = vc_any64(); p->last = vc_any64(); p->obj.v = vc_any64(); const_cast<u64&>(p->fixed) = vc_any64(); return p; }
    void run(F f, Kind kind)
    {
        vc_static_init(); begin(); if (!empty) vc_assume(!inside || !cls);     // (an Rec does not fit in place)
        u64 flags = empty ? 0 : u64(std::uint32_t(desc[0]->flags)); bool c = flags & u64(TypeFlags::Class), p = flags & u64(TypeFlags::Pointer);
        vc_assume(kind == (c && !p ? CLASS : c && p && desc[0]->arity == 1 ? POINTER : NEITHER));
        Rec *target = a_place(); 
        if constexpr(cls) { if (!inside) where = target; base_part = vc_choice() ? target : nullptr; vc_assume((instance == nullptr) == (base_part == nullptr)); if (!same() && !empty) where = vc_any_obj(); }
        else {
            vc_replace("rtti::MetaType::convert(void const*, rtti::MetaType, void*, rtti::MetaType)", (void*)&s_convert<V>); conv_target = to<V>();
            bool null = vc_choice(); Rec *q = null ? nullptr : target;
            if (!inside) { where = vc_alloc(8); }
            if (same() && !empty) { if (!arr(desc[0])) { if (inside) v->storage.ptr = q; else *static_cast<Rec**>(const_cast<void*>(where)) = q; elements = q; } else elements = target; }
            base_part = null ? nullptr : target; vc_assume((instance == nullptr) == null); if (inside && !same()) v->storage.ptr = const_cast<void*>(instance); conv_value = u64(q);
            if (inside && same()) vc_assume(instance == q || arr(desc[0]));
        }
        bool constant = vc_any_bool(); variant const &w = *v; XV given = any_value<XV>(); u64 g = code(given), obj_v = target->obj.v, s_v = target->v, word = target->word;
        { argument y(given); y.value<XV>(); variant b{std::cref(given)}; b.cref<XV>(); b.data<XV>(); metaTypeId<X>(); metaTypeId<XV const>(); } to<Rec>(); to<Rec&>(); to<Rec const&>(); to<V>(); to<V&>(); to<V const&>(); to<V&&>(); to<variant>();
        Rec *at = nullptr; End want = End::cast;
        bool open = !SET;       // the constness the access needs
        if (kind == CLASS) { if (open || !constant) at = viewed(open || constant ? 3 : 1, to<std::conditional_t<!SET, Rec const&, Rec&>>()) ? static_cast<Rec*>(const_cast<void*>(place())) : nullptr; }
        else if constexpr(!cls) if (kind == POINTER) { bool can = viewed(!SET || constant ? 3 : 1, to<V>()), ok = can || (has_conv && conv_ok); V q{}; s_value(q, can); at = ok ? const_cast<Rec*>(q) : nullptr; want = ok ? End::invoke : End::cast; }
        if (at) want = End::value;
        if (SET && fixed) { at = nullptr; want = End::invoke; }
        auto prop = make<PropertyInvoker<F>>(f); IPropertyInvoker const &i = *prop;
        vc_assert(!i.isStatic() && i.readOnly() == fixed && i.typeId() == metaTypeId<X>(), "what is reported is the field's");
        u64 live = n_live, heap = vc_live_heap(), m[6] = {target->before, target->after, target->fixed, target->last, 0, 0}, s0 = vc_peek(v), s1 = vc_peek(reinterpret_cast<u64 const*>(v) + 1), s2 = vc_peek(reinterpret_cast<u64 const*>(v) + 2);
        n_conv = 0;
        if constexpr(!SET) {
            u64 copies = n_copies; { variant r; End e = end_of([&] { r = i.get_field(*v); }); vc_assert(e == want, "a field is read from an object of its class or fails"); if (at) { shows<XV>(r, at->*f); vc_cover("got"); } else vc_assert(r.empty(), "no result"); }
            vc_assert(n_copies == copies, "nothing is copied"); vc_assert(target->word == word && target->obj.v == obj_v, "nothing is written");
        } else {
            End e = end_of([&] { if (constant) i.set_field(w, given); else i.set_field(*v, given); });
            vc_assert(e == want, "a field is written in a mutable object of its class or an error is raised");
            if (at) { vc_assert(code(at->*f) == g, "the field has the given value"); vc_cover("set"); }
            constexpr bool obj = std::is_class_v<XV>;
            vc_assert((target->word == word || (at && !obj)) && (target->obj.v == obj_v || (at && obj)), "and only that field");
        }
        vc_assert(target->before == m[0] && target->after == m[1] && target->fixed == m[2] && target->last == m[3] && target->v == s_v, "the rest of the object is left as it was");
        vc_assert(n_live == live && vc_live_heap() == heap && n_other == 0 && n_destroyed == 0, "nothing is kept"); vc_assert(s0 == vc_peek(v) && s1 == vc_peek(reinterpret_cast<u64 const*>(v) + 1) && s2 == vc_peek(reinterpret_cast<u64 const*>(v) + 2), "the variant is left as it was");
        vc_cover("reached");
    }
};
}
#define FIELD(name, field) \
  CONTRACT(get_of_instance_##name) { Fields<decltype(&Rec::field), Rec, false>{}.run(&Rec::field, CLASS); } \
  CONTRACT(get_of_pointer_##name) { Fields<decltype(&Rec::field), Rec const*, false>{}.run(&Rec::field, POINTER); } \
  CONTRACT(get_of_neither_##name) { Fields<decltype(&Rec::field), Rec, false>{}.run(&Rec::field, NEITHER); } \
  CONTRACT(set_of_instance_##name) { Fields<decltype(&Rec::field), Rec, true>{}.run(&Rec::field, CLASS); } \
  CONTRACT(set_of_pointer_##name) { Fields<decltype(&Rec::field), Rec*, true>{}.run(&Rec::field, POINTER); } \
  CONTRACT(set_of_neither_##name) { Fields<decltype(&Rec::field), Rec, true>{}.run(&Rec::field, NEITHER); }
FIELD(word, word)
FIELD(object, obj)
FIELD(constant, fixed)

// --- what can't be given to the property's type changes nothing; nor does an assignment that fails -----------------------------------------------------
namespace { bool s_no(TypeInfo const*, TypeInfo const*) { return false; } }
CONTRACT(other_values)
{
    begin_(); vc_replace("rtti::MetaType::hasConverter(rtti::MetaType, rtti::MetaType)", (void*)&s_no);
    auto r = make<Rec>(vc_any64()); r->word = vc_any64(); r->obj.v = vc_any64(); u64 w0 = r->word, o0 = r->obj.v, b0 = r->before, a0 = r->after; static u64 cell; cell = vc_any64(); u64 c0 = cell;
    variant v{std::ref(*r)}, p{r}, none; SmallX obj{vc_any64()}; u64 word = vc_any64(); u64 *at = &word; std::uint32_t half = vc_any32(); variant inner{obj}, inner_w{word};
    PropertyInvoker<u64 Rec::*> field{&Rec::word}; PropertyInvoker<SmallX Rec::*> object{&Rec::obj}; PropertyInvoker<u64*> variable{&cell};
    IPropertyInvoker const &F = field, &O = object, &V = variable; bool ptr = vc_choice(); variant &x = ptr ? p : v;
    auto no = [&](auto f) { End e = end_of(f); vc_assert(e == End::cast || e == End::absent, "another type is refused"); vc_assert(r->word == w0 && r->obj.v == o0 && cell == c0, "and changes nothing"); };
    no([&] { F.set_field(x, obj); }); no([&] { F.set_field(x, at); }); no([&] { F.set_field(x, half); }); no([&] { F.set_field(x, inner); }); no([&] { F.set_field(x, none); }); no([&] { F.set_field(x, argument{}); });
    no([&] { O.set_field(x, word); }); no([&] { O.set_field(x, &obj); }); no([&] { O.set_field(x, inner_w); }); no([&] { O.set_field(x, none); }); no([&] { O.set_field(x, argument{}); });
    no([&] { V.set_static(obj); }); no([&] { V.set_static(at); }); no([&] { V.set_static(half); }); no([&] { V.set_static(inner); }); no([&] { V.set_static(none); });
    { F.set_field(x, inner_w); vc_assert(r->word == word && r->obj.v == o0, "a variant gives its content"); O.set_field(x, std::move(inner)); vc_assert(r->obj.v == obj.v && cell == c0, "also when temporary"); V.set_static(inner_w); vc_assert(cell == word, "also to a variable"); }
    vc_assert(r->before == b0 && r->after == a0, "and nothing else is written"); vc_cover("reached");
}
CONTRACT(failing_assignment)
{
    begin_(); auto r = make<Rec>(vc_any64()); r->obj.v = vc_any64(); u64 o0 = r->obj.v, w0 = r->word; variant v{std::ref(*r)}; SmallX x{vc_any64()}; u64 x0 = x.v; { argument a(x); a.value<SmallX>(); v.ref<Rec>(); v.typeId(); }
    PropertyInvoker<SmallX Rec::*> object{&Rec::obj}; PropertyInvoker<SmallX*> variable{&r->obj}; IPropertyInvoker const &O = object, &V = variable; bool field = vc_choice();
    u64 live = n_live, heap = vc_live_heap(); may_boom = true; n_boom = 0; End e = end_of([&] { if (field) O.set_field(v, x); else V.set_static(x); }); may_boom = false;
    vc_assert(e == (n_boom == 0 ? End::value : e == End::cast ? End::cast : End::boom), "an exception of the assignment comes through"); vc_assert(r->obj.v == (n_boom ? o0 : x0) && x.v == x0 && r->word == w0, "and nothing has changed"); vc_assert(n_live == live && vc_live_heap() == heap, "nothing is left behind"); if (n_boom) vc_cover("thrown"); else vc_cover("set");
}

// --- getters and setters --------------------------------------------------------------------------------------------------------------------------
namespace {
struct AsGetter { static constexpr bool only_const = true; static constexpr u64 n = 0; template<class F, class V> static variant go(F f, V &v, u64 &) { auto i = make<PropertyInvokerEx<F, decltype(&Inst::touch)>>(f, &Inst::touch); IPropertyInvoker const &p = *i; return p.get_field(v); } };
struct AsSetter { static constexpr bool only_const = false; static constexpr u64 n = 1; template<class F, class V> static variant go(F f, V &v, u64 &x) { auto i = make<PropertyInvokerEx<decltype(&Inst::read), F>>(&Inst::read, f); IPropertyInvoker const &p = *i; p.set_field(v, x); return {}; } };
}
#define ACCESSOR(name, method, constant, empty, by) \
  CONTRACT(instance_##name) { Instances<decltype(&Inst::method), constant, empty, Inst, by>{}.run(&Inst::method, CLASS); } \
  CONTRACT(pointer_##name) { Instances<decltype(&Inst::method), constant, empty, std::conditional_t<constant, Inst const*, Inst*>, by>{}.run(&Inst::method, POINTER); } \
  CONTRACT(neither_##name) { Instances<decltype(&Inst::method), constant, empty, Inst, by>{}.run(&Inst::method, NEITHER); }
ACCESSOR(getter, read, true, false, AsGetter)
ACCESSOR(setter, touch, false, true, AsSetter)
ACCESSOR(const_setter, look, true, true, AsSetter)
ACCESSOR(open_getter, take, false, false, AsGetter)
namespace {
u64 shared; u64 get_word() { called(nullptr); return result; } void set_word(u64 x) { called(nullptr); put(x); } u64 const& get_shared() { called(nullptr); return shared; } void set_shared(u64 const &x) { called(nullptr); put(x); }
}
CONTRACT(static_accessors)
{
    begin_(); log_begin(); shared = vc_any64(); u64 x = vc_any64(); booms = vc_any_bool(); SmallX other; { argument w(x); w.value<u64>(); }
    PropertyInvokerEx<u64(*)(), void(*)(u64)> p{&get_word, &set_word}; PropertyInvokerEx<u64 const&(*)(), void(*)(u64 const&)> q{&get_shared, &set_shared}; IPropertyInvoker const &P = p, &Q = q;
    vc_assert(P.isStatic() && Q.isStatic() && !P.readOnly() && P.typeId() == metaTypeId<u64>() && Q.typeId() == metaTypeId<u64 const&>(), "what is reported is the functions'");
    { variant r; End e = end_of([&] { r = P.get_static(); }); vc_assert(e == (booms ? End::boom : End::value) && n_calls == 1 && n_args == 0, "the getter is called once"); vc_assert(booms ? r.empty() : holds(r, result), "its result is got"); }
    n_calls = 0; { variant r; End e = end_of([&] { r = Q.get_static(); }); vc_assert(e == (booms ? End::boom : End::value) && n_calls == 1, "the getter is called once"); vc_assert(booms ? r.empty() : &r.cref<u64>() == &shared && !r.data<u64>(), "the object it designates is got"); }
    n_calls = 0; { End e = end_of([&] { P.set_static(x); }); vc_assert(e == (booms ? End::boom : End::value) && n_calls == 1 && (booms || (n_args == 1 && arg[0] == x)), "the setter is called once with the value"); }
    n_calls = 0; { End e = end_of([&] { Q.set_static(std::move(x)); }); vc_assert(e == (booms ? End::boom : End::value) && n_calls == 1 && (booms || (n_args == 1 && arg[0] == x)), "the setter is called once with the value"); }
    n_calls = 0; { End e = end_of([&] { P.set_static(other); }); vc_assert(e == End::cast && n_calls == 0, "another type is refused"); e = end_of([&] { Q.set_static(argument{}); }); vc_assert(e == End::invoke && n_calls == 0, "so is no value"); }
    PropertyInvokerEx<u64(Inst::*)() const, void(Inst::*)(u64)> m{&Inst::read, &Inst::touch}; IPropertyInvoker const &M = m; vc_assert(!M.isStatic() && !M.readOnly() && M.typeId() == metaTypeId<u64>(), "members need an instance"); vc_cover("reached");
}

// --- through the property item or the variant ----------------------------------------------------------------------------------------------------------
namespace {
enum How { NOT, GET_STATIC, SET_STATIC, GET, SET, SET_CONST };
struct PSpy; How how; u64 n_how; PSpy const *spied; variant const *instance_v; bool instance_is; u64 instance_value; void const *got_value; bool got_rvalue;
struct PSpy: IPropertyInvoker {
    bool is_static, ro; PSpy(bool s, bool r): is_static{s}, ro{r} {}
    void hit(How h, variant const *v, argument const *a) const { how = h; ++n_how; spied = this; instance_v = v; if (v) { instance_is = v->is<u64>(); if (instance_is) instance_value = v->cref<u64>(); } if (a) { got_value = a->m_value.raw_data_ptr(); got_rvalue = a->m_rvalue; } if (booms) throw Boom{}; }
    bool isStatic() const override { return is_static; } MetaType_ID typeId() const override { return {}; } bool readOnly() const override { return ro; }
    variant get_static() const override { hit(GET_STATIC, nullptr, nullptr); return variant{result}; }
    void set_static(argument a) const override { hit(SET_STATIC, nullptr, &a); }
    variant get_field(variant const &v) const override { hit(GET, &v, nullptr); return variant{result}; }
    void set_field(variant &v, argument a) const override { hit(SET, &v, &a); }
    void set_field(variant const &v, argument a) const override { hit(SET_CONST, &v, &a); }
};
std::string qname; std::string const& s_qualified(MetaItem const*) { return qname; }
PSpy *a_spy; MetaProperty const *a_property;
void spy_begin(bool is_static) { vc_static_init(); life_begin(); log_begin(); booms = vc_any_bool(); how = NOT; n_how = 0; instance_v = nullptr; instance_is = false; got_value = nullptr; got_rvalue = false; vc_replace("rtti::MetaItem::qualifiedName", (void*)&s_qualified); a_spy = new PSpy{is_static, vc_any_bool()}; a_property = make<MetaProperty>(nonempty_view(), const_cast<MetaContainer&>(any_owner()), std::unique_ptr<IPropertyInvoker>{a_spy}); }
void reached(End e, How h) { vc_assert(e == (booms ? End::boom : End::value) && n_how == 1 && how == h && spied == a_spy, "exactly this property is accessed, once, and exceptions come through"); }
void refused(End e) { vc_assert(e == End::invoke && how == NOT, "an instance too many or too few is an error, and nothing is accessed"); }
}
CONTRACT(property_item)
{
    bool is_static = vc_choice(); spy_begin(is_static); vc_assert(a_property->readOnly() == a_spy->ro, "read-only when the property is");
    variant v{vc_any64()}, out; variant const &w = v; u64 v0 = v.cref<u64>(), o = vc_any64(), x = vc_any64(), way = vc_any64() % 9; MetaProperty const &p = *a_property;
    if (way == 0) { End e = end_of([&] { out = p.get(); }); if (is_static) { reached(e, GET_STATIC); vc_assert(booms ? out.empty() : holds(out, result), "its value is got"); vc_cover("get"); } else refused(e); }
    else if (way < 4) { End e = end_of([&] { if (way == 1) out = p.get(v); else if (way == 2) out = p.get(w); else out = p.get(o); }); if (is_static) { refused(e); vc_assert(out.empty(), "no value"); } else { reached(e, GET); vc_assert(way == 3 ? instance_is && instance_value == o : instance_v == &v, "of the instance given"); vc_assert(booms ? out.empty() : holds(out, result), "its value is got"); vc_cover("get of instance"); } }
    else if (way < 6) { End e = end_of([&] { if (way == 4) p.set(x); else p.set(std::move(x)); }); if (is_static) { reached(e, SET_STATIC); vc_assert(got_value == &x && got_rvalue == (way == 5), "to the value given"); vc_cover("set"); } else refused(e); }
    else { End e = end_of([&] { if (way == 6) p.set(v, x); else if (way == 7) p.set(w, std::move(x)); else p.set(o, x); }); if (is_static) refused(e); else { reached(e, way == 6 ? SET : SET_CONST); vc_assert(way == 8 ? instance_is && instance_value == o : instance_v == &v, "of the instance given, constant unless given as a variant that is not"); vc_assert(got_value == &x && got_rvalue == (way == 7), "to the value given"); vc_cover("set of instance"); } }
    vc_assert(v.cref<u64>() == v0, "the instance is left as it was");
}
namespace {
MetaClass const *v_class; u64 v_class_id, v_name; bool v_property;
MetaClass const* s_the_class(MetaType_ID id) { vc_assert(id.value() == v_class_id, "the class of the instance is asked"); return v_class; }
MetaProperty const* s_the_property(MetaContainer const *c, std::string_view n) { vc_assert(c == v_class && sid(n) == v_name, "for the property of that name"); return v_property ? a_property : nullptr; }
void through_variant(bool set)
{
    bool is_static = vc_choice(); spy_begin(is_static); any_content_type(); info_id = v_class_id = vc_any64(); instance = vc_any_ptr(); where = vc_any_obj();
    v_class = vc_any_bool() ? static_cast<MetaClass const*>(vc_any_obj()) : nullptr; v_property = vc_any_bool();
    vc_replace("rtti::MetaClass::find(mpl::ID", (void*)&s_the_class); vc_replace("rtti::MetaContainer::getProperty(std::basic_string_view", (void*)&s_the_property);
    auto v = input<variant>(); bool empty = vc_choice(); v->manager = empty ? variant_function_table_for<void>() : Content::get(); variant const &w = *v;
    u64 flags = empty ? 0 : u64(std::uint32_t(desc[0]->flags)); bool cls = flags & u64(TypeFlags::Class), ptr = flags & u64(TypeFlags::Pointer); bool object = cls && (!ptr || desc[0]->arity == 1);
    auto name = any_view(); v_name = sid(name); bool error = false, rv = vc_any_bool(); u64 x = vc_any64(); variant out; End e = End::other; n_other = n_destroyed = 0;
    try { try { if (!set) out = w.get_property(name); else if (rv) v->set_property(name, std::move(x)); else v->set_property(name, x); e = End::value; } catch (invoke_error&) { e = End::invoke; } catch (runtime_error&) { error = true; } catch (Boom&) { e = End::boom; } } catch (...) {}
    if (!object || !v_class || !v_property) { vc_assert(error && how == NOT && out.empty(), "no class, no registered class or no such property: an error, and nothing is accessed"); vc_cover("refused"); return; }
    if (is_static) { refused(e); vc_cover("static"); return; }
    reached(e, set ? SET : GET); vc_assert(instance_v == v, "of the variant's content"); if (set) vc_assert(got_value == &x && got_rvalue == rv, "to the value given"); else vc_assert(booms ? out.empty() : holds(out, result), "its value is got");
    vc_assert(n_other == 0 && n_destroyed == 0, "the content is not copied"); vc_cover("reached");
}
}
CONTRACT(get_through_variant) { through_variant(false); }
CONTRACT(set_through_variant) { through_variant(true); }
