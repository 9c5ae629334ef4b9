#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that long statements stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A type's id, name and descriptor stay in one-to-one correspondence",
 """Registering a type under a non-empty name returns the id of the one descriptor that carries that name: a second registration
 of the same name returns the same id and leaves the first descriptor unchanged, a different name gets a different id, and an empty
 name registers nothing and yields the invalid id. Looking a type up by a registered name or by its id always gives back that same
 descriptor (name, size, flags, pointer arity, decayed id as registered; a type registered without a decayed id decays to itself),
 an unregistered name gives an invalid type, and no later registration ever changes or moves an existing descriptor.
 An invalid type answers every query with its neutral value (name "void", size 0, arity 0, invalid ids, no class, not compatible with anything).""",
 ["inputs", "histories"], "every registry state reachable by any sequence of registrations, every name, every descriptor content",
 "Tests register a few dozen fixed C++ types once; they never register a name twice with different data, never an empty name, and sample a handful of lookups.",
 ["src/metatype.cpp", "src/private/metatype_p.h", "include/rtti/metatype.h"],
 [("name index + stable list nodes", "src/metatype.cpp CustomTypes"), ("id = descriptor address", "CustomTypes::getTypeId/getTypeInfo")],
 [("descriptor list, name index", "registered types", "CustomTypes")], ["MetaType(name)", "MetaType(id)", "MetaType::typeId", "registerMetaType"])

prop("C02", "A C++ type's descriptor states exactly that type's size, shape and const-ness",
 """For every C++ type T the runtime descriptor reports the size of the referred-to type, the number of pointer levels, one const bit
 per pointer level (bit 0 = pointee base, highest = outermost), and flags that agree with the language's own traits of T
 (const, pointer, reference kind, array, arithmetic/class/enum/... category and the construct/copy/move/compare/destroy capabilities).
 A type has one id and, unless it is a type without a name of its own, no other type has it.
 The decayed id of T is the id of T with references stripped, the outermost array turned into a pointer to its elements, and const/volatile removed at every level;
 it is the same for all cv/reference variants of one type and differs for different decayed types. Levels and const-ness below an array are those of its elements; volatile and pointer levels beyond fifteen are outside the descriptor's format.""",
 ["programs", "inputs"], "all C++ types (checked per instantiation over a stated, broad family of type shapes)",
 "The tests look at the flags of five types; the number of type shapes (levels of pointers, const positions, references, arrays, capability combinations) is unbounded.",
 ["include/rtti/metatype.h", "include/rtti/misc_traits.h"],
 [("type_flags, pointer_arity, const_bitset, full_decay", "include/rtti/metatype.h, include/rtti/misc_traits.h"), ("meta_type registration", "include/rtti/metatype.h")],
 [], ["metaType<T>()", "MetaType accessors"])

prop("C03", "The compatibility relation is exactly the const-, reference- and arity-safe one",
 """A value described by one type may be viewed as another exactly when C++ would allow it by qualification conversion: never a non-lvalue as a mutable lvalue reference,
 never an lvalue as an rvalue reference, never an array as a larger array, never with a different number of pointer levels (an array counts as one more level when the target is a pointer),
 never dropping const at any level that the target exposes, and never adding const below a level that stays mutable. Top-level const is ignored when the target is not a reference,
 and every pair not excluded by these rules is accepted; invalid types are compatible with nothing.""",
 ["inputs"], "every pair of descriptors (all flags, sizes, const masks, and all pointer arities the 16-bit const mask can represent)",
 "Tests exercise some tens of type pairs; there are 2^16 const masks per arity on each side and all reference/array combinations.",
 ["src/metatype.cpp"], [("MetaType::compatible", "src/metatype.cpp")], [], ["MetaType::compatible", "variant::is/ref/to/data"])

prop("C04", "Converters are keyed by decayed types; first registration wins; convert runs exactly it",
 """At most one converter exists per ordered pair of decayed types: registering a second one is refused and leaves the first in force, unregistering removes exactly that pair's converter, and the answer to
 "is there a converter" is true exactly when one is registered for the decayed pair, whatever const or reference variant of the types is asked about. A conversion calls exactly the converter registered for that pair, once, with the caller's source and destination,
 and returns its verdict; with no converter, or an invalid type on either side, nothing is called or changed and the answer is false.
 A converter whose object ends is unregistered with it; the end of one that was refused or already replaced changes nothing.
 A built-in functor converter reports success exactly when it has constructed the target from the functor's result, and a throwing functor becomes a failed conversion.""",
 ["inputs", "histories"], "every converter-table state, every pair of types, every converter",
 "Tests register five converters and never a duplicate, an unregistration, an invalid type or a throwing converter.",
 ["src/metatype.cpp", "include/rtti/metatype.h"], [("converter table", "src/metatype.cpp MetaTypeFunctionList"), ("ConvertFunctor/ConvertFunctorOk", "include/rtti/metatype.h")],
 [("converter table", "(decayed from, decayed to) -> converter", "MetaTypeFunctionList")], ["registerConverter", "unregisterConverter", "hasConverter", "variant::to"])

prop("C05", "Every item registry keeps unique names, registration order, and consistent lookups",
 """Each container keeps, per category, a list of items with pairwise different names in registration order: adding an item succeeds exactly when it is non-null, not already present and its name is not taken, in which case it becomes the last item and every earlier item keeps its index; otherwise nothing changes.
 Lookup by name returns the item of that name or nothing, lookup by index returns the item registered at that position or nothing when out of range, and the count is the number of successful additions; iteration visits items in registration order and stops when told to.
 Creating a namespace, class, enum, method, property or constructor under a taken name returns the existing item and registers nothing, otherwise it registers exactly one new item with the given name and owner, in the container and category asked for.""",
 ["inputs", "histories"], "every registry state reachable by any sequence of additions, every name and index",
 "Tests build one fixed registry of about 30 items and query it; they never exercise duplicates, out-of-range indices or long histories.",
 ["src/metacontainer.cpp", "src/private/metacontainer_p.h", "src/metanamespace.cpp", "src/metaenum.cpp", "src/metamethod.cpp", "src/metaproperty.cpp", "src/metaconstructor.cpp"],
 [("MetaItemList::add/get/size/for_each", "src/metacontainer.cpp, src/private/metacontainer_p.h"), ("X::create", "src/meta*.cpp")],
 [("item vector + name index", "registration order and name->index", "internal::MetaItemList")], ["getX(name)", "getX(index)", "xCount()", "for_each_*", "X::create"])

prop("C06", "Attributes and enum elements form an ordered name-to-value table",
 """Setting a non-empty name that is new appends it with its value after all earlier entries; setting an existing name replaces that entry's value only, keeping its position, its name and every other entry; an empty name changes nothing.
 Reading by name or index returns exactly the last value set for that entry, and a missing name or out-of-range index returns the empty value (and, for names, the empty string); the count is the number of distinct names set.
 The table owns copies of its names: entries stay retrievable after the strings used to create them are gone, and iteration visits entries in order, each once, until told to stop.""",
 ["inputs", "histories"], "every table state, every name, value and index",
 "Tests set three attributes and one enum's elements once each, from string literals.",
 ["src/private/metaitem_p.h", "src/metaitem.cpp", "src/metaenum.cpp"], [("NamedVariantList", "src/private/metaitem_p.h, src/metaitem.cpp")],
 [("entries + name index", "ordered name->value table", "internal::NamedVariantList")], ["attribute(name|index)", "attributeName", "attributeCount", "element(...)", "for_each_*"])

prop("C07", "Method, constructor and property lookup finds the first match, own members before bases",
 """Looking a method or constructor up by a full signature finds the item registered with exactly that signature, and by a bare name finds the first item, in registration order, whose name or whose name before its parameter list equals it; nothing else ever matches (in particular no mere prefix of a name or of a parameter list).
 For a class, methods and properties not found in the class itself are searched in its base classes in registration order, each base together with its own bases before the next base, and the first hit is returned; a name matching nowhere, or an empty name, gives nothing.
 A function is registered under the signature made of its name and its parameter types in order (a method's instance first), a default, copy or move constructor under its fixed one.""",
 ["inputs", "histories"], "every registry content, every class hierarchy, every lookup string",
 "Tests look up a few names in three fixed hierarchies; prefix names, overloads in odd orders and deep or wide hierarchies are not sampled.",
 ["src/metacontainer.cpp", "src/metaclass.cpp"], [("findMethod", "src/metacontainer.cpp"), ("getMethodInternal/getPropertyInternal", "src/metaclass.cpp")],
 [], ["getMethod(name)", "getConstructor(name)", "getProperty(name)"])

prop("C08", "Inheritance queries and casts follow exactly the registered base-class graph",
 """A class is reported as inheriting from another exactly when they are the same class or a chain of registered direct bases leads from the first to the second; a null class is inherited by nothing.
 A cast to an inherited class returns the pointer obtained by applying the registered direct-base conversions one after another along the first such chain in registration order (the same pointer for the class itself), and a cast to an unrelated or null class returns null; it never skips, repeats or reorders a conversion.
 The pointer-valued and reference-valued checked casts agree with it: null respectively a bad-cast error when the classes are unrelated or unregistered.""",
 ["inputs", "histories"], "every acyclic base-class graph (unbounded depth and width), every pair of classes, every instance pointer",
 "Tests use three fixed hierarchies of at most four levels.",
 ["src/metaclass.cpp", "include/rtti/metaclass.h", "include/rtti/metadefine.h", "src/private/metaclass_p.h"],
 [("inheritedFrom, cast", "src/metaclass.cpp"), ("meta_cast", "include/rtti/metaclass.h"), ("metacast_to_base", "include/rtti/metadefine.h")],
 [], ["MetaClass::inheritedFrom", "meta_cast", "variant typed access"])

prop("C09", "Class registration keeps type-class and base-derived links mutually consistent",
 """A class is registered only for a valid type that has no class yet (otherwise an error is raised and nothing is registered), after which finding the class by that type's id or name gives exactly that class and the class reports exactly that type; registering a name already taken in the owner returns the existing class.
 Declaring a base requires a valid, class-registered base type (otherwise an error is raised and nothing changes) and adds it once, after earlier bases, together with one matching derived-class entry in the base; repeating the declaration changes nothing.
 Base and derived listings by index return the registered classes in order and nothing out of range.""",
 ["inputs", "histories"], "every registry state, every type, every sequence of class and base declarations",
 "Tests declare each class and base once, in the right order; duplicates, invalid types and unregistered bases are not exercised.",
 ["src/metaclass.cpp", "src/private/metaclass_p.h"], [("MetaClass::create/find/addBaseClass/addDerivedClass", "src/metaclass.cpp"), ("BaseClassList/DerivedClassList", "src/private/metaclass_p.h")],
 [("type->class link", "back pointer", "TypeInfo"), ("base list, derived list", "direct relatives", "MetaClassPrivate")], ["MetaClass::find", "baseClass(i)", "derivedClass(i)", "counts"])

prop("C10", "A lazy definition runs exactly once, before the first query, and re-arms on no path",
 """A deferred definition attached to a container runs before the result of the first query that could observe it (item, count, attribute, inheritance, cast, enumeration) is computed, and never a second time, whether it returns or throws; queries made while it runs do not start it again and do not wait for it.
 Attaching a second deferred definition while one is pending raises an error and keeps the first; after a definition has run another one may be attached and will run in turn.
 Forcing definitions runs this container's definition and, when recursive, those of all nested namespaces and classes; a scope-exit action runs exactly once on every exit from its scope unless dismissed.""",
 ["inputs", "histories", "fault_sequences"], "every container state, every query, every outcome (return or throw) of the definition",
 "Tests define everything once and query; they never query re-entrantly, throw from a definition, or attach twice.",
 ["src/metacontainer.cpp", "src/metaitem.cpp", "src/metaclass.cpp", "include/rtti/finally.h"], [("checkDeferredDefine", "src/metacontainer.cpp"), ("setDeferredDefine", "src/metacontainer.cpp"), ("scope_guard", "include/rtti/finally.h")],
 [("pending definition + running flag", "deferred definition", "MetaContainerPrivate")], ["every public query of MetaContainer/MetaClass/MetaItem"])

prop("C11", "A variant constructs, copies, moves and destroys its contained object exactly once each",
 """Over any sequence of operations every object a variant creates is created by the proper copy or move construction of its type in storage of sufficient size, is destroyed exactly once, is never used before construction or after destruction, and its storage is released exactly once; arrays do so for every element.
 An object passed by reference wrapper is only referred to, never copied or destroyed.
 If constructing the contained object throws, no object is left half-owned and everything already acquired is released.""",
 ["inputs", "histories", "programs", "fault_sequences"], "every operation sequence, every contained type (per-instantiation over a stated family), every throw point",
 "Tests count constructions for four types along a few fixed sequences, and never let a constructor throw.",
 ["include/rtti/detail/variant_impl.h", "src/variant.cpp", "include/rtti/metatype.h"], [("per-type function tables", "include/rtti/detail/variant_impl.h"), ("type manager", "include/rtti/metatype.h type_function_table_impl"), ("copy/move/swap/clear", "src/variant.cpp")],
 [("storage + table pointer", "contained object", "variant")], ["variant construction, assignment, swap, clear, destruction"])

prop("C12", "Variants have value semantics: copy, move, assign, swap and clear do what they say",
 """A copy holds an equal object of the same type and leaves its source unchanged; a move (construction or assignment) gives the target the source's object and type and leaves the source empty; assignment from itself changes nothing; swap exchanges contents and types in all four combinations of empty and non-empty; clear makes the variant empty.
 A variant is empty exactly when it holds no object, an empty variant reports the invalid type, and a variant built from a value reports that value's type and holds exactly that value.
 A copy assignment whose copy throws leaves the target as it was.""",
 ["inputs", "histories", "fault_sequences"], "every variant state (any contained type), every aliasing, every throw point",
 "Tests cover a few types and none of the throwing, self-assignment-of-empty or mixed empty/non-empty combinations systematically.",
 ["src/variant.cpp", "include/rtti/detail/variant_impl.h", "include/rtti/variant.h"], [("swap/operator=/constructors/clear", "src/variant.cpp")],
 [], ["variant special members", "swap", "clear", "empty", "typeId"])

prop("C13", "Typed access to a variant is type-safe and const-safe",
 """Asking a variant for a reference, pointer or value of a type succeeds exactly when its content can be viewed as that type by the compatibility rules and has the same decayed type or is a registered class derived from it (or, for values, a converter for it succeeds); the result then designates the contained object itself, or its base sub-object, never unrelated memory.
 A pointer to a derived class is viewed as a reference to a pointer to base only when the variant itself keeps the pointer and both pointers are the same address (elsewhere there is no such pointer object to refer to); a null pointer converts to a null pointer to base.
 Otherwise a cast (or conversion) error is raised, the pointer form returns null and the test form answers false, and the variant is unchanged; an empty variant never grants access.
 A const variant never gives mutable access to its content.""",
 ["inputs", "histories", "programs"], "every content and requested type, any registered hierarchy, const and non-const access (checked per instantiation over a stated family)",
 "Tests sample about a hundred (content, requested type) pairs.",
 ["include/rtti/variant.h", "include/rtti/detail/variant_impl.h"], [("metafunc_is/metafunc_cast/metafunc_to", "include/rtti/variant.h"), ("class_info_get", "include/rtti/detail/variant_impl.h")],
 [], ["is<T>", "ref<T>", "cref<T>", "rref<T>", "data<T>", "to<T>", "canConvert<T>"])

prop("C14", "Variant equality compares contained values of the same type and nothing else",
 """Two empty variants are equal, an empty and a non-empty one are not, variants whose contents have different decayed types are not, arrays of different sizes are not, and two variants holding the same type compare exactly as their contents compare by that type's own equality, element by element for arrays of the same length (an object always equals itself); a type without equality raises an error.
 The comparison reads only the two contained objects and changes neither; contents held directly and through a reference wrapper compare alike.""",
 ["inputs", "programs"], "every pair of variants (any contained types and values, direct or by reference)",
 "Tests compare a handful of scalars, strings and one array.",
 ["src/variant.cpp", "include/rtti/detail/variant_impl.h", "include/rtti/metatype.h"], [("operator==", "src/variant.cpp"), ("compare_eq", "include/rtti/metatype.h")],
 [], ["variant::operator==", "operator!=", "eq", "neq"])

prop("C15", "Arguments reach a callee by exactly the value category its parameter demands",
 """An argument bound to an lvalue parameter refers to the caller's own object, is refused when the caller passed a temporary or a const object for a mutable reference, and is refused when the caller passed an lvalue for an rvalue reference; a by-value or const-reference parameter receives the caller's value unchanged.
 When the types differ the argument is delivered through a registered base-class or converter conversion or an error is raised, and an absent argument is always an error; an argument that is itself a variant delivers that variant's content, with the category and constness of the variant expression (a const variant gives no mutable access).
An argument passed as std::ref or std::cref counts as the caller's lvalue.""",
 ["inputs", "programs"], "every argument value, value category and parameter type (per instantiation over a stated family)",
 "Tests pass a few ints and strings; the category/const/indirection product is not covered.",
 ["include/rtti/detail/argument_impl.h", "include/rtti/variant.h"], [("argument::value", "include/rtti/detail/argument_impl.h")],
 [], ["invoke(...)", "set(...)"])

prop("C16", "Invocation calls exactly the registered function with exactly the given arguments",
 """Invoking a method or constructor calls the registered function exactly once with the given arguments in order, on exactly the given instance, and returns its result (a reference result designates the same object; a void function gives an empty result); with a number of arguments different from the declared one nothing is called and an error is raised.
 A method is never called on a const instance unless it is a const method, and never on an instance of an unrelated class; the reported return type, parameter types, static-ness and signature are those of the registered function.
 Without an instance (an empty variant, a null pointer, something that is no object of a class) an error is raised and nothing is called; the list of arguments ends at the first absent one. Any exception of the callee reaches the caller.""",
 ["inputs", "programs"], "every argument list, instance and method kind (free, member, const member, constructor; per instantiation over a stated family)",
 "Tests invoke about twenty methods with right argument counts.",
 ["include/rtti/metadefine.h", "include/rtti/detail/metamethod_impl.h"], [("pack_arguments, method_invoker, ConstructorInvoker", "include/rtti/metadefine.h")],
 [], ["MetaMethod::invoke", "MetaConstructor::invoke", "variant::invoke"])

prop("C17", "Property access reads and writes exactly the designated object",
 """Getting a property yields the current value of exactly the designated variable, field of the given instance, or getter result; setting it changes exactly that variable or field to the given value (or calls exactly the setter once with it) and nothing else.
 Writing a read-only property, using a static property with an instance or a field property without one, or writing a field through a const instance raises an error and changes nothing; so does using a null pointer or something that is no object of a class as the instance.""",
 ["inputs", "programs"], "every property kind, instance and value (per instantiation over a stated family)",
 "Tests touch some ten properties with matching use.",
 ["include/rtti/metadefine.h", "include/rtti/variant.h", "src/variant.cpp"], [("property_invoker, PropertyInvokerEx", "include/rtti/metadefine.h"), ("MetaProperty::get/set", "include/rtti/variant.h")],
 [], ["MetaProperty::get/set", "variant::get_property/set_property"])

prop("C18", "Shared registry state is only touched under its lock, and locks are always released",
 """Every read of a registry's shared item, attribute, base/derived-class, type or converter table happens while its lock is held at least shared, every modification while it is held exclusively, and check-then-insert is one critical section.
 Every operation releases each lock it took exactly once on every return and exception path, never releases one it does not hold, and never acquires one it already holds.""",
 ["schedules", "inputs", "fault_sequences"], "every interleaving (by lock discipline), every operation of the registries, every return and exception path",
 "Tests are single-threaded; a missing or weaker lock is invisible to them.",
 ["src/metacontainer.cpp", "src/metaitem.cpp", "src/metatype.cpp", "src/private/metacontainer_p.h", "src/private/metaitem_p.h", "src/private/metaclass_p.h"],
 [("shared/unique locks around every table access", "the files above")], [("reader-writer lock per table", "guard", "the table classes")], ["all registry operations"])

prop("C19", "Item names, owners and qualified names describe the path from the global namespace",
 """Every item keeps the name and owner it was created with; its qualified name is its owner's qualified name, "::" and its own name, the global namespace having the empty qualified name and no owner, and asking again gives the same answer.
 Only the global namespace reports itself global, and each item reports the category it was created as.""",
 ["inputs", "histories"], "every nesting depth and every name",
 "Tests look at a few qualified names of depth at most three.",
 ["src/metaitem.cpp", "src/metanamespace.cpp", "src/private/metaitem_p.h"], [("qualifiedName/makeQualifiedName", "src/metaitem.cpp")],
 [], ["name", "owner", "qualifiedName", "isGlobal", "category"])

prop("C20", "Type-erased construction, destruction and comparison act on exactly one object of the type",
 """Constructing through a type descriptor obtains storage of the type's size and default-, copy- or move-constructs exactly one object there (every element once, in order, for arrays) from exactly the given source, and destructing destroys it and releases its storage exactly once; null sources, targets and instances are ignored.
 Operations the type does not support raise an error instead of acting, equality through the descriptor is the type's own equality (reflexive on the same object, false against null), and an invalid type constructs nothing.
 If construction throws, the storage is released.""",
 ["inputs", "programs", "fault_sequences"], "every type (per instantiation over a stated family), every source, null combinations, every throw point",
 "Tests never call construct/destruct on arrays of class type or with throwing constructors.",
 ["include/rtti/metatype.h", "src/metatype.cpp"], [("type_function_table_impl", "include/rtti/metatype.h"), ("MetaType::construct/destruct", "src/metatype.cpp")],
 [], ["MetaType::construct", "MetaType::destruct"])

prop("C21", "Printed type flags name exactly the flags that are set",
 """Printing a set of type flags writes the name of every set flag exactly once, separated by '|', and nothing else; the empty set prints as None. It reads nothing outside its name table.""",
 ["inputs"], "all 2^24 flag combinations", "No test prints flags.",
 ["src/metatype.cpp", "include/rtti/signature.h"], [("operator<<(ostream, TypeFlags)", "src/metatype.cpp")], [], ["operator<<"])

prop("C22", "The definition builder registers each definition in the scope it is written in",
 """A chain of definitions starts in the global namespace. Opening a namespace or a class defines it, under the name given, in the scope the chain is in, and the chain goes on inside it, however deep; closing it goes back to the scope it was opened in.
 Methods, properties, enums and constructors are defined in the scope they are written in, with the name, function, variable or type given, and leave the chain where it is; base classes are added to the class being defined, in order, each with the cast to its part.
 An attribute goes to the scope opened or returned to last, or to the enum defined in it last; an element to the enum defined last.
 Opening a class gives it exactly those of the default, copy and move constructors that its type has; a constructor registers a conversion exactly when it is a converting (non-explicit, one argument, of another type) constructor.
 Nothing else is defined on the way.""",
 ["inputs", "histories"], "every step of a chain from any scope, with any number of enclosing scopes, any names and any current item",
 "Tests write a few fixed chains; nothing closes a scope after an enum, nests more than a few scopes, or looks at where attributes went.",
 ["include/rtti/metadefine.h", "src/metadefine.cpp"], [("meta_define", "include/rtti/metadefine.h"), ("global_define", "src/metadefine.cpp"), ("is_converting_constructor", "include/rtti/misc_traits.h")],
 [], ["meta_define::_namespace", "meta_define::_class", "meta_define::_end"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
