// invokers with a given signature, and fresh type ids
#pragma once
#include "drv.h"
#include <rtti/metatype.h>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include <rtti/metanamespace.h>
#include <rtti/metaclass.h>
#include <rtti/metaenum.h>
#include <rtti/metaconstructor.h>
using namespace rtti;
struct Inv: IMethodInvoker {
    bool isStatic() const override { return true; }
    MetaType_ID returnTypeId() const override { return {}; }
    std::vector<MetaType_ID> parametersTypeId() const override { return {}; }
    std::string sig; explicit Inv(std::string s): sig{std::move(s)} {}
    std::string signature(std::string_view n) const override { return std::string{n} + sig; }
    variant invoke_static(argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
    variant invoke_method(variant const&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
    variant invoke_method(variant&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
};
struct CInv: IConstructorInvoker {
    bool isStatic() const override { return true; }
    MetaType_ID returnTypeId() const override { return {}; }
    std::vector<MetaType_ID> parametersTypeId() const override { return {}; }
    std::string sig; explicit CInv(std::string s): sig{std::move(s)} {}
    std::string signature(std::string_view n) const override { return std::string{n} + sig; }
    variant invoke_static(argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
    variant invoke_method(variant const&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
    variant invoke_method(variant&, argument, argument, argument, argument, argument, argument, argument, argument, argument, argument) const override { return {}; }
};
struct PInv: IPropertyInvoker {
    bool isStatic() const override { return true; }
    MetaType_ID typeId() const override { return {}; }
    bool readOnly() const override { return false; }
    variant get_static() const override { return {}; }
    void set_static(argument) const override {}
    variant get_field(variant const&) const override { return {}; }
    void set_field(variant&, argument) const override {}
    void set_field(variant const&, argument) const override {}
};
inline MetaType_ID fresh_type() {
    static int k = 0; static std::vector<std::string*> keep;
    keep.push_back(new std::string("synthetic type " + std::to_string(k++)));
    return MetaType_ID{MetaType::registerMetaType(*keep.back(), 8, MetaType_ID{}, 0, 0, rtti::internal::type_flags<int>::value, nullptr)};
}
inline MetaNamespace* fresh_namespace() {
    static int k = 0;
    return MetaNamespace::create("round" + std::to_string(k++), const_cast<MetaNamespace&>(*MetaNamespace::global()));
}
