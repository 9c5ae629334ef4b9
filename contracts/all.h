// The whole library in one translation unit, as it stands in /repo's working tree.
#pragma once
#include "vc.h"
#include "metatype.cpp"
#include "variant.cpp"
#include "metaitem.cpp"
#include "metacontainer.cpp"
#include "metanamespace.cpp"
#include "metaclass.cpp"
#include "metaconstructor.cpp"
#include "metaenum.cpp"
#include "metamethod.cpp"
#include "metaproperty.cpp"
#include "metadefine.cpp"
using namespace rtti;
