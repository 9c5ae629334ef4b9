// Abstract variants: a variant is a cell holding a value number (0: empty).  Stands for the contracts of variant's copy, move,
// assignment and destruction, which C11/C12 prove of the real members; used where only "which value is where" matters.
#pragma once
#include "all.h"
namespace vc {
enum: u64 { CELL = 77 };
inline u64 cell(variant const &v) { return vc_gld(CELL, &v); }
inline void cell_set(variant const &v, u64 x) { vc_gst(CELL, &v, x); }
namespace cells {
inline void ctor(variant *t) { cell_set(*t, 0); }
inline void copy(variant *t, variant const &o) { cell_set(*t, cell(o)); }
inline void move(variant *t, variant &o) { u64 x = cell(o); cell_set(o, 0); cell_set(*t, x); }
inline variant* copy_assign(variant *t, variant const &o) { cell_set(*t, cell(o)); return t; }
inline variant* move_assign(variant *t, variant &o) { if (t != &o) { u64 x = cell(o); cell_set(o, 0); cell_set(*t, x); } return t; }
inline void dtor(variant*) {}
inline bool empty(variant const *t) { return cell(*t) == 0; }
}
inline void abstract_variants() {
    vc_replace("rtti::variant::variant()", (void*)&cells::ctor);
    vc_replace("rtti::variant::variant(rtti::variant const&)", (void*)&cells::copy);
    vc_replace("rtti::variant::variant(rtti::variant&&)", (void*)&cells::move);
    vc_replace("rtti::variant::operator=(rtti::variant const&)", (void*)&cells::copy_assign);
    vc_replace("rtti::variant::operator=(rtti::variant&&)", (void*)&cells::move_assign);
    vc_replace("rtti::variant::~variant()", (void*)&cells::dtor);
    vc_replace("rtti::variant::empty() const", (void*)&cells::empty);
}
}
