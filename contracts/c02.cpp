// C02: a C++ type's descriptor states exactly that type's size, shape and const-ness.
#include "life.h"
#include "c02_spec.h"
using namespace vc;
namespace {
enum Plain { zero }; enum class Scoped: unsigned char { one };
union Either { int a; double b; };
struct Abstract { virtual ~Abstract() = default; virtual void f() = 0; };
struct Poly { virtual ~Poly() = default; u64 x; };
struct Guarded { Guarded(Guarded const&) = delete; Guarded& operator=(Guarded const&) = delete; private: ~Guarded(); };
struct Compared { int x; bool operator==(Compared const &o) const { return x == o.x; } };
struct Empty {};
template<class T> MetaType_ID ids_of() { return metaTypeId<T>(); }
struct Family {
    u64 id[128]; u64 n = 0;
    template<class T> void one() {
        c02::describes<T>([](bool ok, char const *what) { (void)what; vc_assert(ok, "the descriptor states the type's size, shape, const-ness and flags"); });
        auto t = reinterpret_cast<TypeInfo const*>(metaTypeId<T>().value());
        vc_assert(t->const_mask == c02::Shape<std::remove_reference_t<T>>::consts, "one const bit for each pointer level, the base lowest");
        if constexpr(!std::is_function_v<std::remove_pointer_t<std::remove_reference_t<T>>> || !std::is_same_v<T, void>) vc_assert(t->manager != nullptr, "its operations are known");
        for (u64 i = 0; i < n; ++i) vc_assert(id[i] != metaTypeId<T>().value(), "different types have different ids");
        id[n++] = metaTypeId<T>().value(); vc_assert(metaTypeId<T>().value() == id[n - 1] && MetaType{type_name<T>()}.typeId().value() == id[n - 1], "a type always has the same id");
    }
    template<class... T> void all(c02::List<T...>) { (one<T>(), ...); vc_cover("reached"); }
};
}
#define FAMILY(name, shapes, ...) CONTRACT(name) { auto f = static_cast<Family*>(vc_alloc(sizeof(Family))); f->n = 0; f->all(c02::shapes<__VA_ARGS__>{}); }
#define BASE(name, ...) FAMILY(name##_plain, Plainly, __VA_ARGS__) FAMILY(name##_arrays, Arrays, __VA_ARGS__)
BASE(word, u64)
BASE(byte, unsigned char)
BASE(boolean, bool)
BASE(real, double)
BASE(enumeration, Plain)
BASE(scoped, Scoped)
BASE(either, Either)
BASE(small, Small)
BASE(bigx, BigX)
BASE(move_only, MoveOnly)
BASE(copy_only, CopyOnly)
BASE(no_default, NoDefault)
BASE(no_eq, NoEq)
BASE(poly, Poly)
BASE(compared, Compared)
BASE(empty, Empty)
BASE(aligned, Aligned)
FAMILY(pinned_pointers, Pointers, Pinned)
FAMILY(abstract_pointers, Pointers, Abstract)
FAMILY(guarded_pointers, Pointers, Guarded)
CONTRACT(void_pointers) { auto f = static_cast<Family*>(vc_alloc(sizeof(Family))); f->n = 0; f->all(c02::List<void*, void* const, void const*, void const* const, void**, void *const*, void const **, void*&, void *const&>{}); vc_assert(!metaType<void>().valid() && metaTypeId<void>() == MetaType_ID{} && metaType<void>().typeSize() == 0 && metaType<void>().typeFlags() == TypeFlags::Void, "void has no descriptor"); }
CONTRACT(functions) { auto f = static_cast<Family*>(vc_alloc(sizeof(Family))); f->n = 0; f->all(c02::List<void(*)(), void(*const)(), u64(*)(u64), u64(*&)(u64), void(**)(), u64(*const &)(u64 const&)>{}); }
CONTRACT(members) { auto f = static_cast<Family*>(vc_alloc(sizeof(Family))); f->n = 0; f->all(c02::List<u64 Poly::*, u64 Poly::*const, u64 const Poly::*, u64 Poly::*&, void(Poly::*)(), void(Poly::*)() const, u64 Poly::**>{}); }
CONTRACT(deep) { using P = u64 const *const *const *const *const *const *const *const *const *const *const *const *const *const *const; auto f = static_cast<Family*>(vc_alloc(sizeof(Family))); f->n = 0; f->all(c02::List<P, P*, P const&>{}); }
