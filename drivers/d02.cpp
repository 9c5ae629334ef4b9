// C02: every type's descriptor against the language's own traits; one id per type, another for any other type.
#include "inv.h"
#include <map>
#include <memory>
#include <mutex>
#include "../contracts/c02_spec.h"
using namespace rtti;
namespace s {
enum Plain { zero }; enum class Scoped: unsigned char { one }; enum class Wide: long { one };
union Either { int a; double b; };
struct Empty {}; struct Pod { int a; char b; }; struct Fin final { int x; };
struct Abstract { virtual ~Abstract() = default; virtual void f() = 0; };
struct Poly { virtual ~Poly() = default; long x; };
struct Guarded { Guarded(Guarded const&) = delete; Guarded& operator=(Guarded const&) = delete; private: ~Guarded(); };
struct Pinned { Pinned() = default; Pinned(Pinned const&) = delete; int x; };
struct Compared { int x; bool operator==(Compared const &o) const { return x == o.x; } };
struct NoEq { int x[7]; }; struct NoDefault { explicit NoDefault(int) {} };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
struct alignas(64) Aligned { char c; };
template<class... T> struct Template {}; template<int N> struct Value { char c[N]; };
}
namespace t { struct Pod { int a; char b; }; enum class Scoped: unsigned char { one }; template<class... T> struct Template {}; }
namespace s { namespace t { struct Pod { int a; char b; }; } }
template<class T> struct Tag { static inline char tag = 0; };
inline std::map<MetaType_ID::type, void const*> owner; inline std::map<void const*, MetaType_ID::type> id_of;
// kept out of the templates: they are instantiated for a thousand types
struct Claim { std::string_view n; __attribute__((noinline)) void operator()(bool ok, char const *what) const { EXPECT(ok, n, ": wrong ", what); } };
__attribute__((noinline)) static void identity(std::string_view n, MetaType m, void const *tag) {
    auto id = m.typeId().value();
    EXPECT(MetaType{n}.typeId() == m.typeId() && MetaType{m.typeId()}.typeName() == n, n, " is not found by its name or id");
    EXPECT(owner.emplace(id, tag).first->second == tag, n, " has the id of another type");
    EXPECT(id_of.emplace(tag, id).first->second == id, n, " has two ids");
    EXPECT(m.typeName() == n, n, " is named ", m.typeName());
}
__attribute__((noinline)) static void storage(std::string_view n, MetaType m, std::size_t align) {
    auto p = m.allocate(); EXPECT(p && reinterpret_cast<std::uintptr_t>(p) % align == 0, n, " is given misaligned storage"); m.deallocate(p);
}
template<class T> void one() {
    auto n = type_name<T>(); auto m = metaType<T>();
    c02::describes<T>(Claim{n}); identity(n, m, &Tag<T>::tag);
    if constexpr(!std::is_reference_v<T> && !std::is_function_v<T> && std::is_destructible_v<std::remove_all_extents_t<T>>) storage(n, m, alignof(T));
}
template<class... T> void all(c02::List<T...>) { (one<T>(), ...); }
template<class... T> void bases() { (all(c02::Plainly<T>{}), ...); (all(c02::Arrays<T>{}), ...); }
template<class... T> void pointers() { (all(c02::Pointers<T>{}), ...); }
struct Holder { int f(int); };
using Part = void(*)(); Part &the_part(int i);
#if PART == 0
Part &the_part(int i) { static Part p[PARTS]; return p[i]; }
static void mine() {
    bases<bool, char, int, unsigned long, wchar_t, float, long double>();
    pointers<signed char, unsigned char, short, unsigned short, unsigned, long, long long, unsigned long long, char16_t, char32_t, double>();
}
int main(int argc, char **argv)
{
    drv::init(argc, argv);
    // once alone, once more when everything is registered
    for (int round = 0; round < 2; ++round) for (int i = 0; i < PARTS; ++i) the_part(i)();
    EXPECT(!metaType<void>().valid() && metaType<void>().typeSize() == 0 && metaType<void>().typeFlags() == TypeFlags::Void, "void has a descriptor");
    // a known limit: types without a name of their own share one
    auto a = [](int x) { return x; }; auto b = [k = 1.5](int x) { return x + k; };
    MetaType_ID i, j; { struct Local { int a; }; i = metaTypeId<Local>(); } { struct Local { double a[3]; }; j = metaTypeId<Local>(); }
    if (metaTypeId<decltype(a)>() == metaTypeId<decltype(b)>() || i == j) drv::known("KF-C02-1", "two lambdas, or two equally named local types, of one function get the same id and descriptor");
    return drv::finish();
}
#elif PART == 1
static void mine() { bases<s::Plain, s::Scoped, s::Either, s::Empty, s::Poly, s::Compared, int>(); pointers<s::Wide, s::Pod, s::Fin, t::Pod, t::Scoped, s::t::Pod>(); }
#elif PART == 2
static void mine() { bases<s::NoEq, s::NoDefault, s::MoveOnly, s::Aligned, std::string, std::unique_ptr<int>>(); pointers<s::Pod, int>(); }
#else
static void mine() {
    pointers<std::string_view, std::vector<int>, std::vector<long>, std::shared_ptr<int>, std::map<int, std::string>>();
    pointers<s::Template<>, s::Template<int>, s::Template<int, int>, s::Template<int const>, s::Template<s::Template<int>>, t::Template<int>, s::Value<2>, s::Value<3>, s::Template<int(*)(int)>, s::Template<int&>>();
    pointers<s::Abstract, s::Guarded, s::Pinned, std::mutex>();
    all(c02::List<void*, void* const, void const*, void const* const, void**, void *const*, void const**, void*&, void *const&>{});
    all(c02::List<void(*)(), void(*const)(), void(*)() noexcept, int(*)(int), int(*)(long), int(*&)(int), int(**)(int), int(*const&)(int const&)>{});
    all(c02::List<int Holder::*, int Holder::*const, int const Holder::*, int s::Pod::*, int Holder::*&, int(Holder::*)(int), int(Holder::*)(int) const, int(Holder::*const)(int), int Holder::**>{});
    all(c02::List<int*****, int const*const*const*const*, int[2][3][4], int const[2][3][4], int*(*(*)[2])[3], int const*const(*const(*)[2])[3], std::nullptr_t, std::nullptr_t*>{});
}
#endif
static bool const given = (the_part(PART) = mine, true);
