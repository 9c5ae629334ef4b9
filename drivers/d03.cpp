// C03: MetaType::compatible against the relation of c03_spec.h and, for pointer types, against the language's own conversions.
#include "drv.h"
#include <rtti/metatype.h>
#include <rtti/metadefine.h>
#include <rtti/variant.h>
#include "c03_spec.h"
#include <array>
using namespace rtti;
struct D { std::size_t size; std::uint16_t arity, const_mask; TypeFlags flags; };

static MetaType make(D const &d) {
    static int n = 0;
    static std::vector<std::string*> keep;
    auto s = new std::string("synthetic " + std::to_string(n++)); keep.push_back(s);
    return MetaType{MetaType::registerMetaType(*s, d.size, MetaType_ID{}, d.arity, d.const_mask, d.flags, nullptr)};
}
static std::string str(D const &d) { return drv::cat("{size ", d.size, ", arity ", d.arity, ", const mask ", d.const_mask, ", flags ", std::uint32_t(d.flags), "}"); }

template<class F, class T> void pair() {
    bool want = std::is_convertible_v<F, T>;
    // a temporary of another type may be bound to a reference to const: same answer, by conversion of the value
    auto f = MetaType{metaTypeId<F>()}, t = MetaType{metaTypeId<T>()};
    EXPECT(MetaType::compatible(f, t) == want, "compatible(", std::string(type_name<F>()), ", ", std::string(type_name<T>()), ") is ", !want, " but the conversion ", want ? "exists" : "does not exist");
}
template<class...> struct L {};
template<class F, class... T> void row(L<T...>) { (pair<F, T>(), ...); }
template<class... F, class Ts> void table(L<F...>, Ts ts) { (row<F>(ts), ...); }
using Ptr1 = L<int*, int const*, int* const, int const* const, int*&, int const*&, int* const&, int const* const&>;
using Ptr2 = L<int**, int const**, int* const*, int const* const*, int**&, int const**&, int* const*&, int const* const*&, int** const&, int const** const&, int* const* const&, int const* const* const&>;
using Ptr3 = L<int***, int const***, int* const**, int** const*, int const* const**, int const** const*, int* const* const*, int const* const* const*>;
using Val = L<int, int const, int&, int const&>;

int main(int argc, char **argv) {
    drv::init(argc, argv);
    table(Ptr1{}, Ptr1{}); table(Ptr2{}, Ptr2{}); table(Ptr3{}, Ptr3{}); table(Val{}, Val{}); table(Ptr1{}, Ptr2{}); table(Ptr2{}, Ptr1{}); table(Val{}, Ptr1{}); table(Ptr1{}, Val{});
    pair<int[3], int const*>(); pair<int[3], int*>(); pair<int const[3], int*>();
    EXPECT(!MetaType::compatible(MetaType{metaTypeId<int[3]>()}, MetaType{metaTypeId<int[4]>()}), "array of 3 accepted as array of 4");
    EXPECT(MetaType::compatible(MetaType{metaTypeId<int[4]>()}, MetaType{metaTypeId<int[4]>()}), "array of 4 refused as array of 4");
    MetaType none;
    EXPECT(!MetaType::compatible(none, MetaType{metaTypeId<int>()}), "invalid source accepted");
    EXPECT(!MetaType::compatible(MetaType{metaTypeId<int>()}, none), "invalid target accepted");
    EXPECT(!MetaType::compatible(none, none), "invalid types accepted");
    constexpr TypeFlags relevant[] = {TypeFlags::Const, TypeFlags::Pointer, TypeFlags::LvalueReference, TypeFlags::RvalueReference, TypeFlags::Array, TypeFlags::Class, TypeFlags::MemberPointer, TypeFlags::Void};
    std::vector<D> ds; std::vector<MetaType> ts;
    while (drv::time_left() && ds.size() < 20000) {
        // a batch of descriptors that are close to each other, all pairs
        std::size_t b = ds.size();
        D base{1 + drv::rng.below(64), std::uint16_t(drv::rng.below(4) ? drv::rng.below(5) : drv::rng.below(15)), std::uint16_t(drv::rng.next()), TypeFlags::None};
        for (int i = 0; i < 40; ++i) {
            D d = base;
            if (drv::rng.below(4) == 0 && d.arity) --d.arity;
            if (drv::rng.below(4) == 0) d.size += drv::rng.below(3);
            for (int k = 0; k < 3; ++k) if (drv::rng.flip()) d.const_mask ^= 1u << drv::rng.below(d.arity + 2);
            if (drv::rng.below(6) == 0) d.const_mask = drv::rng.next();
            std::uint32_t f = 0;
            for (auto x : relevant) if (drv::rng.below(3) == 0) f |= std::uint32_t(x);
            d.flags = TypeFlags(f);
            ds.push_back(d); ts.push_back(make(d));
        }
        for (std::size_t i = b; i < ds.size(); ++i) for (std::size_t j = b; j < ds.size(); ++j)
            EXPECT(MetaType::compatible(ts[i], ts[j]) == spec(&ds[i], &ds[j]), "compatible(", str(ds[i]), ", ", str(ds[j]), ") is ", !spec(&ds[i], &ds[j]), ", expected ", spec(&ds[i], &ds[j]));
    }
    return drv::finish();
}
