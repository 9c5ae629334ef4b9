// C21: printed flags against the enumerators' names.
#include "inv.h"
#include <algorithm>
struct F { TypeFlags f; const char *n; };
static const F all[] = {{TypeFlags::Const, "Const"}, {TypeFlags::Pointer, "Pointer"}, {TypeFlags::MemberPointer, "MemberPointer"}, {TypeFlags::LvalueReference, "LvalueReference"},
    {TypeFlags::RvalueReference, "RvalueReference"}, {TypeFlags::Array, "Array"}, {TypeFlags::Void, "Void"}, {TypeFlags::Integral, "Integral"}, {TypeFlags::FloatPoint, "FloatPoint"},
    {TypeFlags::Enum, "Enum"}, {TypeFlags::Function, "Function"}, {TypeFlags::Union, "Union"}, {TypeFlags::Class, "Class"}, {TypeFlags::StandardLayout, "StandardLayout"},
    {TypeFlags::Trivial, "Trivial"}, {TypeFlags::Abstract, "Abstract"}, {TypeFlags::Polymorphic, "Polymorphic"}, {TypeFlags::DefaultConstructible, "DefaultConstructible"},
    {TypeFlags::CopyConstructible, "CopyConstructible"}, {TypeFlags::CopyAssignable, "CopyAssignable"}, {TypeFlags::MoveConstructible, "MoveConstructible"},
    {TypeFlags::MoveAssignable, "MoveAssignable"}, {TypeFlags::Destructible, "Destructible"}, {TypeFlags::EQ_Comparable, "EQ_Comparable"}};
static void check(std::uint32_t mask) {
    TypeFlags v = TypeFlags::None; std::vector<std::string> want;
    for (int i = 0; i < 24; ++i) if (mask >> i & 1) { v = v | all[i].f; want.push_back(all[i].n); }
    if (want.empty()) want.push_back("None");
    std::ostringstream o; o << v;
    std::vector<std::string> got; std::string s = o.str(), t; for (char c : s) if (c == '|') { got.push_back(t); t.clear(); } else t += c; got.push_back(t);
    std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
    EXPECT(got == want, "flags ", std::uint32_t(v), " print as '", s, "'");
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    check(0); check(0xffffff);
    for (int i = 0; i < 24; ++i) for (int j = 0; j < 24; ++j) { check(1u << i | 1u << j); check(0xffffff & ~(1u << i | 1u << j)); }
    while (drv::time_left() && drv::fails < 10) check(std::uint32_t(drv::rng.next() >> 20) & 0xffffff);
    return drv::finish();
}
