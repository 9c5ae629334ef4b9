// C21: printed type flags name exactly the flags that are set.
#include "all.h"
#include "vc.h"
using namespace vc;
static std::uint32_t value; static std::ostream *os; static u64 n0;
static u64 sep() { return sid(std::string_view{"|"}); }
// each name is written as often as its bit is set: once or not at all
static u64 before[26];
static constexpr std::string_view names[26] = {"None", "Const", "Pointer", "MemberPointer", "LvalueReference", "RvalueReference", "Array", "Void", "Integral", "FloatPoint", "Enum",
    "Function", "Union", "Class", "StandardLayout", "Trivial", "Abstract", "Polymorphic", "DefaultConstructible", "CopyConstructible", "CopyAssignable", "MoveConstructible",
    "MoveAssignable", "Destructible", "EQ_Comparable", "|"};
static constexpr TypeFlags flags[25] = {TypeFlags::None, TypeFlags::Const, TypeFlags::Pointer, TypeFlags::MemberPointer, TypeFlags::LvalueReference, TypeFlags::RvalueReference, TypeFlags::Array,
    TypeFlags::Void, TypeFlags::Integral, TypeFlags::FloatPoint, TypeFlags::Enum, TypeFlags::Function, TypeFlags::Union, TypeFlags::Class, TypeFlags::StandardLayout, TypeFlags::Trivial,
    TypeFlags::Abstract, TypeFlags::Polymorphic, TypeFlags::DefaultConstructible, TypeFlags::CopyConstructible, TypeFlags::CopyAssignable, TypeFlags::MoveConstructible,
    TypeFlags::MoveAssignable, TypeFlags::Destructible, TypeFlags::EQ_Comparable};
// the flags in the order in which the first printed one is looked for; one contract per first flag, and one for the empty set
// (any other order of printing is accepted as well: the split only keeps the sums small)
static constexpr int order[24] = {4, 5, 2, 3, 1, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24};
[[maybe_unused]] static bool first_is(std::uint32_t v, int k)
{
    for (int i = 0; i < k; ++i) if (v & std::uint32_t(flags[order[i]])) return false;
    return k == 24 || (v & std::uint32_t(flags[order[k]])) != 0;
}
template<int K> void print_flags()
{
    vc_merge(2);
    value = vc_any32(); vc_assume(value < (1u << 24));
    for (int i = 0; i < K; ++i) vc_assume((value & std::uint32_t(flags[order[i]])) == 0);
    if constexpr (K < 24) vc_assume((value & std::uint32_t(flags[order[K]])) != 0);
    else vc_assume(value == 0);
    os = static_cast<std::ostream*>(vc_any_obj());
    n0 = vc_out_n(os);
    for (int i = 0; i < 26; ++i) before[i] = vc_out_count(os, sid(names[i]));
    auto &r = (*os << TypeFlags(value));
    vc_assert(&r == os, "the stream is returned");
    u64 set = 0;
    for (int i = 0; i < 25; ++i) {
        u64 want = i ? u64((value & std::uint32_t(flags[i])) != 0) : u64(value == 0);
        // (known already: the solver need not find it in the sum)
        for (int k = 0; k < 24; ++k) if (order[k] == i && k <= K) { vc_assert(want == u64(k == K), "the first flag"); want = u64(k == K); }
        if (i == 0) want = u64(K == 24);
        set += want;
        vc_assert(vc_out_count(os, sid(names[i])) == before[i] + want, "each set flag is named exactly once and no other");
    }
    vc_assert(vc_out_count(os, sep()) == before[25] + set - 1, "one separator fewer than names");
    vc_assert(vc_out_n(os) == n0 + 2 * set - 1, "nothing else is written");
    u64 i = vc_any_size(); vc_assume(i < 2 * set - 1);
    vc_assert((vc_out_at(os, n0 + i) == sep()) == ((i & 1) == 1), "names and separators alternate");
    vc_cover("reached");
}
#define FIRST(k) CONTRACT(print_flags_##k) { print_flags<k>(); }
FIRST(0) FIRST(1) FIRST(2) FIRST(3) FIRST(4) FIRST(5) FIRST(6) FIRST(7) FIRST(8) FIRST(9) FIRST(10) FIRST(11) FIRST(12)
FIRST(13) FIRST(14) FIRST(15) FIRST(16) FIRST(17) FIRST(18) FIRST(19) FIRST(20) FIRST(21) FIRST(22) FIRST(23) FIRST(24)
CONTRACT(every_set_has_a_first_flag)
{
    u64 v = vc_any32(); vc_assume(v < (1u << 24));
    bool some = v == 0;
    for (int k = 0; k < 24; ++k) some = some | first_is(std::uint32_t(v), k);
    vc_assert(some, "the cases are exhaustive");
    vc_cover("reached");
}
