// C20: construct/destruct/compare through descriptors, with objects that watch their lifetimes and constructors that throw.
#include "live.h"
using namespace live;
template<class T> using El = std::remove_all_extents_t<T>;
template<class T> static void run(const char *name) {
    using E = El<T>; constexpr int N = sizeof(T) / sizeof(E);
    auto t = metaType<T>(); auto t2 = metaType<T const&>();
    for (int round = 0; round < 6; ++round) for (int mode = 0; mode < 3; ++mode) for (int at = -1; at < N + 1; ++at) {
        void *raw = ::operator new(sizeof(T) + 128); auto s = reinterpret_cast<E*>((std::uintptr_t(raw) + 63) / 64 * 64); long want[N];
        for (int i = 0; i < N; ++i) { want[i] = long(drv::rng.below(1000)); ::new (s + i) E(want[i]); }
        auto n0 = who.size(); long b0 = blocks, made0 = made; void *r = nullptr; bool threw = false, unsup = false;
        bool can = mode == 0 ? std::is_default_constructible_v<E> : mode == 1 ? std::is_copy_constructible_v<E> : std::is_move_constructible_v<E> || std::is_copy_constructible_v<E>;
        boom_at = at;
        try { r = (round & 1 ? t : t2).construct(mode ? s : nullptr, mode == 2); } catch (Boom&) { threw = true; } catch (runtime_error&) { unsup = true; } catch (...) { drv::fail(drv::cat(name, ": another exception")); }
        bool fired = at >= 0 && boom_at == -1; boom_at = -1;
        EXPECT(unsup == !can, name, ": mode ", mode, unsup ? " refused" : " not refused");
        EXPECT(threw == (can && fired), name, ": a throwing constructor's exception is lost");
        if (r) {
            EXPECT(who.size() == n0 + N && made == made0 + N, name, ": ", who.size() - n0, " objects alive, ", made - made0, " made after constructing ", N);
            EXPECT(std::uintptr_t(r) % alignof(T) == 0, name, ": misaligned");
            for (int i = 0; i < N; ++i) { auto &o = static_cast<E*>(r)[i]; if (!who.count(&o)) { EXPECT(false, name, ": element ", i, " is not constructed"); continue; } EXPECT(o.v == (mode ? want[i] : -7), name, ": element ", i, " is ", o.v, ", not ", mode ? want[i] : -7); int tag = !mode ? 0 : mode == 2 && std::is_move_constructible_v<E> ? 2 : 1; EXPECT(who[&o] == tag, name, ": element ", i, " was made by another constructor"); }
            t.destruct(r);
        }
        EXPECT(who.size() == n0, name, ": ", long(who.size()) - long(n0), " objects left, mode ", mode, " throw at ", at);
        EXPECT(blocks == b0 || threw || unsup, name, ": storage kept");
        if (threw) EXPECT(blocks == b0, name, ": storage kept after a throwing constructor");
        for (int i = 0; i < N; ++i) { if (mode == 1) EXPECT(s[i].v == want[i], name, ": the copied source changed"); s[i].~E(); }
        ::operator delete(raw); who.clear();
    }
    { E *a = static_cast<E*>(::operator new(sizeof(T) + 64)), *b = static_cast<E*>(::operator new(sizeof(T) + 64)); a = (E*)((std::uintptr_t(a) + 63) / 64 * 64); b = (E*)((std::uintptr_t(b) + 63) / 64 * 64);
      for (int i = 0; i < N; ++i) { ::new (a + i) E(i); ::new (b + i) E(i); }
      EXPECT(t.compare_eq(a, b) && t.compare_eq(a, a) && !t.compare_eq(a, nullptr) && !t.compare_eq(nullptr, b) && t.compare_eq(nullptr, nullptr), name, ": equal objects");
      for (int i = 0; i < N; ++i) { a[i].v = 99; EXPECT(!t.compare_eq(a, b) && !t.compare_eq(b, a), name, ": element ", i, " differs"); a[i].v = i; }
      auto n = who.size(); t.destruct(nullptr); EXPECT(who.size() == n, name, ": destruct(null)"); who.clear(); }
}
struct NoEq { int x; };
int main(int argc, char **argv) {
    drv::init(argc, argv);
    do {
        run<Small>("small"); run<SmallX>("throwing move"); run<Big>("big"); run<BigX>("big, throwing move"); run<Over>("over-aligned"); run<MoveOnly>("move-only"); run<CopyOnly>("copy-only"); run<Pinned>("pinned"); run<NoDefault>("no default");
        run<Small[3]>("array"); run<BigX[2]>("array, throwing move"); run<SmallX[2][2]>("array of arrays"); run<MoveOnly[2]>("move-only array"); run<CopyOnly[2]>("copy-only array"); run<Over[2]>("over-aligned array");
        NoEq e{1}; THROWS(runtime_error, metaType<NoEq>().compare_eq(&e, &e), "comparing without equality"); THROWS(runtime_error, (metaType<NoEq[2][2]>().compare_eq(&e, &e)), "comparing without equality");
        int w[2][2] = {{1, 2}, {3, 4}}; auto t = metaType<int[2][2]>(); auto p = static_cast<int*>(t.construct(w)); EXPECT(p[0] == 1 && p[3] == 4 && t.compare_eq(p, w), "int[2][2]"); p[2] = 9; EXPECT(!t.compare_eq(p, w), "int[2][2]"); t.destruct(p);
        MetaType none; EXPECT(none.construct(w) == nullptr && none.construct() == nullptr && !none.compare_eq(w, w), "invalid type"); none.destruct(w);
    } while (drv::time_left() && drv::fails < 10);
    return drv::finish();
}
