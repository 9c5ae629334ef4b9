// C18: threads hammering the same registries under ThreadSanitizer; callbacks that throw; every lock free afterwards.
#include "inv.h"
#include "metacontainer_p.h"
#include "metaclass_p.h"
#include "metaitem_p.h"
#include <thread>
#include <atomic>
#include <mutex>
using namespace rtti;
struct Probe: rtti::internal::ConvertFunctionBase { Probe(): ConvertFunctionBase{[](ConvertFunctionBase const&, void const*, void*) { return true; }} {} };
struct Cb {};
template<class L> static void expect_free(L &l, const char *what) {
    bool ok = false; std::thread([&] { if (l.try_lock()) { ok = true; l.unlock(); } }).join();
    EXPECT(ok, what, ": the lock is still held after the operations returned");
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    int round = 0;
    while (drv::time_left() && drv::fails < 5) {
        ++round;
        auto *ns = fresh_namespace();
        MetaType_ID ids[4]; for (auto &i : ids) i = fresh_type();
        auto *cls = MetaClass::create("C", *ns, ids[0]);
        EXPECT(cls != nullptr, "class not created"); if (!cls) break;
        auto *bases = fresh_namespace(); for (int i = 1; i < 4; ++i) MetaClass::create(drv::cat("B", i), *bases, ids[i]);
        constexpr int T = 6, N = 60;
        std::vector<std::string> names; for (int i = 0; i < 12; ++i) names.push_back(drv::cat("n", i));
        static std::vector<std::string> tnames; tnames.clear(); for (int i = 0; i < 12; ++i) tnames.push_back(*new std::string(drv::cat("thread type ", round, " ", i)));
        std::atomic<MetaNamespace*> got[12] = {}; std::atomic<std::uint64_t> tgot[12] = {}; std::atomic<int> registered[16] = {}; std::atomic<long> clash{0};
        static Probe probes[16];
        std::atomic<int> go{0}; std::mutex mx;
        auto seed = drv::rng.next();
        std::vector<std::thread> ts;
        for (int t = 0; t < T; ++t) ts.emplace_back([&, t] {
            drv::Rng r{seed * (2 * t + 3) | 1}; for (int i = 0; i < 5; ++i) r.next();
            ++go; while (go < T) std::this_thread::yield();
            for (int i = 0; i < N; ++i) {
                int k = int(r.below(12));
                int op = int(r.below(14));
                try { switch (op) {
                case 0: { auto p = MetaNamespace::create(names[k], *ns); MetaNamespace *none = nullptr; if (!got[k].compare_exchange_strong(none, p) && none != p) ++clash; } break;
                case 1: { MetaNamespace *q = got[k]; auto p = ns->getNamespace(names[k]); if (q && p != q) ++clash; } break;
                case 2: MetaMethod::create(names[k], *ns, std::make_unique<Inv>("()")); break;
                case 3: ns->getMethod(drv::cat(names[k], "()")); ns->getMethod(std::size_t(k)); break;
                case 4: ns->setAttribute(names[k], variant{k}); break;
                case 5: { auto &v = ns->attribute(names[k]); (void)v; ns->attribute(std::size_t(k)); ns->attributeName(std::size_t(k)); } break;
                case 6: try { ns->for_each_method([&](MetaMethod const*) -> bool { if (r.below(3) == 0) throw Cb{}; return true; }); } catch (Cb&) {} break;
                case 7: try { ns->for_each_attribute([&](auto, auto&) -> bool { if (r.below(3) == 0) throw Cb{}; return true; }); } catch (Cb&) {} break;
                case 8: { auto id = MetaType::registerMetaType(tnames[k], 8, MetaType_ID{}, 0, 0, TypeFlags::None, nullptr).value(); std::uint64_t none = 0; if (!tgot[k].compare_exchange_strong(none, id) && none != id) ++clash; } break;
                case 9: { std::uint64_t q = tgot[k]; auto id = MetaType{tnames[k]}.typeId().value(); if (q && id != q) ++clash; } break;
                case 10: { int a = int(r.below(4)), b = int(r.below(4)); if (MetaType::registerConverter(ids[a], ids[b], probes[a * 4 + b])) if (++registered[a * 4 + b] > 1) ++clash; } break;
                case 11: { int a = int(r.below(4)), b = int(r.below(4)); char x = 0, y = 0; bool had = registered[a * 4 + b] > 0; bool ok = MetaType::convert(&x, ids[a], &y, ids[b]); if (had && !ok) ++clash; if (had && !MetaType::hasConverter(ids[a], ids[b])) ++clash; } break;
                case 12: cls->addBaseClass(ids[1 + r.below(3)], nullptr); cls->addDerivedClass(ids[1 + r.below(3)]); break;
                default: ns->namespaceCount(); ns->methodCount(); ns->classCount(); ns->attributeCount(); cls->baseClass(std::size_t(r.below(4))); cls->derivedClass(std::size_t(r.below(4))); cls->inheritedFrom(ns->getClass("C")); ns->for_each_attribute([](auto, auto&) { return true; }); cls->baseClassCount(); cls->derivedClassCount(); try { ns->for_each_class([&](MetaClass const*) -> bool { if (r.below(4) == 0) throw Cb{}; return true; }); } catch (Cb&) {} break;
                } } catch (std::exception &e) { std::lock_guard l{mx}; drv::fail(drv::cat("operation ", op, " throws ", e.what())); }
            }
        });
        for (auto &t : ts) t.join();
        drv::evals += T * N;
        EXPECT(clash == 0, clash, " answers disagree with what another thread had already been told");
        std::size_t want = 0; for (auto &g : got) if (g.load()) ++want;
        EXPECT(ns->namespaceCount() == want, "there are ", ns->namespaceCount(), " namespaces, ", want, " names were created");
        std::size_t seen = 0; while (ns->getNamespace(seen)) ++seen; EXPECT(seen == want, "enumeration gives ", seen, " of ", want);
        auto *cd = static_cast<rtti::MetaClassPrivate*>(cls->MetaItem::d_func()); auto *nd = static_cast<rtti::MetaContainerPrivate*>(ns->MetaItem::d_func());
        EXPECT(cls->baseClassCount() <= 3 && cls->derivedClassCount() <= 3, "a base or derived class was added twice");
        expect_free(nd->m_namespaces.m_lock, "namespaces"); expect_free(nd->m_methods.m_lock, "methods"); expect_free(nd->m_classes.m_lock, "classes"); expect_free(nd->m_attributes.m_lock, "attributes");
        expect_free(cd->m_baseClasses.m_lock, "base classes"); expect_free(cd->m_derivedClasses.m_lock, "derived classes");
        for (auto a : ids) for (auto b : ids) MetaType::unregisterConverter(a, b);
    }
    return drv::finish();
}
