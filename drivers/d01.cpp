// C01: registration histories against a model of the type registry; concurrent registration.
#include "inv.h"
#include <map>
#include <thread>
#include <atomic>
struct Want { MetaType_ID id, decay; std::size_t size; std::uint16_t arity, mask; TypeFlags flags; void const *info; };
static std::map<std::string, Want> model; static std::vector<std::string> names;
static void check(std::string const &n, Want const &w) {
    for (auto m : {MetaType{std::string_view{n}}, MetaType{w.id}}) {
        EXPECT(m.valid(), "type ", n, " is invalid"); if (!m.valid()) return;
        EXPECT(m.typeId() == w.id, "type ", n, " has another id"); EXPECT(m.typeName() == n, "type ", n, " calls itself ", m.typeName());
        EXPECT(m.typeSize() == w.size, "type ", n, " registered with size ", w.size, " reports size ", m.typeSize());
        EXPECT(m.pointerArity() == w.arity, "type ", n, " registered with arity ", w.arity, " reports arity ", m.pointerArity());
        EXPECT(m.typeFlags() == w.flags, "type ", n, " reports other flags");
        EXPECT(m.m_typeInfo == w.info, "the descriptor of ", n, " moved");
        EXPECT(m.decayId() == (w.decay.valid() ? w.decay : w.id), "type ", n, " reports another decayed id");
        EXPECT(m.decayed() == (!w.decay.valid() || w.decay == w.id), "type ", n, ": decayed() is wrong");
    }
}
static MetaType_ID reg(std::string_view name, Want const &w) { return MetaType::registerMetaType(name, w.size, w.decay, w.arity, w.mask, w.flags, nullptr); }
static Want any() {
    MetaType_ID dec{}; if (!names.empty() && drv::rng.flip()) dec = model[names[drv::rng.below(names.size())]].id;
    return {MetaType_ID{}, dec, drv::rng.below(100), std::uint16_t(drv::rng.below(6)), std::uint16_t(drv::rng.next()), TypeFlags(drv::rng.next() & 0xffffff), nullptr};
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    MetaType none;
    for (auto m : {none, MetaType{MetaType_ID{}}, MetaType{"no such type"}, MetaType{""}, MetaType{std::string_view{}}}) {
        EXPECT(!m.valid() && !m.typeId().valid() && !m.decayId().valid(), "an invalid type has ids"); EXPECT(m.typeName() == "void", "an invalid type is called ", m.typeName());
        EXPECT(m.typeSize() == 0 && m.pointerArity() == 0 && !m.metaClass() && !m.decayed(), "an invalid type has properties"); EXPECT(m.typeFlags() == TypeFlags::Void, "an invalid type has flags");
        EXPECT(!MetaType::compatible(m, metaType<int>()) && !MetaType::compatible(metaType<int>(), m) && !MetaType::compatible(m, m), "an invalid type is compatible");
        EXPECT(!m.construct(), "an invalid type constructs"); int x; m.destruct(&x);
    }
    EXPECT(metaTypeId<int>() == metaTypeId<int>() && MetaType{"int"}.typeId() == metaTypeId<int>(), "int is not one type");
    while (drv::time_left() && drv::fails < 5) {
        if (names.size() > 3000) { model.clear(); names.clear(); }
        static long round = 0; int mode = drv::rng.below(10);
        if (mode == 0) { auto before = MetaType{""}.valid(); auto id = reg("", any()); EXPECT(!id.valid() && !before && !MetaType{""}.valid(), "an empty name registers something"); }
        else if (mode <= 3 && !names.empty()) {
            auto &n = names[drv::rng.below(names.size())]; auto id = reg(*new std::string(n), any());
            EXPECT(id == model[n].id, "registering ", n, " again gives another id"); check(n, model[n]);
        } else {
            auto n = drv::cat("t", round++, drv::rng.below(3) ? "" : " const&"); if (drv::rng.below(3) == 0 && !names.empty()) n = names[drv::rng.below(names.size())] + (drv::rng.flip() ? "*" : " ");
            if (drv::rng.below(8) == 0) { static std::string const stem(drv::rng.below(2000), 'n'); n = "template<" + stem + std::to_string(drv::rng.below(2)) + "> " + n; }
            if (model.count(n)) continue;
            EXPECT(!MetaType{std::string_view{n}}.valid(), "the unregistered name ", n, " is a type");
            auto w = any(); w.id = reg(*new std::string(n), w); MetaType m{w.id}; w.info = m.m_typeInfo;
            EXPECT(w.id.valid(), "registering ", n, " gives the invalid id");
            for (int k = 0; k < 4 && !names.empty(); ++k) { auto &o = names[drv::rng.below(names.size())]; EXPECT(model[o].id != w.id, "types ", o, " and ", n, " share an id"); }
            model[n] = w; names.push_back(n); check(n, w);
        }
        for (int k = 0; k < 4 && !names.empty(); ++k) { auto &o = names[drv::rng.below(names.size())]; check(o, model[o]); }
    }
    for (auto &p : model) check(p.first, p.second);
    for (int round = 0; round < 20; ++round) {      // the same names registered by several threads at once
        std::vector<MetaType_ID> got[4]; std::atomic<int> ready{0}; std::vector<std::string> shared;
        for (int i = 0; i < 50; ++i) shared.push_back(*new std::string(drv::cat("shared ", round, " ", i)));
        auto keep = new std::vector<std::string>(shared); std::vector<std::thread> ts;
        for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { ++ready; while (ready < 4) {} for (auto &n : *keep) got[t].push_back(MetaType::registerMetaType(n, t + 1, MetaType_ID{}, 0, 0, TypeFlags::None, nullptr)); });
        for (auto &t : ts) t.join();
        for (int i = 0; i < 50; ++i) for (int t = 0; t < 4; ++t) EXPECT(got[t][i] == got[0][i] && MetaType{std::string_view{shared[i]}}.typeId() == got[t][i], "threads registering ", shared[i], " together got different ids");
    }
    return drv::finish();
}
