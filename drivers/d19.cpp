// C19: random trees of items; names, owners, qualified names (asked in any order, several times) and categories.
#include "inv.h"
struct It { MetaItem const *i; std::string name, path; MetaContainer const *owner; MetaCategory cat; };
static std::string any_name() {
    static char const *odd[] = {"a", "::", "global", "a::b", " ", "a_name_that_is_quite_a_bit_longer_than_any_small_string_buffer", "\xc3\xa9", "x\ny", "0", "Ω"};
    static int k = 0;
    std::string s = odd[drv::rng.below(10)]; if (drv::rng.flip()) s += std::string(drv::rng.below(40), 'z');
    if (drv::rng.below(5) == 0) s.push_back('\0');
    return drv::rng.flip() ? s + std::to_string(++k) : s;
}
int main(int argc, char **argv) {
    drv::init(argc, argv);
    auto g = MetaNamespace::global();
    while (drv::time_left() && drv::fails < 5) {
        std::vector<It> all; std::vector<std::pair<MetaContainer*, std::string>> boxes;
        { auto n = fresh_namespace(); auto p = "::" + n->name(); all.push_back({n, n->name(), p, g, mcatNamespace}); boxes.push_back({n, p}); }
        int steps = 1 + drv::rng.below(60);
        auto ask = [&](It const &x) {
            std::string q = x.i->qualifiedName();
            EXPECT(q == x.path, "qualified name is ", q, ", expected ", x.path);
            EXPECT(x.i->name() == x.name, "name is ", x.i->name(), ", expected ", x.name);
            EXPECT(x.i->owner() == x.owner, "owner of ", x.path, " changed");
            EXPECT(x.i->category() == x.cat, "category of ", x.path, " is ", x.i->category(), ", expected ", x.cat);
            EXPECT(x.i->qualifiedName() == q, "asking for the qualified name again gives ", x.i->qualifiedName(), " after ", q);
            if (x.cat == mcatNamespace) EXPECT(!static_cast<MetaNamespace const*>(x.i)->isGlobal(), x.path, " reports itself global");
        };
        for (int s = 0; s < steps; ++s) {
            auto &[box, path] = boxes[drv::rng.below(4) ? boxes.size() - 1 : drv::rng.below(boxes.size())];
            auto name = std::make_unique<std::string>(any_name()); auto cat = MetaCategory(drv::rng.below(mcatCount)); std::string full = *name;
            auto before = box->namespaceCount() + box->classCount() + box->enumCount() + box->methodCount() + box->propertyCount() + box->constructorCount();
            MetaItem const *i;
            switch (cat) {
            case mcatNamespace: i = MetaNamespace::create(*name, *box); break;
            case mcatClass: i = MetaClass::create(*name, *box, fresh_type()); break;
            case mcatProperty: i = MetaProperty::create(*name, *box, std::make_unique<PInv>()); break;
            case mcatMethod: full += "()"; i = MetaMethod::create(*name, *box, std::make_unique<Inv>("()")); break;
            case mcatEnum: i = MetaEnum::create(*name, *box, fresh_type()); break;
            default: full += "(int)"; i = MetaConstructor::create(*name, *box, std::make_unique<CInv>("(int)")); break;
            }
            auto after = box->namespaceCount() + box->classCount() + box->enumCount() + box->methodCount() + box->propertyCount() + box->constructorCount();
            name.reset();
            if (after == before) continue;
            It x{i, full, path + "::" + full, box, cat};
            all.push_back(x);
            if (drv::rng.flip()) ask(x);
            if (cat == mcatNamespace) boxes.push_back({MetaNamespace::create(full, *const_cast<MetaContainer*>(x.owner)), x.path});
            if (cat == mcatClass) boxes.push_back({const_cast<MetaClass*>(static_cast<MetaClass const*>(i)), x.path});
            if (drv::rng.below(4) == 0) const_cast<MetaItem*>(i)->setAttribute("attribute", variant{1});
        }
        for (int k = 0; k < 2; ++k) for (auto &x: all) ask(x);
        EXPECT(g->isGlobal() && !g->owner() && g->qualifiedName().empty() && g->name() == "global" && MetaNamespace::global() == g, "the global namespace");
    }
    return drv::finish();
}
