// C09: random class and base registrations, right and wrong, against a straightforward model; and out of memory at random points.
#include "inv.h"
#include <map>
static long fail_at = -1;
void* operator new(std::size_t n) { if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc{}; if (auto p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc{}; }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
struct Cls { MetaClass *c; MetaType_ID id; std::vector<int> bases, derived; };
static std::string type_name(MetaType_ID id) { return std::string{MetaType{id}.typeName()}; }
int main(int argc, char **argv) {
    drv::init(argc, argv);
    while (drv::time_left() && drv::fails < 5) {
        auto ns = fresh_namespace();
        std::vector<MetaType_ID> types; for (int i = 0; i < 9; ++i) types.push_back(fresh_type());
        types.push_back(MetaType_ID{});
        std::vector<Cls> all; std::map<int, int> of; std::map<std::string, int> names; std::string log;
        auto check = [&] {
            EXPECT(ns->classCount() == all.size(), "namespace lists ", ns->classCount(), " classes, expected ", all.size(), ":", log);
            for (std::size_t t = 0; t < types.size(); ++t) {
                auto want = of.count(t) ? all[of[t]].c : nullptr;
                EXPECT(MetaClass::find(types[t]) == want, "finding by type ", t, " is wrong:", log);
                if (types[t].valid()) EXPECT(MetaClass::find(type_name(types[t])) == want, "finding by the name of type ", t, " is wrong:", log);
                EXPECT(MetaType{types[t]}.metaClass() == want, "type ", t, " reports the wrong class:", log);
            }
            for (std::size_t i = 0; i < all.size(); ++i) {
                auto &x = all[i]; MetaClass const *c = x.c;
                EXPECT(ns->getClass(i) == c, "class ", i, " moved:", log);
                EXPECT(c->metaTypeId() == x.id, "class ", i, " reports another type:", log);
                EXPECT(c->baseClassCount() == x.bases.size(), "class ", i, " has ", c->baseClassCount(), " bases, expected ", x.bases.size(), ":", log);
                EXPECT(c->derivedClassCount() == x.derived.size(), "class ", i, " has ", c->derivedClassCount(), " derived classes, expected ", x.derived.size(), ":", log);
                for (std::size_t k = 0; k < x.bases.size() + 2; ++k) EXPECT(c->baseClass(k) == (k < x.bases.size() ? all[x.bases[k]].c : nullptr), "base ", k, " of class ", i, " is wrong:", log);
                for (std::size_t k = 0; k < x.derived.size() + 2; ++k) EXPECT(c->derivedClass(k) == (k < x.derived.size() ? all[x.derived[k]].c : nullptr), "derived class ", k, " of class ", i, " is wrong:", log);
                EXPECT(c->baseClass(std::size_t(-1)) == nullptr && c->derivedClass(std::size_t(-1)) == nullptr, "a class out of range:", log);
            }
        };
        int steps = 1 + drv::rng.below(40);
        for (int s = 0; s < steps && drv::fails < 5; ++s) {
            int kind = drv::rng.below(5);
            bool oom = drv::rng.below(4) == 0;
            if (kind < 2 || all.empty()) {
                int t = drv::rng.below(types.size()); std::string name = "K" + std::to_string(drv::rng.below(12));
                log += drv::cat(" create(", name, ",", t, oom ? ")!" : ")");
                int want = names.count(name) ? 3 : !types[t].valid() ? 1 : of.count(t) ? 2 : 0;
                int got = 0; MetaClass *r = nullptr;
                if (oom) fail_at = drv::rng.below(10);
                try { r = MetaClass::create(name, *ns, types[t]); } catch (invalid_metatype_id const&) { got = 1; } catch (duplicate_metaclass const&) { got = 2; } catch (std::bad_alloc const&) { got = 4; }
                fail_at = -1;
                if (got == 4 && oom) { check(); continue; }
                EXPECT(got == (want == 3 ? 0 : want), "registering gave outcome ", got, ", expected ", want, ":", log);
                if (want == 3 && !got) EXPECT(r == all[names[name]].c, "registering a taken name gave another class:", log);
                if (want == 0 && !got) { EXPECT(r && r->name() == name, "the wrong class:", log); of[t] = all.size(); names[name] = all.size(); all.push_back({r, types[t], {}, {}}); }
            } else {
                int i = drv::rng.below(all.size()), t = drv::rng.below(types.size());
                log += drv::cat(" base(", i, ",", t, oom ? ")!" : ")");
                int want = !types[t].valid() ? 1 : !of.count(t) ? 2 : 0, got = 0;
                if (!want && of[t] == i) continue;          // a class is no base of itself
                auto add = [&] { try { all[i].c->addBaseClass(types[t], [](void const *p) { return p; }); } catch (invalid_metatype_id const&) { got = 1; } catch (unregistered_metaclass const&) { got = 2; } catch (std::bad_alloc const&) { got = 4; } };
                if (oom) fail_at = drv::rng.below(3);
                add(); fail_at = -1;
                if (got == 4 && oom) { if (want) { check(); continue; } got = 0; add(); }
                EXPECT(got == want, "declaring a base gave outcome ", got, ", expected ", want, ":", log);
                if (!want) {
                    int b = of[t]; auto &x = all[i].bases; auto &y = all[b].derived;
                    if (std::find(x.begin(), x.end(), b) == x.end()) x.push_back(b);
                    if (std::find(y.begin(), y.end(), i) == y.end()) y.push_back(i);
                }
            }
            check();
        }
        EXPECT(!MetaClass::find("no such type") && !MetaClass::find(""), "a class found under an unknown name");
        EXPECT(!MetaClass::find(MetaType_ID{}), "a class of the invalid type");
    }
    return drv::finish();
}
