// C11: packing, comparison, hashing and text of handles, for all handle values.
#include "vp.h"
#include <Tecs.hh>
#include <functional>
#include <string>
using Ent = Tecs::Entity;
using I = TECS_ENTITY_INDEX_TYPE;
using G = TECS_ENTITY_GENERATION_TYPE;
using D = TECS_ENTITY_ECS_IDENTIFIER_TYPE;
static constexpr unsigned GB = sizeof(G) * 8, IB = sizeof(I) * 8, DB = sizeof(D) * 8;
static Ent sym(const char *n) {
    uint64_t v = vp_u64(n);
    Ent e;
    e.index = (I)v;
    e.generation = (G)(v >> 32);
    return e;
}
static bool same(const std::string &a, const std::string &b) {
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
    return ok;
}
void vp_main() {
    switch (vp_choose("group", 6)) {
    case 0: { // 64-bit form
        Ent e = sym("a");
        uint64_t v = (uint64_t)e;
        Ent r(v);
        vp_assert(r.index == e.index && r.generation == e.generation, "a handle changes by conversion to its 64-bit form and back");
        uint64_t m = vp_u64("m");
        if (GB + IB < 64) m &= ((uint64_t)1 << ((GB + IB) & 63)) - 1;
        vp_assert((uint64_t)Ent(m) == m, "a 64-bit form changes by conversion to a handle and back");
        Ent b = sym("b");
        vp_assert(((uint64_t)e == (uint64_t)b) == (e.index == b.index && e.generation == b.generation), "different handles have the same 64-bit form");
        break;
    }
    case 1: { // generation and identifier
        G g = (G)vp_u32("g");
        D d = (D)vp_u32("d");
        I i = (I)vp_u32("i");
        G gm = (G)(g & (G)(((uint64_t)1 << (GB - DB)) - 1));
        G p = Tecs::GenerationWithIdentifier(g, d);
        vp_assert(Tecs::GenerationWithoutIdentifier(p) == gm, "the generation is not recovered");
        vp_assert(Tecs::IdentifierFromGeneration(p) == d, "the identifier is not recovered");
        Ent e(i, g, d);
        vp_assert(e.index == i && e.generation == p, "the packing constructor differs");
        Ent f(i, g);
        vp_assert(f.index == i && f.generation == g, "the plain constructor changes its arguments");
        break;
    }
    case 2: { // equality and order of two
        Ent a = sym("a"), b = sym("b");
        bool eq = (a.index == b.index) & (a.generation == b.generation);
        vp_assert((a == b) == eq, "equality is not equality of index and generation");
        vp_assert((a != b) == !eq, "inequality is not the opposite of equality");
        vp_assert(!(a < a), "a handle is less than itself");
        vp_assert((int)(a < b) + (int)(b < a) + (int)eq == 1, "the order is not total and consistent with equality");
        break;
    }
    case 3: { // transitivity
        Ent a = sym("a"), b = sym("b"), c = sym("c");
        bool ab = a < b, bc = b < c, ac = a < c;
        vp_assert(!(ab & bc) | ac, "the order is not transitive");
        break;
    }
    case 4: { // hash and null
        Ent a = sym("a"), b = sym("b");
        std::hash<Ent> h;
        vp_assert((h(a) == h(b)) == ((a.index == b.index) & (a.generation == b.generation)), "the hash depends on something else or does not distinguish handles");
        vp_assert((bool)a == (a.generation != 0), "null is not zero generation");
        vp_assert(!a == (a.generation == 0), "null is not zero generation");
        Ent z;
        vp_assert(!z && z.generation == 0 && z.index == 0, "a default handle is not null");
        break;
    }
    case 5: { // text
        Ent a = sym("a");
        std::string s = std::to_string(a);
        unsigned long long id = Tecs::IdentifierFromGeneration(a.generation), g = (uint64_t)a.generation & (((uint64_t)1 << (GB - DB)) - 1), i = a.index;
        std::string w;
        if (a.generation == 0) w = "Entity(invalid)";
        else if (id == 1) w = "Entity(gen " + std::to_string(g) + ", index " + std::to_string(i) + ")";
        else w = "Entity(ecs " + std::to_string(id) + ", gen " + std::to_string(g) + ", index " + std::to_string(i) + ")";
        vp_assert(same(s, w), "the text form does not show exactly generation, index and instance");
        break;
    }
    }
    vp_reach("end");
}
