// Hash-consed bit-vector expressions (width <= 64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

namespace tse {
enum Op : uint8_t {
    CONST, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, SHL, LSHR, ASHR, AND, OR, XOR,
    CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE
};

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    uint64_t c; // CONST value, SYM id, EXTRACT low bit
    const Expr *a, *b, *k;
    std::vector<uint32_t> syms; // sorted ids of the symbols it mentions
};
typedef const Expr *E;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

struct ExprPool {
    struct Key {
        Op op; uint16_t w; uint64_t c; E a, b, k;
        bool operator==(const Key &o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && k == o.k; }
    };
    struct KH {
        size_t operator()(const Key &k) const {
            uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
            auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
            mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.k);
            return h;
        }
    };
    std::unordered_map<Key, E, KH> tab;
    uint32_t nextId = 1;
    std::vector<std::string> symNames;
    std::vector<unsigned> symW;
};
extern ExprPool P;

inline E mkRaw(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E k = nullptr) {
    ExprPool::Key key{op, (uint16_t)w, c, a, b, k};
    auto it = P.tab.find(key);
    if (it != P.tab.end()) return it->second;
    Expr *e = new Expr{op, (uint16_t)w, P.nextId++, c, a, b, k, {}};
    if (op == SYM) e->syms.push_back((uint32_t)c);
    for (E s : {a, b, k}) {
        if (!s || s->syms.empty()) continue;
        if (e->syms.empty()) { e->syms = s->syms; continue; }
        if (e->syms == s->syms) continue;
        std::vector<uint32_t> r;
        size_t i = 0, j = 0;
        while (i < e->syms.size() || j < s->syms.size()) {
            if (j >= s->syms.size() || (i < e->syms.size() && e->syms[i] < s->syms[j])) r.push_back(e->syms[i++]);
            else if (i >= e->syms.size() || s->syms[j] < e->syms[i]) r.push_back(s->syms[j++]);
            else { r.push_back(e->syms[i]); i++; j++; }
        }
        e->syms.swap(r);
    }
    P.tab.emplace(key, e);
    return e;
}
inline E mkConst(uint64_t v, unsigned w) { return mkRaw(CONST, w, v & maskw(w)); }
inline E mkSym(const std::string &name, unsigned w) {
    uint32_t id = P.symNames.size();
    P.symNames.push_back(name);
    P.symW.push_back(w);
    return mkRaw(SYM, w, id);
}
inline bool isC(E e) { return e->op == CONST; }
inline bool isC(E e, uint64_t v) { return e->op == CONST && e->c == v; }

bool foldBin(Op op, unsigned w, uint64_t x, uint64_t y, uint64_t &r); // false: division by zero
E mkBin(Op op, E a, E b);
E mkNot(E a); // bitwise not
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkCmp(Op op, E a, E b);

// evaluation under an assignment of symbols (missing = 0)
struct Model {
    std::vector<uint64_t> v;
    uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
    void set(uint32_t s, uint64_t x) { if (v.size() <= s) v.resize(s + 1, 0); v[s] = x; }
};
uint64_t evalE(E e, const Model &m);
std::string showE(E e, int depth = 6);
} // namespace tse
