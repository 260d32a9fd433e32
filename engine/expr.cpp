#include "expr.h"
#include <algorithm>
namespace tse {
ExprPool P;

bool foldBin(Op op, unsigned w, uint64_t x, uint64_t y, uint64_t &r) {
    uint64_t m = maskw(w);
    x &= m; y &= m;
    switch (op) {
    case ADD: r = x + y; break;
    case SUB: r = x - y; break;
    case MUL: r = x * y; break;
    case UDIV: if (!y) return false; r = x / y; break;
    case UREM: if (!y) return false; r = x % y; break;
    case SDIV: { if (!y) return false; int64_t a = sx(x, w), b = sx(y, w); r = b == -1 ? (uint64_t)0 - (uint64_t)a : (uint64_t)(a / b); break; }
    case SREM: { if (!y) return false; int64_t a = sx(x, w), b = sx(y, w); r = b == -1 ? 0 : (uint64_t)(a % b); break; }
    case SHL: r = y >= w ? 0 : x << y; break;
    case LSHR: r = y >= w ? 0 : x >> y; break;
    case ASHR: r = y >= w ? (sx(x, w) < 0 ? ~0ull : 0) : (uint64_t)(sx(x, w) >> y); break;
    case AND: r = x & y; break;
    case OR: r = x | y; break;
    case XOR: r = x ^ y; break;
    case EQ: r = x == y; return true;
    case ULT: r = x < y; return true;
    case ULE: r = x <= y; return true;
    case SLT: r = sx(x, w) < sx(y, w); return true;
    case SLE: r = sx(x, w) <= sx(y, w); return true;
    default: abort();
    }
    r &= m;
    return true;
}

E mkNot(E a) { return mkBin(XOR, a, mkConst(~0ull, a->w)); }

E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case CONST: return mkConst(a->c >> lo, w);
    case EXTRACT: return mkExtract(a->a, lo + a->c, w);
    case CONCAT: { // a->a hi, a->b lo
        unsigned lw = a->b->w;
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case ZEXT: {
        unsigned iw = a->a->w;
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        if (lo >= iw) return mkConst(0, w);
        return mkZext(mkExtract(a->a, lo, iw - lo), w);
    }
    case SEXT: {
        unsigned iw = a->a->w;
        if (lo + w <= iw) return mkExtract(a->a, lo, w);
        break;
    }
    case ITE:
        if (isC(a->b) || isC(a->k)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->k, lo, w));
        break;
    case AND: case OR: case XOR:
        if (isC(a->b)) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case ADD: case SUB: case MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    default: break;
    }
    return mkRaw(EXTRACT, w, lo, a);
}

E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "expr wider than 64\n"); abort(); }
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->c == lo->w) return mkExtract(lo, 0, w); // not reachable normally
    // concat(concat(x, ext), ext) -> merge adjacent extracts
    if (hi->op == CONCAT) {
        E m = hi->b;
        if (m->op == EXTRACT && lo->op == EXTRACT && m->a == lo->a && m->c == lo->c + lo->w)
            return mkConcat(hi->a, mkExtract(m->a, lo->c, m->w + lo->w));
        if (isC(m) && isC(lo)) return mkConcat(hi->a, mkConst((m->c << lo->w) | lo->c, m->w + lo->w));
    }
    if (lo->op == CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->op == ZEXT) {
        E m = hi->a; // zext(x) ++ lo
        return mkZext(mkConcat(m, lo), w);
    }
    return mkRaw(CONCAT, w, 0, hi, lo);
}

E mkZext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return mkRaw(ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst((uint64_t)sx(a->c, a->w), w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return mkRaw(SEXT, w, 0, a);
}
E mkIte(E c, E a, E b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isC(a) && isC(b)) return a->c ? c : mkNot(c);
    return mkRaw(ITE, a->w, 0, c, a, b);
}

static bool lowMask(uint64_t c, unsigned &n) { // c == 2^n - 1
    if (c == 0 || (c & (c + 1))) return false;
    n = __builtin_popcountll(c);
    return true;
}

E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if (op >= EQ && op <= SLE) return mkCmp(op, a, b);
    if (isC(a) && isC(b)) {
        uint64_t r;
        if (foldBin(op, w, a->c, b->c, r)) return mkConst(r, w);
        return mkRaw(op, w, 0, a, b);
    }
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    switch (op) {
    case ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->c + b->c, w));
        if (!isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (!isC(b) && b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
        break;
    case SUB:
        if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->c, w));
        if (a == b) return mkConst(0, w);
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        break;
    case MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
    case UDIV: case SDIV:
        if (isC(b, 1)) return a;
        if (op == UDIV && isC(b) && (b->c & (b->c - 1)) == 0 && b->c) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->c), w));
        break;
    case UREM:
        if (isC(b) && (b->c & (b->c - 1)) == 0 && b->c) return mkBin(AND, a, mkConst(b->c - 1, w));
        break;
    case SHL:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
        }
        break;
    case LSHR:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c >= w) return mkConst(0, w);
            return mkZext(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case ASHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c < w) return mkSext(mkExtract(a, b->c, w - b->c), w);
        break;
    case AND: {
        if (isC(b, 0)) return b;
        if (isC(b) && b->c == maskw(w)) return a;
        if (a == b) return a;
        unsigned n;
        if (isC(b) && lowMask(b->c, n)) return mkZext(mkExtract(a, 0, n), w);
        if (isC(b) && a->op == ZEXT) {
            if ((b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
            return mkZext(mkBin(AND, a->a, mkConst(b->c, a->a->w)), w);
        }
        if (isC(b) && a->op == CONCAT) return mkConcat(mkBin(AND, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(AND, a->b, mkConst(b->c, a->b->w)));
        if (isC(b) && b->c) { // contiguous mask in the middle / top
            unsigned lo = __builtin_ctzll(b->c);
            if (lo && lowMask(b->c >> lo, n)) return mkZext(mkConcat(mkExtract(a, lo, n), mkConst(0, lo)), w);
        }
        if (w == 1) {
            if (a->op == XOR && isC(a->b, 1) && a->a == b) return mkConst(0, 1);
            if (b->op == XOR && isC(b->b, 1) && b->a == a) return mkConst(0, 1);
        }
        break;
    }
    case OR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c == maskw(w)) return b;
        if (a == b) return a;
        if (isC(b) && a->op == CONCAT) return mkConcat(mkBin(OR, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(OR, a->b, mkConst(b->c, a->b->w)));
        if (isC(b) && a->op == ZEXT && !isC(a->a)) {
            unsigned iw = a->a->w;
            return mkConcat(mkConst(b->c >> iw, w - iw), mkBin(OR, a->a, mkConst(b->c, iw)));
        }
        // disjoint or: concat(x,0_n) | zext(y) with y->w <= n
        for (int s = 0; s < 2; s++) {
            E x = s ? b : a, y = s ? a : b;
            if (x->op == ZEXT && x->a->op == CONCAT && isC(x->a->b, 0)) {
                unsigned n = x->a->b->w;
                if (y->op == ZEXT && y->a->w <= n) return mkZext(mkConcat(x->a->a, mkZext(y->a, n)), w);
            }
            if (x->op == CONCAT && isC(x->b, 0)) {
                unsigned n = x->b->w;
                if (y->op == ZEXT && y->a->w <= n) return mkConcat(x->a, mkZext(y->a, n));
            }
        }
        break;
    case XOR:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(0, w);
        if (isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->c ^ b->c, w));
        if (w == 1 && isC(b, 1)) {
            // negated comparisons
            if (a->op == ULT) return mkCmp(ULE, a->b, a->a);
            if (a->op == ULE) return mkCmp(ULT, a->b, a->a);
            if (a->op == SLT) return mkCmp(SLE, a->b, a->a);
            if (a->op == SLE) return mkCmp(SLT, a->b, a->a);
        }
        break;
    default: break;
    }
    return mkRaw(op, w, 0, a, b);
}

E mkCmp(Op op, E a, E b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) { uint64_t r; foldBin(op, w, a->c, b->c, r); return mkConst(r, 1); }
    if (a == b) return mkConst(op == EQ || op == ULE || op == SLE, 1);
    if (op == EQ) {
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
        if (isC(b)) {
            switch (a->op) {
            case ZEXT:
                if (b->c & ~maskw(a->a->w)) return mkConst(0, 1);
                return mkCmp(EQ, a->a, mkConst(b->c, a->a->w));
            case SEXT:
                if ((uint64_t)sx(b->c, a->a->w) != (uint64_t)sx(b->c, w)) return mkConst(0, 1);
                return mkCmp(EQ, a->a, mkConst(b->c, a->a->w));
            case CONCAT:
                return mkBin(AND, mkCmp(EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkCmp(EQ, a->b, mkConst(b->c, a->b->w)));
            case ADD: if (isC(a->b)) return mkCmp(EQ, a->a, mkConst(b->c - a->b->c, w)); break;
            case XOR: if (isC(a->b)) return mkCmp(EQ, a->a, mkConst(b->c ^ a->b->c, w)); break;
            case ITE: {
                if (isC(a->b) && isC(a->k)) {
                    bool p = a->b->c == b->c, q = a->k->c == b->c;
                    if (p && q) return mkConst(1, 1);
                    if (p) return a->a;
                    if (q) return mkNot(a->a);
                    return mkConst(0, 1);
                }
                return mkIte(a->a, mkCmp(EQ, a->b, b), mkCmp(EQ, a->k, b));
            }
            default: break;
            }
        } else {
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkCmp(EQ, a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->a->w == b->a->w)
                return mkBin(AND, mkCmp(EQ, a->a, b->a), mkCmp(EQ, a->b, b->b));
            if (a->op == ADD && b->op == ADD && isC(a->b) && isC(b->b)) return mkCmp(EQ, a->a, mkBin(ADD, b->a, mkConst(b->b->c - a->b->c, w)));
            if (a->op == ADD && isC(a->b) && a->a == b) return mkConst(0, 1);
            if (b->op == ADD && isC(b->b) && b->a == a) return mkConst(0, 1);
        }
        return mkRaw(EQ, 1, 0, a, b);
    }
    if (op == ULT) {
        if (isC(b, 0)) return mkConst(0, 1);
        if (isC(b, 1)) return mkCmp(EQ, a, mkConst(0, w));
        if (isC(a) && a->c == maskw(w)) return mkConst(0, 1);
        if (isC(a, 0)) return mkNot(mkCmp(EQ, b, a));
        if (isC(b) && a->op == ZEXT) {
            if (b->c > maskw(a->a->w)) return mkConst(1, 1);
            return mkCmp(ULT, a->a, mkConst(b->c, a->a->w));
        }
        if (isC(a) && b->op == ZEXT) {
            if (a->c >= maskw(b->a->w)) return mkConst(0, 1);
            return mkCmp(ULT, mkConst(a->c, b->a->w), b->a);
        }
    }
    if (op == ULE) {
        if (isC(a, 0)) return mkConst(1, 1);
        if (isC(b) && b->c == maskw(w)) return mkConst(1, 1);
        if (isC(b)) return mkCmp(ULT, a, mkConst(b->c + 1, w));
        if (isC(a)) return mkCmp(ULT, mkConst(a->c - 1, w), b);
    }
    if ((op == SLT || op == SLE) && a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkCmp(op == SLT ? ULT : ULE, a->a, b->a);
    if ((op == SLT || op == SLE) && a->op == ZEXT && isC(b)) {
        if (sx(b->c, w) < 0) return mkConst(0, 1);
        return mkCmp(op == SLT ? ULT : ULE, a, b);
    }
    if ((op == SLT || op == SLE) && b->op == ZEXT && isC(a)) {
        if (sx(a->c, w) < 0) return mkConst(1, 1);
        return mkCmp(op == SLT ? ULT : ULE, a, b);
    }
    return mkRaw(op, 1, 0, a, b);
}

static uint64_t evalRec(E e, const Model &m, std::unordered_map<E, uint64_t> *memo) {
    if (e->op == CONST) return e->c;
    if (e->op == SYM) return m.get(e->c) & maskw(e->w);
    if (memo) { auto it = memo->find(e); if (it != memo->end()) return it->second; }
    uint64_t r = 0;
    switch (e->op) {
    case CONCAT: r = (evalRec(e->a, m, memo) << e->b->w) | evalRec(e->b, m, memo); break;
    case EXTRACT: r = (evalRec(e->a, m, memo) >> e->c) & maskw(e->w); break;
    case ZEXT: r = evalRec(e->a, m, memo); break;
    case SEXT: r = (uint64_t)sx(evalRec(e->a, m, memo), e->a->w) & maskw(e->w); break;
    case ITE: r = evalRec(e->a, m, memo) ? evalRec(e->b, m, memo) : evalRec(e->k, m, memo); break;
    default: {
        uint64_t x = evalRec(e->a, m, memo), y = evalRec(e->b, m, memo);
        if (!foldBin(e->op, e->a->w, x, y, r)) {
            // SMT-LIB semantics for division by zero
            if (e->op == UDIV) r = maskw(e->w);
            else if (e->op == SDIV) r = sx(x, e->w) < 0 ? 1 : maskw(e->w);
            else r = x;
        }
    }
    }
    if (memo) (*memo)[e] = r;
    return r;
}
uint64_t evalE(E e, const Model &m) {
    std::unordered_map<E, uint64_t> memo;
    return evalRec(e, m, &memo);
}
std::string showE(E e, int d) {
    static const char *n[] = {"", "", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "concat", "extract", "zext", "sext", "=", "<u", "<=u", "<s", "<=s", "ite"};
    if (e->op == CONST) return std::to_string(e->c) + "_" + std::to_string(e->w);
    if (e->op == SYM) return P.symNames[e->c];
    if (d == 0) return "...";
    std::string s = std::string("(") + n[e->op];
    if (e->op == EXTRACT) s += "@" + std::to_string(e->c) + "+" + std::to_string(e->w);
    if (e->op == ZEXT || e->op == SEXT) s += std::to_string(e->w);
    for (E x : {e->a, e->b, e->k}) if (x) s += " " + showE(x, d - 1);
    return s + ")";
}
} // namespace tse
