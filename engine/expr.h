// Hash-consed bit-vector expressions (width 1..64), simplification, evaluation, per-byte value sets.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <array>
#include <map>
#include <set>

enum Op : uint8_t { CONST, VAR, CONCAT, EXTRACT, ZEXT, SEXT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL,
    LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, ITE, NOT, HORN, // HORN: value of a string of decimal digits (operand a: the sum itself)
    FADD, FSUB, FMUL, FDIV, FREM, FEQ, FLT, FLE, FUNO, FPEXT, FPTRUNC, SITOFP, UITOFP, FPTOSI, FPTOUI, FNEG };

typedef std::array<uint64_t, 4> Set256;

struct Expr {
    Op op; uint8_t w; uint32_t id; uint64_t c;      // c: constant value, VAR id, or EXTRACT low bit
    const Expr *a, *b, *d;
    const std::vector<uint32_t> *sup;               // sorted ids of the byte variables it depends on
    bool fp;                                        // contains floating-point operations
    mutable uint32_t ep = 0; mutable uint64_t ev = 0; // evaluation memo
    mutable Set256 *set = nullptr;                  // for w==1 with one variable: values making it true
    mutable void *z3 = nullptr; mutable void *lit = nullptr;
};
typedef const Expr *E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= mask(w); return (int64_t)((v ^ m) - m); }

static inline double bits2d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static inline float bits2f(uint64_t v) { uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
static inline uint64_t d2bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t f2bits(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static inline double fpv(uint64_t v, unsigned w) { return w == 64 ? bits2d(v) : (double)bits2f(v); }

struct Support { // interned supports
    struct H { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103u; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
    std::unordered_map<std::vector<uint32_t>, std::vector<uint32_t> *, H> tab;
    std::vector<uint32_t> none;
    const std::vector<uint32_t> *get(const std::vector<uint32_t> &v) {
        if (v.empty()) return &none;
        auto it = tab.find(v); if (it != tab.end()) return it->second;
        auto *p = new std::vector<uint32_t>(v); tab.emplace(v, p); return p;
    }
    const std::vector<uint32_t> *join(const std::vector<uint32_t> *a, const std::vector<uint32_t> *b) {
        if (!b || b->empty() || a == b) return a;
        if (!a || a->empty()) return b;
        std::vector<uint32_t> r; r.reserve(a->size() + b->size());
        std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
        if (r.size() == a->size()) return a;
        if (r.size() == b->size()) return b;
        return get(r);
    }
};
static Support g_sup;

struct Table {
    std::vector<Expr *> buckets; size_t n = 0; std::vector<Expr *> all;
    std::vector<Expr *> next; // chain by id
    Table() : buckets(1 << 16, nullptr) {}
    static uint64_t h(Op op, uint8_t w, uint64_t c, E a, E b, E d) {
        uint64_t x = op * 1000003u + w; x = (x ^ c) * 0x9E3779B97F4A7C15ULL; x ^= x >> 29;
        x = (x ^ (a ? a->id + 1 : 0)) * 0xBF58476D1CE4E5B9ULL; x ^= x >> 31;
        x = (x ^ (b ? b->id + 1 : 0)) * 0x94D049BB133111EBULL; x ^= x >> 30;
        x = (x ^ (d ? d->id + 1 : 0)) * 0x9E3779B97F4A7C15ULL; x ^= x >> 32; return x;
    }
    E mk(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
        uint64_t k = h(op, (uint8_t)w, c, a, b, d) & (buckets.size() - 1);
        for (Expr *e = buckets[k]; e; e = next[e->id])
            if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
        Expr *e = new Expr(); e->op = op; e->w = (uint8_t)w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = (uint32_t)all.size();
        if (op == VAR) e->sup = g_sup.get({(uint32_t)c});
        else { const std::vector<uint32_t> *s = &g_sup.none; if (a) s = a->sup; if (b) s = g_sup.join(s, b->sup); if (d) s = g_sup.join(s, d->sup); e->sup = s; }
        e->fp = op >= FADD || (a && a->fp) || (b && b->fp) || (d && d->fp);
        all.push_back(e); next.push_back(buckets[k]); buckets[k] = e;
        if (++n > buckets.size()) rehash();
        return e;
    }
    void rehash() {
        std::vector<Expr *> nb(buckets.size() * 4, nullptr);
        for (Expr *e : all) { uint64_t k = h(e->op, e->w, e->c, e->a, e->b, e->d) & (nb.size() - 1); next[e->id] = nb[k]; nb[k] = e; }
        buckets.swap(nb);
    }
};
static Table g_tab;

static E K(uint64_t v, unsigned w) { return g_tab.mk(CONST, w, v & mask(w)); }
static E mkVar(uint32_t id) { return g_tab.mk(VAR, 8, id); }
static inline bool isK(E e) { return e->op == CONST; }
static inline bool isK(E e, uint64_t v) { return e->op == CONST && e->c == (v & mask(e->w)); }

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) { // operands of width w
    uint64_t m = mask(w);
    switch (op) {
        case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
        case UDIV: return b ? (a / b) & m : m; case UREM: return b ? a % b : a;
        case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
        case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
        case ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : (uint64_t)(sx(a, w) >> b) & m;
        case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
        case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
        case FADD: case FSUB: case FMUL: case FDIV: case FREM: {
            if (w == 64) { double x = bits2d(a), y = bits2d(b); return d2bits(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y)); }
            float x = bits2f(a), y = bits2f(b); return f2bits(op == FADD ? x + y : op == FSUB ? x - y : op == FMUL ? x * y : op == FDIV ? x / y : std::fmod(x, y)); }
        case FEQ: return fpv(a, w) == fpv(b, w); case FLT: return fpv(a, w) < fpv(b, w); case FLE: return fpv(a, w) <= fpv(b, w);
        case FUNO: return std::isnan(fpv(a, w)) || std::isnan(fpv(b, w));
        default: abort();
    }
}
static uint64_t foldCast(Op op, uint64_t a, unsigned sw, unsigned w) {
    switch (op) {
        case ZEXT: return a; case SEXT: return (uint64_t)sx(a, sw) & mask(w);
        case FPEXT: return d2bits((double)bits2f(a)); case FPTRUNC: return f2bits((float)bits2d(a));
        case SITOFP: return w == 64 ? d2bits((double)sx(a, sw)) : f2bits((float)sx(a, sw));
        case UITOFP: return w == 64 ? d2bits((double)a) : f2bits((float)a);
        case FPTOSI: { double d = fpv(a, sw); if (!(d > -9.3e18 && d < 9.3e18)) return 1ULL << (w - 1); return (uint64_t)(int64_t)d & mask(w); }
        case FPTOUI: { double d = fpv(a, sw); if (!(d > -1 && d < 1.9e19)) return 0; return (uint64_t)d & mask(w); }
        case FNEG: return w == 64 ? a ^ (1ULL << 63) : a ^ (1ULL << 31);
        default: abort();
    }
}
static bool isCmp(Op op) { return (op >= EQ && op <= SLE) || (op >= FEQ && op <= FUNO); }

static E mkNot(E a); static E mkIte(E c, E a, E b); static E mkExtract(E a, unsigned lo, unsigned w);
static E mkZext(E a, unsigned w); static E mkConcat(E hi, E lo); static E mkSext(E a, unsigned w);

static std::unordered_map<E, std::vector<E>> g_horn; // HORN -> its digits (bytes '0'..'9', most significant first)
static E mkBin(Op op, E a, E b);
static E mkHorn(const std::vector<E> &dg, E sum) { if (isK(sum) || dg.size() < 2 || dg.size() > 19) return sum; E h = g_tab.mk(HORN, 64, dg.size(), sum); g_horn[h] = dg; return h; }
// h < k, h == k digit by digit
static E hornLt(E h, uint64_t k) {
    auto &dg = g_horn[h]; size_t n = dg.size(); uint64_t p = 1; for (size_t i = 0; i < n; ++i) p *= 10; // n <= 19: no overflow
    if (k >= p) return K(1, 1);
    E r = K(0, 1); uint64_t v = k; // least significant first: r = d<c or (d==c and r)
    for (size_t i = n; i-- > 0; v /= 10) { E c = K('0' + v % 10, 8); r = mkBin(OR, mkBin(ULT, dg[i], c), mkBin(AND, mkBin(EQ, dg[i], c), r)); }
    return r;
}
static E hornEq(E h, uint64_t k) {
    auto &dg = g_horn[h]; E r = K(1, 1); for (size_t i = dg.size(); i-- > 0; k /= 10) r = mkBin(AND, r, mkBin(EQ, dg[i], K('0' + k % 10, 8))); return k ? K(0, 1) : r;
}
// and/or/xor piece by piece, when every piece has a constant side (undoes the masking and merging of bit fields)
static void cutsOf(E a, unsigned base, uint64_t &cuts) {
    if (a->op == CONCAT) { cuts |= 1ull << (base + a->b->w); cutsOf(a->b, base, cuts); cutsOf(a->a, base + a->b->w, cuts); }
    else if (a->op == ZEXT) { cuts |= 1ull << (base + a->a->w); cutsOf(a->a, base, cuts); }
    else if (a->op == CONST) { for (unsigned i = 1; i < a->w; ++i) if (((a->c >> i) ^ (a->c >> (i - 1))) & 1) cuts |= 1ull << (base + i); }
}
static E bitPieces(Op op, E a, E b) {
    unsigned w = a->w; if (w == 1 || (op == XOR && isK(b))) return nullptr; uint64_t cuts = 0; cutsOf(a, 0, cuts); cutsOf(b, 0, cuts); if (!cuts) return nullptr;
    std::vector<E> ps; unsigned lo = 0;
    for (unsigned i = 1; i <= w; ++i) if (i == w || (cuts >> i & 1)) {
        unsigned n = i - lo; E x = mkExtract(a, lo, n), y = mkExtract(b, lo, n), r = nullptr; lo = i; if (isK(x)) std::swap(x, y);
        if (isK(y)) { if (isK(x)) r = K(foldBin(op, x->c, y->c, n), n); else if (isK(y, 0)) r = op == AND ? y : x; else if (isK(y, ~0ull)) r = op == AND ? x : op == OR ? y : mkNot(x); }
        else if (x == y) r = op == XOR ? K(0, n) : x;
        if (!r) return nullptr; ps.push_back(r);
    }
    E r = ps[0]; for (size_t k = 1; k < ps.size(); ++k) r = mkConcat(ps[k], r); return r;
}
static E mkBin(Op op, E a, E b) {
    unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    if (isK(a) && isK(b)) return K(foldBin(op, a->c, b->c, w), rw);
    switch (op) {
        case ADD: case MUL: case AND: case OR: case XOR: case EQ:
            if (isK(a) || (!isK(b) && a->id > b->id)) std::swap(a, b); // constants right
            break;
        default: break;
    }
    if (op == EQ && a->op == HORN && isK(b)) return hornEq(a, b->c);
    if (op == EQ && a->op == EXTRACT && a->c == 0 && a->a->op == HORN && a->a->c <= 11 && w == 32 && isK(b)) { // every 64-bit value that truncates to the constant
        uint64_t p = 1; for (uint64_t i = 0; i < a->a->c; ++i) p *= 10; E h = a->a, r = K(0, 1); for (uint64_t v = b->c; v < p; v += 1ull << 32) r = mkBin(OR, r, hornEq(h, v)); return r; }
    if (op == ULT && a->op == HORN && isK(b)) return hornLt(a, b->c);
    if (op == ULT && b->op == HORN && isK(a)) return a->c == ~0ULL ? K(0, 1) : mkNot(hornLt(b, a->c + 1));
    if (op == ULT && isK(b) && a->op == ADD && a->a->op == HORN && isK(a->b)) { uint64_t lo = 0 - a->b->c, hi = lo + b->c; E l = mkNot(hornLt(a->a, lo)), h = hornLt(a->a, hi); return lo <= hi ? mkBin(AND, l, h) : mkBin(OR, l, h); }
    if (op == ULT && isK(a) && b->op == ADD && b->a->op == HORN && isK(b->b) && a->c != ~0ULL) return mkNot(mkBin(ULT, b, K(a->c + 1, 64)));
    if (op == SLT && a->op == HORN && a->c <= 18 && isK(b)) return sx(b->c, 64) <= 0 ? K(0, 1) : hornLt(a, b->c);
    if (op == SLT && b->op == HORN && b->c <= 18 && isK(a)) return sx(a->c, 64) < 0 ? K(1, 1) : mkNot(hornLt(b, a->c + 1));
    switch (op) {
        case ADD:
            if (isK(b, 0)) return a;
            if (isK(b) && a->op == ADD && isK(a->b)) return mkBin(ADD, a->a, K(a->b->c + b->c, w));
            if (isK(b) && a->op == ITE && isK(a->b) && isK(a->d)) return mkIte(a->a, K(a->b->c + b->c, w), K(a->d->c + b->c, w));
            if (w == 1) return mkBin(XOR, a, b);
            break;
        case SUB:
            if (a == b) return K(0, w);
            if (isK(b)) return mkBin(ADD, a, K(0 - b->c, w));
            { E x = a, y = b; uint64_t kx = 0, ky = 0; if (x->op == ADD && isK(x->b)) { kx = x->b->c; x = x->a; } if (y->op == ADD && isK(y->b)) { ky = y->b->c; y = y->a; }
              if (x == y) return K(kx - ky, w); if (x->op == ADD && (x->a == y || x->b == y)) return mkBin(ADD, x->a == y ? x->b : x->a, K(kx - ky, w)); }
            break;
        case MUL: if (isK(b, 0)) return b; if (isK(b, 1)) return a; break;
        case UDIV: if (isK(b, 1)) return a; if (isK(b) && b->c && !(b->c & (b->c - 1))) return mkBin(LSHR, a, K(__builtin_ctzll(b->c), w)); break;
        case UREM: if (isK(b) && b->c && !(b->c & (b->c - 1))) return mkBin(AND, a, K(b->c - 1, w)); break;
        case AND:
            if (isK(b, 0)) return b; if (isK(b, ~0ULL)) return a; if (a == b) return a;
            if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return K(0, 1);
            if (isK(b)) {
                if (a->op == AND && isK(a->b)) return mkBin(AND, a->a, K(a->b->c & b->c, w));
                if (a->op == ZEXT && a->a->w < 64) { unsigned n = a->a->w; return mkZext(mkBin(AND, a->a, K(b->c, n)), w); }
                unsigned top = 64 - __builtin_clzll(b->c); // bits above top are zero
                if (b->c == mask(top) && top < w) return mkZext(mkExtract(a, 0, top), w);
                if (a->op == ITE && isK(a->b) && isK(a->d)) return mkIte(a->a, K(a->b->c & b->c, w), K(a->d->c & b->c, w));
            }
            if (E r = bitPieces(AND, a, b)) return r;
            break;
        case OR:
            if (isK(b, 0)) return a; if (isK(b, ~0ULL)) return b; if (a == b) return a;
            if (w == 1 && ((a->op == NOT && a->a == b) || (b->op == NOT && b->a == a))) return K(1, 1);
            if (E r = bitPieces(OR, a, b)) return r;
            break;
        case XOR:
            if (isK(b, 0)) return a; if (a == b) return K(0, w); if (isK(b, ~0ULL)) return mkNot(a);
            if (isK(b) && a->op == XOR && isK(a->b)) return mkBin(XOR, a->a, K(a->b->c ^ b->c, w));
            if (E r = bitPieces(XOR, a, b)) return r;
            break;
        case SHL: case LSHR: case ASHR:
            if (isK(b, 0)) return a; if (isK(a, 0)) return a;
            if (isK(b)) {
                unsigned s = (unsigned)b->c;
                if (op != ASHR && b->c >= w) return K(0, w);
                if (op == SHL) return mkConcat(mkExtract(a, 0, w - s), K(0, s));
                if (op == LSHR) return mkZext(mkExtract(a, s, w - s), w);
                if (b->c < w) return mkSext(mkExtract(a, s, w - s), w);
            }
            break;
        case EQ:
            if (a == b) return K(1, 1);
            if (w == 1) { if (isK(b, 1)) return a; if (isK(b, 0)) return mkNot(a); }
            if (isK(b)) {
                if (a->op == ZEXT) return b->c > mask(a->a->w) ? K(0, 1) : mkBin(EQ, a->a, K(b->c, a->a->w));
                if (a->op == SEXT) { uint64_t lo = b->c & mask(a->a->w); return ((uint64_t)sx(lo, a->a->w) & mask(w)) != b->c ? K(0, 1) : mkBin(EQ, a->a, K(lo, a->a->w)); }
                if (a->op == ADD && isK(a->b)) return mkBin(EQ, a->a, K(b->c - a->b->c, w));
                if (a->op == XOR && isK(a->b)) return mkBin(EQ, a->a, K(b->c ^ a->b->c, w));
                if (a->op == ITE && isK(a->b) && isK(a->d)) { bool x = a->b->c == b->c, y = a->d->c == b->c; return x && y ? K(1, 1) : x ? a->a : y ? mkNot(a->a) : K(0, 1); }
                if (a->op == ITE && (isK(a->b) || isK(a->d))) return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->d, b));
                if (a->op == OR && b->c == 0) return mkBin(AND, mkBin(EQ, a->a, b), mkBin(EQ, a->b, b));
                if (a->op == XOR && b->c == 0) return mkBin(EQ, a->a, a->b);
                if (a->op == CONCAT) { unsigned lw = a->b->w; return mkBin(AND, mkBin(EQ, a->a, K(b->c >> lw, a->a->w)), mkBin(EQ, a->b, K(b->c, lw))); }
            }
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
            break;
        case ULT:
            if (a == b) return K(0, 1); if (isK(b, 0)) return K(0, 1); if (isK(b, 1)) return mkBin(EQ, a, K(0, w));
            if (isK(a, ~0ULL)) return K(0, 1);
            if (w == 1) return mkBin(AND, mkNot(a), b);
            if (a->op == ZEXT && isK(b)) return b->c > mask(a->a->w) ? K(1, 1) : mkBin(ULT, a->a, K(b->c, a->a->w));
            if (b->op == ZEXT && isK(a)) return a->c >= mask(b->a->w) ? K(0, 1) : mkBin(ULT, K(a->c, b->a->w), b->a);
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(ULT, a->a, b->a);
            break;
        case ULE: return mkNot(mkBin(ULT, b, a));
        case SLT:
            if (a == b) return K(0, 1);
            if (a->op == ZEXT && a->a->w < w && isK(b)) return sx(b->c, w) <= 0 ? K(0, 1) : mkBin(ULT, a, b);
            if (b->op == ZEXT && b->a->w < w && isK(a)) return sx(a->c, w) < 0 ? K(1, 1) : mkBin(ULT, a, b);
            if (a->op == ZEXT && b->op == ZEXT && a->a->w < w && b->a->w < w) return mkBin(ULT, a, b);
            if (a->op == SEXT && isK(b)) { int64_t v = sx(b->c, w), hi = (int64_t)(mask(a->a->w) >> 1), lo = -hi - 1; return v > hi ? K(1, 1) : v <= lo ? K(0, 1) : mkBin(SLT, a->a, K((uint64_t)v, a->a->w)); }
            if (b->op == SEXT && isK(a)) { int64_t v = sx(a->c, w), hi = (int64_t)(mask(b->a->w) >> 1), lo = -hi - 1; return v >= hi ? K(0, 1) : v < lo ? K(1, 1) : mkBin(SLT, K((uint64_t)v, b->a->w), b->a); }
            break;
        case SLE: return mkNot(mkBin(SLT, b, a));
        default: break;
    }
    return g_tab.mk(op, rw, 0, a, b);
}
static E mkNot(E a) {
    if (isK(a)) return K(~a->c, a->w);
    if (a->op == NOT) return a->a;
    return g_tab.mk(NOT, a->w, 0, a);
}
static E mkIte(E c, E a, E b) {
    if (isK(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == NOT) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isK(a, 1) && isK(b, 0)) return c;
        if (isK(a, 0) && isK(b, 1)) return mkNot(c);
        if (isK(a, 1)) return mkBin(OR, c, b);
        if (isK(a, 0)) return mkBin(AND, mkNot(c), b);
        if (isK(b, 0)) return mkBin(AND, c, a);
        if (isK(b, 1)) return mkBin(OR, mkNot(c), a);
    }
    if (a->op == ITE && a->a == c) a = a->b;
    if (b->op == ITE && b->a == c) b = b->d;
    if (a == b) return a;
    return g_tab.mk(ITE, a->w, 0, c, a, b);
}
static E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isK(a)) return K(a->c >> lo, w);
    switch (a->op) {
        case EXTRACT: return mkExtract(a->a, (unsigned)a->c + lo, w);
        case CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
        case ZEXT: { unsigned n = a->a->w; if (lo + w <= n) return mkExtract(a->a, lo, w); if (lo >= n) return K(0, w); return mkZext(mkExtract(a->a, lo, n - lo), w); }
        case SEXT: { unsigned n = a->a->w; if (lo + w <= n) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); break; }
        case ITE: if (isK(a->b) || isK(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
        case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case NOT: return mkNot(mkExtract(a->a, lo, w));
        case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
        default: break;
    }
    return g_tab.mk(EXTRACT, w, lo, a);
}
static E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (isK(hi) && isK(lo)) return K((hi->c << lo->w) | lo->c, w);
    if (isK(hi, 0)) return mkZext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, (unsigned)lo->c, w);
    if (lo->op == CONCAT && hi->op == EXTRACT && lo->a->op == EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
        return mkConcat(mkExtract(hi->a, (unsigned)lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->op == ZEXT) return mkZext(mkConcat(hi->a, lo), w);
    return g_tab.mk(CONCAT, w, 0, hi, lo);
}
static E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isK(a)) return K(a->c, w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    return g_tab.mk(ZEXT, w, 0, a);
}
static E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isK(a)) return K((uint64_t)sx(a->c, a->w), w);
    if (a->op == ZEXT) return mkZext(a->a, w);
    if (a->op == SEXT) return mkSext(a->a, w);
    return g_tab.mk(SEXT, w, 0, a);
}
static E mkCast(Op op, E a, unsigned w) {
    if (op == ZEXT) return mkZext(a, w);
    if (op == SEXT) return mkSext(a, w);
    if (isK(a)) return K(foldCast(op, a->c, a->w, w), w);
    return g_tab.mk(op, w, 0, a);
}

static uint32_t g_epoch = 0;
static uint64_t ev(E e, const uint8_t *m) { // m: assignment of the byte variables
    if (e->op == CONST) return e->c;
    if (e->op == VAR) return m[e->c];
    if (e->ep == g_epoch) return e->ev;
    uint64_t r;
    switch (e->op) {
        case ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
        case NOT: r = ~ev(e->a, m) & mask(e->w); break;
        case HORN: r = ev(e->a, m); break;
        case EXTRACT: r = (ev(e->a, m) >> e->c) & mask(e->w); break;
        case CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case ZEXT: case SEXT: case FPEXT: case FPTRUNC: case SITOFP: case UITOFP: case FPTOSI: case FPTOUI: case FNEG:
            r = foldCast(e->op, ev(e->a, m), e->a->w, e->w); break;
        case AND: if (e->w == 1) { r = ev(e->a, m) && ev(e->b, m); break; } r = ev(e->a, m) & ev(e->b, m); break;
        case OR: if (e->w == 1) { r = ev(e->a, m) || ev(e->b, m); break; } r = ev(e->a, m) | ev(e->b, m); break;
        default: r = foldBin(e->op, ev(e->a, m), ev(e->b, m), e->a->w);
    }
    e->ep = g_epoch; e->ev = r; return r;
}
static uint64_t evalE(E e, const uint8_t *m) { ++g_epoch; return ev(e, m); }
static std::vector<uint8_t> g_scratch;
static void (*g_certify)(E, const Set256 &) = nullptr; // asks the solver whether the set is right
static const Set256 &trueSet(E e) { // e: width 1, exactly one variable
    if (!e->set) {
        uint32_t v = (*e->sup)[0]; if (g_scratch.size() <= v) g_scratch.resize(v + 64);
        uint8_t save = g_scratch[v]; Set256 *s = new Set256{};
        for (int i = 0; i < 256; ++i) { g_scratch[v] = (uint8_t)i; if (evalE(e, g_scratch.data())) (*s)[i >> 6] |= 1ULL << (i & 63); }
        g_scratch[v] = save; e->set = s; if (g_certify) g_certify(e, *s);
    }
    return *e->set;
}
static bool isFull(const Set256 &s) { return (s[0] & s[1] & s[2] & s[3]) == ~0ULL; }
static bool isEmptySet(const Set256 &s) { return !(s[0] | s[1] | s[2] | s[3]); }
static Set256 inter(const Set256 &a, const Set256 &b) { return {a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]}; }
static Set256 compl_(const Set256 &a) { return {~a[0], ~a[1], ~a[2], ~a[3]}; }
static int firstIn(const Set256 &s) { for (int i = 0; i < 4; ++i) if (s[i]) return i * 64 + __builtin_ctzll(s[i]); return -1; }
static bool hasIn(const Set256 &s, int v) { return s[v >> 6] >> (v & 63) & 1; }
static int countIn(const Set256 &s) { int n = 0; for (auto x : s) n += __builtin_popcountll(x); return n; }
