// vpsym: bounded symbolic execution of LLVM bitcode with Z3.
//
// Every path of the entry function is executed with symbolic inputs (vp_nd());
// at each branch the solver decides which sides are possible, and every memory
// access, every assertion and every release of memory is decided by the solver
// for all values of the inputs on that path. Nothing is sampled: the run ends
// only when every feasible path has been completed (or a limit is hit, which is
// reported and is no verdict).
//
// usage: vpsym FILE.bc ENTRY [-t seconds] [-q query-ms] [-s steps-per-path] [-e max-errors] [-j i/n]
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <z3.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace llvm;
typedef uint64_t u64; typedef int64_t s64; typedef uint32_t u32; typedef uint8_t u8;

// ---------------------------------------------------------------- expressions
enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT, TABLE };
struct Ex {
    Op op; u8 w; bool undef; u64 c; Ex *a, *b, *d; u32 id; size_t h;
    std::vector<u32> *vars;
};
typedef Ex *E;
struct HK { size_t operator()(const Ex *e) const { return e->h; } };
struct EQK { bool operator()(const Ex *x, const Ex *y) const { return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; } };
static std::unordered_set<E, HK, EQK> pool;
static std::vector<E> allE;
static u32 nvars;
static std::vector<bool> varUndef;
static std::vector<std::vector<E>> tables;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline s64 sx(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }

static E mk(Op op, unsigned w, u64 c, E a = nullptr, E b = nullptr, E d = nullptr, bool un = false)
{
    Ex t; t.op = op; t.w = w; t.c = c; t.a = a; t.b = b; t.d = d;
    size_t h = op * 0x9E3779B97F4A7C15ull + w; 
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(c); mix((u64)a >> 4); mix((u64)b >> 4); mix((u64)d >> 4);
    t.h = h;
    auto it = pool.find(&t);
    if (it != pool.end()) return *it;
    E e = new Ex(t);
    e->undef = un || (a && a->undef) || (b && b->undef) || (d && d->undef);
    e->id = allE.size(); e->vars = nullptr;
    allE.push_back(e);
    pool.insert(e);
    return e;
}
static E cst(u64 v, unsigned w) { return mk(CONST, w, v & mask(w)); }
static bool isC(E e) { return e->op == CONST; }
static bool isC(E e, u64 v) { return e->op == CONST && e->c == v; }
static std::vector<E> inputVars; static std::map<std::pair<u32, unsigned>, E> undefVars;
static E newVar(unsigned w, bool undef) { u32 i = nvars++; varUndef.push_back(undef); return mk(VAR, w, i, nullptr, nullptr, nullptr, undef); }

static E extract(E e, unsigned lo, unsigned w);
static E zext(E e, unsigned w)
{
    if (e->w == w) return e;
    if (e->w > w) return extract(e, 0, w);
    if (isC(e)) return cst(e->c, w);
    if (e->op == ZEXT) return mk(ZEXT, w, 0, e->a);
    return mk(ZEXT, w, 0, e);
}
static E sext(E e, unsigned w)
{
    if (e->w == w) return e;
    if (isC(e)) return cst(sx(e->c, e->w), w);
    if (e->op == ZEXT) return mk(ZEXT, w, 0, e->a);
    if (e->op == SEXT) return mk(SEXT, w, 0, e->a);
    return mk(SEXT, w, 0, e);
}
static E concat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst(hi->c << lo->w | lo->c, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(lo->a, lo->c, w);
    if (hi->op == EXTRACT && hi->a == lo && hi->c == lo->w) return extract(lo, 0, w);
    if (hi->op == EXTRACT && lo->op == CONCAT && lo->a->op == EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w)
        return concat(extract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
    if (lo->op == CONCAT && isC(hi) && isC(lo->a)) return concat(concat(hi, lo->a), lo->b);
    return mk(CONCAT, w, 0, hi, lo);
}
static E ite(E c, E a, E b);
static E bin(Op op, E a, E b);
static bool narrow(E e, int d = 8)      // a sum of 32-bit numbers
{
    if (isC(e)) return true;
    if (e->op == ZEXT || e->op == SEXT) return e->a->w <= 32;
    return d && (e->op == ADD || e->op == SUB) && narrow(e->a, d - 1) && narrow(e->b, d - 1);
}
static E extract(E e, unsigned lo, unsigned w)
{
    if (lo == 0 && w == e->w) return e;
    switch (e->op) {
    case CONST: return cst(e->c >> lo, w);
    case EXTRACT: return extract(e->a, e->c + lo, w);
    case ZEXT:
        if (lo >= e->a->w) return cst(0, w);
        if (lo + w <= e->a->w) return extract(e->a, lo, w);
        return zext(extract(e->a, lo, e->a->w - lo), w);
    case SEXT:
        if (lo + w <= e->a->w) return extract(e->a, lo, w);
        break;
    case CONCAT:
        if (lo + w <= e->b->w) return extract(e->b, lo, w);
        if (lo >= e->b->w) return extract(e->a, lo - e->b->w, w);
        return concat(extract(e->a, 0, lo + w - e->b->w), extract(e->b, lo, e->b->w - lo));
    case ADD: case SUB:     // low bits depend on low bits only
        if (lo == 0 && w == 32 && e->w == 64) {
            if (narrow(e->a) && narrow(e->b)) return bin(e->op, extract(e->a, 0, w), extract(e->b, 0, w));
        }
        break;
    case AND: case OR: case XOR:
        if (isC(e->a) || isC(e->b)) return bin(e->op, extract(e->a, lo, w), extract(e->b, lo, w));
        break;
    case SHL:
        if (isC(e->b) && e->b->c < e->w) {
            unsigned s = e->b->c;
            if (lo >= s) return extract(e->a, lo - s, w);
            if (lo + w <= s) return cst(0, w);
        }
        break;
    case LSHR:
        if (isC(e->b) && e->b->c < e->w) {
            unsigned s = e->b->c;
            if (lo + w + s <= e->w) return extract(e->a, lo + s, w);
            if (lo + s >= e->w) return cst(0, w);
        }
        break;
    case ITE:
        if (isC(e->b) || isC(e->d)) return ite(e->a, extract(e->b, lo, w), extract(e->d, lo, w));
        break;
    default: break;
    }
    return mk(EXTRACT, w, lo, e);
}
static u64 fold(Op op, u64 x, u64 y, unsigned w, bool &ok)
{
    ok = true;
    switch (op) {
    case ADD: return (x + y) & mask(w);
    case SUB: return (x - y) & mask(w);
    case MUL: return (x * y) & mask(w);
    case UDIV: if (!y) return mask(w); return x / y;
    case UREM: if (!y) return x; return x % y;
    case SDIV: if (!y) return sx(x, w) < 0 ? 1 : mask(w); if (y == mask(w)) return (-x) & mask(w); return (u64)(sx(x, w) / sx(y, w)) & mask(w);
    case SREM: if (!y) return x; if (y == mask(w)) return 0; return (u64)(sx(x, w) % sx(y, w)) & mask(w);
    case AND: return x & y;
    case OR: return x | y;
    case XOR: return x ^ y;
    case SHL: return y >= w ? 0 : (x << y) & mask(w);
    case LSHR: return y >= w ? 0 : x >> y;
    case ASHR: return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & mask(w);
    case EQ: return x == y;
    case ULT: return x < y;
    case ULE: return x <= y;
    case SLT: return sx(x, w) < sx(y, w);
    case SLE: return sx(x, w) <= sx(y, w);
    default: ok = false; return 0;
    }
}
static E notE(E e) { return bin(EQ, e, cst(0, 1)); }
// pieces of an expression, low bits first; nullptr stands for zero bits
typedef std::vector<std::pair<unsigned, E>> Segs;
static void segs(E e, Segs &o)
{
    if (isC(e, 0)) { o.push_back({e->w, nullptr}); return; }
    if (e->op == ZEXT) { segs(e->a, o); o.push_back({e->w - e->a->w, nullptr}); return; }
    if (e->op == CONCAT) { segs(e->b, o); segs(e->a, o); return; }
    if (e->op == SHL && isC(e->b) && e->b->c < e->w) { o.push_back({(unsigned)e->b->c, nullptr}); segs(extract(e->a, 0, e->w - e->b->c), o); return; }
    o.push_back({e->w, e});
}
// a | b (or a + b) where no bit can be set in both: a concatenation
static E disjoint(E a, E b)
{
    Segs x, y; segs(a, x); segs(b, y);
    if (x.size() == 1 && y.size() == 1) return nullptr;
    size_t i = 0, j = 0; unsigned xo = 0, yo = 0, at = 0; E r = nullptr;
    while (at < a->w) {
        unsigned n = std::min(x[i].first - xo, y[j].first - yo);
        E p = x[i].second, q = y[j].second, t;
        if (p && q) return nullptr;
        t = p ? extract(p, xo, n) : q ? extract(q, yo, n) : cst(0, n);
        if (n) r = r ? concat(t, r) : t;
        at += n;
        if ((xo += n) == x[i].first) { i++; xo = 0; while (i < x.size() && x[i].first == 0) i++; }
        if ((yo += n) == y[j].first) { j++; yo = 0; while (j < y.size() && y[j].first == 0) j++; }
    }
    return r;
}
// largest value an expression can have, cheaply
static u64 umax(E e, int depth = 4)
{
    if (isC(e)) return e->c;
    if (depth) switch (e->op) {
    case ZEXT: return umax(e->a, depth - 1);
    case AND: return std::min(umax(e->a, depth - 1), umax(e->b, depth - 1));
    case LSHR: if (isC(e->b)) return e->b->c >= e->w ? 0 : umax(e->a, depth - 1) >> e->b->c; break;
    case UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; break;
    case ADD: { u64 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1); if (x + y >= x && x + y <= mask(e->w)) return x + y; break; }
    case MUL: { u64 x = umax(e->a, depth - 1), y = umax(e->b, depth - 1); if (!x || !y) return 0; if (x <= mask(e->w) / y) return x * y; break; }
    case SHL: if (isC(e->b) && e->b->c < e->w) { u64 x = umax(e->a, depth - 1); if (x <= mask(e->w) >> e->b->c) return x << e->b->c; } break;
    case ITE: return std::max(umax(e->b, depth - 1), umax(e->d, depth - 1));
    default: break;
    }
    return mask(e->w);
}
static E bin(Op op, E a, E b)
{
    unsigned w = a->w, rw = (op >= EQ && op <= SLE) ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    bool ok;
    if (isC(a) && isC(b)) { u64 v = fold(op, a->c, b->c, w, ok); if (ok) return cst(v, rw); }
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ;
    if (comm && isC(a)) std::swap(a, b);               // constant on the right
    else if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    switch (op) {
    case ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == ADD && isC(a->b)) return bin(ADD, a->a, cst(a->b->c + b->c, w));
        if (!isC(b) && a->op == ADD && isC(a->b)) return bin(ADD, bin(ADD, a->a, b), a->b);
        if (!isC(b) && b->op == ADD && isC(b->b)) return bin(ADD, bin(ADD, a, b->a), b->b);
        if (b->op == SUB && b->b == a) return b->a;
        if (a->op == SUB && a->b == b) return a->a;
        break;
    case SUB:
        if (isC(b)) return bin(ADD, a, cst(-b->c, w));
        if (a == b) return cst(0, w);
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        if (b->op == ADD && b->a == a) return bin(SUB, cst(0, w), b->b);
        if (a->op == ADD && isC(a->b) && b->op == ADD && isC(b->b)) return bin(ADD, bin(SUB, a->a, b->a), cst(a->b->c - b->b->c, w));
        if (a->op == ADD && isC(a->b)) return bin(ADD, bin(SUB, a->a, b), a->b);
        if (b->op == ADD && isC(b->b)) return bin(ADD, bin(SUB, a, b->a), cst(-b->b->c, w));
        break;
    case MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && (b->c & (b->c - 1)) == 0) return bin(SHL, a, cst(__builtin_ctzll(b->c), w));
        break;
    case UDIV: if (isC(b, 1)) return a; if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(LSHR, a, cst(__builtin_ctzll(b->c), w)); break;
    case UREM: if (isC(b, 1)) return cst(0, w); if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return bin(AND, a, cst(b->c - 1, w));
        if (isC(b) && umax(a) < b->c) return a; break;
    case SDIV: if (isC(b, 1)) return a; break;
    case AND:
        if (isC(b, 0)) return b;
        if (isC(b, mask(w)) || a == b) return a;
        if (isC(b) && (b->c & (b->c + 1)) == 0) { unsigned k = __builtin_popcountll(b->c); return zext(extract(a, 0, k), w); }
        if (isC(b) && a->op == ZEXT) { if ((b->c & mask(a->a->w)) == mask(a->a->w)) return a; return zext(bin(AND, a->a, cst(b->c, a->a->w)), w); }
        if (isC(b)) {       // a run of ones
            unsigned z = __builtin_ctzll(b->c); u64 t = b->c >> z;
            if (z && (t & (t + 1)) == 0) {
                unsigned k = __builtin_popcountll(t);
                return zext(concat(extract(a, z, k), cst(0, z)), w);
            }
        }
        if (w == 1 && a->op == EQ && b->op == EQ && (a == notE(b))) return cst(0, 1);
        break;
    case OR:
        if (isC(b, 0) || a == b) return a;
        if (isC(b, mask(w))) return b;
        if (w > 1 && w <= 64 && (a->op == ZEXT || a->op == CONCAT || a->op == SHL || b->op == ZEXT || b->op == CONCAT || b->op == SHL)) {
            E r = disjoint(a, b);
            if (r) return r;
        }
        // disjoint bit ranges become concatenations
        for (int k = 0; k < 2; k++) {
            E x = k ? b : a, y = k ? a : b;
            if (x->op == SHL && isC(x->b) && x->b->c < w && y->op == ZEXT && y->a->w <= x->b->c) {
                unsigned s = x->b->c;
                return concat(extract(x->a, 0, w - s), zext(y->a, s));
            }
            if (x->op == CONCAT && isC(x->b, 0) && y->op == ZEXT && y->a->w <= x->b->w)
                return concat(x->a, zext(y->a, x->b->w));
        }
        break;
    case XOR:
        if (isC(b, 0)) return a;
        if (a == b) return cst(0, w);
        if (w == 1 && isC(b, 1)) return notE(a);
        if (isC(b) && a->op == XOR && isC(a->b)) return bin(XOR, a->a, cst(a->b->c ^ b->c, w));
        break;
    case SHL:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c >= w) return cst(0, w);
        if (isC(b) && a->op == ZEXT && a->a->w + b->c <= w) return zext(concat(a->a, cst(0, b->c)), w);
        break;
    case LSHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->c >= w) return cst(0, w);
        if (isC(b)) return zext(extract(a, b->c, w - b->c), w);
        break;
    case ASHR: if (isC(b, 0)) return a; break;
    case EQ:
        if (a == b) return cst(1, 1);
        if (w == 1 && isC(b, 1)) return a;
        if (w == 1 && isC(b, 0) && a->op == EQ && a->a->w == 1 && isC(a->b, 0)) return a->a;   // not not
        if (isC(b) && a->op == ZEXT) { if (b->c > mask(a->a->w)) return cst(0, 1); return bin(EQ, a->a, cst(b->c, a->a->w)); }
        if (isC(b) && a->op == SEXT) { if ((u64)(sx(b->c, a->a->w) & mask(w)) != b->c) return cst(0, 1); return bin(EQ, a->a, cst(b->c, a->a->w)); }
        if (isC(b) && a->op == ADD && isC(a->b)) return bin(EQ, a->a, cst(b->c - a->b->c, w));
        if (isC(b) && a->op == SUB && b->c == 0) return bin(EQ, a->a, a->b);
        if (isC(b) && a->op == XOR && isC(a->b)) return bin(EQ, a->a, cst(b->c ^ a->b->c, w));
        if (isC(b) && a->op == ITE && isC(a->b) && isC(a->d)) {
            if (a->b->c == b->c) return a->d->c == b->c ? cst(1, 1) : a->a;
            return a->d->c == b->c ? notE(a->a) : cst(0, 1);
        }
        if (isC(b) && a->op == CONCAT && isC(a->a)) { if (a->a->c != b->c >> a->b->w) return cst(0, 1); return bin(EQ, a->b, cst(b->c, a->b->w)); }
        if (isC(b) && a->op == CONCAT && isC(a->b)) { if (a->b->c != (b->c & mask(a->b->w))) return cst(0, 1); return bin(EQ, a->a, cst(b->c >> a->b->w, a->a->w)); }
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(EQ, a->a, b->a);
        if (a->op == ADD && b->op == ADD) {
            if (a->a == b->a) return bin(EQ, a->b, b->b);
            if (a->b == b->b) return bin(EQ, a->a, b->a);
            if (a->a == b->b) return bin(EQ, a->b, b->a);
            if (a->b == b->a) return bin(EQ, a->a, b->b);
        }
        if (isC(b) && umax(a) < b->c) return cst(0, 1);
        break;
    case ULT:
        if (a == b || isC(b, 0)) return cst(0, 1);
        if (isC(b, 1)) return bin(EQ, a, cst(0, w));
        if (isC(b) && umax(a) < b->c) return cst(1, 1);
        if (isC(a) && umax(b) <= a->c) return cst(0, 1);
        if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return bin(ULT, a->a, b->a);
        if (a->op == ZEXT && isC(b) && b->c <= mask(a->a->w)) return bin(ULT, a->a, cst(b->c, a->a->w));
        if (b->op == ZEXT && isC(a)) { if (a->c >= mask(b->a->w)) return cst(0, 1); return bin(ULT, cst(a->c, b->a->w), b->a); }
        break;
    case ULE: return notE(bin(ULT, b, a));
    case SLT:
        if (a == b) return cst(0, 1);
        if (umax(a) <= mask(w - 1) && umax(b) <= mask(w - 1)) return bin(ULT, a, b);
        if (isC(b, 0) && umax(a) <= mask(w - 1)) return cst(0, 1);
        break;
    case SLE: return notE(bin(SLT, b, a));
    default: break;
    }
    return mk(op, rw, 0, a, b);
}
static E ite(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->op == EQ && c->a->w == 1 && isC(c->b, 0)) return ite(c->a, b, a);
    if (a->w == 1 && isC(a, 1) && isC(b, 0)) return c;
    if (a->w == 1 && isC(a, 0) && isC(b, 1)) return notE(c);
    return mk(ITE, a->w, 0, c, a, b);
}
static const std::vector<u32> &varsOf(E e)
{
    if (e->vars) return *e->vars;
    // iterative post-order: expressions can be deep
    std::vector<std::pair<E, bool>> st; st.push_back({e, false});
    while (!st.empty()) {
        auto [x, done] = st.back(); st.pop_back();
        if (x->vars) continue;
        std::vector<E> kids;
        if (x->a) kids.push_back(x->a);
        if (x->b) kids.push_back(x->b);
        if (x->d) kids.push_back(x->d);
        if (x->op == TABLE) for (E t : tables[x->c]) kids.push_back(t);
        if (!done) { st.push_back({x, true}); for (E k : kids) if (!k->vars) st.push_back({k, false}); continue; }
        auto *v = new std::vector<u32>;
        if (x->op == VAR) v->push_back(x->c);
        else {
            if (kids.size() == 1) { delete v; x->vars = kids[0]->vars; continue; }
            std::set<u32> s;
            for (E k : kids) s.insert(k->vars->begin(), k->vars->end());
            v->assign(s.begin(), s.end());
        }
        x->vars = v;
    }
    return *e->vars;
}
// ---------------------------------------------------------------- evaluation
typedef std::vector<u64> Model;
struct Eval {
    const Model &m; std::unordered_map<E, u64> memo;
    Eval(const Model &m) : m(m) {}
    u64 get(E e)
    {
        if (e->op == CONST) return e->c;
        if (e->op == VAR) return e->c < m.size() ? m[e->c] & mask(e->w) : 0;
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        u64 r; bool ok;
        switch (e->op) {
        case ITE: r = get(e->a) ? get(e->b) : get(e->d); break;
        case ZEXT: r = get(e->a); break;
        case SEXT: r = sx(get(e->a), e->a->w) & mask(e->w); break;
        case EXTRACT: r = (get(e->a) >> e->c) & mask(e->w); break;
        case CONCAT: r = get(e->a) << e->b->w | get(e->b); break;
        case TABLE: { u64 i = get(e->a); auto &t = tables[e->c]; r = i < t.size() ? get(t[i]) : 0; break; }
        default: r = fold(e->op, get(e->a), get(e->b), e->a->w, ok);
        }
        memo[e] = r;
        return r;
    }
};
// ---------------------------------------------------------------- solver
static Z3_context ctx;
static Z3_solver slv;
static std::vector<Z3_ast> bvCache, boolCache;
static std::vector<Z3_ast> varAst;
static u64 nQueries, nCache; static double solverTime; static u64 nUnknown;
static unsigned queryMs = 120000;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static Z3_ast toBool(E e);
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_ast toBV(E e)
{
    if (bvCache.size() <= e->id) bvCache.resize(allE.size() + 1024, nullptr);
    if (bvCache[e->id]) return bvCache[e->id];
    Z3_ast r;
    Z3_sort s = Z3_mk_bv_sort(ctx, e->w);
    switch (e->op) {
    case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, s); break;
    case VAR: {
        if (varAst.size() <= e->c) varAst.resize(nvars + 64, nullptr);
        char n[24]; snprintf(n, sizeof n, "v%lu", (unsigned long)e->c);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), s); varAst[e->c] = keep(r); break; }
    case ADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
    case UREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, toBV(e->a)); break;
    case CONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
    case AND: case OR: case XOR:
        if (e->w > 1) { auto f = e->op == AND ? Z3_mk_bvand : e->op == OR ? Z3_mk_bvor : Z3_mk_bvxor; r = f(ctx, toBV(e->a), toBV(e->b)); break; }
        goto viabool;
    case ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->d)); break;
    case TABLE: {
        auto t = tables[e->c];
        r = toBV(t.back());
        for (size_t i = t.size() - 1; i-- > 0; )
            r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, toBV(e->a), Z3_mk_unsigned_int64(ctx, i, Z3_mk_bv_sort(ctx, e->a->w))), toBV(t[i]), r);
        break; }
    default: viabool:
        r = Z3_mk_ite(ctx, toBool(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
    }
    return bvCache[e->id] = keep(r);
}
static Z3_ast toBool(E e)
{
    if (boolCache.size() <= e->id) boolCache.resize(allE.size() + 1024, nullptr);
    if (boolCache[e->id]) return boolCache[e->id];
    Z3_ast r, p[2];
    switch (e->op) {
    case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ:
        if (e->a->w == 1) { if (isC(e->b, 0)) r = Z3_mk_not(ctx, toBool(e->a)); else r = Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)); }
        else r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b));
        break;
    case ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
    case ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
    case SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
    case AND: p[0] = toBool(e->a); p[1] = toBool(e->b); r = Z3_mk_and(ctx, 2, p); break;
    case OR: p[0] = toBool(e->a); p[1] = toBool(e->b); r = Z3_mk_or(ctx, 2, p); break;
    case XOR: r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->d)); break;
    default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    if (boolCache.size() <= e->id) boolCache.resize(allE.size() + 1024, nullptr);
    return boolCache[e->id] = keep(r);
}
enum Sat { UNSAT, SAT, UNKNOWN };
struct QRes { Sat r; std::vector<std::pair<u32, u64>> vals; };
struct VecHash { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h = h * 1000003u ^ x; return h; } };
static std::unordered_map<std::vector<u32>, QRes, VecHash> qcache;

// is PC and all of <extra> satisfiable? on SAT <m> becomes a model (base overlaid)
static Sat solve(const std::vector<E> &pc, E extra, const Model &base, Model *m)
{
    if (isC(extra)) { if (!extra->c) return UNSAT; if (m) *m = base; return SAT; }
    std::unordered_set<u32> vs(varsOf(extra).begin(), varsOf(extra).end());
    std::vector<E> rel{extra};
    std::vector<bool> used(pc.size(), false);
    for (bool ch = true; ch; ) {
        ch = false;
        for (size_t i = pc.size(); i-- > 0; ) {
            if (used[i]) continue;
            bool hit = false;
            for (u32 v : varsOf(pc[i])) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = true; rel.push_back(pc[i]); for (u32 v : varsOf(pc[i])) vs.insert(v); ch = true; }
        }
    }
    std::vector<u32> key; for (E e : rel) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    auto it = qcache.find(key);
    QRes q;
    if (it != qcache.end()) { q = it->second; nCache++; }
    else {
        double t0 = now();
        Z3_solver_reset(ctx, slv);
        for (E e : rel) Z3_solver_assert(ctx, slv, toBool(e));
        Z3_lbool r = Z3_solver_check(ctx, slv);
        q.r = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
        if (r == Z3_L_TRUE) {
            Z3_model md = Z3_solver_get_model(ctx, slv);
            Z3_model_inc_ref(ctx, md);
            for (u32 v : vs) {
                u64 val = 0;
                if (v < varAst.size() && varAst[v]) {
                    Z3_ast a;
                    if (Z3_model_eval(ctx, md, varAst[v], true, &a)) { Z3_inc_ref(ctx, a); uint64_t t = 0; Z3_get_numeral_uint64(ctx, a, &t); val = t; Z3_dec_ref(ctx, a); }
                }
                q.vals.push_back({v, val});
            }
            Z3_model_dec_ref(ctx, md);
        }
        nQueries++;
        solverTime += now() - t0;
        if (getenv("VPSYM_SLOW")) { extern void slowQuery(double); slowQuery(now() - t0); }
        if (q.r == UNKNOWN) nUnknown++;
        if (qcache.size() > 2000000) qcache.clear();
        qcache[key] = q;
    }
    if (q.r == SAT && m) {
        Model t = base;
        for (auto &p : q.vals) { if (t.size() <= p.first) t.resize(p.first + 1, 0); t[p.first] = p.second; }
        *m = std::move(t);
    }
    return q.r;
}
// ---------------------------------------------------------------- memory
template <class T> struct Ref {
    T *p;
    Ref(T *q = nullptr) : p(q) { if (p) p->rc++; }
    Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    Ref &operator=(Ref o) { std::swap(p, o.p); return *this; }
    T *operator->() const { return p; }
    operator bool() const { return p; }
};
enum Kind : u8 { GLOBAL, STACK, HEAP };
struct Obj {
    int rc = 0; u64 base, size; bool alive = true, ro = false; Kind kind;
    std::vector<u8> conc; std::vector<u8> st;      // st: 0 undefined, 1 concrete, 2 symbolic
    std::unordered_map<u32, E> sym; const char *what = "";
};
#define SHIFT 36
static u64 baseOf(u64 id) { return (id << SHIFT) + (1ull << (SHIFT - 1)); }
struct Frame {
    Function *f; BasicBlock *bb; BasicBlock *prev; BasicBlock::iterator pc; CallBase *site = nullptr;
    std::vector<E> regs; std::vector<u32> locals; std::vector<E> va;
};
struct State {
    std::vector<Frame> fr; std::vector<Ref<Obj>> objs; std::vector<E> pc; std::unordered_map<E, E> subst; std::unordered_map<E, std::pair<u64, u64>> range;
    std::vector<E> inputs; u32 nUndef = 0; Model model; u64 steps = 0; std::vector<const char *> reached;
};
static Module *M; static const DataLayout *DL;
static std::unordered_map<const Value *, u32> regNo; static std::unordered_map<const Function *, u32> nRegs;
static std::unordered_map<const GlobalValue *, u64> gaddr; static std::unordered_map<u64, Function *> faddr;
static std::vector<State *> work;
static u64 nPaths, nInstr, nForks, nKilled; static u64 maxSteps = 3000000; static unsigned maxErr = 6; static double tLimit = 600, tStart;
static std::set<std::string> errSeen, reachSeen; static std::set<const Function *> executed; static std::set<std::string> noVerdict;
static unsigned nErr; static unsigned partI, partN = 1; static u64 partNo;
static bool strictShift;
static u64 nAsserts, nMemChecks, nRange;

struct Kill {};         // this path ends here
static Instruction *curI;
static std::string loc(State &s)
{
    std::string r;
    for (size_t k = s.fr.size(); k-- > 0 && r.size() < 300; ) {
        Instruction *I = k + 1 == s.fr.size() ? curI : s.fr[k + 1].site;
        std::string f = s.fr[k].f->getName().str();
        char b[300]; const DebugLoc *d = I ? &I->getDebugLoc() : nullptr;
        if (d && *d) { std::string fn = (*d)->getFilename().str(); size_t p = fn.rfind('/'); snprintf(b, sizeof b, "%s(%s:%u)", f.c_str(), fn.c_str() + (p == std::string::npos ? 0 : p + 1), (*d).getLine()); }
        else snprintf(b, sizeof b, "%s", f.c_str());
        if (r.size()) r += " < ";
        r += b;
    }
    return r;
}
static void values(State &s, const Model &m) { Eval ev(m); for (E e : s.inputs) printf(" %llu", (unsigned long long)ev.get(e)); printf("\n"); }
static void error(State &s, const char *kind, const std::string &msg, const Model &m)
{
    std::string l = loc(s), top = l.substr(0, l.find(" < "));
    std::string key = std::string(kind) + "|" + msg + "|" + top;
    if (errSeen.insert(key).second) {
        nErr++;
        printf("ERROR %s|%s|%s\nVALUES", kind, msg.c_str(), l.c_str());
        values(s, m);
        fflush(stdout);
    }
}
static void none(const std::string &why) { if (noVerdict.insert(why).second) { printf("NOVERDICT %s\n", why.c_str()); fflush(stdout); } }

// the n-th input (or unwritten byte) of every path is the same variable, so that queries can be shared
static E newInput(State &s)
{
    size_t k = s.inputs.size();
    if (k >= inputVars.size()) inputVars.push_back(newVar(64, false));
    s.inputs.push_back(inputVars[k]);
    return inputVars[k];
}
static E newUndef(State &s, unsigned w)
{
    E &e = undefVars[{s.nUndef++, w}];
    if (!e) e = newVar(w, true);
    return e;
}
static E simp(State &s, E e)
{
    if (isC(e)) return e;
    auto it = s.subst.find(e);
    return it == s.subst.end() ? e : it->second;
}
// unsigned interval of an expression, from what the path has decided so far
typedef std::pair<u64, u64> Rg;
static Rg rng(State &s, E e, int depth = 10)
{
    if (isC(e)) return {e->c, e->c};
    Rg r{0, mask(e->w)};
    u64 mw = mask(e->w);
    auto it = s.range.find(e);
    if (it != s.range.end()) r = it->second;
    if (!depth) return r;
    auto meet = [&](u64 lo, u64 hi) { if (lo > r.first) r.first = lo; if (hi < r.second) r.second = hi; };
    switch (e->op) {
    case ZEXT: { Rg a = rng(s, e->a, depth - 1); meet(a.first, a.second); break; }
    case ADD: {
        Rg a = rng(s, e->a, depth - 1), b = rng(s, e->b, depth - 1);
        u64 lo = a.first + b.first, hi = a.second + b.second;
        bool clo = lo < a.first || lo > mw, chi = hi < a.second || hi > mw;
        if (clo == chi) meet(lo & mw, hi & mw);       // neither wraps, or both do
        break; }
    case SUB: {
        Rg a = rng(s, e->a, depth - 1), b = rng(s, e->b, depth - 1);
        if (a.first >= b.second) meet(a.first - b.second, a.second - b.first);
        else if (a.second < b.first) meet((a.first - b.second) & mw, (a.second - b.first) & mw);
        auto rv = s.range.find(bin(SUB, e->b, e->a));
        if (rv != s.range.end() && rv->second.first >= 1) meet((-rv->second.second) & mw, (-rv->second.first) & mw);
        break; }
    case AND: { Rg a = rng(s, e->a, depth - 1), b = rng(s, e->b, depth - 1); meet(0, std::min(a.second, b.second)); break; }
    case LSHR: if (isC(e->b) && e->b->c < e->w) { Rg a = rng(s, e->a, depth - 1); meet(a.first >> e->b->c, a.second >> e->b->c); } break;
    case SHL: if (isC(e->b) && e->b->c < e->w) { Rg a = rng(s, e->a, depth - 1); if (a.second <= mw >> e->b->c) meet(a.first << e->b->c, a.second << e->b->c); } break;
    case MUL: if (isC(e->b) && e->b->c) { Rg a = rng(s, e->a, depth - 1); if (a.second <= mw / e->b->c) meet(a.first * e->b->c, a.second * e->b->c); } break;
    case CONCAT: { Rg a = rng(s, e->a, depth - 1), b = rng(s, e->b, depth - 1); if (a.first == a.second) meet(a.first << e->b->w | b.first, a.first << e->b->w | b.second); else meet(a.first << e->b->w, (a.second << e->b->w) | mask(e->b->w)); break; }
    case EXTRACT: if (e->c == 0) { Rg a = rng(s, e->a, depth - 1); if (a.second <= mw) meet(a.first, a.second); } break;
    case ITE: { Rg a = rng(s, e->b, depth - 1), b = rng(s, e->d, depth - 1); meet(std::min(a.first, b.first), std::max(a.second, b.second)); break; }
    case UREM: if (isC(e->b) && e->b->c) meet(0, e->b->c - 1); break;
    default: break;
    }
    return r;
}
// does the interval knowledge decide this condition? -1 unknown
static int decide(State &s, E c)
{
    if (isC(c)) return c->c;
    if (c->op == EQ && c->a->w == 1 && isC(c->b, 0)) { int d = decide(s, c->a); return d < 0 ? d : !d; }
    if (c->op == ULT) {
        Rg a = rng(s, c->a), b = rng(s, c->b);
        if (a.second < b.first) return 1;
        if (a.first >= b.second) return 0;
    } else if (c->op == SLT) {
        u64 h = 1ull << (c->a->w - 1);
        Rg a = rng(s, c->a), b = rng(s, c->b);
        if ((a.first >= h) == (a.second >= h) && (b.first >= h) == (b.second >= h)) {
            bool na = a.first >= h, nb = b.first >= h;
            if (na != nb) return na;
            if (a.second < b.first) return 1;
            if (a.first >= b.second) return 0;
        }
    } else if (c->op == EQ && c->a->w > 1) {
        Rg a = rng(s, c->a), b = rng(s, c->b);
        if (a.second < b.first || b.second < a.first) return 0;
        if (a.first == a.second && b.first == b.second) return a.first == b.first;
    } else if (c->op == AND && c->w == 1) {
        int x = decide(s, c->a), y = decide(s, c->b);
        if (!x || !y) return 0;
        if (x == 1 && y == 1) return 1;
    } else if (c->op == OR && c->w == 1) {
        int x = decide(s, c->a), y = decide(s, c->b);
        if (x == 1 || y == 1) return 1;
        if (!x && !y) return 0;
    }
    return -1;
}
static void narrow(State &s, E e, u64 lo, u64 hi, int depth = 8)
{
    if (isC(e) || lo > hi) return;
    auto it = s.range.insert({e, Rg{0, mask(e->w)}}).first;
    if (lo > it->second.first) it->second.first = lo;
    if (hi < it->second.second) it->second.second = hi;
    lo = it->second.first; hi = it->second.second;
    if (lo > hi || !depth) return;
    if (lo == hi) s.subst[e] = cst(lo, e->w);
    switch (e->op) {
    case ZEXT: narrow(s, e->a, std::min(lo, mask(e->a->w)), std::min(hi, mask(e->a->w)), depth - 1); break;
    case ADD: if (isC(e->b)) { u64 c = e->b->c; if (lo >= c || hi < c) narrow(s, e->a, (lo - c) & mask(e->w), (hi - c) & mask(e->w), depth - 1); } break;
    case EXTRACT: if (e->c == 0) { Rg a = rng(s, e->a, 4); if (a.second <= mask(e->w)) narrow(s, e->a, lo, hi, depth - 1); } break;
    default: break;
    }
}
static void learnRange(State &s, E c, bool v)
{
    if (c->op == EQ && c->a->w == 1 && isC(c->b, 0)) { learnRange(s, c->a, !v); return; }
    if (c->op == ULT) {
        Rg a = rng(s, c->a), b = rng(s, c->b);
        if (v && !isC(c->a) && !isC(c->b)) {      // a < b: the difference is positive
            E d = bin(SUB, c->b, c->a), k = d;
            if (d->op == SUB) narrow(s, d, 1, mask(d->w));
            else if (d->op == ADD && isC(d->b)) narrow(s, d, 1, mask(d->w));
        }
        if (v) { if (b.second) narrow(s, c->a, 0, b.second - 1); if (a.first != ~0ull) narrow(s, c->b, a.first + 1, mask(c->b->w)); }
        else { narrow(s, c->a, b.first, mask(c->a->w)); narrow(s, c->b, 0, a.second); }
    } else if (c->op == EQ && c->a->w > 1) {
        Rg a = rng(s, c->a), b = rng(s, c->b);
        if (v) { narrow(s, c->a, b.first, b.second); narrow(s, c->b, a.first, a.second); }
        else if (isC(c->b)) {
            if (a.first == c->b->c && a.first != ~0ull) narrow(s, c->a, a.first + 1, a.second);
            else if (a.second == c->b->c && a.second) narrow(s, c->a, a.first, a.second - 1);
        }
    }
}
static std::string show(E e, int d = 8)
{
    static const char *n[] = {"const", "v", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>", ">>s", "==", "<", "<=", "<s", "<=s", "ite", "zext", "sext", "extract", "concat", "table"};
    char b[64];
    if (isC(e)) { snprintf(b, sizeof b, "0x%llx", (unsigned long long)e->c); return b; }
    if (e->op == VAR) { snprintf(b, sizeof b, "%s%llu", e->undef ? "undef" : "v", (unsigned long long)e->c); return b; }
    if (!d) return "...";
    snprintf(b, sizeof b, "(%s%d", n[e->op], e->w);
    std::string r = b;
    if (e->op == EXTRACT) { snprintf(b, sizeof b, "@%llu", (unsigned long long)e->c); r += b; }
    for (E k : {e->a, e->b, e->d}) if (k) r += " " + show(k, d - 1);
    return r + ")";
}
static void learn(State &s, E c)
{
    s.subst[c] = cst(1, 1);
    learnRange(s, c, true);
    s.subst[notE(c)] = cst(0, 1);
    E x = c;
    if (x->op == EQ && isC(x->b)) {
        E a = x->a; u64 v = x->b->c;
        while (true) {
            s.subst[a] = cst(v, a->w);
            if (a->op == ZEXT) { a = a->a; continue; }
            if (a->op == ADD && isC(a->b)) { v -= a->b->c; v &= mask(a->w); a = a->a; continue; }
            break;
        }
        if (a->w == 1 && v == 0) { E n = notE(a); s.subst[n] = cst(1, 1); if (a->op == AND) {} else if (a->op == OR) { learn(s, notE(a->a)); learn(s, notE(a->b)); } }
    } else if (x->op == AND && x->w == 1) { learn(s, x->a); learn(s, x->b); }
}
static void addC(State &s, E c)
{
    if (isC(c)) return;
    if (c->op == AND && c->w == 1) { addC(s, c->a); addC(s, c->b); learn(s, c); return; }
    s.pc.push_back(c); learn(s, c);
}
static u64 evalIn(State &s, E e) { Eval ev(s.model); return ev.get(e); }
static void undefUse(State &s, E e, const char *what)
{
    if (!e->undef) return;
    // does the value really depend on memory nobody wrote? vary only that
    bool any = false; for (u32 v : varsOf(e)) if (varUndef[v]) any = true;
    if (!any) return;
    error(s, "uninit", std::string(what) + " depends on uninitialised memory", s.model);
    throw Kill();
}
// both sides of <c>: returns {taken, other}; other may be null. taken side has value tv.
static State *forkOn(State &s, E c, bool &tv)
{
    c = simp(s, c);
    if (isC(c)) { tv = c->c; return nullptr; }
    int dec = decide(s, c);
    if (dec >= 0) { tv = dec; nRange++; return nullptr; }
    tv = evalIn(s, c);
    E oc = tv ? notE(c) : c;
    Model m;
    Sat r = solve(s.pc, oc, s.model, &m);
    State *o = nullptr;
    if (r == UNKNOWN) none("solver gave no answer within the query limit at " + loc(s));
    if (r == SAT) { o = new State(s); o->model = std::move(m); addC(*o, oc); nForks++; addC(s, tv ? c : notE(c)); }
    else { E k = tv ? c : notE(c); learn(s, k); }        // implied: no need to store
    return o;
}
// makes <e> concrete: other feasible values are continued as copies that re-execute this instruction
static u64 concretize(State &s, E e, const char *what, unsigned limit = 600)
{
    e = simp(s, e);
    if (isC(e)) return e->c;
    undefUse(s, e, what);
    u64 v = evalIn(s, e);
    State *cur = &s;
    E ne = notE(bin(EQ, e, cst(v, e->w)));
    Model m;
    Sat r = solve(s.pc, ne, s.model, &m);
    (void)cur; (void)limit;
    if (r == UNKNOWN) none("solver gave no answer within the query limit at " + loc(s));
    if (r == SAT) {
        State *o = new State(s); o->model = std::move(m); addC(*o, ne); o->steps--; nForks++;
        work.push_back(o);
        addC(s, bin(EQ, e, cst(v, e->w)));
    } else learn(s, bin(EQ, e, cst(v, e->w)));
    return v;
}
static u32 newObj(State &s, u64 size, Kind k, bool zero, const char *what)
{
    Obj *o = new Obj; u32 id = s.objs.size();
    o->base = baseOf(id); o->size = size; o->kind = k; o->what = what;
    o->conc.assign(size, 0);
    if (!zero) o->st.assign(size, 0);
    s.objs.push_back(Ref<Obj>(o));
    return id;
}
static Obj *wr(State &s, u32 id)
{
    Ref<Obj> &r = s.objs[id];
    if (r.p->rc > 1) { Obj *n = new Obj(*r.p); n->rc = 0; r = Ref<Obj>(n); }
    return r.p;
}
static u8 stOf(Obj *o, u64 i) { return o->st.empty() ? 1 : o->st[i]; }
static E rdByte(State &s, u32 id, u64 i)
{
    Obj *o = s.objs[id].p;
    switch (stOf(o, i)) {
    case 1: return cst(o->conc[i], 8);
    case 2: return simp(s, o->sym[i]);
    default: { o = wr(s, id); E v = newUndef(s, 8); o->st[i] = 2; o->sym[i] = v; return v; }
    }
}
static void wrByte(Obj *o, u64 i, E v)
{
    if (isC(v)) { o->conc[i] = v->c; if (!o->st.empty()) { if (o->st[i] == 2) o->sym.erase(i); o->st[i] = 1; } return; }
    if (o->st.empty()) o->st.assign(o->size, 1);
    o->st[i] = 2; o->sym[i] = v;
}
static E rdN(State &s, u32 id, u64 off, unsigned n)
{
    Obj *o = s.objs[id].p;
    bool all = true;
    if (!o->st.empty()) for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { all = false; break; }
    if (all) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)o->conc[off + i] << (8 * i); return cst(v, 8 * n); }
    E r = rdByte(s, id, off);
    for (unsigned i = 1; i < n; i++) r = concat(rdByte(s, id, off + i), r);
    return r;
}
static void wrN(State &s, u32 id, u64 off, unsigned n, E v)
{
    Obj *o = wr(s, id);
    for (unsigned i = 0; i < n; i++) wrByte(o, off + i, extract(v, 8 * i, 8));
}
// object a concrete address belongs to, or an error
static u32 resolve(State &s, u64 a, u64 n, bool write, u64 &off)
{
    u64 id = a >> SHIFT;
    char b[160];
    nMemChecks++;
    if (a < 65536) { snprintf(b, sizeof b, "%s of %llu bytes through a null pointer", write ? "write" : "read", (unsigned long long)n); error(s, "memory", b, s.model); throw Kill(); }
    if (id >= s.objs.size() || !s.objs[id]) { error(s, "memory", "access through an invalid pointer", s.model); throw Kill(); }
    Obj *o = s.objs[id].p;
    off = a - o->base;
    if (!o->alive) { snprintf(b, sizeof b, "%s after %s was %s", write ? "write" : "read", o->what, o->kind == STACK ? "left" : "freed"); error(s, "memory", b, s.model); throw Kill(); }
    if (off > o->size || n > o->size - off) {
        snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of %s of %llu bytes", write ? "write" : "read", (unsigned long long)n, (long long)off, o->what, (unsigned long long)o->size);
        error(s, "memory", b, s.model); throw Kill();
    }
    if (write && o->ro) { error(s, "memory", "write to constant data", s.model); throw Kill(); }
    return id;
}
// symbolic address: decide in-bounds for all values; returns object or makes the address concrete
static u64 addrOf(State &s, E p, u64 n, bool write, bool &symbolic, u32 &oid, E &offE)
{
    symbolic = false;
    p = simp(s, p);
    if (isC(p)) return p->c;
    undefUse(s, p, "address");
    u64 ex = evalIn(s, p);
    u64 id = ex >> SHIFT;
    if (id < s.objs.size() && s.objs[id] && s.objs[id]->alive) {
        Obj *o = s.objs[id].p;
        E off = bin(SUB, p, cst(o->base, 64));
        nMemChecks++;
        E in = n <= o->size ? bin(ULE, off, cst(o->size - n, 64)) : cst(0, 1);
        Model m;
        Sat r = decide(s, in) == 1 ? UNSAT : solve(s.pc, notE(in), s.model, &m);
        if (r == UNKNOWN) none("solver gave no answer within the query limit at " + loc(s));
        if (r == SAT) {
            // somewhere else is possible: another object, or out of bounds
            Eval ev(m); u64 a2 = ev.get(p); u64 id2 = a2 >> SHIFT;
            bool other = id2 != id && id2 < s.objs.size() && s.objs[id2] && s.objs[id2]->alive && a2 - s.objs[id2]->base <= s.objs[id2]->size && n <= s.objs[id2]->size - (a2 - s.objs[id2]->base);
            if (other) { State *q = new State(s); q->model = m; addC(*q, notE(in)); nForks++; work.push_back(q); }
            else {
                char b[160]; snprintf(b, sizeof b, "%s of %llu bytes at offset %lld of %s of %llu bytes", write ? "write" : "read", (unsigned long long)n,
                                      (long long)(a2 - o->base), o->what, (unsigned long long)o->size);
                error(s, "memory", b, m);
            }
            E vin = in;
            if (!isC(vin) && evalIn(s, vin)) addC(s, vin); else throw Kill();
        } else if (isC(in) && !in->c) throw Kill();
        symbolic = true; oid = id; offE = off;
        return 0;
    }
    return concretize(s, p, "address");
}
static E load(State &s, E p, unsigned bytes, unsigned bits)
{
    bool sy; u32 id; E offE; u64 off;
    u64 a = addrOf(s, p, bytes, false, sy, id, offE);
    E r;
    if (!sy) { id = resolve(s, a, bytes, false, off); r = rdN(s, id, off, bytes); }
    else {
        Obj *o = s.objs[id].p;
        if (o->size <= 4096) {
            // one entry per possible position, at the stride the offset shows
            unsigned st = 1; u64 start = 0;
            E v = offE;
            if (v->op == ADD && isC(v->b)) v = v->a;
            if ((v->op == SHL && isC(v->b)) ) { st = 1u << std::min<u64>(v->b->c, 3); }
            else if (v->op == CONCAT && isC(v->b, 0)) { st = 1u << std::min<unsigned>(v->b->w, 3); }
            else if (v->op == ZEXT && v->a->op == CONCAT && isC(v->a->b, 0)) { st = 1u << std::min<unsigned>(v->a->b->w, 3); }
            if (v != offE) start = offE->b->c % st;
            std::vector<E> t;
            for (u64 k = start; k + bytes <= o->size; k += st) t.push_back(rdN(s, id, k, bytes));
            E idx = bin(LSHR, bin(SUB, offE, cst(start, 64)), cst(__builtin_ctz(st), 64));
            if (t.size() == 1) r = t[0];
            else {
                bool same = true; for (E x : t) if (x != t[0]) same = false;
                if (same) r = t[0];
                else {
                    static std::map<std::vector<E>, u32> tid;
                    auto it = tid.find(t);
                    if (it == tid.end()) { tables.push_back(t); it = tid.insert({t, tables.size() - 1}).first; }
                    bool un = false; for (E x : t) un |= x->undef;
                    r = mk(TABLE, 8 * bytes, it->second, idx, nullptr, nullptr, un);
                }
            }
        } else {
            u64 v = concretize(s, simp(s, p), "address");
            id = resolve(s, v, bytes, false, off); r = rdN(s, id, off, bytes);
        }
    }
    if (r->w > bits) r = extract(r, 0, bits);
    return simp(s, r);
}
static void store(State &s, E p, E v, unsigned bytes)
{
    bool sy; u32 id; E offE; u64 off;
    u64 a = addrOf(s, p, bytes, true, sy, id, offE);
    if (sy) a = concretize(s, p, "address");
    id = resolve(s, a, bytes, true, off);
    if (v->w < 8 * bytes) v = zext(v, 8 * bytes);
    wrN(s, id, off, bytes, v);
}
// ---------------------------------------------------------------- execution
static u64 constAddr(const Constant *c);
static E constant(State &s, const Constant *c, Type *t)
{
    unsigned w = t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
    if (auto *ci = dyn_cast<ConstantInt>(c)) return cst(ci->getZExtValue(), w);
    if (isa<ConstantPointerNull>(c)) return cst(0, 64);
    if (isa<UndefValue>(c)) return newUndef(s, w);
    if (auto *g = dyn_cast<GlobalValue>(c)) return cst(gaddr[g], 64);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0); auto *g = cast<GEPOperator>(ce);
            if (!g->accumulateConstantOffset(*DL, off)) { none("constant expression"); throw Kill(); }
            return bin(ADD, constant(s, cast<Constant>(g->getPointerOperand()), g->getPointerOperandType()), cst(off.getZExtValue(), 64));
        }
        if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::PtrToInt)
            return constant(s, ce->getOperand(0), ce->getOperand(0)->getType());
    }
    none("unsupported constant"); throw Kill();
}
static E val(State &s, const Value *v)
{
    if (auto *c = dyn_cast<Constant>(v)) return constant(s, c, v->getType());
    E e = s.fr.back().regs[regNo[v]];
    if (!e) { none("register without value"); throw Kill(); }
    return simp(s, e);
}
static void setReg(State &s, const Value *v, E e) { s.fr.back().regs[regNo[v]] = e; }
static void enter(State &s, BasicBlock *from, BasicBlock *to)
{
    Frame &f = s.fr.back();
    f.prev = from; f.bb = to; f.pc = to->begin();
    // phis read the old values together
    std::vector<std::pair<PHINode *, E>> n;
    for (auto it = to->begin(); isa<PHINode>(it); ++it) { auto *p = cast<PHINode>(&*it); n.push_back({p, val(s, p->getIncomingValueForBlock(from))}); f.pc = std::next(it); }
    for (auto &x : n) setReg(s, x.first, x.second);
}
static void initConst(State &s, u32 id, u64 off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); i++) wrN(s, id, off + i * es, es, cst(d->getElementAsInteger(i), es * 8));
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initConst(s, id, off + i * es, a->getOperand(i)); return; }
    if (auto *st = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initConst(s, id, off + sl->getElementOffset(i), st->getOperand(i)); return; }
    E e = constant(s, c, t);
    wrN(s, id, off, DL->getTypeStoreSize(t), e->w % 8 ? zext(e, DL->getTypeStoreSize(t) * 8) : e);
}
static std::string cstr(State &s, E p)
{
    std::string r; if (!isC(p)) return "?";
    for (u64 a = p->c; r.size() < 400; a++) { u64 off; u32 id = resolve(s, a, 1, false, off); E b = rdByte(s, id, off); if (!isC(b) || !b->c) break; r += (char)b->c; }
    return r;
}
static void doFree(State &s, u64 a)
{
    if (!a) return;
    u64 id = a >> SHIFT;
    if (a < 65536 || id >= s.objs.size() || !s.objs[id] || s.objs[id]->kind != HEAP || s.objs[id]->base != a) { error(s, "memory", "free of a pointer that was not allocated", s.model); throw Kill(); }
    if (!s.objs[id]->alive) { error(s, "memory", "freed twice", s.model); throw Kill(); }
    Obj *o = wr(s, id); o->alive = false; o->conc.clear(); o->conc.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->sym.clear();
}
// copies bytes after deciding both ranges
static void copyBytes(State &s, E d, E src, u64 n, bool overlapOk)
{
    if (!n) return;
    u64 da = concretize(s, d, "address"), sa = concretize(s, src, "address");
    u64 doff, soff; u32 si = resolve(s, sa, n, false, soff), di = resolve(s, da, n, true, doff);
    if (!overlapOk && si == di && doff != soff && doff < soff + n && soff < doff + n) { error(s, "memory", "memcpy of overlapping ranges", s.model); throw Kill(); }
    struct B { u8 st; u8 c; E e; };
    std::vector<B> t(n);
    Obj *so = s.objs[si].p;
    for (u64 i = 0; i < n; i++) { u8 st = stOf(so, soff + i); t[i] = {st, so->conc[soff + i], st == 2 ? so->sym[soff + i] : nullptr}; }
    Obj *o = wr(s, di);
    for (u64 i = 0; i < n; i++) {
        if (t[i].st == 2) wrByte(o, doff + i, t[i].e);
        else if (t[i].st == 1) wrByte(o, doff + i, cst(t[i].c, 8));
        else { if (o->st.empty()) o->st.assign(o->size, 1); if (o->st[doff + i] == 2) o->sym.erase(doff + i); o->st[doff + i] = 0; }
    }
}
static bool builtin(State &s, CallBase *I, StringRef n, E &ret)
{
    auto arg = [&](unsigned i) { return val(s, I->getArgOperand(i)); };
    ret = nullptr;
    if (n == "vp_nd") { ret = newInput(s); return true; }
    if (n == "vp_sym_fork") { ret = cst(concretize(s, arg(0), "choice"), 64); return true; }
    if (n == "vp_sym_is_const") { ret = cst(isC(simp(s, arg(0))), 32); return true; }
    if (n == "vp_vararg") {
        u64 i = concretize(s, arg(0), "argument"); 
        if (i >= s.fr.back().va.size()) { error(s, "memory", "variable argument that was not passed", s.model); throw Kill(); }
        ret = zext(s.fr.back().va[i], 64); return true;
    }
    if (n == "vp_sym_assume") {
        E c = simp(s, arg(0)); c = c->w == 1 ? c : notE(bin(EQ, c, cst(0, c->w)));
        c = simp(s, c);
        { int d = decide(s, c); if (d >= 0) c = cst(d, 1); }
        if (isC(c)) { if (!c->c) throw Kill(); return true; }
        if (evalIn(s, c)) { addC(s, c); return true; }
        Model m; Sat r = solve(s.pc, c, s.model, &m);
        if (r == UNKNOWN) none("solver gave no answer within the query limit at " + loc(s));
        if (r != SAT) throw Kill();
        s.model = std::move(m); addC(s, c); return true;
    }
    if (n == "vp_sym_assert") {
        E c = simp(s, arg(0)); c = c->w == 1 ? c : notE(bin(EQ, c, cst(0, c->w)));
        c = simp(s, c);
        nAsserts++;
        std::string msg = cstr(s, arg(1));
        if (isC(c)) { if (!c->c) { error(s, "assert", msg, s.model); throw Kill(); } return true; }
        undefUse(s, c, "asserted value");
        if (decide(s, c) == 1) { nRange++; return true; }
        if (getenv("VPSYM_SHOW")) fprintf(stderr, "ASSERT %s\n  %s\n", loc(s).c_str(), show(c).c_str());
        Model m; Sat r = solve(s.pc, notE(c), s.model, &m);
        if (r == UNKNOWN) none("solver gave no answer within the query limit at " + loc(s));
        if (r == SAT) {
            error(s, "assert", msg, m);
            if (evalIn(s, c)) { addC(s, c); return true; }
            Sat r2 = solve(s.pc, c, s.model, &m);
            if (r2 != SAT) throw Kill();
            s.model = m; addC(s, c); return true;
        }
        learn(s, c);
        return true;
    }
    if (n == "vp_sym_reach") {
        std::string l = cstr(s, arg(0));
        if (reachSeen.insert(l).second) { printf("REACH %s\nVALUES", l.c_str()); values(s, s.model); fflush(stdout); }
        return true;
    }
    if (n == "vp_sym_stop") throw Kill();
    if (n == "malloc" || n == "calloc" || n == "realloc") {
        u64 sz, old = 0;
        if (n == "malloc") sz = concretize(s, arg(0), "size");
        else if (n == "calloc") { u64 a = concretize(s, arg(0), "size"), b = concretize(s, arg(1), "size"); sz = a * b; if (b && a > ~0ull / b) { ret = cst(0, 64); return true; } }
        else { old = concretize(s, arg(0), "pointer"); sz = concretize(s, arg(1), "size"); }
        if (sz > (1ull << 26)) { ret = cst(0, 64); return true; }
        u32 id = newObj(s, sz, HEAP, n == "calloc", "an allocated block");
        ret = cst(baseOf(id), 64);
        if (old) {
            u64 oi = old >> SHIFT;
            if (oi >= s.objs.size() || !s.objs[oi] || s.objs[oi]->kind != HEAP || s.objs[oi]->base != old || !s.objs[oi]->alive) { error(s, "memory", "realloc of a pointer that is not allocated", s.model); throw Kill(); }
            u64 cn = std::min(sz, s.objs[oi]->size);
            copyBytes(s, ret, cst(old, 64), cn, true);
            doFree(s, old);
        }
        return true;
    }
    if (n == "free") { doFree(s, concretize(s, arg(0), "pointer")); return true; }
    if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") || n == "memcpy" || n == "memmove") {
        u64 k = concretize(s, arg(2), "length");
        copyBytes(s, arg(0), arg(1), k, n.contains("memmove") || n.starts_with("llvm."));
        ret = arg(0); return true;
    }
    if (n.starts_with("llvm.memset") || n == "memset") {
        u64 k = concretize(s, arg(2), "length"), a = concretize(s, arg(0), "address");
        E v = extract(arg(1), 0, 8);
        if (k) { u64 off; u32 id = resolve(s, a, k, true, off); Obj *o = wr(s, id); for (u64 i = 0; i < k; i++) wrByte(o, off + i, v); }
        ret = arg(0); return true;
    }
    if (n == "memcmp" || n == "bcmp") {
        u64 k = concretize(s, arg(2), "length"), a = concretize(s, arg(0), "address"), b = concretize(s, arg(1), "address");
        E r = cst(0, 32);
        if (k) {
            u64 ao, bo; u32 ai = resolve(s, a, k, false, ao), bi = resolve(s, b, k, false, bo);
            for (u64 i = k; i-- > 0; ) { E x = rdByte(s, ai, ao + i), y = rdByte(s, bi, bo + i); r = ite(bin(EQ, x, y), r, bin(SUB, zext(x, 32), zext(y, 32))); }
        }
        ret = r; return true;
    }
    if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n == "llvm.assume" || n.starts_with("llvm.experimental.noalias")) return true;
    if (n.starts_with("llvm.expect")) { ret = arg(0); return true; }
    if (n.starts_with("llvm.umin") || n.starts_with("llvm.umax")) { E x = arg(0), y = arg(1); E c = bin(ULT, x, y); ret = n.starts_with("llvm.umin") ? ite(c, x, y) : ite(c, y, x); return true; }
    if (n.starts_with("llvm.smin") || n.starts_with("llvm.smax")) { E x = arg(0), y = arg(1); E c = bin(SLT, x, y); ret = n.starts_with("llvm.smin") ? ite(c, x, y) : ite(c, y, x); return true; }
    if (n.starts_with("llvm.bswap")) { E x = arg(0), r = extract(x, 0, 8); for (unsigned i = 1; i < x->w / 8; i++) r = concat(r, extract(x, 8 * i, 8)); ret = r; return true; }
    if (n.starts_with("llvm.stacksave")) { ret = cst(0, 64); return true; }
    if (n.starts_with("llvm.stackrestore")) return true;
    if (n.starts_with("llvm.fshl")) { E x = arg(0), y = arg(1), z = arg(2); if (isC(z)) { unsigned k = z->c % x->w; ret = k ? bin(OR, bin(SHL, x, cst(k, x->w)), bin(LSHR, y, cst(x->w - k, x->w))) : x; return true; } }
    if (n.starts_with("llvm.abs")) { E x = arg(0); ret = ite(bin(SLT, x, cst(0, x->w)), bin(SUB, cst(0, x->w), x), x); return true; }
    return false;
}
// executes one instruction; throws Kill when the path ends
static void step(State &s)
{
    Frame &f = s.fr.back();
    Instruction *I = &*f.pc;
    curI = I;
    nInstr++;
    if (++s.steps > maxSteps) { error(s, "steps", "more steps than allowed on one path (possibly no termination)", s.model); throw Kill(); }
    auto next = [&]() { ++s.fr.back().pc; };
    switch (I->getOpcode()) {
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        BasicBlock *bb = I->getParent();
        if (!b->isConditional()) { enter(s, bb, b->getSuccessor(0)); return; }
        E c = val(s, b->getCondition());
        if (!isC(c)) undefUse(s, c, "branch");
        bool tv; State *o = forkOn(s, c, tv);
        if (o) { enter(*o, bb, b->getSuccessor(tv ? 1 : 0)); work.push_back(o); }
        enter(s, bb, b->getSuccessor(tv ? 0 : 1));
        return; }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        E c = val(s, sw->getCondition());
        undefUse(s, c, "branch");
        for (auto &cs : sw->cases()) {
            bool tv; State *o = forkOn(s, bin(EQ, c, cst(cs.getCaseValue()->getZExtValue(), c->w)), tv);
            if (tv) {
                if (o) work.push_back(o);      // re-executes with this case excluded
                enter(s, I->getParent(), cs.getCaseSuccessor()); return;
            }
            if (o) { enter(*o, I->getParent(), cs.getCaseSuccessor()); work.push_back(o); }
        }
        enter(s, I->getParent(), sw->getDefaultDest());
        return; }
    case Instruction::Ret: {
        E rv = I->getNumOperands() ? val(s, I->getOperand(0)) : nullptr;
        for (u32 id : f.locals) { Obj *o = wr(s, id); o->alive = false; o->conc.clear(); o->st.clear(); o->sym.clear(); o->conc.shrink_to_fit(); o->st.shrink_to_fit(); }
        CallBase *site = f.site;
        s.fr.pop_back();
        if (s.fr.empty()) { nPaths++; throw Kill(); }
        if (rv && site) setReg(s, site, rv);
        ++s.fr.back().pc;
        return; }
    case Instruction::Unreachable: error(s, "memory", "unreachable code executed", s.model); throw Kill();
    case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(I);
        u64 n = concretize(s, val(s, a->getArraySize()), "size") * DL->getTypeAllocSize(a->getAllocatedType());
        u32 id = newObj(s, n, STACK, false, "a local variable");
        s.fr.back().locals.push_back(id);
        setReg(s, I, cst(baseOf(id), 64)); next(); return; }
    case Instruction::Load: {
        Type *t = I->getType(); unsigned by = DL->getTypeStoreSize(t), bits = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
        setReg(s, I, load(s, val(s, I->getOperand(0)), by, bits)); next(); return; }
    case Instruction::Store: {
        Type *t = I->getOperand(0)->getType();
        store(s, val(s, I->getOperand(1)), val(s, I->getOperand(0)), DL->getTypeStoreSize(t)); next(); return; }
    case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(I);
        E p = val(s, g->getPointerOperand());
        Type *t = g->getSourceElementType();
        bool first = true;
        for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
            E ix = val(s, *it); if (ix->w < 64) ix = sext(ix, 64);
            if (!first && t->isStructTy()) {
                auto *st = cast<StructType>(t); unsigned k = ix->c;
                p = bin(ADD, p, cst(DL->getStructLayout(st)->getElementOffset(k), 64)); t = st->getElementType(k);
            } else {
                if (!first) t = cast<ArrayType>(t)->getElementType();
                p = bin(ADD, p, bin(MUL, ix, cst(DL->getTypeAllocSize(t), 64)));
            }
            first = false;
        }
        setReg(s, I, p); next(); return; }
    case Instruction::ICmp: {
        auto *c = cast<ICmpInst>(I); E a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1)), r;
        switch (c->getPredicate()) {
        case CmpInst::ICMP_EQ: r = bin(EQ, a, b); break;
        case CmpInst::ICMP_NE: r = notE(bin(EQ, a, b)); break;
        case CmpInst::ICMP_ULT: r = bin(ULT, a, b); break;
        case CmpInst::ICMP_ULE: r = bin(ULE, a, b); break;
        case CmpInst::ICMP_UGT: r = bin(ULT, b, a); break;
        case CmpInst::ICMP_UGE: r = bin(ULE, b, a); break;
        case CmpInst::ICMP_SLT: r = bin(SLT, a, b); break;
        case CmpInst::ICMP_SLE: r = bin(SLE, a, b); break;
        case CmpInst::ICMP_SGT: r = bin(SLT, b, a); break;
        default: r = bin(SLE, b, a); break;
        }
        setReg(s, I, simp(s, r)); next(); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        static const std::map<unsigned, Op> ops = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR},
            {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::UDiv, UDIV}, {Instruction::SDiv, SDIV}, {Instruction::URem, UREM}, {Instruction::SRem, SREM}};
        E a = val(s, I->getOperand(0)), b = val(s, I->getOperand(1));
        Op op = ops.at(I->getOpcode());
        if (op == UDIV || op == SDIV || op == UREM || op == SREM) {
            bool tv; State *o = forkOn(s, bin(EQ, b, cst(0, b->w)), tv);
            if (tv || o) { error(s, "memory", "division by zero", tv ? s.model : o->model); delete o; if (tv) throw Kill(); }
        }
        if (strictShift && (op == SHL || op == LSHR || op == ASHR)) {
            Model m; E bad = notE(bin(ULT, b, cst(b->w, b->w)));
            if (!isC(bad, 0) && solve(s.pc, bad, s.model, &m) == SAT) { error(s, "ub", "shift by at least the width", m); E k = notE(bad); if (isC(k) || !evalIn(s, k)) throw Kill(); addC(s, k); }
        }
        setReg(s, I, simp(s, bin(op, a, b))); next(); return; }
    case Instruction::ZExt: {
        E v = val(s, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
        if (v->op == EXTRACT && v->c == 0 && v->a->w == w && rng(s, v->a).second <= mask(v->w)) setReg(s, I, simp(s, v->a));
        else setReg(s, I, simp(s, zext(v, w)));
        next(); return; }
    case Instruction::SExt: {
        E v = val(s, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth();
        if (v->op == EXTRACT && v->c == 0 && v->a->w == w) {      // fits: the truncation was the identity
            Rg r = rng(s, v->a); u64 h = 1ull << (v->w - 1);
            if (r.second < h || (r.first >= (mask(w) - h + 1) && r.second <= mask(w))) { setReg(s, I, simp(s, v->a)); next(); return; }
        }
        if (v->w > 1 && rng(s, v).second < 1ull << (v->w - 1)) setReg(s, I, simp(s, zext(v, w)));
        else setReg(s, I, simp(s, sext(v, w)));
        next(); return; }
    case Instruction::Trunc: setReg(s, I, simp(s, extract(val(s, I->getOperand(0)), 0, I->getType()->getIntegerBitWidth()))); next(); return;
    case Instruction::IntToPtr: setReg(s, I, zext(val(s, I->getOperand(0)), 64)); next(); return;
    case Instruction::PtrToInt: { E v = val(s, I->getOperand(0)); unsigned w = I->getType()->getIntegerBitWidth(); setReg(s, I, w < 64 ? extract(v, 0, w) : v); next(); return; }
    case Instruction::BitCast: case Instruction::Freeze: setReg(s, I, val(s, I->getOperand(0))); next(); return;
    case Instruction::Select: {
        E c = val(s, I->getOperand(0));
        if (!isC(c) && I->getType()->isPointerTy()) {
            undefUse(s, c, "choice of pointer");
            bool tv; State *o = forkOn(s, c, tv);
            if (o) work.push_back(o);       // re-executes with the other choice known
            setReg(s, I, val(s, I->getOperand(tv ? 1 : 2)));
        } else setReg(s, I, simp(s, ite(c, val(s, I->getOperand(1)), val(s, I->getOperand(2)))));
        next(); return; }
    case Instruction::Call: {
        auto *c = cast<CallInst>(I);
        if (c->isInlineAsm()) { none("inline assembly"); throw Kill(); }
        Function *callee = c->getCalledFunction();
        if (!callee) {
            E p = val(s, c->getCalledOperand());
            u64 a = concretize(s, p, "function pointer");
            auto it = faddr.find(a);
            if (it == faddr.end()) { error(s, "memory", "call through an invalid function pointer", s.model); throw Kill(); }
            callee = it->second;
        }
        if (callee->isDeclaration()) {
            E r;
            if (!builtin(s, c, callee->getName(), r)) { none("no body for function " + callee->getName().str()); throw Kill(); }
            if (!I->getType()->isVoidTy()) {
                unsigned w = I->getType()->isPointerTy() ? 64 : I->getType()->getIntegerBitWidth();
                if (!r) r = cst(0, w);
                setReg(s, I, r->w == w ? r : zext(r, w));
            }
            next(); return;
        }
        if (s.fr.size() > 400) { error(s, "steps", "recursion too deep", s.model); throw Kill(); }
        executed.insert(callee);
        Frame nf; nf.f = callee; nf.site = c; nf.bb = &callee->getEntryBlock(); nf.prev = nullptr; nf.pc = nf.bb->begin();
        nf.regs.assign(nRegs[callee], nullptr);
        unsigned i = 0;
        for (auto &a : callee->args()) {
            if (i >= c->arg_size()) { none("call with too few arguments: " + callee->getName().str()); throw Kill(); }
            E v = val(s, c->getArgOperand(i++));
            unsigned w = a.getType()->isPointerTy() ? 64 : a.getType()->getIntegerBitWidth();
            nf.regs[regNo[&a]] = v->w == w ? v : v->w < w ? zext(v, w) : extract(v, 0, w);
        }
        for (; i < c->arg_size(); i++) nf.va.push_back(val(s, c->getArgOperand(i)));
        s.fr.push_back(std::move(nf));
        return; }
    default: none(std::string("unsupported instruction ") + I->getOpcodeName()); throw Kill();
    }
}
static std::map<std::string, std::pair<u64, double>> slowAt;
void slowQuery(double t)
{
    std::string k = "?";
    if (curI) { const DebugLoc &d = curI->getDebugLoc(); char b[200]; snprintf(b, sizeof b, "%s:%u %s", curI->getFunction()->getName().str().c_str(), d ? d.getLine() : 0, curI->getOpcodeName()); k = b; }
    auto &x = slowAt[k]; x.first++; x.second += t;
}
int main(int argc, char **argv)
{
    for (int i = 3; i + 1 < argc; i += 2) {
        std::string o = argv[i]; const char *v = argv[i + 1];
        if (o == "-t") tLimit = atof(v); else if (o == "-q") queryMs = atoi(v); else if (o == "-s") maxSteps = strtoull(v, 0, 0);
        else if (o == "-e") maxErr = atoi(v); else if (o == "-j") sscanf(v, "%u/%u", &partI, &partN); else if (o == "-S") strictShift = atoi(v);
    }
    LLVMContext C; SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, C);
    if (!mod) { fprintf(stderr, "cannot read %s\n", argv[1]); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config();
    char q[32]; snprintf(q, sizeof q, "%u", queryMs);
    Z3_set_param_value(cfg, "timeout", q);
    ctx = Z3_mk_context(cfg);
    slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
    { Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), queryMs); Z3_solver_set_params(ctx, slv, p); }
    tStart = now();
    State *s0 = new State;
    s0->objs.push_back(Ref<Obj>());     // nothing at 0
    for (auto &F : *M) {
        u32 n = 0;
        for (auto &a : F.args()) regNo[&a] = n++;
        for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) regNo[&I] = n++;
        nRegs[&F] = n;
        u32 id = newObj(*s0, 0, GLOBAL, true, "a function"); gaddr[&F] = baseOf(id); faddr[baseOf(id)] = &F;
    }
    for (auto &G : M->globals()) {
        Type *t = G.getValueType();
        u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 0;
        u32 id = newObj(*s0, sz, GLOBAL, true, strdup(("global " + G.getName().str()).c_str())); gaddr[&G] = baseOf(id);
    }
    for (auto &G : M->globals()) if (G.hasInitializer()) { u64 id = gaddr[&G] >> SHIFT; initConst(*s0, id, 0, G.getInitializer()); if (G.isConstant()) wr(*s0, id)->ro = true; }
    Function *entry = M->getFunction(argv[2]);
    if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", argv[2]); return 3; }
    executed.insert(entry);
    Frame f; f.f = entry; f.bb = &entry->getEntryBlock(); f.prev = nullptr; f.pc = f.bb->begin(); f.regs.assign(nRegs[entry], nullptr);
    s0->fr.push_back(f);
    work.push_back(s0);
    bool timeout = false;
    while (!work.empty()) {
        State *s = work.back(); work.pop_back();
        try { while (true) { step(*s); if ((nInstr & 1023) == 0 && now() - tStart > tLimit) { timeout = true; break; } } }
        catch (Kill &) { nKilled++; }
        delete s;
        if (timeout) break;
        if (nErr >= maxErr) { printf("STOPPED after %u errors\n", nErr); break; }
    }
    if (timeout) none("time limit: " + std::to_string(work.size()) + " states left");
    for (auto &x : slowAt) fprintf(stderr, "%8.2fs %6llu %s\n", x.second.second, (unsigned long long)x.second.first, x.first.c_str());
    for (auto *F : executed) {
        std::string file; if (auto *sp = F->getSubprogram()) file = sp->getFile() ? (sp->getFile()->getDirectory() + "/" + sp->getFile()->getFilename()).str() : "";
        printf("FUNCTION %s %s\n", F->getName().str().c_str(), file.c_str());
    }
    printf("STATS paths %llu killed %llu instr %llu forks %llu queries %llu cached %llu solver %.2f wall %.2f asserts %llu memchecks %llu unknown %llu byrange %llu\n", (unsigned long long)nPaths, (unsigned long long)nKilled,
           (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nCache, solverTime, now() - tStart, (unsigned long long)nAsserts, (unsigned long long)nMemChecks, (unsigned long long)nUnknown, (unsigned long long)nRange);
    printf("%s\n", !noVerdict.empty() ? "NONE" : nErr ? "ERRORS" : "DONE");
    fflush(stdout);
    _Exit(0);
}
