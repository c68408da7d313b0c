#include "expr.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <deque>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

SolverStats g_ss;

// ---------------------------------------------------------------- construction
static std::deque<Expr> g_arena;
static Sup g_emptySup;

struct Key {
    Op op; uint16_t w; uint64_t c; Expr *k[3];
    bool operator==(const Key &o) const {
        return op == o.op && w == o.w && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2];
    }
};
struct KeyH {
    size_t operator()(const Key &k) const {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
        mix(k.op); mix(k.w); mix(k.c);
        mix((uint64_t) k.k[0]); mix((uint64_t) k.k[1]); mix((uint64_t) k.k[2]);
        return h;
    }
};
static std::unordered_map<Key, Expr *, KeyH> g_tab;

static const Sup *unionSup(const Sup *a, const Sup *b) {
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    if (std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
    if (std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
    Sup *r = new Sup();
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(*r));
    return r;
}

static Expr *intern(Op op, unsigned w, uint64_t c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
    Key k{op, (uint16_t) w, c, {a, b, d}};
    auto it = g_tab.find(k);
    if (it != g_tab.end()) return it->second;
    g_arena.emplace_back();
    Expr *e = &g_arena.back();
    e->op = op; e->w = w; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->id = g_arena.size();
    e->epoch = 0; e->val = 0; e->z3 = nullptr;
    const Sup *s = &g_emptySup;
    if (op == O_SYM) s = new Sup{(uint32_t) c};
    if (a) s = unionSup(s, a->sup);
    if (b) s = unionSup(s, b->sup);
    if (d) s = unionSup(s, d->sup);
    e->sup = s;
    g_tab.emplace(k, e);
    return e;
}

Expr *mkConst(unsigned w, uint64_t v) { return intern(O_CONST, w, v & maskw(w)); }
Expr *mkSym(uint32_t id) { return intern(O_SYM, 8, id); }

uint64_t constBin(Op op, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w);
    a &= m; b &= m;
    switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: {
        int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return x < 0 ? 1 : m;
        if (y == -1) return (0 - (uint64_t) x) & m;
        return (uint64_t) (x / y) & m;
    }
    case O_SREM: {
        int64_t x = sextw(a, w), y = sextw(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t) (x % y) & m;
    }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m;
    case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { int64_t x = sextw(a, w); return (uint64_t) (x >> (b >= w ? (w - 1) : b)) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_ULE: return a <= b;
    case O_SLT: return sextw(a, w) < sextw(b, w);
    case O_SLE: return sextw(a, w) <= sextw(b, w);
    default: abort();
    }
}

static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }
static bool isCommut(Op op) {
    return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
}

Expr *mkNot(Expr *a) {
    if (isConst(a)) return mkConst(1, !a->c);
    return mkBin(O_XOR, a, mkConst(1, 1));
}

Expr *mkBin(Op op, Expr *a, Expr *b) {
    unsigned w = a->w, rw = isCmp(op) ? 1 : w;
    if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch %d: %d %d\n", op, a->w, b->w); abort(); }
    if (isConst(a) && isConst(b)) return mkConst(rw, constBin(op, a->c, b->c, w));
    if (isCommut(op)) {
        // constant to the right; else order by id
        if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
    }
    uint64_t m = maskw(w);
    if (isConst(b)) {
        uint64_t c = b->c;
        switch (op) {
        case O_ADD:
            if (!c) return a;
            if (a->op == O_ADD && isConst(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(w, a->k[1]->c + c));
            break;
        case O_SUB: return mkBin(O_ADD, a, mkConst(w, 0 - c));
        case O_MUL: if (c == 0) return b; if (c == 1) return a; break;
        case O_UDIV: case O_SDIV: if (c == 1) return a; break;
        case O_AND:
            if (c == 0) return b;
            if (c == m) return a;
            if (a->op == O_ZEXT && (c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
            break;
        case O_OR: if (c == 0) return a; if (c == m) return b; break;
        case O_XOR:
            if (c == 0) return a;
            if (a->op == O_XOR && isConst(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(w, a->k[1]->c ^ c));
            break;
        case O_SHL: case O_LSHR: case O_ASHR:
            if (c == 0) return a;
            if (op != O_ASHR && c >= w) return mkConst(w, 0);
            break;
        case O_EQ:
            if (w == 1) return c ? a : mkNot(a);
            if (a->op == O_ZEXT) {
                unsigned kw = a->k[0]->w;
                if (c & ~maskw(kw)) return mkConst(1, 0);
                return mkBin(O_EQ, a->k[0], mkConst(kw, c));
            }
            if (a->op == O_SEXT) {
                unsigned kw = a->k[0]->w;
                if (((uint64_t) sextw(c, kw) & m) != c) return mkConst(1, 0);
                return mkBin(O_EQ, a->k[0], mkConst(kw, c));
            }
            if (a->op == O_ADD && isConst(a->k[1]))
                return mkBin(O_EQ, a->k[0], mkConst(w, c - a->k[1]->c));
            if (a->op == O_XOR && isConst(a->k[1]))
                return mkBin(O_EQ, a->k[0], mkConst(w, c ^ a->k[1]->c));
            if (a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2])) {
                bool x = a->k[1]->c == c, y = a->k[2]->c == c;
                if (x && y) return mkConst(1, 1);
                if (x) return a->k[0];
                if (y) return mkNot(a->k[0]);
                return mkConst(1, 0);
            }
            if (a->op == O_CONCAT) {
                Expr *hi = a->k[0], *lo = a->k[1];
                return mkBin(O_AND, mkBin(O_EQ, hi, mkConst(hi->w, c >> lo->w)),
                                    mkBin(O_EQ, lo, mkConst(lo->w, c)));
            }
            break;
        case O_ULT:
            if (c == 0) return mkConst(1, 0);
            if (c == 1) return mkBin(O_EQ, a, mkConst(w, 0));
            if (a->op == O_ZEXT) {
                unsigned kw = a->k[0]->w;
                if (c > maskw(kw)) return mkConst(1, 1);
                return mkBin(O_ULT, a->k[0], mkConst(kw, c));
            }
            break;
        case O_ULE:
            if (c == m) return mkConst(1, 1);
            return mkBin(O_ULT, a, mkConst(w, c + 1));
        case O_SLT:
            if (a->op == O_ZEXT) {
                int64_t sc = sextw(c, w);
                if (sc <= 0) return mkConst(1, 0);
                return mkBin(O_ULT, a, b);
            }
            break;
        case O_SLE:
            if (sextw(c, w) == sextw(m >> 1, w)) return mkConst(1, 1);
            return mkBin(O_SLT, a, mkConst(w, c + 1));
        default: break;
        }
    }
    if (isConst(a)) {
        switch (op) {
        case O_SUB: break;
        case O_MUL: case O_SHL: case O_LSHR: if (a->c == 0) return a; break;
        case O_ULT:  // c < b
            if (a->c == m) return mkConst(1, 0);
            if (b->op == O_ZEXT) {
                unsigned kw = b->k[0]->w;
                if (a->c >= maskw(kw)) return mkConst(1, 0);
                return mkBin(O_ULT, mkConst(kw, a->c), b->k[0]);
            }
            break;
        case O_ULE:
            if (a->c == 0) return mkConst(1, 1);
            return mkBin(O_ULT, mkConst(w, a->c - 1), b);
        case O_SLT:
            if (b->op == O_ZEXT) {
                if (sextw(a->c, w) < 0) return mkConst(1, 1);
                return mkBin(O_ULT, a, b);
            }
            break;
        default: break;
        }
    }
    if (a == b) {
        switch (op) {
        case O_SUB: case O_XOR: return mkConst(w, 0);
        case O_AND: case O_OR: return a;
        case O_EQ: case O_ULE: case O_SLE: return mkConst(1, 1);
        case O_ULT: case O_SLT: return mkConst(1, 0);
        default: break;
        }
    }
    if (op == O_EQ && ((a->op == O_ZEXT && b->op == O_ZEXT) || (a->op == O_SEXT && b->op == O_SEXT)) &&
        a->k[0]->w == b->k[0]->w)
        return mkBin(O_EQ, a->k[0], b->k[0]);
    return intern(op, rw, 0, a, b);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (isConst(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1 && isConst(a) && isConst(b)) return a->c ? c : mkNot(c);
    if (a->w == 1 && isConst(b) && b->c == 0) return mkBin(O_AND, c, a);
    if (a->w == 1 && isConst(a) && a->c == 1) return mkBin(O_OR, c, b);
    if (a->w == 1 && isConst(a) && a->c == 0) return mkBin(O_AND, mkNot(c), b);
    if (a->w == 1 && isConst(b) && b->c == 1) return mkBin(O_OR, mkNot(c), a);
    return intern(O_ITE, a->w, 0, c, a, b);
}

Expr *mkExt(Op op, Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isConst(a)) return mkConst(w, op == O_ZEXT ? a->c : (uint64_t) sextw(a->c, a->w));
    if (a->op == O_ZEXT) return mkExt(O_ZEXT, a->k[0], w);
    if (op == O_SEXT && a->op == O_SEXT) return mkExt(O_SEXT, a->k[0], w);
    if (a->op == O_ITE && isConst(a->k[1]) && isConst(a->k[2]))
        return mkIte(a->k[0], mkExt(op, a->k[1], w), mkExt(op, a->k[2], w));
    return intern(op, w, 0, a);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isConst(a)) return mkConst(w, a->c >> lo);
    if (a->op == O_EXTRACT) return mkExtract(a->k[0], lo + a->c, w);
    if (a->op == O_ZEXT) {
        unsigned kw = a->k[0]->w;
        if (lo >= kw) return mkConst(w, 0);
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkExt(O_ZEXT, a->k[0], w);
    }
    if (a->op == O_SEXT) {
        unsigned kw = a->k[0]->w;
        if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkExt(O_SEXT, a->k[0], w);
    }
    if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->w;
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    }
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_MUL))
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    if (a->op == O_ITE && (isConst(a->k[1]) || isConst(a->k[2])))
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    return intern(O_EXTRACT, w, lo, a);
}

Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isConst(hi) && isConst(lo)) return mkConst(w, (hi->c << lo->w) | lo->c);
    if (isConst(hi) && hi->c == 0) return mkExt(O_ZEXT, lo, w);
    // adjacent extracts
    Expr *hb = hi, *lb = lo;
    unsigned ho = 0, lo_ = 0;
    if (hi->op == O_EXTRACT) { hb = hi->k[0]; ho = hi->c; }
    if (lo->op == O_EXTRACT) { lb = lo->k[0]; lo_ = lo->c; }
    if (hb == lb && hi->op == O_EXTRACT && ho == lo_ + lo->w && (lo->op == O_EXTRACT))
        return mkExtract(hb, lo_, w);
    return intern(O_CONCAT, w, 0, hi, lo);
}

std::string exprStr(Expr *e, int d) {
    static const char *n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"};
    if (e->op == O_CONST) return std::to_string(e->c);
    if (e->op == O_SYM) return "s" + std::to_string(e->c);
    if (d == 0) return "...";
    std::string s = std::string("(") + n[e->op] + std::to_string(e->w);
    for (int i = 0; i < 3 && e->k[i]; i++) s += " " + exprStr(e->k[i], d - 1);
    return s + ")";
}

// ---------------------------------------------------------------- evaluation
static uint64_t g_epoch = 0;
static uint64_t evalRec(Expr *e, const Model &m) {
    if (e->op == O_CONST) return e->c;
    if (e->op == O_SYM) return e->c < m.size() ? m[e->c] : 0;
    if (e->epoch == g_epoch) return e->val;
    uint64_t r;
    switch (e->op) {
    case O_ITE: r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m); break;
    case O_ZEXT: r = evalRec(e->k[0], m); break;
    case O_SEXT: r = (uint64_t) sextw(evalRec(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case O_EXTRACT: r = (evalRec(e->k[0], m) >> e->c) & maskw(e->w); break;
    case O_CONCAT: r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m); break;
    default: r = constBin(e->op, evalRec(e->k[0], m), evalRec(e->k[1], m), e->k[0]->w);
    }
    e->epoch = g_epoch; e->val = r;
    return r;
}
uint64_t evalExpr(Expr *e, const Model &m) { g_epoch++; return evalRec(e, m); }

// ---------------------------------------------------------------- z3
static Z3_context g_ctx;
static Z3_solver g_solver;
static Z3_sort g_sorts[65];

static void z3err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(3);
}

void solverInit(unsigned timeoutMs) {
    Z3_config cfg = Z3_mk_config();
    g_ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(g_ctx, z3err);
    g_solver = !getenv("SYMX_SIMPLE") ? Z3_mk_solver_for_logic(g_ctx, Z3_mk_string_symbol(g_ctx, "QF_BV")) : Z3_mk_simple_solver(g_ctx);
    Z3_solver_inc_ref(g_ctx, g_solver);
    Z3_params p = Z3_mk_params(g_ctx);
    Z3_params_inc_ref(g_ctx, p);
    Z3_params_set_uint(g_ctx, p, Z3_mk_string_symbol(g_ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(g_ctx, g_solver, p);
    for (int i = 1; i <= 64; i++) g_sorts[i] = Z3_mk_bv_sort(g_ctx, i);
}

// All expressions are bit-vectors (booleans are (_ BitVec 1)).
static Z3_ast toZ3(Expr *e) {
    if (e->z3) return (Z3_ast) e->z3;
    Z3_ast r;
    Z3_context c = g_ctx;
    auto b2v = [&](Z3_ast b) {
        return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, g_sorts[1]), Z3_mk_unsigned_int64(c, 0, g_sorts[1]));
    };
    Z3_ast a = e->k[0] ? toZ3(e->k[0]) : nullptr, b = e->k[1] ? toZ3(e->k[1]) : nullptr, d = e->k[2] ? toZ3(e->k[2]) : nullptr;
    switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(c, e->c, g_sorts[e->w]); break;
    case O_SYM: { char n[32]; snprintf(n, sizeof n, "s%llu", (unsigned long long) e->c); r = Z3_mk_const(c, Z3_mk_string_symbol(c, n), g_sorts[8]); break; }
    case O_ADD: r = Z3_mk_bvadd(c, a, b); break;
    case O_SUB: r = Z3_mk_bvsub(c, a, b); break;
    case O_MUL: r = Z3_mk_bvmul(c, a, b); break;
    case O_UDIV: r = Z3_mk_bvudiv(c, a, b); break;
    case O_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
    case O_UREM: r = Z3_mk_bvurem(c, a, b); break;
    case O_SREM: r = Z3_mk_bvsrem(c, a, b); break;
    case O_AND: r = Z3_mk_bvand(c, a, b); break;
    case O_OR: r = Z3_mk_bvor(c, a, b); break;
    case O_XOR: r = Z3_mk_bvxor(c, a, b); break;
    case O_SHL: r = Z3_mk_bvshl(c, a, b); break;
    case O_LSHR: r = Z3_mk_bvlshr(c, a, b); break;
    case O_ASHR: r = Z3_mk_bvashr(c, a, b); break;
    case O_EQ: r = b2v(Z3_mk_eq(c, a, b)); break;
    case O_ULT: r = b2v(Z3_mk_bvult(c, a, b)); break;
    case O_ULE: r = b2v(Z3_mk_bvule(c, a, b)); break;
    case O_SLT: r = b2v(Z3_mk_bvslt(c, a, b)); break;
    case O_SLE: r = b2v(Z3_mk_bvsle(c, a, b)); break;
    case O_ITE: r = Z3_mk_ite(c, Z3_mk_eq(c, a, Z3_mk_unsigned_int64(c, 1, g_sorts[1])), b, d); break;
    case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, a); break;
    case O_SEXT: r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, a); break;
    case O_EXTRACT: r = Z3_mk_extract(c, e->c + e->w - 1, e->c, a); break;
    case O_CONCAT: r = Z3_mk_concat(c, a, b); break;
    default: abort();
    }
    e->z3 = r;   // context without ref counting keeps asts alive
    return r;
}

struct VH {
    size_t operator()(const std::vector<uint32_t> &v) const {
        uint64_t h = 1469598103934665603ull;
        for (uint32_t x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 31; }
        return h;
    }
};
struct CacheEnt { int8_t res; std::vector<std::pair<uint32_t, uint8_t>> model; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;

static void collectSyms(const Sup *s, Sup &out) { for (auto x : *s) out.push_back(x); }

int checkSat(const std::vector<Expr *> &cons, Expr *cond, Model &m) {
    if (isConst(cond) && !cond->c) return 0;
    // slice
    static std::vector<uint8_t> mark;
    static std::vector<uint32_t> touched;
    static std::vector<uint8_t> used;
    touched.clear();
    auto setm = [&](uint32_t s) {
        if (s >= mark.size()) mark.resize(s + 64, 0);
        if (!mark[s]) { mark[s] = 1; touched.push_back(s); }
    };
    for (auto s : *cond->sup) setm(s);
    used.assign(cons.size(), 0);
    bool changed = true;
    std::vector<Expr *> sl;
    while (changed) {
        changed = false;
        for (size_t i = 0; i < cons.size(); i++) {
            if (used[i]) continue;
            bool hit = false, all = true;
            for (auto s : *cons[i]->sup) {
                if (s < mark.size() && mark[s]) hit = true; else all = false;
            }
            if (hit) {
                used[i] = 1;
                sl.push_back(cons[i]);
                if (!all) { for (auto s : *cons[i]->sup) setm(s); changed = true; }
            }
        }
    }
    for (auto s : touched) mark[s] = 0;

    std::vector<uint32_t> key;
    key.reserve(sl.size() + 1);
    for (auto e : sl) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.push_back(cond->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        g_ss.cacheHits++;
        if (it->second.res == 1)
            for (auto &p : it->second.model) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; }
        return it->second.res;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_context c = g_ctx;
    Z3_solver_push(c, g_solver);
    Z3_ast one = Z3_mk_unsigned_int64(c, 1, g_sorts[1]);
    for (auto e : sl) Z3_solver_assert(c, g_solver, Z3_mk_eq(c, toZ3(e), one));
    Z3_solver_assert(c, g_solver, Z3_mk_eq(c, toZ3(cond), one));
    Z3_lbool r = Z3_solver_check(c, g_solver);
    CacheEnt ent;
    ent.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    g_ss.queries++;
    if (r == Z3_L_TRUE) {
        g_ss.sat++;
        Z3_model mo = Z3_solver_get_model(c, g_solver);
        Z3_model_inc_ref(c, mo);
        for (auto s : touched) {
            Z3_ast v = nullptr;
            if (!Z3_model_eval(c, mo, toZ3(mkSym(s)), true, &v)) { fprintf(stderr, "model eval failed\n"); _exit(3); }
            uint64_t u = 0;
            if (!Z3_get_numeral_uint64(c, v, &u)) { fprintf(stderr, "model numeral failed\n"); _exit(3); }
            ent.model.push_back({s, (uint8_t) u});
        }
        Z3_model_dec_ref(c, mo);
        for (auto &p : ent.model) { if (p.first >= m.size()) m.resize(p.first + 1, 0); m[p.first] = p.second; }
        // self-check: the model must satisfy everything it was asked for
        for (auto e : sl) if (!evalExpr(e, m)) { fprintf(stderr, "model check failed (constraint): %s\n", exprStr(e).c_str()); _exit(3); }
        if (!evalExpr(cond, m)) { fprintf(stderr, "model check failed (cond): %s\n", exprStr(cond).c_str()); _exit(3); }
    } else if (r == Z3_L_FALSE) g_ss.unsat++;
    else g_ss.unknown++;
    Z3_solver_pop(c, g_solver, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    g_cache.emplace(std::move(key), std::move(ent));
    return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
