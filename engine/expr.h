// Hash-consed bit-vector expressions + solver interface (z3).
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>

enum Op : uint8_t {
    O_CONST, O_SYM,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT
};

typedef std::vector<uint32_t> Sup;   // sorted symbol ids

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    uint64_t c;          // const value / sym id / extract low bit
    Expr *k[3];
    const Sup *sup;
    // evaluation memo
    uint64_t epoch;
    uint64_t val;
    void *z3;
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t) v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t) ((v ^ m) - m);
}

Expr *mkConst(unsigned w, uint64_t v);
Expr *mkSym(uint32_t id);
Expr *mkBin(Op op, Expr *a, Expr *b);      // result width: a->w or 1 for compares
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExt(Op op, Expr *a, unsigned w);   // zext/sext
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkNot(Expr *a);                      // width 1
uint64_t constBin(Op op, uint64_t a, uint64_t b, unsigned w);
static inline bool isConst(Expr *e) { return e->op == O_CONST; }

typedef std::vector<uint8_t> Model;        // by symbol id; missing = 0
uint64_t evalExpr(Expr *e, const Model &m);

struct SolverStats {
    uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
// Is (constraints && cond) satisfiable?  `constraints` is the path condition; it is sliced to the
// constraints connected to cond.  On sat, updates the bytes of the slice in `m`.
// returns 1 sat, 0 unsat, -1 unknown
int checkSat(const std::vector<Expr *> &constraints, Expr *cond, Model &m);
void solverInit(unsigned timeoutMs);
std::string exprStr(Expr *e, int depth = 6);
