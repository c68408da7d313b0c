// symx: bounded symbolic execution of LLVM bitcode, deciding every symbolic branch, memory access and
// assertion with z3.  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>

using namespace llvm;
typedef uint64_t u64;

static const unsigned OBJ_SHIFT = 28;
static const u64 OBJ_MID = 1ull << 27;
static const u64 MAX_OBJ = 1ull << 24;
static const uint32_t UNDEF_BASE = 2048;   // symbol ids >= this are uninitialised-memory symbols
static Expr *const UNDEF = (Expr *) 1;

struct Val { u64 c = 0; Expr *e = nullptr; };

// ------------------------------------------------------------------ decoded program
enum Kind : uint8_t {
    K_BIN, K_CMP, K_ZEXT, K_SEXT, K_TRUNC, K_COPY, K_LOAD, K_STORE, K_GEP, K_BR, K_CONDBR, K_SWITCH,
    K_SELECT, K_CALL, K_RET, K_UNREACHABLE, K_ALLOCA, K_EXTRACTV, K_INSERTV, K_FBIN, K_FCMP, K_FCAST, K_FNEG,
    K_DIVREM
};
struct Opd { int32_t reg = -1; u64 c = 0; };
struct FuncInfo;
struct Inst {
    Kind k; Op op = O_CONST; uint8_t pred = 0; uint16_t w = 0, w2 = 0;
    int32_t dst = -1; uint32_t n = 0;              // number of leaf regs
    std::vector<Opd> ops;
    std::vector<u64> aux;                          // gep scales, switch values, widths, offsets
    std::vector<uint32_t> tgt;                     // successor blocks
    FuncInfo *callee = nullptr; uint32_t line = 0; uint32_t bb = 0;
    const char *what = nullptr;
    std::vector<uint16_t> argW;                    // call argument widths
    std::vector<uint32_t> byval;                   // byval size per argument (0 none)
    std::vector<uint32_t> leafOff;                 // aggregate load/store leaf offsets
    std::vector<uint16_t> leafW;
};
struct Phi { int32_t dst; uint32_t n; std::map<uint32_t, std::vector<Opd>> in; };
struct BBInfo { uint32_t start; uint32_t line; std::vector<Phi> phis; bool hit = false; };
enum Builtin {
    B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_SYM, B_CHOOSE, B_ASSUME, B_ASSERT,
    B_REACH, B_LOG, B_END, B_ABORT, B_VASTART, B_VAEND, B_VACOPY, B_IGNORE, B_MINMAX, B_OVF, B_FAIL, B_RET0,
    B_FMATH, B_BSWAP, B_SAT, B_CONC, B_OBJSIZE, B_ISSYM, B_SCAN, B_CTPOP, B_FMTD, B_ROOM, B_TRACE, B_IMPLIES, B_FSH, B_CONEW, B_COSWITCH, B_UNMODELLED
};
struct FuncInfo {
    Function *f = nullptr; std::string name; u64 addr = 0;
    bool decoded = false, isRepo = false, isModel = false, hasBody = false, used = false;
    uint32_t nregs = 0, nargs = 0; bool vararg = false;
    std::vector<uint32_t> argReg, argN; std::vector<uint16_t> argW;
    std::vector<Inst> insts; std::vector<BBInfo> bbs;
    Builtin bi = B_NONE; std::string file; unsigned rw = 0; unsigned biArg = 0;
    u64 calls = 0;
};

static Module *M;
static const DataLayout *DL;
static std::vector<FuncInfo *> g_funcs;
static std::unordered_map<Function *, FuncInfo *> g_finfo;
static std::unordered_map<std::string, FuncInfo *> g_fbyname;
static std::unordered_map<u64, FuncInfo *> g_fbyid;
static std::unordered_map<GlobalVariable *, u64> g_gaddr;
static std::string g_repoPrefix = "/repo/";

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC };
struct MemObj {
    uint32_t rc = 0; ObjKind kind; bool alive = true, ro = false, hasSym = false;
    uint32_t size; std::vector<uint8_t> d; std::vector<Expr *> s; const char *name = "";
};
struct ORef {
    MemObj *p = nullptr;
    ORef() {}
    ORef(MemObj *q) : p(q) { if (p) p->rc++; }
    ORef(const ORef &o) : p(o.p) { if (p) p->rc++; }
    ORef(ORef &&o) noexcept : p(o.p) { o.p = nullptr; }
    ORef &operator=(const ORef &o) { if (o.p) o.p->rc++; rel(); p = o.p; return *this; }
    ORef &operator=(ORef &&o) noexcept { std::swap(p, o.p); return *this; }
    ~ORef() { rel(); }
    void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
};
static MemObj *newObj(ObjKind k, u64 size, bool undef) {
    MemObj *o = new MemObj();
    o->kind = k; o->size = size; o->d.assign(size, 0);
    if (undef && size) { o->s.assign(size, UNDEF); o->hasSym = true; }
    return o;
}

struct Frame {
    FuncInfo *f; uint32_t pc = 0, bb = 0; std::vector<Val> regs; std::vector<u64> allocas; int32_t retReg = -1; uint32_t retN = 0;
    std::vector<std::pair<Val, uint16_t>> va;
};
struct State {
    std::vector<Frame> st;             // the call stack that runs
    std::vector<std::vector<Frame>> co; uint32_t cur = 0;   // stacks that wait (co[0]: the one v_main started on)
    std::vector<ORef> objs;            // index by id
    std::vector<Expr *> cons; Model m; std::vector<int16_t> known;
    uint32_t nsym = 0, nundef = 0; u64 steps = 0;
    std::vector<std::pair<Expr *, uint8_t>> log;   // null expr -> concrete byte
    std::vector<const char *> reach;
    bool modelOk = true; uint32_t depth = 0;
};

static std::vector<State *> g_stack;   // DFS work list
static std::deque<State *> g_queue;

// ------------------------------------------------------------------ results
struct Viol { std::string kind, msg, loc, input, trace; };
static std::vector<Viol> g_viols;
static std::map<std::string, int> g_violCount;
static std::map<std::string, u64> g_reach;
static u64 g_paths = 0, g_assumed = 0, g_errPaths = 0, g_insts = 0, g_forks = 0, g_asserts = 0, g_assertQ = 0, g_maxCons = 0, g_unknown = 0;
static std::map<std::string, u64> g_unmodelled;
struct Wit { std::string input; u64 hash; std::string reach; };
static std::vector<Wit> g_wits;
static unsigned g_witMax = 200;
static std::mt19937_64 g_rng(1);
static u64 g_maxSteps = 3000000, g_maxPaths = ~0ull;
static double g_deadline = 1e18; static bool g_incomplete = false; static std::string g_incWhy;
static unsigned g_violCap = 40, g_violPer = 2;
static int64_t g_param[16];
static bool g_undefCheck = true;
static const char *g_coverDump = nullptr;
struct Shared { std::atomic<u64> next; std::atomic<u64> viol; std::atomic<u64> paths; };
static Shared *g_sh;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void die(const std::string &s) { fprintf(stderr, "symx: %s\n", s.c_str()); _exit(3); }

// ------------------------------------------------------------------ decoding
static unsigned tw(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    std::string s; raw_string_ostream o(s); t->print(o);
    die("unsupported type " + o.str());
}
static void leaves(Type *t, u64 off, std::vector<uint32_t> &offs, std::vector<uint16_t> &ws) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), offs, ws);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, offs, ws);
    } else { offs.push_back(off); ws.push_back(tw(t)); }
}
static unsigned nleaf(Type *t) {
    if (t->isVoidTy()) return 0;
    if (!t->isAggregateType()) return 1;
    std::vector<uint32_t> o; std::vector<uint16_t> w; leaves(t, 0, o, w); return o.size();
}
static FuncInfo *finfo(Function *f);
static u64 constVal(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) die("wide const"); return ci->getZExtValue(); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
    if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
    if (auto *gv = dyn_cast<GlobalVariable>(c)) return g_gaddr.at(gv);
    if (auto *f = dyn_cast<Function>(c)) return finfo(f)->addr;
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) die("gep constexpr");
            return constVal(ce->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
        case Instruction::Sub: return constVal(ce->getOperand(0)) - constVal(ce->getOperand(1));
        case Instruction::Add: return constVal(ce->getOperand(0)) + constVal(ce->getOperand(1));
        case Instruction::Trunc: return constVal(ce->getOperand(0)) & maskw(tw(ce->getType()));
        default: break;
        }
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    die("unsupported constant " + o.str());
}
static void initConst(MemObj *o, u64 off, Constant *c) {
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef r = cd->getRawDataValues();
        memcpy(&o->d[off], r.data(), r.size());
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    u64 v = constVal(c); unsigned n = DL->getTypeStoreSize(c->getType());
    memcpy(&o->d[off], &v, n);
}

static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static void classify(FuncInfo *fi) {
    const std::string &n = fi->name;
    static const std::map<std::string, Builtin> t = {
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
        {"v_sym", B_SYM}, {"v_choose", B_CHOOSE}, {"v_assume", B_ASSUME}, {"v_assert_", B_ASSERT}, {"v_reach", B_REACH},
        {"v_log", B_LOG}, {"v_end", B_END}, {"v_fail", B_FAIL}, {"abort", B_ABORT}, {"v_conc", B_CONC}, {"v_param", B_ROOM},
        {"v_is_sym", B_ISSYM}, {"v_scan", B_SCAN}, {"v_fmt_double", B_FMTD}, {"v_trace", B_TRACE}, {"v_may", B_IMPLIES}, {"v_co_new", B_CONEW}, {"v_co_switch", B_COSWITCH},
    };
    auto it = t.find(n);
    if (it != t.end()) { fi->bi = it->second; return; }
    if (startsWith(n, "llvm.")) {
        if (startsWith(n, "llvm.memcpy") || startsWith(n, "llvm.memmove")) fi->bi = B_MEMCPY;
        else if (startsWith(n, "llvm.memset")) fi->bi = B_MEMSET;
        else if (startsWith(n, "llvm.va_start")) fi->bi = B_VASTART;
        else if (startsWith(n, "llvm.va_end")) fi->bi = B_VAEND;
        else if (startsWith(n, "llvm.va_copy")) fi->bi = B_VACOPY;
        else if (startsWith(n, "llvm.lifetime") || startsWith(n, "llvm.dbg") || startsWith(n, "llvm.assume") ||
                 startsWith(n, "llvm.stackrestore") || startsWith(n, "llvm.donothing") || startsWith(n, "llvm.experimental.noalias")) fi->bi = B_IGNORE;
        else if (startsWith(n, "llvm.stacksave")) fi->bi = B_RET0;
        else if (startsWith(n, "llvm.umin")) { fi->bi = B_MINMAX; fi->biArg = 0; }
        else if (startsWith(n, "llvm.umax")) { fi->bi = B_MINMAX; fi->biArg = 1; }
        else if (startsWith(n, "llvm.smin")) { fi->bi = B_MINMAX; fi->biArg = 2; }
        else if (startsWith(n, "llvm.smax")) { fi->bi = B_MINMAX; fi->biArg = 3; }
        else if (startsWith(n, "llvm.abs")) { fi->bi = B_MINMAX; fi->biArg = 4; }
        else if (startsWith(n, "llvm.expect")) { fi->bi = B_MINMAX; fi->biArg = 5; }
        else if (startsWith(n, "llvm.usub.sat")) { fi->bi = B_SAT; fi->biArg = 0; }
        else if (startsWith(n, "llvm.uadd.sat")) { fi->bi = B_SAT; fi->biArg = 1; }
        else if (startsWith(n, "llvm.fshl")) { fi->bi = B_FSH; fi->biArg = 0; }
        else if (startsWith(n, "llvm.fshr")) { fi->bi = B_FSH; fi->biArg = 1; }
        else if (startsWith(n, "llvm.bswap")) fi->bi = B_BSWAP;
        else if (startsWith(n, "llvm.ctpop")) fi->bi = B_CTPOP;
        else if (startsWith(n, "llvm.objectsize")) fi->bi = B_OBJSIZE;
        else if (n.find(".with.overflow") != std::string::npos) {
            fi->bi = B_OVF;
            fi->biArg = startsWith(n, "llvm.uadd") ? 0 : startsWith(n, "llvm.sadd") ? 1 : startsWith(n, "llvm.usub") ? 2 :
                        startsWith(n, "llvm.ssub") ? 3 : startsWith(n, "llvm.umul") ? 4 : 5;
        } else if (startsWith(n, "llvm.ceil") || startsWith(n, "llvm.floor") || startsWith(n, "llvm.fabs") || startsWith(n, "llvm.fmuladd") || startsWith(n, "llvm.round") || startsWith(n, "llvm.trunc")) fi->bi = B_FMATH;
        else fi->bi = B_UNMODELLED;
        return;
    }
    if (!fi->hasBody) {
        if (n == "ceilf" || n == "ceil" || n == "floor" || n == "floorf" || n == "fabs" || n == "round" || n == "roundf" || n == "trunc" || n == "truncf") fi->bi = B_FMATH;
        else fi->bi = B_UNMODELLED;
    }
}

static FuncInfo *finfo(Function *f) {
    auto it = g_finfo.find(f);
    if (it != g_finfo.end()) return it->second;
    die("function without info: " + f->getName().str());
}

static void decode(FuncInfo *fi);

// ------------------------------------------------------------------ decode a function
static void decode(FuncInfo *fi) {
    if (fi->decoded) return;
    fi->decoded = true;
    Function *f = fi->f;
    std::unordered_map<Value *, int32_t> reg;
    std::unordered_map<BasicBlock *, uint32_t> bbi;
    uint32_t nr = 0;
    for (auto &a : f->args()) {
        unsigned n = nleaf(a.getType());
        reg[&a] = nr; fi->argReg.push_back(nr); fi->argN.push_back(n); nr += n;
    }
    for (auto &bb : *f) {
        bbi[&bb] = bbi.size();
        for (auto &in : bb) {
            unsigned n = nleaf(in.getType());
            if (n) { reg[&in] = nr; nr += n; }
        }
    }
    fi->nregs = nr;
    auto opd = [&](Value *v) -> Opd {
        Opd o;
        if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
        auto it = reg.find(v);
        if (it == reg.end()) { if (isa<MetadataAsValue>(v)) return o; die("operand without reg in " + fi->name); }
        o.reg = it->second; return o;
    };
    auto aggOps = [&](Value *v, std::vector<Opd> &out) {   // all leaves
        unsigned n = nleaf(v->getType());
        if (auto *c = dyn_cast<Constant>(v)) {
            if (v->getType()->isAggregateType()) {
                if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (unsigned i = 0; i < n; i++) out.push_back(Opd()); return; }
                if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
                    for (unsigned i = 0; i < ca->getNumOperands(); i++) { Opd o; o.c = constVal(ca->getOperand(i)); out.push_back(o); }
                    return;
                }
                die("aggregate const");
            }
            out.push_back(opd(v)); return;
        }
        int32_t r = reg.at(v);
        for (unsigned i = 0; i < n; i++) { Opd o; o.reg = r + i; out.push_back(o); }
    };
    for (auto &bb : *f) {
        BBInfo bi; bi.start = fi->insts.size(); bi.line = 0;
        for (auto &in : bb) {
            uint32_t line = in.getDebugLoc() ? in.getDebugLoc().getLine() : 0;
            if (!bi.line && line) bi.line = line;
            if (auto *p = dyn_cast<PHINode>(&in)) {
                Phi ph; ph.dst = reg.at(p); ph.n = nleaf(p->getType());
                for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
                    std::vector<Opd> v; aggOps(p->getIncomingValue(i), v);
                    ph.in[bbi.at(p->getIncomingBlock(i))] = v;
                }
                bi.phis.push_back(ph);
                continue;
            }
            Inst I; I.k = K_UNREACHABLE; I.line = line; I.bb = bbi[&bb];
            if (!in.getType()->isVoidTy()) { I.dst = reg.at(&in); I.n = nleaf(in.getType()); }
            switch (in.getOpcode()) {
            case Instruction::Add: I.op = O_ADD; goto bin;
            case Instruction::Sub: I.op = O_SUB; goto bin;
            case Instruction::Mul: I.op = O_MUL; goto bin;
            case Instruction::And: I.op = O_AND; goto bin;
            case Instruction::Or: I.op = O_OR; goto bin;
            case Instruction::Xor: I.op = O_XOR; goto bin;
            case Instruction::Shl: I.op = O_SHL; goto bin;
            case Instruction::LShr: I.op = O_LSHR; goto bin;
            case Instruction::AShr: I.op = O_ASHR; goto bin;
            bin:
                I.k = K_BIN; I.w = tw(in.getType()); I.ops = {opd(in.getOperand(0)), opd(in.getOperand(1))}; break;
            case Instruction::UDiv: I.op = O_UDIV; goto div;
            case Instruction::SDiv: I.op = O_SDIV; goto div;
            case Instruction::URem: I.op = O_UREM; goto div;
            case Instruction::SRem: I.op = O_SREM; goto div;
            div:
                I.k = K_DIVREM; I.w = tw(in.getType()); I.ops = {opd(in.getOperand(0)), opd(in.getOperand(1))}; break;
            case Instruction::ICmp: {
                auto *c = cast<ICmpInst>(&in);
                I.k = K_CMP; I.w = tw(c->getOperand(0)->getType()); I.pred = c->getPredicate();
                I.ops = {opd(in.getOperand(0)), opd(in.getOperand(1))}; break;
            }
            case Instruction::ZExt: I.k = K_ZEXT; goto cast_;
            case Instruction::SExt: I.k = K_SEXT; goto cast_;
            case Instruction::Trunc: I.k = K_TRUNC; goto cast_;
            case Instruction::PtrToInt: case Instruction::IntToPtr: {
                unsigned a = tw(in.getOperand(0)->getType()), b = tw(in.getType());
                I.k = a < b ? K_ZEXT : a > b ? K_TRUNC : K_COPY; goto cast_;
            }
            case Instruction::BitCast: case Instruction::Freeze: I.k = K_COPY; goto cast_;
            cast_:
                I.w = tw(in.getType()); I.w2 = tw(in.getOperand(0)->getType()); I.ops = {opd(in.getOperand(0))}; break;
            case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
            case Instruction::FPExt: case Instruction::FPTrunc:
                I.k = K_FCAST; I.pred = in.getOpcode() == Instruction::FPToSI ? 0 : in.getOpcode() == Instruction::FPToUI ? 1 :
                    in.getOpcode() == Instruction::SIToFP ? 2 : in.getOpcode() == Instruction::UIToFP ? 3 : in.getOpcode() == Instruction::FPExt ? 4 : 5;
                I.w = tw(in.getType()); I.w2 = tw(in.getOperand(0)->getType()); I.ops = {opd(in.getOperand(0))}; break;
            case Instruction::FAdd: I.pred = 0; goto fbin;
            case Instruction::FSub: I.pred = 1; goto fbin;
            case Instruction::FMul: I.pred = 2; goto fbin;
            case Instruction::FDiv: I.pred = 3; goto fbin;
            fbin:
                I.k = K_FBIN; I.w = tw(in.getType()); I.ops = {opd(in.getOperand(0)), opd(in.getOperand(1))}; break;
            case Instruction::FNeg: I.k = K_FNEG; I.w = tw(in.getType()); I.ops = {opd(in.getOperand(0))}; break;
            case Instruction::FCmp: I.k = K_FCMP; I.pred = cast<FCmpInst>(&in)->getPredicate(); I.w = tw(in.getOperand(0)->getType());
                I.ops = {opd(in.getOperand(0)), opd(in.getOperand(1))}; break;
            case Instruction::Load: {
                I.k = K_LOAD; leaves(in.getType(), 0, I.leafOff, I.leafW); I.ops = {opd(in.getOperand(0))}; break;
            }
            case Instruction::Store: {
                auto *s = cast<StoreInst>(&in);
                I.k = K_STORE; leaves(s->getValueOperand()->getType(), 0, I.leafOff, I.leafW);
                I.ops = {opd(s->getPointerOperand())}; aggOps(s->getValueOperand(), I.ops); break;
            }
            case Instruction::GetElementPtr: {
                I.k = K_GEP; I.ops.push_back(opd(in.getOperand(0))); I.aux.push_back(0);
                u64 off = 0;
                for (auto gti = gep_type_begin(&in), e = gep_type_end(&in); gti != e; ++gti) {
                    Value *idx = gti.getOperand();
                    if (auto *st = gti.getStructTypeOrNull()) {
                        off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(idx)) off += sz * (u64) ci->getSExtValue();
                        else { I.ops.push_back(opd(idx)); I.aux.push_back(sz); I.argW.push_back(tw(idx->getType())); }
                    }
                }
                I.aux[0] = off; break;
            }
            case Instruction::Br: {
                auto *b = cast<BranchInst>(&in);
                if (b->isConditional()) { I.k = K_CONDBR; I.ops = {opd(b->getCondition())}; I.tgt = {bbi.at(b->getSuccessor(0)), bbi.at(b->getSuccessor(1))}; }
                else { I.k = K_BR; I.tgt = {bbi.at(b->getSuccessor(0))}; }
                break;
            }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(&in);
                I.k = K_SWITCH; I.w = tw(s->getCondition()->getType()); I.ops = {opd(s->getCondition())};
                I.tgt.push_back(bbi.at(s->getDefaultDest()));
                for (auto &c : s->cases()) { I.aux.push_back(c.getCaseValue()->getZExtValue()); I.tgt.push_back(bbi.at(c.getCaseSuccessor())); }
                break;
            }
            case Instruction::Select: {
                I.k = K_SELECT; I.ops = {opd(in.getOperand(0))};
                if (in.getType()->isAggregateType()) die("aggregate select");
                I.w = tw(in.getType());
                I.ops.push_back(opd(in.getOperand(1))); I.ops.push_back(opd(in.getOperand(2))); break;
            }
            case Instruction::Call: {
                auto *c = cast<CallInst>(&in);
                I.k = K_CALL;
                if (c->isInlineAsm()) die("inline asm in " + fi->name);
                Value *cv = c->getCalledOperand()->stripPointerCasts();
                if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                if (auto *cf = dyn_cast<Function>(cv)) {
                    std::string nm = cf->getName().str();
                    I.callee = finfo(cf);
                    if (fi->isRepo) {
                        auto it = g_fbyname.find("v_" + nm);
                        if (it != g_fbyname.end() && it->second->hasBody) I.callee = it->second;
                    }
                    if (I.callee->bi == B_IGNORE) { I.ops.clear(); break; }
                } else I.ops.push_back(opd(cv));
                I.leafOff.push_back(I.callee ? 0 : 1);
                for (unsigned i = 0; i < c->arg_size(); i++) {
                    Value *a = c->getArgOperand(i);
                    if (a->getType()->isMetadataTy()) continue;
                    if (a->getType()->isAggregateType()) die("aggregate call argument");
                    I.ops.push_back(opd(a)); I.argW.push_back(tw(a->getType()));
                    I.byval.push_back(c->isByValArgument(i) ? DL->getTypeAllocSize(c->getParamByValType(i)) : 0);
                }
                I.w = c->getType()->isVoidTy() || c->getType()->isAggregateType() ? 0 : tw(c->getType());
                break;
            }
            case Instruction::Ret: {
                I.k = K_RET; if (in.getNumOperands()) aggOps(in.getOperand(0), I.ops); break;
            }
            case Instruction::Unreachable: I.k = K_UNREACHABLE; break;
            case Instruction::Alloca: {
                auto *a = cast<AllocaInst>(&in);
                I.k = K_ALLOCA; I.aux = {DL->getTypeAllocSize(a->getAllocatedType())}; I.ops = {opd(a->getArraySize())}; I.w = tw(a->getArraySize()->getType());
                break;
            }
            case Instruction::ExtractValue: {
                auto *e = cast<ExtractValueInst>(&in);
                I.k = K_EXTRACTV; Type *t = e->getAggregateOperand()->getType(); unsigned base = 0;
                for (unsigned ix : e->indices()) {
                    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) base += nleaf(st->getElementType(i)); t = st->getElementType(ix); }
                    else { auto *at = cast<ArrayType>(t); base += ix * nleaf(at->getElementType()); t = at->getElementType(); }
                }
                std::vector<Opd> all; aggOps(e->getAggregateOperand(), all);
                for (unsigned i = 0; i < I.n; i++) I.ops.push_back(all[base + i]);
                break;
            }
            case Instruction::InsertValue: {
                auto *e = cast<InsertValueInst>(&in);
                I.k = K_INSERTV; Type *t = e->getAggregateOperand()->getType(); unsigned base = 0;
                for (unsigned ix : e->indices()) {
                    if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) base += nleaf(st->getElementType(i)); t = st->getElementType(ix); }
                    else { auto *at = cast<ArrayType>(t); base += ix * nleaf(at->getElementType()); t = at->getElementType(); }
                }
                aggOps(e->getAggregateOperand(), I.ops);
                std::vector<Opd> v; aggOps(e->getInsertedValueOperand(), v);
                for (unsigned i = 0; i < v.size(); i++) I.ops[base + i] = v[i];
                break;
            }
            default: {
                std::string s; raw_string_ostream o(s); in.print(o);
                die("unsupported instruction: " + o.str());
            }
            }
            fi->insts.push_back(std::move(I));
        }
        fi->bbs.push_back(std::move(bi));
    }
}

// ------------------------------------------------------------------ helpers on states
static inline Val opv(Frame &f, const Opd &o) { if (o.reg < 0) { Val v; v.c = o.c; return v; } return f.regs[o.reg]; }
static inline Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
static inline Val mk(Expr *e) { Val v; if (isConst(e)) v.c = e->c; else v.e = e; return v; }

static bool allKnown(State *s, Expr *e) {
    for (auto x : *e->sup) if (x >= s->known.size() || s->known[x] < 0) return false;
    return true;
}
static void addCons(State *s, Expr *c) {
    if (isConst(c)) return;
    if (c->op == O_AND && c->w == 1) { addCons(s, c->k[0]); addCons(s, c->k[1]); return; }
    if (c->op == O_XOR && isConst(c->k[1]) && c->k[0]->op == O_OR) {   // !(a|b)
        addCons(s, mkNot(c->k[0]->k[0])); addCons(s, mkNot(c->k[0]->k[1])); return;
    }
    if (c->op == O_EQ && isConst(c->k[1]) && c->k[0]->op == O_SYM) {
        uint32_t id = c->k[0]->c;
        if (id >= s->known.size()) s->known.resize(id + 1, -1);
        s->known[id] = c->k[1]->c;
    }
    for (auto e : s->cons) if (e == c) return;
    s->cons.push_back(c);
    if (s->cons.size() > g_maxCons) g_maxCons = s->cons.size();
}
static State *forkState(State *s) { g_forks++; State *n = new State(*s); n->depth++; return n; }
static bool g_bfs = false;
static void enqueue(State *s) { if (g_bfs) g_queue.push_back(s); else g_stack.push_back(s); }

static std::string inputHex(State *s) {
    std::string r; char b[4];
    for (uint32_t i = 0; i < s->nsym; i++) { snprintf(b, sizeof b, "%02x", i < s->m.size() ? s->m[i] : 0); r += b; }
    return r;
}
static std::string trace(State *s) {
    std::string r;
    for (int i = (int) s->st.size() - 1; i >= 0; i--) {
        Frame &f = s->st[i];
        uint32_t line = 0;
        if (f.pc < f.f->insts.size()) { uint32_t pc = f.pc; if (i != (int) s->st.size() - 1 && pc > 0) pc--; line = f.f->insts[pc].line; }
        r += f.f->name + ":" + std::to_string(line) + " ";
        if (r.size() > 600) break;
    }
    return r;
}
static std::string repoLoc(State *s) {
    for (int i = (int) s->st.size() - 1; i >= 0; i--) if (s->st[i].f->isRepo) return s->st[i].f->name;
    return s->st.empty() ? "" : s->st.back().f->name;
}
static void violation(State *s, const std::string &kind, const std::string &msg) {
    std::string loc = repoLoc(s);
    std::string key = kind + "|" + msg + "|" + loc;
    int &n = g_violCount[key];
    n++;
    if (n == 1 && g_sh) g_sh->viol++;
    if (n <= (int) g_violPer) g_viols.push_back({kind, msg, loc, inputHex(s), trace(s)});
}

// concretise: forks for every feasible value of e; returns value for this state.  Must be called before side effects.
static bool feasible(State *s, Expr *c, Model &m) {   // unknown counts as infeasible but is recorded
    int r = checkSat(s->cons, c, m);
    if (r < 0) { g_unknown++; return false; }
    return r == 1;
}
static u64 concretise(State *s, Expr *e) {
    u64 v = evalExpr(e, s->m);
    if (allKnown(s, e)) return v;
    Expr *eq = mkBin(O_EQ, e, mkConst(e->w, v));
    Model m = s->m;
    Expr *ne = mkNot(eq);
    if (feasible(s, ne, m)) {
        State *n = forkState(s);
        n->m = m; addCons(n, ne); enqueue(n);
        addCons(s, eq);
    }
    return v;
}

// ------------------------------------------------------------------ memory access
static MemObj *lookup(State *s, u64 addr, u64 &id) {
    id = addr >> OBJ_SHIFT;
    if (id == 0 || id >= s->objs.size()) return nullptr;
    return s->objs[id].p;
}
static MemObj *writable(State *s, u64 id) {
    MemObj *o = s->objs[id].p;
    if (o->rc > 1) {
        MemObj *n = new MemObj(*o); n->rc = 0;
        s->objs[id] = ORef(n);
        return n;
    }
    return o;
}
static u64 addObj(State *s, MemObj *o) {
    s->objs.push_back(ORef(o));
    return ((u64) (s->objs.size() - 1) << OBJ_SHIFT) + OBJ_MID;
}
static inline u64 baseOf(u64 id) { return (id << OBJ_SHIFT) + OBJ_MID; }

// checks a concrete range; returns object or reports
static MemObj *access(State *s, u64 addr, u64 n, bool write, u64 &id, u64 &off, bool report = true) {
    MemObj *o = lookup(s, addr, id);
    std::string why;
    if (!o) why = addr < 4096 ? "null pointer access" : "wild pointer access";
    else if (!o->alive) why = o->kind == OK_HEAP ? "use after free" : "use after return";
    else if (o->kind == OK_FUNC) why = "access to function memory";
    else {
        off = addr - baseOf(id);
        if (off > o->size || n > o->size - off) why = std::string(o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global") + " buffer overflow";
        else if (write && o->ro) why = "write to constant memory";
        else return o;
    }
    if (report) violation(s, "memory", why);
    return nullptr;
}
static Expr *byteAt(State *s, MemObj *&o, u64 id, u64 off) {   // null if concrete
    if (!o->hasSym) return nullptr;
    Expr *e = o->s[off];
    if (!e) return nullptr;
    if (e == UNDEF) {
        o = writable(s, id);
        uint32_t k = UNDEF_BASE + s->nundef++;
        e = mkSym(k);
        o->s[off] = e;
        return e;
    }
    if (e->op == O_SYM && e->c < s->known.size() && s->known[e->c] >= 0) return mkConst(8, s->known[e->c]);
    return e;
}
static Val readObj(State *s, MemObj *o, u64 id, u64 off, unsigned bytes) {
    Val v;
    if (!o->hasSym) { memcpy(&v.c, &o->d[off], bytes); return v; }
    bool any = false;
    for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { any = true; break; }
    if (!any) { memcpy(&v.c, &o->d[off], bytes); return v; }
    Expr *r = nullptr;
    for (unsigned i = 0; i < bytes; i++) {
        Expr *b = byteAt(s, o, id, off + i);
        if (!b) b = mkConst(8, o->d[off + i]);
        r = r ? mkConcat(b, r) : b;
    }
    return mk(r);
}
static void writeObj(State *s, u64 id, u64 off, unsigned bytes, const Val &v, unsigned w) {
    MemObj *o = writable(s, id);
    if (!v.e) {
        memcpy(&o->d[off], &v.c, bytes);
        if (o->hasSym) for (unsigned i = 0; i < bytes; i++) o->s[off + i] = nullptr;
        return;
    }
    if (!o->hasSym) { o->hasSym = true; o->s.assign(o->size, nullptr); }
    Expr *e = v.e;
    if (w < bytes * 8) e = mkExt(O_ZEXT, e, bytes * 8);
    for (unsigned i = 0; i < bytes; i++) {
        Expr *b = mkExtract(e, i * 8, 8);
        if (isConst(b)) { o->d[off + i] = b->c; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}

enum Res { RES_OK, RES_DEAD };

// Symbolic load: within the object the address currently points to.
static Res loadSym(State *s, Expr *a, unsigned bytes, Val &out, unsigned w) {
    u64 c = evalExpr(a, s->m);
    if (allKnown(s, a)) {
        u64 id, off; MemObj *o = access(s, c, bytes, false, id, off);
        if (!o) return RES_DEAD;
        out = readObj(s, o, id, off, bytes); return RES_OK;
    }
    {   // only one address possible?
        Model m = s->m; Expr *ne = mkNot(mkBin(O_EQ, a, mkConst(64, c)));
        if (!feasible(s, ne, m)) {
            u64 id, off; MemObj *o = access(s, c, bytes, false, id, off);
            if (!o) return RES_DEAD;
            out = readObj(s, o, id, off, bytes); return RES_OK;
        }
    }
    u64 id, off; MemObj *o = access(s, c, bytes, false, id, off);
    if (!o) {
        // report, continue with other addresses
        Model m = s->m; Expr *ne = mkNot(mkBin(O_EQ, a, mkConst(64, c)));
        if (feasible(s, ne, m)) { State *n = forkState(s); n->m = m; addCons(n, ne); enqueue(n); }
        return RES_DEAD;
    }
    u64 b = baseOf(id);
    Expr *in = mkBin(O_ULE, mkBin(O_SUB, a, mkConst(64, b)), mkConst(64, o->size - bytes));
    Model m = s->m;
    if (feasible(s, mkNot(in), m)) { State *n = forkState(s); n->m = m; addCons(n, mkNot(in)); enqueue(n); addCons(s, in); }
    bool undef = false;
    if (o->hasSym) for (u64 i = 0; i < o->size && !undef; i++) undef = o->s[i] && (o->s[i] == UNDEF || (o->s[i]->op == O_SYM && o->s[i]->c >= UNDEF_BASE));
    if (o->size > 2048 || bytes > 8 || undef) {
        c = concretise(s, a);
        out = readObj(s, o, id, c - b, bytes); return RES_OK;
    }
    Expr *rel = mkBin(O_SUB, a, mkConst(64, b));
    // runs of equal values, selected by a balanced tree of comparisons
    std::vector<std::pair<u64, Expr *>> runs;   // (first offset, value)
    for (u64 i = 0; i + bytes <= o->size; i++) {
        Val v = readObj(s, o, id, i, bytes); o = s->objs[id].p;
        Expr *ve = ex(v, bytes * 8);
        if (runs.empty() || runs.back().second != ve) runs.push_back({i, ve});
    }
    // element accesses at a stride: offsets that are not multiples of the element size are infeasible when the
    // index is scaled; drop them so that the runs stay meaningful
    if (bytes > 1) {
        runs.clear();
        Model mm = s->m;
        Expr *al = mkBin(O_EQ, mkBin(O_UREM, rel, mkConst(64, bytes)), mkConst(64, 0));
        if (isConst(al) ? !al->c : feasible(s, mkNot(al), mm)) {
            c = concretise(s, a);
            out = readObj(s, s->objs[id].p, id, c - b, bytes); return RES_OK;
        }
        for (u64 i = 0; i + bytes <= o->size; i += bytes) {
            Val v = readObj(s, o, id, i, bytes); o = s->objs[id].p;
            Expr *ve = ex(v, bytes * 8);
            if (runs.empty() || runs.back().second != ve) runs.push_back({i, ve});
        }
    }
    std::function<Expr *(size_t, size_t)> tree = [&](size_t lo, size_t hi) -> Expr * {
        if (hi - lo == 1) return runs[lo].second;
        size_t mid = (lo + hi) / 2;
        return mkIte(mkBin(O_ULT, rel, mkConst(64, runs[mid].first)), tree(lo, mid), tree(mid, hi));
    };
    Expr *r = tree(0, runs.size());
    out = mk(r);
    return RES_OK;
}

static Res doLoad(State *s, const Val &p, unsigned w, Val &out) {
    unsigned bytes = (w + 7) / 8;
    Res r = RES_OK;
    if (p.e) r = loadSym(s, p.e, bytes, out, w);
    else {
        u64 id, off; MemObj *o = access(s, p.c, bytes, false, id, off);
        if (!o) return RES_DEAD;
        out = readObj(s, o, id, off, bytes);
    }
    if (r == RES_OK && w < bytes * 8) {
        if (out.e) out = mk(mkExtract(out.e, 0, w)); else out.c &= maskw(w);
    }
    return r;
}
static Res doStore(State *s, Val p, const Val &v, unsigned w) {
    unsigned bytes = (w + 7) / 8;
    if (p.e) p.c = concretise(s, p.e);
    u64 id, off; MemObj *o = access(s, p.c, bytes, true, id, off);
    if (!o) return RES_DEAD;
    Val x = v; if (!x.e) x.c &= maskw(w);
    writeObj(s, id, off, bytes, x, w);
    return RES_OK;
}
static bool readCStr(State *s, u64 addr, std::string &out) {   // concrete bytes; symbolic evaluated under the model
    for (unsigned i = 0; i < 4096; i++) {
        u64 id, off; MemObj *o = access(s, addr + i, 1, false, id, off, false);
        if (!o) return false;
        Expr *e = byteAt(s, o, id, off);
        char ch = e ? (char) evalExpr(e, s->m) : (char) o->d[off];
        if (!ch) return true;
        out += ch;
    }
    return false;
}
static const char *internStr(const std::string &x) {
    static std::set<std::string> t; return t.insert(x).first->c_str();
}

// ------------------------------------------------------------------ path end
static void endPath(State *s) {
    g_paths++;
    if (g_sh) g_sh->paths++;
    std::set<const char *> seen;
    for (auto r : s->reach) if (seen.insert(r).second) g_reach[r]++;
    u64 h = 1469598103934665603ull;
    for (auto &p : s->log) {
        uint8_t b = p.first ? (uint8_t) evalExpr(p.first, s->m) : p.second;
        h ^= b; h *= 1099511628211ull;
    }
    bool usesUndef = false;
    for (auto &p : s->log) if (p.first) for (auto x : *p.first->sup) if (x >= UNDEF_BASE) usesUndef = true;
    if (usesUndef) return;
    Wit w; w.hash = h; w.input = inputHex(s);
    for (auto r : seen) { w.reach += r; w.reach += ","; }
    if (g_wits.size() < g_witMax) g_wits.push_back(w);
    else { u64 k = g_rng() % g_paths; if (k < g_witMax) g_wits[k] = w; }
}

// ------------------------------------------------------------------ calls
static void jump(State *s, Frame &f, uint32_t to) {
    BBInfo &b = f.f->bbs[to];
    b.hit = true;
    if (!b.phis.empty()) {
        std::vector<Val> tmp;
        for (auto &p : b.phis) { auto &in = p.in.at(f.bb); for (auto &o : in) tmp.push_back(opv(f, o)); }
        size_t k = 0;
        for (auto &p : b.phis) for (unsigned i = 0; i < p.n; i++) f.regs[p.dst + i] = tmp[k++];
    }
    f.bb = to; f.pc = b.start;
}

static Val allocHeap(State *s, u64 n, bool zero) {
    Val v;
    if (n > MAX_OBJ) { v.c = 0; return v; }
    MemObj *o = newObj(OK_HEAP, n, !zero);
    v.c = addObj(s, o);
    return v;
}
static bool doFree(State *s, u64 p) {
    if (!p) return true;
    u64 id; MemObj *o = lookup(s, p, id);
    if (!o || o->kind != OK_HEAP) { violation(s, "memory", "invalid free"); return false; }
    if (!o->alive) { violation(s, "memory", "double free"); return false; }
    if (p != baseOf(id)) { violation(s, "memory", "invalid free (interior pointer)"); return false; }
    MemObj *n = new MemObj(); n->kind = OK_HEAP; n->alive = false; n->size = 0;
    s->objs[id] = ORef(n);
    return true;
}
static Res copyBytes(State *s, u64 dst, u64 src, u64 n) {
    if (!n) return RES_OK;
    u64 di, doff, si, soff;
    MemObj *so = access(s, src, n, false, si, soff); if (!so) return RES_DEAD;
    MemObj *d = access(s, dst, n, true, di, doff); if (!d) return RES_DEAD;
    std::vector<uint8_t> t(so->d.begin() + soff, so->d.begin() + soff + n);
    std::vector<Expr *> e;
    if (so->hasSym) e.assign(so->s.begin() + soff, so->s.begin() + soff + n);
    d = writable(s, di);
    memcpy(&d->d[doff], t.data(), n);
    if (!e.empty()) {
        if (!d->hasSym) { d->hasSym = true; d->s.assign(d->size, nullptr); }
        for (u64 i = 0; i < n; i++) d->s[doff + i] = e[i];
    } else if (d->hasSym) for (u64 i = 0; i < n; i++) d->s[doff + i] = nullptr;
    return RES_OK;
}

static Res pushCall(State *s, FuncInfo *fi, const std::vector<Val> &args, const std::vector<uint16_t> &ws, const std::vector<uint32_t> &byval, int32_t retReg, uint32_t retN) {
    decode(fi);
    fi->used = true; fi->calls++;
    if (s->st.size() > 3000) { violation(s, "stack", "call depth exceeded (unbounded recursion)"); return RES_DEAD; }
    Frame nf; nf.f = fi; nf.regs.resize(fi->nregs);
    nf.retReg = retReg; nf.retN = retN;
    unsigned na = fi->f->arg_size();
    for (unsigned i = 0; i < args.size(); i++) {
        Val v = args[i];
        if (i < byval.size() && byval[i]) {
            if (v.e) v.c = concretise(s, v.e), v.e = nullptr;
            u64 a = addObj(s, newObj(OK_STACK, byval[i], true));
            nf.allocas.push_back(a >> OBJ_SHIFT);
            if (copyBytes(s, a, v.c, byval[i]) != RES_OK) return RES_DEAD;
            v.c = a;
        }
        if (i < na) nf.regs[fi->argReg[i]] = v;
        else nf.va.push_back({v, ws[i]});
    }
    if (args.size() < na) { violation(s, "call", "call with too few arguments"); return RES_DEAD; }
    nf.bb = 0; nf.pc = 0; fi->bbs[0].hit = true;
    s->st.push_back(std::move(nf));
    return RES_OK;
}

static double asD(u64 v, unsigned w) { if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = (float) d; uint32_t x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

// Handle a symbolic i1 condition: returns 0/1 for this state, forking the other side if feasible.
// The forked state re-executes the same instruction.
static int decideSame(State *s, Expr *c) {
    u64 v = evalExpr(c, s->m);
    if (allKnown(s, c)) return v;
    Expr *other = v ? mkNot(c) : c, *mine = v ? c : mkNot(c);
    Model m = s->m;
    if (feasible(s, other, m)) { State *n = forkState(s); n->m = m; addCons(n, other); enqueue(n); addCons(s, mine); }
    return v;
}

// c with every uninitialised-memory symbol renamed
static Expr *renameUndef(Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
    bool any = false;
    for (auto x : *e->sup) if (x >= UNDEF_BASE) any = true;
    if (!any) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr *r;
    if (e->op == O_SYM) r = mkSym(e->c + 8192);
    else if (e->op == O_ITE) r = mkIte(renameUndef(e->k[0], memo), renameUndef(e->k[1], memo), renameUndef(e->k[2], memo));
    else if (e->op == O_ZEXT || e->op == O_SEXT) r = mkExt(e->op, renameUndef(e->k[0], memo), e->w);
    else if (e->op == O_EXTRACT) r = mkExtract(renameUndef(e->k[0], memo), e->c, e->w);
    else if (e->op == O_CONCAT) r = mkConcat(renameUndef(e->k[0], memo), renameUndef(e->k[1], memo));
    else r = mkBin(e->op, renameUndef(e->k[0], memo), renameUndef(e->k[1], memo));
    return memo[e] = r;
}
static void checkUndef(State *s, Expr *c) {
    if (!g_undefCheck) return;
    bool any = false;
    for (auto x : *c->sup) if (x >= UNDEF_BASE) any = true;
    if (!any) return;
    // only if the value really changes the decision
    std::unordered_map<Expr *, Expr *> memo;
    Expr *d = renameUndef(c, memo);
    Model m = s->m;
    if (feasible(s, mkNot(mkBin(O_EQ, c, d)), m)) {
        Model keep = s->m; s->m = m;
        violation(s, "uninit", "decision depends on uninitialised memory");
        s->m = keep;
    }
}

// execute one call instruction.
static Res execCall(State *s, const Inst &I) {
    Frame &f = s->st.back();
    FuncInfo *fi = I.callee;
    unsigned ofs = 0;
    if (!fi) {
        Val p = opv(f, I.ops[0]); ofs = 1;
        if (p.e) p.c = concretise(s, p.e);
        u64 id = p.c >> OBJ_SHIFT;
        auto it = g_fbyid.find(id);
        if (it == g_fbyid.end() || p.c != baseOf(id)) { violation(s, "memory", "call through invalid function pointer"); return RES_DEAD; }
        fi = it->second;
        if (!fi->isRepo && (f.f->isRepo || !fi->hasBody)) {
            auto jt = g_fbyname.find("v_" + fi->name);
            if (jt != g_fbyname.end() && jt->second->hasBody) fi = jt->second;
        }
    }
    if (fi->bi == B_IGNORE) { f.pc++; return RES_OK; }
    std::vector<Val> a;
    for (unsigned i = ofs; i < I.ops.size(); i++) a.push_back(opv(f, I.ops[i]));
    if (fi->bi == B_NONE) {
        int32_t d = I.dst; uint32_t n = I.n;
        f.pc++;
        return pushCall(s, fi, a, I.argW, I.byval, d, n);
    }
    auto conc = [&](unsigned i) -> u64 { if (a[i].e) { u64 v = concretise(s, a[i].e); a[i].c = v; a[i].e = nullptr; } return a[i].c; };
    Val rv; bool has = I.dst >= 0;
    switch (fi->bi) {
    case B_MALLOC: rv = allocHeap(s, conc(0), false); break;
    case B_CALLOC: { u64 x = conc(0), y = conc(1); rv = allocHeap(s, x * y, true); break; }
    case B_REALLOC: {
        u64 p = conc(0), n = conc(1);
        if (!p) { rv = allocHeap(s, n, false); break; }
        u64 id; MemObj *o = lookup(s, p, id);
        if (!o || o->kind != OK_HEAP || !o->alive || p != baseOf(id)) { violation(s, "memory", o && !o->alive ? "realloc of freed memory" : "invalid realloc"); return RES_DEAD; }
        if (n == 0) { if (!doFree(s, p)) return RES_DEAD; rv.c = 0; break; }
        rv = allocHeap(s, n, false);
        if (!rv.c) break;
        u64 k = std::min<u64>(n, s->objs[id].p->size);
        if (copyBytes(s, rv.c, p, k) != RES_OK) return RES_DEAD;
        if (!doFree(s, p)) return RES_DEAD;
        break;
    }
    case B_FREE: if (!doFree(s, conc(0))) return RES_DEAD; break;
    case B_MEMCPY: {
        u64 d = conc(0), src = conc(1), n = conc(2);
        if (copyBytes(s, d, src, n) != RES_OK) return RES_DEAD;
        rv.c = d; break;
    }
    case B_MEMSET: {
        u64 d = conc(0), n = conc(2); Val c = a[1];
        if (n) {
            u64 id, off; MemObj *o = access(s, d, n, true, id, off); if (!o) return RES_DEAD;
            Val b; if (c.e) b = mk(mkExtract(c.e, 0, 8)); else b.c = c.c & 0xff;
            if (!b.e) {
                o = writable(s, id); memset(&o->d[off], b.c, n);
                if (o->hasSym) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
            } else for (u64 i = 0; i < n; i++) writeObj(s, id, off + i, 1, b, 8);
        }
        rv.c = d; break;
    }
    case B_SYM: {
        u64 p = conc(0), n = conc(1);
        if (n) {
            u64 id, off; if (!access(s, p, n, true, id, off)) return RES_DEAD;
            for (u64 i = 0; i < n; i++) {
                if (s->nsym >= UNDEF_BASE) die("too many symbols");
                Val v; v.e = mkSym(s->nsym++); writeObj(s, id, off + i, 1, v, 8);
            }
            if (s->m.size() < s->nsym) s->m.resize(s->nsym, 0);
        }
        break;
    }
    case B_CHOOSE: {
        u64 n = conc(0);
        if (n < 1 || n > 255) die("v_choose range");
        if (s->nsym >= UNDEF_BASE) die("too many symbols");
        uint32_t id = s->nsym++;
        if (s->m.size() < s->nsym) s->m.resize(s->nsym, 0);
        f.pc++;
        for (u64 i = n; i-- > 0;) {
            State *t = i ? forkState(s) : s;
            t->m[id] = i;
            addCons(t, mkBin(O_EQ, mkSym(id), mkConst(8, i)));
            if (has) t->st.back().regs[I.dst].c = i, t->st.back().regs[I.dst].e = nullptr;
            if (i) enqueue(t);
        }
        return RES_OK;
    }
    case B_ASSUME: {
        Val c = a[0];
        if (!c.e) { if (!(c.c & maskw(I.argW[0]))) { g_assumed++; return RES_DEAD; } break; }
        Expr *b = mkNot(mkBin(O_EQ, c.e, mkConst(c.e->w, 0)));
        if (!evalExpr(b, s->m)) {
            if (allKnown(s, b)) { g_assumed++; return RES_DEAD; }
            Model m = s->m;
            if (!feasible(s, b, m)) { g_assumed++; return RES_DEAD; }
            s->m = m;
        }
        addCons(s, b); break;
    }
    case B_ASSERT: {
        g_asserts++;
        Val c = a[0]; std::string msg; readCStr(s, conc(1), msg);
        if (!c.e) {
            if (!c.c) { violation(s, "assert", msg); return RES_DEAD; }
            break;
        }
        Expr *b = mkNot(mkBin(O_EQ, c.e, mkConst(c.e->w, 0)));
        g_assertQ++;
        if (!evalExpr(b, s->m)) { checkUndef(s, b); violation(s, "assert", msg); Model m = s->m; if (!feasible(s, b, m)) return RES_DEAD; s->m = m; addCons(s, b); break; }
        if (allKnown(s, b)) break;
        Model m = s->m;
        if (feasible(s, mkNot(b), m)) {
            Model keep = s->m; s->m = m; violation(s, "assert", msg); s->m = keep;
            addCons(s, b);
        }
        break;
    }
    case B_FAIL: { std::string msg; readCStr(s, conc(0), msg); violation(s, "assert", msg); return RES_DEAD; }
    case B_REACH: { std::string msg; readCStr(s, conc(0), msg); s->reach.push_back(internStr(msg)); break; }
    case B_TRACE: { std::string msg; readCStr(s, conc(0), msg); fprintf(stderr, "TRACE %s\n", msg.c_str()); break; }
    case B_LOG: {
        u64 p = conc(0), n = conc(1);
        if (n) {
            u64 id, off; MemObj *o = access(s, p, n, false, id, off); if (!o) return RES_DEAD;
            for (u64 i = 0; i < n; i++) { Expr *e = byteAt(s, o, id, off + i); s->log.push_back({e, o->d[off + i]}); }
        }
        break;
    }
    case B_CONEW: {            // a new call stack that runs fn(arg) when it is switched to
        u64 p = conc(0); auto it = g_fbyid.find(p >> OBJ_SHIFT);
        if (it == g_fbyid.end() || p != baseOf(p >> OBJ_SHIFT)) { violation(s, "memory", "call through invalid function pointer"); return RES_DEAD; }
        if (s->co.empty()) s->co.resize(1);
        std::vector<Frame> keep; keep.swap(s->st);
        std::vector<Val> av{a[1]}; std::vector<uint16_t> ws{64}; std::vector<uint32_t> bv;
        Res r = pushCall(s, it->second, av, ws, bv, -1, 0);
        s->co.push_back(std::move(s->st)); s->st = std::move(keep);
        if (r != RES_OK) return r;
        rv.c = s->co.size() - 1; break;
    }
    case B_COSWITCH: {
        u64 k = conc(0);
        if (k == s->cur) break;
        if (k >= s->co.size() || s->co[k].empty()) die("v_co_switch: no such stack");
        s->st.back().pc++;
        s->co[s->cur] = std::move(s->st); s->st = std::move(s->co[k]); s->co[k].clear(); s->cur = k;
        return RES_OK;
    }
    case B_END: endPath(s); return RES_DEAD;
    case B_ABORT: violation(s, "abort", "abort() called"); return RES_DEAD;
    case B_VASTART: {
        u64 p = conc(0); u64 n = f.va.size();
        u64 area = addObj(s, newObj(OK_STACK, n * 8 + 8, true));
        f.allocas.push_back(area >> OBJ_SHIFT);
        for (u64 i = 0; i < n; i++) { Val v = s->st.back().va[i].first; unsigned w = s->st.back().va[i].second; if (doStore(s, Val{area + i * 8, nullptr}, v, w) != RES_OK) return RES_DEAD; }
        if (doStore(s, Val{p, nullptr}, Val{48, nullptr}, 32) != RES_OK) return RES_DEAD;
        doStore(s, Val{p + 4, nullptr}, Val{176, nullptr}, 32);
        doStore(s, Val{p + 8, nullptr}, Val{area, nullptr}, 64);
        doStore(s, Val{p + 16, nullptr}, Val{0, nullptr}, 64);
        break;
    }
    case B_VAEND: break;
    case B_VACOPY: if (copyBytes(s, conc(0), conc(1), 24) != RES_OK) return RES_DEAD; break;
    case B_RET0: rv.c = 0; break;
    case B_MINMAX: {
        unsigned w = I.w;
        if (fi->biArg == 5) { rv = a[0]; break; }
        Expr *x = ex(a[0], w);
        if (fi->biArg == 4) { rv = mk(mkIte(mkBin(O_SLT, x, mkConst(w, 0)), mkBin(O_SUB, mkConst(w, 0), x), x)); break; }
        Expr *y = ex(a[1], w);
        Expr *lt = mkBin(fi->biArg < 2 ? O_ULT : O_SLT, x, y);
        rv = mk(fi->biArg & 1 ? mkIte(lt, y, x) : mkIte(lt, x, y)); break;
    }
    case B_SAT: {
        unsigned w = I.w; Expr *x = ex(a[0], w), *y = ex(a[1], w);
        if (fi->biArg == 0) rv = mk(mkIte(mkBin(O_ULT, x, y), mkConst(w, 0), mkBin(O_SUB, x, y)));
        else { Expr *z = mkBin(O_ADD, x, y); rv = mk(mkIte(mkBin(O_ULT, z, x), mkConst(w, maskw(w)), z)); }
        break;
    }
    case B_OVF: {
        unsigned w = I.argW[0];
        u64 x = conc(0), y = conc(1); bool o; u64 r;
        __int128 sx = sextw(x, w), sy = sextw(y, w), ux = x & maskw(w), uy = y & maskw(w), t;
        switch (fi->biArg) {
        case 0: t = ux + uy; break; case 1: t = sx + sy; break; case 2: t = ux - uy; break;
        case 3: t = sx - sy; break; case 4: t = ux * uy; break; default: t = sx * sy; break;
        }
        r = (u64) t & maskw(w);
        if (fi->biArg & 1) o = (__int128) sextw(r, w) != t; else o = (__int128) r != t;
        f.regs[I.dst] = Val{r, nullptr}; f.regs[I.dst + 1] = Val{o, nullptr};
        f.pc++; return RES_OK;
    }
    case B_FSH: {
        unsigned w = I.w; Expr *x = ex(a[0], w), *y = ex(a[1], w), *c = mkBin(O_UREM, ex(a[2], w), mkConst(w, w));
        Expr *rc = mkBin(O_SUB, mkConst(w, w), c), *z = mkBin(O_EQ, c, mkConst(w, 0));
        if (fi->biArg == 0) rv = mk(mkIte(z, x, mkBin(O_OR, mkBin(O_SHL, x, c), mkBin(O_LSHR, y, rc))));
        else rv = mk(mkIte(z, y, mkBin(O_OR, mkBin(O_LSHR, y, c), mkBin(O_SHL, x, rc))));
        break;
    }
    case B_BSWAP: {
        unsigned w = I.w; Expr *x = ex(a[0], w), *r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(x, w - 8 - 8 * i, 8); r = r ? mkConcat(b, r) : b; }
        rv = mk(r); break;
    }
    case B_CTPOP: rv.c = __builtin_popcountll(conc(0)); break;
    case B_OBJSIZE: rv.c = ~0ull & maskw(I.w); break;
    case B_FMATH: {
        unsigned w = I.w; double x = asD(conc(0), w), r;
        const std::string &n = fi->name;
        if (n.find("ceil") != std::string::npos) r = ceil(x);
        else if (n.find("floor") != std::string::npos) r = floor(x);
        else if (n.find("fabs") != std::string::npos) r = fabs(x);
        else if (n.find("round") != std::string::npos) r = round(x);
        else if (n.find("trunc") != std::string::npos) r = std::trunc(x);
        else r = x * asD(conc(1), w) + asD(conc(2), w);
        rv.c = fromD(r, w); break;
    }
    case B_CONC: rv.c = conc(0); break;
    case B_ROOM: { u64 i = conc(0); rv.c = i < 16 ? (u64) g_param[i] & maskw(I.w) : 0; break; }
    case B_ISSYM: rv.c = a[0].e ? 1 : 0; break;
    case B_SCAN: { // v_scan(p): how many bytes at p are certainly not zero (a speed-up for strlen and the like)
        rv.c = 0; if (a[0].e) break;
        u64 id; MemObj *o = lookup(s, a[0].c, id);
        if (!o || !o->alive || o->kind == OK_FUNC) break;
        u64 off = a[0].c - baseOf(id), k = 0;
        while (off + k < o->size && !(o->hasSym && o->s[off + k]) && o->d[off + k]) k++;
        rv.c = k; break;
    }
    case B_IMPLIES: { // v_may(c): is c feasible here? (no fork)
        if (!a[0].e) { rv.c = a[0].c != 0; break; }
        Expr *b = mkNot(mkBin(O_EQ, a[0].e, mkConst(a[0].e->w, 0)));
        Model m = s->m; rv.c = feasible(s, b, m); break;
    }
    case B_FMTD: { // v_fmt_double(buf, size, prec, double)
        u64 p = conc(0), n = conc(1); int prec = (int) conc(2); double d = asD(conc(3), 64);
        char b[512]; int k = snprintf(b, sizeof b, "%.*f", prec, d);
        for (int i = 0; i <= k && (u64) i < n; i++) if (doStore(s, Val{p + i, nullptr}, Val{(uint8_t) b[i], nullptr}, 8) != RES_OK) return RES_DEAD;
        rv.c = k; break;
    }
    default:
        g_unmodelled[fi->name]++;
        return RES_DEAD;
    }
    { Frame &g = s->st.back(); if (has && I.n) g.regs[I.dst] = rv; g.pc++; }
    return RES_OK;
}

// ------------------------------------------------------------------ main interpreter
static Res step(State *s) {
    Frame &f = s->st.back();
    const Inst &I = f.f->insts[f.pc];
    g_insts++;
    switch (I.k) {
    case K_BIN: {
        Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]);
        if (!a.e && !b.e) { f.regs[I.dst] = Val{constBin(I.op, a.c, b.c, I.w), nullptr}; }
        else f.regs[I.dst] = mk(mkBin(I.op, ex(a, I.w), ex(b, I.w)));
        f.pc++; return RES_OK;
    }
    case K_DIVREM: {
        Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]);
        if (!b.e) {
            if (!(b.c & maskw(I.w))) { violation(s, "arith", "division by zero"); return RES_DEAD; }
        } else {
            Expr *z = mkBin(O_EQ, b.e, mkConst(I.w, 0));
            if (decideSame(s, z)) { violation(s, "arith", "division by zero"); return RES_DEAD; }
        }
        f.regs[I.dst] = mk(mkBin(I.op, ex(a, I.w), ex(b, I.w)));
        f.pc++; return RES_OK;
    }
    case K_CMP: {
        Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]);
        Op op; bool sw = false, neg = false;
        switch (I.pred) {
        case CmpInst::ICMP_EQ: op = O_EQ; break;
        case CmpInst::ICMP_NE: op = O_EQ; neg = true; break;
        case CmpInst::ICMP_ULT: op = O_ULT; break;
        case CmpInst::ICMP_ULE: op = O_ULE; break;
        case CmpInst::ICMP_UGT: op = O_ULT; sw = true; break;
        case CmpInst::ICMP_UGE: op = O_ULE; sw = true; break;
        case CmpInst::ICMP_SLT: op = O_SLT; break;
        case CmpInst::ICMP_SLE: op = O_SLE; break;
        case CmpInst::ICMP_SGT: op = O_SLT; sw = true; break;
        default: op = O_SLE; sw = true; break;
        }
        if (sw) std::swap(a, b);
        if (!a.e && !b.e) { f.regs[I.dst] = Val{constBin(op, a.c, b.c, I.w) ^ (neg ? 1 : 0), nullptr}; }
        else { Expr *e = mkBin(op, ex(a, I.w), ex(b, I.w)); if (neg) e = mkNot(e); f.regs[I.dst] = mk(e); }
        f.pc++; return RES_OK;
    }
    case K_ZEXT: { Val a = opv(f, I.ops[0]); if (a.e) a = mk(mkExt(O_ZEXT, a.e, I.w)); else a.c &= maskw(I.w2); f.regs[I.dst] = a; f.pc++; return RES_OK; }
    case K_SEXT: { Val a = opv(f, I.ops[0]); if (a.e) a = mk(mkExt(O_SEXT, a.e, I.w)); else a.c = (u64) sextw(a.c, I.w2) & maskw(I.w); f.regs[I.dst] = a; f.pc++; return RES_OK; }
    case K_TRUNC: { Val a = opv(f, I.ops[0]); if (a.e) a = mk(mkExtract(a.e, 0, I.w)); else a.c &= maskw(I.w); f.regs[I.dst] = a; f.pc++; return RES_OK; }
    case K_COPY: f.regs[I.dst] = opv(f, I.ops[0]); f.pc++; return RES_OK;
    case K_LOAD: {
        Val p = opv(f, I.ops[0]);
        if (p.e && I.leafW.size() > 1) { p.c = concretise(s, p.e); p.e = nullptr; }
        for (unsigned i = 0; i < I.leafW.size(); i++) {
            Val q = p, out; q.c += I.leafOff[i];
            if (doLoad(s, q, I.leafW[i], out) != RES_OK) return RES_DEAD;
            s->st.back().regs[I.dst + i] = out;
        }
        s->st.back().pc++; return RES_OK;
    }
    case K_STORE: {
        Val p = opv(f, I.ops[0]);
        if (p.e) { p.c = concretise(s, p.e); p.e = nullptr; }
        for (unsigned i = 0; i < I.leafW.size(); i++) {
            Val q = p; q.c += I.leafOff[i];
            if (doStore(s, q, opv(f, I.ops[1 + i]), I.leafW[i]) != RES_OK) return RES_DEAD;
        }
        f.pc++; return RES_OK;
    }
    case K_GEP: {
        Val p = opv(f, I.ops[0]);
        p.c += p.e ? 0 : I.aux[0];
        Expr *e = p.e ? mkBin(O_ADD, p.e, mkConst(64, I.aux[0])) : nullptr;
        u64 c = p.c;
        for (unsigned i = 1; i < I.ops.size(); i++) {
            Val x = opv(f, I.ops[i]); unsigned w = I.argW[i - 1];
            if (x.e) {
                Expr *t = w < 64 ? mkExt(O_SEXT, x.e, 64) : x.e;
                t = mkBin(O_MUL, t, mkConst(64, I.aux[i]));
                e = e ? mkBin(O_ADD, e, t) : mkBin(O_ADD, t, mkConst(64, c));
            } else {
                u64 d = (u64) sextw(x.c, w) * I.aux[i];
                if (e) e = mkBin(O_ADD, e, mkConst(64, d)); else c += d;
            }
        }
        if (e) f.regs[I.dst] = mk(e); else f.regs[I.dst] = Val{c, nullptr};
        f.pc++; return RES_OK;
    }
    case K_BR: jump(s, f, I.tgt[0]); return RES_OK;
    case K_CONDBR: {
        Val c = opv(f, I.ops[0]);
        if (!c.e) { jump(s, f, I.tgt[(c.c & 1) ? 0 : 1]); return RES_OK; }
        u64 v = evalExpr(c.e, s->m);
        if (!allKnown(s, c.e)) {
            Expr *mine = v ? c.e : mkNot(c.e), *other = v ? mkNot(c.e) : c.e;
            Model m = s->m;
            if (feasible(s, other, m)) {
                checkUndef(s, c.e);
                State *n = forkState(s); n->m = m; addCons(n, other);
                jump(n, n->st.back(), I.tgt[v ? 1 : 0]);
                enqueue(n);
                addCons(s, mine);
            }
        }
        jump(s, s->st.back(), I.tgt[v ? 0 : 1]);
        return RES_OK;
    }
    case K_SWITCH: {
        Val c = opv(f, I.ops[0]);
        if (!c.e) {
            u64 v = c.c & maskw(I.w);
            for (unsigned i = 0; i < I.aux.size(); i++) if (I.aux[i] == v) { jump(s, f, I.tgt[i + 1]); return RES_OK; }
            jump(s, f, I.tgt[0]); return RES_OK;
        }
        u64 v = evalExpr(c.e, s->m);
        uint32_t mine = I.tgt[0];
        for (unsigned i = 0; i < I.aux.size(); i++) if (I.aux[i] == v) mine = I.tgt[i + 1];
        if (allKnown(s, c.e)) { jump(s, f, mine); return RES_OK; }
        std::map<uint32_t, Expr *> conds; Expr *def = mkConst(1, 1);
        for (unsigned i = 0; i < I.aux.size(); i++) {
            Expr *eq = mkBin(O_EQ, c.e, mkConst(I.w, I.aux[i]));
            if (I.tgt[i + 1] != I.tgt[0]) {
                def = mkBin(O_AND, def, mkNot(eq));
                auto it = conds.find(I.tgt[i + 1]);
                conds[I.tgt[i + 1]] = it == conds.end() ? eq : mkBin(O_OR, it->second, eq);
            }
        }
        conds[I.tgt[0]] = def;
        bool forked = false;
        for (auto &p : conds) {
            if (p.first == mine) continue;
            Model m = s->m;
            if (feasible(s, p.second, m)) {
                State *n = forkState(s); n->m = m; addCons(n, p.second); jump(n, n->st.back(), p.first); enqueue(n); forked = true;
            }
        }
        if (forked) { checkUndef(s, c.e); addCons(s, conds[mine]); }
        jump(s, s->st.back(), mine); return RES_OK;
    }
    case K_SELECT: {
        Val c = opv(f, I.ops[0]), a = opv(f, I.ops[1]), b = opv(f, I.ops[2]);
        if (!c.e) f.regs[I.dst] = (c.c & 1) ? a : b;
        else if (I.w == 64 && !(a.e || b.e) && (a.c >> OBJ_SHIFT || b.c >> OBJ_SHIFT)) {
            // choice between pointers: decide, do not build ite over addresses
            int v = decideSame(s, c.e);
            s->st.back().regs[I.dst] = v ? a : b;
        } else f.regs[I.dst] = mk(mkIte(c.e, ex(a, I.w), ex(b, I.w)));
        s->st.back().pc++; return RES_OK;
    }
    case K_CALL: return execCall(s, I);
    case K_RET: {
        std::vector<Val> r;
        for (auto &o : I.ops) r.push_back(opv(f, o));
        int32_t d = f.retReg; uint32_t n = f.retN;
        for (u64 id : f.allocas) { MemObj *o = new MemObj(); o->kind = OK_STACK; o->alive = false; o->size = 0; s->objs[id] = ORef(o); }
        s->st.pop_back();
        if (s->st.empty()) { if (s->cur) die("the function of a second stack returned"); endPath(s); return RES_DEAD; }
        if (d >= 0) for (unsigned i = 0; i < n && i < r.size(); i++) s->st.back().regs[d + i] = r[i];
        return RES_OK;
    }
    case K_UNREACHABLE: violation(s, "ub", "unreachable code executed"); return RES_DEAD;
    case K_ALLOCA: {
        Val n = opv(f, I.ops[0]); u64 k = n.e ? concretise(s, n.e) : (n.c & maskw(I.w));
        if (k * I.aux[0] > MAX_OBJ) { violation(s, "memory", "stack allocation too large"); return RES_DEAD; }
        u64 a = addObj(s, newObj(OK_STACK, k * I.aux[0], true));
        s->st.back().allocas.push_back(a >> OBJ_SHIFT);
        s->st.back().regs[I.dst] = Val{a, nullptr}; s->st.back().pc++; return RES_OK;
    }
    case K_EXTRACTV: case K_INSERTV: {
        std::vector<Val> t; for (unsigned i = 0; i < I.n; i++) t.push_back(opv(f, I.ops[i]));
        for (unsigned i = 0; i < I.n; i++) f.regs[I.dst + i] = t[i];
        f.pc++; return RES_OK;
    }
    case K_FBIN: {
        Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]);
        if (a.e) { a.c = concretise(s, a.e); } if (b.e) b.c = concretise(s, b.e);
        double x = asD(a.c, I.w), y = asD(b.c, I.w), r;
        if (I.w == 32) { float p = x, q = y; r = I.pred == 0 ? p + q : I.pred == 1 ? p - q : I.pred == 2 ? p * q : p / q; }
        else r = I.pred == 0 ? x + y : I.pred == 1 ? x - y : I.pred == 2 ? x * y : x / y;
        s->st.back().regs[I.dst] = Val{fromD(r, I.w), nullptr}; s->st.back().pc++; return RES_OK;
    }
    case K_FNEG: { Val a = opv(f, I.ops[0]); if (a.e) a.c = concretise(s, a.e); s->st.back().regs[I.dst] = Val{fromD(-asD(a.c, I.w), I.w), nullptr}; s->st.back().pc++; return RES_OK; }
    case K_FCMP: {
        Val a = opv(f, I.ops[0]), b = opv(f, I.ops[1]);
        if (a.e) a.c = concretise(s, a.e); if (b.e) b.c = concretise(s, b.e);
        double x = asD(a.c, I.w), y = asD(b.c, I.w); bool un = std::isnan(x) || std::isnan(y), r;
        unsigned p = I.pred;
        // bit0 eq, bit1 gt, bit2 lt, bit3 uno
        r = (un && (p & 8)) || (!un && (((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y)));
        s->st.back().regs[I.dst] = Val{r, nullptr}; s->st.back().pc++; return RES_OK;
    }
    case K_FCAST: {
        Val a = opv(f, I.ops[0]); if (a.e) a.c = concretise(s, a.e);
        u64 r;
        switch (I.pred) {
        case 0: case 1: {
            double x = asD(a.c, I.w2);
            double lim = ldexp(1.0, I.pred == 0 ? I.w - 1 : I.w);
            if (std::isnan(x) || x >= lim || x <= (I.pred == 0 ? -lim - 1 : -1.0)) { violation(s, "arith", "float to integer conversion out of range"); return RES_DEAD; }
            r = I.pred == 0 ? (u64) (int64_t) x & maskw(I.w) : (u64) x; break;
        }
        case 2: { int64_t x = sextw(a.c, I.w2); r = I.w == 32 ? fromD((float) x, 32) : fromD((double) x, 64); break; }
        case 3: { u64 x = a.c & maskw(I.w2); r = I.w == 32 ? fromD((float) x, 32) : fromD((double) x, 64); break; }
        default: r = fromD(asD(a.c, I.w2), I.w);
        }
        s->st.back().regs[I.dst] = Val{r, nullptr}; s->st.back().pc++; return RES_OK;
    }
    }
    return RES_DEAD;
}

static bool stopNow() {
    if (g_incomplete) return true;
    if (now() > g_deadline) { g_incomplete = true; g_incWhy = "time limit"; return true; }
    if (g_sh && g_sh->viol.load() >= g_violCap) { g_incomplete = true; g_incWhy = "violation cap"; return true; }
    if (g_sh && g_sh->paths.load() >= g_maxPaths) { g_incomplete = true; g_incWhy = "path limit"; return true; }
    struct rusage ru; static u64 k = 0;
    if (++k % 256 == 0) { getrusage(RUSAGE_SELF, &ru); if (ru.ru_maxrss > 3600000) { g_incomplete = true; g_incWhy = "memory limit"; return true; } }
    return false;
}

static void runState(State *s) {
    u64 n = 0;
    while (true) {
        if (++s->steps > g_maxSteps) { violation(s, "nontermination", "step limit exceeded"); g_errPaths++; break; }
        if ((++n & 0xffff) == 0 && stopNow()) break;
        size_t nv = g_viols.size();
        (void) nv;
        if (step(s) == RES_DEAD) break;
    }
    delete s;
}

static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void writeResult(const std::string &path, bool parent) {
    FILE *o = fopen(path.c_str(), "w");
    if (!o) die("cannot write " + path);
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(o, "{\"paths\":%llu,\"assumed_out\":%llu,\"insts\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"max_constraints\":%llu,",
            (unsigned long long) g_paths, (unsigned long long) g_assumed, (unsigned long long) g_insts, (unsigned long long) g_forks,
            (unsigned long long) g_asserts, (unsigned long long) g_assertQ, (unsigned long long) g_maxCons);
    fprintf(o, "\"queries\":%llu,\"cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_time\":%.3f,\"solver_max\":%.3f,\"rss_kb\":%ld,",
            (unsigned long long) g_ss.queries, (unsigned long long) g_ss.cacheHits, (unsigned long long) g_ss.sat, (unsigned long long) g_ss.unsat,
            (unsigned long long) g_ss.unknown, g_ss.time, g_ss.maxTime, ru.ru_maxrss);
    fprintf(o, "\"incomplete\":%s,\"why\":\"%s\",\"viol\":[", g_incomplete ? "true" : "false", g_incWhy.c_str());
    for (size_t i = 0; i < g_viols.size(); i++) {
        auto &v = g_viols[i];
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"input\":\"%s\",\"trace\":\"%s\"}", i ? "," : "", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.loc).c_str(), v.input.c_str(), jesc(v.trace).c_str());
    }
    fprintf(o, "],\"reach\":{");
    bool first = true;
    for (auto &p : g_reach) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long) p.second); first = false; }
    fprintf(o, "},\"unmodelled\":[");
    first = true;
    for (auto &p : g_unmodelled) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(p.first).c_str()); first = false; }
    fprintf(o, "],\"wits\":[");
    for (size_t i = 0; i < g_wits.size(); i++) fprintf(o, "%s[\"%s\",\"%016llx\",\"%s\"]", i ? "," : "", g_wits[i].input.c_str(), (unsigned long long) g_wits[i].hash, jesc(g_wits[i].reach).c_str());
    fprintf(o, "],\"funcs\":{");
    first = true;
    for (auto fi : g_funcs) {
        if (!fi->isRepo || !fi->used) continue;
        fprintf(o, "%s\"%s\":{\"file\":\"%s\",\"nbb\":%zu,\"hit\":[", first ? "" : ",", jesc(fi->name).c_str(), jesc(fi->file).c_str(), fi->bbs.size()); first = false;
        bool f2 = true;
        for (size_t i = 0; i < fi->bbs.size(); i++) if (fi->bbs[i].hit) { fprintf(o, "%s%zu", f2 ? "" : ",", i); f2 = false; }
        fprintf(o, "],\"lines\":[");
        for (size_t i = 0; i < fi->bbs.size(); i++) fprintf(o, "%s%u", i ? "," : "", fi->bbs[i].line);
        fprintf(o, "]}");
    }
    fprintf(o, "}}\n");
    fclose(o);
}

int main(int argc, char **argv) {
    std::string bc, entry = "v_main", out = "symx-out";
    unsigned workers = 8, frontier = 0; double tlimit = 600; unsigned seed = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { if (i + 1 >= argc) die("missing argument"); return argv[++i]; };
        if (a == "--entry") entry = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--workers") workers = std::stoul(nxt());
        else if (a == "--frontier") frontier = std::stoul(nxt());
        else if (a == "--time") tlimit = std::stod(nxt());
        else if (a == "--max-steps") g_maxSteps = std::stoull(nxt());
        else if (a == "--max-paths") g_maxPaths = std::stoull(nxt());
        else if (a == "--wits") g_witMax = std::stoul(nxt());
        else if (a == "--seed") seed = std::stoul(nxt());
        else if (a == "--repo") g_repoPrefix = nxt();
        else if (a == "--viol-cap") g_violCap = std::stoul(nxt());
        else if (a == "--no-undef") g_undefCheck = false;
        else if (a.compare(0, 7, "--param") == 0) { std::string v = nxt(); size_t e = v.find('='); int k = std::stoi(v.substr(0, e)); g_param[k] = std::stoll(v.substr(e + 1)); }
        else bc = a;
    }
    g_rng.seed(seed);
    LLVMContext ctx; SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    State *init = new State();
    init->objs.push_back(ORef());  // id 0 = null
    for (auto &f : *M) {
        FuncInfo *fi = new FuncInfo();
        fi->f = &f; fi->name = f.getName().str(); fi->hasBody = !f.isDeclaration(); fi->vararg = f.isVarArg();
        if (fi->name.size() && fi->name[0] == '\1') fi->name = fi->name.substr(1);
        if (startsWith(fi->name, "__isoc99_")) fi->name = fi->name.substr(9);
        if (startsWith(fi->name, "__isoc23_")) fi->name = fi->name.substr(9);
        if (auto *sp = f.getSubprogram()) { fi->file = (sp->getDirectory().str().size() && sp->getFilename().str()[0] != '/') ? sp->getDirectory().str() + "/" + sp->getFilename().str() : sp->getFilename().str(); fi->isRepo = startsWith(fi->file, g_repoPrefix.c_str()); }
        MemObj *o = newObj(OK_FUNC, 0, false);
        fi->addr = addObj(init, o);
        g_finfo[&f] = fi; g_funcs.push_back(fi); g_fbyid[fi->addr >> OBJ_SHIFT] = fi;
        if (fi->hasBody || !g_fbyname.count(fi->name)) g_fbyname[fi->name] = fi;
    }
    // a declaration of a builtin alias (e.g. __isoc23_strtoul) resolves to the model with the stripped name
    for (auto &p : g_finfo) {
        FuncInfo *fi = p.second;
        if (!fi->hasBody) { auto it = g_fbyname.find(fi->name); if (it != g_fbyname.end() && it->second->hasBody) p.second = it->second; }
    }
    for (auto fi : g_funcs) classify(fi);
    for (auto &g : M->globals()) {
        Type *t = g.getValueType();
        u64 sz = t->isSized() ? (u64) DL->getTypeAllocSize(t) : 8;
        MemObj *o = newObj(OK_GLOBAL, sz, false);
        if (g.isConstant()) o->ro = true;
        g_gaddr[&g] = addObj(init, o);
    }
    for (auto &g : M->globals()) {
        u64 id = g_gaddr[&g] >> OBJ_SHIFT; MemObj *o = init->objs[id].p;
        if (g.hasInitializer()) { if (o->size) initConst(o, 0, g.getInitializer()); }
        else if (o->size >= 8) { // external object such as stderr: a unique opaque pointer
            u64 p = addObj(init, newObj(OK_GLOBAL, 0, false));
            memcpy(&init->objs[id].p->d[0], &p, 8);
        }
    }
    auto it = g_fbyname.find(entry);
    if (it == g_fbyname.end() || !it->second->hasBody) die("no entry function " + entry);
    solverInit(60000);
    g_sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_deadline = now() + tlimit;
    if (pushCall(init, it->second, {}, {}, {}, -1, 0) != RES_OK) die("entry");
    if (!frontier) frontier = workers * 8;
    g_bfs = true; g_queue.push_back(init);
    u64 popped = 0;
    while (!g_queue.empty() && g_queue.size() < frontier && popped < 200000 && !stopNow()) {
        State *s = g_queue.front(); g_queue.pop_front(); popped++;
        runState(s);
        if (workers <= 1 && popped > 0) break;
    }
    g_bfs = false;
    std::vector<State *> fr(g_queue.begin(), g_queue.end());
    g_queue.clear();
    std::shuffle(fr.begin(), fr.end(), g_rng);
    int rc = 0;
    if (fr.empty() || workers <= 1) {
        for (auto s : fr) g_stack.push_back(s);
        while (!g_stack.empty() && !stopNow()) { State *s = g_stack.back(); g_stack.pop_back(); runState(s); }
        writeResult(out + ".0", true);
        return 0;
    }
    writeResult(out + ".0", true);
    std::vector<pid_t> ch;
    unsigned perW = std::max(1u, g_witMax / workers);
    for (unsigned w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p < 0) die("fork");
        if (p == 0) {
            // fresh counters
            g_viols.clear(); g_violCount.clear(); g_reach.clear(); g_wits.clear(); g_unmodelled.clear();
            g_paths = g_assumed = g_errPaths = g_insts = g_forks = g_asserts = g_assertQ = 0; g_ss = SolverStats();
            for (auto fi : g_funcs) for (auto &b : fi->bbs) b.hit = false;
            g_witMax = perW; g_rng.seed(seed * 1000 + w);
            while (!stopNow()) {
                u64 k = g_sh->next++;
                if (k >= fr.size()) break;
                g_stack.push_back(fr[k]); fr[k] = nullptr;
                while (!g_stack.empty() && !stopNow()) { State *s = g_stack.back(); g_stack.pop_back(); runState(s); }
            }
            writeResult(out + "." + std::to_string(w + 1), false);
            _exit(0);
        }
        ch.push_back(p);
    }
    for (auto p : ch) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "symx: worker died (status %d)\n", st); rc = 3; } }
    return rc;
}
