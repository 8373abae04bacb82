// irvc: verification-condition generator for LLVM IR of the real C++ code.
//
// Input : LLVM bitcode of a contract harness translation unit, compiled from /repo's current headers
//         (un-optimised IR; every wave/Eigen/libstdc++ template body is in the module).
// Output: one JSON document per harness function: a hash-consed term graph over the reals, and for every
//         feasible-by-construction control path the hypotheses (preconditions, branch conditions), the proof goals
//         (postconditions), and any memory-safety failure met on the path.
//
// doubles are interpreted as mathematical reals; integers, pointers and control state are concrete.
// All branches on real-valued comparisons are explored (path enumeration by re-execution).
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sys/resource.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;

// ---------------------------------------------------------------- scalars and values
enum SK : uint8_t { UNDEF = 0, CONC = 1, SYM = 2 };
struct Sc {
    SK k = UNDEF;
    u64 b = 0;  // concrete bits, or term id
    static Sc conc(u64 v) { return Sc{CONC, v}; }
    static Sc sym(u32 id) { return Sc{SYM, id}; }
    static Sc dbl(double d) { u64 v; memcpy(&v, &d, 8); return conc(v); }
    double d() const { double r; memcpy(&r, &b, 8); return r; }
};
typedef SmallVector<Sc, 2> Val;

struct VcError { std::string msg; };                       // limitation of the generator: the check gives no verdict
struct PathEnd { std::string kind, msg; };                 // the path stops here (failure of the code under test)

// ---------------------------------------------------------------- terms
enum Op : uint8_t { VAR, CST, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, ACOS, ASIN, ATAN, ATAN2, TAN, EXP, LOG, UF };
static const char *opn[] = {"var","cst","add","sub","mul","div","neg","sqrt","sin","cos","acos","asin","atan","atan2","tan","exp","log","uf"};
struct Term { Op op; u32 a, b; double c; std::string name; };
struct TermKey { Op op; u32 a, b; u64 c; std::string n; bool operator==(const TermKey &o) const { return op==o.op&&a==o.a&&b==o.b&&c==o.c&&n==o.n; } };
struct TermHash { size_t operator()(const TermKey &k) const { return std::hash<u64>()(((u64)k.op<<56) ^ ((u64)k.a*0x9E3779B97F4A7C15ull) ^ ((u64)k.b*0xC2B2AE3D27D4EB4Full) ^ k.c*31) ^ std::hash<std::string>()(k.n); } };
static std::vector<Term> terms;
static std::unordered_map<TermKey, u32, TermHash> termTab;
static u32 mk(Op op, u32 a = 0, u32 b = 0, double c = 0, const std::string &n = "") {
    u64 cb; memcpy(&cb, &c, 8);
    TermKey k{op, a, b, cb, n};
    auto it = termTab.find(k);
    if (it != termTab.end()) return it->second;
    u32 id = terms.size();
    if (id > 3000000) throw VcError{"term graph too large"};
    terms.push_back(Term{op, a, b, c, n});
    termTab.emplace(std::move(k), id);
    return id;
}
static u32 cst(double d) { if (d == 0) d = 0; if (!(d - d == 0)) throw PathEnd{"nonfinite", "a non-finite constant entered a real-valued computation"}; return mk(CST, 0, 0, d); }
static bool isC(u32 t) { return terms[t].op == CST; }
static bool isC(u32 t, double v) { return terms[t].op == CST && terms[t].c == v; }
static u32 toTerm(const Sc &s) {
    if (s.k == SYM) return s.b;
    if (s.k == CONC) return cst(s.d());
    throw PathEnd{"uninit", "an uninitialised number is used"};
}
// exactness tests so that concrete arithmetic stays real arithmetic
static bool exactAdd(double a, double b, double r) { double bb = r - a; return (a - (r - bb)) + (b - bb) == 0; }
static bool exactMul(double a, double b, double r) { return std::fma(a, b, -r) == 0 && (r != 0 || a == 0 || b == 0); }
static bool exactDiv(double a, double b, double r) { return b != 0 && std::fma(r, b, -a) == 0 && (r != 0 || a == 0); }
static u32 tNeg(u32 a) { if (isC(a)) return cst(-terms[a].c); if (terms[a].op == NEG) return terms[a].a; return mk(NEG, a); }
static u32 tAdd(u32 a, u32 b) {
    if (isC(a) && isC(b)) { double r = terms[a].c + terms[b].c; if (exactAdd(terms[a].c, terms[b].c, r)) return cst(r); }
    if (isC(a, 0)) return b; if (isC(b, 0)) return a;
    if (a > b) std::swap(a, b);
    return mk(ADD, a, b);
}
static u32 tSub(u32 a, u32 b) {
    if (isC(a) && isC(b)) { double r = terms[a].c - terms[b].c; if (exactAdd(terms[a].c, -terms[b].c, r)) return cst(r); }
    if (isC(b, 0)) return a; if (isC(a, 0)) return tNeg(b);
    return mk(SUB, a, b);
}
static u32 tMul(u32 a, u32 b) {
    if (isC(a) && isC(b)) { double r = terms[a].c * terms[b].c; if (exactMul(terms[a].c, terms[b].c, r)) return cst(r); }
    if (isC(a, 1)) return b; if (isC(b, 1)) return a;
    if (isC(a, -1)) return tNeg(b); if (isC(b, -1)) return tNeg(a);
    if (a > b) std::swap(a, b);
    return mk(MUL, a, b);
}
static u32 tDiv(u32 a, u32 b) {
    if (isC(a) && isC(b)) { double r = terms[a].c / terms[b].c; if (exactDiv(terms[a].c, terms[b].c, r)) return cst(r); }
    if (isC(b, 1)) return a;
    return mk(DIV, a, b);
}
static u32 tFn(Op op, u32 a, u32 b = 0) {
    if (isC(a)) {
        double x = terms[a].c;
        if (op == SQRT) { double r = std::sqrt(x); if (r * r == x && exactMul(r, r, x)) return cst(r); }
        if (op == SIN && x == 0) return cst(0);
        if (op == COS && x == 0) return cst(1);
        if (op == ACOS && x == 1) return cst(0);
        if (op == ATAN2 && x == 0 && isC(b) && terms[b].c > 0) return cst(0);
    }
    return mk(op, a, b);
}
static double numEval(u32 t, std::unordered_map<u32, double> &memo);
// closed terms (no variables) may be evaluated numerically to decide a comparison
static std::vector<int8_t> closedMemo;
static bool closedTerm(u32 t) {
    auto &memo = closedMemo; if (memo.size() < terms.size()) memo.resize(terms.size() * 2, -1);
    if (t >= memo.size()) memo.resize(terms.size() * 2, -1);
    if (memo[t] >= 0) return memo[t];
    const Term x = terms[t]; bool r;
    switch (x.op) { case VAR: case UF: r = false; break; case CST: r = true; break;
        case ADD: case SUB: case MUL: case DIV: case ATAN2: r = closedTerm(x.a) && closedTerm(x.b); break;
        default: r = closedTerm(x.a); }
    return memo[t] = r;
}
static double numEval(u32 t, std::unordered_map<u32, double> &m) {
    auto it = m.find(t); if (it != m.end()) return it->second;
    const Term x = terms[t]; double r = NAN;
    auto A = [&] { return numEval(x.a, m); }; auto B = [&] { return numEval(x.b, m); };
    switch (x.op) { case CST: r = x.c; break; case ADD: r = A() + B(); break; case SUB: r = A() - B(); break; case MUL: r = A() * B(); break;
        case DIV: r = A() / B(); break; case NEG: r = -A(); break; case SQRT: r = std::sqrt(A()); break; case SIN: r = std::sin(A()); break;
        case COS: r = std::cos(A()); break; case ACOS: r = std::acos(A()); break; case ASIN: r = std::asin(A()); break; case ATAN: r = std::atan(A()); break;
        case ATAN2: r = std::atan2(A(), B()); break; case TAN: r = std::tan(A()); break; case EXP: r = std::exp(A()); break; case LOG: r = std::log(A()); break; default: break; }
    return m[t] = r;
}

// ---------------------------------------------------------------- differentiation (ghost code for derivative contracts)
struct Dir { std::map<u32, u32> d; std::unordered_map<u32, u32> memo; };
static std::vector<Dir> dirs;
static u32 dAdd(u32 a, u32 b) { return tAdd(a, b); }
static u32 dMul(u32 a, u32 b) { if (isC(a, 0) || isC(b, 0)) return cst(0); return tMul(a, b); }
static u32 differentiate(Dir &D, u32 t) {
    auto it = D.memo.find(t); if (it != D.memo.end()) return it->second;
    const Term x = terms[t]; u32 r = cst(0);
    auto dA = [&] { return differentiate(D, x.a); }; auto dB = [&] { return differentiate(D, x.b); };
    u32 one = cst(1);
    switch (x.op) {
        case VAR: { auto j = D.d.find(t); r = j == D.d.end() ? cst(0) : j->second; break; }
        case CST: break;
        case ADD: r = dAdd(dA(), dB()); break;
        case SUB: r = tSub(dA(), dB()); break;
        case NEG: r = tNeg(dA()); break;
        case MUL: { u32 p = dMul(dA(), x.b), q = dMul(x.a, dB()); r = dAdd(p, q); break; }
        case DIV: { u32 da = dA(), db = dB(); u32 p = isC(da, 0) ? da : tDiv(da, x.b); u32 q = isC(db, 0) ? db : tDiv(dMul(t, db), x.b); r = tSub(p, q); break; }
        case SQRT: { u32 da = dA(); r = isC(da, 0) ? da : tDiv(da, tMul(cst(2), t)); break; }
        case SIN: r = dMul(dA(), tFn(COS, x.a)); break;
        case COS: r = tNeg(dMul(dA(), tFn(SIN, x.a))); break;
        case ACOS: { u32 da = dA(); r = isC(da, 0) ? da : tNeg(tDiv(da, tFn(SQRT, tSub(one, tMul(x.a, x.a))))); break; }
        case ASIN: { u32 da = dA(); r = isC(da, 0) ? da : tDiv(da, tFn(SQRT, tSub(one, tMul(x.a, x.a)))); break; }
        case ATAN: { u32 da = dA(); r = isC(da, 0) ? da : tDiv(da, tAdd(one, tMul(x.a, x.a))); break; }
        case ATAN2: { u32 da = dA(), db = dB(); if (isC(da, 0) && isC(db, 0)) break;
            u32 n = tSub(dMul(x.b, da), dMul(x.a, db)); r = tDiv(n, tAdd(tMul(x.a, x.a), tMul(x.b, x.b))); break; }
        case TAN: r = dMul(dA(), tAdd(one, tMul(t, t))); break;
        case EXP: r = dMul(dA(), t); break;
        case LOG: { u32 da = dA(); r = isC(da, 0) ? da : tDiv(da, x.a); break; }
        case UF: throw VcError{"derivative of uninterpreted function " + x.name};
    }
    return D.memo[t] = r;
}

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x7e0000000000ull;
static const u64 ARENA_SIZE = 6ull << 30;
static u64 brk_ = 0, brkHigh = 0;
struct Obj { u64 size; uint8_t state; uint8_t kind; std::string name; };  // state 1 alive, 0 dead; kind 0 global 1 stack 2 heap
static std::map<u64, Obj> objs;
static std::vector<uint8_t> initd;                       // per arena byte
static std::unordered_map<u64, u32> shadow;              // symbolic 8-byte cells
static std::vector<std::string> callStack;

static u64 allocMem(u64 size, u64 align, int kind, const std::string &name, bool init = false) {
    if (align < 16) align = 16;
    u64 base = (brk_ + align - 1) / align * align;
    brk_ = base + std::max<u64>(size, 1) + 16;
    if (brk_ > ARENA_SIZE) throw VcError{"out of interpreter memory"};
    if (initd.size() < brk_) initd.resize(std::max<u64>(brk_, initd.size() * 2), 0);
    if (init) memset(&initd[base], 1, size);
    brkHigh = std::max(brkHigh, brk_);
    objs[ARENA + base] = Obj{size, 1, (uint8_t)kind, name};
    return ARENA + base;
}
static std::string where() {
    std::string s; int n = 0;
    for (auto it = callStack.rbegin(); it != callStack.rend() && n < 6; ++it, ++n) { std::string d = demangle(*it); if (d.size() > 300) d = d.substr(0, 300) + "..."; s += (n ? " <- " : "") + d; }
    return s;
}
static void checkAccess(u64 a, u64 n, const char *what) {
    auto it = objs.upper_bound(a);
    if (it == objs.begin()) throw PathEnd{"memory", std::string(what) + " through an invalid pointer, in " + where()};
    --it;
    Obj &o = it->second;
    if (a + n > it->first + o.size) throw PathEnd{"memory", std::string(what) + " outside of object " + o.name + ", in " + where()};
    if (!o.state) throw PathEnd{"memory", std::string(what) + " of object " + o.name + (o.kind == 2 ? " after it was freed" : " after its lifetime ended") + ", in " + where()};
}
static void clearShadow(u64 a, u64 n) {
    if (shadow.empty()) return;
    for (u64 x = a >= 7 ? a - 7 : 0; x < a + n; ++x) {
        auto it = shadow.find(x);
        if (it == shadow.end()) continue;
        if (x < a || x + 8 > a + n) memset(&initd[x - ARENA], 0, 8);  // torn cell: rest is unreadable
        shadow.erase(it);
    }
}
static void storeSc(u64 a, const Sc &s, unsigned n) {
    clearShadow(a, n);
    if (s.k == SYM) { if (n != 8) throw VcError{"store of a symbolic value of odd size"}; shadow[a] = s.b; memset(&initd[a - ARENA], 1, 8); return; }
    if (s.k == UNDEF) { memset(&initd[a - ARENA], 0, n); return; }
    memcpy((void *)a, &s.b, n); memset(&initd[a - ARENA], 1, n);
}
static Sc loadSc(u64 a, unsigned n) {
    if (n == 8) { auto it = shadow.find(a); if (it != shadow.end()) return Sc::sym(it->second); }
    for (u64 x = a - 7; x < a + n; ++x) if (shadow.count(x)) throw VcError{"partial read of a symbolic value in " + where()};
    for (unsigned i = 0; i < n; ++i) if (!initd[a - ARENA + i]) return Sc{};
    Sc s = Sc::conc(0); memcpy(&s.b, (void *)a, n); return s;
}
static void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    checkAccess(s, n, "read"); checkAccess(d, n, "write");
    std::vector<std::pair<u64, u32>> cells;
    for (u64 x = s - 7; x < s + n; ++x) { auto it = shadow.find(x); if (it != shadow.end()) { if (x < s || x + 8 > s + n) throw VcError{"partial copy of a symbolic value"}; cells.push_back({x - s, it->second}); } }
    std::vector<uint8_t> fl(initd.begin() + (s - ARENA), initd.begin() + (s - ARENA + n));
    clearShadow(d, n);
    memmove((void *)d, (void *)s, n);
    std::copy(fl.begin(), fl.end(), initd.begin() + (d - ARENA));
    for (auto &c : cells) shadow[d + c.first] = c.second;
}

// ---------------------------------------------------------------- module state
static Module *M; static const DataLayout *DL;
static DenseMap<const Value *, u64> globalAddr;
static std::unordered_map<u64, Function *> funcAt;
static u64 funcBase = 0x100000;
struct Leaf { u64 off; unsigned size; Type *ty; };
static DenseMap<Type *, std::vector<Leaf> *> leafCache;
static void flatten(Type *t, u64 off, std::vector<Leaf> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 s = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), off + i * s, out); return; }
    if (auto *vt = dyn_cast<FixedVectorType>(t)) { u64 s = DL->getTypeStoreSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), off + i * s, out); return; }
    unsigned sz = DL->getTypeStoreSize(t);
    if (t->isVoidTy()) return;
    if (sz > 8) { out.push_back(Leaf{off, sz, t}); return; }
    out.push_back(Leaf{off, sz, t});
}
static const std::vector<Leaf> &leaves(Type *t) { auto &p = leafCache[t]; if (!p) { auto *v = new std::vector<Leaf>; if (!t->isVoidTy()) flatten(t, 0, *v); p = v; } return *p; }
static unsigned nLeaves(Type *t) { return leaves(t).size(); }
static unsigned leafIndex(Type *t, ArrayRef<unsigned> idx, Type **sub) {
    unsigned k = 0;
    for (unsigned i : idx) {
        if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) k += nLeaves(st->getElementType(j)); t = st->getElementType(i); }
        else if (auto *at = dyn_cast<ArrayType>(t)) { k += i * nLeaves(at->getElementType()); t = at->getElementType(); }
    }
    *sub = t; return k;
}

// ---------------------------------------------------------------- paths
struct Event { std::string json; };
static std::vector<std::string> events;
static std::vector<bool> prefix_; static size_t dpos = 0;
static std::map<std::pair<u32, u32>, uint8_t> known;     // (a<b ids) -> mask of {1:<,2:=,4:>}
static std::vector<std::string> ctxLabels;
static std::set<std::string> externsUsed;
static void noteExtern(const char *x) { externsUsed.insert(x); }
static u64 steps = 0; static u64 maxSteps = 400000000ull;
static std::set<std::string> entered;
static unsigned varCount = 0;
static int numFails = 0;

static std::string jstr(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void ev(const std::string &s) { events.push_back(s); }
static bool fork_() { bool r; if (dpos < prefix_.size()) r = prefix_[dpos]; else { r = true; prefix_.push_back(true); } ++dpos; return r; }

static bool decideCmp(u32 a, u32 b, uint8_t want, bool record = true) {  // want: mask of relations that make it true
    if (a == b) return want & 2;
    if (closedTerm(a) && closedTerm(b)) {
        std::unordered_map<u32, double> m; double x = numEval(a, m), y = numEval(b, m);
        if (x != x || y != y) throw PathEnd{"nonfinite", "comparison of an undefined constant expression"};
        if (std::fabs(x - y) <= 1e-13 * std::max({1.0, std::fabs(x), std::fabs(y)})) { if (isC(a) && isC(b)) return (x < y ? 1 : x > y ? 4 : 2) & want; std::function<bool(u32, long double &)> mo = [&](u32 t, long double &v) -> bool { auto &n = terms[t]; long double u, w; switch (n.op) { case CST: v = n.c; return true; case MUL: if (!mo(n.a, u) || !mo(n.b, w)) return false; v = u * w; return true; case DIV: if (!mo(n.a, u) || !mo(n.b, w) || w == 0) return false; v = u / w; return true; case SQRT: if (!mo(n.a, u) || u < 0) return false; v = sqrtl(u); return true; default: return false; } };
            long double lx, ly; if (mo(a, lx) && mo(b, ly) && fabsl(lx - ly) > 1e-15L * std::max(fabsl(lx), fabsl(ly))) return (lx < ly ? 1 : 4) & want;
            throw VcError{"undecided comparison of constants"}; }
        return (x < y ? 1 : 4) & want;
    }
    bool sw = a > b; u32 p = a, q = b; uint8_t w = want;
    if (sw) { std::swap(p, q); w = (w & 2) | ((w & 1) << 2) | ((w & 4) >> 2); }
    auto it = known.find({p, q}); uint8_t k = it == known.end() ? 7 : it->second;
    if ((k & w) == k) return true;
    if ((k & w) == 0) return false;
    bool r = fork_();
    uint8_t nk = r ? (k & w) : (k & ~w);
    known[{p, q}] = nk;
    static const char *nm[] = {"", "lt", "eq", "le", "gt", "ne", "ge", "any"};
    ev("[\"path\",\"" + std::string(nm[nk]) + "\"," + std::to_string(p) + "," + std::to_string(q) + "]");
    return r;
}
static bool fcmpSc(CmpInst::Predicate p, const Sc &x, const Sc &y) {
    if (x.k == UNDEF || y.k == UNDEF) throw PathEnd{"uninit", "a branch depends on an uninitialised number, in " + where()};
    if (x.k == CONC && y.k == CONC) {
        double a = x.d(), b = y.d(); bool un = a != a || b != b;
        switch (p) { case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
            case CmpInst::FCMP_OEQ: return a == b; case CmpInst::FCMP_OGT: return a > b; case CmpInst::FCMP_OGE: return a >= b; case CmpInst::FCMP_OLT: return a < b; case CmpInst::FCMP_OLE: return a <= b; case CmpInst::FCMP_ONE: return !un && a != b;
            case CmpInst::FCMP_UEQ: return un || a == b; case CmpInst::FCMP_UGT: return un || a > b; case CmpInst::FCMP_UGE: return un || a >= b; case CmpInst::FCMP_ULT: return un || a < b; case CmpInst::FCMP_ULE: return un || a <= b; case CmpInst::FCMP_UNE: return un || a != b; default: break; }
        throw VcError{"fcmp"};
    }
    // comparison with an infinite / extreme constant: every real is strictly inside
    for (int side = 0; side < 2; ++side) { const Sc &c = side ? y : x; if (c.k != CONC) continue; double v = c.d();
        if (!(v - v == 0)) {
            if (v != v) return p == CmpInst::FCMP_UNO || (p >= CmpInst::FCMP_UEQ && p <= CmpInst::FCMP_UNE) || p == CmpInst::FCMP_TRUE;
            uint8_t rel = ((v > 0) == (side == 1)) ? 1 : 4; uint8_t w = (p & 7);  // low bits: eq=1, gt=2, lt=4
            bool lt = w & 4, gt = w & 2; if (p == CmpInst::FCMP_ORD) return true; if (p == CmpInst::FCMP_UNO) return false; return rel == 1 ? lt : gt; } }
    if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_TRUE) return true;
    if (p == CmpInst::FCMP_UNO || p == CmpInst::FCMP_FALSE) return false;
    unsigned w = p & 7; uint8_t want = ((w & 1) ? 2 : 0) | ((w & 2) ? 4 : 0) | ((w & 4) ? 1 : 0);
    return decideCmp(toTerm(x), toTerm(y), want);
}

// ---------------------------------------------------------------- real arithmetic on scalars
static Sc fromTerm(u32 t) { if (isC(t)) return Sc::dbl(terms[t].c); return Sc::sym(t); }
static Sc fbin(unsigned opc, const Sc &x, const Sc &y) {
    if (x.k == UNDEF || y.k == UNDEF) return Sc{};
    if (x.k == CONC && y.k == CONC) {
        double a = x.d(), b = y.d(), r = 0; bool ex = true;
        switch (opc) { case Instruction::FAdd: r = a + b; ex = exactAdd(a, b, r); break; case Instruction::FSub: r = a - b; ex = exactAdd(a, -b, r); break;
            case Instruction::FMul: r = a * b; ex = exactMul(a, b, r); break; case Instruction::FDiv: r = a / b; ex = exactDiv(a, b, r); break; case Instruction::FRem: r = std::fmod(a, b); break; }
        if (ex || !(r - r == 0)) return Sc::dbl(r);
    }
    u32 a = toTerm(x), b = toTerm(y);
    switch (opc) { case Instruction::FAdd: return fromTerm(tAdd(a, b)); case Instruction::FSub: return fromTerm(tSub(a, b)); case Instruction::FMul: return fromTerm(tMul(a, b)); case Instruction::FDiv: return fromTerm(tDiv(a, b)); }
    throw VcError{"frem on reals"};
}
static Sc fneg(const Sc &x) { if (x.k == UNDEF) return x; if (x.k == CONC) return Sc::dbl(-x.d()); return fromTerm(tNeg(x.b)); }
static Sc ffabs(const Sc &x) { if (x.k == UNDEF) throw PathEnd{"uninit", "abs of an uninitialised number"}; if (x.k == CONC) return Sc::dbl(std::fabs(x.d())); return decideCmp(x.b, cst(0), 2 | 4) ? x : fneg(x); }

// ---------------------------------------------------------------- constants
static Val constVal(const Constant *c);
static Val evalConstExpr(const ConstantExpr *ce);
static DenseMap<const Constant *, Val> constCache;
static u64 addrOf(const GlobalValue *g) {
    auto it = globalAddr.find(g);
    if (it != globalAddr.end()) return it->second;
    if (auto *f = dyn_cast<Function>(g)) { u64 a = funcBase; funcBase += 16; globalAddr[g] = a; funcAt[a] = const_cast<Function *>(f); return a; }
    if (auto *al = dyn_cast<GlobalAlias>(g)) { auto v = constVal(al->getAliasee()); globalAddr[g] = v[0].b; return v[0].b; }
    throw VcError{"unknown global " + g->getName().str()};
}
static Val constVal(const Constant *c) {
    auto it = constCache.find(c); if (it != constCache.end()) return it->second;
    Val r; Type *t = c->getType();
    if (auto *g = dyn_cast<GlobalValue>(c)) { r.push_back(Sc::conc(addrOf(g))); return r; }
    if (isa<UndefValue>(c)) { r.assign(nLeaves(t), Sc{}); }
    else if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw VcError{"wide integer constant"}; r.push_back(Sc::conc(ci->getZExtValue())); }
    else if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (t->isDoubleTy()) r.push_back(Sc::dbl(cf->getValueAPF().convertToDouble()));
        else if (t->isFloatTy()) { float f = cf->getValueAPF().convertToFloat(); u32 b; memcpy(&b, &f, 4); r.push_back(Sc::conc(b)); }
        else { r.push_back(Sc{}); } }
    else if (isa<ConstantPointerNull>(c)) r.push_back(Sc::conc(0));
    else if (isa<ConstantAggregateZero>(c)) { r.assign(nLeaves(t), Sc::conc(0)); }
    else if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (auto &o : ca->operands()) { Val v = constVal(cast<Constant>(o.get())); r.append(v.begin(), v.end()); } }
    else if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) { Val v = constVal(cd->getElementAsConstant(i)); r.append(v.begin(), v.end()); } }
    else if (auto *ce = dyn_cast<ConstantExpr>(c)) return evalConstExpr(ce);
    else throw VcError{"constant kind"};
    constCache[c] = r; return r;
}
static u64 gepOffset(const GEPOperator *gep, std::function<Val(const Value *)> get) {
    u64 off = 0;
    for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
        Val iv = get(gi.getOperand()); if (iv[0].k != CONC) throw iv[0].k == UNDEF ? (throw PathEnd{"uninit", "address from an uninitialised index, in " + where()}) : VcError{"symbolic index"};
        int64_t i = iv[0].b; unsigned w = gi.getOperand()->getType()->getIntegerBitWidth(); if (w < 64) i = (int64_t)(iv[0].b << (64 - w)) >> (64 - w);
        if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(i);
        else off += i * (int64_t)DL->getTypeAllocSize(gi.getIndexedType());
    }
    return off;
}
static Val evalConstExpr(const ConstantExpr *ce) {
    Val r; auto get = [](const Value *v) { return constVal(cast<Constant>(v)); };
    switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); r.push_back(Sc::conc(b[0].b + gepOffset(cast<GEPOperator>(ce), get))); return r; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); r.push_back(Sc::conc(a[0].b - b[0].b)); return r; }
        case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); r.push_back(Sc::conc(a[0].b + b[0].b)); return r; }
        case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); unsigned w = ce->getType()->getIntegerBitWidth(); r.push_back(Sc::conc(a[0].b & (w == 64 ? ~0ull : ((1ull << w) - 1)))); return r; }
        default: throw VcError{"constant expression " + std::string(ce->getOpcodeName())};
    }
}
static void initGlobal(const Constant *c, u64 a) {
    auto &ls = leaves(c->getType()); Val v = constVal(c);
    for (size_t i = 0; i < ls.size(); ++i) { if (ls[i].size > 8) continue; if (v[i].k == CONC) { memcpy((void *)(a + ls[i].off), &v[i].b, ls[i].size); } }
    memset(&initd[a - ARENA], 1, DL->getTypeAllocSize(c->getType()));
}

// ---------------------------------------------------------------- interpreter
struct FnInfo { DenseMap<const Value *, unsigned> slot; unsigned n = 0; std::string dem; };
static std::unordered_map<const Function *, FnInfo *> fnInfo;
static FnInfo *info(const Function *f) {
    auto &p = fnInfo[f]; if (p) return p; p = new FnInfo;
    for (auto &a : f->args()) p->slot[&a] = p->n++;
    for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
    p->dem = demangle(f->getName().str());
    return p;
}
static Val call(Function *f, std::vector<Val> args, const CallBase *cb);
static Val callExtern(Function *f, std::vector<Val> &args, const CallBase *cb);

static u64 cInt(const Val &v) { if (v[0].k == CONC) return v[0].b; if (v[0].k == UNDEF) throw PathEnd{"uninit", "an uninitialised value is used, in " + where()}; throw VcError{"symbolic value used as an integer in " + where()}; }
static std::string cStr(u64 a) { std::string s; for (;; ++a) { checkAccess(a, 1, "read"); char c = *(char *)a; if (!c) break; s += c; } return s; }
static u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static Sc ibin(unsigned opc, Sc x, Sc y, unsigned w) {
    if (x.k == SYM || y.k == SYM) {
        if (w == 64) {
            const Sc &s = x.k == SYM ? x : y; const Sc &c = x.k == SYM ? y : x;
            if (c.k == CONC) {
                if (opc == Instruction::Xor) { if (c.b == 0) return s; if (c.b == 0x8000000000000000ull) return fneg(s); }
                if (opc == Instruction::And) { if (c.b == ~0ull) return s; if (c.b == 0) return Sc::conc(0); if (c.b == 0x7fffffffffffffffull) return ffabs(s); if (c.b == 0x8000000000000000ull) return Sc::conc(decideCmp(s.b, cst(0), 1) ? 0x8000000000000000ull : 0); }
                if (opc == Instruction::Or) { if (c.b == 0) return s; if (c.b == 0x8000000000000000ull) return fneg(ffabs(s)); }
            }
            if (c.k == UNDEF) return Sc{};
        }
        throw VcError{"integer operation on a real value in " + where()};
    }
    if (x.k == UNDEF || y.k == UNDEF) {
        if (opc == Instruction::And && ((x.k == CONC && x.b == 0) || (y.k == CONC && y.b == 0))) return Sc::conc(0);
        if (opc == Instruction::Mul && ((x.k == CONC && x.b == 0) || (y.k == CONC && y.b == 0))) return Sc::conc(0);
        return Sc{};
    }
    u64 a = x.b, b = y.b, r = 0;
    switch (opc) {
        case Instruction::Add: r = a + b; break; case Instruction::Sub: r = a - b; break; case Instruction::Mul: r = a * b; break;
        case Instruction::UDiv: if (!b) throw PathEnd{"trap", "integer division by zero"}; r = a / b; break; case Instruction::URem: if (!b) throw PathEnd{"trap", "integer division by zero"}; r = a % b; break;
        case Instruction::SDiv: if (!b) throw PathEnd{"trap", "integer division by zero"}; r = sx(a, w) / sx(b, w); break; case Instruction::SRem: if (!b) throw PathEnd{"trap", "integer division by zero"}; r = sx(a, w) % sx(b, w); break;
        case Instruction::And: r = a & b; break; case Instruction::Or: r = a | b; break; case Instruction::Xor: r = a ^ b; break;
        case Instruction::Shl: r = b >= 64 ? 0 : a << b; break; case Instruction::LShr: r = b >= 64 ? 0 : a >> b; break; case Instruction::AShr: r = sx(a, w) >> (b >= 64 ? 63 : b); break;
        default: throw VcError{"int op"};
    }
    return Sc::conc(maskw(r, w));
}
static bool icmp(CmpInst::Predicate p, const Sc &x, const Sc &y, unsigned w) {
    if (x.k == UNDEF || y.k == UNDEF) throw PathEnd{"uninit", "a branch depends on an uninitialised value, in " + where()};
    if (x.k == SYM || y.k == SYM) throw VcError{"integer comparison of a real value in " + where()};
    u64 a = x.b, b = y.b; int64_t sa = sx(a, w), sb = sx(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_SGT: return sa > sb; case CmpInst::ICMP_SGE: return sa >= sb; case CmpInst::ICMP_SLT: return sa < sb; case CmpInst::ICMP_SLE: return sa <= sb; default: throw VcError{"icmp"}; }
}
static unsigned elemBits(Type *t) { Type *e = t->getScalarType(); if (e->isPointerTy()) return 64; if (e->isIntegerTy()) return e->getIntegerBitWidth(); if (e->isDoubleTy()) return 64; if (e->isFloatTy()) return 32; throw VcError{"type width"}; }
static Val loadVal(Type *t, u64 a) {
    checkAccess(a, DL->getTypeStoreSize(t), "read");
    Val r; for (auto &l : leaves(t)) { if (l.size > 8) throw VcError{"wide scalar load in " + where()}; Sc s = loadSc(a + l.off, l.size); if (s.k == CONC && l.ty->isIntegerTy()) s.b = maskw(s.b, l.ty->getIntegerBitWidth()); r.push_back(s); }
    return r;
}
static void storeVal(Type *t, u64 a, const Val &v) {
    checkAccess(a, DL->getTypeStoreSize(t), "write");
    auto &ls = leaves(t); for (size_t i = 0; i < ls.size(); ++i) { if (ls[i].size > 8) throw VcError{"wide scalar store"}; storeSc(a + ls[i].off, v[i], ls[i].size); }
}
static float asF(const Sc &s) { u32 b = s.b; float f; memcpy(&f, &b, 4); return f; }
static Sc mkF(float f) { u32 b; memcpy(&b, &f, 4); return Sc::conc(b); }

static Val castVal(const Instruction &I, const Val &v) {
    Type *st = I.getOperand(0)->getType(), *dt = I.getType(); unsigned opc = I.getOpcode();
    if (opc == Instruction::BitCast) {
        if (nLeaves(st) == nLeaves(dt)) return v;
        // regroup bytes; only concrete/undef data
        std::vector<uint8_t> by, in; auto &ls = leaves(st); for (size_t i = 0; i < ls.size(); ++i) { if (v[i].k == SYM) throw VcError{"regrouping bits of a real value in " + where()}; for (unsigned j = 0; j < ls[i].size; ++j) { by.push_back(v[i].b >> (8 * j)); in.push_back(v[i].k == CONC); } }
        Val r; size_t p = 0; for (auto &l : leaves(dt)) { Sc s = Sc::conc(0); bool ok = true; for (unsigned j = 0; j < l.size; ++j, ++p) { s.b |= (u64)by[p] << (8 * j); ok &= in[p]; } if (!ok) s = Sc{}; r.push_back(s); }
        return r;
    }
    Val r; unsigned sw = elemBits(st), dw = elemBits(dt);
    for (const Sc &s : v) {
        if (s.k == UNDEF) { r.push_back(s); continue; }
        switch (opc) {
            case Instruction::Trunc: if (s.k == SYM) throw VcError{"trunc of real"}; r.push_back(Sc::conc(maskw(s.b, dw))); break;
            case Instruction::ZExt: if (s.k == SYM) throw VcError{"zext of real"}; r.push_back(Sc::conc(s.b)); break;
            case Instruction::SExt: if (s.k == SYM) throw VcError{"sext of real"}; r.push_back(Sc::conc(maskw((u64)sx(s.b, sw), dw))); break;
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: r.push_back(Sc::conc(maskw(s.b, dw))); break;
            case Instruction::SIToFP: r.push_back(dw == 64 ? Sc::dbl((double)sx(s.b, sw)) : mkF((float)sx(s.b, sw))); break;
            case Instruction::UIToFP: r.push_back(dw == 64 ? Sc::dbl((double)s.b) : mkF((float)s.b)); break;
            case Instruction::FPExt: if (sw != 32 || dw != 64) throw VcError{"fpext"}; r.push_back(Sc::dbl(asF(s))); break;
            case Instruction::FPTrunc: if (s.k == SYM) throw VcError{"conversion of a real to float in " + where()}; r.push_back(mkF((float)s.d())); break;
            case Instruction::FPToSI: if (s.k == SYM) throw VcError{"conversion of a real to an integer in " + where()}; r.push_back(Sc::conc(maskw((u64)(int64_t)(sw == 32 ? asF(s) : s.d()), dw))); break;
            case Instruction::FPToUI: if (s.k == SYM) throw VcError{"conversion of a real to an integer in " + where()}; r.push_back(Sc::conc(maskw((u64)(sw == 32 ? asF(s) : s.d()), dw))); break;
            default: throw VcError{"cast"};
        }
    }
    return r;
}
struct Frame { std::vector<u64> allocas; };

static Val execFn(Function *f, std::vector<Val> &args) {
    FnInfo *fi = info(f);
    callStack.push_back(f->getName().str());
    if (callStack.size() > 3000) throw VcError{"call depth"};
    if (fi->dem.find("wave::") != std::string::npos) entered.insert(f->getName().str());
    std::vector<Val> regs(fi->n);
    unsigned ai = 0; for (auto &a : f->args()) { regs[fi->slot[&a]] = args[ai++]; }
    std::vector<u64> stackObjs;
    auto get = [&](const Value *v) -> Val { if (auto *c = dyn_cast<Constant>(v)) return constVal(c); auto it = fi->slot.find(v); if (it == fi->slot.end()) return Val{}; return regs[it->second]; };
    std::function<Val(const Value *)> getF = get;
    const BasicBlock *bb = &f->getEntryBlock(), *prev = nullptr; Val ret;
    bool done = false;
    while (!done) {
        // phis read simultaneously
        auto it = bb->begin();
        { std::vector<std::pair<unsigned, Val>> ph; for (; it != bb->end() && isa<PHINode>(*it); ++it) { auto &p = cast<PHINode>(*it); ph.push_back({fi->slot[&p], get(p.getIncomingValueForBlock(prev))}); } for (auto &x : ph) regs[x.first] = x.second; }
        for (; it != bb->end(); ++it) {
            const Instruction &I = *it;
            if (++steps > maxSteps) throw VcError{"step limit"};
            Val r; unsigned opc = I.getOpcode();
            switch (opc) {
                case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); u64 n = 1; if (A.isArrayAllocation()) n = cInt(get(A.getArraySize())); u64 a = allocMem(n * DL->getTypeAllocSize(A.getAllocatedType()), A.getAlign().value(), 1, "'" + A.getName().str() + "' of " + fi->dem.substr(0, 160)); stackObjs.push_back(a); r.push_back(Sc::conc(a)); break; }
                case Instruction::Load: { r = loadVal(I.getType(), cInt(get(I.getOperand(0)))); break; }
                case Instruction::Store: { storeVal(I.getOperand(0)->getType(), cInt(get(I.getOperand(1))), get(I.getOperand(0))); break; }
                case Instruction::GetElementPtr: { auto &G = cast<GEPOperator>(I); u64 b = cInt(get(G.getPointerOperand())); r.push_back(Sc::conc(b + gepOffset(&G, getF))); break; }
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                    Val a = get(I.getOperand(0)), b = get(I.getOperand(1));
                    if (I.getType()->getScalarType()->isFloatTy()) { for (size_t i = 0; i < a.size(); ++i) { if (a[i].k != CONC || b[i].k != CONC) { r.push_back(Sc{}); continue; } float x = asF(a[i]), y = asF(b[i]); r.push_back(mkF(opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : x / y)); } break; }
                    if (!I.getType()->getScalarType()->isDoubleTy()) throw VcError{"extended precision arithmetic"};
                    for (size_t i = 0; i < a.size(); ++i) r.push_back(fbin(opc, a[i], b[i])); break; }
                case Instruction::FNeg: { Val a = get(I.getOperand(0)); if (I.getType()->getScalarType()->isFloatTy()) { for (auto &s : a) r.push_back(mkF(-asF(s))); } else for (auto &s : a) r.push_back(fneg(s)); break; }
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    Val a = get(I.getOperand(0)), b = get(I.getOperand(1)); unsigned w = elemBits(I.getType()); if (w > 64) throw VcError{"wide integer arithmetic"}; for (size_t i = 0; i < a.size(); ++i) r.push_back(ibin(opc, a[i], b[i], w)); break; }
                case Instruction::ICmp: { auto &C = cast<ICmpInst>(I); Val a = get(I.getOperand(0)), b = get(I.getOperand(1)); unsigned w = elemBits(I.getOperand(0)->getType()); for (size_t i = 0; i < a.size(); ++i) r.push_back(Sc::conc(icmp(C.getPredicate(), a[i], b[i], w))); break; }
                case Instruction::FCmp: { auto &C = cast<FCmpInst>(I); Val a = get(I.getOperand(0)), b = get(I.getOperand(1));
                    bool fl = I.getOperand(0)->getType()->getScalarType()->isFloatTy();
                    for (size_t i = 0; i < a.size(); ++i) { if (fl) r.push_back(Sc::conc(fcmpSc(C.getPredicate(), Sc::dbl(asF(a[i])), Sc::dbl(asF(b[i]))))); else r.push_back(Sc::conc(fcmpSc(C.getPredicate(), a[i], b[i]))); } break; }
                case Instruction::Select: { Val c = get(I.getOperand(0)), a = get(I.getOperand(1)), b = get(I.getOperand(2)); if (I.getOperand(0)->getType()->isVectorTy()) { for (size_t i = 0; i < a.size(); ++i) { Val ci; ci.push_back(c[i]); r.push_back((cInt(ci) & 1) ? a[i] : b[i]); } } else r = (cInt(c) & 1) ? a : b; break; }
                case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); Val a = get(I.getOperand(0)); Type *sub; unsigned k = leafIndex(I.getOperand(0)->getType(), E.getIndices(), &sub); for (unsigned i = 0; i < nLeaves(sub); ++i) r.push_back(a[k + i]); break; }
                case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); r = get(I.getOperand(0)); Val b = get(I.getOperand(1)); Type *sub; unsigned k = leafIndex(I.getOperand(0)->getType(), E.getIndices(), &sub); for (unsigned i = 0; i < b.size(); ++i) r[k + i] = b[i]; break; }
                case Instruction::ExtractElement: { Val a = get(I.getOperand(0)); u64 i = cInt(get(I.getOperand(1))); r.push_back(a[i]); break; }
                case Instruction::InsertElement: { r = get(I.getOperand(0)); u64 i = cInt(get(I.getOperand(2))); r[i] = get(I.getOperand(1))[0]; break; }
                case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); Val a = get(I.getOperand(0)), b = get(I.getOperand(1)); for (int m : S.getShuffleMask()) r.push_back(m < 0 ? Sc{} : m < (int)a.size() ? a[m] : b[m - a.size()]); break; }
                case Instruction::Freeze: r = get(I.getOperand(0)); break;
                case Instruction::AtomicCmpXchg: { auto &X = cast<AtomicCmpXchgInst>(I); u64 a = cInt(get(X.getPointerOperand())); Type *t = X.getCompareOperand()->getType(); Val old = loadVal(t, a); bool eq = cInt(old) == cInt(get(X.getCompareOperand())); if (eq) storeVal(t, a, get(X.getNewValOperand())); r = old; r.push_back(Sc::conc(eq)); break; }
                case Instruction::AtomicRMW: { auto &X = cast<AtomicRMWInst>(I); u64 a = cInt(get(X.getPointerOperand())); Type *t = I.getType(); Val old = loadVal(t, a); Val nv; u64 v = cInt(get(X.getValOperand())), o = cInt(old); switch (X.getOperation()) { case AtomicRMWInst::Add: v = o + v; break; case AtomicRMWInst::Sub: v = o - v; break; case AtomicRMWInst::Xchg: break; default: throw VcError{"atomicrmw"}; } nv.push_back(Sc::conc(maskw(v, elemBits(t)))); storeVal(t, a, nv); r = old; break; }
                case Instruction::Fence: break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &C = cast<CallBase>(I); std::vector<Val> av; for (auto &a : C.args()) { if (a->getType()->isMetadataTy()) { av.push_back(Val{}); continue; } av.push_back(get(a)); }
                    Function *cf = C.getCalledFunction();
                    if (C.isInlineAsm()) { r = C.getType()->isVoidTy() ? Val{} : Val(nLeaves(C.getType()), Sc{}); if (!C.getType()->isVoidTy()) throw VcError{"inline assembly"}; }
                    else {
                        if (!cf) { Value *cv = C.getCalledOperand()->stripPointerCasts(); cf = dyn_cast<Function>(cv); if (!cf) { u64 a = cInt(get(cv)); auto j = funcAt.find(a); if (j == funcAt.end()) throw PathEnd{"memory", "call through an invalid function pointer, in " + where()}; cf = j->second; } }
                        // assumed contract on Eigen: stableNorm() equals norm() over the reals
                        if (cf && cf->getName().starts_with("_ZNK5Eigen10MatrixBase") && cf->getName().ends_with("10stableNormEv")) { if (Function *nf = M->getFunction(cf->getName().drop_back(14).str() + "4normEv")) if (!nf->empty()) { cf = nf; noteExtern("Eigen stableNorm(): assumed equal to norm()"); } }
                        // by-value aggregates: the callee owns a copy
                        for (unsigned i = 0; i < C.arg_size(); ++i) if (C.isByValArgument(i)) { Type *bt = C.getParamByValType(i); u64 sz = DL->getTypeAllocSize(bt); u64 n = allocMem(sz, 32, 1, "by-value argument"); copyMem(n, cInt(av[i]), sz); stackObjs.push_back(n); av[i] = Val(1, Sc::conc(n)); }
                        r = call(cf, av, &C);
                    }
                    if (opc == Instruction::Invoke) { if (!I.getType()->isVoidTy()) regs[fi->slot[&I]] = r; prev = bb; bb = cast<InvokeInst>(I).getNormalDest(); goto nextBlock; }
                    break; }
                case Instruction::Br: { auto &B = cast<BranchInst>(I); prev = bb; if (B.isUnconditional()) bb = B.getSuccessor(0); else bb = (cInt(get(B.getCondition())) & 1) ? B.getSuccessor(0) : B.getSuccessor(1); goto nextBlock; }
                case Instruction::Switch: { auto &S = cast<SwitchInst>(I); u64 v = cInt(get(S.getCondition())); prev = bb; const BasicBlock *d = S.getDefaultDest(); for (auto &c : S.cases()) if (c.getCaseValue()->getZExtValue() == v) { d = c.getCaseSuccessor(); break; } bb = d; goto nextBlock; }
                case Instruction::Ret: if (I.getNumOperands()) ret = get(I.getOperand(0)); done = true; goto nextBlock;
                case Instruction::Unreachable: throw PathEnd{"trap", "unreachable code reached in " + where()};
                case Instruction::LandingPad: case Instruction::Resume: throw VcError{"exception path"};
                default:
                    if (I.isCast()) { r = castVal(I, get(I.getOperand(0))); break; }
                    throw VcError{"instruction " + std::string(I.getOpcodeName())};
            }
            if (!I.getType()->isVoidTy()) regs[fi->slot[&I]] = std::move(r);
        }
    nextBlock:;
    }
    for (u64 a : stackObjs) objs[a].state = 0;
    callStack.pop_back();
    return ret;
}

static std::vector<std::pair<std::string, std::string>> contractsUsed;
static u32 freshVar(const std::string &base) { std::string n = base; u32 t = mk(VAR, 0, 0, 0, n); return t; }
static std::map<std::string, int> nameUse;
static std::string uniq(const std::string &n) { int k = nameUse[n]++; return k ? n + "#" + std::to_string(k) : n; }
static u32 declVar(const std::string &n) { std::string u = uniq(n); u32 t = mk(VAR, 0, 0, 0, u); ev("[\"var\"," + jstr(u) + "," + std::to_string(t) + "]"); return t; }
static std::string ctx() { std::string s; for (auto &l : ctxLabels) s += l + "/"; return s; }

// Contracts assumed for functions outside the verified code (their bodies are not executed).
static bool assumedContract(Function *f, const std::string &dem, std::vector<Val> &args, Val &out) {
    auto rng = [&](const Sc &lo, const Sc &hi, const char *nm) { u32 v = declVar(nm); u32 a = toTerm(lo), b = toTerm(hi); ev("[\"assume\",\"le\"," + std::to_string(a) + "," + std::to_string(v) + "]"); ev("[\"assume\",\"le\"," + std::to_string(v) + "," + std::to_string(b) + "]"); out.clear(); out.push_back(Sc::sym(v)); };
    if (f->getReturnType()->isDoubleTy() && dem.find("std::uniform_real_distribution<double>::operator()<") != std::string::npos && dem.find("param_type const&)") == std::string::npos) {
        u64 p = cInt(args[0]); checkAccess(p, 16, "read"); rng(loadSc(p, 8), loadSc(p + 8, 8), "uniform"); externsUsed.insert("std::uniform_real_distribution<double>{a,b}: assumed to return a real in [a,b]"); return true; }
    if (dem.find("std::random_device::random_device(") != std::string::npos || dem.find("std::random_device::~random_device(") != std::string::npos) { externsUsed.insert("std::random_device: assumed to return an arbitrary seed"); return true; }
    if (dem.find("std::random_device::operator()()") != std::string::npos) { out = Val(1, Sc::conc(12345)); return true; }
    if (f->getReturnType()->isDoubleTy() && dem.find("Eigen::internal::random_default_impl<double, false, false>::run(") != std::string::npos) {
        if (f->arg_size() == 0) rng(Sc::dbl(-1), Sc::dbl(1), "eigenRandom"); else { rng(Sc::dbl(-1), Sc::dbl(1), "eigenRandom"); }
        externsUsed.insert("Eigen random double: assumed to return a real in [-1,1]"); return true; }
    return false;
}

static Val mathFn(Op op, const Val &a, const Val *b = nullptr) {
    Val r;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].k == UNDEF || (b && (*b)[i].k == UNDEF)) { r.push_back(Sc{}); continue; }
        r.push_back(fromTerm(tFn(op, toTerm(a[i]), b ? toTerm((*b)[i]) : 0)));
    }
    return r;
}
static Val d1(double d) { return Val(1, Sc::dbl(d)); }
static Val i1(u64 v) { return Val(1, Sc::conc(v)); }

// ghost functions of the harness (contract language)
static bool ghost(const std::string &n, std::vector<Val> &A, Val &out) {
    auto T = [&](int i) { return toTerm(A[i][0]); };
    auto S = [&](int i) { return std::to_string(toTerm(A[i][0])); };
    auto L = [&](int i) { return jstr(ctx() + cStr(cInt(A[i]))); };
    if (n == "vc_var") { out = Val(1, Sc::sym(declVar(cStr(cInt(A[0]))))); return true; }
    if (n == "vc_unit") { std::string b = cStr(cInt(A[0])); u64 p = cInt(A[1]); int k = cInt(A[2]); std::string ids; for (int i = 0; i < k; ++i) { u32 v = declVar(b + "." + std::to_string(i)); checkAccess(p + 8 * i, 8, "write"); storeSc(p + 8 * i, Sc::sym(v), 8); ids += (i ? "," : "") + std::to_string(v); } ev("[\"unit\",[" + ids + "]]"); return true; }
    if (n == "vc_hint") { ev("[\"hint\"," + jstr(cStr(cInt(A[0]))) + "," + S(1) + "]"); return true; }
    if (n == "vc_assume_eq") { ev("[\"assume\",\"eq\"," + S(0) + "," + S(1) + "]"); return true; }
    if (n == "vc_assume_lt") { ev("[\"assume\",\"lt\"," + S(0) + "," + S(1) + "]"); u32 a = T(0), b = T(1); if (a < b) known[{a, b}] = 1; else known[{b, a}] = 4; return true; }
    if (n == "vc_assume_le") { ev("[\"assume\",\"le\"," + S(0) + "," + S(1) + "]"); return true; }
    if (n == "vc_assume_ne") { ev("[\"assume\",\"ne\"," + S(0) + "," + S(1) + "]"); return true; }
    if (n == "vc_ensure_eq" || n == "vc_ensure_le" || n == "vc_ensure_lt") {
        if (A[1][0].k == UNDEF || A[2][0].k == UNDEF) { ev("[\"fail\",\"uninit\"," + L(0) + ",\"the result is an uninitialised number\"]"); ++numFails; return true; }
        u32 a, b; try { a = T(1); b = T(2); } catch (PathEnd &e) { ev("[\"fail\",\"nonfinite\"," + L(0) + "," + jstr(e.msg) + "]"); ++numFails; return true; }
        ev("[\"ensure\",\"" + n.substr(10) + "\"," + L(0) + "," + std::to_string(a) + "," + std::to_string(b) + "]"); return true; }
    if (n == "vc_ensure_near") {
        if (A[1][0].k == UNDEF || A[2][0].k == UNDEF) { ev("[\"fail\",\"uninit\"," + L(0) + ",\"the result is an uninitialised number\"]"); ++numFails; return true; }
        ev("[\"ensure\",\"near\"," + L(0) + "," + S(1) + "," + S(2) + "," + S(3) + "]"); return true; }
    if (n == "vc_ensure") { bool v = cInt(A[1]) & 1; if (v) ev("[\"ensure\",\"true\"," + L(0) + "]"); else { ev("[\"fail\",\"false\"," + L(0) + ",\"the stated condition is false\"]"); ++numFails; } return true; }
    if (n == "vc_push") { ctxLabels.push_back(cStr(cInt(A[0]))); return true; }
    if (n == "vc_pop") { ctxLabels.pop_back(); return true; }
    if (n == "vc_stop") { throw PathEnd{"stop", "precondition"}; }
    if (n == "vc_lt") { out = i1(decideCmp(T(0), T(1), 1)); return true; }
    if (n == "vc_dir_new") { dirs.emplace_back(); out = i1(dirs.size() - 1); return true; }
    if (n == "vc_var_i") { out = Val(1, Sc::sym(declVar(cStr(cInt(A[0])) + "." + std::to_string((int)cInt(A[1]))))); return true; }
    if (n == "vc_sym_i") { std::string nm = std::string(cStr(cInt(A[0]))) + "." + std::to_string((int)cInt(A[1])); out = Val(1, Sc::sym(nameUse.count(nm) ? mk(VAR, 0, 0, 0, nm) : declVar(nm))); return true; }
    if (n == "vc_dir_set") { Dir &D = dirs[cInt(A[0])]; std::string nm = cStr(cInt(A[1])); int ix = (int)cInt(A[2]); if (ix >= 0) nm += "." + std::to_string(ix); if (!nameUse.count(nm)) throw VcError{"vc_dir_set on unknown variable " + nm}; if (nameUse[nm] != 1) throw VcError{"vc_dir_set on ambiguous variable " + nm}; u32 v = mk(VAR, 0, 0, 0, nm); D.d[v] = T(3); D.memo.clear(); return true; }
    if (n == "vc_diff") { if (A[1][0].k == UNDEF) { out = Val(1, Sc{}); return true; } out = Val(1, fromTerm(differentiate(dirs[cInt(A[0])], T(1)))); return true; }
    if (n == "vc_note") { ev("[\"note\"," + jstr(cStr(cInt(A[0]))) + "," + S(1) + "]"); return true; }
    return false;
}

static Val callExtern(Function *f, std::vector<Val> &A, const CallBase *cb) {
    StringRef n = f->getName(); Val out;
    if (n.starts_with("vc_")) { if (ghost(n.str(), A, out)) return out; throw VcError{"unknown ghost function " + n.str()}; }
    if (f->isIntrinsic()) {
        if (n.starts_with("llvm.dbg") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.stackrestore") || n.starts_with("llvm.var.annotation")) return i1(0);
        if (n.starts_with("llvm.lifetime.start")) { u64 a = cInt(A[1]); auto it = objs.find(a); if (it != objs.end()) { it->second.state = 1; clearShadow(a, it->second.size); memset(&initd[a - ARENA], 0, it->second.size); } return out; }
        if (n.starts_with("llvm.lifetime.end")) { u64 a = cInt(A[1]); auto it = objs.find(a); if (it != objs.end()) it->second.state = 0; return out; }
        if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) { copyMem(cInt(A[0]), cInt(A[1]), cInt(A[2])); return out; }
        if (n.starts_with("llvm.memset")) { u64 a = cInt(A[0]), k = cInt(A[2]); if (k) { checkAccess(a, k, "write"); clearShadow(a, k); memset((void *)a, (int)cInt(A[1]), k); memset(&initd[a - ARENA], 1, k); } return out; }
        if (n.starts_with("llvm.sqrt")) return mathFn(SQRT, A[0]);
        if (n.starts_with("llvm.sin")) return mathFn(SIN, A[0]);
        if (n.starts_with("llvm.cos")) return mathFn(COS, A[0]);
        if (n.starts_with("llvm.exp.")) return mathFn(EXP, A[0]);
        if (n.starts_with("llvm.log.")) return mathFn(LOG, A[0]);
        if (n.starts_with("llvm.fabs")) { for (auto &s : A[0]) out.push_back(ffabs(s)); return out; }
        if (n.starts_with("llvm.fmuladd") || n.starts_with("llvm.fma.")) { for (size_t i = 0; i < A[0].size(); ++i) out.push_back(fbin(Instruction::FAdd, fbin(Instruction::FMul, A[0][i], A[1][i]), A[2][i])); return out; }
        if (n.starts_with("llvm.minnum") || n.starts_with("llvm.maxnum") || n.starts_with("llvm.minimum") || n.starts_with("llvm.maximum")) { bool mn = n.starts_with("llvm.min"); for (size_t i = 0; i < A[0].size(); ++i) out.push_back(fcmpSc(CmpInst::FCMP_OLT, A[0][i], A[1][i]) == mn ? A[0][i] : A[1][i]); return out; }
        if (n.starts_with("llvm.copysign")) { for (size_t i = 0; i < A[0].size(); ++i) { Sc m = ffabs(A[0][i]); out.push_back(fcmpSc(CmpInst::FCMP_OLT, A[1][i], Sc::dbl(0)) ? fneg(m) : m); } return out; }
        if (n.starts_with("llvm.is.fpclass")) { u64 m = cInt(A[1]); if (A[0][0].k == SYM) { bool fin = (m & 0x1f8) == 0x1f8, none = (m & 0x1f8) == 0; if (!fin && !none) throw VcError{"fpclass"}; return i1(fin); } double d = A[0][0].d(); bool nan = d != d, inf = std::isinf(d); return i1(nan ? (m & 3) != 0 : inf ? (m & 0x204) != 0 : (m & 0x1f8) != 0); }
        if (n.starts_with("llvm.expect")) return A[0];
        if (n.starts_with("llvm.is.constant")) return i1(0);
        if (n.starts_with("llvm.objectsize")) return i1(~0ull);
        if (n.starts_with("llvm.stacksave")) return i1(0);
        if (n.starts_with("llvm.threadlocal.address") || n.starts_with("llvm.launder.invariant.group") || n.starts_with("llvm.strip.invariant.group") || n.starts_with("llvm.ptr.annotation")) return A[0];
        if (n.starts_with("llvm.trap")) throw PathEnd{"trap", "trap in " + where()};
        unsigned w = f->getReturnType()->isIntegerTy() ? f->getReturnType()->getIntegerBitWidth() : 64;
        if (n.starts_with("llvm.umax")) return i1(std::max(cInt(A[0]), cInt(A[1])));
        if (n.starts_with("llvm.umin")) return i1(std::min(cInt(A[0]), cInt(A[1])));
        if (n.starts_with("llvm.smax")) return i1(sx(cInt(A[0]), w) > sx(cInt(A[1]), w) ? cInt(A[0]) : cInt(A[1]));
        if (n.starts_with("llvm.smin")) return i1(sx(cInt(A[0]), w) < sx(cInt(A[1]), w) ? cInt(A[0]) : cInt(A[1]));
        if (n.starts_with("llvm.abs")) return i1(maskw((u64)std::llabs(sx(cInt(A[0]), w)), w));
        if (n.starts_with("llvm.ctpop")) return i1(__builtin_popcountll(cInt(A[0])));
        if (n.starts_with("llvm.ctlz")) { u64 v = cInt(A[0]); return i1(v ? __builtin_clzll(v) - (64 - w) : w); }
        if (n.starts_with("llvm.cttz")) { u64 v = cInt(A[0]); return i1(v ? __builtin_ctzll(v) : w); }
        if (n.starts_with("llvm.umul.with.overflow")) { unsigned __int128 p = (unsigned __int128)cInt(A[0]) * cInt(A[1]); out.push_back(Sc::conc((u64)p)); out.push_back(Sc::conc((u64)(p >> 64) != 0)); return out; }
        if (n.starts_with("llvm.uadd.with.overflow")) { unsigned __int128 p = (unsigned __int128)cInt(A[0]) + cInt(A[1]); out.push_back(Sc::conc((u64)p)); out.push_back(Sc::conc((u64)(p >> 64) != 0)); return out; }
        throw VcError{"intrinsic " + n.str()};
    }
    static const std::map<std::string, Op> m1 = {{"sqrt", SQRT}, {"sin", SIN}, {"cos", COS}, {"acos", ACOS}, {"asin", ASIN}, {"atan", ATAN}, {"tan", TAN}, {"exp", EXP}, {"log", LOG}};
    std::string s = n.str();
    auto mi = m1.find(s);
    if (mi != m1.end()) { externsUsed.insert("libm " + s); return mathFn(mi->second, A[0]); }
    if (s == "atan2") { externsUsed.insert("libm atan2"); return mathFn(ATAN2, A[0], &A[1]); }
    if (s == "hypot") { Val q; q.push_back(fbin(Instruction::FAdd, fbin(Instruction::FMul, A[0][0], A[0][0]), fbin(Instruction::FMul, A[1][0], A[1][0]))); return mathFn(SQRT, q); }
    if (s == "fabs") return Val(1, ffabs(A[0][0]));
    if (s == "fmin" || s == "fmax") return Val(1, fcmpSc(CmpInst::FCMP_OLT, A[0][0], A[1][0]) == (s == "fmin") ? A[0][0] : A[1][0]);
    if (s == "nextafter") { externsUsed.insert("libm nextafter: read as its first argument (the adjacent double)"); return A[0]; }
    if (s == "fma") return Val(1, fbin(Instruction::FAdd, fbin(Instruction::FMul, A[0][0], A[1][0]), A[2][0]));
    if (s == "pow" && A[1][0].k == CONC) { double e = A[1][0].d(); if (e == 0.5) return mathFn(SQRT, A[0]); if (e == std::floor(e) && std::fabs(e) <= 8) { Sc r = Sc::dbl(1); for (int i = 0; i < std::fabs(e); ++i) r = fbin(Instruction::FMul, r, A[0][0]); if (e < 0) r = fbin(Instruction::FDiv, Sc::dbl(1), r); return Val(1, r); } }
    if (s == "sincos") { u64 p = cInt(A[1]), q = cInt(A[2]); checkAccess(p, 8, "write"); checkAccess(q, 8, "write"); storeSc(p, mathFn(SIN, A[0])[0], 8); storeSc(q, mathFn(COS, A[0])[0], 8); return out; }
    if (s == "_Znwm" || s == "_Znam" || s == "malloc") return i1(allocMem(cInt(A[0]), 16, 2, "heap block"));
    if (s == "_ZnwmSt11align_val_t" || s == "_ZnamSt11align_val_t") return i1(allocMem(cInt(A[0]), cInt(A[1]), 2, "heap block"));
    if (s == "aligned_alloc") return i1(allocMem(cInt(A[1]), cInt(A[0]), 2, "heap block"));
    if (s == "calloc") { u64 k = cInt(A[0]) * cInt(A[1]); u64 a = allocMem(k, 16, 2, "heap block", true); memset((void *)a, 0, k); return i1(a); }
    if (s == "posix_memalign") { u64 a = allocMem(cInt(A[2]), cInt(A[1]), 2, "heap block"); storeSc(cInt(A[0]), Sc::conc(a), 8); return i1(0); }
    if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || s == "free") { u64 a = cInt(A[0]); if (!a) return out; auto it = objs.find(a); if (it == objs.end() || it->second.kind != 2) throw PathEnd{"memory", "free of a pointer that is not a heap block, in " + where()}; if (!it->second.state) throw PathEnd{"memory", "double free in " + where()}; it->second.state = 0; return out; }
    if (s == "memcpy" || s == "memmove") { copyMem(cInt(A[0]), cInt(A[1]), cInt(A[2])); return A[0]; }
    if (s == "memset") { u64 a = cInt(A[0]), k = cInt(A[2]); checkAccess(a, k, "write"); clearShadow(a, k); memset((void *)a, (int)cInt(A[1]), k); memset(&initd[a - ARENA], 1, k); return A[0]; }
    if (s == "memcmp") { u64 a = cInt(A[0]), b = cInt(A[1]), k = cInt(A[2]); checkAccess(a, k, "read"); checkAccess(b, k, "read"); return i1((u32)memcmp((void *)a, (void *)b, k)); }
    if (s == "strcmp") { return i1((u32)strcmp(cStr(cInt(A[0])).c_str(), cStr(cInt(A[1])).c_str())); }
    if (s == "strlen") return i1(cStr(cInt(A[0])).size());
    if (s == "__cxa_guard_acquire") { u64 a = cInt(A[0]); return i1(*(char *)a ? 0 : 1); }
    if (s == "__cxa_guard_release") { u64 a = cInt(A[0]); *(char *)a = 1; memset(&initd[a - ARENA], 1, 8); return out; }
    if (s == "__cxa_guard_abort" || s == "__cxa_atexit" || s == "atexit") return i1(0);
    if (s == "_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm") { u64 a = cInt(A[0]); checkAccess(a, 16, "read"); auto *p = reinterpret_cast<const std::__detail::_Prime_rehash_policy *>(a); auto r = p->_M_need_rehash(cInt(A[1]), cInt(A[2]), cInt(A[3])); memset(&initd[a - ARENA], 1, 16); out.push_back(Sc::conc(r.first)); out.push_back(Sc::conc(r.second)); return out; }
    if (s == "_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm") { u64 a = cInt(A[0]); auto *p = reinterpret_cast<const std::__detail::_Prime_rehash_policy *>(a); auto r = p->_M_next_bkt(cInt(A[1])); memset(&initd[a - ARENA], 1, 16); return i1(r); }
    if (s == "_ZSt11_Hash_bytesPKvmm") { u64 h = 1469598103934665603ull; u64 a = cInt(A[0]), k = cInt(A[1]); for (u64 i = 0; i < k; ++i) h = (h ^ *(uint8_t *)(a + i)) * 1099511628211ull; return i1(h); }
    if (n.starts_with("_ZSt") && n.contains("__throw_")) throw PathEnd{"throw", demangle(s) + " in " + where()};
    if (s == "__cxa_allocate_exception") return i1(allocMem(cInt(A[0]), 16, 2, "exception"));
    if (s == "__cxa_throw" || s == "__cxa_rethrow") throw PathEnd{"throw", "exception thrown in " + where()};
    if (s == "abort" || s == "_ZSt9terminatev" || s == "__assert_fail" || s == "__cxa_pure_virtual" || s == "exit" || s == "__clang_call_terminate") throw PathEnd{"abort", s + " in " + where()};
    if (s == "__gthread_active_p" || s == "__pthread_key_create") return i1(0);
    (void)cb;
    throw VcError{"external function " + s + " (" + demangle(s) + ") called in " + where()};
}
static Val call(Function *f, std::vector<Val> args, const CallBase *cb) {
    Val out;
    if (f->isDeclaration()) {
        const std::string dem = demangle(f->getName().str());
        if (assumedContract(f, dem, args, out)) return out;
        callStack.push_back(f->getName().str()); out = callExtern(f, args, cb); callStack.pop_back(); return out;
    }
    FnInfo *fi = info(f);
    if (assumedContract(f, fi->dem, args, out)) return out;
    return execFn(f, args);
}

// ---------------------------------------------------------------- driver
int main(int argc, char **argv) {
    struct rlimit rl; if (!getrlimit(RLIMIT_STACK, &rl) && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (!setrlimit(RLIMIT_STACK, &rl) && !getenv("IRVC_RE")) { setenv("IRVC_RE", "1", 1); execv("/proc/self/exe", argv); } }
    std::string in, outp, only; int maxPaths = 3000;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-o") outp = argv[++i]; else if (a == "--func") only = argv[++i]; else if (a == "--max-paths") maxPaths = atoi(argv[++i]); else if (a == "--max-steps") maxSteps = strtoull(argv[++i], 0, 10); else in = a; }
    LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(in, err, C); if (!mod) { err.print("irvc", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    void *p = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA) { fprintf(stderr, "irvc: cannot map arena\n"); return 2; }
    std::ofstream os(outp.empty() ? "/dev/stdout" : outp);
    brk_ = 4096; initd.resize(1 << 20, 0);
    std::map<u64, Obj> gObjs; u64 gBrk; std::vector<uint8_t> gInit, gBytes;
    try {
        for (auto &g : M->globals()) { Type *t = g.getValueType(); u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8; u64 a = allocMem(sz, 64, 0, "global " + g.getName().str(), g.hasInitializer()); globalAddr[&g] = a; if (!g.hasInitializer()) { memset((void *)a, 0, sz); if (g.getName() == "__libc_single_threaded") *(char *)a = 1; memset(&initd[a - ARENA], 1, sz); } }
        for (auto &g : M->globals()) if (g.hasInitializer()) { if (g.getName().starts_with("llvm.")) continue; initGlobal(g.getInitializer(), globalAddr[&g]); }
    } catch (VcError &e) { fprintf(stderr, "irvc: global initialisation: %s\n", e.msg.c_str()); return 2; }
    gBrk = brk_; gObjs = objs; gInit.assign(initd.begin(), initd.begin() + gBrk); gBytes.assign((uint8_t *)ARENA, (uint8_t *)ARENA + gBrk);
    os << "[";
    bool firstH = true; int rc = 0;
    for (auto &F : *M) {
        if (F.isDeclaration() || !F.getName().starts_with("H_")) continue;
        if (!only.empty() && F.getName() != only) continue;
        auto t0 = std::chrono::steady_clock::now();
        terms.clear(); termTab.clear(); closedMemo.clear(); entered.clear(); externsUsed.clear(); prefix_.clear(); steps = 0;
        std::vector<std::string> paths; std::string error; int np = 0;
        for (;;) {
            // fresh machine state
            brk_ = gBrk; objs = gObjs; shadow.clear(); std::fill(initd.begin(), initd.begin() + std::min<u64>(brkHigh, initd.size()), 0); std::copy(gInit.begin(), gInit.end(), initd.begin()); memcpy((void *)ARENA, gBytes.data(), gBrk); brkHigh = gBrk;
            events.clear(); known.clear(); dirs.clear(); nameUse.clear(); ctxLabels.clear(); callStack.clear(); dpos = 0; numFails = 0;
            std::string end = "return", msg;
            try { std::vector<Val> a; call(&F, a, nullptr); }
            catch (PathEnd &e) { end = e.kind; msg = e.msg; if (msg.find(" in ") == std::string::npos) msg += ", in " + where(); }
            catch (VcError &e) { error = e.msg + " [" + where() + "]"; }
            if (!error.empty()) break;
            std::string s = "{\"end\":" + jstr(end) + ",\"msg\":" + jstr(msg) + ",\"events\":["; for (size_t i = 0; i < events.size(); ++i) s += (i ? "," : "") + events[i]; s += "]}"; paths.push_back(s);
            if (++np >= maxPaths) { error = "too many paths"; break; }
            prefix_.resize(dpos); while (!prefix_.empty() && !prefix_.back()) prefix_.pop_back(); if (prefix_.empty()) break; prefix_.back() = false;
        }
        double ms = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        os << (firstH ? "\n" : ",\n"); firstH = false;
        os << "{\"harness\":" << jstr(F.getName().str()) << ",\"error\":" << jstr(error) << ",\"steps\":" << steps << ",\"seconds\":" << ms << ",\n\"terms\":[";
        if (error.empty()) for (size_t i = 0; i < terms.size(); ++i) { auto &t = terms[i]; char b[64]; os << (i ? "," : ""); if (t.op == CST) { snprintf(b, 64, "%a", t.c); os << "[\"cst\",\"" << b << "\"]"; } else if (t.op == VAR) os << "[\"var\"," << jstr(t.name) << "]"; else if (t.op == ADD || t.op == SUB || t.op == MUL || t.op == DIV || t.op == ATAN2) os << "[\"" << opn[t.op] << "\"," << t.a << "," << t.b << "]"; else os << "[\"" << opn[t.op] << "\"," << t.a << "]"; }
        os << "],\n\"paths\":["; if (error.empty()) for (size_t i = 0; i < paths.size(); ++i) os << (i ? ",\n" : "") << paths[i];
        os << "],\n\"functions\":["; bool ff = true; for (auto &e : entered) { os << (ff ? "" : ",") << jstr(demangle(e)); ff = false; } os << "],\"externs\":["; ff = true; for (auto &e : externsUsed) { os << (ff ? "" : ",") << jstr(e); ff = false; } os << "]}";
        if (!error.empty()) rc = 3;
    }
    os << "\n]\n";
    return rc;
}
