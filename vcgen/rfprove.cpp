// rfprove: discharges the verification conditions written by irvc.
//   eq    : exact rational-function normal forms modulo the algebraic relations of the atoms (no floating point)
//   near  : interval bound of the normal form of (difference / tolerance), trigonometric atoms replaced by Taylor
//           polynomials with Lagrange remainders
//   le/lt, definedness, infeasible paths : interval arithmetic, then z3 / cvc5 (nonlinear real arithmetic)
// A goal that is not discharged is searched for a numeric counterexample (long double evaluation of the term graph).
#include "rf.hpp"
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
namespace J = llvm::json;
typedef long double LD;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- input
enum Op { VAR, CST, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, ACOS, ASIN, ATAN, ATAN2, TAN, EXP, LOG, UF };
static std::map<std::string, Op> opMap = {{"var", VAR}, {"cst", CST}, {"add", ADD}, {"sub", SUB}, {"mul", MUL}, {"div", DIV}, {"neg", NEG}, {"sqrt", SQRT}, {"sin", SIN}, {"cos", COS}, {"acos", ACOS}, {"asin", ASIN}, {"atan", ATAN}, {"atan2", ATAN2}, {"tan", TAN}, {"exp", EXP}, {"log", LOG}, {"uf", UF}};
struct Term { Op op; u32 a = 0, b = 0; double c = 0; std::string name; };
static std::vector<Term> T;
struct Rel { std::string rel; u32 a, b; bool assume; };
struct Goal { std::string kind, label, msg; u32 a = 0, b = 0, c = 0; size_t nrel; };
struct Path { std::string end, msg; std::vector<std::pair<std::string, u32>> vars; std::vector<std::vector<u32>> units; std::vector<Rel> rels; std::vector<Goal> goals; std::vector<std::pair<std::string, u32>> hints; };

// ---------------------------------------------------------------- interval
struct Iv { double lo, hi; };
static const double INF = INFINITY;
static double dn(double x) { return x == 0 || !std::isfinite(x) ? x : std::nextafter(x, -INF); }
static double up(double x) { return x == 0 || !std::isfinite(x) ? x : std::nextafter(x, INF); }
static Iv iadd(Iv a, Iv b) { return {dn(a.lo + b.lo), up(a.hi + b.hi)}; }
static double m0(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
static Iv imul(Iv a, Iv b) { double p[4] = {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)}; return {dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4))}; }
static Iv ipow(Iv a, int e) { if (e == 0) return {1, 1}; if (e == 1) return a; Iv m; if (e % 2 == 0) { double l = std::min(std::fabs(a.lo), std::fabs(a.hi)), h = std::max(std::fabs(a.lo), std::fabs(a.hi)); if (a.lo <= 0 && a.hi >= 0) l = 0; m = {l, h}; } else m = a; Iv r = {1, 1}; if (e % 2 == 0) { for (int i = 0; i < e; ++i) r = imul(r, m); return r; } r = ipow(a, e - 1); return imul(r, a); }
static Iv iinv(Iv a) { if (a.lo > 0 || a.hi < 0) return {dn(1 / a.hi), up(1 / a.lo)}; return {-INF, INF}; }

// ---------------------------------------------------------------- atoms and context
enum AK { A_VAR, A_SQRT, A_TRIG, A_ANG, A_PI, A_REM, A_FN };
struct Atom { AK kind; std::string name; bool alg = false; Poly sq; Iv iv{-INF, INF}; };
struct RF { Poly n; std::vector<std::pair<int, int>> d; };
struct Restart {};
struct Undefined { std::string what; };
static std::vector<Atom> atoms;
static std::vector<Poly> fac; static std::vector<int> facAtom;
struct Hyp { Poly p; int rel; };  // rel: 1 p>0, 2 p>=0, 3 p==0, 4 p!=0
static std::vector<Hyp> hyps;
static bool taylor = false;
static std::map<std::string, int> baseDen;         // survives restarts
static std::map<u32, int> substZero;               // variables forced to zero by an equality, survives restarts
static std::map<u32, u32> substVar;                // variable -> variable
static std::vector<int> decisions; static size_t decPos;
static double deadline = 0;
struct Base { std::string key; RF g; int D; RF c, s; Iv iv; int ca = -1, sa = -1; unsigned facts = 0; };
static std::vector<Base> bases;
static std::map<std::string, int> baseIdx;
struct Ang { u32 atom; RF c, s; };
static std::vector<Ang> angs;
static std::vector<std::unique_ptr<RF>> memo;
static std::map<std::string, u32> sqrtTab;
static std::vector<std::pair<Poly, std::string>> defOb;  // polynomials that must be nonzero
static std::vector<std::pair<Poly, std::string>> defNonneg;
static int piAtom = -1;
static u64 z3Calls = 0; static double z3Time = 0; static u64 cntNF = 0;

static u32 newAtom(AK k, const std::string &n, Iv iv) { atoms.push_back(Atom{k, n, false, {}, iv}); if (atoms.size() > 60000) throw Limit{"atoms"}; return atoms.size() - 1; }
static Poly patom(u32 a) { return {{mono(MonoV{{(uint16_t)a, 1}}), Num(1)}}; }
static std::string pstr(const Poly &p) { std::vector<std::pair<u32, Num>> v(p.begin(), p.end()); std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return mcmp(x.first, y.first) > 0; }); std::string s; for (auto &t : v) { s += (s.empty() ? "" : " + ") + t.second.str(); for (auto &m : monos[t.first]) s += "*" + atoms[m.first].name + (m.second > 1 ? "^" + std::to_string(m.second) : ""); } return s.empty() ? "0" : s; }
static std::string pkey(const Poly &p) { std::string s; for (auto &t : p) s += std::to_string(t.first) + ":" + t.second.str() + ";"; return s; }

static Poly preduce(Poly p) {
    bool dirty = false;
    for (auto &t : p) { for (auto &m : monos[t.first]) if (m.second >= 2 && atoms[m.first].alg) { dirty = true; break; } if (dirty) break; }
    if (!dirty) return p;
    std::vector<std::pair<u32, Num>> clean; std::map<std::pair<u32, int>, std::vector<std::pair<u32, Num>>> groups;
    for (auto &t : p) {
        int idx = -1; const MonoV mv = monos[t.first];
        for (size_t i = 0; i < mv.size(); ++i) if (mv[i].second >= 2 && atoms[mv[i].first].alg) { idx = i; break; }
        if (idx < 0) { clean.push_back(t); continue; }
        int e = mv[idx].second; u32 a = mv[idx].first; MonoV r = mv; if (e % 2) r[idx].second = 1; else r.erase(r.begin() + idx);
        groups[{a, e / 2}].push_back({mono(r), t.second});
    }
    Poly acc(clean.begin(), clean.end());
    std::sort(acc.begin(), acc.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (auto &g : groups) { Poly q = pcollect(g.second); Poly pw = pconst(1); for (int i = 0; i < g.first.second; ++i) pw = pmul(pw, atoms[g.first.first].sq); acc = padd(acc, preduce(pmulRaw(q, pw))); if (acc.size() > polyLimit) throw Limit{"polynomial size"}; }
    return preduce(acc);
}
static Iv pIv(const Poly &p) { Iv r{0, 0}; for (auto &t : p) { double c = t.second.dbl(); Iv v{dn(c), up(c)}; if (t.second.d == 1 && !t.second.p && std::llabs(t.second.n) < (1ll << 52)) v = {c, c}; for (auto &m : monos[t.first]) v = imul(v, ipow(atoms[m.first].iv, m.second)); r = iadd(r, v); } return r; }
static bool hasAlg(const Poly &p, u32 *which = nullptr) { bool f = false; u32 best = 0; for (auto &t : p) for (auto &m : monos[t.first]) if (atoms[m.first].alg) { f = true; best = std::max(best, (u32)m.first); } if (which) *which = best; return f; }

// ---------------------------------------------------------------- SMT back end
static std::string smtNum(const Num &c) { mpq_class q = c.q(); bool neg = q < 0; if (neg) q = -q; std::string s = q.get_den() == 1 ? q.get_num().get_str() + ".0" : "(/ " + q.get_num().get_str() + ".0 " + q.get_den().get_str() + ".0)"; return neg ? "(- " + s + ")" : s; }
static std::string smtPoly(const Poly &p) { if (p.empty()) return "0.0"; std::string s; for (auto &t : p) { std::string m = smtNum(t.second); std::string fs; for (auto &x : monos[t.first]) for (int i = 0; i < x.second; ++i) fs += " a" + std::to_string(x.first); if (!fs.empty()) m = t.second.one() ? (monos[t.first].size() == 1 && monos[t.first][0].second == 1 ? fs.substr(1) : "(*" + fs + ")") : "(* " + m + fs + ")"; s += " " + m; } return p.size() == 1 ? s.substr(1) : "(+" + s + ")"; }
static std::string smtDouble(double d) { char b[64]; mpq_class q(d); Num n = Num::fromQ(q); (void)b; return smtNum(n); }
static void collectAtoms(const Poly &p, std::set<u32> &s) { std::vector<u32> st; for (auto &t : p) for (auto &m : monos[t.first]) if (s.insert(m.first).second) st.push_back(m.first); for (u32 a : st) if (atoms[a].alg) collectAtoms(atoms[a].sq, s); }
static std::vector<std::pair<u32, Poly>> unitRels;
static std::string runSolver(const std::string &cmd, const std::string &q) {
    char fn[64]; snprintf(fn, 64, "/tmp/rfp%d_XXXXXX", getpid()); int fd = mkstemp(fn); if (fd < 0) return "unknown"; (void)!write(fd, q.data(), q.size()); close(fd);
    FILE *f = popen((cmd + " " + fn + " 2>/dev/null").c_str(), "r"); std::string o; char buf[256]; while (f && fgets(buf, 256, f)) o += buf; if (f) pclose(f); unlink(fn);
    return o.substr(0, o.find('\n'));
}
static double smtTimeout = 4;
// true if (hyps and extra) is unsatisfiable
static std::map<std::string, bool> smtCache;
static u64 linCalls = 0;
// linear relaxation: every monomial an independent real (with the interval of the monomial)
static std::map<std::string, bool> linCache;
static bool linUnsat(const std::vector<Hyp> &extra) {
    std::vector<const Hyp *> hs; for (auto &h : extra) hs.push_back(&h); for (auto &h : hyps) if (h.p.size() <= 1500) hs.push_back(&h);
    std::set<u32> ms; for (auto *h : hs) for (auto &t : h->p) if (t.first) ms.insert(t.first);
    std::string q = "(set-logic QF_LRA)\n"; for (u32 m : ms) { std::string v = "m" + std::to_string(m); q += "(declare-fun " + v + " () Real)\n"; Iv iv{1, 1}; for (auto &x : monos[m]) iv = imul(iv, ipow(atoms[x.first].iv, x.second)); if (std::isfinite(iv.lo)) q += "(assert (>= " + v + " " + smtDouble(iv.lo) + "))\n"; if (std::isfinite(iv.hi)) q += "(assert (<= " + v + " " + smtDouble(iv.hi) + "))\n"; }
    static const char *rn[] = {"", ">", ">=", "=", ""};
    for (auto *h : hs) { std::string s; for (auto &t : h->p) s += " " + (t.first == 0 ? smtNum(t.second) : "(* " + smtNum(t.second) + " m" + std::to_string(t.first) + ")"); if (h->p.empty()) s = " 0.0"; s = "(+ 0.0" + s + ")"; if (h->rel == 4) q += "(assert (not (= " + s + " 0.0)))\n"; else q += "(assert (" + std::string(rn[h->rel]) + " " + s + " 0.0))\n"; }
    q += "(check-sat)\n"; if (q.size() > 3000000) return false; auto it = linCache.find(q); if (it != linCache.end()) return it->second;
    double t0 = now(); ++z3Calls; ++linCalls; std::string r = runSolver("z3 -smt2 -T:3", q); z3Time += now() - t0; return linCache[q] = (r == "unsat");
}
static bool smtUnsat(const std::vector<Hyp> &extra, bool useHyps = true) {
    double t0 = now(); if (deadline && t0 > deadline) return false;
    if (useHyps && linUnsat(extra)) return true;
    std::set<u32> as; for (auto &h : extra) collectAtoms(h.p, as);
    std::vector<const Hyp *> hs; for (auto &h : extra) hs.push_back(&h);
    if (useHyps) for (auto &h : hyps) { if (h.p.size() > 400) continue; hs.push_back(&h); collectAtoms(h.p, as); }
    std::string q = "(set-logic QF_NRA)\n"; for (u32 a : as) q += "(declare-fun a" + std::to_string(a) + " () Real)\n";
    for (u32 a : as) { auto &A = atoms[a]; if (A.alg) { if (A.sq.size() > 400) continue; q += "(assert (= (* a" + std::to_string(a) + " a" + std::to_string(a) + ") " + smtPoly(A.sq) + "))\n"; } if (std::isfinite(A.iv.lo)) q += "(assert (>= a" + std::to_string(a) + " " + smtDouble(A.iv.lo) + "))\n"; if (std::isfinite(A.iv.hi)) q += "(assert (<= a" + std::to_string(a) + " " + smtDouble(A.iv.hi) + "))\n"; }
    static const char *rn[] = {"", ">", ">=", "=", ""};
    for (auto *h : hs) { if (h->rel == 4) q += "(assert (not (= " + smtPoly(h->p) + " 0.0)))\n"; else q += "(assert (" + std::string(rn[h->rel]) + " " + smtPoly(h->p) + " 0.0))\n"; }
    q += "(check-sat)\n"; if (q.size() > 400000) return false;
    auto it = smtCache.find(q); if (it != smtCache.end()) return it->second;
    ++z3Calls; char c[64]; snprintf(c, 64, "z3 -smt2 -T:%d", (int)std::ceil(smtTimeout));
    std::string r = runSolver(c, q);
    if (r != "unsat" && r != "sat") { snprintf(c, 64, "cvc5 -q --lang=smt2 --tlimit=%d", (int)(smtTimeout * 1000)); r = runSolver(c, q); }
    if (getenv("RFP_DBG")) { fprintf(stderr, "SMT %s %.1fs size %zu extra:", r.c_str(), now() - t0, q.size()); for (auto &h : extra) fprintf(stderr, " [%d] %s", h.rel, pstr(h.p).substr(0, 200).c_str()); fprintf(stderr, "\n"); }
    z3Time += now() - t0; return smtCache[q] = (r == "unsat");
}

// ---------------------------------------------------------------- signs
static std::map<std::string, int> signCache;
enum Sg { S_UNK = 0, S_POS = 1, S_NN = 2, S_NEG = -1, S_NP = -2, S_ZERO = 9 };
static bool prop(const Poly &p, const Poly &q, Num &k) {  // p = k q
    if (p.size() != q.size() || p.empty()) return false; k = nmul(p[0].second, ninv(q[0].second)); for (size_t i = 0; i < p.size(); ++i) if (p[i].first != q[i].first || !(p[i].second == nmul(k, q[i].second))) return false; return true; }
static Sg signQuick(const Poly &p) {
    if (p.empty()) return S_ZERO;
    Iv v = pIv(p); if (v.lo > 0) return S_POS; if (v.hi < 0) return S_NEG;
    Sg res = S_UNK; if (v.lo >= 0) res = S_NN; else if (v.hi <= 0) res = S_NP;
    for (auto &h : hyps) { Num k; if ((h.rel == 1 || h.rel == 2 || h.rel == 3) && prop(p, h.p, k)) { if (h.rel == 3) return S_ZERO; int s = k.sgn(); if (h.rel == 1) return s > 0 ? S_POS : S_NEG; res = s > 0 ? S_NN : S_NP; } }
    // single monomial with atoms of known sign
    if (p.size() == 1) { int s = p[0].second.sgn(); bool strict = true, ok = true; for (auto &m : monos[p[0].first]) { Iv a = atoms[m.first].iv; bool nz = a.lo > 0 || a.hi < 0; if (!nz) { Poly ap = patom(m.first); for (auto &h : hyps) { Num k; if ((h.rel == 4 || h.rel == 1) && prop(ap, h.p, k)) { nz = true; if (h.rel == 1) { if (k.sgn() > 0) a.lo = std::max(a.lo, 0.0); else a.hi = std::min(a.hi, 0.0); } } else if (h.rel == 2 && prop(ap, h.p, k)) { if (k.sgn() > 0) a.lo = std::max(a.lo, 0.0); else a.hi = std::min(a.hi, 0.0); } } } if (m.second % 2) { if (a.lo >= 0) {} else if (a.hi <= 0) s = -s; else ok = false; } if (!nz) strict = false; } if (ok) return s > 0 ? (strict ? S_POS : S_NN) : (strict ? S_NEG : S_NP); }
    // p = k*h + c
    for (auto &h : hyps) if ((h.rel == 1 || h.rel == 2) && h.p.size() <= p.size() + 1 && p.size() <= h.p.size() + 1) {
        Poly d; Num k; bool found = false; for (auto &t : p) { if (t.first == 0) continue; for (auto &u : h.p) if (u.first == t.first) { k = nmul(t.second, ninv(u.second)); found = true; break; } break; }
        if (!found) continue; d = padd(p, pneg(pscale(h.p, k))); if (!pisConst(d)) continue; int s = k.sgn(), c = pconstVal(d).sgn();
        if (s > 0 && c > 0) return S_POS; if (s > 0 && c == 0) return h.rel == 1 ? S_POS : S_NN; if (s < 0 && c < 0) return S_NEG; if (s < 0 && c == 0) return h.rel == 1 ? S_NEG : S_NP; }
    return res;
}
// a square root of something provably positive is positive (recorded as a hypothesis)
static std::set<u32> sqrtTried;
static void refineSqrt(const Poly &p) {
    for (auto &t : p) for (auto &m : monos[t.first]) { u32 a = m.first; if (atoms[a].kind != A_SQRT || !atoms[a].alg || !sqrtTried.insert(a).second) continue; Poly sq = atoms[a].sq; Sg s = signQuick(sq); if (s == S_POS || (s != S_NEG && s != S_NP && s != S_ZERO && linUnsat({{pneg(sq), 2}}))) hyps.push_back({patom(a), 1}); }
}
static Sg sign(const Poly &p) {
    refineSqrt(p);
    Sg s = signQuick(p); if (s == S_POS || s == S_NEG || s == S_ZERO) return s;
    // strip factor structure: common monomial
    if (p.size() > 1) {
        MonoV common = monos[p[0].first]; for (auto &t : p) { MonoV r; for (auto &c : common) for (auto &m : monos[t.first]) if (m.first == c.first) r.push_back({c.first, std::min(c.second, m.second)}); common = r; }
        if (!common.empty()) { u32 cm = mono(common); Poly q; for (auto &t : p) { u32 o; mdiv(t.first, cm, o); q.push_back({o, t.second}); } std::sort(q.begin(), q.end(), [](auto &x, auto &y) { return x.first < y.first; }); Sg a = sign({{cm, Num(1)}}), b = sign(q); if (a && b && a != S_ZERO && b != S_ZERO) { int sg = ((a > 0) == (b > 0)) ? 1 : -1; bool st = std::abs(a) == 1 && std::abs(b) == 1; return (Sg)(sg * (st ? 1 : 2)); } }
    }
    std::string k = pkey(p); auto it = signCache.find(k); if (it != signCache.end()) return (Sg)it->second;
    Sg r = s;
    if (p.size() <= 60) {
        if (s == S_UNK || s == S_NN) { if (smtUnsat({{pneg(p), 2}})) r = S_POS; else if (s == S_UNK && smtUnsat({{pneg(p), 1}})) r = S_NN; }
        if (r == S_UNK || s == S_NP) { if (smtUnsat({{p, 2}})) r = S_NEG; else if (s == S_UNK && smtUnsat({{p, 1}})) r = S_NP; }
    }
    signCache[k] = r; return r;
}
static bool decide() { int r; if (decPos < decisions.size()) r = decisions[decPos]; else { r = 1; decisions.push_back(1); if (decisions.size() > 12) throw Limit{"too many sign cases"}; } ++decPos; return r; }
static Poly pabs(const Poly &p) {
    Sg s = sign(p); if (s == S_POS || s == S_NN || s == S_ZERO) return p; if (s == S_NEG || s == S_NP) return pneg(p);
    if (decide()) { hyps.push_back({p, 2}); signCache.clear(); return p; } hyps.push_back({pneg(p), 2}); signCache.clear(); return pneg(p);
}

// ---------------------------------------------------------------- rational functions
static int factorId(const Poly &f) {  // f monic
    for (size_t i = 0; i < fac.size(); ++i) if (fac[i] == f) return i;
    fac.push_back(f); int at = -1; if (f.size() == 1 && monos[f[0].first].size() == 1 && monos[f[0].first][0].second == 1) at = monos[f[0].first][0].first; facAtom.push_back(at); return fac.size() - 1;
}
static RF rc(const Num &c) { return RF{pconst(c), {}}; }
static RF rp(const Poly &p) { return RF{p, {}}; }
static bool rzero(const RF &a) { return a.n.empty(); }
static bool rconst(const RF &a) { return a.d.empty() && pisConst(a.n); }
static void cancel(RF &x) {
    if (x.n.empty()) { x.d.clear(); return; }
    for (auto &f : x.d) {
        if (facAtom[f.first] >= 0) {
            u32 a = facAtom[f.first]; int mn = f.second; for (auto &t : x.n) { int e = 0; for (auto &m : monos[t.first]) if (m.first == a) e = m.second; mn = std::min(mn, e); if (!mn) break; }
            if (mn) { u32 dm = mono(MonoV{{(uint16_t)a, (uint16_t)mn}}); Poly q; for (auto &t : x.n) { u32 o; mdiv(t.first, dm, o); q.push_back({o, t.second}); } std::sort(q.begin(), q.end(), [](auto &u, auto &v) { return u.first < v.first; }); x.n = q; f.second -= mn; }
        } else { Poly q; while (f.second > 0 && x.n.size() < 20000 && pexactDiv(x.n, fac[f.first], q)) { x.n = q; --f.second; } }
    }
    x.d.erase(std::remove_if(x.d.begin(), x.d.end(), [](auto &f) { return f.second == 0; }), x.d.end());
}
static Poly facPow(int f, int e) { return ppow(fac[f], e); }
static RF radd(const RF &a, const RF &b, bool sub = false) {
    if (a.n.empty()) { RF r = b; if (sub) r.n = pneg(r.n); return r; } if (b.n.empty()) return a;
    Poly bn = sub ? pneg(b.n) : b.n;
    if (a.d == b.d) { RF r{padd(a.n, bn), a.d}; if (!r.d.empty()) cancel(r); return r; }
    Poly an = a.n; std::vector<std::pair<int, int>> d; size_t i = 0, j = 0;
    while (i < a.d.size() || j < b.d.size()) {
        if (j == b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) { bn = pmul(bn, facPow(a.d[i].first, a.d[i].second)); d.push_back(a.d[i++]); }
        else if (i == a.d.size() || b.d[j].first < a.d[i].first) { an = pmul(an, facPow(b.d[j].first, b.d[j].second)); d.push_back(b.d[j++]); }
        else { int e = std::max(a.d[i].second, b.d[j].second); if (e > a.d[i].second) an = pmul(an, facPow(a.d[i].first, e - a.d[i].second)); if (e > b.d[j].second) bn = pmul(bn, facPow(b.d[j].first, e - b.d[j].second)); d.push_back({a.d[i].first, e}); ++i; ++j; }
    }
    RF r{padd(an, bn), d}; cancel(r); return r;
}
static RF rneg(const RF &a) { return RF{pneg(a.n), a.d}; }
static RF rmul(const RF &a, const RF &b) {
    if (a.n.empty() || b.n.empty()) return RF{};
    std::vector<std::pair<int, int>> d; size_t i = 0, j = 0;
    while (i < a.d.size() || j < b.d.size()) { if (j == b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) d.push_back(a.d[i++]); else if (i == a.d.size() || b.d[j].first < a.d[i].first) d.push_back(b.d[j++]); else { d.push_back({a.d[i].first, a.d[i].second + b.d[j].second}); ++i; ++j; } }
    RF r{{}, d};
    if (!d.empty()) {  // cross-cancel before multiplying
        RF x{a.n, b.d}, y{b.n, a.d}; cancel(x); cancel(y); r.n = pmul(x.n, y.n); d.clear(); i = j = 0;
        while (i < x.d.size() || j < y.d.size()) { if (j == y.d.size() || (i < x.d.size() && x.d[i].first < y.d[j].first)) d.push_back(x.d[i++]); else if (i == x.d.size() || y.d[j].first < x.d[i].first) d.push_back(y.d[j++]); else { d.push_back({x.d[i].first, x.d[i].second + y.d[j].second}); ++i; ++j; } }
        r.d = d; cancel(r);
    } else r.n = pmul(a.n, b.n);
    return r;
}
struct Dec { Num c{1}; std::map<int, int> f; Poly mult = pconst(1); };
static bool psqrt(const Poly &p, Poly &root);
static void decompose(Poly P, Dec &D, int depth = 0) {
    if (P.empty()) throw Undefined{"division by zero"};
    size_t li = leadIdx(P); Num c = P[li].second; D.c = nmul(D.c, c); P = pscale(P, ninv(c));
    MonoV common = monos[P[0].first]; for (auto &t : P) { MonoV r; for (auto &x : common) for (auto &m : monos[t.first]) if (m.first == x.first) r.push_back({x.first, std::min(x.second, m.second)}); common = r; if (common.empty()) break; }
    if (!common.empty()) {
        u32 cm = mono(common); Poly q; for (auto &t : P) { u32 o; mdiv(t.first, cm, o); q.push_back({o, t.second}); } std::sort(q.begin(), q.end(), [](auto &u, auto &v) { return u.first < v.first; }); P = q;
        for (auto &m : common) { if (atoms[m.first].alg && !atoms[m.first].sq.empty()) { for (int i = 0; i < m.second; ++i) { D.mult = pmul(D.mult, patom(m.first)); decompose(atoms[m.first].sq, D, depth + 1); } } else D.f[factorId(patom(m.first))] += m.second; }
    }
    if (pisConst(P)) { D.c = nmul(D.c, pconstVal(P)); return; }
    u32 al;
    if (hasAlg(P, &al) && depth < 8 && P.size() <= 80) {
        Poly A, B; for (auto &t : P) { u32 o; if (mdiv(t.first, mono(MonoV{{(uint16_t)al, 1}}), o)) B.push_back({o, t.second}); else A.push_back(t); }
        std::sort(B.begin(), B.end(), [](auto &u, auto &v) { return u.first < v.first; });
        Poly N = padd(pmul(A, A), pneg(pmul(atoms[al].sq, pmul(B, B))));
        if (!N.empty() && N.size() <= 400) { D.mult = pmul(D.mult, padd(A, pneg(pmul(B, patom(al))))); decompose(N, D, depth + 1); return; }
    }
    for (size_t i = 0; i < fac.size(); ++i) if (facAtom[i] < 0) { Poly q; while (P.size() >= fac[i].size() && pexactDiv(P, fac[i], q)) { P = q; D.f[i]++; if (pisConst(P)) { D.c = nmul(D.c, pconstVal(P)); return; } } }
    Poly root; if (P.size() <= 200 && psqrt(P, root)) { Num c2 = root[leadIdx(root)].second; D.c = nmul(D.c, nmul(c2, c2)); D.f[factorId(pscale(root, ninv(c2)))] += 2; return; }
    Num c3 = P[leadIdx(P)].second; D.c = nmul(D.c, c3); D.f[factorId(pscale(P, ninv(c3)))]++;
}
static RF rinv(const RF &a) {
    Dec D; decompose(a.n, D);
    RF r; r.n = pscale(D.mult, ninv(D.c)); for (auto &f : D.f) r.d.push_back(f); cancel(r);
    RF m = rc(1); for (auto &f : a.d) m.n = pmul(m.n, facPow(f.first, f.second));
    return rmul(r, m);
}
static std::string rkey(const RF &a) { std::string s = pkey(a.n); for (auto &f : a.d) s += "/" + std::to_string(f.first) + "^" + std::to_string(f.second); return s; }
static std::string rstr(const RF &a) { std::string s = pstr(a.n); if (a.d.empty()) return s; s = "(" + s + ")"; for (auto &f : a.d) s += "/(" + pstr(fac[f.first]) + ")^" + std::to_string(f.second); return s; }
static bool req(const RF &a, const RF &b) { return rzero(radd(a, b, true)); }
static Iv rIv(const RF &a) { Iv v = pIv(a.n); for (auto &f : a.d) v = imul(v, iinv(ipow(pIv(fac[f.first]), f.second))); return v; }
// polynomial square root (leading-term algorithm) in the free ring
static bool psqrt(const Poly &p, Poly &root) {
    if (p.empty()) { root = {}; return true; }
    auto sqn = [](const Num &c, Num &o) { if (c.sgn() < 0) return false; mpq_class q = c.q(); if (!mpz_perfect_square_p(q.get_num_mpz_t()) || !mpz_perfect_square_p(q.get_den_mpz_t())) return false; o = Num::fromQ(mpq_class(sqrt(q.get_num()), sqrt(q.get_den()))); return true; };
    auto sqm = [](u32 m, u32 &o) { MonoV r; for (auto &x : monos[m]) { if (x.second % 2) return false; r.push_back({x.first, (uint16_t)(x.second / 2)}); } o = mono(r); return true; };
    size_t l = leadIdx(p); Num c; u32 m; if (!sqn(p[l].second, c) || !sqm(p[l].first, m)) return false;
    Poly r{{m, c}}; Poly rest = padd(p, pneg(pmulRaw(r, r))); Num inv2c = ninv(nmul(Num(2), c));
    for (int it = 0; it < 300 && !rest.empty(); ++it) { size_t k = leadIdx(rest); u32 o; if (!mdiv(rest[k].first, m, o)) return false; Poly t{{o, nmul(rest[k].second, inv2c)}}; if (mcmp(o, m) >= 0) return false; rest = padd(rest, pneg(padd(pscale(pmulRaw(r, t), Num(2)), pmulRaw(t, t)))); r = padd(r, t); if (r.size() > 100) return false; }
    if (!rest.empty()) return false; root = r; return true;
}
static RF rsqrt(const RF &e) {
    if (rzero(e)) return e;
    Poly N = e.n; RF out = rc(1); Poly outDen = pconst(1);
    std::vector<std::pair<int, int>> den;
    for (auto &f : e.d) { if (f.second % 2) N = pmul(N, fac[f.first]); den.push_back({f.first, (f.second + 1) / 2}); }
    // content
    Num c = N[leadIdx(N)].second; Poly P = pscale(N, ninv(c)); if (c.sgn() < 0) { c = nneg(c); P = pneg(P); }
    mpq_class q = c.q(); mpz_class k = q.get_num() * q.get_den(), sq = 1; Num outc;
    for (unsigned long pr : {2ul, 3ul, 5ul, 7ul, 11ul, 13ul}) { mpz_class p2 = mpz_class(pr) * pr; while (mpz_divisible_p(k.get_mpz_t(), p2.get_mpz_t())) { k /= p2; sq *= pr; } }
    if (mpz_perfect_square_p(k.get_mpz_t())) { sq *= sqrt(k); k = 1; }
    outc = Num::fromQ(mpq_class(sq, q.get_den()));
    { mpq_class z(sq, q.get_den()); z.canonicalize(); outc = Num::fromQ(z); }
    // common monomial, even parts
    MonoV common = monos[P[0].first]; for (auto &t : P) { MonoV r; for (auto &x : common) for (auto &m : monos[t.first]) if (m.first == x.first) r.push_back({x.first, std::min(x.second, m.second)}); common = r; if (common.empty()) break; }
    Poly pulled = pconst(1);
    MonoV even; for (auto &m : common) if (m.second >= 2) even.push_back({m.first, (uint16_t)(m.second / 2 * 2)});
    if (!even.empty()) { u32 em = mono(even); Poly qq; for (auto &t : P) { u32 o; mdiv(t.first, em, o); qq.push_back({o, t.second}); } std::sort(qq.begin(), qq.end(), [](auto &u, auto &v) { return u.first < v.first; }); P = qq; for (auto &m : even) { int h = m.second / 2; pulled = pmul(pulled, (h % 2) ? pmul(ppow(patom(m.first), h - 1), pabs(patom(m.first))) : ppow(patom(m.first), h)); } }
    // squares of known algebraic atoms, squares of known factors
    for (bool again = true; again && !pisConst(P);) {
        again = false;
        for (size_t a = 0; a < atoms.size() && !again; ++a) if (atoms[a].alg && !pisConst(atoms[a].sq)) { Poly qq; if (atoms[a].sq.size() <= P.size() && pexactDiv(P, atoms[a].sq, qq)) { P = qq; pulled = pmul(pulled, pabs(patom(a))); again = true; } }
        for (size_t i = 0; i < fac.size() && !again; ++i) if (facAtom[i] < 0) { Poly qq, q2; if (pexactDiv(P, fac[i], qq) && pexactDiv(qq, fac[i], q2)) { P = q2; pulled = pmul(pulled, pabs(fac[i])); again = true; } }
    }
    if (pisConst(P)) { Num pc = pconstVal(P); if (pc.sgn() < 0) throw Undefined{"square root of a negative number"}; if (!pc.one()) { RF inner = rsqrt(rc(pc)); out = inner; } P = pconst(1); }
    else { Poly root; if (psqrt(P, root)) { pulled = pmul(pulled, pabs(root)); P = pconst(1); } }
    if (!(k == 1)) { P = pscale(P, Num::fromQ(mpq_class(k))); }
    Poly res = pscale(pulled, outc);
    if (!(pisConst(P) && pconstVal(P).one())) {
        std::string key = pkey(P); auto it = sqrtTab.find(key); u32 at;
        if (it != sqrtTab.end()) at = it->second;
        else { Iv v = pIv(P); at = newAtom(A_SQRT, "sqrt" + std::to_string(sqrtTab.size()), Iv{v.lo > 0 ? dn(std::sqrt(v.lo)) : 0.0, std::isfinite(v.hi) ? up(std::sqrt(std::max(0.0, v.hi))) : INF}); atoms[at].alg = true; atoms[at].sq = P; sqrtTab[key] = at; defNonneg.push_back({P, "argument of a square root"}); }
        res = pmul(res, patom(at));
    }
    RF r = rmul(out, rp(res));
    for (auto &f : den) { Poly ab = facAtom[f.first] >= 0 || true ? pabs(fac[f.first]) : fac[f.first]; bool neg = !(ab == fac[f.first]); RF fi{pconst(1), {{f.first, f.second}}}; if (neg && f.second % 2) fi.n = pneg(fi.n); r = rmul(r, fi); }
    return r;
}

// ---------------------------------------------------------------- angles
static RF rPi() { if (piAtom < 0) { piAtom = newAtom(A_PI, "pi", Iv{3.141592653589793115997963, 3.14159265358979356}); } return rp(patom(piAtom)); }
static int remCount = 0;
struct Gen { std::string key; RF g; Num c; };
static std::vector<Gen> generators(const RF &x) { std::vector<Gen> v; for (auto &t : x.n) { Gen g; g.g = RF{{{t.first, Num(1)}}, x.d}; g.c = t.second; std::string mk; for (auto &m : monos[t.first]) mk += atoms[m.first].name + "^" + std::to_string(m.second) + "."; mk += "/"; for (auto &f : x.d) mk += pstr(fac[f.first]) + "^" + std::to_string(f.second); g.key = mk; v.push_back(g); } return v; }
static void taylorSC(const RF &x, RF &c, RF &s);
// sign facts about the sine and cosine of a base angle that follow from what is known about the angle
static void trigFacts(int bi) {
    Base &B = bases[bi]; if (B.ca < 0) return; Iv v = rIv(B.g); double lo = dn(v.lo / B.D), hi = up(v.hi / B.D); if (v.lo == 0) lo = 0; B.iv = Iv{lo, hi};
    bool simple = B.g.d.empty(); Sg gs = simple ? signQuick(B.g.n) : S_UNK; bool pos = lo > 0 || gs == S_POS, nn = pos || lo >= 0 || gs == S_NN;
    auto below = [&](int num, int den, bool strict, double bound) {  // angle < num*pi/den
        if (hi < bound) return true; if (piAtom < 0 || !simple) return false;
        Sg s = signQuick(padd(pscale(patom(piAtom), mkNum(num * B.D, den)), pneg(B.g.n))); return s == S_POS || (!strict && (s == S_NN || s == S_ZERO)); };
    auto fact = [&](int id, const Poly &p, int rel) { if (!(B.facts & (1u << id))) { B.facts |= 1u << id; hyps.push_back({p, rel}); signCache.clear(); } };
    const double PL = 3.1415926535897930, P2 = 1.5707963267948965, T2 = 6.2831853071795860;
    bool lePi = nn && below(1, 1, false, PL), ltPi = pos && below(1, 1, true, PL);
    if (lePi && atoms[B.sa].iv.lo < 0) atoms[B.sa].iv.lo = 0;
    if (ltPi) { fact(0, patom(B.sa), 1); fact(1, padd(pconst(1), patom(B.ca)), 1); }
    if (pos && below(2, 1, true, T2)) fact(2, padd(pconst(1), pneg(patom(B.ca))), 1);
    bool geM = nn || lo > -P2; if (geM && below(1, 2, false, P2)) { if (atoms[B.ca].iv.lo < 0) atoms[B.ca].iv.lo = 0; }
    if (geM && below(1, 2, true, P2)) fact(3, patom(B.ca), 1);
}
static int baseOf(const Gen &g, const Num &q, int &k) {
    mpq_class m = q.q(); long b = m.get_den().get_si(); if (b > 64 || b < 1) throw Limit{"angle denominator"};
    int &D = baseDen[g.key]; if (D == 0) D = b; else if (D % b) { D = D / gcd64(D, b) * b; throw Restart{}; }
    mpq_class kk = m * D; if (!kk.get_num().fits_sint_p() || std::labs(kk.get_num().get_si()) > 24) throw Limit{"angle multiple"}; k = kk.get_num().get_si();
    auto it = baseIdx.find(g.key); if (it != baseIdx.end()) return it->second;
    Base B; B.key = g.key; B.g = g.g; B.D = D; Iv v = rIv(g.g); B.iv = Iv{dn(v.lo / D), up(v.hi / D)}; if (v.lo == 0) B.iv.lo = 0;
    if (taylor && std::isfinite(B.iv.lo) && std::isfinite(B.iv.hi) && std::max(std::fabs(B.iv.lo), std::fabs(B.iv.hi)) < 0.25) { taylorSC(rmul(g.g, rc(ninv(Num(D)))), B.c, B.s); }
    else {
        const Ang *an = nullptr; if (g.g.d.empty() && g.g.n.size() == 1 && g.g.n[0].second.one() && monos[g.g.n[0].first].size() == 1 && monos[g.g.n[0].first][0].second == 1) for (auto &a : angs) if (a.atom == monos[g.g.n[0].first][0].first) an = &a;
        if (an && D == 1) { B.c = an->c; B.s = an->s; }
        else if (an && D == 2) {
            Ang A = *an; RF half = rc(ninv(Num(2))); B.c = rsqrt(rmul(half, radd(rc(1), A.c))); Iv av = atoms[A.atom].iv;
            RF sh = rsqrt(rmul(half, radd(rc(1), A.c, true))); if (av.lo >= 0) B.s = sh; else B.s = decide() ? sh : rneg(sh);
        }
        else if (piAtom >= 0 && g.g.d.empty() && g.g.n == patom(piAtom)) {
            if (D == 1) { B.c = rc(-1); B.s = rc(0); } else if (D == 2) { B.c = rc(0); B.s = rc(1); } else if (D == 4) { RF h = rsqrt(rc(ninv(Num(2)))); B.c = h; B.s = h; } else throw Limit{"angle pi fraction"};
        }
        else {
            double lo = B.iv.lo, hi = B.iv.hi; Iv ci{-1, 1}, si{-1, 1}; double pl = 3.141592653589793;
            if (lo >= 0 && hi <= 3.14159265358979356) si.lo = 0; if (lo >= -1.5707963267948966 && hi <= 1.5707963267948968) ci.lo = 0; (void)pl;
            u32 ca = newAtom(A_TRIG, "cos(" + g.key + "/" + std::to_string(D) + ")", ci), sa = newAtom(A_TRIG, "sin(" + g.key + "/" + std::to_string(D) + ")", si);
            atoms[sa].alg = true; atoms[sa].sq = padd(pconst(1), pneg(pmulRaw(patom(ca), patom(ca)))); B.c = rp(patom(ca)); B.s = rp(patom(sa));
            factorId(padd(patom(ca), pconst(-1))); factorId(padd(patom(ca), pconst(1)));
            B.ca = ca; B.sa = sa;
        }
    }
    bases.push_back(B); baseIdx[g.key] = bases.size() - 1; trigFacts(bases.size() - 1); return bases.size() - 1;
}
static void multAngle(const RF &c, const RF &s, int k, RF &C, RF &S) {
    bool neg = k < 0; k = std::abs(k); C = rc(1); S = rc(0);
    for (int i = 0; i < k; ++i) { RF nc = radd(rmul(C, c), rmul(S, s), true), ns = radd(rmul(S, c), rmul(C, s)); C = nc; S = ns; }
    if (neg) S = rneg(S);
}
static void sincos(const RF &x, RF &S, RF &C) {
    if (taylor && x.n.size() > 1) { Iv v = rIv(x); if (v.lo > -0.25 && v.hi < 0.25) { std::string key = "sum:" + rkey(x); auto it = baseIdx.find(key); if (it == baseIdx.end()) { Base B; B.key = key; B.g = x; B.D = 1; B.iv = v; taylorSC(x, B.c, B.s); bases.push_back(B); baseIdx[key] = bases.size() - 1; it = baseIdx.find(key); } C = bases[it->second].c; S = bases[it->second].s; return; } }
    S = rc(0); C = rc(1);
    for (auto &g : generators(x)) { if (g.g.d.empty() && g.g.n[0].first == 0) { // constant angle (radians)
            std::string nm = "angle(" + g.c.str() + ")"; double v = g.c.dbl(); RF cc, ss; std::string key = "const:" + g.c.str(); auto it = baseIdx.find(key);
            if (it == baseIdx.end()) { Base B; B.key = key; B.g = rc(g.c); B.D = 1; B.iv = {dn(v), up(v)}; u32 ca = newAtom(A_TRIG, "cos" + nm, {dn(dn(std::cos(v))), up(up(std::cos(v)))}), sa = newAtom(A_TRIG, "sin" + nm, {dn(dn(std::sin(v))), up(up(std::sin(v)))}); atoms[sa].alg = true; atoms[sa].sq = padd(pconst(1), pneg(pmulRaw(patom(ca), patom(ca)))); B.c = rp(patom(ca)); B.s = rp(patom(sa)); bases.push_back(B); baseIdx[key] = bases.size() - 1; it = baseIdx.find(key); }
            cc = bases[it->second].c; ss = bases[it->second].s; RF ns = radd(rmul(S, cc), rmul(C, ss)), nc = radd(rmul(C, cc), rmul(S, ss), true); S = ns; C = nc; continue; }
        int k; int b = baseOf(g, g.c, k); RF ck, sk; multAngle(bases[b].c, bases[b].s, k, ck, sk); RF ns = radd(rmul(S, ck), rmul(C, sk)), nc = radd(rmul(C, ck), rmul(S, sk), true); S = ns; C = nc; }
}
static bool within(const RF &x, double lo, double hi, bool piHi) {  // lo <= x <= hi ; piHi: upper limit is exactly pi
    Iv v = rIv(x); if (v.lo < lo) { if (!(lo == 0 && x.d.empty() && (signQuick(x.n) == S_POS || signQuick(x.n) == S_NN))) return false; }
    if (v.hi <= hi) return true;
    if (piHi && x.d.empty()) { rPi(); Sg s = sign(padd(patom(piAtom), pneg(x.n))); if (s == S_POS || s == S_NN || s == S_ZERO) return true; }
    return false;
}
static bool angleFromCos(const RF &e, RF &out) {
    for (size_t i = 0; i < bases.size(); ++i) for (int k : {1, 2, 3, 4, 6, 8}) {
        RF ck, sk; RF bc = bases[i].c, bs = bases[i].s; multAngle(bc, bs, k, ck, sk); RF a = rmul(bases[i].g, rc(mkNum(k, bases[i].D)));
        bool half = false; if (taylor && k % 2 == 0) { RF hc, hs; multAngle(bc, bs, k / 2, hc, hs); half = req(e, radd(rc(1), rmul(rc(Num(2)), rmul(hs, hs)), true)) || req(e, radd(rmul(rc(Num(2)), rmul(hc, hc)), rc(1), true)); }  // cos 2x = 1 - 2 sin^2 x = 2 cos^2 x - 1
        if (half || req(e, ck)) { if (within(a, 0, 3.1415926535897927, true)) { out = a; return true; } if (within(rneg(a), 0, 3.1415926535897927, true)) { out = rneg(a); return true; } }
        if (req(e, rneg(ck)) && within(a, 0, 3.1415926535897927, true)) { out = radd(rPi(), a, true); return true; } }
    for (auto &a : angs) if (req(e, a.c) && atoms[a.atom].iv.lo >= 0) { out = rp(patom(a.atom)); return true; }
    return false;
}
static RF newAngle(const RF &c, const RF &s, Iv iv) {
    for (auto &a : angs) if (req(a.c, c) && req(a.s, s) && atoms[a.atom].iv.lo == iv.lo && atoms[a.atom].iv.hi == iv.hi) return rp(patom(a.atom));
    u32 at = newAtom(A_ANG, "angle" + std::to_string(angs.size()), iv); angs.push_back(Ang{at, c, s}); return rp(patom(at));
}
static RF racos(const RF &e) {
    if (rconst(e)) { Num c = pconstVal(e.n); if (c.one()) return rc(0); if (c.zero()) return rmul(rPi(), rc(ninv(Num(2)))); if (c == Num(-1)) return rPi(); }
    RF out; if (angleFromCos(e, out)) return out;
    if (taylor) {  // acos(1-E) = sqrt(2E) (1 + E/12 + 3E^2/160 + k 5E^3/448), k in [0,1], for 0 <= E <= 1/2
        RF E = radd(rc(1), e, true); Iv v = rIv(E);
        if (v.hi <= 0.25) { u32 k = newAtom(A_REM, "rem" + std::to_string(remCount++), Iv{0, 1}); RF r2 = rsqrt(rmul(rc(Num(2)), E)); RF E2 = rmul(E, E);
            return rmul(r2, radd(radd(radd(rc(1), rmul(E, rc(mkNum(1, 12)))), rmul(E2, rc(mkNum(3, 160)))), rmul(rmul(E2, E), rmul(rc(mkNum(5, 448)), rp(patom(k)))))); } }
    RF s2 = radd(rc(1), rmul(e, e), true); RF s = rsqrt(s2); return newAngle(e, s, Iv{0, 3.14159265358979356});
}
static RF ratan2(const RF &y, const RF &x) {
    RF r2 = radd(rmul(y, y), rmul(x, x)); RF rho = rsqrt(r2); RF ri = rinv(rho); defOb.push_back({rho.n, "atan2(0,0)"}); RF s = rmul(y, ri), c = rmul(x, ri);
    if (rzero(s) && rconst(c)) { if (pconstVal(c.n).sgn() > 0) return rc(0); return rPi(); }
    if (rzero(c) && rconst(s)) { RF h = rmul(rPi(), rc(ninv(Num(2)))); return pconstVal(s.n).sgn() > 0 ? h : rneg(h); }
    for (size_t i = 0; i < bases.size(); ++i) for (int k : {1, 2, 3, 4, -1, -2}) {
        RF ck, sk; RF bc = bases[i].c, bs = bases[i].s; multAngle(bc, bs, k, ck, sk); RF a = rmul(bases[i].g, rc(mkNum(k, bases[i].D)));
        if (req(s, sk)) { bool in = within(a, 0, 3.1415926535897927, true) || within(rneg(a), 0, 3.1415926535897926, true); if (req(c, ck) && in) return a; if (req(c, rneg(ck)) && within(a, 0, 3.1415926535897927, true)) return radd(rPi(), a, true); } }
    Iv iv{-3.14159265358979356, 3.14159265358979356}; Sg sy = sign(y.n); for (auto &f : y.d) { Sg q = sign(fac[f.first]); if (f.second % 2 == 0) continue; if (q == S_NEG || q == S_NP) sy = (Sg)(sy == S_ZERO ? sy : -sy); else if (q == S_UNK) sy = S_UNK; }
    Sg sx = sign(x.n); for (auto &f : x.d) { Sg q = sign(fac[f.first]); if (f.second % 2 == 0) continue; if (q == S_NEG || q == S_NP) sx = (Sg)(sx == S_ZERO ? sx : -sx); else if (q == S_UNK) sx = S_UNK; }
    if (sy == S_POS || sy == S_NN) iv.lo = 0; if (sy == S_NEG || sy == S_NP) iv.hi = 0;
    if (sx == S_POS || sx == S_NN) { iv.hi = std::min(iv.hi, 1.5707963267948968); iv.lo = std::max(iv.lo, -1.5707963267948968); }
    if (iv.lo == 0) { RF out; for (auto &a : angs) if (req(c, a.c) && req(s, a.s) && atoms[a.atom].iv.lo >= 0 && atoms[a.atom].iv.hi <= 3.1415926535897936) { atoms[a.atom].iv.hi = std::min(atoms[a.atom].iv.hi, iv.hi); return rp(patom(a.atom)); } }
    return newAngle(c, s, iv);
}
static void taylorSC(const RF &x, RF &c, RF &s) {
    // cos x = 1 - x^2/2 + x^4/24 - x^6/720 + k1 x^8/40320,  sin x = x (1 - x^2/6 + x^4/120 - x^6/5040 + k2 x^8/362880), k in [0,1] for |x| < 1
    u32 k1 = newAtom(A_REM, "rem" + std::to_string(remCount++), Iv{0, 1}), k2 = newAtom(A_REM, "rem" + std::to_string(remCount++), Iv{0, 1});
    RF x2 = rmul(x, x), x4 = rmul(x2, x2), x6 = rmul(x4, x2), x8 = rmul(x4, x4);
    auto q = [](int n, int d) { return rc(mkNum(n, d)); };
    c = radd(radd(radd(radd(rc(1), rmul(x2, q(-1, 2))), rmul(x4, q(1, 24))), rmul(x6, q(-1, 720))), rmul(rmul(x8, q(1, 40320)), rp(patom(k1))));
    s = rmul(x, radd(radd(radd(radd(rc(1), rmul(x2, q(-1, 6))), rmul(x4, q(1, 120))), rmul(x6, q(-1, 5040))), rmul(rmul(x8, q(1, 362880)), rp(patom(k2)))));
}

// replaces sine and cosine of small base angles in a finished normal form by their Taylor polynomials (with remainder)
static std::map<int, std::pair<Poly, Poly>> lateMemo;
static Poly substPoly(const Poly &p, const std::map<u32, Poly> &sb) {
    std::map<MonoV, std::vector<std::pair<u32, Num>>> groups;  // by the substituted part
    for (auto &t : p) { MonoV in, out; for (auto &m : monos[t.first]) (sb.count(m.first) ? in : out).push_back(m); groups[in].push_back({mono(out), t.second}); }
    Poly r; for (auto &g : groups) { Poly f = pcollect(g.second); for (auto &m : g.first) f = pmul(f, ppow(sb.at(m.first), m.second)); r = padd(r, f); if (r.size() > polyLimit) throw Limit{"polynomial size"}; } return r;
}
static bool lateTaylor(const RF &x, RF &out) {
    std::map<u32, Poly> sb; for (size_t i = 0; i < bases.size(); ++i) { trigFacts(i); Base &B = bases[i]; if (B.ca < 0 || !std::isfinite(B.iv.lo) || !std::isfinite(B.iv.hi) || std::max(std::fabs(B.iv.lo), std::fabs(B.iv.hi)) >= 0.25 || !B.g.d.empty()) continue;
        auto it = lateMemo.find(i); if (it == lateMemo.end()) { RF c, s; taylorSC(rmul(B.g, rc(ninv(Num(B.D)))), c, s); it = lateMemo.emplace(i, std::make_pair(c.n, s.n)).first; } sb[B.ca] = it->second.first; sb[B.sa] = it->second.second; }
    if (sb.empty()) return false;
    RF r = rp(substPoly(x.n, sb)); for (auto &f : x.d) { Poly q = substPoly(fac[f.first], sb); if (q.empty()) return false; RF iq = rinv(rp(q)); for (int k = 0; k < f.second; ++k) r = rmul(r, iq); }
    out = r; return true;
}

// ---------------------------------------------------------------- constants
static RF rcst(double c) {
    struct PC { double v; int n, d; }; static const PC pcs[] = {{M_PI, 1, 1}, {M_PI_2, 1, 2}, {M_PI_4, 1, 4}, {2 * M_PI, 2, 1}};
    for (auto &p : pcs) if (std::fabs(c) == p.v) return rmul(rPi(), rc(mkNum(c < 0 ? -p.n : p.n, p.d)));
    int e; double m = std::frexp(c, &e); (void)m;
    double a = std::fabs(c); if (a * 1048576 == std::floor(a * 1048576) && a < 1e9) return rc(mkNum((i128)(c * 1048576), 1048576));
    // a decimal or fraction literal rounded to double is read as that fraction
    if (a < 1e6 && a > 1e-6) { double x = a; i128 h0 = 0, h1 = 1, k0 = 1, k1 = 0; for (int i = 0; i < 20; ++i) { double f = std::floor(x); i128 h = (i128)f * h1 + h0, k = (i128)f * k1 + k0; if (k > 100000) break; h0 = h1; h1 = h; k0 = k1; k1 = k; if ((double)h / (double)k == a && (double)k * (double)h < 1e10) return rc(mkNum(c < 0 ? -h : h, k)); if (x - f < 1e-15) break; x = 1 / (x - f); } }
    return rc(Num::fromQ(mpq_class(c)));
}

// ---------------------------------------------------------------- normal form of a term
static std::map<u32, u32> varAtom;
static std::vector<std::vector<u32>> unitGroups;
static std::map<u32, Iv> varIv;
static RF varRF(u32 t) {
    auto z = substZero.find(t); if (z != substZero.end()) return rc(Num(z->second));
    auto sv = substVar.find(t); if (sv != substVar.end()) return varRF(sv->second);
    auto it = varAtom.find(t); if (it != varAtom.end()) return rp(patom(it->second));
    u32 a = newAtom(A_VAR, T[t].name, Iv{-INF, INF}); auto vi = varIv.find(t); if (vi != varIv.end()) atoms[a].iv = vi->second; varAtom[t] = a; return rp(patom(a));
}
static const RF &nf(u32 t) {
    if (memo.size() < T.size()) memo.resize(T.size());
    if (memo[t]) return *memo[t];
    if (deadline && now() > deadline) throw Limit{"time"};
    const Term &x = T[t]; RF r; ++cntNF;
    switch (x.op) {
        case VAR: r = varRF(t); break;
        case CST: r = rcst(x.c); break;
        case ADD: { RF a = nf(x.a); r = radd(a, nf(x.b)); break; }
        case SUB: { RF a = nf(x.a); r = radd(a, nf(x.b), true); break; }
        case NEG: r = rneg(nf(x.a)); break;
        case MUL: { RF a = nf(x.a); r = rmul(a, nf(x.b)); break; }
        case DIV: { RF a = nf(x.a); const RF b = nf(x.b); if (rzero(b)) throw Undefined{"division by zero"}; if (!pisConst(b.n)) defOb.push_back({b.n, "division by zero"}); r = rmul(a, rinv(b)); break; }
        case SQRT: { RF a = nf(x.a); r = rsqrt(a); break; }
        case SIN: { RF c; RF a = nf(x.a); sincos(a, r, c); break; }
        case COS: { RF s; RF a = nf(x.a); sincos(a, s, r); break; }
        case TAN: { RF s, c; RF a = nf(x.a); sincos(a, s, c); defOb.push_back({c.n, "tan"}); r = rmul(s, rinv(c)); break; }
        case ACOS: { RF a = nf(x.a); r = racos(a); break; }
        case ASIN: { RF a = nf(x.a); RF s2 = radd(rc(1), rmul(a, a), true); r = ratan2(a, rsqrt(s2)); break; }
        case ATAN: { RF a = nf(x.a); r = ratan2(a, rc(1)); break; }
        case ATAN2: { RF a = nf(x.a); RF b = nf(x.b); r = ratan2(a, b); break; }
        default: { RF a = nf(x.a); std::string key = "fn" + std::to_string(x.op) + ":" + rkey(a); auto it = sqrtTab.find(key); if (it == sqrtTab.end()) it = sqrtTab.emplace(key, newAtom(A_FN, key, x.op == EXP ? Iv{0, INF} : Iv{-INF, INF})).first; r = rp(patom(it->second)); }
    }
    if (r.n.size() > polyLimit) throw Limit{"polynomial size"};
    memo[t] = std::make_unique<RF>(std::move(r)); return *memo[t];
}

// ---------------------------------------------------------------- numeric evaluation
struct NumEval {
    std::vector<LD> v; std::vector<char> done;
    void reset() { v.assign(T.size(), 0); done.assign(T.size(), 0); }
    LD ev(u32 t) {
        if (done[t]) return v[t]; const Term &x = T[t]; LD r = 0;
        switch (x.op) { case VAR: r = 0; break; case CST: r = x.c; break; case ADD: r = ev(x.a) + ev(x.b); break; case SUB: r = ev(x.a) - ev(x.b); break; case MUL: r = ev(x.a) * ev(x.b); break; case DIV: r = ev(x.a) / ev(x.b); break; case NEG: r = -ev(x.a); break;
            case SQRT: { LD a = ev(x.a); r = a < 0 && a > -1e-16L ? 0 : sqrtl(a); break; } case SIN: r = sinl(ev(x.a)); break; case COS: r = cosl(ev(x.a)); break; case ACOS: { LD a = ev(x.a); if (a > 1 && a < 1 + 1e-15L) a = 1; if (a < -1 && a > -1 - 1e-15L) a = -1; r = acosl(a); break; } case ASIN: r = asinl(ev(x.a)); break; case ATAN: r = atanl(ev(x.a)); break; case ATAN2: r = atan2l(ev(x.a), ev(x.b)); break; case TAN: r = tanl(ev(x.a)); break; case EXP: r = expl(ev(x.a)); break; case LOG: r = logl(ev(x.a)); break; default: r = NAN; }
        done[t] = 1; return v[t] = r;
    }
};
static std::mt19937_64 rng(1);
static LD U(LD a, LD b) { return a + (b - a) * std::uniform_real_distribution<double>(0, 1)(rng); }
static bool sample(const Path &P, NumEval &N, int mode, std::map<std::string, double> &asg) {
    N.reset(); asg.clear();
    std::set<u32> inUnit;
    auto setv = [&](u32 t, double x) { N.v[t] = x; N.done[t] = 1; asg[T[t].name] = x; };
    for (auto &u : P.units) { LD s = 0; std::vector<LD> w; for (size_t i = 0; i < u.size(); ++i) { LD g = std::normal_distribution<double>()(rng); if (mode % 5 == 1) g *= std::pow(10.0, -(double)(rng() % 4)); if (mode % 7 == 3 && rng() % 2) g = 0; w.push_back(g); s += g * g; } if (s == 0) { w[rng() % w.size()] = 1; s = 1; } s = sqrtl(s); for (size_t i = 0; i < u.size(); ++i) { inUnit.insert(u[i]); } LD acc = 0; for (size_t i = 1; i < u.size(); ++i) { double d = (double)(w[i] / s); setv(u[i], d); acc += (LD)d * d; } double d0 = (double)(w[0] / s); asg[T[u[0]].name] = d0; LD e0 = sqrtl(std::max((LD)0, 1 - acc)); N.v[u[0]] = w[0] < 0 ? -e0 : e0; N.done[u[0]] = 1; }
    static const double sp[] = {0, 1, -1, 2, 0.5, -0.5, 3, 1e-3, 1e-6, 3.0, -2};
    double scale = mode % 6 == 4 ? std::pow(10.0, -U(0, 10)) : mode % 6 == 5 ? 10 : 1;
    std::map<u32, std::pair<double, double>> bd;
    for (auto &r : P.rels) if (r.assume && (r.rel == "lt" || r.rel == "le")) { if (T[r.a].op == VAR && T[r.b].op == CST) { auto &b = bd.emplace(r.a, std::make_pair(-INF, INF)).first->second; b.second = std::min(b.second, T[r.b].c); } if (T[r.b].op == VAR && T[r.a].op == CST) { auto &b = bd.emplace(r.b, std::make_pair(-INF, INF)).first->second; b.first = std::max(b.first, T[r.a].c); } }
    for (auto &v : P.vars) if (!inUnit.count(v.second)) {
        double x = std::normal_distribution<double>()(rng) * scale; if (mode % 4 == 3 && rng() % 3 == 0) x = sp[rng() % 11];
        auto b = bd.find(v.second); if (b != bd.end()) { double lo = b->second.first, hi = b->second.second; if (std::isfinite(lo) && std::isfinite(hi)) { x = U(lo, hi); if (mode % 3 == 1) x = lo + (hi - lo) * std::pow(10.0, -(double)U(0, 10)); if (mode % 9 == 2) x = hi - (hi - lo) * std::pow(10.0, -(double)U(0, 4)); } else if (std::isfinite(lo)) x = lo + std::fabs(x); else if (std::isfinite(hi)) x = hi - std::fabs(x); }
        setv(v.second, x);
    }
    return true;
}
static bool relHolds(const std::string &r, LD a, LD b) {
    if (a != a || b != b) return false; LD s = std::max((LD)1, std::max(fabsl(a), fabsl(b)));
    if (r == "lt") return a < b; if (r == "le") return a <= b; if (r == "gt") return a > b; if (r == "ge") return a >= b; if (r == "ne") return a != b; if (r == "eq") return fabsl(a - b) <= 1e-17L * s; return true; }
static bool hypsHold(const Path &P, NumEval &N, size_t nrel) { for (size_t i = 0; i < P.rels.size() && i < nrel; ++i) if (!relHolds(P.rels[i].rel, N.ev(P.rels[i].a), N.ev(P.rels[i].b))) return false; return true; }

// ---------------------------------------------------------------- proving a path
struct GRes { std::string status, how, detail; double secs = 0; std::map<std::string, double> witness; bool hasWitness = false; LD av = 0, bv = 0; };
static void resetCtx() {
    atoms.clear(); fac.clear(); facAtom.clear(); hyps.clear(); bases.clear(); baseIdx.clear(); angs.clear(); memo.clear(); memo.resize(T.size()); sqrtTab.clear(); defOb.clear(); defNonneg.clear(); piAtom = -1; lateMemo.clear(); varAtom.clear(); signCache.clear(); sqrtTried.clear(); monos.clear(); monoTab.clear(); monoMul.clear(); mono(MonoV{}); decPos = 0; remCount = 0;
}
static void afterHyp() {
    for (size_t i = 0; i < bases.size(); ++i) {
        trigFacts(i); Base &B = bases[i];
        if (taylor && B.ca >= 0 && std::isfinite(B.iv.lo) && std::isfinite(B.iv.hi) && std::max(std::fabs(B.iv.lo), std::fabs(B.iv.hi)) < 0.25) {  // small after all: start again with its Taylor polynomial
            bool chg = false; for (auto &va : varAtom) { Iv v = atoms[va.second].iv; if (!std::isfinite(v.lo) && !std::isfinite(v.hi)) continue; auto it = varIv.find(va.first); if (it == varIv.end() || it->second.lo != v.lo || it->second.hi != v.hi) { varIv[va.first] = v; chg = true; } }
            if (chg) throw Restart{};
        }
    }
}
static bool addHyp(const std::string &rel, const RF &d, bool &infeasible) {  // d rel 0
    infeasible = false;
    Poly p = d.n; bool den = !d.d.empty();
    if (den && rel != "eq" && rel != "ne") { for (auto &f : d.d) if (f.second % 2) { Sg s = signQuick(fac[f.first]); if (s == S_POS || s == S_NN) continue; if (s == S_NEG || s == S_NP) { p = pneg(p); continue; } p = pmul(p, fac[f.first]); } }
    Hyp h; if (rel == "lt") h = {pneg(p), 1}; else if (rel == "le") h = {pneg(p), 2}; else if (rel == "gt") h = {p, 1}; else if (rel == "ge") h = {p, 2}; else if (rel == "eq") h = {p, 3}; else h = {p, 4};
    if (pisConst(h.p)) { int s = pconstVal(h.p).sgn(); bool ok = h.rel == 1 ? s > 0 : h.rel == 2 ? s >= 0 : h.rel == 3 ? s == 0 : s != 0; if (!ok) infeasible = true; return true; }
    Iv v = pIv(h.p); if ((h.rel == 1 && v.hi <= 0) || (h.rel == 2 && v.hi < 0) || (h.rel == 3 && (v.lo > 0 || v.hi < 0))) { infeasible = true; return true; }
    { Sg s = signQuick(h.p); if ((h.rel == 1 && (s == S_NEG || s == S_NP || s == S_ZERO)) || (h.rel == 2 && s == S_NEG) || (h.rel == 3 && (s == S_POS || s == S_NEG)) || (h.rel == 4 && s == S_ZERO)) { infeasible = true; return true; } }
    hyps.push_back(h); signCache.clear();
    struct After { ~After() noexcept(false) { if (std::uncaught_exceptions()) return; afterHyp(); } } after;
    // interval refinement from  c0 + c1*x^k  relations
    if (h.rel <= 2 && h.p.size() <= 2) {
        Num c0(0), c1(0); u32 m = 0; bool ok = true; for (auto &t : h.p) { if (t.first == 0) c0 = t.second; else if (m) ok = false; else { m = t.first; c1 = t.second; } }
        if (ok && m && monos[m].size() == 1) { u32 a = monos[m][0].first; int k = monos[m][0].second; double bound = -c0.dbl() / c1.dbl();  // c1>0: x^k >= bound ; c1<0: x^k <= bound
            if (c1.sgn() > 0) { if (k % 2 == 1 ? true : atoms[a].iv.lo >= 0) { double b = k == 1 ? bound : (bound > 0 ? dn(dn(std::pow(bound, 1.0 / k))) : (k % 2 ? -INF : -INF)); if (k == 1 && bound != 0) b = (c0.d == 1 && c1.d == 1) ? dn(bound) : dn(bound); if (k == 1 && bound == 0) b = 0; atoms[a].iv.lo = std::max(atoms[a].iv.lo, b); } }
            else if (bound >= 0 || k == 1) { double b = k == 1 ? (bound == 0 ? 0 : up(bound)) : up(up(std::pow(bound, 1.0 / k))); atoms[a].iv.hi = std::min(atoms[a].iv.hi, b); if (k % 2 == 0) atoms[a].iv.lo = std::max(atoms[a].iv.lo, -b); } } }
    // c0 + x^k q >= 0 with q negative over the known intervals bounds x
    if (h.rel <= 2 && h.p.size() > 2 && h.p.size() < 2000) { std::set<u32> as; for (auto &t : h.p) for (auto &m : monos[t.first]) if (atoms[m.first].kind == A_VAR && !atoms[m.first].alg && atoms[m.first].iv.lo >= 0) as.insert(m.first);
        for (u32 a : as) { int k = 1 << 20; double c0 = 0; bool ok = true; for (auto &t : h.p) { if (t.first == 0) { c0 = up(t.second.dbl()); continue; } int e = 0; for (auto &m : monos[t.first]) if (m.first == a) e = m.second; if (!e) { ok = false; break; } k = std::min(k, e); } if (!ok || c0 <= 0) continue;
            Poly q; for (auto &t : h.p) if (t.first) { u32 o; mdiv(t.first, mono(MonoV{{(uint16_t)a, (uint16_t)k}}), o); q.push_back({o, t.second}); } Iv v = pIv(q); if (!(v.hi < 0)) continue; double b = up(up(std::pow(up(c0 / -v.hi), 1.0 / k))); if (std::isfinite(b)) atoms[a].iv.hi = std::min(atoms[a].iv.hi, b); } }
    // a variable squeezed to zero
    for (auto &t : h.p) for (auto &m : monos[t.first]) { Atom &A = atoms[m.first]; if (A.kind == A_VAR && !A.alg && A.iv.lo == 0 && A.iv.hi == 0) for (auto &va : varAtom) if (va.second == m.first && !substZero.count(va.first)) { substZero[va.first] = 0; throw Restart{}; } }
    // angle < pi
    if (h.rel <= 2 && h.p.size() == 2 && piAtom >= 0) { u32 pm = patom(piAtom)[0].first; Num cp(0), cx(0); u32 m = 0; for (auto &t : h.p) { if (t.first == pm) cp = t.second; else { m = t.first; cx = t.second; } } if (!cp.zero() && m && monos[m].size() == 1 && monos[m][0].second == 1 && cp.sgn() > 0 && cx.sgn() < 0) { u32 a = monos[m][0].first; double b = up(up(-cp.dbl() / cx.dbl() * 3.1415926535897936)); atoms[a].iv.hi = std::min(atoms[a].iv.hi, b); } else if (!cp.zero() && m && monos[m].size() == 1 && monos[m][0].second == 1 && cp.sgn() > 0 && cx.sgn() > 0) { u32 a = monos[m][0].first; double b = dn(dn(-cp.dbl() / cx.dbl() * 3.1415926535897936)); atoms[a].iv.lo = std::max(atoms[a].iv.lo, b); } }
    // sqrt(e) = 0 means e = 0
    if (h.rel == 3 && h.p.size() == 1) for (auto &m : monos[h.p[0].first]) if (atoms[m.first].kind == A_SQRT && atoms[m.first].alg && monos[h.p[0].first].size() == 1) { bool i2 = false; Poly sq = atoms[m.first].sq; addHyp("eq", rp(sq), i2); if (i2) infeasible = true; return true; }
    // equality consequences: a sum of squares <= 0, or variable = constant / variable
    if (h.rel == 3 || (h.rel == 2)) {
        Poly q = h.p; for (int sgn = 0; sgn < (h.rel == 3 ? 2 : 1); ++sgn) { Poly w = sgn ? q : pneg(q); bool ok = !w.empty(); for (auto &t : w) { if (t.second.sgn() <= 0) ok = false; auto &mv = monos[t.first]; if (mv.size() != 1 || mv[0].second % 2 || atoms[mv[0].first].kind != A_VAR) ok = false; } if (ok) { bool changed = false; for (auto &t : w) for (auto &va : varAtom) if (va.second == monos[t.first][0].first && !substZero.count(va.first)) { substZero[va.first] = 0; changed = true; } if (changed) throw Restart{}; } }
    }
    if (h.rel == 3) {
        for (auto &t : h.p) { auto &mv = monos[t.first]; if (mv.size() == 1 && mv[0].second == 1 && atoms[mv[0].first].kind == A_VAR && !atoms[mv[0].first].alg) {
            u32 a = mv[0].first; u32 vt = 0; bool f = false; for (auto &va : varAtom) if (va.second == a) { vt = va.first; f = true; } if (!f) continue;
            if (h.p.size() == 1) { substZero[vt] = 0; throw Restart{}; }
            if (h.p.size() == 2) { const auto &o = h.p[0].first == t.first ? h.p[1] : h.p[0]; Num k = nneg(nmul(o.second, ninv(t.second))); if (o.first == 0 && !k.p && k.d == 1 && std::llabs(k.n) < 1000) { substZero[vt] = k.n; throw Restart{}; } if (k.one() && monos[o.first].size() == 1 && monos[o.first][0].second == 1 && atoms[monos[o.first][0].first].kind == A_VAR) { for (auto &va : varAtom) if (va.second == monos[o.first][0].first && va.first != vt) { substVar[vt] = va.first; throw Restart{}; } } } } }
    }
    return true;
}
static void setupUnits(const Path &P) {
    for (auto &u : P.units) {
        Poly sum = pconst(1); int alg = -1;
        for (size_t i = 0; i < u.size(); ++i) { RF v = varRF(u[i]); if (alg < 0 && !v.n.empty() && !pisConst(v.n) && !substVar.count(u[i])) { alg = i; continue; } sum = padd(sum, pneg(pmul(v.n, v.n))); }
        if (alg < 0) continue;
        u32 a = varAtom[u[alg]]; atoms[a].alg = true; atoms[a].sq = sum; for (size_t i = 0; i < u.size(); ++i) { auto it = varAtom.find(u[i]); if (it != varAtom.end()) { atoms[it->second].iv.lo = std::max(atoms[it->second].iv.lo, -1.0); atoms[it->second].iv.hi = std::min(atoms[it->second].iv.hi, 1.0); } }
        // sum of squares of the others is at most 1
        hyps.push_back({sum, 2});
    }
}
struct PathOut { std::vector<GRes> g; bool infeasible = false; std::string err; };
static double goalBudget = 25;
static bool definedOK(size_t from, std::string &why, std::set<std::string> &okSet) {
    for (size_t i = from; i < defOb.size(); ++i) {
        Poly p = defOb[i].first; if (pisConst(p)) { if (p.empty()) { why = defOb[i].second; return false; } continue; }
        std::string k = pkey(p); if (okSet.count(k)) continue;
        refineSqrt(p); Sg s = signQuick(p); bool ok = s == S_POS || s == S_NEG;
        if (!ok) { Dec D; decompose(p, D); ok = D.mult == pconst(1); if (ok) for (auto &f : D.f) { Sg q = signQuick(fac[f.first]); bool o = q == S_POS || q == S_NEG; Num kk; if (!o) for (auto &h : hyps) if ((h.rel == 4 || h.rel == 1) && prop(fac[f.first], h.p, kk)) o = true; if (!o) { ok = false; break; } } }
        if (!ok) for (auto &h : hyps) { Num kk; if ((h.rel == 4 || h.rel == 1) && prop(p, h.p, kk)) ok = true; }
        if (!ok) ok = smtUnsat({{p, 3}});
        if (!ok) { why = defOb[i].second + ": cannot show " + pstr(p).substr(0, 300) + " /= 0"; return false; }
        okSet.insert(k);
    }
    for (size_t i = 0; i < defNonneg.size(); ++i) {
        std::string k = "n" + pkey(defNonneg[i].first); if (okSet.count(k)) continue; Sg s = sign(defNonneg[i].first);
        if (s == S_POS || s == S_NN || s == S_ZERO) { okSet.insert(k); continue; }
        why = defNonneg[i].second + ": cannot show " + pstr(defNonneg[i].first).substr(0, 300) + " >= 0"; return false;
    }
    return true;
}
static void hypothesise(const Path &P, size_t &nh, size_t upto, bool &inf) {
    for (; nh < P.rels.size() && nh < upto; ++nh) { auto &r = P.rels[nh]; RF d = radd(nf(r.a), nf(r.b), true); addHyp(r.rel, d, inf); if (inf) return; }
}
static bool wantsTaylor(const Goal &g) { return g.kind == "near"; }
static void proveOnce(const Path &P, const std::vector<int> &which, std::vector<GRes> &out, bool useTaylor, bool &infeasible) {
    const std::vector<GRes> out0 = out; varIv.clear();
    for (int restart = 0;; ++restart) {
        if (restart > 24) throw Limit{"restarts"};
        out = out0;
        try {
            resetCtx(); taylor = useTaylor; infeasible = false; deadline = now() + goalBudget * 2; for (auto &v : P.vars) (void)v;
            setupUnits(P); size_t nh = 0; std::set<std::string> okSet;
            hypothesise(P, nh, P.rels.size(), infeasible); if (infeasible) return;
            std::string hypWhy;
            for (int gi : which) {
                const Goal &g = P.goals[gi]; GRes &R = out[gi]; if (R.status == "failed" ) continue; double t0 = now(); deadline = t0 + goalBudget; R.status = "failed"; R.how = "";
                try {
                    RF a = nf(g.a), b = nf(g.b); RF d = radd(a, b, true);
                    if (g.kind == "eq") { if (rzero(d)) { R.status = "proved"; R.how = "normal-form"; } else R.detail = "normal form of the difference is not zero: " + rstr(d).substr(0, 400); }
                    else if (g.kind == "near") {
                        if (rzero(d)) { R.status = "proved"; R.how = "normal-form"; }
                        else { RF tol = nf(g.c); RF q = rmul(d, rinv(tol)); Iv v = rIv(q); RF q2; if (!(v.lo >= -1 && v.hi <= 1) && !taylor && lateTaylor(q, q2)) v = rIv(q2); if (v.lo >= -1 && v.hi <= 1) { R.status = "proved"; R.how = "taylor-interval"; } else R.detail = "difference over tolerance is in [" + std::to_string(v.lo) + "," + std::to_string(v.hi) + "]: " + rstr(q).substr(0, 300); }
                    } else {  // le, lt : a rel b
                        Poly p = pneg(d.n); bool flip = false, unk = false; for (auto &f : d.d) if (f.second % 2) { Sg s = sign(fac[f.first]); if (s == S_NEG || s == S_NP) flip = !flip; else if (s == S_UNK) unk = true; }
                        if (flip) p = pneg(p); Sg s = unk ? S_UNK : sign(p); bool ok = s == S_POS || (g.kind == "le" && (s == S_NN || s == S_ZERO));
                        if (!ok && !unk) { ok = smtUnsat({{pneg(p), g.kind == "le" ? 1 : 2}}); }
                        if (ok) { R.status = "proved"; R.how = "sign"; } else R.detail = "cannot show " + pstr(p).substr(0, 300) + (g.kind == "le" ? " >= 0" : " > 0");
                    }
                    if (R.status == "proved") { std::string why; if (!definedOK(0, why, okSet)) { R.status = "failed"; R.detail = why; R.how = "undefined"; } }
                } catch (Limit &l) { R.status = "failed"; R.detail = "resource limit: " + l.what; R.how = "limit"; }
                catch (Undefined &u) { R.status = "failed"; R.detail = u.what; R.how = "undefined"; }
                R.secs += now() - t0;
                if (R.status == "failed") { deadline = now() + 10; if (smtUnsat({})) { infeasible = true; return; } deadline = 0; }
            }
            return;
        } catch (Restart &) { continue; }
    }
}
static void provePath(const Path &P, std::vector<GRes> &res, bool &infeasible, std::string &err) {
    res.assign(P.goals.size(), GRes{}); std::vector<int> plain, near; for (size_t i = 0; i < P.goals.size(); ++i) { if (P.goals[i].kind == "true") { res[i].status = "proved"; res[i].how = "concrete"; } else (wantsTaylor(P.goals[i]) ? near : plain).push_back(i); }
    infeasible = true; baseDen.clear(); substZero.clear(); substVar.clear();
    for (int pass = 0; pass < 3; ++pass) {
        std::vector<int> todo; if (pass == 0) todo = plain; else if (pass == 1) todo = near; else if (!infeasible) for (int i : near) if (res[i].status == "failed") todo.push_back(i);
        auto &w = todo; if (w.empty() && pass > 0) { if (pass == 1) break; continue; } if (w.empty() && !near.empty()) continue;
        if (pass == 2) for (int i : w) res[i] = GRes{};
        // near goals first without Taylor expansion (exact equality), then with it
        decisions.clear(); int runs = 0; bool allInf = true; smtCache.clear(); linCache.clear();
        for (;;) {
            bool inf = false; 
            try { std::vector<GRes> tmp = res; if (pass == 2) { proveOnce(P, w, tmp, true, inf); } else proveOnce(P, w, tmp, false, inf); if (!inf) { for (int i : w) if (res[i].status != "failed") res[i] = tmp[i]; allInf = false; } }
            catch (Limit &l) { err = l.what; for (int i : w) { res[i].status = "failed"; res[i].detail = "resource limit: " + l.what; res[i].how = "limit"; } allInf = false; }
            catch (Undefined &u) { for (int i : w) { res[i].status = "failed"; res[i].detail = u.what + " in a path condition"; res[i].how = "undefined"; } allInf = false; }
            if (++runs > 256) { for (int i : w) { res[i].status = "failed"; res[i].detail = "too many cases"; res[i].how = "limit"; } break; }
            decisions.resize(std::min(decPos, decisions.size())); while (!decisions.empty() && !decisions.back()) decisions.pop_back(); if (decisions.empty()) break; decisions.back() = 0;
        }
        if (!allInf) infeasible = false; else if (pass >= 1 && runs <= 256) infeasible = true;  // every case of this run refutes the path condition
    }
    if (!infeasible) for (auto &r : res) if (r.status.empty()) { r.status = "failed"; r.detail = "not reached"; }
}

static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
int main(int argc, char **argv) {
    struct rlimit rl; if (!getrlimit(RLIMIT_STACK, &rl) && !getenv("RFP_RE") && (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30))) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("RFP_RE", "1", 1); execv("/proc/self/exe", argv); } }
    std::string in, outp, only; int samples = 60; u64 seed = 1; bool verbose = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a == "-o") outp = argv[++i]; else if (a == "--only") only = argv[++i]; else if (a == "--samples") samples = atoi(argv[++i]); else if (a == "--seed") seed = strtoull(argv[++i], 0, 10); else if (a == "--budget") goalBudget = atof(argv[++i]); else if (a == "--smt") smtTimeout = atof(argv[++i]); else if (a == "-v") verbose = true; else in = a; }
    rng.seed(seed); timeUp = [] { return deadline && now() > deadline; };
    auto mb = llvm::MemoryBuffer::getFile(in); if (!mb) { fprintf(stderr, "cannot read %s\n", in.c_str()); return 2; }
    auto pj = J::parse((*mb)->getBuffer()); if (!pj) { fprintf(stderr, "bad json\n"); return 2; }
    std::ofstream of(outp.empty() ? "/dev/stdout" : outp); of << "["; bool first = true;
    for (auto &hv : *pj->getAsArray()) {
        auto *h = hv.getAsObject(); std::string hn = h->getString("harness")->str(); if (!only.empty() && hn != only) continue;
        double t0 = now(); z3Calls = 0; z3Time = 0; cntNF = 0;
        T.clear(); for (auto &tv : *h->getArray("terms")) { auto *a = tv.getAsArray(); Term t; t.op = opMap[(*a)[0].getAsString()->str()]; if (t.op == VAR) t.name = (*a)[1].getAsString()->str(); else if (t.op == CST) t.c = strtod((*a)[1].getAsString()->str().c_str(), 0); else { t.a = *(*a)[1].getAsInteger(); if (a->size() > 2) t.b = *(*a)[2].getAsInteger(); } T.push_back(t); }
        of << (first ? "\n" : ",\n") << "{\"harness\":" << js(hn) << ",\"paths\":["; first = false; bool fp = true;
        for (auto &pv : *h->getArray("paths")) {
            auto *po = pv.getAsObject(); Path P; P.end = po->getString("end")->str(); P.msg = po->getString("msg")->str();
            std::vector<std::array<std::string, 3>> fails;
            for (auto &evv : *po->getArray("events")) {
                auto *e = evv.getAsArray(); std::string k = (*e)[0].getAsString()->str(); auto I = [&](int i) { return (u32)*(*e)[i].getAsInteger(); }; auto S = [&](int i) { return (*e)[i].getAsString()->str(); };
                if (k == "var") P.vars.push_back({S(1), I(2)});
                else if (k == "unit") { std::vector<u32> u; for (auto &x : *(*e)[1].getAsArray()) u.push_back(*x.getAsInteger()); P.units.push_back(u); }
                else if (k == "assume") P.rels.push_back({S(1), I(2), I(3), true});
                else if (k == "path") P.rels.push_back({S(1), I(2), I(3), false});
                else if (k == "hint") P.hints.push_back({S(1), I(2)});
                else if (k == "ensure") { Goal g; g.kind = S(1); g.label = S(2); if (g.kind != "true") { g.a = I(3); g.b = I(4); if (g.kind == "near") g.c = I(5); } g.nrel = P.rels.size(); P.goals.push_back(g); }
                else if (k == "fail") fails.push_back({S(1), S(2), S(3)});
            }
            std::vector<GRes> res; bool infeasible = false; std::string err;
            bool badEnd = P.end != "return" && P.end != "stop";
            // a path that ends badly or has failed ghost checks is a violation unless it is infeasible
            provePath(P, res, infeasible, err);
            if ((badEnd || !fails.empty()) && !infeasible) { // decide feasibility explicitly
                try { for (int r = 0; r < 20; ++r) try { resetCtx(); decisions.clear(); taylor = false; deadline = now() + 20; setupUnits(P); size_t nh = 0; bool inf = false; hypothesise(P, nh, P.rels.size(), inf); if (inf || smtUnsat({})) infeasible = true; break; } catch (Restart &) {} } catch (...) {}
            }
            deadline = 0;
            // numeric: validate hypotheses are satisfiable on samples, look for counterexamples
            int hits = 0; NumEval N; std::map<std::string, double> asg, pathW; bool havePathW = false; size_t nfail = 0; for (auto &r : res) nfail += r.status == "failed";
            int tries = (nfail || badEnd || !fails.empty()) ? samples * 60 : samples; size_t nrefuted = 0; bool numericContradiction = false; std::string contra;
            if (!infeasible || true) for (int s = 0; s < tries; ++s) {
                sample(P, N, s, asg); if (!hypsHold(P, N, P.rels.size())) { if (s > 3000 && !hits) break; continue; } ++hits; if (!havePathW) { havePathW = true; pathW = asg; }
                for (size_t i = 0; i < P.goals.size(); ++i) { auto &g = P.goals[i]; if (g.kind == "true") continue; if (res[i].status == "failed" && res[i].hasWitness) continue; LD a = N.ev(g.a), b = N.ev(g.b); bool bad; LD sc = std::max((LD)1, std::max(fabsl(a), fabsl(b)));
                    if (g.kind == "eq") bad = !(fabsl(a - b) <= 1e-8L * sc); else if (g.kind == "near") { LD tol = N.ev(g.c); bad = !(fabsl(a - b) <= tol * 1.5L + 1e-17L * sc); } else if (g.kind == "le") bad = !(a <= b + 1e-9L * sc); else bad = !(a < b + 1e-9L * sc);
                    if (bad && g.kind == "eq" && a == a && b == b && fabsl(a - b) <= 1e-5L * sc) bad = res[i].status == "failed";
                    if (bad) { if (res[i].status == "failed") { res[i].hasWitness = true; res[i].witness = asg; res[i].av = a; res[i].bv = b; ++nrefuted; } else if (a == a && b == b && std::isfinite((double)a) && std::isfinite((double)b) && fabsl(a - b) > 1e-4L * sc && !infeasible) { numericContradiction = true; contra = g.label; } } }
                if ((nfail || badEnd || !fails.empty()) && hits >= samples * 4 && (nrefuted >= nfail || hits > samples * 20)) break;
                if (s > samples * 60) break;
            }
            if (infeasible && hits > 0) { numericContradiction = true; contra = "path found infeasible is satisfied by a sample"; }
            of << (fp ? "\n" : ",\n") << "{\"end\":" << js(P.end) << ",\"msg\":" << js(P.msg) << ",\"infeasible\":" << (infeasible ? "true" : "false") << ",\"samples_hit\":" << hits << ",\"err\":" << js(err) << ",\"contradiction\":" << js(numericContradiction ? contra : ""); fp = false;
            auto wj = [&](const std::map<std::string, double> &w) { std::string s = "{"; bool f = true; for (auto &x : w) { char b[64]; snprintf(b, 64, "%a", x.second); s += (f ? "" : ",") + js(x.first) + ":\"" + b + "\""; f = false; } return s + "}"; };
            if (havePathW) of << ",\"sample\":" << wj(pathW);
            of << ",\"conds\":" << P.rels.size() << ",\"fails\":["; for (size_t i = 0; i < fails.size(); ++i) of << (i ? "," : "") << "[" << js(fails[i][0]) << "," << js(fails[i][1]) << "," << js(fails[i][2]) << "]";
            of << "],\"goals\":["; for (size_t i = 0; i < P.goals.size(); ++i) { auto &r = res[i]; of << (i ? "," : "") << "[" << js(P.goals[i].kind) << "," << js(P.goals[i].label) << "," << js(infeasible ? "infeasible" : r.status) << "," << js(r.how) << "," << r.secs; if (r.status == "failed" && !infeasible) { of << "," << js(r.detail); if (r.hasWitness) { char b[128]; snprintf(b, 128, "%.17Lg", r.av); of << "," << wj(r.witness) << "," << js(b); snprintf(b, 128, "%.17Lg", r.bv); of << "," << js(b); } } of << "]"; }
            of << "]}";
            if (verbose) { int np = 0; for (auto &r : res) np += r.status == "proved"; fprintf(stderr, "%s path end=%s inf=%d goals=%zu proved=%d hits=%d fails=%zu %s\n", hn.c_str(), P.end.c_str(), infeasible, res.size(), np, hits, fails.size(), P.msg.substr(0, 200).c_str()); for (size_t i = 0; i < res.size(); ++i) if (res[i].status == "failed" && !infeasible) fprintf(stderr, "   FAILED %s: %s %s\n", P.goals[i].label.c_str(), res[i].detail.substr(0, 300).c_str(), res[i].hasWitness ? "REFUTED" : ""); for (auto &f : fails) fprintf(stderr, "   FAIL %s %s %s\n", f[0].c_str(), f[1].c_str(), f[2].c_str()); }
        }
        of << "],\"seconds\":" << now() - t0 << ",\"smt_calls\":" << z3Calls << ",\"smt_seconds\":" << z3Time << ",\"normal_forms\":" << cntNF << "}"; of.flush();
    }
    of << "\n]\n"; return 0;
}
