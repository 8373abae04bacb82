// Native run-time of the contract language: executes a harness against the real, natively compiled code.
// Used to replay counterexamples, to cross-check the VC generator, and as bounded stand-in where it gives up.
//   prog list
//   prog replay <harness> <file>           one or more input sets (name value lines, sets separated by ---)
//   prog rand <harness> <count> <seed>
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
static std::map<std::string, double> in_, cur_;          // inputs of this set, values used
static std::map<std::string, int> use_;
static std::vector<std::string> ctx_;
static bool randomMode = false; static std::mt19937_64 rng_;
static int randStyle = 0;
struct DirN { std::vector<std::pair<std::string, double>> d; };
static std::vector<DirN> dirs_;
static int phase_ = 0;  // 0 base (collect), 1 perturbed (record), 2 final (check)
static int pk_ = -1; static double ph_ = 0;
static std::vector<std::pair<int, double>> seq_;         // (direction, value) in call order
static std::vector<double> est_; static std::vector<char> estOk_; static size_t estPos_ = 0;
static double diffScale = 0; static bool lastDiffBad = false;
static jmp_buf jb_; struct Fail { std::string label, msg; double a, b; }; static std::vector<Fail> fails_; static long checks_ = 0; static long skipped_ = 0;
static bool anyDiffBad_ = false;
static std::string uniqName(const std::string &n) { int k = use_[n]++; return k ? n + "#" + std::to_string(k) : n; }
static std::map<std::string, std::pair<std::string, std::vector<std::string>>> dummy_;
static double value(const std::string &n) {
    auto c = cur_.find(n); if (c != cur_.end()) return c->second; auto i = in_.find(n); double v;
    if (i != in_.end()) v = i->second; else { double g = std::normal_distribution<double>()(rng_); switch (randStyle % 4) { case 1: g = std::uniform_real_distribution<double>(0, 3.1)(rng_); break; case 2: g = std::fabs(g); break; case 3: g *= std::uniform_real_distribution<double>(0, 2)(rng_); } v = g; }
    return cur_[n] = v;
}
static double perturbed(const std::string &n, double v) { if (phase_ != 1) return v; for (auto &d : dirs_[pk_].d) if (d.first == n) return v + ph_ * d.second; return v; }
static std::vector<DirN> dirsNow_;
static std::string lab(const char *l) { std::string s; for (auto &c : ctx_) s += c + "/"; return s + l; }
extern "C" {
double vc_var(const char *n) { std::string u = uniqName(n); return perturbed(u, value(u)); }
double vc_var_i(const char *n, int i) { std::string u = uniqName(std::string(n) + "." + std::to_string(i)); return perturbed(u, value(u)); }
double vc_sym_i(const char *n, int i) { std::string u = std::string(n) + "." + std::to_string(i); if (!use_.count(u)) use_[u] = 1; return perturbed(u, value(u)); }
void vc_unit(const char *n, double *p, int k) {
    std::vector<std::string> nm; bool have = true; for (int i = 0; i < k; ++i) { nm.push_back(uniqName(std::string(n) + "." + std::to_string(i))); if (!cur_.count(nm[i]) && !in_.count(nm[i])) have = false; }
    if (!have) { double s = 0; std::vector<double> w; for (int i = 0; i < k; ++i) { w.push_back(std::normal_distribution<double>()(rng_)); s += w[i] * w[i]; } for (int i = 0; i < k; ++i) cur_[nm[i]] = w[i] / std::sqrt(s); }
    double s = 0; for (int i = 0; i < k; ++i) { p[i] = value(nm[i]); s += p[i] * p[i]; } if (s > 0 && std::fabs(s - 1) < 1e-3) for (int i = 0; i < k; ++i) p[i] /= std::sqrt(s);
    for (int i = 0; i < k; ++i) p[i] = perturbed(nm[i], p[i]);
}
static void pre(bool ok) { if (!ok && phase_ != 1) longjmp(jb_, 2); }
void vc_assume_eq(double a, double b) { pre(std::fabs(a - b) < 1e-9); }
void vc_assume_lt(double a, double b) { pre(a < b); }
void vc_assume_le(double a, double b) { pre(a <= b); }
void vc_assume_ne(double a, double b) { pre(a != b); }
void vc_stop() { longjmp(jb_, 2); }
bool vc_lt(double a, double b) { return a < b; }
void vc_push(const char *l) { ctx_.push_back(l); }
void vc_pop() { ctx_.pop_back(); }
int vc_dir_new() { dirsNow_.emplace_back(); return dirsNow_.size() - 1; }
void vc_dir_set(int k, const char *v, int i, double d) { dirsNow_[k].d.push_back({i < 0 ? std::string(v) : std::string(v) + "." + std::to_string(i), d}); }
double vc_diff(int k, double x) {
    seq_.push_back({k, x});
    if (phase_ == 2) { size_t p = estPos_++; if (p < est_.size()) { if (!estOk_[p]) anyDiffBad_ = true; return est_[p]; } anyDiffBad_ = true; return 0; }
    return 0;
}
static void check(const char *l, bool ok, double a, double b, const char *m) { if (phase_ != 2) return; ++checks_; if (!ok) { if (anyDiffBad_ && a == a && b == b) { ++skipped_; return; } fails_.push_back({lab(l), m, a, b}); } }
static double tolFor(double a, double b) { double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b))); return (est_.empty() ? 2e-7 : 1e-5) * s; }
void vc_ensure_eq(const char *l, double a, double b) { check(l, a == b || std::fabs(a - b) <= tolFor(a, b), a, b, "not equal"); }
void vc_ensure_le(const char *l, double a, double b) { check(l, a <= b + tolFor(a, b), a, b, "not <="); }
void vc_ensure_lt(const char *l, double a, double b) { check(l, a < b + tolFor(a, b), a, b, "not <"); }
void vc_ensure_near(const char *l, double a, double b, double t) { double s = std::max(1.0, std::max(std::fabs(a), std::fabs(b))); check(l, std::fabs(a - b) <= (est_.empty() ? 2e-9 : 1e-5) * s + 2 * t, a, b, "not within tolerance"); }
void vc_ensure(const char *l, bool c) { check(l, c, 0, 0, "condition is false"); }
}
static volatile int sig_ = 0;
static void onSig(int s) { sig_ = s; longjmp(jb_, 3); }
static int runOnce(void (*f)()) { use_.clear(); ctx_.clear(); dirsNow_.clear(); seq_.clear(); estPos_ = 0; anyDiffBad_ = false; int r = setjmp(jb_); if (r) return r; f(); return 0; }
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (c == '\n') { o += "\\n"; continue; } o += c; } return o; }
static std::string runSet(void (*f)(), bool &failed) {
    cur_.clear(); fails_.clear(); checks_ = 0; skipped_ = 0; est_.clear(); estOk_.clear(); failed = false;
    phase_ = 0; int r = runOnce(f);
    if (r == 2) return "{\"status\":\"precondition\"}";
    if (r == 0) {
        auto base = seq_; dirs_ = dirsNow_;
        if (!base.empty()) {
            size_t n = base.size(); est_.assign(n, 0); estOk_.assign(n, 1);
            std::map<int, char> ks; for (auto &b : base) ks[b.first] = 1;
            for (auto &kk : ks) {
                const double hs[2] = {1e-3, 2.5e-4}; std::vector<double> e[2]; bool ok = true;
                for (int hi = 0; hi < 2; ++hi) { std::vector<double> v[4]; const double mult[4] = {1, -1, 2, -2}; for (int q = 0; q < 4; ++q) { phase_ = 1; pk_ = kk.first; ph_ = hs[hi] * mult[q]; if (runOnce(f) != 0 || seq_.size() != n) { ok = false; break; } for (auto &s : seq_) v[q].push_back(s.second); } if (!ok) break; for (size_t i = 0; i < n; ++i) e[hi].push_back((8 * (v[0][i] - v[1][i]) - (v[2][i] - v[3][i])) / (12 * hs[hi])); }
                for (size_t i = 0; i < n; ++i) if (base[i].first == kk.first) { if (!ok) { estOk_[i] = 0; continue; } double s = std::max(1.0, std::fabs(e[1][i])); est_[i] = e[1][i]; if (!(std::fabs(e[0][i] - e[1][i]) <= 1e-6 * s)) estOk_[i] = 0; }
            }
        }
        phase_ = 2; r = runOnce(f);
    }
    std::ostringstream o; if (r == 3) { failed = true; o << "{\"status\":\"crash\",\"signal\":" << sig_ << "}"; return o.str(); }
    if (r == 2) return "{\"status\":\"precondition\"}";
    failed = !fails_.empty(); o.precision(17); o << "{\"status\":\"" << (failed ? "fail" : "ok") << "\",\"checks\":" << checks_ << ",\"skipped\":" << skipped_ << ",\"fails\":[";
    for (size_t i = 0; i < fails_.size() && i < 20; ++i) { o << (i ? "," : "") << "[\"" << esc(fails_[i].label) << "\",\"" << esc(fails_[i].msg) << "\",\"" << fails_[i].a << "\",\"" << fails_[i].b << "\"]"; }
    o << "]"; if (failed || true) { o << ",\"inputs\":{"; bool fi = true; for (auto &c : cur_) { char b[40]; snprintf(b, 40, "%a", c.second); o << (fi ? "" : ",") << "\"" << c.first << "\":\"" << b << "\""; fi = false; } o << "}"; } o << "}"; return o.str();
}
int main(int argc, char **argv) {
    if (argc < 4) return 2; std::string mode = argv[1]; void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]); if (!f) { fprintf(stderr, "no harness %s\n", argv[2]); return 2; }
    signal(SIGSEGV, onSig); signal(SIGFPE, onSig); signal(SIGABRT, onSig); signal(SIGILL, onSig); signal(SIGTRAP, onSig); signal(SIGBUS, onSig);
    printf("["); bool any = false; int n = 0;
    if (mode == "replay") { std::ifstream fs(argv[3]); std::string line; std::vector<std::map<std::string, double>> sets(1); while (std::getline(fs, line)) { if (line == "---") { sets.emplace_back(); continue; } size_t sp = line.rfind(' '); if (sp == std::string::npos) continue; sets.back()[line.substr(0, sp)] = strtod(line.c_str() + sp + 1, 0); }
        for (auto &s : sets) { if (s.empty() && sets.size() > 1) continue; in_ = s; rng_.seed(7); bool fl; std::string r = runSet(f, fl); printf("%s%s", n++ ? ",\n" : "", r.c_str()); fflush(stdout); any |= fl; } }
    else { int cnt = atoi(argv[3]); unsigned long seed = argc > 4 ? strtoul(argv[4], 0, 10) : 1; int ran = 0; for (int i = 0; i < cnt * 20 && ran < cnt; ++i) { in_.clear(); rng_.seed(seed * 1000003 + i); randStyle = i; bool fl; std::string r = runSet(f, fl); if (r.find("precondition") != std::string::npos) continue; ++ran; if (fl || ran == 1) { printf("%s%s", n++ ? ",\n" : "", r.c_str()); fflush(stdout); } any |= fl; if (any) break; } }
    printf("]\n"); return any ? 1 : 0;
}
