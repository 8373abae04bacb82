// Exact arithmetic for the prover: rationals, interned monomials, sparse polynomials with algebraic
// rewrite rules (atom^2 -> polynomial), and rational functions with factored denominators.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef __int128 i128;

struct Limit { std::string what; };  // resource limit inside one obligation: it stays undischarged

// ---------------------------------------------------------------- rationals
struct Num {
    int64_t n = 0, d = 1;
    std::shared_ptr<mpq_class> p;
    Num() {}
    Num(int64_t a) : n(a) {}
    static Num fromQ(const mpq_class &q) {
        Num r;
        if (q.get_num().fits_slong_p() && q.get_den().fits_slong_p() && q.get_num() != INT64_MIN) { r.n = q.get_num().get_si(); r.d = q.get_den().get_si(); }
        else { r.p = std::make_shared<mpq_class>(q); if (mpz_sizeinbase(q.get_num_mpz_t(), 2) + mpz_sizeinbase(q.get_den_mpz_t(), 2) > 60000) throw Limit{"coefficient size"}; }
        return r;
    }
    mpq_class q() const { if (p) return *p; mpq_class r; mpq_set_si(r.get_mpq_t(), n, d); return r; }
    bool zero() const { return !p && n == 0; }
    bool one() const { return !p && n == 1 && d == 1; }
    int sgn() const { return p ? ::sgn(*p) : (n > 0) - (n < 0); }
    double dbl() const { return p ? p->get_d() : (double)n / (double)d; }
    bool operator==(const Num &o) const { if (!p && !o.p) return n == o.n && d == o.d; return q() == o.q(); }
    std::string str() const { return q().get_str(); }
};
static inline u64 gcd64(u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; }
static inline Num mkNum(i128 n, i128 d) {
    if (n == 0) return Num(0);
    if (d < 0) { n = -n; d = -d; }
    // gcd on 128 bits
    unsigned __int128 a = n < 0 ? -n : n, b = d;
    while (b) { if (!(a >> 64) && !(b >> 64)) { u64 g = gcd64((u64)a, (u64)b); a = g; break; } unsigned __int128 t = a % b; a = b; b = t; }
    n /= (i128)a; d /= (i128)a;
    Num r;
    if (n <= INT64_MAX && n >= -INT64_MAX && d <= INT64_MAX) { r.n = (int64_t)n; r.d = (int64_t)d; return r; }
    auto z = [](i128 v) { bool neg = v < 0; unsigned __int128 u = neg ? -v : v; mpz_class hi((unsigned long)(u >> 64)), lo((unsigned long)(u64)u); mpz_class x = (hi << 64) + lo; return neg ? mpz_class(-x) : x; };
    mpq_class q(z(n), z(d));
    return Num::fromQ(q);
}
static inline bool fits62(const Num &a) { return !a.p; }
static Num nadd(const Num &a, const Num &b) {
    if (!a.p && !b.p) {
        if (a.d == 1 && b.d == 1) { int64_t r; if (!__builtin_add_overflow(a.n, b.n, &r) && r != INT64_MIN) return Num(r); }
        i128 x = (i128)a.n * b.d, y = (i128)b.n * a.d, s; if (!__builtin_add_overflow(x, y, &s)) return mkNum(s, (i128)a.d * b.d);
    }
    return Num::fromQ(a.q() + b.q());
}
static Num nneg(const Num &a) { if (!a.p) { Num r = a; r.n = -r.n; return r; } return Num::fromQ(-a.q()); }
static Num nmul(const Num &a, const Num &b) {
    if (!a.p && !b.p) {
        if (a.d == 1 && b.d == 1) { int64_t r; if (!__builtin_mul_overflow(a.n, b.n, &r) && r != INT64_MIN) return Num(r); }
        return mkNum((i128)a.n * b.n, (i128)a.d * b.d);
    }
    return Num::fromQ(a.q() * b.q());
}
static Num ninv(const Num &a) { if (!a.p) { Num r; r.n = a.n < 0 ? -a.d : a.d; r.d = a.n < 0 ? -a.n : a.n; return r; } return Num::fromQ(1 / a.q()); }

// ---------------------------------------------------------------- monomials (interned)
typedef std::vector<std::pair<uint16_t, uint16_t>> MonoV;  // (atom, exponent), sorted by atom
struct MonoHash { size_t operator()(const MonoV &m) const { u64 h = 1469598103934665603ull; for (auto &x : m) { h = (h ^ (((u64)x.first << 16) | x.second)) * 1099511628211ull; h ^= h >> 29; } return h; } };
static std::vector<MonoV> monos;
static std::unordered_map<MonoV, u32, MonoHash> monoTab;
static std::unordered_map<u64, u32> monoMul;
static u32 mono(const MonoV &m) { auto it = monoTab.find(m); if (it != monoTab.end()) return it->second; u32 id = monos.size(); if (id > 4000000) throw Limit{"monomials"}; monos.push_back(m); monoTab.emplace(m, id); return id; }
static u32 mmul(u32 a, u32 b) {
    if (a == 0) return b; if (b == 0) return a; if (a > b) std::swap(a, b);
    u64 k = ((u64)a << 32) | b; auto it = monoMul.find(k); if (it != monoMul.end()) return it->second;
    const MonoV &x = monos[a], &y = monos[b]; MonoV r; r.reserve(x.size() + y.size());
    size_t i = 0, j = 0;
    while (i < x.size() || j < y.size()) {
        if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
        else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
        else { r.push_back({x[i].first, (uint16_t)(x[i].second + y[j].second)}); ++i; ++j; }
    }
    u32 id = mono(r); if (monoMul.size() > 6000000) monoMul.clear(); monoMul[k] = id; return id;
}
static bool mdiv(u32 a, u32 b, u32 &out) {  // a / b
    const MonoV &x = monos[a], &y = monos[b]; MonoV r; size_t j = 0;
    for (auto &p : x) { if (j < y.size() && y[j].first < p.first) return false; if (j < y.size() && y[j].first == p.first) { if (p.second < y[j].second) return false; if (p.second > y[j].second) r.push_back({p.first, (uint16_t)(p.second - y[j].second)}); ++j; } else r.push_back(p); }
    if (j < y.size()) return false; out = mono(r); return true;
}
static int mcmp(u32 a, u32 b) {  // lexicographic order, higher atom index is more significant
    if (a == b) return 0; const MonoV &x = monos[a], &y = monos[b]; size_t i = x.size(), j = y.size();
    while (i && j) { auto &p = x[i - 1], &q = y[j - 1]; if (p.first != q.first) return p.first > q.first ? 1 : -1; if (p.second != q.second) return p.second > q.second ? 1 : -1; --i; --j; }
    return i ? 1 : j ? -1 : 0;
}

// ---------------------------------------------------------------- polynomials
typedef std::vector<std::pair<u32, Num>> Poly;  // sorted by monomial id, no zero coefficients
static size_t polyLimit = 60000;
static Poly pconst(const Num &c) { Poly p; if (!c.zero()) p.push_back({0, c}); return p; }
static bool pisConst(const Poly &p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
static Num pconstVal(const Poly &p) { return p.empty() ? Num(0) : p[0].second; }
static Poly padd(const Poly &a, const Poly &b) {
    Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { Num s = nadd(a[i].second, b[j].second); if (!s.zero()) r.push_back({a[i].first, s}); ++i; ++j; }
    }
    return r;
}
static Poly pscale(const Poly &a, const Num &c) { if (c.zero()) return {}; if (c.one()) return a; Poly r = a; for (auto &t : r) t.second = nmul(t.second, c); return r; }
static Poly pneg(const Poly &a) { Poly r = a; for (auto &t : r) t.second = nneg(t.second); return r; }
static Poly pmulMono(const Poly &a, u32 m, const Num &c) { Poly r; r.reserve(a.size()); for (auto &t : a) r.push_back({mmul(t.first, m), nmul(t.second, c)}); std::sort(r.begin(), r.end(), [](auto &x, auto &y) { return x.first < y.first; }); return r; }
static Poly pcollect(std::vector<std::pair<u32, Num>> &v) {
    std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
    Poly r; for (size_t i = 0; i < v.size();) { size_t j = i + 1; Num s = v[i].second; while (j < v.size() && v[j].first == v[i].first) s = nadd(s, v[j++].second); if (!s.zero()) r.push_back({v[i].first, s}); i = j; }
    return r;
}
static Poly preduce(Poly p);
static std::function<bool()> timeUp = [] { return false; };
static Poly pmulRaw(const Poly &a, const Poly &b) {
    if (a.empty() || b.empty()) return {};
    if (a.size() == 1 && a[0].first == 0) return pscale(b, a[0].second);
    if (b.size() == 1 && b[0].first == 0) return pscale(a, b[0].second);
    if ((u64)a.size() * b.size() > 40000000ull) throw Limit{"polynomial size"};
    if (timeUp()) throw Limit{"time"};
    if (a.size() * b.size() <= 4096) { std::vector<std::pair<u32, Num>> v; v.reserve(a.size() * b.size()); for (auto &x : a) for (auto &y : b) v.push_back({mmul(x.first, y.first), nmul(x.second, y.second)}); return pcollect(v); }
    std::unordered_map<u32, Num> m; m.reserve(a.size() + b.size());
    for (auto &x : a) for (auto &y : b) { Num &s = m[mmul(x.first, y.first)]; s = nadd(s, nmul(x.second, y.second)); if (m.size() > polyLimit * 4) throw Limit{"polynomial size"}; }
    std::vector<std::pair<u32, Num>> v; v.reserve(m.size()); for (auto &x : m) if (!x.second.zero()) v.push_back(x);
    std::sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; }); return v;
}
static Poly pmul(const Poly &a, const Poly &b) { Poly r = preduce(pmulRaw(a, b)); if (r.size() > polyLimit) throw Limit{"polynomial size"}; return r; }
static Poly ppow(const Poly &a, int e) { Poly r = pconst(1); for (int i = 0; i < e; ++i) r = pmul(r, a); return r; }
static bool pexactDiv(const Poly &a, const Poly &f, Poly &q) {  // exact division in the polynomial ring
    if (a.empty()) { q = {}; return true; }
    struct Cmp { bool operator()(u32 x, u32 y) const { return mcmp(x, y) > 0; } };
    auto lead = [&](const Poly &p) { size_t b = 0; for (size_t i = 1; i < p.size(); ++i) if (mcmp(p[i].first, p[b].first) > 0) b = i; return b; };
    size_t lf = lead(f); u32 fm = f[lf].first; Num fc = ninv(f[lf].second);
    u32 dummy; if (!mdiv(a[lead(a)].first, fm, dummy)) return false;
    // trailing monomial quick test
    { size_t ta = 0, tf = 0; for (size_t i = 1; i < a.size(); ++i) if (mcmp(a[i].first, a[ta].first) < 0) ta = i; for (size_t i = 1; i < f.size(); ++i) if (mcmp(f[i].first, f[tf].first) < 0) tf = i; if (!mdiv(a[ta].first, f[tf].first, dummy)) return false; }
    std::map<u32, Num, Cmp> w; for (auto &t : a) w[t.first] = t.second;
    std::vector<std::pair<u32, Num>> out;
    while (!w.empty()) {
        auto it = w.begin(); u32 m; if (!mdiv(it->first, fm, m)) return false;
        Num c = nmul(it->second, fc); out.push_back({m, c}); if (out.size() > polyLimit) return false;
        for (auto &t : f) { u32 k = mmul(t.first, m); Num v = nneg(nmul(t.second, c)); auto j = w.find(k); if (j == w.end()) w[k] = v; else { j->second = nadd(j->second, v); if (j->second.zero()) w.erase(j); } }
    }
    q = pcollect(out); return true;
}
static size_t leadIdx(const Poly &p) { size_t b = 0; for (size_t i = 1; i < p.size(); ++i) if (mcmp(p[i].first, p[b].first) > 0) b = i; return b; }
