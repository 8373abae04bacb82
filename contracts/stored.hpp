// Contracts for expressions kept in variables: memory lifetime (generated by irvc for every access), ownership of temporaries,
// reference to named operands (current values), copies, moves and returns.
#pragma once
#include <wave/geometry/dynamic.hpp>
#include "vecops.hpp"
#include "frames.hpp"
using namespace vc;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>; using PT = Pointd;
template <class A, class B> void sameVal(const A &a, const B &b) { ensureEq("value", view(a), view(b)); }
template <class J, class K> void same(const char *l, const J &a, const K &b) { ensureEqMat(l, a, b); }
template <class E, class G> void gives(const char *l, const E &e, const G &g) { Ctx c(l); sameVal(eval(e), g); sameVal(e.eval(), g); }
// the expression itself, copies of it, moved and returned copies, after their sources are gone
template <class E, class G> void survives(const char *l, const E &e, const G &g) {
    Ctx c(l); gives("itself", e, g);
    auto cp = e; gives("copy", cp, g); auto mv = std::move(cp); gives("moved", mv, g);
    auto rt = [&] { auto a = e; auto b = std::move(a); const auto k = b; return k; }(); gives("returned", rt, g);
    { Ctx d("consumed"); auto t = e; sameVal(std::move(t).eval(), g); sameVal(eval(E(e)), g); }
}
template <class E, class X, class J> void wrtLeaf(const E &e, const X &x, const J &ref) { Ctx c("jacobian"); same("auto", e.jacobian(x), ref); same("dynamic", internal::evaluateDynamicJacobian(e, x), ref); auto cp = e; same("copy", cp.jacobian(x), ref); }
template <class X, class F> void u1(F f) {
    In<X> x("x"), n("n");
    { Ctx c("named"); X a{x.leaf}; auto e = f(a); gives("before", e, eval(f(x.leaf))); auto cp = e; a = n.leaf; survives("after", e, eval(f(n.leaf))); gives("copied before", cp, eval(f(n.leaf))); wrtLeaf(e, a, f(n.leaf).jacobian(n.leaf)); }
    { Ctx c("temporary"); auto e = f(X{x.leaf}); survives("owned", e, eval(f(x.leaf))); }
    { Ctx c("given up"); X a{x.leaf}; auto e = f(std::move(a)); a = n.leaf; survives("owned", e, eval(f(x.leaf))); }
    { Ctx c("from function"); auto e = [&] { X a{x.leaf}; return f(std::move(a)); }(); survives("owned", e, eval(f(x.leaf))); }
}
template <class X, class Y, class F> void u2(F f) {
    In<X> x("x"), n("n"); In<Y> y("y"), m("m");
    { Ctx c("named, named"); X a{x.leaf}; Y b{y.leaf}; auto e = f(a, b); gives("before", e, eval(f(x.leaf, y.leaf))); auto cp = e; b = m.leaf; gives("right", e, eval(f(x.leaf, m.leaf))); a = n.leaf; survives("after", e, eval(f(n.leaf, m.leaf))); gives("copied before", cp, eval(f(n.leaf, m.leaf))); wrtLeaf(e, a, f(n.leaf, m.leaf).jacobian(n.leaf)); wrtLeaf(e, b, f(n.leaf, m.leaf).jacobian(m.leaf)); }
    { Ctx c("named, temporary"); X a{x.leaf}; auto e = f(a, Y{y.leaf}); a = n.leaf; survives("after", e, eval(f(n.leaf, y.leaf))); wrtLeaf(e, a, f(n.leaf, y.leaf).jacobian(n.leaf)); }
    { Ctx c("temporary, named"); Y b{y.leaf}; auto e = f(X{x.leaf}, b); b = m.leaf; survives("after", e, eval(f(x.leaf, m.leaf))); wrtLeaf(e, b, f(x.leaf, m.leaf).jacobian(m.leaf)); }
    { Ctx c("temporaries"); auto e = [&] { X a{x.leaf}; return f(std::move(a), Y{y.leaf}); }(); survives("owned", e, eval(f(x.leaf, y.leaf))); }
}
// inner expressions as operands: g builds the inner expression from a leaf, f the outer one from it and another leaf
template <class X, class Y, class G, class F> void nest(G g, F f) {
    In<X> x("x"), n("n"); In<Y> y("y"), m("m");
    { Ctx c("named inner"); X a{x.leaf}; Y b{y.leaf}; auto i = g(a); auto e = f(i, b); a = n.leaf; b = m.leaf; survives("after", e, eval(f(g(n.leaf), m.leaf))); wrtLeaf(e, a, f(g(n.leaf), m.leaf).jacobian(n.leaf)); wrtLeaf(e, b, f(g(n.leaf), m.leaf).jacobian(m.leaf)); }
    { Ctx c("temporary inner"); X a{x.leaf}; Y b{y.leaf}; auto e = f(g(a), b); a = n.leaf; b = m.leaf; survives("after", e, eval(f(g(n.leaf), m.leaf))); wrtLeaf(e, a, f(g(n.leaf), m.leaf).jacobian(n.leaf)); }
    { Ctx c("moved inner"); X a{x.leaf}; Y b{y.leaf}; auto e = [&] { auto i = g(a); return f(std::move(i), b); }(); a = n.leaf; survives("after", e, eval(f(g(n.leaf), y.leaf))); wrtLeaf(e, b, f(g(n.leaf), y.leaf).jacobian(y.leaf)); }
    { Ctx c("all owned"); auto e = [&] { auto i = g(X{x.leaf}); auto j = i; return f(std::move(j), Y{y.leaf}); }(); survives("owned", e, eval(f(g(x.leaf), y.leaf))); }
    { Ctx c("swapped into scope"); auto e = f(g(X{x.leaf}), Y{y.leaf}); { auto k = f(g(X{n.leaf}), Y{m.leaf}); e = k; } gives("assigned", e, eval(f(g(n.leaf), m.leaf))); { X a{x.leaf}; Y b{y.leaf}; e = f(g(std::move(a)), std::move(b)); } gives("move assigned", e, eval(f(g(x.leaf), y.leaf))); }
}
}
#define FW(x) std::forward<decltype(x)>(x)
#define U1(n, X, ...) H(G14_##n, u1<X>([](auto &&x) { return __VA_ARGS__; }))
#define U2(n, X, Y, ...) H(G14_##n, u2<X, Y>([](auto &&x, auto &&y) { return __VA_ARGS__; }))
#define NEST(n, X, Y, inner, ...) H(G14_##n, nest<X, Y>([](auto &&x) { return inner; }, [](auto &&x, auto &&y) { return __VA_ARGS__; }))
