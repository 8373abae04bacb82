// Contracts for Proxy and RefProxy: in every context, the same value and Jacobians as the static expression with the held
// expression written in place.
#pragma once
#include <wave/geometry/dynamic.hpp>
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace {
template <class J, class K> void same(const char *l, const J &a, const K &b) { ensureEqMat(l, a, b); }
template <class A, class B> void sameVal(const A &a, const B &b) { Ctx c("value"); ensureEq("", view(a), view(b)); }
inline Eigen::Matrix3d mat3eig(const M3 &m) { return eig(m); }
// d: expression containing proxies, e: the static expression it must equal; x: object to differentiate by
template <class D, class E, class X> void wrt(const D &d, const E &e, const X &x) {
    const auto ref = internal::evaluateJacobian(e, x); const auto v = eval(e);
    { Ctx c("auto"); same("jacobian", d.jacobian(x), ref); const auto t = d.evalWithJacobians(x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
    { Ctx c("forward"); same("jacobian", internal::evaluateJacobian(d, x), ref); }
    { Ctx c("dynamic"); same("jacobian", internal::evaluateDynamicJacobian(d, x), ref); const auto t = internal::evaluateWithDynamicJacobians(d, x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
    { Ctx c("dynamic reverse"); const auto t = internal::evaluateWithDynamicReverseJacobians(d); sameVal(t.first, v); const auto u = internal::evaluateWithDynamicReverseJacobians(e); vc_ensure("present", t.second.count(&x) == u.second.count(&x)); if (t.second.count(&x)) same("at", t.second.at(&x), ref); }
}
template <class T, class U, std::size_t... I> void all(const T &t, const U &u, std::index_sequence<I...>) { sameVal(std::get<0>(t), std::get<0>(u)); (same(IX[I], std::get<I + 1>(t), std::get<I + 1>(u)), ...); }
template <class D, class E, class... X> void agrees(const char *l, const D &d, const E &e, const X &... x) {
    Ctx c(l); sameVal(eval(d), eval(e)); sameVal(d.eval(), eval(e));
    int k = 0; ((vc_push(IX[k++]), wrt(d, e, x), vc_pop()), ...);
    { Ctx c("all"); const auto t = d.evalWithJacobians(x...); const auto u = internal::evaluateWithJacobians(e, x...); all(t, u, std::index_sequence_for<X...>{}); }
}
// in builds the held expression, out the context around it
template <class I, class O> void held(I in, O out) {
    In<TR> v("v"), w("w"); In<RM> R("R"); In<RQ> Q("Q"); In<TM> T("T"); In<TQ> U("U"); In<SD> s("s"); In<RR> r("r"); vc_assume_ne(s.x, 0);
    const TR &V = v.leaf, &W = w.leaf; const RM &A = R.leaf; const RQ &B = Q.leaf; const TM &C = T.leaf; const TQ &D = U.leaf; const SD &S = s.leaf; const RR &F = r.leaf;
    const auto inner = in(V, W, A, B, C, D, S, F); const auto e = out(inner, V, W, A, B, C, D, S, F);
    const auto px = makeProxy(in(V, W, A, B, C, D, S, F)); const auto d = out(px, V, W, A, B, C, D, S, F);
    agrees("proxy", d, e, V, A, B, C, S);
}
}

#define USE (void)v; (void)w; (void)R; (void)Q; (void)T; (void)U; (void)s; (void)r;
#define HELD(n, e, m, o) H(G15_##n##_##m, held([](const auto &v, const auto &w, const auto &R, const auto &Q, const auto &T, const auto &U, const auto &s, const auto &r) { USE return e; }, [](const auto &x, const auto &v, const auto &w, const auto &R, const auto &Q, const auto &T, const auto &U, const auto &s, const auto &r) { USE return o; }))
#define VC(n, e) HELD(v_##n, e, self, x + v) HELD(v_##n, e, rot, R * x) HELD(v_##n, e, nest, inverse(Q) * (x - (w + x))) HELD(v_##n, e, dot, dot(x, w) * x.squaredNorm()) HELD(v_##n, e, trans, T * (-x)) HELD(v_##n, e, scale, (s * x) / s)
#define RC(n, e) HELD(r_##n, e, act, x * v) HELD(r_##n, e, left, x * Q) HELD(r_##n, e, right, R * inverse(x)) HELD(r_##n, e, twice, x * x)
