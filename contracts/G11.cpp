// G11: Jacobians are taken with respect to the identity of the object given.
// SCOPE: internal
#include "opaque_modes.hpp"
using namespace vc; using namespace opq;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>; using PT = Pointd;
template <class J> void isZero(const char *l, const J &j, int r, int c) { Ctx k(l); vc_ensure("shape", j.rows() == r && j.cols() == c); for (int i = 0; i < j.rows(); ++i) { Ctx d(IX[i]); for (int n = 0; n < j.cols(); ++n) vc_ensure_eq(IX[n], j.coeff(i, n), 0); } }
template <class J> void isEye(const char *l, const J &j, int r) { Ctx k(l); vc_ensure("shape", j.rows() == r && j.cols() == r); for (int i = 0; i < j.rows(); ++i) { Ctx d(IX[i]); for (int n = 0; n < j.cols(); ++n) vc_ensure_eq(IX[n], j.coeff(i, n), i == n ? 1 : 0); } }
// a leaf with respect to itself, a copy of itself and an unrelated object
template <class L> void leafSelf() {
    In<L> x("x"); const L other{x.leaf}; constexpr int n = internal::traits<L>::TangentSize;
    { Ctx c("self"); isEye("auto", x.leaf.jacobian(x.leaf), n); isEye("forward", internal::evaluateJacobian(x.leaf, x.leaf), n); isEye("dynamic", internal::evaluateDynamicJacobian(x.leaf, x.leaf), n); isEye("typed", internal::evaluateTypedJacobian(x.leaf, x.leaf), n); isEye("reverse", std::get<1>(x.leaf.evalWithJacobians()), n); isEye("with", std::get<1>(x.leaf.evalWithJacobians(x.leaf)), n); isEye("dynamic reverse", internal::evaluateWithDynamicReverseJacobians(x.leaf).second.at(&x.leaf), n); }
    { Ctx c("copy"); isZero("forward", internal::evaluateJacobian(x.leaf, other), n, n); isZero("dynamic", internal::evaluateDynamicJacobian(x.leaf, other), n, n); isZero("with", std::get<1>(internal::evaluateWithJacobians(x.leaf, other)), n, n); vc_ensure("dynamic reverse", internal::evaluateWithDynamicReverseJacobians(x.leaf).second.count(&other) == 0); }
}
// an expression with respect to objects that do not occur in it
template <class E, class A, class O> void absent(const E &e, const A &same, const O &unrelated) {
    constexpr int n = internal::eval_traits<E>::TangentSize, m = internal::traits<A>::TangentSize, o = internal::traits<O>::TangentSize;
    if constexpr (!internal::unique_leaves_t<E>{}) { Ctx c("auto"); isZero("equal value", e.jacobian(same), n, m); isZero("with", std::get<1>(e.evalWithJacobians(same)), n, m); }
    { Ctx c("auto"); isZero("unrelated type", e.jacobian(unrelated), n, o); isZero("unrelated type, with", std::get<1>(e.evalWithJacobians(unrelated)), n, o); }
    { Ctx c("forward"); isZero("equal value", internal::evaluateJacobian(e, same), n, m); isZero("unrelated type", internal::evaluateJacobian(e, unrelated), n, o); auto t = internal::evaluateWithJacobians(e, unrelated, same); isZero("with1", std::get<1>(t), n, o); isZero("with2", std::get<2>(t), n, m); }
    { Ctx c("dynamic"); isZero("equal value", internal::evaluateDynamicJacobian(e, same), n, m); isZero("unrelated type", internal::evaluateDynamicJacobian(e, unrelated), n, o); auto t = internal::evaluateWithDynamicJacobians(e, same, unrelated); isZero("with1", std::get<1>(t), n, m); isZero("with2", std::get<2>(t), n, o); }
    { Ctx c("dynamic reverse"); auto t = internal::evaluateWithDynamicReverseJacobians(e); vc_ensure("equal value", t.second.count(&same) == 0); vc_ensure("unrelated", t.second.count(&unrelated) == 0); }
}
// only the occurrences of the given object contribute: x by reference (slot 0), an equal-valued named copy (slot 1), owned copies (no slot)
template <class L, class F> void occ(F f) { In<L> x("x"); const L y{x.leaf}; Sp a = leafSp(col(x.leaf), 0), b = leafSp(col(x.leaf), 1), own = leafSp(col(x.leaf), 9); const auto e = f(x.leaf, y, [&] { return L{x.leaf}; }); modes<AUTO | FWD | DYN | DYNREV>(e, f(a, b, [&] { return own; }), x.leaf, y); }
}
#define S(n, L) H(G11_self_##n, leafSelf<L>())
S(M, RM) S(Q, RQ) S(A, RA) S(TM, TM) S(TQ, TQ) S(v, TR) S(r, RR) S(t, TW) S(p, PT) S(s, SD)
#define A(n, X, O, ...) H(G11_absent_##n, { In<X> x("x"); In<X> y("y"); const X same{x.leaf}; In<O> o("o"); absent(__VA_ARGS__, same, o.leaf); })
A(sum, TR, RR, x.leaf + y.leaf)
A(one, TR, RR, -x.leaf)
A(dot, TR, TW, dot(x.leaf, x.leaf))
A(comp, RM, RQ, x.leaf * y.leaf)
A(compT, TQ, TR, inverse(x.leaf) * y.leaf)
A(opq_u, TR, SD, v1(x.leaf))
A(opq_b, TR, SD, v2(v1(x.leaf), w1(y.leaf)))
A(opq_owned, TR, SD, v2(v1(TR{x.leaf}), y.leaf))
A(points, PT, TR, x.leaf - y.leaf)
A(norm, TR, SD, x.leaf.norm() * y.leaf.squaredNorm()) 
#define O(n, L, ...) H(G11_occ_##n, occ<L>([](auto &x, auto &y, auto own) { (void)own; return __VA_ARGS__; }))
O(xx, TR, v2(x, x))
O(xy, TR, v2(x, y))
O(yx, TR, v2(y, x))
O(xo, TR, v2(x, own()))
O(ox, TR, v2(own(), x))
O(oo, TR, v2(own(), own()))
O(nested, TR, v2(w2(x, y), r2(own(), x)))
O(nested2, TR, v2(v1(x), w2(x, w1(own()))))
O(four, TR, v2(w2(x, x), r2(x, x)))
O(scal, SD, v2(v1(x), s2(y, x)))
