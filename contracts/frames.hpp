// Side-by-side contracts: expressions over framed operands (or frame casts) against the same expression over bare operands.
#pragma once
#include "wvc.hpp"
#include <wave/geometry/dynamic.hpp>
using namespace vc;
namespace {
struct FA; struct FB; struct FC; struct FD;
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>; using PT = Pointd;
// a framed leaf with the same number as a bare one
template <class... F> struct fs {};
template <class... F, class L> Framed<L, F...> fr_(fs<F...>, const L &x) { return Framed<L, F...>{x.value()}; }
template <class... F, class Q, class V> Framed<CompactRigidTransform<Q, V>, F...> fr_(fs<F...>, const CompactRigidTransform<Q, V> &x) { return Framed<CompactRigidTransform<Q, V>, F...>{x.rotationBlock(), x.translationBlock()}; }
template <class F, class L> auto fr(const L &x) { return fr_(F{}, x); }
// frame_cast in the framed expression, nothing in the bare one
struct casts { template <class... F, class E> auto operator()(fs<F...>, E &&e) const { return frame_cast<F...>(std::forward<E>(e)); } };
struct nocasts { template <class F, class E> std::decay_t<E> operator()(F, E &&e) const { return std::forward<E>(e); } };
using AB = fs<FA, FB>; using AC = fs<FA, FC>; using BC = fs<FB, FC>; using CB = fs<FC, FB>; using BBC = fs<FB, FB, FC>; using AAB = fs<FA, FA, FB>; using ABC = fs<FA, FB, FC>; using ACD = fs<FA, FC, FD>; using ABD = fs<FA, FB, FD>; using BCD = fs<FB, FC, FD>; using NNN = fs<NoFrame, NoFrame, NoFrame>;
template <class A, class B> void sameVal(const char *l, const A &a, const B &b) { Ctx c(l); ensureEq("value", view(eval(a)), view(eval(b))); }
template <class JA, class JB> void sameJ(const char *l, const JA &a, const JB &b) { ensureEqMat(l, a, b); }
#ifdef FRAMES_MODES
template <class E, class X, class J> void jac(const E &e, const X &x, const J &ref) {
    sameJ("forward", internal::evaluateJacobian(e, x), ref); sameJ("dynamic", internal::evaluateDynamicJacobian(e, x), ref);
    sameJ("dynamic with", std::get<1>(internal::evaluateWithDynamicJacobians(e, x)), ref);
    sameJ("dynamic reverse", internal::evaluateWithDynamicReverseJacobians(e).second.at(&x), ref);
    if constexpr (internal::unique_leaves_t<E>{}) { sameJ("typed", internal::evaluateTypedJacobian(e, x), ref); }
}
#else
template <class E, class X, class J> void jac(const E &e, const X &x, const J &ref) { sameJ("jacobian", e.jacobian(x), ref); auto t = e.evalWithJacobians(x); sameVal("with", std::get<0>(t), e); sameJ("with", std::get<1>(t), ref); }
#endif
// e over xf, yf...; b the same expression over bare x, y...
template <class E, class B, class XF, class X> void side1(const E &e, const B &b, const XF &xf, const X &x) { sameVal("", e, b); jac(e, xf, b.jacobian(x)); }
template <class E, class B, class XF, class X, class YF, class Y> void side2(const E &e, const B &b, const XF &xf, const X &x, const YF &yf, const Y &y) {
    sameVal("", e, b); { Ctx c("x"); jac(e, xf, b.jacobian(x)); } { Ctx c("y"); jac(e, yf, b.jacobian(y)); }
#ifndef FRAMES_MODES
    if constexpr (internal::unique_leaves_t<E>{} && internal::unique_leaves_t<B>{}) { auto t = e.evalWithJacobians(); auto u = b.evalWithJacobians(); sameVal("reverse", std::get<0>(t), b); sameJ("reverse 1", std::get<1>(t), std::get<1>(u)); sameJ("reverse 2", std::get<2>(t), std::get<2>(u)); }
    auto t = e.evalWithJacobians(xf, yf); sameJ("both 1", std::get<1>(t), b.jacobian(x)); sameJ("both 2", std::get<2>(t), b.jacobian(y));
#endif
}
}
