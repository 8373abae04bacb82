// Agreement of the differentiation modes on library operations.
#pragma once
#include "opaque_modes.hpp"
using namespace vc; using namespace opq;
namespace {
using TR = Translationd; using RR = RelativeRotationd; using TW = Twistd; using SD = Scalar<double>; using PT = Pointd;
template <class A, class B> void sameVal(const A &a, const B &b) { Ctx c("value"); ensureEq("", view(a), view(b)); }
template <class JA, class JB> void same(const char *l, const JA &a, const JB &b) { ensureEqMat(l, a, b); }
template <class E, class X> void one(const E &e, const X &x) {
    const auto v = eval(e); const auto ref = internal::evaluateDynamicJacobian(e, x);
    vc_ensure("shape", ref.cols() == internal::traits<X>::TangentSize);
    { Ctx c("auto"); same("jacobian", e.jacobian(x), ref); auto t = e.evalWithJacobians(x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
    { Ctx c("forward"); same("jacobian", internal::evaluateJacobian(e, x), ref); auto t = internal::evaluateWithJacobians(e, x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
    { Ctx c("dynamic"); auto t = internal::evaluateWithDynamicJacobians(e, x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
    { Ctx c("dynamic reverse"); auto t = internal::evaluateWithDynamicReverseJacobians(e); sameVal(t.first, v); same("at", t.second.at(&x), ref); }
    if constexpr (internal::unique_leaves_t<E>{}) { Ctx c("typed"); same("jacobian", internal::evaluateTypedJacobian(e, x), ref); auto t = internal::evaluateWithTypedJacobians(e, x); sameVal(std::get<0>(t), v); same("with", std::get<1>(t), ref); }
}
template <class E> void all(const E &e) { vc_ensure("has leaves", true); }
template <class E, class X> void all(const E &e, const X &x) { { Ctx c("x"); one(e, x); } if constexpr (internal::unique_leaves_t<E>{}) { Ctx c("reverse"); auto t = e.evalWithJacobians(); sameVal(std::get<0>(t), eval(e)); same("x", std::get<1>(t), internal::evaluateDynamicJacobian(e, x)); } }
// orders and repetitions
template <class E, class X, class Y> void all(const E &e, const X &x, const Y &y) {
    { Ctx c("x"); one(e, x); } { Ctx c("y"); one(e, y); }
    const auto jx = internal::evaluateDynamicJacobian(e, x); const auto jy = internal::evaluateDynamicJacobian(e, y);
    { Ctx c("xy"); auto t = e.evalWithJacobians(x, y); same("x", std::get<1>(t), jx); same("y", std::get<2>(t), jy); }
    { Ctx c("yx"); auto t = e.evalWithJacobians(y, x); same("y", std::get<1>(t), jy); same("x", std::get<2>(t), jx); }
    { Ctx c("xyx"); auto t = internal::evaluateWithJacobians(e, x, y, x); same("x", std::get<1>(t), jx); same("y", std::get<2>(t), jy); same("x again", std::get<3>(t), jx); }
    { Ctx c("yxy"); auto t = internal::evaluateWithDynamicJacobians(e, y, x, y); same("y", std::get<1>(t), jy); same("x", std::get<2>(t), jx); same("y again", std::get<3>(t), jy); }
    if constexpr (internal::unique_leaves_t<E>{}) { { Ctx c("typed yxy"); auto t = internal::evaluateWithTypedJacobians(e, y, x, y); same("y", std::get<1>(t), jy); same("x", std::get<2>(t), jx); same("y again", std::get<3>(t), jy); }
        { Ctx c("reverse"); auto t = e.evalWithJacobians(); sameVal(std::get<0>(t), eval(e)); same("x", std::get<1>(t), jx); same("y", std::get<2>(t), jy); } }
}
template <class E, class X, class Y, class Z> void all(const E &e, const X &x, const Y &y, const Z &z) {
    { Ctx c("x"); one(e, x); } { Ctx c("y"); one(e, y); } { Ctx c("z"); one(e, z); }
    const auto jx = internal::evaluateDynamicJacobian(e, x); const auto jy = internal::evaluateDynamicJacobian(e, y); const auto jz = internal::evaluateDynamicJacobian(e, z);
    { Ctx c("zxy"); auto t = e.evalWithJacobians(z, x, y); same("z", std::get<1>(t), jz); same("x", std::get<2>(t), jx); same("y", std::get<3>(t), jy); }
    { Ctx c("zy"); auto t = internal::evaluateWithDynamicJacobians(e, z, y); same("z", std::get<1>(t), jz); same("y", std::get<2>(t), jy); }
    if constexpr (internal::unique_leaves_t<E>{}) { Ctx c("reverse"); auto t = e.evalWithJacobians(); sameVal(std::get<0>(t), eval(e)); same("x", std::get<1>(t), jx); same("y", std::get<2>(t), jy); same("z", std::get<3>(t), jz); }
}
template <class X, class F> void h1(F f) { In<X> x("x"); all(f(x.leaf), x.leaf); }
template <class X, class Y, class F> void h2(F f) { In<X> x("x"); In<Y> y("y"); all(f(x.leaf, y.leaf), x.leaf, y.leaf); }
template <class X, class Y, class Z, class F> void h3(F f) { In<X> x("x"); In<Y> y("y"); In<Z> z("z"); all(f(x.leaf, y.leaf, z.leaf), x.leaf, y.leaf, z.leaf); }
}
#define T1(n, X, ...) H(G10_##n, h1<X>([](const auto &x) { return __VA_ARGS__; }))
#define T2(n, X, Y, ...) H(G10_##n, h2<X, Y>([](const auto &x, const auto &y) { return __VA_ARGS__; }))
#define T3(n, X, Y, Z, ...) H(G10_##n, h3<X, Y, Z>([](const auto &x, const auto &y, const auto &z) { return __VA_ARGS__; }))
