// G16: contracts for identity and zero elements (instantiated by the G16*.cpp files).
#pragma once
#include "modes.hpp"
#include "vecops.hpp"
#include "explog.hpp"
using namespace vc;
namespace {
template <class L> struct neutral;
template <> struct neutral<M3> { static M3 get() { return eye(); } };
template <> struct neutral<Rigid> { static Rigid get() { return Rigid{eye(), v3(0, 0, 0)}; } };
template <class L> using absT = std::decay_t<decltype(view(std::declval<const L &>()))>;
template <class L> absT<L> idOf() { return neutral<absT<L>>::get(); }
inline RotationMd matOf(const M3 &m) { return RotationMd{eig(m)}; }
inline RigidTransformMd matOf(const Rigid &m) { return RigidTransformMd{eig(m)}; }
inline V3 zeroOf(const V3 &) { return v3(0, 0, 0); } inline Twist6 zeroOf(const Twist6 &) { return Twist6{v3(0, 0, 0), v3(0, 0, 0)}; }
// construction and assignment of every representation C from an expression e denoting the group element x
template <class C, class E, class X> void converts(const char *l, const E &e, const X &x) { Ctx c(l); const C a{e}; ensureEq("constructed", view(a), x); valid(a); C b{matOf(x)}; b = e; ensureEq("assigned", view(b), x); valid(b); }
template <class E> void toAll(const E &e, const M3 &x) { converts<RM>("to M", e, x); converts<RQ>("to Q", e, x); converts<RA>("to A", e, x); }
template <class E> void toAll(const E &e, const Rigid &x) { converts<TM>("to M", e, x); converts<TQ>("to Q", e, x); }
// all differentiation modes agree; K is the position of x among the leaves (reverse mode reports them in order)
template <int K, class E, class X> void ones(const E &e, const X &x) { one(e, x); if constexpr (internal::unique_leaves_t<E>{}) { Ctx c("reverse"); const auto t = e.evalWithJacobians(); sameVal(std::get<0>(t), eval(e)); same("x", std::get<K + 1>(t), internal::evaluateJacobian(e, x)); } }
// the identity alone
template <class L> void alone() {
    const auto I = L::Identity(); const Identity<L> I2{}; const auto x = idOf<L>();
    { Ctx c("I"); toAll(I, x); toAll(I2, x); toAll(eval(I), x); toAll(L::Identity(), x); ensureEq("value", view(L{I.value()}), x); }
    { Ctx c("inverse"); toAll(inverse(I), x); toAll(eval(inverse(I)), x); toAll(inverse(inverse(I)), x); toAll(inverse(L::Identity()), x); }
    { Ctx c("I*I"); toAll(I * I, x); toAll(eval(I * I2), x); toAll(inverse(I * I), x); }
    { Ctx c("log"); using TT = typename internal::traits<L>::TangentType; const TT r{log(I)}; ensureEq("", view(r), zeroOf(view(r))); TT s{r}; s = log(inverse(I * I)); ensureEq("", view(s), zeroOf(view(s))); toAll(exp(log(I)), x); }
    { Ctx c("I-I"); using TT = typename internal::traits<L>::TangentType; const TT r{I - I}; ensureEq("", view(r), zeroOf(view(r))); }
}
// composed with X on either side
template <class L, class X> void with() {
    In<X> x("x"); const auto I = L::Identity(); const auto &v = x.val(); const X &X0 = x.leaf;
    { Ctx c("I*X"); const auto e = I * X0; ensureEq("eval", view(X{eval(e)}), v); ensureJac("jacobian", v, e.jacobian(X0), x); ones<1>(e, X0); }
    { Ctx c("X*I"); const auto e = X0 * I; ensureEq("eval", view(X{eval(e)}), v); ensureJac("jacobian", v, e.jacobian(X0), x); ones<0>(e, X0); }
    { Ctx c("temporary"); ensureEq("I*X", view(X{L::Identity() * X{X0}}), v); ensureEq("X*I", view(X{X{X0} * L::Identity()}), v); }
    if constexpr (!std::is_same<X, RA>{}) { Ctx c("nested"); const auto e = X0 * (I * X0); const auto vv = compose(v, v); ensureEq("value", view(X{e}), vv); ensureJac("jacobian", vv, e.jacobian(X0), x); }
    { Ctx c("nested inverse"); const auto e = inverse(X0 * inverse(I)); const auto vv = inv(v); ensureEq("value", view(X{e}), vv); ensureJac("jacobian", vv, e.jacobian(X0), x); }
}
template <class L, class X, class C> void withTo() { In<X> x("x"); const auto I = L::Identity(); converts<C>("I*X", I * x.leaf, x.val()); converts<C>("X*I", x.leaf * I, x.val()); }
// applied to a vector
template <class L> void acts() {
    In<TR> v("v"); const auto I = L::Identity(); const auto &V = v.leaf;
    { Ctx c("I*v"); const auto e = I * V; ensureEq("value", view(TR{e}), v.v); ensureEq("eval", view(eval(e)), v.v); ensureJac("jacobian", v.v, e.jacobian(V), v); ones<1>(e, V); }
    { Ctx c("inverse(I)*v"); ensureEq("value", view(TR{inverse(I) * V}), v.v); ensureEq("temporary", view(TR{L::Identity() * TR{V}}), v.v); }
    { Ctx c("I*(2v)"); const auto e = I * (2.0 * V); ensureEq("value", view(TR{e}), 2.0 * v.v); ensureJac("jacobian", 2.0 * v.v, e.jacobian(V), v); ones<2>(e, V); }
}
template <class L, class X> void actsThrough() { In<X> x("x"); In<TR> v("v"); const auto I = L::Identity(); const auto &V = v.leaf; const X &X0 = x.leaf; const auto e = (X0 * I) * V; const V3 w = act(x.val(), v.v); ensureEq("value", view(TR{e}), w); ensureJac("vector", w, e.jacobian(V), v); ensureJac("transform", w, e.jacobian(X0), x); ones<2>(e, V); ones<0>(e, X0); }
// box-plus and box-minus: those of the full operation with a concrete identity put in
template <class L, class T> void plus() {
    In<T> t("t"); const auto I = L::Identity(); const auto &D = t.leaf; const L C{matOf(idOf<L>())};
    const auto e = I + D; const auto f = C + D;
    ensureEq("I+d", view(L{e}), view(L{f})); ensureEqMat("jacobian", e.jacobian(D), f.jacobian(D)); ensureEqMat("forward", internal::evaluateJacobian(e, D), f.jacobian(D)); ensureEqMat("dynamic", internal::evaluateDynamicJacobian(e, D), f.jacobian(D));
}
inline RM logIn(const PhiIn &p, RM *) { return RM{p.m()}; }
inline RQ logIn(const PhiIn &p, RQ *) { return RQ{p.q()}; }
inline RA logIn(const PhiIn &p, RA *) { return RA{Eigen::AngleAxisd(p.th, eig(p.a))}; }
template <class L, class X> void minus() {
    PhiIn p("P", true); const X X0 = logIn(p, static_cast<X *>(nullptr)); const auto I = L::Identity(); const L C{matOf(idOf<L>())};
    { Ctx c("X-I"); const auto e = X0 - I; const auto f = X0 - C; ensureEq("value", view(eval(e)), view(eval(f))); ensureNear("log", view(eval(e)), p.phi, 8 * EPS * p.th); ensureEqMat("jacobian", e.jacobian(X0), f.jacobian(X0)); }
    { Ctx c("I-X"); const auto e = I - X0; const auto f = C - X0; ensureEq("value", view(eval(e)), view(eval(f))); ensureNear("log", view(eval(e)), -p.phi, 8 * EPS * p.th); ensureEqMat("jacobian", e.jacobian(X0), f.jacobian(X0)); }
}
template <class L> void parts() {
    const auto I = L::Identity(); toAll(I.rotation(), eye()); const TR t{I.translation()}; ensureEq("translation", view(t), v3(0, 0, 0));
    In<TR> v("v"); ensureEq("rotation*v", view(TR{I.rotation() * v.leaf}), v.v); ensureEq("translation+v", view(TR{I.translation() + v.leaf}), v.v); In<RQ> q("q"); ensureEq("rotation*Q", view(RQ{I.rotation() * q.leaf}), q.val()); ensureEq("Q*rotation", view(RM{q.leaf * I.rotation()}), q.val());
}
// ------------------------------------------------------------- zero vectors
template <class E> void vIs(const char *l, const E &e, const Arr &x) { Ctx c(l); using L = std::decay_t<decltype(eval(e))>; valueIs(eval(e), x); (void)sizeof(L); }
template <class L, class E> void lIs(const char *l, const E &e, const Arr &x) { Ctx c(l); const L a{e}; valueIs(a, x); L b{a}; b = e; { Ctx d("assigned"); valueIs(b, x); } valueIs(eval(e), x); }
template <class V> void zeroVec() {
    Vin<V> v("v"); const auto Z = V::Zero(); const V &X = v.leaf; const Arr z = 0 * v.x, m = z - v.x;
    lIs<V>("Z", Z, z); lIs<V>("Zero<>", Zero<V>{}, z); lIs<V>("temporary", V::Zero(), z); { V w{X}; w = eval(Z); Ctx c("eval"); valueIs(w, z); valueIs(V{Z.value()}, z); }
    lIs<V>("Z+v", Z + X, v.x); lIs<V>("v+Z", X + Z, v.x); lIs<V>("Z+Z", Z + Z, z); lIs<V>("-Z", -Z, z); lIs<V>("v-Z", X - Z, v.x); lIs<V>("Z-v", Z - X, m); lIs<V>("Z-Z", Z - Z, z); lIs<V>("-(-Z)", -(-Z), z);
    lIs<V>("temporaries", V::Zero() + V{X}, v.x); lIs<V>("(v+Z)+v", (X + Z) + X, v.x + v.x); lIs<V>("v-(Z-v)", X - (Z - X), v.x + v.x); lIs<V>("v+(-Z)", X + (-Z), v.x);
    Vin<SD> s("s"); lIs<V>("2Z", 2.0 * Z, z); lIs<V>("Z*s", Z * s.leaf, z); { Ctx c("Z/s"); vc_assume_ne(s.x[0], 0); valueIs(V{Z / s.leaf}, z); }
    vIs("dot(Z,v)", dot(Z, X), arr(0.)); vIs("dot(v,Z)", dot(X, Z), arr(0.)); vIs("squaredNorm", Z.squaredNorm(), arr(0.)); vIs("norm", Z.norm(), arr(0.));
}
template <class V> void zeroVecJac() {
    Vin<V> v("v"); const auto Z = V::Zero(); const V &X = v.leaf; const Arr z = 0 * v.x, m = z - v.x;
    auto j = [&](const char *l, const auto &e, const Arr &x) { Ctx c(l); jacIs(e.jacobian(X), x, v); one(e, X); };
    j("Z+v", Z + X, v.x); j("v+Z", X + Z, v.x); j("v-Z", X - Z, v.x); j("Z-v", Z - X, m); j("(v+Z)+v", (X + Z) + X, v.x + v.x); j("2v+Z", 2.0 * X + Z, v.x + v.x); j("v+(-Z)", X + (-Z), v.x);
    j("dot(Z,v)", dot(Z, X), arr(0.)); j("dot(v,Z)", dot(X, Z), arr(0.));
    Vin<SD> s("s"); { Ctx c("Z*s"); jacIs((Z * s.leaf).jacobian(s.leaf), z, s); jacIs((s.leaf * Z).jacobian(s.leaf), z, s); }
}
void zeroPoint() {
    Vin<PT> p("p"); const auto Z = TR::Zero(); const PT &P = p.leaf;
    lIs<PT>("p+Z", P + Z, p.x); lIs<PT>("Z+p", Z + P, p.x); lIs<PT>("p-Z", P - Z, p.x); lIs<PT>("(p+Z)-Z", (P + Z) - Z, p.x);
    { Ctx c("p+Z"); jacIs((P + Z).jacobian(P), p.x, p); ones<0>(P + Z, P); } { Ctx c("Z+p"); jacIs((Z + P).jacobian(P), p.x, p); } { Ctx c("p-Z"); jacIs((P - Z).jacobian(P), p.x, p); }
    const auto O = PT::Zero(); const Arr z = 0 * p.x; lIs<PT>("O", O, z); Vin<TR> v("v"); lIs<PT>("O+v", PT{O} + v.leaf, v.x); lIs<TR>("p-O", P - PT{O}, p.x);
}
template <class X> void actZero() {
    In<X> x("x"); const auto Z = TR::Zero(); const X &X0 = x.leaf; const V3 w = act(x.val(), v3(0, 0, 0));
    const auto e = X0 * Z; ensureEq("X*Z", view(TR{e}), w); ensureEq("eval", view(eval(e)), w); ensureJac("jacobian", w, e.jacobian(X0), x); ones<0>(e, X0);
    const auto f = X0 * (-Z); ensureEq("X*(-Z)", view(TR{f}), w); ensureJac("jacobian -", w, f.jacobian(X0), x);
}
template <class V, class G> void expZero() {
    const auto Z = V::Zero(); const auto x = idOf<G>(); { Ctx c("exp(Z)"); toAll(exp(Z), x); toAll(eval(exp(Z)), x); toAll(exp(-Z), x); toAll(exp(Z + Z), x); toAll(inverse(exp(Z)), x); toAll(exp(V::Zero()), x); }
    { Ctx c("log(exp(Z))"); const V r{log(exp(Z))}; ensureEq("", view(r), zeroOf(view(r))); }
    In<V> v("v"); { Ctx c("exp(Z+v)"); const auto e = exp(Z + v.leaf); const auto f = exp(v.leaf); ensureEq("value", view(eval(e)), view(eval(f))); ensureEqMat("jacobian", e.jacobian(v.leaf), f.jacobian(v.leaf)); }
}
template <class X, class V> void addZero() {
    In<X> x("x"); const auto Z = V::Zero(); const X &X0 = x.leaf; const auto &v = x.val();
    { Ctx c("X+Z"); const auto e = X0 + Z; ensureEq("value", view(X{e}), v); ensureJac("jacobian", v, e.jacobian(X0), x); ones<0>(e, X0); }
    { Ctx c("exp(Z)*X"); const auto e = exp(Z) * X0; ensureEq("value", view(X{e}), v); ensureJac("jacobian", v, e.jacobian(X0), x); ones<1>(e, X0); }
    { Ctx c("X*exp(Z)"); const auto e = X0 * exp(Z); ensureEq("value", view(X{e}), v); ensureJac("jacobian", v, e.jacobian(X0), x); }
}
template <class X, class V, class C> void addTo() { In<X> x("x"); const auto Z = V::Zero(); converts<C>("X+Z", x.leaf + Z, x.val()); converts<C>("exp(Z)*X", exp(Z) * x.leaf, x.val()); }
void twistParts() { const auto Z = TW::Zero(); lIs<RR>("rotation", Z.rotation(), arr(v3(0, 0, 0))); lIs<TR>("translation", Z.translation(), arr(v3(0, 0, 0))); toAll(exp(Z.rotation()), eye()); Vin<RR> r("r"); lIs<RR>("rotation+r", Z.rotation() + r.leaf, r.x); }
// ------------------------------------------------------------- framed
struct FA; struct FB; struct FC;
template <class L> void framed() {
    In<L> x("x"); In<TR> u("u"); using F = Framed<L, FA, FB>; const F f{x.leaf.value()}; const auto &v = x.val();
    const auto I = Framed<L, FB, FC>::Identity(); const auto K = Framed<L, FC, FA>::Identity();
    { Ctx c("X*I"); const Framed<L, FA, FC> g{f * I}; ensureEq("value", view(g), v); ensureJac("jacobian", v, (f * I).jacobian(f), x); }
    { Ctx c("I*X"); const Framed<L, FC, FB> g{K * f}; ensureEq("value", view(g), v); ensureJac("jacobian", v, (K * f).jacobian(f), x); }
    { Ctx c("I"); const Framed<L, FB, FC> g{I}; ensureEq("value", view(g), idOf<L>()); const Framed<L, FC, FB> h{inverse(I)}; ensureEq("inverse", view(h), idOf<L>()); }
    using V = Framed<TR, FC, FC, FA>; const V w{u.leaf.value()}; { Ctx c("I*v"); const auto e = I * w; ensureEq("value", view(eval(e)), u.v); ensureJac("jacobian", u.v, e.jacobian(w), u); }
}
void framedZero() {
    In<TR> u("u"); const Framed<TR, FA, FA, FB> f{u.leaf.value()}; const auto Z = Framed<TR, FA, FB, FC>::Zero(); const auto e = f + Z;
    const Framed<TR, FA, FA, FC> g{e}; ensureEq("v+Z", view(g), u.v); ensureJac("jacobian", u.v, e.jacobian(f), u); const Framed<TR, FA, FB, FC> h{Z}; ensureEq("Z", view(h), v3(0, 0, 0));
}
}
