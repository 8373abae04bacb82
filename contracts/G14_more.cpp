// G14: stored expressions: built-in operands, parts of twists, constants, frames, conversions, proxies.
// NATIVE: asan
#include "stored.hpp"
namespace {
struct A_; struct B_; struct C_; struct D_;
// built-in number operands: named ones are referenced, temporaries owned
template <class X, class F> void num(F f) {
    In<X> x("x"), n("n"); const double d = vc_var_i("d", 0), c = vc_var_i("c", 0); vc_assume_ne(d, 0); vc_assume_ne(c, 0);
    { Ctx k("named number"); X a{x.leaf}; double z = d; auto e = f(a, z); gives("before", e, eval(f(x.leaf, d))); z = c; survives("number changed", e, eval(f(x.leaf, c))); a = n.leaf; survives("both changed", e, eval(f(n.leaf, c))); wrtLeaf(e, a, f(n.leaf, c).jacobian(n.leaf)); }
    { Ctx k("constant number"); const double z = d; X a{x.leaf}; auto e = f(a, z); survives("", e, eval(f(x.leaf, d))); }
    { Ctx k("temporary number"); X a{x.leaf}; auto e = [&] { double z = d; return f(a, z + 1.0 - 1.0); }(); a = n.leaf; survives("leaf changed", e, eval(f(n.leaf, d))); }
    { Ctx k("given up number"); auto e = [&] { double z = d; return f(X{x.leaf}, std::move(z)); }(); survives("", e, eval(f(x.leaf, d))); }
    { Ctx k("number and expression"); X a{x.leaf}; double z = d; auto e = f(-a, z); z = c; a = n.leaf; survives("", e, eval(f(-n.leaf, c))); }
    { Ctx k("inner owned"); auto e = [&] { X a{x.leaf}; auto i = -std::move(a); return f(std::move(i), 0.0 + d); }(); survives("", e, eval(f(-x.leaf, d))); }
}
}
#define NUM(n, X, ...) H(G14_num_##n, num<X>([](auto &&x, auto &&y) { return __VA_ARGS__; }))
NUM(mulr, TR, FW(x) * FW(y)) NUM(mull, TR, FW(y) * FW(x)) NUM(div, TR, FW(x) / FW(y)) NUM(divs, SD, FW(x) / FW(y)) NUM(adds, SD, FW(x) + FW(y)) NUM(subs, SD, FW(y) - FW(x)) NUM(twist, TW, FW(y) * FW(x))
U1(twist_rot, TW, FW(x).rotation() + FW(x).rotation()) U1(twist_tr, TW, -FW(x).translation())
H(G14_twist_parts, { In<TW> x("x"), n("n"); In<RM> R("R"); In<RR> r("r");
  { Ctx c("temporary"); auto e = R.leaf * TW{x.leaf}.translation(); auto f = TW{x.leaf}.rotation() + r.leaf; ensureEq("tr", view(eval(e)), mul(R.R, x.x.v)); ensureEq("rot", view(eval(f)), x.x.w + r.v); auto g = eval(x.leaf + n.leaf).translation() - TR{eig(x.x.v)}; ensureEq("evaluated", view(eval(g)), n.x.v); }
  { Ctx c("named"); TW a{x.leaf}; auto e = R.leaf * a.translation(); auto f = a.rotation() + r.leaf; const auto &k = a; auto h = k.rotation() - r.leaf; a = n.leaf; ensureEq("tr", view(eval(e)), mul(R.R, n.x.v)); ensureEq("rot", view(eval(f)), n.x.w + r.v); ensureEq("const rot", view(eval(h)), n.x.w - r.v); } })
U1(identity, RM, Identity<RM>{} * FW(x)) U1(identity_q, RQ, FW(x) * Identity<RQ>{}) U1(zero, TR, Zero<TR>{} + FW(x)) U1(zero_sub, TR, FW(x) - Zero<TR>{}) U1(identity_act, TR, Identity<RM>{} * FW(x))
U1(conv, RA, FW(x) * Translationd{1., 2., 3.})
U1(framed, RM, frame_cast<A_, B_>(FW(x)) * frame_cast<B_, C_>(inverse(RQ{RQ::Identity()}))) U1(framed_inv, RQ, inverse(frame_cast<A_, B_>(FW(x))))
U2(framed_act, RM, TR, frame_cast<A_, B_>(FW(x)) * frame_cast<B_, B_, C_>(FW(y))) U2(framed_chain, TQ, RM, frame_cast<A_, B_>(FW(x)).rotation() * frame_cast<B_, C_>(FW(y))) U2(framed_add, TR, TR, frame_cast<A_, B_, C_>(FW(x)) + frame_cast<A_, C_, D_>(FW(y)))
U2(boxplus_R, RM, RR, FW(x) + FW(y)) U2(boxplus_Q, RQ, RR, FW(x) + FW(y))
U1(exp, RR, exp(FW(x))) U1(exp_T, TW, exp(FW(x)))
H(G14_framed_leaf, { In<RM> R("R"), n("n"); In<TR> v("v"); using FR = Framed<RM, A_, B_>; using FT = Framed<TR, B_, B_, C_>; FR a{R.leaf.value()}; FT b{v.leaf.value()}; auto e = a * b; auto f = inverse(a) * FR{n.leaf.value()}; auto g = FR{R.leaf.value()} * b; a = FR{n.leaf.value()}; ensureEq("act", view(eval(e)), mul(n.R, v.v)); ensureEq("owned right", view(eval(f)), eye()); ensureEq("owned left", view(eval(g)), mul(R.R, v.v)); b = FT{eig(v.v + v.v)}; ensureEq("act 2", view(eval(e)), mul(n.R, v.v + v.v)); same("jacobian", e.jacobian(b), eig(n.R)); })
H(G14_deep, { In<RM> R("R"), n("n"); In<RQ> Q("Q"); In<TR> v("v"), w("w"), nv("nv"); In<SD> s("s"); RM a{R.leaf}; TR b{v.leaf};
  auto make = [&](TR &x) { auto i = inverse(a) * x; auto j = std::move(i) + TR{w.leaf}; return SD{s.leaf} * (RQ{Q.leaf} * std::move(j)); };
  auto e = make(b); auto f = e - b; auto g = f; auto spec = [&](const M3 &A, V3 x) { return s.x * mul(Q.R, mul(tr(A), x) + w.v); };
  ensureEq("value", view(eval(e)), spec(R.R, v.v)); a = n.leaf; ensureEq("value 2", view(eval(e)), spec(n.R, v.v)); ensureEq("outer", view(eval(f)), spec(n.R, v.v) - v.v); b = nv.leaf; ensureEq("value 3", view(eval(e)), spec(n.R, nv.v)); ensureEq("outer copy", view(eval(g)), spec(n.R, nv.v) - nv.v);
  same("jacobian", g.jacobian(b), Eigen::Matrix3d(s.x * eig(mul(Q.R, tr(n.R))) - Eigen::Matrix3d::Identity())); })
H(G14_history, { In<RM> R("R"), n("n"); In<TR> v("v"), nv("nv"); RM a{R.leaf}; TR b{v.leaf}; auto e = a * b; auto f = inverse(a) * e;
  const auto j0 = e.jacobian(b); a = n.leaf; const auto y = eval(e); const auto j1 = e.jacobian(b); b = nv.leaf; const auto j2 = internal::evaluateDynamicJacobian(f, b); b = TR{a * b}; const auto z = e.eval(); a = RM{a * a}; const auto j3 = e.evalWithJacobians(b);
  same("before", j0, eig(R.R)); ensureEq("first", view(y), mul(n.R, v.v)); same("second", j1, eig(n.R)); same("both", j2, eig(eye())); ensureEq("updated by itself", view(z), mul(n.R, mul(n.R, nv.v))); ensureEq("value", view(std::get<0>(j3)), mul(mul(n.R, n.R), mul(n.R, nv.v))); same("third", std::get<1>(j3), eig(mul(n.R, n.R))); })
H(G14_dynamic, { In<RM> R("R"), n("n"); In<TR> v("v"), nv("nv"); TR b{v.leaf}; auto d = [&] { auto k = makeDynamic(RM{R.leaf} * b); ensureEq("inside", view(eval(ref(k) + b)), mul(R.R, v.v) + v.v); return k; }(); auto c = d; auto e = ref(c) - b; b = nv.leaf; ensureEq("copied", view(eval(e)), mul(R.R, nv.v) - nv.v); same("jacobian", internal::evaluateDynamicJacobian(e, b), Eigen::Matrix3d(eig(R.R) - Eigen::Matrix3d::Identity())); auto m = std::move(d); auto g = ref(m) + b; same("moved", g.jacobian(b), Eigen::Matrix3d(eig(R.R) + Eigen::Matrix3d::Identity())); ensureEq("moved", view(eval(g)), mul(R.R, nv.v) + nv.v); })
H(G14_proxy, { In<RM> R("R"); In<TR> v("v"), nv("nv"); TR b{v.leaf}; auto e = [&] { auto p = makeProxy(RM{R.leaf} * b); auto q = makeProxy(inverse(RM{R.leaf}) * p); return q + TR{nv.leaf}; }(); b = nv.leaf; ensureEq("outlives its proxies", view(eval(e)), nv.v + nv.v); auto c = e; e = makeProxy(TR{v.leaf}) + TR{v.leaf}; ensureEq("rebound", view(eval(e)), v.v + v.v); ensureEq("copy", view(eval(c)), nv.v + nv.v); })
