// G07: vector, point and scalar arithmetic evaluates as written; every operand form (named, temporary, expression).
#include "vecops.hpp"
using namespace vc;
namespace {
template <class A, class B> void add() { Vin<A> a("a"); Vin<B> b("b"); valueForms(a, b, a.x + b.x, Add{}); }
template <class A, class B> void sub() { Vin<A> a("a"); Vin<B> b("b"); valueForms(a, b, a.x - b.x, Sub{}); }
template <class A> void dots() { Vin<A> a("a"), b("b"); valueForms(a, b, one(dot(a.x, b.x)), Dot_{}); valueForms(a, a, one(dot(a.x, a.x)), Dot_{}); }
template <class A> void self() { Vin<A> a("a"); valueForms(a, a, a.x + a.x, Add{}); valueForms(a, a, a.x - a.x, Sub{}); }
template <class A, class S> void scale() { Vin<A> a("a"); S s("s"); valueForms(s, a, s.x[0] * a.x, Mul{}); valueForms(a, s, s.x[0] * a.x, Mul{}); }
template <class A, class S> void divide() { Vin<A> a("a"); S s("s"); vc_assume_ne(s.x[0], 0); valueForms(a, s, a.x / s.x[0], Div{}); }
template <class A> void unary() { Vin<A> a("a"); valueForms1(a, -1 * a.x, Neg{}); }
template <class A> void norms() { Vin<A> a("a"); const double n2 = dot(a.x, a.x); valueForms1(a, one(n2), SqN{}); valueForms1(a, one(sqrt(n2)), Nrm{}); vc_assume_lt(0, n2); valueForms1(a, a.x / sqrt(n2), Nzd{}); }
template <class A, class B> void scalarOps() {
    A a("a"); B b("b"); valueForms(a, b, a.x + b.x, Add{}); valueForms(a, b, a.x - b.x, Sub{}); valueForms(a, b, a.x[0] * b.x, Mul{}); vc_assume_ne(b.x[0], 0); valueForms(a, b, a.x / b.x[0], Div{});
}
// built-in integers are exact operands on either side
template <int K> void ints() {
    Vin<SD> s("s"); Vin<TR> v("v"); const int k = K; const double x = s.x[0];
    valueIs(eval(k + s.leaf), one(k + x)); valueIs(eval(s.leaf + k), one(x + k)); valueIs(eval(k - s.leaf), one(k - x)); valueIs(eval(s.leaf - k), one(x - k)); valueIs(eval(k * s.leaf), one(k * x)); valueIs(eval(s.leaf * k), one(k * x)); valueIs(eval(s.leaf / k), one(x / k));
    valueIs(eval(k * v.leaf), double(k) * v.x); valueIs(eval(v.leaf * k), double(k) * v.x); valueIs(eval(v.leaf / k), v.x / double(k)); valueIs(eval(K + (K - s.leaf)), one(K + (K - x)));
    vc_assume_ne(x, 0); valueIs(eval(k / s.leaf), one(k / x)); valueIs(eval(K / s.leaf * v.leaf), (K / x) * v.x);
}
template <class L, class E> void outForms(const E &e, const Arr &x) { { Ctx c("construct"); const L l{e}; valueIs(l, x); } { Ctx c("assign"); L l; l = e; valueIs(l, x); } }
}
H(G07_add_T, add<TR, TR>()) H(G07_add_R, add<RR, RR>()) H(G07_add_W, add<TW, TW>()) H(G07_add_PT, add<PT, TR>()) H(G07_add_TP, add<TR, PT>())
H(G07_sub_T, sub<TR, TR>()) H(G07_sub_R, sub<RR, RR>()) H(G07_sub_W, sub<TW, TW>()) H(G07_sub_PP, sub<PT, PT>()) H(G07_sub_PT, sub<PT, TR>())
H(G07_dot_T, dots<TR>()) H(G07_dot_R, dots<RR>()) H(G07_dot_W, dots<TW>())
H(G07_self_T, self<TR>()) H(G07_self_R, self<RR>()) H(G07_self_W, self<TW>()) H(G07_self_S, self<SD>())
H(G07_scale_T, scale<TR, Vin<SD>>()) H(G07_scale_R, scale<RR, Vin<SD>>()) H(G07_scale_W, scale<TW, Vin<SD>>())
H(G07_scaleD_T, scale<TR, Din>()) H(G07_scaleD_R, scale<RR, Din>()) H(G07_scaleD_W, scale<TW, Din>())
H(G07_divide_T, divide<TR, Vin<SD>>()) H(G07_divide_R, divide<RR, Vin<SD>>()) H(G07_divide_W, divide<TW, Vin<SD>>())
H(G07_divideD_T, divide<TR, Din>()) H(G07_divideD_R, divide<RR, Din>()) H(G07_divideD_W, divide<TW, Din>())
H(G07_neg_T, unary<TR>()) H(G07_neg_R, unary<RR>()) H(G07_neg_W, unary<TW>()) H(G07_neg_S, unary<SD>())
H(G07_norms_T, norms<TR>()) H(G07_norms_R, norms<RR>()) H(G07_norms_W, norms<TW>())
H(G07_scalar_SS, scalarOps<Vin<SD>, Vin<SD>>()) H(G07_scalar_SD, scalarOps<Vin<SD>, Din>()) H(G07_scalar_DS, scalarOps<Din, Vin<SD>>())
H(G07_int_1, ints<1>()) H(G07_int_2, ints<2>()) H(G07_int_m3, ints<-3>()) H(G07_int_7, ints<7>())
H(G07_acos, { Vin<SD> a("a"); vc_assume_lt(-1, a.x[0]); vc_assume_lt(a.x[0], 1); valueForms1(a, one(acos(a.x[0])), Acs{}); })
H(G07_out, { Vin<TR> v("v"), w("w"); Vin<PT> p("p"), q("q"); Vin<SD> s("s"); Vin<RR> r("r"); Vin<TW> t("t"); outForms<TR>(v.leaf + w.leaf, v.x + w.x); outForms<TR>(p.leaf - q.leaf, p.x - q.x); outForms<PT>(p.leaf + v.leaf, p.x + v.x); outForms<PT>(p.leaf - v.leaf, p.x - v.x); outForms<SD>(s.leaf * s.leaf, one(s.x[0] * s.x[0])); outForms<RR>(s.leaf * r.leaf, s.x[0] * r.x); outForms<TW>(t.leaf * s.leaf - t.leaf, s.x[0] * t.x - t.x); const double d = s.leaf * s.leaf - 1.0; vc_ensure_eq("to double", d, s.x[0] * s.x[0] - 1); const double d2 = v.leaf.squaredNorm(); vc_ensure_eq("to double", d2, dot(v.x, v.x)); })
H(G07_nested, { Vin<TR> v("v"), w("w"); Vin<PT> p("p"), q("q"); Vin<SD> s("s"), r("r"); vc_assume_ne(r.x[0], 0); const double c = dot(v.x, w.x);
    valueIs(eval(s.leaf * (v.leaf - w.leaf) + (p.leaf - q.leaf) / r.leaf - 2.0 * w.leaf), s.x[0] * (v.x - w.x) + (p.x - q.x) / r.x[0] - 2.0 * w.x);
    valueIs(eval(p.leaf + (q.leaf - p.leaf) * 0.5), p.x + 0.5 * (q.x - p.x)); valueIs(eval((v.leaf + p.leaf) - (w.leaf + q.leaf)), (v.x + p.x) - (w.x + q.x));
    valueIs(eval(dot(v.leaf, w.leaf) * v.leaf - w.leaf), c * v.x - w.x); valueIs(eval(dot(v.leaf - w.leaf, w.leaf) / r.leaf + s.leaf * r.leaf - 1.0), one(dot(v.x - w.x, w.x) / r.x[0] + s.x[0] * r.x[0] - 1));
    valueIs(eval(-(v.leaf - (w.leaf - v.leaf))), -1 * (v.x - (w.x - v.x))); valueIs(eval((s.leaf - r.leaf) - (r.leaf - s.leaf * s.leaf)), one((s.x[0] - r.x[0]) - (r.x[0] - s.x[0] * s.x[0]))); })
