// G08: Jacobians of vector, point and scalar operations are the partial derivatives of the formula.
#include "vecops.hpp"
using namespace vc;
namespace {
template <class A, class B> void add() { Vin<A> a("a"); Vin<B> b("b"); jacForms(a, b, a.x + b.x, Add{}); }
template <class A, class B> void sub() { Vin<A> a("a"); Vin<B> b("b"); jacForms(a, b, a.x - b.x, Sub{}); }
template <class A> void dots() { Vin<A> a("a"), b("b"); jacForms(a, b, one(dot(a.x, b.x)), Dot_{}); jacIs(dot(a.leaf, a.leaf).jacobian(a.leaf), one(dot(a.x, a.x)), a); }
template <class A> void self() { Vin<A> a("a"); jacIs((a.leaf + a.leaf).jacobian(a.leaf), a.x + a.x, a); jacIs((a.leaf - a.leaf).jacobian(a.leaf), a.x - a.x, a); }
template <class A, class S> void scale() { Vin<A> a("a"); S s("s"); jacForms(s, a, s.x[0] * a.x, Mul{}); jacForms(a, s, s.x[0] * a.x, Mul{}); }
template <class A, class S> void divide() { Vin<A> a("a"); S s("s"); vc_assume_ne(s.x[0], 0); jacForms(a, s, a.x / s.x[0], Div{}); }
template <class A> void unary() { Vin<A> a("a"); jacForms1(a, -1 * a.x, Neg{}); }
template <class A> void norms() { Vin<A> a("a"); const double n2 = dot(a.x, a.x); jacForms1(a, one(n2), SqN{}); vc_assume_lt(0, n2); jacForms1(a, one(sqrt(n2)), Nrm{}); jacForms1(a, a.x / sqrt(n2), Nzd{}); }
template <class A, class B> void scalarOps() { A a("a"); B b("b"); jacForms(a, b, a.x + b.x, Add{}); jacForms(a, b, a.x - b.x, Sub{}); jacForms(a, b, a.x[0] * b.x, Mul{}); vc_assume_ne(b.x[0], 0); jacForms(a, b, a.x / b.x[0], Div{}); }
template <int K> void ints() {
    Vin<SD> s("s"); Vin<TR> v("v"); const int k = K; const double x = s.x[0], K_ = K;
    jacIs((k + s.leaf).jacobian(s.leaf), one(K_ + x), s); jacIs((s.leaf + k).jacobian(s.leaf), one(x + K_), s); jacIs((k - s.leaf).jacobian(s.leaf), one(K_ - x), s); jacIs((s.leaf - k).jacobian(s.leaf), one(x - K_), s); jacIs((k * s.leaf).jacobian(s.leaf), one(K_ * x), s); jacIs((s.leaf * k).jacobian(s.leaf), one(K_ * x), s); jacIs((s.leaf / k).jacobian(s.leaf), one(x / K_), s);
    jacIs((k * v.leaf).jacobian(v.leaf), K_ * v.x, v); jacIs((v.leaf * k).jacobian(v.leaf), K_ * v.x, v); jacIs((v.leaf / k).jacobian(v.leaf), v.x / K_, v); jacIs(((K - s.leaf) * (K + s.leaf)).jacobian(s.leaf), one((K_ - x) * (K_ + x)), s);
    vc_assume_ne(x, 0); jacIs((k / s.leaf).jacobian(s.leaf), one(K_ / x), s); jacIs(((K / s.leaf) * v.leaf).jacobian(s.leaf), (K_ / x) * v.x, s);
}
}
H(G08_add_T, add<TR, TR>()) H(G08_add_R, add<RR, RR>()) H(G08_add_W, add<TW, TW>()) H(G08_add_PT, add<PT, TR>()) H(G08_add_TP, add<TR, PT>())
H(G08_sub_T, sub<TR, TR>()) H(G08_sub_R, sub<RR, RR>()) H(G08_sub_W, sub<TW, TW>()) H(G08_sub_PP, sub<PT, PT>()) H(G08_sub_PT, sub<PT, TR>())
H(G08_dot_T, dots<TR>()) H(G08_dot_R, dots<RR>()) H(G08_dot_W, dots<TW>())
H(G08_self_T, self<TR>()) H(G08_self_R, self<RR>()) H(G08_self_W, self<TW>()) H(G08_self_S, self<SD>())
H(G08_scale_T, scale<TR, Vin<SD>>()) H(G08_scale_R, scale<RR, Vin<SD>>()) H(G08_scale_W, scale<TW, Vin<SD>>())
H(G08_scaleD_T, scale<TR, Din>()) H(G08_scaleD_R, scale<RR, Din>()) H(G08_scaleD_W, scale<TW, Din>())
H(G08_divide_T, divide<TR, Vin<SD>>()) H(G08_divide_R, divide<RR, Vin<SD>>()) H(G08_divide_W, divide<TW, Vin<SD>>())
H(G08_divideD_T, divide<TR, Din>()) H(G08_divideD_R, divide<RR, Din>()) H(G08_divideD_W, divide<TW, Din>())
H(G08_neg_T, unary<TR>()) H(G08_neg_R, unary<RR>()) H(G08_neg_W, unary<TW>()) H(G08_neg_S, unary<SD>())
H(G08_norms_T, norms<TR>()) H(G08_norms_R, norms<RR>()) H(G08_norms_W, norms<TW>())
H(G08_scalar_SS, scalarOps<Vin<SD>, Vin<SD>>()) H(G08_scalar_SD, scalarOps<Vin<SD>, Din>()) H(G08_scalar_DS, scalarOps<Din, Vin<SD>>())
H(G08_int_1, ints<1>()) H(G08_int_2, ints<2>()) H(G08_int_m3, ints<-3>()) H(G08_int_7, ints<7>())
H(G08_acos, { Vin<SD> a("a"); vc_assume_lt(-1, a.x[0]); vc_assume_lt(a.x[0], 1); jacForms1(a, one(acos(a.x[0])), Acs{}); })
