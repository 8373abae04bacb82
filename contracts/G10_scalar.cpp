// G10: built-in and library scalars as differentiation targets, in every mode.
// SCOPE: internal
#include "modes.hpp"
namespace {
template <class E, class S> void builtin(const E &e, const S &d) {
    const auto v = eval(e); const auto ref = std::get<1>(internal::evaluateWithDynamicJacobians(e, d));
    { Ctx c("auto"); auto t = e.evalWithJacobians(d); sameVal(std::get<0>(t), v); same("", std::get<1>(t), ref); }
    { Ctx c("forward"); auto t = internal::evaluateWithJacobians(e, d); sameVal(std::get<0>(t), v); same("", std::get<1>(t), ref); }
    { Ctx c("dynamic reverse"); auto t = internal::evaluateWithDynamicReverseJacobians(e); sameVal(t.first, v); same("", t.second.at(&d), ref); }
    if constexpr (internal::unique_leaves_t<E>{}) { { Ctx c("typed"); auto t = internal::evaluateWithTypedJacobians(e, d); sameVal(std::get<0>(t), v); same("", std::get<1>(t), ref); } { Ctx c("reverse"); auto t = e.evalWithJacobians(); sameVal(std::get<0>(t), v); same("", std::get<1>(t), ref); } }
}
}
H(G10_builtin_scale, { double d = vc_var("d"); In<TR> v("v"); builtin(d * v.leaf, d); })
H(G10_builtin_scale_r, { double d = vc_var("d"); In<TR> v("v"); const auto e = v.leaf * d; auto t = internal::evaluateWithDynamicReverseJacobians(e); same("d", t.second.at(&d), std::get<1>(e.evalWithJacobians(d))); same("dyn", std::get<1>(internal::evaluateWithDynamicJacobians(e, d)), std::get<1>(e.evalWithJacobians(d))); })
H(G10_builtin_twice, { double d = vc_var("d"); In<TR> v("v"); builtin(d * (d * v.leaf), d); })
H(G10_builtin_two, { double d = vc_var("d"), f = vc_var("f"); In<TR> v("v"); const auto e = d * (f * v.leaf); builtin(e, d); builtin(e, f); })
H(G10_builtin_scalar, { double d = vc_var("d"); In<SD> s("s"); builtin(d * s.leaf, d); builtin(d + s.leaf, d); builtin(d - s.leaf, d); })
H(G10_lib_scalar, { In<SD> s("s"); In<TR> v("v"); const auto e = s.leaf * (s.leaf * v.leaf); all(e, s.leaf, v.leaf); })
// chains of scalar operations
T2(s_addmul, SD, SD, (x + y) * y) T2(s_negmul, SD, SD, -((x + y) * y)) T2(s_sub, SD, SD, x - (x + y) * x) T2(s_nest, SD, SD, y * ((x - y) * (x * y))) T2(s_four, SD, SD, -(-(x * y) - (y + x))) T2(s_const, SD, SD, 2.0 - 3.0 * (x * (y + 1.0)))
T2(s_vec, SD, TR, dot(y * (x + x), y) - x) T3(s_dot, TR, TR, SD, z - dot(x, y) * (z + z)) T3(s_sq, TR, RM, SD, z - (x + y * x).squaredNorm() * (z + z)) T2(s_scale, SD, TR, y * (x + x) - y * x) T2(s_diff, SD, TR, x - (y.squaredNorm() + x) * (dot(y, y) - x))
H(G10_s_div, { In<SD> x("x"), y("y"); vc_assume_ne(y.x, 0); const SD &a = x.leaf, &b = y.leaf; { Ctx c("1"); all(a - (a + b) / b, a, b); } { Ctx c("2"); all(-((a * b) / b), a, b); } { Ctx c("3"); all((a / b) / b, a, b); } { Ctx c("4"); all(1.0 - a * (a / b), a, b); } })
H(G10_s_builtin, { double d = vc_var("d"); In<SD> s("s"); const SD &a = s.leaf; { Ctx c("1"); builtin(a - (a + d) * d, d); } { Ctx c("2"); builtin(-(d * (a * a)), d); } { Ctx c("3"); builtin((a - d) * (a + d) - d, d); } })
