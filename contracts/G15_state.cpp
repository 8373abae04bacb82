// G15: dynamic proxies behave like the expressions they hold (re-binding, copies, sharing, nesting, current values, references).
#include "proxies.hpp"
namespace {
struct Leaves { In<TR> v{"v"}, w{"w"}; In<RM> R{"R"}; In<RQ> Q{"Q"}; In<SD> s{"s"}; };
#define LEAVES Leaves L; TR &v = L.v.leaf, &w = L.w.leaf; RM &R = L.R.leaf; RQ &Q = L.Q.leaf; SD &s = L.s.leaf; (void)v; (void)w; (void)R; (void)Q; (void)s;
}
H(G15_rebind, { LEAVES auto p = makeProxy(v + w); agrees("first", p, v + w, v, w, R); p = makeProxy(R * v); agrees("second", p, R * v, v, w, R); agrees("second in context", p - w, R * v - w, v, w, R); p = makeProxy(-w); agrees("third", p, -w, v, w, R); p = s * v; agrees("assigned expression", p, s * v, v, w, s); })
H(G15_rebind_context, { LEAVES auto p = makeProxy(v + w); const auto before = R * p; p = makeProxy(s * v); const auto after = R * p; agrees("expression keeps what it was built from", before, R * (v + w), v, w, R, s); agrees("new expression", after, R * (s * v), v, w, R, s); })
H(G15_copy, { LEAVES auto p = makeProxy(R * v); auto q = p; agrees("copy", q, R * v, v, R, w); agrees("both", p + q, R * v + R * v, v, R, w); p = makeProxy(-w); agrees("copy unaffected", q, R * v, v, R, w); agrees("rebound", p, -w, v, R, w); agrees("mixed", p - q, -w - R * v, v, R, w); q = p; agrees("copy assigned", q, -w, v, R, w); auto m = std::move(q); agrees("moved", m, -w, v, R, w); })
H(G15_shared, { LEAVES const auto p = makeProxy(R * v); const auto q = p; const auto e = p + q; { const auto j = internal::evaluateJacobian(e, q); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) vc_ensure_eq("wrt shared", j(i, k), i == k ? 2 : 0); } { const auto j = internal::evaluateDynamicJacobian(e, p); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) vc_ensure_eq("wrt shared, dynamic", j(i, k), i == k ? 2 : 0); } const auto other = makeProxy(R * v); { const auto j = internal::evaluateJacobian(e, other); for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) vc_ensure_eq("wrt equal but distinct", j(i, k), 0); } })
// current values of the leaves, also after earlier evaluations and differentiations
H(G15_current, { LEAVES In<TR> nv("nv"); In<RM> nR("nR"); const auto p = makeProxy(R * v); const auto e = Q * p + w; agrees("before", e, Q * (R * v) + w, v, w, R, Q); v = nv.leaf; agrees("v changed", e, Q * (R * v) + w, v, w, R, Q); ensureEq("by value", view(eval(e)), mul(L.Q.R, mul(L.R.R, nv.v)) + L.w.v); R = nR.leaf; agrees("R changed", e, Q * (R * v) + w, v, w, R, Q); ensureEq("by value", view(eval(e)), mul(L.Q.R, mul(nR.R, nv.v)) + L.w.v); })
H(G15_current_jac, { LEAVES In<SD> ns("ns"); const auto p = makeProxy(s * v); const auto e = p + p; { const auto j = e.jacobian(v); for (int i = 0; i < 3; ++i) vc_ensure_eq("before", j(i, i), 2 * L.s.x); } s = ns.leaf; { const auto j = e.jacobian(v); for (int i = 0; i < 3; ++i) vc_ensure_eq("after", j(i, i), 2 * ns.x); } { const auto j = internal::evaluateDynamicJacobian(e, v); for (int i = 0; i < 3; ++i) vc_ensure_eq("dynamic", j(i, i), 2 * ns.x); } })
H(G15_owned, { LEAVES const auto p = makeProxy(TR{v}); const TR old{v}; In<TR> nv("nv"); v = nv.leaf; agrees("owned leaf", R * p, R * old, R, v); const auto q = makeProxy(R * TR{w}); agrees("owned operand", q + v, R * w + v, R, v); const Proxy<TR> z = TR{w}; agrees("from temporary", z, TR{w}, v); })
H(G15_nested, { LEAVES auto p = makeProxy(R * v); auto q = makeProxy(inverse(Q) * p); auto z = makeProxy(p + q); agrees("nested", z + w, (R * v + inverse(Q) * (R * v)) + w, v, w, R, Q); p = makeProxy(-w); agrees("nested, inner rebound", z + w, (R * v + inverse(Q) * (R * v)) + w, v, w, R, Q); z = s * z; agrees("self", z, s * (R * v + inverse(Q) * (R * v)), v, w, R, Q, s); })
H(G15_deep, { LEAVES auto p = makeProxy(TR{v}); auto R1 = makeProxy(RM{R}); auto Q1 = makeProxy(RM{R * Q}); p = R1 * p; p = Q1 * p; p = R1 * p; const RM c{R * Q}; const TR u{v}; ensureEq("value", view(eval(p)), view(eval(R * (c * (R * u))))); const auto e = R * (c * (R * u)); same("wrt rotation proxy", internal::evaluateJacobian(p, R1), internal::evaluateJacobian(e, R)); same("dynamic", internal::evaluateDynamicJacobian(p, R1), internal::evaluateJacobian(e, R)); same("auto", std::get<1>(p.evalWithJacobians(Q1)), internal::evaluateJacobian(e, c)); const auto t = p.evalWithJacobians(Q1, R1); same("all 1", std::get<1>(t), internal::evaluateJacobian(e, c)); same("all 2", std::get<2>(t), internal::evaluateJacobian(e, R)); })
H(G15_kinds, { LEAVES Proxy<TR> p = makeProxy(v + w); Proxy<SD> k = makeProxy(dot(v, w)); Proxy<RM> X = makeProxy(R * Q); agrees("mixed", X * (k * p), (R * Q) * (dot(v, w) * (v + w)), v, w, R, Q); Proxy<TR> all = makeProxy(X * (k * p)); agrees("held", all, (R * Q) * (dot(v, w) * (v + w)), v, w, R, Q); })
H(G15_point, { In<PT> p("p"), q("q"); In<TR> v("v"); auto a = makeProxy(p.leaf + v.leaf); agrees("p+v", a, p.leaf + v.leaf, p.leaf, v.leaf); agrees("difference", a - q.leaf, (p.leaf + v.leaf) - q.leaf, p.leaf, q.leaf, v.leaf); })
H(G15_twist, { In<TW> x("x"), y("y"); In<SD> s("s"); auto a = makeProxy(x.leaf - y.leaf * s.leaf); agrees("t", a + x.leaf, (x.leaf - y.leaf * s.leaf) + x.leaf, x.leaf, y.leaf, s.leaf); agrees("neg", y.leaf - a, y.leaf - (x.leaf - y.leaf * s.leaf), x.leaf, y.leaf, s.leaf); })
// non-owning references to a dynamic expression
H(G15_ref, { LEAVES const auto d1 = makeDynamic(R * v); const auto d2 = makeDynamic(s * w); auto p = ref(d1); agrees("first", p, R * v, v, w, R, s); agrees("context", Q * p + w, Q * (R * v) + w, v, w, R, Q); auto q = p; p = ref(d2); agrees("rebound", p, s * w, v, w, R, s); agrees("context 2", Q * p + w, Q * (s * w) + w, v, w, s, Q); agrees("copy", q, R * v, v, w, R, s); agrees("mixed", p + q, s * w + R * v, v, w, R, s); })
H(G15_ref_wrt, { LEAVES const auto d0 = makeDynamic(v); const auto p0 = ref(d0); const auto d1 = makeDynamic(R * p0); const auto p1 = ref(d1); const auto e = Q * p1; const auto f = Q * (R * v); same("leaf", internal::evaluateJacobian(e, v), internal::evaluateJacobian(f, v)); same("inner ref", internal::evaluateJacobian(e, p0), internal::evaluateJacobian(f, v)); same("outer ref", internal::evaluateJacobian(e, p1), mat3eig(L.Q.R)); same("outer object", internal::evaluateJacobian(e, d1), mat3eig(L.Q.R)); same("inner object", internal::evaluateJacobian(e, d0), internal::evaluateJacobian(f, v)); })
H(G15_ref_current, { LEAVES In<TR> nv("nv"); const auto d = makeDynamic(R * v); const auto p = ref(d); const auto e = p + w; agrees("before", e, R * v + w, v, w, R); v = nv.leaf; agrees("after", e, R * v + w, v, w, R); ensureEq("value", view(eval(e)), mul(L.R.R, nv.v) + L.w.v); })
