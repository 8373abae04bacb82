// G21: assignment to parts of transforms and twists, and assignment of expressions over the assigned leaf (owning leaves).
// NATIVE: asan
#define KIT Kit
#include "mapped.hpp"
#include "compounds.hpp"
namespace {
// assigning one part: f(x, k) gives the new part from the whole object; the other part keeps its numbers
template <class O> void rotPart(const char *l, const O &o, const M3 &R, const O &old) { Ctx c(l); ensureEq("rotation", rotOf(view(o)), R); ensureEq("translation kept", view(o).t, view(old).t); valid(o); }
template <class O> void trPart(const char *l, const O &o, V3 t, const O &old) { Ctx c(l); ensureEq("translation", view(o).t, t); ensureEq("rotation kept", view(o).R, view(old).R); valid(o); }
template <class O, class F> void setRot(F f) { const Kit k; In<O> x("x"); const RM want{f(x.leaf, k)}; { O o{x.leaf}; o.rotation() = f(o, k); rotPart("owning", o, view(want), x.leaf); } }
template <class O, class F> void setTr(F f) { const Kit k; In<O> x("x"); const TR want{f(x.leaf, k)}; { O o{x.leaf}; o.translation() = f(o, k); trPart("owning", o, view(want), x.leaf); } }
template <class Y, class F> void setRotM(F f) { using O = typename Y::Own; const Kit k; In<O> x("x"); O o{x.leaf}; o.rotation() = f(o, k); Mem<Y> m(x.leaf); m.leaf.rotation() = f(m.leaf, k); m.holds("mapped", o); }
template <class Y, class F> void setTrM(F f) { using O = typename Y::Own; const Kit k; In<O> x("x"); O o{x.leaf}; o.translation() = f(o, k); Mem<Y> m(x.leaf); m.leaf.translation() = f(m.leaf, k); m.holds("mapped", o); }
template <class Y, class F> void twRot(F f) { const Kit k; In<TW> x("x"); const RR want{f(x.leaf, k)}; TW o{x.leaf}; o.rotation() = f(o, k); ensureEq("rotation", view(o).w, view(want)); ensureEq("translation kept", view(o).v, x.x.v); Mem<Y> m(x.leaf); m.leaf.rotation() = f(m.leaf, k); m.holds("mapped", o); }
template <class Y, class F> void twTr(F f) { const Kit k; In<TW> x("x"); const TR want{f(x.leaf, k)}; TW o{x.leaf}; o.translation() = f(o, k); ensureEq("translation", view(o).v, view(want)); ensureEq("rotation kept", view(o).w, x.x.w); Mem<Y> m(x.leaf); m.leaf.translation() = f(m.leaf, k); m.holds("mapped", o); }
using YT = Contig<TM, MatrixRigidTransform, M4d>; using YW = Contig<TW, wave::Twist, V6d>; using YS = Strided<TW, wave::Twist, V6d>;
}
#define PART(kind, n, Z, ...) H(G21_##kind##_##n, kind<Z>([](const auto &x, const auto &k) { return __VA_ARGS__; }))
#define ROTP(n, ...) PART(setRot, M_##n, TM, __VA_ARGS__) PART(setRot, Q_##n, TQ, __VA_ARGS__) PART(setRotM, M_##n, YT, __VA_ARGS__) PART(setRotM, row_##n, RigidRow, __VA_ARGS__) PART(setRotM, blk_##n, RigidBlock, __VA_ARGS__) PART(setRotM, Q_##n, CompactQ, __VA_ARGS__) PART(setRotM, gap_##n, CompactGap, __VA_ARGS__)
#define TRP(n, ...) PART(setTr, M_##n, TM, __VA_ARGS__) PART(setTr, Q_##n, TQ, __VA_ARGS__) PART(setTrM, M_##n, YT, __VA_ARGS__) PART(setTrM, row_##n, RigidRow, __VA_ARGS__) PART(setTrM, blk_##n, RigidBlock, __VA_ARGS__) PART(setTrM, Q_##n, CompactQ, __VA_ARGS__) PART(setTrM, gap_##n, CompactGap, __VA_ARGS__)
ROTP(inv, inverse(x.rotation())) ROTP(mulQ, x.rotation() * k.Q.leaf) ROTP(sq, x.rotation() * x.rotation()) ROTP(lmulQ, k.Q.leaf * inverse(x.rotation()))
TRP(neg, -x.translation()) TRP(act, x.rotation() * x.translation()) TRP(whole, x * x.translation()) TRP(add, k.v.leaf - inverse(x.rotation()) * x.translation()) TRP(inv, inverse(x) * k.v.leaf)
#define TWP(n, ...) PART(twRot, n, YW, __VA_ARGS__) PART(twRot, s_##n, YS, __VA_ARGS__)
#define TWT(n, ...) PART(twTr, n, YW, __VA_ARGS__) PART(twTr, s_##n, YS, __VA_ARGS__)
TWP(neg, -x.rotation()) TWP(add, x.rotation() + k.r.leaf) TWP(scale, x.rotation() * 2.0) TWT(neg, -x.translation()) TWT(rot, k.R.leaf * x.translation()) TWT(mix, x.translation() - (k.v.leaf + x.translation()))
// owning leaves assigned from expressions over themselves
SELF(R_inv, RM, inverse(x)) SELF(R_sq, RM, x * x) SELF(R_l, RM, k.R.leaf * x) SELF(R_r, RM, x * k.R.leaf) SELF(R_deep, RM, inverse(x) * (k.R.leaf * x)) SELF(R_plus, RM, x + k.r.leaf) SELF(R_viaQ, RM, k.Q.leaf * x) SELF(R_square, RM, (x * x) * (x * x)) SELF(R_conj, RM, x * k.R.leaf * inverse(x))
SELF(Q_inv, RQ, inverse(x)) SELF(Q_sq, RQ, x * x) SELF(Q_l, RQ, k.Q.leaf * x) SELF(Q_r, RQ, x * k.Q.leaf) SELF(Q_deep, RQ, inverse(x) * (k.Q.leaf * x)) SELF(Q_plus, RQ, x + k.r.leaf)
SELF(T_inv, TM, inverse(x)) SELF(T_sq, TM, x * x) SELF(T_l, TM, k.T.leaf * x) SELF(T_r, TM, x * k.T.leaf) SELF(T_deep, TM, inverse(x) * (k.T.leaf * x)) SELF(T_plus, TM, x + k.t.leaf) SELF(T_viaU, TM, k.U.leaf * x)
SELF(U_inv, TQ, inverse(x)) SELF(U_sq, TQ, x * x) SELF(U_l, TQ, k.U.leaf * x) SELF(U_r, TQ, x * k.U.leaf) SELF(U_deep, TQ, inverse(x) * (k.U.leaf * x))
SELF(v_act, TR, k.R.leaf * x) SELF(v_actT, TR, k.T.leaf * x) SELF(v_actQ, TR, inverse(k.Q.leaf) * x) SELF(v_mix, TR, k.U.leaf * (x - k.R.leaf * x)) SELF(v_scale, TR, dot(x, k.v.leaf) * x) SELF(v_norm, TR, x / (1.0 + x.squaredNorm())) SELF(v_cross, TR, x - (x + (x - k.v.leaf)))
SELF(w_sub, TW, k.t.leaf - x) SELF(w_scale, TW, x.squaredNorm() * x) SELF(r_log, RR, x + x)
// compounds: elements and whole compounds assigned from expressions over their own elements
namespace {
using PV = cmp::Pair<TR, TR>; using SV = cmp::State<RM, PT, TR>;
template <class A, class B> auto lazyPair(A &&a, B &&b) { return cmp::Pair<internal::arg_t<A>, internal::arg_t<B>>{std::forward<A>(a), std::forward<B>(b)}; }
template <class P> void pairIs(const char *l, const P &p, V3 a, V3 b) { Ctx c(l); ensureEq("first", view(p.template get<0>()), a); ensureEq("second", view(p.template get<1>()), b); }
}
H(G21_pair_elem, { In<TR> a("a"), b("b"); In<RM> R("R"); PV p{a.leaf, b.leaf}; p.get<0>() = p.get<1>() - p.get<0>(); pairIs("elem", p, b.v - a.v, b.v); p.get<1>() = R.leaf * (p.get<1>() + p.get<0>()); pairIs("elem 2", p, b.v - a.v, mul(R.R, b.v + b.v - a.v)); })
H(G21_pair_swap, { In<TR> a("a"), b("b"); PV p{a.leaf, b.leaf}; p = lazyPair(p.get<1>(), p.get<0>()); pairIs("swapped", p, b.v, a.v); p = lazyPair(p.get<1>() + p.get<0>(), p.get<0>() - p.get<1>()); pairIs("butterfly", p, a.v + b.v, b.v - a.v); p = lazyPair(-p.get<1>(), -p.get<0>()); pairIs("negated swap", p, a.v - b.v, -(a.v + b.v)); })
H(G21_pair_sum, { In<TR> a("a"), b("b"); PV p{a.leaf, b.leaf}; p = p + p; pairIs("double", p, a.v + a.v, b.v + b.v); p = p - PV{a.leaf, b.leaf}; pairIs("back", p, a.v, b.v); })
H(G21_state_elem, { In<RM> R("R"), Q("Q"); In<PT> x("x"); In<TR> v("v"); SV s{R.leaf, x.leaf, v.leaf}; s.get<2>() = s.get<0>() * s.get<2>(); ensureEq("vec", view(s.get<2>()), mul(R.R, v.v)); s.get<1>() = s.get<1>() + s.get<2>(); ensureEq("point", view(s.get<1>()), x.v + mul(R.R, v.v)); s.get<0>() = inverse(s.get<0>()) * Q.leaf * s.get<0>(); ensureEq("rot", view(s.get<0>()), mul(tr(R.R), mul(Q.R, R.R))); ensureEq("vec kept", view(s.get<2>()), mul(R.R, v.v)); ensureEq("point kept", view(s.get<1>()), x.v + mul(R.R, v.v)); })
H(G21_state_copy, { In<RM> R("R"), Q("Q"); In<PT> x("x"); In<TR> v("v"), w("w"); SV s{R.leaf, x.leaf, v.leaf}, t{Q.leaf, x.leaf, w.leaf}; s = t; t.get<0>() = R.leaf; t.get<2>() = v.leaf; ensureEq("rot", view(s.get<0>()), Q.R); ensureEq("vec", view(s.get<2>()), w.v); s = std::move(t); ensureEq("moved rot", view(s.get<0>()), R.R); ensureEq("moved vec", view(s.get<2>()), v.v); auto &q = s; s = q; ensureEq("self rot", view(s.get<0>()), R.R); ensureEq("self vec", view(s.get<2>()), v.v); })
// memory shared by different leaves: the old values are used
H(G21_shared_column, { In<RM> R("R"); double b[9]; for (int i = 0; i < 9; ++i) b[i] = R.leaf.value().coeff(i % 3, i / 3); MatrixRotation<EMap<M3d>> m{EMap<M3d>{b}}; wave::Translation<EMap<V3d>> c{EMap<V3d>{b + 3}}; c = m * c; ensureEq("column", v3(b[3], b[4], b[5]), mul(R.R, mul(R.R, v3(0, 1, 0)))); ensureEq("other column", v3(b[0], b[1], b[2]), mul(R.R, v3(1, 0, 0))); ensureEq("last column", v3(b[6], b[7], b[8]), mul(R.R, v3(0, 0, 1))); })
H(G21_shared_translation, { In<TM> T("T"); TM o{T.leaf}; wave::Translation<Eigen::Block<M4d, 3, 1>> c{o.value().block<3, 1>(0, 3)}; c = o * c; ensureEq("whole", view(o), Rigid{T.R, mul(T.R, T.t) + T.t}); valid(o); })
H(G21_shared_overlap, { In<TR> a("a"); double b[4] = {a.v[0], a.v[1], a.v[2], 7}; wave::Translation<EMap<V3d>> m{EMap<V3d>{b}}, n{EMap<V3d>{b + 1}}; n = -m; ensureEq("shifted", v3(b[1], b[2], b[3]), -a.v); vc_ensure_eq("kept", b[0], a.v[0]); m = n + m; ensureEq("back", v3(b[0], b[1], b[2]), v3(0, -a.v[0] - a.v[1], -a.v[1] - a.v[2])); vc_ensure_eq("last", b[3], -a.v[2]); })
