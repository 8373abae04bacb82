// G18: factors over vectors, points, rotations, transforms, scalars and compounds with independent noise.
#include "factors.hpp"
using namespace vc;
using Sc = Scalar<double>;
namespace {
struct FA; struct FB; struct FC;
struct FSum { template <class A, class B> auto operator()(const A &a, const B &b) { return a + b; } };
struct FDiff { template <class A, class B> auto operator()(const A &a, const B &b) { return a - b; } };
struct Act { template <class A, class B> auto operator()(const A &a, const B &b) { return a * b; } };
struct ActInv { template <class A, class B> auto operator()(const A &a, const B &b) { return inverse(a) * b; } };
struct FNorm { template <class A> auto operator()(const A &a) { return a.norm(); } };
struct Dist { template <class A, class B> auto operator()(const A &a, const B &b) { return (a - b).norm(); } };
struct FDot { template <class A, class B> auto operator()(const A &a, const B &b) { return dot(a, b); } };
struct FNeg { template <class A> auto operator()(const A &a) { return -a; } };
struct Twice { template <class A> auto operator()(const A &a) { return a + a; } };
struct Trans { template <class A> auto operator()(const A &a) { return a.translation(); } };
struct Mix { template <class A, class B, class S> auto operator()(const A &a, const B &b, const S &s) { return s * (a - b) + a; } };
struct Chain { template <class A, class B, class C> auto operator()(const A &a, const B &b, const C &c) { return a * b * c; } };
struct FProd { template <class A, class B> auto operator()(const A &a, const B &b) { return a * b; } };
struct Swap { template <class A, class B> auto operator()(const A &a, const B &b) { return b - a; } };
using Pr = cmp::Pair<Translationd, Sc>;
struct PairF { template <class A, class B> auto operator()(const A &a, const B &b) { return cmp::Pair<decltype(a - b), decltype(dot(a, b))>{a - b, dot(a, b)}; } };
using RB = cmp::Pair<Sc, Sc>;
struct PairS { template <class A, class B> auto operator()(const A &a, const B &b) { return cmp::Pair<decltype(a.norm()), decltype(dot(a, b))>{a.norm(), dot(a, b)}; } };
struct PairT { template <class T, class B> auto operator()(const T &a, const B &b) { return cmp::Pair<decltype(a * b), decltype(b.norm())>{a * b, b.norm()}; } };
inline double nrm(V3 v) { return sqrt(dot(v, v)); }
template <class L> D zcol(In<L> &z) { return col(z.val()); }
}
H(G18_sum, In<Translationd> a("a"), b("b"), z("z"); diagonalFactor<FSum>(z.leaf, zcol(z), col(a.val() + b.val()), a, b))
H(G18_difference, In<Translationd> a("a"), b("b"), z("z"); diagonalFactor<FDiff>(z.leaf, zcol(z), col(a.val() - b.val()), a, b))
H(G18_swapped, In<Translationd> a("a"), b("b"), z("z"); diagonalFactor<Swap>(z.leaf, zcol(z), col(b.val() - a.val()), a, b))
H(G18_points, In<Pointd> a("a"), b("b"); In<Translationd> z("z"); diagonalFactor<FDiff>(z.leaf, zcol(z), col(a.val() - b.val()), a, b))
H(G18_negated, In<Translationd> a("a"), z("z"); diagonalFactor<FNeg>(z.leaf, zcol(z), col(-a.val()), a))
H(G18_repeated, In<Translationd> a("a"), z("z"); diagonalFactor<Twice>(z.leaf, zcol(z), col(2.0 * a.val()), a))
H(G18_norm, In<Translationd> a("a"); In<Sc> z("z"); vc_assume_ne(dot(a.val(), a.val()), 0); diagonalFactor<FNorm>(z.leaf, zcol(z), col(nrm(a.val())), a))
H(G18_distance, In<Translationd> a("a"), b("b"); In<Sc> z("z"); vc_assume_ne(dot(a.val() - b.val(), a.val() - b.val()), 0); diagonalFactor<Dist>(z.leaf, zcol(z), col(nrm(a.val() - b.val())), a, b))
H(G18_dot, In<Translationd> a("a"), b("b"); In<Sc> z("z"); diagonalFactor<FDot>(z.leaf, zcol(z), col(dot(a.val(), b.val())), a, b))
H(G18_scalars, In<Sc> a("a"), b("b"); In<Sc> z("z"); diagonalFactor<FProd>(z.leaf, zcol(z), col(a.val() * b.val()), a, b))
H(G18_three, In<Translationd> a("a"), b("b"), z("z"); In<Sc> s("s"); diagonalFactor<Mix>(z.leaf, zcol(z), col(s.val() * (a.val() - b.val()) + a.val()), a, b, s))
H(G18_twist, In<Twistd> a("a"), b("b"), z("z"); diagonalFactor<FDiff>(z.leaf, zcol(z), [&] { D x = col(a.val()) - col(b.val()); return x; }(), a, b))
H(G18_relative, In<RelativeRotationd> a("a"), b("b"), z("z"); diagonalFactor<FSum>(z.leaf, zcol(z), col(a.val() + b.val()), a, b))
H(G18_rotated_M, In<RM> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<Act>(z.leaf, zcol(z), col(act(a.val(), b.val())), a, b))
H(G18_rotated_Q, In<RQ> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<Act>(z.leaf, zcol(z), col(act(a.val(), b.val())), a, b))
H(G18_rotated_A, In<RA> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<Act>(z.leaf, zcol(z), col(act(a.val(), b.val())), a, b))
H(G18_transformed_M, In<TM> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<Act>(z.leaf, zcol(z), col(act(a.val(), b.val())), a, b))
H(G18_transformed_Q, In<TQ> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<Act>(z.leaf, zcol(z), col(act(a.val(), b.val())), a, b))
H(G18_transformed_back, In<TM> a("a"); In<Translationd> b("b"), z("z"); diagonalFactor<ActInv>(z.leaf, zcol(z), col(mul(tr(a.val().R), b.val() - a.val().t)), a, b))
H(G18_chain, In<RM> a("a"); In<RQ> b("b"); In<Translationd> c("c"), z("z"); diagonalFactor<Chain>(z.leaf, zcol(z), col(act(a.val(), act(b.val(), c.val()))), a, b, c))
H(G18_translation, In<TM> a("a"); In<Translationd> z("z"); diagonalFactor<Trans>(z.leaf, zcol(z), col(a.val().t), a))
H(G18_pair, In<Translationd> a("a"), b("b"), z("z"); In<Sc> y("y"); Pr m{z.leaf, y.leaf}; diagonalFactor<PairF>(m, stack(zcol(z), zcol(y)), stack(col(a.val() - b.val()), col(dot(a.val(), b.val()))), a, b))
H(G18_pair_scalars, In<Translationd> a("a"), b("b"); In<Sc> z("z"), y("y"); RB m{z.leaf, y.leaf}; vc_assume_ne(dot(a.val(), a.val()), 0); diagonalFactor<PairS>(m, stack(zcol(z), zcol(y)), stack(col(nrm(a.val())), col(dot(a.val(), b.val()))), a, b))
H(G18_pair_transform, In<TM> a("a"); In<Translationd> b("b"), z("z"); In<Sc> y("y"); Pr m{z.leaf, y.leaf}; vc_assume_ne(dot(b.val(), b.val()), 0); diagonalFactor<PairT>(m, stack(zcol(z), zcol(y)), stack(col(act(a.val(), b.val())), col(nrm(b.val()))), a, b))
// ------------------------------------------------------------- frames: the same numbers
namespace {
template <class L, class... F> struct Fr : Dirs { In<L> in; Framed<L, F...> leaf; explicit Fr(const char *n) : Dirs(), in(n), leaf(in.leaf.value()) { static_cast<Dirs &>(*this) = in; } const auto &val() const { return in.val(); } };
}
H(G18_framed, Fr<RM, FA, FB> a("a"); Fr<Translationd, FB, FB, FC> b("b"); Fr<Translationd, FA, FB, FC> z("z"); diagonalFactor<Act>(z.leaf, col(z.val()), col(act(a.val(), b.val())), a, b))
H(G18_framed_sum, Fr<Translationd, FA, FA, FB> a("a"); Fr<Translationd, FA, FB, FC> b("b"); Fr<Translationd, FA, FA, FC> z("z"); diagonalFactor<FSum>(z.leaf, col(z.val()), col(a.val() + b.val()), a, b))
H(G18_framed_dist, Fr<Translationd, FA, FA, FB> a("a"); Fr<Translationd, FA, FA, FB> b("b"); In<Sc> z("z"); vc_assume_ne(dot(a.val() - b.val(), a.val() - b.val()), 0); diagonalFactor<Dist>(z.leaf, col(z.val()), col(nrm(a.val() - b.val())), a, b))
// ------------------------------------------------------------- box-minus as measurement: value and Jacobians are those of the expression
namespace {
template <class F, class Z, class A, class B> void modular(In<Z> &z, A &a, B &b) {
    const D s = sigmas("sigma", tangentSize<Z>);
    const Uncertain<Z, DiagonalNoise> meas{z.leaf, diagNoise<Z>(s)};
    const auto fac = makeFactor<F>(meas, var<A>(), var<B>());
    const auto e = F{}(a, b); const auto [x, Ja, Jb] = e.evalWithJacobians(a, b);
    const auto xp = x.eval(); const D r = ddiag(inverses(s)) * (col(view(xp)) - col(z.val()));
    same("residual", fac.evaluate(a, b), r);
    const auto t = fac.evaluateWithJacobians(a, b);
    same("residual with Jacobians", std::get<0>(t), r);
    ensureEqMat("wrt 1", std::get<1>(t), Ja); ensureEqMat("wrt 2", std::get<2>(t), Jb);
}
}
H(G18_boxminus_M, PhiIn p("p", true); In<RelativeRotationd> z("z"); RM a{p.m()}; RM b{Eigen::Matrix3d::Identity()}; modular<FDiff>(z, a, b))
H(G18_boxminus_Q, PhiIn p("p", true); In<RelativeRotationd> z("z"); RQ a{p.q()}; RQ b{Eigen::Quaterniond::Identity()}; modular<FDiff>(z, a, b))
// ------------------------------------------------------------- noise models built from standard deviations
namespace {
template <class L> void stdDev() { const D s = sigmas("sigma", tangentSize<L>); const auto v = fix<tangentSize<L>, 1>(s); const auto n = DiagonalNoise<L>::FromStdDev(v); checkDiag(n, s); auto k = n; checkDiag(k, s); { Ctx c("given up"); auto a = n; same("covariance", std::move(a).covariance().diagonal(), squares(s)); auto b = n; same("inverse square root", std::move(b).inverseSqrtCov().diagonal(), inverses(s)); } { Ctx c("of a temporary"); const auto x = DiagonalNoise<L>::FromStdDev(v).covariance(); same("covariance", x.diagonal(), squares(s)); const auto y = DiagonalNoise<L>::FromStdDev(v).inverseSqrtCov(); same("inverse square root", y.diagonal(), inverses(s)); } { Ctx c("of an expression"); const auto m = DiagonalNoise<L>::FromStdDev(2 * v); checkDiag(m, 2.0 * s); } { Ctx c("of a dynamic vector"); const Eigen::VectorXd w = v; checkDiag(DiagonalNoise<L>::FromStdDev(w), s); } }
}
H(G18_stddev_vector, stdDev<Translationd>())
H(G18_stddev_twist, stdDev<Twistd>())
H(G18_stddev_rotation, stdDev<RelativeRotationd>())
H(G18_stddev_compound, stdDev<Pr>())
H(G18_stddev_rigid, stdDev<TQ>())
H(G18_stddev_scalar, stdDev<Sc>())
H(G18_stddev_coefficients, const D s = sigmas("s", 6); double a = s.a[0][0], b = s.a[1][0], c = s.a[2][0], d = s.a[3][0], e = s.a[4][0], f = s.a[5][0]; checkDiag(DiagonalNoise<Translationd>::FromStdDev(a, b, c), dblk(s, 0, 0, 3, 1)); checkDiag(DiagonalNoise<Twistd>::FromStdDev(a, b, c, d, e, f), s); checkDiag(DiagonalNoise<Sc>::FromStdDev(c), dblk(s, 2, 0, 1, 1)); checkDiag(DiagonalNoise<Pr>::FromStdDev(a, b, c, d), dblk(s, 0, 0, 4, 1)); checkDiag(DiagonalNoise<TM>::FromStdDev(a, b, c, d, e, f), s))
H(G18_stddev_integers, D s = dzero(3, 1); s.a[0][0] = 1; s.a[1][0] = 2; s.a[2][0] = 4; checkDiag(DiagonalNoise<Translationd>::FromStdDev(1, 2, 4), s); checkDiag(DiagonalNoise<Translationd>::FromStdDev(1.f, 2., 4), s); s.a[0][0] = 3; checkDiag(DiagonalNoise<Sc>::FromStdDev(3), dblk(s, 0, 0, 1, 1)))
// ------------------------------------------------------------- variables of a factor, in order
H(G18_variables, In<Translationd> z("z"), a("a"), b("b"); auto va = var<Translationd>(); auto vb = var<RM>(); const Uncertain<Translationd, DiagonalNoise> m{z.leaf, DiagonalNoise<Translationd>::FromStdDev(1., 2., 3.)}; const auto f = makeFactor<Act>(m, vb, va); const FactorBase &g = f; vc_ensure("size", g.size() == 2); vc_ensure("first", f.begin()[0].get() == vb.get()); vc_ensure("second", f.begin()[1].get() == va.get()); vc_ensure("end", f.end() - f.begin() == 2); va->value() = a.leaf; const auto &k = *va; ensureEq("value", view(k.value()), a.val()); va->data()[1] = b.val()[2]; ensureEq("written through data", view(k.value()), v3(a.val()[0], b.val()[2], a.val()[2])); vc_ensure("sizes", va->size() == 3 && vb->size() == 9); ensureEq("given up", view(std::move(*va).value()), v3(a.val()[0], b.val()[2], a.val()[2])))
H(G18_evaluated_at_variables, In<Translationd> z("z"), a("a"), b("b"); auto va = var<Translationd>(); auto vb = var<Translationd>(); const Uncertain<Translationd, DiagonalNoise> m{z.leaf, DiagonalNoise<Translationd>::FromStdDev(2., 2., 4.)}; const auto f = makeFactor<FDiff>(m, va, vb); va->value() = a.leaf; vb->value() = b.leaf; const V3 r = a.val() - b.val() - z.val(); ensureEq("residual", vec(f.evaluate(va->value(), vb->value())), v3(r[0] / 2, r[1] / 2, r[2] / 4)); va->value() = b.leaf; const V3 q = -z.val(); ensureEq("moved", vec(f.evaluate(va->value(), vb->value())), v3(q[0] / 2, q[1] / 2, q[2] / 4)))
