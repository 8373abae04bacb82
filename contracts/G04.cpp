// G04: box-plus and box-minus of rotations: X + d = exp(d)*X, X - Y = log(X*inverse(Y)), and they undo each other.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 16 * EPS;
using RR = RelativeRotationd;
// inputs without tangent directions
template <class X> void plus() {
    In<X> x("X"); PhiIn p("P"); const RR d{eig(p.phi)}; const M3 want = mul(p.R, x.val());
    ensureNear("X + d", view(eval(x.leaf + d)), want, TOL);
    { Ctx c("operands unchanged"); ensureEq("X", view(x.leaf), x.val()); ensureEq("d", view(d), p.phi); }
}
template <class X> void plusForms() {
    In<X> x("X"); PhiIn p("P"); const RR d{eig(p.phi)}; const M3 want = mul(p.R, x.val());
    ensureNear("temporaries", view(eval(X{x.leaf} + RR{eig(p.phi)})), want, TOL);
    { const RM m{x.leaf + d}; ensureNear("to matrix", view(m), want, TOL); }
    { X y{x.leaf}; y = y + d; ensureNear("X = X + d", view(y), want, TOL); }
    { const auto e = x.leaf + d; ensureNear("stored", view(e.eval()), want, TOL); }
    { const auto e = inverse(x.leaf) + d; ensureNear("inverse(X) + d", view(eval(e)), mul(p.R, tr(x.val())), TOL); }
    { const auto e = x.leaf + (-d); ensureNear("X + (-d)", view(eval(e)), mul(tr(p.R), x.val()), TOL); }
}
template <class X> void plus0() { In<X> x("X"); const RR d{0., 0., 0.}; ensureEq("X + 0", view(eval(x.leaf + d)), x.val()); ensureEq("X - X", view(eval(x.leaf - X{x.leaf})), v3(0, 0, 0)); ensureEq("X - X (same object)", view(eval(x.leaf - x.leaf)), v3(0, 0, 0)); }
// box-plus is exp(d)*X, box-minus is log(X*inverse(Y)), for every mix of representations (no restriction on the operands)
template <class X> void plusIs() { In<X> x("X"); PhiIn p("P"); const RR d{eig(p.phi)}; ensureEq("X + d == exp(d)*X", view(eval(x.leaf + d)), view(eval(exp(d) * x.leaf))); }
template <class X, class Y> void minusIs() { PhiIn p("P", true); In<Y> y("Y"); const RM z{eig(mul(p.R, y.val()))}; const X x{z}; ensureEq("X - Y == log(X*inverse(Y))", view(eval(x - y.leaf)), view(eval(log(x * inverse(y.leaf))))); }
template <class X, class Y> void minus(const PhiIn &p, const X &x, const Y &y) {
    ensureNear("X - Y", view(eval(x - y)), p.phi, TOL * p.th);
    { Ctx c("forms"); const RR r{x - y}; ensureNear("construct", view(r), p.phi, TOL * p.th); ensureNear("temporaries", view(eval(X{x} - Y{y})), p.phi, TOL * p.th); const auto e = x - y; ensureNear("stored", view(eval(e)), p.phi, TOL * p.th); }
    { Ctx c("round trip"); ensureNear("Y + (X - Y)", view(eval(y + (x - y))), view(x), TOL); }
}
template <class Y> void minusM() { PhiIn p("P", true); In<Y> y("Y"); const RM x{eig(mul(p.R, y.val()))}; minus(p, x, y.leaf); }
template <class X> void minusToM() { PhiIn p("P", true); In<X> x("X"); const RM y{eig(mul(tr(p.R), x.val()))}; minus(p, x.leaf, y); }
Eigen::Quaterniond qmul(const Eigen::Quaterniond &q, const double *r) { return Eigen::Quaterniond(q.w() * r[0] - q.x() * r[1] - q.y() * r[2] - q.z() * r[3], q.w() * r[1] + q.x() * r[0] + q.y() * r[3] - q.z() * r[2], q.w() * r[2] - q.x() * r[3] + q.y() * r[0] + q.z() * r[1], q.w() * r[3] + q.x() * r[2] - q.y() * r[1] + q.z() * r[0]); }
void minusQQ(double sgn) { PhiIn p("P", true); In<RQ> y("Y"); const RQ x{qmul(p.q(sgn), y.q)}; minus(p, x, y.leaf); }
// (X + d) - X = d
template <class X> void undo() { In<X> x("X"); PhiIn p("P", true); const RR d{eig(p.phi)}; const auto e = (x.leaf + d) - x.leaf; ensureNear("(X + d) - X", view(eval(e)), p.phi, TOL * p.th); const auto y = eval(x.leaf + d); ensureNear("Z = X + d; Z - X", view(eval(y - x.leaf)), p.phi, TOL * p.th); }
}
H(G04_plus_M, plus<RM>())
H(G04_plus_Q, plus<RQ>())
H(G04_plus_A, plus<RA>())
H(G04_plusforms_M, plusForms<RM>())
H(G04_plusforms_Q, plusForms<RQ>())
H(G04_plus0_M, plus0<RM>())
H(G04_plus0_Q, plus0<RQ>())
H(G04_plus0_A, plus0<RA>())
H(G04_plus_is_M, plusIs<RM>())
H(G04_plus_is_Q, plusIs<RQ>())
H(G04_plus_is_A, plusIs<RA>())
H(G04_minus_MM, minusM<RM>())
H(G04_minus_MQ, minusM<RQ>())
H(G04_minus_MA, minusM<RA>())
H(G04_minus_QM, minusToM<RQ>())
H(G04_minus_AM, minusToM<RA>())
H(G04_minus_QQ, minusQQ(1))
H(G04_minus_QQneg, minusQQ(-1))
H(G04_undo_M, undo<RM>())
H(G04_undo_Q, undo<RQ>())
H(G04_undo_A, undo<RA>())
