// G06: Jacobians of exp, log, box-plus and box-minus for rotations.
#include "explog.hpp"
using namespace vc;
namespace {
constexpr double TOL = 8 * EPS;
inline RotationMd arg(const PhiIn &p, RotationMd *) { return RotationMd{p.m()}; }
inline RotationQd arg(const PhiIn &p, RotationQd *) { return RotationQd{p.q()}; }
inline RotationAd arg(const PhiIn &p, RotationAd *) { return RotationAd{Eigen::AngleAxisd(p.th, eig(p.a))}; }
inline M3 id() { return eye(); }
template <class JT> void shape3(const JT &J) { vc_ensure("shape", J.rows() == 3 && J.cols() == 3); }
template <class R> void jLog() { PhiIn p("P", true); const R r = arg(p, static_cast<R *>(nullptr)); const auto J = log(r).jacobian(r); shape3(J); ensureNear("dexp*dlog", mul(p.V(), mat3(J)), eye(), TOL); }
template <class R> void jLog0() { const R r{RotationMd{Eigen::Matrix3d{eig(eye())}}}; const auto J = log(r).jacobian(r); shape3(J); ensureEq("dlog at identity", mat3(J), eye()); }
template <class R> void jPlus() { In<R> x("X"); PhiIn p("P"); const RelativeRotationd d{eig(p.phi)}; const auto e = x.leaf + d; ensureNear("d(X+d)/dd", mat3(e.jacobian(d)), p.V(), TOL); ensureNear("d(X+d)/dX", mat3(e.jacobian(x.leaf)), p.R, TOL); }
template <class R> void jPlus0() { In<R> x("X"); const RelativeRotationd d{0., 0., 0.}; const auto e = x.leaf + d; ensureEq("d(X+0)/dd", mat3(e.jacobian(d)), eye()); ensureEq("d(X+0)/dX", mat3(e.jacobian(x.leaf)), eye()); }
}
// the specification V is the derivative of the specification exp
H(G06_lemma_rotation, { PhiIn p("P"); p.phiDirs(); for (int i = 0; i < p.nd; ++i) { V3 t = v3(p.tan[i].c[0], p.tan[i].c[1], p.tan[i].c[2]); derivRot(p.dir[i], p.R, mul(p.V(), t)); } })
H(G06_lemma_rigid, { PhiIn p("P"); V3 v = v3(vc_var_i("v", 0), vc_var_i("v", 1), vc_var_i("v", 2)); p.phiDirs(); M6 D = dexp(p, v); V3 t = mul(p.V(), v); for (int i = 0; i < p.nd; ++i) { V3 x = v3(p.tan[i].c[0], p.tan[i].c[1], p.tan[i].c[2]); ensureEq("dt", diff(p.dir[i], t), cross(mul(D.a, x), t) + mul(D.c, x)); } })
H(G06_exp, { PhiIn p("P"); const RelativeRotationd r{eig(p.phi)}; const auto J = exp(r).jacobian(r); shape3(J); ensureNear("dexp", mat3(J), p.V(), TOL); })
H(G06_exp0, { const RelativeRotationd r{0., 0., 0.}; const auto J = exp(r).jacobian(r); shape3(J); ensureEq("dexp at 0", mat3(J), eye()); })
H(G06_log_M, jLog<RM>())
H(G06_log_Q, jLog<RQ>())
H(G06_log_A, jLog<RA>())
H(G06_log0_M, jLog0<RM>())
H(G06_log0_Q, jLog0<RQ>())
H(G06_log0_A, jLog0<RA>())
H(G06_plus_M, jPlus<RM>())
H(G06_plus_Q, jPlus<RQ>())
H(G06_plus_A, jPlus<RA>())
H(G06_plus0_M, jPlus0<RM>())
H(G06_plus0_Q, jPlus0<RQ>())
H(G06_plus0_A, jPlus0<RA>())
